#!/bin/bash
# Build the simulator (all variants) from the committed files and /repo, offline.
cd "$(dirname "$0")" || exit 1
./check.sh build plain && ./check.sh build instr && ./check.sh build helpers
