//! Nothing of it is used outside of the browser.
