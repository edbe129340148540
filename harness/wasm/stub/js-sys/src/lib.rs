//! Nothing of js-sys is used by what is compiled here.
