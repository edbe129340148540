//! Nothing of the hook is used by what is compiled here.
