//! (nothing of it is used)
