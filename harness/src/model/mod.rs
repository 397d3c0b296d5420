//! Reference models, written from the documented behaviour and independent of seam's code.

pub mod expand;
pub mod fmtstr;
pub mod formats;
pub mod markup;
pub mod reader;
pub mod time;
pub mod tree;
