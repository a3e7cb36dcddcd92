#![allow(dead_code)]
#[path = "../../sx.rs"]
mod sx;
#[cfg(feature = "classfile")]
mod archive;
#[cfg(feature = "classfile")]
mod classfile;
#[cfg(feature = "classfile")]
mod parts;
