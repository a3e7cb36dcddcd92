#![allow(dead_code)]
#[path = "../../sx.rs"]
mod sx;
#[cfg(feature = "engine")]
mod calls;
#[cfg(feature = "engine")]
mod consts;
#[cfg(feature = "engine")]
mod dispatch;
#[cfg(feature = "engine")]
mod engine;
#[cfg(feature = "engine")]
mod facts;
#[cfg(feature = "engine")]
mod rename;
#[cfg(feature = "erb")]
mod erb;
#[cfg(feature = "position")]
mod position;
#[cfg(feature = "types")]
mod types;
#[cfg(feature = "yard")]
mod yard;
