#![allow(dead_code)]
#[path = "../../sx.rs"]
mod sx;
#[cfg(any(feature = "sched", feature = "governor", feature = "flight"))]
mod jobs;
#[cfg(feature = "sched")]
mod sched;
#[cfg(feature = "governor")]
mod governor;
#[cfg(feature = "flight")]
mod flight;
#[cfg(feature = "products")]
mod products;
#[cfg(feature = "demand")]
mod demand;
// everything that drives the whole server shares one build
#[cfg(feature = "ruby")]
mod srv;
#[cfg(feature = "ruby")]
mod text;
#[cfg(feature = "ruby")]
mod locals;
