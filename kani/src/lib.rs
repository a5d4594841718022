#![allow(dead_code)]
#[cfg(kani)]
mod cs;
#[cfg(kani)]
mod curve;
#[cfg(kani)]
mod enc;
#[cfg(kani)]
mod range;
#[cfg(kani)]
mod w;
