//! Harness: one function per public operation under analysis (never run).
#![feature(try_trait_v2, pattern, hasher_prefixfree_extras)]
#![allow(internal_features, dead_code, unused_imports)]
#[cfg(feature = "alloc")]
extern crate alloc;
extern crate core;
mod compare;
pub mod models;
mod template;
mod percent;
mod normal;
mod resolve;
mod build;
mod expand;
mod types;
mod writers;
mod validate;

/// Error type for deserialisation that carries nothing.
#[cfg(feature = "serde")]
#[derive(Debug)]
pub struct DeErr;
#[cfg(feature = "serde")]
impl core::fmt::Display for DeErr {
    fn fmt(&self, _: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { Ok(()) }
}
#[cfg(feature = "serde")]
impl std::error::Error for DeErr {}
#[cfg(feature = "serde")]
impl serde::de::Error for DeErr {
    fn custom<T: core::fmt::Display>(_: T) -> Self { DeErr }
}
/// Text produced by serialisation.
#[cfg(feature = "serde")]
pub struct Ser<T>(pub T);
#[cfg(feature = "serde")]
impl<T: serde::Serialize> core::fmt::Display for Ser<T> {
    fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { self.0.serialize(f) }
}
