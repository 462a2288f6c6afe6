//! Normalization and the tests for it.
#[cfg(feature = "alloc")]
use alloc::string::{String, ToString};
#[cfg(feature = "alloc")]
use iri_string::format::ToDedicatedString;
use iri_string::types::*;

macro_rules! normal { ($($m:ident $b:ident $o:ident),*) => { $( pub mod $m {
    use super::*;
    // the same on separate sets of inputs
    #[cfg(feature = "alloc")] pub fn r_norm_opaque_sb(s: &$b) -> String { s.normalize().to_string() }
    #[cfg(feature = "alloc")] pub fn r_norm_tail_sb(s: &$b) -> String { s.normalize().to_dedicated_string().into() }
    #[cfg(feature = "alloc")] pub fn r_norm_userinfo_sb(s: &$b) -> String { <$o>::from(s.normalize()).into() }
    #[cfg(feature = "alloc")] pub fn r_norm_host_sb(s: &$b) -> String { s.normalize().to_string() }
    #[cfg(feature = "alloc")] pub fn r_norm_pcthost_sb(s: &$b) -> String { s.normalize().to_string() }
    #[cfg(feature = "alloc")] pub fn r_norm_literal_sb(s: &$b) -> String { s.normalize().to_string() }
    #[cfg(feature = "alloc")] pub fn r_norm_port_sb(s: &$b) -> String { s.normalize().to_dedicated_string().into() }
    #[cfg(feature = "alloc")] pub fn r_norm_path_sb(s: &$b) -> String { s.normalize().to_string() }
    #[cfg(feature = "alloc")] pub fn r_norm_chain_sb(s: &$b) -> String { s.normalize().to_string() }
    #[cfg(feature = "alloc")] pub fn r_norm_chain_absolute_sb(s: &$b) -> String { s.normalize().to_string() }
    #[cfg(feature = "alloc")] pub fn r_norm_chain_rootless_sb(s: &$b) -> String { s.normalize().to_string() }
    #[cfg(feature = "alloc")] pub fn r_norm_deep8_sb(s: &$b) -> String { s.normalize().to_string() }
    #[cfg(feature = "alloc")] pub fn r_norm_deep7_sb(s: &$b) -> String { s.normalize().to_string() }
    #[cfg(feature = "alloc")] pub fn r_norm_pctpath_sb(s: &$b) -> String { s.normalize().to_string() }
    #[cfg(feature = "alloc")] pub fn r_norm_absolute_sb(s: &$b) -> String { <$o>::from(&s.normalize()).into() }
    #[cfg(feature = "alloc")] pub fn r_norm_rootless_sb(s: &$b) -> String { s.normalize().to_dedicated_string().into() }
    #[cfg(feature = "alloc")] pub fn r_pres_path_sb(s: &$b) -> String { s.normalize_but_preserve_authorityless_relative_path().to_string() }
    #[cfg(feature = "alloc")] pub fn r_pres_absolute_sb(s: &$b) -> String { s.normalize_but_preserve_authorityless_relative_path().to_string() }
    #[cfg(feature = "alloc")] pub fn r_pres_rootless_sb(s: &$b) -> String { s.normalize_but_preserve_authorityless_relative_path().to_string() }
    pub fn r_is_normalized(s: &$b) -> bool { s.is_normalized() }
    pub fn r_is_normalized_rfc3986(s: &$b) -> bool { s.is_normalized_rfc3986() }
    pub fn r_is_normalized_preserving(s: &$b) -> bool { s.is_normalized_but_authorityless_relative_path_preserved() }
} )* } }
normal!(n_u_full UriStr UriString, n_u_abs UriAbsoluteStr UriAbsoluteString, n_i_full IriStr IriString, n_i_abs IriAbsoluteStr IriAbsoluteString);
