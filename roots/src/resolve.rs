//! Resolution. The input is a base and a reference, separated by a line feed.
#[cfg(feature = "alloc")]
use alloc::string::{String, ToString};
use iri_string::types::*;

#[cfg(feature = "alloc")]
macro_rules! res { ($($m:ident $a:ident $r:ident: $($f:ident),*);*) => { $( pub mod $m {
    use super::*;
    fn go(x: &str) -> Option<String> {
        let (b, r) = x.split_once('\n')?;
        let b = $a::new(b).ok()?;
        let r = $r::new(r).ok()?;
        Some(r.resolve_against(b).to_string())
    }
    $(pub fn $f(x: &str) -> Option<String> { go(x) })*
    fn norm(x: &str) -> Option<String> {
        let (b, r) = x.split_once('\n')?;
        let b = $a::new(b).ok()?;
        let r = $r::new(r).ok()?;
        Some(r.resolve_against(b).and_normalize().to_string())
    }
    pub fn r_and_normalize0_sb(x: &str) -> Option<String> { norm(x) }
    pub fn r_and_normalize1_sb(x: &str) -> Option<String> { norm(x) }
} )* } }
#[cfg(feature = "alloc")]
res!(res_u UriAbsoluteStr UriReferenceStr: r_auth0_sb, r_auth1_sb, r_auth2_sb, r_base_sb, r_deep8_sb, r_deep9_sb, r_rootless0_sb, r_rootless1_sb, r_rootless2_sb, r_absolute1_sb, r_absolute2_sb, r_full_sb;
     res_i IriAbsoluteStr IriReferenceStr: r_auth0_sb, r_auth1_sb, r_auth2_sb, r_base_sb, r_deep8_sb, r_deep9_sb, r_rootless0_sb, r_rootless1_sb, r_rootless2_sb, r_absolute1_sb, r_absolute2_sb, r_full_sb);

/// What a resolver shows of its base.
macro_rules! views { ($($m:ident $a:ident),*) => { $( pub mod $m {
    use super::*;
    use iri_string::resolve::FixedBaseResolver;
    pub fn r_base(x: &$a) -> &str { FixedBaseResolver::new(x).base().as_str() }
    #[cfg(feature = "alloc")] pub fn r_scheme(x: &$a) -> String { FixedBaseResolver::new(x).scheme_str().into() }
    #[cfg(feature = "alloc")] pub fn r_authority(x: &$a) -> Option<String> { FixedBaseResolver::new(x).authority_str().map(Into::into) }
    #[cfg(feature = "alloc")] pub fn r_path(x: &$a) -> String { FixedBaseResolver::new(x).path_str().into() }
    #[cfg(feature = "alloc")] pub fn r_query(x: &$a) -> Option<String> { FixedBaseResolver::new(x).query().map(|q| q.as_str().into()) }
    #[cfg(feature = "alloc")] pub fn r_query_str(x: &$a) -> Option<String> { FixedBaseResolver::new(x).query_str().map(Into::into) }
} )* } }
views!(view_u UriAbsoluteStr, view_i IriAbsoluteStr);
