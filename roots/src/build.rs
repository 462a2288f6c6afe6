//! The builder.
#[cfg(feature = "alloc")]
use alloc::string::{String, ToString};
use iri_string::build::Builder;
use iri_string::types::*;

#[cfg(feature = "alloc")]
macro_rules! build { ($($m:ident $b:ident $o:ident $any:ident),*) => { $( pub mod $m {
    use super::*;
    fn fin(b: Builder<'_>) -> Option<String> { b.build::<$b>().ok().map(|x| x.to_string()) }
    pub fn r_empty(p: &str) -> Option<String> { let mut b = Builder::new(); b.path(p); fin(b) }
    pub fn r_s(s: &str, p: &str) -> Option<String> { let mut b = Builder::new(); b.scheme(s); b.path(p); fin(b) }
    pub fn r_h(h: &str, p: &str) -> Option<String> { let mut b = Builder::new(); b.host(h); b.path(p); fin(b) }
    pub fn r_sh(s: &str, h: &str, p: &str) -> Option<String> { let mut b = Builder::new(); b.path(p); b.host(h); b.scheme(s); fin(b) }
    pub fn r_uh(u: &str, h: &str, p: &str) -> Option<String> { let mut b = Builder::new(); b.userinfo(u); b.host(h); b.path(p); fin(b) }
    pub fn r_uph(u: &str, w: &str, h: &str, p: &str) -> Option<String> { let mut b = Builder::new(); b.host(h); b.userinfo((u, w)); b.path(p); fin(b) }
    pub fn r_upnone(u: &str, h: &str) -> Option<String> { let mut b = Builder::new(); b.host(h); b.userinfo((u, None)); fin(b) }
    pub fn r_ho(h: &str, o: &str, p: &str) -> Option<String> { let mut b = Builder::new(); b.port(o); b.host(h); b.path(p); fin(b) }
    pub fn r_q(p: &str, q: &str) -> Option<String> { let mut b = Builder::new(); b.query(q); b.path(p); fin(b) }
    pub fn r_f(p: &str, f: &str) -> Option<String> { let mut b = Builder::new(); b.path(p); b.fragment(f); fin(b) }
    pub fn r_spqf(s: &str, p: &str, q: &str, f: &str) -> Option<String> { let mut b = Builder::new(); b.fragment(f); b.query(q); b.path(p); b.scheme(s); fin(b) }
    pub fn r_all(s: &str, u: &str, h: &str, o: &str, p: &str, q: &str, f: &str) -> Option<String> {
        let mut b = Builder::new();
        b.scheme(s); b.userinfo(u); b.host(h); b.port(o); b.path(p); b.query(q); b.fragment(f);
        fin(b)
    }
    // the last value counts, and an unset component is gone
    pub fn r_last(s: &str, h: &str, p: &str, q: &str, f: &str) -> Option<String> {
        let mut b = Builder::new();
        b.scheme("x"); b.host("y"); b.path("/z"); b.query("w"); b.fragment("v");
        b.scheme(s); b.host(h); b.path(p); b.query(q); b.fragment(f);
        fin(b)
    }
    pub fn r_unset(p: &str) -> Option<String> {
        let mut b = Builder::new();
        b.scheme("x"); b.userinfo("t"); b.host("y"); b.port("1"); b.query("w"); b.fragment("v"); b.normalize();
        b.path(p); b.unset_scheme(); b.unset_authority(); b.unset_query(); b.unset_fragment(); b.unset_normalize();
        fin(b)
    }
    pub fn r_unset_inner(h: &str, p: &str) -> Option<String> {
        let mut b = Builder::new();
        b.userinfo("t"); b.host(h); b.port("1"); b.path(p); b.unset_userinfo(); b.unset_port();
        fin(b)
    }
    // from a value
    pub fn r_from(s: &$b) -> Option<String> { fin(Builder::from(s)) }
    pub fn r_from_owned(s: &$b) -> Option<String> { let o = $o::from(s); fin(Builder::from(&o)) }
    pub fn r_from_any(s: &$any) -> Option<String> { fin(Builder::from(s)) }
    pub fn r_from_dedicated(s: &$any) -> Option<String> { use iri_string::format::ToDedicatedString; Builder::from(s).build::<$b>().ok().map(|x| String::from(x.to_dedicated_string())) }
    pub fn r_from_into(s: &$any) -> Option<String> { Builder::from(s).build::<$b>().ok().map(|x| String::from($o::from(x))) }
    pub fn r_from_unset_query(s: &$any) -> Option<String> { let mut b = Builder::from(s); b.unset_query(); fin(b) }
    pub fn r_from_unset_fragment(s: &$any) -> Option<String> { let mut b = Builder::from(s); b.unset_fragment(); fin(b) }
    pub fn r_from_unset_authority(s: &$any) -> Option<String> { let mut b = Builder::from(s); b.unset_authority(); fin(b) }
    pub fn r_from_unset_scheme(s: &$any) -> Option<String> { let mut b = Builder::from(s); b.unset_scheme(); fin(b) }
    pub fn r_from_host_sym(s: &$any, h: &str) -> Option<String> { let mut b = Builder::from(s); b.host(h); fin(b) }
    pub fn r_from_path_sym(s: &$any, h: &str) -> Option<String> { let mut b = Builder::from(s); b.path(h); fin(b) }
    pub fn r_from_query_sym(s: &$any, h: &str) -> Option<String> { let mut b = Builder::from(s); b.query(h); fin(b) }
} )* } }
#[cfg(feature = "alloc")]
build!(
    b_u_full UriStr UriString UriReferenceStr, b_u_abs UriAbsoluteStr UriAbsoluteString UriReferenceStr, b_u_ref UriReferenceStr UriReferenceString UriReferenceStr, b_u_rel UriRelativeStr UriRelativeString UriReferenceStr,
    b_i_full IriStr IriString IriReferenceStr, b_i_abs IriAbsoluteStr IriAbsoluteString IriReferenceStr, b_i_ref IriReferenceStr IriReferenceString IriReferenceStr, b_i_rel IriRelativeStr IriRelativeString IriReferenceStr
);
