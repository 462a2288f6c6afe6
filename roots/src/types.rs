//! String types: construction, views, conversions, components, editing.
#[cfg(feature = "alloc")]
use alloc::string::{String, ToString};
use core::convert::TryFrom;
use iri_string::components::AuthorityComponents;
#[cfg(feature = "alloc")]
use iri_string::format::ToDedicatedString;
use iri_string::types::*;

/// Construction routes (every route is compared with the same accept set).
macro_rules! construct { ($($m:ident $b:ident $o:ident),*) => { $( pub mod $m {
    use super::*;
    pub fn r_new(s: &str) -> Result<&str, ()> { $b::new(s).map(|x| x.as_str()).map_err(|_| ()) }
    pub fn r_try_from_str(s: &str) -> Result<&str, ()> { <&$b>::try_from(s).map(|x| x.as_str()).map_err(|_| ()) }
    pub fn r_try_from_bytes(s: &[u8]) -> Result<&str, ()> { <&$b>::try_from(s).map(|x| x.as_str()).map_err(|_| ()) }
    #[cfg(feature = "alloc")]
    pub fn r_owned_try_from_str(s: &str) -> Result<String, ()> { $o::try_from(s).map(|x| String::from(x)).map_err(|_| ()) }
    #[cfg(feature = "alloc")]
    pub fn r_owned_try_from_bytes(s: &[u8]) -> Result<String, ()> { $o::try_from(s).map(|x| String::from(x)).map_err(|_| ()) }
    #[cfg(feature = "alloc")]
    pub fn r_owned_from_str(s: &str) -> Result<String, ()> { s.parse::<$o>().map(|x| String::from(x)).map_err(|_| ()) }
    #[cfg(feature = "alloc")]
    pub fn r_owned_try_from_string(s: &str) -> Result<String, String> { $o::try_from(String::from(s)).map(|x| String::from(x)).map_err(|e| e.into_source()) }
    #[cfg(feature = "serde")]
    pub fn r_serde_borrowed(s: &str) -> Result<&str, ()> {
        use serde::Deserialize;
        <&$b>::deserialize(serde::de::value::BorrowedStrDeserializer::<crate::DeErr>::new(s)).map(|x| x.as_str()).map_err(|_| ())
    }
    #[cfg(feature = "serde")]
    pub fn r_serde_owned_str(s: &str) -> Result<String, ()> {
        use serde::Deserialize;
        use serde::de::IntoDeserializer;
        let d: serde::de::value::StrDeserializer<'_, crate::DeErr> = s.into_deserializer();
        $o::deserialize(d).map(|x| String::from(x)).map_err(|_| ())
    }
    #[cfg(feature = "serde")]
    pub fn r_serde_owned_string(s: &str) -> Result<String, ()> {
        use serde::Deserialize;
        use serde::de::IntoDeserializer;
        let d: serde::de::value::StringDeserializer<crate::DeErr> = String::from(s).into_deserializer();
        $o::deserialize(d).map(|x| String::from(x)).map_err(|_| ())
    }
    // views
    pub fn r_as_str(s: &$b) -> &str { s.as_str() }
    pub fn r_as_ref_str(s: &$b) -> &str { AsRef::<str>::as_ref(s) }
    pub fn r_into_str(s: &$b) -> &str { <&str>::from(s) }
    pub fn r_len(s: &$b) -> bool { s.len() == s.as_str().len() && s.is_empty() == (s.as_str().len() == 0) }
    #[cfg(feature = "alloc")]
    pub fn r_display(s: &$b) -> String { s.to_string() }
    #[cfg(feature = "alloc")]
    pub fn r_owned_display(s: &$b) -> String { $o::from(s).to_string() }
    #[cfg(feature = "alloc")]
    pub fn r_owned_views(s: &$b) -> (String, String, String, String) {
        let o = $o::from(s);
        let a = String::from(o.as_slice().as_str());
        let b = String::from(AsRef::<str>::as_ref(&o));
        let c = String::from(core::borrow::Borrow::<str>::borrow(&o));
        let d = String::from(o.clone());
        (a, b, c, d)
    }
    #[cfg(feature = "alloc")]
    pub fn r_to_owned(s: &$b) -> String { use alloc::borrow::ToOwned; String::from(s.to_owned()) }
    #[cfg(feature = "alloc")]
    pub fn r_boxed(s: &$b) -> String { let b: alloc::boxed::Box<$b> = alloc::boxed::Box::from(s); String::from(b.as_str()) }
    #[cfg(feature = "alloc")]
    pub fn r_owned_into_box(s: &$b) -> String { let b: alloc::boxed::Box<$b> = $o::from(s).into(); String::from(b.as_str()) }
    #[cfg(feature = "alloc")]
    pub fn r_rc(s: &$b) -> String { let b: alloc::rc::Rc<$b> = alloc::rc::Rc::from(s); String::from(b.as_str()) }
    #[cfg(feature = "alloc")]
    pub fn r_arc(s: &$b) -> String { let b: alloc::sync::Arc<$b> = alloc::sync::Arc::from(s); String::from(b.as_str()) }
    #[cfg(feature = "alloc")]
    pub fn r_cow(s: &$b) -> (String, String) {
        let b: alloc::borrow::Cow<'_, $b> = s.into();
        let c: alloc::borrow::Cow<'_, $b> = $o::from(s).into();
        (String::from(b.as_str()), String::from(c.as_str()))
    }
    #[cfg(feature = "serde")]
    pub fn r_serialize(s: &$b) -> String { crate::Ser(s).to_string() }
    #[cfg(feature = "serde")]
    pub fn r_owned_serialize(s: &$b) -> String { crate::Ser($o::from(s)).to_string() }
} )* } }
construct!(
    c_i_full IriStr IriString, c_i_abs IriAbsoluteStr IriAbsoluteString, c_i_ref IriReferenceStr IriReferenceString,
    c_i_rel IriRelativeStr IriRelativeString, c_i_query IriQueryStr IriQueryString, c_i_frag IriFragmentStr IriFragmentString,
    c_u_full UriStr UriString, c_u_abs UriAbsoluteStr UriAbsoluteString, c_u_ref UriReferenceStr UriReferenceString,
    c_u_rel UriRelativeStr UriRelativeString, c_u_query UriQueryStr UriQueryString, c_u_frag UriFragmentStr UriFragmentString
);
pub mod prefixed {
    use super::*;
    pub fn r_i_query(s: &str) -> Result<&str, ()> { IriQueryStr::from_prefixed(s).map(|x| x.as_str()).map_err(|_| ()) }
    pub fn r_u_query(s: &str) -> Result<&str, ()> { UriQueryStr::from_prefixed(s).map(|x| x.as_str()).map_err(|_| ()) }
    pub fn r_i_frag(s: &str) -> Result<&str, ()> { IriFragmentStr::from_prefixed(s).map(|x| x.as_str()).map_err(|_| ()) }
    pub fn r_u_frag(s: &str) -> Result<&str, ()> { UriFragmentStr::from_prefixed(s).map(|x| x.as_str()).map_err(|_| ()) }
}

/// Methods shared by the four kinds of references.
macro_rules! common { ($($m:ident $b:ident $o:ident $f:ident),*) => { $( pub mod $m {
    use super::*;
    pub fn r_authority(s: &$b) -> Option<&str> { s.authority_str() }
    pub fn r_path(s: &$b) -> &str { s.path_str() }
    pub fn r_query(s: &$b) -> Option<&str> { s.query().map(|x| x.as_str()) }
    pub fn r_query_str(s: &$b) -> Option<&str> { s.query_str() }
    pub fn r_userinfo(s: &$b) -> Option<Option<&str>> { s.authority_components().map(|a| a.userinfo()) }
    pub fn r_host(s: &$b) -> Option<&str> { s.authority_components().map(|a| a.host()) }
    pub fn r_reg_name(s: &$b) -> Option<Option<&str>> { s.authority_components().map(|a| a.reg_name()) }
    pub fn r_port(s: &$b) -> Option<Option<&str>> { s.authority_components().map(|a| a.port()) }
    #[cfg(feature = "alloc")]
    pub fn r_mask(s: &$b) -> String { s.mask_password().to_string() }
    #[cfg(feature = "alloc")]
    pub fn r_mask_debug(s: &$b) -> String { alloc::format!("{:?}", s.mask_password()) }
    #[cfg(feature = "alloc")]
    pub fn r_mask_dedicated(s: &$b) -> String { String::from(s.mask_password().to_dedicated_string()) }
    #[cfg(feature = "alloc")]
    pub fn r_mask_replace(s: &$b) -> String { s.mask_password().replace_password("X").to_string() }
    #[cfg(feature = "alloc")]
    pub fn r_mask_replace_with_isempty(s: &$b) -> String { s.mask_password().replace_password_with(|p| if p.is_empty() { "E" } else { "N" }).to_string() }
    #[cfg(feature = "alloc")]
    pub fn r_mask_replace_debug(s: &$b) -> String { alloc::format!("{:?}", s.mask_password().replace_password("X")) }
    #[cfg(feature = "alloc")]
    pub fn r_remove_password(s: &$b) -> String { let mut x = $o::from(s); x.remove_password_inline(); String::from(x) }
    #[cfg(feature = "alloc")]
    pub fn r_remove_nonempty_password(s: &$b) -> String { let mut x = $o::from(s); x.remove_nonempty_password_inline(); String::from(x) }
    #[cfg(feature = "alloc")]
    pub fn r_replace_host_sym(s: &$b, h: &str) -> String { let mut x = $o::from(s); let _ = x.replace_host(h); String::from(x) }
    #[cfg(feature = "alloc")]
    pub fn r_replace_host_ret_sym(s: &$b, h: &str) -> Option<String> { let mut x = $o::from(s); x.replace_host(h).map(String::from) }
    #[cfg(feature = "alloc")]
    pub fn r_try_replace_host_sym(s: &$b, h: &str) -> String { let mut x = $o::from(s); let _ = x.try_replace_host(h); String::from(x) }
    #[cfg(feature = "alloc")]
    pub fn r_try_replace_host_ret_sym(s: &$b, h: &str) -> Option<Option<String>> { let mut x = $o::from(s); match x.try_replace_host(h) { Ok(r) => Some(r.map(String::from)), Err(_) => None } }
    #[cfg(feature = "alloc")]
    pub fn r_replace_host_reg_name_sym(s: &$b, h: &str) -> String { let mut x = $o::from(s); let _ = x.replace_host_reg_name(h); String::from(x) }
    #[cfg(feature = "alloc")]
    pub fn r_replace_host_reg_name_ret_sym(s: &$b, h: &str) -> Option<String> { let mut x = $o::from(s); x.replace_host_reg_name(h).map(String::from) }
    #[cfg(feature = "alloc")]
    pub fn r_try_replace_host_reg_name_sym(s: &$b, h: &str) -> String { let mut x = $o::from(s); let _ = x.try_replace_host_reg_name(h); String::from(x) }
    #[cfg(feature = "alloc")]
    pub fn r_try_replace_host_reg_name_ret_sym(s: &$b, h: &str) -> Option<Option<String>> { let mut x = $o::from(s); match x.try_replace_host_reg_name(h) { Ok(r) => Some(r.map(String::from)), Err(_) => None } }
} )* } }
common!(
    k_i_full IriStr IriString IriFragmentStr, k_i_abs IriAbsoluteStr IriAbsoluteString IriFragmentStr,
    k_i_ref IriReferenceStr IriReferenceString IriFragmentStr, k_i_rel IriRelativeStr IriRelativeString IriFragmentStr,
    k_u_full UriStr UriString UriFragmentStr, k_u_abs UriAbsoluteStr UriAbsoluteString UriFragmentStr,
    k_u_ref UriReferenceStr UriReferenceString UriFragmentStr, k_u_rel UriRelativeStr UriRelativeString UriFragmentStr
);
/// Kinds with a fragment.
macro_rules! frag { ($($m:ident $b:ident $o:ident $f:ident),*) => { $( pub mod $m {
    use super::*;
    pub fn r_fragment(s: &$b) -> Option<&str> { s.fragment().map(|x| x.as_str()) }
    pub fn r_fragment_str(s: &$b) -> Option<&str> { s.fragment_str() }
    #[cfg(feature = "alloc")]
    pub fn r_set_fragment_none(s: &$b) -> String { let mut x = $o::from(s); x.set_fragment(None); String::from(x) }
    #[cfg(feature = "alloc")]
    pub fn r_set_fragment_some(s: &$b, f: &$f) -> String { let mut x = $o::from(s); x.set_fragment(Some(f)); String::from(x) }
} )* } }
frag!(
    f_i_full IriStr IriString IriFragmentStr, f_i_ref IriReferenceStr IriReferenceString IriFragmentStr, f_i_rel IriRelativeStr IriRelativeString IriFragmentStr,
    f_u_full UriStr UriString UriFragmentStr, f_u_ref UriReferenceStr UriReferenceString UriFragmentStr, f_u_rel UriRelativeStr UriRelativeString UriFragmentStr
);
pub mod scheme {
    use super::*;
    pub fn r_i_full(s: &IriStr) -> &str { s.scheme_str() }
    pub fn r_i_abs(s: &IriAbsoluteStr) -> &str { s.scheme_str() }
    pub fn r_i_ref(s: &IriReferenceStr) -> Option<&str> { s.scheme_str() }
    pub fn r_u_full(s: &UriStr) -> &str { s.scheme_str() }
    pub fn r_u_abs(s: &UriAbsoluteStr) -> &str { s.scheme_str() }
    pub fn r_u_ref(s: &UriReferenceStr) -> Option<&str> { s.scheme_str() }
}
macro_rules! kinds { ($($m:ident $full:ident $fullo:ident $abs:ident $abso:ident $rf:ident $rfo:ident $rel:ident $relo:ident $fr:ident $fro:ident),*) => { $( pub mod $m {
    use super::*;
    // views of a narrower kind as a wider kind
    pub fn r_abs_as_full(s: &$abs) -> &str { AsRef::<$full>::as_ref(s).as_str() }
    pub fn r_abs_as_ref(s: &$abs) -> &str { AsRef::<$rf>::as_ref(s).as_str() }
    pub fn r_full_as_ref(s: &$full) -> &str { AsRef::<$rf>::as_ref(s).as_str() }
    pub fn r_rel_as_ref(s: &$rel) -> &str { AsRef::<$rf>::as_ref(s).as_str() }
    pub fn r_abs_into_full(s: &$abs) -> &str { <&$full>::from(s).as_str() }
    pub fn r_abs_into_ref(s: &$abs) -> &str { <&$rf>::from(s).as_str() }
    pub fn r_full_into_ref(s: &$full) -> &str { <&$rf>::from(s).as_str() }
    pub fn r_rel_into_ref(s: &$rel) -> &str { <&$rf>::from(s).as_str() }
    // checked narrowing
    pub fn r_full_try_abs(s: &$full) -> Result<&str, ()> { <&$abs>::try_from(s).map(|x| x.as_str()).map_err(|_| ()) }
    pub fn r_ref_try_full(s: &$rf) -> Result<&str, ()> { <&$full>::try_from(s).map(|x| x.as_str()).map_err(|_| ()) }
    pub fn r_ref_try_abs(s: &$rf) -> Result<&str, ()> { <&$abs>::try_from(s).map(|x| x.as_str()).map_err(|_| ()) }
    pub fn r_ref_try_rel(s: &$rf) -> Result<&str, ()> { <&$rel>::try_from(s).map(|x| x.as_str()).map_err(|_| ()) }
    pub fn r_to_iri(s: &$rf) -> Result<&str, &str> { s.to_iri().map(|x| x.as_str()).map_err(|x| x.as_str()) }
    pub fn r_to_relative_iri(s: &$rf) -> Result<&str, &str> { s.to_relative_iri().map(|x| x.as_str()).map_err(|x| x.as_str()) }
    pub fn r_to_absolute(s: &$full) -> &str { s.to_absolute().as_str() }
    pub fn r_to_absolute_and_fragment(s: &$full) -> (&str, Option<&str>) { let (a, f) = s.to_absolute_and_fragment(); (a.as_str(), f.map(|f| f.as_str())) }
    #[cfg(feature = "alloc")] pub mod owned {
        use super::*;
    }
    #[cfg(feature = "alloc")] pub fn r_owned_abs_into_full(s: &$abs) -> String { String::from($fullo::from($abso::from(s))) }
    #[cfg(feature = "alloc")] pub fn r_owned_abs_into_ref(s: &$abs) -> String { String::from($rfo::from($abso::from(s))) }
    #[cfg(feature = "alloc")] pub fn r_owned_full_into_ref(s: &$full) -> String { String::from($rfo::from($fullo::from(s))) }
    #[cfg(feature = "alloc")] pub fn r_owned_rel_into_ref(s: &$rel) -> String { String::from($rfo::from($relo::from(s))) }
    #[cfg(feature = "alloc")] pub fn r_owned_full_try_abs(s: &$full) -> Result<String, String> { $abso::try_from($fullo::from(s)).map(String::from).map_err(|e| String::from(e.into_source())) }
    #[cfg(feature = "alloc")] pub fn r_owned_ref_try_full(s: &$rf) -> Result<String, String> { $fullo::try_from($rfo::from(s)).map(String::from).map_err(|e| String::from(e.into_source())) }
    #[cfg(feature = "alloc")] pub fn r_owned_ref_try_abs(s: &$rf) -> Result<String, String> { $abso::try_from($rfo::from(s)).map(String::from).map_err(|e| String::from(e.into_source())) }
    #[cfg(feature = "alloc")] pub fn r_owned_ref_try_rel(s: &$rf) -> Result<String, String> { $relo::try_from($rfo::from(s)).map(String::from).map_err(|e| String::from(e.into_source())) }
    #[cfg(feature = "alloc")] pub fn r_into_iri(s: &$rf) -> Result<String, String> { $rfo::from(s).into_iri().map(String::from).map_err(String::from) }
    #[cfg(feature = "alloc")] pub fn r_into_relative_iri(s: &$rf) -> Result<String, String> { $rfo::from(s).into_relative_iri().map(String::from).map_err(String::from) }
    #[cfg(feature = "alloc")] pub fn r_into_absolute(s: &$full) -> String { String::from($fullo::from(s).into_absolute()) }
    #[cfg(feature = "alloc")] pub fn r_into_absolute_and_fragment(s: &$full) -> (String, Option<String>) { let (a, f) = $fullo::from(s).into_absolute_and_fragment(); (String::from(a), f.map(String::from)) }
    #[cfg(feature = "alloc")] pub fn r_ref_components(s: &$rf) -> Option<&str> { AuthorityComponents::from_iri(s).map(|x| x.host()) }
} )* } }
kinds!(
    kd_i IriStr IriString IriAbsoluteStr IriAbsoluteString IriReferenceStr IriReferenceString IriRelativeStr IriRelativeString IriFragmentStr IriFragmentString,
    kd_u UriStr UriString UriAbsoluteStr UriAbsoluteString UriReferenceStr UriReferenceString UriRelativeStr UriRelativeString UriFragmentStr UriFragmentString
);
/// URI as IRI and back.
macro_rules! iriuri { ($($m:ident $i:ident $io:ident $u:ident $uo:ident),*) => { $( pub mod $m {
    use super::*;
    pub fn r_uri_as_iri(s: &$u) -> &str { AsRef::<$i>::as_ref(s).as_str() }
    pub fn r_as_uri(s: &$i) -> Option<&str> { s.as_uri().map(|x| x.as_str()) }
    #[cfg(feature = "alloc")] pub fn r_owned_uri_as_iri(s: &$u) -> String { let o = $uo::from(s); let r: &$i = o.as_ref(); String::from(r.as_str()) }
    #[cfg(feature = "alloc")] pub fn r_owned_uri_into_iri(s: &$u) -> String { String::from($io::from($uo::from(s))) }
    #[cfg(feature = "alloc")] pub fn r_try_into_uri(s: &$i) -> Result<String, String> { $io::from(s).try_into_uri().map(String::from).map_err(String::from) }
    #[cfg(feature = "alloc")] pub fn r_encode_display_sb(s: &$i) -> String { s.encode_to_uri().to_string() }
    #[cfg(feature = "alloc")] pub fn r_encode_dedicated_sb(s: &$i) -> String { String::from(s.encode_to_uri().to_dedicated_string()) }
} )* } }
iriuri!(
    m_full IriStr IriString UriStr UriString, m_abs IriAbsoluteStr IriAbsoluteString UriAbsoluteStr UriAbsoluteString,
    m_ref IriReferenceStr IriReferenceString UriReferenceStr UriReferenceString, m_rel IriRelativeStr IriRelativeString UriRelativeStr UriRelativeString,
    m_query IriQueryStr IriQueryString UriQueryStr UriQueryString, m_frag IriFragmentStr IriFragmentString UriFragmentStr UriFragmentString
);
