//! Comparisons of string types: every impl of equality, order and hash.
#[cfg(feature = "alloc")]
use alloc::{borrow::Cow, string::String};
use core::cmp::Ordering;
use core::hash::{Hash, Hasher};
use iri_string::template::UriTemplateStr;
use iri_string::types::*;

/// All comparisons between two forms agree with the comparisons of the texts.
fn all<A: ?Sized, B: ?Sized>(a: &A, b: &B, s: &str, t: &str) -> bool
where
    A: PartialEq<B> + PartialOrd<B>,
    B: PartialEq<A> + PartialOrd<A>,
{
    let o = s.cmp(t);
    let e = s == t;
    let r = t.cmp(s);
    (if a == b { e } else { !e })
        && (if b == a { e } else { !e })
        && (if a != b { !e } else { e })
        && (if b != a { !e } else { e })
        && a.partial_cmp(b) == Some(o)
        && b.partial_cmp(a) == Some(r)
        && (a < b) == (o == Ordering::Less)
        && (a <= b) == (o != Ordering::Greater)
        && (a > b) == (o == Ordering::Greater)
        && (a >= b) == (o != Ordering::Less)
}
fn ord<A: ?Sized + Ord>(a: &A, b: &A, s: &str, t: &str) -> bool {
    a.cmp(b) == s.cmp(t) && b.cmp(a) == t.cmp(s)
}
/// Accepts exactly the calls that hashing the given text makes.
struct Rec<'a> {
    want: &'a str,
    phase: u8,
}
impl Hasher for Rec<'_> {
    fn finish(&self) -> u64 { 0 }
    fn write(&mut self, b: &[u8]) { self.phase = if self.phase == 0 && b == self.want.as_bytes() { 1 } else { 9 } }
    fn write_u8(&mut self, b: u8) { self.phase = if self.phase == 1 && b == 0xFF { 2 } else { 9 } }
    fn write_u16(&mut self, _: u16) { self.phase = 9 }
    fn write_u32(&mut self, _: u32) { self.phase = 9 }
    fn write_u64(&mut self, _: u64) { self.phase = 9 }
    fn write_usize(&mut self, _: usize) { self.phase = 9 }
    fn write_length_prefix(&mut self, _: usize) { self.phase = 9 }
    fn write_str(&mut self, s: &str) { self.phase = if self.phase == 0 && s == self.want { 2 } else { 9 } }
}
fn hashes<A: ?Sized + Hash>(a: &A, s: &str) -> bool {
    let mut h = Rec { want: s, phase: 0 };
    a.hash(&mut h);
    h.phase == 2
}
macro_rules! same { ($($m:ident $b:ident $o:ident),*) => { $( pub mod $m {
    use super::*;
    pub fn r_slice_slice(s: &$b, t: &$b) -> bool { all::<$b, $b>(s, t, s.as_str(), t.as_str()) && ord::<$b>(s, t, s.as_str(), t.as_str()) }
    pub fn r_slice_str(s: &$b, t: &str) -> bool { all::<$b, str>(s, t, s.as_str(), t) }
    pub fn r_slice_rstr(s: &$b, t: &str) -> bool { all::<$b, &str>(s, &t, s.as_str(), t) }
    pub fn r_rslice_str(s: &$b, t: &str) -> bool { all::<&$b, str>(&s, t, s.as_str(), t) }
    pub fn r_rslice_slice(s: &$b, t: &$b) -> bool { all::<&$b, $b>(&s, t, s.as_str(), t.as_str()) }
    pub fn r_hash(s: &$b) -> bool { hashes::<$b>(s, s.as_str()) }
    #[cfg(feature = "alloc")] pub fn r_slice_cowstr(s: &$b, t: &str) -> bool { all::<$b, Cow<'_, str>>(s, &Cow::Borrowed(t), s.as_str(), t) && all::<$b, Cow<'_, str>>(s, &Cow::Owned(String::from(t)), s.as_str(), t) }
    #[cfg(feature = "alloc")] pub fn r_rslice_cowstr(s: &$b, t: &str) -> bool { all::<&$b, Cow<'_, str>>(&s, &Cow::Borrowed(t), s.as_str(), t) && all::<&$b, Cow<'_, str>>(&s, &Cow::Owned(String::from(t)), s.as_str(), t) }
    #[cfg(feature = "alloc")] pub fn r_rslice_cowslice(s: &$b, t: &$b) -> bool { all::<&$b, Cow<'_, $b>>(&s, &Cow::Borrowed(t), s.as_str(), t.as_str()) && all::<&$b, Cow<'_, $b>>(&s, &Cow::Owned($o::from(t)), s.as_str(), t.as_str()) }
    #[cfg(feature = "alloc")] pub fn r_owned_owned(s: &$b, t: &$b) -> bool { let (x, y) = ($o::from(s), $o::from(t)); all::<$o, $o>(&x, &y, s.as_str(), t.as_str()) && ord::<$o>(&x, &y, s.as_str(), t.as_str()) }
    #[cfg(feature = "alloc")] pub fn r_owned_str(s: &$b, t: &str) -> bool { all::<$o, str>(&$o::from(s), t, s.as_str(), t) }
    #[cfg(feature = "alloc")] pub fn r_owned_rstr(s: &$b, t: &str) -> bool { all::<$o, &str>(&$o::from(s), &t, s.as_str(), t) }
    #[cfg(feature = "alloc")] pub fn r_owned_cowstr(s: &$b, t: &str) -> bool { all::<$o, Cow<'_, str>>(&$o::from(s), &Cow::Borrowed(t), s.as_str(), t) && all::<$o, Cow<'_, str>>(&$o::from(s), &Cow::Owned(String::from(t)), s.as_str(), t) }
    #[cfg(feature = "alloc")] pub fn r_owned_string(s: &$b, t: &str) -> bool { all::<$o, String>(&$o::from(s), &String::from(t), s.as_str(), t) }
    #[cfg(feature = "alloc")] pub fn r_owned_slice(s: &$b, t: &$b) -> bool { all::<$o, $b>(&$o::from(s), t, s.as_str(), t.as_str()) }
    #[cfg(feature = "alloc")] pub fn r_owned_rslice(s: &$b, t: &$b) -> bool { all::<$o, &$b>(&$o::from(s), &t, s.as_str(), t.as_str()) }
    #[cfg(feature = "alloc")] pub fn r_owned_cowslice(s: &$b, t: &$b) -> bool { all::<$o, Cow<'_, $b>>(&$o::from(s), &Cow::Borrowed(t), s.as_str(), t.as_str()) && all::<$o, Cow<'_, $b>>(&$o::from(s), &Cow::Owned($o::from(t)), s.as_str(), t.as_str()) }
    #[cfg(feature = "alloc")] pub fn r_owned_hash(s: &$b) -> bool { hashes::<$o>(&$o::from(s), s.as_str()) }
} )* } }
same!(
    eq_i_full IriStr IriString, eq_i_abs IriAbsoluteStr IriAbsoluteString, eq_i_ref IriReferenceStr IriReferenceString,
    eq_i_rel IriRelativeStr IriRelativeString, eq_i_query IriQueryStr IriQueryString, eq_i_frag IriFragmentStr IriFragmentString,
    eq_u_full UriStr UriString, eq_u_abs UriAbsoluteStr UriAbsoluteString, eq_u_ref UriReferenceStr UriReferenceString,
    eq_u_rel UriRelativeStr UriRelativeString, eq_u_query UriQueryStr UriQueryString, eq_u_frag UriFragmentStr UriFragmentString
);
/// The same kind in both specifications.
macro_rules! spec { ($($m:ident $b:ident $o:ident $c:ident $p:ident),*) => { $( pub mod $m {
    use super::*;
    pub fn r_rslice_slice(s: &$b, t: &$c) -> bool { all::<&$b, $c>(&s, t, s.as_str(), t.as_str()) && all::<&$c, $b>(&t, s, t.as_str(), s.as_str()) }
    #[cfg(feature = "alloc")] pub fn r_rslice_cowslice(s: &$b, t: &$c) -> bool { all::<&$b, Cow<'_, $c>>(&s, &Cow::Borrowed(t), s.as_str(), t.as_str()) && all::<&$c, Cow<'_, $b>>(&t, &Cow::Borrowed(s), t.as_str(), s.as_str()) }
    #[cfg(feature = "alloc")] pub fn r_owned_owned(s: &$b, t: &$c) -> bool { all::<$o, $p>(&$o::from(s), &$p::from(t), s.as_str(), t.as_str()) }
    #[cfg(feature = "alloc")] pub fn r_owned_slice(s: &$b, t: &$c) -> bool { all::<$o, $c>(&$o::from(s), t, s.as_str(), t.as_str()) && all::<$p, $b>(&$p::from(t), s, t.as_str(), s.as_str()) }
    #[cfg(feature = "alloc")] pub fn r_owned_rslice(s: &$b, t: &$c) -> bool { all::<$o, &$c>(&$o::from(s), &t, s.as_str(), t.as_str()) && all::<$p, &$b>(&$p::from(t), &s, t.as_str(), s.as_str()) }
    #[cfg(feature = "alloc")] pub fn r_owned_cowslice(s: &$b, t: &$c) -> bool { all::<$o, Cow<'_, $c>>(&$o::from(s), &Cow::Borrowed(t), s.as_str(), t.as_str()) && all::<$p, Cow<'_, $b>>(&$p::from(t), &Cow::Borrowed(s), t.as_str(), s.as_str()) }
} )* } }
spec!(
    es_full IriStr IriString UriStr UriString, es_abs IriAbsoluteStr IriAbsoluteString UriAbsoluteStr UriAbsoluteString,
    es_ref IriReferenceStr IriReferenceString UriReferenceStr UriReferenceString, es_rel IriRelativeStr IriRelativeString UriRelativeStr UriRelativeString,
    es_query IriQueryStr IriQueryString UriQueryStr UriQueryString, es_frag IriFragmentStr IriFragmentString UriFragmentStr UriFragmentString
);
/// Two kinds, one containing the other.
macro_rules! cross { ($($m:ident $b:ident $o:ident $c:ident $p:ident),*) => { $( pub mod $m {
    use super::*;
    pub fn r_slice_slice(s: &$b, t: &$c) -> bool { all::<$b, $c>(s, t, s.as_str(), t.as_str()) }
    pub fn r_rslice_slice(s: &$b, t: &$c) -> bool { all::<&$b, $c>(&s, t, s.as_str(), t.as_str()) }
    pub fn r_slice_rslice(s: &$b, t: &$c) -> bool { all::<$b, &$c>(s, &t, s.as_str(), t.as_str()) }
    #[cfg(feature = "alloc")] pub fn r_slice_cow(s: &$b, t: &$c) -> bool { all::<$b, Cow<'_, $c>>(s, &Cow::Borrowed(t), s.as_str(), t.as_str()) }
    #[cfg(feature = "alloc")] pub fn r_rslice_cow(s: &$b, t: &$c) -> bool { all::<&$b, Cow<'_, $c>>(&s, &Cow::Owned($p::from(t)), s.as_str(), t.as_str()) }
    #[cfg(feature = "alloc")] pub fn r_cow_slice(s: &$b, t: &$c) -> bool { all::<Cow<'_, $b>, $c>(&Cow::Borrowed(s), t, s.as_str(), t.as_str()) }
    #[cfg(feature = "alloc")] pub fn r_cow_rslice(s: &$b, t: &$c) -> bool { all::<Cow<'_, $b>, &$c>(&Cow::Owned($o::from(s)), &t, s.as_str(), t.as_str()) }
    #[cfg(feature = "alloc")] pub fn r_slice_owned(s: &$b, t: &$c) -> bool { all::<$b, $p>(s, &$p::from(t), s.as_str(), t.as_str()) }
    #[cfg(feature = "alloc")] pub fn r_rslice_owned(s: &$b, t: &$c) -> bool { all::<&$b, $p>(&s, &$p::from(t), s.as_str(), t.as_str()) }
    #[cfg(feature = "alloc")] pub fn r_cow_owned(s: &$b, t: &$c) -> bool { all::<Cow<'_, $b>, $p>(&Cow::Borrowed(s), &$p::from(t), s.as_str(), t.as_str()) }
    #[cfg(feature = "alloc")] pub fn r_owned_slice(s: &$b, t: &$c) -> bool { all::<$o, $c>(&$o::from(s), t, s.as_str(), t.as_str()) }
    #[cfg(feature = "alloc")] pub fn r_owned_rslice(s: &$b, t: &$c) -> bool { all::<$o, &$c>(&$o::from(s), &t, s.as_str(), t.as_str()) }
    #[cfg(feature = "alloc")] pub fn r_owned_cow(s: &$b, t: &$c) -> bool { all::<$o, Cow<'_, $c>>(&$o::from(s), &Cow::Borrowed(t), s.as_str(), t.as_str()) }
    #[cfg(feature = "alloc")] pub fn r_owned_owned(s: &$b, t: &$c) -> bool { all::<$o, $p>(&$o::from(s), &$p::from(t), s.as_str(), t.as_str()) }
} )* } }
cross!(
    ex_ii_abs_full IriAbsoluteStr IriAbsoluteString IriStr IriString, ex_ii_abs_ref IriAbsoluteStr IriAbsoluteString IriReferenceStr IriReferenceString,
    ex_ii_full_ref IriStr IriString IriReferenceStr IriReferenceString, ex_ii_rel_ref IriRelativeStr IriRelativeString IriReferenceStr IriReferenceString,
    ex_iu_abs_full IriAbsoluteStr IriAbsoluteString UriStr UriString, ex_iu_abs_ref IriAbsoluteStr IriAbsoluteString UriReferenceStr UriReferenceString,
    ex_iu_full_ref IriStr IriString UriReferenceStr UriReferenceString, ex_iu_rel_ref IriRelativeStr IriRelativeString UriReferenceStr UriReferenceString,
    ex_ui_abs_full UriAbsoluteStr UriAbsoluteString IriStr IriString, ex_ui_abs_ref UriAbsoluteStr UriAbsoluteString IriReferenceStr IriReferenceString,
    ex_ui_full_ref UriStr UriString IriReferenceStr IriReferenceString, ex_ui_rel_ref UriRelativeStr UriRelativeString IriReferenceStr IriReferenceString,
    ex_uu_abs_full UriAbsoluteStr UriAbsoluteString UriStr UriString, ex_uu_abs_ref UriAbsoluteStr UriAbsoluteString UriReferenceStr UriReferenceString,
    ex_uu_full_ref UriStr UriString UriReferenceStr UriReferenceString, ex_uu_rel_ref UriRelativeStr UriRelativeString UriReferenceStr UriReferenceString
);
/// URI templates.
pub mod et {
    use super::*;
    #[cfg(feature = "alloc")]
    use iri_string::template::UriTemplateString;
    pub fn r_slice_slice(s: &UriTemplateStr, t: &UriTemplateStr) -> bool { all::<UriTemplateStr, UriTemplateStr>(s, t, s.as_str(), t.as_str()) && ord::<UriTemplateStr>(s, t, s.as_str(), t.as_str()) }
    pub fn r_slice_str(s: &UriTemplateStr, t: &str) -> bool { all::<UriTemplateStr, str>(s, t, s.as_str(), t) }
    pub fn r_slice_rstr(s: &UriTemplateStr, t: &str) -> bool { all::<UriTemplateStr, &str>(s, &t, s.as_str(), t) }
    pub fn r_rslice_str(s: &UriTemplateStr, t: &str) -> bool { all::<&UriTemplateStr, str>(&s, t, s.as_str(), t) }
    pub fn r_hash(s: &UriTemplateStr) -> bool { hashes::<UriTemplateStr>(s, s.as_str()) }
    #[cfg(feature = "alloc")] pub fn r_slice_cowstr(s: &UriTemplateStr, t: &str) -> bool { all::<UriTemplateStr, Cow<'_, str>>(s, &Cow::Borrowed(t), s.as_str(), t) }
    #[cfg(feature = "alloc")] pub fn r_rslice_cowstr(s: &UriTemplateStr, t: &str) -> bool { all::<&UriTemplateStr, Cow<'_, str>>(&s, &Cow::Owned(String::from(t)), s.as_str(), t) }
    #[cfg(feature = "alloc")] pub fn r_owned_owned(s: &UriTemplateStr, t: &UriTemplateStr) -> bool { let (x, y) = (UriTemplateString::from(s), UriTemplateString::from(t)); all::<UriTemplateString, UriTemplateString>(&x, &y, s.as_str(), t.as_str()) && ord::<UriTemplateString>(&x, &y, s.as_str(), t.as_str()) }
    #[cfg(feature = "alloc")] pub fn r_owned_str(s: &UriTemplateStr, t: &str) -> bool { all::<UriTemplateString, str>(&UriTemplateString::from(s), t, s.as_str(), t) }
    #[cfg(feature = "alloc")] pub fn r_owned_rstr(s: &UriTemplateStr, t: &str) -> bool { all::<UriTemplateString, &str>(&UriTemplateString::from(s), &t, s.as_str(), t) }
    #[cfg(feature = "alloc")] pub fn r_owned_cowstr(s: &UriTemplateStr, t: &str) -> bool { all::<UriTemplateString, Cow<'_, str>>(&UriTemplateString::from(s), &Cow::Borrowed(t), s.as_str(), t) }
    #[cfg(feature = "alloc")] pub fn r_owned_string(s: &UriTemplateStr, t: &str) -> bool { all::<UriTemplateString, String>(&UriTemplateString::from(s), &String::from(t), s.as_str(), t) }
    #[cfg(feature = "alloc")] pub fn r_owned_hash(s: &UriTemplateStr) -> bool { hashes::<UriTemplateString>(&UriTemplateString::from(s), s.as_str()) }
}
