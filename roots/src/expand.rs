//! Template expansion.
#[cfg(feature = "alloc")]
use alloc::string::{String, ToString};
use iri_string::spec::{IriSpec, UriSpec};
use iri_string::template::context::{AssocVisitor, Context, DynamicContext, ListVisitor, Visitor};
use iri_string::template::UriTemplateStr;

/// `x`, `y`, `z`: strings; `l`: the list of them; `d`: pairs of them; `e`, `f`: empty list and array; `n`: the empty string
struct Values<'a> {
    x: &'a str,
    y: &'a str,
    z: &'a str,
}
/// a value that is written in two pieces
struct Pieces<'a>(&'a str, &'a str);
impl core::fmt::Display for Pieces<'_> {
    fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
        f.write_str(self.0)?;
        f.write_str(self.1)
    }
}
impl Values<'_> {
    fn go<V: Visitor>(&self, v: V) -> V::Result {
        match v.var_name().as_str() {
            "x" => v.visit_string(self.x),
            "y" => v.visit_string(self.y),
            "z" => v.visit_string(self.z),
            "n" => v.visit_string(""),
            "l" => {
                let mut l = v.visit_list();
                if let core::ops::ControlFlow::Break(r) = l.visit_item(self.x) { return r; }
                if let core::ops::ControlFlow::Break(r) = l.visit_item(self.y) { return r; }
                if let core::ops::ControlFlow::Break(r) = l.visit_item(self.z) { return r; }
                l.finish()
            }
            "d" => {
                let mut l = v.visit_assoc();
                if let core::ops::ControlFlow::Break(r) = l.visit_entry(self.x, self.y) { return r; }
                if let core::ops::ControlFlow::Break(r) = l.visit_entry("k", self.z) { return r; }
                l.finish()
            }
            "g" => {
                let mut l = v.visit_assoc();
                if let core::ops::ControlFlow::Break(r) = l.visit_entry("k", "v") { return r; }
                if let core::ops::ControlFlow::Break(r) = l.visit_entry(self.x, self.y) { return r; }
                l.finish()
            }
            "p" => v.visit_string(Pieces(self.x, self.y)),
            "e" => v.visit_list().finish(),
            "f" => v.visit_assoc().finish(),
            _ => v.visit_undefined(),
        }
    }
}
impl Context for Values<'_> { fn visit<V: Visitor>(&self, v: V) -> V::Result { self.go(v) } }
struct Dynamic<'a>(Values<'a>);
impl DynamicContext for Dynamic<'_> { fn visit_dynamic<V: Visitor>(&mut self, v: V) -> V::Result { self.0.go(v) } }

#[cfg(feature = "alloc")]
fn ex<S: iri_string::spec::Spec>(t: &str, x: &str, y: &str, z: &str) -> Option<String> {
    let c = Values { x, y, z };
    let t = UriTemplateStr::new(t).ok()?;
    t.expand::<S, _>(&c).ok().map(|e| e.to_string())
}
macro_rules! op { ($($m:ident $s:ident $o:literal),*) => { $( pub mod $m {
    use super::*;
    pub fn r_x_sb(x: &str) -> Option<String> { ex::<$s>(concat!("{", $o, "x}"), x, "", "") }
    pub fn r_x0_sb(x: &str) -> Option<String> { r_x_sb(x) }
    pub fn r_un(x: &str) -> Option<String> { ex::<$s>(concat!("a{", $o, "u,n}b"), x, "", "") }
    pub fn r_xs_sb(x: &str) -> Option<String> { ex::<$s>(concat!("{", $o, "u,e,x*,f*}"), x, "", "") }
    pub fn r_xs0_sb(x: &str) -> Option<String> { r_xs_sb(x) }
    pub fn r_nx_sb(x: &str) -> Option<String> { ex::<$s>(concat!("b{", $o, "n,x:1,u}c"), x, "", "") }
    pub fn r_nx0_sb(x: &str) -> Option<String> { r_nx_sb(x) }
    pub fn r_lp_sb(x: &str) -> Option<String> { let (x, y) = x.split_once('\n')?; ex::<$s>(concat!("{", $o, "l:2}"), x, y, "d") }
    pub fn r_dp_sb(x: &str) -> Option<String> { let (x, y) = x.split_once('\n')?; ex::<$s>(concat!("{", $o, "d:2}"), x, y, "d") }
    pub fn r_ef(x: &str) -> Option<String> { ex::<$s>(concat!("a{", $o, "e,u,f*}b"), x, "", "") }
    pub fn r_xy_sb(x: &str) -> Option<String> { let (x, y) = x.split_once('\n')?; ex::<$s>(concat!("{", $o, "x,u,y}"), x, y, "") }
    pub fn r_xy0_sb(x: &str) -> Option<String> { r_xy_sb(x) }
    pub fn r_x3_sb(x: &str) -> Option<String> { ex::<$s>(concat!("{", $o, "x:3}"), x, "", "") }
    pub fn r_x30_sb(x: &str) -> Option<String> { r_x3_sb(x) }
    pub fn r_l_sb(x: &str) -> Option<String> { let (x, y) = x.split_once('\n')?; ex::<$s>(concat!("{", $o, "l}"), x, y, "d") }
    pub fn r_l0_sb(x: &str) -> Option<String> { r_l_sb(x) }
    pub fn r_le_sb(x: &str) -> Option<String> { let (x, y) = x.split_once('\n')?; ex::<$s>(concat!("{", $o, "l*}"), x, y, "d") }
    pub fn r_le0_sb(x: &str) -> Option<String> { r_le_sb(x) }
    pub fn r_d_sb(x: &str) -> Option<String> { let (x, y) = x.split_once('\n')?; ex::<$s>(concat!("{", $o, "d}"), x, y, "d") }
    pub fn r_d0_sb(x: &str) -> Option<String> { r_d_sb(x) }
    pub fn r_de_sb(x: &str) -> Option<String> { let (x, y) = x.split_once('\n')?; ex::<$s>(concat!("{", $o, "d*}"), x, y, "") }
    pub fn r_de0_sb(x: &str) -> Option<String> { r_de_sb(x) }
    pub fn r_g_sb(x: &str) -> Option<String> { let (x, y) = x.split_once('\n')?; ex::<$s>(concat!("{", $o, "g}"), x, y, "") }
    pub fn r_g0_sb(x: &str) -> Option<String> { r_g_sb(x) }
    pub fn r_ge_sb(x: &str) -> Option<String> { let (x, y) = x.split_once('\n')?; ex::<$s>(concat!("{", $o, "g*}"), x, y, "") }
    pub fn r_ge0_sb(x: &str) -> Option<String> { r_ge_sb(x) }
    pub fn r_p_sb(x: &str) -> Option<String> { let (x, y) = x.split_once('\n')?; ex::<$s>(concat!("{", $o, "p}"), x, y, "") }
    pub fn r_p0_sb(x: &str) -> Option<String> { r_p_sb(x) }
    pub fn r_p2_sb(x: &str) -> Option<String> { let (x, y) = x.split_once('\n')?; ex::<$s>(concat!("{", $o, "p:2}"), x, y, "") }
    pub fn r_p20_sb(x: &str) -> Option<String> { r_p2_sb(x) }
} )* } }
#[cfg(feature = "alloc")]
op!(
    ex_u_none UriSpec "", ex_u_plus UriSpec "+", ex_u_dot UriSpec ".", ex_u_slash UriSpec "/",
    ex_u_semi UriSpec ";", ex_u_query UriSpec "?", ex_u_amp UriSpec "&", ex_u_hash UriSpec "#",
    ex_i_none IriSpec "", ex_i_plus IriSpec "+", ex_i_dot IriSpec ".", ex_i_slash IriSpec "/",
    ex_i_semi IriSpec ";", ex_i_query IriSpec "?", ex_i_amp IriSpec "&", ex_i_hash IriSpec "#"
);
struct Nothing;
impl Context for Nothing { fn visit<V: Visitor>(&self, v: V) -> V::Result { v.visit_undefined() } }
struct Same;
impl Context for Same { fn visit<V: Visitor>(&self, v: V) -> V::Result { v.visit_string("v") } }
#[cfg(feature = "alloc")]
pub fn r_nothing_u_sb(t: &UriTemplateStr) -> Option<String> { t.expand::<UriSpec, _>(&Nothing).ok().map(|e| e.to_string()) }
#[cfg(feature = "alloc")]
pub fn r_nothing_i_sb(t: &UriTemplateStr) -> Option<String> { t.expand::<IriSpec, _>(&Nothing).ok().map(|e| e.to_string()) }
#[cfg(feature = "alloc")]
pub fn r_same_sb(t: &UriTemplateStr) -> Option<String> { t.expand::<UriSpec, _>(&Same).ok().map(|e| e.to_string()) }
/// the mutable context, written directly to a string
#[cfg(feature = "alloc")]
pub fn r_dynamic_sb(x: &str) -> Option<String> {
    let (x, y) = x.split_once('\n')?;
    let t = UriTemplateStr::new("a{x}b{?u,y:2}").ok()?;
    let mut c = Dynamic(Values { x, y, z: "" });
    t.expand_dynamic_to_string::<UriSpec, _>(&mut c).ok()
}
