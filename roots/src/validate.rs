macro_rules! v { ($($m:ident $s:ident),*) => { $( pub mod $m {
    use iri_string::{spec::$s, validate as v};
    pub fn r_iri(s: &str) -> bool { v::iri::<$s>(s).is_ok() }
    pub fn r_iri_reference(s: &str) -> bool { v::iri_reference::<$s>(s).is_ok() }
    pub fn r_absolute_iri(s: &str) -> bool { v::absolute_iri::<$s>(s).is_ok() }
    pub fn r_relative_ref(s: &str) -> bool { v::relative_ref::<$s>(s).is_ok() }
    pub fn r_path(s: &str) -> bool { v::path::<$s>(s).is_ok() }
    pub fn r_query(s: &str) -> bool { v::query::<$s>(s).is_ok() }
    pub fn r_fragment(s: &str) -> bool { v::fragment::<$s>(s).is_ok() }
    pub fn r_authority(s: &str) -> bool { v::authority::<$s>(s).is_ok() }
    pub fn r_host(s: &str) -> bool { v::host::<$s>(s).is_ok() }
    pub fn r_scheme(s: &str) -> bool { v::scheme(s).is_ok() }
    pub fn r_port(s: &str) -> bool { v::port(s).is_ok() }
    pub fn r_reg_name(s: &str) -> bool { v::reg_name::<$s>(s).is_ok() }
    pub fn r_path_segment(s: &str) -> bool { v::path_segment::<$s>(s).is_ok() }
    pub fn r_userinfo(s: &str) -> bool { v::userinfo::<$s>(s).is_ok() }
} )* } }
v!(v_iri IriSpec, v_uri UriSpec);
