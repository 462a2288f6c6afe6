//! The oracle: RFC 3986 / 3987 / 6570 grammars as regular languages, written from the RFC text.
use crate::lang::{self, L};

pub fn s(x: &str) -> L {
    lang::bytes(x.as_bytes())
}
pub fn one(x: &str) -> L {
    lang::syms(x.bytes().map(|b| (b as u16, b as u16)).collect())
}
pub fn rng(a: u8, b: u8) -> L {
    lang::syms(vec![(a as u16, b as u16)])
}
pub fn cat(v: &[L]) -> L {
    lang::concat_all(v)
}
pub fn alt(v: &[L]) -> L {
    lang::union_all(v)
}
pub fn star(a: L) -> L {
    lang::star(a)
}
pub fn plus(a: L) -> L {
    lang::concat(a, lang::star(a))
}
pub fn opt(a: L) -> L {
    lang::union(a, lang::eps())
}
pub fn rep(a: L, lo: u32, hi: u32) -> L {
    let mut r = lang::eps();
    for _ in 0..(hi - lo) {
        r = opt(lang::concat(a, r));
    }
    for _ in 0..lo {
        r = lang::concat(a, r);
    }
    r
}
pub fn inter(a: L, b: L) -> L {
    lang::inter(a, b)
}
pub fn diff(a: L, b: L) -> L {
    lang::diff(a, b)
}
pub fn keep(a: L) -> L {
    lang::keep(a)
}
/// constant output
pub fn out(x: &str) -> L {
    lang::as_output(s(x))
}
pub fn chars(v: &[(u32, u32)]) -> L {
    lang::cset_lang(&lang::cs(v.to_vec()))
}
pub fn alpha() -> L {
    alt(&[rng(b'a', b'z'), rng(b'A', b'Z')])
}
pub fn digit() -> L {
    rng(b'0', b'9')
}
pub fn hexdig() -> L {
    alt(&[digit(), rng(b'a', b'f'), rng(b'A', b'F')])
}
pub fn subdelims() -> L {
    one("!$&'()*+,;=")
}
pub fn pct() -> L {
    cat(&[s("%"), hexdig(), hexdig()])
}
/// RFC 3987 ucschar
pub fn ucschar() -> L {
    let mut v = vec![(0xA0, 0xD7FF), (0xF900, 0xFDCF), (0xFDF0, 0xFFEF)];
    for p in 1..=0xD {
        v.push((p * 0x10000, p * 0x10000 + 0xFFFD));
    }
    v.push((0xE1000, 0xEFFFD));
    chars(&v)
}
/// RFC 3987 iprivate
pub fn iprivate() -> L {
    chars(&[(0xE000, 0xF8FF), (0xF0000, 0xFFFFD), (0x100000, 0x10FFFD)])
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct G {
    pub iri: bool,
}
pub const URI: G = G { iri: false };
pub const IRI: G = G { iri: true };
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
    Full,
    Absolute,
    Reference,
    Relative,
}
impl G {
    pub fn unreserved(self) -> L {
        let a = alt(&[alpha(), digit(), one("-._~")]);
        if self.iri {
            alt(&[a, ucschar()])
        } else {
            a
        }
    }
    pub fn pchar(self) -> L {
        alt(&[self.unreserved(), pct(), subdelims(), one(":@")])
    }
    pub fn scheme(self) -> L {
        cat(&[alpha(), star(alt(&[alpha(), digit(), one("+-.")]))])
    }
    pub fn userinfo(self) -> L {
        star(alt(&[self.unreserved(), pct(), subdelims(), s(":")]))
    }
    /// userinfo without colon
    pub fn user(self) -> L {
        star(alt(&[self.unreserved(), pct(), subdelims()]))
    }
    pub fn reg_name(self) -> L {
        star(alt(&[self.unreserved(), pct(), subdelims()]))
    }
    pub fn ipv4(self) -> L {
        let oct = alt(&[
            digit(),
            cat(&[rng(b'1', b'9'), digit()]),
            cat(&[s("1"), digit(), digit()]),
            cat(&[s("2"), rng(b'0', b'4'), digit()]),
            cat(&[s("25"), rng(b'0', b'5')]),
        ]);
        cat(&[oct, s("."), oct, s("."), oct, s("."), oct])
    }
    pub fn ipv6(self) -> L {
        let h16 = rep(hexdig(), 1, 4);
        let ls32 = alt(&[cat(&[h16, s(":"), h16]), self.ipv4()]);
        let h16c = cat(&[h16, s(":")]);
        // [ *n( h16 ":" ) h16 ]
        let pre = |n: u32| opt(cat(&[rep(h16c, 0, n), h16]));
        let dc = s("::");
        alt(&[
            cat(&[rep(h16c, 6, 6), ls32]),
            cat(&[dc, rep(h16c, 5, 5), ls32]),
            cat(&[opt(h16), dc, rep(h16c, 4, 4), ls32]),
            cat(&[pre(1), dc, rep(h16c, 3, 3), ls32]),
            cat(&[pre(2), dc, rep(h16c, 2, 2), ls32]),
            cat(&[pre(3), dc, h16c, ls32]),
            cat(&[pre(4), dc, ls32]),
            cat(&[pre(5), dc, h16]),
            cat(&[pre(6), dc]),
        ])
    }
    pub fn ipvfuture(self) -> L {
        // ABNF string literals are case-insensitive
        cat(&[one("vV"), plus(hexdig()), s("."), plus(alt(&[URI.unreserved(), subdelims(), s(":")]))])
    }
    pub fn ipliteral(self) -> L {
        cat(&[s("["), alt(&[self.ipv6(), self.ipvfuture()]), s("]")])
    }
    pub fn host(self) -> L {
        alt(&[self.ipliteral(), self.ipv4(), self.reg_name()])
    }
    pub fn port(self) -> L {
        star(digit())
    }
    pub fn authority(self) -> L {
        cat(&[opt(cat(&[self.userinfo(), s("@")])), self.host(), opt(cat(&[s(":"), self.port()]))])
    }
    pub fn segment(self) -> L {
        star(self.pchar())
    }
    pub fn segment_nz(self) -> L {
        plus(self.pchar())
    }
    pub fn segment_nz_nc(self) -> L {
        plus(alt(&[self.unreserved(), pct(), subdelims(), s("@")]))
    }
    pub fn path_abempty(self) -> L {
        star(cat(&[s("/"), self.segment()]))
    }
    pub fn path_absolute(self) -> L {
        cat(&[s("/"), opt(cat(&[self.segment_nz(), star(cat(&[s("/"), self.segment()]))]))])
    }
    pub fn path_noscheme(self) -> L {
        cat(&[self.segment_nz_nc(), star(cat(&[s("/"), self.segment()]))])
    }
    pub fn path_rootless(self) -> L {
        cat(&[self.segment_nz(), star(cat(&[s("/"), self.segment()]))])
    }
    /// path without authority, after a scheme
    pub fn path_na(self) -> L {
        alt(&[self.path_absolute(), self.path_rootless(), lang::eps()])
    }
    /// path without authority, without scheme
    pub fn path_rel(self) -> L {
        alt(&[self.path_absolute(), self.path_noscheme(), lang::eps()])
    }
    /// any path (the generic `path` rule)
    pub fn path(self) -> L {
        alt(&[self.path_abempty(), self.path_absolute(), self.path_noscheme(), self.path_rootless(), lang::eps()])
    }
    pub fn query(self) -> L {
        let a = alt(&[self.pchar(), one("/?")]);
        star(if self.iri { alt(&[a, iprivate()]) } else { a })
    }
    pub fn fragment(self) -> L {
        star(alt(&[self.pchar(), one("/?")]))
    }
    pub fn hier(self) -> L {
        alt(&[cat(&[s("//"), self.authority(), self.path_abempty()]), self.path_na()])
    }
    pub fn rel_part(self) -> L {
        alt(&[cat(&[s("//"), self.authority(), self.path_abempty()]), self.path_rel()])
    }
    pub fn optq(self) -> L {
        opt(cat(&[s("?"), self.query()]))
    }
    pub fn optf(self) -> L {
        opt(cat(&[s("#"), self.fragment()]))
    }
    pub fn full(self) -> L {
        cat(&[self.scheme(), s(":"), self.hier(), self.optq(), self.optf()])
    }
    pub fn absolute(self) -> L {
        cat(&[self.scheme(), s(":"), self.hier(), self.optq()])
    }
    pub fn relative(self) -> L {
        cat(&[self.rel_part(), self.optq(), self.optf()])
    }
    pub fn reference(self) -> L {
        alt(&[self.full(), self.relative()])
    }
    pub fn kind(self, k: Kind) -> L {
        match k {
            Kind::Full => self.full(),
            Kind::Absolute => self.absolute(),
            Kind::Reference => self.reference(),
            Kind::Relative => self.relative(),
        }
    }
}
pub fn ascii_literals() -> L {
    let ascii = alt(&[s("!"), rng(0x23, 0x24), rng(0x26, 0x3B), s("="), rng(0x3F, 0x5B), s("]"), s("_"), rng(0x61, 0x7A), s("~")]);
    alt(&[ascii, pct()])
}
/// RFC 6570 `literals` (with erratum 6937: `'` is allowed)
pub fn template_literals() -> L {
    alt(&[ascii_literals(), ucschar(), iprivate()])
}
/// templates whose literals are ASCII
pub fn ascii_template() -> L {
    star(alt(&[ascii_literals(), expression()]))
}
pub fn operator() -> L {
    one("+#./;?&")
}
pub fn maxlen() -> L {
    cat(&[rng(b'1', b'9'), rep(digit(), 0, 3)])
}
/// RFC 6570 `varname`
pub fn varname() -> L {
    let varchar = alt(&[alpha(), digit(), s("_"), pct()]);
    cat(&[varchar, star(cat(&[opt(s(".")), varchar]))])
}
/// RFC 6570 `varspec`
pub fn varspec() -> L {
    cat(&[varname(), opt(alt(&[cat(&[s(":"), maxlen()]), s("*")]))])
}
/// RFC 6570 `expression`; the reserved operators are not supported by any expansion and are errors
pub fn expression() -> L {
    cat(&[s("{"), opt(operator()), varspec(), star(cat(&[s(","), varspec()])), s("}")])
}
/// RFC 6570 `URI-Template`
pub fn template() -> L {
    star(alt(&[template_literals(), expression()]))
}
pub fn utf8() -> L {
    lang::utf8()
}
/// language named by a parameter type
pub fn type_lang(name: &str, iri: bool) -> Option<L> {
    let g = G { iri };
    Some(match name {
        "RiStr" | "RiString" => g.full(),
        "RiAbsoluteStr" | "RiAbsoluteString" => g.absolute(),
        "RiReferenceStr" | "RiReferenceString" => g.reference(),
        "RiRelativeStr" | "RiRelativeString" => g.relative(),
        "RiQueryStr" | "RiQueryString" => g.query(),
        "RiFragmentStr" | "RiFragmentString" => g.fragment(),
        // literals outside ASCII are rejected at present (recorded finding)
        "UriTemplateStr" | "UriTemplateString" => ascii_template(),
        "str" | "String" => utf8(),
        _ => return None,
    })
}
/// A small regular expression over bytes (development aid).
pub fn regex(r: &str) -> L {
    fn alts(b: &[u8], i: &mut usize) -> L {
        let mut v = vec![seq(b, i)];
        while *i < b.len() && b[*i] == b'|' {
            *i += 1;
            v.push(seq(b, i));
        }
        alt(&v)
    }
    fn seq(b: &[u8], i: &mut usize) -> L {
        let mut v = vec![lang::eps()];
        while *i < b.len() && b[*i] != b'|' && b[*i] != b')' {
            let mut a = match b[*i] {
                b'(' => {
                    *i += 1;
                    alts(b, i)
                }
                b'.' => rng(1, 255),
                b'[' => {
                    let mut s = vec![];
                    *i += 1;
                    let neg = b[*i] == b'^';
                    if neg {
                        *i += 1;
                    }
                    while b[*i] != b']' {
                        if b[*i + 1] == b'-' {
                            s.push((b[*i] as u16, b[*i + 2] as u16));
                            *i += 3;
                        } else {
                            s.push((b[*i] as u16, b[*i] as u16));
                            *i += 1;
                        }
                    }
                    if neg { lang::diff(rng(1, 255), lang::syms(s)) } else { lang::syms(s) }
                }
                b'\\' => {
                    *i += 1;
                    rng(b[*i], b[*i])
                }
                c => rng(c, c),
            };
            *i += 1;
            while *i < b.len() && b"*+?".contains(&b[*i]) {
                a = match b[*i] {
                    b'*' => star(a),
                    b'+' => plus(a),
                    _ => opt(a),
                };
                *i += 1;
            }
            v.push(a);
        }
        cat(&v)
    }
    alts(r.as_bytes(), &mut 0)
}
