"""Source of properties.jsonl and MANIFEST.json (python3 tools/properties.py rewrites both)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))

I = ["inputs"]
P = []

def p(id, title, statement, over, quant, tests, files, mech, observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = state
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": quant}, "why_tests_cant": tests, "anchors": a})

GEN = "The tests feed a fixed table of strings; the claim is an equality of two languages over all byte strings, and errors sit at unusual combinations of components."
p("P01", "URI validators accept exactly the RFC 3986 grammar",
  "For every string, the validation functions of the URI specification for the full URI, URI reference, absolute URI, relative reference, scheme, path, path segment, query and fragment succeed if and only if the string matches the corresponding production of RFC 3986 (with the documented erratum allowing `'` as in the RFC's sub-delims and IPvFuture/IPv6 literals).",
  I, "every UTF-8 string, each validator", GEN,
  ["src/validate.rs", "src/parser/validate.rs", "src/parser/validate/*.rs", "src/parser/str.rs", "src/parser/str/maybe_pct_encoded.rs", "src/parser/char.rs"],
  [("validators", "src/validate.rs"), ("component parsers", "src/parser/validate.rs, src/parser/validate/{path,authority}.rs"), ("character classes", "src/parser/char.rs, src/parser/str.rs")])
p("P02", "IRI validators accept exactly the RFC 3987 grammar",
  "For every string, the validation functions of the IRI specification succeed if and only if the string matches the corresponding production of RFC 3987, i.e. the URI grammar with ucschar admitted as unreserved and iprivate admitted in queries only.",
  I, "every UTF-8 string, each validator", GEN,
  ["src/validate.rs", "src/parser/validate.rs", "src/parser/validate/*.rs", "src/parser/str.rs", "src/parser/char.rs", "src/spec/internal.rs"],
  [("validators", "src/validate.rs"), ("ucschar and iprivate ranges", "src/parser/char.rs")])
p("P03", "Authority component validators accept exactly the grammar",
  "For every string, the validators for authority, host, userinfo, port and registered name succeed if and only if the string matches the production of RFC 3986 (URI) or RFC 3987 (IRI), where a registered name excludes IPv4 addresses.",
  I, "every UTF-8 string, each validator, both specifications", GEN,
  ["src/validate.rs", "src/parser/validate/authority.rs", "src/parser/char.rs"],
  [("authority parsers", "src/parser/validate/authority.rs")])
p("P04", "Every checked way to make a value accepts exactly the grammar, keeping text",
  "Every public checked conversion from text or bytes (constructors, conversion traits, parsing, deserialization, prefixed query and fragment constructors) succeeds if and only if the text matches the grammar of the target type, and the resulting value, all its views, smart-pointer conversions, its display form and its serialized form are exactly the input text.",
  I, "every byte string; every type (full, absolute, reference, relative, query, fragment; borrowed and owned; URI and IRI); every conversion", "The tests try a handful of strings on a few of the conversions; the conversions are generated by macros per type, and any one can diverge.",
  ["src/types/generic/macros.rs", "src/types/generic/*.rs", "src/spec/internal.rs"],
  [("conversion macros", "src/types/generic/macros.rs"), ("type to grammar dispatch", "src/spec/internal.rs")])
p("P05", "Conversions between the kinds of reference are exact and keep the text",
  "Widening a value (absolute to full, full or relative to reference) keeps its text; narrowing succeeds if and only if the text matches the narrower grammar, keeps the text on success and hands the original back on failure; splitting off or dropping the fragment yields exactly the text before `#` and the fragment after it.",
  I, "every valid value of each kind, both specifications, borrowed and owned", "Tests cover a few examples per conversion; exactness is a statement about two languages.",
  ["src/types/generic/normal.rs", "src/types/generic/absolute.rs", "src/types/generic/reference.rs", "src/types/generic/relative.rs", "src/raw.rs"],
  [("narrowing", "src/types/generic/{reference,normal}.rs"), ("fragment splitting", "src/types/generic/normal.rs, src/parser/trusted.rs")])
p("P06", "Component accessors return exactly the RFC components",
  "For every valid value, the scheme, authority, path, query and fragment accessors return exactly the substring that the RFC grammar assigns to that component, and report absence exactly when the component is absent.",
  I, "every valid value of each kind, both specifications", "The decomposition must agree with the grammar for every valid text, including empty components and delimiters inside later components.",
  ["src/types/generic/*.rs", "src/parser/trusted.rs", "src/components.rs"],
  [("trusted decomposition", "src/parser/trusted.rs")])
p("P07", "Authority components are exactly userinfo, host and port",
  "For every valid value with an authority, the userinfo, host, port and registered-name accessors return exactly the substrings that the RFC grammar assigns, distinguishing absent from empty, and report no authority components exactly when there is no authority.",
  I, "every valid value of each kind, both specifications", "Brackets, at-signs and colons interact; tests sample a few authorities.",
  ["src/components/authority.rs", "src/parser/trusted/authority.rs", "src/parser/trusted.rs"],
  [("authority decomposition", "src/parser/trusted/authority.rs")])
p("P08", "Setting or removing the fragment changes nothing else and stays valid",
  "Setting the fragment of an owned value yields exactly the original text up to its first `#` followed by `#` and the given fragment, and removing it yields exactly that prefix.",
  I, "every valid value with every valid fragment", "A statement on all pairs of values; tests try a few.",
  ["src/raw.rs", "src/types/generic/*.rs"], [("fragment replacement", "src/raw.rs")])
p("P09", "Password masking and removal touch exactly the password",
  "For every valid value, masking shows the text with exactly the password (what follows the first colon of the userinfo) removed or replaced, removal deletes exactly the password and, for the full removal, its colon, and values without a password are unchanged.",
  I, "every valid value of each kind, both specifications", "Leaks happen on unusual userinfo (several colons, empty user, colon in host literal, at-sign in path); the tests list common shapes.",
  ["src/mask_password.rs", "src/types/generic/macros.rs", "src/parser/trusted/authority.rs"],
  [("password range", "src/mask_password.rs"), ("in-place removal", "src/types/generic/*.rs")])
p("P10", "Replacing the host changes exactly the host",
  "For every valid value and every valid host, replacing the host yields exactly the original text with the host substring substituted, a valid value of the same kind, and leaves values without an authority unchanged.",
  I, "every pair of a valid value and a valid host", "A statement on all pairs; the in-place edit depends on lengths and on the position of the host.",
  ["src/types/generic/macros.rs", "src/types/generic/*.rs", "src/parser/trusted/authority.rs"], [("in-place host edit", "src/types/generic/*.rs")])
p("P11", "Reference resolution follows RFC 3986 section 5.2",
  "Resolving a reference against a base selects scheme, authority, path source and query exactly as RFC 3986 section 5.2.2 prescribes for every combination of present and absent components, and the text of the components that are taken over is unchanged; dot segments of the merged path are removed as section 5.2.4 prescribes. With normalization enabled the result is the normalized form of that.",
  I, "every query and fragment of the reference, every path segment without percent-encoding, both specifications; base path of up to two segments and reference path of up to three (two after a base path of two segments), also after eight or nine fixed segments, with and without leading slash, base with and without authority (any scheme and authority for one path shape), references with and without scheme, authority, path, query and fragment", "The tests use one or two bases; the case analysis is over all combinations of present/absent components in two inputs.",
  ["src/resolve.rs", "src/normalize.rs", "src/normalize/path.rs"], [("component selection", "src/resolve.rs"), ("merge and dot removal", "src/normalize/path.rs")])
p("P12", "Normalization is exact and the normalized test agrees with it",
  "Normalizing a value lowercases the scheme and an ASCII-only host, writes the digits of percent-encodings in upper case, decodes exactly the percent-encoded unreserved characters (for IRIs including UTF-8 encoded non-ASCII ones), removes an empty port and the dot segments as RFC 3986 section 5.2.4 prescribes (writing `/.` before a path that would otherwise begin with two slashes; a path without leading slash and authority is left alone if its preservation is asked for), and changes nothing else. A value is reported as normalized by each of the three tests exactly when it has these forms, so exactly when normalization leaves it unchanged.",
  I, "the tests: every valid value of both specifications. The normalizer: each component with every text of its grammar, the others being fixed, with these bounds: up to four path segments after an authority, also after seven or eight fixed segments, and three without, five (four) segments that are `a`, `.`, `..` or empty, path without slash: two percent-encoded octets, registered name: one percent-encoded octet, IPv6 literals of up to six characters", "Equality of a transformation with its specification and of a predicate with its fixed points; tests list examples.",
  ["src/normalize.rs", "src/normalize/path.rs", "src/normalize/pct_case.rs", "src/parser/trusted.rs", "src/parser/str.rs"], [("normalizer", "src/normalize.rs, src/normalize/pct_case.rs, src/normalize/path.rs"), ("predicate", "src/parser/trusted.rs")])
p("P13", "Percent-encoding and decoding are exact in every context",
  "The percent-encoder leaves exactly the characters its context permits and turns every other character into the uppercase percent-encoding of its UTF-8 bytes; the percent-decoder replaces exactly the well-formed triplets by their bytes and keeps every other byte, without losing a stray percent sign.",
  I, "every string, every context, both specifications", "Every Unicode scalar value in every context and every incomplete triplet; the tests sample.",
  ["src/percent_encode.rs", "src/percent_encode/decode.rs"], [("context tables", "src/percent_encode.rs"), ("decoder", "src/percent_encode/decode.rs")])
p("P14", "IRI to URI mapping is exact",
  "A URI is viewed as the same IRI; an IRI converts to a URI without encoding exactly when it already matches the URI grammar, and otherwise encoding to a new URI string replaces exactly each non-ASCII character by the uppercase percent-encoding of its UTF-8 bytes, giving a valid URI of the same kind.",
  I, "every valid IRI of each kind; encoding to a new string (in-place encoding is not covered)", "A statement over all IRIs; tests sample a few characters.",
  ["src/convert.rs", "src/types/iri.rs", "src/types/uri.rs"], [("encoding", "src/convert.rs")])
p("P15", "The builder builds exactly valid values, whose text is what was set",
  "Building without normalization succeeds if and only if every component set is valid for its place and the assembled text matches the grammar of the target type, and then the text is exactly the components last set, each with its delimiter: a later setting replaces an earlier one, an unset component is absent, and a builder made from an existing value keeps every component that is not changed.",
  I, "every text for every component (scheme, user information, user and password, host, textual port, path, query, fragment), in the combinations and setter orders listed as obligations, and every existing value with one component replaced or removed; both specifications, all four kinds", "Validity is decided by interactions between components (authority and leading slashes, colons in the first segment); tests list known-bad combinations.",
  ["src/build.rs"], [("validation and writing", "src/build.rs")])
p("P16", "URI template parsing accepts exactly RFC 6570 templates",
  "A string is accepted as a URI template if and only if it matches the grammar of RFC 6570 (operators reserved for future extensions excluded), a variable name is accepted if and only if it matches the varname production, every view, conversion and display form of a template keeps its text, appending concatenates, and listing the variables yields exactly the names in the expressions, in order.",
  I, "every UTF-8 string (variable listing: the first two variables of every template)", "Equality of languages; the tests list examples.",
  ["src/template/parser/validate.rs", "src/template/parser/char.rs", "src/template/components.rs"], [("template validator", "src/template/parser/validate.rs")])
p("P17", "URI template expansion follows RFC 6570",
  "Expanding a template copies its literals, writes nothing for expressions without defined variables, and writes for each of the eight operators exactly the text RFC 6570 section 3.2 prescribes for defined, undefined and empty strings, lists and associative arrays, with and without the prefix and explode modifiers: first character, separators, names and empty forms as in the operator's row of the table, every character the operator does not permit percent-encoded, every permitted one (and, for + and #, every percent-encoded triplet) copied. A prefix modifier on a list or an associative array is an error. For IRIs the non-ASCII characters an IRI may contain are permitted too.",
  I + ["programs"], "every template (without defined variables); every operator with representative variable lists and every string value, list item, key and entry value (for + and #: at most two percent signs)", "The tests cover the RFC's examples; the product of operators, modifiers, value types, emptiness and characters is far larger.",
  ["src/template/expand.rs", "src/template/components.rs", "src/template/string.rs"], [("expansion", "src/template/expand.rs")])
p("P18", "Equality, order and hash of every type agree with the text",
  "For any two values of any combination of types that can be compared (borrowed, owned, standard strings, shared and clone-on-write strings), equality, ordering and hashing agree with those of the underlying texts.",
  I, "every pair of values of every comparable pair of types", "Hundreds of macro-generated trait implementations; a test touches few of them.",
  ["src/types/generic/macros.rs"], [("comparison macros", "src/types/generic/macros.rs")])
p("P19", "Writing never swallows an error of the destination",
  "Every operation that writes its result to a caller-supplied formatter, writer or fallible buffer reports failure whenever the destination reports failure, and never reports success with a truncated result.",
  ["inputs", "fault_sequences"], "every write of every operation and every point at which the destination fails", "Needs a fault at every write of every path; the tests never make a destination fail except for short buffers.",
  ["src/format.rs", "src/normalize.rs", "src/normalize/*.rs", "src/build.rs", "src/convert.rs", "src/mask_password.rs", "src/percent_encode.rs", "src/template/*.rs"], [("fmt writers", "src/**/*.rs")])
p("P20", "Results do not depend on the enabled features",
  "For every operation available in several feature configurations, the results are the same in all of them, in particular with and without the vectorised byte search and with and without the standard library.",
  ["configurations", "inputs"], "every feature configuration and every input", "The tests run under one feature set; the alternative search routines are separate code.",
  ["src/parser/str.rs", "src/parser/trusted.rs", "Cargo.toml"], [("byte search", "src/parser/str.rs")])
p("P21", "No safe operation panics on any input (except documented panics)",
  "No safe public operation covered by the other properties panics, overflows, slices outside a text or splits a character, for any input of its type.",
  I, "every input of every analysed operation", "Panics hide in slicing arithmetic at unusual inputs; tests cover sampled inputs.",
  ["src/**/*.rs"], [("slicing and indexing", "src/parser/*.rs, src/raw.rs, src/normalize/*.rs")])
p("P22", "Failed conversions of owned values give the original back",
  "A checked conversion from an owned string either yields an owned value with the same text or an error from which exactly the original string can be recovered.",
  I, "every string, every owned type", "Every macro-generated conversion and every string; the tests try a few.",
  ["src/types/generic/macros.rs", "src/types/generic/error.rs"], [("conversion with source", "src/types/generic/macros.rs, src/types/generic/error.rs")])
p("P23", "Safe code can never make a value that breaks its grammar",
  "A program without unsafe code cannot obtain mutable access to the text inside a validated value, construct one without validation, or convert a value to a type whose grammar does not contain it without a check.",
  ["programs"], "every client program using the public API", "A statement about programs that must not compile and about every public path to the unchecked constructors.",
  ["src/types/generic/macros.rs", "src/types/generic/*.rs", "src/raw.rs", "src/convert.rs", "src/normalize.rs", "src/build.rs"], [("unchecked constructors", "src/types/generic/macros.rs")])

LEVEL = {}
def note(s): return s

def main():
    from config import PROPS, NOT_APPLICABLE
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for x in P:
            assert len(x["title"]) <= 80, x["title"]
            f.write(json.dumps(x) + "\n")
    checks, na = [], []
    for x in P:
        i = x["id"]
        if i in PROPS:
            c = PROPS[i]
            checks.append({"property": i, "quick_cmd": "python3 check.py %s quick" % i, "thorough_cmd": "python3 check.py %s thorough" % i,
                           "evidence_file": "evidence/%s.json" % i, "technique": c.get("technique", "abstract interpretation of MIR in a regular-language domain, compared with an RFC-grammar oracle by automaton equality"),
                           "level": "other", "level_note": c.get("note") or c["explain"]})
        else:
            na.append({"property": i, "reason": NOT_APPLICABLE[i]})
    m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na,
         "notes": "Every check compiles /repo's current source with the analysis driver /verif/engine in place of rustc and analyses the MIR; nothing of /repo is executed. See DESIGN.md."}
    json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)

main()
