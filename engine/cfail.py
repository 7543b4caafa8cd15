"""Compile-fail witnesses: definitions without an SSZ meaning must not derive; each has a compiling twin that must."""
import json
import os
import subprocess
import tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
B = os.path.join(ROOT, "build")
CARGO = """[package]
name = "ssz_cfail"
version = "0.1.0"
edition = "2021"
[workspace]
[lib]
path = "lib.rs"
[dependencies]
ethereum_ssz = { path = "/repo/ssz" }
ethereum_ssz_derive = { path = "/repo/ssz_derive" }
"""


def variants(n, payload):
    return ", ".join("V%d%s" % (i, payload) for i in range(n))


def cases():
    """(name, what is rejected, source that must not compile, source that must compile)"""
    C = []
    S = "skip_serializing"
    K = "skip_deserializing"
    for d in ("Encode", "Decode"):
        def en(beh, body, extra=""):
            return '#[derive(ssz_derive::%s)]\n%s%s\npub enum X { %s }' % (d, '#[ssz(enum_behaviour = "%s")]' % beh if beh else "", extra, body)

        def st(body, tup=False, beh="transparent", attr="struct_behaviour"):
            h = '#[derive(ssz_derive::%s)]\n%s\npub struct X' % (d, '#[ssz(%s = "%s")]' % (attr, beh) if beh else "")
            return h + ("(%s);" % body if tup else " { %s }" % body)

        def c(name, bad, good):
            C.append(("%s: %s" % (d, name), bad, good))
        own, other = (S, K) if d == "Encode" else (K, S)
        for n in (129, 130, 256, 257):
            c("union with %d variants" % n, en("union", variants(n, "(u8)")), en("union", variants(128, "(u8)")))
            c("tag enum with %d variants" % n, en("tag", variants(n, "")), en("tag", variants(128, "")))
        c("union with 0 variants", en("union", ""), en("union", "A(u8)"))
        c("tag enum with 0 variants", en("tag", ""), en("tag", "A"))
        c("enum without a behaviour (payload)", en(None, "A(u8), B(Vec<u8>)"), en("union", "A(u8), B(Vec<u8>)"))
        c("enum without a behaviour (variable payloads)", en(None, "A(Vec<u8>), B(Vec<u8>)"), en("transparent", "A(Vec<u8>), B(Vec<u8>)"))
        c("enum without a behaviour (unit)", en(None, "A, B"), en("tag", "A, B"))
        c("enum without a behaviour (one variant)", en(None, "A(Vec<u8>)"), en("union", "A(Vec<u8>)"))
        c("enum with an unknown behaviour", en("container", "A(Vec<u8>)"), en("union", "A(Vec<u8>)"))
        c("struct with an unknown behaviour", st("a: u8", beh="union"), st("a: u8", beh="container"))
        c("union with a two-field variant", en("union", "A(u8, u8)"), en("union", "A(u8)"))
        c("union with a two-field variant among others", en("union", "A(u8), B(u8, u8), C(u8)"), en("union", "A(u8), B(u8), C(u8)"))
        c("tag enum with a payload", en("tag", "A, B(u8)"), en("tag", "A, B"))
        c("transparent enum with a two-field variant", en("transparent", "A(Vec<u8>, Vec<u8>)"), en("transparent", "A(Vec<u8>)"))
        for tup in (False, True):
            t = "tuple " if tup else ""
            f = (lambda n, ty: ty) if tup else (lambda n, ty: "%s: %s" % (n, ty))
            one = f("a", "u8")
            sk = lambda n, *a: "#[ssz(%s)] %s" % (", ".join(a), f(n, "u8"))
            for ty in ("u8", "Vec<u8>"):
                c("transparent %sstruct with 2 fields (%s)" % (t, ty), st(one + ", " + f("b", ty), tup), st(f("b", ty), tup))
            c("transparent %sstruct with 0 fields" % t, st("", tup), st(one, tup))
            c("transparent %sstruct with 3 fields" % t, st(", ".join(f(x, "u16") for x in "abc"), tup), st(one, tup))
            c("transparent %sstruct with 2 live fields of 3" % t, st(", ".join([f("a", "u8"), sk("b", S, K), f("c", "u16")]), tup),
              st(", ".join([sk("a", S, K), sk("b", S, K), f("c", "u16")]), tup))
            c("transparent %sstruct, all skipped" % t, st(sk("a", S, K), tup), st(sk("a", other), tup))
            c("transparent %sstruct, both skipped" % t, st(sk("a", S, K) + ", " + sk("b", own), tup), st(sk("a", S, K) + ", " + sk("b", other), tup))
            c("transparent %sstruct, skipped on the other side only" % t, st(one + ", " + sk("b", other), tup), st(one + ", " + sk("b", own), tup))
        c("enum_behaviour on a struct", st("a: u8", attr="enum_behaviour"), st("a: u8"))
        c("struct_behaviour on an enum", '#[derive(ssz_derive::%s)]\n#[ssz(struct_behaviour = "transparent")]\npub enum X { A(Vec<u8>) }' % d, en("transparent", "A(Vec<u8>)"))
    return C


PRE = """mod m { pub mod encode { pub fn is_ssz_fixed_len() -> bool { true } pub fn ssz_fixed_len() -> usize { 1 }
 pub fn ssz_bytes_len(_: &super::super::Foreign) -> usize { 1 } pub fn ssz_append(_: &super::super::Foreign, b: &mut Vec<u8>) { b.push(0) } }
 pub mod decode { pub fn is_ssz_fixed_len() -> bool { true } pub fn ssz_fixed_len() -> usize { 1 }
 pub fn from_ssz_bytes(_: &[u8]) -> Result<super::super::Foreign, ssz::DecodeError> { Ok(super::super::Foreign) } } }
pub struct Foreign;
fn enc<T: ssz::Encode>() {}
fn dec<T: ssz::Decode>() {}
"""
BOTH = "#[derive(ssz_derive::Encode, ssz_derive::Decode)]\n"
UNION, TAG, TENUM, TSTRUCT = ['#[ssz(%s = "%s")]\n' % x for x in (("enum_behaviour", "union"), ("enum_behaviour", "tag"), ("enum_behaviour", "transparent"), ("struct_behaviour", "transparent"))]
BD = "ssz::Encode + ssz::Decode"


def shapes():
    """definitions with an SSZ meaning in the shapes Rust has for them: (name, source)"""
    S = []

    def s(name, src, use="enc::<X>(); dec::<X>();", d=BOTH):
        S.append(("legal: " + name, PRE + d + src + "\nfn used() { %s }" % use))
    s("bounds in the generics", "pub struct X<A: %s, B: %s> { a: A, b: B }" % (BD, BD), "enc::<X<u8, Vec<u8>>>(); dec::<X<u8, Vec<u8>>>();")
    s("bounds in a where clause", "pub struct X<A, B> where A: %s, B: %s { a: A, b: Vec<B> }" % (BD, BD), "enc::<X<u8, u16>>(); dec::<X<u8, u16>>();")
    s("const parameter", "pub struct X<const N: usize> { a: [u8; N], b: Vec<[u8; N]> }", "enc::<X<3>>(); dec::<X<0>>();")
    s("default parameter", "pub struct X<A = u8> where A: %s { a: A }" % BD)
    s("lifetime", "pub struct X<'a, A: ssz::Encode> { a: &'a A, b: u8 }", "enc::<X<'static, u8>>();", d="#[derive(ssz_derive::Encode)]\n")
    s("field names like the locals of the generated code",
      "pub struct X { bytes: u8, buf: Vec<u8>, builder: u16, decoder: Vec<u8>, encoder: u8, offset: u32, len: u8, start: u8, end: u8, slice: Vec<u8>, i: u8, item: u8, selector: u8, body: u8, inner: u8 }")
    s("fixed-size fields with names like the locals", "pub struct X { bytes: u8, len: u16, slice: u8, start: u8, end: u16, offset: u8, buf: u8 }")
    s("raw identifiers", "pub struct X { r#type: u8, r#fn: Vec<u8>, r#match: u16 }")
    s("raw identifiers in variants", UNION + "pub enum X { r#Self_(u8), A(Vec<u8>) }")
    s("no fields", "pub struct X {}")
    s("attributes of others", "#[derive(Clone, Debug)]\n/// text\n#[allow(dead_code)]\npub struct X { /** text */ #[allow(unused)] pub a: u8, pub(crate) b: Vec<u8> }")
    s("skipped fields", "pub struct X { a: u8, #[ssz(skip_serializing, skip_deserializing)] b: Option<String>, c: Vec<u8> }")
    s("skip on one side", "pub struct X { a: u8, #[ssz(skip_serializing)] b: u8, #[ssz(skip_deserializing)] c: Vec<u8> }")
    s("field codec", 'pub struct X { #[ssz(with = "m")] a: Foreign, b: u8 }')
    s("field codec in a variable-size container", 'pub struct X { b: Vec<u8>, #[ssz(with = "m")] a: Foreign }')
    s("field codec with skips", 'pub struct X { #[ssz(with = "m", skip_serializing)] a: Foreign, b: u8 }', "enc::<X>();", d="#[derive(ssz_derive::Encode)]\n")
    s("transparent with a field codec", TSTRUCT + 'pub struct X { #[ssz(with = "m")] a: Foreign }')
    s("transparent tuple with a field codec", TSTRUCT + 'pub struct X(#[ssz(with = "m")] Foreign);')
    s("transparent tuple with skips", TSTRUCT + "pub struct X(#[ssz(skip_serializing, skip_deserializing)] u8, Vec<u8>, #[ssz(skip_serializing, skip_deserializing)] String);")
    s("transparent generic", TSTRUCT + "pub struct X<A: %s> { a: A }" % BD, "enc::<X<u8>>(); dec::<X<Vec<u8>>>();")
    s("explicit container", '#[ssz(struct_behaviour = "container")]\npub struct X { a: u8 }')
    s("tag enum with discriminants", TAG + "pub enum X { A = 7, B = 1, C }")
    s("tag enum with a repr", TAG + "#[repr(u8)]\npub enum X { A, B }")
    s("generic union", UNION + "pub enum X<A: %s, B> where B: %s { A(A), B(Vec<B>) }" % (BD, BD), "enc::<X<u8, u8>>(); dec::<X<u8, u8>>();")
    s("union with named paths", UNION + "pub enum X { None(u8), Some(Vec<u8>), Ok(u16), Err(bool) }")
    s("transparent enum", TENUM + "pub enum X { A(Vec<u8>), B(Vec<u16>) }")
    s("generic transparent enum", TENUM + "pub enum X<A: %s> { A(A), B(Vec<A>) }" % BD, "enc::<X<Vec<u8>>>(); dec::<X<Vec<u8>>>();")
    s("two definitions in nested modules", "pub struct X { a: y::Y, b: Vec<y::Y> }\npub mod y { #[derive(ssz_derive::Encode, ssz_derive::Decode)] pub struct Y { pub a: u8 } }")
    s("recursive type", "pub struct X { a: Vec<X>, b: u8 }")
    s("own Result and Option in scope", "pub struct X { a: u8, b: Vec<u8> }\npub mod z { type Result<T> = std::result::Result<T, ()>; #[derive(ssz_derive::Encode, ssz_derive::Decode)] pub struct Z { pub a: u8, pub b: Vec<u8> } }")
    return S


def build():
    """rlib search path, metadata of ssz and the macro library; None when the crates do not build"""
    d = os.path.join(B, "cf")
    os.makedirs(d, exist_ok=True)
    open(os.path.join(d, "Cargo.toml"), "w").write(CARGO)
    open(os.path.join(d, "lib.rs"), "w").write("")
    lock = os.path.join(d, "Cargo.lock")
    src = os.path.join(ROOT, "harness", "Cargo.lock")
    if not os.path.exists(lock) and os.path.exists(src):
        open(lock, "w").write(open(src).read())
    t = os.path.join(B, "cftarget")
    # never trust freshness
    import glob
    import shutil
    for p in glob.glob(os.path.join(t, "debug", ".fingerprint", "ethereum_ssz*")) + glob.glob(os.path.join(t, "debug", "build", "ethereum_ssz*")):
        shutil.rmtree(p, ignore_errors=True)
    env = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=t, CARGO_INCREMENTAL="0")
    r = subprocess.run(["cargo", "check", "--offline", "--message-format=json", "-q"], cwd=d, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    if r.returncode != 0:
        return None, r.stderr[-3000:]
    art = {}
    for line in r.stdout.splitlines():
        m = json.loads(line)
        if m.get("reason") == "compiler-artifact":
            art[m["target"]["name"].replace("-", "_")] = [f for f in m["filenames"]]
    return (art["ssz"][-1], [f for f in art["ssz_derive"] if f.endswith(".so")][0], art), None


def compile_(art, src, tmp, i):
    p = os.path.join(tmp, "c%d.rs" % i)
    open(p, "w").write("#![allow(dead_code)]\n" + src + "\n")
    ssz, der, _ = art
    r = subprocess.run(["rustc", "--edition", "2021", "--crate-type", "lib", "--crate-name", "c%d" % i, "--emit=metadata", "-o", os.path.join(tmp, "c%d.rmeta" % i),
                        "--extern", "ssz=" + ssz, "--extern", "ssz_derive=" + der,
                        "-L", "dependency=" + os.path.dirname(ssz), "-L", "dependency=" + os.path.dirname(der), p],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return r.returncode == 0, r.stdout


def run(only=""):
    art, err = build()
    if art is None:
        return {"error": err}
    cs = [c for c in cases() if only in c[0]]
    jobs = []
    for n, bad, good in cs:
        jobs.append((n, bad, False))
        if not any(g == good for _, g, _ in jobs):
            jobs.append((n + " (legal twin)", good, True))
    if not only:
        jobs += [(n, src, True) for n, src in shapes()]
    found, ok = [], 0
    with tempfile.TemporaryDirectory(dir=B) as tmp:
        with ThreadPoolExecutor(8) as ex:
            rs = list(ex.map(lambda x: compile_(art, x[1][1], tmp, x[0]), list(enumerate(jobs))))
    for (n, src, want), (got, msg) in zip(jobs, rs):
        if got == want:
            ok += 1
            continue
        found.append({"property": "C08", "subject": n, "what": "a definition with an SSZ meaning is rejected at compile time" if want else
                      "a definition without an SSZ meaning is accepted at compile time", "detail": src if len(src) < 400 else src[:200] + " ...",
                      "where": {"function": "ssz_derive", "compiler": msg[:1500]}, "valuation": {}, "seed": 0})
    return {"found": found, "obligations": len(jobs), "discharged": ok,
            "coverage": {"compile_fail_definitions": sum(1 for j in jobs if not j[2]), "compiling_twins": sum(1 for j in jobs if j[2])}}


if __name__ == "__main__":
    r = run()
    if "error" in r:
        print(r["error"])
    else:
        print(r["obligations"], r["discharged"])
        for f in r["found"]:
            print(f["subject"], "|", f["what"], "|", f["where"]["compiler"][:300])
