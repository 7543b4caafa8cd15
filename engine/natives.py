"""Descriptions of library functions (std, smallvec, ruint, ...) and contracts of opaque types."""
import terms as T
from terms import *
from mir import INT, TRANSPARENT

FN = {}
TR = {}
OPT, RES = "core::option::Option", "core::result::Result"
NONE = adt(OPT, 0, ())


def some(v):
    return adt(OPT, 1, (v,))


def ok(v):
    return adt(RES, 0, (v,))


def err(v):
    return adt(RES, 1, (v,))


ERR = mk("opaque", ("err",), "v")


def fn(*names):
    def d(f):
        for n in names:
            FN[n] = f
        return f
    return d


def tr(trait, *names):
    def d(f):
        for n in names:
            TR[(trait, n)] = f
        return f
    return d


class Ctx:
    """what a description may want to know about the call"""
    __slots__ = ("ex", "fr", "st", "c", "sp", "dty")

    def __init__(self, ex, fr, st, c, sp, dty):
        self.ex, self.fr, self.st, self.c, self.sp, self.dty = ex, fr, st, c, sp, dty

    def selfty(self):
        a = self.c["args"][0]
        return self.ex.P.types[a["t"]] if isinstance(a, dict) and "t" in a else None

    def targ(self, i=0):
        a = self.c["args"][i]
        return a.get("t") if isinstance(a, dict) else None

    def panic(self, st, msg):
        st.mark(self.sp)
        return (st, ("panic", msg, self.sp, self.fr.inst["path"] if self.fr else "?"))

    def cases(self, cond, yes, no):
        """split on cond; yes/no: functions state -> term or outcome tuple"""
        a, b = self.ex.split(self.st, cond)
        out = []
        for s, f in ((a, yes), (b, no)):
            if s is None:
                continue
            r = f(s)
            if isinstance(r, Term):
                out.append((s, ("ret", r)))
            elif isinstance(r, list):
                out.extend(r)
            else:
                out.append(r)
        return out


def dispatch(ex, fr, st, c, args, sp, dty):
    cx = Ctx(ex, fr, st, c, sp, dty)
    t = c.get("trait")
    if t in ("ssz::encode::Encode", "ssz::decode::Decode"):
        key = ex.type_key(c["args"][0]["t"])
        if key is not None:
            r = contract(cx, key, t.endswith("Encode"), c["name"], args)
            if r is not None:
                return r
    if t is not None:
        f = TR.get((t, c["name"]))
        if f is not None:
            ex.native_used.add(t + "::" + c["name"])
            r = f(cx, *args)
            if r is not None:
                return r
    p = ex.P.npath(c.get("rpath") or c["path"])
    f = FN.get(p)
    if f is None and t is None:
        f = FN.get(ex.P.npath(c["path"]))
    if f is not None:
        ex.native_used.add(p)
        r = f(cx, *args)
        if r is not None:
            return r
    if p.startswith(("core::fmt::", "alloc::fmt::")):
        if p == "alloc::fmt::format":
            a = ex.deref(st, args[0])
            if a.op == "adt" and a.args[0] == FARGS:
                return a.args[2][0]
            return ssym(fresh_name("fmt"), "u8")
        if p.startswith(("core::fmt::rt::Argument", "core::fmt::Arguments")):
            r = fmt_args(cx, p.split("::")[-1], args)
            if r is not None:
                return r
        return mk("opaque", ("fmt",), "v")
    for pre, last in SEQFN:
        if p.startswith(pre) and p[len(pre):].count("::") == 0:
            g = SEQ.get(p[len(pre):])
            if g is not None:
                ex.native_used.add(p)
                return g(cx, *args)
    if p.startswith("core::num::") and p.count("::") == 2:
        g = NUM.get(p.split("::")[-1])
        if g is not None:
            ex.native_used.add(p)
            return g(cx, *args)
    if p.startswith("core::intrinsics::"):
        g = NUM.get("intr_" + p.split("::")[-1])
        if g is not None:
            return g(cx, *args)
    return None


# ------------------------------------------------------------------ formatted text
FARGS = "core::fmt::Arguments"


def fmt_args(cx, name, args):
    """text made of literal pieces, strings and hexadecimal bytes is known; everything else is opaque"""
    ex, st = cx.ex, cx.st
    if name in ("new_display", "new_lower_hex", "new_upper_hex"):
        v = ex.deref(st, args[0])
        t = ex.P.types[cx.c["args"][0]["t"]] if "t" in cx.c["args"][0] else {"k": "?"}
        while t["k"] == "ref":
            t = ex.P.types[t["e"]]
        if name == "new_display":
            if v.op == "adt" and v.args[0] == FARGS:
                return v
            if v.sort == "s":
                return adt("core::fmt::rt::Argument", 0, (v,))
            return None
        if v.sort == "i" and t.get("s") == "u8":
            return adt("core::fmt::rt::Argument", 1 if name == "new_lower_hex" else 2, (v,))
        return None
    if name == "from_str" and len(args) == 1:
        return adt(FARGS, 0, (S(cx, args[0]),))
    if name == "new" and len(args) == 2:
        t, xs = ex.deref(st, args[0]), ex.deref(st, args[1])
        if t.op != "lit" or not all(x.op == "int" for x in t.args[0]):
            return None
        t = [x.args[0] for x in t.args[0]]
        if xs.op != "lit":
            return None
        xs = xs.args[0]
        out, i, n = [], 0, 0

        def num(k):
            nonlocal i
            i += k
            return int.from_bytes(bytes(t[i - k:i]), "little")
        while t[i]:
            b = t[i]
            i += 1
            if b <= 0x80:
                if b == 0x80:
                    b = num(2)
                out.append(lit([I(c) for c in t[i:i + b]]))
                i += b
                continue
            fl, w = num(4) if b & 1 else None, num(2) if b & 2 else None
            if b & 0b110100:
                return None
            if b & 8:
                n = num(2)
            x = ex.deref(st, xs[n])
            n += 1
            if x.op != "adt" or x.args[0] not in ("core::fmt::rt::Argument", FARGS):
                return None
            v = x.args[2][0]
            if v.sort == "s":
                if w:
                    return None
                out.append(v)
                continue
            up = x.args[1] == 2
            hi, lo = (ite(le(I(10), d), add(d, 55 if up else 87), add(d, 48)) for d in (divc(v, 16), modc(v, 16)))
            if w is None or w <= 1:
                if fl and fl >> 23 & 1:
                    out.append(lit([I(48), I(120)]))
                out.append(ite(le(I(16), v), lit([hi, lo]), lit([lo])))
            elif w == 2 and fl is not None and fl >> 24 & 1 and not fl >> 23 & 1:
                out.append(lit([hi, lo]))
            else:
                return None
        return adt(FARGS, 0, (cat(out),))
    return None


# ------------------------------------------------------------------ contracts
def contract(cx, key, is_enc, name, args):
    ex, st = cx.ex, cx.st
    if name == "is_ssz_fixed_len":
        return B(key[0] == "F")
    if name == "ssz_fixed_len":
        return flen(key) if key[0] == "F" else I(4)
    if is_enc:
        v = ex.deref(st, args[0])
        e = enc(key, v)
        if name == "ssz_append":
            buf = ex.deref1(st, args[1])
            ex.store(st, args[1], cat([buf, e]))
            return UNIT
        if name == "ssz_bytes_len":
            return slen(e)
        if name == "as_ssz_bytes":
            return e
        return None
    if name == "from_ssz_bytes":
        s = ex.deref(st, args[0])
        st.event(("decode", key, s))
        return cx.cases(valid(key, s), lambda s2: ok(dec(key, s)), lambda s2: err(ERR))
    return None


# ------------------------------------------------------------------ panics
def _panic(msg):
    def f(cx, *a):
        return [cx.panic(cx.st, msg)]
    return f


for n in ("core::panicking::panic", "core::panicking::panic_fmt", "core::panicking::panic_nounwind", "core::panicking::panic_nounwind_fmt",
          "core::panicking::panic_bounds_check", "core::panicking::assert_failed", "core::panicking::unreachable_display",
          "core::option::unwrap_failed", "core::option::expect_failed", "core::result::unwrap_failed", "core::slice::index::slice_index_fail",
          "core::slice::copy_from_slice_impl::len_mismatch_fail", "core::panicking::panic_explicit", "core::panicking::panic_display",
          "std::rt::begin_panic", "std::rt::panic_fmt", "core::str::slice_error_fail", "alloc::raw_vec::handle_error",
          "core::panicking::panic_const::panic_const_div_by_zero", "alloc::alloc::handle_alloc_error", "alloc::raw_vec::capacity_overflow",
          "core::result::unwrap_failed::unwrap_failed_inner"):
    FN[n] = _panic(n.split("::")[-1])


@fn("core::hint::must_use", "core::hint::black_box", "core::convert::identity")
def _id(cx, v):
    return v


@fn("core::hint::unreachable_unchecked")
def _unreach(cx, *a):
    return []


@fn("core::hint::assert_unchecked", "core::intrinsics::cold_path", "core::mem::drop", "core::mem::forget", "core::intrinsics::assert_inhabited",
    "core::ptr::drop_in_place", "core::hint::cold_path")
def _unit(cx, *a):
    return UNIT


@fn("core::mem::size_of", "core::intrinsics::size_of")
def _size_of(cx):
    return size_of(cx, cx.targ(0))


def size_of(cx, t):
    ty = cx.ex.P.types[t]
    if ty["k"] == "int":
        return I(INT[ty["s"]][2] // 8)
    if ty["k"] == "bool":
        return I(1)
    if ty["k"] == "array" and isinstance(ty["n"], int):
        s = size_of(cx, ty["e"])
        return scale(s, ty["n"])
    if ty["k"] == "tuple" and not ty["e"]:
        return I(0)
    return isym("sizeof<%s>" % ty["s"], 0, 1 << 24)


@fn("core::mem::swap")
def _swap(cx, a, b):
    ex, st = cx.ex, cx.st
    x, y = ex.deref1(st, a), ex.deref1(st, b)
    ex.store(st, a, y)
    ex.store(st, b, x)
    return UNIT


@fn("core::mem::replace")
def _replace(cx, a, v):
    x = cx.ex.deref1(cx.st, a)
    cx.ex.store(cx.st, a, v)
    return x


@fn("core::mem::take")
def _take(cx, a):
    x = cx.ex.deref1(cx.st, a)
    d = default_of(cx, cx.targ(0))
    if d is None:
        return None
    cx.ex.store(cx.st, a, d)
    return x


@fn("core::option::Option::take")
def _opt_take(cx, a):
    x = cx.ex.deref1(cx.st, a)
    cx.ex.store(cx.st, a, NONE)
    return x


def default_of(cx, t):
    P = cx.ex.P
    ty = P.types[t]
    if P.int_range(t):
        return I(0)
    if ty["k"] == "bool":
        return FALSE
    if P.seq_elem(t) is not None:
        if ty["k"] == "array":
            d = default_of(cx, ty["e"])
            return None if d is None else rep(d, cx.ex.array_len(ty))
        return EMPTY
    if ty["k"] == "ref" and P.seq_elem(ty["e"]) is not None:
        return ref(EMPTY)
    if ty["k"] == "tuple":
        ds = [default_of(cx, e) for e in ty["e"]]
        return None if any(d is None for d in ds) else tup(ds)
    if ty["k"] == "adt":
        if ty["path"] == OPT:
            return NONE
        if ty["path"] in TRANSPARENT:
            return default_of(cx, P.targ(ty["args"][0]))
        if ty["path"] in MAPS:
            return adt(ty["path"], 1, (EMPTY,))
        if ty["path"] == "core::marker::PhantomData":
            return adt(ty["path"], 0, ())
    if cx.ex.type_key(t) is not None:
        return vsym("default<%s>" % ty["s"], ty["s"])
    return None


@tr("alloc::string::ToString", "to_string")
def _to_string(cx, a):
    v = cx.ex.deref(cx.st, a)
    if v.sort == "s":
        return v
    return ssym(fresh_name("fmt"), "u8")


@tr("core::default::Default", "default")
def _default(cx):
    return default_of(cx, cx.targ(0))


MAPS = {"alloc::collections::btree::map::BTreeMap": "map", "alloc::collections::btree::set::BTreeSet": "set"}


# ------------------------------------------------------------------ clone, eq, ord, conversions
@tr("core::clone::Clone", "clone")
def _clone(cx, x):
    c = cx.c
    i = c.get("inst")
    if i is not None and cx.ex.P.insts[i]["crate"] == "ssz" and "body" in cx.ex.P.insts[i]:
        return None
    v = cx.ex.deref1(cx.st, x)
    if v.op == "mref":
        return None
    if v.sort == "s" and strip_ty(cx, c) != "ref":
        alloc(cx, slen(v))
    return v


def strip_ty(cx, c):
    t = c["args"][0].get("t") if c.get("args") else None
    return cx.ex.P.types[t]["k"] if t is not None else None


@tr("core::clone::Clone", "clone_from")
def _clone_from(cx, a, b):
    i = cx.c.get("inst")
    if i is not None and "body" in cx.ex.P.insts[i] and (cx.selfty() or {}).get("path", "").startswith("ssz"):
        return None
    cx.ex.store(cx.st, a, cx.ex.deref1(cx.st, b))
    return UNIT


@tr("smallvec::ToSmallVec", "to_smallvec")
def _to_smallvec(cx, a):
    v = cx.ex.deref1(cx.st, a)
    alloc(cx, slen(v))
    return v


@tr("alloc::borrow::ToOwned", "to_owned")
def _to_owned(cx, a):
    return cx.ex.deref1(cx.st, a)


def _cmpable(v):
    return v.sort in ("i", "s", "b")


@tr("core::cmp::PartialEq", "eq")
def _eq(cx, a, b):
    x, y = cx.ex.deref(cx.st, a), cx.ex.deref(cx.st, b)
    if _cmpable(x) and _cmpable(y):
        return eq(x, y)
    i = cx.c.get("inst")
    if i is not None and "body" in cx.ex.P.insts[i]:
        return None
    return eq(strip_refs(x), strip_refs(y))


@tr("core::cmp::PartialEq", "ne")
def _ne(cx, a, b):
    x, y = cx.ex.deref(cx.st, a), cx.ex.deref(cx.st, b)
    if _cmpable(x) and _cmpable(y):
        return neg(eq(x, y))
    i = cx.c.get("inst")
    if i is not None and "body" in cx.ex.P.insts[i]:
        return None
    return neg(eq(strip_refs(x), strip_refs(y)))


def strip_refs(v):
    while v.op == "ref":
        v = v.args[0]
    return v


def _ints(cx, a, b):
    x, y = cx.ex.deref(cx.st, a), cx.ex.deref(cx.st, b)
    if x.sort == "i" and y.sort == "i":
        return x, y
    return None


def _mkcmp(name, f):
    def g(cx, a, b):
        r = _ints(cx, a, b)
        return None if r is None else f(cx, *r)
    TR[("core::cmp::PartialOrd", name)] = g
    TR[("core::cmp::Ord", name)] = g


_mkcmp("lt", lambda cx, x, y: lt(x, y))
_mkcmp("le", lambda cx, x, y: le(x, y))
_mkcmp("gt", lambda cx, x, y: lt(y, x))
_mkcmp("ge", lambda cx, x, y: le(y, x))
_mkcmp("cmp", lambda cx, x, y: cx.ex.ordering(x, y))
_mkcmp("partial_cmp", lambda cx, x, y: some(cx.ex.ordering(x, y)))


def _minmax(cx, x, y, mx):
    c = le(x, y)
    F = cx.st.facts
    if F.entails(c):
        return y if mx else x
    if F.infeasible_with(c):
        return x if mx else y
    return ite(c, y, x) if mx else ite(c, x, y)


@tr("core::cmp::Ord", "min")
def _min(cx, x, y):
    return _minmax(cx, x, y, False) if x.sort == "i" else None


@tr("core::cmp::Ord", "max")
def _max(cx, x, y):
    return _minmax(cx, x, y, True) if x.sort == "i" else None


@fn("core::cmp::min", "core::cmp::impls::min")
def _fmin(cx, x, y):
    return _minmax(cx, x, y, False) if x.sort == "i" else None


@fn("core::cmp::max", "core::cmp::impls::max")
def _fmax(cx, x, y):
    return _minmax(cx, x, y, True) if x.sort == "i" else None


def newtype(cx, t, s):
    """wrap a byte sequence into the newtype structure of type t"""
    P = cx.ex.P
    ty = P.types[t]
    if P.seq_elem(t) is not None:
        return s
    if ty["k"] == "adt" and "variants" in ty and len(ty["variants"]) == 1:
        fs = ty["variants"][0]["f"]
        if len(fs) == 1:
            r = newtype(cx, fs[0]["t"], s)
            return None if r is None else adt(ty["path"], 0, (r,))
    if ty["k"] == "ref":
        r = newtype(cx, ty["e"], s)
        return None if r is None else ref(r)
    return None


def fixed_len(cx, t):
    """length term of an array-like newtype, or None"""
    P = cx.ex.P
    ty = P.types[t]
    if ty["k"] == "array":
        return cx.ex.array_len(ty)
    if ty["k"] == "ref":
        return fixed_len(cx, ty["e"])
    if ty["k"] == "adt" and "variants" in ty and len(ty["variants"]) == 1 and len(ty["variants"][0]["f"]) == 1:
        return fixed_len(cx, ty["variants"][0]["f"][0]["t"])
    return None


def convert(cx, to, frm, v):
    """infallible From conversions between modelled types"""
    P = cx.ex.P
    if to == frm:
        return v
    kt, kf = P.kind(to), P.kind(frm)
    if isinstance(kt, tuple) and kt[0] == "int":
        if v.sort == "b":
            return b2i(v)
        if v.sort == "i":
            return v
        return None
    if isinstance(kt, tuple) and kt[0] == "seq":
        w = cx.ex.deref(cx.st, v)
        if w.sort == "s":
            return w
        return None
    if P.types[to]["k"] == "adt" and P.types[to]["path"] == OPT and frm == P.targ(P.types[to]["args"][0]):
        return some(v)
    return None


@tr("core::convert::From", "from")
def _from(cx, v):
    i = cx.c.get("inst")
    if i is not None and cx.ex.P.insts[i]["crate"] in ("ssz", "ssz_harness"):
        return None
    return convert(cx, cx.targ(0), cx.targ(1), v)


@tr("core::convert::Into", "into")
def _into(cx, v):
    i = cx.c.get("inst")
    if i is not None and "body" in cx.ex.P.insts[i]:
        return None
    return convert(cx, cx.targ(1), cx.targ(0), v)


def try_conv(cx, to, v):
    P = cx.ex.P
    rg = P.int_range(to)
    if rg and v.sort == "i":
        return cx.cases(cx.ex.in_range(v, rg[0], rg[1]), lambda s: ok(v), lambda s: err(ERR))
    n = fixed_len(cx, to)
    if n is not None:
        w = cx.ex.deref(cx.st, v)
        if w.sort == "s":
            r = newtype(cx, to, w)
            if r is not None:
                if P.types[to]["k"] == "ref" and P.types[to]["m"] and v.op == "mref":
                    r = v
                return cx.cases(eq(slen(w), n), lambda s: ok(r), lambda s: err(ERR))
    return None


@tr("core::convert::TryFrom", "try_from")
def _try_from(cx, v):
    i = cx.c.get("inst")
    if i is not None and cx.ex.P.insts[i]["crate"] in ("ssz", "ssz_harness"):
        return None
    return try_conv(cx, cx.targ(0), v)


@tr("core::convert::TryInto", "try_into")
def _try_into(cx, v):
    return try_conv(cx, cx.targ(1), v)


def _as_ref(cx, a):
    ex, st = cx.ex, cx.st
    i = cx.c.get("inst")
    v = ex.deref1(st, a)
    if v.op in ("ref", "mref"):
        v2 = ex.deref(st, v)
        if v2.sort == "s" or i is None:
            return ref(v2)
        return None
    if v.sort in ("s", "i") or i is None or "body" not in ex.P.insts[i]:
        return ref(v)
    ty = cx.selfty()
    if ty and ty["k"] == "adt" and ty["path"] in TRANSPARENT:
        return ref(v)
    return None


for _n in (("core::ops::deref::Deref", "deref"), ("core::convert::AsRef", "as_ref"), ("core::borrow::Borrow", "borrow")):
    TR[_n] = _as_ref


def _as_mut(cx, a):
    ex, st = cx.ex, cx.st
    if a.op != "mref":
        return None
    v = ex.deref1(st, a)
    if v.op == "mref":
        return v
    i = cx.c.get("inst")
    ty = cx.selfty()
    if v.sort == "s" or i is None or "body" not in ex.P.insts[i] or (ty and ty["k"] == "adt" and ty["path"] in TRANSPARENT):
        return a
    return None


for _n in (("core::ops::deref::DerefMut", "deref_mut"), ("core::convert::AsMut", "as_mut"), ("core::borrow::BorrowMut", "borrow_mut")):
    TR[_n] = _as_mut


@fn("alloc::rcs::arc::Arc::new", "alloc::sync::Arc::new", "alloc::boxed::Box::new", "alloc::rc::Rc::new", "alloc::boxed::box_new",
    "alloc::slice::into_vec", "alloc::vec::Vec::into_boxed_slice", "core::mem::manually_drop::ManuallyDrop::new", "alloc::rcs::arc::Arc::unwrap_or_clone",
    "core::mem::manually_drop::ManuallyDrop::into_inner", "alloc::boxed::Box::into_vec", "core::num::nonzero::NonZero::get",
    "smallvec::SmallVec::into_vec", "smallvec::SmallVec::from_vec", "alloc::string::String::into_bytes")
def _wrapid(cx, v):
    return v


@fn("core::num::nonzero::NonZero::new")
def _nz_new(cx, v):
    return cx.cases(eq(v, I(0)), lambda s: NONE, lambda s: some(v))


@fn("core::num::nonzero::NonZero::new_unchecked")
def _nz_newu(cx, v):
    return v


# ------------------------------------------------------------------ integers
NUM = {}


def num(*names):
    def d(f):
        for n in names:
            NUM[n] = f
        return f
    return d


def _rg(cx, v=None):
    """range of the integer type the method belongs to"""
    import re
    for p in (cx.c.get("rpath"), cx.c["path"]):
        m = re.search(r"<impl ([ui]\d+|usize|isize)>", p or "")
        if m:
            return INT[m.group(1)]
    t = cx.targ(0) if cx.c["args"] else None
    if t is not None:
        r = cx.ex.P.int_range(t)
        if r:
            return r
    raise_unk("integer type of " + cx.c["path"])


def raise_unk(m):
    from exec import Unk
    raise Unk(m)


def _uns(cx, a):
    """the bits of a (possibly negative) integer as a non-negative number"""
    lo, hi, w = _rg(cx)
    return a if lo == 0 else cx.ex.wrapto(cx.st, a, (0, (1 << w) - 1, w))


def _sgn(cx, a):
    """the number of the method's integer type with the bits of a"""
    rg = _rg(cx)
    return a if rg[0] == 0 else cx.ex.wrapto(cx.st, a, rg)


def _nosign(cx):
    if _rg(cx)[0] != 0:
        raise_unk("signed " + cx.c["path"])


_OPS = {"add": add, "sub": sub, "mul": mul}


def _mk_arith(nm, f):
    def x(cx, a, b):
        return f(a, b)

    def checked(cx, a, b):
        lo, hi, w = _rg(cx)
        r = f(a, b)
        return cx.cases(cx.ex.in_range(r, lo, hi), lambda s: some(r), lambda s: NONE)

    def saturating(cx, a, b):
        lo, hi, w = _rg(cx)
        r = f(a, b)
        F = cx.st.facts
        if F.entails(le(r, I(hi))):
            up = r
        else:
            up = ite(le(r, I(hi)), r, I(hi))
        if F.entails(le(I(lo), r)):
            return up
        return ite(le(I(lo), r), up, I(lo))

    def wrapping(cx, a, b):
        return cx.ex.wrapto(cx.st, f(a, b), _rg(cx))

    def overflowing(cx, a, b):
        lo, hi, w = _rg(cx)
        r = f(a, b)
        return tup([cx.ex.wrapto(cx.st, r, (lo, hi, w)), neg(cx.ex.in_range(r, lo, hi))])

    def unchecked(cx, a, b):
        return f(a, b)
    NUM["checked_" + nm] = checked
    NUM["saturating_" + nm] = saturating
    NUM["intr_saturating_" + nm] = saturating
    NUM["wrapping_" + nm] = wrapping
    NUM["intr_wrapping_" + nm] = wrapping
    NUM["overflowing_" + nm] = overflowing
    NUM["intr_%s_with_overflow" % nm] = overflowing
    NUM["unchecked_" + nm] = unchecked
    NUM["intr_unchecked_" + nm] = unchecked


for _k, _f in _OPS.items():
    _mk_arith(_k, _f)


@num("checked_div", "checked_rem", "checked_div_euclid", "checked_rem_euclid")
def _cdiv(cx, a, b):
    _nosign(cx)
    rem = "rem" in cx.c["path"].split("::")[-1]

    def y(s):
        q = divt(a, b)
        return some(sub(a, mul(q, b)) if rem else q)
    return cx.cases(eq(b, I(0)), lambda s: NONE, y)


@num("div_ceil")
def _div_ceil(cx, a, b):
    _nosign(cx)
    return cx.cases(eq(b, I(0)), lambda s: cx.panic(s, "division by zero"), lambda s: cdiv(a, b))


@num("next_multiple_of")
def _nmo(cx, a, b):
    _nosign(cx)
    return cx.cases(eq(b, I(0)), lambda s: cx.panic(s, "division by zero"), lambda s: mul(cdiv(a, b), b))


@num("is_multiple_of")
def _imo(cx, a, b):
    _nosign(cx)
    if b.op == "int" and b.args[0] > 0:
        return eq(modc(a, b.args[0]), I(0))
    return cx.cases(eq(b, I(0)), lambda s: eq(a, I(0)), lambda s: eq(sub(a, mul(divt(a, b), b)), I(0)))


@num("div_euclid", "rem_euclid")
def _dive(cx, a, b):
    _nosign(cx)
    rem = "rem" in cx.c["path"].split("::")[-1]
    return cx.cases(eq(b, I(0)), lambda s: cx.panic(s, "division by zero"), lambda s: sub(a, mul(divt(a, b), b)) if rem else divt(a, b))


@num("abs_diff")
def _absd(cx, a, b):
    return ite(le(a, b), sub(b, a), sub(a, b))


@num("leading_zeros", "intr_ctlz")
def _lz(cx, a):
    return clz(_uns(cx, a), _rg(cx)[2])


@num("trailing_zeros", "intr_cttz")
def _tz(cx, a):
    return ctz(_uns(cx, a), _rg(cx)[2])


@num("count_ones", "intr_ctpop")
def _pop(cx, a):
    return popcnt(_uns(cx, a))


@num("count_zeros")
def _cz(cx, a):
    return sub(I(_rg(cx)[2]), popcnt(_uns(cx, a)))


@num("is_power_of_two")
def _ip2(cx, a):
    return eq(popcnt(a), I(1))


@num("pow")
def _pow(cx, a, b):
    _nosign(cx)
    lo, hi, w = _rg(cx)
    if a.op == "int" and a.args[0] == 2:
        r = pow2(b)
    elif b.op == "int" and b.args[0] <= 8:
        r = I(1)
        for _ in range(b.args[0]):
            r = mul(r, a)
    else:
        return None
    return cx.cases(cx.ex.in_range(r, lo, hi), lambda s: r, lambda s: cx.panic(s, "overflow pow"))


@num("checked_shl", "checked_shr")
def _cshl(cx, a, b):
    _nosign(cx)
    lo, hi, w = _rg(cx)
    left = cx.c["path"].endswith("checked_shl")
    return cx.cases(lt(b, I(w)), lambda s: some(cx.ex.wrapto(s, mul(a, pow2(b)), (lo, hi, w)) if left else shr(a, b)), lambda s: NONE)


@num("wrapping_shl", "wrapping_shr")
def _wshl(cx, a, b):
    _nosign(cx)
    lo, hi, w = _rg(cx)
    left = cx.c["path"].endswith("wrapping_shl")
    b = cx.ex.shamt(cx.st, b, w)
    return cx.ex.wrapto(cx.st, mul(a, pow2(b)), (lo, hi, w)) if left else shr(a, b)


@num("wrapping_neg")
def _wneg(cx, a):
    lo, hi, w = _rg(cx)
    return cx.ex.wrapto(cx.st, scale(a, -1), (lo, hi, w))


@num("to_le_bytes", "to_ne_bytes")
def _tole(cx, a):
    return leb(_uns(cx, a), _rg(cx)[2] // 8)


@num("from_le_bytes", "from_ne_bytes")
def _fromle(cx, a):
    return _sgn(cx, lev(cx.ex.deref(cx.st, a)))


@num("to_be_bytes")
def _tobe(cx, a):
    n = _rg(cx)[2] // 8
    a = _uns(cx, a)
    return lit([byteof(a, n - 1 - j) for j in range(n)])


@num("from_be_bytes")
def _frombe(cx, a):
    n = _rg(cx)[2] // 8
    a = cx.ex.deref(cx.st, a)
    return _sgn(cx, lev(lit([at(a, I(n - 1 - j)) for j in range(n)])))


@num("swap_bytes", "to_be", "from_be")
def _swapb(cx, a):
    n = _rg(cx)[2] // 8
    a = _uns(cx, a)
    return _sgn(cx, lev(lit([byteof(a, n - 1 - j) for j in range(n)])))


@num("to_le", "from_le")
def _tole2(cx, a):
    return a


@num("min_value")
def _minv(cx):
    return I(_rg(cx)[0])


@num("max_value")
def _maxv(cx):
    return I(_rg(cx)[1])


@num("reverse_bits")
def _revbits(cx, a):
    rg = _rg(cx)
    if rg[0] != 0 or rg[2] > 16:
        return None
    r = I(0)
    for j in range(rg[2]):
        b = sub(divt(a, I(1 << j)), mul(I(2), divt(a, I(1 << (j + 1)))))
        r = add(r, mul(b, I(1 << (rg[2] - 1 - j))))
    return r


@num("rotate_left", "rotate_right")
def _rot(cx, a, k):
    lo, hi, w = _rg(cx)
    if lo != 0 or k.op != "int":
        return None
    k = k.args[0] % w
    if cx.c["path"].endswith("rotate_right"):
        k = (w - k) % w
    if k == 0:
        return a
    top = divt(a, I(1 << (w - k)))
    return add(mul(sub(a, mul(top, I(1 << (w - k)))), I(1 << k)), top)


@num("ilog2", "checked_ilog2")
def _ilog2(cx, a):
    w = _rg(cx)[2]
    r = sub(I(w - 1), clz(a, w))
    if cx.c["path"].endswith("checked_ilog2"):
        return cx.cases(le(a, I(0)), lambda st: NONE, lambda st: some(r))
    return cx.cases(le(a, I(0)), lambda st: cx.panic(st, "argument of integer logarithm must be positive"), lambda st: r)


@num("intr_integer_min")
def _imin(cx, a, b):
    return _minmax(cx, a, b, False)


@num("intr_integer_max")
def _imax(cx, a, b):
    return _minmax(cx, a, b, True)


@num("intr_unlikely", "intr_likely")
def _likely(cx, a):
    return a


# operator traits on references (&a + &b etc.)
def _mkop(trait, name, op):
    def g(cx, a, b):
        r = _ints(cx, a, b)
        if r is None:
            x, y = cx.ex.deref(cx.st, a), cx.ex.deref(cx.st, b)
            if x.sort == "b" and y.sort == "b" and op in ("BitAnd", "BitOr", "BitXor"):
                return cx.ex.arith(cx.st, op, x, y, None)
            return None
        P = cx.ex.P
        t = cx.targ(0)
        while P.types[t]["k"] == "ref":
            t = P.types[t]["e"]
        if op in ("Add", "Sub", "Mul"):
            x = cx.ex.arith(cx.st, op + "WithOverflow", r[0], r[1], t)
            v, f = x.args[0]
            if cx.ex.no_overflow or (cx.fr and cx.fr.crate != "ssz"):
                return v
            return cx.cases(f, lambda s: cx.panic(s, "overflow " + op), lambda s: v)
        if op in ("Div", "Rem"):
            return cx.cases(eq(r[1], I(0)), lambda s: cx.panic(s, "division by zero"), lambda s: cx.ex.arith(s, op, r[0], r[1], t))
        return cx.ex.arith(cx.st, op, r[0], r[1], t)
    TR[(trait, name)] = g

    def ga(cx, a, b):
        if a.op != "mref":
            return None
        x = cx.ex.deref1(cx.st, a)
        out = []
        r = g(cx, x, b)
        if r is None:
            return None
        if isinstance(r, Term):
            cx.ex.store(cx.st, a, r)
            return UNIT
        for s, o in r:
            if o[0] == "ret":
                cx.ex.store(s, a, o[1])
                o = ("ret", UNIT)
            out.append((s, o))
        return out
    TR[(trait + "Assign", name + "_assign")] = ga


for _t, _n, _o in (("core::ops::arith::Add", "add", "Add"), ("core::ops::arith::Sub", "sub", "Sub"), ("core::ops::arith::Mul", "mul", "Mul"),
                   ("core::ops::arith::Div", "div", "Div"), ("core::ops::arith::Rem", "rem", "Rem"), ("core::ops::bit::BitAnd", "bitand", "BitAnd"),
                   ("core::ops::bit::BitOr", "bitor", "BitOr"), ("core::ops::bit::BitXor", "bitxor", "BitXor")):
    _mkop(_t, _n, _o)


@tr("core::ops::bit::Not", "not")
def _not(cx, a):
    v = cx.ex.deref(cx.st, a)
    if v.sort == "b":
        return neg(v)
    P = cx.ex.P
    t = cx.targ(0)
    while P.types[t]["k"] == "ref":
        t = P.types[t]["e"]
    rg = P.int_range(t)
    return sub(I(rg[1]), v) if rg and rg[0] == 0 else None


# ruint
@fn("ruint::bytes::as_le_slice", "ruint::bytes::as_le_bytes")
def _as_le_slice(cx, a):
    v = cx.ex.deref(cx.st, a)
    return ref(leb(v, _uint_bits(cx) // 8))


@fn("ruint::bytes::to_le_bytes", "ruint::bytes::to_le_bytes_vec")
def _to_le(cx, a):
    v = cx.ex.deref(cx.st, a)
    return leb(v, _uint_bits(cx) // 8)


@fn("ruint::bytes::to_be_bytes")
def _to_be(cx, a):
    v = cx.ex.deref(cx.st, a)
    n = _uint_bits(cx) // 8
    return lit([byteof(v, n - 1 - j) for j in range(n)])


def _uint_bits(cx):
    for a in cx.c.get("rargs") or cx.c["args"]:
        if isinstance(a, dict) and isinstance(a.get("c"), int):
            return a["c"]
    raise_unk("Uint width")


@fn("ruint::bytes::from_le_slice")
def _from_le_slice(cx, a):
    s = cx.ex.deref(cx.st, a)
    n = _uint_bits(cx) // 8
    F = cx.st.facts
    if F.entails(eq(slen(s), I(n))):
        return lev(subseq(s, I(0), I(n)))

    def short(st):
        if slen(s).op == "int":
            return lev(s)
        return iapp("lev", (s,), 0, (1 << (8 * n)) - 1)
    return cx.cases(le(slen(s), I(n)), short, lambda st: cx.panic(st, "Uint::from_le_slice: slice too long"))


@fn("ruint::bytes::try_from_le_slice")
def _try_from_le_slice(cx, a):
    s = cx.ex.deref(cx.st, a)
    n = _uint_bits(cx) // 8
    F = cx.st.facts
    if F.entails(eq(slen(s), I(n))):
        return some(lev(subseq(s, I(0), I(n))))
    return cx.cases(le(slen(s), I(n)), lambda st: some(iapp("lev", (s,), 0, (1 << (8 * n)) - 1)), lambda st: NONE)


@fn("ruint::bytes::from_le_bytes")
def _from_le_bytes(cx, a):
    return lev(cx.ex.deref(cx.st, a))


@fn("ruint::bytes::from_be_slice")
def _from_be_slice(cx, a):
    s = cx.ex.deref(cx.st, a)
    n = _uint_bits(cx) // 8
    F = cx.st.facts
    if F.entails(eq(slen(s), I(n))):
        return lev(lit([at(s, I(n - 1 - j)) for j in range(n)]))
    return None


# ------------------------------------------------------------------ sequences
SEQ = {}
SEQFN = [("alloc::vec::Vec::", 0), ("smallvec::SmallVec::", 0), ("alloc::string::String::", 0), ("core::slice::", 0), ("alloc::slice::", 0),
         ("core::str::", 0), ("alloc::str::", 0), ("bytes::bytes::Bytes::", 0), ("core::array::", 0), ("alloy_primitives::bytes_::Bytes::", 0)]


def seqfn(*names):
    def d(f):
        for n in names:
            SEQ[n] = f
        return f
    return d


def S(cx, a):
    v = cx.ex.deref(cx.st, a)
    if v.op == "adt" and len(v.args[2]) == 1 and v.args[2][0].sort == "s":
        v = v.args[2][0]
    if v.sort != "s":
        raise_unk("not a sequence: %s" % v.op)
    return v


def smref(cx, a):
    """follow references to a mutable sequence location"""
    ex, st = cx.ex, cx.st
    while a.op == "mref":
        v = ex.read(st, a.args[0], a.args[1])
        if v.op == "mref":
            a = v
            continue
        if v.op == "adt" and len(v.args[2]) == 1 and v.args[2][0].sort == "s":
            return mk("mref", (a.args[0], a.args[1] + (("f", 0, None, ("seq", "u8")),)), "v")
        return a
    raise_unk("mutable sequence access")


def setS(cx, a, v, st=None):
    a = smref(cx, a)
    cx.ex.store(st or cx.st, a, v)


def alloc(cx, n, st=None):
    (st or cx.st).event(("alloc", n, cx.sp))


@seqfn("new", "new_const", "new_in")
def _snew(cx, *a):
    return EMPTY


@seqfn("with_capacity", "with_capacity_in")
def _swc(cx, n, *a):
    alloc(cx, n)
    return EMPTY


@seqfn("reserve", "reserve_exact", "grow")
def _sres(cx, a, n):
    alloc(cx, n)
    return UNIT


@seqfn("try_reserve", "try_reserve_exact", "try_grow")
def _stres(cx, a, n):
    alloc(cx, n)
    return ok(UNIT)


@seqfn("shrink_to_fit", "shrink_to")
def _shr(cx, *a):
    return UNIT


@seqfn("capacity")
def _cap(cx, a):
    n = slen(S(cx, a))
    k = isym(fresh_name("cap"), 0, 1 << 60)
    cx.st.facts.add(le(n, k))
    return k


@seqfn("push", "push_mut")
def _push(cx, a, v):
    alloc(cx, I(1))
    setS(cx, a, cat([S(cx, a), lit([v])]))
    return UNIT


@seqfn("pop")
def _pop(cx, a):
    s = S(cx, a)
    n = slen(s)

    def y(st):
        setS(cx, a, subseq(s, I(0), sub(n, I(1))), st)
        return some(cx.ex.elem(st, s, sub(n, I(1))))
    return cx.cases(eq(n, I(0)), lambda st: NONE, y)


@seqfn("len")
def _len(cx, a):
    return slen(S(cx, a))


@seqfn("is_empty")
def _is_empty(cx, a):
    return eq(slen(S(cx, a)), I(0))


@seqfn("clear")
def _clear(cx, a):
    setS(cx, a, EMPTY)
    return UNIT


@seqfn("truncate")
def _trunc(cx, a, n):
    s = S(cx, a)

    def y(st):
        setS(cx, a, subseq(s, I(0), n), st)
        return UNIT
    return cx.cases(le(n, slen(s)), y, lambda st: UNIT)


@seqfn("resize")
def _resize(cx, a, n, v):
    s = S(cx, a)
    alloc(cx, n)

    def y(st):
        setS(cx, a, subseq(s, I(0), n), st)
        return UNIT

    def z(st):
        setS(cx, a, cat([s, rep(v, sub(n, slen(s)))]), st)
        return UNIT
    return cx.cases(le(n, slen(s)), y, z)


@seqfn("extend_from_slice", "push_str", "put_slice")
def _efs(cx, a, b):
    b = S(cx, b)
    alloc(cx, slen(b))
    setS(cx, a, cat([S(cx, a), b]))
    return UNIT


@seqfn("append")
def _append(cx, a, b):
    x, y = S(cx, a), S(cx, b)
    alloc(cx, slen(y))
    setS(cx, b, EMPTY)
    setS(cx, a, cat([x, y]))
    return UNIT


@seqfn("insert")
def _insert(cx, a, i, v):
    s = S(cx, a)
    alloc(cx, I(1))

    def y(st):
        setS(cx, a, cat([subseq(s, I(0), i), lit([v]), subseq(s, i, slen(s))]), st)
        return UNIT
    return cx.cases(le(i, slen(s)), y, lambda st: cx.panic(st, "insertion index out of range"))


@seqfn("remove")
def _remove(cx, a, i):
    s = S(cx, a)

    def y(st):
        setS(cx, a, cat([subseq(s, I(0), i), subseq(s, add(i, 1), slen(s))]), st)
        return cx.ex.elem(st, s, i)
    return cx.cases(lt(i, slen(s)), y, lambda st: cx.panic(st, "removal index out of range"))


@seqfn("split_off")
def _split_off(cx, a, i):
    s = S(cx, a)

    def y(st):
        setS(cx, a, subseq(s, I(0), i), st)
        return subseq(s, i, slen(s))
    return cx.cases(le(i, slen(s)), y, lambda st: cx.panic(st, "split_off index out of range"))


@seqfn("as_slice", "as_bytes", "as_str", "as_ref", "into_boxed_slice_ref", "leak", "deref", "as_ascii_unchecked")
def _as_slice(cx, a):
    return ref(S(cx, a))


@seqfn("as_mut_slice", "as_mut", "deref_mut", "as_bytes_mut", "as_mut_vec")
def _as_mslice(cx, a):
    return smref(cx, a)


@seqfn("to_vec", "to_owned", "into_vec", "to_vec_in", "from_slice", "from_vec", "into_inner", "into_bytes", "to_string", "copy_from_slice_new", "from_buf", "into_boxed_slice", "into_string")
def _to_vec(cx, a):
    s = S(cx, a)
    if cx.c["path"].split("::")[-1] in ("to_vec", "to_owned", "from_slice"):
        alloc(cx, slen(s))
    return s


@fn("bytes::bytes::Bytes::copy_from_slice", "bytes::bytes::Bytes::from_static")
def _bcfs(cx, a):
    s = S(cx, a)
    alloc(cx, slen(s))
    return s


@fn("alloy_primitives::bytes_::Bytes::copy_from_slice")
def _abcfs(cx, a):
    s = S(cx, a)
    alloc(cx, slen(s))
    return adt("alloy_primitives::bytes_::Bytes", 0, (s,))


@fn("alloc::vec::from_elem", "smallvec::SmallVec::from_elem")
def _from_elem(cx, v, n):
    alloc(cx, n)
    return rep(v, n)


@seqfn("repeat")
def _repeat(cx, a, n):
    s = S(cx, a)
    if slen(s).op == "int" and slen(s).args[0] == 1:
        alloc(cx, n)
        return rep(at(s, I(0)), n)
    return None


@seqfn("first", "last")
def _first(cx, a):
    s = S(cx, a)
    nm = cx.c["path"].split("::")[-1]
    i = I(0) if nm == "first" else sub(slen(s), I(1))
    return cx.cases(eq(slen(s), I(0)), lambda st: NONE, lambda st: some(ref(cx.ex.elem(st, s, i))))


@seqfn("first_mut", "last_mut")
def _firstm(cx, a):
    s = S(cx, a)
    m = smref(cx, a)
    nm = cx.c["path"].split("::")[-1]
    i = I(0) if nm == "first_mut" else sub(slen(s), I(1))
    return cx.cases(eq(slen(s), I(0)), lambda st: NONE, lambda st: some(mk("mref", (m.args[0], m.args[1] + (("i", i),)), "v")))


@seqfn("split_first", "split_last")
def _sfirst(cx, a):
    s = S(cx, a)
    n = slen(s)
    nm = cx.c["path"].split("::")[-1]

    def y(st):
        if nm == "split_first":
            return some(tup([ref(cx.ex.elem(st, s, I(0))), ref(subseq(s, I(1), n))]))
        return some(tup([ref(cx.ex.elem(st, s, sub(n, I(1)))), ref(subseq(s, I(0), sub(n, I(1))))]))
    return cx.cases(eq(n, I(0)), lambda st: NONE, y)


@seqfn("split_last_mut", "split_first_mut")
def _sfirstm(cx, a):
    s = S(cx, a)
    m = smref(cx, a)
    n = slen(s)
    nm = cx.c["path"].split("::")[-1]
    e = lambda el: mk("mref", (m.args[0], m.args[1] + (el,)), "v")

    def y(st):
        if nm == "split_first_mut":
            return some(tup([e(("i", I(0))), e(("s", I(1), n))]))
        return some(tup([e(("i", sub(n, I(1)))), e(("s", I(0), sub(n, I(1))))]))
    return cx.cases(eq(n, I(0)), lambda st: NONE, y)


@seqfn("split_at", "split_at_checked", "split_at_unchecked")
def _split_at(cx, a, i):
    s = S(cx, a)
    nm = cx.c["path"].split("::")[-1]
    r = tup([ref(subseq(s, I(0), i)), ref(subseq(s, i, slen(s)))])
    if nm == "split_at_checked":
        return cx.cases(le(i, slen(s)), lambda st: some(r), lambda st: NONE)
    return cx.cases(le(i, slen(s)), lambda st: r, lambda st: cx.panic(st, "split_at: mid > len"))


@seqfn("split_at_mut")
def _split_at_mut(cx, a, i):
    s = S(cx, a)
    m = smref(cx, a)
    e = lambda lo, hi: mk("mref", (m.args[0], m.args[1] + (("s", lo, hi),)), "v")
    return cx.cases(le(i, slen(s)), lambda st: tup([e(I(0), i), e(i, slen(s))]), lambda st: cx.panic(st, "split_at_mut: mid > len"))


@seqfn("copy_from_slice", "clone_from_slice")
def _cfs(cx, a, b):
    if a.op != "mref":
        # constructor form (Bytes::copy_from_slice)
        return None
    x, y = S(cx, a), S(cx, b)

    def yes(st):
        setS(cx, a, y, st)
        return UNIT
    return cx.cases(eq(slen(x), slen(y)), yes, lambda st: cx.panic(st, "copy_from_slice: length mismatch"))


@seqfn("fill")
def _fill(cx, a, v):
    setS(cx, a, rep(v, slen(S(cx, a))))
    return UNIT


@seqfn("reverse")
def _reverse(cx, a):
    s = S(cx, a)
    k = isym(fresh_name("k"), 0)
    n = slen(s)
    setS(cx, a, gen(k, n, at(s, sub(sub(n, I(1)), k))))
    return UNIT


@seqfn("swap")
def _sswap(cx, a, i, j):
    s = S(cx, a)

    def y(st):
        x, z = cx.ex.elem(st, s, i), cx.ex.elem(st, s, j)
        setS(cx, a, upd(upd(s, i, z), j, x), st)
        return UNIT
    return cx.cases(conj([lt(i, slen(s)), lt(j, slen(s))]), y, lambda st: cx.panic(st, "index out of bounds"))


@seqfn("starts_with", "ends_with")
def _starts(cx, a, b):
    x = S(cx, a)
    b0 = cx.ex.deref(cx.st, b)
    if b0.sort == "i":
        y = lit([b0])
    else:
        y = S(cx, b)
    n = slen(y)
    ends = cx.c["path"].endswith("ends_with")

    def yes(st):
        p = subseq(x, sub(slen(x), n), slen(x)) if ends else subseq(x, I(0), n)
        return elementwise_eq(cx, p, y)
    return cx.cases(le(n, slen(x)), yes, lambda st: FALSE)


def elementwise_eq(cx, p, y):
    if y.op == "lit" and len(y.args[0]) <= 8:
        return conj([eq(at(p, I(j)), e) for j, e in enumerate(y.args[0])])
    return eq(p, y)


@seqfn("strip_prefix")
def _strip(cx, a, b):
    x = S(cx, a)
    b0 = cx.ex.deref(cx.st, b)
    y = lit([b0]) if b0.sort == "i" else S(cx, b)
    n = slen(y)
    c = conj([le(n, slen(x)), elementwise_eq(cx, subseq(x, I(0), n), y)])
    return cx.cases(c, lambda st: some(ref(subseq(x, n, slen(x)))), lambda st: NONE)


def chunk_len(cx):
    for a in reversed(cx.c.get("rargs") or cx.c["args"]):
        if isinstance(a, dict) and isinstance(a.get("c"), int):
            return I(a["c"])
    raise_unk("chunk length")


@seqfn("first_chunk", "last_chunk", "split_first_chunk", "split_last_chunk", "as_array")
def _first_chunk(cx, a):
    s = S(cx, a)
    n, k = slen(s), chunk_len(cx)
    nm = cx.c["path"].split("::")[-1]

    def y(st):
        if "first" in nm or nm == "as_array":
            c, r = subseq(s, I(0), k), subseq(s, k, n)
            return some(tup([ref(c), ref(r)]) if nm.startswith("split") else ref(c))
        c, r = subseq(s, sub(n, k), n), subseq(s, I(0), sub(n, k))
        return some(tup([ref(r), ref(c)]) if nm.startswith("split") else ref(c))
    return cx.cases(eq(k, n) if nm == "as_array" else le(k, n), y, lambda st: NONE)


@seqfn("first_chunk_mut", "last_chunk_mut", "split_first_chunk_mut", "split_last_chunk_mut", "as_mut_array")
def _first_chunk_mut(cx, a):
    s, m = S(cx, a), smref(cx, a)
    n, k = slen(s), chunk_len(cx)
    nm = cx.c["path"].split("::")[-1]
    e = lambda lo, hi: mk("mref", (m.args[0], m.args[1] + (("s", lo, hi),)), "v")

    def y(st):
        if "first" in nm or nm == "as_mut_array":
            return some(tup([e(I(0), k), e(k, n)]) if nm.startswith("split") else e(I(0), k))
        return some(tup([e(I(0), sub(n, k)), e(sub(n, k), n)]) if nm.startswith("split") else e(sub(n, k), n))
    return cx.cases(eq(k, n) if nm == "as_mut_array" else le(k, n), y, lambda st: NONE)


@seqfn("copy_within")
def _copy_within(cx, a, rg, d):
    s = S(cx, a)
    n = slen(s)
    el, c = index_value(cx, cx.st, s, rg)
    k = sub(el[2], el[1])

    def y(st):
        def y2(st2):
            setS(cx, a, cat([subseq(s, I(0), d), subseq(s, el[1], el[2]), subseq(s, add(d, k), n)]), st2)
            return UNIT
        cx2 = Ctx(cx.ex, cx.fr, st, cx.c, cx.sp, cx.dty)
        return cx2.cases(le(add(d, k), n), y2, lambda st2: cx.panic(st2, "dest is out of bounds"))
    return cx.cases(c, y, lambda st: cx.panic(st, "range out of bounds"))


@seqfn("extend_from_within")
def _extend_from_within(cx, a, rg):
    s = S(cx, a)
    el, c = index_value(cx, cx.st, s, rg)

    def y(st):
        alloc(cx, sub(el[2], el[1]), st)
        setS(cx, a, cat([s, subseq(s, el[1], el[2])]), st)
        return UNIT
    return cx.cases(c, y, lambda st: cx.panic(st, "range out of bounds"))


@seqfn("rotate_left", "rotate_right")
def _srot(cx, a, k):
    s = S(cx, a)
    n = slen(s)
    m = k if cx.c["path"].endswith("left") else sub(n, k)

    def y(st):
        setS(cx, a, cat([subseq(s, m, n), subseq(s, I(0), m)]), st)
        return UNIT
    return cx.cases(le(k, n), y, lambda st: cx.panic(st, "rotation by more than the length"))


@seqfn("swap_remove")
def _swap_remove(cx, a, i):
    s = S(cx, a)
    n = slen(s)

    def y(st):
        x = cx.ex.elem(st, s, i)
        last = cx.ex.elem(st, s, sub(n, I(1)))
        setS(cx, a, subseq(upd(s, i, last), I(0), sub(n, I(1))), st)
        return x
    return cx.cases(lt(i, n), y, lambda st: cx.panic(st, "swap_remove index out of range"))


@seqfn("splice")
def _splice(cx, *a):
    raise_unk("splice")


@seqfn("drain")
def _drain(cx, a, rg):
    s = S(cx, a)
    n = slen(s)
    el, c = index_value(cx, cx.st, s, rg)

    def y(st):
        setS(cx, a, cat([subseq(s, I(0), el[1]), subseq(s, el[2], n)]), st)
        return mkiter(VIT, subseq(s, el[1], el[2]), sub(el[2], el[1]))
    return cx.cases(c, y, lambda st: cx.panic(st, "drain range out of bounds"))


@seqfn("concat")
def _concat(cx, a):
    s = S(cx, a)
    n = slen(s)
    if n.op != "int" or n.args[0] > 64:
        raise_unk("concat")
    ps = [S(cx, cx.ex.elem(cx.st, s, I(j))) for j in range(n.args[0])]
    r = cat(ps) if ps else EMPTY
    alloc(cx, slen(r))
    return r


def index_value(cx, st, s, idx):
    """('elem', i) | ('range', lo, hi) | None with the in-bounds condition"""
    n = slen(s)
    if idx.sort == "i":
        return ("i", idx), lt(idx, n)
    if idx.op == "adt":
        p = idx.args[0]
        f = idx.args[2]
        if p.endswith("range::Range"):
            return ("s", f[0], f[1]), conj([le(f[0], f[1]), le(f[1], n)])
        if p.endswith("range::RangeFrom"):
            return ("s", f[0], n), le(f[0], n)
        if p.endswith("range::RangeTo"):
            return ("s", I(0), f[0]), le(f[0], n)
        if p.endswith("range::RangeFull"):
            return ("s", I(0), n), TRUE
        if p.endswith("range::RangeInclusive"):
            h = add(f[1], 1)
            return ("s", f[0], h), conj([le(f[0], h), le(h, n)])
        if p.endswith("range::RangeToInclusive"):
            h = add(f[0], 1)
            return ("s", I(0), h), le(h, n)
    raise_unk("index by %s" % idx.op)


def _pick(cx, st, s, el):
    return ref(cx.ex.elem(st, s, el[1]) if el[0] == "i" else subseq(s, el[1], el[2]))


@tr("core::ops::index::Index", "index")
def _index(cx, a, idx):
    v = cx.ex.deref(cx.st, a)
    if v.sort != "s":
        return None
    s = v
    el, c = index_value(cx, cx.st, s, idx)
    return cx.cases(c, lambda st: _pick(cx, st, s, el), lambda st: cx.panic(st, "index out of bounds"))


@tr("core::ops::index::IndexMut", "index_mut")
def _index_mut(cx, a, idx):
    v = cx.ex.deref(cx.st, a)
    if v.sort != "s":
        return None
    m = smref(cx, a)
    el, c = index_value(cx, cx.st, v, idx)
    return cx.cases(c, lambda st: mk("mref", (m.args[0], m.args[1] + (el,)), "v"), lambda st: cx.panic(st, "index out of bounds"))


@seqfn("get", "get_unchecked")
def _get(cx, a, idx):
    s = S(cx, a)
    el, c = index_value(cx, cx.st, s, idx)
    if cx.c["path"].endswith("get_unchecked"):
        cx.st.facts.add(c)
        return _pick(cx, cx.st, s, el)
    return cx.cases(c, lambda st: some(_pick(cx, st, s, el)), lambda st: NONE)


@seqfn("get_mut", "get_unchecked_mut")
def _get_mut(cx, a, idx):
    s = S(cx, a)
    m = smref(cx, a)
    el, c = index_value(cx, cx.st, s, idx)
    r = mk("mref", (m.args[0], m.args[1] + (el,)), "v")
    if cx.c["path"].endswith("unchecked_mut"):
        return r
    return cx.cases(c, lambda st: some(r), lambda st: NONE)


# ------------------------------------------------------------------ iterators
IT = "core::slice::iter::Iter"
ITM = "core::slice::iter::IterMut"
VIT = "alloc::vec::into_iter::IntoIter"
SIT = "smallvec::IntoIter"
AIT = "core::array::iter::IntoIter"
CH = "core::slice::iter::Chunks"
CHE = "core::slice::iter::ChunksExact"
RCH = "core::slice::iter::RChunks"
CHM = "core::slice::iter::ChunksMut"
WIN = "core::slice::iter::Windows"
RNG = "core::ops::range::Range"
RNGI = "core::ops::range::RangeInclusive"
MIT = "alloc::collections::btree::map::Iter"
SETIT = "alloc::collections::btree::set::Iter"
CHS = {CH, RCH, CHM}
CUR = {IT, ITM, VIT, SIT, AIT, MIT, SETIT}


def mkiter(p, s, n):
    return adt(p, 0, (s, I(0), n))


@seqfn("iter")
def _iter(cx, a):
    s = S(cx, a)
    return mkiter(IT, s, slen(s))


@seqfn("bytes")
def _bytes(cx, a):
    s = S(cx, a)
    return mkiter(VIT, s, slen(s))


@seqfn("iter_mut")
def _iter_mut(cx, a):
    s = S(cx, a)
    return mkiter(ITM, smref(cx, a), slen(s))


@seqfn("chunks", "chunks_exact", "windows")
def _chunks(cx, a, n):
    s = S(cx, a)
    p = {"chunks": CH, "chunks_exact": CHE, "windows": WIN}[cx.c["path"].split("::")[-1]]
    if p == WIN:
        return cx.cases(eq(n, I(0)), lambda st: cx.panic(st, "window size must be non-zero"), lambda st: adt(p, 0, (s, I(0), n)))
    L = slen(s)
    q = divt(L, n)

    def ok_(st):
        # whole chunks only, or a shorter last one
        cx2 = Ctx(cx.ex, cx.fr, st, cx.c, cx.sp, cx.dty)
        if p == CHE:
            return [(st, ("ret", adt(CH, 0, (s, I(0), n, q, TRUE))))]
        return cx2.cases(eq(L, mul(q, n)), lambda st: adt(CH, 0, (s, I(0), n, q, TRUE)), lambda st: adt(CH, 0, (s, I(0), n, q, FALSE)))
    return cx.cases(eq(n, I(0)), lambda st: cx.panic(st, "chunk size must be non-zero"), ok_)


@seqfn("chunks_mut", "chunks_exact_mut", "rchunks", "rchunks_exact")
def _chunks2(cx, a, n):
    s = S(cx, a)
    nm = cx.c["path"].split("::")[-1]
    p = CHM if nm.endswith("mut") else RCH
    base = smref(cx, a) if p == CHM else s
    L = slen(s)
    q = divt(L, n)

    def ok_(st):
        cx2 = Ctx(cx.ex, cx.fr, st, cx.c, cx.sp, cx.dty)
        e = lambda x: adt(p, 0, (base, I(0), n, q, x, L))
        if "exact" in nm:
            return [(st, ("ret", e(TRUE)))]
        return cx2.cases(eq(L, mul(q, n)), lambda st: e(TRUE), lambda st: e(FALSE))
    return cx.cases(eq(n, I(0)), lambda st: cx.panic(st, "chunk size must be non-zero"), ok_)


def chunk_at(p, f, i, last=False):
    """chunk i of a chunk iterator (the shorter last one: last)"""
    s, n = f[0], f[2]
    if p in (CH, CHM):
        L = slen(s) if p == CH else f[5]
        lo, hi = mul(i, n), (L if last else mul(add(i, 1), n))
        if p == CHM:
            return mk("mref", (s.args[0], s.args[1] + (("s", lo, hi),)), "v")
        return ref(subseq(s, lo, hi))
    L = f[5]
    return ref(subseq(s, I(0) if last else sub(L, mul(add(i, 1), n)), sub(L, mul(i, n))))


@tr("core::iter::traits::collect::IntoIterator", "into_iter")
def _into_iter(cx, a):
    ty = cx.selfty()
    P = cx.ex.P
    t = cx.targ(0)
    if ty["k"] == "ref":
        v = cx.ex.deref(cx.st, a)
        if v.op == "adt" and len(v.args[2]) == 1 and v.args[0] in MAPS:
            return map_iter(cx, v)
        if v.sort == "s":
            if ty["m"]:
                return mkiter(ITM, smref(cx, a), slen(v))
            return mkiter(IT, v, slen(v))
        return None
    if a.sort == "s":
        p = {"array": AIT}.get(ty["k"], SIT if ty["k"] == "adt" and ty["path"].startswith("smallvec") else VIT)
        return mkiter(p, a, slen(a))
    if ty["k"] == "adt" and ty["path"] in MAPS:
        return None
    i = cx.c.get("inst")
    if i is None or "body" not in P.insts[i]:
        return a
    return None


def map_iter(cx, m):
    if m.args[1] != 0:
        raise_unk("iteration of a collection built in the analysed code")
    s = m.args[2][0]
    return mkiter(MIT if MAPS[m.args[0]] == "map" else SETIT, s, slen(s))


def read_it(cx, m):
    while m.op == "mref":
        v = cx.ex.read(cx.st, m.args[0], m.args[1])
        if v.op != "mref":
            return m, v
        m = v
    return None, m


def cur_item(cx, st, p, s, i):
    if p == ITM:
        return mk("mref", (s.args[0], s.args[1] + (("i", i),)), "v")
    e = cx.ex.elem(st, s, i)
    if p in (IT, SETIT):
        return ref(e)
    if p == MIT:
        if e.op == "tuple":
            return tup([ref(x) for x in e.args[0]])
        return tup([ref(fld(e, None, 0, "val")), ref(fld(e, None, 1, "val"))])
    return e


def _with(v, **kw):
    f = list(v.args[2])
    for k, x in kw.items():
        f[int(k[1:])] = x
    return adt(v.args[0], v.args[1], f)


@tr("core::iter::traits::iterator::Iterator", "next")
def _next(cx, m):
    mm, v = read_it(cx, m)
    if v.op != "adt":
        return None
    p, f = v.args[0], v.args[2]
    ex = cx.ex
    if p in CUR and len(f) == 3:
        s, lo, hi = f

        def y(st):
            item = cur_item(cx, st, p, s, lo)
            ex.store(st, mm, _with(v, f1=add(lo, 1)))
            return some(item)
        return cx.cases(lt(lo, hi), y, lambda st: NONE)
    if p in CHS:
        s, i, n, q, exact = f[:5]

        def y(st):
            ex.store(st, mm, _with(v, f1=add(i, 1)))
            return some(chunk_at(p, f, i))

        def rest(st):
            if exact is TRUE:
                return NONE
            cx2 = Ctx(ex, cx.fr, st, cx.c, cx.sp, cx.dty)

            def y2(st):
                ex.store(st, mm, _with(v, f1=add(i, 1)))
                return some(chunk_at(p, f, q, True))
            return cx2.cases(eq(i, q), y2, lambda st: NONE)
        return cx.cases(lt(i, q), y, rest)
    if p == WIN:
        s, lo, n = f

        def y(st):
            ex.store(st, mm, _with(v, f1=add(lo, I(1))))
            return some(ref(subseq(s, lo, add(lo, n))))
        return cx.cases(le(add(lo, n), slen(s)), y, lambda st: NONE)
    if p == RNG and f[0].sort == "i":
        lo, hi = f

        def y(st):
            ex.store(st, mm, _with(v, f0=add(lo, 1)))
            return some(lo)
        return cx.cases(lt(lo, hi), y, lambda st: NONE)
    if p == RNGI and f[0].sort == "i":
        lo, hi = f[0], f[1]

        def y(st):
            ex.store(st, mm, _with(v, f0=add(lo, 1)))
            return some(lo)
        return cx.cases(le(lo, hi), y, lambda st: NONE)
    if p == "core::ops::range::RangeFrom" and f[0].sort == "i":
        ex.store(cx.st, mm, _with(v, f0=add(f[0], 1)))
        return some(f[0])
    return None


@tr("core::iter::traits::double_ended::DoubleEndedIterator", "next_back")
def _next_back(cx, m):
    mm, v = read_it(cx, m)
    if v.op != "adt":
        return None
    p, f = v.args[0], v.args[2]
    ex = cx.ex
    if p in CUR and len(f) == 3:
        s, lo, hi = f

        def y(st):
            i = sub(hi, I(1))
            item = cur_item(cx, st, p, s, i)
            ex.store(st, mm, _with(v, f2=i))
            return some(item)
        return cx.cases(lt(lo, hi), y, lambda st: NONE)
    if p == RNG and f[0].sort == "i":
        lo, hi = f

        def y(st):
            ex.store(st, mm, _with(v, f1=sub(hi, I(1))))
            return some(sub(hi, I(1)))
        return cx.cases(lt(lo, hi), y, lambda st: NONE)
    if p == RNGI and f[0].sort == "i":
        lo, hi = f[0], f[1]

        def y(st):
            ex.store(st, mm, _with(v, f1=sub(hi, I(1))))
            return some(hi)
        return cx.cases(le(lo, hi), y, lambda st: NONE)
    if p in CHS:
        s, i, n, q, exact = f[:5]

        def yb(st):
            ex.store(st, mm, _with(v, f3=sub(q, I(1))))
            return some(chunk_at(p, f, sub(q, I(1))))

        def yl(st):
            ex.store(st, mm, _with(v, f4=TRUE))
            return some(chunk_at(p, f, q, True))
        if exact is TRUE:
            return cx.cases(lt(i, q), yb, lambda st: NONE)
        return cx.cases(le(i, q), yl, lambda st: NONE)
    if p == WIN:
        raise_unk("reverse windows")
    return None


def it_len(cx, v):
    if v.op != "adt":
        return None
    p, f = v.args[0], v.args[2]
    F = cx.st.facts

    def mx(n):
        if F.entails(le(I(0), n)):
            return n
        return ite(le(I(0), n), n, I(0))
    if p in CUR and len(f) == 3:
        return mx(sub(f[2], f[1]))
    if p in CHS:
        return mx(sub(f[3] if f[4] is TRUE else add(f[3], 1), f[1]))
    if p == WIN:
        return mx(add(sub(sub(slen(f[0]), f[1]), f[2]), 1))
    if p == RNG and f[0].sort == "i":
        return mx(sub(f[1], f[0]))
    if p == RNGI and f[0].sort == "i":
        return mx(add(sub(f[1], f[0]), 1))
    return None


@tr("core::iter::traits::exact_size::ExactSizeIterator", "len")
def _it_len(cx, a):
    v = cx.ex.deref(cx.st, a)
    return it_len(cx, v)


@tr("core::iter::traits::iterator::Iterator", "size_hint")
def _size_hint(cx, a):
    v = cx.ex.deref(cx.st, a)
    n = it_len(cx, v)
    if n is None:
        return None
    return tup([n, some(n)])


@tr("core::iter::traits::iterator::Iterator", "count")
def _count(cx, a):
    return it_len(cx, cx.ex.deref(cx.st, a))


@tr("core::iter::traits::iterator::Iterator", "nth")
def _nth(cx, m, n):
    mm, v = read_it(cx, m)
    if v.op != "adt" or v.args[0] not in CUR:
        return None
    p, f = v.args[0], v.args[2]
    s, lo, hi = f
    i = add(lo, n)

    def y(st):
        cx.ex.store(st, mm, _with(v, f1=add(i, 1)))
        return some(cur_item(cx, st, p, s, i))

    def z(st):
        cx.ex.store(st, mm, _with(v, f1=hi))
        return NONE
    return cx.cases(lt(i, hi), y, z)


@fn("core::slice::iter::Iter::as_slice", "core::slice::iter::as_slice")
def _it_as_slice(cx, a):
    v = cx.ex.deref(cx.st, a)
    return ref(subseq(v.args[2][0], v.args[2][1], v.args[2][2]))


@fn("core::slice::iter::ChunksExact::remainder")
def _remainder(cx, a):
    v = cx.ex.deref(cx.st, a)
    s, lo, n = v.args[2][:3]
    r = mul(divt(slen(s), n), n)
    return ref(subseq(s, r, slen(s)))


@fn("core::ops::range::RangeInclusive::new")
def _rin(cx, a, b):
    return adt(RNGI, 0, (a, b, FALSE))


@fn("core::ops::range::RangeInclusive::start")
def _ris(cx, a):
    return ref(cx.ex.deref(cx.st, a).args[2][0])


@fn("core::ops::range::RangeInclusive::end")
def _rie(cx, a):
    return ref(cx.ex.deref(cx.st, a).args[2][1])


@fn("core::ops::range::Range::contains", "core::ops::range::RangeInclusive::contains")
def _rcont(cx, a, b):
    r = cx.ex.deref(cx.st, a)
    x = cx.ex.deref(cx.st, b)
    if x.sort != "i":
        return None
    f = r.args[2]
    return conj([le(f[0], x), lt(x, f[1]) if r.args[0] == RNG else le(x, f[1])])


@fn("core::ops::range::Range::is_empty", "core::ops::range::RangeInclusive::is_empty")
def _rempty(cx, a):
    r = cx.ex.deref(cx.st, a)
    f = r.args[2]
    if f[0].sort != "i":
        return None
    return le(f[1], f[0]) if r.args[0] == RNG else lt(f[1], f[0])


# ------------------------------------------------------------------ type-level numbers
def _tn(cx):
    c = cx.c
    a = c["args"][0] if c.get("args") else None
    t = a.get("t") if isinstance(a, dict) else None
    if t is not None and cx.ex.P.types[t]["k"] == "param":
        return cx.ex.cparam(cx.ex.P.types[t]["n"])
    return None


for _n in ("to_usize", "to_u64", "to_u32", "to_u128", "to_i64", "to_isize"):
    TR[("typenum::marker_traits::Unsigned", _n)] = _tn


# ------------------------------------------------------------------ ordered collections
@fn("alloc::collections::btree::map::BTreeMap::new", "alloc::collections::btree::set::BTreeSet::new")
def _mnew(cx):
    p = cx.c["path"]
    return adt(list(MAPS)[0] if "map::" in p else list(MAPS)[1], 1, (EMPTY,))


BM, BS = "alloc::collections::btree::map::BTreeMap", "alloc::collections::btree::set::BTreeSet"
ENTRY = "alloc::collections::btree::map::entry::"


def key_at(cx, m, j):
    s = m.args[2][0]
    e = at(s, j)
    return fld(e, None, 0, cx.ex.P.kind(cx.targ(0))) if m.args[0] == BM else e


def mcontains(cx, m, k):
    """some entry of m (canonical or as inserted) has key k"""
    if m.op != "adt" or len(m.args[2]) != 1:
        raise_unk("lookup in a symbolic collection")
    s = m.args[2][0]
    if s is EMPTY:
        return FALSE
    j = isym(fresh_name("e"), 0)
    return neg(forall(j, slen(s), neg(eq(key_at(cx, m, j), k))))


def minsert(cx, a, kv):
    m = cx.ex.deref1(cx.st, a)
    alloc(cx, I(1))
    cx.ex.store(cx.st, a, adt(m.args[0], 1, (cat([m.args[2][0], lit([tup(kv) if len(kv) == 2 else kv[0]])]),)))


@fn(BM + "::insert", BS + "::insert")
def _minsert(cx, a, *kv):
    m = cx.ex.deref1(cx.st, a)
    if m.op != "adt" or len(m.args[2]) != 1:
        raise_unk("insertion into a symbolic collection")
    c = mcontains(cx, m, kv[0]) if m.args[2][0] is not EMPTY else FALSE
    minsert(cx, a, kv)
    if len(kv) == 1:
        return neg(c)
    return ite(c, some(mk("opaque", ("replaced",), "v")), NONE)


@fn(BM + "::contains_key", BS + "::contains")
def _mcontains(cx, a, k):
    return mcontains(cx, cx.ex.deref(cx.st, a), cx.ex.deref(cx.st, k))


@fn(BM + "::entry")
def _mentry(cx, a, k):
    m = cx.ex.deref1(cx.st, a)
    return cx.cases(mcontains(cx, m, k), lambda s: adt(ENTRY + "Entry", 1, (adt(ENTRY + "OccupiedEntry", 0, (a, k)),)),
                    lambda s: adt(ENTRY + "Entry", 0, (adt(ENTRY + "VacantEntry", 0, (a, k)),)))


def entry_of(e):
    if e.op != "adt" or not e.args[0].startswith(ENTRY) or e.args[2][0].op != "adt":
        raise_unk("unknown map entry")
    return e.args[1], e.args[2][0].args[2]


@fn(ENTRY + "Entry::or_insert")
def _orins(cx, e, v):
    w, (a, k) = entry_of(e)
    if w == 0:
        minsert(cx, a, (k, v))
    return mk("opaque", ("slot",), "v")


@fn(ENTRY + "Entry::or_insert_with", ENTRY + "Entry::or_default", ENTRY + "Entry::and_modify", ENTRY + "Entry::or_insert_with_key")
def _orwith(cx, e, *f):
    raise_unk("computed map entry")


@fn(ENTRY + "VacantEntry::insert", ENTRY + "OccupiedEntry::insert")
def _eins(cx, e, v):
    a, k = e.args[2]
    minsert(cx, a, (k, v))
    return mk("opaque", ("slot",), "v")


@fn(BM + "::iter", BS + "::iter")
def _miter(cx, a):
    return map_iter(cx, cx.ex.deref(cx.st, a))


@fn(BM + "::len", BS + "::len")
def _mlen(cx, a):
    m = cx.ex.deref(cx.st, a)
    n = slen(m.args[2][0])
    if m.args[1] == 0:
        return n
    # the entries whose key does not occur earlier
    i, j = isym(fresh_name("e"), 0), isym(fresh_name("e"), 0)
    return gsum(j, n, b2i(forall(i, j, neg(eq(key_at(cx, m, i), key_at(cx, m, j))))))


@fn(BM + "::is_empty", BS + "::is_empty")
def _mempty(cx, a):
    m = cx.ex.deref(cx.st, a)
    return eq(slen(m.args[2][0]), I(0))


@fn(BM + "::keys", BM + "::values")
def _mkeys(cx, a):
    raise_unk("map keys")


def mend(last):
    def f(cx, a):
        m = cx.ex.deref(cx.st, a)
        if m.args[1] != 0:
            raise_unk("end of a collection built in the analysed code")
        s = m.args[2][0]
        e = lambda: at(s, sub(slen(s), I(1)) if last else I(0))
        if m.args[0] == BS:
            return cx.cases(eq(slen(s), I(0)), lambda st: NONE, lambda st: some(e()))
        P = cx.ex.P
        return cx.cases(eq(slen(s), I(0)), lambda st: NONE, lambda st: some(tup([fld(e(), None, 0, P.kind(cx.targ(0))), fld(e(), None, 1, P.kind(cx.targ(1)))])))
    return f


FN[BM + "::last_key_value"] = FN[BS + "::last"] = mend(True)
FN[BM + "::first_key_value"] = FN[BS + "::first"] = mend(False)


# ------------------------------------------------------------------ misc
def transmute(ex, st, v, ft, tt):
    P = ex.P
    kf, kt = P.kind(ft), P.kind(tt)
    if kf == kt:
        return v
    if isinstance(kf, tuple) and isinstance(kt, tuple):
        if kf[0] == "int" and kt[0] == "int" and v.sort == "i":
            rg = P.int_range(tt)
            return ex.wrapto(st, v, rg)
        if kf[0] == "seq" and kt[0] == "int" and P.types[ft]["k"] == "array":
            return lev(v)
        if kf[0] == "int" and kt[0] == "seq":
            return leb(v, P.int_range(ft)[2] // 8)
    if P.types[ft]["k"] in ("ref", "ptr") and P.types[tt]["k"] in ("ref", "ptr"):
        ex.same_extent(st, v, ft, tt)
        return v
    return None


def const_item(ex, st, c):
    """associated constants that stay generic"""
    p = c["uneval"]
    name = p.split("::")[-1]
    if "typenum" in p or name in ("USIZE", "U64", "U32"):
        a = c["args"][0] if c.get("args") else None
        t = a.get("t") if isinstance(a, dict) else None
        if t is not None and ex.P.types[t]["k"] == "param":
            return ex.cparam(ex.P.types[t]["n"])
    return None


# ------------------------------------------------------------------ hashing, hexadecimal text, unstructured data
@fn("core::mem::size_of_val", "core::intrinsics::size_of_val")
def _size_of_val(cx, a):
    P = cx.ex.P
    t = cx.targ(0)
    ty = P.types[t]
    if ty["k"] in ("slice", "str"):
        k = I(1) if ty["k"] == "str" else size_of(cx, ty["e"])
        return mul(slen(S(cx, a)), k)
    return size_of(cx, t)


def is_hex(c):
    return disj([conj([le(I(a), c), le(c, I(b))]) for a, b in ((48, 57), (65, 70), (97, 102))])


def hexes(s):
    """every byte of s is a hexadecimal digit"""
    k = isym(fresh_name("h"), 0)
    return forall(k, slen(s), is_hex(at(s, k)))


def hexed(s, upper=False):
    return sapp("HEX" if upper else "hex", (s,), "u8", scale(slen(s), 2))


def unhexed(s):
    return sapp("unhex", (s,), "u8", divc(slen(s), 2))


@tr("hex::ToHex", "encode_hex", "encode_hex_upper")
def _to_hex(cx, a):
    return hexed(S(cx, a), cx.c["name"].endswith("upper"))


@tr("hex::FromHex", "from_hex")
def _from_hex(cx, a):
    P = cx.ex.P
    ty = P.types[cx.targ(0)]
    if not (ty["k"] == "adt" and ty["path"] == "alloc::vec::Vec"):
        return None
    s = S(cx, a)
    good = conj([eq(modc(slen(s), 2), I(0)), hexes(s)])
    return cx.cases(good, lambda st: ok(unhexed(s)), lambda st: err(ERR))


def hexcases(cx, s, st=None):
    good = conj([eq(modc(slen(s), 2), I(0)), hexes(s)])
    c2 = Ctx(cx.ex, cx.fr, st or cx.st, cx.c, cx.sp, cx.dty)
    return c2.cases(good, lambda st: ok(unhexed(s)), lambda st: err(ERR))


@fn("const_hex::decode", "alloy_primitives::hex::decode")
def _chex_decode(cx, a):
    # an optional prefix is skipped
    s = S(cx, a)
    pre = conj([le(I(2), slen(s)), eq(at(s, I(0)), I(48)), eq(at(s, I(1)), I(120))])
    return cx.cases(pre, lambda st: hexcases(cx, subseq(s, I(2), slen(s)), st), lambda st: hexcases(cx, s, st))


@fn("const_hex::encode", "const_hex::encode_prefixed", "const_hex::encode_upper", "const_hex::encode_upper_prefixed")
def _chex_encode(cx, a):
    nm = cx.c["path"].split("::")[-1]
    h = hexed(S(cx, a), "upper" in nm)
    return cat([lit([I(48), I(120)]), h]) if nm.endswith("prefixed") else h


@tr("serde_core::de::Deserialize", "deserialize")
def _deserialize(cx, d):
    """a string out of the deserializer of the model"""
    ex = cx.ex
    if ex.P.types[cx.targ(0)].get("path") != "alloc::string::String":
        return None
    v = ex.deref(cx.st, d)
    if v.op != "adt" or not v.args[0].endswith("models::StrDe"):
        return None
    return ok(S(cx, v.args[2][0]))


@seqfn("trim_start_matches", "trim_end_matches", "trim_matches", "to_ascii_lowercase", "to_lowercase", "to_ascii_uppercase", "to_uppercase")
def _trim(cx, a, b=None):
    s = S(cx, a)
    nm = cx.c["path"].split("::")[-1]
    if b is None:
        return sapp(nm, (s,), "u8", slen(s))
    b = cx.ex.deref(cx.st, b)
    y = lit([b]) if b.sort == "i" else S(cx, b)
    if y.op != "lit" or not all(e.op == "int" for e in y.args[0]):
        return None
    return ref(sapp(nm, (s, y), "u8"))


@fn("arbitrary::unstructured::Unstructured::fill_buffer")
def _fill_buffer(cx, u, b):
    v = cx.ex.deref1(cx.st, u)
    if v.op != "adt" or len(v.args[2]) != 1:
        return None
    x, y = S(cx, v.args[2][0]), S(cx, b)
    n, m = slen(y), slen(x)

    def fill(st, w, rest):
        setS(cx, b, w, st)
        cx.ex.store(st, u, adt(v.args[0], v.args[1], (ref(rest),)))
        return ok(UNIT)
    return cx.cases(le(n, m), lambda st: fill(st, subseq(x, I(0), n), subseq(x, n, m)), lambda st: fill(st, cat([x, rep(I(0), sub(n, m))]), EMPTY))
