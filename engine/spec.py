"""The SSZ specification as terms: for every schema, enc(v), valid(s), dec(s), fixed length, and member generation.

These are written from the SSZ definition, not from the library; values are viewed through the representation the
abstract interpreter gives the Rust type (scalars, sequences, records)."""
import random
from terms import *
from evalt import MAPP, SETP, okey

OPT = "core::option::Option"


def lint(s, lo, n):
    return lev(subseq(s, lo, add(lo, n)))


class Sch:
    kind = "val"
    lenient = False          # decoding accepts more than the canonical encodings (maps and sets)
    zero_items = False

    def fixed(self):
        return True

    def flen(self):
        """length of the fixed part in an enclosing container"""
        return self.size() if self.fixed() else I(4)

    def opaques(self):
        return set()


class Uint(Sch):
    def __init__(self, n, lo=0):
        self.n = n
        self.lo = lo
        self.kind = ("int", lo, (1 << (8 * n)) - 1)

    def size(self):
        return I(self.n)

    def enc(self, v):
        return leb(v, self.n)

    def valid(self, s):
        c = eq(slen(s), I(self.n))
        if self.lo:
            c = conj([c, neg(eq(lev_n(s, self.n), I(0)))])
        return c

    def dec(self, s):
        return lev_n(s, self.n)

    def gen(self, r, d=0):
        m = (1 << (8 * self.n)) - 1
        return r.choice([self.lo, 1, m, m >> 1, (m >> 1) + 1, r.randrange(self.lo, m + 1), r.randrange(self.lo, 300) & m or 1])


def lev_n(s, n):
    """little-endian value of the first n bytes"""
    return lev(subseq(s, I(0), I(n)))


class Bool(Sch):
    kind = "bool"

    def size(self):
        return I(1)

    def enc(self, v):
        return lit([b2i(v)])

    def valid(self, s):
        return conj([eq(slen(s), I(1)), lt(at(s, I(0)), I(2))])

    def dec(self, s):
        return eq(at(s, I(0)), I(1))

    def gen(self, r, d=0):
        return r.random() < .5


class FixBytes(Sch):
    """n bytes, wrapped in the given newtypes (outermost first)"""

    def __init__(self, n, wraps=()):
        self.n = lift(n) if not isinstance(n, Term) else n
        self.wraps = wraps
        self.kind = "val" if wraps else ("seq", "u8")

    def size(self):
        return self.n

    def enc(self, v):
        for w in self.wraps:
            v = fld(v, None, 0, "val" if w is not self.wraps[-1] else ("seq", "u8"))
        return v

    def valid(self, s):
        return eq(slen(s), self.n)

    def dec(self, s):
        for w in reversed(self.wraps):
            s = adt(w, 0, (s,))
        return s

    def gen(self, r, d=0, n=None):
        n = self.n.args[0] if self.n.op == "int" else r.nval(self.n)
        v = tuple(r.randrange(256) for _ in range(n))
        for w in reversed(self.wraps):
            v = ("adt", w, 0, (v,))
        return v


class VarBytes(Sch):
    def __init__(self, wraps=()):
        self.wraps = wraps
        self.kind = "val" if wraps else ("seq", "u8")

    def fixed(self):
        return False

    enc = FixBytes.enc
    dec = FixBytes.dec

    def valid(self, s):
        return TRUE

    def gen(self, r, d=0):
        v = tuple(r.randrange(256) for _ in range(r.choice([0, 0, 1, 2, 3, 4, 5, 8, 13])))
        for w in reversed(self.wraps):
            v = ("adt", w, 0, (v,))
        return v


class Opaque(Sch):
    def __init__(self, key):
        self.key = key

    def fixed(self):
        return self.key[0] == "F"

    def size(self):
        return flen(self.key)

    def enc(self, v):
        return enc(self.key, v)

    def valid(self, s):
        return valid(self.key, s)

    def dec(self, s):
        return dec(self.key, s)

    def gen(self, r, d=0):
        n = r.nval(flen(self.key)) if self.fixed() else r.choice([0, 1, 2, 2, 3, 4, 5, 9])
        b = [r.randrange(256) for _ in range(n)]
        if b and b[0] == 0xEE:
            b[0] = 1
        return ("op", self.key[1], tuple(b))

    def opaques(self):
        return {self.key}


class Record(Sch):
    """container; build(list of field terms) -> value term, get(v, i) -> field term"""

    def __init__(self, fields, path=None, skipped=None, names=None):
        self.fields = fields
        self.path = path
        # live: index in the Rust value of each schema field; skipped: {index: (kind, default term, default value)}
        self.skipped = skipped or {}
        n = len(fields) + len(self.skipped)
        self.live = [i for i in range(n) if i not in self.skipped]
        self.total = n

    def fixed(self):
        return all(f.fixed() for f in self.fields)

    def size(self):
        return add(I(0), *[f.flen() for f in self.fields])

    def head(self):
        return add(I(0), *[f.flen() for f in self.fields])

    def get(self, v, j):
        i = self.live[j]
        return fld(v, None if self.path is None else None, i, self.fields[j].kind)

    def build(self, vals):
        out = []
        it = iter(vals)
        for i in range(self.total):
            out.append(self.skipped[i][1] if i in self.skipped else next(it))
        return tup(out) if self.path is None else adt(self.path, 0, out)

    def enc(self, v):
        fixedp, varp = [], []
        off = self.head()
        for j, f in enumerate(self.fields):
            e = f.enc(self.get(v, j))
            if f.fixed():
                fixedp.append(e)
            else:
                fixedp.append(leb(off, 4))
                varp.append(e)
                off = add(off, slen(e))
        return cat(fixedp + varp)

    def slices(self, s):
        """(conditions, slice of each field)"""
        conds = []
        pos = I(0)
        res = []
        offs = []
        for f in self.fields:
            if f.fixed():
                res.append(subseq(s, pos, add(pos, f.flen())))
            else:
                offs.append(lint(s, pos, I(4)))
                res.append(None)
            pos = add(pos, f.flen())
        if not offs:
            conds.append(eq(slen(s), pos))
            return conds, res
        conds.append(le(pos, slen(s)))
        conds.append(eq(offs[0], pos))
        ends = offs[1:] + [slen(s)]
        for a, b in zip(offs, ends):
            conds.append(le(a, b))
        k = 0
        for i, f in enumerate(self.fields):
            if not f.fixed():
                res[i] = subseq(s, offs[k], ends[k])
                k += 1
        return conds, res

    def valid(self, s):
        c, sl = self.slices(s)
        return conj(c + [f.valid(x) for f, x in zip(self.fields, sl)])

    def dec(self, s):
        _, sl = self.slices(s)
        return self.build([f.dec(x) for f, x in zip(self.fields, sl)])

    def gen(self, r, d=0):
        vals = [f.gen(r, d + 1) for f in self.fields]
        it = iter(vals)
        out = tuple(self.skipped[i][2](r) if i in self.skipped else next(it) for i in range(self.total))
        return ("tup", out) if self.path is None else ("adt", self.path, 0, out)

    def norm(self, v):
        """the value with its skipped fields reset to their defaults"""
        fs = list(v[1] if v[0] == "tup" else v[3])
        for i, (_, _, _, dv) in self.skipped.items():
            fs[i] = dv
        for j, f in enumerate(self.fields):
            fs[self.live[j]] = norm(f, fs[self.live[j]])
        return ("tup", tuple(fs)) if v[0] == "tup" else ("adt", v[1], v[2], tuple(fs))

    def opaques(self):
        return set().union(*[f.opaques() for f in self.fields]) if self.fields else set()


def norm(sch, v):
    f = getattr(sch, "norm", None)
    return f(v) if f else v


class Wrapper(Sch):
    """transparent struct: identical to its single live field"""

    def __init__(self, inner, path, index=0, total=1, skipped=None):
        self.inner, self.path, self.index, self.total, self.skipped = inner, path, index, total, skipped or {}

    def fixed(self):
        return self.inner.fixed()

    def size(self):
        return self.inner.size()

    def enc(self, v):
        return self.inner.enc(fld(v, None, self.index, self.inner.kind))

    def valid(self, s):
        return self.inner.valid(s)

    def dec(self, s):
        return adt(self.path, 0, [self.inner.dec(s) if i == self.index else self.skipped[i][1] for i in range(self.total)])

    def gen(self, r, d=0):
        x = self.inner.gen(r, d)
        return ("adt", self.path, 0, tuple(x if i == self.index else self.skipped[i][2](r) for i in range(self.total)))

    def norm(self, v):
        fs = list(v[3])
        for i, (_, _, _, dv) in self.skipped.items():
            fs[i] = dv
        fs[self.index] = norm(self.inner, fs[self.index])
        return ("adt", v[1], v[2], tuple(fs))

    def opaques(self):
        return self.inner.opaques()


class ListOf(Sch):
    def __init__(self, item):
        self.item = item
        self.kind = ("seq", "u8" if item.kind == ("int", 0, 255) else item.kind)

    def fixed(self):
        return False

    def elems(self, v):
        return v

    def wrap(self, q):
        return q

    def enc(self, v):
        q = self.elems(v)
        n = slen(q)
        k = isym(fresh_name("k"), 0)
        if self.item.fixed():
            return flat(k, n, self.item.enc(at(q, k)))
        j = isym(fresh_name("k"), 0)
        off = add(scale(n, 4), gsum(j, k, slen(self.item.enc(at(q, j)))))
        return cat([flat(k, n, leb(off, 4)), flat(k, n, self.item.enc(at(q, k)))])

    def layout(self, s, k):
        """slice of item k"""
        if self.item.fixed():
            f = self.item.flen()
            return subseq(s, mul(k, f), add(mul(k, f), f))
        o0 = lint(s, I(0), I(4))
        a = lint(s, scale(k, 4), I(4))
        b = lint(s, add(scale(k, 4), 4), I(4))
        last = le(o0, add(scale(k, 4), 4))
        return subseq(s, a, ite(last, slen(s), b))

    def count(self, s):
        if self.item.fixed():
            return divt(slen(s), self.item.flen())
        return divc(lint(s, I(0), I(4)), 4)

    def valid(self, s):
        k = isym(fresh_name("k"), 0)
        n = self.count(s)
        if self.item.fixed():
            f = self.item.flen()
            c = conj([neg(eq(f, I(0))), eq(slen(s), mul(f, n)), forall(k, n, self.item.valid(self.layout(s, k)))])
            return disj([eq(slen(s), I(0)), c])
        o0 = lint(s, I(0), I(4))
        f1 = subst_forall(k, sub(n, I(1)), lambda x: conj([
            le(lint(s, scale(x, 4), I(4)), lint(s, add(scale(x, 4), 4), I(4))),
            self.item.valid(subseq(s, lint(s, scale(x, 4), I(4)), lint(s, add(scale(x, 4), 4), I(4))))]))
        lasto = lint(s, scale(sub(n, I(1)), 4), I(4))
        c = conj([le(I(4), slen(s)), le(I(4), o0), le(o0, slen(s)), eq(o0, scale(n, 4)), f1, le(lasto, slen(s)),
                  self.item.valid(subseq(s, lasto, slen(s)))])
        return disj([eq(slen(s), I(0)), c])

    def dec(self, s):
        k = isym(fresh_name("k"), 0)
        n = self.count(s)
        if self.item.fixed():
            q = gen(k, n, self.item.dec(self.layout(s, k)))
        else:
            body = self.item.dec(subseq(s, lint(s, scale(k, 4), I(4)), lint(s, add(scale(k, 4), 4), I(4))))
            last = self.item.dec(subseq(s, lint(s, scale(sub(n, I(1)), 4), I(4)), slen(s)))
            q = cat([gen(k, sub(n, I(1)), body), lit([last])])
        return self.wrap(ite_seq(eq(slen(s), I(0)), EMPTY, q))

    def gen(self, r, d=0):
        n = r.choice([0, 1, 1, 2, 2, 3, 4, 5] if d == 0 else [0, 1, 2, 3])
        return self.wrapv([self.item.gen(r, d + 1) for _ in range(n)])

    def wrapv(self, xs):
        return tuple(xs)

    def norm(self, v):
        return tuple(norm(self.item, x) for x in v)

    def opaques(self):
        return self.item.opaques()


def ite_seq(c, a, b):
    return ite(c, a, b)


def subst_forall(k, n, f):
    return forall(k, n, f(k))


class SetOf(ListOf):
    lenient = True

    def __init__(self, item):
        ListOf.__init__(self, item)
        self.kind = "val"

    path = SETP

    def elems(self, v):
        return v.args[2][0] if v.op == "adt" else fld(v, None, 0, ("seq", "val"))

    def wrap(self, q):
        return adt(self.path, 0, (q,))

    def wrapv(self, xs):
        return ("set", tuple(sorted(set(xs), key=okey)))

    def norm(self, v):
        return v


class MapOf(SetOf):
    path = MAPP

    def __init__(self, k, v):
        SetOf.__init__(self, Record([k, v]))

    def wrapv(self, xs):
        d = {}
        for x in xs:
            d[x[1][0]] = x[1][1]
        return ("map", tuple((k, d[k]) for k in sorted(d, key=okey)))


class Union(Sch):
    """path: enum path; variants: list of schemas or None for a unit variant"""

    def __init__(self, variants, path):
        self.variants, self.path = variants, path

    def fixed(self):
        return False

    def enc(self, v):
        r = None
        for i, x in reversed(list(enumerate(self.variants))):
            e = lit([I(i)])
            if x is not None:
                e = cat([e, x.enc(fld_of(v, i, 0, x.kind))])
            r = e if r is None else ite(isvar(v, i, len(self.variants)), e, r)
        return r

    def valid(self, s):
        body = subseq(s, I(1), slen(s))
        alts = []
        for i, x in enumerate(self.variants):
            c = [eq(at(s, I(0)), I(i))]
            c.append(eq(slen(s), I(1)) if x is None else x.valid(body))
            alts.append(conj(c))
        return conj([le(I(1), slen(s)), disj(alts)])

    def dec(self, s):
        body = subseq(s, I(1), slen(s))
        r = None
        for i, x in reversed(list(enumerate(self.variants))):
            v = adt(self.path, i, () if x is None else (x.dec(body),))
            r = v if r is None else ite(eq(at(s, I(0)), I(i)), v, r)
        return r

    def gen(self, r, d=0):
        i = r.randrange(len(self.variants))
        x = self.variants[i]
        return ("adt", self.path, i, () if x is None else (x.gen(r, d + 1),))

    def norm(self, v):
        x = self.variants[v[2]]
        return v if x is None else ("adt", v[1], v[2], (norm(x, v[3][0]),))

    def opaques(self):
        return set().union(*[x.opaques() for x in self.variants if x is not None])


def fld_of(v, variant, i, kind):
    if v.op == "adt" and v.args[1] != variant:
        # not this variant: any term of the right sort will do, the branch is dead
        srt = kind if isinstance(kind, str) else kind[0]
        if srt == "val":
            return vsym("dead", None)
        if srt == "int":
            return I(kind[1])
        if srt == "bool":
            return FALSE
        return EMPTY
    return fld(v, variant, i, kind)


class LegacyOption(Union):
    """four-byte little-endian selector"""

    def __init__(self, inner):
        Union.__init__(self, [None, inner], OPT)

    def enc(self, v):
        x = self.variants[1]
        return ite(isvar(v, 0, 2), leb(I(0), 4), cat([leb(I(1), 4), x.enc(fld_of(v, 1, 0, x.kind))]))

    def valid(self, s):
        sel = lint(s, I(0), I(4))
        x = self.variants[1]
        return conj([le(I(4), slen(s)), disj([conj([eq(sel, I(0)), eq(slen(s), I(4))]),
                                              conj([eq(sel, I(1)), x.valid(subseq(s, I(4), slen(s)))])])])

    def dec(self, s):
        sel = lint(s, I(0), I(4))
        return ite(eq(sel, I(0)), adt(OPT, 0, ()), adt(OPT, 1, (self.variants[1].dec(subseq(s, I(4), slen(s))),)))


class Tag(Sch):
    def __init__(self, n, path):
        self.n, self.path = n, path

    def size(self):
        return I(1)

    def enc(self, v):
        return lit([discr(v, self.n)])

    def valid(self, s):
        return conj([eq(slen(s), I(1)), lt(at(s, I(0)), I(self.n))])

    def dec(self, s):
        r = None
        for i in reversed(range(self.n)):
            v = adt(self.path, i, ())
            r = v if r is None else ite(eq(at(s, I(0)), I(i)), v, r)
        return r

    def gen(self, r, d=0):
        return ("adt", self.path, r.randrange(self.n), ())


class TransparentEnum(Sch):
    """encodes as the inner value; decodes to the first variant that accepts"""
    roundtrip = False

    def __init__(self, variants, path):
        self.variants, self.path = variants, path

    def fixed(self):
        return False

    def enc(self, v):
        r = None
        for i, x in reversed(list(enumerate(self.variants))):
            e = x.enc(fld_of(v, i, 0, x.kind))
            r = e if r is None else ite(isvar(v, i, len(self.variants)), e, r)
        return r

    def valid(self, s):
        return disj([x.valid(s) for x in self.variants])

    def dec(self, s):
        r = None
        for i, x in reversed(list(enumerate(self.variants))):
            v = adt(self.path, i, (x.dec(s),))
            r = v if r is None else ite(x.valid(s), v, r)
        return r

    def gen(self, r, d=0):
        i = r.randrange(len(self.variants))
        return ("adt", self.path, i, (self.variants[i].gen(r, d + 1),))

    def norm(self, v):
        return ("adt", v[1], v[2], (norm(self.variants[v[2]], v[3][0]),))

    def opaques(self):
        return set().union(*[x.opaques() for x in self.variants])


class Rand(random.Random):
    """random source that also knows the values chosen for symbolic lengths"""

    def __init__(self, seed, sym):
        random.Random.__init__(self, seed)
        self.symv = sym

    def nval(self, t):
        from evalt import ev, Env
        return ev(t, Env(self.symv))
