"""Hash-consed terms of the abstract domain: linear integer forms, booleans, sequences, values.

Sorts: 'i' mathematical integer, 'b' boolean, 's' sequence, 'v' other value.
Everything is built through the smart constructors below, which keep terms in normal form.
"""
import itertools
import sys

sys.setrecursionlimit(100000)
_tab = {}
_ids = itertools.count()


BINDERS = {"flat", "gen", "sum", "forall", "bover", "lastm", "first", "fold"}
# binder layout: args = (bv_depth, n, body, *extra); `extra` is outside the scope of the variable


class Term:
    __slots__ = ("op", "args", "sort", "mb", "bd", "id", "_rng", "_syms", "_len", "_info", "_neg")

    def __repr__(self):
        return show(self)

    def __lt__(self, o):
        return self.id < o.id


def mk(op, args, sort):
    key = (op, args)
    t = _tab.get(key)
    if t is None:
        t = Term()
        t.op, t.args, t.sort = op, args, sort
        t.id = next(_ids)
        t._rng = t._syms = t._len = t._info = t._neg = None
        # mb: nothing bound or free inside when 0; bd: depth of the outermost binder inside
        mb = args[0] if op == "bv" else 0
        bd = args[0] if op in BINDERS else 0
        for a in args:
            if isinstance(a, Term):
                if a.mb > mb:
                    mb = a.mb
                if a.bd > bd:
                    bd = a.bd
            elif isinstance(a, tuple):
                for b in a:
                    if isinstance(b, Term):
                        if b.mb > mb:
                            mb = b.mb
                        if b.bd > bd:
                            bd = b.bd
                    elif isinstance(b, tuple):
                        for c in b:
                            if isinstance(c, Term):
                                if c.mb > mb:
                                    mb = c.mb
                                if c.bd > bd:
                                    bd = c.bd
        t.mb = max(mb, bd)
        t.bd = bd
        _tab[key] = t
    return t


_fresh = itertools.count(1)


def fresh_name(p):
    return "%s#%d" % (p, next(_fresh))


# ------------------------------------------------------------------ integers
def I(v):
    return mk("int", (int(v),), "i")


ZERO, ONE = None, None
MAXLEN = 1 << 48


def isym(name, lo=None, hi=None):
    return mk("isym", (name, lo, hi), "i")


def parts(t):
    """(constant, {atom: coef}) of an integer term"""
    if t.op == "int":
        return t.args[0], {}
    if t.op == "lin":
        return t.args[0], dict(t.args[1])
    return 0, {t: 1}


def from_parts(c, d):
    d = {a: k for a, k in d.items() if k != 0}
    if not d:
        return I(c)
    if c == 0 and len(d) == 1:
        (a, k), = d.items()
        if k == 1:
            return a
    return mk("lin", (c, tuple(sorted(d.items(), key=lambda x: x[0].id))), "i")


def add(*ts):
    c, d = 0, {}
    for t in ts:
        if isinstance(t, int):
            c += t
            continue
        c2, d2 = parts(t)
        c += c2
        for a, k in d2.items():
            d[a] = d.get(a, 0) + k
    return from_parts(c, d)


def scale(t, k):
    if isinstance(t, int):
        return I(t * k)
    c, d = parts(t)
    return from_parts(c * k, {a: x * k for a, x in d.items()})


def sub(a, b):
    return add(a, scale(b, -1))


def lift(x):
    return I(x) if isinstance(x, int) else x


def mul(a, b):
    a, b = lift(a), lift(b)
    if a.op == "int":
        return scale(b, a.args[0])
    if b.op == "int":
        return scale(a, b.args[0])
    if a.op == "ite":
        return ite(a.args[0], mul(a.args[1], b), mul(a.args[2], b))
    if b.op == "ite":
        return ite(b.args[0], mul(a, b.args[1]), mul(a, b.args[2]))
    ca, da = parts(a)
    cb, db = parts(b)
    acc = {}
    c = ca * cb

    def put(m, k):
        acc[m] = acc.get(m, 0) + k

    for x, k in da.items():
        if cb:
            put(x, k * cb)
        for y, k2 in db.items():
            fx = x.args[0] if x.op == "mul" else (x,)
            fy = y.args[0] if y.op == "mul" else (y,)
            put(mk("mul", (tuple(sorted(fx + fy)),), "i"), k * k2)
    if ca:
        for y, k2 in db.items():
            put(y, ca * k2)
    return from_parts(c, acc)


def rng(t):
    """interval (lo, hi), None = unbounded"""
    if t._rng is not None:
        return t._rng
    r = _rng(t)
    t._rng = r
    return r


def _rng(t):
    op, a = t.op, t.args
    if op == "int":
        return (a[0], a[0])
    if op == "isym":
        return (a[1], a[2])
    if op == "lin":
        # t - c*div(t,c): a remainder
        for at, k in a[1]:
            if at.op == "div" and k < 0 and -k == at.args[1]:
                rest = add(t, scale(at, at.args[1]))
                dlt = sub(rest, at.args[0])
                if dlt.op == "int":
                    return (dlt.args[0], dlt.args[0] + at.args[1] - 1)
        lo = hi = a[0]
        for at, k in a[1]:
            l, h = rng(at)
            if k < 0:
                l, h = h, l
            lo = None if lo is None or l is None else lo + l * k
            hi = None if hi is None or h is None else hi + h * k
        return (lo, hi)
    if op == "mul":
        lo, hi = 1, 1
        for x in a[0]:
            l, h = rng(x)
            if l is None or l < 0:
                return (None, None)
            lo = lo * l
            hi = None if hi is None or h is None else hi * h
        return (lo, hi)
    if op == "len":
        return (0, MAXLEN)
    if op in ("div",):
        l, h = rng(a[0])
        return (None if l is None else l // a[1], None if h is None else h // a[1])
    if op in ("divt", "cdiv"):
        return (0, rng(a[0])[1])
    if op == "at":
        es = esort(a[0])
        if es == "u8":
            return (0, 255)
        if isinstance(es, tuple) and es[0] == "int":
            return (es[1], es[2])
        return (None, None)
    if op == "byteof":
        return (0, 255)
    if op == "le":
        n = slen(a[0])
        if n.op == "int":
            return (0, (1 << (8 * n.args[0])) - 1)
        return (0, None)
    if op == "ite":
        l1, h1 = rng(a[1])
        l2, h2 = rng(a[2])
        return (None if l1 is None or l2 is None else min(l1, l2), None if h1 is None or h2 is None else max(h1, h2))
    if op == "band":
        h1, h2 = rng(a[0])[1], rng(a[1])[1]
        hs = [h for h in (h1, h2) if h is not None]
        return (0, min(hs) if hs else None)
    if op in ("bor", "bxor"):
        h1, h2 = rng(a[0])[1], rng(a[1])[1]
        if h1 is None or h2 is None:
            return (0, None)
        return (0, (1 << max(h1.bit_length(), h2.bit_length())) - 1)
    if op == "pow2":
        l, h = rng(a[0])
        return (1, None if h is None else 1 << min(h, 200))
    if op == "popcnt":
        h = rng(a[0])[1]
        return (0, h.bit_length() if h is not None else 64)
    if op == "clz":
        return (0, a[1])
    if op == "ctz":
        return (0, a[1])
    if op == "iapp":
        return (a[2], a[3]) if len(a) >= 4 else (None, None)
    if op == "fld":
        k = a[3]
        return (k[1], k[2]) if isinstance(k, tuple) and k[0] == "int" else (None, None)
    if op == "sum":
        l = rng(a[2])[0]
        return (0 if l is not None and l >= 0 else None, None)
    if op == "discr":
        return (0, a[1] - 1)
    if op == "b2i":
        return (0, 1)
    return (None, None)


def divc(t, c):
    """floor(t / c), c > 0"""
    assert c > 0
    if c == 1:
        return t
    if t.op == "ite":
        return ite(t.args[0], divc(t.args[1], c), divc(t.args[2], c))
    k, d = parts(t)
    q, r = {}, {}
    for a, x in d.items():
        if x // c:
            q[a] = x // c
        if x % c:
            r[a] = x % c
    qc, rc = k // c, k % c
    rem = from_parts(rc, r)
    lo, hi = rng(rem)
    if lo is not None and hi is not None and lo // c == hi // c:
        return from_parts(qc + lo // c, q)
    # remainders with a "bigger half" coefficient: x%c close to c is better seen as negative
    if rem.op == "div":
        return from_parts(qc, {**q, **{}}) if False else add(from_parts(qc, q), mk("div", (rem.args[0], rem.args[1] * c), "i"))
    return add(from_parts(qc, q), mk("div", (rem, c), "i"))


def modc(t, c):
    return sub(t, scale(divc(t, c), c))


def divt(a, b):
    if b.op == "int" and b.args[0] > 0:
        return divc(a, b.args[0])
    if a.op == "int" and a.args[0] == 0:
        return I(0)
    if a is b:
        return I(1)
    # exact monomial quotient
    c, d = parts(a)
    if c == 0 and b.op not in ("lin", "int"):
        q = {}
        for m, k in d.items():
            fs = list(m.args[0]) if m.op == "mul" else [m]
            if b in fs:
                fs.remove(b)
                m2 = fs[0] if len(fs) == 1 else (mk("mul", (tuple(sorted(fs)),), "i") if fs else None)
                if m2 is None:
                    q[None] = q.get(None, 0) + k
                else:
                    q[m2] = q.get(m2, 0) + k
            else:
                q = None
                break
        if q is not None:
            cc = q.pop(None, 0)
            return from_parts(cc, q)
    return mk("divt", (a, b), "i")


def cdiv(a, b):
    """ceil(a / b), b > 0"""
    if b.op == "int":
        return divc(add(a, b.args[0] - 1), b.args[0])
    d = divt(a, b)
    if d.op != "divt":
        return d
    return mk("cdiv", (a, b), "i")


def imin(a, b):
    a, b = lift(a), lift(b)
    return ite(le(a, b), a, b)


def imax(a, b):
    a, b = lift(a), lift(b)
    return ite(le(a, b), b, a)


def band(a, b):
    if a is b:
        return a
    if a.op == "int" and b.op == "int":
        return I(a.args[0] & b.args[0])
    if a.op == "int":
        a, b = b, a
    if b.op == "int":
        m = b.args[0]
        if m == 0:
            return I(0)
        if m & (m + 1) == 0:
            hi = rng(a)[1]
            lo = rng(a)[0]
            if hi is not None and hi <= m and lo is not None and lo >= 0:
                return a
            # also on negative numbers, in two's complement
            return modc(a, m + 1)
    if a.op == "ite" and a.args[1].op == "int":
        return ite(a.args[0], band(a.args[1], b), band(a.args[2], b))
    if a.id > b.id:
        a, b = b, a
    return mk("band", (a, b), "i")


def bor(a, b):
    if a is b:
        return a
    if a.op == "int" and b.op == "int":
        return I(a.args[0] | b.args[0])
    if a.op == "int" and a.args[0] == 0:
        return b
    if b.op == "int" and b.args[0] == 0:
        return a
    t = _bytejoin(a, b)
    if t is not None:
        return t
    if a.id > b.id:
        a, b = b, a
    return mk("bor", (a, b), "i")


def _bytesum(t):
    """t as a sum of bytes at distinct multiples of 256, or None"""
    c, d = parts(t)
    if c != 0 or not d:
        return None
    r = {}
    for x, k in d.items():
        if k <= 0 or k & (k - 1) or (k.bit_length() - 1) % 8:
            return None
        j = (k.bit_length() - 1) // 8
        if x.op == "at":
            bs = [x]
        elif x.op == "le" and slen(x.args[0]).op == "int" and slen(x.args[0]).args[0] <= 16:
            bs = [at(x.args[0], I(i)) for i in range(slen(x.args[0]).args[0])]
        else:
            return None
        for i, y in enumerate(bs):
            lo, hi = rng(y)
            if lo is None or lo < 0 or hi is None or hi > 255 or j + i in r:
                return None
            r[j + i] = y
    return r


def _bytejoin(a, b):
    """the union of consecutive bytes of one sequence is their little-endian value"""
    if a.op not in ("at", "le", "lin") or b.op not in ("at", "le", "lin"):
        return None
    x = _bytesum(a)
    y = _bytesum(b) if x is not None else None
    if y is None or set(x) & set(y):
        return None
    x.update(y)
    j0, n = min(x), len(x)
    if set(x) != set(range(j0, j0 + n)):
        return None
    es = [x[j0 + i] for i in range(n)]
    if any(e.op != "at" for e in es):
        return None
    q, i = es[0].args
    if not all(e.args[0] is q and e.args[1] is add(i, j) for j, e in enumerate(es)):
        return None
    return mul(lev(subseq(q, i, add(i, n))), I(1 << (8 * j0)))


def bxor(a, b):
    if a is b:
        return I(0)
    if a.op == "int" and b.op == "int":
        return I(a.args[0] ^ b.args[0])
    if a.op == "int" and a.args[0] == 0:
        return b
    if b.op == "int" and b.args[0] == 0:
        return a
    if a.id > b.id:
        a, b = b, a
    return mk("bxor", (a, b), "i")


def pow2(e):
    if e.op == "int":
        return I(1 << e.args[0])
    if e.op == "ite":
        return ite(e.args[0], pow2(e.args[1]), pow2(e.args[2]))
    return mk("pow2", (e,), "i")


def wrap(t, w):
    lo, hi = rng(t)
    if lo is not None and hi is not None and lo >= 0 and hi < (1 << w):
        return t
    return modc(t, 1 << w)


def shl(a, n, w):
    if n.op == "int":
        return wrap(scale(a, 1 << n.args[0]), w)
    return wrap(mul(a, pow2(n)), w)


def shr(a, n):
    if n.op == "int":
        return divc(a, 1 << n.args[0])
    return divt(a, pow2(n))


def popcnt(t):
    if t.op == "int":
        return I(bin(t.args[0]).count("1"))
    return mk("popcnt", (t,), "i")


def clz(t, w):
    if t.op == "int":
        return I(w - t.args[0].bit_length())
    return mk("clz", (t, w), "i")


def ctz(t, w):
    if t.op == "int":
        v = t.args[0]
        return I(w if v == 0 else (v & -v).bit_length() - 1)
    return mk("ctz", (t, w), "i")


def byteof(t, j):
    if t.op == "int":
        return I((t.args[0] >> (8 * j)) & 255)
    if t.op == "le":
        n = slen(t.args[0])
        if n.op == "int":
            return at(t.args[0], I(j)) if j < n.args[0] else I(0)
    lo, hi = rng(t)
    if lo is not None and lo >= 0 and hi is not None and hi < (1 << (8 * j)):
        return I(0)
    if j == 0 and lo is not None and lo >= 0 and hi is not None and hi < 256:
        return t
    if t.op == "byteof" and j == 0:
        return t
    return mk("byteof", (t, j), "i")


FOLDS = []  # loop bodies of summaries without a closed form


def iapp(f, args, lo=None, hi=None):
    return mk("iapp", (f, tuple(args), lo, hi), "i")


def b2i(b):
    if b is TRUE:
        return I(1)
    if b is FALSE:
        return I(0)
    return ite(b, I(1), I(0))


# ------------------------------------------------------------------ booleans
TRUE = mk("bool", (True,), "b")
FALSE = mk("bool", (False,), "b")


def B(x):
    return TRUE if x else FALSE


def bsym(name):
    return mk("bsym", (name,), "b")


def bapp(f, *args):
    return mk("bapp", (f, tuple(args)), "b")


from math import gcd


def le0(t):
    """t <= 0"""
    c, d = parts(t)
    if not d:
        return B(c <= 0)
    g = 0
    for k in d.values():
        g = gcd(g, abs(k))
    if g > 1:
        # sum g*x + c <= 0  <=>  sum x <= floor(-c/g)
        d = {a: k // g for a, k in d.items()}
        c = -((-c) // g)
        t = from_parts(c, d)
    lo, hi = rng(t)
    if hi is not None and hi <= 0:
        return TRUE
    if lo is not None and lo > 0:
        return FALSE
    if len(d) == 1:
        (a, k), = d.items()
        if a.op == "ite":
            return bite(a.args[0], le0(add(scale(a.args[1], k), c)), le0(add(scale(a.args[2], k), c)))
        if a.op == "band" and k == -1 and c == 1:
            # 1 <= x & 2^e : a bit test
            b = bit_test(a)
            if b is not None:
                return b
        if a.op == "band" and k == 1 and c == 0:
            b = bit_test(a)
            if b is not None:
                return neg(b)
        if a.op == "sum" and (c, k) in ((0, 1), (1, -1)):
            z = zero_sum(a)
            if z is not None:
                return z if k == 1 else neg(z)
    return mk("le0", (t,), "b")


def bit_test(t):
    """x & 2^e != 0 as a bit of a byte sequence"""
    x, m = t.args
    if m.op not in ("pow2",) and not (m.op == "int" and m.args[0] & (m.args[0] - 1) == 0):
        x, m = m, x
    if m.op == "pow2":
        e = m.args[0]
    elif m.op == "int" and m.args[0] > 0 and m.args[0] & (m.args[0] - 1) == 0:
        e = I(m.args[0].bit_length() - 1)
    else:
        return None
    lo, hi = rng(e)
    if lo is None or lo < 0 or hi is None or hi > 7:
        return None
    if x.op == "at" and esort(x.args[0]) == "u8":
        return bit(x.args[0], add(scale(x.args[1], 8), e))
    return None


def eq0(t):
    c, d = parts(t)
    if not d:
        return B(c == 0)
    g = 0
    for k in d.values():
        g = gcd(g, abs(k))
    if c % g:
        return FALSE
    if g > 1:
        d = {a: k // g for a, k in d.items()}
        c //= g
    first = min(d.items(), key=lambda x: x[0].id)
    if first[1] < 0:
        d = {a: -k for a, k in d.items()}
        c = -c
    t = from_parts(c, d)
    lo, hi = rng(t)
    if (lo is not None and lo > 0) or (hi is not None and hi < 0):
        return FALSE
    if len(d) == 1:
        (a, k), = d.items()
        if a.op == "ite":
            return bite(a.args[0], eq0(add(scale(a.args[1], k), c)), eq0(add(scale(a.args[2], k), c)))
        if a.op == "band" and c == 0:
            b = bit_test(a)
            if b is not None:
                return neg(b)
        if a.op == "popcnt" and c == 0:
            return eq0(a.args[0])
        if c == 0 and a.op == "sum":
            z = zero_sum(a)
            if z is not None:
                return z
    return mk("eq0", (t,), "b")


def zero_sum(a):
    """a sum of terms that are not negative vanishes when each does"""
    lo = rng(a.args[2])[0]
    if lo is None or lo < 0:
        return None
    k = isym(fresh_name("z"), 0)
    return forall(k, a.args[1], eq0(open_binder(a, k)))


def le(a, b):
    return le0(sub(lift(a), lift(b)))


def lt(a, b):
    return le0(add(sub(lift(a), lift(b)), 1))


def eq(a, b):
    """equality at any sort"""
    if a is b:
        return TRUE
    if a.sort == "i":
        return eq0(sub(a, b))
    if a.sort == "b":
        return iff(a, b)
    if a.sort == "s":
        return seqeq(a, b)
    if a.op == "ite":
        return bite(a.args[0], eq(a.args[1], b), eq(a.args[2], b))
    if b.op == "ite":
        return bite(b.args[0], eq(a, b.args[1]), eq(a, b.args[2]))
    if a.op == b.op and a.op in ("adt", "tuple", "closure", "ref"):
        if a.op == "adt" and (a.args[0], a.args[1]) != (b.args[0], b.args[1]):
            return FALSE
        fa = a.args[-1] if a.op != "ref" else (a.args[0],)
        fb = b.args[-1] if b.op != "ref" else (b.args[0],)
        if len(fa) != len(fb):
            return FALSE
        return conj([eq(x, y) for x, y in zip(fa, fb)])
    if a.id > b.id:
        a, b = b, a
    return mk("eqv", (a, b), "b")


def seqeq(a, b):
    if a is b:
        return TRUE
    la, lb = slen(a), slen(b)
    dl = sub(la, lb)
    if dl.op == "int" and dl.args[0] != 0:
        return FALSE
    if a.op == "lit" and b.op == "lit":
        return conj([eq(x, y) for x, y in zip(a.args[0], b.args[0])])
    if la.op == "int" and la.args[0] == 0:
        return eq0(lb)
    if lb.op == "int" and lb.args[0] == 0:
        return eq0(la)
    if a.id > b.id:
        a, b = b, a
    return mk("eqv", (a, b), "b")


def neg(b):
    if b is TRUE:
        return FALSE
    if b is FALSE:
        return TRUE
    if b.op == "not":
        return b.args[0]
    r = b._neg
    if r is not None:
        return r
    if b.op == "le0":
        r = le0(sub(I(1), b.args[0]))
    elif b.op == "and":
        r = disj([neg(x) for x in b.args[0]])
    elif b.op == "or":
        r = conj([neg(x) for x in b.args[0]])
    else:
        r = mk("not", (b,), "b")
    b._neg = r
    if r._neg is None:
        r._neg = b
    return r


def conj(bs):
    out = []
    seen = set()
    for b in bs:
        if b is FALSE:
            return FALSE
        if b is TRUE or b in seen:
            continue
        xs = b.args[0] if b.op == "and" else (b,)
        for x in xs:
            if x not in seen:
                seen.add(x)
                out.append(x)
    for x in out:
        if x.op != "le0" and neg(x) in seen:
            return FALSE
        if x.op == "le0" and neg(x) in seen:
            return FALSE
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return mk("and", (tuple(sorted(out)),), "b")


def disj(bs):
    out = []
    seen = set()
    for b in bs:
        if b is TRUE:
            return TRUE
        if b is FALSE or b in seen:
            continue
        xs = b.args[0] if b.op == "or" else (b,)
        for x in xs:
            if x not in seen:
                seen.add(x)
                out.append(x)
    for x in out:
        if neg(x) in seen:
            return TRUE
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    return mk("or", (tuple(sorted(out)),), "b")


def implies(a, b):
    return disj([neg(a), b])


def iff(a, b):
    if a is b:
        return TRUE
    if a is TRUE:
        return b
    if b is TRUE:
        return a
    if a is FALSE:
        return neg(b)
    if b is FALSE:
        return neg(a)
    return conj([implies(a, b), implies(b, a)])


def bite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if a is TRUE and b is FALSE:
        return c
    if a is FALSE and b is TRUE:
        return neg(c)
    return conj([implies(c, a), implies(neg(c), b)])


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if a.sort == "b":
        return bite(c, a, b)
    if c.op == "not":
        return ite(c.args[0], b, a)
    if a.op == b.op and a.op in ("adt", "tuple", "closure") and a.args[:-1] == b.args[:-1] and len(a.args[-1]) == len(b.args[-1]):
        return mk(a.op, a.args[:-1] + (tuple(ite(c, x, y) for x, y in zip(a.args[-1], b.args[-1])),), "v")
    if a.op == "ref" and b.op == "ref":
        return mk("ref", (ite(c, a.args[0], b.args[0]),), "v")
    if a.op == "ite" and a.args[0] is c:
        a = a.args[1]
    if b.op == "ite" and b.args[0] is c:
        b = b.args[2]
    return mk("ite", (c, a, b), a.sort)


# ------------------------------------------------------------------ binders
def bind(op, k, n, body, *extra, sort):
    """bind the symbol k (0 <= k < n) in body"""
    if k is not None:
        d = body.bd + 1
        fb = freebv(body)
        while d in fb:
            d += 1
        bv = mk("bv", (d,), "i")
        body = subst(body, {k: bv})
        # substitution may have rebuilt inner binders at other depths
        while body.bd >= d:
            # choose a deeper index
            d = body.bd + 1
            fb = freebv(body)
            while d in fb:
                d += 1
            body = subst(body, {bv: mk("bv", (d,), "i")})
            bv = mk("bv", (d,), "i")
    return mk(op, (d, n, body) + extra, sort)


def open_binder(t, k):
    """body of binder t with its variable replaced by k"""
    return subst(t.args[2], {mk("bv", (t.args[0],), "i"): k})


def forall(k, n, body):
    """for all 0 <= k < n: body"""
    if body is TRUE:
        return TRUE
    if n.op == "int" and n.args[0] <= 0:
        return TRUE
    if body.op == "and":
        return conj([forall(k, n, x) for x in body.args[0]])
    if k not in syms(body):
        return disj([le(n, I(0)), body])
    return bind("forall", k, n, body, sort="b")


def gsum(k, n, body):
    if body.op == "int":
        return scale(n, body.args[0])
    if k not in syms(body):
        return mul(n, body)
    if n.op == "int" and n.args[0] <= 8:
        return add(I(0), *[subst(body, {k: I(j)}) for j in range(n.args[0])])
    # split additive invariants
    c, d = parts(body)
    inv = from_parts(c, {a: x for a, x in d.items() if k not in syms(a)})
    var = {a: x for a, x in d.items() if k in syms(a)}
    out = [mul(n, inv)]
    for a, x in var.items():
        if a is k:
            out.append(scale(mk("tri", (n,), "i"), x))
        else:
            out.append(scale(bind("sum", k, n, a, sort="i"), x))
    return add(*out)


# ------------------------------------------------------------------ sequences
# seq symbols carry an element sort: 'u8', ('int',lo,hi), or ('val', tyid)
def ssym(name, es="u8"):
    return mk("ssym", (name, es), "s")


def lit(elems):
    return mk("lit", (tuple(elems),), "s")


EMPTY = lit(())


def esort(s):
    op, a = s.op, s.args
    if op == "ssym":
        return a[1]
    if op in ("enc", "leb", "flat", "bover", "setbit"):
        return "u8"
    if op in ("sub", "upd"):
        return esort(a[0])
    if op == "cat":
        for x in a[0]:
            e = esort(x)
            if e is not None:
                return e
        return None
    if op == "lit":
        return esort_of(a[0][0]) if a[0] else None
    if op == "rep":
        return esort_of(a[0])
    if op == "gen":
        return esort_of(a[2])
    if op == "ite":
        return esort(a[1]) or esort(a[2])
    if op == "sapp":
        return a[2]
    if op == "fld":
        k = a[3]
        return k[1] if isinstance(k, tuple) and k[0] == "seq" else None
    if op == "at":
        e = esort(a[0])
        return e[1] if isinstance(e, tuple) and e[0] == "seq" else None
    return None


def esort_of(v):
    if v.sort == "i":
        lo, hi = rng(v)
        if lo is not None and hi is not None and lo >= 0 and hi <= 255:
            return "u8"
        return ("int", lo, hi)
    if v.sort == "s":
        return ("seq", esort(v))
    return None


def slen(s):
    if s._len is not None:
        return s._len
    r = _slen(s)
    s._len = r
    return r


def _slen(s):
    op, a = s.op, s.args
    if op == "lit":
        return I(len(a[0]))
    if op == "cat":
        return add(*[slen(x) for x in a[0]])
    if op == "sub":
        return sub(a[2], a[1])
    if op == "rep":
        return a[1]
    if op == "leb":
        return I(a[1])
    if op in ("upd", "setbit"):
        return slen(a[0])
    if op == "bover":
        return slen(a[3])
    if op == "gen":
        return a[1]
    if op == "flat":
        k = isym(fresh_name("k"), 0)
        return gsum(k, a[1], slen(open_binder(s, k)))
    if op == "ite":
        return ite(a[0], slen(a[1]), slen(a[2]))
    if op == "enc":
        key = a[0]
        if key[0] == "F":
            return flen(key)
        return mk("len", (s,), "i")
    if op == "sapp" and len(a) > 3 and a[3] is not None:
        return a[3]
    return mk("len", (s,), "i")


def flen(key):
    """advertised fixed length of an opaque fixed-size type"""
    return isym("FLEN<%s>" % key[1], 0, (1 << 40))


def enc(key, v):
    """the encoding of value v of opaque type `key` = ('F'|'V', name)"""
    if v.op == "dec" and v.args[0] == key:
        return v.args[1]
    if v.op == "ite":
        return ite(v.args[0], enc(key, v.args[1]), enc(key, v.args[2]))
    if v.op == "ref":
        return enc(key, v.args[0])
    return mk("enc", (key, v), "s")


def dec(key, s):
    if s.op == "enc" and s.args[0] == key:
        return s.args[1]
    return mk("dec", (key, s), "v")


def valid(key, s):
    if s.op == "enc" and s.args[0] == key:
        return TRUE
    if key[0] == "F":
        d = sub(slen(s), flen(key))
        if d.op == "int" and d.args[0] != 0:
            return FALSE
    return bapp("valid", mk("ty", (key,), "v"), s)


def leb(t, n):
    if t.op == "int":
        return lit([I((t.args[0] >> (8 * j)) & 255) for j in range(n)])
    if t.op == "le" and slen(t.args[0]) is I(n):
        return t.args[0]
    if n == 1:
        return lit([byteof(t, 0)])
    # only the low 8n bits matter
    c, d = parts(t)
    m = 1 << (8 * n)
    dd = {}
    for a, k in d.items():
        if k % m == 0 and k != 0:
            continue
        dd[a] = k
    t = from_parts(c % m if not dd else c, dd)
    if not dd:
        return leb(t, n)
    return mk("leb", (t, n), "s")


def lev(s):
    """little-endian value of a byte sequence of constant length"""
    n = slen(s)
    if n.op == "int" and n.args[0] == 0:
        return I(0)
    if s.op == "leb":
        return wrap(s.args[0], 8 * s.args[1])
    if s.op == "lit":
        es = s.args[0]
        if all(e.op == "int" for e in es):
            return I(sum(e.args[0] << (8 * j) for j, e in enumerate(es)))
        # at(x,i), at(x,i+1), ...
        if es[0].op == "at":
            x, i = es[0].args
            if all(e.op == "at" and e.args[0] is x and e.args[1] is add(i, j) for j, e in enumerate(es)):
                return lev(subseq(x, i, add(i, len(es))))
        if es[0].op == "byteof" and es[0].args[1] == 0:
            x = es[0].args[0]
            if all(e.op == "byteof" and e.args[0] is x and e.args[1] == j for j, e in enumerate(es)):
                return wrap(x, 8 * len(es))
        if len(es) == 1:
            return es[0]
        # leading zero bytes at the top
        if es[-1] is I(0):
            return lev(lit(es[:-1]))
    if s.op == "cat":
        last = s.args[0][-1]
        if last.op == "rep" and last.args[0] is I(0):
            return lev(cat(s.args[0][:-1]))
        if last.op == "lit" and all(e is I(0) for e in last.args[0]):
            return lev(cat(s.args[0][:-1]))
    if s.op == "ite":
        return ite(s.args[0], lev(s.args[1]), lev(s.args[2]))
    if n is I(1):
        return at(s, I(0))
    return mk("le", (s,), "i")


def cat(ps):
    out = []
    for p in ps:
        if p.op == "cat":
            out.extend(p.args[0])
        else:
            out.append(p)
    res = []
    for p in out:
        n = slen(p)
        if n.op == "int" and n.args[0] == 0:
            continue
        if res:
            q = res[-1]
            if q.op == "lit" and p.op == "lit":
                res[-1] = lit(q.args[0] + p.args[0])
                continue
            if q.op == "sub" and p.op == "sub" and q.args[0] is p.args[0] and q.args[2] is p.args[1]:
                res[-1] = subseq(q.args[0], q.args[1], p.args[2])
                continue
            if q.op == "rep" and p.op == "rep" and q.args[0] is p.args[0]:
                res[-1] = rep(q.args[0], add(q.args[1], p.args[1]))
                continue
        res.append(p)
    if not res:
        return EMPTY
    if len(res) == 1:
        return res[0]
    return mk("cat", (tuple(res),), "s")


def rep(v, n):
    if n.op == "int" and 0 <= n.args[0] <= 16:
        return lit([v] * n.args[0])
    return mk("rep", (v, n), "s")


def gen(k, n, body):
    if n.op == "int" and 0 <= n.args[0] <= 16:
        return lit([subst(body, {k: I(j)}) for j in range(n.args[0])])
    if body.op == "at" and body.args[1].sort == "i":
        off = sub(body.args[1], k)
        if k not in syms(off) and k not in syms(body.args[0]):
            return subseq(body.args[0], off, add(off, n))
    if k not in syms(body):
        return rep(body, n)
    return bind("gen", k, n, body, sort="s")


def flat(k, n, body):
    if n.op == "int" and 0 <= n.args[0] <= 16:
        return cat([subst(body, {k: I(j)}) for j in range(n.args[0])])
    if body.op == "lit" and len(body.args[0]) == 1:
        return gen(k, n, body.args[0][0])
    return bind("flat", k, n, body, sort="s")


def subseq(s, lo, hi):
    lo, hi = lift(lo), lift(hi)
    n = slen(s)
    if lo is I(0) and hi is n:
        return s
    if lo is hi:
        return EMPTY
    op, a = s.op, s.args
    if op == "sub":
        return subseq(a[0], add(a[1], lo), add(a[1], hi))
    if op == "rep":
        return rep(a[0], sub(hi, lo))
    if op == "lit" and lo.op == "int" and hi.op == "int" and 0 <= lo.args[0] <= hi.args[0] <= len(a[0]):
        return lit(a[0][lo.args[0]:hi.args[0]])
    if op == "leb" and lo is I(0) and hi.op == "int" and 0 <= hi.args[0] <= a[1]:
        return leb(a[0], hi.args[0])
    if op == "leb" and lo.op == "int" and hi.op == "int":
        return lit([byteof(a[0], j) for j in range(lo.args[0], hi.args[0])])
    if op == "gen":
        k = isym(fresh_name("k"), 0)
        return gen(k, sub(hi, lo), open_binder(s, add(k, lo)))
    if op == "ite":
        return ite(a[0], subseq(a[1], lo, hi), subseq(a[2], lo, hi))
    if op == "cat":
        # endpoints that coincide with boundaries, syntactically
        pos = I(0)
        ps = list(a[0])
        start = None
        for i, p in enumerate(ps):
            nxt = add(pos, slen(p))
            d = sub(lo, pos)
            if d is I(0):
                start = (i, I(0), pos)
                break
            l2, h2 = rng(d)
            ln, hn = rng(sub(lo, nxt))
            if l2 is not None and l2 >= 0 and hn is not None and hn < 0:
                start = (i, d, pos)
                break
            if not (ln is not None and ln >= 0):
                break
            pos = nxt
        if start is not None:
            i, d, pos = start
            acc = []
            cur_lo = d
            while i < len(ps):
                p = ps[i]
                nxt = add(pos, slen(p))
                dh = sub(hi, nxt)
                if dh is I(0):
                    acc.append(subseq(p, cur_lo, slen(p)))
                    return cat(acc)
                if rng(dh)[0] is not None and rng(dh)[0] >= 0:
                    acc.append(subseq(p, cur_lo, slen(p)))
                    cur_lo = I(0)
                    pos = nxt
                    i += 1
                    continue
                if rng(dh)[1] is not None and rng(dh)[1] <= 0:
                    acc.append(subseq(p, cur_lo, sub(hi, pos)))
                    return cat(acc)
                break
    return mk("sub", (s, lo, hi), "s")


def at(s, i):
    i = lift(i)
    op, a = s.op, s.args
    if op == "lit" and i.op == "int" and 0 <= i.args[0] < len(a[0]):
        return a[0][i.args[0]]
    if op == "sub":
        return at(a[0], add(a[1], i))
    if op == "rep":
        return a[0]
    if op == "gen":
        return open_binder(s, i)
    if op == "leb" and i.op == "int":
        return byteof(a[0], i.args[0])
    if op == "ite":
        return ite(a[0], at(a[1], i), at(a[2], i))
    if op == "upd":
        c = eq(a[1], i)
        if c is TRUE:
            return a[2]
        if c is FALSE:
            return at(a[0], i)
        return ite(c, a[2], at(a[0], i))
    if op == "setbit":
        d = sub(divc(a[1], 8), i)
        if d.op == "int" and d.args[0] != 0:
            return at(a[0], i)
        if d is I(0):
            e = sub(a[1], scale(i, 8))
            old = at(a[0], i)
            return ite(a[2], bor(old, pow2(e)), band(old, sub(I(255), pow2(e))))
    if op == "cat":
        pos = I(0)
        for p in a[0]:
            nxt = add(pos, slen(p))
            r1, r2 = rng(sub(i, pos)), rng(sub(i, nxt))
            if r1[0] is not None and r1[0] >= 0 and r2[1] is not None and r2[1] < 0:
                return at(p, sub(i, pos))
            if r2[0] is not None and r2[0] >= 0:
                pos = nxt
                continue
            break
    es = esort(s)
    srt = "i" if es == "u8" or (isinstance(es, tuple) and es[0] == "int") else ("s" if isinstance(es, tuple) and es[0] == "seq" else ("b" if es == "bool" else "v"))
    return mk("at", (s, i), srt)


def upd(s, i, v):
    i = lift(i)
    if s.op == "lit" and i.op == "int" and 0 <= i.args[0] < len(s.args[0]):
        l = list(s.args[0])
        l[i.args[0]] = v
        return lit(l)
    if v is at(s, i):
        return s
    if s.op == "upd" and s.args[1] is i:
        return upd(s.args[0], i, v)
    # byte |= 2^e  /  byte &= !2^e
    if v.op == "bor":
        x, m = v.args
        if m is at(s, i):
            x, m = m, x
        if x is at(s, i):
            e = pow2_exp(m)
            if e is not None:
                return setbit(s, add(scale(i, 8), e), TRUE)
    if v.op == "band":
        x, m = v.args
        if m is at(s, i):
            x, m = m, x
        if x is at(s, i):
            e = pow2_exp(sub(I(255), m))
            if e is not None:
                return setbit(s, add(scale(i, 8), e), FALSE)
    if v.op == "ite":
        a, b = upd(s, i, v.args[1]), upd(s, i, v.args[2])
        if a.op == "setbit" and b.op == "setbit" and a.args[:2] == b.args[:2]:
            return setbit(s, a.args[1], ite(v.args[0], a.args[2], b.args[2]))
    return mk("upd", (s, i, v), "s")


def pow2_exp(m):
    if m.op == "pow2":
        e = m.args[0]
        lo, hi = rng(e)
        if lo is not None and lo >= 0 and hi is not None and hi <= 7:
            return e
    if m.op == "int" and m.args[0] > 0 and m.args[0] & (m.args[0] - 1) == 0 and m.args[0] < 256:
        return I(m.args[0].bit_length() - 1)
    return None


def setbit(s, i, b):
    if b is bit(s, i):
        return s
    if s.op == "setbit" and s.args[1] is i:
        return setbit(s.args[0], i, b)
    return mk("setbit", (s, i, b), "s")


def bit(s, i):
    """bit i (LSB first) of byte sequence s"""
    op, a = s.op, s.args
    if op == "sub":
        return bit(a[0], add(scale(a[1], 8), i))
    if op == "rep":
        if a[0] is I(0):
            return FALSE
        if a[0] is I(255):
            return TRUE
        if a[0].op == "int" and i.op == "int":
            return B((a[0].args[0] >> (i.args[0] % 8)) & 1)
    if op == "setbit":
        c = eq(a[1], i)
        return bite(c, a[2], bit(a[0], i))
    if op == "upd":
        q = divc(i, 8)
        c = eq(a[1], q)
        if c is FALSE:
            return bit(a[0], i)
        if c is TRUE:
            return bitof(a[2], sub(i, scale(q, 8)))
        return bite(c, bitof(a[2], sub(i, scale(q, 8))), bit(a[0], i))
    if op == "bover":
        # args: d, cnt, body, s0, lo
        j = sub(i, a[4])
        inr = conj([le(I(0), j), lt(j, a[1])])
        if inr is FALSE:
            return bit(a[3], i)
        return bite(inr, open_binder(s, j), bit(a[3], i))
    if op == "lit":
        q = divc(i, 8)
        if q.op == "int" and 0 <= q.args[0] < len(a[0]):
            return bitof(a[0][q.args[0]], sub(i, scale(q, 8)))
        if all(e is I(0) for e in a[0]) and a[0]:
            return FALSE
    if op == "ite":
        return bite(a[0], bit(a[1], i), bit(a[2], i))
    if op == "gen":
        q = divc(i, 8)
        return bitof(open_binder(s, q), sub(i, scale(q, 8)))
    if op == "cat":
        q = divc(i, 8)
        pos = I(0)
        for p in a[0]:
            nxt = add(pos, slen(p))
            r1, r2 = rng(sub(q, pos)), rng(sub(q, nxt))
            if r1[0] is not None and r1[0] >= 0 and r2[1] is not None and r2[1] < 0:
                return bit(p, sub(i, scale(pos, 8)))
            if r2[0] is not None and r2[0] >= 0:
                pos = nxt
                continue
            break
    return mk("bit", (s, i), "b")


def bitof(v, e):
    """bit e of the byte v"""
    if v.op == "int" and e.op == "int":
        return B((v.args[0] >> e.args[0]) & 1)
    if v.op == "int" and v.args[0] == 0:
        return FALSE
    if v.op == "int" and v.args[0] == 255:
        return TRUE
    if v.op == "at" and esort(v.args[0]) == "u8":
        return bit(v.args[0], add(scale(v.args[1], 8), e))
    if v.op == "band":
        return conj([bitof(v.args[0], e), bitof(v.args[1], e)])
    if v.op == "bor":
        return disj([bitof(v.args[0], e), bitof(v.args[1], e)])
    if v.op == "bxor":
        x, y = bitof(v.args[0], e), bitof(v.args[1], e)
        return neg(iff(x, y))
    if v.op == "ite":
        return bite(v.args[0], bitof(v.args[1], e), bitof(v.args[2], e))
    if v.op == "pow2":
        return eq(v.args[0], e)
    if v.op == "lin":
        # 255 - x
        c, d = parts(v)
        if c == 255 and len(d) == 1:
            (x, k), = d.items()
            if k == -1:
                return neg(bitof(x, e))
        # x mod 2^m, written x - 2^m (x div 2^m)
        if c == 0 and len(d) == 2 and e.op == "int":
            for y, k in d.items():
                m = -k
                if y.op == "div" and y.args[1] == m and m & (m - 1) == 0 and d.get(y.args[0]) == 1:
                    return bitof(y.args[0], e) if (1 << e.args[0]) < m else FALSE
    if v.op == "div" and e.op == "int" and v.args[1] & (v.args[1] - 1) == 0 and rng(v.args[0])[0] is not None and rng(v.args[0])[0] >= 0:
        j = e.args[0] + v.args[1].bit_length() - 1
        return bitof(v.args[0], I(j)) if j < 8 or not (rng(v.args[0])[1] or 256) <= 255 else FALSE
    return mk("bitof", (v, e), "b")


def bover(s0, lo, k, cnt, body):
    """s0 with bits lo .. lo+cnt replaced by body(k)"""
    if cnt is I(0):
        return s0
    return bind("bover", k, cnt, body, s0, lo, sort="s")


def sapp(f, args, es="u8", ln=None):
    return mk("sapp", (f, tuple(args), es, ln), "s")


# ------------------------------------------------------------------ values
def vsym(name, ty=None):
    return mk("vsym", (name, ty), "v")


def adt(ty, variant, fields):
    return mk("adt", (ty, variant, tuple(fields)), "v")


def tup(fields):
    return mk("tuple", (tuple(fields),), "v")


UNIT = tup(())


def ref(v):
    return mk("ref", (v,), "v")


def vapp(f, args):
    return mk("vapp", (f, tuple(args)), "v")


def fld(v, variant, i, kind):
    """field i (of variant) of a value; kind: sort description of the result"""
    if v.op == "adt":
        return v.args[2][i]
    if v.op in ("tuple",):
        return v.args[0][i]
    if v.op == "closure":
        return v.args[1][i]
    if v.op == "ite":
        return ite(v.args[0], fld(v.args[1], variant, i, kind), fld(v.args[2], variant, i, kind))
    srt = kind if isinstance(kind, str) else kind[0]
    srt = {"int": "i", "seq": "s", "bool": "b", "val": "v"}[srt]
    return mk("fld", (v, variant, i, kind), srt)


def discr(v, n):
    """index of the variant of v, a value of an enum with n variants"""
    if n == 1:
        return I(0)
    if v.op == "adt":
        return I(v.args[1])
    if v.op == "ite":
        return ite(v.args[0], discr(v.args[1], n), discr(v.args[2], n))
    return mk("discr", (v, n), "i")


def isvar(v, variant, n):
    """v is of enum variant `variant` of n"""
    if v.op == "ite":
        return bite(v.args[0], isvar(v.args[1], variant, n), isvar(v.args[2], variant, n))
    if n == 2 and variant == 1:
        return neg(eq0(discr(v, n)))
    return eq0(sub(discr(v, n), I(variant)))


# ------------------------------------------------------------------ traversal
_NOSYM = frozenset()


def syms(t):
    if t._syms is not None:
        return t._syms
    if t.op in ("isym", "bsym", "ssym", "vsym", "bv"):
        r = frozenset((t,))
    else:
        acc = set()
        for a in t.args:
            if isinstance(a, Term):
                acc |= syms(a)
            elif isinstance(a, tuple):
                for b in a:
                    if isinstance(b, Term):
                        acc |= syms(b)
                    elif isinstance(b, tuple):
                        for c in b:
                            if isinstance(c, Term):
                                acc |= syms(c)
        r = frozenset(acc) if acc else _NOSYM
    t._syms = r
    return r


_fbv = {}


def freebv(t):
    """depths of the bound variables that occur free in t"""
    if t.mb == 0:
        return _NOSYM
    r = _fbv.get(t)
    if r is None:
        if t.op == "bv":
            r = frozenset((t.args[0],))
        elif t.op in BINDERS:
            a = t.args
            acc = set(freebv(a[2])) - {a[0]}
            acc |= freebv(a[1])
            for x in a[3:]:
                if isinstance(x, Term):
                    acc |= freebv(x)
            r = frozenset(acc)
        else:
            acc = set()
            for a in t.args:
                if isinstance(a, Term):
                    acc |= freebv(a)
                elif isinstance(a, tuple):
                    for b in a:
                        if isinstance(b, Term):
                            acc |= freebv(b)
                        elif isinstance(b, tuple):
                            for c in b:
                                if isinstance(c, Term):
                                    acc |= freebv(c)
            r = frozenset(acc)
        _fbv[t] = r
    return r


def subterms(t, seen=None):
    seen = set() if seen is None else seen
    st = [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        for a in x.args:
            if isinstance(a, Term):
                st.append(a)
            elif isinstance(a, tuple):
                for b in a:
                    if isinstance(b, Term):
                        st.append(b)
                    elif isinstance(b, tuple):
                        for c in b:
                            if isinstance(c, Term):
                                st.append(c)
    return seen


def subst(t, m, memo=None):
    """simultaneous substitution of symbols (or any atoms) by terms, rebuilding normal forms"""
    if not m:
        return t
    if memo is None:
        memo = {}
    atoms_only = all(k.op in ("isym", "bsym", "ssym", "vsym", "bv") for k in m)
    keys = frozenset(m) if atoms_only else None

    def go(t):
        r = m.get(t)
        if r is not None:
            return r
        if keys is not None and not (syms(t) & keys):
            return t
        r = memo.get(t)
        if r is not None:
            return r
        r = rebuild(t, go)
        memo[t] = r
        return r

    return go(t)


def rebuild(t, go):
    op, a = t.op, t.args
    if op in ("int", "isym", "bool", "bsym", "ssym", "vsym", "bv", "ty", "fn", "mref", "str", "opaque"):
        if op == "mref":
            return mk("mref", (a[0], tuple(rebuild_path(p, go) for p in a[1])), "v")
        return t
    if op == "lin":
        return add(I(a[0]), *[scale(go(x), k) for x, k in a[1]])
    if op == "mul":
        r = I(1)
        for x in a[0]:
            r = mul(r, go(x))
        return r
    if op == "div":
        return divc(go(a[0]), a[1])
    if op == "divt":
        return divt(go(a[0]), go(a[1]))
    if op == "cdiv":
        return cdiv(go(a[0]), go(a[1]))
    if op == "band":
        return band(go(a[0]), go(a[1]))
    if op == "bor":
        return bor(go(a[0]), go(a[1]))
    if op == "bxor":
        return bxor(go(a[0]), go(a[1]))
    if op == "pow2":
        return pow2(go(a[0]))
    if op == "popcnt":
        return popcnt(go(a[0]))
    if op == "clz":
        return clz(go(a[0]), a[1])
    if op == "ctz":
        return ctz(go(a[0]), a[1])
    if op == "byteof":
        return byteof(go(a[0]), a[1])
    if op == "iapp":
        return iapp(a[0], [go(x) for x in a[1]], a[2], a[3])
    if op == "tri":
        return mk("tri", (go(a[0]),), "i")
    if op == "le0":
        return le0(go(a[0]))
    if op == "eq0":
        return eq0(go(a[0]))
    if op == "eqv":
        return eq(go(a[0]), go(a[1]))
    if op == "not":
        return neg(go(a[0]))
    if op == "and":
        return conj([go(x) for x in a[0]])
    if op == "or":
        return disj([go(x) for x in a[0]])
    if op == "bapp":
        if a[0] == "valid":
            return valid(a[1][0].args[0], go(a[1][1]))
        return bapp(a[0], *[go(x) for x in a[1]])
    if op == "ite":
        c = go(a[0])
        if c is TRUE:
            return go(a[1])
        if c is FALSE:
            return go(a[2])
        return ite(c, go(a[1]), go(a[2]))
    if op == "len":
        return slen(go(a[0]))
    if op == "le":
        return lev(go(a[0]))
    if op == "at":
        return at(go(a[0]), go(a[1]))
    if op == "bit":
        return bit(go(a[0]), go(a[1]))
    if op == "bitof":
        return bitof(go(a[0]), go(a[1]))
    if op == "lit":
        return lit([go(x) for x in a[0]])
    if op == "cat":
        return cat([go(x) for x in a[0]])
    if op == "sub":
        return subseq(go(a[0]), go(a[1]), go(a[2]))
    if op == "rep":
        return rep(go(a[0]), go(a[1]))
    if op == "leb":
        return leb(go(a[0]), a[1])
    if op == "upd":
        return upd(go(a[0]), go(a[1]), go(a[2]))
    if op == "setbit":
        return setbit(go(a[0]), go(a[1]), go(a[2]))
    if op == "enc":
        return enc(a[0], go(a[1]))
    if op == "dec":
        return dec(a[0], go(a[1]))
    if op == "sapp":
        return sapp(a[0], [go(x) for x in a[1]], a[2], go(a[3]) if a[3] is not None else None)
    if op == "adt":
        return adt(a[0], a[1], [go(x) for x in a[2]])
    if op == "tuple":
        return tup([go(x) for x in a[0]])
    if op == "closure":
        return mk("closure", (a[0], tuple(go(x) for x in a[1])), "v")
    if op == "ref":
        return ref(go(a[0]))
    if op == "vapp":
        return vapp(a[0], [go(x) for x in a[1]])
    if op == "fld":
        return fld(go(a[0]), a[1], a[2], a[3])
    if op == "discr":
        return discr(go(a[0]), a[1])
    if op in BINDERS:
        k = isym(fresh_name("k"), 0)
        body = go(open_binder(t, k))
        n = go(a[1])
        if op == "forall":
            return forall(k, n, body)
        if op == "sum":
            return gsum(k, n, body)
        if op == "gen":
            return gen(k, n, body)
        if op == "flat":
            return flat(k, n, body)
        if op == "bover":
            return bover(go(a[3]), go(a[4]), k, n, body)
        if op == "lastm":
            return bind("lastm", k, n, body, *[go(x) for x in a[3:]], sort=t.sort)
        if op == "first":
            return bind("first", k, n, body, sort=t.sort)
    raise NotImplementedError(op)


def rebuild_path(p, go):
    if isinstance(p, tuple):
        return tuple(go(x) if isinstance(x, Term) else x for x in p)
    return p


# ------------------------------------------------------------------ printing
def show(t, d=0):
    if d > 14:
        return "..."
    op, a = t.op, t.args
    S = lambda x: show(x, d + 1)
    if op == "int":
        return str(a[0])
    if op in ("isym", "bsym", "ssym", "vsym"):
        return a[0]
    if op == "bool":
        return "true" if a[0] else "false"
    if op == "bv":
        return "k%d" % a[0]
    if op == "lin":
        out = []
        for x, k in a[1]:
            out.append(("%+d*" % k if abs(k) != 1 else ("+" if k > 0 else "-")) + S(x))
        s = " ".join(out)
        if a[0]:
            s += " %+d" % a[0]
        return "(" + s.lstrip("+") + ")"
    if op == "mul":
        return "*".join(S(x) for x in a[0])
    if op == "div":
        return "(%s / %d)" % (S(a[0]), a[1])
    if op == "le0":
        c, dd = parts(a[0])
        pos = from_parts(max(c, 0), {x: k for x, k in dd.items() if k > 0})
        ng = from_parts(max(-c, 0), {x: -k for x, k in dd.items() if k < 0})
        return "%s <= %s" % (S(pos), S(ng))
    if op == "eq0":
        c, dd = parts(a[0])
        pos = from_parts(max(c, 0), {x: k for x, k in dd.items() if k > 0})
        ng = from_parts(max(-c, 0), {x: -k for x, k in dd.items() if k < 0})
        return "%s == %s" % (S(pos), S(ng))
    if op == "eqv":
        return "%s == %s" % (S(a[0]), S(a[1]))
    if op == "not":
        return "!(%s)" % S(a[0])
    if op in ("and", "or"):
        return "(" + (" && " if op == "and" else " || ").join(S(x) for x in a[0]) + ")"
    if op == "ite":
        return "(%s ? %s : %s)" % (S(a[0]), S(a[1]), S(a[2]))
    if op == "sub":
        return "%s[%s..%s]" % (S(a[0]), S(a[1]), S(a[2]))
    if op == "at":
        return "%s[%s]" % (S(a[0]), S(a[1]))
    if op == "cat":
        return " ++ ".join(S(x) for x in a[0])
    if op == "lit":
        return "[" + ", ".join(S(x) for x in a[0]) + "]"
    if op == "len":
        return "len(%s)" % S(a[0])
    if op == "enc":
        return "ENC<%s>(%s)" % (a[0][1], S(a[1]))
    if op == "dec":
        return "DEC<%s>(%s)" % (a[0][1], S(a[1]))
    if op == "bapp" and a[0] == "valid":
        return "VALID<%s>(%s)" % (a[1][0].args[0][1], S(a[1][1]))
    if op == "ty":
        return str(a[0][1])
    if op in BINDERS:
        return "%s(k%d<%s: %s%s)" % (op, a[0], S(a[1]), S(a[2]), "".join(", " + S(x) for x in a[3:]))
    if op == "adt":
        return "%s#%d(%s)" % (str(a[0]).split("::")[-1], a[1], ", ".join(S(x) for x in a[2]))
    if op == "tuple":
        return "(" + ", ".join(S(x) for x in a[0]) + ")"
    if op == "ref":
        return "&" + S(a[0])
    if op == "fld":
        return "%s.%s%s" % (S(a[0]), "" if a[1] is None else "%s:" % a[1], a[2])

    def anyshow(x):
        if isinstance(x, Term):
            return S(x)
        if isinstance(x, tuple):
            return "(" + ", ".join(anyshow(y) for y in x) + ")"
        return str(x)

    return "%s(%s)" % (op, ", ".join(anyshow(x) for x in a))
