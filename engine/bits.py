"""Bitfields: every public operation against a sequence of booleans, decided on bits.

A bitfield value is (bytes, len) with the invariant: len within the bound of its type, exactly max(1, ceil(len / 8)) bytes,
and no bit set at or above len.  Every operation is specified on the bits of its operands; the invariant is assumed for the
operands and an obligation for every result (induction over histories)."""
import random
from entries import *
import bitprove

BF = "ssz::bitfield::Bitfield"
PH = "core::marker::PhantomData"


# ------------------------------------------------------------------ values
def fields(v):
    v = strip(v)
    if v.op == "adt" and v.args[0] == BF:
        return v.args[2][0], v.args[2][1]
    raise bitprove.Unrep()


def kind_of(P, t):
    """kind of a Bitfield type: bl | bv | bd, and the name of the parameter N"""
    a = P.types[P.targ(P.types[t]["args"][0])]
    n = a["path"].split("::")[-1]
    if n == "Dynamic":
        return "bd", None
    p = P.types[P.targ(a["args"][0])]
    return {"Variable": "bl", "Fixed": "bv"}[n], p.get("n")


def need(n):
    """bytes of a bitfield of n bits"""
    return imax(I(1), divc(add(n, 7), 8))


def k_(n="j"):
    return isym(fresh_name(n), 0)


def allbits(n, body):
    k = k_()
    return forall(k, n, body(k))


def exact(b, n):
    """minimal length, no bit at or above n"""
    L = scale(slen(b), 8)
    return conj([eq(slen(b), need(n)), allbits(sub(L, n), lambda j: neg(bit(b, add(n, j))))])


def bound(kind, n, N):
    if kind == "bl":
        return le(n, N)
    if kind == "bv":
        return eq(n, N)
    return conj([le(I(8), n), eq(modc(n, 8), I(0))])


def inv(kind, v, N=None):
    b, n = fields(v)
    return conj([bound(kind, n, N), exact(b, n)])


def same(b, n, spec):
    return allbits(n, lambda j: iff(bit(b, j), spec(j)))


def at_or_false(x, j):
    """bit j of x, false beyond its length"""
    b, n = fields(x)
    return conj([lt(j, n), bit(b, j)])


# ------------------------------------------------------------------ inputs of the witness sweep
NS = [0, 1, 2, 3, 5, 7, 8, 9, 11, 15, 16, 17, 23, 24, 25, 31, 32, 33, 40, 63, 64, 65]


RARE = [.05]  # how often a length far from the usual ones is tried; more when there is something to find
MANY = 4300


def big(r, cs):
    """a bit length near a constant of the analysed code, or None"""
    if r.random() >= RARE[0]:
        return None
    c = r.choice([x for x in cs if 3 <= x <= MANY] + [32, 33, 129, 256])
    n = c if r.random() < .4 else 8 * c
    n += r.choice([0, 0, -1, 1, 8, -8, r.randrange(-8, 9), r.randrange(9)])
    return n if 0 <= n <= MANY else None


def mkbits(bs):
    n = len(bs)
    out = [0] * max(1, (n + 7) // 8)
    for i, b in enumerate(bs):
        out[i // 8] |= int(bool(b)) << (i % 8)
    return ("adt", BF, 0, (tuple(out), n, ("adt", PH, 0, ())))


def unbits(v):
    b, n = v[3][0], v[3][1]
    return [bool((b[i // 8] >> (i % 8)) & 1) for i in range(n)]


def k_bits(kind, N="N"):
    def clamp(n, ts):
        if kind == "bl":
            return max(0, min(n, ts.get("N:" + N, 0)))
        if kind == "bv":
            return ts.get("N:" + N, 0)
        return max(8, n // 8 * 8)

    def gen(r, cs, ts):
        m = ts.get("N:" + N, 40)
        n = clamp(r.choice([m, m, m - 1, m - 8, r.randrange(m + 1), r.choice(NS)]), ts)
        y = big(r, cs)
        if y is not None:
            n = clamp(y, ts)
        p = r.choice([0, .1, .5, .9, 1])
        bs = [r.random() < p for _ in range(n)]
        if n and r.random() < .3:
            bs[-1] = True
        if n and r.random() < .2:
            bs[r.randrange(n)] = True
        return mkbits(bs)

    def mut(v, r, cs, ts):
        bs = unbits(v)
        x = r.random()
        if bs and x < .6:
            i = r.randrange(len(bs))
            bs[i] = not bs[i]
        elif x < .9:
            n = clamp(len(bs) + r.choice([-8, -1, 1, 8, r.randrange(-9, 10)]), ts)
            bs = (bs + [r.random() < .5] * max(0, n - len(bs)))[:n]
        else:
            return gen(r, cs, ts)
        n = clamp(len(bs), ts)
        bs = (bs + [False] * max(0, n - len(bs)))[:n]
        return mkbits(bs)
    return Kind(gen, mut)


def k_raw(kind=None, N="N"):
    """byte strings near the valid ones"""
    def gen(r, cs, ts):
        m = ts.get("N:" + N, 24)
        need_ = max(1, (m + 7) // 8)
        n = r.choice([0, 1, 2, 3, need_, need_, need_ + 1, m // 8 + 1, m // 8 + 1, max(0, need_ - 1), r.randrange(8)])
        y = big(r, cs)
        if y is not None:
            n = (y + 7) // 8
        x = r.random()
        if x < .25:
            b = [0] * n
        else:
            b = [r.choice([0, 255, r.randrange(256)]) for _ in range(n)]
        if n:
            y = r.random()
            if y < .5:
                b[-1] = r.choice([0, 1, 1 << (m % 8), (1 << (m % 8)) - 1, 1 << ((m + 1) % 8), (1 << (m % 8)) | r.randrange(256), r.randrange(1, 256)]) & 255
            elif y < .7:
                b[-1] &= (1 << (m % 8)) - 1 if m % 8 else 255
        return tuple(b)

    def mut(v, r, cs, ts):
        b = list(v)
        x = r.random()
        if b and x < .5:
            i = r.randrange(len(b))
            b[i] ^= 1 << r.randrange(8)
        elif b and x < .65:
            b.pop()
        elif x < .8:
            b.append(r.choice([0, 1, 255, 128]))
        elif b and x < .9:
            b[-1] = r.choice([0, 1, 2, 128, 255, 1 << (ts.get("N:" + N, 0) % 8)])
        else:
            return gen(r, cs, ts)
        return tuple(b[:MANY // 8 + 8])
    return Kind(gen, mut)


def k_idx():
    def gen(r, cs, ts):
        m = ts.get("N:N", 40)
        y = big(r, cs)
        if y is not None:
            return y
        return max(0, r.choice([0, 1, 7, 8, 9, 15, 16, m, m - 1, m + 1, m - 8, m // 8 * 8, m // 8 * 8 - 1, r.randrange(m + 9), USZ, 1 << 63]))

    def mut(v, r, cs, ts):
        return max(0, min(USZ, r.choice([v + 1, v - 1, v + 8, v - 8, r.randrange(70)])))
    return Kind(gen, mut)


# ------------------------------------------------------------------ entries
no_panic = ("no panic", lambda f, s, o: ((), FALSE) if o[0] == "panic" else None)


class BEntry(Entry):
    """an operation; `kinds` gives the case split of each argument: bl/bv/bd, raw (decoder input) or None"""

    def __init__(self, name, root, rel, kinds, N=True, M=False, res=False, **kw):
        args = []
        for k in kinds:
            if k in ("bl", "bv", "bd"):
                args.append(k_bits(k))
            elif k in ("raw", "text", "unstr"):
                args.append({"raw": k_raw, "text": k_text, "unstr": k_unstr}[k]())
            else:
                args.append(k if isinstance(k, Kind) else k_idx())
        consts = dict(kw.pop("consts", {}))
        if N:
            consts["N"] = NS
        if M:
            consts["M"] = NS
        self.kinds, self.N, self.M = [k if isinstance(k, str) else None for k in kinds], N, M
        Entry.__init__(self, name, root, rel, args, consts=consts, **kw)
        if not any(l == "no panic" for l, _ in self.rel):
            self.rel = list(self.rel) + [no_panic]
        # conditions the proofs treat as opaque propositions
        self.atoms = None

    def tsyms(self, r, cs=()):
        ts = Entry.tsyms(self, r, cs)
        for k in ts:
            if k in ("N:N", "N:M"):
                y = big(r, cs)
                if y is not None:
                    ts[k] = y
        return ts

    # the general summary, for the sweep
    def fun(self, an):
        f = Entry.fun(self, an)
        if not hasattr(f, "inv"):
            f.inv = list(bitfield_invs(f))
        return f

    def goals(self, fun, pi):
        s, o = fun.res[pi]
        out = []
        for label, g in self.rel:
            try:
                x = g(fun, s, o)
            except bitprove.Unrep:
                out.append((label, [], None))
                continue
            if x is None:
                continue
            for a, b in (x if isinstance(x, list) else [x]):
                out.append((label, list(a), b))
        return out

    def check(self, an, ts, args, stat):
        fun = self.fun(an)
        if fun.broken:
            return
        sym = dict(ts)
        try:
            for t, v in zip(fun.args, args):
                bind_value(t, v, sym)
            if not all(ev(f, Env(sym)) for f in fun.inv):
                return
            outs = apply(fun.summ, Env(sym), kmax=80)
        except (Top, Undef):
            stat.unknown += 1
            return
        cache = self.__dict__.setdefault("_goals", {})
        if not outs:
            stat.unknown += 1
        for o, post, pi, e in outs:
            if o[0] == "unk":
                stat.unknown += 1
                continue
            gs = cache.get((id(fun), pi))
            if gs is None:
                gs = cache[(id(fun), pi)] = self.goals(fun, pi)
            for label, pre, g in gs:
                if g is None:
                    stat.unknown += 1
                    continue
                try:
                    if all(ev(p, e) for p in pre) and not ev(g, e):
                        raise Found("panics" if label == "no panic" else "%s does not hold" % label, fun, pi,
                                    "arguments %s%s%s" % (", ".join(fmtb(a) for a in args), (" with %s" % ts) if ts else "", self.result(o, post, e)))
                except (Top, Undef):
                    stat.unknown += 1
            stat.evals += 1

    def result(self, o, post, e):
        try:
            r = " gives " + (fmtb(ev(o[1], e)) if o[0] == "ret" else "panic %s" % (o[1:],))
            for c, p in sorted(post.items()):
                if p is not None:
                    r += ", then argument %d is %s" % (c[1], fmtb(ev(p, e)))
            return r
        except (Top, Undef):
            return ""

    # proofs: one summary per residue class of the lengths
    def cases(self):
        """[(label, params, fix, facts)]"""
        Ns = [None]
        if "bv" in self.kinds or (self.N and self.kinds == [] or "rawN" in self.kinds):
            pass
        out = [("", {}, {}, [])]

        def times(out, alts):
            return [(l + " " + l2 if l else l2, {**p, **p2}, {**f, **f2}, a + a2) for l, p, f, a in out for l2, p2, f2, a2 in alts]
        if self.byN():
            out = times(out, [("N=%s" % l, {"const N": n}, {}, fs) for l, n, L, fs in lengths("qN")])
        if self.M:
            out = times(out, [("M=%s" % l, {"const M": n}, {}, fs) for l, n, L, fs in lengths("qM")])
        for i, k in enumerate(self.kinds):
            if k in ("bl", "bd"):
                alts = []
                for l, n, L, fs in lengths("q%d" % i):
                    if k == "bd" and l != "8q":
                        continue
                    alts.append(("len%d=%s" % (i, l), {}, {i: (n, L)}, fs))
                out = times(out, alts)
            elif k == "raw" and not self.byN():
                out = times(out, raws(i))
            elif k == "text":
                out = times(out, texts(i, self.byN()))
            elif k == "unstr":
                out = times(out, unstrs(i, self.byN()))
        return out

    def byN(self):
        return self.N and ("bv" in self.kinds or self.root.split("::")[1].startswith("bv") or "Nres" in self.__dict__)

    def obligations(self, an, budget=400):
        out = []
        for label, params, fix, facts in self.cases():
            out += self.case(an, label, params, fix, facts)
        return out

    def case(self, an, label, params, fix, facts):
        fun = BFun(an, self.root, {**self.params, **params}, self.no_overflow, fix, facts)
        name = self.name + (" [%s]" % label if label else "")
        if fun.broken:
            return [Res(name, "unknown", fun.broken, fun.root)]
        out = []
        gen = Entry.fun(self, an)
        for i, (s, o) in enumerate(fun.res):
            w = where_of(s, fun)
            fs = s.facts.list
            if bitprove.prove(fs, FALSE, quick=True):
                if o[0] == "panic":
                    out.append(Res(name + ": no panic", "proved"))
                continue
            if o[0] == "ret" and len(self.rel) == 1 and self.rel[0] is no_panic:
                out.append(Res(name + ": returns", "proved"))
            if o[0] == "unk":
                if not bitprove.prove(fs, FALSE):
                    out.append(Res(name, "unknown", o[1], w, None, None))
                continue
            for lab, pre, g in self.goals(fun, i):
                if g is None:
                    out.append(Res("%s: %s" % (name, lab), "unknown", "value not represented", (None, w)))
                    continue
                if self.atoms:
                    m = self.atoms(fun)
                    ok_ = g is TRUE or bitprove.prove([subst(x, m) for x in fs + pre], subst(g, m))
                else:
                    ok_ = g is TRUE or bitprove.prove(fs + pre, g)
                out.append(Res("%s: %s" % (name, lab), "proved" if ok_ else "failed", None if ok_ else show(g)[:300],
                               (o[1:] if o[0] == "panic" else None, w), None, None))
        return out

    def confirm(self, an, failed, seeds, nsweep, secs, stat):
        RARE[0] = .4 if failed else .05
        try:
            for sd in seeds:
                for ts, args in self.sweep(an, sd, nsweep * (4 if failed else 1), stat):
                    self.check(an, ts, args, stat)
            if failed:
                self.search(an, seeds[0], secs, stat)
        except Found as f:
            return f
        return None

    def search(self, an, seed, secs, stat):
        """search members of every partition of the general summary"""
        fun = self.fun(an)
        t0 = time.time()
        for pi in range(len(fun.res)):
            if time.time() - t0 > 4 * secs:
                break
            self.guided(an, Res(self.name, "failed", None, None, pi, fun), seed, max(1, secs / 4), stat)


def fmtb(v):
    if isinstance(v, tuple) and len(v) == 4 and v[0] == "adt" and v[1] == BF:
        return "bits[len %d: 0x%s]" % (v[3][1], bytes(v[3][0]).hex())
    if isinstance(v, tuple) and len(v) == 4 and v[0] == "adt" and len(v[3]) == 1:
        return "%s#%d(%s)" % (v[1].split("::")[-1], v[2], fmtb(v[3][0]))
    return fmt(v)


def lengths(name):
    """residue classes of a bit length: (label, bits, bytes, facts)"""
    q = isym(name, 0, 1 << 44)
    out = [("0", I(0), I(1), []), ("8q", scale(q, 8), q, [le(I(1), q)])]
    for r in range(1, 8):
        out.append(("8q+%d" % r, add(scale(q, 8), r), add(q, 1), []))
    return out


def raws(i):
    """decoder input: empty, last byte zero, or the position of its highest set bit"""
    q = isym("q%d" % i, 0, 1 << 44)
    out = [("in%d=empty" % i, {}, {i: ("raw", I(0), None)}, [])]
    out.append(("in%d=..00" % i, {}, {i: ("raw", add(q, 1), -1)}, []))
    for r in range(8):
        out.append(("in%d=..top%d" % (i, r), {}, {i: ("raw", add(q, 1), r)}, []))
    return out


def texts(i, byN):
    """text: shorter than the prefix, odd, or the hex of a decoder input"""
    q = isym("q%d" % i, 0, 1 << 44)
    out = [("in%d=%d" % (i, n), {}, {i: ("text", I(n), None)}, []) for n in (0, 1)]
    out.append(("in%d=odd" % i, {}, {i: ("text", add(scale(q, 2), 3), None)}, []))
    if byN:
        return out + [("in%d=even" % i, {}, {i: ("text", add(scale(q, 2), 2), None)}, [])]
    out.append(("in%d=0x" % i, {}, {i: ("text", I(2), None)}, []))
    for r in range(-1, 8):
        out.append(("in%d=..%s" % (i, "00" if r < 0 else "top%d" % r), {}, {i: ("text", add(scale(q, 2), 4), r)}, []))
    return out


def unstrs(i, byN):
    out = [("in%d short" % i, {}, {i: ("unstr", None, None)}, [])]
    if byN:
        return out + [("in%d long" % i, {}, {i: ("unstr", "need", None)}, [])]
    for a in ("rand", "N", "rest"):
        for r in ("none",) + tuple(range(-1, 8)):
            out.append(("in%d %s top %s" % (i, a, r), {}, {i: ("unstr", a, r)}, []))
    return out


def topfacts(b, q, top):
    """the byte at q of b has its highest set bit at top (-1: is zero)"""
    fs = [neg(bit(b, add(scale(q, 8), e))) for e in range(top + 1, 8)]
    if top >= 0:
        return fs + [bit(b, add(scale(q, 8), top)), eq(clz(at(b, q), 8), I(7 - top))]
    return fs + [eq(at(b, q), I(0))]


def bitfield_invs(fun):
    P = fun.ex.P
    for name, t in fun.ex.bitfields:
        kind, n = kind_of(P, t)
        N = fun.ex.cparam(n) if n else None
        b, ln = ssym(name + ".bytes", "u8"), None
        for a in fun.args:
            for x in subterms(strip(a)):
                if x.op == "adt" and x.args[0] == BF and x.args[2][0].op == "ssym" and x.args[2][0].args[0] == name + ".bytes":
                    yield inv(kind, x, N)


class BFun(Fun):
    def __init__(self, an, root, params, no_overflow, fix, facts):
        self.fix, self.facts0 = fix, facts
        Fun.__init__(self, an, root, params, no_overflow)

    def arg(self, ex, i, t, name):
        P = ex.P
        ty = P.types[t]
        f = self.fix.get(i)
        base = t
        while P.types[base]["k"] == "ref":
            base = P.types[base]["e"]
        bty = P.types[base]
        v = None
        if bty["k"] == "adt" and bty["path"] == BF:
            kind, n = kind_of(P, base)
            N = ex.cparam(n) if n else None
            if kind == "bv":
                ln, L = N, bytelen(N)
            else:
                ln, L = f
            b = sapp(name + ".bytes", (), "u8", L)
            v = adt(BF, 0, (b, ln, adt(PH, 0, ())))
            fs = [] if kind == "bv" else [bound(kind, ln, N)]
            fs.append(allbits(sub(scale(L, 8), ln), lambda j: neg(bit(b, add(ln, j)))))
            self.facts0 = self.facts0 + fs
        elif f is not None and f[0] == "raw":
            _, L, top = f
            b = sapp(name, (), "u8", L) if L is not I(0) else EMPTY
            if top is not None:
                self.facts0 = self.facts0 + topfacts(b, sub(L, 1), top)
            v = b
        elif f is not None and f[0] == "is":
            v = f[1]
        elif f is not None and f[0] == "text":
            _, L, top = f
            v = sapp(name, (), "u8", L) if L is not I(0) else EMPTY
            if top is not None:
                import natives as Nt
                D = Nt.unhexed(subseq(v, I(2), L))
                self.facts0 = self.facts0 + topfacts(D, sub(slen(D), 1), top)
        elif f is not None and f[0] == "unstr":
            v = ssym(name)
            self.facts0 = self.facts0 + self.unstr(ex, v, f[1], f[2])
        if v is None:
            return None
        while P.types[t]["k"] == "ref":
            v = ref(v)
            t = P.types[t]["e"]
        return v


    def unstr(self, ex, x, a, top):
        N = ex.cparam("N")
        n = slen(x)
        if a == "need":
            return [le(bytelen(N), n)]
        if a is None:
            if N.op == "isym" and N.args[0] == "N:N":
                return [lt(n, I(8))]
            return [lt(n, bytelen(N))]
        r, rest = lev(subseq(x, I(0), I(8))), sub(n, 8)
        fs = [le(I(8), n)]
        if a == "rand":
            s, fs = r, fs + [le(r, N), le(r, rest)]
        elif a == "N":
            s, fs = N, fs + [lt(N, r), le(N, rest)]
        else:
            s, fs = rest, fs + [lt(rest, r), lt(rest, N)]
        if top == "none":
            return fs + [eq(s, I(0))]
        return fs + [le(I(1), s)] + topfacts(x, add(s, 7), top)


def bytelen(n):
    for l, m, L, fs in lengths("qN"):
        if m is n:
            return L
    raise bitprove.Unrep()


# ------------------------------------------------------------------ the specifications
def unch(f, s):
    """argument 0 keeps its value"""
    (b, n), (c, m) = fields(f.args[0]), fields(s.cells[("in", 0)])
    return conj([seqeq(c, b), eq(n, m)])


def resv(okg, errg):
    """relation of a Result: okg(value) / errg()"""
    def g(f, s, o):
        if is_ok(o):
            return (), okg(f, s, o[1].args[2][0])
        if is_err(o):
            return (), errg(f, s)
        if o[0] == "panic":
            return None
        raise bitprove.Unrep()
    return g


def retv(g0):
    def g(f, s, o):
        return ((), g0(f, s, o[1])) if o[0] == "ret" else None
    return g


def Nof(f):
    return f.ex.cparam("N")


def boolspec(o, spec):
    return conj([implies(o, spec), implies(neg(o), neg(spec))])


def encspec(kind, f, x, b):
    """b is the SSZ encoding of x"""
    xb, xn = fields(x)
    if kind == "bl":
        L = add(divc(xn, 8), 1)
        return conj([eq(slen(b), L), same(b, xn, lambda j: bit(xb, j)), bit(b, xn),
                     allbits(sub(scale(L, 8), add(xn, 1)), lambda j: neg(bit(b, add(xn, add(j, 1)))))])
    return conj([eq(slen(b), need(xn)), same(b, xn, lambda j: bit(xb, j)),
                 allbits(sub(scale(slen(b), 8), xn), lambda j: neg(bit(b, add(xn, j))))])


def validspec(kind, b, N):
    if kind == "bd":
        return le(I(1), slen(b))
    if kind == "bv":
        return conj([eq(slen(b), need(N)), allbits(sub(scale(slen(b), 8), N), lambda j: neg(bit(b, add(N, j))))])
    last = at(b, sub(slen(b), 1))
    return conj([le(I(1), slen(b)), neg(eq(last, I(0))), le(toppos(b), N)])


def toppos(b):
    return sub(add(scale(sub(slen(b), 1), 8), 7), clz(at(b, sub(slen(b), 1)), 8))


def vlen(kind, b, N):
    return {"bl": lambda: toppos(b), "bv": lambda: N, "bd": lambda: scale(slen(b), 8)}[kind]()


def decspec(kind, b, N, v):
    """v is the value denoted by b"""
    vb, vn = fields(v)
    return conj([eq(vn, vlen(kind, b, N)), same(vb, vn, lambda j: bit(b, j)), inv(kind, v, N)])


def setops(kind):
    N = lambda f: f.ex.cparam("N") if kind != "bd" else None
    X = lambda f: strip(f.args[0])
    Y = lambda f: strip(f.args[1])

    def of(f, v, n, spec):
        vb, vn = fields(v)
        return conj([eq(vn, n), inv(kind, v, N(f)), same(vb, n, spec)])
    xn = lambda f: fields(f.args[0])[1]
    yn = lambda f: fields(f.args[1])[1]
    inter = lambda f: (lambda j: conj([at_or_false(X(f), j), at_or_false(Y(f), j)]))
    union = lambda f: (lambda j: disj([at_or_false(X(f), j), at_or_false(Y(f), j)]))
    diff = lambda f: (lambda j: conj([bit(fields(X(f))[0], j), neg(at_or_false(Y(f), j))]))
    ilen = {"bl": lambda f: imin(xn(f), yn(f)), "bv": lambda f: N(f), "bd": lambda f: imax(xn(f), yn(f))}[kind]
    ulen = {"bl": lambda f: imax(xn(f), yn(f)), "bv": lambda f: N(f), "bd": lambda f: imax(xn(f), yn(f))}[kind]
    wrap_ = (lambda g: resv(lambda f, s, v: g(f, v), lambda f, s: FALSE)) if kind == "bd" else (lambda g: retv(lambda f, s, v: g(f, v)))
    R_ = "bits::%s::" % kind
    RX = "bits::%s_x::" % kind
    E = []
    pn = kind not in ("bd",)
    E.append(BEntry(kind + " intersection", RX + "intersection", [("intersection", wrap_(lambda f, v: of(f, v, ilen(f), inter(f))))], [kind, kind], N=pn))
    E.append(BEntry(kind + " union", RX + "union", [("union", wrap_(lambda f, v: of(f, v, ulen(f), union(f))))], [kind, kind], N=pn))
    E.append(BEntry(kind + " difference", R_ + "difference", [("difference", retv(lambda f, s, v: of(f, v, xn(f), diff(f))))], [kind, kind], N=pn))
    E.append(BEntry(kind + " difference_inplace", R_ + "difference_inplace",
                    [("difference", retv(lambda f, s, v: of(f, s.cells[("in", 0)], xn(f), diff(f))))], [kind, kind], N=pn))
    if kind != "bd":
        E.append(BEntry(kind + " is_subset", RX + "is_subset",
                        [("subset", retv(lambda f, s, o: boolspec(o, allbits(xn(f), lambda j: implies(bit(fields(X(f))[0], j), at_or_false(Y(f), j))))))],
                        [kind, kind], N=pn))
    return E


def observers(kind):
    N = lambda f: f.ex.cparam("N") if kind != "bd" else None
    R_ = "bits::%s::" % kind
    X = lambda f: strip(f.args[0])
    fx = lambda f: fields(f.args[0])
    pn = kind != "bd"
    E = []

    def B_(name, rel, kinds, **kw):
        E.append(BEntry("%s %s" % (kind, name), R_ + name, rel, kinds, N=pn, **kw))
    post = lambda s: s.cells[("in", 0)]

    def upd(f, s, cond, spec):
        b, n = fx(f)
        pb, pn_ = fields(post(s))
        return conj([cond, eq(pn_, n), inv(kind, post(s), N(f)), same(pb, n, spec)])
    B_("set", [("set bit", resv(lambda f, s, v: upd(f, s, lt(f.args[1], fx(f)[1]), lambda j: bite(eq(j, f.args[1]), f.args[2], bit(fx(f)[0], j))),
                                lambda f, s: conj([le(fx(f)[1], f.args[1]), unch(f, s)])))], [kind, None, k_bool])
    B_("shift_up", [("shifted bits", resv(lambda f, s, v: upd(f, s, le(f.args[1], fx(f)[1]),
                                                              lambda j: conj([le(f.args[1], j), bit(fx(f)[0], sub(j, f.args[1]))])),
                                          lambda f, s: conj([lt(fx(f)[1], f.args[1]), unch(f, s)])))], [kind, None])
    B_("get", [("bit", resv(lambda f, s, v: conj([lt(f.args[1], fx(f)[1]), iff(v, bit(fx(f)[0], f.args[1]))]),
                            lambda f, s: le(fx(f)[1], f.args[1])))], [kind, None])
    B_("len", [("length", retv(lambda f, s, o: eq(o, fx(f)[1])))], [kind])
    B_("is_empty", [("emptiness", retv(lambda f, s, o: boolspec(o, eq(fx(f)[1], I(0)))))], [kind])
    B_("is_zero", [("all-zero test", retv(lambda f, s, o: boolspec(o, allbits(fx(f)[1], lambda j: neg(bit(fx(f)[0], j))))))], [kind])

    def highest(f, s, o):
        b, n = fx(f)
        if o.op != "adt":
            raise bitprove.Unrep()
        if o.args[1] == 0:
            return allbits(n, lambda j: neg(bit(b, j)))
        h = o.args[2][0]
        return conj([le(I(0), h), lt(h, n), bit(b, h), allbits(sub(n, add(h, 1)), lambda j: neg(bit(b, add(h, add(j, 1)))))])
    B_("highest", [("highest set bit", retv(highest))], [kind])

    def count(f, s, o):
        b, n = fx(f)
        t, j = k_("t"), k_()
        return disj([eq(o, gsum(t, slen(b), popcnt(at(b, t)))), eq(o, gsum(j, n, ite(bit(b, j), I(1), I(0))))])
    B_("count", [("number of set bits", retv(count))], [kind])

    def it(f, s, o):
        b, n = fx(f)
        k = k_()
        return seqeq(o, gen(k, n, bit(b, k)))
    B_("iter", [("iteration", retv(it))], [kind])

    def opt(o, cond, v):
        # o is Some(v) under cond and None otherwise
        if o.op != "adt":
            raise bitprove.Unrep()
        return neg(cond) if o.args[1] == 0 else conj([cond, iff(o.args[2][0], v)])

    def nth(f, s, o):
        (b, n), i, j = fx(f), f.args[1], add(add(f.args[1], 1), f.args[2])
        a, c = o.args[0]
        # nothing is demanded of an iterator that has ended
        return conj([opt(a, lt(i, n), bit(b, i)), TRUE if a.op == "adt" and a.args[1] == 0 else opt(c, lt(j, n), bit(b, j))])
    B_("iter_nth", [("bit at a position of the iteration", retv(nth))], [kind, None, None])

    def rest(f, s, o):
        (b, n), i = fx(f), add(f.args[1], 1)
        k = k_()
        return disj([le(n, f.args[1]), seqeq(o, gen(k, imax(sub(n, i), I(0)), bit(b, add(i, k))))])
    B_("iter_rest", [("rest of the iteration", retv(rest))], [kind, None])

    def hint(f, s, o):
        (b, n), i = fx(f), add(f.args[1], 1)
        lo, hi = o.args[0]
        if hi.op != "adt":
            raise bitprove.Unrep()
        return disj([le(n, f.args[1]), conj([le(lo, sub(n, i)), TRUE if hi.args[1] == 0 else le(sub(n, i), hi.args[2][0])])])
    B_("iter_hint", [("bounds on the rest of the iteration", retv(hint))], [kind, None])
    B_("iter_count", [("length of the iteration", retv(lambda f, s, o: eq(o, fx(f)[1])))], [kind])
    last = lambda f, s, o: opt(o, le(I(1), fx(f)[1]), bit(fx(f)[0], sub(fx(f)[1], 1)))
    B_("iter_last", [("last bit of the iteration", retv(lambda f, s, o: disj([eq(fx(f)[1], I(1)), last(f, s, o)]))),
                     ("only bit of the iteration", retv(lambda f, s, o: disj([neg(eq(fx(f)[1], I(1))), opt(o, TRUE, bit(fx(f)[0], I(0)))])))], [kind])
    B_("clone", [("clone", retv(lambda f, s, o: conj([eq(fields(o)[1], fx(f)[1]), inv(kind, o, N(f)), same(fields(o)[0], fx(f)[1], lambda j: bit(fx(f)[0], j))])))], [kind])

    def eqs(f, s, o):
        (b, n), (c, m) = fields(f.args[0]), fields(f.args[1])
        return boolspec(o, conj([eq(n, m), allbits(n, lambda j: iff(bit(b, j), bit(c, j)))]))
    B_("eq", [("equality", retv(eqs))], [kind, kind])

    def hsh(f, s, o):
        # what is fed to the hasher depends on the bytes and the length only: equal sequences have equal bytes
        t = s.cells[("in", 1)]
        b, n = fx(f)
        ok = {x for x in syms(b) | syms(n) | syms(f.args[1])} | {b}
        bad = [x for x in syms(t) if x not in ok and x.op in ("isym", "ssym", "bsym", "vsym") and not str(x.args[0]).startswith("N:")]
        return TRUE if not bad else None
    B_("hash", [("hash depends on the bits only", lambda f, s, o: None if o[0] != "ret" or hsh(f, s, o) is None else ((), TRUE))], [kind, k_opaque("V", "H")])
    for nm in ("as_slice", "into_raw"):
        B_(nm, [("byte view", retv(lambda f, s, o: conj([exact(strip(o), fx(f)[1]), same(strip(o), fx(f)[1], lambda j: bit(fx(f)[0], j))])))], [kind])
    return E


def codec(kind):
    N = lambda f: f.ex.cparam("N") if kind != "bd" else None
    R_ = "bits::%s::" % kind
    RX = "bits::%s_x::" % kind
    fx = lambda f: fields(f.args[0])
    pn = kind != "bd"
    enc = {}
    enc["as_bytes"] = BEntry(kind + " as_ssz_bytes", R_ + "as_bytes", [("encoding", retv(lambda f, s, o: encspec(kind, f, f.args[0], strip(o))))], [kind], N=pn)

    def app(f, s, o):
        # the buffer, then the encoding
        out, b0 = s.cells[("in", 1)], f.args[1]
        L = slen(b0)
        t = subseq(out, L, slen(out))
        return conj([le(L, slen(out)), seqeq(subseq(out, I(0), L), b0), encspec(kind, f, f.args[0], t)])
    enc["append"] = BEntry(kind + " ssz_append", R_ + "append", [("appended encoding", retv(app))], [kind, k_bytes()], N=pn)
    elen = lambda f: add(divc(fx(f)[1], 8), 1) if kind == "bl" else need(fx(f)[1])
    enc["bytes_len"] = BEntry(kind + " ssz_bytes_len", R_ + "bytes_len", [("size", retv(lambda f, s, o: eq(o, elen(f))))], [kind], N=pn)
    fixed = kind == "bv"
    enc["meta"] = [BEntry("%s %s" % (kind, m), R_ + m, [("metadata", retv(lambda f, s, o, m=m: boolspec(o, B(fixed)) if m.endswith("fixed") else
                                                                          eq(o, need(N(f)) if fixed else I(4))))], [], N=pn)
                   for m in ("enc_fixed", "enc_flen", "dec_fixed", "dec_flen")]
    enc["into_bytes"] = BEntry(kind + " into_bytes", R_ + "into_bytes", [("encoding", retv(lambda f, s, o: encspec(kind, f, f.args[0], strip(o))))], [kind], N=pn)

    def dec(f, s, v):
        b = strip(f.args[0])
        return conj([validspec(kind, b, N(f)), decspec(kind, b, N(f), v)])
    rel = [("accepted exactly when valid, with the denoted value", resv(dec, lambda f, s: neg(validspec(kind, strip(f.args[0]), N(f)))))]
    enc["decode"] = BEntry(kind + " from_ssz_bytes", R_ + "decode", rel, ["raw"], N=pn)
    if kind != "bd":
        enc["from_bytes"] = BEntry(kind + " from_bytes", RX + "from_bytes", rel, ["raw"], N=pn)
    else:
        n_ = lambda f: f.args[1]
        ok = lambda f: conj([le(I(1), slen(strip(f.args[0]))), eq(n_(f), scale(slen(strip(f.args[0])), 8))])
        enc["from_bytes"] = BEntry("bd from_bytes_with_len", RX + "from_bytes_with_len",
                                   [("accepted exactly when the length matches, with the denoted value",
                                     resv(lambda f, s, v: conj([ok(f), decspec(kind, strip(f.args[0]), None, v)]), lambda f, s: neg(ok(f))))],
                                   ["raw", k_bitlen()], N=False)
    return enc


def k_bitlen():
    return Kind(lambda r, cs, ts: big(r, cs) or r.choice([0, 8, 16, 24, 32, 40, 56, 7, 9, 1, USZ, r.randrange(80)]),
                lambda v, r, cs, ts: max(0, min(USZ, v + r.choice([-8, 8, 1, -1]))))


def ctors():
    E = []
    zero = lambda v, n: allbits(n, lambda j: neg(bit(fields(v)[0], j)))
    E.append(BEntry("bl with_capacity", "bits::bl_x::with_capacity",
                    [("bounded, all false", resv(lambda f, s, v: conj([le(f.args[0], Nof(f)), eq(fields(v)[1], f.args[0]), inv("bl", v, Nof(f)), zero(v, f.args[0])]),
                                                 lambda f, s: lt(Nof(f), f.args[0])))], [None]))
    E[-1].intcase = 0
    E.append(BEntry("bl max_len", "bits::bl_x::max_len", [("capacity", retv(lambda f, s, o: eq(o, Nof(f))))], []))
    for nm in ("new", "default"):
        E.append(BEntry("bv " + nm, "bits::bv_x::" + nm, [("N bits, all false", retv(lambda f, s, v: conj([inv("bv", v, Nof(f)), zero(v, Nof(f))])))], []))
    E.append(BEntry("bv capacity", "bits::bv_x::capacity", [("capacity", retv(lambda f, s, o: eq(o, Nof(f))))], []))
    okd = lambda f: conj([le(I(8), f.args[0]), eq(modc(f.args[0], 8), I(0))])
    E.append(BEntry("bd new", "bits::bd_x::new",
                    [("positive multiple of 8, all false", resv(lambda f, s, v: conj([okd(f), eq(fields(v)[1], f.args[0]), inv("bd", v), zero(v, f.args[0])]),
                                                                lambda f, s: neg(okd(f))))], [k_bitlen()], N=False))
    E[-1].intcase = 0
    M = lambda f: f.ex.cparam("M")

    def rez(f, s, v):
        (xb, xn), (vb, vn) = fields(f.args[0]), fields(v)
        return conj([le(Nof(f), M(f)), inv("bl", v, M(f)), same(vb, vn, lambda j: conj([lt(j, xn), bit(xb, j)])),
                     allbits(sub(xn, vn), lambda j: neg(bit(xb, add(vn, j))))])
    E.append(BEntry("bl resize", "bits::bl_x::resize", [("same set bits, or smaller capacity", resv(rez, lambda f, s: lt(M(f), Nof(f))))], ["bl"], M=True))
    return E


# ------------------------------------------------------------------ serde form
def k_text():
    """text near the serde form"""
    raw = k_raw()

    def wrap_(r, b):
        h = bytes(b).hex()
        x = r.random()
        if x < .15:
            h = h.upper()
        elif x < .25:
            h = "".join(r.choice([c, c.upper()]) for c in h)
        h = "0x" + h
        y = r.random()
        if y < .06:
            h = h[2:]
        elif y < .1:
            h = "0X" + h[2:]
        elif y < .16:
            h = h[:-1]
        elif y < .2:
            h = "0x" + h
        elif y < .24:
            h = h + r.choice([" ", "\n", "g", "0", "_", "00", "/", ":", "@", "G", "`"])
        elif y < .27:
            h = " " + h
        elif y < .32 and len(h) > 2:
            i = r.randrange(len(h))
            h = h[:i] + r.choice("g/:@G`xX 0\0") + h[i + 1:]
        return tuple(h.encode())

    def gen(r, cs, ts):
        return wrap_(r, raw.gen(r, cs, ts))

    def mut(v, r, cs, ts):
        x = r.random()
        b = list(v)
        if x < .5 and b:
            b[r.randrange(len(b))] = ord(r.choice("0123456789abcdefABCDEFxXg/:@G` "))
            return tuple(b)
        if x < .7:
            i = r.randrange(len(b) + 1)
            return tuple(b[:i] + [ord(r.choice("0x1f"))] + b[i:])[:MANY]
        if x < .85 and b:
            i = r.randrange(len(b))
            return tuple(b[:i] + b[i + 1:])
        return gen(r, cs, ts)
    return Kind(gen, mut)


def encterm(kind, x):
    """the encoding, byte by byte (used where it is evaluated, not proved)"""
    b, n = fields(x)
    L = add(divc(n, 8), 1) if kind == "bl" else need(n)
    k, e = k_("c"), k_("e")

    def on(j):
        v = conj([lt(j, n), bit(b, j)])
        return disj([v, eq(j, n)]) if kind == "bl" else v
    return gen(k, L, add(*[ite(on(add(scale(k, 8), e)), I(1 << e), I(0)) for e in range(8)]))


def serde(kind):
    import natives as Nt
    N = lambda f: f.ex.cparam("N") if kind != "bd" else None
    R_ = "bits::%s::" % kind
    pn = kind != "bd"

    def ser(f, s, v):
        v = strip(v)
        x = f.args[0]
        pre, rest = lit([I(48), I(120)]), None
        if v.op == "cat" and len(v.args[0]) == 2 and v.args[0][0] is pre:
            rest = v.args[0][1]
        if rest is not None and rest.op == "sapp" and rest.args[0] == "hex":
            return encspec(kind, f, x, rest.args[1][0])
        return seqeq(v, cat([pre, Nt.hexed(encterm(kind, x))]))

    def good(f):
        x = strip(f.args[0])
        n = slen(x)
        t = subseq(x, I(2), n)
        D = Nt.unhexed(t)
        # the first conjunct guards the reading of the others
        return conj([le(I(2), n), eq(at(x, I(0)), I(48)), eq(at(x, I(1)), I(120)), eq(modc(n, 2), I(0)), Nt.hexes(t), validspec(kind, D, N(f))]), D
    ser_ = BEntry(kind + " serialize", R_ + "ser", [("0x and the lowercase hex of the encoding", resv(ser, lambda f, s: FALSE))], [kind], N=pn)
    de_ = BEntry(kind + " deserialize", R_ + "de",
                 [("accepted exactly when 0x-prefixed hex of a valid encoding, with the denoted value",
                   resv(lambda f, s, v: conj([good(f)[0], decspec(kind, good(f)[1], N(f), v)]), lambda f, s: neg(good(f)[0])))], ["text"], N=pn)
    def atoms(f):
        x = strip(f.args[0])
        n = slen(x)
        cs = [eq(at(x, I(0)), I(48)), eq(at(x, I(1)), I(120)), Nt.hexes(subseq(x, I(2), n))] if le(n, 1) is not TRUE else []
        m = {}
        for i, c in enumerate(cs):
            if c not in (TRUE, FALSE):
                m[c] = bsym("text%d" % i)
                m[neg(c)] = neg(m[c])
        return m
    de_.atoms = atoms
    return [ser_, de_]


# ------------------------------------------------------------------ arbitrary
def k_unstr():
    def gen(r, cs, ts):
        m = ts.get("N:N", 8)
        x = r.random()
        body = [r.choice([0, 1, 255, 128, r.randrange(256)]) for _ in range(r.choice([0, 1, 2, (m + 7) // 8, m // 8 + 1, m, r.randrange(12)]))]
        if body and r.random() < .5:
            body[-1] = r.choice([1, 0, 1 << (m % 8), (1 << (m % 8)) - 1, 255])
        if x < .7:
            head = list(r.choice([0, 1, 2, (m + 7) // 8, m // 8, m // 8 + 1, m, len(body), USZ, r.randrange(70)]).to_bytes(8, "little"))
            return tuple((head + body)[:MANY])
        return tuple(body[:MANY])

    def mut(v, r, cs, ts):
        b = list(v)
        x = r.random()
        if b and x < .5:
            i = r.randrange(len(b))
            b[i] = r.choice([b[i] ^ (1 << r.randrange(8)), b[i] + 1 & 255, 0, 1])
        elif b and x < .65:
            b.pop()
        elif x < .85:
            b.append(r.choice([0, 1, 255, 128]))
        else:
            return gen(r, cs, ts)
        return tuple(b[:MANY])
    return Kind(gen, mut)


def arbitrary():
    E = []
    for kind in ("bl", "bv"):
        def val_(f, s, v, kind=kind):
            return inv(kind, v, f.ex.cparam("N"))
        E.append(BEntry(kind + " arbitrary", "bits::%s_x::arb" % kind, [("valid value", resv(val_, lambda f, s: TRUE)), no_panic], ["unstr"]))
        E.append(Reach(kind + " arbitrary reachable", "bits::%s_x::arb" % kind, [], ["unstr"]))
    return E


class Reach(BEntry):
    """for every N >= 1 some input makes the generator succeed"""

    def targets(self):
        out = []
        for l, n, L, fs in lengths("qN"):
            if l != "0":
                out.append(("N=%s" % l, n, L, fs if l == "8q" else fs))
        return out

    def candidates(self, n, L):
        """input families, as terms"""
        one = lit([I(1)] + [I(0)] * 7)
        k = isym("h", 0)
        zeros = lambda m: mk("rep", (I(0), m), "s") if m.op != "int" else rep(I(0), m)
        yield "zeros", zeros(L)
        yield "length 1, then 1", cat([one, lit([I(1)])])
        yield "empty", EMPTY
        yield "ones then zeros", cat([one, zeros(L)])
        yield "1", lit([I(1)])
        yield "1, 1", lit([I(1), I(1)])
        yield "full length", cat([leb(L, 8), zeros(sub(L, 1)), lit([I(1)])])
        yield "small body first", cat([lit([I(1)] + [I(0)] * 15)])

    def obligations(self, an, budget=400):
        out = []
        for label, n, L, fs in self.targets():
            ok_ = None
            for cl, x in self.candidates(n, L):
                fun = BFun(an, self.root, {**self.params, "const N": n}, self.no_overflow, {0: ("is", x)}, fs)
                if fun.broken:
                    continue
                if all(is_ok(o) or bitprove.prove(s.facts.list, FALSE) for s, o in fun.res) and fun.res:
                    ok_ = cl
                    break
            name = "%s [%s]" % (self.name, label)
            out.append(Res(name, "proved" if ok_ else "failed", None if ok_ else "no input family shown to succeed", (None, self.root), None, None))
        return out

    def confirm(self, an, failed, seeds, nsweep, secs, stat):
        try:
            fun = self.fun(an)
            if fun.broken or not failed:
                return None
            for n in [1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 64, 65, 127, 128, 255, 256, 257, 264, 512]:
                self.unreachable(an, n, seeds[0], stat)
        except Found as f:
            return f
        return None

    def unreachable(self, an, n, seed, stat):
        fun = self.fun(an)
        r = random.Random(seed * 31 + n)
        ts = {"N:N": n}
        for i in range(400):
            v = self.args[0].gen(r, [], ts)
            stat.inputs += 1
            sym = dict(ts)
            bind_value(fun.args[0], v, sym)
            try:
                outs = apply(fun.summ, Env(sym), kmax=80)
            except (Top, Undef):
                continue
            stat.evals += 1
            if any(o[0] == "unk" or is_ok_value(o, e) for o, post, pi, e in outs):
                return
        # no input of the sample succeeds: is success infeasible?
        g = BFun(an, self.root, {**self.params, "const N": I(n)}, self.no_overflow, {}, [])
        if g.broken or not g.res:
            return
        for s, o in g.res:
            if (is_ok(o) or o[0] == "unk") and not bitprove.prove(s.facts.list, FALSE):
                return
        raise Found("generation never succeeds", fun, 0, "capacity %d: every successful path is infeasible" % n)


def is_ok_value(o, e):
    if o[0] != "ret":
        return False
    try:
        v = ev(o[1], e)
    except (Top, Undef):
        return True
    return isinstance(v, tuple) and v[0] == "adt" and v[2] == 0


# ------------------------------------------------------------------ bitfields as codec subjects
class Bits:
    """schema of a bitfield; its obligations are the bit-level ones of codec()"""
    kind = "val"
    lenient = zero_items = False

    def __init__(self, k):
        self.k = k
        self.N = isym("N:N", 0, 1 << 40) if k != "bd" else None

    def fixed(self):
        return self.k == "bv"

    def flen(self):
        return need(self.N) if self.fixed() else I(4)

    def opaques(self):
        return set()

    def norm(self, v):
        return v

    def enc(self, v):
        return encterm(self.k, v)

    def valid(self, s):
        return validspec(self.k, s, self.N)

    def dec(self, s):
        n = vlen(self.k, s, self.N)
        k, e = k_("c"), k_("e")

        def on(j):
            return conj([lt(j, n), bit(s, j)])
        return adt(BF, 0, (gen(k, need(n), add(*[ite(on(add(scale(k, 8), e)), I(1 << e), I(0)) for e in range(8)])), n, adt(PH, 0, ())))

    def gen(self, r, d=0):
        return k_bits(self.k).gen(r, [], {k: v for k, v in r.symv.items()})


def subjects():
    from subjects import Subject
    return [Subject(n, "bits::" + k, Bits(k), consts={"N": NS} if k != "bd" else {}, tags=["bits"])
            for n, k in (("BitList<N>", "bl"), ("BitVector<N>", "bv"), ("BitVectorDynamic", "bd"))]


def codec_obligations(prop, kind):
    c = codec(kind)
    names = {"C01": ["as_bytes", "decode"], "C02": ["as_bytes", "decode"], "C03": ["as_bytes", "append"], "C04": ["decode"], "C05": ["decode"],
             "C07": ["bytes_len", "as_bytes", "meta", "decode"], "C10": ["append", "as_bytes"]}[prop]
    out = []
    for n in names:
        out += c[n] if isinstance(c[n], list) else [c[n]]
    if prop == "C05":
        for e in out:
            e.rel = [no_panic]
    return out


def only_bounds():
    """the part of every producer's specification that concerns the length bound"""
    E = []
    N = lambda f: f.ex.cparam("N")
    Nk = lambda f, kind: None if kind == "bd" else N(f)

    def bnd(kind, v, f, n=None):
        c = [bound(kind, fields(v)[1], Nk(f, kind))]
        if n is not None:
            c.append(eq(fields(v)[1], n))
        return conj(c)
    for kind in ("bl", "bv", "bd"):
        pn = kind != "bd"
        R_, RX = "bits::%s::" % kind, "bits::%s_x::" % kind

        def post(g, kind=kind):
            """the value left in the first argument"""
            return [("length bound", lambda f, s, o: ((), bnd(kind, s.cells[("in", 0)], f, fields(f.args[0])[1])) if o[0] == "ret" else None)]
        E.append(BEntry(kind + " set", R_ + "set", post(0), [kind, None, k_bool], N=pn))
        E.append(BEntry(kind + " shift_up", R_ + "shift_up", post(0), [kind, None], N=pn))
        E.append(BEntry(kind + " difference_inplace", R_ + "difference_inplace", post(0), [kind, kind], N=pn))
        E.append(BEntry(kind + " difference", R_ + "difference", [("length bound", retv(lambda f, s, v, kind=kind: bnd(kind, v, f)))], [kind, kind], N=pn))
        E.append(BEntry(kind + " clone", R_ + "clone", [("length bound", retv(lambda f, s, v, kind=kind: bnd(kind, v, f)))], [kind], N=pn))
        for op in ("union", "intersection"):
            rel = (lambda g: resv(lambda f, s, v: g(f, v), lambda f, s: TRUE)) if kind == "bd" else (lambda g: retv(lambda f, s, v: g(f, v)))
            E.append(BEntry("%s %s" % (kind, op), RX + op, [("length bound", rel(lambda f, v, kind=kind: bnd(kind, v, f)))], [kind, kind], N=pn))

        def dec(f, s, v, kind=kind):
            b = strip(f.args[0])
            return conj([validlen(kind, b, Nk(f, kind)), bnd(kind, v, f, vlen(kind, b, Nk(f, kind)))])
        rel = [("over-long input fails, otherwise the length is the encoded one", resv(dec, lambda f, s: TRUE))]
        E.append(BEntry(kind + " from_ssz_bytes", R_ + "decode", rel, ["raw"], N=pn))
        if kind != "bd":
            E.append(BEntry(kind + " from_bytes", RX + "from_bytes", rel, ["raw"], N=pn))
        else:
            E.append(BEntry("bd from_bytes_with_len", RX + "from_bytes_with_len",
                            [("the requested length or an error", resv(lambda f, s, v: bnd("bd", v, f, f.args[1]), lambda f, s: TRUE))],
                            ["raw", k_bitlen()], N=False))
        de = [e for e in serde(kind) if e.name.endswith("deserialize")][0]
        import natives as Nt

        def de_(f, s, v, kind=kind):
            x = strip(f.args[0])
            D = Nt.unhexed(subseq(x, I(2), slen(x)))
            return conj([le(I(2), slen(x)), validlen(kind, D, Nk(f, kind)), bnd(kind, v, f, vlen(kind, D, Nk(f, kind)))])
        # only for text that is hex at all
        de.rel = [("over-long input fails, otherwise the length is the encoded one", resv(de_, lambda f, s: TRUE)), no_panic]
        E.append(de)
    for e in ctors():
        if e.name in ("bl with_capacity", "bd new"):
            bad = (lambda f: lt(N(f), f.args[0])) if e.name[1] == "l" else (lambda f: disj([lt(f.args[0], I(8)), neg(eq(modc(f.args[0], 8), I(0)))]))
            e.rel = [("the requested length or an error", resv(lambda f, s, v, bad=bad, k=e.name[:2]: conj([neg(bad(f)), bnd(k, v, f, f.args[0])]), lambda f, s: TRUE)), no_panic]
        elif e.name in ("bv new", "bv default"):
            e.rel = [("length bound", retv(lambda f, s, v: bnd("bv", v, f))), no_panic]
        E.append(e)
    for e in arbitrary():
        if not isinstance(e, Reach):
            e.rel = [("length bound", resv(lambda f, s, v, k=e.name[:2]: bnd(k, v, f), lambda f, s: TRUE))]
            e.rel.append(no_panic)
            E.append(e)
    return E


def validlen(kind, b, N):
    """the part of validity that concerns the length"""
    if kind == "bv":
        return validspec(kind, b, N)
    if kind == "bd":
        return le(I(1), slen(b))
    return conj([le(I(1), slen(b)), le(toppos(b), N)])


def histories():
    """C11: every operation of a history and every observation"""
    E = []
    for kind in ("bl", "bv", "bd"):
        E += observers(kind)
        E += [e for e in setops(kind) if "difference" in e.name]
        c = codec(kind)
        E.append(c["as_bytes"])
        N = lambda f, kind=kind: f.ex.cparam("N") if kind != "bd" else None

        def dec(f, s, v, kind=kind, N=N):
            b = strip(f.args[0])
            return conj([inv(kind, v, N(f)), implies(validspec(kind, b, N(f)), decspec(kind, b, N(f), v))])
        for n in ("decode", "from_bytes"):
            e = c[n]
            if n == "from_bytes" and kind == "bd":
                dec_ = lambda f, s, v: decspec("bd", strip(f.args[0]), None, v)
            else:
                dec_ = dec
            e.rel = [("a value of the type, the denoted one", resv(dec_, lambda f, s: TRUE)), no_panic]
            E.append(e)
    return E + ctors()


def entries(prop):
    if prop == "C11":
        return histories()
    if prop == "C12":
        return [e for k in ("bl", "bv", "bd") for e in setops(k)]
    if prop == "C13":
        return only_bounds()
    if prop == "C14":
        out = []
        for k in ("bl", "bv", "bd"):
            c = codec(k)
            out += [c["as_bytes"], c["into_bytes"], c["decode"], c["from_bytes"]]
        return out
    if prop == "C18":
        return [e for k in ("bl", "bv", "bd") for e in serde(k) + [codec(k)["decode"], codec(k)["as_bytes"]]]
    if prop == "C20":
        return arbitrary()
    if prop == "C05":
        out = [codec(k)["from_bytes"] for k in ("bl", "bv", "bd")]
        for e in out:
            e.rel = [no_panic]
        return out
    return []
