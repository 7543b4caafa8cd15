"""Values of terms under a valuation of their symbols.

Used to confirm a failed obligation: the valuation picks one member of the abstract set the summary describes.
Python values: int, bool, sequences = tuple, opaque values ("op", name, bytes), enum/struct ("adt", path, variant,
fields), tuples ("tup", items), collections ("map"/"set", entries)."""
from terms import *


class Undef(Exception):
    pass


class Top(Exception):
    """value not described"""


class Env:
    __slots__ = ("sym", "bv", "memo", "rules", "up", "new")

    def __init__(self, sym, rules=None):
        self.sym = sym
        self.bv = {}
        self.memo = {}
        self.rules = rules
        self.up, self.new = None, ()

    def with_sym(self, extra):
        e = Env(dict(self.sym), self.rules)
        e.sym.update(extra)
        # what does not mention the new symbols has its value in the original valuation
        e.up, e.new = self, frozenset(extra)
        return e

    def home(self, t):
        E = self
        while E.up is not None and not (names(t) & E.new):
            E = E.up
        return E


_NAMES = {}


def names(t):
    r = _NAMES.get(t)
    if r is None:
        r = _NAMES[t] = frozenset(x.args[0] for x in syms(t))
    return r


def op_valid(key, s, flen_):
    """validity of a byte string for an opaque type: the interpretation used for witnesses"""
    if key[0] == "F" and len(s) != flen_:
        return False
    return not (len(s) > 0 and s[0] == 0xEE)


def ev(t, E):
    if t.mb == 0 or not freebv(t):
        r = E.memo.get(t)
        if r is None:
            H = E.home(t) if E.up is not None else E
            r = _ev(t, E) if H is E else ev(t, H)
            E.memo[t] = r
        return r
    return _ev(t, E)


MAPP = "alloc::collections::btree::map::BTreeMap"
SETP = "alloc::collections::btree::set::BTreeSet"


def okey(v):
    """total order used for keys"""
    if isinstance(v, tuple) and v and v[0] == "op":
        return (v[2],)
    return (v,)


def canon_map(p, entries):
    if p == MAPP:
        d = {}
        for e in entries:
            d[e[1][0]] = e[1][1]
        return ("map", tuple((k, d[k]) for k in sorted(d, key=okey)))
    return ("set", tuple(sorted(set(entries), key=okey)))


def rngiter(n):
    if n > 100000:
        raise Top()
    return range(n)


def under(E, d, j, f):
    old = E.bv.get(d)
    E.bv[d] = j
    try:
        return f()
    finally:
        if old is None:
            del E.bv[d]
        else:
            E.bv[d] = old


def getbit(s, i):
    if i < 0 or i // 8 >= len(s):
        raise Undef()
    return bool((s[i // 8] >> (i % 8)) & 1)


def _ev(t, E):
    op, a = t.op, t.args
    if op == "int" or op == "bool":
        return a[0]
    if op in ("isym", "bsym", "ssym", "vsym"):
        r = E.sym.get(a[0])
        if r is None and a[0] not in E.sym:
            if a[0].startswith("sizeof<"):
                # a type of that encoded length with the usual alignment padding
                n = E.sym.get("FLEN<%s>" % a[0][7:-1])
                if n is not None:
                    al = 1 if n < 2 else 2 if n == 2 else 4 if n < 5 else 8
                    return -(-n // al) * al
            raise Top(a[0])
        return r
    if op == "bv":
        return E.bv[a[0]]
    if op == "lin":
        r = a[0]
        for x, k in a[1]:
            r += k * ev(x, E)
        return r
    if op == "mul":
        r = 1
        for x in a[0]:
            r *= ev(x, E)
        return r
    if op == "div":
        return ev(a[0], E) // a[1]
    if op == "divt":
        d = ev(a[1], E)
        if d == 0:
            raise Undef()
        return ev(a[0], E) // d
    if op == "cdiv":
        d = ev(a[1], E)
        if d == 0:
            raise Undef()
        return -((-ev(a[0], E)) // d)
    if op == "band":
        return ev(a[0], E) & ev(a[1], E)
    if op == "bor":
        return ev(a[0], E) | ev(a[1], E)
    if op == "bxor":
        return ev(a[0], E) ^ ev(a[1], E)
    if op == "pow2":
        e = ev(a[0], E)
        if e < 0 or e > 4096:
            raise Undef()
        return 1 << e
    if op == "popcnt":
        return bin(ev(a[0], E)).count("1")
    if op == "clz":
        return a[1] - ev(a[0], E).bit_length()
    if op == "ctz":
        v = ev(a[0], E)
        return a[1] if v == 0 else (v & -v).bit_length() - 1
    if op == "byteof":
        return (ev(a[0], E) >> (8 * a[1])) & 255
    if op == "le":
        return int.from_bytes(bytes(ev(a[0], E)), "little")
    if op in ("iapp", "bapp", "sapp", "vapp") and a[0].startswith("fold:"):
        return foldv(a[0].split(":"), [ev(x, E) for x in a[1]], E)
    if op == "iapp":
        if a[0] == "lev":
            return int.from_bytes(bytes(ev(a[1][0], E)), "little")
        raise Top(a[0])
    if op == "tri":
        n = ev(a[0], E)
        return n * (n - 1) // 2
    if op == "le0":
        return ev(a[0], E) <= 0
    if op == "eq0":
        return ev(a[0], E) == 0
    if op == "eqv":
        return ev(a[0], E) == ev(a[1], E)
    if op == "not":
        return not ev(a[0], E)
    if op in ("and", "or"):
        und = None
        stop = op == "or"
        for x in a[0]:
            try:
                if bool(ev(x, E)) == stop:
                    return stop
            except Undef as u:
                und = u
        if und is not None:
            raise und
        return not stop
    if op == "bapp":
        if a[0] == "valid":
            key = a[1][0].args[0]
            s = ev(a[1][1], E)
            return op_valid(key, s, E.sym.get("FLEN<%s>" % key[1]))
        f = BAPP.get(a[0])
        if f is None:
            raise Top(a[0])
        return f(*[ev(x, E) for x in a[1]])
    if op == "discr":
        v = ev(a[0], E)
        if not (isinstance(v, tuple) and v and v[0] == "adt"):
            raise Undef()
        return v[2]
    if op == "bit":
        return getbit(ev(a[0], E), ev(a[1], E))
    if op == "bitof":
        return bool((ev(a[0], E) >> ev(a[1], E)) & 1)
    if op == "ite":
        return ev(a[1], E) if ev(a[0], E) else ev(a[2], E)
    if op == "len":
        return len(ev(a[0], E))
    if op == "at":
        s, i = ev(a[0], E), ev(a[1], E)
        if i < 0 or i >= len(s):
            raise Undef()
        return s[i]
    if op == "fld":
        v = ev(a[0], E)
        if not isinstance(v, tuple) or not v:
            raise Undef()
        if v[0] == "tup":
            return v[1][a[2]]
        if v[0] == "adt":
            if a[1] is not None and v[2] != a[1]:
                raise Undef()
            if a[2] >= len(v[3]):
                raise Undef()
            return v[3][a[2]]
        raise Undef()
    if op == "lit":
        return tuple(ev(x, E) for x in a[0])
    if op == "cat":
        r = ()
        for x in a[0]:
            r += ev(x, E)
        return r
    if op == "sub":
        s, lo, hi = ev(a[0], E), ev(a[1], E), ev(a[2], E)
        if lo == hi:
            return ()
        if lo < 0 or lo > hi or hi > len(s):
            raise Undef()
        return s[lo:hi]
    if op == "rep":
        n = ev(a[1], E)
        if n < 0:
            raise Undef()
        if n > 100000:
            raise Top()
        return (ev(a[0], E),) * n
    if op == "leb":
        v = ev(a[0], E) & ((1 << (8 * a[1])) - 1)
        return tuple(v.to_bytes(a[1], "little"))
    if op == "upd":
        s, i = ev(a[0], E), ev(a[1], E)
        if i < 0 or i >= len(s):
            raise Undef()
        return s[:i] + (ev(a[2], E),) + s[i + 1:]
    if op == "setbit":
        s, i = ev(a[0], E), ev(a[1], E)
        if i < 0 or i // 8 >= len(s):
            raise Undef()
        b = s[i // 8]
        b = b | (1 << (i % 8)) if ev(a[2], E) else b & ~(1 << (i % 8)) & 255
        return s[:i // 8] + (b,) + s[i // 8 + 1:]
    if op == "enc":
        v = ev(a[1], E)
        if isinstance(v, tuple) and v and v[0] == "op":
            return v[2]
        raise Undef()
    if op == "dec":
        return ("op", a[0][1], ev(a[1], E))
    if op == "vsym" or op == "opaque" or op == "fn":
        return ("opaque",) + tuple(str(x) for x in a[:1])
    if op == "adt":
        fs = tuple(ev(x, E) for x in a[2])
        if a[0] in (MAPP, SETP) and len(fs) == 1:
            return canon_map(a[0], fs[0])
        return ("adt", a[0], a[1], fs)
    if op == "tuple":
        return ("tup", tuple(ev(x, E) for x in a[0]))
    if op == "ref":
        return ev(a[0], E)
    if op == "sum":
        if not (freebv(a[2]) - {a[0]}):
            # the same terms summed up to a varying bound: remember the partial sums
            n = ev(a[1], E)
            if n <= 0:
                return 0
            rngiter(n)
            H = E.home(a[2])
            ps = H.memo.setdefault(("psum", a[0], a[2]), [0])
            while len(ps) <= n:
                ps.append(ps[-1] + under(H, a[0], len(ps) - 1, lambda: _ev(a[2], H)))
            return ps[n]
        return sum(under(E, a[0], j, lambda: _ev(a[2], E)) for j in rngiter(ev(a[1], E)))
    if op == "forall":
        for j in rngiter(ev(a[1], E)):
            if not under(E, a[0], j, lambda: _ev(a[2], E)):
                return False
        return True
    if op == "gen":
        return tuple(under(E, a[0], j, lambda: _ev(a[2], E)) for j in rngiter(ev(a[1], E)))
    if op == "flat":
        r = []
        for j in rngiter(ev(a[1], E)):
            r.extend(under(E, a[0], j, lambda: _ev(a[2], E)))
        return tuple(r)
    if op == "bover":
        s = list(ev(a[3], E))
        lo = ev(a[4], E)
        for j in rngiter(ev(a[1], E)):
            i = lo + j
            if i < 0 or i // 8 >= len(s):
                raise Undef()
            if under(E, a[0], j, lambda: _ev(a[2], E)):
                s[i // 8] |= 1 << (i % 8)
            else:
                s[i // 8] &= ~(1 << (i % 8)) & 255
        return tuple(s)
    if op in ("sapp", "vapp"):
        if a[0] in E.sym:
            return E.sym[a[0]]
        f = SAPP.get(a[0])
        if f is None:
            raise Top(a[0])
        return f(*[ev(x, E) for x in a[1]])
    if op == "closure":
        return ("closure", a[0])
    if op == "mref":
        raise Top("mref")
    raise Top(op)


FOLDMAX = 3000


def foldv(name, args, E):
    """a loop body applied to its initial state a number of times, or the only position that satisfies the conditions"""
    n = int(name[1])
    e = FOLDS[n]
    if e[0] == "pick":
        key = ("pick", n, tuple(args))
        r = E.memo.get(key)
        if r is None:
            base = dict(E.sym)
            for i, v in enumerate(args):
                base["f:v%d" % i] = v
            plain = [f for f in e[1] if not _prefix(f)]
            grow = [[f, 0] for f in e[1] if _prefix(f)]
            r = "none"
            for k in range(300):
                base["f:k"] = k
                X = Env(base, E.rules)
                if not all(_upto(g, X) for g in grow):
                    break
                if holds(plain, X):
                    r = k
                    break
            E.memo[key] = r
        if r == "none":
            raise Undef()
        return r
    w = e[1]
    count, cur, free = args[0], args[1:1 + w], args[1 + w:]
    if count < 0:
        raise Undef()
    if count > FOLDMAX:
        raise Top("loop")
    key = ("fold", n, tuple(cur), tuple(free))
    states = E.memo.get(key)
    if states is None:
        states = E.memo[key] = [tuple(cur)]
    if len(states) <= count:
        base = dict(E.sym)
        for i, v in enumerate(free):
            base["f:v%d" % i] = v
        while len(states) <= count:
            base["f:k"] = len(states) - 1
            for i, v in enumerate(states[-1]):
                base["f:h%d" % i] = v
            X = Env(base, E.rules)
            for c, vs in e[2]:
                if holds(c, X):
                    states.append(tuple(ev(v, X) for v in vs))
                    break
            else:
                raise Undef()
    return states[count][int(name[2])]


_PFX = {}


def _prefix(f):
    """forall j < f:k + const, of something that does not depend on f:k"""
    r = _PFX.get(f)
    if r is None:
        r = False
        if f.op == "forall" and not any(x.op == "isym" and x.args[0] == "f:k" for x in syms(f.args[2])):
            c, d = parts(f.args[1])
            r = len(d) == 1 and all(x.op == "isym" and x.args[0] == "f:k" and a == 1 for x, a in d.items())
        _PFX[f] = r
    return r


def _upto(g, X):
    f, done = g
    n = ev(f.args[1], X)
    while done < n:
        try:
            if not under(X, f.args[0], done, lambda: _ev(f.args[2], X)):
                return False
        except Undef:
            return False
        done += 1
    g[1] = done
    return True


def _text(f):
    return lambda s, *a: tuple(f(bytes(s), *[bytes(x) for x in a]))


def _unhex(s):
    try:
        return bytes.fromhex(s.decode()) if not any(c in b" \t\n\r\f\v" for c in s) else None
    except ValueError:
        raise Undef()


def _trim(s, p, start, end):
    while start and p and s.startswith(p):
        s = s[len(p):]
    while end and p and s.endswith(p):
        s = s[:-len(p)]
    return s


BAPP = {}
SAPP = {
    "hex": _text(lambda s: s.hex().encode()), "HEX": _text(lambda s: s.hex().upper().encode()), "unhex": _text(_unhex),
    "trim_start_matches": _text(lambda s, p: _trim(s, p, True, False)), "trim_end_matches": _text(lambda s, p: _trim(s, p, False, True)),
    "trim_matches": _text(lambda s, p: _trim(s, p, True, True)),
    "to_ascii_lowercase": _text(lambda s: s.lower()), "to_lowercase": _text(lambda s: s.lower()),
    "to_ascii_uppercase": _text(lambda s: s.upper()), "to_uppercase": _text(lambda s: s.upper()),
}


def bind_value(term, val, sym):
    """assign the symbols of an input term so that it denotes val"""
    op, a = term.op, term.args
    if op in ("isym", "ssym", "bsym", "vsym"):
        if a[0].startswith("FLEN<") or a[0].startswith("N:"):
            return
        sym[a[0]] = val
    elif op == "sapp":
        sym[a[0]] = val
    elif op == "ref":
        bind_value(a[0], val, sym)
    elif op == "adt":
        if a[0] in (MAPP, SETP):
            es = val[1]
            if a[0] == MAPP:
                es = tuple(("tup", e) for e in es)
            bind_value(a[2][0], es, sym)
            return
        if not (isinstance(val, tuple) and val[0] == "adt"):
            # newtype given by its content
            val = ("adt", a[0], a[1], (val,))
        for x, v in zip(a[2], val[3]):
            bind_value(x, v, sym)
    elif op == "tuple":
        for x, v in zip(a[0], val[1]):
            bind_value(x, v, sym)
    elif op == "lit":
        for x, v in zip(a[0], val):
            bind_value(x, v, sym)
    elif op == "at":
        pass
    elif op in ("int", "bool"):
        pass
    else:
        raise Top("bind " + op)


class Summary:
    """partitions of one entry point: list of (facts, events, outcome, buffer terms)"""

    def __init__(self, args, res, ins):
        self.args = args
        self.parts = []
        for s, o in res:
            post = {c: s.cells.get(c) for c in ins}
            ks = set()
            fs = list(s.facts.list)
            for f in fs:
                ks |= {x for x in syms(f) if x.op == "isym" and x.args[0].startswith("K#")}
            for t in ([o[1]] if o[0] == "ret" else []) + [p for p in post.values() if p is not None]:
                ks |= {x for x in syms(t) if x.op == "isym" and x.args[0].startswith("K#")}
            self.parts.append((fs, o, post, sorted(ks, key=lambda x: x.id), s))


def holds(fs, E):
    for f in fs:
        try:
            if not ev(f, E):
                return False
        except Undef:
            return False
    return True


def apply(summ, env, kmax=24):
    """outcomes of the summary under a valuation: list of (kind, value, post, partition index, env)"""
    out = []
    for pi, (fs, o, post, ks, st) in enumerate(summ.parts):
        envs = [env]
        if ks:
            # facts without existential symbols first
            kset = set(ks)
            pre = [f for f in fs if not (syms(f) & kset)]
            if not holds(pre, env):
                continue
            envs = assign(ks, [f for f in fs if syms(f) & kset], env, kmax)
        for e in envs:
            if not ks and not holds(fs, e):
                continue
            out.append((o, post, pi, e))
    return out


def assign(ks, fs, env, kmax):
    k, rest = ks[0], ks[1:]
    kr = set(rest)
    now = [f for f in fs if k in syms(f) and not (syms(f) & kr)]
    later = [f for f in fs if f not in now]
    res = []
    grow, mono, plain = [], [], []
    for f in now:
        q = _shape(f, k)
        if q == "grow":
            grow.append([f, 0])
        elif q == "mono":
            mono.append(f)
        else:
            plain.append(f)
    if mono or grow:
        # something ends the search
        kmax = max(kmax, 4096)
    for j in range(kmax + 1):
        e = env.with_sym({k.args[0]: j})
        # false once, false for every larger number
        if not holds(mono, e) or not all(_upto(g, e) for g in grow):
            break
        if not holds(plain, e):
            continue
        if rest:
            res += assign(rest, later, e, kmax)
        else:
            if holds(later, e):
                res.append(e)
    return res


_SHAPE = {}


def _shape(f, k):
    r = _SHAPE.get((f, k))
    if r is None:
        r = "plain"
        if f.op == "forall" and k not in syms(f.args[2]):
            c, d = parts(f.args[1])
            if d.get(k) == 1 and all(x is k or k not in syms(x) for x in d):
                r = "grow"
        elif f.op == "le0":
            c, d = parts(f.args[0])
            if d.get(k, 0) > 0 and all(x is k or k not in syms(x) for x in d):
                r = "mono"
        _SHAPE[(f, k)] = r
    return r
