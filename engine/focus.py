"""Guided confirmation: look for a member of a given partition (of a failed obligation) that violates the property.

The partition's path facts are turned into a distance; inputs are improved by local search until they lie in the partition, and every input
that does is handed to the property's confirmation."""
import math
import time
from witness import *
import spec as S


def dist(f, E):
    """how far a valuation is from satisfying a fact (0 = satisfied)"""
    try:
        return _dist(f, E)
    except Undef:
        return 3.0
    except Top:
        return 3.0


def _dist(f, E):
    op, a = f.op, f.args
    if op == "le0":
        v = ev(a[0], E)
        return 0.0 if v <= 0 else math.log2(1 + v)
    if op == "eq0":
        v = ev(a[0], E)
        return 0.0 if v == 0 else math.log2(1 + abs(v))
    if op == "not" and a[0].op == "eq0":
        return 0.0 if ev(a[0].args[0], E) != 0 else 1.0
    if op == "and":
        return sum(dist(x, E) for x in a[0])
    if op == "or":
        return min(dist(x, E) for x in a[0])
    if op == "forall":
        n = ev(a[1], E)
        if n > 3000:
            return 0.0 if ev(f, E) else 2.0
        s = 0.0
        for j in range(n):
            old = E.bv.get(a[0])
            E.bv[a[0]] = j
            try:
                s += dist(a[2], E)
            finally:
                if old is None:
                    del E.bv[a[0]]
                else:
                    E.bv[a[0]] = old
        return s if s == 0 else 0.5 + math.log2(1 + s)
    return 0.0 if ev(f, E) else 1.0


def cost(fs, ks, E):
    if not ks:
        return sum(dist(f, E) for f in fs)
    best = None
    import itertools
    for js in itertools.product(range(7 if len(ks) == 1 else 4), repeat=min(len(ks), 3)):
        e = E.with_sym({k.args[0]: j for k, j in zip(ks, js)})
        c = sum(dist(f, e) for f in fs)
        if best is None or c < best:
            best = c
        if best == 0:
            break
    return best


def consts_of(terms):
    cs = {0, 1}
    for x in terms:
        for t in subterms(x):
            if t.op in ("le0", "eq0"):
                c, d = parts(t.args[0])
                for e in (c, -c, 1 - c, -c - 1, c + 1):
                    if 0 <= e < (1 << 40):
                        cs.add(e)
                for k in d.values():
                    k = abs(k)
                    if k > 1:
                        cs.add(k)
                        if 0 <= -c // k < (1 << 32):
                            cs.add(-c // k)
            elif t.op == "int" and 0 <= t.args[0] < (1 << 40):
                cs.add(t.args[0])
    return sorted(cs)


def mut_bytes(b, r, cs):
    return S_mut_bytes(list(b), r, cs)


def S_mut_bytes(b, r, cs):
    small = [c for c in cs if c < 256]
    lens = [c + d for c in cs if c <= 140000 for d in (0, 1, -1) if c + d >= 0]
    k = r.randrange(10)
    if k == 0 and b:
        del b[r.randrange(len(b)):]
    elif k == 1:
        b = b + [r.randrange(256) for _ in range(r.choice([1, 1, 2, 4, 8]))]
    elif k in (2, 3) and b:
        i = r.randrange(min(len(b), 16)) if r.random() < .7 else r.randrange(len(b))
        b[i] = r.choice([0, 1, 2, 128, 255, b[i] ^ (1 << r.randrange(8)), (b[i] + 1) & 255, (b[i] - 1) & 255, r.choice(small)])
    elif k in (4, 5, 6) and len(b) >= 4:
        i = r.randrange(0, min(len(b) - 3, 24))
        w = int.from_bytes(bytes(b[i:i + 4]), "little")
        w = r.choice([w + 1, w - 1, w + 4, w - 4, len(b), len(b) + 1, len(b) - 1, r.choice(cs), i + 4, w + 2, w ^ (1 << r.randrange(8))]) & 0xFFFFFFFF
        b[i:i + 4] = list(w.to_bytes(4, "little"))
    elif k == 7 and b:
        i = r.randrange(len(b))
        if r.random() < .5:
            b[i:i] = [r.randrange(256)]
        else:
            del b[i]
    elif k == 8 and lens:
        n = r.choice(lens)
        b = (b + [r.choice([0, 7, r.randrange(256)])] * max(0, n - len(b)))[:n]
    elif k == 9 and b:
        v = r.choice([0, 255, r.randrange(256)])
        i = r.randrange(len(b))
        for j in range(i, len(b)):
            b[j] = v
    return tuple(b)


def mut_val(sch, v, r, cs):
    """a value of the same schema, usually close to v"""
    if r.random() < .12:
        return sch.gen(r)
    n = type(sch).__name__
    if n == "Opaque":
        b = v[2]
        if sch.fixed():
            b = list(b)
            if b:
                b[r.randrange(len(b))] = r.choice([0, 1, 255, r.randrange(256)])
            b = tuple(b)
        else:
            ls = [c for c in cs if c < 600]
            if r.random() < .5:
                m = r.choice(ls + [len(b) + 1, max(0, len(b) - 1)])
                b = (b + tuple(r.randrange(256) for _ in range(max(0, m - len(b)))))[:m]
            else:
                b = S_mut_bytes(list(b), r, ls)
        if b and b[0] == 0xEE:
            b = (1,) + b[1:]
        return (v[0], v[1], b)
    if n == "ListOf":
        xs = list(v)
        k = r.randrange(5)
        if k == 0 and xs:
            del xs[r.randrange(len(xs))]
        elif k == 1:
            xs.insert(r.randrange(len(xs) + 1), sch.item.gen(r, 1))
        elif k == 2:
            m = r.choice([c for c in cs if c < 80] + [len(xs) + 2])
            while len(xs) < m:
                xs.append(sch.item.gen(r, 1))
            del xs[m:]
        elif xs:
            i = r.randrange(len(xs))
            xs[i] = mut_val(sch.item, xs[i], r, cs)
        return tuple(xs)
    if n == "Record":
        fs = list(v[1] if v[0] == "tup" else v[3])
        if sch.fields:
            j = r.randrange(len(sch.fields))
            i = sch.live[j]
            fs[i] = mut_val(sch.fields[j], fs[i], r, cs)
        return ("tup", tuple(fs)) if v[0] == "tup" else (v[0], v[1], v[2], tuple(fs))
    if n == "Union":
        x = sch.variants[v[2]]
        if x is None or r.random() < .3:
            return sch.gen(r)
        return ("adt", v[1], v[2], (mut_val(x, v[3][0], r, cs),))
    if n == "Uint":
        m = (1 << (8 * sch.n)) - 1
        return max(sch.lo, r.choice([v ^ (1 << r.randrange(8 * sch.n)), (v + 1) & m, (v - 1) & m, r.choice(cs) & m, r.randrange(m + 1)]))
    if hasattr(sch, "mut"):
        return sch.mut(v, r, cs)
    return sch.gen(r)


class Mini:
    """a corpus with chosen members only"""

    def __init__(self, run, values=(), strings=(), pres=None):
        self.run = run
        self.values = list(values)
        self.encs = [Corpus.enc(self, v) for v in self.values]
        self._strings = list(strings)
        self.pres = pres

    def strings(self):
        return self._strings


def bulk(sch, r, m):
    """values of the schema in which one list has m items or one opaque value m bytes"""
    n = type(sch).__name__
    if n == "Opaque":
        if not sch.fixed():
            yield ("op", sch.key[1], (1,) * m)
    elif n == "ListOf":
        x = sch.item.gen(r, 1)
        for _ in range(6):
            y = sch.item.gen(r, 1)
            if len(repr(y)) < len(repr(x)):
                x = y
        yield (x,) * m
        if m > 1:
            yield (x,) * (m - 1) + (sch.item.gen(r, 1),)
    elif n == "Record":
        for j, f in enumerate(sch.fields):
            for y in bulk(f, r, m):
                v = sch.gen(r)
                fs = list(v[1] if v[0] == "tup" else v[3])
                fs[sch.live[j]] = y
                yield ("tup", tuple(fs)) if v[0] == "tup" else (v[0], v[1], v[2], tuple(fs))


def focus(an, sub, fun, part, wits, r, seeds, secs, forbid_zero=False):
    """search for a violating member of fun.res[part]; returns Found or None"""
    st, o = fun.res[part]
    fs = fun.summ.parts[part][0]
    ks = fun.summ.parts[part][3]
    allf = [f for s, _ in fun.res for f in s.facts.list]
    cs = consts_of(fs)
    if len(cs) < 8:
        cs = sorted(set(cs) | set(consts_of(allf)))[:200]
    entry = fun.root[len(sub.root) + 2:] if fun.root.startswith(sub.root + "::") else None
    if entry not in ("append", "as_bytes", "bytes_len", "decode"):
        return None
    t0 = time.time()
    pool = []
    seen = set()
    hits = 0

    def env(ts, cand):
        sym = dict(ts)
        for t, v in zip(fun.args, cand):
            bind_value(t, v, sym)
        return Env(sym)

    def push(ts, cand):
        nonlocal hits
        key = (tuple(sorted(ts.items())), cand)
        if key in seen or len(seen) > 60000:
            return None
        seen.add(key)
        try:
            c = cost(fs, ks, env(ts, cand))
        except (Top, Undef, KeyError):
            return None
        pool.append((c + r.random() * 1e-3, ts, cand))
        pool.sort(key=lambda x: x[0])
        del pool[16:]
        if c == 0:
            hits += 1
            run = Run(an, sub, ts)
            if entry == "decode":
                M = Mini(run, [], [cand[0]])
                try:
                    q = run.call("decode", [cand[0]])
                    if q is not None and q[0] == "ret" and res_of(q[1])[0] == "ok":
                        M = Mini(run, [res_of(q[1])[1]], [cand[0]])
                except (Top, Undef):
                    pass
            else:
                M = Mini(run, [cand[0]], [], [cand[1]] if entry == "append" else None)
                M._strings = [e for e in M.encs if e is not None]
            for w in wits:
                try:
                    w(run, M)
                except Found as f:
                    f.tsym = ts
                    return f
        return None

    starts = []
    tss = [tsyms(sub, random.Random(sd), forbid_zero) for sd in seeds]
    zs = [dict(tss[0], **{k: z}) for k in sorted(tss[0]) if k.startswith("FLEN<") for z in (0, 5)]
    for ts in tss + [z for z in zs if not (forbid_zero and zero_item(sub, z))]:
        sd = seeds[0]
        rr = Rand(sd, ts)
        if entry == "decode":
            C = Corpus(Run(an, sub, ts), rr, 12, 60)
            starts += [(ts, (b,)) for b in C.strings()]
        else:
            for _ in range(30):
                v = sub.sch.gen(rr)
                starts.append((ts, (v,) if entry != "append" else (v, tuple(range(rr.choice([0, 0, 1, 4, 9]))))))
    for ts, cand in starts:
        try:
            f = push(ts, cand)
        except RecursionError:
            continue
        if f:
            return f
        if time.time() - t0 > secs:
            return None
    # sizes near the larger constants of the code
    big = [c for c in cs if 60 < c <= 70000]
    big = sorted(set(big), key=lambda c: (c > 5000, c))[:4] + big[-4:]
    ts0 = starts[0][0] if starts else {}
    for c in dict.fromkeys(big):
        for m in (c + 1, c):
            for v in bulk(sub.sch, Rand(c, ts0), m):
                if time.time() - t0 > secs:
                    return None
                try:
                    if entry == "decode":
                        e = Corpus.enc(Mini(Run(an, sub, ts0)), v)
                        f = None if e is None else push(ts0, (e,))
                    else:
                        f = push(ts0, (v,) if entry != "append" else (v, ()))
                except (Top, Undef, KeyError, RecursionError, MemoryError):
                    continue
                if f:
                    return f
    n = 0
    while time.time() - t0 < secs and hits < 400 and n < 30000:
        n += 1
        if not pool:
            return None
        c, ts, cand = pool[min(int(r.random() ** 2 * len(pool)), len(pool) - 1)]
        rr = Rand(r.randrange(1 << 30), ts)
        if r.random() < .05:
            # another valuation of the type-level symbols
            ts2 = dict(ts)
            k = r.choice(sorted(ts2)) if ts2 else None
            if k is None:
                continue
            if k.startswith("N:"):
                ts2[k] = r.choice(list(sub.consts.get(k[2:], (1,))) + [c_ for c_ in cs if c_ < 80])
            else:
                ts2[k] = r.choice([0, 1, 2, 3, 4, 5, 8, 16])
                if forbid_zero and zero_item(sub, ts2):
                    continue
            rr = Rand(r.randrange(1 << 30), ts2)
            if entry == "decode":
                cand2 = cand
            else:
                cand2 = (sub.sch.gen(rr),) + cand[1:]
            f = push(ts2, cand2)
        elif entry == "decode":
            b = cand[0]
            for _ in range(r.choice([1, 1, 2, 3])):
                b = S_mut_bytes(list(b), rr, cs)
            if len(b) > 200000:
                continue
            f = push(ts, (b,))
        else:
            v, rest = cand[0], cand[1:]
            if rest and r.random() < .4:
                rest = (S_mut_bytes(list(rest[0]), rr, cs),)
            else:
                for _ in range(r.choice([1, 1, 2, 3])):
                    v = mut_val(sub.sch, v, rr, cs)
            f = push(ts, (v,) + rest)
        if f:
            return f
    return None
