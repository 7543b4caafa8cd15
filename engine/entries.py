"""Obligations on entry points that are not codecs of a type: each is a set of labelled relations between inputs and outcome."""
import random
import time
from core import *
from witness import Found, brief
from focus import cost, consts_of, S_mut_bytes


class Kind:
    """argument kinds: random values and mutations of them"""

    def __init__(self, gen, mut):
        self.gen, self.mut = gen, mut


def k_bytes(maxlen=24, alphabet=None):
    def gen(r, cs, ts):
        n = r.choice([0, 1, 2, 3, 4, 5, 7, 8, 9, 12, 16, r.randrange(maxlen + 1)])
        b = [r.choice([0, 0, 1, 2, 4, 8, 12, 16, 127, 128, 255, r.randrange(256)]) for _ in range(n)]
        # plausible offset words
        if n >= 4 and r.random() < .6:
            w = 4 * r.randrange(0, 5)
            for i in range(0, min(n - 3, max(4, w)), 4):
                if r.random() < .8:
                    b[i:i + 4] = list(min(w, 255).to_bytes(4, "little"))
                    w = r.choice([w, w + 1, w + 2, n, w + r.randrange(4)])
        return tuple(b[:n])

    def mut(v, r, cs, ts):
        return S_mut_bytes(list(v), r, cs)[:4096]
    return Kind(gen, mut)


def k_int(hi, small=12):
    def gen(r, cs, ts):
        return min(hi, r.choice([r.randrange(small), r.randrange(small), hi, hi - 1, r.randrange(hi + 1), (1 << r.choice([8, 16, 31, 32, 32, 63])) + r.randrange(small)] + [c for c in cs[:40]]))

    def mut(v, r, cs, ts):
        return max(0, min(hi, r.choice([v + 1, v - 1, v + 8, v - 8, v * 2, v // 2, r.choice(cs) if cs else 0, r.randrange(small)])))
    return Kind(gen, mut)


k_bool = Kind(lambda r, cs, ts: r.random() < .5, lambda v, r, cs, ts: not v)
USZ = (1 << 64) - 1
k_opt = Kind(lambda r, cs, ts: ("adt", OPT, 0, ()) if r.random() < .3 else ("adt", OPT, 1, (r.choice([0, 1, 2, 3, 4, 7, r.randrange(20), USZ, (1 << r.choice([8, 16, 31, 32, 63])) + r.randrange(20)]),)),
             lambda v, r, cs, ts: k_opt.gen(r, cs, ts))


def k_opaque(k, n):
    s = Opaque((k, n))

    def gen(r, cs, ts):
        from spec import Rand
        return s.gen(Rand(r.randrange(1 << 30), ts))
    return Kind(gen, lambda v, r, cs, ts: gen(r, cs, ts))


class Entry:
    """rel: list of (label, fn(fun, state, outcome) -> None | (assumptions, relation))"""

    def __init__(self, name, root, rel, args, params=None, consts=None, no_overflow=False, flens=(), panics=True, pre=None, seeds=None):
        self.name, self.root, self.rel, self.args = name, root, rel, args
        self.params, self.consts, self.no_overflow = params or {}, consts or {}, no_overflow
        self.flens = flens
        self.seeds = seeds
        self.pre = pre
        if panics:
            self.rel = [("no panic", lambda f, s, o: ((), FALSE if o[0] == "panic" else TRUE))] + list(rel)

    def tsyms(self, r, cs=()):
        sym = {}
        for n in self.flens:
            sym["FLEN<%s>" % n] = r.choice([1, 2, 3, 4, 5, 8, 0])
        for c, vals in sorted(self.consts.items()):
            sym["N:" + c] = r.choice(list(vals))
        return sym

    def fun(self, an):
        return an.fun(self.root, self.params, self.no_overflow)

    def goals(self, fun, pi):
        """relations of one partition: [(label, assumptions, relation)]"""
        s, o = fun.res[pi]
        out = []
        for label, g in self.rel:
            x = g(fun, s, o)
            if x is None:
                continue
            for a, b in (x if isinstance(x, list) else [x]):
                pre = list(a) + (list(self.pre(fun)) if self.pre else [])
                out.append((label, pre, b))
        return out

    def obligations(self, an, budget=400):
        fun = self.fun(an)
        if fun.broken:
            return [Res(self.name, "unknown", fun.broken, fun.root)]
        out = []
        for i, (s, o) in enumerate(fun.res):
            if o[0] == "unk":
                if not prove(s.facts.list, FALSE, budget):
                    out.append(Res(self.name, "unknown", o[1], where_of(s, fun), i, fun))
                continue
            for label, pre, g in self.goals(fun, i):
                ok_ = g is TRUE or prove(s.facts.list + pre, g, budget)
                out.append(Res("%s: %s" % (self.name, label), "proved" if ok_ else "failed", None if ok_ else show(g)[:300],
                               (o[1:] if o[0] == "panic" else None, where_of(s, fun)), i, fun))
        return out

    # ---------------------------------------------------------------- confirmation
    def check(self, an, ts, args, stat):
        """raise Found if the summary has a member with these arguments that violates a relation"""
        fun = self.fun(an)
        if fun.broken:
            return
        sym = dict(ts)
        try:
            for t, v in zip(fun.args, args):
                bind_value(t, v, sym)
            if not all(ev(f, Env(sym)) for a in fun.args for f in invariant(a)):
                return
            outs = apply(fun.summ, Env(sym))
        except (Top, Undef):
            stat.unknown += 1
            return
        cache = self.__dict__.setdefault("_goals", {})
        for o, post, pi, e in outs:
            if o[0] == "unk":
                stat.unknown += 1
                continue
            gs = cache.get((id(fun), pi))
            if gs is None:
                gs = cache[(id(fun), pi)] = self.goals(fun, pi)
            for label, pre, g in gs:
                try:
                    if all(ev(p, e) for p in pre) and not ev(g, e):
                        res = self.result(o, post, e)
                        raise Found("%s does not hold" % label if label != "no panic" else "panics", fun, pi,
                                    "arguments %s%s%s" % (", ".join(fmt(a) for a in args), (" with %s" % ts) if ts else "", res))
                except (Top, Undef):
                    stat.unknown += 1
            stat.evals += 1

    def result(self, o, post, e):
        try:
            r = " gives " + (fmt(ev(o[1], e)) if o[0] == "ret" else "panic %s" % (o[1:],))
            for c, p in sorted(post.items()):
                if p is not None:
                    r += ", then argument %d is %s" % (c[1], fmt(ev(p, e)))
            return r
        except (Top, Undef):
            return ""

    def sweep(self, an, seed, n, stat):
        r = random.Random(seed)
        fun = self.fun(an)
        if fun.broken:
            return
        cs = consts_of([f for s, _ in fun.res for f in s.facts.list])[:120]
        for i in range(n):
            ts = self.tsyms(r, cs)
            stat.inputs += 1
            yield ts, tuple(k.gen(r, cs, ts) for k in self.args)

    def confirm(self, an, failed, seeds, nsweep, secs, stat):
        """Found or None"""
        try:
            for sd in seeds:
                if self.seeds:
                    for ts, args in self.seeds(an, sd):
                        stat.inputs += 1
                        self.check(an, ts, args, stat)
                for ts, args in self.sweep(an, sd, nsweep, stat):
                    self.check(an, ts, args, stat)
            for f in failed:
                if f.fun is None or f.part is None:
                    continue
                self.guided(an, f, seeds[0], secs, stat)
        except Found as f:
            return f
        return None

    def guided(self, an, res, seed, secs, stat):
        fun, part = res.fun, res.part
        fs, _, _, ks, _ = fun.summ.parts[part]
        cs = sorted(set(consts_of(fs)) | set(consts_of([f for s, _ in fun.res for f in s.facts.list])[:120]))
        r = random.Random(seed)
        pool, seen = [], set()
        t0 = time.time()
        n = 0

        def push(ts, args):
            key = (tuple(sorted(ts.items())), args)
            if key in seen:
                return
            seen.add(key)
            sym = dict(ts)
            try:
                for t, v in zip(fun.args, args):
                    bind_value(t, v, sym)
                E = Env(sym)
                inv = [x for a in fun.args for x in invariant(a)]
                c = cost(list(fs) + inv, ks, E)
            except (Top, Undef, KeyError):
                return
            pool.append((c + r.random() * 1e-3, ts, args))
            pool.sort(key=lambda x: x[0])
            del pool[16:]
            if c == 0:
                self.check(an, ts, args, stat)
        starts = list(self.sweep(an, seed + 1, 80, stat))
        if self.seeds:
            starts += list(self.seeds(an, seed + 1))
        for ts, args in starts:
            push(ts, args)
        while time.time() - t0 < secs and n < 20000 and pool:
            n += 1
            c, ts, args = pool[min(int(r.random() ** 2 * len(pool)), len(pool) - 1)]
            if r.random() < .06 and ts:
                ts = self.tsyms(r, cs)
                for k in ts:
                    if k.startswith("N:") and r.random() < .4:
                        ts[k] = r.choice([c_ for c_ in cs if c_ < 600] or [1])
                args = tuple(k.gen(r, cs, ts) for k in self.args) if r.random() < .5 else args
            else:
                a = list(args)
                for _ in range(r.choice([1, 1, 2])):
                    i = r.randrange(len(a)) if a else None
                    if i is None:
                        return
                    a[i] = self.args[i].mut(a[i], r, cs, ts)
                args = tuple(a)
            push(ts, args)


def fmt(v):
    if isinstance(v, tuple) and v and all(isinstance(x, int) and not isinstance(x, bool) and 0 <= x < 256 for x in v):
        return "0x" + bytes(v).hex()
    return brief(v)


def entry_task(an, prop, e, seeds, n, out, found):
    """prove; sweep; and search members of the partitions that are not proved"""
    if not an.has(e.root):
        out.notes.append("%s: entry point missing" % e.name)
        return
    rs = e.obligations(an)
    out.add(e.name, rs)
    failed = [r for r in rs if r.status != "proved"]
    f = e.confirm(an, failed[:12], seeds, n, 8 if len(seeds) < 4 else 30, out)
    if f is not None:
        found(out, prop, e.name, f, seeds[0], {})
    elif failed:
        out.notes.append("%s: %d undecided, search found nothing" % (e.name, len(failed)))
