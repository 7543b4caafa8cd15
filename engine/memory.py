"""Memory requested while decoding: every partition's allocation, growth and nested-decoding events are bounded by its input."""
from core import *
from witness import Found, hexs, res_of

C1, C0 = 16, 4096


def bound(n):
    return add(scale(n, C1), I(C0))


class Obl:
    def __init__(self, facts):
        self.facts = facts
        self.todo = []      # (label, facts, goal)


def slice_of(s, b):
    """(lo, hi) of a sub-slice of the input, or None"""
    if s is b:
        return I(0), slen(b)
    if s.op == "sub" and s.args[0] is b:
        return s.args[1], s.args[2]
    return None


def events_obls(evs, facts, b, out, top=True):
    """obligations of a list of events (top: not inside a loop)"""
    L = slen(b)
    for e in evs:
        if e[0] == "alloc":
            out.append(("requested size", facts, le(e[1], bound(L) if top else I(C0))))
        elif e[0] == "decode":
            if e[2].op == "lit":
                continue
            if top:
                # a nested decoder gets at most as many bytes as this one
                out.append(("nested decoder's input", facts, le(slen(e[2]), L)))
        elif e[0] == "loop":
            v, K, paths = e[1], e[2], e[3]
            if not any(xs for _, xs in paths):
                continue
            if not top:
                out.append(("nested loop", facts, FALSE))
                continue
            grow = any(x[0] != "decode" or True for _, xs in paths for x in xs)
            if grow:
                out.append(("number of iterations", facts, le(v, bound(L))))
            base = facts + [le(I(0), K), lt(K, v)]
            nxt = {K: add(K, I(1))}
            for ds, xs in paths:
                fs = base + list(ds)
                sl = [x for x in xs if x[0] == "decode"]
                for x in xs:
                    if x[0] == "alloc":
                        # a bounded request, or one bounded by the item's own bytes
                        alts = [le(x[1], I(C0))]
                        for d in sl:
                            alts.append(le(x[1], bound(slen(d[2]))))
                        out.append(("requested size in a loop", fs, disj(alts)))
                    elif x[0] == "loop":
                        events_obls([x], fs, b, out, False)
                if len(sl) > 1:
                    # e.g. key and value: each part lies inside the iteration's window; treated one by one
                    pass
                for d in sl:
                    w = window(d[2], b)
                    if w is None:
                        out.append(("nested decoder's input in a loop", fs, FALSE))
                        continue
                    lo, hi = w
                    for ds2, xs2 in paths:
                        for d2 in xs2:
                            if d2[0] != "decode":
                                continue
                            w2 = window(d2[2], b)
                            if w2 is None:
                                continue
                            if len(sl) > 1 and d2[1] != d[1]:
                                continue
                            lo2 = subst(w2[0], nxt)
                            out.append(("nested decoders' inputs are disjoint", fs + [lt(add(K, I(1)), v)] + [subst(x, nxt) for x in ds2],
                                        conj([le(lo, hi), le(hi, lo2)])))


def window(s, b):
    w = slice_of(s, b)
    return w


def o_alloc(an, sub, fun=None):
    f = fun or an.fun(sub.root + "::decode", sub.params)
    name = "decode: memory"
    if f.broken:
        return [Res(name, "unknown", f.broken, f.root)]
    b = strip(f.args[0])
    out = []
    for i, (s, o) in enumerate(f.res):
        if o[0] == "unk":
            if not prove(s.facts.list, FALSE):
                out.append(Res(name, "unknown", o[1], where_of(s, f), i, f))
            continue
        obs = []
        events_obls(s.events(), s.facts.list, b, obs)
        for label, fs, g in obs:
            ok_ = g is TRUE or prove(fs, g)
            out.append(Res(name + ", " + label, "proved" if ok_ else "failed", None if ok_ else show(g)[:300], where_of(s, f), i, f))
        if not obs:
            out.append(Res(name, "proved", None, None, i, f))
    return out


# ---------------------------------------------------------------- confirmation
LIMIT_ITER = 3000


def measure(evs, E, b, seen):
    """largest single request, number of growing iterations"""
    big, grow = 0, 0
    for e in evs:
        if e[0] == "alloc":
            big = max(big, ev(e[1], E))
        elif e[0] == "loop":
            n = ev(e[1], E)
            if any(x[0] == "alloc" for _, xs in e[3] for x in xs):
                grow = max(grow, n)
            for k in range(min(n, LIMIT_ITER)):
                E2 = E.with_sym({e[2].args[0]: k})
                for ds, xs in e[3]:
                    if xs and all(ev(d, E2) for d in ds):
                        q, g = measure(xs, E2, b, seen)
                        big, grow = max(big, q), max(grow, g)
    return big, grow


def w_alloc(run, C):
    f = run.an.fun(run.sub.root + "::decode", run.sub.params)
    if f.broken:
        return
    for b in C.strings():
        sym = dict(run.tsym)
        try:
            bind_value(f.args[0], b, sym)
            outs = apply(f.summ, Env(sym))
        except (Top, Undef):
            run.unknown += 1
            continue
        check_alloc(f, outs, b, len(b), run, "bytes %s" % hexs(b))


def check_alloc(f, outs, b, n, stat, what):
    for o, post, pi, e in outs:
        if o[0] == "unk":
            continue
        try:
            big, grow = measure(f.res[pi][0].events(), e, b, set())
        except (Top, Undef):
            stat.unknown += 1
            continue
        stat.evals += 1
        if big > 64 * n + 4 * C0:
            raise Found("%d elements are requested for %d bytes of input" % (big, n), f, pi, what)
        if grow > 64 * n + 4 * C0:
            raise Found("%d items are produced from %d bytes of input" % (grow, n), f, pi, what)
