"""Loop summarisation.

A loop met in a state S0 is described by one closed form: every location the body changes is replaced by an
unknown, one abstract iteration is computed, and the resulting recurrence is solved for the value after k
iterations (counters, accumulated sequences, sums, conjunctions/disjunctions, element and bit updates, previous
values).  The closed forms are inductive by construction (they satisfy the recurrence and its initial value); the
iteration is then re-evaluated in the closed-form state at an arbitrary k to obtain the loop's exits.
"""
from terms import *
from prover import Facts, simp
import mir as M


class Fail(Exception):
    pass


ZERO = I(0)
FOLDKEY = {}
STAT = {"summarised": 0, "constant": 0, "unrolled": 0}


def exec_loop(ex, fr, st, header, blocks, peel=0):
    prune(ex, fr, st, header)
    where = "%s bb%d" % (fr.inst["path"], header)
    # constant trip count
    probe = ex.region(fr, st.fork(), header, (header, blocks))
    backs = [s for s, o in probe if o[0] == "back"]
    if not backs:
        return probe
    if not any(o[0] == "exit" for s, o in probe):
        r = constant(ex, fr, probe, header, blocks)
        if r is not None:
            STAT["constant"] += 1
            return r
    base = st.fork()
    try:
        r = summarise(ex, fr, st, header, blocks, backs)
        ex.loop_stats.append(("summary", where))
        return r
    except Fail as e:
        why = str(e)
    if peel < 2 and why.startswith("shape"):
        out = [x for x in probe if x[1][0] != "back"]
        for b in backs:
            out += exec_loop(ex, fr, b, header, blocks, peel + 1)
        return out
    r = unroll(ex, fr, base.fork(), header, blocks, ex.unroll_limit, why)
    if any(o[0] == "unk" for _, o in r):
        try:
            r2 = summarise(ex, fr, base, header, blocks, backs, True)
            ex.loop_stats.append(("folded", where, why))
            return r2
        except Fail as e:
            why += "; " + str(e)
    ex.loop_stats.append(("bounded", where, why))
    return r


def prune(ex, fr, st, header):
    if fr.iid is None:
        return
    live, mut = ex.P.live(fr.iid)
    L = live[header]
    for c in [c for c in st.cells if c[0] == "l" and c[1] == fr.id]:
        if c[2] not in L and c[2] not in mut:
            del st.cells[c]


def constant(ex, fr, probe, header, blocks):
    out = [x for x in probe if x[1][0] != "back"]
    cur = [s for s, o in probe if o[0] == "back"]
    for i in range(24):
        nxt = []
        for s in cur:
            prune(ex, fr, s, header)
            res = ex.region(fr, s.fork(), header, (header, blocks))
            bk = [x for x in res if x[1][0] == "back"]
            if bk and any(x[1][0] == "exit" for x in res):
                return None
            nxt += [x[0] for x in bk]
            out += [x for x in res if x[1][0] != "back"]
        cur = nxt
        if not cur:
            return out
        if len(cur) > 64:
            return None
    return None


def unroll(ex, fr, st, header, blocks, limit, why):
    STAT["unrolled"] += 1
    out = []
    cur = [st]
    for i in range(limit + 1):
        nxt = []
        for s in cur:
            for s2, o in ex.region(fr, s, header, (header, blocks)):
                if o[0] == "back":
                    nxt.append(s2)
                else:
                    out.append((s2, o))
        cur = nxt
        if not cur:
            return out
        if len(cur) > 200:
            break
    for s in cur:
        out.append((s, ("unk", "loop bound in %s (%s)" % (fr.inst["path"], why))))
    return out


# ------------------------------------------------------------------ leaves
def diff(a, bs, path, out, shape):
    if all(b is a for b in bs):
        return
    if a.op in ("adt", "tuple", "closure", "ref"):
        if all(b.op == a.op and b.args[:-1] == a.args[:-1] and (a.op == "ref" or len(b.args[-1]) == len(a.args[-1])) for b in bs):
            if a.op == "ref":
                diff(a.args[0], [b.args[0] for b in bs], path + (0,), out, shape)
            else:
                for i in range(len(a.args[-1])):
                    diff(a.args[-1][i], [b.args[-1][i] for b in bs], path + (i,), out, shape)
            return
    if a.sort == "v" and (a.op in ("adt", "tuple", "closure", "ref", "mref", "fn", "opaque") or any(b.op in ("mref", "closure", "fn") for b in bs)):
        shape.append("%s at %s" % (a.op, path))
        return
    out.append(path)


def get_leaf(v, path):
    for i in path:
        v = v.args[0] if v.op == "ref" else v.args[-1][i]
    return v


def set_leaf(v, path, x):
    if not path:
        return x
    if v.op == "ref":
        return ref(set_leaf(v.args[0], path[1:], x))
    fs = list(v.args[-1])
    fs[path[0]] = set_leaf(fs[path[0]], path[1:], x)
    return mk(v.op, v.args[:-1] + (tuple(fs),), v.sort)


def leaf_type(ex, cell, v, path):
    if cell[0] != "l" or cell[1] not in ex.bodies:
        return None
    t = ex.bodies[cell[1]]["locals"][cell[2]]
    for i in path:
        if v.op == "adt":
            t = ex.P.field_type(t, v.args[1], i)
        elif v.op in ("tuple", "ref"):
            t = ex.P.field_type(t, None, i)
        else:
            return None
        if t is None:
            return None
        v = v.args[0] if v.op == "ref" else v.args[-1][i]
    return t


def havoc(ex, cell, root, path, backs_v):
    v = get_leaf(root, path)
    n = "h"
    if v.sort == "i":
        t = leaf_type(ex, cell, root, path)
        rg = ex.P.int_range(t) if t is not None else None
        if rg is None:
            lo = rng(v)[0]
            rg = (0, (1 << 64) - 1) if lo is not None and lo >= 0 else (None, None)
        return isym(fresh_name(n), rg[0], rg[1])
    if v.sort == "b":
        return bsym(fresh_name(n))
    if v.sort == "s":
        es = esort(v)
        for b in backs_v:
            if es is None:
                es = esort(b)
        return ssym(fresh_name(n), es)
    return vsym(fresh_name(n))


def subst_state(st, m):
    s = st.fork()
    memo = {}
    s.cells = {c: subst(v, m, memo) for c, v in st.cells.items()}
    s.facts = Facts()
    for f in st.facts.list:
        s.facts.add(subst(f, m, memo))
    return s


def subst_out(o, m):
    if o[0] == "ret":
        return ("ret", subst(o[1], m)) + tuple(o[2:])
    return o


def subst_event(e, m):
    return tuple(subst(x, m) if isinstance(x, Term) else (tuple(subst_event(y, m) if isinstance(y, tuple) else (subst(y, m) if isinstance(y, Term) else y)
                 for y in x) if isinstance(x, tuple) else x) for x in e)


def allsyms(ts):
    r = set()
    for t in ts:
        r |= syms(t)
    return r


# ------------------------------------------------------------------ summary
class Leaf:
    __slots__ = ("cell", "path", "h", "init", "closed", "keeplen")

    def __init__(self, cell, path, h, init):
        self.cell, self.path, self.h, self.init = cell, path, h, init
        self.closed = None      # function k -> term
        self.keeplen = False


def iterate(ex, fr, S, header, blocks):
    s = S.fork()
    s.ev = None
    s.nev = 0
    return ex.region(fr, s, header, (header, blocks))


def local_unknowns(b, mark, K):
    """symbols of one iteration that its own inner loops left undetermined"""
    return {x for c in b.cells.values() for x in syms(c) if x.id > mark and x.op == "isym" and x.args[0].startswith("K#") and x is not K}


def skolemise(b, S, mark, K):
    """positions at which inner loops ended, as functions of the iteration: the only number that satisfies the facts about it"""
    new = [f for f in b.facts.list if f not in S.facts.set]
    us = set(local_unknowns(b, mark, K))
    for f in new:
        us |= {x for x in syms(f) if x.id > mark and x.op == "isym" and x.args[0].startswith("K#") and x is not K}
    if not us:
        return b
    us = sorted(us, key=lambda x: x.id)
    m = {}
    for i, x in enumerate(us):
        later = set(us[i + 1:])
        fs = [subst(f, m) for f in new if x in syms(f) and not (syms(f) & later)]
        if not fs or any(y.id > mark and y.op in ("isym", "ssym", "vsym", "bsym") and "#" in y.args[0] and y is not K and y is not x
                         and not y.args[0].startswith(("h#",)) for f in fs for y in syms(f) if y.op != "bv"):
            raise Fail("iteration-local unknown %s" % x)
        m[x] = pick_term(x, fs)
    return subst_state(b, m)


def summarise(ex, fr, S0, header, blocks, probe_backs, folding=False):
    n0 = len(S0.facts.list)
    leaves = {}
    K = isym(fresh_name("K"), 0, 1 << 62)
    dropped = set()

    def collect(backs, ref_state):
        """new changed leaves; returns True if any"""
        new = False
        for c in list(S0.cells):
            if c in dropped:
                continue
            a = S0.cells[c]
            if any(c not in b.cells for b in backs):
                dropped.add(c)
                continue
            r = ref_state.cells[c]
            bs = [b.cells[c] for b in backs]
            out, shape = [], []
            diff(r, bs, (), out, shape)
            if shape:
                raise Fail("shape of %s: %s" % (c[2:], shape[0]))
            for p in out:
                if (c, p) in leaves:
                    continue
                # a leaf above existing leaves?
                for (c2, p2) in list(leaves):
                    if c2 == c and p2[:len(p)] == p:
                        del leaves[(c2, p2)]
                try:
                    init = get_leaf(a, p)
                except Exception:
                    raise Fail("shape")
                h = havoc(ex, c, a, p, [get_leaf(b, p) for b in bs])
                lf = leaves[(c, p)] = Leaf(c, p, h, init)
                if h.sort == "s":
                    if all(slen(get_leaf(b, p)) is slen(get_leaf(r, p)) for b in bs):
                        lf.keeplen = True
                new = True
        return new

    def build(k):
        """state at the header after k iterations"""
        s = S0.fork()
        for c in dropped:
            s.cells.pop(c, None)
        for lf in leaves.values():
            v = lf.h if lf.closed is None else lf.closed(k)
            s.cells[lf.cell] = set_leaf(s.cells[lf.cell], lf.path, v)
            if lf.closed is None and lf.keeplen:
                s.facts.add(eq(slen(lf.h), slen(lf.init)))
        return s

    class R:
        pass
    live_conts = []          # facts valid for iteration j, as functions of j

    def addcont(s, k):
        for f in live_conts:
            f(s, k)

    collect(probe_backs, S0)
    if not leaves:
        raise Fail("no progress")
    rounds = 0
    last = extra = False
    while True:
        rounds += 1
        if rounds > 12:
            raise Fail("no fixpoint")
        S = build(K)
        addcont(S, K)
        nb = len(S.facts.list)
        mark = isym(fresh_name("mark")).id
        res = iterate(ex, fr, S, header, blocks)
        if last:
            res = split_last(ex, fr, res, header, blocks)
        backs = [s for s, o in res if o[0] == "back"]
        if folding:
            backs = [skolemise(b, S, mark, K) for b in backs]
        if not backs:
            # the body cannot be repeated from an arbitrary state: imprecision
            raise Fail("no back edge")
        if len(backs) > 24:
            raise Fail("too many paths")
        if collect(backs, S):
            for lf in leaves.values():
                lf.closed = None
            live_conts = []
            continue
        # path conditions of one more iteration
        conds = [[f for f in b.facts.list if f not in S.facts.set] for b in backs]
        common = [f for f in conds[0] if all(f in c for c in conds[1:])]
        cset = set(common)
        deltas = [[f for f in c if f not in cset] for c in conds]
        pend = [lf for lf in leaves.values() if lf.closed is None]
        hs = {lf.h for lf in pend}
        progress = False
        fresh_bad = None
        for lf in pend:
            vals = [get_leaf(b.cells[lf.cell], lf.path) for b in backs]
            step = merge(vals, deltas)
            f = solve(lf, step, K, hs, S, common)
            if f is not None:
                bad = [x for x in syms(f(K)) if x.op in ("isym", "ssym", "vsym", "bsym") and x.id > mark and "#" in x.args[0] and x is not K
                       and not x.args[0].startswith("h#")]
                if bad:
                    if folding:
                        continue
                    raise Fail("iteration-local unknown %s" % bad[0])
                lf.closed = f
                progress = True
        # continuation facts
        used = sum(f.size for f in live_conts)
        def outer(f):
            return not any(x.id > mark and x.op in ("isym", "ssym", "vsym", "bsym") and "#" in x.args[0] and x is not K
                           and not x.args[0].startswith("h#") for x in syms(f))
        # what holds of one iteration's own unknowns holds of no other iteration
        live_conts = [make_cont([f for f in common if outer(f)], [[f for f in d if outer(f)] for d in deltas], K, hs, S0, S.facts)]
        if not pend and live_conts[0].size > used and not extra:
            # once more, with what is known about the earlier iterations
            extra = True
            continue
        if not pend:
            if len(backs) > 1 and not last:
                last = True
                continue
            break
        if not progress and not last and len(backs) > 1:
            last = True
            live_conts = live_conts if rounds > 1 else []
            continue
        if not progress and folding:
            fold_leaves(pend, backs, deltas, K, mark)
            live_conts = []
            continue
        if not progress:
            lf = pend[0]
            vals = [get_leaf(b.cells[lf.cell], lf.path) for b in backs]
            raise Fail("recurrence of %s%s: %s" % (fr_local(fr, lf), lf.path, " | ".join(show(v)[:160] for v in vals[:3])))
    # closed forms are inductive: check that the iteration from the closed-form state produces them at K+1
    STAT["summarised"] += 1
    evs = [[e for e in b.events()] for b in backs]
    loop_ev = None
    if any(evs):
        loop_ev = ("loop", K, K, tuple((tuple(f for f in c if f.op != "forall"), tuple(e)) for c, e in zip(conds, evs)))
    out = []
    for s, o in res:
        if o[0] == "back":
            continue
        body_ev = s.events()
        m = None
        v = solve_K(s.facts, K, S0)
        if v is not None:
            m = {K: v}
            s2 = subst_state(s, m)
            if any(f is FALSE for f in s2.facts.list):
                continue
            o = subst_out(o, m)
        else:
            s2 = s
        s2.ev, s2.nev = S0.ev, S0.nev
        if loop_ev is not None:
            le_ = loop_ev if m is None else ("loop", v, K, loop_ev[3])
            s2.event(le_)
        for e in body_ev:
            s2.event(subst_event(e, m) if m else e)
        if m is not None and contradictory(s2.facts):
            continue
        out.append((s2, o))
    return out


def formals(ts, skip=()):
    """the symbols of ts other than `skip`, and stand-ins for them"""
    fs, seen = [], set(skip)
    for t in ts:
        for x in sorted((y for y in subterms(t) if y.op in ("isym", "ssym", "bsym", "vsym")), key=lambda y: y.id):
            if x not in seen:
                seen.add(x)
                fs.append(x)
    m = {x: mk(x.op, ("f:v%d" % i,) + x.args[1:], x.sort) for i, x in enumerate(fs)}
    return fs, m


def register(key, entry):
    if key not in FOLDKEY:
        FOLDKEY[key] = len(FOLDS)
        FOLDS.append(entry)
    return FOLDKEY[key]


def pick_term(x, fs):
    free, m = formals(fs, (x,))
    m[x] = mk("isym", ("f:k",) + x.args[1:], "i")
    conds = tuple(subst(f, m) for f in fs)
    n = register(("pick", conds), ("pick", conds))
    return iapp("fold:%d" % n, free, 0, 1 << 62)


def fold_leaves(pend, backs, deltas, K, mark):
    """closed forms of last resort: the loop body applied k times"""
    alts = []
    for b, d in zip(backs, deltas):
        alts.append((tuple(d), tuple(get_leaf(b.cells[lf.cell], lf.path) for lf in pend)))
    ts = [t for c, v in alts for t in c + v]
    for t in ts:
        if freebv(t):
            raise Fail("open term")
        for x in syms(t):
            if x.id > mark and x.op in ("isym", "ssym", "vsym", "bsym") and "#" in x.args[0] and x is not K and not x.args[0].startswith("h#"):
                raise Fail("iteration-local unknown %s" % x)
    if any(t.op == "mref" for u in ts for t in subterms(u)):
        raise Fail("references in the recurrence")
    free, m = formals(ts, [K] + [lf.h for lf in pend])
    m[K] = mk("isym", ("f:k",) + K.args[1:], "i")
    for i, lf in enumerate(pend):
        m[lf.h] = mk(lf.h.op, ("f:h%d" % i,) + lf.h.args[1:], lf.h.sort)
    body = tuple((tuple(subst(f, m) for f in c), tuple(subst(t, m) for t in v)) for c, v in alts)
    n = register(("fold", len(pend), body), ("fold", len(pend), body))
    inits = [lf.init for lf in pend]
    for i, lf in enumerate(pend):
        def f(k, i=i, lf=lf):
            if k is ZERO:
                return lf.init
            nm = "fold:%d:%d" % (n, i)
            args = [k] + inits + free
            if lf.h.sort == "i":
                return iapp(nm, args, lf.h.args[1], lf.h.args[2])
            if lf.h.sort == "b":
                return bapp(nm, *args)
            if lf.h.sort == "s":
                return sapp(nm, args, esort(lf.h), slen(lf.init) if lf.keeplen else None)
            return vapp(nm, args)
        lf.closed = f


def fr_local(fr, lf):
    return "_%s" % lf.cell[2:] if lf.cell[0] == "l" else str(lf.cell)


def contradictory(F):
    from prover import quick_infeasible
    for f in F.list:
        if f is FALSE:
            return True
    return False


def split_last(ex, fr, res, header, blocks):
    """back states that cannot be followed by another complete iteration are continued to the exit"""
    backs = [x for x in res if x[1][0] == "back"]
    if len(backs) < 2:
        return res
    out = [x for x in res if x[1][0] != "back"]
    keep, ends = [], []
    for s, o in backs:
        s2 = s.fork()
        prune(ex, fr, s2, header)
        r = ex.region(fr, s2, header, (header, blocks))
        if any(x[1][0] == "back" for x in r):
            keep.append((s, o))
        else:
            ends.append(r)
    if not keep:
        return res
    for r in ends:
        out += r
    return keep + out


def merge(vals, deltas):
    """value of a leaf after one iteration as one term"""
    groups = []
    for v, d in zip(vals, deltas):
        for g in groups:
            if g[0] is v:
                g[1].append(conj(d))
                break
        else:
            groups.append((v, [conj(d)]))
    r = groups[-1][0]
    for v, cs in reversed(groups[:-1]):
        r = ite(disj(cs), v, r)
    return r


def make_cont(common, deltas, K, unsolved, S0, F):
    conjs = [f for f in common if not (syms(f) & unsolved)]
    rest = []
    if len(deltas) > 1:
        d = disj([conj([f for f in x if not (syms(f) & unsolved)]) for x in deltas])
        if d is not TRUE:
            conjs.append(d)
    lin_, other = [], []
    F2 = F.fork()
    for f in common:
        F2.add(f)
    for f in conjs:
        if f.op == "and":
            xs = list(f.args[0])
        else:
            xs = [f]
        for x in xs:
            if x.op == "not" and x.args[0].op == "eq0":
                t = x.args[0].args[0]
                if F2.entails(le0(t)):
                    x = le0(add(t, 1))
                elif F2.entails(le0(scale(t, -1))):
                    x = le0(sub(I(1), t))
            if K not in syms(x):
                other.append(x)
                continue
            if x.op == "le0":
                c, d = parts(x.args[0])
                a = d.get(K, 0)
                if a > 0 and all(K not in syms(t) for t in d if t is not K):
                    if S0.facts.entails(subst(x, {K: I(-1)})):
                        lin_.append(x)
                        continue
                if a < 0 and all(K not in syms(t) for t in d if t is not K):
                    # strongest at j = 0
                    if S0.facts.entails(subst(x, {K: I(0)})):
                        continue
            other.append(x)

    def f(s, k):
        for x in lin_:
            s.facts.add(subst(x, {K: sub(k, I(1))}))
        for x in other:
            j = isym(fresh_name("k"), 0, 1 << 62)
            s.facts.add(forall(j, k, subst(x, {K: j})))
    f.size = len(lin_) + len(other)
    return f


def solve_K(F, K, S0):
    cands = []
    for f in F.list:
        if f.op in ("le0", "eq0"):
            c, d = parts(f.args[0])
            a = d.get(K)
            if a is None:
                continue
            rest = from_parts(c, {x: k for x, k in d.items() if x is not K})
            if K in syms(rest):
                continue
            if abs(a) == 1:
                v = scale(rest, -a)
                if v not in cands:
                    cands.append(v)
            else:
                # a*K + rest
                r = scale(rest, -1) if a > 0 else rest
                aa = abs(a)
                for v in (divc(r, aa), divc(add(r, aa - 1), aa)):
                    if v not in cands:
                        cands.append(v)
    for v in cands:
        if F.entails(le(K, v)) and F.entails(le(v, K)):
            return v
    return None


# ------------------------------------------------------------------ recurrences
def distribute_add(step, h):
    """step - h when step is h + something on every branch"""
    if step.op == "ite":
        a, b = distribute_add(step.args[1], h), distribute_add(step.args[2], h)
        if a is None or b is None:
            return None
        return ite(step.args[0], a, b)
    d = sub(step, h)
    if h in syms(d):
        return None
    return d


def distribute_cat(step, h):
    if step is h:
        return EMPTY
    if step.op == "ite":
        if h in syms(step.args[0]):
            return None
        a, b = distribute_cat(step.args[1], h), distribute_cat(step.args[2], h)
        if a is None or b is None:
            return None
        return ite(step.args[0], a, b)
    if step.op == "cat" and step.args[0][0] is h:
        rest = cat(step.args[0][1:])
        if h in syms(rest):
            return None
        return rest
    return None


def solve(lf, step, K, unsolved, S, common):
    """closed form as a function of the iteration count, or None"""
    h, init = lf.h, lf.init
    others = unsolved - {h}
    if syms(step) & others:
        return None
    F = S.facts
    at_j = lambda t, j: subst(t, {K: j})
    if step is h:
        return lambda k: init
    if h not in syms(step):
        # the previous iteration's value
        if at_j(step, I(-1)) is init:
            return lambda k: at_j(step, sub(k, I(1)))
        g0 = at_j(step, I(0))
        if K not in syms(step):
            return lambda k: ite(eq(k, I(0)), init, step)
        return lambda k: ite(eq(k, I(0)), init, at_j(step, sub(k, I(1))))
    if h.sort == "i":
        d = distribute_add(step, h)
        if d is not None:
            if K not in syms(d):
                return lambda k: add(init, mul(k, d))
            return lambda k: _sum(init, d, K, k)
        # geometric / shifts are not needed by the code base
        return None
    if h.sort == "s":
        x = distribute_cat(step, h)
        if x is not None:
            def f(k):
                j = isym(fresh_name("k"), 0, 1 << 62)
                return cat([init, flat(j, k, subst(x, {K: j}))])
            return f
        r = solve_update(lf, step, K, F, common)
        if r is not None:
            return r
        # h[..len-1]-like shrinking
        if step.op == "sub" and step.args[0] is h:
            lo, hi = step.args[1], sub(slen(h), step.args[2])
            if h not in syms(lo) and h not in syms(hi):
                if K not in syms(lo) and K not in syms(hi):
                    return lambda k: subseq(init, mul(k, lo), sub(slen(init), mul(k, hi)))
        return None
    if h.sort == "b":
        c = bool_step(step, h)
        if c is None:
            return None
        kind, c = c
        if h in syms(c):
            return None

        def f(k):
            j = isym(fresh_name("k"), 0, 1 << 62)
            if kind == "and":
                return conj([init, forall(j, k, subst(c, {K: j}))])
            return disj([init, neg(forall(j, k, neg(subst(c, {K: j}))))])
        return f
    return None


def _sum(init, d, K, k):
    j = isym(fresh_name("k"), 0, 1 << 62)
    return add(init, gsum(j, k, subst(d, {K: j})))


def bool_step(step, h):
    if step.op == "and" and h in step.args[0]:
        return "and", conj([x for x in step.args[0] if x is not h])
    if step.op == "or" and h in step.args[0]:
        return "or", disj([x for x in step.args[0] if x is not h])
    return None


def branches(step):
    if step.op == "ite":
        return [(c, v) for c, v in _br(step, [])]
    return [([], step)]


def _br(t, cs):
    if t.op == "ite":
        return _br(t.args[1], cs + [t.args[0]]) + _br(t.args[2], cs + [neg(t.args[0])])
    return [(cs, t)]


def solve_update(lf, step, K, F, common):
    """element or bit updates at consecutive positions"""
    h, init = lf.h, lf.init
    alts = []
    for cs, v in branches(step):
        if any(h in syms(c) for c in cs) and False:
            return None
        if v is h:
            alts.append((cs, None))
        elif v.op in ("upd", "setbit") and v.args[0] is h:
            alts.append((cs, v))
        elif v.op == "cat" or v.op == "sub":
            return None
        else:
            return None
    ups = [v for cs, v in alts if v is not None]
    if not ups or any(v.op != ups[0].op or v.args[1] is not ups[0].args[1] for v in ups):
        return None
    kind, pos = ups[0].op, ups[0].args[1]
    if h in syms(pos):
        return None
    c, d = parts(pos)
    a = d.get(K, 0)
    p0 = sub(pos, scale(K, a))
    if K in syms(p0) or a not in (1, -1):
        return None
    # value written (old content where the branch leaves it alone)
    old = at(h, pos) if kind == "upd" else bit(h, pos)
    val = None
    for cs, v in reversed(alts):
        x = old if v is None else v.args[2]
        val = x if val is None else ite(conj(cs), x, val)
    # reads of h inside val: only positions not yet overwritten
    rd = {}
    for t in subterms(val):
        if t.op == "at" and t.args[0] is h:
            q = t.args[1] if kind == "upd" else scale(t.args[1], 8)
            q2 = q if kind == "upd" else add(q, 7)
            rd[t] = (q, q2)
        elif t.op == "bit" and t.args[0] is h:
            if kind == "setbit":
                rd[t] = (t.args[1], t.args[1])
            else:
                rd[t] = (divc(t.args[1], 8),) * 2
        elif t.op in ("sub", "cat", "len", "eqv", "flat", "enc") and any(x is h for x in t.args):
            if t.op == "len":
                continue
            return None
    F2 = F.fork()
    for f in common:
        F2.add(f)
    m = {}
    for t, (q, q2) in rd.items():
        ok = F2.entails(le(pos, q)) if a == 1 else F2.entails(le(q2, pos))
        if not ok:
            return None
        m[t] = at(init, t.args[1]) if t.op == "at" else bit(init, t.args[1])
    ln = mk("len", (h,), "i")
    m[ln] = slen(init)
    val = subst(val, m)
    if h in syms(val):
        return None

    def f(k):
        j = isym(fresh_name("k"), 0, 1 << 62)
        if a == 1:
            lo = p0
            body = subst(val, {K: j})
        else:
            # positions p0-k+1 .. p0, written by iteration p0 - position
            lo = add(sub(p0, k), 1)
            body = subst(val, {K: sub(sub(k, I(1)), j)})
        if kind == "setbit":
            return bover(init, lo, j, k, body)
        return cat([subseq(init, I(0), lo), gen(j, k, body), subseq(init, add(lo, k), slen(init))])
    return f
