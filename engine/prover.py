"""Entailment between abstract states: linear domain + case splitting + instantiation."""
import terms as T
from terms import *
import lin


class Facts:
    """A conjunction of boolean terms, kept as a list; queries are incremental and cached."""

    __slots__ = ("list", "set", "_cache")

    def __init__(self, lst=None):
        self.list = list(lst or [])
        self.set = set(self.list)
        self._cache = {}

    def fork(self):
        f = Facts.__new__(Facts)
        f.list = list(self.list)
        f.set = set(self.set)
        f._cache = {}
        return f

    def add(self, b):
        """returns False if trivially contradictory"""
        if b is TRUE:
            return True
        if b is FALSE:
            self.list.append(FALSE)
            self.set.add(FALSE)
            return False
        for x in (b.args[0] if b.op == "and" else (b,)):
            if x in self.set:
                continue
            self.list.append(x)
            self.set.add(x)
            self._cache = {}
        return True

    def infeasible_with(self, b):
        """quick check (linear domain + unit literals, no case splits)"""
        if b is FALSE or neg(b) in self.set:
            return True
        if b is TRUE or b in self.set:
            return False
        r = self._cache.get(b)
        if r is None:
            r = quick_infeasible(self.list, b)
            self._cache[b] = r
        return r

    def entails(self, b):
        return self.infeasible_with(neg(b))


def lin_lits(lst):
    les, eqs = [], []
    for x in lst:
        if x.op == "le0":
            les.append(x.args[0])
        elif x.op == "eq0":
            eqs.append(x.args[0])
        elif x.op == "and":
            a, b = lin_lits(x.args[0])
            les += a
            eqs += b
    return les, eqs


def derived(lst, b=None):
    """extra linear facts implied by non-linear-looking literals"""
    out = []
    for x in lst:
        if x.op == "bapp" and x.args[0] == "valid":
            key, s = x.args[1][0].args[0], x.args[1][1]
            if key[0] == "F":
                out.append(eq0(sub(slen(s), flen(key))))
    return out


def quick_infeasible(lst, b):
    if b.op == "or":
        return all(quick_infeasible(lst, x) for x in b.args[0])
    if b.op == "and":
        extra = [x for x in b.args[0]]
    else:
        extra = [b]
    allf = lst + extra
    ex = derived(allf)
    if any(x is FALSE for x in ex):
        return True
    les, eqs = lin_lits(allf + ex)
    # distinctness: t != 0 with bounds
    focus = set()
    for x in extra:
        for t in ([x.args[0]] if x.op in ("le0", "eq0") else []):
            focus.update(parts(t)[1])
    if b.op == "not" and b.args[0].op == "eq0":
        t = b.args[0].args[0]
        focus.update(parts(t)[1])
        return lin.infeasible(les + [add(t, 1)], eqs, focus) and lin.infeasible(les + [sub(I(1), t)], eqs, focus)
    if b.op == "bapp" or (b.op == "not"):
        focus = None
        if not derived(extra):
            return False
        focus = set()
        for x in derived(extra):
            if x.op == "eq0":
                focus.update(parts(x.args[0])[1])
    if not focus:
        return False
    # disequalities already known
    nes = [x.args[0].args[0] for x in lst if x.op == "not" and x.args[0].op == "eq0"]
    if lin.infeasible(les, eqs, focus):
        return True
    for t in nes:
        # strengthen: if t>=0 (or <=0) is entailed then t>=1 (<= -1)
        if not (set(parts(t)[1]) & focus):
            continue
        if lin.infeasible(les + [add(t, 1)], eqs, set(parts(t)[1])):
            les = les + [sub(I(1), t)]
            if lin.infeasible(les, eqs, focus):
                return True
        elif lin.infeasible(les + [sub(I(1), t)], eqs, set(parts(t)[1])):
            les = les + [add(t, 1)]
            if lin.infeasible(les, eqs, focus):
                return True
    return False


# ------------------------------------------------------------------ full prover
class Budget(Exception):
    pass


class Prover:
    def __init__(self, facts, budget=400):
        self.facts = list(facts)
        self.budget = budget
        self.n = 0

    def prove(self, goal):
        try:
            return self._prove(self.facts, goal, 0)
        except Budget:
            return False

    def _prove(self, facts, goal, depth):
        if goal is TRUE or goal in facts:
            return True
        if goal.op == "and":
            return all(self._prove(facts, g, depth) for g in goal.args[0])
        if goal.op == "forall":
            k = isym(fresh_name("sk"), 0)
            return self._prove(facts + [le(I(0), k), lt(k, goal.args[1])], open_binder(goal, k), depth)
        if goal.op == "or":
            gs = goal.args[0]
            # assume all others false; prefer to prove the quantified one
            for i, g in enumerate(gs):
                if g.op == "forall":
                    rest = [neg(x) for j, x in enumerate(gs) if j != i]
                    return self._prove(facts + rest, g, depth)
            return self.contradiction(facts + [neg(x) for x in gs], depth)
        if goal.op == "eqv":
            a, b = goal.args
            if a.sort == "s":
                return self.prove_seqeq(facts, a, b, depth)
            if self.prove_veq(facts, a, b, depth):
                return True
        return self.contradiction(facts + [neg(goal)], depth)

    def prove_veq(self, facts, a, b, depth):
        if a is b:
            return True
        if a.op == "dec" and b.op == "dec" and a.args[0] == b.args[0]:
            return self.prove_seqeq(facts, a.args[1], b.args[1], depth)
        if a.op == b.op and a.op in ("adt", "tuple", "ref", "closure"):
            e = eq(a, b)
            if e.op != "eqv":
                return self._prove(facts, e, depth)
        return False

    def prove_seqeq(self, facts, a, b, depth):
        if a is b:
            return True
        a2, b2 = self.simp(facts, a), self.simp(facts, b)
        if a2 is b2:
            return True
        a, b = a2, b2
        if a.op == "ite" or b.op == "ite":
            return self.contradiction(facts + [mk("not", (mk("eqv", (a, b), "b"),), "b")], depth)
        if not self._prove(facts, eq(slen(a), slen(b)), depth + 1):
            return False
        if a.op == "sub" and b.op == "sub" and a.args[0] is b.args[0]:
            return self._prove(facts, eq(a.args[1], b.args[1]), depth + 1)
        if a.op in ("flat",) and b.op == "flat":
            k = isym(fresh_name("sk"), 0)
            if self._prove(facts, eq(a.args[1], b.args[1]), depth + 1):
                if self._prove(facts + [lt(k, a.args[1])], eq(open_binder(a, k), open_binder(b, k)), depth + 1):
                    return True
        if a.op == "leb" and b.op == "leb":
            return self._prove(facts, eq(a.args[0], b.args[0]), depth + 1)
        if a.op == "cat" and b.op == "cat" and len(a.args[0]) == len(b.args[0]):
            return all(self._prove(facts, seqeq(x, y), depth + 1) for x, y in zip(a.args[0], b.args[0]))
        # pointwise
        k = isym(fresh_name("sk"), 0)
        f2 = facts + [lt(k, slen(a))]
        x, y = at(a, k), at(b, k)
        if (x.op == "at" and x.args[0] is a) and (y.op == "at" and y.args[0] is b):
            return False
        return self._prove(f2, eq(x, y), depth + 1)

    def simp(self, facts, t):
        """rewrite sub/at/ite inside t using what the facts decide"""
        F = facts if isinstance(facts, Facts) else Facts(facts)
        return simp(F, t)

    def contradiction(self, facts, depth):
        self.n += 1
        if self.n > self.budget or depth > 14:
            raise Budget()
        return self._contra(facts, depth)

    def _contra(self, facts, depth):
        # flatten, propagate equalities
        fl, fs = [], set()
        todo = list(facts)
        while todo:
            f = todo.pop(0)
            if f is FALSE:
                return True
            if f is TRUE or f in fs:
                continue
            if f.op == "and":
                todo.extend(f.args[0])
                continue
            fs.add(f)
            fl.append(f)
        for f in fl:
            if f.op in ("not",):
                if f.args[0] in fs:
                    return True
        # substitute int equalities  sym == t
        for f in fl:
            if f.op == "eq0":
                c, d = parts(f.args[0])
                for a, k in sorted(d.items(), key=lambda x: -x[0].id):
                    if a.op == "isym" and abs(k) == 1:
                        rest = from_parts(c, {x: y for x, y in d.items() if x is not a})
                        val = scale(rest, -k)
                        if a in syms(val):
                            continue
                        # keep range facts of the eliminated symbol
                        lo, hi = rng(a)
                        new = []
                        if lo is not None:
                            new.append(le(I(lo), val))
                        if hi is not None:
                            new.append(le(val, I(hi)))
                        memo = {}
                        out = [subst(x, {a: val}, memo) for x in fl if x is not f] + new
                        return self._contra2(out, depth)
        # an atom with a known value
        for f in fl:
            if f.op == "eq0":
                c, d = parts(f.args[0])
                if len(d) == 1:
                    (a, k), = d.items()
                    if c % k == 0 and a.op in ("at", "discr", "fld"):
                        memo = {}
                        m = {a: I(-c // k)}
                        out = [x if x is f else subst(x, m, memo) for x in fl]
                        if any(x is not y for x, y in zip(out, fl)):
                            return self._contra2(out, depth)
        return self._contra3(fl, fs, depth)

    def _contra2(self, facts, depth):
        if any(f is FALSE for f in facts):
            return True
        return self._contra(facts, depth)

    def _contra3(self, fl, fs, depth):
        ex = derived(fl)
        if any(x is FALSE for x in ex):
            return True
        les, eqs = lin_lits(fl + ex)
        if lin.infeasible(les, eqs):
            return True
        # unit propagation on disjunctions and disequalities
        drop, newf = set(), []
        for f in fl:
            if f.op == "or":
                keep = []
                for x in f.args[0]:
                    if neg(x) in fs or quick_infeasible(fl, x):
                        continue
                    keep.append(x)
                if not keep:
                    return True
                if len(keep) < len(f.args[0]):
                    rest = [g for g in fl if g is not f]
                    return self.contradiction(rest + [disj(keep)], depth)
            if f.op == "not" and f.args[0].op == "eq0":
                t = f.args[0].args[0]
                fo = set(parts(t)[1])
                lo_bad = lin.infeasible(les + [add(t, 1)], eqs, fo)
                hi_bad = lin.infeasible(les + [sub(I(1), t)], eqs, fo)
                if lo_bad and hi_bad:
                    return True
                if lo_bad or hi_bad:
                    g = le0(sub(I(1), t)) if lo_bad else le0(add(t, 1))
                    drop.add(f)
                    if g not in fs and g not in newf:
                        newf.append(g)
                        les = les + [g.args[0]]
        if newf:
            return self.contradiction([x for x in fl if x not in drop] + newf, depth)
        # negated value/sequence equalities: try to show them equal
        for f in fl:
            if f.op == "not" and f.args[0].op == "eqv":
                a, b = f.args[0].args
                rest = [x for x in fl if x is not f]
                a2, b2 = self.simp(rest, a), self.simp(rest, b)
                if a2 is not a or b2 is not b:
                    e = eq(a2, b2)
                    if e is TRUE:
                        return True
                    return self.contradiction(rest + [neg(e)], depth + 1)
                if a.sort == "s" and a.op != "ite" and b.op != "ite":
                    if self.prove_seqeq(rest, a, b, depth + 1):
                        return True
                elif a.sort == "v":
                    if self.prove_veq(rest, a, b, depth + 1):
                        return True
        # congruence for valid(): valid(s1) and not valid(s2) with s1 == s2
        pos = [f for f in fl if f.op == "bapp" and f.args[0] == "valid"]
        ngs = [f.args[0] for f in fl if f.op == "not" and f.args[0].op == "bapp" and f.args[0].args[0] == "valid"]
        for p in pos:
            for q in ngs:
                if p.args[1][0] is q.args[1][0]:
                    rest = [f for f in fl if f is not p and not (f.op == "not" and f.args[0] is q)]
                    n0 = self.n
                    try:
                        sub_p = Prover(rest, 60)
                        sub_p.n = 0
                        if sub_p._prove(rest, seqeq(p.args[1][1], q.args[1][1]), depth + 3):
                            return True
                    except Budget:
                        pass
        # simplify atoms with the facts
        F = Facts(fl)
        changed = False
        out = []
        for f in fl:
            G = F
            if f.op in ("le0", "eq0", "not", "bapp", "eqv", "bit"):
                g = simp_top(G, f)
            else:
                g = f
            if g is not f:
                changed = True
            out.append(g)
        if changed:
            return self.contradiction(out, depth + 1)
        # instantiate universals
        inst = self.instances(fl, fs)
        if inst:
            return self.contradiction(fl + inst, depth + 1)
        # skolemise negated universals
        for f in fl:
            if f.op == "not" and f.args[0].op == "forall":
                q = f.args[0]
                k = isym(fresh_name("sk"), 0)
                rest = [x for x in fl if x is not f]
                return self.contradiction(rest + [le(I(0), k), lt(k, q.args[1]), neg(open_binder(q, k))], depth + 1)
        # case split
        c = self.pick_split(fl)
        if c is None:
            return False
        kind, x, f = c
        rest = [g for g in fl if g is not f]
        if kind == "or":
            return all(self.contradiction(rest + [y], depth + 1) for y in x)
        if kind == "ite":
            memo1, memo2 = {}, {}
            a = [replace_cond(g, x, TRUE) for g in fl] + [x]
            b = [replace_cond(g, x, FALSE) for g in fl] + [neg(x)]
            return self.contradiction(a, depth + 1) and self.contradiction(b, depth + 1)
        return False

    def instances(self, fl, fs):
        foralls = [f for f in fl if f.op == "forall"]
        pre = [b for b in sum_facts(Facts(fl), fl) if b not in fs]
        if pre or not foralls:
            return pre
        cands = set()
        for f in fl:
            if f.op == "forall":
                continue
            for t in subterms(f):
                if t.op == "isym" and t.args[0].startswith(("sk", "K", "j")):
                    cands.add(t)
        base = list(cands)
        low = set()
        for t in base:
            cands.add(add(t, -1))
            low.add(add(t, -1))
            cands.add(add(t, 1))
        cands.add(I(0))
        for f in foralls:
            cands.add(sub(f.args[1], I(1)))
        out = []
        F = Facts(fl)
        done = getattr(self, "_inst", None)
        if done is None:
            done = self._inst = set()
        for f in foralls:
            for t in cands:
                g = conj([le(I(0), t), lt(t, f.args[1])])
                if g is FALSE:
                    continue
                body = open_binder(f, t)
                gi = implies(g, body)
                if gi in fs or gi is TRUE:
                    continue
                # only when the guard is decided, to avoid useless splits
                if not F.entails(lt(t, f.args[1])):
                    continue
                if F.entails(le(I(0), t)):
                    if body in fs or body is TRUE or (body.op == "and" and all(x in fs for x in body.args[0])):
                        continue
                    out.append(body)
                elif t in low and not F.entails(lt(t, I(0))):
                    out.append(gi)
        out += chains(F, foralls, cands)
        # dedupe
        res = []
        for b in out:
            if b not in fs and b not in res:
                res.append(b)
        return res

    def pick_split(self, fl):
        ors = [f for f in fl if f.op == "or"]
        if ors:
            f = min(ors, key=lambda x: (len(x.args[0]), x.id))
            return ("or", f.args[0], f)
        for f in fl:
            if f.op in ("forall",):
                continue
            c = find_ite(f)
            if c is not None:
                return ("ite", c, f)
        return None


def chains(F, foralls, cands):
    """t(k) <= t(k+1) for all k < n  gives  t(i) <= t(j) for 0 <= i <= j <= n"""
    out = []
    k = isym("chain", 0)
    k1 = add(k, 1)
    for f in foralls:
        body = open_binder(f, k)
        for b in (body.args[0] if body.op == "and" else (body,)):
            if b.op != "le0":
                continue
            c, d = parts(b.args[0])
            if c > 0 or len(d) != 2:
                continue
            (x, kx), (y, ky) = d.items()
            if kx + ky != 0 or abs(kx) != 1:
                continue
            p, q = (x, y) if kx == 1 else (y, x)
            if subst(p, {k: k1}) is not q:
                continue
            n = f.args[1]
            for t in cands:
                if F.entails(le(I(0), t)) and F.entails(le(t, n)):
                    if t is not I(0):
                        out.append(le(subst(p, {k: I(0)}), subst(p, {k: t})))
                    if t is not n:
                        out.append(le(subst(p, {k: t}), subst(p, {k: n})))
    return [b for b in out if b is not TRUE]


def sum_facts(F, fl):
    """monotonicity of sums of non-negative terms"""
    sums = {}
    for f in fl:
        for t in subterms(f):
            if t.op == "sum" and not freebv(t):
                sums.setdefault((t.args[0], t.args[2]), []).append(t)
    out = []
    for ts in sums.values():
        if len(ts) > 6:
            continue
        for a in ts:
            k = isym("sumk", 0)
            lo, _ = rng(open_binder(a, k))
            if lo is None or lo < 0:
                continue
            for b in ts:
                if a is b:
                    continue
                na, nb = a.args[1], b.args[1]
                if F.entails(lt(na, nb)) and F.entails(le(I(0), na)):
                    out.append(le(add(a, open_binder(a, na)), b))
                elif F.entails(le(na, nb)):
                    out.append(le(a, b))
    # products with a common non-negative factor
    muls = {}
    for f in fl:
        for t in subterms(f):
            if t.op == "mul" and len(t.args[0]) == 2 and not freebv(t):
                x, y = t.args[0]
                for u, v in ((x, y), (y, x)):
                    lo = rng(u)[0]
                    if lo is not None and lo >= 0:
                        muls.setdefault(u, set()).add(v)
    for u, vs in muls.items():
        vs = sorted(vs | {I(0), I(1)}, key=lambda z: z.id)
        if len(vs) > 8:
            continue
        for a in vs:
            for b in vs:
                if a is b or (a.op == "int" and b.op == "int"):
                    continue
                if F.entails(lt(a, b)):
                    out.append(le(add(mul(u, a), u), mul(u, b)))
                elif F.entails(le(a, b)):
                    out.append(le(mul(u, a), mul(u, b)))
    return [b for b in out if b is not TRUE]


def find_ite(t):
    best = None
    for x in subterms(t):
        if x.op == "ite" and not freebv(x.args[0]):
            c = x.args[0]
            # innermost condition without nested ite
            if find_ite(c) is None:
                if best is None or c.id < best.id:
                    best = c
    return best


def replace_cond(t, c, val):
    """t with every ite on condition c decided"""
    memo = {}

    def go(x):
        if x.op in ("isym", "ssym", "vsym", "bsym", "int", "bool", "bv"):
            return x
        r = memo.get(x)
        if r is not None:
            return r
        if x is c or (x.op == "ite" and x.args[0] is c):
            r = val if x is c else go(x.args[1] if val is TRUE else x.args[2])
        elif x.op in BINDERS and x.mb:
            r = x
        else:
            r = rebuild(x, go)
        memo[x] = r
        return r

    return go(t)


def decide(F, c):
    if c is TRUE or c is FALSE:
        return c
    if c in F.set:
        return TRUE
    if neg(c) in F.set:
        return FALSE
    if c.op in ("le0", "eq0") or (c.op == "not" and c.args[0].op == "eq0"):
        if F.infeasible_with(c):
            return FALSE
        if F.infeasible_with(neg(c)):
            return TRUE
    if c.op == "and":
        ds = [decide(F, x) for x in c.args[0]]
        if any(x is FALSE for x in ds):
            return FALSE
        if all(x is TRUE for x in ds):
            return TRUE
    if c.op == "or":
        ds = [decide(F, x) for x in c.args[0]]
        if any(x is TRUE for x in ds):
            return TRUE
        if all(x is FALSE for x in ds):
            return FALSE
    return None


def simp_top(F, f):
    """simplify inside a fact without using the fact itself"""
    G = Facts([x for x in F.list if x is not f])
    if f.op == "not":
        return neg(simp(G, f.args[0], top=True))
    return simp(G, f, top=True)


def simp(F, t, top=False, memo=None):
    memo = {} if memo is None else memo

    def go(x):
        if x.op in ("isym", "ssym", "vsym", "bsym", "int", "bool", "bv"):
            return x
        if x.mb:
            return x
        r = memo.get(x)
        if r is not None:
            return r
        if x.op == "ite":
            d = decide(F, x.args[0])
            if d is TRUE:
                r = go(x.args[1])
            elif d is FALSE:
                r = go(x.args[2])
            else:
                r = rebuild(x, go)
        elif x.op in ("sub", "at", "bit", "le"):
            y = rebuild(x, go)
            r = resolve(F, y) if y.op != "le" else (at(y.args[0], I(0)) if F.entails(eq(slen(y.args[0]), I(1))) else y)
            if r is not y:
                r = go(r)
        elif x.op == "eqv" or (x.op in ("le0", "eq0") and x is not t):
            y = rebuild(x, go)
            d = decide(F, y) if not (top and x is t) else None
            r = d if d is not None else y
        else:
            y = rebuild(x, go)
            r = y
        memo[x] = r
        return r

    return go(t)


def resolve(F, x):
    """sub/at/bit over cat, upd, ... with offsets decided by the facts"""
    if x.op == "bit":
        s, i = x.args
        if s.op == "cat":
            pos = I(0)
            for p in s.args[0]:
                nxt = add(pos, slen(p))
                if F.entails(le(scale(pos, 8), i)) and F.entails(lt(i, scale(nxt, 8))):
                    return bit(p, sub(i, scale(pos, 8)))
                if not F.entails(le(scale(nxt, 8), i)):
                    return x
                pos = nxt
        return x
    if x.op == "at":
        s, i = x.args
        if s.op == "cat":
            pos = I(0)
            for p in s.args[0]:
                nxt = add(pos, slen(p))
                if F.entails(lt(i, nxt)):
                    return at(p, sub(i, pos))
                if not F.entails(le(nxt, i)):
                    return x
                pos = nxt
        if s.op == "setbit":
            if F.entails(lt(i, divc(s.args[1], 8))) or F.entails(lt(divc(s.args[1], 8), i)):
                return at(s.args[0], i)
        return x
    if x.op == "sub":
        s, lo, hi = x.args
        if F.entails(eq(lo, hi)):
            return EMPTY
        if s.op == "cat":
            pos = I(0)
            acc = []
            started = False
            for p in s.args[0]:
                nxt = add(pos, slen(p))
                if not started:
                    if F.entails(le(nxt, lo)):
                        pos = nxt
                        continue
                    if not (F.entails(le(pos, lo)) and F.entails(lt(lo, nxt))) and not F.entails(eq(pos, lo)):
                        return x
                    started = True
                    a = sub(lo, pos) if not F.entails(eq(pos, lo)) else I(0)
                else:
                    a = I(0)
                if F.entails(le(hi, nxt)):
                    b = slen(p) if F.entails(eq(hi, nxt)) else sub(hi, pos)
                    acc.append(subseq(p, a, b))
                    return cat(acc)
                if not F.entails(le(nxt, hi)):
                    return x
                acc.append(subseq(p, a, slen(p)))
                pos = nxt
        if F.entails(eq(lo, I(0))) and F.entails(eq(hi, slen(s))):
            return s
    return x


def prove(facts, goal, budget=400):
    lst = facts.list if isinstance(facts, Facts) else facts
    return Prover(lst, budget).prove(goal)
