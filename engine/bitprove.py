"""Entailment on bits: byte predicates are expanded to bits, quantifiers instantiated at the indices that occur,
the rest decided by unit propagation, the linear domain and case splits."""
import time
from terms import *
import lin


class Unrep(Exception):
    """a value the specification cannot address"""


class Budget(Exception):
    pass


def flatten(fs):
    out, seen = [], set()
    st = list(reversed(list(fs)))
    while st:
        f = st.pop()
        if f in seen or f is TRUE:
            continue
        seen.add(f)
        if f.op == "and":
            st.extend(reversed(f.args[0]))
        else:
            out.append(f)
    return out


# ------------------------------------------------------------------ byte predicates to bits
def isbyte(t):
    lo, hi = rng(t)
    return lo is not None and hi is not None and lo >= 0 and hi <= 255


def bytelike(t):
    """t is a byte expression whose bits have a meaning"""
    return t.op in ("at", "band", "bor", "bxor", "pow2", "div") and isbyte(t) or (t.op == "lin" and isbyte(t) and bits_ok(t))


def bits_ok(t):
    return all(b.op != "bitof" for e in range(8) for b in subterms(bitof(t, I(e))) if b.op == "bitof")


def bits8(t):
    return [bitof(t, I(e)) for e in range(8)]


def val_bits(t, v):
    """bits of t equal the constant v"""
    return conj([b if (v >> e) & 1 else neg(b) for e, b in enumerate(bits8(t))])


def expand(f):
    """byte-level literal as bits, or None"""
    if f.op == "not":
        g = expand(f.args[0])
        return None if g is None else neg(g)
    if f.op in ("eq0", "le0"):
        t = f.args[0]
        c, d = parts(t)
        for s in (1, -1):
            # byte expression s*t + k
            u = scale(t, s)
            cu, du = parts(u)
            best = None
            for base in cand_bytes(u):
                x, k = base
                # u = x + k
                if f.op == "eq0":
                    v = -k
                    if 0 <= v <= 255:
                        return val_bits(x, v)
                    return FALSE
                if s == 1:
                    # x + k <= 0
                    b = -k
                    if b < 0:
                        return FALSE
                    if b >= 255:
                        return TRUE
                    return le_const(x, b)
                # -t = x + k, t <= 0 <=> x >= -k
                b = -k
                if b <= 0:
                    return TRUE
                if b > 255:
                    return FALSE
                return neg(le_const(x, b - 1))
    return None


_deep = {}


def deep(f):
    """f with the byte literals expanded, or None"""
    if f.op in ("eq0", "le0", "not"):
        return expand(f)
    if f.op not in ("or", "and"):
        return None
    r = _deep.get(f)
    if r is None:
        out, ch = [], False
        for x in f.args[0]:
            g = deep(x)
            ch = ch or g is not None
            out.append(x if g is None else g)
        r = _deep[f] = ((disj(out) if f.op == "or" else conj(out)) if ch else None,)
    return r[0]


def le_const(x, b):
    """x <= b on bits (b in 0..254)"""
    bs = bits8(x)
    # exists no position where x has 1 and b 0 with equality above; build from the top
    r = TRUE
    for e in range(8):
        if (b >> e) & 1:
            r = disj([neg(bs[e]), r])
        else:
            r = conj([neg(bs[e]), r])
    return r


def cand_bytes(u):
    """ways to read u as byte expression + constant"""
    c, d = parts(u)
    if len(d) == 1:
        (a, k), = d.items()
        if k == 1 and bytelike(a):
            yield a, c
            return
    for k in (0, 255):
        t = from_parts(k, d)
        if d and isbyte(t) and bytelike(t):
            yield t, c - k
            return


# ------------------------------------------------------------------ quantifiers
def has_bits(t):
    return any(x.op == "bit" or (x.op == "bitof") for x in subterms(t))


def bit_index(t):
    """(byte index, e) of a bit index 8*a + e"""
    q = divc(t, 8)
    e = sub(t, scale(q, 8))
    if e.op == "int":
        return q, e.args[0]
    return None


def bv_of(f):
    return mk("bv", (f.args[0],), "i")


def triggers(f):
    """(bit positions, byte positions) that occur in terms: sets of index terms, and plain indices"""
    bits, byts = {}, {}
    for x in subterms(f):
        if x.op == "bit" and not freebv(x):
            bits[x.args[1]] = 1
        elif x.op == "at" and not freebv(x):
            byts[x.args[1]] = 1
    return bits, byts


def inst_points(f, bits, byts):
    """values of the bound variable of the universal fact f worth trying"""
    k = bv_of(f)
    out = {}
    for x in subterms(f.args[2]):
        if x.op == "bit" and k in syms(x.args[1]):
            c, d = parts(x.args[1])
            co = d.get(k)
            rest = sub(x.args[1], scale(k, co)) if co else None
            if co is None or k in syms(rest) or freebv(rest):
                continue
            for i in bits:
                t = sub(i, rest)
                if co == 1:
                    out[t] = 1
                else:
                    q = divc(t, co)
                    if sub(t, scale(q, co)) is I(0) or True:
                        out[q] = 1
        elif x.op == "at" and k in syms(x.args[1]):
            c, d = parts(x.args[1])
            co = d.get(k)
            if co not in (1, -1):
                continue
            rest = sub(x.args[1], scale(k, co))
            if k in syms(rest) or freebv(rest):
                continue
            for i in list(byts) + [divc(i, 8) for i in bits]:
                out[scale(sub(i, rest), co)] = 1
        elif x.op in ("eq0", "le0") and k in syms(x):
            c, d = parts(x.args[0])
            co = d.get(k)
            if co in (1, -1):
                t = scale(sub(scale(k, co), x.args[0]), co)
                if k not in syms(t) and not freebv(t):
                    out[t] = 1
    return list(out)


def named(t):
    return any(x.op == "isym" and x.args[0].startswith(("K#", "p#")) for x in syms(t))


def instantiate(foralls, fs, goal_terms, done, first=False):
    bits, byts = {}, {}
    for g in goal_terms:
        b, y = triggers(g)
        bits.update(b)
        byts.update(y)
    if first:
        # the indices under consideration before those of the operands' ends
        b2, y2 = {i: 1 for i in bits if named(i)}, {i: 1 for i in byts if named(i)}
        if b2 or y2:
            bits, byts = b2, y2
    new = []
    for f in foralls:
        for t in inst_points(f, bits, byts):
            if (f, t) in done or len(done) > 400:
                continue
            if any(x.op in ("div", "divt") for x in parts(t)[1]) and not all(x.op in ("div",) for x in parts(t)[1] if x.op in ("div", "divt")):
                continue
            done.add((f, t))
            g = disj([lt(t, I(0)), le(f.args[1], t), open_binder(f, t)])
            if g is not TRUE:
                new.append(g)
    return new


# ------------------------------------------------------------------ prover
class B:
    def __init__(self, secs, nodes):
        self.t1 = time.time() + secs
        self.nodes = nodes
        self.lin = {}

    def tick(self):
        self.nodes -= 1
        if self.nodes < 0 or time.time() > self.t1:
            raise Budget()


def prove(facts, goal, quick=False, secs=10, nodes=4000):
    b = B(1 if quick else secs, 60 if quick else nodes)
    try:
        if quick:
            return _prove(list(facts), goal, b, 0)
        return start(list(facts), goal, b, 0)
    except Budget:
        return False
    except RecursionError:
        return False


def start(fs, goal, b, depth):
    """choices and leading-zero counts first"""
    b.tick()
    fs = propagate(fs, b)
    if fs is None or goal is TRUE:
        return True
    x = eq_subst(fs)
    if x is not None:
        m, rest = x
        return start([subst(f, m) for f in fs] + rest, subst(goal, m), b, depth + 1)
    for c in ite_conds(fs + ([goal.args[1]] if goal.op == "forall" else [goal])) or ite_conds([goal], True):
        v = TRUE if c in fs else FALSE if neg(c) in fs else decide(fs, c, b)
        if v is None:
            return all(start(setcond(fs, c, x) + [c if x is TRUE else neg(c)], subst(goal, {c: x}), b, depth + 1) for x in (TRUE, FALSE))
        return start(setcond(fs, c, v), subst(goal, {c: v}), b, depth + 1)
    for f in fs + [goal]:
        for x in subterms(f):
            if x.op in ("clz", "ctz") and not freebv(x) and x.args[1] == 8:
                known = None
                for g in fs:
                    if g.op == "eq0":
                        c, d = parts(g.args[0])
                        if len(d) == 1 and x in d:
                            known = -c // d[x]
                for v in range(9) if known is None else [known]:
                    g = [subst(g, {x: I(v)}) for g in fs] + count_bits(x, v)
                    if not start(g, subst(goal, {x: I(v)}), b, depth + 1):
                        return False
                return True
    return _prove(fs, goal, b, depth)


def count_bits(x, v):
    t = x.args[0]
    if x.op == "clz":
        return [neg(bitof(t, I(e))) for e in range(8 - v, 8)] + ([bitof(t, I(7 - v))] if v < 8 else [])
    return [neg(bitof(t, I(e))) for e in range(0, v)] + ([bitof(t, I(v))] if v < 8 else [])


def eq_subst(fs):
    """an equation that eliminates a number: ({symbol: value}, range facts of the symbol)"""
    for f in fs:
        if f.op != "eq0":
            continue
        c, d = parts(f.args[0])
        for a, k in sorted(d.items(), key=lambda x: -x[0].id):
            if a.op == "isym" and abs(k) == 1:
                val = scale(from_parts(c, {x: y for x, y in d.items() if x is not a}), -k)
                if a in syms(val):
                    continue
                lo, hi = rng(a)
                rest = []
                if lo is not None:
                    rest.append(le(I(lo), val))
                if hi is not None:
                    rest.append(le(val, I(hi)))
                return {a: val}, [r for r in rest if r is not TRUE]
    return None


def unfold(f):
    """bits of concatenations by position"""
    m = {}
    for x in subterms(f):
        if x.op == "bit" and x.args[0].op == "cat" and not freebv(x):
            i = x.args[1]
            r = None
            ps = []
            pos = I(0)
            for p in x.args[0].args[0]:
                ps.append((p, pos))
                pos = add(pos, slen(p))
            r = bit(ps[-1][0], sub(i, scale(ps[-1][1], 8)))
            for p, o in reversed(ps[:-1]):
                r = bite(lt(i, scale(add(o, slen(p)), 8)), bit(p, sub(i, scale(o, 8))), r)
            m[x] = r
    return subst(f, m) if m else f


def _prove(fs, goal, b, depth):
    b.tick()
    if goal is TRUE or goal in fs:
        return True
    if goal.op == "and":
        return all(_prove(fs, g, b, depth) for g in goal.args[0])
    if goal.op == "forall" and goal.args[1].op == "int" and goal.args[1].args[0] <= 64:
        return all(_prove(fs, open_binder(goal, I(j)), b, depth + 1) for j in range(goal.args[1].args[0]))
    if goal.op == "forall":
        k = isym(fresh_name("p"), 0)
        if has_bits(goal.args[2]) and uses_bit_index(goal):
            for e in range(8):
                j = add(scale(k, 8), e)
                if not _prove(fs + [lt(j, goal.args[1])], open_binder(goal, j), b, depth + 1):
                    return False
            return True
        return _prove(fs + [lt(k, goal.args[1])], open_binder(goal, k), b, depth + 1)
    if goal.op == "eqv" and goal.args[0].sort == "s":
        return prove_seq(fs, goal.args[0], goal.args[1], b, depth)
    if goal.op == "or":
        gs = goal.args[0]
        for i, g in enumerate(gs):
            if g.op in ("forall", "and", "eqv"):
                rest = [neg(x) for j, x in enumerate(gs) if j != i]
                return _prove(fs + rest, g, b, depth + 1)
    return refute(fs + [neg(goal)], b, depth)


def uses_bit_index(f):
    k = bv_of(f)
    for x in subterms(f.args[2]):
        if x.op == "bit" and parts(x.args[1])[1].get(k) in (1, -1):
            return True
    return False


def isbytes(s):
    return esort(s) == "u8"


def prove_seq(fs, x, y, b, depth):
    if x is y:
        return True
    if not _prove(fs, eq(slen(x), slen(y)), b, depth + 1):
        return False
    k = isym(fresh_name("p"), 0)
    f2 = fs + [lt(k, slen(x))]
    if isbytes(x) or isbytes(y):
        return all(_prove(f2, iff(bit(x, add(scale(k, 8), e)), bit(y, add(scale(k, 8), e))), b, depth + 1) for e in range(8))
    u, v = at(x, k), at(y, k)
    if u.sort == "b":
        if uses8(u) or uses8(v):
            k = isym(fresh_name("p"), 0)
            return all(_prove(fs + [lt(add(scale(k, 8), e), slen(x))],
                              iff(at(x, add(scale(k, 8), e)), at(y, add(scale(k, 8), e))), b, depth + 1) for e in range(8))
        return _prove(f2, iff(u, v), b, depth + 1)
    if u.op == "at" and v.op == "at":
        return False
    return _prove(f2, eq(u, v), b, depth + 1)


def uses8(t):
    return any(x.op == "bit" for x in subterms(t))


def linfeas(lits, b):
    les, eqs = [], []
    for x in lits:
        if x.op == "le0":
            les.append(x.args[0])
        elif x.op == "eq0":
            eqs.append(x.args[0])
    key = (frozenset(les), frozenset(eqs))
    r = b.lin.get(key)
    if r is None:
        r = b.lin[key] = lin.infeasible(les, eqs)
    return r


def islin(x):
    return x.op in ("le0", "eq0") or (x.op == "not" and x.args[0].op == "eq0")


def lin_false(lits, x, b):
    """linear literal x is impossible with lits"""
    if x.op == "not":
        t = x.args[0].args[0]
        return linfeas(lits + [le0(add(t, 1))], b) and linfeas(lits + [le0(sub(I(1), t))], b)
    return linfeas(lits + [x], b)


def refute(fs, b, depth, done=None, rounds=0):
    """the facts are contradictory"""
    b.tick()
    if depth > 300:
        raise Budget()
    fs = propagate(fs, b)
    if fs is None:
        return True
    x = eq_subst(fs)
    if x is not None:
        m, rest = x
        return refute([subst(f, m) for f in fs] + rest, b, depth + 1, done, rounds)
    # negated universals and sequence equations
    for f in fs:
        if f.op == "not" and f.args[0].op == "forall":
            q = f.args[0]
            rest = [x for x in fs if x is not f]
            k = isym(fresh_name("p"), 0)
            if has_bits(q.args[2]) and uses_bit_index(q):
                return all(refute(rest + [lt(add(scale(k, 8), e), q.args[1]), neg(open_binder(q, add(scale(k, 8), e)))], b, depth + 1, done, rounds) for e in range(8))
            return refute(rest + [lt(k, q.args[1]), neg(open_binder(q, k))], b, depth + 1, done, rounds)
        if f.op == "not" and f.args[0].op == "eqv" and f.args[0].args[0].sort == "s":
            x, y = f.args[0].args
            rest = [g for g in fs if g is not f]
            if isbytes(x) or isbytes(y):
                if prove_seq(rest, x, y, b, depth + 1):
                    return True
                fs = rest
        if f.op == "eqv" and f.args[0].sort == "s":
            x, y = f.args
            if x.op not in ("sapp", "ssym"):
                x, y = y, x
            if x.op in ("sapp", "ssym") and x not in subterms(y):
                rest = [subst(g, {x: y}) for g in fs if g is not f]
                return refute(rest + [eq(slen(x), slen(y))], b, depth + 1, done, rounds)
    return dpll(fs, b, depth, done, rounds)


def subvars(t, m):
    return subst(t, m)


def propagate(fs, b):
    """flatten, expand bytes, unit resolution; None if contradictory"""
    fs = flatten(fs)
    for _ in range(60):
        if FALSE in fs:
            return None
        ch = False
        out = []
        for f in fs:
            if f.op != "forall":
                g = unfold(f)
                if g is not f:
                    ch = True
                    out.append(g)
                    continue
            elif f.args[1].op == "int" and f.args[1].args[0] <= 16:
                ch = True
                out.append(conj([open_binder(f, I(j)) for j in range(f.args[1].args[0])]))
                continue
            g = deep(f)
            if g is not None:
                ch = True
                # keep the linear form of equalities with constants: they may occur in indices
                out.append(g)
                if f.op == "eq0":
                    pass
            else:
                out.append(f)
        if ch:
            fs = flatten(out)
            continue
        m = {}
        for f in fs:
            if f.op == "not":
                if m.get(f.args[0]) is TRUE:
                    return None
                m[f.args[0]] = FALSE
            elif f.op not in ("or", "forall"):
                if m.get(f) is FALSE:
                    return None
                m[f] = TRUE
        out = []
        for f in fs:
            if f.op == "or":
                g = lits(f, m)
                ch = ch or g is not f
                out.append(g)
            else:
                out.append(f)
        if not ch:
            break
        fs = flatten(out)
    if FALSE in fs:
        return None
    L = [f for f in fs if f.op in ("le0", "eq0")]
    if L and linfeas(L, b):
        return None
    return fs


def lits(f, m):
    r = m.get(f)
    if r is not None:
        return r
    if f.op == "not":
        return neg(lits(f.args[0], m))
    if f.op == "and":
        return conj([lits(x, m) for x in f.args[0]])
    if f.op == "or":
        return disj([lits(x, m) for x in f.args[0]])
    return f


def leaves(f, out):
    if f.op in ("and", "or"):
        for x in f.args[0]:
            leaves(x, out)
    elif f.op == "not":
        leaves(f.args[0], out)
    else:
        out[f] = 1


def ite_conds(fs, inside=False):
    out, seen = {}, set()
    for f in fs:
        if f.op == "forall" and not inside:
            continue
        for x in subterms(f, seen):
            if x.op == "ite" and x.args[0].op != "bool" and not freebv(x.args[0]):
                out[x.args[0]] = 1
    return list(out)


def setcond(fs, c, v):
    m = {c: v}
    n = neg(c)
    return [x if x is c or x is n else subst(x, m) for x in fs]


def decide(fs, x, b):
    """TRUE / FALSE if the facts decide the literal"""
    L = [f for f in fs if f.op in ("le0", "eq0")]
    y = x
    if islin(y):
        if lin_false(L, y, b):
            return FALSE
        n = neg(y)
        if islin(n) and lin_false(L, n, b):
            return TRUE
    return None


def dpll(fs, b, depth, done=None, rounds=0):
    b.tick()
    done = set(done) if done is not None else set()
    # choices in terms
    for c in ite_conds(fs):
        v = TRUE if c in fs else FALSE if neg(c) in fs else decide(fs, c, b)
        if v is None:
            return all(refute(setcond(fs, c, x) + [c if x is TRUE else neg(c)], b, depth + 1, done, rounds) for x in (TRUE, FALSE))
        return refute(setcond(fs, c, v), b, depth + 1, done, rounds)
    # leading-zero counts of bytes: by value
    for f in fs:
        for x in subterms(f):
            if x.op in ("clz", "ctz") and not freebv(x) and x.args[1] == 8:
                for v in range(9):
                    if not refute([subst(g, {x: I(v)}) for g in fs] + count_bits(x, v), b, depth + 1, done, rounds):
                        return False
                return True
    # linear decision of disjuncts
    L = [f for f in fs if f.op in ("le0", "eq0")]
    nes = [f for f in fs if f.op == "not" and f.args[0].op == "eq0"]
    for f in nes:
        if lin_false(L, f, b):
            return True
    ors = [f for f in fs if f.op == "or"]
    m = {}
    seenl = set()
    for f in ors:
        o = {}
        leaves(f, o)
        for x in o:
            if x in seenl or x.op not in ("le0", "eq0"):
                continue
            seenl.add(x)
            v = decide(fs, x, b)
            if v is not None:
                m[x] = v
    if m:
        return refute([lits(f, m) if f.op == "or" else f for f in fs], b, depth + 1, done, rounds)
    # positions first, then a byte that is not zero by bit
    if rounds == 0:
        for f in ors:
            o = {}
            leaves(f, o)
            if any(x.op == "bit" for x in o):
                for x in o:
                    if x.op == "le0":
                        for v, w in ((TRUE, x), (FALSE, neg(x))):
                            g = propagate([lits(y, {x: v}) if y.op == "or" else y for y in fs] + [w], b)
                            if g is not None and not dpll2(g, b, depth + 1, done, rounds):
                                return False
                        return True
        for f in ors:
            o = {}
            leaves(f, o)
            if all(x.op == "bit" for x in o):
                rest = [x for x in fs if x is not f]
                for x in f.args[0]:
                    g = propagate(rest + [x], b)
                    if g is not None and not dpll2(g, b, depth + 1, done, rounds):
                        return False
                return True
    # equal indices
    cong = congruence(fs, L, b, done)
    if cong is True:
        return True
    # instances
    if rounds < 3:
        fa = [f for f in fs if f.op == "forall"]
        new = instantiate(fa, fs, [f for f in fs if f.op != "forall"], done, rounds == 0)
        if not new and not cong and rounds == 0:
            rounds = 1
            new = instantiate(fa, fs, [f for f in fs if f.op != "forall"], done)
        if new or cong:
            g = propagate(fs + new + cong, b)
            if g is None:
                return True
            return dpll2(g, b, depth + 1, done, rounds + 1)
    elif cong:
        g = propagate(fs + cong, b)
        return True if g is None else dpll2(g, b, depth + 1, done, rounds)
    # split
    if ors:
        f = min(ors, key=lambda f: (len(f.args[0]), f.id))
        rest = [x for x in fs if x is not f]
        prev = []
        for x in f.args[0]:
            g = propagate(rest + [x] + prev, b)
            if g is not None and not dpll2(g, b, depth + 1, done, rounds):
                return False
            prev.append(neg(x))
        return True
    if nes:
        f = nes[0]
        t = f.args[0].args[0]
        rest = [x for x in fs if x is not f]
        if len(parts(t)[1]) > 0 and not getattr(b, "nosplit", False):
            for x in (le0(add(t, 1)), le0(sub(I(1), t))):
                g = propagate(rest + [x], b)
                if g is not None and not dpll2(g, b, depth + 1, done, rounds):
                    return False
            return True
    return False


def dpll2(fs, b, depth, done, rounds):
    if depth > 300:
        raise Budget()
    for f in fs:
        if f.op == "not" and f.args[0].op in ("forall", "eqv"):
            return refute(fs, b, depth, done, rounds)
    return dpll(fs, b, depth, set(done), rounds)


def congruence(fs, L, b, done):
    """bits of one sequence at indices that may be equal"""
    by = {}
    for f in fs:
        if f.op == "forall":
            continue
        for x in subterms(f):
            if x.op in ("bit", "at") and not freebv(x):
                by.setdefault((x.op, x.args[0]), {})[x] = 1
    out = []
    for xs in by.values():
        xs = list(xs)
        for i in range(len(xs)):
            for j in range(i):
                x, y = xs[i], xs[j]
                if ("c", x, y) in done:
                    continue
                e = eq(x.args[1], y.args[1])
                if e is FALSE:
                    continue
                done.add(("c", x, y))
                v = TRUE if e in fs else FALSE if neg(e) in fs else decide(fs, e, b)
                if v is FALSE:
                    continue
                same = iff(x, y) if x.op == "bit" else eq(x, y)
                out.append(same if v is TRUE else disj([neg(e), same]))
    return out
