"""Linear-inequality domain: emptiness of conjunctions of integer linear constraints
(Gaussian elimination of equalities, Fourier-Motzkin elimination with gcd tightening)."""
from math import gcd
from terms import parts, rng, I, sub, scale, add, mul

CAP = 3000


def _norm(c, d):
    """t <= 0 with t = sum d + c; tighten"""
    g = 0
    for k in d.values():
        g = gcd(g, abs(k))
        if g == 1:
            break
    if g > 1:
        d = {a: k // g for a, k in d.items()}
        c = -((-c) // g)
    return c, d


def atom_axioms(atoms):
    """linear facts every atom satisfies: yields ('le', c, d)"""
    seen = set()
    todo = list(atoms)
    out = []
    while todo:
        a = todo.pop()
        if a in seen:
            continue
        seen.add(a)
        lo, hi = rng(a)
        if lo is not None:
            out.append((lo, {a: -1}))
        if hi is not None and hi < (1 << 62):
            out.append((-hi, {a: 1}))
        new = []
        if a.op == "div":
            r, c = a.args
            # c*q - r <= 0 ; r - c*q - (c-1) <= 0
            t = sub(scale(a, c), r)
            new.append(parts(t))
            new.append(parts(add(sub(r, scale(a, c)), -(c - 1))))
        elif a.op == "cdiv":
            x, b = a.args
            new.append(parts(sub(x, mul(a, b))))
            new.append(parts(add(sub(sub(mul(a, b), b), x), 1)))
        elif a.op == "divt":
            x, b = a.args
            new.append(parts(sub(mul(a, b), x)))
            new.append(parts(add(sub(sub(x, mul(a, b)), b), 1)))
            if rng(x)[0] is not None and rng(x)[0] >= 0:
                new.append(parts(sub(a, x)))
        elif a.op == "sum":
            # every summand is at most h
            h, n0 = rng(a.args[2])[1], rng(a.args[1])[0]
            if h is not None and n0 is not None and n0 >= 0:
                new.append(parts(sub(a, scale(a.args[1], h))))
        elif a.op == "band":
            for x in a.args:
                if rng(x)[0] is not None and rng(x)[0] >= 0:
                    new.append(parts(sub(a, x)))
        for c, d in new:
            out.append((c, d))
            todo.extend(d)
    return out


def infeasible(les, eqs, focus=None):
    """les: terms t meaning t <= 0; eqs: terms t meaning t == 0. True only if no integer solution."""
    L = [parts(t) for t in les]
    E = [parts(t) for t in eqs]
    atoms = set()
    for _, d in L + E:
        atoms.update(d)
    L += atom_axioms(atoms)
    # component of the focus atoms
    if focus is not None:
        comp = set(focus)
        allc = [set(d) for _, d in L] + [set(d) for _, d in E]
        changed = True
        used = [False] * len(allc)
        while changed:
            changed = False
            for i, s in enumerate(allc):
                if not used[i] and (s & comp):
                    used[i] = True
                    if not s <= comp:
                        comp |= s
                    changed = True
        nl = len(L)
        L2 = [x for i, x in enumerate(L) if used[i] or not x[1]]
        E2 = [x for i, x in enumerate(E) if used[nl + i] or not x[1]]
        L, E = L2, E2
    return _infeasible(L, E)


def _subst(c, d, a, sc, sd, k0):
    """eliminate a using k0*a + sd + sc == 0 (k0 = +-1)"""
    k = d.get(a)
    if not k:
        return c, d
    d = dict(d)
    del d[a]
    f = -k * k0  # a = -k0*(sd + sc)  (k0 = +-1)
    c += f * sc
    for x, y in sd.items():
        v = d.get(x, 0) + f * y
        if v:
            d[x] = v
        else:
            d.pop(x, None)
    return c, d


def _infeasible(L, E):
    # equalities
    E = [(c, dict(d)) for c, d in E]
    L = [(c, dict(d)) for c, d in L]
    while E:
        c, d = E.pop()
        if not d:
            if c != 0:
                return True
            continue
        g = 0
        for k in d.values():
            g = gcd(g, abs(k))
        if c % g:
            return True
        if g > 1:
            c //= g
            d = {a: k // g for a, k in d.items()}
        piv = None
        for a, k in d.items():
            if abs(k) == 1:
                piv = a
                break
        if piv is None:
            L.append((c, d))
            L.append((-c, {a: -k for a, k in d.items()}))
            continue
        k0 = d.pop(piv)
        E = [_subst(c2, d2, piv, c, d, k0) for c2, d2 in E]
        L = [_subst(c2, d2, piv, c, d, k0) for c2, d2 in L]
    # inequalities
    S = {}

    def put(S, c, d):
        if not d:
            return c > 0
        c, d = _norm(c, d)
        key = frozenset(d.items())
        o = S.get(key)
        if o is None or c > o:
            S[key] = c
        return False

    for c, d in L:
        if put(S, c, d):
            return True
    while S:
        # opposite pairs give quick contradictions
        cnt = {}
        for key in S:
            for a, k in key:
                p = cnt.setdefault(a, [0, 0])
                p[0 if k > 0 else 1] += 1
        # drop variables bounded on one side only
        best, bc = None, None
        for a, (p, n) in cnt.items():
            cost = p * n - p - n
            if bc is None or cost < bc or (cost == bc and a.id < best.id):
                best, bc = a, cost
        if best is None:
            return False
        pos, ng, rest = [], [], {}
        for key, c in S.items():
            d = dict(key)
            k = d.get(best)
            if not k:
                rest[key] = c
            elif k > 0:
                pos.append((k, c, d))
            else:
                ng.append((-k, c, d))
        if len(pos) * len(ng) + len(rest) > CAP:
            return False
        S = rest
        for k1, c1, d1 in pos:
            for k2, c2, d2 in ng:
                g = gcd(k1, k2)
                m1, m2 = k2 // g, k1 // g
                d = {}
                for a, k in d1.items():
                    if a is not best:
                        d[a] = k * m1
                for a, k in d2.items():
                    if a is not best:
                        v = d.get(a, 0) + k * m2
                        if v:
                            d[a] = v
                        else:
                            d.pop(a, None)
                if put(S, c1 * m1 + c2 * m2, d):
                    return True
    return False
