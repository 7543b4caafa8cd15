"""Obligations: what the summaries of the entry points must satisfy, and how a failed one is confirmed."""
import signal
import time
import mir
import exec as X
from terms import *
from evalt import *
from prover import Prover, Facts
from spec import *

BIG = 1 << 32
FUN_S = 100  # seconds for one summary


class Expired(BaseException):
    """the time for one summary is used up"""


def _tick(*_):
    raise Expired()


def arm():
    signal.signal(signal.SIGALRM, _tick)


class Fun:
    """summary of one entry point of one subject"""

    def __init__(self, an, root, params, no_overflow=False):
        P = an.P
        self.root = root
        ex = X.Exec(P, params, no_overflow=no_overflow)
        self.ex = ex
        iid = P.roots["roots::" + root]
        b = P.insts[iid]["body"]
        st = X.State()
        self.args, self.ins = [], []
        for i in range(b["args"]):
            t = b["locals"][i + 1]
            ty = P.types[t]
            if ty["k"] == "ref" and ty["m"]:
                c = ("in", i)
                v = self.arg(ex, i, ty["e"], "x%d" % i) or ex.fresh(ty["e"], "buf%d" % i)
                st.cells[c] = v
                self.args.append(v)
                self.ins.append(c)
            else:
                self.args.append(self.arg(ex, i, t, "x%d" % i) or ex.fresh(t, "x%d" % i))
        an.assume(self, st)
        call = []
        for i, v in enumerate(self.args):
            call.append(X.mref(("in", i)) if ("in", i) in st.cells else v)
        self.broken = None
        armed = signal.getsignal(signal.SIGALRM) is _tick
        try:
            if armed:
                signal.setitimer(signal.ITIMER_REAL, FUN_S, 2)
            try:
                self.res = ex.call_inst(iid, call, st, "root")
            finally:
                if armed:
                    signal.setitimer(signal.ITIMER_REAL, 0)
        except X.Unk as e:
            self.res = []
            self.broken = str(e)
        except RecursionError:
            self.res = []
            self.broken = "recursion"
        except (Expired, MemoryError):
            self.res = []
            self.broken = "time or memory limit of the summary"
        an.note(self)
        self.summ = Summary(self.args, self.res, self.ins)

    def arg(self, ex, i, t, name):
        """a particular symbolic value for argument i"""
        return None

    def unk(self):
        if self.broken:
            return self.broken
        for s, o in self.res:
            if o[0] == "unk":
                return o[1]
        return None


class Analysis:
    def __init__(self, dump):
        self.P = mir.Program(dump)
        self.funs = {}
        self.fns = {}
        self.sites = 0
        self.guards = 0
        self.loops = {}
        self.parts = 0
        self.invs = []

    def assume(self, fun, st):
        for f in getattr(fun, "facts0", ()):
            st.facts.add(f)
        for a in fun.args:
            for f in invariant(a):
                st.facts.add(f)

    def note(self, fun):
        for k, v in fun.ex.seen_fns.items():
            self.fns[k] = self.fns.get(k, 0) + v
        self.sites += fun.ex.call_sites
        self.guards += fun.ex.guards
        self.parts += len(fun.res)

    def has(self, root):
        return "roots::" + root in self.P.roots

    def fun(self, root, params=None, no_overflow=False):
        key = (root, tuple(sorted((params or {}).items(), key=str)), no_overflow)
        f = self.funs.get(key)
        if f is None:
            f = self.funs[key] = Fun(self, root, params, no_overflow)
        return f


def invariant(v):
    return []


def strip(v):
    while v.op == "ref":
        v = v.args[0]
    return v


class Res:
    """result of one obligation: status proved | failed | unknown"""

    def __init__(self, name, status, why=None, where=None, part=None, fun=None):
        self.name, self.status, self.why, self.where, self.part, self.fun = name, status, why, where, part, fun


def where_of(st, fun):
    t = st.where()
    return str(t) if t else fun.root


def prove1(facts, goal, budget):
    try:
        return Prover(list(facts), budget).prove(goal)
    except RecursionError:
        return False


def conds_of(ts):
    """closed conditions of the choices in terms, innermost first"""
    out = set()
    seen = set()
    for t in ts:
        for x in subterms(t, seen):
            if x.op == "ite" and x.args[0].op != "bool" and not freebv(x.args[0]):
                out.add(x.args[0])
    return sorted(out, key=lambda c: c.id)


def eqsub(facts, goal):
    """use equations between numbers as substitutions"""
    done = []
    for _ in range(12):
        pick = None
        for f in facts:
            if f in done or f.op != "eq0":
                continue
            c, d = parts(f.args[0])
            for a, k in sorted(d.items(), key=lambda x: (x[0].op == "isym", -x[0].id)):
                if abs(k) == 1 and a.op in ("len", "le", "at", "isym") and not freebv(a):
                    val = scale(from_parts(c, {x: y for x, y in d.items() if x is not a}), -k)
                    if a in subterms(val):
                        continue
                    pick = (f, a, val)
                    break
            if pick:
                break
        if not pick:
            break
        f, a, val = pick
        done.append(f)
        m = {a: val}
        goal = subst(goal, m)
        facts = [x if x is f else subst(x, m) for x in facts]
    return facts, goal


def unitprop(facts):
    """flatten conjunctions and resolve known literals inside disjunctions"""
    facts = list(facts)
    for _ in range(6):
        flat_ = []
        for f in facts:
            if f.op == "and":
                flat_ += list(f.args[0])
            else:
                flat_.append(f)
        m = {}
        for f in flat_:
            if f.op == "not":
                m[f.args[0]] = FALSE
            elif f.op not in ("or", "forall", "bool"):
                m[f] = TRUE
        out = []
        ch = False
        for f in flat_:
            if f.op == "or":
                g = sub_lits(f, m)
                ch = ch or g is not f
                out.append(g)
            else:
                out.append(f)
        ch = ch or len(out) != len(facts)
        facts = list(dict.fromkeys(x for x in out if x is not TRUE))
        if not ch:
            break
    return facts


def sub_lits(f, m):
    if f in m:
        return m[f]
    if f.op == "not":
        return neg(sub_lits(f.args[0], m))
    if f.op == "and":
        return conj([sub_lits(x, m) for x in f.args[0]])
    if f.op == "or":
        return disj([sub_lits(x, m) for x in f.args[0]])
    return f


def prove(facts, goal, budget=400, splits=7):
    """entailment; choices (if-then-else) in the goal and in the assumed facts are decided by the facts, or by cases"""
    facts = unitprop(facts)
    if FALSE in facts:
        return True
    cs = conds_of([goal] + facts)
    if prove1(facts, goal, budget if not cs else 60):
        return True
    tried = set()
    while True:
        cs = [c for c in conds_of([goal] + facts) if c not in tried]
        if not cs:
            break
        c = cs[0]
        tried.add(c)
        if c in facts or prove1(facts, c, 60):
            v = TRUE
        elif neg(c) in facts or prove1(facts, neg(c), 60):
            v = FALSE
        elif splits > 0:
            return all(prove(setc(facts, c, b) + [neg(c) if b is FALSE else c], subst(goal, {c: b}), budget, splits - 1) for b in (TRUE, FALSE))
        else:
            continue
        goal = subst(goal, {c: v})
        facts = setc(facts, c, v)
    if goal is TRUE or FALSE in facts:
        return True
    if tried and prove1(facts, goal, budget):
        return True
    f2, g2 = eqsub(facts, goal)
    if g2 is TRUE or FALSE in f2 or prove1(f2, g2, budget):
        return True
    # a disjunctive assumption is split last
    if splits > 0:
        for f in facts:
            if f.op == "or" and len(f.args[0]) <= 6 and not freebv(f):
                rest = [x for x in facts if x is not f]
                return all(prove(rest + [x], goal, budget, splits - 2) for x in f.args[0])
    return False


def setc(facts, c, v):
    """facts with the condition of choices replaced (facts about the condition itself are kept)"""
    m = {c: v}
    n = neg(c)
    return [x if x is c or x is n else subst(x, m) for x in facts]


RESULT = "core::result::Result"


def check_parts(fun, name, goal_of, budget=400):
    """goal_of(state, outcome) -> (extra facts, goal) ; goal FALSE = the path must be infeasible; None = nothing"""
    out = []
    if fun.broken:
        return [Res(name, "unknown", fun.broken, fun.root)]
    for i, (s, o) in enumerate(fun.res):
        if o[0] == "unk":
            if not prove(s.facts.list, FALSE, budget):
                out.append(Res(name, "unknown", o[1], where_of(s, fun), i, fun))
            continue
        g = goal_of(s, o)
        if g is None:
            continue
        extra, goal = g
        ok = goal is TRUE or prove(s.facts.list + list(extra), goal, budget)
        w = o[1:] if o[0] == "panic" else None
        out.append(Res(name, "proved" if ok else "failed", None if ok else show(goal)[:300], (w, where_of(s, fun)), i, fun))
    return out


def o_append(an, sub):
    f = an.fun(sub.root + "::append", sub.params, True)
    x = strip(f.args[0])
    e = sub.sch.enc(x)
    pre = [lt(slen(e), I(BIG))]

    def goal(s, o):
        if o[0] == "panic":
            return pre, FALSE
        return pre, seqeq(s.cells[("in", 1)], cat([f.args[1], e]))
    return check_parts(f, "append", goal)


def o_as_bytes(an, sub):
    f = an.fun(sub.root + "::as_bytes", sub.params, True)
    e = sub.sch.enc(strip(f.args[0]))
    pre = [lt(slen(e), I(BIG))]
    return check_parts(f, "as_ssz_bytes", lambda s, o: (pre, FALSE) if o[0] == "panic" else (pre, seqeq(o[1], e)))


def o_bytes_len(an, sub):
    f = an.fun(sub.root + "::bytes_len", sub.params, True)
    e = sub.sch.enc(strip(f.args[0]))
    pre = [lt(slen(e), I(BIG))]
    return check_parts(f, "ssz_bytes_len", lambda s, o: (pre, FALSE) if o[0] == "panic" else (pre, eq(o[1], slen(e))))


def o_meta(an, sub):
    out = []
    sch = sub.sch
    for side in ("enc", "dec"):
        if (side == "dec" and "enc-only" in sub.tags) or (side == "enc" and "dec-only" in sub.tags):
            continue
        f = an.fun(sub.root + "::%s_fixed" % side, sub.params, True)
        out += check_parts(f, side + " is_ssz_fixed_len", lambda s, o: ((), FALSE) if o[0] == "panic" else ((), iff(o[1], B(sch.fixed()))))
        f = an.fun(sub.root + "::%s_flen" % side, sub.params, True)
        out += check_parts(f, side + " ssz_fixed_len", lambda s, o: ((), FALSE) if o[0] == "panic" else ((), eq(o[1], sch.flen())))
    return out


def veq(a, b):
    if a.op == "adt" and b.op == "adt" and a.args[0] == b.args[0] and a.args[0] in (MAPP, SETP):
        return seqeq(a.args[2][0], b.args[2][0])
    return eq(a, b) if a.sort != "s" else seqeq(a, b)


def o_decode(an, sub):
    f = an.fun(sub.root + "::decode", sub.params)
    b = strip(f.args[0])
    V = sub.sch.valid(b)
    D = sub.sch.dec(b)
    res = []
    res += check_parts(f, "decode: no panic", lambda s, o: ((), FALSE) if o[0] == "panic" else None)
    res += check_parts(f, "decode: accepted input is valid", lambda s, o: ((), V) if is_ok(o) else None)
    res += check_parts(f, "decode: accepted input gives the specified value",
                       lambda s, o: ((V,), veq(o[1].args[2][0], D)) if is_ok(o) else None)
    res += check_parts(f, "decode: rejected input is invalid", lambda s, o: ((), neg(V)) if is_err(o) else None)
    return res


def o_nopanic(an, sub):
    f = an.fun(sub.root + "::decode", sub.params)
    return check_parts(f, "decode: no panic", lambda s, o: ((), FALSE) if o[0] == "panic" else ((), TRUE))


def is_ok(o):
    return o[0] == "ret" and o[1].op == "adt" and o[1].args[1] == 0


def is_err(o):
    return o[0] == "ret" and o[1].op == "adt" and o[1].args[1] == 1
