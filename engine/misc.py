"""Entry points of the protocol layer: offsets, unions, limited lists, builder and encoder."""
from entries import *
from subjects import D
import bits
from memory import events_obls

USEL = "ssz::union_selector::UnionSelector"
R = "r_misc::"


def okv(o):
    return o[1].args[2][0]


def res(okcond, value=None):
    """relations for a Result: accepted exactly when okcond, with the given value"""
    out = [("rejected exactly when invalid", lambda f, s, o: ((), okcond(f)) if is_ok(o) else ((), neg(okcond(f))) if is_err(o) else None)]
    if value is not None:
        out.append(("value", lambda f, s, o: ((okcond(f),), veq(okv(o), value(f))) if is_ok(o) else None))
    return out


def A(f, i):
    return strip(f.args[i])


def offsets():
    E = []
    E.append(Entry("read_offset", R + "read_offset_fn", res(lambda f: le(I(4), slen(A(f, 0))), lambda f: lint(A(f, 0), I(0), I(4))), [k_bytes()]))
    small = lambda f: [lt(A(f, 0), I(1 << 32))]
    E.append(Entry("encode_length", R + "encode_length_fn", [("little-endian word", lambda f, s, o: (small(f), seqeq(o[1], leb(A(f, 0), 4))) if o[0] == "ret" else (small(f), FALSE))],
                   [k_int(USZ, 300)], panics=False))
    E.append(Entry("read_offset(encode_length(n))", R + "offset_roundtrip",
                   [("is n", lambda f, s, o: (small(f), eq(okv(o), A(f, 0))) if o[0] == "ret" and is_ok(o) else (small(f), FALSE))], [k_int(USZ, 300)], panics=False))
    return E


def unions():
    E = []
    good = lambda f: conj([le(I(1), slen(A(f, 0))), le(at(A(f, 0), I(0)), I(127))])
    body = lambda f: subseq(A(f, 0), I(1), slen(A(f, 0)))
    E.append(Entry("split_union_bytes", R + "split_union",
                   res(good) + [("selector and remaining bytes", lambda f, s, o: ((good(f),), split_goal(f, o)) if is_ok(o) else None)], [k_bytes()]))
    E.append(Entry("split_union_bytes selector", R + "split_selector", res(good, lambda f: at(A(f, 0), I(0))), [k_bytes()]))
    E.append(Entry("UnionSelector::new", R + "selector_new",
                   res(lambda f: le(A(f, 0), I(127))) + [("selector", lambda f, s, o: ((), eq(sel(okv(o)), A(f, 0))) if is_ok(o) else None)], [k_int(255, 256)]))
    return E


def sel(v):
    return v.args[2][0] if v.op == "adt" else fld(v, None, 0, ("int", 0, 255))


def split_goal(f, o):
    b = A(f, 0)
    t = okv(o)
    x, y = t.args[0]
    return conj([eq(sel(x), at(b, I(0))), seqeq(strip(y), subseq(b, I(1), slen(b)))])


# ---------------------------------------------------------------- builder
def layout(b, parts_, n=None):
    """(validity, slices) of a container whose parts are given as (fixed?, length) terms"""
    pos = I(0)
    starts, lens = [], []
    for fx, ln in parts_:
        starts.append(pos)
        w = ite(fx, ln, I(4))
        lens.append(w)
        pos = add(pos, w)
    head = pos
    N = slen(b)
    c = [le(head, N)]
    anyv = disj([neg(fx) for fx, _ in parts_])
    # offset of part i (as read), meaningful for variable parts
    offs = [lint(b, st, I(4)) for st in starts]
    prev, first = head, TRUE
    for (fx, _), o in zip(parts_, offs):
        if fx is TRUE:
            continue
        c.append(disj([fx, conj([ite_b(first, eq(o, head), le(prev, o)), le(o, N)])]))
        prev = ite(fx, prev, o)
        first = conj([first, fx])
    c.append(disj([anyv, eq(N, head)]))
    # the end of a variable part is the next variable part's offset, or the end
    sl = []
    nxt = N
    for (fx, ln), st, o in reversed(list(zip(parts_, starts, offs))):
        a = ite(fx, st, o)
        e = ite(fx, add(st, ln), nxt)
        sl.append((a, e))
        nxt = ite(fx, nxt, o)
    return conj(c), sl[::-1]


def ite_b(c, a, b):
    return conj([disj([neg(c), a]), disj([c, b])])


def build_entry(name, root, parts_of, kinds, pats=None):
    def good(f):
        return layout(A(f, 0), parts_of(f))[0]

    def slices(f, s, o):
        if not is_ok(o):
            return None
        V, sl = layout(A(f, 0), parts_of(f))
        b = A(f, 0)
        out = okv(o)
        if out.op != "lit" or len(out.args[0]) != len(sl):
            return [((V,), FALSE if slen(out).op == "int" and slen(out).args[0] != len(sl) else conj([eq(slen(out), I(len(sl)))] + [
                seqeq(at(out, I(i)), subseq(b, x, y)) for i, (x, y) in enumerate(sl)]))]
        return [((V,), seqeq(strip(x), subseq(b, a, e))) for x, (a, e) in zip(out.args[0], sl)]

    return Entry(name, root, res(good) + [("slices", slices)], kinds)


def builders(tier):
    E = []
    for n in range(0, 6 if tier == "thorough" else 5):
        def parts_of(f, n=n):
            return [(A(f, 1 + 2 * i), A(f, 2 + 2 * i)) for i in range(n)]
        E.append(build_entry("builder with %d items" % n, R + "build%d" % n, parts_of, [k_bytes(40)] + [k_bool, k_int(USZ, 6)] * n))
    pats = {"build_v9": "v" * 9, "build_m10": "fvvfvvfvvf", "build_f12": "f" * 12}
    for r_, p in pats.items():
        E.append(build_entry("builder %s" % p, R + r_, lambda f, p=p: [(B(c == "f"), A(f, 1)) for c in p], [k_bytes(60), k_int(USZ, 6)]))
    E.append(build_entry("builder anonymous", R + "build_anon", lambda f: [(FALSE, I(4)), (A(f, 1), A(f, 2)), (FALSE, I(4))], [k_bytes(40), k_bool, k_int(USZ, 6)]))
    return E


def typed_builders():
    E = []
    for pat in subj_patterns():
        S_ = Record([Opaque((c, n)) for c, n in zip(pat, "ABC")])
        E.append(Entry("builder with types %s" % pat, R + "build_types", res(lambda f, S_=S_: S_.valid(A(f, 0))) + [
            ("value", lambda f, s, o, S_=S_: ((S_.valid(A(f, 0)),), veq(okv(o), S_.dec(A(f, 0)))) if is_ok(o) else None)],
            [k_bytes(30)], dict(zip("ABC", pat)), flens=tuple(n for c, n in zip(pat, "ABC") if c == "F")))
    return E


def subj_patterns():
    import itertools
    return ["".join(x) for x in itertools.product("FV", repeat=3)]


def encoders():
    E = []

    def goal(f, s, o):
        buf = f.args[9]
        n = A(f, 0)
        fs = [A(f, 1 + 2 * i) for i in range(4)]
        xs = [A(f, 2 + 2 * i) for i in range(4)]
        tot = I(0)
        for x in xs:
            tot = add(tot, slen(x))
        pre = [lt(add(n, tot), I(BIG))]
        if o[0] == "panic":
            return pre, FALSE
        head, tail = [buf], []
        off = n
        for c, x in zip(fs, xs):
            head.append(ite(c, x, leb(off, 4)))
            tail.append(ite(c, EMPTY, x))
            off = ite(c, off, add(off, slen(x)))
        return pre, seqeq(s.cells[("in", 9)], cat(head + tail))
    E.append(Entry("SszEncoder", R + "enc_raw", [("fixed parts and offsets, then variable parts", goal)],
                   [k_int(1 << 32, 40)] + [k_bool, k_bytes(6)] * 4 + [k_bytes(6)], no_overflow=True, panics=False))
    return E


def ssz_encodes():
    E = []
    for k in "FV":
        E.append(Entry("ssz_encode<%s>" % k, R + "ssz_encode_fn", [("the encoding", lambda f, s, o, k=k: ((), seqeq(o[1], Opaque((k, "T")).enc(A(f, 0)))) if o[0] == "ret" else None)],
                       [k_opaque(k, "T")], {"T": k}, flens=("T",) if k == "F" else ()))
    return E


# ---------------------------------------------------------------- limits
def list_seeds(ent, an, sd):
    """well-formed lists whose length and count lie near the constants of the code, with limits near the count"""
    r = random.Random(sd * 31 + 5)
    fun = ent.fun(an)
    if fun.broken:
        return
    cs = [c for c in consts_of([f for s, _ in fun.res for f in s.facts.list]) if 1 < c <= 5000]
    cs = sorted(set(cs))[:60] or [8]
    for i in range(160):
        k = r.choice([1, 1, 2, 2, 3, 4, 6, 9, r.randrange(1, 40), max(1, min(300, r.choice(cs) + r.choice([-1, 0, 1])))])
        tot = r.choice([0, k, 3 * k, r.choice(cs) + r.choice([-1, 0, 1]), r.choice(cs) * r.choice([1, 2, 3]), r.choice(cs) - 4 * k])
        tot = max(0, min(tot, 6000))
        cuts = sorted(r.randrange(tot + 1) for _ in range(k - 1))
        offs = [4 * k] + [4 * k + c for c in cuts]
        b = b"".join(o.to_bytes(4, "little") for o in offs) + bytes(r.choice([1, 7]) for _ in range(tot))
        m = r.choice([None, k, k - 1, k + 1, k // 2, max(0, k - r.randrange(1, 5)), r.choice(cs), (1 << r.choice([8, 16, 31, 32, 32, 63])) + r.choice([0, k - 1, k])])
        ts = ent.tsyms(r, cs)
        for n in list(ts):
            if n.startswith("N:") and r.random() < .6:
                ts[n] = max(0, r.choice([k, k - 1, k + 1]))
        yield ts, (tuple(b), ("adt", OPT, 0, ()) if m is None else ("adt", OPT, 1, (m,)))


def limits():
    E = []
    T_ = Opaque(("V", "T"))
    L = ListOf(T_)
    Ncap = isym("N:N", 0, 1 << 40)

    def count(f):
        b = A(f, 0)
        return divc(lint(b, I(0), I(4)), 4)

    def within(f):
        b, m = A(f, 0), A(f, 1)
        return disj([eq(slen(b), I(0)), eq0(discr(m, 2)), le(count(f), fld(m, 1, 0, ("int", 0, USZ)))])

    def no_work(f, s, o):
        """a partition that decodes items or reserves space must be within the limit"""
        b = A(f, 0)
        out = []
        for act in activities(s.events()):
            # announced = the first four bytes are there
            out.append(((le(I(4), slen(b)),), disj([within(f), neg(act)])))
        return out

    def mk_(name, root, sch, cap=None, unwrap=None, refuse=False, **kw):
        def good(f):
            c = [L.valid(A(f, 0)), within(f)]
            if cap is not None:
                c.append(disj([eq(slen(A(f, 0)), I(0)), le(count(f), cap)]))
            if refuse:
                c.append(FALSE)
            return conj(c)

        def value(f, s, o):
            if not is_ok(o):
                return None
            v = okv(o)
            if unwrap is not None:
                v = v.args[2][0] if v.op == "adt" else v
            return ((good(f),), veq(v, sch.dec(A(f, 0))))
        E.append(Entry(name, R + root, res(good) + [("value", value), ("no item is decoded or given space beyond the limit", no_work)],
                       [k_bytes(40), k_opt], {"T": "V"}, **kw))
        E[-1].seeds = lambda an, sd, e=E[-1]: list_seeds(e, an, sd)
    mk_("limited Vec", "list_vec", L)
    mk_("limited SmallVec", "list_small", L, consts={"N": (0, 1, 2, 8)})
    mk_("limited BTreeSet", "list_set", SetOf(T_))
    mk_("limited, refusing above N", "list_bounded", L, cap=Ncap, unwrap=True, consts={"N": (0, 1, 2, 3, 5)})
    mk_("limited, refusing above N at the end", "list_late", L, cap=Ncap, unwrap=True, consts={"N": (0, 1, 2, 3, 5)})
    mk_("limited, refusing", "list_never", L, refuse=True)
    return E


def activities(evs):
    """conditions under which some decoding or reservation happens"""
    out = []
    for e in evs:
        if e[0] == "decode":
            out.append(TRUE)
        elif e[0] == "alloc":
            out.append(lt(I(64), e[1]))
        elif e[0] == "loop":
            if any(a for d, xs in e[3] for a in activities(xs)):
                out.append(lt(I(0), e[1]))
    return out


def memory(f, s, o):
    obs = []
    events_obls(s.events(), s.facts.list, A(f, 0), obs)
    return [(fs, g) for _, fs, g in obs]


def entries(prop, tier):
    return ssz_entries(prop, tier) + bits.entries(prop)


def ssz_entries(prop, tier):
    if prop == "C09":
        return offsets() + builders(tier) + typed_builders()
    if prop == "C15":
        return unions()
    if prop == "C16":
        return limits()
    if prop == "C10":
        return ssz_encodes() + encoders()
    if prop == "C06":
        out = limits() + builders(tier) + typed_builders()
        for e in out:
            e.rel = [e.rel[0], ("memory", memory)]
        return out
    if prop == "C05":
        out = limits() + builders(tier) + typed_builders() + offsets() + unions()
        for e in out:
            e.rel = [r for r in e.rel if r[0] == "no panic"]
        return [e for e in out if e.rel]
    if prop == "C03":
        return encoders()
    return []
