"""The analysed types: which entry points exist, which schema they must implement, which parameters are varied."""
from spec import *

ADDR = "alloy_primitives::bits::address::Address"
FB = "alloy_primitives::bits::fixed::FixedBytes"


class Subject:
    def __init__(self, name, root, sch, params=None, consts=None, tags=()):
        self.name, self.root, self.sch = name, root, sch
        self.params = params or {}
        self.consts = consts or {}       # const parameter -> values tried by the witness search
        self.tags = set(tags)


def F(n):
    return Opaque(("F", n))


def V(n):
    return Opaque(("V", n))


def O(k, n):
    return Opaque((k, n))


NN = isym("N:N", 0, 1 << 40)
NV = (0, 1, 2, 3, 7, 20, 32)
LET = "ABCDEFGHIJKL"


def basic():
    S = []
    for n in (8, 16, 32, 64, 128):
        S.append(Subject("u%d" % n, "r_u%d" % n, Uint(n // 8)))
    S.append(Subject("usize", "r_usize", Uint(8)))
    S.append(Subject("NonZeroUsize", "r_nonzero", Uint(8, 1)))
    S.append(Subject("bool", "r_bool", Bool()))
    S.append(Subject("U256", "r_u256", Uint(32)))
    S.append(Subject("alloy U128", "r_alloy_u128", Uint(16)))
    S.append(Subject("Address", "r_address", FixBytes(20, (ADDR, FB))))
    S.append(Subject("FixedBytes<N>", "r_fixedbytes", FixBytes(NN, (FB,)), consts={"N": NV}))
    S.append(Subject("Bloom", "r_bloom", FixBytes(256, ("alloy_primitives::bits::bloom::Bloom", FB))))
    S.append(Subject("Bytes", "r_bytes", VarBytes(("alloy_primitives::bytes_::Bytes",))))
    S.append(Subject("[u8; N]", "r_array", FixBytes(NN), consts={"N": NV}))
    for k in "FV":
        p = {"T": k}
        S.append(Subject("Option<%s>" % k, "r_option", Union([None, O(k, "T")], OPT), p))
        S.append(Subject("Arc<%s>" % k, "r_arc", O(k, "T"), p))
        S.append(Subject("&%s" % k, "r_ref", O(k, "T"), p, tags=["enc-only"]))
        S.append(Subject("Vec<%s>" % k, "r_vec", ListOf(O(k, "T")), p, tags=["items"]))
        S.append(Subject("SmallVec<[%s; N]>" % k, "r_smallvec", ListOf(O(k, "T")), p, consts={"N": (0, 1, 2, 8)}, tags=["items"]))
        S.append(Subject("BTreeSet<%s>" % k, "r_set", SetOf(O(k, "T")), p, tags=["items"]))
        for j in "FV":
            S.append(Subject("BTreeMap<%s,%s>" % (k, j), "r_map", MapOf(O(k, "K"), O(j, "V")), {"K": k, "V": j}, tags=["items"]))
    for n in range(2, 13):
        for pat in tuple_patterns(n):
            S.append(Subject("(%s)" % ",".join(pat), "r_tuple%d" % n, Record([O(c, LET[i]) for i, c in enumerate(pat)]),
                             {LET[i]: c for i, c in enumerate(pat)}))
    return S


def tuple_patterns(n):
    if n <= 3:
        import itertools
        return ["".join(x) for x in itertools.product("FV", repeat=n)]
    out = ["F" * n, "V" * n, ("FV" * n)[:n], ("VF" * n)[:n]]
    if n <= 6:
        out += ["F" * i + "V" + "F" * (n - 1 - i) for i in range(n)]
        out += ["V" * i + "F" + "V" * (n - 1 - i) for i in range(n)]
    else:
        out += ["F" * (n - 1) + "V", "V" + "F" * (n - 1), "V" * (n - 1) + "F", "F" + "V" * (n - 1)]
    return list(dict.fromkeys(out))



D = "roots::derived::"
U8S = (("int", 0, 255), I(0), lambda r: r.randrange(256), 0)
U64S = (("int", 0, (1 << 64) - 1), I(0), lambda r: r.randrange(1 << 64), 0)
U32S = (("int", 0, (1 << 32) - 1), I(0), lambda r: r.randrange(1 << 32), 0)
U16SS = (("seq", "u16"), EMPTY, lambda r: tuple(r.randrange(1 << 16) for _ in range(r.randrange(4))), ())
BOOLS = ("bool", FALSE, lambda r: r.random() < .5, False)
BYTESS = (("seq", "u8"), EMPTY, lambda r: tuple(r.randrange(256) for _ in range(r.randrange(4))), ())


def derived():
    import itertools
    S = []

    def gen(name, mod, params, mk, **kw):
        """one subject per assignment of fixed / variable to the type parameters"""
        ps = params if isinstance(params, (list, tuple)) else list(params)
        pats = ["".join(x) for x in itertools.product("FV", repeat=len(ps))] if len(ps) <= 3 else tuple_patterns(len(ps))
        for pat in pats:
            o = {p: O(c, p) for p, c in zip(ps, pat)}
            S.append(Subject("%s<%s>" % (name, ",".join(pat)) if ps else name, "derived::" + mod, mk(o), dict(zip(ps, pat)), **kw))

    def rec(names, fields, path, **kw):
        return Record(fields, D + path, **kw)
    gen("C1", "c1", "A", lambda o: Record([o["A"]], D + "C1"))
    gen("C2", "c2", "AB", lambda o: Record([o["A"], o["B"]], D + "C2"))
    gen("C3", "c3", "ABC", lambda o: Record([o["A"], o["B"], o["C"]], D + "C3"))
    gen("C5", "c5", "ABCDE", lambda o: Record([o[x] for x in "ABCDE"], D + "C5"))
    gen("C10", "c10", "AB", lambda o: Record([o[x] for x in "ABABBABABB"], D + "C10"))
    gen("Empty", "empty", "", lambda o: Record([], D + "Empty"))
    gen("Names", "names", "AB", lambda o: Record([o[x] for x in "ABABAABAAABABA"], D + "Names"))
    u = Uint
    mixed = Record([u(2), ListOf(u(1)), Bool(), Union([None, u(4)], OPT), u(8), VarBytes(("alloy_primitives::bytes_::Bytes",))], D + "Mixed")
    fixed = Record([u(1), u(2), u(4), u(8), Bool(), FixBytes(4), FixBytes(20, (ADDR, FB)), Uint(32)], D + "Fixed")
    S.append(Subject("Arr<N>", "derived::arr", Record([FixBytes(NN), u(2)], D + "Arr"), consts={"N": NV}))
    S.append(Subject("ArrV<N>", "derived::arrv", Record([FixBytes(NN), ListOf(u(1)), FixBytes(NN)], D + "ArrV"), consts={"N": NV}))
    gen("Fixed", "fixed", "", lambda o: fixed)
    gen("Mixed", "mixed", "", lambda o: mixed)
    c2 = lambda a, b: Record([a, b], D + "C2")
    gen("Nest", "nest", "", lambda o: Record([mixed, c2(u(2), ListOf(u(2))), fixed], D + "Nest"))
    gen("ListOfC", "list_of_c", "", lambda o: Record([ListOf(c2(u(2), u(1))), ListOf(u(2))], D + "ListOfC"))
    gen("Borrowed", "borrowed", "A", lambda o: Record([o["A"], u(1), o["A"]], D + "Borrowed"), tags=["enc-only"])
    gen("SkipMid", "skip_mid", "AB", lambda o: Record([o["A"], o["B"]], D + "SkipMid", skipped={1: U8S}))
    gen("SkipEnds", "skip_ends", "AB", lambda o: Record([o["A"], o["B"]], D + "SkipEnds", skipped={0: BYTESS, 3: BOOLS, 4: U64S}))
    gen("SkipSer(enc)", "skip_ser", "AB", lambda o: Record([o["A"], o["B"]], D + "SkipSer", skipped={1: U8S}), tags=["enc-only"])
    gen("SkipSer(dec)", "skip_ser", "AB", lambda o: Record([o["A"], u(1), o["B"]], D + "SkipSer"), tags=["dec-only"])
    gen("SkipDe(enc)", "skip_de", "AB", lambda o: Record([o["A"], u(1), o["B"]], D + "SkipDe"), tags=["enc-only"])
    gen("SkipDe(dec)", "skip_de", "AB", lambda o: Record([o["A"], o["B"]], D + "SkipDe", skipped={1: U8S}), tags=["dec-only"])
    fv = Wrapper(V("OpV"), D + "ForeignV")
    ff = Wrapper(F("OpF"), D + "ForeignF")
    gen("WithV", "with_v", "A", lambda o: Record([o["A"], fv, o["A"]], D + "WithV"))
    gen("WithF", "with_f", "A", lambda o: Record([ff, o["A"], ff], D + "WithF"))
    gen("WithLegacy", "with_legacy", "A", lambda o: Record([o["A"], LegacyOption(F("OpF")), LegacyOption(V("OpV")), o["A"]], D + "WithLegacy"), tags=["legacy"])
    gen("OneLegacy", "one_legacy", "", lambda o: Record([LegacyOption(V("OpV"))], D + "OneLegacy"), tags=["legacy"])
    gen("T1", "t1", "A", lambda o: Wrapper(o["A"], D + "T1"))
    gen("T2", "t2", "A", lambda o: Wrapper(o["A"], D + "T2"))
    gen("T3", "t3", "A", lambda o: Wrapper(o["A"], D + "T3", 1, 2, {0: U8S}))
    gen("T4", "t4", "A", lambda o: Wrapper(o["A"], D + "T4", 1, 3, {0: BOOLS, 2: U64S}))
    gen("T5", "t5", "", lambda o: Wrapper(fv, D + "T5"))
    gen("T6", "t6", "", lambda o: Wrapper(ff, D + "T6", 0, 2, {1: U8S}))
    gen("U1", "u1", "A", lambda o: Union([o["A"]], D + "U1"), tags=["union"])
    gen("U3", "u3", "AB", lambda o: Union([o["A"], o["B"], o["A"]], D + "U3"), tags=["union"])
    gen("U5", "u5", "", lambda o: Union([u(1), ListOf(u(1)), mixed, Union([None, u(2)], OPT), Bool()], D + "U5"), tags=["union"])
    gen("U128", "u128v", "A", lambda o: Union([o["A"]] * 128, D + "U128v"), tags=["union"])
    # the transparent enum is documented to support variable-size variants only
    S.append(Subject("E1<V>", "derived::e1", TransparentEnum([V("A")], D + "E1"), {"A": "V"}, tags=["tenum"]))
    S.append(Subject("E3<V,V,V>", "derived::e3", TransparentEnum([V("A"), V("B"), V("C")], D + "E3"), {"A": "V", "B": "V", "C": "V"}, tags=["tenum"]))
    for n, m, k in (("G1", "g1", 1), ("G3", "g3", 3), ("G4", "g4", 4), ("G128", "g128", 128)):
        S.append(Subject(n, "derived::" + m, Tag(k, D + n)))
    S[-1].tags.add("union")
    for s in S:
        s.tags.add("derived")
    return S


def legacy():
    S = []
    for n, m, i in (("F", "l_f", F("OpF")), ("V", "l_v", V("OpV")), ("u64", "l_u64", Uint(8)), ("Vec<u16>", "l_vec", ListOf(Uint(2)))):
        S.append(Subject("legacy Option<%s>" % n, "derived::" + m, LegacyOption(i), tags=["legacy"]))
    return S


def codec():
    import gendefs
    return basic() + derived() + legacy() + gendefs.subjects()
