"""Which obligations and which confirmations decide each property."""
import multiprocessing
import random
import bits
import cfail
import misc
from entries import entry_task
from memory import *
import subjects
from core import *
from witness import *
import focus as FO
import time

# property -> (obligations, witness searches) for codec subjects
CODEC = {
    "C01": ([o_as_bytes, o_decode], [w_roundtrip]),
    "C02": ([o_as_bytes, o_decode], [w_canonical]),
    "C03": ([o_append, o_as_bytes], [w_wire]),
    "C04": ([o_decode], [w_accepts]),
    "C05": ([o_nopanic], [w_nopanic]),
    "C07": ([o_bytes_len, o_as_bytes, o_meta, o_decode], [w_sizes]),
    "C10": ([o_append, o_as_bytes], [w_append]),
}
ALL = [o_append, o_as_bytes, o_bytes_len, o_meta, o_decode]
WALL = [w_wire, w_accepts, w_sizes, w_append, w_nopanic]
CODEC["C08"] = CODEC["C17"] = CODEC["C15"] = (ALL, WALL + [w_roundtrip, w_canonical])
CODEC["C09"] = CODEC["C16"] = ([o_decode], [w_accepts, w_nopanic])
CODEC["C06"] = ([o_alloc], [w_alloc])
CODEC["C19"] = (ALL, WALL + [w_accepts_iff, w_roundtrip])
ENC_ONLY = {"C03", "C07", "C10", "C08"}
DEC_ONLY = {"C04", "C05", "C06", "C07", "C08", "C09", "C16"}
O_ENC = (o_append, o_as_bytes, o_bytes_len)
O_DEC = (o_decode, o_nopanic, o_alloc)
W_ENC = (w_wire, w_append)
W_DEC = (w_accepts, w_accepts_iff, w_nopanic, w_alloc)
W_BOTH = (w_roundtrip, w_canonical)


def variable_list(s):
    return isinstance(s.sch, ListOf) and not s.sch.item.fixed()


ONLY = {"C08": lambda s: "derived" in s.tags, "C17": lambda s: "legacy" in s.tags,
        "C15": lambda s: "union" in s.tags or s.name.startswith("Option<"),
        "C19": lambda s: s.sch.lenient,
        "C09": lambda s: "(" == s.name[0] or isinstance(s.sch, Record) or variable_list(s),
        "C16": variable_list}
# codec properties that bitfields take part in
BITS = {"C01", "C02", "C03", "C04", "C05", "C06", "C07", "C10"}


def obligations(prop, sub):
    return [o for o in CODEC[prop][0] if not ("enc-only" in sub.tags and o in O_DEC) and not ("dec-only" in sub.tags and o in O_ENC)]


def witnesses(prop, sub):
    out = []
    for w in CODEC[prop][1]:
        if "enc-only" in sub.tags and w not in W_ENC and w is not w_sizes:
            continue
        if "dec-only" in sub.tags and w not in W_DEC and w is not w_sizes:
            continue
        if w is w_canonical and sub.sch.lenient:
            continue
        # a transparent enum is not required to be invertible
        if "tenum" in sub.tags and w in W_BOTH:
            continue
        out.append(w)
    return out


class Task:
    def __init__(self, name, fn):
        self.name, self.fn = name, fn


class Out:
    """result of one task"""

    def __init__(self):
        self.res = []       # (obligation, status, why, where)
        self.found = []     # dicts
        self.evals = 0
        self.unknown = 0
        self.inputs = 0
        self.notes = []

    def add(self, name, rs):
        for r in rs:
            self.res.append((name, r.name, r.status, str(r.why)[:300] if r.why else None, str(r.where)[:300] if r.status != "proved" else None))


def construct(fun, pi):
    """source position of the partition that shows the failure"""
    if pi is None or fun is None:
        return None
    s, o = fun.res[pi]
    w = {"function": str(s.where()), "entry": fun.root}
    if o[0] == "panic":
        w["panic"] = str(o[1:])[:200]
    return w


def found(out, prop, sub, f, seed, tsym):
    FOUND.value += 1
    out.found.append({
        "property": prop, "subject": sub, "what": f.what, "detail": f.detail, "where": construct(f.fun, f.part),
        "valuation": {k: v for k, v in tsym.items()}, "seed": seed})


def codec_task(an, prop, sub, seeds, nval, nstr):
    obs, wits = obligations(prop, sub), witnesses(prop, sub)
    out = Out()
    failed = []
    for o in obs:
        rs = o(an, sub)
        out.add(sub.name, rs)
        failed += [r for r in rs if r.status != "proved"]
    for seed in seeds:
        # lists of zero-length items are excluded from the round-trip claim
        ts = tsyms(sub, random.Random(seed), prop in ZERO and "items" in sub.tags)
        run = Run(an, sub, ts)
        C = Corpus(run, Rand(seed, ts), nval, nstr)
        for w in wits:
            try:
                w(run, C)
            except Found as f:
                found(out, prop, sub.name, f, seed, ts)
        out.evals += run.evals
        out.unknown += run.unknown
        out.inputs += len(C.values) + (len(C._strings) if C._strings else 0)
        if out.found:
            break
    if failed and not out.found:
        # further valuations of the type-level symbols: zero-length and padded types
        forbid = prop in ZERO and "items" in sub.tags
        ts0 = tsyms(sub, random.Random(seeds[0]), forbid)
        for k in sorted(ts0):
            for z in (5, 0, 3) if k.startswith("FLEN<") else ():
                ts = dict(ts0, **{k: z})
                if out.found or forbid and zero_item(sub, ts):
                    continue
                run = Run(an, sub, ts)
                C = Corpus(run, Rand(seeds[0] + z, ts), 12, 40)
                for w in wits:
                    try:
                        w(run, C)
                    except Found as f:
                        found(out, prop, sub.name, f, seeds[0] + z, ts)
                        break
                out.evals += run.evals
    if failed and not out.found:
        guided(an, prop, sub, failed, wits, seeds, out)
    return out


def bits_task(an, prop, sub, seeds, nval, nstr):
    """a bitfield type as a codec subject: bit-level obligations, compositional witnesses over many capacities"""
    out = Out()
    kind = sub.sch.k
    if prop == "C06":
        rs = o_alloc(an, sub)
    else:
        rs = [r for e in bits.codec_obligations(prop, kind) for r in e.obligations(an)]
    out.add(sub.name, rs)
    failed = [r for r in rs if r.status != "proved"]
    raw = bits.k_raw()
    funs = {f.fun.root: f.fun for f in failed if f.fun is not None}.values()
    cs = FO.consts_of([x for f in funs for st, _ in f.res for x in st.facts.list])[:120]
    bits.RARE[0] = .4 if failed else .05
    for i in range((12 if not failed else 60) * len(seeds)):
        seed = seeds[0] * 100 + i
        ts = tsyms(sub, random.Random(seed))
        r = random.Random(seed)
        for k in sorted(ts):
            if k.startswith("N:"):
                y = bits.big(r, cs)
                ts[k] = ts[k] if y is None else y
        run = Run(an, sub, ts)
        C = Corpus(run, Rand(seed, ts), nval, nstr)
        C._strings = list(dict.fromkeys(C.strings() + [raw.gen(r, cs, ts) for _ in range(nstr)]))
        for w in witnesses(prop, sub):
            try:
                w(run, C)
            except Found as f:
                found(out, prop, sub.name, f, seed, ts)
        out.evals += run.evals
        out.unknown += run.unknown
        out.inputs += len(C.values) + len(C._strings)
        if out.found:
            break
    if failed and not out.found:
        out.notes.append("%s: %d undecided, search found nothing" % (sub.name, len(failed)))
    return out


def guided(an, prop, sub, failed, wits, seeds, out):
    """search members of the partitions whose obligations failed"""
    if FOUND.value >= 4 or time.time() > DEADLINE[0]:
        out.notes.append("%s: not confirmed (enough violations, or out of time)" % sub.name)
        return
    ws = wits
    done = set()
    t0 = time.time()
    failed = [f for f in failed if f.fun is not None and f.part is not None]
    failed.sort(key=lambda f: f.status != "failed")
    for f in failed:
        k = (f.fun.root, f.part)
        if k in done:
            continue
        done.add(k)
        left = min(BUDGET[0] - (time.time() - t0), DEADLINE[0] - time.time())
        if left < 1 or FOUND.value >= 4:
            break
        r = random.Random(seeds[0] * 7 + len(done))
        try:
            g = FO.focus(an, sub, f.fun, f.part, ws, r, seeds[:2], min(left, BUDGET[1]), prop in ZERO and "items" in sub.tags)
        except RecursionError:
            continue
        if g is not None:
            found(out, prop, sub.name, g, seeds[0], g.tsym)
            return
    out.notes.append("%s: guided search over %d partitions found nothing" % (sub.name, len(done)))


BUDGET = [60, 12]
DEADLINE = [0]
FOUND = multiprocessing.Value("i", 0)


# properties whose round-trip claim excludes lists of zero-length items
ZERO = {"C01", "C19"}


# false when the derived definitions of the harness do not compile
DERIVED = [True]


def pre(prop, tier, seed):
    """compile-fail witnesses"""
    if prop not in ("C08", "C15"):
        return None
    r = cfail.run("" if prop == "C08" else "union")
    for f in r.get("found", ()):
        f["property"] = prop
    return r


def tasks(prop, tier, seed):
    T = []
    n = {"quick": (2, 25, 80), "thorough": (8, 60, 400)}[tier]
    seeds = [seed * 1000 + i for i in range(n[0])]
    if prop in CODEC:
        for s in subjects.codec() + bits.subjects():
            if not DERIVED[0] and s.root.startswith("derived"):
                continue
            if "enc-only" in s.tags and prop not in ENC_ONLY:
                continue
            if "dec-only" in s.tags and prop not in DEC_ONLY:
                continue
            if prop == "C02" and s.sch.lenient:
                continue
            if prop in ("C01", "C02") and "tenum" in s.tags:
                continue
            if "bits" in s.tags and prop not in BITS:
                continue
            if "gen" in s.tags and tier == "quick" and prop != "C08":
                continue
            if prop in ONLY and not ONLY[prop](s):
                continue
            if "bits" in s.tags:
                T.append(Task(s.name, lambda an, s=s: bits_task(an, prop, s, seeds, n[1], n[2])))
            else:
                T.append(Task(s.name, lambda an, s=s: codec_task(an, prop, s, seeds, n[1], n[2])))
    for e in misc.entries(prop, tier):
        def run(an, e=e):
            out = Out()
            entry_task(an, prop, e, seeds, {"quick": 300, "thorough": 2000}[tier], out, found)
            return out
        T.append(Task(e.name, run))
    return T


GENERAL = (" Decided by abstract interpretation of the compiler's resolved MIR of /repo's current tree: every obligation compares a "
           "partition (path facts and outcome) of an entry point's summary with the SSZ reference term; an obligation that does not "
           "follow is reported only with a member of the summary that violates the property.")
EXPLAIN = {
    "C01": "Encoding summaries equal the reference serialization and decoding summaries invert it; the two are composed per type.",
    "C02": "Accepting partitions of every decoder entail that the reference serialization of the decoded value is the input.",
    "C03": "Encoding summaries of every type equal the reference serialization term, for any value and any buffer.",
    "C04": "Accepting partitions entail reference validity and value, rejecting partitions entail invalidity.",
    "C05": "No partition ending in a panic (assert, index, slice, overflow, unwrap, zero chunk size) of any decoder is feasible.",
    "C06": "Every allocation, growth and nested-decode event of every decoding trace is bounded by 16 * input length + 4096; nested decoders of loops get disjoint slices of the input.",
    "C07": "Size functions equal the length of the reference serialization; both sides' metadata equal the schema's.",
    "C08": "The definitions of the derive corpus have the summaries of their SSZ schemas for any field types; invalid definitions do not compile (with compiling twins).",
    "C09": "Builder call sequences (symbolic fixed/variable flags and lengths) hand out exactly the slices of the reference layout and accept exactly the tilings; the same for every container, tuple and list of variable-size items.",
    "C10": "Append summaries are the buffer followed by the standalone encoding; all entry points have the same summary.",
    "C11": "Every operation (set, shift, difference, clone, decode, constructors) and every observation (length, bits, iteration, popcount, highest bit, zero test, equality, hash, views, encoding) equals its specification on the sequence of bits, for every residue class of the length; the representation invariant (exact byte length, no bit at or above the length) is assumed for operands and proved for results, hence holds after any history.",
    "C12": "Union, intersection, difference and subset test, bit by bit, for all pairs of residue classes of the operand lengths; the result satisfies the type's invariant.",
    "C13": "The length bound of every value produced by a constructor, decoder, serde form, set operation, resize or generator, and the refusal of requests beyond the bound.",
    "C14": "The byte-level conversions and the SSZ codec are shown equal to the same specification: produced bytes, accepted strings, resulting values.",
    "C18": "The serialized text is 0x and the lowercase hex of a byte string that is the encoding; text is accepted exactly when it is 0x-prefixed even hex of a valid encoding, with the value it denotes.",
    "C20": "Every successful path of the generators ends in a valid value and none panics; for every capacity class an input family is exhibited on which all feasible paths succeed. A capacity is reported only if every successful path is infeasible for it.",
    "C15": "Selector handling: all 256 selector bytes are decided symbolically for every union of the corpus, Option and the selector helpers.",
    "C16": "Limited list decoding into every collection (refusing ones included): rejected beyond the limit, and no partition that decodes an item or reserves space exceeds it; otherwise equal to unlimited decoding.",
    "C17": "The legacy Option codec's summaries equal the four-byte-selector schema, standalone and as a field codec of derived containers.",
    "C19": "Map and set codecs equal the sorted entry list on encoding and the fold of insertions over the list on decoding.",
}
RULES = {}
ASSUME = [
    "slices are at most 2^48 elements long; lengths that only occur on the encoding side do not overflow usize",
    "a type parameter obeys the trait contract (the induction hypothesis of the nesting argument)",
    "the reference lemma dec(enc(x)) = x and enc(dec(b)) = b for valid b holds for the SSZ schemas (argued in DESIGN.md)",
]
CLAIMED = ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17",
           "C18", "C19", "C20"]
NA = {}
TECHNIQUE = {
    "C01": "encode and decode summaries composed through the SSZ reference term",
    "C02": "accepting partitions entail enc(value) = input",
    "C03": "encode summaries equal the reference serialization",
    "C04": "decode partitions equivalent to reference validity and value",
    "C05": "infeasibility of every panicking partition",
    "C06": "allocation-event bounds in decoding traces",
    "C07": "size and metadata summaries equal the reference length",
    "C08": "summaries of derived codecs over symbolic field types equal their schemas; compile-fail witnesses",
    "C09": "builder and list-offset summaries equal the reference layout",
    "C10": "append summaries are buffer ++ standalone encoding",
    "C11": "operation summaries equal bit-sequence specifications, inductive representation invariant",
    "C12": "set-operation summaries equal the element-wise specification per length class",
    "C13": "length-bound postconditions of every producing summary",
    "C14": "byte-level and SSZ summaries equal one validity and value specification",
    "C18": "serde summaries compared with the hex of the specified encoding",
    "C20": "generator summaries: valid results, no panic, path feasibility for reachability",
    "C15": "selector dispatch summaries equal the reference union; compile-fail witnesses",
    "C16": "guard-before-effect ordering in decoding traces plus summary equality",
    "C17": "summaries equal the four-byte-selector schema",
    "C19": "summaries equal the sorted entry list and the fold of insertions",
}
