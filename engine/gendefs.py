"""Systematic derive definitions: every field option in every position of small containers and transparent structs.

Running this file writes harness/src/roots_gen.rs; subjects() gives the schemas of the same definitions."""
import os
import random

HERE = os.path.dirname(os.path.abspath(__file__))
BOTH, SER, DE = "skip_serializing, skip_deserializing", "skip_serializing", "skip_deserializing"
# option -> (attribute, type); P is a type parameter of its own, the others are concrete
PLAIN = {"": "", "u": "with = \"codec_u\"", "w": "with = \"codec_w\""}
TY = {"n": "u8", "l": "Vec<u8>", "u": "u32", "w": "Vec<u16>"}
OPTS = {"P": ("", None), "F": ("with = \"codec_f\"", "ForeignF"), "V": ("with = \"codec_v\"", "ForeignV"), "Q": ("", "u16"), "L": ("", "Vec<u8>")}
for k, t in TY.items():
    w = PLAIN.get(k, "")
    for s, a in (("b", BOTH), ("s", SER), ("d", DE)):
        # the order of the two parts of the attribute differs between options
        OPTS[s + k] = (", ".join(x for x in ((a, w) if k == "u" else (w, a)) if x), t)
LIVE = ["P", "F", "V", "Q", "L"]
SKIP = [o for o in OPTS if o not in LIVE]


def combos():
    """(name, shape, options); shape: c container, t transparent named, u transparent tuple"""
    r = random.Random(7)
    out = []
    for o in SKIP + ["F", "V"]:
        out.append(("c", ["P", o]))
        out.append(("c", [o, "P"]))
    for _ in range(26):
        n = r.choice([3, 3, 4, 5])
        out.append(("c", [r.choice(LIVE if r.random() < .6 else SKIP) for _ in range(n)]))
    out += [("c", ["bn", "bl"]), ("c", ["F", "F"]), ("c", ["V", "V"]), ("c", ["V", "F"]), ("c", ["bu", "V", "bw", "F", "bl"])]
    for i, o in enumerate([o for o in SKIP if o[0] == "b"] + ["sn", "dl", "su", "dw"]):
        live = ["P", "F", "V", "P"][i % 4]
        out.append(("tu"[i % 2], [o, live]))
        out.append(("ut"[i % 2], [live, o]))
    out += [("t", ["bn", "bu", "P"]), ("u", ["bl", "P", "bw"]), ("u", ["bw", "bn", "V"]), ("t", ["bu", "F", "bl"]), ("t", ["F"]), ("u", ["V"])]
    seen = []
    for x in out:
        if x not in seen:
            seen.append(x)
    return [("K%d" % i, sh, os_) for i, (sh, os_) in enumerate(seen)]


def sides(sh, os_):
    """a transparent struct with a one-sided skip only exists on that side"""
    return {"s": "enc", "d": "dec"}.get("".join(o[0] for o in os_ if o[0] in "sd")[:1], "both") if sh != "c" else "both"


def rust():
    out = ["//! Written by engine/gendefs.py.", "use super::*;", "use ssz_derive::{Decode, Encode};"]
    B = "ssz::Encode + ssz::Decode"
    for name, sh, os_ in combos():
        ps, fs = [], []
        for i, o in enumerate(os_):
            a, t = OPTS[o]
            if o == "P":
                t = "P%d" % i
                ps.append(t)
            fs.append("%s%s%s" % ("#[ssz(%s)] " % a if a else "", "" if sh == "u" else "x%d: " % i, t))
        g = "<%s>" % ", ".join("%s: %s" % (p, B) for p in ps) if ps else ""
        sd = sides(sh, os_)
        der = {"both": "Encode, Decode", "enc": "Encode", "dec": "Decode"}[sd]
        out.append("#[derive(%s)]%s" % (der, "" if sh == "c" else ' #[ssz(struct_behaviour = "transparent")]'))
        out.append("pub struct %s%s%s" % (name, g, "(%s);" % ", ".join(fs) if sh == "u" else " { %s }" % ", ".join(fs)))
        mac = {"both": "codec", "enc": "enc", "dec": "dec"}[sd]
        out.append("%s!(%s, [%s], %s%s);" % (mac, name.lower(), g[1:-1], name, "<%s>" % ", ".join(ps) if ps else ""))
    return "\n".join(out) + "\n"


def subjects():
    import itertools
    import subjects as J
    from spec import Record, Wrapper, ListOf, Uint
    D = J.D + "gen::"
    ff, fv = Wrapper(J.F("OpF"), J.D + "ForeignF"), Wrapper(J.V("OpV"), J.D + "ForeignV")
    conc = {"F": ff, "V": fv, "Q": Uint(2), "L": ListOf(Uint(1)), "n": Uint(1), "l": ListOf(Uint(1)), "u": Uint(4), "w": ListOf(Uint(2))}
    skips = {"n": J.U8S, "l": J.BYTESS, "u": J.U32S, "w": J.U16SS}
    S = []
    for name, sh, os_ in combos():
        ps = ["P%d" % i for i, o in enumerate(os_) if o == "P"]
        one = any(o[0] in "sd" for o in os_)
        for side in ("enc", "dec") if one else ("",):
            if sides(sh, os_) not in ("both", side):
                continue
            gone = {"": "b", "enc": "bs", "dec": "bd"}[side]
            pats = ["".join(p) for p in itertools.product("FV", repeat=len(ps))] if len(ps) <= 2 else ["F" * len(ps), "V" * len(ps), ("FV" * 3)[:len(ps)], ("VF" * 3)[:len(ps)]]
            for pat in pats:
                o = dict(zip(ps, pat))
                live, skipped = [], {}
                for i, x in enumerate(os_):
                    if x == "P":
                        live.append((i, J.O(o["P%d" % i], "P%d" % i)))
                    elif len(x) == 2 and x[0] in gone:
                        skipped[i] = skips[x[1]]
                    else:
                        live.append((i, conc[x[-1]]))
                if sh == "c":
                    sch = Record([f for _, f in live], D + name, skipped=skipped)
                else:
                    sch = Wrapper(live[0][1], D + name, live[0][0], len(os_), skipped)
                label = "%s<%s>%s" % (name, ",".join(pat), " (%s) [%s]" % (side, " ".join(os_)) if side else " [%s]" % " ".join(os_))
                S.append(J.Subject(label, "derived::gen::" + name.lower(), sch, o, tags=["derived", "gen"] + ([side + "-only"] if side else [])))
    return S


if __name__ == "__main__":
    p = os.path.join(HERE, "..", "harness", "src", "roots_gen.rs")
    s = rust()
    if not os.path.exists(p) or open(p).read() != s:
        open(p, "w").write(s)
