"""Loader for the driver's dump: types, resolved functions, natural loops."""
import json
import re

INT = {}
for _w in (8, 16, 32, 64, 128):
    INT["u%d" % _w] = (0, (1 << _w) - 1, _w)
    INT["i%d" % _w] = (-(1 << (_w - 1)), (1 << (_w - 1)) - 1, _w)
INT["usize"] = INT["u64"]
INT["isize"] = INT["i64"]
INT["char"] = (0, 0x10FFFF, 32)

SEQ_ADTS = {
    "alloc::vec::Vec", "smallvec::SmallVec", "alloc::string::String", "bytes::bytes::Bytes",
}
# types whose values are those of their (first) type argument
TRANSPARENT = {
    "alloc::boxed::Box", "alloc::rcs::arc::Arc", "alloc::sync::Arc", "alloc::rc::Rc", "core::mem::manually_drop::ManuallyDrop",
}


def norm(path):
    """drop generic arguments and impl headers from a definition path"""
    p = path
    out = []
    i = 0
    # '::<...>' and '<impl ...>' segments
    while i < len(p):
        if p.startswith("::<", i) or p.startswith("<impl ", i):
            j = i + 2 if p.startswith("::<", i) else i
            d = 0
            while True:
                if p[j] == "<":
                    d += 1
                elif p[j] == ">" and p[j - 1] != "-":
                    d -= 1
                    if d == 0:
                        break
                j += 1
            i = j + 1
            if out and "".join(out).endswith("::") and p.startswith("::", i):
                i += 2
            continue
        out.append(p[i])
        i += 1
    s = "".join(out)
    return s[2:] if s.startswith("::") else s


class Program:
    def __init__(self, path):
        with open(path) as f:
            d = json.load(f)
        self.roots = {}
        for r in d["roots"]:
            self.roots.setdefault(r["path"], r["inst"])
        self.types = d["types"]
        self.insts = {int(k): v for k, v in d["insts"].items()}
        self._loops = {}
        self._kind = {}
        self._live = {}
        self._norm = {}

    def npath(self, p):
        r = self._norm.get(p)
        if r is None:
            r = self._norm[p] = norm(p)
        return r

    # ---- types
    def ty(self, t):
        return self.types[t]

    def targ(self, a):
        """type id of a generic argument, or None"""
        return a.get("t") if isinstance(a, dict) else None

    def int_range(self, t):
        ty = self.types[t]
        k = ty["k"]
        if k == "int":
            return INT[ty["s"]]
        if k == "char":
            return INT["char"]
        if k == "adt":
            p = ty["path"]
            if p == "core::num::nonzero::NonZero":
                lo, hi, w = self.int_range(self.targ(ty["args"][0]))
                return (1, hi, w)
            if p == "ruint::Uint":
                b = self.const_arg(ty["args"][0])
                if isinstance(b, int):
                    return (0, (1 << b) - 1, b)
        return None

    def const_arg(self, a):
        if isinstance(a, dict):
            if "c" in a:
                c = a["c"]
                if isinstance(c, int):
                    return c
                if isinstance(c, dict):
                    v = c.get("val", c)
                    return v.get("int") if isinstance(v, dict) else None
            if "n" in a:
                return a["n"]
        return None

    def seq_elem(self, t):
        """element type id of a sequence type, else None"""
        ty = self.types[t]
        if ty["k"] in ("slice", "array"):
            return ty["e"]
        if ty["k"] == "str":
            return "u8"
        if ty["k"] == "adt":
            p = ty["path"]
            if p == "alloc::vec::Vec":
                return self.targ(ty["args"][0])
            if p == "smallvec::SmallVec":
                a = self.types[self.targ(ty["args"][0])]
                return a["e"] if a["k"] == "array" else "val"
            if p in ("alloc::string::String", "bytes::bytes::Bytes"):
                return "u8"
            if p in TRANSPARENT:
                return self.seq_elem(self.targ(ty["args"][0]))
        return None

    def is_transparent(self, t):
        ty = self.types[t]
        return ty["k"] == "adt" and ty["path"] in TRANSPARENT

    def kind(self, t):
        """sort of the values of a type: ('int',lo,hi) | 'bool' | ('seq',elemkind) | 'val'"""
        r = self._kind.get(t)
        if r is not None:
            return r
        self._kind[t] = "val"
        ir = self.int_range(t)
        if ir:
            r = ("int", ir[0], ir[1])
        elif self.types[t]["k"] == "bool":
            r = "bool"
        else:
            e = self.seq_elem(t)
            if e is not None:
                r = ("seq", "u8" if e == "u8" else ("val" if e == "val" else self.ekind(e)))
            elif self.is_transparent(t):
                r = self.kind(self.targ(self.types[t]["args"][0]))
            else:
                r = "val"
        self._kind[t] = r
        return r

    def ekind(self, t):
        k = self.kind(t)
        if k == ("int", 0, 255):
            return "u8"
        return k

    def field_type(self, t, variant, i):
        """type id of field i of a value of type t, or None"""
        ty = self.types[t]
        if ty["k"] == "tuple":
            return ty["e"][i]
        if ty["k"] == "ref":
            return ty["e"]
        if ty["k"] == "adt":
            if ty["path"] in TRANSPARENT:
                return self.field_type(self.targ(ty["args"][0]), variant, i)
            if "variants" in ty and len(ty["variants"]) > (variant or 0):
                f = ty["variants"][variant or 0]["f"]
                if i < len(f):
                    return f[i]["t"]
        return None

    # ---- control flow
    def live(self, iid):
        """([locals live at block entry], locals that are always live because mutably borrowed)"""
        r = self._live.get(iid)
        if r is None:
            r = self._live[iid] = compute_live(self.insts[iid]["body"])
        return r

    def loops(self, iid):
        """{header: set(blocks)} natural loops of the non-cleanup control flow graph"""
        r = self._loops.get(iid)
        if r is not None:
            return r
        body = self.insts[iid]["body"] if isinstance(iid, int) else None
        r = self._loops[iid] = compute_loops(body)
        return r


def succs(bb):
    t = bb["t"]
    k = t[0]
    if k == "goto":
        return [t[1]]
    if k == "switch":
        return [x[1] for x in t[3]] + ([t[4]] if t[4] is not None else [])
    if k == "call":
        return [t[4]] if t[4] is not None else []
    if k == "assert":
        return [t[4]]
    return []


def compute_loops(body):
    blocks = body["blocks"]
    n = len(blocks)
    order, seen = [], set()
    st = [(0, iter(succs(blocks[0])))]
    seen.add(0)
    while st:
        b, it = st[-1]
        for s in it:
            if s not in seen:
                seen.add(s)
                st.append((s, iter(succs(blocks[s]))))
                break
        else:
            order.append(b)
            st.pop()
    rpo = order[::-1]
    idx = {b: i for i, b in enumerate(rpo)}
    preds = {b: [] for b in rpo}
    for b in rpo:
        for s in succs(blocks[b]):
            preds[s].append(b)
    dom = {b: set(rpo) for b in rpo}
    dom[0] = {0}
    ch = True
    while ch:
        ch = False
        for b in rpo[1:]:
            ps = [dom[p] for p in preds[b]]
            nd = set.intersection(*ps) | {b} if ps else {b}
            if nd != dom[b]:
                dom[b] = nd
                ch = True
    loops = {}
    for b in rpo:
        for s in succs(blocks[b]):
            if s in dom[b]:
                L = loops.setdefault(s, {s})
                stack = [b]
                while stack:
                    x = stack.pop()
                    if x not in L:
                        L.add(x)
                        stack.extend(preds[x])
    return loops


def place_use(p, use):
    use.add(p[0])
    for e in p[1:]:
        if e[0] == "i":
            use.add(e[1])


def operand_use(o, use):
    if o[0] in ("c", "m"):
        place_use(o[1], use)


def rvalue_use(r, use, mut):
    k = r[0]
    if k in ("use", "repeat"):
        operand_use(r[1], use)
    elif k in ("ref", "rawptr"):
        place_use(r[2], use)
        if r[1] and "*" not in r[2][1:]:
            mut.add(r[2][0])
    elif k in ("cast", "un"):
        operand_use(r[2], use)
    elif k == "bin":
        operand_use(r[2], use)
        operand_use(r[3], use)
    elif k == "discr":
        place_use(r[1], use)
    elif k == "agg":
        for o in r[2]:
            operand_use(o, use)
    else:
        raise ValueError(k)


def compute_live(body):
    blocks = body["blocks"]
    n = len(blocks)
    mut = set()
    gen, kill = [], []
    for b in blocks:
        g, kl = set(), set()

        def uses(f, *a):
            u = set()
            f(*a, u) if f is not rvalue_use else f(*a, u, mut)
            g.update(u - kl)
        for s in b["s"]:
            if s[0] == "=":
                uses(rvalue_use, s[2])
                if len(s[1]) == 1:
                    kl.add(s[1][0])
                else:
                    uses(place_use, s[1])
        t = b["t"]
        if t[0] == "switch":
            uses(operand_use, t[1])
        elif t[0] == "assert":
            uses(operand_use, t[1])
        elif t[0] == "return":
            g.update({0} - kl)
        elif t[0] == "call":
            if "op" in t[1]:
                uses(operand_use, t[1]["op"])
            for o in t[2]:
                uses(operand_use, o)
            if len(t[3]) == 1:
                kl.add(t[3][0])
            else:
                uses(place_use, t[3])
        gen.append(g)
        kill.append(kl)
    live = [set(g) for g in gen]
    ch = True
    while ch:
        ch = False
        for i in range(n - 1, -1, -1):
            out = set()
            for s in succs(blocks[i]):
                out |= live[s]
            new = gen[i] | (out - kill[i])
            if new != live[i]:
                live[i] = new
                ch = True
    return live, mut
