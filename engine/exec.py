"""Abstract interpreter over the dumped MIR (trace-partitioned, summarising calls by entering them).

A state maps cells to terms and carries path facts.  Executing a function yields a list of
(state, outcome): ('ret', value) | ('panic', message, where) | ('unk', why).
"""
import os
import sys
import terms as T
from terms import *
from mir import Program, INT, TRANSPARENT
from prover import Facts, simp
import loops as LOOPS

UNDEF = mk("opaque", ("undef",), "v")
OPAQUE = mk("opaque", ("?",), "v")
USIZE_MAX = (1 << 64) - 1
DEBUG = bool(os.environ.get("ENGINE_DEBUG"))


class Unk(Exception):
    pass


class State:
    __slots__ = ("cells", "facts", "ev", "trail", "rtrail", "nev")

    def __init__(self):
        self.cells = {}
        self.facts = Facts()
        self.ev = None
        self.nev = 0
        self.trail = None
        self.rtrail = None

    def fork(self):
        s = State.__new__(State)
        s.cells = dict(self.cells)
        s.facts = self.facts.fork()
        s.ev = self.ev
        s.nev = self.nev
        s.trail = self.trail
        s.rtrail = self.rtrail
        return s

    def event(self, e):
        self.ev = (e, self.ev)
        self.nev += 1

    def events(self):
        out = []
        e = self.ev
        while e is not None:
            out.append(e[0])
            e = e[1]
        return out[::-1]

    def where(self):
        return self.rtrail or self.trail

    def mark(self, sp):
        self.trail = sp
        if sp and "/.rustup/" not in sp and "/registry/" not in sp and not sp.startswith("src/"):
            self.rtrail = sp


class Frame:
    __slots__ = ("id", "iid", "body", "inst", "crate")

    def __init__(self, id, iid, inst, body):
        self.id, self.iid, self.inst, self.body = id, iid, inst, body
        self.crate = inst["crate"]


def some(v, ty="core::option::Option"):
    return adt(ty, 1, (v,))


NONE = adt("core::option::Option", 0, ())
OPT = "core::option::Option"
RES = "core::result::Result"


def ok(v):
    return adt(RES, 0, (v,))


def err(v):
    return adt(RES, 1, (v,))


def mref(cell, path=()):
    return mk("mref", (cell, tuple(path)), "v")


def deref_all(v):
    while v.op == "ref":
        v = v.args[0]
    return v


class Exec:
    def __init__(self, prog, params=None, no_overflow=False, decode=False):
        self.P = prog
        self.params = params or {}
        self.no_overflow = no_overflow      # assume length arithmetic of the analysed code does not overflow
        self.frames = 0
        self.steps = 0
        self.max_steps = 400000
        self.max_states = 3000
        self.depth = 0
        self.seen_fns = {}
        self.call_sites = 0
        self.guards = 0
        self.loop_stats = []
        self.symn = {}
        self.bitfields = []
        self.bodies = {}
        self.unroll_limit = 4
        self.native_used = set()
        import natives
        self.N = natives

    # ------------------------------------------------------------ symbolic inputs
    def fresh(self, t, name):
        """a value of type t made of fresh symbols"""
        P = self.P
        ty = P.types[t]
        k = P.kind(t)
        if isinstance(k, tuple) and k[0] == "int":
            return isym(name, k[1], k[2])
        if k == "bool":
            return bsym(name)
        if isinstance(k, tuple) and k[0] == "seq":
            if ty["k"] == "array":
                n = self.array_len(ty)
                s = ssym(name, k[1])
                if n.op == "int" and n.args[0] <= 64:
                    return lit([at(s, I(j)) for j in range(n.args[0])]) if n.args[0] <= 0 else sapp("arr:" + name, (), k[1], n)
                return sapp("arr:" + name, (), k[1], n)
            return ssym(name, k[1])
        if ty["k"] == "ref":
            return ref(self.fresh(ty["e"], name))
        if ty["k"] == "tuple":
            return tup([self.fresh(e, "%s.%d" % (name, i)) for i, e in enumerate(ty["e"])])
        if ty["k"] == "adt":
            if ty["path"] in TRANSPARENT:
                return self.fresh(P.targ(ty["args"][0]), name)
            if ty["path"] in self.N.MAPS:
                return adt(ty["path"], 0, (ssym(name, "val"),))
            if not ty["enum"] and "variants" in ty:
                if ty["path"].endswith("::Bitfield"):
                    self.bitfields.append((name, t))
                return adt(ty["path"], 0, [self.fresh(f["t"], "%s.%s" % (name, f["n"])) for f in ty["variants"][0]["f"]])
            if ty["enum"]:
                return vsym(name, ty["path"])
        return vsym(name, ty["s"])

    def fresh_variant(self, t, vi, name):
        ty = self.P.types[t]
        v = ty["variants"][vi]
        return adt(ty["path"], vi, [self.fresh(f["t"], "%s.%s.%s" % (name, v["n"], f["n"])) for f in v["f"]])

    def array_len(self, ty):
        n = ty["n"]
        if isinstance(n, int):
            return I(n)
        if isinstance(n, dict) and "param" in n:
            return self.cparam(n["param"])
        raise Unk("array length %r" % (n,))

    def cparam(self, name):
        if isinstance(name, dict):
            name = name["param"]
        v = self.params.get("const " + name)
        if v is not None:
            return lift(v)
        return isym("N:" + name, 0, 1 << 40)

    def type_key(self, t):
        """contract key of an opaque type"""
        ty = self.P.types[t]
        if ty["k"] == "param":
            n = ty["n"]
            return (self.params.get(n, "V"), n)
        if ty["k"] == "adt" and ty["path"].split("::")[-1] in OPAQUE_TYPES:
            n = ty["path"].split("::")[-1]
            return (OPAQUE_TYPES[n], n)
        return None

    # ------------------------------------------------------------ entry
    def run_root(self, path, args, st=None):
        iid = self.P.roots[path]
        st = st or State()
        return self.call_inst(iid, args, st, "root")

    def call_inst(self, iid, args, st, site):
        inst = self.P.insts[iid]
        body = inst.get("body")
        if body is None:
            raise Unk("no body for " + inst["path"])
        return self.call_body(iid, inst, body, args, st)

    def call_body(self, iid, inst, body, args, st):
        self.frames += 1
        self.depth += 1
        if self.depth > 90:
            self.depth -= 1
            return [(st, ("unk", "call depth"))]
        self.seen_fns[inst["path"]] = self.seen_fns.get(inst["path"], 0) + 1
        fr = Frame(self.frames, iid if not isinstance(body, int) else None, inst, body)
        self.bodies[fr.id] = body
        if body.get("spread") is not None and len(args) != body["args"]:
            sp = body["spread"]
            head = args[:sp - 1]
            rest = args[sp - 1]
            args = head + [rest]
        for i, a in enumerate(args):
            st.cells[("l", fr.id, i + 1)] = a
        try:
            res = self.region(fr, st, 0, None)
        finally:
            self.depth -= 1
        out = []
        for s, o in res:
            # drop the frame's cells
            fid = fr.id
            for c in [c for c in s.cells if c[0] == "l" and c[1] == fid]:
                del s.cells[c]
            out.append((s, o))
        return out

    # ------------------------------------------------------------ regions
    def region(self, fr, st, start, loop, first=True):
        """run from block `start`; loop = (header, blocks) or None.
        ends: terminal outcomes, ('back',), ('exit', bb)"""
        out = []
        work = [(st, start, True)]
        loops = self.P.loops(fr.iid) if fr.iid is not None else {}
        n_states = 0
        while work:
            st, bb, is_first = work.pop()
            if loop is not None and not is_first:
                if bb == loop[0]:
                    out.append((st, ("back",)))
                    continue
                if bb not in loop[1]:
                    out.append((st, ("exit", bb)))
                    continue
            if bb in loops and not (loop is not None and bb == loop[0]):
                for s2, o in LOOPS.exec_loop(self, fr, st, bb, loops[bb]):
                    if o[0] == "exit":
                        work.append((s2, o[1], False))
                    else:
                        out.append((s2, o))
                continue
            self.steps += 1
            if self.steps > self.max_steps:
                raise Unk("step budget")
            for s2, nxt in self.block(fr, st, bb):
                if isinstance(nxt, int):
                    work.append((s2, nxt, False))
                else:
                    out.append((s2, nxt))
            if len(work) + len(out) > self.max_states:
                raise Unk("state budget")
        return out

    def block(self, fr, st, bb):
        b = fr.body["blocks"][bb]
        try:
            for s in b["s"]:
                self.stmt(fr, st, s)
            return self.term(fr, st, b)
        except Unk as e:
            return [(st, ("unk", "%s @ %s" % (e, b["sp"])))]
        except (AttributeError, KeyError, IndexError, TypeError, ValueError, AssertionError, NotImplementedError) as e:
            if DEBUG:
                raise
            return [(st, ("unk", "not modelled (%s) @ %s" % (type(e).__name__, b["sp"])))]

    # ------------------------------------------------------------ places
    def local(self, fr, n):
        return ("l", fr.id, n)

    def place(self, fr, st, p):
        """('cell', cell, path) or ('val', term)"""
        cell, path, val = self.local(fr, p[0]), (), None
        variant = None
        for e in p[1:]:
            if e == "*":
                v = val if cell is None else self.read(st, cell, path)
                if v.op == "ref":
                    cell, path, val = None, (), v.args[0]
                elif v.op == "mref":
                    cell, path, val = v.args[0], v.args[1], None
                elif v.op == "ite" and has_mref(v):
                    raise Unk("conditional mutable reference")
                # otherwise a transparent owner (Box): the value itself
            elif e[0] == "f":
                el = ("f", e[1], variant, self.P.kind(e[2]))
                variant = None
                if cell is None:
                    val = self.proj(st, val, el)
                else:
                    path = path + (el,)
            elif e[0] == "d":
                variant = e[1]
            elif e[0] == "i":
                idx = self.read(st, self.local(fr, e[1]), ())
                if cell is None:
                    val = self.proj(st, val, ("i", idx))
                else:
                    path = path + (("i", idx),)
            elif e[0] in ("ci", "ss"):
                s = val if cell is None else self.read(st, cell, path)
                n = slen(s)
                if e[0] == "ci":
                    el = ("i", sub(n, I(e[1])) if e[3] else I(e[1]))
                else:
                    el = ("s", I(e[1]), sub(n, I(e[2])) if e[3] else I(e[2]))
                if cell is None:
                    val = self.proj(st, val, el)
                else:
                    path = path + (el,)
            else:
                raise Unk("place %r" % (e,))
        if cell is None:
            return ("val", val)
        return ("cell", cell, path)

    def proj(self, st, v, el):
        if v is UNDEF:
            raise Unk("read of uninitialised value")
        if el[0] == "f":
            if v.op == "ref":
                raise Unk("field of reference")
            if v.op == "opaque":
                return OPAQUE
            if v.sort in ("i", "s", "b"):
                # newtype modelled as its content
                if el[1] == 0:
                    return v
                raise Unk("field of scalar")
            return fld(v, el[2], el[1], el[3])
        if el[0] == "i":
            return self.elem(st, v, el[1])
        if el[0] == "s":
            return subseq(v, el[1], el[2])
        raise Unk("proj")

    def elem(self, st, s, i):
        r = at(s, i)
        if r.op == "at" and r.args[0].op in ("cat", "upd", "setbit"):
            from prover import resolve
            r2 = resolve(st.facts, r)
            if r2 is not r:
                return r2
        return r

    def read(self, st, cell, path):
        v = st.cells.get(cell)
        if v is None:
            raise Unk("read of uninitialised cell")
        for el in path:
            v = self.proj(st, v, el)
        return v

    def readp(self, fr, st, p):
        r = self.place(fr, st, p)
        if r[0] == "val":
            return r[1]
        return self.read(st, r[1], r[2])

    def write(self, st, cell, path, val):
        if not path:
            st.cells[cell] = val
            return
        old = st.cells.get(cell, UNDEF)
        st.cells[cell] = self.upd(st, old, path, val)

    def upd(self, st, v, path, val):
        if not path:
            return val
        el, rest = path[0], path[1:]
        if el[0] == "f":
            if v.op in ("adt", "tuple", "closure"):
                fs = list(v.args[-1])
                fs[el[1]] = self.upd(st, fs[el[1]], rest, val)
                return mk(v.op, v.args[:-1] + (tuple(fs),), "v")
            if v.sort in ("i", "s", "b") and el[1] == 0:
                return self.upd(st, v, rest, val)
            raise Unk("update of a field of %s" % v.op)
        if el[0] == "i":
            return upd(v, el[1], self.upd(st, self.elem(st, v, el[1]) if rest else None, rest, val))
        if el[0] == "s":
            return cat([subseq(v, I(0), el[1]), self.upd(st, subseq(v, el[1], el[2]), rest, val), subseq(v, el[2], slen(v))])
        raise Unk("upd")

    def deref(self, st, v):
        """value behind a reference value"""
        while True:
            if v.op == "ref":
                v = v.args[0]
            elif v.op == "mref":
                v = self.read(st, v.args[0], v.args[1])
            else:
                return v

    def deref1(self, st, v):
        if v.op == "ref":
            return v.args[0]
        if v.op == "mref":
            return self.read(st, v.args[0], v.args[1])
        if v.op == "ite":
            return ite(v.args[0], self.deref1(st, v.args[1]), self.deref1(st, v.args[2]))
        return v

    def store(self, st, r, val):
        if r.op != "mref":
            raise Unk("store through %s" % r.op)
        self.write(st, r.args[0], r.args[1], val)

    # ------------------------------------------------------------ operands, rvalues
    def const(self, fr, st, c):
        if "fn" in c:
            return mk("fn", (c.get("ty", c["fn"]),), "v")
        if "cparam" in c:
            return self.cparam(c["cparam"])
        if "promoted" in c:
            inst = self.P.insts[c.get("inst", fr.iid)] if c.get("inst") is not None else fr.inst
            pb = inst["promoted"][c["promoted"]]
            if pb is None:
                raise Unk("promoted constant")
            return self.eval_const_body(inst, pb, st)
        if "val" in c:
            return self.cval(c["val"], c["ty"])
        if "uneval" in c:
            r = self.N.const_item(self, st, c)
            if r is not None:
                return r
            raise Unk("constant %s" % c["uneval"])
        raise Unk("constant %r" % (c,))

    def eval_const_body(self, inst, body, st):
        fr = Frame(-1, None, inst, body)
        self.frames += 1
        fr.id = self.frames
        res = self.region(fr, st, 0, None)
        if len(res) != 1 or res[0][1][0] != "ret":
            raise Unk("promoted body")
        return res[0][1][1]

    def cval(self, v, t):
        if "int" in v:
            x = int(v["int"])
            return I(x)
        if "bool" in v:
            return B(v["bool"])
        if "zst" in v:
            ty = self.P.types[t]
            if ty["k"] == "fndef":
                return mk("fn", (t,), "v")
            if ty["k"] == "closure":
                return mk("closure", (t, ()), "v")
            if ty["k"] == "tuple":
                return UNIT
            if ty["k"] == "adt":
                if self.P.seq_elem(t) is not None:
                    return EMPTY
                if "variants" in ty and ty["variants"]:
                    fs = [self.cval({"zst": f["t"]}, f["t"]) for f in ty["variants"][0]["f"]]
                    return adt(ty["path"], 0, fs)
                return adt(ty["path"], 0, ())
            if ty["k"] == "array":
                return EMPTY
            return adt(ty["s"], 0, ())
        if "str" in v:
            return ref(lit([I(b) for b in (v["str"].encode() if isinstance(v["str"], str) else v["str"])]))
        if "bytes" in v:
            return ref(lit([I(b) for b in v["bytes"]]))
        if "ref" in v:
            inner = v["ref"]
            return ref(self.cval(inner["val"], inner["ty"]) if "val" in inner and "ty" in inner else self.cval(inner, self.P.types[t]["e"]))
        if "array" in v:
            e = self.P.types[t].get("e")
            return lit([self.cval(x.get("val", x), x.get("ty", e)) for x in v["array"]])
        if "tuple" in v:
            es = self.P.types[t]["e"]
            return tup([self.cval(x.get("val", x), x.get("ty", e)) for x, e in zip(v["tuple"], es)])
        if "adt" in v:
            ty = self.P.types[t]
            if self.P.int_range(t):
                x = v
                while isinstance(x, dict) and "int" not in x:
                    if "f" not in x or not x["f"]:
                        raise Unk("constant adt")
                    x = x["f"][0]
                    x = x.get("val", x)
                return I(int(x["int"]))
            fs = []
            vi = v.get("v") or 0
            fts = ty["variants"][vi]["f"] if "variants" in ty else []
            for i, x in enumerate(v.get("f", [])):
                fs.append(self.cval(x.get("val", x), x["ty"] if "ty" in x else fts[i]["t"]))
            return adt(ty["path"], vi, fs)
        raise Unk("constant %s" % str(v)[:80])

    def operand(self, fr, st, o):
        if o[0] in ("c", "m"):
            return self.readp(fr, st, o[1])
        if o[0] == "k":
            return self.const(fr, st, o[1])
        if o[0] == "rc":
            return FALSE
        raise Unk("operand")

    def stmt(self, fr, st, s):
        if s[0] == "=":
            v = self.rvalue(fr, st, s[2])
            self.assign(fr, st, s[1], v)
            return
        if s[0] == "intr":
            return
        if s[0] == "sd":
            raise Unk("set discriminant")
        raise Unk("statement %s" % s[0])

    def assign(self, fr, st, p, v):
        r = self.place(fr, st, p)
        if r[0] == "val":
            raise Unk("write through a shared reference")
        if r[2] and st.cells.get(r[1]) is None:
            # field-wise initialisation
            t = fr.body["locals"][p[0]]
            st.cells[r[1]] = self.undef_of(t)
        self.write(st, r[1], r[2], v)

    def undef_of(self, t):
        ty = self.P.types[t]
        if ty["k"] == "tuple":
            return tup([UNDEF] * len(ty["e"]))
        if ty["k"] == "adt" and "variants" in ty and not ty["enum"]:
            return adt(ty["path"], 0, [UNDEF] * len(ty["variants"][0]["f"]))
        return UNDEF

    def rvalue(self, fr, st, r):
        k = r[0]
        if k == "use":
            return self.operand(fr, st, r[1])
        if k in ("ref", "rawptr"):
            p = self.place(fr, st, r[2])
            if r[1]:
                if p[0] == "cell":
                    return mref(p[1], p[2])
                # `&mut` of a temporary constant (zero-length)
                return ref(p[1])
            if p[0] == "val":
                return ref(p[1])
            return ref(self.read(st, p[1], p[2]))
        if k == "bin":
            return self.binop(fr, st, r)
        if k == "un":
            v = self.operand(fr, st, r[2])
            if r[1] == "Not":
                if v.sort == "b":
                    return neg(v)
                lo, hi, w = self.P.int_range(r[3])
                return sub(I(hi), v) if lo == 0 else sub(I(-1), v)
            if r[1] == "Neg":
                return scale(v, -1)
            if r[1] == "PtrMetadata":
                return slen(self.deref(st, v))
            raise Unk("unary " + r[1])
        if k == "discr":
            # a value that can only be one variant need not have been written
            if self.P.types[r[2]]["s"] in ("core::option::Option<!>", "core::option::Option<core::convert::Infallible>"):
                return I(0)
            v = self.readp(fr, st, r[1])
            return self.discr(v, r[2])
        if k == "agg":
            return self.aggregate(fr, st, r)
        if k == "cast":
            return self.cast(fr, st, r)
        if k == "repeat":
            v = self.operand(fr, st, r[1])
            n = r[2]
            n = I(n) if isinstance(n, int) else (self.cparam(n["param"]) if isinstance(n, dict) and "param" in n else None)
            if n is None:
                raise Unk("repeat count")
            return rep(v, n)
        raise Unk("rvalue %s" % k)

    def aggregate(self, fr, st, r):
        kd, ops = r[1], [self.operand(fr, st, o) for o in r[2]]
        if kd[0] == "tuple":
            return tup(ops)
        if kd[0] == "array":
            return lit(ops)
        if kd[0] == "adt":
            ty = self.P.types[kd[1]]
            if self.P.int_range(kd[1]) or self.P.seq_elem(kd[1]) is not None or self.P.is_transparent(kd[1]):
                if ops:
                    return ops[0]
            return adt(ty["path"], kd[2] or 0, ops)
        if kd[0] == "closure":
            return mk("closure", (kd[1], tuple(ops)), "v")
        if kd[0] == "rawptr":
            # slice pointer from (data, len)
            raise Unk("raw pointer aggregate")
        raise Unk("aggregate " + kd[0])

    def discr(self, v, t):
        ty = self.P.types[t]
        if ty["k"] != "adt" or "variants" not in ty:
            raise Unk("discriminant of %s" % ty["s"])
        ds = [x["d"] for x in ty["variants"]]

        def go(v):
            if v.op == "adt":
                return I(ds[v.args[1]])
            if v.op == "ite":
                return ite(v.args[0], go(v.args[1]), go(v.args[2]))
            if v.op == "opaque":
                raise Unk("discriminant of unknown value")
            if ds == list(range(len(ds))):
                return discr(v, len(ds))
            r = I(ds[-1])
            for i in range(len(ds) - 2, -1, -1):
                r = ite(isvar(v, i, len(ds)), I(ds[i]), r)
            return r

        return go(v)

    def in_range(self, t, lo, hi):
        return conj([le(I(lo), t), le(t, I(hi))])

    def binop(self, fr, st, r):
        op = r[1]
        a, b = self.operand(fr, st, r[2]), self.operand(fr, st, r[3])
        return self.arith(st, op, a, b, r[4])

    def arith(self, st, op, a, b, t):
        if op in ("Eq", "Ne"):
            if a.sort == "i" and b.sort == "i":
                c = eq(a, b)
            elif a.sort == "b":
                c = iff(a, b)
            else:
                c = eq(a, b)
            return c if op == "Eq" else neg(c)
        if a.sort == "b":
            if op == "BitAnd":
                return conj([a, b])
            if op == "BitOr":
                return disj([a, b])
            if op == "BitXor":
                return neg(iff(a, b))
            if op in ("Lt", "Le", "Gt", "Ge"):
                a, b = b2i(a), b2i(b)
        if op == "Lt":
            return lt(a, b)
        if op == "Le":
            return le(a, b)
        if op == "Gt":
            return lt(b, a)
        if op == "Ge":
            return le(b, a)
        if op == "Cmp":
            return self.ordering(a, b)
        rg = self.P.int_range(t)
        if rg is None:
            raise Unk("arithmetic on %s" % self.P.types[t]["s"])
        lo, hi, w = rg
        base = op.replace("WithOverflow", "").replace("Unchecked", "")
        if base in ("Add", "Sub", "Mul"):
            x = add(a, b) if base == "Add" else (sub(a, b) if base == "Sub" else mul(a, b))
            if op.endswith("WithOverflow"):
                return tup([x, neg(self.in_range(x, lo, hi))])
            if op.endswith("Unchecked"):
                return x
            return self.wrapto(st, x, rg)
        if base == "Div":
            return divt(a, b) if lo == 0 else self.unk("signed division")
        if base == "Rem":
            if lo != 0:
                raise Unk("signed remainder")
            if b.op == "int" and b.args[0] > 0:
                return modc(a, b.args[0])
            q = divt(a, b)
            return sub(a, mul(q, b))
        if lo != 0 and base in ("BitAnd", "BitOr", "BitXor"):
            # the terms below are about non-negative numbers
            nn = [rng(x)[0] is not None and rng(x)[0] >= 0 for x in (a, b)]
            mask = [x.op == "int" and x.args[0] >= 0 and x.args[0] & (x.args[0] + 1) == 0 for x in (a, b)]
            if not (all(nn) or base == "BitAnd" and any(mask) or a.op == b.op == "int"):
                raise Unk("bit operation on signed integers")
        if base == "BitAnd":
            return band(a, b)
        if base == "BitOr":
            return self.bitor(st, a, b)
        if base == "BitXor":
            return bxor(a, b)
        if base == "Shl":
            return self.wrapto(st, mul(a, pow2(self.shamt(st, b, w))), rg)
        if base == "Shr":
            b = self.shamt(st, b, w)
            return shr(a, b)
        raise Unk("operator " + op)

    def shamt(self, st, b, w):
        """shift amounts are taken modulo the width in the unchecked forms"""
        l, h = rng(b)
        if l is not None and l >= 0 and h is not None and h < w:
            return b
        if st.facts.entails(lt(b, I(w))) and st.facts.entails(le(I(0), b)):
            return b
        return modc(b, w)

    def bitor(self, st, a, b):
        return bor(a, b)

    def wrapto(self, st, x, rg):
        lo, hi, w = rg
        if x.op == "ite":
            return ite(x.args[0], self.wrapto(st, x.args[1], rg), self.wrapto(st, x.args[2], rg))
        l, h = rng(x)
        if l is not None and l >= lo and h is not None and h <= hi:
            return x
        c = self.in_range(x, lo, hi)
        if st.facts.entails(c):
            return x
        if lo == 0:
            return modc(x, 1 << w)
        return sub(modc(add(x, 1 << (w - 1)), 1 << w), I(1 << (w - 1)))

    def unk(self, why):
        raise Unk(why)

    def ordering(self, a, b):
        O = "core::cmp::Ordering"
        return ite(lt(a, b), adt(O, 0, ()), ite(eq(a, b), adt(O, 1, ()), adt(O, 2, ())))

    def cast(self, fr, st, r):
        kd, v, ft, tt = r[1], self.operand(fr, st, r[2]), r[3], r[4]
        if kd == "int":
            rg = self.P.int_range(tt)
            if rg is None:
                raise Unk("cast")
            if v.sort == "b":
                return b2i(v)
            if v.sort != "i":
                raise Unk("cast of %s" % v.op)
            return self.wrapto(st, v, rg)
        if kd.startswith("coerce"):
            return v
        if kd == "PtrToPtr":
            if self.P.types[ft]["k"] in ("ptr", "ref") and self.P.types[tt]["k"] in ("ptr", "ref"):
                self.same_extent(st, v, ft, tt)
                return v
            raise Unk("pointer cast")
        if kd == "Transmute":
            r2 = self.N.transmute(self, st, v, ft, tt)
            if r2 is None:
                raise Unk("transmute %s -> %s" % (self.P.types[ft]["s"], self.P.types[tt]["s"]))
            return r2
        raise Unk("cast " + kd)

    def same_extent(self, st, v, ft, tt):
        """a pointer that becomes one to an array has to point to that many items"""
        a, b = self.P.types[self.P.types[ft]["e"]], self.P.types[self.P.types[tt]["e"]]
        if b["k"] == "array" and not (a["k"] == "array" and a.get("n") == b.get("n")):
            n = b.get("n")
            w = self.deref(st, v)
            if not isinstance(n, int) or w.sort != "s" or not st.facts.entails(eq(slen(w), I(n))):
                raise Unk("pointer to a part of a slice")

    # ------------------------------------------------------------ terminators
    def split(self, st, c):
        """(state where c, state where not c); None when infeasible"""
        if c is TRUE:
            return st, None
        if c is FALSE:
            return None, st
        F = st.facts
        if F.infeasible_with(c):
            st.facts.add(neg(c))
            return None, st
        if F.infeasible_with(neg(c)):
            st.facts.add(c)
            return st, None
        b = st.fork()
        st.facts.add(c)
        b.facts.add(neg(c))
        return st, b

    def term(self, fr, st, b):
        t = b["t"]
        k = t[0]
        if k == "goto":
            return [(st, t[1])]
        if k == "return":
            v = st.cells.get(("l", fr.id, 0))
            if v is None:
                v = UNIT
            return [(st, ("ret", v))]
        if k == "switch":
            return self.switch(fr, st, t, b)
        if k == "assert":
            c = self.operand(fr, st, t[1])
            if not t[2]:
                c = neg(c)
            msg = t[3]
            if msg.startswith("overflow") and (self.no_overflow or fr.crate in ("core", "alloc", "ssz_harness", "std")):
                return [(st, t[4])]
            self.guards += 1
            a, bad = self.split(st, c)
            out = []
            if a is not None:
                out.append((a, t[4]))
            if bad is not None:
                bad.mark(b["sp"])
                out.append((bad, ("panic", msg, b["sp"], fr.inst["path"])))
            return out
        if k == "call":
            return self.callterm(fr, st, t, b)
        if k == "unreachable":
            # the compiler relies on it: infeasible
            return []
        if k == "unwind":
            return []
        raise Unk("terminator %s" % k)

    def switch(self, fr, st, t, b):
        v = self.operand(fr, st, t[1])
        out = []
        cur = st
        rg = self.P.int_range(t[2])
        for val, bb in t[3]:
            val = int(val)
            if rg and rg[0] < 0 and val > rg[1]:
                # the targets are raw bits
                val -= 1 << rg[2]
            if v.sort == "b":
                c = v if val else neg(v)
            elif v.sort == "i":
                c = eq(v, I(int(val)))
            else:
                raise Unk("switch on %s" % v.op)
            a, cur = self.split(cur, c)
            if a is not None:
                a.mark(b["sp"])
                out.append((a, bb))
            if cur is None:
                break
        if cur is not None and t[4] is not None:
            ob = fr.body["blocks"][t[4]]
            if not (ob["t"][0] == "unreachable" and not ob["s"]):
                cur.mark(b["sp"])
                out.append((cur, t[4]))
        return out

    def callterm(self, fr, st, t, b):
        callee, ops, dest, target = t[1], t[2], t[3], t[4]
        args = [self.operand(fr, st, o) for o in ops]
        self.call_sites += 1
        if "op" in callee:
            res = self.call_value(st, self.operand(fr, st, callee["op"]), args, b["sp"])
        else:
            c = callee["def"]
            dty = t[5] if len(t) > 5 else None
            res = self.call_def(fr, st, c, args, b["sp"], dty)
        out = []
        for s, o in res:
            if o[0] == "ret":
                if target is None:
                    continue
                try:
                    self.assign(fr, s, dest, o[1])
                    out.append((s, target))
                except Unk as e:
                    out.append((s, ("unk", "%s @ %s" % (e, b["sp"]))))
            else:
                if o[0] == "panic" and fr.crate == "ssz" and len(o) < 5:
                    o = (o[0], o[1], b["sp"], fr.inst["path"], True)
                out.append((s, o))
        return out

    def call_value(self, st, f, args, sp):
        """call a function value: closure, function item, reference to one"""
        g = f
        while g.op == "ref":
            g = g.args[0]
        if g.op == "mref":
            g = self.read(st, g.args[0], g.args[1])
            while g.op == "ref":
                g = g.args[0]
            if g.op == "mref":
                return self.call_value(st, g, args, sp)
        if g.op == "fn":
            c = self.P.types[g.args[0]]["fn"]
            return self.call_def(None, st, c, args, sp, None)
        if g.op == "closure":
            iid = self.P.types[g.args[0]]["inst"]
            inst = self.P.insts[iid]
            body = inst.get("body")
            if body is None:
                raise Unk("closure body")
            selft = self.P.types[body["locals"][1]]
            tmp = None
            if selft["k"] == "ref" and selft["m"]:
                if f.op == "mref":
                    # make sure the reference is directly to the closure
                    me = f
                    inner = self.read(st, me.args[0], me.args[1])
                    while inner.op == "mref":
                        me = inner
                        inner = self.read(st, me.args[0], me.args[1])
                else:
                    self.frames += 1
                    tmp = ("t", self.frames)
                    st.cells[tmp] = g
                    me = mref(tmp)
            elif selft["k"] == "ref":
                me = ref(g)
            else:
                me = g
            res = self.call_body(iid, inst, body, [me] + list(args), st)
            if tmp is not None:
                for s, o in res:
                    s.cells.pop(tmp, None)
            return res
        if g.op == "ite":
            raise Unk("call of conditional function value")
        raise Unk("call of %s" % g.op)

    def call_def(self, fr, st, c, args, sp, dty):
        N = self.N
        if "ctor" in c:
            ty = self.P.types[c["ctor_ty"]]
            return [(st, ("ret", adt(ty["path"], c["ctor_variant"] or 0, args)))]
        tr = c.get("trait")
        # function values
        if tr in ("core::ops::function::FnOnce", "core::ops::function::FnMut", "core::ops::function::Fn"):
            a = args[1]
            if a.op != "tuple":
                raise Unk("call arguments")
            return self.call_value(st, args[0], list(a.args[0]), sp)
        if "model" not in c:
            r = N.dispatch(self, fr, st, c, args, sp, dty)
            if r is not None:
                if isinstance(r, Term):
                    return [(st, ("ret", r))]
                return r
        iid = c.get("inst")
        if iid is not None and "body" in self.P.insts[iid]:
            return self.call_inst(iid, args, st, sp)
        raise Unk("no description of %s" % (c.get("rpath") or c["path"]))


def has_mref(v):
    if v.op == "mref":
        return True
    if v.op == "ite":
        return has_mref(v.args[1]) or has_mref(v.args[2])
    return False


OPAQUE_TYPES = {"OpF": "F", "OpV": "V"}
