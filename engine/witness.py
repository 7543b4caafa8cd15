"""Confirmation of failed obligations: members of the summaries (valuations of their symbols) that violate the property."""
from core import *


class Run:
    """evaluates entry-point summaries under a fixed valuation of the type-level symbols"""

    def __init__(self, an, sub, tsym):
        self.an, self.sub, self.tsym = an, sub, tsym
        self.unknown = 0
        self.evals = 0
        self.dead = {}

    def call(self, fn, args, root=None):
        """fn: entry point; args: concrete values ('buf' cells included in order). -> ('ret', value, posts) | ('panic', info) | None"""
        r = self.callx(fn, args, root)
        if r is None:
            self.unknown += 1
        else:
            self.evals += 1
        return r

    def callx(self, fn, args, root=None):
        f = self.an.fun((root or self.sub.root) + "::" + fn, self.sub.params)
        if f.broken:
            return None
        sym = dict(self.tsym)
        try:
            for t, v in zip(f.args, args):
                bind_value(t, v, sym)
        except Top:
            return None
        try:
            outs = apply(f.summ, Env(sym))
        except Top:
            return None
        got = None
        for o, post, pi, e in outs:
            if o[0] == "unk":
                return None
            try:
                if o[0] == "panic":
                    r = ("panic", o[1:], {})
                else:
                    r = ("ret", ev(o[1], e), {c: ev(p, e) for c, p in post.items() if p is not None})
            except (Undef, Top):
                # the payload of an error is irrelevant
                if o[0] == "ret" and is_err(o):
                    r = ("ret", ("adt", RESULT, 1, (("opaque",),)), {})
                else:
                    return None
            if got is not None and got[:1] + (got[1],) != r[:1] + (r[1],):
                return None
            if got is None:
                got = r + (f, pi)
        return got

    def spec(self, t, binds):
        """value of a spec term under bindings [(term, value)]"""
        sym = dict(self.tsym)
        for a, v in binds:
            bind_value(a, v, sym)
        return ev(t, Env(sym))


def res_of(v):
    """('ok', x) | ('err', e) of a Result value"""
    if isinstance(v, tuple) and v and v[0] == "adt" and v[1] == RESULT:
        return ("ok", v[3][0]) if v[2] == 0 else ("err", v[3][0])
    return None


def zero_item(sub, sym):
    return not any(k == "V" or sym["FLEN<%s>" % n] for k, n in sub.sch.opaques())


def tsyms(sub, r, nonzero=False):
    """a valuation of the type-level symbols"""
    sym = {}
    for k, n in sorted(sub.sch.opaques()):
        if k == "F":
            sym["FLEN<%s>" % n] = r.choice([1, 2, 3, 4, 5, 8, 0, 1, 2])
    if nonzero and zero_item(sub, sym):
        # lists of zero-length items are excluded
        sym[r.choice([k for k in sorted(sym) if k.startswith("FLEN<")])] = r.choice([1, 2, 3, 4, 5, 8])
    for c, vals in sorted(sub.consts.items()):
        sym["N:" + c] = r.choice(vals)
    return sym


class Corpus:
    """values and byte strings for one subject under one valuation"""

    def __init__(self, run, rnd, nval, nstr):
        self.run = run
        self.r = rnd
        self.x = vsym_for(run)
        S = run.sub.sch
        self.values = []
        seen = set()
        for _ in range(nval * 3):
            if len(self.values) >= nval:
                break
            try:
                v = S.gen(rnd)
            except (Undef, Top):
                continue
            if v in seen:
                continue
            seen.add(v)
            self.values.append(v)
        self.encs = []
        for v in self.values:
            e = self.enc(v)
            self.encs.append(e)
        self.nstr = nstr
        self._strings = None

    def enc(self, v):
        root = self.run.sub.root + "::as_bytes"
        # a decode-only definition has no encoder to take the symbol of the value from
        x = strip(self.run.an.fun(root, self.run.sub.params).args[0]) if self.run.an.has(root) else vsym("x0")
        try:
            return self.run.spec(self.run.sub.sch.enc(x), [(x, v)])
        except (Undef, Top):
            return None

    def strings(self):
        if self._strings is None:
            base = [e for e in self.encs if e is not None and len(e) < 4096]
            base = sorted(set(base), key=lambda b: (len(b), b))
            self._strings = mutate(base, self.r, self.nstr, harvest(self.run))
        return self._strings


def vsym_for(run):
    return None


def harvest(run):
    """integer constants of the decoder's partitions: candidate lengths, bytes and offset words"""
    cs = set()
    for name in ("decode",):
        root = "%s::%s" % (run.sub.root, name)
        if not run.an.has(root):
            continue
        f = run.an.fun(root, run.sub.params)
        for s, o in f.res:
            for x in s.facts.list:
                for t in subterms(x):
                    if t.op in ("le0", "eq0"):
                        c, d = parts(t.args[0])
                        for e in (c, -c, 1 - c, c - 1, -c - 1):
                            if 0 <= e < (1 << 32):
                                cs.add(e)
                        g = 0
                        if len(d) == 1 and list(d.values())[0] not in (1, -1):
                            k = abs(list(d.values())[0])
                            if 0 <= -c // k < (1 << 32):
                                cs.add(-c // k)
    return sorted(cs)[:60]


def mutate(base, r, n, consts):
    out = dict.fromkeys(base)
    out[()] = None
    small = [c for c in consts if c < 256]
    mid = [c for c in consts if c < 600]
    lens = sorted({len(b) for b in base} | {0, 1, 2, 3, 4, 5, 7, 8, 9})
    for b in base[: n // 4 + 4]:
        if b:
            out[b[:-1]] = None
        out[b + (0,)] = None
        out[b + (r.randrange(1, 256),)] = None
        if b:
            out[b[1:]] = None
    tries = 0
    while len(out) < n and tries < n * 6:
        tries += 1
        k = r.randrange(12)
        b = list(r.choice(base)) if base else []
        if k == 0 and b:
            b = b[: r.randrange(len(b))]
        elif k == 1:
            b = b + [r.randrange(256) for _ in range(r.choice([1, 2, 4]))]
        elif k in (2, 3) and b:
            i = r.randrange(min(len(b), 12)) if r.random() < .7 else r.randrange(len(b))
            b[i] = r.choice([0, 1, 2, 3, 0xEE, 127, 128, 255, b[i] ^ (1 << r.randrange(8)), (b[i] + 1) & 255, (b[i] - 1) & 255] + small)
        elif k in (4, 5, 6) and len(b) >= 4:
            # an offset word: shift it a little, or point it somewhere else
            ws = [i for i in range(0, len(b) - 3) if int.from_bytes(bytes(b[i:i + 4]), "little") <= len(b) + 8]
            if not ws:
                continue
            i = r.choice(ws[:8])
            w = int.from_bytes(bytes(b[i:i + 4]), "little")
            w = r.choice([w + 1, w - 1, w + 4, w - 4, 0, len(b), len(b) + 1, len(b) - 1, 4, 8, 1 << 31, (1 << 32) - 1, w + 2, w - 2]
                         + [c for c in mid[:10]]) & 0xFFFFFFFF
            b[i:i + 4] = list(w.to_bytes(4, "little"))
            if r.random() < .3 and len(b) > i + 8:
                b[i + 4:i + 8] = list(((w + r.choice([0, 1, -1, 4])) & 0xFFFFFFFF).to_bytes(4, "little"))
        elif k == 7 and len(b) > 4:
            # insert or delete in the middle
            i = r.randrange(len(b))
            if r.random() < .5:
                b[i:i] = [r.randrange(256)]
            else:
                del b[i]
        elif k == 8:
            b = [r.choice([0, 1, 2, 3, 4, 8, 0xEE, 128, 255, r.randrange(256)] + small) for _ in range(r.choice(lens))]
        elif k == 9 and mid:
            m = r.choice(mid)
            b = [r.randrange(256) if r.random() < .5 else 0 for _ in range(m)]
        elif k == 10 and len(base) > 1:
            b = b + list(r.choice(base))
        elif k == 11 and len(b) >= 4 and consts:
            i = r.randrange(0, len(b) - 3)
            b[i:i + 4] = list((r.choice(consts)).to_bytes(4, "little"))
        if len(b) <= 5000:
            out[tuple(b)] = None
    return list(out)


class Found(Exception):
    def __init__(self, what, fun, part, detail):
        self.what, self.fun, self.part, self.detail = what, fun, part, detail


def hexs(b):
    h = bytes(b).hex()
    return h if len(h) <= 160 else h[:150] + "...(%d bytes)" % len(b)


def brief(v):
    s = repr(v)
    return s if len(s) < 240 else s[:230] + "..."


# ---------------------------------------------------------------- property-specific witnesses
def w_roundtrip(run, C):
    for v, e in zip(C.values, C.encs):
        if e is None or len(e) >= BIG:
            continue
        r = run.call("as_bytes", [v])
        if r is None:
            continue
        if r[0] == "panic":
            raise Found("encoding panics", r[3], r[4], "value %s" % brief(v))
        d = run.call("decode", [r[1]])
        if d is None:
            continue
        if d[0] == "panic":
            raise Found("decoding an encoding panics", d[3], d[4], "value %s, bytes %s" % (brief(v), hexs(r[1])))
        q = res_of(d[1])
        if q[0] == "err":
            raise Found("decoding an encoding fails", d[3], d[4], "value %s, bytes %s" % (brief(v), hexs(r[1])))
        if q[1] != norm(run.sub.sch, v):
            raise Found("decoding an encoding gives another value", d[3], d[4],
                        "value %s, bytes %s, decoded %s" % (brief(v), hexs(r[1]), brief(q[1])))


def w_canonical(run, C):
    for b in C.strings():
        d = run.call("decode", [b])
        if d is None or d[0] == "panic":
            continue
        q = res_of(d[1])
        if q[0] == "err":
            continue
        r = run.call("as_bytes", [q[1]])
        if r is None:
            continue
        if r[0] == "panic":
            raise Found("re-encoding a decoded value panics", d[3], d[4], "bytes %s" % hexs(b))
        if r[1] != b:
            raise Found("accepted bytes do not re-encode to themselves", d[3], d[4],
                        "bytes %s, decoded %s, re-encoded %s" % (hexs(b), brief(q[1]), hexs(r[1])))


def w_wire(run, C):
    for v, e in zip(C.values, C.encs):
        if e is None or len(e) >= BIG:
            continue
        for fn in ("as_bytes", "append"):
            pre = (getattr(C, "pres", None) or [()])[0]
            r = run.call(fn, [v] if fn == "as_bytes" else [v, pre])
            if r is None:
                continue
            if r[0] == "panic":
                raise Found("encoding panics", r[3], r[4], "value %s" % brief(v))
            out = r[1] if fn == "as_bytes" else r[2][("in", 1)]
            if fn == "append":
                if out[:len(pre)] != pre:
                    continue
                out = out[len(pre):]
            if out != e:
                raise Found("the encoding is not the SSZ serialization", r[3], r[4],
                            "value %s, expected %s, got %s" % (brief(v), hexs(e), hexs(out)))


def spec_dec(run, b, f):
    """('ok', value) | ('err',) according to the specification"""
    t = strip(f.args[0])
    try:
        ok_ = run.spec(run.sub.sch.valid(t), [(t, b)])
    except Undef:
        ok_ = False
    if not ok_:
        return ("err",)
    return ("ok", run.spec(run.sub.sch.dec(t), [(t, b)]))


def w_accepts(run, C):
    S = run.sub.sch
    f = run.an.fun(run.sub.root + "::decode", run.sub.params)
    for b in C.strings():
        d = run.call("decode", [b])
        if d is None or d[0] == "panic":
            continue
        q = res_of(d[1])
        s = spec_dec(run, b, f)
        if q[0] == "ok" and s[0] == "err":
            raise Found("an invalid serialization is accepted", d[3], d[4], "bytes %s, decoded %s" % (hexs(b), brief(q[1])))
        if q[0] == "err" and s[0] == "ok" and not S.lenient:
            raise Found("a valid serialization is rejected", d[3], d[4], "bytes %s" % hexs(b))
        if q[0] == "err" and s[0] == "ok" and S.lenient and "lenient-iff" in run.sub.tags:
            raise Found("a well-formed entry list is rejected", d[3], d[4], "bytes %s" % hexs(b))
        if q[0] == "ok" and q[1] != s[1]:
            raise Found("the decoded value is not the specified one", d[3], d[4],
                        "bytes %s, expected %s, got %s" % (hexs(b), brief(s[1]), brief(q[1])))


def w_accepts_iff(run, C):
    """also for types whose decoder accepts more than the canonical encodings"""
    f = run.an.fun(run.sub.root + "::decode", run.sub.params)
    for b in C.strings():
        d = run.call("decode", [b])
        if d is None or d[0] == "panic":
            continue
        if res_of(d[1])[0] == "err" and spec_dec(run, b, f)[0] == "ok":
            raise Found("a well-formed entry list is rejected", d[3], d[4], "bytes %s" % hexs(b))


def w_nopanic(run, C):
    for b in C.strings():
        d = run.call("decode", [b])
        if d is not None and d[0] == "panic":
            raise Found("decoding panics: %s" % (d[1],), d[3], d[4], "bytes %s" % hexs(b))


def w_sizes(run, C):
    S = run.sub.sch
    meta = {}
    for side in ("enc", "dec"):
        if side == "dec" and "enc-only" in run.sub.tags or side == "enc" and "dec-only" in run.sub.tags:
            continue
        a = run.call(side + "_fixed", [])
        b = run.call(side + "_flen", [])
        want = run.spec(S.flen(), [])
        if a is not None and (a[0] == "panic" or a[1] != S.fixed()):
            raise Found("%s side: is_ssz_fixed_len is not %s" % (side, S.fixed()), a[3], a[4], str(run.tsym))
        if b is not None and (b[0] == "panic" or b[1] != want):
            raise Found("%s side: ssz_fixed_len is not %d" % (side, want), b[3], b[4], "%s" % (b[1],))
    for v in C.values if "dec-only" not in run.sub.tags else ():
        r = run.call("as_bytes", [v])
        n = run.call("bytes_len", [v])
        if r is None or n is None or r[0] == "panic":
            continue
        if n[0] == "panic":
            raise Found("ssz_bytes_len panics", n[3], n[4], "value %s" % brief(v))
        if n[1] != len(r[1]):
            raise Found("ssz_bytes_len is %d but %d bytes are produced" % (n[1], len(r[1])), n[3], n[4], "value %s" % brief(v))
        if S.fixed() and len(r[1]) != run.spec(S.flen(), []):
            raise Found("a fixed-size value encodes to %d bytes" % len(r[1]), r[3], r[4], "value %s" % brief(v))
    if S.fixed() and "enc-only" not in run.sub.tags:
        want = run.spec(S.flen(), [])
        for b in C.strings():
            if len(b) == want:
                continue
            d = run.call("decode", [b])
            if d is not None and d[0] != "panic" and res_of(d[1])[0] == "ok":
                raise Found("a fixed-size type accepts %d bytes" % len(b), d[3], d[4], "bytes %s" % hexs(b))


PRE = [(), (1,), (255, 0, 7), tuple(range(9))]


def w_append(run, C):
    for i, v in enumerate(C.values):
        r = run.call("as_bytes", [v])
        for pre in (getattr(C, "pres", None) or (PRE[:2] if i % 2 else PRE[2:])):
            a = run.call("append", [v, pre])
            if r is None or a is None:
                continue
            if (r[0] == "panic") != (a[0] == "panic"):
                raise Found("one encoding entry point panics", a[3], a[4], "value %s" % brief(v))
            if r[0] == "panic":
                continue
            if a[2][("in", 1)] != pre + r[1]:
                raise Found("appending does not add exactly the standalone encoding", a[3], a[4],
                            "value %s, buffer %s, result %s, standalone %s" % (brief(v), hexs(pre), hexs(a[2][("in", 1)]), hexs(r[1])))
