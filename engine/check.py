"""check.py PROPERTY [--tier quick|thorough]: extract the MIR of /repo's current tree, discharge the property's obligations,
confirm what does not discharge, write the evidence and the verdict."""
import argparse
import json
import multiprocessing
import multiprocessing.connection
import os
import re
import resource
import subprocess
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
import random  # noqa
import tasks as T  # noqa
import core  # noqa
from core import Analysis  # noqa

G = {}


def known():
    """known findings that are not fixed: (property, subject or '*', substring of the description)"""
    out = []
    p = os.path.join(ROOT, "known_findings.txt")
    for line in open(p):
        line = line.strip()
        m = re.match(r"known: property=(C\d\d) subject=\"([^\"]*)\" what=\"([^\"]*)\"(.*)", line)
        if m:
            out.append((m.group(1), m.group(2), m.group(3), line))
    return out


def worker(i):
    t = G["tasks"][i]
    an = G["an"]
    t0 = time.time()
    before = (dict(an.fns), an.sites, an.parts, an.guards)
    try:
        out = t.fn(an)
        err = None
    except Exception:
        out = T.Out()
        err = traceback.format_exc()[-3000:]
    except core.Expired:
        out = T.Out()
        err = "time limit"
    fns = {k: v - before[0].get(k, 0) for k, v in an.fns.items() if v != before[0].get(k, 0)}
    return {"i": i, "name": t.name, "res": out.res, "found": out.found, "evals": out.evals, "unknown": out.unknown,
            "inputs": out.inputs, "notes": out.notes, "fns": fns, "sites": an.sites - before[1], "parts": an.parts - before[2], "guards": an.guards - before[3],
            "err": err, "wall": time.time() - t0}


MEM = 3300 << 20  # address space of one worker
TASK_S = 420  # a worker that has not answered by then is replaced
TOTAL_S = 780


def serve(conn):
    resource.setrlimit(resource.RLIMIT_AS, (MEM, MEM))
    core.arm()
    while True:
        i = conn.recv()
        if i is None:
            return
        try:
            r = worker(i)
            conn.send(r)
        except (MemoryError, core.Expired, RecursionError):
            conn.send(failed(i, "memory or time limit"))


def failed(i, why):
    return {"i": i, "name": G["tasks"][i].name, "res": [], "found": [], "evals": 0, "unknown": 0, "inputs": 0, "notes": [], "fns": {},
            "sites": 0, "parts": 0, "guards": 0, "err": why, "wall": 0.0}


def run_all(n, j, t0):
    """every task in some worker; a worker that dies or does not answer costs its task only"""
    ctx = multiprocessing.get_context("fork")
    todo = list(range(n))
    live = {}  # connection -> [process, task, since]
    res = []

    def start():
        a, b = ctx.Pipe()
        p = ctx.Process(target=serve, args=(b,), daemon=True)
        p.start()
        b.close()
        return a, p

    def feed(conn, p):
        if todo:
            i = todo.pop(0)
            conn.send(i)
            live[conn] = [p, i, time.time()]
        else:
            try:
                conn.send(None)
            except OSError:
                pass
            conn.close()

    for _ in range(min(j, n)):
        feed(*start())
    while live:
        for conn in multiprocessing.connection.wait(list(live), timeout=5):
            p, i, _ = live.pop(conn)
            try:
                res.append(conn.recv())
            except (EOFError, OSError):
                p.join(5)
                res.append(failed(i, "worker ended (%s)" % p.exitcode))
                conn.close()
                if todo:
                    feed(*start())
                continue
            feed(conn, p)
        now = time.time()
        for conn in list(live):
            p, i, since = live[conn]
            if now - since > TASK_S or now - t0 > TOTAL_S:
                del live[conn]
                p.kill()
                conn.close()
                res.append(failed(i, "time limit"))
                if now - t0 > TOTAL_S:
                    while todo:
                        res.append(failed(todo.pop(0), "time limit"))
                if todo:
                    feed(*start())
    return res


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only", default=None)
    ap.add_argument("--dump", default=None)
    ap.add_argument("-j", type=int, default=min(8, os.cpu_count() or 1))
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    prop = a.prop
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    ev = os.path.join(ROOT, "evidence")
    os.makedirs(os.path.join(ev, "replay"), exist_ok=True)
    pre = T.pre(prop, tier, seed) if hasattr(T, "pre") else None
    early = []
    if pre:
        if "error" in pre:
            print(pre["error"])
            pre = None
        else:
            early = pre["found"]
    if a.dump:
        dump = a.dump
    else:
        os.makedirs(os.path.join(ROOT, "build"), exist_ok=True)
        dump = os.path.join(ROOT, "build", "dump-%s-%d.json" % (prop, os.getpid()))
        r = subprocess.run([os.path.join(ROOT, "extract.sh"), dump], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            r2 = subprocess.run([os.path.join(ROOT, "extract.sh"), dump], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                                env=dict(os.environ, HARNESS_FLAGS="--no-default-features"))
            if r2.returncode == 0:
                # everything but the derived definitions builds
                T.DERIVED[0] = False
                if prop == "C08":
                    early.append({"property": prop, "subject": "derived definitions", "what": "definitions with an SSZ meaning do not compile",
                                  "detail": r.stdout[-1500:], "where": {"function": "ssz_derive"}, "valuation": {}, "seed": 0})
                r = r2
        if r.returncode != 0:
            print(r.stdout[-6000:])
            print("check.py: the crates or the analysis roots do not build")
            sys.exit(2)
    try:
        an = Analysis(dump)
    finally:
        if not a.dump and os.path.exists(dump):
            os.remove(dump)
    G["an"] = an
    G["tasks"] = T.tasks(prop, tier, seed)
    if a.only:
        import fnmatch
        G["tasks"] = [t for t in G["tasks"] if fnmatch.fnmatch(t.name.replace("[", "{"), a.only.replace("[", "{"))]
    n = len(G["tasks"])
    T.DEADLINE[0] = time.time() + (240 if tier == "quick" else 600)
    if tier == "thorough":
        T.BUDGET[:] = [200, 30]
    res = []
    if a.j > 1 and n > 1:
        res = run_all(n, a.j, t0)
    else:
        res = [worker(i) for i in range(n)]
    res.sort(key=lambda r: r["i"])
    report(prop, tier, seed, res, t0, a, early, pre)


def report(prop, tier, seed, res, t0, a, early, pre):
    ev = os.path.join(ROOT, "evidence")
    obl = [o for r in res for o in r["res"]]
    proved = [o for o in obl if o[2] == "proved"]
    undecided = [o for o in obl if o[2] != "proved"]
    found = list(early) + [f for r in res for f in r["found"]]
    errs = [(r["name"], r["err"]) for r in res if r["err"]]
    fns = {}
    for r in res:
        for k, v in r["fns"].items():
            fns[k] = fns.get(k, 0) + v
    own = {k: v for k, v in fns.items() if k.startswith(("ssz::", "<")) or "ssz" in k}
    for n_, e in errs:
        print("analysis error in", n_)
        print(e[-1500:])
    if a.v:
        for o in undecided:
            print("undecided:", *[str(x)[:200] for x in o])
        for r in sorted(res, key=lambda r: -r["wall"])[:8]:
            print("  %-30s %.1fs evals=%d unknown=%d" % (r["name"], r["wall"], r["evals"], r["unknown"]))
    kn = known()
    seen_known = set()
    vio = []
    for f in found:
        k = next((k for k in kn if k[0] == prop and k[1] in ("*", f["subject"]) and k[2] in (f["what"] + " " + str(f["detail"]))), None)
        if k:
            if k not in seen_known:
                seen_known.add(k)
                print("KNOWN-FINDING: property=%s %s: %s" % (prop, f["subject"], f["what"]))
        else:
            vio.append(f)
    cov = {
        "explanation": T.EXPLAIN.get(prop, "") + T.GENERAL,
        "rule": T.RULES.get(prop, ""),
        "obligations": len(obl) + (pre["obligations"] if pre else 0),
        "discharged": len(proved) + (pre["discharged"] if pre else 0),
        "undecided": [list(map(str, o)) for o in undecided[:40]],
        "undecided_count": len(undecided),
        "subjects": len(res),
        "subject_names": [r["name"] for r in res],
        "partitions": sum(r["parts"] for r in res),
        "call_sites": sum(r["sites"] for r in res),
        "runtime_guards_evaluated": sum(r["guards"] for r in res),
        "functions_analysed": len(fns),
        "functions_of_repo": sorted(own)[:400],
        "witness_inputs": sum(r["inputs"] for r in res),
        "witness_evaluations": sum(r["evals"] for r in res),
        "witness_undescribed": sum(r["unknown"] for r in res),
        "analysis_errors": [n_ for n_, e in errs],
    }
    if pre:
        cov.update(pre.get("coverage", {}))
    notes = [x for r in res for x in r["notes"]]
    if notes:
        cov["notes"] = notes[:60]
    json.dump({"property": prop, "tier": tier, "seed": seed, "level": "other", "coverage": cov, "assumptions": T.ASSUME,
               "wall_s": round(time.time() - t0, 2), "violations": len(vio)},
              open(os.path.join(ev, prop + ".json"), "w"), indent=1)
    print("%s: %d obligations, %d discharged, %d undecided; %d subjects, %d partitions, %d call sites; %d evaluations of summaries"
          % (prop, cov["obligations"], cov["discharged"], len(undecided), len(res), cov["partitions"], cov["call_sites"],
             cov["witness_evaluations"]))
    for i, f in enumerate(vio[:20]):
        p = os.path.join(ev, "replay", "%s-%d.json" % (prop, i))
        f = dict(f, cmd="python3 engine/check.py %s --only '%s'" % (prop, f["subject"]))
        json.dump(f, open(p, "w"), indent=1)
        print("%s: %s: %s" % (f["subject"], f["what"], str(f["detail"])[:400]))
        print("  at %s" % (f["where"],))
        print("VIOLATION property=%s replay=%s" % (prop, p))
    if vio:
        sys.exit(1)
    if errs and not obl:
        sys.exit(2)
    sys.exit(0)


if __name__ == "__main__":
    main()
