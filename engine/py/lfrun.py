"""Runs the comparison of lfsem over all instructions, revisions and modes in parallel and turns the records of one
category into obligations of a check."""
import multiprocessing as mp, time, os, signal
import common, evmspec, lfvm, lfsem
from gosem import *
CALLLIKE = ("CALL", "CALLCODE", "STATICCALL", "DELEGATECALL")
_L = None
def job(a):
    name, rev, static, models, part = a
    signal.alarm(0)
    C = {"models": models, "part": part}; t = time.time(); err = ""; out = []
    try: out = lfsem.analyse(_L, name, rev, static, C)
    except Undecided as e: err = "%s" % e
    except (AnchorMissing, KeyError, RecursionError, AttributeError, TypeError, ValueError, IndexError, MemoryError) as e: err = "%s: %s" % (type(e).__name__, e)
    return (name, rev, static, part), str(err)[:300], [tuple(map(str, o)) for o in out], C.get("paths", 0), C.get("okc", {}), C.get("ndc", {}), {"%s/%s" % k: v for k, v in C.get("ndk", {}).items()}, C.get("okk", {}), time.time() - t

def fused(rep, what):
    """instructions outside the EVM (fused and internal ones) request no state change at all"""
    try: L = lfvm.Lf(rep)
    except lfvm.Missing as e: rep.undec("long-form interpreter", e); return
    known = {evmspec.canon(n) for n in evmspec.OPS} | set(evmspec.OPS)
    for n, c in sorted(L.opcodes().items(), key=lambda kv: kv[1]):
        if n in known or evmspec.canon(n) in known: continue
        try: rs = L.run(L.setup(c, static=True), lfsem.Pol(L), max_paths=20000)
        except Undecided as e: rep.undec("%s of %s" % (what, n), e); continue
        bad = [(e.n.split(".")[-1], e) for r in rs for e in r.st.events if e.k == "call" and isinstance(e.n, str) and e.n.split(".")[-1] in lfsem.WRITES]
        if bad: rep.violation("lfvm:%s" % n, "%s requests %s of the host in static mode" % (n, bad[0][0]), pos(bad[0][1].pos) if bad[0][1].pos else "go/interpreter/lfvm")
        else: rep.ok("%s %s (%d paths)" % (n, what, len(rs)), "go/interpreter/lfvm"); rep.count("abstract_paths", len(rs))
def run(rep, cats, what, budget=620, only=None, modes=(False, True)):
    """cats: categories of records that count for this property; what: phrase for the obligations"""
    global _L
    try: _L = lfvm.Lf(rep)
    except lfvm.Missing as e: rep.undec("long-form interpreter", e); return
    thorough = rep.tier == "thorough"
    ops = [n for n in evmspec.OPS if not only or n in only]
    jobs = []
    for n in ops:
        for rev in range(6):
            if n in CALLLIKE and not thorough and rev not in (0, 5): continue
            for s in modes:
                parts = (6 if not s or n != "CALL" else 2) if n in CALLLIKE else 1
                if thorough: parts *= 3
                for i in range(parts): jobs.append((n, rev, s, (32, 3000) if thorough else (10, 800), (i, parts)))
    jobs.sort(key=lambda j: (-(j[0] == "CALL" and not j[2]), -(j[0] in CALLLIKE), -j[1]))
    t0 = time.time(); seen = {}
    pool = mp.get_context("fork").Pool(min(8, os.cpu_count() or 8), maxtasksperchild=40)
    bad = set(); und = {}; done = set()
    try:
        it = pool.imap_unordered(job, jobs, 1)
        for _ in jobs:
            try: key, err, out, paths, okc, ndc, ndk, okk, dt = it.next(max(1, budget - (time.time() - t0)))
            except mp.TimeoutError: break
            done.add(key)
            rep.count("abstract_paths", paths if key[3][0] == 0 else 0); rep.count("instruction_instances", int(key[3][0] == 0))
            for c in cats: rep.count("comparisons_proved", okc.get(c, 0)); rep.count("comparisons_not_distinguished", ndc.get(c, 0))
            n = key[0]
            if err: und.setdefault(n, err)
            for k in okk:
                if k[0] in cats: seen.setdefault((n, k[1]), "")
            for cat, k, msg, where, verdict in out:
                if verdict == "undec": und.setdefault(n, msg); continue
                if cat in cats:
                    bad.add((n, k)); rep.violation("lfvm:%s:%s" % (n, k), msg, where)
    finally: pool.terminate()
    for j in jobs:
        if j[:3] + j[4:] not in done: und.setdefault(j[0], "time budget")
    for (n, k) in sorted(seen):
        if (n, k) in bad: continue
        if n in und: continue
        rep.ok("%s: %s %s" % (n, k, what), "go/interpreter/lfvm")
    for n in sorted(und): rep.undec("%s of %s" % (what, n), und[n])
