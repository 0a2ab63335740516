"""Loads the SSA of the current tree."""
import common
from gosem import *
_cache = {}
def load(patterns=None, inits=("tosca/vm", "tosca", "interpreter/lfvm"), rep=None):
    key = (tuple(patterns or ()), tuple(inits))
    if key in _cache: return _cache[key]
    P = Program(common.godump(patterns))
    log = []
    init_globals(P, [MODP + x for x in inits], log)
    if rep is not None:
        rep.count("go_functions", len(P.fns))
        for l in log: rep.notes.append(l)
        for e in P.errors:
            rep.notes.append("load error: " + str(e)[:200])
    _cache[key] = P
    return P
def constvals(E, rs):
    """the set of results of all paths when all are plain returns"""
    out = []
    for r in rs:
        if r.kind != "ret": return None
        out.append(r.vals)
    return out
