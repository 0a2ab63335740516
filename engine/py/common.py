"""Shared infrastructure of the checks: building the analysis front ends, dumping the current
source of /repo, reporting violations, known findings and evidence."""
import fcntl, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
REPO = os.environ.get("VERIF_REPO", "/repo")
STUBS = os.path.join(VERIF, "stubs")

def _builddir():
    d = os.path.join(VERIF, "build")
    try:
        os.makedirs(d, exist_ok=True)
        t = os.path.join(d, ".w%d" % os.getpid()); open(t, "w").close(); os.unlink(t)
        return d
    except OSError:
        d = "/tmp/verif-build"; os.makedirs(d, exist_ok=True); return d
BUILD = _builddir()
_tmp = None
def tmpdir():
    """scratch directory of this run, removed at exit"""
    global _tmp
    if _tmp is None:
        import atexit
        _tmp = tempfile.mkdtemp(prefix="verif-run-")
        atexit.register(lambda: shutil.rmtree(_tmp, ignore_errors=True))
    return _tmp

class CheckError(Exception): pass

def run(cmd, env=None, cwd=None, timeout=800, ok=(0,), inp=None):
    p = subprocess.run(cmd, env=env, cwd=cwd, timeout=timeout, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, input=inp)
    if ok is not None and p.returncode not in ok:
        raise CheckError("command failed (%d): %s\n%s\n%s" % (p.returncode, " ".join(cmd)[:300], p.stdout[-2000:], p.stderr[-4000:]))
    return p

def goenv():
    e = dict(os.environ)
    e.update(HOME=e.get("HOME", "/root"), GOPROXY="off", GOTOOLCHAIN="local", GOFLAGS="-mod=mod", CGO_ENABLED="1",
             GOCACHE=os.path.join(BUILD, "gocache"), CC="gcc", CXX="g++", CGO_CFLAGS="-I%s/c" % STUBS, GOWORK="off",
             GONOSUMDB="*", GONOSUMCHECK="1", GOSUMDB="off")
    return e

class Lock:
    def __init__(self, name): self.p = os.path.join(BUILD, name + ".lock")
    def __enter__(self):
        self.f = open(self.p, "w"); fcntl.flock(self.f, fcntl.LOCK_EX); return self
    def __exit__(self, *a): self.f.close()

def filehash(*paths):
    h = hashlib.sha256()
    for p in paths: h.update(open(p, "rb").read())
    return h.hexdigest()[:16]

def godump_bin():
    src = os.path.join(VERIF, "engine/godump")
    key = filehash(*[os.path.join(src, f) for f in ("main.go", "go.mod", "go.sum")])
    out = os.path.join(BUILD, "godump-" + key)
    with Lock("godump"):
        if not os.path.exists(out):
            run(["go", "build", "-o", out + ".tmp", "."], env=goenv(), cwd=src)
            os.rename(out + ".tmp", out)
    return out

GO_PACKAGES = ["./go/tosca/...", "./go/interpreter/...", "./go/processor/...", "./go/geth_adapter/...", "./go/ct/...", "./go/lib/..."]

def gomodfile():
    d = tmpdir(); t = open(os.path.join(STUBS, "go/go.mod.tmpl")).read().replace("@STUBS@", STUBS + "/go")
    open(os.path.join(d, "go.mod"), "w").write(t); open(os.path.join(d, "go.sum"), "w").close()
    return os.path.join(d, "go.mod")

def godump(patterns=None):
    """SSA of the Go packages of the current working tree"""
    b = godump_bin(); out = os.path.join(tmpdir(), "go.json")
    run([b, REPO, gomodfile(), out] + list(patterns or GO_PACKAGES), env=goenv())
    return out

# --- reporting ---------------------------------------------------------------

class Report:
    """Collects the obligations of one check and their outcome."""
    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.t0 = time.time()
        self.obl = []; self.viol = []; self.undecided = []; self.notes = []
        self.analysed = {}
        self.assumptions = []
        self.known = known_findings().get(pid, {})
        self.hit_known = []
    def ok(self, what, where=None): self.obl.append((what, where))
    def undec(self, what, why): self.undecided.append((what, str(why)[:400]))
    def violation(self, key, what, where=None):
        """key: stable identification of the construct, used for known findings"""
        if any(v[0] == key for v in self.viol): return
        self.viol.append((key, what, where))
    def check(self, cond, key, what, where=None):
        if cond: self.ok(what, where)
        else: self.violation(key, what, where)
        return cond
    def count(self, name, n=1): self.analysed[name] = self.analysed.get(name, 0) + n

    def finish(self, explanation, rule):
        new = []
        for key, what, where in self.viol:
            if key in self.known:
                print("KNOWN-FINDING: property=%s %s" % (self.pid, self.known[key])); self.hit_known.append(key)
            else: new.append((key, what, where))
        evd = os.path.join(VERIF, "evidence"); os.makedirs(evd, exist_ok=True)
        rp = os.path.join(evd, self.pid + ".violation.txt")
        total = len(self.obl) + len(self.viol) + len(self.undecided)
        samples = [{"obligation": w, "where": p, "result": "holds"} for w, p in self.obl[:6]] + \
                  [{"obligation": w, "where": p, "result": "VIOLATED", "key": k} for k, w, p in self.viol[:10]]
        ev = {"property": self.pid, "tier": self.tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "other",
              "coverage": {"explanation": explanation, "rule": rule, "obligations": total, "discharged": len(self.obl),
                           "violated": len(self.viol), "undecided": len(self.undecided), "analysed": self.analysed,
                           "undecided_items": [{"what": w, "why": y} for w, y in self.undecided[:40]], "samples": samples,
                           "notes": self.notes[:40]},
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2),
              "violations": len(new)}
        ev["coverage"]["violated_items"] = [{"what": w, "where": p, "key": k} for k, w, p in self.viol]
        with open(os.path.join(evd, self.pid + ".json"), "w") as f: json.dump(ev, f, indent=1)
        for u, y in self.undecided[:20]: print("undecided: %s: %s" % (u, y))
        print("%s: %d obligations, %d discharged, %d violated (%d known), %d undecided, %.1fs" % (self.pid, total, len(self.obl), len(self.viol), len(self.hit_known), len(self.undecided), time.time() - self.t0))
        if new:
            with open(rp, "w") as f:
                for k, w, p in new: f.write("%s\n  construct: %s\n  rule: %s\n  key: %s\n\n" % (w, p, rule, k))
            for k, w, p in new[:30]: print("  violated: %s [%s] key=%s" % (w, p, k))
            print("VIOLATION property=%s replay=%s" % (self.pid, rp))
            return 1
        if os.path.exists(rp): os.unlink(rp)
        if total == 0:
            print("ERROR: nothing was analysed for %s" % self.pid)
            return 2
        if not self.obl: print("NOTE: no obligation of %s could be decided on this tree (see the undecided items)" % self.pid)
        return 0


def known_findings():
    """lines 'property=<id> key=<key> :: text' (the 'fixed:' lines suppress nothing)"""
    r = {}
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"property=(\S+) key=(\S+) :: (.*)", l.strip())
            if m: r.setdefault(m.group(1), {})[m.group(2)] = m.group(3)
    return r
