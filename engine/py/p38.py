"""P38: evmzero's EVMC entry points run what was asked and report what came of it."""
import common
STATES = ["kRunning", "kDone", "kReturn", "kRevert", "kInvalid", "kErrorOpcode", "kErrorGas", "kErrorStackUnderflow", "kErrorStackOverflow", "kErrorJump",
          "kErrorReturnDataCopyOutOfBounds", "kErrorCall", "kErrorCreate", "kErrorStaticCall", "kErrorInitCodeSizeExceeded"]
FAILS = {1, 3, 4, 5, 6, 7, 8, 9, 11}       # the statuses the Go side reports as a failed (not a broken) execution
OPTS = ["logging", "analysis_cache", "sha3_cache", "profiling", "profiling_external"]
WHERE = "cpp/vm/evmzero/evmzero.cc"

def main(rep):
    import p38w
    from p38w import VMEng, LState, LPtr, BUF, T, sym, isbuf, Und
    try: M = p38w.module()
    except Exception as e:
        rep.undec("evmzero.cc", "does not compile with the stand-ins: %s" % str(e)[-300:]); return "", ""
    mt = M.types["struct.evmc_message"]; rt = M.types["struct.evmc_result"]; stt = M.types["struct.evmc_step_result"]
    S = lambda n, w=8: sym(n, ty=(w, True))
    P = lambda *o: LPtr(o, 0)
    e = VMEng(M)
    seen = set()
    def bad(key, what, where):
        if key not in seen: seen.add(key); rep.violation(key, what, where)
    def chk(c, key, what, where=WHERE):
        if c: rep.ok(key)
        else: bad(key, what, where)
        return c
    def one(rs, what):
        if len(rs) != 1 or rs[0].kind != "ret": raise Und("%s: %s" % (what, [r.kind for r in rs][:4]))
        return rs[0]
    try:
        vm = one(e.run("vp_create", [], LState()), "creation"); st0 = vm.st; st0.events = []; V = vm.val
        ss = one(e.run("vp_create_steppable", [], LState()), "creation of the steppable machine"); sst = ss.st; sevents = list(sst.events); sst.events = []; SV = ss.val
        inner = one(e.run("vp_inner", [SV], sst), "inner").val
        mem = [one(e.run("vp_member", [V, i], st0), "member").val for i in range(6)]
        smem = [one(e.run("vp_member", [inner, i], sst), "member").val for i in range(6)]
    except (Und, RecursionError) as x:
        rep.undec("creation of the virtual machine", str(x)); return "", ""
    same = lambda a, b: a is b or (isinstance(a, LPtr) and isinstance(b, LPtr) and a.o == b.o and a.off == b.off and isinstance(a.off, int)) or (isinstance(a, int) and isinstance(b, int) and a == b)
    # ---- what a fresh machine is
    W = "cpp/vm/evmzero/evmzero.cc (VM)"
    try:
        chk(one(e.run("vp_abi", [V], st0), "abi").val in (1, True), "abi", "a fresh machine announces another ABI version than the one it was compiled for", W)
        chk(one(e.run("vp_caps", [V], st0), "capabilities").val == 1, "capabilities", "a fresh machine does not announce exactly the EVM capability", W)
        n = e.cstr(st0, one(e.run("vp_str", [V, 0], st0), "name").val); chk(n == b"evmzero", "name", "a fresh machine calls itself %r" % n, W)
    except (Und, AttributeError) as x: rep.undec("the fresh machine", str(x))
    # ---- options
    def setopt(s, v, name, val):
        s = s.copy()
        for o, b in (("n", name), ("v", val)): s.mem[(o, "str")] = {i: (1, c) for i, c in enumerate(b + b"\0")}
        r = one(e.run("vp_option", [v, P("n", "str"), P("v", "str")], s), "option"); return r.val, r.st
    flags = lambda s, v: one(e.run("vp_flags", [v], s), "flags").val
    states = {}
    try:
        f0 = flags(st0, V); chk(f0 & 0b11001 == 0, "default", "a fresh machine logs or profiles without being asked to", W)
        chk(flags(sst, inner) & 0b11001 == 0, "default-step", "a fresh steppable machine logs or profiles without being asked to", W)
        for start in range(32):
            s = st0
            for i, o in enumerate(OPTS): rv, s = setopt(s, V, o.encode(), b"true" if start >> i & 1 else b"false")
            ok = flags(s, V) == start
            if not chk(ok, "set:%d" % start, "setting logging, analysis_cache, sha3_cache, profiling, profiling_external to %s leaves %s" % tuple(format(x, "05b")[::-1] for x in (start, flags(s, V))), "VM::SetOption"): continue
            states[start] = s
        for start, s in states.items():
            if start not in (0, 31, 6, 9, 18, 21): continue
            for i, o in enumerate(OPTS + ["", "log", "loggings", "profiling_", "Logging", "sha3cache", "analysis_cache2"]):
                for val in ("true", "false", "", "True", "1", "truex", "fals"):
                    rv, s2 = setopt(s, V, o.encode(), val.encode()); f = flags(s2, V)
                    if i >= len(OPTS): want, wf = 1, start
                    elif val == "true": want, wf = 0, start | 1 << i
                    elif val == "false": want, wf = 0, start & ~(1 << i)
                    else: want, wf = 2, start
                    names = ["success", "invalid name", "invalid value"]
                    chk(rv == want, "opt-res:%s=%s" % (o, val), "setting option %r to %r reports %s instead of %s" % (o, val, names[rv] if rv in (0, 1, 2) else rv, names[want]), "VM::SetOption")
                    chk(f == wf, "opt-set:%s=%s" % (o, val), "setting option %r to %r turns the options %s into %s instead of %s" % (o, val, format(start, "05b")[::-1], format(f, "05b")[::-1], format(wf, "05b")[::-1]), "VM::SetOption")
                    rep.count("option requests", 1)
    except Und as x: rep.undec("VM::SetOption", str(x))
    # ---- what the profile functions report on
    for fl, s in sorted(states.items()):
        want = 2 if fl >> 3 & 1 else 3 if fl >> 4 & 1 else None; on = format(fl, "05b")[::-1]; nm = {2: "the profile", 3: "the profile of external instructions", None: "nothing"}
        try:
            r = one(e.run("vp_dump", [V], s.copy()), "dump"); d = [x for x in r.st.events if x[0] == "dump"]
            def which(p):
                if isinstance(p, LPtr) and isinstance(p.o, tuple) and p.o[0] == "collected": return next((i for i in (2, 3) if same(p.o[1], mem[i])), "another profile")
                return "a profile that has not been closed"
            got = [which(x[1]) for x in d]
            chk(got == ([want] if want else []), "dump:%s" % want, "with the options %s, dumping prints %s instead of %s" % (on, ", ".join(str(nm.get(g, g)) for g in got) or "nothing", nm[want]), "VM::DumpProfile")
            r = one(e.run("vp_resetp", [V], s.copy()), "reset"); d = [x[2] for x in r.st.events if x[0] == "Reset"]
            if want: chk(any(same(p, mem[want]) for p in d), "resetp:%s" % want, "with the options %s, resetting leaves %s as it was" % (on, nm[want]), "VM::ResetProfiler")
            rep.count("profile requests", 2)
        except Und as x: rep.undec("VM::DumpProfile", str(x))
    # ---- requests
    def message(s, h):
        s.mem[("msg",)] = {M.fieldoff(mt, 13): (8, P("hash") if h is not None else 0)}
        if h is not None: s.mem[("hash",)] = {i: (1, b) for i, b in enumerate(h)}
        s.facts._narrow(T("mem", ("msg",), M.fieldoff(mt, 2), 4, ty=(4, True)), 0, 1024)
        for k in ("code", "pad", "jt", "out2", "out3", "outmem", "imem", "ilrd"): s.facts._narrow(S("size:" + k), 0, 1 << 40)
        return s
    HASHES = [("no code hash", None), ("a zero code hash", bytes(32)), ("a code hash", bytes(range(1, 33))), ("a code hash ending in zeros", b"\x07" + bytes(31)), ("a code hash starting with zeros", bytes(31) + b"\x09")]
    def request(ev, h, fl, where, members, lead, Es, steps=False):
        """the one request the interpreter gets"""
        it = [x for x in ev if x[0] == "interp"]
        if not chk(len(it) == 1, lead + "once", "the interpreter runs %d times for one request" % len(it), where): return
        obs, pad, jt, msg, hi, hc, rv, sha = it[0][1:]
        i = ev.index(it[0])
        comp = [x for x in ev[:i] if x[0] == "compute"]
        def part(b, name, what):
            src = [x for x in comp if x[1] == name]
            chk(b[1] is not None and b[1].op == "binit" and b[1].args[0] == name and b[0].off == 0 and src and all(same(x[2], BUF("code")) and all(num(E, x[3]) == len(E.S.bufs["code"]) for E in Es) for x in src), lead + name, "the interpreter is not given the %s of exactly the code of the request" % what, where)
            chk(all(num(E, b[2]) == len(E.S.bufs[name]) for E in Es), lead + name + "-size", "the interpreter is given another number of bytes than the %s has" % what, where)
            if len(b) > 3: chk(not b[3], lead + name + "-dead", "the %s is released before the interpreter runs" % what, where)
        part(pad, "pad", "padded code"); part(jt, "jt", "valid jump targets")
        for got, want, what in ((msg, P("msg"), "message"), (hi, P("hi"), "host interface"), (hc, P("hc"), "host context")): chk(same(got, want), lead + what, "the interpreter is not given the %s of the request" % what, where)
        val(Es, rv, "rev", lead + "revision", "the interpreter is not given the revision of the request", where, 4)
        if fl is not None:
            if not fl >> 2 & 1: chk(sha == 0 and not isinstance(sha, LPtr), lead + "sha3-off", "the hash cache is used although it is turned off", where)
            else: chk(sha == 0 or same(sha, members[4]), lead + "sha3", "the interpreter is given something else than the machine's hash cache", where)
            if not steps:
                want = 1 if fl & 1 else 2 if fl >> 3 & 1 else 3 if fl >> 4 & 1 else 0
                chk(same(obs, members[want]), lead + "observer%d" % want, "with the options %s the run is %s" % (format(fl, "05b")[::-1], "not " + ["a plain one", "logged", "profiled", "profiled for external instructions only"][want]), where)
        ca = [x for x in ev[:i] if x[0] == "cache"]
        for x in ca:
            chk(same(x[1], members[5]), lead + "which-cache", "the code analysis is kept in something else than the machine's cache", where)
            if h is None: chk(False, lead + "key-none", "the code analysis is cached for a request without code hash", where)
            else:
                chk(any(h), lead + "key-zero", "the code analysis is cached under the zero code hash, which different codes share", where)
                chk(x[2].op == "be" and x[2].args[0] == 32 and x[2].args[1] == int.from_bytes(h, "big"), lead + "key", "the code analysis is cached under something else than the code hash of the request", where)
            if fl is not None: chk(fl >> 1 & 1, lead + "cache-off", "the code analysis is cached although caching is turned off", where)
    import ezev
    vals = [p38w.Val(1, k) for k in range(32 if rep.tier == "quick" else 160)]
    def valuations(st):
        """evaluators of the valuations that follow the path"""
        out = []
        for v in vals:
            v.memo = {}; E = p38w.VEv(v)
            if all(bool(E.b(a)) == bool(x) for a, x in st.facts.order): out.append(E)
        return out
    def num(E, x, w=8):
        if not isinstance(x, (int, T)): raise Und("number %r" % (x,))
        return E.u(x) & ((1 << (8 * w)) - 1)
    def val(Es, x, name, lead, what, where, w=8):
        for E in Es:
            want = E.S.vals[name] & ((1 << (8 * w)) - 1)
            if not chk(num(E, x, w) == want, lead, what, where): return
    pad32 = lambda b: b + bytes(-len(b) % 32)
    def copyof(st, Es, p, size, want, lead, what, where, mem=False):
        """p/size hold a private copy of all of `want`; the address of the buffer, if there is one"""
        for E in Es:
            b = E.S.bufs[want]
            if mem: b = pad32(b)
            if not chk(num(E, size) == len(b), lead + "-size", "%d bytes are reported for the %d bytes of %s" % (num(E, size), len(b), what), where): break
            if not b: continue
            if isinstance(p, LPtr) and p.o[0] == "heap":
                ln = [x[3] for x in st.events if x[0] == "alloc" and x[2] == p.o]
                got = E.blob(e.rdbytes(st, p, len(b))) if ln and isinstance(ln[0], int) and ln[0] >= len(b) else None
            elif not chk(isbuf(p) and p.off == 0 and isinstance(p.off, int) and any(x[0] == "alloc" and x[1] == "_Znam" and x[2] == p.o for x in st.events), lead + "-ptr", "the %s is not handed out in a buffer of its own" % what, where): break
            else:
                v, l, _ = e.ver(st, p.o)
                if not chk(num(E, l) >= len(b), lead + "-alloc", "the buffer of the %s is smaller than the %s" % (what, what), where): break
                got = E.buf(v)[:len(b)]
            if not chk(got == b, lead + "-bytes", "the %s handed out is not a copy of the whole %s" % (what, what), where): break
        return p if isinstance(p, LPtr) else None
    def released(fn, st, res, bufs, others, lead, where):
        n0 = len(st.events)
        try: rs = e.run(fn, [LPtr(res, 0)], st)
        except Und as x: rep.undec(where + " release", str(x)); return
        for r in rs:
            if r.kind != "ret": chk(False, lead + "release", "releasing the result ends by %s" % r.kind, where); continue
            fr = [x for x in r.st.events[n0:] if x[0] == "free"]
            got = sorted(str(x[2]) for x in fr); want = sorted(str(b) for b in bufs)
            chk(got == want, lead + "release", "releasing the result frees %d buffers where %d were handed out, or others" % (len(got), len(want)) if len(got) != len(want) else "releasing the result frees other buffers than were handed out", where)
            chk(all(x[1] == "_ZdaP" for x in fr), lead + "release-kind", "releasing the result frees an array as a single object", where)
        if not len(rs): chk(False, lead + "release", "releasing the result never ends", where)
    def freed_before(st, p): return any(x[0] == "free" and same(x[2], p) for x in st.events)
    X = [P("hi"), P("hc"), S("rev", 4), P("msg"), BUF("code"), S("size:code")]
    def status(code, step, si, lead, where):
        s = STATES[si]
        if si in (1, 2): ok = code == 0
        elif si == 3: ok = code == 2
        elif si == 0: ok = True
        else: ok = code in FAILS or s in ("kErrorCall",) and code not in (0, 2)
        chk(ok, lead + "status:" + s, "an execution ending in %s is reported with status %s" % (s, code), where)
        if step is not None:
            want = {0: 0, 1: 1, 2: 2, 3: 3}.get(si, 4)
            chk(step == want, lead + "step-status:" + s, "steps ending in %s are reported with step status %s instead of %d" % (s, step, want), where)
    # ---- execute
    W = "VM::Execute"
    for fl, s in sorted(states.items()):
        for hn, h in HASHES:
            full = hn == "no code hash" and fl in (0, 6)
            if fl not in (0, 2, 4, 6, 1, 8, 16, 31, 25) and hn != "a code hash": continue
            for si in range(1, len(STATES)) if full else (1,):
                try:
                    e.state = si; q = message(s.copy(), h); q.events = []
                    rs = e.run("vp_execute", [P("res"), V] + X, q)
                except Und as x:
                    rep.undec(W, str(x)); continue
                rep.count("execution requests", 1)
                for r in rs:
                    if r.kind == "throw": continue
                    if r.kind != "ret": chk(False, "x-end", "an execution request ends by %s" % r.kind, W); continue
                    st = r.st; F = lambda i, n: e.mload(st, LPtr(("res",), M.fieldoff(rt, i)), n)
                    try:
                        Es = valuations(st); rep.count("valuations", len(Es))
                        if not Es: rep.count("paths no valuation follows", 1); continue
                        request(st.events, h, fl, W, mem, "x-", Es)
                        status(F(0, 4), None, si, "x-", W)
                        val(Es, F(1, 8), "out1", "x-gas", "the gas left reported is not the gas the interpreter left", W)
                        val(Es, F(2, 8), "out2", "x-refund", "the refund reported is not the interpreter's refund", W)
                        out = copyof(st, Es, F(3, 8), F(4, 8), "out2", "x-output", "returned data", W)
                        obl(Es, chk, st, "x-", W)
                        if out is not None: chk(not freed_before(st, out), "x-output-freed", "the returned data is released before it is handed out", W)
                        rel = F(5, 8)
                        if not isinstance(rel, LPtr): chk(out is None, "x-norelease", "a result with returned data cannot be released", W)
                        else: released("vp_release", st, ("res",), [out] if out is not None else [], [], "x-", W)
                        chk(flags(st, V) == fl, "x-options", "an execution changes the machine's options", W)
                        rep.count("paths", 1)
                    except (Und, ezev.Unk) as x: rep.undec(W, str(x))
                    except ezev.Bad as x: bad(W + "-buffer", "a request makes a %s" % x, W)
    # ---- stepping
    W = "VM::StepN"
    sstates = {None: sst}
    for fl in (0, 6, 31):
        try:
            s = sst
            for i, o in enumerate(OPTS): rv, s = setopt(s, inner, o.encode(), b"true" if fl >> i & 1 else b"false")
            sstates[fl] = s
        except Und as x: rep.undec(W, str(x))
    jobs = []
    f0 = flags(sst, inner)
    for fl in sstates:
        for hn, h in HASHES:
            jobs.append((fl, h, 0, 2, 2, 1))
    for status_in in range(5):
        for k in (0, 1, 3): jobs.append((None, None, status_in, k, k, 1 if status_in == 0 else status_in if status_in < 4 else 4))
    for si in range(len(STATES)): jobs.append((None, None, 0, 1, 2, si))
    jobs.append((None, None, 0, 5, 0, 0)); jobs.append((None, None, 0, 0, 6, 0))
    for fl, h, sin, kin, kout, si in jobs:
        s = sstates[fl]
        try:
            e.state = si; e.words = kout; q = message(s.copy(), h); q.events = []
            rs = e.run("vp_stepn", [P("sres"), SV] + X + [sin, S("pc"), S("refunds"), P("bestack") if kin else 0, kin, BUF("imem"), S("size:imem"), BUF("ilrd"), S("size:ilrd"), S("steps", 4)], q)
        except Und as x:
            rep.undec(W, str(x)); continue
        rep.count("step requests", 1)
        for r in rs:
            if r.kind == "throw": continue
            if r.kind != "ret": chk(False, "s-end", "a step request ends by %s" % r.kind, W); continue
            st = r.st; F = lambda i, n: e.mload(st, LPtr(("sres",), M.fieldoff(stt, i)), n)
            try:
                Es = valuations(st); rep.count("valuations", len(Es))
                if not Es: rep.count("paths no valuation follows", 1); continue
                request(st.events, h, fl if fl is not None else f0, W, smem, "s-", Es, True)
                a = [x for x in st.events if x[0] == "stepargs"]
                if not a: continue
                state, pc, refunds, words, m, lrd, steps = a[0][1:]
                ws = {0: {0}, 1: {1}, 2: {2}, 3: {3}, 4: set(range(4, 15))}[sin]
                chk(state in ws, "s-in-state%d" % sin, "a step request in state %s reaches the interpreter in state %s" % (["running", "stopped", "returned", "reverted", "failed"][sin], STATES[state] if isinstance(state, int) and state < 15 else state), W)
                if sin == 0: val(Es, steps, "steps", "s-steps", "the interpreter is not given the requested number of steps", W, 4)
                val(Es, pc, "pc", "s-pc", "the interpreter does not start at the program counter of the request", W)
                val(Es, refunds, "refunds", "s-refunds", "the interpreter does not start with the refund of the request", W)
                for E in Es:
                    ok = len(words) == kin and all(E.w256(w) == int.from_bytes(E.S.img[("bestack",)][32 * i:32 * i + 32], "big") for i, w in enumerate(words))
                    if not chk(ok, "s-stack", "the interpreter is not given the stack of the request, bottom first", W): break
                for nm, (v, l), src in (("memory", m, "imem"), ("data of the last call", lrd, "ilrd")):
                    for E in Es:
                        want = E.S.bufs[src]
                        if src == "imem": want = pad32(want)
                        got = E.buf(v)
                        if not chk(num(E, l) == len(want) and got == want, "s-in-" + src, "the interpreter is not given exactly the %s of the request" % nm, W): break
                status(F(1, 4), F(0, 4), si, "s-", W)
                val(Es, F(2, 4), "rev", "s-revision-out", "the revision reported is not that of the request", W, 4)
                val(Es, F(3, 8), "out3", "s-pc-out", "the program counter reported is not the interpreter's", W)
                val(Es, F(4, 8), "out1", "s-gas", "the gas left reported is not the gas the interpreter left", W)
                val(Es, F(5, 8), "out2", "s-refund", "the refund reported is not the interpreter's refund", W)
                bufs = []
                for i, j, src, nm in ((6, 7, "out2", "returned data"), (10, 11, "outmem", "memory"), (12, 13, "out3", "data of the last call")):
                    b = copyof(st, Es, F(i, 8), F(j, 8), src, "s-" + nm.replace(" ", "-"), nm, W, src == "outmem")
                    if b is not None: bufs.append(b); chk(not freed_before(st, b), "s-freed-" + src, "the %s is released before it is handed out" % nm, W)
                sp, sz = F(8, 8), F(9, 8)
                if chk(isinstance(sz, int) and sz == kout, "s-stack-size", "the stack size reported is %s for a stack of %d" % (sz, kout), W):
                    if kout:
                        if chk(isinstance(sp, LPtr), "s-stack-ptr", "a stack of %d elements is not handed out" % kout, W):
                            al = [x for x in st.events if x[0] == "alloc" and x[2] == sp.o]
                            chk(al and al[0][3] >= 32 * kout and al[0][1] == "_Znam", "s-stack-alloc", "the buffer of the stack is too small", W)
                            ok = all(E.blob(e.rdbytes(st, LPtr(sp.o, sp.off + 32 * i), 32)) == E.S.words[i].to_bytes(32, "big") for E in Es for i in range(kout))
                            chk(ok, "s-stack-out", "the stack handed out is not the interpreter's, bottom first", W)
                            chk(not freed_before(st, sp), "s-stack-freed", "the stack is released before it is handed out", W)
                            bufs.append(sp)
                    elif isinstance(sp, LPtr): bufs.append(sp)
                obl(Es, chk, st, "s-", W)
                rel = F(14, 8)
                if not isinstance(rel, LPtr): chk(not bufs, "s-norelease", "the result of a step request cannot be released", W)
                else: released("vp_release_step", st, ("sres",), bufs, [], "s-", W)
                rep.count("paths", 1)
            except (Und, ezev.Unk) as x: rep.undec(W, str(x))
            except ezev.Bad as x: bad(W + "-buffer", "a request makes a %s" % x, W)
    # ---- end of life
    for fn, s, args, objs, nm in (("vp_destroy", st0, [V], [V], "a machine"), ("vp_destroy_steppable", sst, [SV], [SV, inner], "a steppable machine")):
        try:
            for r in e.run(fn, args, s):
                if r.kind != "ret": chk(False, fn, "destroying %s ends by %s" % (nm, r.kind)); continue
                fr = sorted(str(x[2]) for x in r.st.events if x[0] == "free")
                chk(all(fr.count(str(o)) == 1 for o in objs), fn, "destroying %s does not release each of its %d objects once" % (nm, len(objs)))
                rep.count("destructions", 1)
        except Und as x: rep.undec(fn, str(x))
    for f in M.funcs:
        if f in e.visited: rep.count("functions interpreted", 1)
    return EXPL, RULE

def obl(Es, chk, st, lead, where):
    """copies stay inside their buffers"""
    for E in Es:
        for b, off, n, lim, stale, what, _ in st.tags.get("obl", ()):
            n = E.u(n)
            if n == 0: continue
            if not chk(E.u(off) + n <= E.u(lim), lead + "bounds", "an access reaches beyond its buffer (%s)" % what, where): return
            if stale is not None: chk(E.u(stale[1]) <= E.u(stale[0]), lead + "stale", "a pointer into a buffer is used after the buffer has grown (%s)" % what, where)
        for n in st.tags.get("zero", ()):
            if not chk(E.u(n) == 0, lead + "null", "bytes are copied through a null pointer", where): return
EXPL = ("Abstract interpretation of evmzero.cc as compiled (LLVM IR), with the interpreter, the code padding, the jump target analysis and the LRU cache opaque: the machine is created, its options are set in every "
        "combination, and one execution and one step request with opaque arguments is followed along every path, up to the result's release and the machine's destruction.")
RULE = "the interpreter gets exactly the request, observed as the options say; the result reports exactly what the interpreter left, in buffers of its own; options set what they name"
