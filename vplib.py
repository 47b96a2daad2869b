"""Driver: builds goto programs from /repo's current sources plus a harness and the
OpenSSL models, lets CBMC + an SMT/SAT back end decide every assertion, replays
counterexamples natively and writes the evidence file."""
import concurrent.futures as cf, json, os, re, shutil, signal, subprocess, sys, threading, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VP_REPO", "/repo")
OUT = os.path.join(VERIF, "out")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick")
JOBS = int(os.environ.get("VP_JOBS", "7"))

INCS = ["-I" + os.path.join(VERIF, d) for d in ("model", "spec", "harness")] + \
       ["-I" + os.path.join(REPO, d) for d in ("dstulib", "engine", "keylib")]
BASE_DEFS = ["-DCOPY_2ND_ARG_IS_CONST", "-DDECODE_2ND_ARG_IS_CONST",
             "-DOPENSSL_SUPPRESS_DEPRECATED", "-DOPENSSL_API_COMPAT=0x10100000L"]
BACKENDS = {
    "z3": ["--z3"],
    "z3new": ["--z3", "--external-smt2-solver", "z3-new"],
    "cvc5": ["--cvc5"],
    "minisat": [],
    "cadical": ["--sat-solver", "cadical"],
    "kissat": ["--external-sat-solver", "kissat"],
}

class H:
    """One harness instance (= one goto program and its solver queries)."""
    def __init__(self, name, src, repo=(), models=(), defs=(), remove=None, unwind=40,
                 unwindset=(), solvers=("cadical",), timeout=600, replay="openssl",
                 memsafe=True, leak=False, tier="quick", bounds="", native=(), native_models=(),
                 native_repo=None, opts=(), objbits=None, weight=1, hang=None, cover=None,
                 replay_env=None, selftest=True, loopcalls=(), loopcalls_found=(), gen=None, extra=()):
        self.__dict__.update(locals()); del self.__dict__["self"]

class Err(Exception):
    pass
class Stopped(Exception):       # another harness has already shown a violation
    pass
STOP = threading.Event()

def sh(cmd, timeout=300, **kw):
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                         errors="replace", start_new_session=True, **kw)
    try:
        o, _ = p.communicate(timeout=timeout)
        return p.returncode, o
    except subprocess.TimeoutExpired:
        try: os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError: pass
        o, _ = p.communicate()
        return -9, o

def split_unions(i):
    """CBMC 6.11 loses pointers stored in a union member other than the first one. The tagged unions of
    ASN1_TYPE and of the repository's ASN.1 structures become structs: code that reads the member it
    wrote sees the same thing, code that reads another member sees an unset pointer."""
    out, on = [], False
    for l in open(i, errors="replace"):
        g = re.match(r'# \d+ "([^"]*)"', l)
        if g: on = g.group(1).endswith("openssl/asn1.h") or (g.group(1).startswith(REPO) and g.group(1).endswith(".h"))
        elif on: l = re.sub(r"\bunion\b", "struct", l)
        out.append(l)
    open(i, "w").writelines(out)

def gen_rbg_state(wd):
    """rbg_state.h: saving, restoring and scribbling over every file-level variable of engine/rbg.c except its lock"""
    o = os.path.join(wd, "rbg_st.gb")
    rc, t = sh(["goto-cc", "-std=gnu11", "-c", "-o", o] + BASE_DEFS + INCS + [os.path.join(REPO, "engine/rbg.c")])
    if rc: raise Err("goto-cc failed on rbg.c:\n" + t[-2000:])
    p = subprocess.run(["goto-instrument", "--show-symbol-table", "--json-ui", o], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
    vs, ls = [], []
    for x in json.loads(p.stdout):
        for n, s in x.get("symbolTable", {}).items():
            ty = s.get("prettyType", "")
            if not s.get("isStaticLifetime") or s.get("isExtern") or "::" in n or s.get("isType") or s.get("isMacro") or "code" == s["type"]["id"]: continue
            if not json.dumps(s.get("location", {})).count("rbg.c") or re.search(r"\bconst\b", ty) and "*" not in ty or "RAND_METHOD" in ty: continue
            k = "array" if s["type"]["id"] == "array" and ty.count("[") == 1 else "struct" if "struct" in s["type"]["id"] or s["type"]["id"] in ("array", "union_tag") else "scalar"
            (ls if re.search("CRYPTO_ONCE|CRYPTO_RWLOCK", ty) else vs).append((n, k))
    out = ["static __typeof__(%s) vp_sv_%s, vp_zero_%s;" % (n, n, n) for n, k in vs]
    def cp(a, b, k): return "for (unsigned i = 0; i < sizeof(%s) / sizeof(%s[0]); i++) %s[i] = %s[i];" % (a, a, a, b) if k == "array" else "%s = %s;" % (a, b)
    out += ["static __typeof__(%s) vp_i_%s;" % (n, n) for n, k in vs + ls]
    out.append("void vp_first(void) { %s }" % " ".join(cp("vp_i_" + n, n, k) for n, k in vs + ls))
    out.append("void vp_afresh(void) { %s }" % " ".join(cp(n, "vp_i_" + n, k) for n, k in vs + ls))
    out.append("void vp_save(void) { %s }" % " ".join(cp("vp_sv_" + n, n, k) for n, k in vs))
    out.append("void vp_restore(void) { %s }" % " ".join(cp(n, "vp_sv_" + n, k) for n, k in vs))
    out.append("void vp_scribble(int c) { %s }" % " ".join("for (unsigned i = 0; i < sizeof(%s) / sizeof(%s[0]); i++) %s[i] = c;" % (n, n, n) if k == "array" else "%s = vp_zero_%s;" % (n, n) if k == "struct" else "%s = (__typeof__(%s))(long)c;" % (n, n) for n, k in vs))
    out.append("#ifdef VP_CBMC\nvoid OPENSSL_cleanse(void *p, size_t n) { %s unsigned char *q = p; for (size_t i = 0; i < n; i++) q[i] = 0; }\n#endif" % " ".join("if (p == (void *)&%s && n == sizeof(%s)) { %s return; }" % (n, n, cp(n, "vp_zero_" + n, k)) for n, k in vs))
    open(os.path.join(wd, "rbg_state.h"), "w").write("\n".join(out) + "\n")

def build(h, wd):
    objs = []
    if h.gen: h.gen(wd)
    def cc(src, tag, own=True):     # the harness's own macros do not reach /repo's sources
        defs = BASE_DEFS + (["-D" + d for d in h.defs] if own else [])
        o = os.path.join(wd, tag + ".gb")
        i = os.path.join(wd, tag + ".i")
        rc, t = sh(["gcc", "-E", "-DVP_CBMC", "-D__CPROVER", "-std=gnu11"] + defs + ["-I" + wd] + INCS + ["-o", i, src])
        if rc: raise Err("preprocessing failed on %s:\n%s" % (src, t[-3000:]))
        split_unions(i)
        rc, t = sh(["goto-cc", "-std=gnu11", "-c", "-o", o, i])
        if rc: raise Err("goto-cc failed on %s:\n%s" % (src, t[-3000:]))
        return o
    objs.append(cc(os.path.join(VERIF, "harness", h.src), "h"))
    for x in h.extra: objs.append(cc(os.path.join(VERIF, "harness", x), "x_" + x))
    for m in h.models:
        objs.append(cc(os.path.join(VERIF, "model", m), "m_" + m.replace("/", "_")))
    for r in h.repo:
        o = cc(os.path.join(REPO, r), "r_" + r.replace("/", "_"), False)
        for f in (h.remove or {}).get(r, []):
            o2 = o + ".x"
            rc, t = sh(["goto-instrument", "--remove-function-body", f, o, o2])
            if rc: raise Err("goto-instrument failed: " + t[-2000:])
            os.replace(o2, o)
        objs.append(o)
    gb = os.path.join(wd, "all.gb")
    rc, t = sh(["goto-cc", "-o", gb] + objs)
    if rc: raise Err("link failed:\n" + t[-3000:])
    # a defined symbol listed twice (model body + repo body) would be a harness bug
    return gb

def loops_of(gb):
    rc, t = sh(["goto-instrument", "--show-loops", gb])
    return re.findall(r"^Loop (\S+):", t, re.M)

def loops_calling(gb, target):
    """loops whose body reaches a call of the target function, whatever function they are written in"""
    rc, t = sh(["goto-instrument", "--show-goto-functions", gb])
    calls, loops, fn = {}, [], None
    for l in t.splitlines():
        g = re.match(r"^(\S+) /\* \S+ \*/$", l)
        if g: fn = g.group(1); pc = 0; labels = {}; seq = []; nloop = 0; calls[fn] = set(); continue
        if fn is None or re.match(r"^\s*//", l): continue
        g = re.match(r"^\s+(\d+): ", l)
        if g: labels[g.group(1)] = pc
        g = re.search(r"CALL (?:.* := )?(\w+)\(", l)
        if g: calls[fn].add(g.group(1)); seq.append((pc, g.group(1)))
        g = re.search(r"GOTO (\d+)", l)
        if g and g.group(1) in labels:
            loops.append((fn, nloop, [c for p, c in seq if p >= labels[g.group(1)]])); nloop += 1
        pc += 1
    reach = {target}
    while True:
        more = {f for f in calls if f not in reach and calls[f] & reach}
        if not more: break
        reach |= more
    return ["%s.%d" % (f, i) for f, i, cs in loops if set(cs) & reach]

def cbmc_args(h, scale=1, loops=()):
    a = ["--no-standard-checks", "--drop-unused-functions", "--unwinding-assertions",
         "--unwind", str(h.unwind * scale)]
    if h.memsafe: a += ["--bounds-check", "--pointer-check", "--div-by-zero-check"]
    us = []
    for l, n in h.unwindset:          # "fn.*" = every loop of fn, whatever their number
        us += ["%s:%d" % (x, n * scale) for x in (loops if l.endswith(".*") else [l]) if x == l or x.startswith(l[:-1])]
    for x, n in h.loopcalls_found: us.append("%s:%d" % (x, n * scale))
    if us: a += ["--unwindset", ",".join(us)]
    if h.objbits: a += ["--object-bits", str(h.objbits)]
    a += ["--malloc-may-fail", "--malloc-fail-null"] if "mallocfail" in h.opts else ["--no-malloc-may-fail"]
    a += [o for o in h.opts if o != "mallocfail"]
    return a

class Proc:
    """cbmc run under one back end, output to a file"""
    def __init__(self, gb, args, backend, outf):
        self.backend, self.outf = backend, outf
        ui = ["--json-ui"] if "--trace" in args else []
        self.f = open(outf, "w")
        self.t0 = time.time()
        self.p = subprocess.Popen(["cbmc", gb] + args + BACKENDS[backend] + ui + ["--verbosity", "8"],
                                  stdout=self.f, stderr=open(outf + ".err", "w"), start_new_session=True)
    def kill(self):
        try: os.killpg(self.p.pid, signal.SIGKILL)
        except ProcessLookupError: pass
        self.p.wait(); self.f.close()

def parse(outf):
    """-> (results, messages, status) or None when the run gave no complete verdict"""
    try:
        txt = open(outf, errors="replace").read()
    except OSError:
        return None
    if not txt.lstrip().startswith("["):
        return parse_text(txt)
    try:
        d = json.loads(txt)
    except Exception:
        return None
    res = None; msgs = []; status = None
    for x in d:
        if "result" in x: res = x["result"]
        if "messageText" in x: msgs.append(x["messageText"])
        if "cProverStatus" in x: status = x["cProverStatus"]
    if res is None:
        return None
    return res, msgs, status

def parse_text(txt):
    if "** Results:" not in txt: return None
    head, tail = txt.split("** Results:", 1)
    st = re.search(r"^VERIFICATION (SUCCESSFUL|FAILED)", tail, re.M)
    if not st: return None
    res, loc = [], {}
    for l in tail.splitlines():
        g = re.match(r"^(\S+) function (\S+)$", l)
        if g: loc = {"file": g.group(1), "function": g.group(2)}; continue
        g = re.match(r"^\[(\S+)\] (?:line (\d+) )?(.*): (SUCCESS|FAILURE|UNKNOWN|ERROR)$", l)
        if g:
            res.append({"property": g.group(1), "description": g.group(3), "status": g.group(4),
                        "sourceLocation": dict(loc, line=g.group(2))})
    if not res or (any(r["status"] not in ("SUCCESS", "FAILURE") for r in res) and
                   not any(r["status"] == "FAILURE" and r["description"] != "VPWITNESS" for r in res)): return None
    return res, head.splitlines(), st.group(1)

def portfolio(h, gb, wd, args, deadline, tag):
    if "--object-bits" in args: h.objbits = h.objbits or 12
    elif h.objbits: args = args + ["--object-bits", str(h.objbits)]
    procs = [Proc(gb, args, b, os.path.join(wd, "%s_%s.json" % (tag, b))) for b in h.solvers]
    try:
        alive = list(procs)
        while alive and time.time() < deadline:
            if STOP.is_set(): raise Stopped()
            for p in list(alive):
                if p.p.poll() is not None:
                    p.f.close()
                    alive.remove(p)
                    r = parse(p.outf)
                    if r and p.p.returncode in (0, 10):
                        return p.backend, r, time.time() - p.t0
            time.sleep(0.05)
        if not h.objbits and any("too many addressed objects" in open(p.outf + ".err").read() for p in procs):
            return portfolio(h, gb, wd, args + ["--object-bits", "12"], deadline, tag)
        tails = []
        for p in procs:
            try: tails.append(p.backend + ": " + open(p.outf).read()[-400:])
            except Exception: pass
        raise Err("no back end decided %s within the time limit\n%s" % (h.name, "\n".join(tails)))
    finally:
        for p in procs:
            if p.p.poll() is None: p.kill()

def flatten(lhs, v, acc):
    if "members" in v:
        for m in v["members"]:
            if not m["name"].startswith("$"):
                flatten(lhs + "." + m["name"], m["value"], acc)
    elif "elements" in v:
        for e in v["elements"]:
            flatten("%s[%d]" % (lhs, e["index"]), e["value"], acc)
    elif "binary" in v:
        acc[lhs] = int(v["binary"], 2)
    elif v.get("name") == "boolean" or v.get("data") in ("TRUE", "FALSE", True, False):
        acc[lhs] = 1 if v.get("data") in ("TRUE", True, "1") else 0

def inputs_from_trace(outf, prop):
    d = json.load(open(outf))
    for x in d:
        for r in x.get("result", []):
            if r["property"] != prop or "trace" not in r: continue
            acc = {}
            for s in r["trace"]:
                if s.get("stepType") == "assignment" and re.match(r"IN(\W|$)", s["lhs"]):
                    lhs = re.sub(r"\[(\d+)[lLuU]*\]", r"[\1]", s["lhs"])
                    flatten(lhs, s["value"], acc)
            return acc, r["trace"]
    return None, None

def native_build(h, wd, mode, inc):
    exe = os.path.join(wd, "replay_" + mode)
    if h.gen and not os.path.exists(os.path.join(wd, "rbg_state.h")): h.gen(wd)
    fl = ["gcc", "-g", "-O1", "-fno-omit-frame-pointer", "-fsanitize=address,bounds", "-w"] + BASE_DEFS
    repo = h.repo if h.native_repo is None or mode == "model" else h.native_repo
    objs = []
    for r in repo:
        o = os.path.join(wd, "n_" + r.replace("/", "_") + ".o")
        rc, t = sh(fl + INCS + ["-c", "-o", o, os.path.join(REPO, r)])
        if rc: raise Err("native build failed (%s):\n%s" % (r, t[-3000:]))
        objs.append(o)
    cmd = fl + ["-o", exe] + ["-D" + d for d in h.defs] + ["-I" + wd] + INCS + [os.path.join(VERIF, "harness", x) for x in h.extra]
    if inc: cmd += ['-DVP_REPLAY="%s"' % inc]
    cmd += [os.path.join(VERIF, "harness", h.src)] + objs
    if mode == "model":
        cmd += ["-DVP_NATIVE_MODEL"] + [os.path.join(VERIF, "model", m) for m in h.models]
        cmd += ["-Wl,-z,muldefs", "-Wl,--unresolved-symbols=ignore-all", "-no-pie"]
    else:
        cmd += [os.path.join(VERIF, "model", m) for m in h.native_models]
        cmd += list(h.native) + ["-lcrypto"]
    rc, t = sh(cmd)
    if rc: raise Err("native build failed (%s):\n%s" % (mode, t[-3000:]))
    return exe

def native_run(h, exe, timeout=60, arg=None):
    env = dict(os.environ)
    env["ASAN_OPTIONS"] = "detect_leaks=0:max_free_fill_size=65536:free_fill_byte=85:abort_on_error=0:exitcode=98:allocator_may_return_null=1"
    env.update(h.replay_env or {})
    t0 = time.time()
    rc, o = sh([exe] + ([arg] if arg else []), timeout=timeout, env=env)
    return rc, o, time.time() - t0

def replay(h, wd, acc, prop_desc):
    """-> (reproduced, mode, output)"""
    inc = os.path.join(wd, "replay_in.inc")
    with open(inc, "w") as f:
        for k in sorted(acc):
            if "$" in k: continue
            f.write("%s = 0x%xULL;\n" % (k, acc[k]))
    outs = []
    for mode in ([h.replay] if h.replay != "both" else ["openssl", "model"]):
        exe = native_build(h, wd, mode, inc)
        rc, o, dt = native_run(h, exe, timeout=h.hang or 30)
        with open(os.path.join(wd, "replay.out"), "w") as f: f.write(o)
        outs.append("[%s] rc=%s\n%s" % (mode, rc, o[-3000:]))
        if rc == 99 or rc == 98 or "AddressSanitizer" in o or "runtime error" in o:
            return True, mode, outs[-1]
        if rc == -9:
            return True, mode, "does not terminate (killed after %.0f s)\n" % dt + outs[-1]
        if rc < 0 and rc != -9:
            return True, mode, "killed by signal %d\n" % -rc + outs[-1]
        # the solver chose values of an uninterpreted function: same case, other data
        rc, o, dt = native_run(h, exe, timeout=40, arg="400000")
        if rc in (98, 99):
            return True, mode + ", data re-chosen for the real cipher", "rc=%s\n%s" % (rc, o[-3000:])
    return False, None, "\n".join(outs)

def run_harness(prop, h, deadline):
    wd = os.path.join(OUT, prop, h.name)
    shutil.rmtree(wd, ignore_errors=True); os.makedirs(wd)
    t0 = time.time()
    ev = {"harness": h.name, "bounds": h.bounds, "unwind": h.unwind}
    gb = build(h, wd)
    ev["build_s"] = round(time.time() - t0, 2)
    scale = 1
    loops = loops_of(gb) if any(l.endswith(".*") for l, _ in h.unwindset) else []
    h.loopcalls_found = [(x, n) for f, n in h.loopcalls for x in loops_calling(gb, f)]
    while True:
        args = cbmc_args(h, scale, loops)
        dl = min(deadline, time.time() + h.timeout)
        backend, (res, msgs, status), dt = portfolio(h, gb, wd, args, dl, "run%d" % scale)
        fails = [r for r in res if r["status"] == "FAILURE"]
        wit = [r for r in res if r.get("description") == "VPWITNESS"]
        uw = [r for r in fails if "unwinding assertion" in r.get("description", "") or ".unwind." in r["property"]
              or ".recursion" in r["property"]]
        real = [r for r in fails if r not in uw and r not in wit]
        if uw and not real and scale < 4 and not h.hang:
            scale *= 2
            continue
        break
    ev.update(backend=backend, solve_s=round(dt, 2), assertions=len(res) - len(wit), scale=scale)
    fn = set(r.get("sourceLocation", {}).get("function", "") for r in res)
    nobody = sorted(set(m.split("no body for function")[1].strip().strip("'\"") for m in msgs if "no body for function" in m))
    ev["unmodelled"] = nobody
    for m in msgs:
        g = re.search(r"(\d+) variables, (\d+) clauses", m)
        if g: ev["vars"], ev["clauses"] = int(g.group(1)), int(g.group(2))
        g = re.search(r"size of program expression: (\d+) steps", m)
        if g: ev["ssa_steps"] = int(g.group(1))
        g = re.search(r"Generated (\d+) VCC\(s\), (\d+) remaining", m)
        if g: ev["vccs"], ev["vccs_after_simplification"] = int(g.group(1)), int(g.group(2))
    if not wit: raise Err(h.name + ": witness assertion missing")
    ev["queries"] = sum(1 for m in msgs if "Running propositional reduction" in m or re.search(r"Running SMT2", m)) or 1
    if not fails or (wit[0]["status"] != "FAILURE" and not real and not uw):
        raise Err(h.name + ": vacuous (end of harness unreachable)")
    cand = real + uw
    if not cand:
        ev["verdict"] = "holds"
        shutil.rmtree(wd, ignore_errors=True)
        return ev, None
    # counterexample: get traces for a few failing assertions and replay them
    notes = []
    for r in cand[:4]:
        a2 = args + ["--trace", "--property", r["property"]]
        try:
            b2, _, _ = portfolio(h, gb, wd, a2, min(deadline + 60, time.time() + h.timeout), "trace")
        except Err as e:
            notes.append(str(e)); continue
        acc, trace = inputs_from_trace(os.path.join(wd, "trace_%s.json" % b2), r["property"])
        if acc is None: notes.append("no trace"); continue
        ok, mode, o = replay(h, wd, acc, r["description"])
        if ok:
            loc = r.get("sourceLocation", {})
            rep = os.path.join(wd, "violation.txt")
            with open(rep, "w") as f:
                f.write("property %s, harness %s\nassertion: %s (%s) at %s:%s in %s\nback end: %s\nreplayed natively against the code in %s (%s mode):\n%s\ninputs:\n" % (
                    prop, h.name, r["property"], r["description"], loc.get("file"), loc.get("line"), loc.get("function"), backend, REPO, mode, o))
                f.write(open(os.path.join(wd, "replay_in.inc")).read())
            for x in os.listdir(wd):
                if x.endswith(".gb") or x.endswith(".json"): os.remove(os.path.join(wd, x))
            ev["verdict"] = "violated"
            return ev, (rep, "%s: %s" % (h.name, r["description"]))
        notes.append("counterexample to %s (%s) did not reproduce: %s" % (r["property"], r["description"], o[-1500:]))
    raise Err(h.name + ": " + "\n".join(notes))

def known_findings(prop):
    """lines 'known: property=<id> harness=<name> <text>' suppress nothing by themselves; harnesses
    exclude the specific input themselves. Returns the lines to print."""
    out = []
    try:
        for l in open(os.path.join(VERIF, "KNOWN_FINDINGS.txt")):
            l = l.strip()
            if l.startswith("known: property=%s " % prop): out.append(l[len("known: "):])
    except FileNotFoundError:
        pass
    return out

def repo_functions(h):
    return list(h.repo)

def main(prop, checks, tier):
    t0 = time.time()
    c = checks[prop]
    budget = 840 if tier == "quick" else 6 * 3600
    deadline = t0 + budget
    hs = [h for h in c["harnesses"] if tier == "thorough" or h.tier == "quick"]
    only = os.environ.get("VP_ONLY")
    if only: hs = [h for h in hs if re.search(only, h.name)]
    evs, viols, errs = [], [], []
    sem = threading.Semaphore(JOBS)
    lock = threading.Lock()
    slot = threading.Lock()
    def guarded(h):
        w = max(1, min(JOBS, h.weight * len(h.solvers)))
        with slot:                      # acquire all permits at once: no deadlock
            for _ in range(w): sem.acquire()
        try:
            if viols: return None
            return run_harness(prop, h, deadline)
        finally:
            for _ in range(w): sem.release()
    with cf.ThreadPoolExecutor(max_workers=max(JOBS, 1)) as ex:
        fut = {ex.submit(guarded, h): h for h in hs}
        for f in cf.as_completed(fut):
            h = fut[f]
            try:
                r = f.result()
                if r is None: continue
                with lock:
                    evs.append(r[0])
                    if r[1]: viols.append(r[1]); STOP.set()
                print("%s %-28s %s %ss (%s, %s assertions)" % (prop, h.name, r[0]["verdict"], r[0]["solve_s"], r[0]["backend"], r[0]["assertions"]), flush=True)
            except Stopped:
                pass
            except Err as e:
                errs.append(str(e)); print("ERROR", h.name, str(e)[-3000 if len(errs) < 3 else -100:], flush=True)
            except Exception as e:
                import traceback
                errs.append(h.name + ": " + repr(e)); traceback.print_exc()
    wall = round(time.time() - t0, 2)
    samples = [{k: e.get(k) for k in ("harness", "bounds", "backend", "solve_s", "assertions", "queries", "ssa_steps", "vars", "clauses", "verdict")} for e in sorted(evs, key=lambda e: e["harness"])]
    ev = {
        "property": prop, "tier": tier, "seed": SEED, "level": c.get("level", "other"),
        "coverage": {
            "explanation": "Bounded symbolic model checking (CBMC) of the real /repo sources: every assertion below is decided by an SMT/SAT solver for all values of the symbolic inputs within the stated bounds; unwinding assertions on, one reachability witness per harness.",
            "repo_files_encoded": sorted(set(r for h in hs for r in h.repo)),
            "entry_points": c.get("entry", []),
            "harnesses_run": len(evs), "harnesses_holding": sum(e["verdict"] == "holds" for e in evs),
            "assertions_decided": sum(e["assertions"] for e in evs),
            "solver_queries": sum(e["queries"] for e in evs),
            "solver_s": round(sum(e["solve_s"] for e in evs), 2),
            "ssa_steps": sum(e.get("ssa_steps", 0) for e in evs),
            "unmodelled_functions": sorted(set(x for e in evs for x in e.get("unmodelled", []))),
            "bounds": {e["harness"]: e["bounds"] for e in evs},
            "outside_bounds": c.get("outside", ""),
            "samples": samples,
            "counterexamples": [v[1] for v in viols],
        },
        "assumptions": c.get("assumptions", []),
        "wall_s": wall,
        "violations": len(viols),
    }
    if errs: ev["coverage"]["errors"] = [e[-500:] for e in errs]
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    if viols:
        for v in viols:
            print("counterexample:", v[1])
        print("VIOLATION property=%s replay=%s" % (prop, viols[0][0]), flush=True)
        return 1
    if errs:
        print("no verdict for %s" % prop)
        return 2
    for l in known_findings(prop):
        print("KNOWN-FINDING: " + l)
    print("%s: holds on everything explored (%d harnesses, %.1f s)" % (prop, len(evs), wall))
    return 0
