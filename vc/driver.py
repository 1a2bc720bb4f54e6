"""Runs one property's check: extraction, deductive verification, witness search, evidence."""
import hashlib, json, os, re, select, signal, subprocess, sys, tempfile, time, traceback
HERE = os.path.dirname(os.path.abspath(__file__)); VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
T0 = time.time()
LIMIT = float(os.environ.get("VC_LIMIT", "800"))        # seconds for the whole check (hard limit is 900)
JOBS = int(os.environ.get("VC_CORES", str(os.cpu_count() or 8)))
def left(): return LIMIT - (time.time() - T0)
def log(*a): print(*a, flush=True)

# ---------------------------------------------------------------- deductive part
def verify_worker(key, ll, jobs, outfd, opts):
    os.environ["VC_JOBS"] = str(jobs)
    res = dict(key=key, obligations=[], error=None)
    t = time.time()
    try:
        import registry, world
        m = world.Module(open(ll).read())
        names = json.load(open(ll + ".names"))
        w = registry.make_world(m, key, names)
        cls, base, sub = registry.FUNCS[key]
        fn = names.get(key)
        if fn is None or fn not in m.funcs:
            if key in registry.HELPERS:
                res['absent'] = True; res['note'] = "no function of this name in the source: its code is verified inside its callers"
                raise _Absent()
            raise world.Unsupported("function %s not found in the source" % base)
        v = world.Verifier(m, fn, cls(key), w)
        v.deadline = time.time() + min(opts['budget'], getattr(v.c, 'cap', 1e9))
        res['name'] = key
        try: v.verify()
        except BaseException as ex:
            res['error'] = "%s: %s" % (type(ex).__name__, ex); res['tb'] = traceback.format_exc()[-1500:]
            v.pool.kill()
        for o in v.obls:
            d = dict(name=o.name, status=o.status, t=round(o.t, 3), backend=o.backend, line=o.line)
            if o.status != 'proved':
                if o.model is not None: d['model'] = str(o.model)[:1500]
                d['path'] = [str(x) for x in getattr(o, 'path', ())][-12:]
            res['obligations'].append(d)
        res['stats'] = {k: (round(x, 2) if isinstance(x, float) else x) for k, x in v.prover.stats.items()}
        res['stats']['pool_s'] = round(v.pool.spent, 2)
        res['invariants'] = {h: l for h, l in v.inv_kept.items()}
        res['assumed'] = sorted(getattr(w, 'assumed', []))
        if w.tab is not None:
            for n, ok in w.tab.T.checked:
                res['obligations'].append(dict(name="%s/table/%s" % (key, n), status='proved' if ok else 'failed', t=0, backend='evaluation', line=0))
    except _Absent: pass
    except BaseException as ex:
        res['error'] = "%s: %s" % (type(ex).__name__, ex); res['tb'] = traceback.format_exc()[-1500:]
    res['wall'] = round(time.time() - t, 2)
    data = json.dumps(res).encode()
    with os.fdopen(outfd, 'wb') as f: f.write(data)
    os._exit(0)

class _Absent(Exception): pass

def run_pool(tasks, width, start, deadline):
    """tasks: list; start(task, fd) runs in a child and writes JSON to fd"""
    live = {}; out = []; tasks = list(tasks)
    while tasks or live:
        while tasks and len(live) < width:
            t = tasks.pop(0); r, w = os.pipe(); pid = os.fork()
            if pid == 0:
                os.setpgid(0, 0); os.close(r)
                start(t, w); os._exit(0)
            os.close(w); live[r] = (pid, t, bytearray())
        rd, _, _ = select.select(list(live), [], [], 1.0)
        for fd in rd:
            b = os.read(fd, 1 << 16); pid, t, buf = live[fd]
            if b: buf += b; continue
            os.close(fd); os.waitpid(pid, 0); del live[fd]
            try: out.append(json.loads(bytes(buf).decode()))
            except Exception: out.append(dict(key=str(t), obligations=[], error="worker died"))
        if time.time() > deadline:
            for fd, (pid, t, buf) in live.items():
                try: os.killpg(pid, signal.SIGKILL)
                except OSError: pass
                os.waitpid(pid, 0); os.close(fd)
                out.append(dict(key=str(t), obligations=[], error="time budget of the check exhausted"))
            for t in tasks: out.append(dict(key=str(t), obligations=[], error="time budget of the check exhausted"))
            break
    return out

def deductive(prop, P, work, tier):
    import extract, registry, world
    if not P.funcs: return [], None
    try:
        raw = extract.compile_raw()
        keepers = {}
        def keep(d):
            b = world.base_name(d)
            if b is None: return False
            for k, (cls, base, sub) in registry.FUNCS.items():
                if base == b and sub in d and k in P.closure(): return True
            return False
        ll, dem = extract.prepare(raw, keep)
    except Exception as ex:
        return [], "extraction failed: %s" % (str(ex)[-1500:],)
    names = {}
    for mangled, d in dem.items():
        b = world.base_name(d)
        if b is None: continue
        for k, (cls, base, sub) in registry.FUNCS.items():
            if base == b and sub in d: names[k] = mangled
    f = os.path.join(work, "p.ll"); open(f, "w").write(ll); json.dump(names, open(f + ".names", "w"))
    todo = P.order()
    n = len(todo); width = min(n, JOBS); jobs = JOBS
    import engine; engine.make_tokens(max(1, JOBS - 1))
    deadline = time.time() + min(left() - 200, 560 if tier == 'quick' else 2400)
    res = run_pool(todo, width, lambda t, fd: verify_worker(t, f, jobs, fd, dict(budget=deadline - time.time())), deadline + 15)
    return res, None

# ---------------------------------------------------------------- native part
def build_native(work, extra=(), src="harness.cpp", out="harness", san="address,undefined"):
    import extract
    exe = os.path.join(work, out)
    repo = extract.REPO
    for opts in (["-DHAVE_INFLATE"], []):
        cmd = ["clang++-18", "-std=c++20", "-O1", "-g", "-w", "-fsanitize=" + san, "-fno-sanitize-recover=all", "-DADA_TESTING=1"] + opts + list(extra) + \
              ['-DIDNA_CPP="%s/src/idna.cpp"' % repo, "-I", repo + "/include", "-I", repo + "/src", os.path.join(VERIF, "native", src), "-lz", "-o", exe]
        r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode == 0: return exe, None
    return None, r.stderr[-3000:]

def run_native(exe, args, timeout=120):
    """(witness text or None, output)"""
    try: r = subprocess.run([exe] + args, capture_output=True, text=True, errors="replace", env=dict(ENVN, TSAN_OPTIONS="halt_on_error=1"), timeout=timeout)
    except subprocess.TimeoutExpired: return "the run does not end within %d s" % timeout, ""
    m = re.search(r"WITNESS (.*)", r.stdout)
    e = re.findall(r"SUMMARY: [^\n]*|[^\n]*runtime error[^\n]*", r.stderr)
    if m: return (m.group(1) + " " + " ".join(e[:2]))[:700], r.stdout
    if r.returncode: return ("exit %d: %s" % (r.returncode, " ".join(e[:2])))[:600], r.stdout
    return None, r.stdout
def source_constants(work):
    """integer constants occurring in the current source (bias for the search)"""
    import extract
    vals = set()
    d = extract.REPO + "/src"
    for fn in sorted(os.listdir(d)) + []:
        if fn.endswith((".cpp", ".hpp", ".h")) and "tables" not in fn:
            for m in re.finditer(r"\b(0[xX][0-9a-fA-F']+|\d[\d']*)\b", open(os.path.join(d, fn), errors="replace").read()):
                try: vals.add(int(m.group(1).replace("'", ""), 0))
                except ValueError: pass
    f = os.path.join(work, "consts.txt"); open(f, "w").write("\n".join(str(v) for v in sorted(vals) if v < 1 << 32))
    return f

ENVN = dict(os.environ, ASAN_OPTIONS="abort_on_error=0:exitcode=99:detect_leaks=0:allocator_may_return_null=1", UBSAN_OPTIONS="print_stacktrace=0:halt_on_error=1:exitcode=99")
def search(prop, exe, work, seconds, seed, workers=None):
    """returns (witness or None, cases, sweepcases); witness = dict(hex, text)"""
    workers = workers or JOBS
    consts = source_constants(work); procs = []
    for w in range(workers):
        cur = os.path.join(work, "cur.%s.%d" % (prop, w))
        procs.append((w, cur, subprocess.Popen([exe, "run", prop, os.path.join(VERIF, "data/shipped.txt"), consts, str(seed), str(w), str(workers), str(seconds), cur], stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=ENVN, cwd=work)))
    wit = None; cases = sweep = 0; t_end = time.time() + seconds + 60
    done = {}
    import threading
    def rd(w, p): done[w] = p.communicate()
    th = [threading.Thread(target=rd, args=(w, p)) for w, _, p in procs]
    for t in th: t.start()
    while any(t.is_alive() for t in th):
        time.sleep(0.05)
        if any(p.poll() not in (None, 0) for _, _, p in procs):
            time.sleep(1.5)
            for _, _, p in procs:
                if p.poll() is None: p.kill()
        if time.time() > t_end:
            hung = [(w, c) for w, c, p in procs if p.poll() is None]
            for _, _, p in procs:
                if p.poll() is None: p.kill()
            for w, cur in hung:
                if wit is None:
                    b = open(cur, "rb").read(8); n = int.from_bytes(b, "little"); pay = open(cur, "rb").read(8 + n)[8:]
                    wit = dict(hex=pay.hex(), text="the call does not return")
    for t in th: t.join()
    for w, cur, p in procs:
        so, se = done[w]; so = so.decode(errors="replace"); se = se.decode(errors="replace")
        m = re.search(r"CASES (\d+) SWEEP (\d+)", so)
        if m: cases += int(m.group(1)); sweep += int(m.group(2))
        m = re.search(r"WITNESS ([0-9a-f]*) (.*)", so)
        if m and (wit is None or len(m.group(1)) < len(wit['hex'])): wit = dict(hex=m.group(1), text=m.group(2)[:600])
        elif p.returncode not in (0, 1, -9, None) and wit is None:
            try:
                b = open(cur, "rb").read(); n = int.from_bytes(b[:8], "little"); pay = b[8:8 + n]
            except OSError: pay = b""
            e = re.findall(r"(?:ERROR: AddressSanitizer[^\n]*|[^\n]*runtime error[^\n]*|[^\n]*terminate called[^\n]*|[^\n]*what\(\)[^\n]*)", se)
            wit = dict(hex=pay.hex(), text="crash (exit %s): %s" % (p.returncode, " ".join(e)[:500] or se[-300:]))
    for w, cur, p in procs:
        try: os.remove(cur)
        except OSError: pass
    return wit, cases, sweep

def replay(prop, exe, hexs):
    r = subprocess.run([exe, "replay", prop, os.path.join(VERIF, "data/shipped.txt"), "-"], input=hexs + "\n", capture_output=True, text=True, env=ENVN)
    return r.returncode, (r.stdout + r.stderr)[-2000:]

# ---------------------------------------------------------------- the check
def main(prop, tier, seed):
    import registry
    P = registry.PROPS[prop]
    work = tempfile.mkdtemp(prefix="vc-%s-" % prop, dir=os.environ.get("VC_TMP", "/tmp"))
    try: return check(prop, P, tier, seed, work)
    finally: subprocess.run(["rm", "-rf", work])

def check(prop, P, tier, seed, work):
    import extract
    ev = dict(property=prop, tier=tier, seed=seed, level=P.level, coverage={}, assumptions=list(P.assumptions), wall_s=0, violations=0)
    cov = ev['coverage']
    problems = []          # [(obligation, detail)]
    res, err = deductive(prop, P, work, tier)
    if err: problems.append(("extraction", err))
    obs = []; fun = []
    for r in res:
        o = r['obligations']; obs += o
        bad = [x for x in o if x['status'] != 'proved']
        fun.append(dict(function=r['key'], obligations=len(o), discharged=len(o) - len(bad), wall_s=r.get('wall'), solver=r.get('stats'), loop_invariants=sum(len(v) for v in r.get('invariants', {}).values())))
        for x in bad: problems.append((x['name'], dict(status=x['status'], model=x.get('model'), path=x.get('path'))))
        if r.get('error'): problems.append(("%s/%s" % (r['key'], "verification-not-completed"), r['error'] + "\n" + r.get('tb', '')))
        elif r.get('absent'): fun[-1]['note'] = r['note']
        elif not o: problems.append(("%s/vacuity/no-obligations" % r['key'], "no obligation was generated"))
    wit = None; known = []; extra = {}
    if P.extra:
        x = P.extra(prop, tier, seed, work)      # dict(problems=[], witness=None, coverage={}, known=[], obligations=n, discharged=n)
        problems += x.get('problems', []); wit = x.get('witness'); extra = x; known += x.get('known', [])
    log("%s: %d functions, %d obligations, %d not discharged, %.1f s" % (prop, len(fun), len(obs), len(problems), time.time() - T0))
    cases = sweep = 0; exe = None
    if (problems or tier == 'thorough') and wit is None and P.witness:
        wit, cases = P.witness(prop, tier, seed, work)
    if (problems or P.bounded) and wit is None and prop in P.NATIVE:
        exe, cerr = build_native(work)
        if exe is None: problems.append(("harness", cerr))
        else:
            secs = (35 if tier == 'quick' else 400) if not problems else max(30, min(150, left() - 90))
            wit, cases, sweep = search(prop, exe, work, secs, seed)
    ob = len(obs) + extra.get('obligations', 0); dis = sum(x['status'] == 'proved' for x in obs) + extra.get('discharged', 0)
    if P.funcs or extra.get('obligations'):
        cov.update(obligations=ob, discharged=dis, functions_under_contract=fun,
                   checker_cmd="python3-vt check.py %s (vc/engine.py: verification conditions from clang-18 LLVM IR of %s/src/idna.cpp; z3 %s)" % (prop, extract.REPO, z3v()),
                   trusted_base=TRUSTED + P.trusted,
                   obligation_samples=[dict(name=x['name'], status=x['status'], backend=x['backend']) for x in obs if x['status'] != 'proved'][:20] + [dict(name=x['name'], status=x['status'], backend=x['backend'], t=x['t']) for x in sorted(obs, key=lambda x: -x['t'])[:12]])
    if P.bounded or cases:
        cov.update(bounded_part=P.bounded or "witness search after undischarged obligations", evaluations=cases, distinct_nontrivial=sweep,
                   rule="bounded, not counted as proved: deterministic sweep (distinct by construction) plus seeded random cases of the real code under ASan/UBSan against native/oracle.hpp; distinct_nontrivial counts the sweep cases only", samples=[prop + " cases are byte strings interpreted by native/harness.cpp case_%s" % prop.lower()])
    if P.level == 'other': cov['explanation'] = "functions_under_contract are proved; the rest (%s) is a bounded stand-in" % P.bounded
    cov.update(extra.get('coverage', {}))
    ev['assumptions'] += ASSUME
    for k in known: log("KNOWN-FINDING: property=%s %s" % (prop, k))
    rc = 0
    if problems or wit:
        rc = 1; ev['violations'] = 1
        rp = os.path.join(VERIF, "evidence", "replay-%s.json" % prop)
        d = dict(property=prop, failed_obligations=[dict(obligation=n, detail=x) for n, x in problems][:40], witness=wit,
                 how="python3-vt /verif/check.py --replay %s" % rp)
        os.makedirs(os.path.dirname(rp), exist_ok=True)
        json.dump(d, open(rp, "w"), indent=1, default=str)
        for n, x in problems[:12]: log("  not discharged: %s %s" % (n, (x if isinstance(x, str) else x.get('status', ''))[:300].replace("\n", " | ")))
        if wit: log("  failing input: %s" % wit['text'])
        log("VIOLATION property=%s replay=%s%s" % (prop, rp, "" if wit else " no-failing-input-found"))
    ev['wall_s'] = round(time.time() - T0, 2)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1, default=str)
    log("%s: %s (%.1f s)" % (prop, "VIOLATED" if rc else "ok", time.time() - T0))
    return rc

def z3v():
    import z3
    return z3.get_version_string()
TRUSTED = ["clang-18 front end and the LLVM passes sroa, early-cse, simplifycfg, adce, always-inline, loop-simplify (C++ to IR)",
           "vstd/string: reference implementation of std::basic_string / string_view replacing libstdc++ (documented behaviour of the standard library)",
           "vc/llir.py, vc/engine.py (IR semantics, verification condition generator)", "z3"]
ASSUME = ["arguments do not alias each other or the output; lengths are below 2^40 elements (std::string max_size)", "allocation failure inside std::string is not modelled (bad_alloc propagates)", "little-endian x86-64 build without ADA_USE_SIMDUTF"]
