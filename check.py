#!/usr/bin/env python3
"""Driver of the deterministic simulator.

  check.py PROP [quick|thorough]    decide one property on /repo's working tree
  check.py replay FILE [-v]         run a replay file again (exit 1: the violation is reproduced)
  check.py build                    build only

Exit 0: held on everything explored. Exit 1: VIOLATION line. Exit 2: the check itself could not give an answer.
"""
import concurrent.futures as cf
import fcntl, glob, hashlib, json, mmap, os, re, shutil, signal, struct, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
SIM = os.path.join(HERE, "sim")
BUILD = os.path.join(HERE, "build")
REPLAYS = os.path.join(HERE, "replays")
EVIDENCE = os.path.join(HERE, "evidence")
NCPU = max(2, min(8, os.cpu_count() or 2))

CXX = "clang++"
INC = [f"-I{REPO}/Code", f"-I{REPO}/Code/Terathon", f"-I{REPO}/Code/Json4C4", f"-I{SIM}"]
HFLAGS = ["-std=c++17", "-O2", "-g1"]
LFLAGS = ["-std=c++17", "-g1", "-w", "-fno-omit-frame-pointer", "-ftrivial-auto-var-init=pattern"]
# the thread variant forks a fresh process per run: without AddressSanitizer that is ten times cheaper
# and without optimisation every access of the source text is a yield point, none is merged or moved
# the win variant compiles the library as for Windows, against sim/win/windows.h and the simulated Win32 calls of sim/win32.cpp
SAN = {"base": ["-O1", "-fsanitize=address"], "thr": ["-O0"], "win": ["-O1", "-fsanitize=address"]}
COV = {"base": ["-fsanitize-coverage=trace-pc-guard"], "win": ["-fsanitize-coverage=trace-pc-guard", "-DWIN32", f"-I{SIM}/win"], "thr": ["-fsanitize-coverage=trace-pc-guard,trace-loads,trace-stores", "-DSIM_THREADS=1"]}
HARNESS = ["world", "interpose", "alloc", "ref", "plan", "exec", "gen", "cov", "locale", "threads", "main"]
LIBSIDE = ["adapter", "types1", "types2", "types3", "types4", "types5", "types6", "types7", "containers"]
# name -> (definition, character set)
LOCALES = {"de_DE": ("de_DE", "UTF-8"), "fr_FR": ("fr_FR", "UTF-8"), "ps_AF": ("ps_AF", "UTF-8"), "tr_TR": ("tr_TR", "UTF-8"),
           "de_DE.ISO-8859-1": ("de_DE", "ISO-8859-1"), "tr_TR.ISO-8859-9": ("tr_TR", "ISO-8859-9"), "ru_RU.KOI8-R": ("ru_RU", "KOI8-R"), "zh_CN.GB18030": ("zh_CN", "GB18030")}

# search seconds per tier; phases = fault placements tried per history
QUICK_S, THOROUGH_S = 75, 900
PHASES = {"quick": 5, "thorough": 12}


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def digest(paths, extra=""):
    h = hashlib.sha256(extra.encode())
    for p in sorted(paths):
        h.update(p.encode() + b"\0")
        with open(p, "rb") as f:
            h.update(f.read())
    return h.hexdigest()[:16]


def build(variant):
    """Builds the simulator with the library from /repo's working tree; returns the path of the binary."""
    os.makedirs(BUILD, exist_ok=True)
    lock = open(os.path.join(BUILD, ".lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    srcs = sorted(glob.glob(f"{REPO}/Code/Json4C4/*.cpp") + glob.glob(f"{REPO}/Code/Terathon/*.cpp"))
    hdrs = sorted(glob.glob(f"{REPO}/Code/Json4C4/*.h") + glob.glob(f"{REPO}/Code/Terathon/*.h"))
    sim = sorted(glob.glob(f"{SIM}/*.cpp") + glob.glob(f"{SIM}/*.h") + glob.glob(f"{SIM}/win/*.h"))
    # a build is reused only when every byte of every source, header and flag is the same
    tag = digest(srcs + hdrs + sim, " ".join(HFLAGS + LFLAGS + SAN[variant] + COV[variant]) + variant)
    out = os.path.join(BUILD, f"{variant}-{tag}")
    exe = os.path.join(out, "sim")
    if os.path.exists(exe):
        return exe, 0.0
    t0 = time.time()
    for old in glob.glob(os.path.join(BUILD, f"{variant}-*")):
        if time.time() - os.path.getmtime(old) > 900:
            shutil.rmtree(old, ignore_errors=True)
    tmp = out + ".tmp"
    shutil.rmtree(tmp, ignore_errors=True)
    os.makedirs(tmp)
    jobs = []
    for f in LIBSIDE:
        jobs.append((6, [CXX, *LFLAGS, *SAN[variant], *COV[variant], *INC, "-c", f"{SIM}/{f}.cpp", "-o", f"{tmp}/{f}.o"]))
    for f in srcs:
        b = "lib_" + os.path.basename(f)[:-4]
        w = ["-fshort-wchar"] if variant == "win" else []
        jobs.append((5, [CXX, *LFLAGS, *w, *SAN[variant], *COV[variant], *INC, "-c", f, "-o", f"{tmp}/{b}.o"]))
    for f in HARNESS + (["win32"] if variant == "win" else []):
        x = ["-DSIM_THREADS=1"] if variant == "thr" else []
        jobs.append((7 if f in ("exec", "gen") else 3, [CXX, *HFLAGS, *x, f"-I{SIM}", "-c", f"{SIM}/{f}.cpp", "-o", f"{tmp}/{f}.o"]))
    jobs.sort(key=lambda j: -j[0])
    bad = []
    with cf.ThreadPoolExecutor(NCPU) as ex:
        for (w, cmd), r in zip(jobs, ex.map(lambda j: sh(j[1]), jobs)):
            if r.returncode:
                bad.append(" ".join(cmd[-3:]) + "\n" + r.stdout[:3000])
    if bad:
        print("BUILD FAILED\n" + "\n".join(bad))
        sys.exit(2)
    r = sh([CXX, *SAN[variant], *sorted(glob.glob(f"{tmp}/*.o")), "-o", f"{tmp}/sim", "-lpthread"])
    if r.returncode:
        print("LINK FAILED\n" + r.stdout[:3000])
        sys.exit(2)
    for o in glob.glob(f"{tmp}/*.o"):
        os.unlink(o)
    shutil.rmtree(out, ignore_errors=True)
    os.rename(tmp, out)
    return exe, time.time() - t0


def variant_of(prop):
    return {"C11": "thr", "C18": "win"}.get(prop, "base")


def locales():
    d = os.path.join(BUILD, "locale")
    os.makedirs(d, exist_ok=True)
    def one(l):
        if not os.path.exists(f"{d}/{l}/LC_NUMERIC"):
            sh(["localedef", "-c", "-i", LOCALES[l][0], "-f", LOCALES[l][1], "--no-archive", f"{d}/{l}"])
        return os.path.exists(f"{d}/{l}/LC_NUMERIC")
    with cf.ThreadPoolExecutor(8) as ex:
        ok = list(ex.map(one, list(LOCALES)))
    return d, ok


def env(locdir):
    e = dict(os.environ)
    for k in ("ASAN_OPTIONS", "LD_PRELOAD", "SIM_PROP", "SIM_EXEC", "LC_ALL", "LANG", "LC_NUMERIC"):
        e.pop(k, None)
    e["SIM_LOCPATH"] = locdir
    return e


def classify(rc, out, err):
    """(class, detail) of what a simulator process reported, or None."""
    if rc in (1, 10):
        m = re.search(r"^VIOL (?:C\d+ \d+ \d+ )?(\S+)(?: op=-?\d+)? \| (.*)$", out, re.M)
        if m:
            return m.group(1), m.group(2)
    if rc == 77:
        m = re.search(r"^FATAL (\S+) (.*)$", err, re.M)
        return (m.group(1), m.group(2)) if m else ("fatal", "")
    if rc == 78 or rc < 0 or rc in (128 + 6, 128 + 11):
        m = re.search(r"(?:SUMMARY|ERROR): (.*)$", err, re.M)
        # addresses and process numbers (the sender of an abort signal) differ between executions
        return "crash", (re.sub(r"0x[0-9a-f]+", "0x?", m.group(1)) if m else f"exit status {rc}")
    return None


def replay_once(exe, e, prop, path, verbose=False):
    e = dict(e, SIM_PROP=prop)
    p = subprocess.run([exe, "replay", path] + (["-v"] if verbose else []), env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace")
    m = re.search(r"^HASH (\w+)", p.stdout, re.M)
    return classify(p.returncode, p.stdout, p.stderr), (m.group(1) if m else ""), p


def run_batch(exe, e, prop, seed, start, stride, idx, phases, tmp):
    """Runs the histories start, start+stride, ... idx in one process and reports the class."""
    n = (idx - start) // stride + 1
    p = subprocess.run([exe, "run", prop, str(seed), str(start), str(stride), "600", str(n * (phases + 2)), str(phases), tmp + ".st", tmp + ".stats", tmp + ".h"],
                       env=dict(e, SIM_LASTIDX=str(idx)), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace")
    return classify(p.returncode, p.stdout, p.stderr)


def status(path):
    try:
        with open(path, "rb") as f:
            return struct.unpack("<3Q", f.read(24))
    except Exception:
        return (0, 0, 0)


def known(prop):
    """Listed findings: lines `KNOWN-FINDING: property=<id> class=<class> match="<regex on detail>" <text>`."""
    res = []
    try:
        for l in open(os.path.join(HERE, "KNOWN_FINDINGS.txt")):
            m = re.match(r'finding: property=(\S+) class=(\S+) match="(.*?)" (.*)', l)
            if m and m.group(1) == prop:
                res.append((m.group(2), re.compile(m.group(3)), m.group(4)))
    except FileNotFoundError:
        pass
    return res


def check(prop, tier):
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    t_start = time.time()
    variant = variant_of(prop)
    exe, t_build = build(variant)
    locdir, locok = locales()
    if prop == "C12" and not any(locok):
        print("no locale could be made: localedef failed")
        return 2
    e = env(locdir)
    work = os.path.join(BUILD, f"run-{prop}-{os.getpid()}")
    os.makedirs(work, exist_ok=True)
    secs = float(os.environ.get("VERIF_SECONDS", QUICK_S if tier == "quick" else THOROUGH_S))
    phases = PHASES[tier]
    base = 0 if tier == "quick" else 1_000_000_000   # the two tiers explore different histories
    findings = known(prop)
    for _, _, text in findings:
        print(f"KNOWN-FINDING: property={prop} {text}")

    t_search = time.time()
    procs = []
    gen = [0] * NCPU
    def launch(i, start, left):
        f = os.path.join(work, f"w{i}.{gen[i]}")
        gen[i] += 1
        out = open(f + ".out", "w")
        err = open(f + ".err", "w")
        p = subprocess.Popen([exe, "run", prop, str(seed), str(start), str(NCPU), f"{left:.1f}", "0", str(phases), f + ".st", f + ".stats", f + ".h"], env=e, stdout=out, stderr=err)
        procs.append([p, i, f, start, False])
    for i in range(NCPU):
        launch(i, base + i, secs)

    violation = None
    errors, unreproduced, skipped = [], [], []
    deadline = t_search + secs + 240
    while violation is None:
        alive = False
        for rec in procs:
            p, i, f, start, seen = rec
            if seen:
                continue
            rc = p.poll()
            if rc is None:
                alive = True
                continue
            rec[4] = True
            if rc == 0:
                continue
            out, err = open(f + ".out").read(), open(f + ".err", errors="replace").read()
            c = classify(rc, out, err)
            st = status(f + ".st")
            idx, ph = st[1], st[2]
            m = re.search(r"^VIOL \S+ (\d+) (\d+) ", out, re.M)
            if rc == 10 and m:
                idx, ph = int(m.group(1)), int(m.group(2))
            if c is None:
                errors.append(f"worker {i} ended with {rc}: {err[-500:]}")
                continue
            hit = [t for (k, rx, t) in findings if k == c[0] and rx.search(c[1])]
            if hit:
                left = t_search + secs - time.time()
                skipped.append((idx, ph, c[0]))
                if left > 0.5:
                    launch(i, idx + NCPU, left)
                    alive = True
                continue
            v = confirm(exe, e, prop, seed, start, idx, ph, phases, c, work)
            if v:
                violation = v
                break
            unreproduced.append(f"{c[0]} at index {idx} phase {ph}: {c[1]}")
        if violation or not alive:
            break
        if time.time() > deadline:
            errors.append("workers did not end in time")
            break
        time.sleep(0.05)
    for rec in procs:
        if rec[0].poll() is None:
            rec[0].kill()
            rec[0].wait()
    wall_search = time.time() - t_search

    # ---- evidence
    tot, hashes, edges, per = {}, set(), 0, []
    for rec in procs:
        try:
            s = json.load(open(rec[2] + ".stats"))
        except Exception:
            continue
        per.append(s)
        for k, x in s.items():
            if isinstance(x, dict):
                d = tot.setdefault(k, {})
                for a, b in x.items():
                    d[a] = d.get(a, 0) + b
            elif k == "edges":
                edges = max(edges, x)
            elif k != "seconds":
                tot[k] = tot.get(k, 0) + x
        try:
            raw = open(rec[2] + ".h", "rb").read()
            hashes.update(struct.unpack(f"<{len(raw)//8}Q", raw))
        except Exception:
            pass
    samples = []
    for k in range(6):
        if len(samples) >= 3:
            break
        r = subprocess.run([exe, "plan", prop, str(seed), str(base + k), "1"], env=e, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, errors="replace")
        if r.returncode == 0 and r.stdout:
            samples.append({"seed": seed, "index": base + k, "phase": 1, "plan": [l[:220] for l in r.stdout.splitlines()[:14]]})
    runs = tot.get("runs", 0)
    cov = {
        "evaluations": runs,
        "distinct_nontrivial": len(hashes),
        "rule": "One evaluation is one simulated run: a seeded history of library calls, executed once without faults and then with seeded fault placements on the calls, system calls, allocations or thread switches it was seen to make. Non-trivial: at least one library call ran. Distinct: different hash over the complete event log (calls, arguments, results, every simulated system call, allocation, fault and environment event).",
        "samples": samples,
        "histories": tot.get("plans", 0),
        "runs_with_a_fault_that_fired": tot.get("faulty_runs", 0),
        "runs_per_hour": int(runs / wall_search * 3600) if wall_search > 0 else 0,
        "seeds_per_hour": int(tot.get("plans", 0) / wall_search * 3600) if wall_search > 0 else 0,
        "seeds": {"base_seed": seed, "history_indices": [base, base + (max([p.get("plans", 0) for p in per] or [0])) * NCPU], "phases": phases},
        "simulated_time": {"library_calls": tot.get("ops", 0), "computation_steps": tot.get("steps", 0), "system_calls_and_allocations": tot.get("calls", {})},
        "faults_injected": tot.get("faults", {}),
        "environment_events": {"stored_bytes_damaged": tot.get("damage", 0), "process_crashes": tot.get("crashes", 0), "restarts": tot.get("restarts", 0), "locale_changes": tot.get("locales", 0), "thread_switches": tot.get("switches", 0)},
        "call_results": {"ok": tot.get("oks", 0), "failed": tot.get("fails", 0)},
        "distinct_measure": "distinct event-log hashes; library basic-block edges reached: %d" % edges,
        "real_components": ["Code/Json4C4/*.cpp and *.h, Code/Terathon/*.cpp and *.h compiled from /repo's working tree with AddressSanitizer", "libstdc++ and libc string, number and locale functions"],
        "stub_components": ["file system and descriptors (in memory, behind open/read/write/fstat/close and the stdio functions)", "operator new/delete and malloc failure decisions", "process crash (copy of the durable state)"] + (["thread scheduler (cooperative, one thread runs at a time)"] if prop == "C11" else []) + (["Win32 file functions (sim/win32.cpp, on the simulated file system)"] if prop == "C18" else []),
        "other_property_classes_seen": tot.get("other", {}),
        "unreproduced": unreproduced,
        "known_finding_hits": len(skipped),
        "build_seconds": round(t_build, 1),
        "search_seconds": round(wall_search, 1),
        "workers": NCPU,
    }
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
        "assumptions": ["Violations outside the explored histories and fault placements are not excluded: this is a seeded search, not an enumeration.",
                        "The reference model (sim/ref.cpp) and the simulated file system represent RFC 8259 and POSIX semantics.",
                        ("Windows branch of the library compiled on Linux with 16-bit wchar_t; the simulated Win32 functions represent the documented ones." if prop == "C18" else
                         "Linux stand-alone configuration with std support, clang 18, 64-bit.")],
        "wall_s": round(time.time() - t_start, 1), "violations": 1 if violation else 0,
    }
    os.makedirs(EVIDENCE, exist_ok=True)
    with open(os.path.join(EVIDENCE, f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1)
    shutil.rmtree(work, ignore_errors=True)
    print(f"{prop} {tier} seed={seed}: {runs} runs, {len(hashes)} distinct, {cov['runs_with_a_fault_that_fired']} with faults, {wall_search:.0f} s search, {t_build:.0f} s build")
    if violation:
        cls, detail, path = violation
        print(f"violated: {cls}: {detail}")
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    if errors or unreproduced:
        print("CHECK ERROR: " + "; ".join(errors + ["not reproducible: " + u for u in unreproduced]))
        return 2
    if runs == 0:
        print("CHECK ERROR: nothing was run")
        return 2
    return 0


def confirm(exe, e, prop, seed, start, idx, ph, phases, c, work):
    """Gate: a violation counts when fresh processes replay it twice with the same class and event hash. Returns (class, detail, file)."""
    os.makedirs(REPLAYS, exist_ok=True)
    name = f"{prop}-s{seed}-i{idx}-p{ph}.plan"
    raw, mini, final = os.path.join(work, "raw.plan"), os.path.join(work, "min.plan"), os.path.join(REPLAYS, name)
    r = subprocess.run([exe, "plan", prop, str(seed), str(idx), str(ph)], env=e, stdout=open(raw, "w"), stderr=subprocess.DEVNULL)
    def twice(path):
        a, ha, _ = replay_once(exe, e, prop, path)
        b, hb, _ = replay_once(exe, e, prop, path)
        return (a, ha) if a and b and a == b and ha == hb else (None, "")
    if r.returncode == 0:
        got, h = twice(raw)
        if got:
            subprocess.run([exe, "minimise", prop, got[0], raw, mini, "25"], env=e, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            use = raw
            if os.path.exists(mini):
                g2, h2 = twice(mini)
                if g2 and g2[0] == got[0]:
                    use, got, h = mini, g2, h2
            with open(final, "w") as f:
                f.write(f"# property={prop} class={got[0]} seed={seed} index={idx} phase={ph} hash={h}\n# {got[1]}\n")
                f.write(open(use).read())
            return got[0], got[1], final
    # state carried over from earlier histories of the same process: replay the shortest tail of the worker's sequence
    n = 1
    while True:
        s = max(start, idx - n * NCPU)
        a = run_batch(exe, e, prop, seed, s, NCPU, idx, phases, os.path.join(work, "batch"))
        if a:
            b = run_batch(exe, e, prop, seed, s, NCPU, idx, phases, os.path.join(work, "batch"))
            if a == b:
                with open(final, "w") as f:
                    f.write(f"# property={prop} class={a[0]} seed={seed} index={idx}\n# {a[1]}\n# batch seed={seed} start={s} stride={NCPU} last={idx} phases={phases}\n")
                return a[0], a[1], final
        if s == start or n > 4096:
            return None
        n *= 4


def replay(path, verbose):
    text = open(path).read()
    prop = re.search(r"# property=(\S+)", text).group(1)
    exe, _ = build(variant_of(prop))
    e = env(locales()[0])
    m = re.search(r"# batch seed=(\d+) start=(\d+) stride=(\d+) last=(\d+) phases=(\d+)", text)
    if m:
        sd, st, sr, la, ph = map(int, m.groups())
        tmp = os.path.join(BUILD, f"replay-{os.getpid()}")
        c = run_batch(exe, e, prop, sd, st, sr, la, ph, tmp)
        for x in glob.glob(tmp + ".*"):
            os.unlink(x)
    else:
        c, h, p = replay_once(exe, e, prop, path, verbose)
        sys.stdout.write(p.stdout)
        sys.stdout.write(p.stderr[-4000:])
    if c:
        print(f"violated: {c[0]}: {c[1]}")
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    print("not violated")
    return 0


def main():
    a = sys.argv[1:]
    if a and a[0] == "build":
        for v in ("base", "thr", "win"):
            build(v)
        locales()
        return 0
    if a and a[0] == "replay":
        return replay(a[1], "-v" in a)
    tier = a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick")
    return check(a[0], "thorough" if tier == "thorough" else "quick")


if __name__ == "__main__":
    sys.exit(main())
