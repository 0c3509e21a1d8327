#!/usr/bin/env python3
"""Builds and runs the checks.  run.py setup | check Cxx [--tier T] | replay FILE | sweep ..."""
import argparse, concurrent.futures as cf, hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VP_REPO", "/repo")
BUILD = os.path.join(HERE, "build")
PROPS = os.path.join(HERE, "harness", "props")
SCL = os.path.join(REPO, "secure-computation-library")
JOBS = os.cpu_count() or 4

CXX = ["g++"]
BASE = ["-std=gnu++17", "-march=native", "-include", "cstdint", "-g1", "-pthread", "-w",
        "-I" + os.path.join(HERE, "harness"), "-I" + os.path.join(REPO, "src"), "-I" + os.path.join(SCL, "include")]
ASAN = ["-O1", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined",
        "-fno-sanitize=alignment,nonnull-attribute,vptr", "-fno-omit-frame-pointer"]
FLAVOURS = {
    "asan": ASAN,
    "align": ["-O1", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined",
              "-fno-sanitize=nonnull-attribute,vptr", "-fno-omit-frame-pointer"],
    "opt": ["-O2"],
    "tsan": ["-O1", "-fsanitize=thread"],
}
CLANG_FUZZ = ["-O1", "-fsanitize=fuzzer,address,undefined", "-fno-sanitize-recover=undefined",
              "-fno-sanitize=alignment,nonnull-attribute,vptr,function", "-DVP_FUZZ"]
SAN_ENV = {
    "ASAN_OPTIONS": "detect_leaks=0:detect_container_overflow=0:exitcode=88:allocator_may_return_null=1:"
                    "max_allocation_size_mb=4096:handle_abort=0:abort_on_error=0:detect_stack_use_after_return=0",
    "UBSAN_OPTIONS": "print_stacktrace=1:exitcode=88:halt_on_error=1",
    "TSAN_OPTIONS": "halt_on_error=1:exitcode=88:report_signal_unsafe=0:second_deadlock_stack=1:history_size=4:die_after_fork=0",
}


def header(pid):
    """Settings in the first lines of a property's source: // vp: key=value ..."""
    o = {"flavours": "asan", "workers": str(JOBS), "retries": "3", "case_timeout": "60", "budget": "22", "tbudget": "300"}
    with open(os.path.join(PROPS, pid + ".cc")) as f:
        for line in f:
            if line.startswith("// vp:"):
                for kv in line[6:].split():
                    k, v = kv.split("=", 1)
                    o[k] = v
    return o


def props():
    return sorted(f[:-3] for f in os.listdir(PROPS) if re.fullmatch(r"C\d+\.cc", f))


def repo_sources():
    out = []
    for root in (os.path.join(REPO, "src"), os.path.join(SCL, "src")):
        for d, _, fs in os.walk(root):
            out += [os.path.join(d, f) for f in fs if f.endswith(".cc")]
    return sorted(out)


class BuildError(Exception):
    pass


_locks = {}  # one per object, so that builds sharing a source do not compile it twice
_locks_lock = threading.Lock()


def compile_one(cc, flags, src, objdir):
    """Object for src, from a cache keyed by the preprocessed text and the command."""
    p = subprocess.run(cc + BASE + flags + ["-E", src], stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if p.returncode:
        raise BuildError(p.stderr.decode(errors="replace")[-6000:])
    text = p.stdout
    h = hashlib.sha256(("\0".join(cc + BASE + flags) + "\0" + cpu_id()).encode() + b"\0" + text).hexdigest()[:32]
    obj = os.path.join(objdir, h + ".o")
    with _locks_lock:
        lock = _locks.setdefault(obj, threading.Lock())
    with lock:
        if not os.path.exists(obj):
            tmp = obj + ".%d.%d.tmp" % (os.getpid(), threading.get_ident())
            p = subprocess.run(cc + BASE + flags + ["-c", src, "-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if p.returncode:
                raise BuildError(p.stdout.decode(errors="replace")[-6000:])
            os.replace(tmp, obj)
    return obj


_cpu = None


def cpu_id():
    global _cpu
    if _cpu is None:
        p = subprocess.run("echo | g++ -march=native -E -v - 2>&1 | grep cc1", shell=True, stdout=subprocess.PIPE)
        _cpu = hashlib.sha256(re.sub(rb"/tmp/\S+", b"", p.stdout)).hexdigest()
    return _cpu


def build(pid, flavour, pool=None):
    objdir = os.path.join(BUILD, "obj")
    bindir = os.path.join(BUILD, "bin")
    os.makedirs(objdir, exist_ok=True)
    os.makedirs(bindir, exist_ok=True)
    if flavour == "fuzz":
        cc, flags = ["clang++"], CLANG_FUZZ
    else:
        cc, flags = CXX, FLAVOURS[flavour]
    srcs = [os.path.join(PROPS, pid + ".cc"), os.path.join(HERE, "harness", "vp_main.cc")] + repo_sources()
    own = pool is None
    if own:
        pool = cf.ThreadPoolExecutor(JOBS)
    try:
        objs = list(pool.map(lambda s: compile_one(cc, flags, s, objdir), srcs))
    finally:
        if own:
            pool.shutdown()
    h = hashlib.sha256("\0".join(objs + cc + flags).encode()).hexdigest()[:16]
    exe = os.path.join(bindir, "%s-%s-%s" % (pid, flavour, h))
    if not os.path.exists(exe):
        libs = ["-pthread", "-ldl"] + ([] if flavour == "fuzz" else ["-lrapidcheck"])
        tmp = exe + ".%d.%d.tmp" % (os.getpid(), threading.get_ident())
        p = subprocess.run(cc + flags + objs + ["-o", tmp] + libs, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if p.returncode:
            raise BuildError(p.stdout.decode(errors="replace")[-6000:])
        os.replace(tmp, exe)
    return exe


def prune():
    """Keeps the cache from growing without bound."""
    for d, keep in (("obj", 1500), ("bin", 150)):
        p = os.path.join(BUILD, d)
        if not os.path.isdir(p):
            continue
        fs = []
        for f in os.listdir(p):
            try:
                fs.append((os.stat(os.path.join(p, f)).st_mtime, f))
            except OSError:
                pass
        for _, f in sorted(fs)[:-keep]:
            try:
                os.unlink(os.path.join(p, f))
            except OSError:
                pass


def env():
    e = dict(os.environ)
    e.update(SAN_ENV)
    return e


def run_proc(cmd, timeout, cwd=None):
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env(), cwd=cwd, start_new_session=True)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out.decode(errors="replace")
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        out, _ = p.communicate()
        return -999, out.decode(errors="replace")


def read_cur(path):
    import struct
    try:
        b = open(path, "rb").read()
        active, arm, n = struct.unpack_from("<QQQ", b, 0)
        return active, arm, list(struct.unpack_from("<%dQ" % n, b, 24))
    except Exception:
        return 0, 0, []


def known_findings(pid):
    out = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"KNOWN-FINDING: property=(\S+) ", line)
            if m and m.group(1) == pid:
                out.append(line.strip())
    return out


def check(pid, tier):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    h = header(pid)
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "exploration"}
    notes = []
    work = tempfile.mkdtemp(prefix="vp-%s-" % pid)
    os.chmod(work, 0o755)
    try:
        return check_in(pid, tier, seed, h, ev, notes, work, t0)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def check_in(pid, tier, seed, h, ev, notes, work, t0):
    flavours = h["flavours"].split(",")
    budget = float(h["budget"] if tier == "quick" else h["tbudget"])
    if os.environ.get("VP_BUDGET"):
        budget = float(os.environ["VP_BUDGET"])
    nw = int(h["workers"])
    ct = float(h["case_timeout"])
    exes = {}
    for f in flavours:
        exes[f] = build(pid, f)
    build_s = time.time() - t0
    names = [l.split()[0] for l in subprocess.run([exes[flavours[0]], "--list"], env=env(), stdout=subprocess.PIPE, text=True).stdout.splitlines()]
    jobs = []
    for f in flavours:
        b = budget / len(flavours)
        only = h.get("arms_" + f)
        batch = []
        for w in range(nw):
            d = os.path.join(work, "%s-%d" % (f, w))
            os.makedirs(d)
            cmd = [exes[f], "--seed", str(seed), "--worker", str(w), "--tier", tier, "--budget", str(b),
                   "--stats", d + "/stats", "--cur", d + "/cur", "--fail", d + "/fail", "--case-timeout", str(ct)]
            if only:
                cmd += ["--only", only]
            batch.append((f, w, d, cmd, b))
        jobs.append(batch)
    results = []
    bad = None
    for batch in jobs:
        with cf.ThreadPoolExecutor(len(batch)) as ex:
            rs = list(ex.map(lambda j: (j, run_proc(j[3], j[4] + ct + 60, j[2])), batch))
        results += rs
        fails = [(j, rc, out) for j, (rc, out) in rs if rc != 0]
        # an explicit oracle failure before a crash before a timeout
        fails.sort(key=lambda x: (0 if x[1] == 1 else 2 if x[1] in (77, -999) else 1, x[0][1]))
        for j, rc, out in fails:
            v = confirm(pid, tier, seed, j, rc, out, exes[j[0]], names, work, h, notes)
            if v:
                bad = v
                break
        if bad:
            break
    fuzz = None
    if not bad and tier == "thorough" and h.get("fuzz"):
        bad, fuzz = fuzz_stage(pid, seed, work, h, exes, float(h["fuzz"]), notes)
    # evidence
    arms, total, disc, samples, rule, keys = {}, 0, 0, [], "", set()
    incomplete = 0
    import array
    for (f, w, d, cmd, b), (rc, out) in results:
        try:
            s = json.load(open(d + "/stats"))
        except Exception:
            incomplete += 1
            continue
        total += s["total"]
        disc += s["discarded"]
        rule = s["rule"]
        for a, v in s["arms"].items():
            key = a if len(flavours) == 1 else f + ":" + a
            t = arms.setdefault(key, {"cases": 0, "discarded": 0, "nontrivial": 0, "not_run_time_cap": 0, "labels": {}})
            for k in ("cases", "discarded", "nontrivial", "not_run_time_cap"):
                t[k] += v[k]
            for l, c in v["labels"].items():
                t["labels"][l] = t["labels"].get(l, 0) + c
        if w == 0 and f == flavours[0]:
            samples = s["samples"]
        ka = array.array("Q")
        kb = open(d + "/stats.keys", "rb").read()
        ka.frombytes(kb)
        keys.update(ka)
    cov = {"evaluations": total, "distinct_nontrivial": len(keys), "rule": rule, "samples": samples[:12],
           "discarded": disc, "workers": nw, "flavours": flavours, "arms": arms, "build_s": round(build_s, 1),
           "sources_compiled": len(repo_sources())}
    if incomplete:
        cov["workers_without_statistics"] = incomplete
    if fuzz:
        cov["coverage_guided"] = fuzz
    if notes:
        cov["notes"] = notes
    kf = known_findings(pid)
    if kf:
        cov["known_findings"] = kf
    ev["coverage"] = cov
    ev["wall_s"] = round(time.time() - t0, 2)
    ev["violations"] = 1 if bad else 0
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    tmp = os.path.join(HERE, "evidence", pid + ".json.tmp")
    json.dump(ev, open(tmp, "w"), indent=1)
    os.replace(tmp, os.path.join(HERE, "evidence", pid + ".json"))
    prune()
    if bad:
        print(bad["text"])
        print("VIOLATION property=%s replay=%s" % (pid, bad["replay"]))
        return 1
    if total == 0 or incomplete:
        print("ERROR: %d workers gave no statistics\n%s" % (incomplete, "\n".join(notes)))
        return 3
    for l in kf:
        print(l)
    print("%s: held on %d cases (%d distinct non-trivial), %.0f s%s" % (pid, total, len(keys), ev["wall_s"], "; " + "; ".join(notes) if notes else ""))
    return 0


def replay_path(pid, tag):
    d = os.path.join(HERE, "replays", pid)
    os.makedirs(d, exist_ok=True)
    return os.path.join(d, tag + ".tape")


def confirm(pid, tier, seed, job, rc, out, exe, names, work, h, notes):
    f, w, d, cmd, b = job
    ct = float(h["case_timeout"])
    cand = os.path.join(d, "cand")
    if rc == 1 and os.path.exists(d + "/fail"):
        shutil.copy(d + "/fail", cand)
        kind = "oracle"
    else:
        active, ai, tape = read_cur(d + "/cur")
        kind = "timeout" if rc in (77, -999) else "crash"
        if not active or ai >= len(names):
            notes.append("worker %s/%d ended with %d outside a case: %s" % (f, w, rc, out[-1500:]))
            return None
        with open(cand, "w") as fo:
            fo.write("arm %s\ntape %s\n" % (names[ai], " ".join(map(str, tape))))
    tries = int(h["retries"])
    if kind == "timeout":
        # only a reproducible lack of progress counts, with the machine otherwise quiet
        for _ in range(3):
            r, o = run_proc([exe, "--replay", cand, "--case-timeout", str(ct)], ct + 30)
            if r == 0:
                notes.append("a case ran into the time limit but passes when replayed: inconclusive, not counted (%s worker %d)" % (f, w))
                # the worker's remaining cases were not run; run it again without that excuse
                r2, o2 = run_proc(cmd, b + 2 * ct + 60, d)
                if r2 == 0:
                    return None
                if r2 in (77, -999):
                    notes.append("again out of time in worker %d" % w)
                    return None
                return confirm(pid, tier, seed, job, r2, o2, exe, names, work, h, notes)
    hits, last, i = 0, "", 2
    if kind == "timeout":
        hits, last = 3, "no progress within %g s" % ct
    n = max(3, tries)
    for i in range(n if not hits else 0):
        r, o = run_proc([exe, "--replay", cand, "--case-timeout", str(ct)], ct + 30)
        if r != 0:
            hits += 1
            last = o
            if hits >= 3:
                break
        elif i >= 2 and hits == 0 and i + 1 >= tries:
            break
    text = "[%s] %s failure in worker %d, replay fails %d of %d times\n%s" % (pid, kind, w, hits, i + 1, (last or out)[-3000:])
    final = replay_path(pid, "%s-%s-seed%d-w%d" % (tier, f, seed, w))
    if hits:
        shr = os.path.join(d, "shrunk")
        sb = 25 if tier == "quick" else 120
        r, o = run_proc([exe, "--shrink", cand, "--out", shr, "--budget", str(sb), "--case-timeout", str(min(ct, 20))], sb + 100)
        use = cand
        if r == 0 and os.path.exists(shr):
            r2, o2 = run_proc([exe, "--replay", shr, "--case-timeout", str(ct)], ct + 30)
            if r2 != 0:
                use = shr
                text = "[%s] %s failure (flavour %s)\n%s\n%s" % (pid, kind, f, o.strip()[-1500:], o2.strip()[-3000:])
        body = open(use).read()
        with open(final, "w") as fo:
            fo.write("property %s flavour %s\n" % (pid, f) + body)
        return {"text": text, "replay": final}
    # does not fail on its own: depends on earlier cases (state kept by the code) or on scheduling
    for _ in range(2):
        r, o = run_proc(cmd, b + 2 * ct + 60, d)
        if r not in (0, 77, -999):
            with open(final, "w") as fo:
                fo.write("property %s flavour %s\nworker %s\n# not reproduced by the single case below; re-runs the worker\n" % (pid, f, " ".join(cmd[1:])) + open(cand).read())
            return {"text": text + "\n(reproduced by re-running the worker)\n" + o[-2000:], "replay": final}
    if kind == "oracle" and h.get("trust_oracle") == "1":
        with open(final, "w") as fo:
            fo.write("property %s flavour %s\n# observed once; schedule dependent\n" % (pid, f) + open(cand).read())
        return {"text": text, "replay": final}
    notes.append("a %s failure did not reproduce: %s" % (kind, out[-1500:]))
    return None


def fuzz_stage(pid, seed, work, h, exes, secs, notes):
    try:
        exe = build(pid, "fuzz")
    except BuildError as e:
        notes.append("libFuzzer build failed: " + str(e)[-500:])
        return None, None
    procs = []
    for w in range(JOBS):
        d = os.path.join(work, "fuzz-%d" % w)
        os.makedirs(d + "/corpus")
        if w % 2:
            # small seeds: all-zero, ascending and repeated words
            for i, b in enumerate([bytes(20), bytes(range(64)), bytes([i % 7 for i in range(200)])]):
                for sel in range(8):
                    open(d + "/corpus/s%d-%d" % (i, sel), "wb").write(bytes([sel]) + b)
        e = env()
        e["VP_FUZZ_FAIL"] = d + "/fail"
        e["ASAN_OPTIONS"] = e["ASAN_OPTIONS"].replace("handle_abort=0", "handle_abort=1")
        procs.append((d, subprocess.Popen([exe, d + "/corpus", "-seed=%d" % (seed * 100 + w + 1), "-max_total_time=%d" % int(secs), "-max_len=2048",
                                           "-timeout=60", "-rss_limit_mb=3000", "-artifact_prefix=" + d + "/", "-print_final_stats=1"],
                                          stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=e, cwd=d)))
    execs, cov, bad = 0, 0, None
    for d, p in procs:
        try:
            out = p.communicate(timeout=secs + 180)[0].decode(errors="replace")
        except subprocess.TimeoutExpired:
            p.kill()
            p.communicate()
            notes.append("a fuzzer did not stop")
            continue
        m = re.search(r"number_of_executed_units:\s*(\d+)", out)
        if m:
            execs += int(m.group(1))
        for m in re.finditer(r"cov: (\d+)", out):
            cov = max(cov, int(m.group(1)))
        if p.returncode != 0 and not bad:
            if os.path.exists(d + "/fail"):
                arm, ok = None, 0
                f = exes.get("asan") or list(exes.values())[0]
                for _ in range(3):
                    r, o = run_proc([f, "--replay", d + "/fail"], 90)
                    ok += r != 0
                if ok == 3:
                    final = replay_path(pid, "fuzz-seed%d" % seed)
                    shr = d + "/shrunk"
                    run_proc([f, "--shrink", d + "/fail", "--out", shr, "--budget", "60"], 200)
                    body = open(shr if os.path.exists(shr) else d + "/fail").read()
                    open(final, "w").write("property %s flavour asan\n" % pid + body)
                    bad = {"text": "[%s] found by libFuzzer\n%s" % (pid, o[-3000:]), "replay": final}
                    continue
            arts = [x for x in os.listdir(d) if x.startswith(("crash-", "timeout-", "oom-"))]
            arts = [x for x in arts if not x.startswith("timeout-") and not x.startswith("oom-")]
            if arts:
                a = os.path.join(d, arts[0])
                n = sum(subprocess.run([exe, a], env=env(), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode != 0 for _ in range(3))
                if n == 3:
                    final = os.path.join(HERE, "replays", pid, arts[0])
                    os.makedirs(os.path.dirname(final), exist_ok=True)
                    shutil.copy(a, final)
                    bad = {"text": "[%s] crash found by libFuzzer\n%s" % (pid, out[-3000:]), "replay": final}
            else:
                notes.append("fuzzer ended with %s: %s" % (p.returncode, out[-400:]))
    return bad, {"engine": "libFuzzer", "executions": execs, "edges_covered_max": cov, "seconds": secs, "processes": JOBS}


def replay(path):
    txt = open(path, "rb").read()
    m = re.match(rb"property (\S+) flavour (\S+)", txt)
    if not m:
        pid = os.path.basename(os.path.dirname(os.path.abspath(path)))
        return subprocess.run([build(pid, "fuzz"), path], env=env()).returncode
    pid, f = m.group(1).decode(), m.group(2).decode()
    exe = build(pid, f)
    m = re.search(rb"^worker (.*)$", txt, re.M)
    if m:
        a = m.group(1).decode().split()
        for k in ("--stats", "--cur", "--fail"):
            if k in a:
                i = a.index(k)
                del a[i:i + 2]
        return subprocess.run([exe] + a, env=env()).returncode
    return subprocess.run([exe, "--replay", path], env=env()).returncode


def setup():
    t0 = time.time()
    errs = 0
    jobs = [(p, f) for p in props() for f in header(p)["flavours"].split(",")]
    with cf.ThreadPoolExecutor(JOBS) as pool:
        # shared objects first, then one property after another
        def one(j):
            try:
                build(j[0], j[1])
                return None
            except BuildError as e:
                return "%s/%s: %s" % (j[0], j[1], e)
        for f in sorted({f for _, f in jobs}):
            srcs = [os.path.join(HERE, "harness", "vp_main.cc")] + repo_sources()
            list(pool.map(lambda s: compile_one(CXX, FLAVOURS[f], s, mk(os.path.join(BUILD, "obj"))), srcs))
    with cf.ThreadPoolExecutor(JOBS) as outer:
        for r in outer.map(one, jobs):
            if r:
                errs += 1
                print(r)
    print("setup: %d binaries, %.0f s" % (len(jobs) - errs, time.time() - t0))
    return 1 if errs else 0


def mk(d):
    os.makedirs(d, exist_ok=True)
    return d


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("cmd", choices=["setup", "check", "replay", "build"])
    ap.add_argument("arg", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    a = ap.parse_args()
    try:
        if a.cmd == "setup":
            sys.exit(setup())
        if a.cmd == "build":
            for f in header(a.arg)["flavours"].split(","):
                print(build(a.arg, f))
            return
        if a.cmd == "replay":
            sys.exit(replay(a.arg))
        sys.exit(check(a.arg, a.tier))
    except BuildError as e:
        print("BUILD ERROR (no verdict)\n" + str(e))
        sys.exit(3)


if __name__ == "__main__":
    main()
