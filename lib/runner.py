"""Runs one property's harnesses in parallel shards and decides from what their monitors and sanitizers reported."""
import glob, json, os, queue, re, shutil, signal, subprocess, sys, tempfile, threading, time
import vbuild

VERIF = vbuild.VERIF
DEADLINE = 780.0       # a check gets 900 s
ENV = {
    "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=1:detect_stack_use_after_return=0:handle_abort=1:strict_string_checks=0:max_allocation_size_mb=8000",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=77",
    "TSAN_OPTIONS": "halt_on_error=1:exitcode=66:second_deadlock_stack=1:history_size=4",
}


def known_findings():
    """Lines 'finding: property=<id> key=<key> <what fails>'; 'fixed: ...' lines suppress nothing."""
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", line.strip())
            if m:
                out.append(m.groups())
    return out


def crash_key(rc, err):
    kind, func = None, None
    m = re.search(r"ERROR: AddressSanitizer: ([\w-]+)", err)
    if m:
        kind = m.group(1)
    else:
        m = re.search(r"runtime error: ([^\n]+)", err)
        if m:
            kind = "ub-" + re.sub(r"[^a-z]+", "-", re.sub(r"'[^']*'", "", m.group(1).lower()))[:40].strip("-")
        else:
            m = re.search(r"WARNING: ThreadSanitizer: ([\w ()-]+?)(?: \(pid|\n)", err)
            if m:
                kind = "tsan-" + m.group(1).strip().replace(" ", "-")
    if kind is None:
        kind = "signal-%d" % -rc if rc < 0 else "exit-%d" % rc
    m = re.search(r"#\d+ 0x[0-9a-f]+ in (\S+) \S*/(?:source|headers)/\S+", err) or re.search(r"#\d+ (\S+) \S*/source/\S+", err)
    if m:
        func = m.group(1)
    return "sanitizer:%s:%s" % (kind, func or "?")


class Part:
    def __init__(self, harness, quick, thorough, variant="asan", mode="", timeout=60, shards=8, extra=(), env=None):
        self.__dict__.update(locals())

    def label(self):
        return self.harness + ("/" + self.mode if self.mode else "") + "@" + self.variant


class Result:
    def __init__(self):
        self.viol, self.stats, self.samples, self.hashes, self.errors = [], {}, [], set(), []


def launch(exe, part, seed, tier, first, count, work, tag, limit):
    """One harness process. Returns (rc or None on time-out, output lines, stderr, last case started)."""
    out, prog, err = (os.path.join(work, tag + s) for s in (".out", ".prog", ".err"))
    scratch = tempfile.mkdtemp(prefix="s", dir=work)
    for f in (out, prog):
        if os.path.exists(f):
            os.unlink(f)
    env = dict(os.environ)
    env.update(ENV)
    env.update(part.env or {})
    env["HOME"] = scratch
    env["TMPDIR"] = scratch
    cmd = [exe, "--seed", str(seed), "--first", str(first), "--count", str(count), "--tier", tier, "--mode", part.mode or "-",
           "--out", out, "--progress", prog, "--scratch", scratch]
    with open(err, "wb") as ef:
        p = subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=ef, stdin=subprocess.DEVNULL, env=env, cwd=work, start_new_session=True)
        last, since, rc = None, time.time(), None
        t0 = time.time()
        while True:
            try:
                rc = p.wait(0.25 if time.time() - t0 > 1 else 0.02)
                break
            except subprocess.TimeoutExpired:
                pass
            try:
                cur = open(prog).read()
            except OSError:
                cur = None
            if cur != last:
                last, since = cur, time.time()
            if time.time() - since > limit:
                os.killpg(p.pid, signal.SIGKILL)
                p.wait()
                rc = None
                break
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
    try:
        last = int(open(prog).read())
    except (OSError, ValueError):
        last = first
    lines = open(out, errors="replace").read().split("\n") if os.path.exists(out) else []
    e = open(err, errors="replace").read()
    for f in glob.glob("/dev/shm/sem.*-%d" % p.pid):
        try:
            os.unlink(f)
        except OSError:
            pass
    shutil.rmtree(scratch, ignore_errors=True)
    return rc, lines, e, last


def absorb(res, part, lines, lock):
    done = False
    with lock:
        for l in lines:
            f = l.split("\t")
            if f[0] == "VIOL" and len(f) >= 4:
                res.viol.append(dict(part=part, key=f[1], case=int(f[2]), msg=f[3], stderr=""))
            elif f[0] == "STAT" and len(f) >= 3:
                res.stats[f[1]] = res.stats.get(f[1], 0) + float(f[2])
            elif f[0] == "SAMPLE":
                res.samples.append(part.label() + ": " + f[1])
            elif f[0] == "HASH":
                res.hashes.add(part.label() + f[1])
            elif f[0] == "DONE":
                done = True
    return done


def run_property(prop, tier, seed):
    t0 = time.time()
    parts = prop["parts"]
    exes = {}
    for p in parts:
        exes[id(p)] = vbuild.harness(p.harness, p.variant, p.extra)
    work = tempfile.mkdtemp(prefix="rkv-")
    os.chmod(work, 0o711)
    res, lock, jobs = Result(), threading.Lock(), queue.Queue()
    try:
        items = []
        for p in parts:
            n = p.quick if tier == "quick" else p.thorough
            shards = max(1, min(p.shards if tier == "quick" else p.shards * 2, n))
            base = 0
            for k in range(shards):
                c = n // shards + (1 if k < n % shards else 0)
                items.append((p, base, c, k))
                base += c
        # interleave the parts, so that a slow one starts early
        items.sort(key=lambda x: x[3])
        for it in items:
            jobs.put(it)
        cut = []

        def worker():
            while True:
                try:
                    p, first, count, k = jobs.get_nowait()
                except queue.Empty:
                    return
                tag = "j%d-%d" % (id(p), k)
                end, crashes = first + count, 0
                while first < end:
                    if time.time() - t0 > DEADLINE or (len(res.viol) > 40):
                        cut.append((p.label(), first, end))
                        break
                    rc, lines, err, last = launch(exes[id(p)], p, seed, tier, first, end - first, work, tag, p.timeout)
                    done = absorb(res, p, lines, lock)
                    if rc == 0 and done:
                        break
                    if rc == 3:
                        with lock:
                            res.errors.append("%s: harness error: %s" % (p.label(), err[-600:]))
                        break
                    crashes += 1
                    key = "hang" if rc is None else crash_key(rc, err)
                    with lock:
                        res.viol.append(dict(part=p, key=key, case=last, msg="process ended with %s" % rc, stderr=err[-8000:]))
                        res.stats["cases"] = res.stats.get("cases", 0) + last - first
                    first = last + 1
                    if crashes >= 3:
                        cut.append((p.label(), first, end))
                        break
        ths = [threading.Thread(target=worker) for _ in range(prop.get("workers", 8))]
        [t.start() for t in ths]
        [t.join() for t in ths]

        # Deadlines and hangs are believed only when they happen again on the case alone
        confirmed = []
        seen = set()
        for v in res.viol:
            k = (v["key"], id(v["part"]))
            if v["key"].startswith("live:") or v["key"] == "hang" or v["key"] == "sanitizer:signal-9:?":
                if k in seen:
                    continue
                again = False
                if time.time() - t0 < 840:
                    rc, lines, err, _ = launch(exes[id(v["part"])], v["part"], seed, tier, v["case"], 1, work, "again", min(v["part"].timeout, 100))
                    r2 = Result()
                    absorb(r2, v["part"], lines, lock)
                    again = rc is None or rc != 0 or any(x["key"] == v["key"] for x in r2.viol)
                if not again:
                    res.stats["unconfirmed_deadlines"] = res.stats.get("unconfirmed_deadlines", 0) + 1
                    print("  unconfirmed %s %s case %d: %s" % (v["part"].label(), v["key"], v["case"], v["msg"][:200]))
                    continue
                v["confirmed"] = True
            seen.add(k)
            confirmed.append(v)
        res.viol = confirmed
    finally:
        shutil.rmtree(work, ignore_errors=True)
    res.cut = cut
    res.wall = time.time() - t0
    return res


def decide(pid, prop, tier, seed):
    t0 = time.time()
    try:
        res = run_property(prop, tier, seed)
    except vbuild.BuildError as e:
        print("BUILD ERROR\n%s" % e)
        return 2
    known = {(a, b): c for a, b, c in known_findings()}
    hit, fresh = {}, {}
    for v in res.viol:
        k = (pid, v["key"])
        (hit if k in known else fresh).setdefault(v["key"], []).append(v)
    for key in sorted(hit):
        print("KNOWN-FINDING: property=%s %s" % (pid, known[(pid, key)]))
    short = []
    for k, n in prop.get("need", {}).items():
        if res.stats.get(k, 0) < n:
            short.append("%s: observed %g, need %g" % (k, res.stats.get(k, 0), n))
    cov = dict(evaluations=int(res.stats.get("cases", 0)), distinct_nontrivial=len(res.hashes), rule=prop["rule"],
               samples=(res.samples[:: max(1, len(res.samples) // 8)][:10] or ["none"]),
               monitors={k: v for k, v in sorted(res.stats.items()) if k != "cases"},
               parts=[p.label() for p in prop["parts"]])
    if res.cut:
        cov["not_run"] = ["%s cases %d-%d" % c for c in res.cut]
    ev = dict(property=pid, tier=tier, seed=seed, level="exploration", coverage=cov, assumptions=prop.get("assume", []),
              wall_s=round(time.time() - t0, 2), violations=sum(len(v) for v in fresh.values()))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    if fresh:
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        for key in sorted(fresh)[:12]:
            v = fresh[key][0]
            p = v["part"]
            path = os.path.join(VERIF, "replays", "%s-%s.json" % (pid, re.sub(r"[^\w.-]+", "_", key)[:60]))
            with open(path, "w") as f:
                json.dump(dict(property=pid, key=key, harness=p.harness, variant=p.variant, mode=p.mode, seed=seed, tier=tier, case=v["case"],
                               message=v["msg"], occurrences=len(fresh[key]), stderr=v["stderr"],
                               replay="python3 check.py %s --replay %s" % (pid, path)), f, indent=1)
            print("  %s case %d: %s: %s" % (p.label(), v["case"], key, v["msg"][:600]))
            print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    if res.errors:
        print("CHECK ERROR: " + "; ".join(res.errors[:3]))
        return 2
    if short:
        print("CHECK ERROR: the monitors observed too little: " + "; ".join(short))
        return 2
    print("ok %s %s seed %d: %d cases, %d distinct, %.1f s" % (pid, tier, seed, cov["evaluations"], len(res.hashes), time.time() - t0))
    return 0


def replay(pid, prop, path):
    r = json.load(open(path))
    part = [p for p in prop["parts"] if p.harness == r["harness"] and p.mode == r["mode"] and p.variant == r["variant"]][0]
    exe = vbuild.harness(part.harness, part.variant, part.extra)
    work = tempfile.mkdtemp(prefix="rkv-")
    os.chmod(work, 0o711)
    try:
        rc, lines, err, _ = launch(exe, part, r["seed"], r["tier"], r["case"], 1, work, "r", part.timeout)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    print("\n".join(l for l in lines if not l.startswith("HASH")))
    print(err[-6000:])
    print("exit", rc)
    return 1 if rc != 0 or any(l.startswith("VIOL") for l in lines) else 0
