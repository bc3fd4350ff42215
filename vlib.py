"""Building, running and reporting for the solver-based checks."""
import fcntl, hashlib, json, os, re, shutil, subprocess, sys, threading, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
BUILD = os.path.join(VERIF, "build")
TARGET = os.path.join(BUILD, "target")
RSYM = os.path.join(BUILD, "rsym", "release", "rsym")
HARNESS = os.path.join(VERIF, "harness")
CORES = 8


def env():
    e = dict(os.environ)
    e.update(
        CARGO_NET_OFFLINE="true",
        CARGO_TARGET_DIR=TARGET,
        RUSTC_WRAPPER=os.path.join(HARNESS, "rustc-wrap.sh"),
        RUSTFLAGS="-C no-vectorize-loops -C no-vectorize-slp --cfg image_verif -A warnings",
        CARGO_TERM_COLOR="never",
    )
    for k in ("CARGO_BUILD_RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "RUSTC_WORKSPACE_WRAPPER"):
        e.pop(k, None)
    return e


def repo_hash():
    h = hashlib.sha256()
    files = [os.path.join(REPO, "Cargo.toml")]
    for d, dn, fn in os.walk(os.path.join(REPO, "src")):
        dn.sort()
        files += [os.path.join(d, f) for f in sorted(fn)]
    for f in files:
        h.update(f.encode())
        with open(f, "rb") as fh:
            h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()


def tree_hash(d):
    h = hashlib.sha256()
    for r, dn, fn in os.walk(d):
        dn[:] = sorted(x for x in dn if x != "target")
        for f in sorted(fn):
            p = os.path.join(r, f)
            h.update(p.encode())
            with open(p, "rb") as fh:
                h.update(fh.read())
    return h.hexdigest()


class Lock:
    def __enter__(self):
        os.makedirs(BUILD, exist_ok=True)
        self.f = open(os.path.join(BUILD, "lock"), "w")
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


def sh(cmd, what, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode != 0:
        print(f"BUILD-ERROR in {what}:\n{r.stdout[-6000:]}")
        sys.exit(2)
    return r.stdout


def build_rsym():
    e = env()
    e["CARGO_TARGET_DIR"] = os.path.join(BUILD, "rsym")
    e.pop("RUSTC_WRAPPER")
    e.pop("RUSTFLAGS")
    src = os.path.join(VERIF, "rsym")
    h = tree_hash(src)
    stamp = os.path.join(BUILD, "rsym.stamp")
    if os.path.exists(RSYM) and os.path.exists(stamp) and open(stamp).read() == h:
        return
    sh(["cargo", "build", "--release", "--offline"], "rsym", cwd=src, env=e)
    open(stamp, "w").write(h)


def build(bins):
    """Build harness executables (and their IR) from /repo's current tree."""
    with Lock():
        build_rsym()
        os.makedirs(TARGET, exist_ok=True)
        h = repo_hash() + tree_hash(os.path.join(HARNESS, "src"))
        stamp = os.path.join(BUILD, "repo.stamp")
        old = open(stamp).read() if os.path.exists(stamp) else ""
        if old != h:
            # never trust file times for the code under test
            fp = os.path.join(TARGET, "release", ".fingerprint")
            if os.path.isdir(fp):
                for d in os.listdir(fp):
                    if d.startswith("image-") and not d.startswith("image-webp") or d.startswith("hx-"):
                        shutil.rmtree(os.path.join(fp, d))
            deps = os.path.join(TARGET, "release", "deps")
            if os.path.isdir(deps):
                for f in os.listdir(deps):
                    if f.endswith(".ll"):
                        os.unlink(os.path.join(deps, f))
            open(stamp, "w").write(h)
        cmd = ["cargo", "build", "--release", "--offline"]
        for b in bins:
            cmd += ["--bin", b]
        sh(cmd, "harness " + " ".join(bins), cwd=HARNESS, env=env())


def ir_of(b):
    deps = os.path.join(TARGET, "release", "deps")
    c = [f for f in os.listdir(deps) if re.fullmatch(re.escape(b) + r"-[0-9a-f]+\.ll", f)]
    if not c:
        print(f"BUILD-ERROR: no IR for {b}")
        sys.exit(2)
    c.sort(key=lambda f: os.path.getmtime(os.path.join(deps, f)))
    return os.path.join(deps, c[-1])


def exe_of(b):
    return os.path.join(TARGET, "release", b)


class Job:
    """One symbolic exploration: a harness with concrete parameters."""

    def __init__(self, fn, params=(), reach=1, time=420, partial=False, bin=None, tier="quick", **opts):
        self.fn, self.params, self.reach, self.time = fn, [int(p) for p in params], reach, time
        self.partial, self.bin, self.tier, self.opts = partial, bin, tier, opts

    def name(self):
        return f"{self.fn}({','.join(map(str, self.params))})"


def run_job(b, j, deadline):
    left = max(5, int(min(j.time, deadline - time.time())))
    cmd = [RSYM, ir_of(b), j.fn, "--time", str(left)]
    for p in j.params:
        cmd += ["--param", str(p)]
    for k, v in {"query_timeout": 150, **j.opts}.items():
        cmd += ["--" + k.replace("_", "-"), str(v)]
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    RUNNING.add(p)
    try:
        if STOP.is_set():
            p.kill()
        out, err = p.communicate(timeout=left + 120)
    except subprocess.TimeoutExpired:
        p.kill()
        p.communicate()
        return dict(error="executor timeout")
    finally:
        RUNNING.discard(p)
    if STOP.is_set():
        return None
    if p.returncode != 0:
        return dict(error=f"executor exit {p.returncode}: {err[-800:]}")
    return json.loads(out)


# set when a violation is established: the remaining explorations are not needed
STOP = threading.Event()
RUNNING = set()


def native(b, j, inp, timeout=20, wrap=()):
    e = dict(os.environ, RSYM_INPUT=inp, RSYM_PARAMS=",".join(map(str, j.params)), RUST_BACKTRACE="0")
    try:
        r = subprocess.run([*wrap, exe_of(b), j.fn], env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
                           errors="replace", timeout=timeout)
    except subprocess.TimeoutExpired:
        return dict(rc="hang", out="", err="")
    m = re.search(r"RSYM (.*?) obs=([0-9a-f]*) reach=([0-9a-f]+)", r.stdout)
    return dict(rc=r.returncode, tag=m.group(1) if m else "", obs=m.group(2) if m else "", err=r.stderr[-1500:])


def reproduces(b, j, v):
    """Does the recorded counterexample fail on the real code?"""
    r = native(b, j, v["input"])
    k = v["kind"]
    if r["rc"] == "hang":
        return (k == "hang", "does not terminate within 20 s")
    if k == "assert":
        ok = r["rc"] == 3
        return (ok or r["rc"] in (101, 102), f"{r.get('tag')} {r['err'][-400:]}")
    if r["rc"] in (101, 102):
        return (True, f"{r.get('tag')} {r['err'][-400:]}")
    if r["rc"] == 3:
        return (True, r.get("tag"))
    if k in ("memory", "ub") and shutil.which("valgrind"):
        r2 = native(b, j, v["input"], timeout=120, wrap=("valgrind", "-q", "--error-exitcode=55"))
        if r2["rc"] == 55:
            return (True, "valgrind: " + r2["err"][-600:])
    return (False, f"native run: rc={r['rc']} {r.get('tag')}")


def src_line(b, n):
    try:
        return open(os.path.join(HARNESS, "src", "bin", b + ".rs")).read().split("\n")[int(n) - 1].strip()
    except Exception:
        return ""


def viol_key(b, j, v):
    """Stable description of a violation: harness, kind and what failed (no line numbers)."""
    if v["kind"] == "assert":
        return f"{j.fn}|assert|{src_line(b, v['sig'].split(':')[1])}"
    if v["kind"] == "panic":
        site = v["sig"][len("panic:"):]
        f = site.rsplit(":", 1)[0]
        if f.startswith("src/bin/"):
            return f"{j.fn}|panic|{f}|{src_line(b, site.rsplit(':', 1)[1])}|{v['msg']}"
        return f"{j.fn}|panic|{f}|{v['msg']}"
    return f"{j.fn}|{v['sig']}"


def known_findings():
    p = os.path.join(VERIF, "known_findings.json")
    return json.load(open(p)) if os.path.exists(p) else []


def check(prop, spec, tier, seed):
    t0 = time.time()
    budget = 800 if tier == "quick" else 3 * 3600
    deadline = t0 + budget
    default_bin = spec["bin"]
    jobs = [j for j in spec["jobs"] if tier == "thorough" or j.tier == "quick"]
    bins = sorted({j.bin or default_bin for j in jobs})
    build(bins)
    tb = time.time() - t0
    results = [None] * len(jobs)

    known = [k for k in known_findings() if k["property"] == prop and k.get("status") == "known"]

    def listed(b, j, v):
        key = viol_key(b, j, v)
        return [k for k in known if k["key"] == key and ("params" not in k or k["params"] == j.params)]

    def one(i):
        j = jobs[i]
        b = j.bin or default_bin
        t = time.time()
        r = None if STOP.is_set() else run_job(b, j, deadline)
        if r is None:
            return
        r["t"] = round(time.time() - t, 2)
        r["validated"] = 0
        for s in r.get("samples", []):
            n = native(b, j, s["input"])
            want = "EXPECTED-PANIC" if s["outcome"] == "expected-panic" else "DONE"
            if n["rc"] != 0 or n["tag"] != want or n["obs"] != s["obs"]:
                r.setdefault("mismatch", []).append(dict(sample=s, native=n))
            else:
                r["validated"] += 1
        for v in r.get("violations", []):
            v["confirmed"], v["native"] = reproduces(b, j, v)
        results[i] = r
        if not os.environ.get("VERIF_ALL") and any(v["confirmed"] and not listed(b, j, v) for v in r.get("violations", [])):
            STOP.set()
            for p in list(RUNNING):
                p.kill()

    # the longest first, by the durations of an earlier run (only the order depends on them)
    try:
        est = json.load(open(os.path.join(VERIF, "durations.json"))).get(prop, {})
    except OSError:
        est = {}
    with ThreadPoolExecutor(CORES) as ex:
        list(ex.map(one, sorted(range(len(jobs)), key=lambda i: -est.get(jobs[i].name(), 0))))

    rc = 0
    # an exploration which ends early (time, solver) shows nothing about the rest of its inputs, which the evidence says;
    # a check most of whose explorations end that way gives no answer
    partial = []
    nviol = 0
    knownhit = {}
    notes = []
    tot = dict(paths=0, forks=0, merges=0, steps=0, queries=0, sat=0, unsat=0, unknown=0, cache_hits=0, model_hits=0,
               asserts=0, asserts_const=0)
    solver_s = 0.0
    validated = 0
    functions = set()
    samples = []
    per = []
    outd = os.path.join(VERIF, "replays")
    for i, (j, r) in enumerate(zip(jobs, results)):
        b = j.bin or default_bin
        if r is None:
            continue
        if "error" in r:
            print(f"ERROR {prop} {j.name()}: {r['error']}")
            partial.append(j.name())
            notes.append(f"{j.name()}: no result: {r['error'][:300]}")
            continue
        for k in tot:
            tot[k] += r[k]
        solver_s += r["solver_s"]
        validated += r["validated"]
        functions.update(re.sub(r"<.*", "", f) for f in r["functions"])
        for s in r["samples"][:1]:
            if len(samples) < 12:
                samples.append(dict(harness=j.name(), input=s["input"][:256], outcome=s["outcome"]))
        for m in r.get("mismatch", []):
            print(f"ENGINE-MISMATCH {prop} {j.name()}: {json.dumps(m)[:1500]}")
            rc = max(rc, 2)
        bad = False
        for v in r["violations"]:
            key = viol_key(b, j, v)
            if not v["confirmed"]:
                print(f"UNCONFIRMED {prop} {j.name()} {key}: {v['msg']} input={v['input'][:200]} ({v['native']}) stack={v['stack'][:4]}")
                rc = max(rc, 2)
                continue
            kf = listed(b, j, v)
            if kf:
                knownhit[kf[0]["what"]] = True
                continue
            bad = True
            nviol += 1
            os.makedirs(outd, exist_ok=True)
            path = os.path.join(outd, f"{prop}-{nviol}.json")
            json.dump(dict(property=prop, bin=b, harness=j.fn, params=j.params, key=key, violation=v,
                           replay=f"RSYM_INPUT={v['input']} RSYM_PARAMS={','.join(map(str, j.params))} {exe_of(b)} {j.fn}"),
                      open(path, "w"), indent=1)
            if nviol <= 20:
                print(f"VIOLATION property={prop} replay={path}")
                print(f"  {j.name()}: {key} {v['msg']} input={v['input'][:160]} -> {str(v['native'])[:300]}")
        inc = dict(r["incomplete"])
        if j.partial:
            for k in list(inc):
                if k in ("deadline", "path-limit"):
                    notes.append(f"{j.name()}: stopped at its {k}")
                    inc.pop(k)
        if inc:
            print(f"INCOMPLETE {prop} {j.name()}: {inc}")
            notes.append(f"{j.name()}: incomplete: {inc}")
            partial.append(j.name())
        if j.reach and not inc and (int(r["reach"], 16) & j.reach) != j.reach and not bad and not r["violations"]:
            print(f"VACUOUS {prop} {j.name()}: required points not reached ({r['reach']}), outcomes {r['outcomes']}")
            rc = max(rc, 2)
        per.append(dict(harness=j.name(), paths=r["paths"], queries=r["queries"], steps=r["steps"], asserts=r["asserts"],
                        discharged_by_rewriting=r["asserts_const"], solver_s=r["solver_s"], wall_s=r["t"],
                        outcomes=r["outcomes"], incomplete=r["incomplete"]))
    if len(partial) > (0 if os.environ.get("VERIF_STRICT") else len(jobs) // 4):
        rc = max(rc, 2)
    if nviol:
        rc = 1
    for k in known:
        if knownhit.get(k["what"]):
            print(f"KNOWN-FINDING: property={prop} {k['what']}")
    wall = time.time() - t0
    ev = dict(
        property=prop, tier=tier, seed=seed, level="model_checking",
        coverage=dict(
            states=tot["paths"] + tot["forks"], transitions=tot["steps"], traces_validated_against_impl=validated,
            samples=samples or [dict(note="no completed path")],
            paths=tot["paths"], forks=tot["forks"], merges=tot["merges"], queries=tot["queries"], sat=tot["sat"],
            unsat=tot["unsat"], unknown=tot["unknown"], query_cache_hits=tot["cache_hits"], model_hits=tot["model_hits"],
            solver_s=round(solver_s, 2), assertions=tot["asserts"], assertions_discharged_by_rewriting=tot["asserts_const"],
            functions_encoded=len(functions), functions=sorted(functions)[:400], bounds=spec.get("bounds", ""),
            jobs=per, build_s=round(tb, 1), notes=notes,
            rule="each job explores every path of its harness over all values of its symbolic input within the stated bounds",
        ),
        assumptions=spec.get("assumptions", []) + [
            "the executor's model of LLVM IR, of the allocator and of the few libc functions is faithful (sampled by replaying paths natively)",
            "Z3 is sound",
        ],
        wall_s=round(wall, 2), violations=nviol,
    )
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1)
    print(f"{prop} {tier}: rc={rc} jobs={len(jobs)} paths={tot['paths']} queries={tot['queries']} solver={solver_s:.1f}s "
          f"asserts={tot['asserts']} validated={validated} violations={nviol} build={tb:.1f}s wall={wall:.1f}s")
    if os.environ.get("VERBOSE"):
        for p in sorted(per, key=lambda p: -p["wall_s"])[:12]:
            print("   ", p["harness"], {k: p[k] for k in ("paths", "queries", "steps", "solver_s", "wall_s", "outcomes")})
    return rc
