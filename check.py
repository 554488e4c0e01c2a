#!/usr/bin/env python3
"""check.py PROP [--tier quick|thorough]: builds the harness from /repo's working tree, runs the monitors of one property, writes its evidence."""
import collections, json, os, re, resource, shutil, signal, struct, subprocess, sys, time

V = os.path.dirname(os.path.abspath(__file__))
H = os.path.join(V, "harness")
PROP = sys.argv[1]
TIER = os.environ.get("VERIF_TIER", "quick")
if "--tier" in sys.argv: TIER = sys.argv[sys.argv.index("--tier") + 1]
try: SEED = int(os.environ.get("VERIF_SEED", "1"))
except ValueError: SEED = 1
TH = TIER == "thorough"
CORES = max(1, len(os.sched_getaffinity(0)))
T0 = time.time()
TARGET = os.path.join(V, "target")
TMP = os.path.join(TARGET, "run", PROP)
REPLAYS = os.path.join(V, "replays")

class Broken(Exception): pass          # the check itself gives no answer
class Violation(Exception):
    def __init__(self, msg, cmd=""): self.msg, self.cmd = msg, cmd

META = json.load(open(os.path.join(V, "checks.json"))).get(PROP, {})

def env(extra=None):
    e = dict(os.environ)
    e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin")
    e.setdefault("HOME", "/root")
    for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "RUSTC_WRAPPER", "CARGO_BUILD_TARGET", "RUSTUP_TOOLCHAIN", "CARGO_TARGET_DIR", "CARGO_INCREMENTAL", "MIRIFLAGS"): e.pop(k, None)
    for k in [k for k in e if k.startswith("CARGO_PROFILE_")]: e.pop(k)
    e.update(CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", RUST_BACKTRACE="0")
    e.update(extra or {})
    return e

def log(*a): print(*a, flush=True)

# what users ship has no debug assertions and lets arithmetic wrap
SHIPPED = {"CARGO_PROFILE_DEV_DEBUG_ASSERTIONS": "false", "CARGO_PROFILE_DEV_OVERFLOW_CHECKS": "false"}

def build(kind):
    t = os.path.join(TARGET, kind)
    ex = {"CARGO_TARGET_DIR": t}
    cmd = ["cargo"]
    out = os.path.join(t, "debug", "vh")
    if kind == "dev": cmd += ["+stable", "build", "--offline", "--locked"]
    elif kind == "asan":
        ex.update(SHIPPED)
        cmd += ["+nightly", "build", "--offline", "--locked", "--target", "x86_64-unknown-linux-gnu"]
        ex["RUSTFLAGS"] = "-Zsanitizer=address"
        out = os.path.join(t, "x86_64-unknown-linux-gnu", "debug", "vh")
    elif kind == "tsan":
        cmd += ["+nightly", "build", "--offline", "--locked", "-Zbuild-std", "--target", "x86_64-unknown-linux-gnu"]
        ex["RUSTFLAGS"] = "-Zsanitizer=thread"
        out = os.path.join(t, "x86_64-unknown-linux-gnu", "debug", "vh")
    elif kind == "ship":
        ex.update(SHIPPED)
        cmd += ["+stable", "build", "--offline", "--locked"]
    elif kind in ("cov", "covr"):
        if kind == "covr": ex.update(SHIPPED)
        # the runtime of the coverage hooks must not be instrumented itself
        os.makedirs(t, exist_ok=True)
        rt = os.path.join(t, "guided_rt.o")
        r = subprocess.run(["cc", "-O2", "-fno-builtin", "-c", os.path.join(H, "src", "guided_rt.c"), "-o", rt], env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0: raise Broken("build (guided_rt.c) failed:\n" + r.stdout[-3000:])
        cmd += ["+stable", "build", "--offline", "--locked", "--features", "guided", "--target", "x86_64-unknown-linux-gnu"]
        ex["RUSTFLAGS"] = "-Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 -Cllvm-args=-sanitizer-coverage-inline-8bit-counters -Cllvm-args=-sanitizer-coverage-trace-compares -Cllvm-args=-max-loads-per-memcmp=0 -Clink-arg=" + rt
        out = os.path.join(t, "x86_64-unknown-linux-gnu", "debug", "vh")
    r = subprocess.run(cmd, cwd=H, env=env(ex), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=1500)
    if r.returncode != 0: raise Broken("build (%s) failed:\n%s" % (kind, r.stdout[-4000:]))
    return out

def limits(cpu=None, mem=None):
    def f():
        if cpu: resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu + 2))
        if mem: resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    return f

PARTS = []
SAN = {"dev": {}, "ship": {}, "asan": {"ASAN_OPTIONS": "detect_leaks=0:exitcode=77:symbolize=1:allocator_may_return_null=1:detect_stack_use_after_return=1"}, "tsan": {"TSAN_OPTIONS": "exitcode=66:halt_on_error=1"}}

def slots(path):
    try: d = open(path, "rb").read(4096)
    except OSError: return []
    q = struct.unpack("<%dQ" % (len(d) // 8), d[:len(d) // 8 * 8])
    out = []
    for t in range((len(q) - 4) // 4):
        w, k, n = q[1 + 4 * t: 4 + 4 * t]
        if w: out.append((t, w - 1, k))
    hung = q[0] - 1 if q and q[0] else None
    out.sort(key=lambda x: x[0] != hung)
    return [(w, k) for _, w, k in out]

def native(kind, name, cap, threads=None, once=False):
    """the workloads of `name` in a build of the given kind"""
    exe = build(kind)
    part, prog = os.path.join(TMP, name + ".json"), os.path.join(TMP, name + ".progress")
    cmd = [exe, "run", name, "--seed", str(SEED), "--tier", TIER, "--part", part, "--progress", prog, "--cap", str(cap), "--threads", str(threads or CORES)]
    if kind != "dev": cmd += ["--hang", "60"]
    show = " ".join(cmd)
    if os.path.exists(part): os.unlink(part)
    t = time.time()
    try: r = subprocess.run(cmd, env=env(SAN[kind]), cwd=TMP, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", timeout=cap + 300, preexec_fn=limits(mem=(16 << 30) if kind in ("dev", "ship") else None))
    except subprocess.TimeoutExpired: raise Broken("%s did not end" % show)
    if "AddressSanitizer: " in r.stderr and "ERROR" in r.stderr: raise Violation("the address sanitizer reports:\n" + r.stderr[r.stderr.find("ERROR: AddressSanitizer"):][:6000], show)
    if "WARNING: ThreadSanitizer" in r.stderr and "/repo/src/" not in r.stderr: raise Broken("the thread sanitizer reports, without code of the library:\n" + r.stderr[r.stderr.find("WARNING: ThreadSanitizer"):][:6000])
    if "WARNING: ThreadSanitizer" in r.stderr: raise Violation("the thread sanitizer reports:\n" + r.stderr[r.stderr.find("WARNING: ThreadSanitizer"):][:6000], show)
    if r.returncode == 0 and os.path.exists(part):
        p = json.load(open(part))
        p["stage"] = "%s/%s" % (kind, name)
        PARTS.append(p)
        v = p["violation"]
        if v:
            raise Violation("%s case %d: %s" % (v["workload"], v["case"], v["message"]), "%s only %s %s %d --seed %d --tier %s" % (exe, name, v["workload"], v["case"], SEED, TIER))
        if p["evaluations"] == 0: raise Broken("nothing was evaluated")
        return
    if r.returncode == 4: raise Broken("the harness failed:\n" + r.stderr[-3000:])
    # it died or hung: which of the cases under way does it?
    for w, k in slots(prog):
        c = [exe, "only", name, str(w), str(k), "--seed", str(SEED), "--tier", TIER]
        why = None
        try:
            q = subprocess.run(c, env=env(SAN[kind]), cwd=TMP, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", timeout=150, preexec_fn=limits(cpu=25 if kind in ("dev", "ship") else 60, mem=(4 << 30) if kind in ("dev", "ship") else None))
            if q.returncode in (-signal.SIGXCPU, -signal.SIGKILL): why = "a call does not return (its CPU time ran out)"
            elif q.returncode < 0: why = "the process dies of signal %d (%s)" % (-q.returncode, signal.Signals(-q.returncode).name)
            elif q.returncode == 1: why = q.stdout
            elif q.returncode != 0: why = "exit status %d: %s" % (q.returncode, q.stderr[-3000:])
        except subprocess.TimeoutExpired: why = "a call does not return (150 s)"
        if why: raise Violation("workload %d case %d: %s" % (w, k, why), " ".join(c))
    if not once: return native(kind, name, cap, threads, True)
    # twice dead without a case that does it alone
    if r.returncode < 0: raise Violation("the process dies of signal %d (%s), twice; no single case does it alone" % (-r.returncode, signal.Signals(-r.returncode).name), show)
    raise Broken("%s ended with %d:\n%s" % (show, r.returncode, r.stderr[-3000:]))

def guided(name, cap):
    """coverage-guided exploration, a process per core"""
    # panics are sought with all assertions on, everything else in the code as it is shipped
    exe = build("cov" if name == "C01" else "covr")
    def start(i, iters=None):
        part = os.path.join(TMP, "guided.%s.%d.json" % (name, i))
        if os.path.exists(part): os.unlink(part)
        c = [exe, "guided", name, "--seed", str(SEED), "--shard", str(i), "--cap", str(cap if iters is None else 10 * cap)]
        if iters is not None: c += ["--iters", str(iters)]
        fo = open(part + ".out", "w+")
        return [subprocess.Popen(c + ["--part", part], cwd=TMP, env=env(), stdout=fo, stderr=fo, text=True, start_new_session=True, preexec_fn=limits(mem=6 << 30)), fo, part, c, i]
    def end(p, lim):
        try: rc = p[0].wait(max(1, lim))
        except subprocess.TimeoutExpired: os.killpg(p[0].pid, signal.SIGKILL); p[0].wait(); rc = None
        p[1].seek(0); return rc, p[1].read()
    t = time.time()
    ps = [start(i) for i in range(CORES)]
    tot = dict(stage="guided/" + name, evaluations=0, runs=0, distinct=0, counters=collections.Counter(), events=collections.Counter(), workloads=[], samples=[], capped=False)
    bad, odd = None, []
    for p in ps:
        rc, o = end(p, t + cap + 120 - time.time())
        if rc == 0 and os.path.exists(p[2]):
            q = json.load(open(p[2]))
            for k in ("evaluations", "runs", "distinct"): tot[k] += q[k]
            for k, v in q["counters"].items():
                if k in ("guided_code_edges", "guided_constants") or k.startswith("largest"): tot["counters"][k] = max(tot["counters"][k], v)
                else: tot["counters"][k] += v
            tot["events"].update(q["events"]); tot["samples"] += q["samples"][:1]
            tot["workloads"].append({"name": "guided, process %d" % p[4], "cases": q["evaluations"], "done": q["evaluations"], "exhaustive": False})
            v = q["violation"]
            if v and (bad is None or v["case"] < bad[0]): bad = (v["case"], "guided case %d: %s" % (v["case"], v["message"]), " ".join(p[3]) + " --iters %d" % (v["case"] + 1))
        else: odd.append((p, rc, o))
    tot["wall"] = time.time() - t
    PARTS.append(tot)
    if bad: raise Violation(bad[1], bad[2])
    for p, rc, o in odd:
        if rc == 4: raise Broken("the harness failed:\n" + o[-3000:])
        # it died or hung; the same again
        q = start(p[4])
        rc2, o2 = end(q, cap + 120)
        show = " ".join(p[3])
        if rc2 == 0: continue
        if rc2 is not None and rc2 < 0: raise Violation("the process dies of signal %d (%s)" % (-rc2, signal.Signals(-rc2).name), show)
        if rc2 in (3, None) and rc in (3, None): raise Violation("a call does not return: " + o2[-500:], show)
        raise Broken("%s ended with %s, then %s:\n%s" % (show, rc, rc2, o2[-3000:]))
    if tot["evaluations"] == 0: raise Broken("nothing was evaluated")

def miri(name, shards, cap, machine=None, flags=""):
    """the workloads of `name` in the interpreter, which can be a machine of another kind; each shard is a process"""
    ex = {"CARGO_TARGET_DIR": os.path.join(TARGET, "miri"), "MIRIFLAGS": "-Zmiri-disable-isolation" + flags}
    other = []
    if machine:
        # its standard library is built from source, into a place of its own
        ex["CARGO_TARGET_DIR"] += "-" + machine
        ex["XDG_CACHE_HOME"] = os.path.join(TARGET, "miri-library-" + machine)
        os.makedirs(ex["XDG_CACHE_HOME"], exist_ok=True)
        other = ["--target", machine]
        r = subprocess.run(["cargo", "+nightly", "miri", "setup"] + other, cwd=H, env=env(ex), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=600)
        if r.returncode != 0: raise Broken("the library for %s cannot be built:\n%s" % (machine, r.stdout[-3000:]))
    base = ["cargo", "+nightly", "miri", "run", "--offline", "--locked", "--quiet"] + other + ["--", "seq"]
    r = subprocess.run(base + ["none"], cwd=H, env=env(ex), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", timeout=1200)
    if r.returncode != 0 or "SEQ" not in r.stdout: raise Broken("build (miri) failed:\n" + r.stderr[-3000:])
    ps = []
    tot = collections.Counter()
    for i in range(shards):
        c = base + [name, "--shard", str(i), "--of", str(shards), "--seed", str(SEED), "--tier", TIER]
        fo, fe = open(os.path.join(TMP, "miri.%s.%s.%d.out" % (name, machine, i)), "w+"), open(os.path.join(TMP, "miri.%s.%s.%d.err" % (name, machine, i)), "w+")
        e = dict(ex, MIRIFLAGS=ex["MIRIFLAGS"] + " -Zmiri-seed=%d" % (SEED * 64 + i))
        ps.append((subprocess.Popen(c, cwd=H, env=env(e), stdout=fo, stderr=fe, text=True, start_new_session=True), fo, fe, c))
    end = time.time() + cap
    bad, cut, unsup, t = None, 0, 0, time.time()
    for p, fo, fe, c in ps:
        try: rc = p.wait(max(1, end - time.time()))
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL); p.wait(); rc = None; cut += 1
        fo.seek(0); fe.seek(0)
        o, er = fo.read(), fe.read()
        cases = re.findall(r"^case (.*)$", er, re.M)
        m = re.search(r"SEQ evals=(\d+) runs=(\d+) distinct=(\d+)", o)
        if m:
            tot["evaluations"] += int(m[1]); tot["runs"] += int(m[2]); tot["distinct"] += int(m[3])
        else: tot["evaluations"] += max(0, len(cases) - 1); tot["distinct"] += max(0, len(cases) - 1)
        if rc in (None, 0): continue
        at = "case %s" % cases[-1] if cases else "?"
        if "VIOLATED" in o: bad = bad or (o[-3000:], c)
        elif "Undefined Behavior" in er or "Data race" in er or "data race" in er: bad = bad or ("the interpreter reports, in %s:\n%s" % (at, er[er.find("error: Undefined"):][:5000]), c)
        elif "unsupported operation" in er: unsup += 1
        elif bad is None: bad = (None, "miri ended with %s in %s:\n%s" % (rc, at, er[-3000:]))
    if machine and bad and bad[0]: bad = ("on a machine of the kind %s: %s" % (machine, bad[0]), bad[1])
    PARTS.append(dict(stage="miri/" + name + ("/" + machine if machine else ""), evaluations=tot["evaluations"], runs=tot["runs"], distinct=tot["distinct"], counters={"interpreted_cases": tot["evaluations"], "interpreters": shards, "interpreters_cut_short": cut, "interpreters_with_unsupported_operations": unsup}, events={}, workloads=[], samples=[], capped=cut > 0, wall=time.time() - t))
    if bad:
        if bad[0] is None: raise Broken(bad[1])
        raise Violation(bad[0], " ".join(bad[1]))
    if tot["evaluations"] == 0: raise Broken("nothing was interpreted")

def callgrind(sizes, pumps):
    """instructions at n, 2n and 4n"""
    exe = build("dev")
    prev = None
    for n in sizes:
        out = os.path.join(TMP, "callgrind.out")
        c = ["valgrind", "--tool=callgrind", "--combine-dumps=yes", "--callgrind-out-file=" + out, exe, "measure", str(n), str(SEED), str(pumps)]
        lim = 600 if prev is None else max(200, prev[1] * 25 * n / prev[0])
        t = time.time()
        try: r = subprocess.run(c, env=env(), cwd=TMP, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", timeout=lim)
        except subprocess.TimeoutExpired:
            if prev is None: raise Broken("callgrind did not end")
            raise Violation("parsing inputs of %d bytes and more takes over 25 times the time per byte of inputs of %d bytes" % (n, prev[0]), " ".join(c))
        if r.returncode != 0: raise Broken("callgrind ended with %d: %s" % (r.returncode, r.stderr[-2000:]))
        prev = (n, time.time() - t)
        tot, cur = {}, None
        for l in open(out):
            if l.startswith("desc: Trigger: Client Request: "): cur = l.split()[-1]
            elif l.startswith("totals:") and cur: tot[cur] = int(l.split()[1]); cur = None
        os.unlink(out)
        rows = [l.rstrip("\n").split("\t") for l in r.stdout.split("\n") if l.startswith("m")]
        if len(rows) < 200 or any(x[0] not in tot for x in rows): raise Broken("counts are missing")
        worst = (0, ""); fast = (0, ""); samples = []
        ev = 0
        for i in range(0, len(rows), 3):
            a, b, d = rows[i:i + 3]
            t1, t2, t4 = (tot[x[0]] for x in (a, b, d))
            n4 = int(d[4]) + 600
            ratio = (t4 - t2) / max(1, t2 - t1, t2 // 8)
            per = t4 / n4
            ev += 3
            what = "%s in slices of %s, interrupted every %s: %d, %d, %d instructions for %s, %s, %s bytes" % (d[1], d[2], d[3], t1, t2, t4, a[4], b[4], d[4])
            if i // 3 % 40 == 0: samples.append(what)
            worst = max(worst, (per, what))
            pump = d[1].startswith("pumped")
            if per > 20 and not pump: fast = max(fast, (ratio, what))
            if (not pump and per > 20 and ratio > 2.6) or (per > 1500 and ratio > 2.6) or per > 6000:
                raise Violation("cost is not linear: " + what, " ".join(c))
        PARTS.append(dict(stage="callgrind/%d" % n, evaluations=ev, runs=ev, distinct=ev, counters={"instructions_counted": sum(tot.values()), "inputs_measured": ev}, events={}, workloads=[], capped=False, wall=prev[1],
                          samples=samples[:3] + ["most instructions per byte (%.0f): %s" % worst, "fastest growth (%.2f times per doubling): %s" % fast]))

# properties whose judges take any single case
GUIDED = ["C%02d" % i for i in (1, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 28, 30, 33)]

def run():
    cap = 420 if TH else 100
    if PROP == "C02":
        native("dev", "C02", cap)
        native("asan", "C02asan", 300 if TH else 100)
        miri("C02miri", CORES * (2 if TH else 1), 300 if TH else 200)
    elif PROP == "C26":
        native("dev", "C26", cap)
        native("tsan", "C26tsan", 240 if TH else 100)
        miri("C26miri", CORES, 240 if TH else 150)
    elif PROP == "C35":
        # what undefined behaviour there is shows in C02, so that this is about results
        import concurrent.futures as cf
        with cf.ThreadPoolExecutor(2) as x:
            for f in [x.submit(miri, "C35", max(2, CORES // 2), 500 if TH else 300, m, " -Zmiri-disable-stacked-borrows -Zmiri-disable-validation") for m in ("s390x-unknown-linux-gnu", "i686-unknown-linux-gnu")]: f.result()
        native("dev", "C35", cap)
    elif PROP == "C27":
        native("dev", "C27", cap)
        callgrind([500, 4000, 32000] if TH else [500, 4000], 400 if TH else 150)
    else:
        native("dev", PROP, 600 if TH else cap)
        # as users build it; in quick the guided stage is
        if TH or PROP not in GUIDED: native("ship", PROP, 300 if TH else 60)
        if PROP in GUIDED: guided(PROP, 120 if TH else 12)

def evidence(viol):
    c = collections.Counter(); ev = collections.Counter()
    for p in PARTS:
        for k, v in p["counters"].items():
            c[k] = max(c[k], v) if k.startswith("largest") else c[k] + v
        for k, v in p["events"].items(): ev[k] += v
    cov = {
        "evaluations": sum(p["evaluations"] for p in PARTS),
        "distinct_nontrivial": sum(p["distinct"] for p in PARTS),
        "rule": META["rule"],
        "samples": sum((p["samples"] for p in PARTS), [])[:24],
        "runs_of_the_code": sum(p["runs"] for p in PARTS),
        "observed": dict(sorted(c.items())), "callbacks_by_kind": dict(sorted(ev.items())),
        "stages": [{"stage": p["stage"], "wall_s": round(p["wall"], 2), "cut_short_by_time": p["capped"], "workloads": p["workloads"]} for p in PARTS],
    }
    doc = {"property": PROP, "tier": TIER, "seed": SEED, "level": "exploration", "coverage": cov, "assumptions": META.get("assumptions", []), "wall_s": round(time.time() - T0, 2), "violations": 1 if viol else 0}
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    p = os.path.join(V, "evidence", PROP + ".json")
    with open(p + ".tmp", "w") as f: json.dump(doc, f, indent=1); f.write("\n")
    os.replace(p + ".tmp", p)

def main():
    if PROP == "--setup":
        print(build("dev")); print(build("ship")); print(build("cov")); print(build("covr")); return 0
    if not META: print("no such property"); return 2
    shutil.rmtree(TMP, ignore_errors=True)
    os.makedirs(TMP)
    viol = None
    try: run()
    except Violation as v: viol = v
    except (Broken, subprocess.TimeoutExpired) as b:
        log("NO ANSWER for %s: %s" % (PROP, b)); evidence(None); return 2
    evidence(viol)
    if viol:
        os.makedirs(REPLAYS, exist_ok=True)
        p = os.path.join(REPLAYS, "%s-%s-%d.txt" % (PROP, TIER, SEED))
        with open(p, "w") as f: f.write("property %s\nseed %d tier %s\n\n%s\n\nreplay: %s\n" % (PROP, SEED, TIER, viol.msg, viol.cmd))
        log(viol.msg[:4000])
        log("VIOLATION property=%s replay=%s" % (PROP, p))
        return 1
    for l in open(os.path.join(V, "known_findings.txt")):
        if l.startswith("KNOWN-FINDING: property=%s " % PROP): log(l.rstrip())
    log("%s held: %d evaluations, %d distinct, %.1f s" % (PROP, sum(p["evaluations"] for p in PARTS), sum(p["distinct"] for p in PARTS), time.time() - T0))
    return 0

sys.exit(main())
