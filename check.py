#!/usr/bin/env python3
"""Runs the check of one property: builds its harnesses from /repo's working tree, searches, reports, writes evidence.

usage: check.py ID                 (VERIF_SEED, VERIF_TIER from the environment)
       check.py --replay FILE      rebuild the harness named in FILE and replay it
       check.py --build-only [ID...]
"""
import concurrent.futures, hashlib, json, os, re, shutil, struct, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(HERE, "build")
sys.path.insert(0, HERE)
from checks import CHECKS, VARIANTS, GLUE  # noqa: E402

NCPU = os.cpu_count() or 4


def sha(path):
    try:
        with open(path, "rb") as f:
            return hashlib.sha256(f.read()).hexdigest()
    except OSError:
        return "missing"


def config_header(variant, outdir):
    """LvArrayConfig.hpp from the repository's own template."""
    os.makedirs(outdir, exist_ok=True)
    defs = VARIANTS[variant].get("config", [])
    text = open(os.path.join(REPO, "src/LvArrayConfig.hpp.in")).read()
    cm = open(os.path.join(REPO, "CMakeLists.txt")).read()

    def version(m):
        r = re.search(r"set\( *%s +([0-9]+)" % m.group(1), cm)
        return r.group(1) if r else "0"
    text = re.sub(r"@(LVARRAY_VERSION_\w+)@", version, text)

    def cmdef(m):
        name = m.group(1)
        return "#define " + name if name in defs else "/* #undef %s */" % name
    text = re.sub(r"#cmakedefine +(\w+).*", cmdef, text)
    p = os.path.join(outdir, "LvArrayConfig.hpp")
    if not os.path.exists(p) or open(p).read() != text:
        with open(p, "w") as f:
            f.write(text)
    return outdir


def parse_deps(dfile):
    t = open(dfile).read().replace("\\\n", " ")
    return t.split(":", 1)[1].split()


def compile_obj(cmd, src, obj):
    """Compile src to obj unless a previous build of identical inputs is there. The key is the content of every file read."""
    meta = obj + ".json"
    full = cmd + ["-MD", "-MF", obj + ".d", "-c", src, "-o", obj]
    if os.path.exists(meta) and os.path.exists(obj):
        try:
            m = json.load(open(meta))
            if m["cmd"] == full and all(sha(p) == h for p, h in m["deps"].items()):
                return True, ""
        except (ValueError, KeyError, OSError):
            pass
    r = subprocess.run(full, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        if os.path.exists(meta):
            os.remove(meta)
        return False, " ".join(full) + "\n" + r.stdout
    deps = {p: sha(p) for p in parse_deps(obj + ".d")}
    with open(meta, "w") as f:
        json.dump({"cmd": full, "deps": deps}, f)
    return True, ""


def flags_for(variant, build):
    v = VARIANTS[variant]
    inc = config_header(variant, os.path.join(BUILD, "config", variant))
    return [v["cxx"]] + v["flags"] + build.get("flags", []) + ["-I" + inc, "-I" + os.path.join(REPO, "src"), "-I" + os.path.join(HERE, "shim"), "-I" + os.path.join(HERE, "harness")]


def plan(pid):
    """-> list of (harness name, variant, build dict)"""
    out = []
    for b in CHECKS[pid]["builds"]:
        for v in b.get("variants", ["dbg", "fuzz"]):
            out.append((b["name"] + "-" + v, v, b))
    return out


def build_all(items, log=print):
    """Compile every object in parallel, then link. Returns {harness: binary} and {harness: error}."""
    jobs = {}
    links = []
    for name, v, b in items:
        cmd = flags_for(v, b)
        tag = hashlib.sha256(" ".join(cmd).encode()).hexdigest()[:10]
        objs = []
        srcs = [os.path.join(HERE, "harness", s) for s in b["sources"]]
        srcs += [os.path.join(HERE, "harness", "pbt_main.cpp")] + [os.path.join(HERE, "harness", s) for s in b.get("glue", GLUE)]
        srcs += [os.path.join(REPO, s) for s in b.get("repo_sources", ["src/system.cpp", "src/umpireInterface.cpp"])]
        for s in srcs:
            d = os.path.join(BUILD, "obj", v + "-" + tag)
            os.makedirs(d, exist_ok=True)
            obj = os.path.join(d, os.path.basename(s) + "-" + hashlib.sha256(s.encode()).hexdigest()[:6] + ".o")
            c = list(cmd)
            if s.endswith(".c"):
                c = [VARIANTS[v]["cc"]] + [f for f in cmd[1:] if not f.startswith("-std=")]
            jobs[obj] = (c, s, obj)
            objs.append(obj)
        links.append((name, v, b, objs))
    errors, failed = {}, {}
    # Longest (harness) sources first.
    order = sorted(jobs.values(), key=lambda j: (not os.path.basename(j[1]).startswith("h_"), j[1]))
    with concurrent.futures.ThreadPoolExecutor(NCPU) as ex:
        for (c, s, obj), (ok, text) in zip(order, ex.map(lambda j: compile_obj(*j), order)):
            if not ok:
                failed[obj] = text
    bins = {}

    def link(item):
        name, v, b, objs = item
        bad = [o for o in objs if o in failed]
        if bad:
            return name, None, failed[bad[0]]
        binary = os.path.join(BUILD, "bin", name)
        os.makedirs(os.path.dirname(binary), exist_ok=True)
        cmd = [VARIANTS[v]["cxx"]] + VARIANTS[v]["flags"] + objs + VARIANTS[v].get("link", []) + b.get("libs", []) + ["-ldl", "-lpthread", "-o", binary]
        key = {"cmd": cmd, "objs": {o: sha(o) for o in objs}}
        try:
            if os.path.exists(binary) and json.load(open(binary + ".json")) == key:
                return name, binary, ""
        except (OSError, ValueError):
            pass
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            return name, None, " ".join(cmd) + "\n" + r.stdout
        json.dump(key, open(binary + ".json", "w"))
        return name, binary, ""
    with concurrent.futures.ThreadPoolExecutor(NCPU) as ex:
        for name, binary, err in ex.map(link, links):
            if binary:
                bins[name] = binary
            else:
                errors[name] = err
    return bins, errors


ENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=98:allocator_may_return_null=1:detect_stack_use_after_return=0:handle_segv=1:symbolize=1:malloc_context_size=12",
           UBSAN_OPTIONS="halt_on_error=1:print_stacktrace=1:exitcode=97", TSAN_OPTIONS="exitcode=66:halt_on_error=1:report_signal_unsafe=0:second_deadlock_stack=1",
           ASAN_SYMBOLIZER_PATH="/usr/bin/llvm-symbolizer-18", LC_ALL="C.UTF-8")


def run_check(pid):
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    chk = CHECKS[pid]
    items = plan(pid)
    bins, errors = build_all(items)
    tb = time.time() - t0
    for n, e in errors.items():
        print("BUILD-ERROR harness=%s\n%s" % (n, e[-6000:]))
    scratch = os.path.join(BUILD, "scratch", pid)
    shutil.rmtree(scratch, ignore_errors=True)
    os.makedirs(scratch)
    replays = os.path.join(HERE, "replays", pid)
    shutil.rmtree(replays, ignore_errors=True)
    os.makedirs(replays)
    scale = chk.get("quick_scale", 1.0) if tier == "quick" else chk.get("thorough_scale", 20.0)
    seconds = chk.get("quick_seconds", 400) if tier == "quick" else chk.get("thorough_seconds", 3000)
    tasks = []
    for name, v, b in items:
        if name not in bins:
            continue
        vs = VARIANTS[v].get("scale", 1.0) * b.get("scale", {}).get(v, 1.0)
        vseed = str(seed + 7919 * sorted(VARIANTS).index(v))  # every variant searches other cases
        out = subprocess.run([bins[name], "list"], stdout=subprocess.PIPE, text=True, env=ENV)
        for line in out.stdout.split("\n"):
            if not line.strip():
                continue
            tname, cases, fz = line.split()
            cases = int(cases) * scale * vs
            shards = b.get("shards", 2) if cases >= 400 else 1
            if tier != "quick":
                shards *= 2
            for sh in range(shards):
                tasks.append(dict(name=name, target=tname, mode="run", shard=sh, cost=cases / shards,
                                  cmd=[bins[name], "run", "--target", tname, "--seed", vseed, "--scale", repr(scale * vs), "--shard", str(sh), "--shards", str(shards)]))
            if VARIANTS[v].get("fuzz") and int(fz) and b.get("fuzz", True):
                runs = int(cases * b.get("fuzz_factor", 1.0))
                nf = 1 if tier == "quick" else 2
                for sh in range(nf):
                    tasks.append(dict(name=name, target=tname, mode="fuzz", shard=sh, cost=cases,
                                      cmd=[bins[name], "fuzz", "--target", tname, "--seed", vseed, "--runs", str(max(runs, 100)), "--shard", str(sh)]))
    for i, t in enumerate(tasks):
        t["out"] = os.path.join(scratch, "stats.%d" % i)
        sd = os.path.join(scratch, "t%d" % i)
        os.makedirs(sd)
        t["cmd"] += ["--out", t["out"], "--replay-dir", replays, "--harness", t["name"], "--scratch", sd, "--seconds", str(seconds)]

    stop = []

    def go(t):
        if stop:
            return t, None, "skipped"
        s = time.time()
        r = subprocess.run(t["cmd"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", env=ENV, cwd=scratch)
        t["wall"] = time.time() - s
        if r.returncode == 1:
            stop.append(1)
        return t, r.returncode, r.stdout
    results = []
    with concurrent.futures.ThreadPoolExecutor(min(NCPU, chk.get("jobs", NCPU))) as ex:
        results = list(ex.map(go, sorted(tasks, key=lambda t: -t["cost"])))

    violations, unconfirmed = [], []
    for t, rc, out in results:
        if rc in (0, None):
            continue
        m = re.findall(r"FAIL target=(\S+) confirmed=(\d) replay=(\S+) message=(.*)", out)
        if rc == 1 and m:
            violations.append((t, m[-1], out))
        else:
            unconfirmed.append((t, rc, out))

    # Merge statistics.
    ev = nt = 0
    distinct = set()
    nhash = 0
    labels, samples, rules, truncated = {}, [], {}, []
    per = {}
    for i, t in enumerate(tasks):
        for fn in sorted(os.listdir(scratch)):
            if not fn.startswith("stats.%d." % i):
                continue
            p = os.path.join(scratch, fn)
            if fn.endswith(".json"):
                d = json.load(open(p))
                ev += d["evaluations"]
                nt += d["nontrivial"]
                rules[d["target"]] = d["rule"]
                key = d["target"]
                q = per.setdefault(key, {"evaluations": 0, "nontrivial": 0, "discarded": 0, "labels": {}})
                q["evaluations"] += d["evaluations"]
                q["nontrivial"] += d["nontrivial"]
                q["discarded"] += d["discarded"]
                for k, c in d["labels"].items():
                    q["labels"][k] = q["labels"].get(k, 0) + c
                for s in d["samples"][:1]:
                    if len(samples) < 24 and not any(x["target"] == key for x in samples):
                        samples.append({"target": key, "case": s})
                if d["truncated"]:
                    truncated.append(t["name"] + ":" + key)
            elif fn.endswith(".hashes"):
                data = open(p, "rb").read()
                salt = hash_target(fn)
                for (h,) in struct.iter_unpack("<Q", data):
                    distinct.add(h ^ salt)
    evidence = {
        "property": pid, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": ev, "distinct_nontrivial": len(distinct),
            "rule": "Cases are choice sequences drawn by the generators (random mode) or decoded from coverage guided libFuzzer inputs (fuzz mode); distinct means distinct choice sequences. Non-trivial, per target: "
                    + " | ".join("%s: %s" % kv for kv in sorted(rules.items())),
            "samples": samples, "nontrivial": nt, "targets": per,
            "harnesses": sorted(bins), "build_errors": sorted(errors), "time_capped": truncated,
            "build_s": round(tb, 1),
        },
        "assumptions": chk.get("assumptions", []) + ["camp/RAJA are replaced by the stand-in headers in /verif/shim; host execution only"],
        "wall_s": round(time.time() - t0, 2), "violations": len(violations),
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f:
        json.dump(evidence, f, indent=1)
    for line in known_findings(pid):
        print(line)
    slow = sorted(tasks, key=lambda t: -t.get("wall", 0))[:5]
    print("%s %s seed=%d: %d evaluations, %d distinct non-trivial, build %.0fs, total %.0fs; slowest: %s" % (
        pid, tier, seed, ev, len(distinct), tb, time.time() - t0, ", ".join("%s/%s/%s %.0fs" % (t["name"], t["target"], t["mode"], t.get("wall", 0)) for t in slow)))
    if violations:
        for t, m, out in violations:
            print(out[-4000:])
        seen = set()
        for t, m, out in violations:
            rp = os.path.relpath(m[2], HERE)
            if rp not in seen:
                print("VIOLATION property=%s replay=%s" % (pid, rp))
                seen.add(rp)
        return 1
    for t, rc, out in unconfirmed:
        print("UNCONFIRMED/ERROR rc=%s cmd=%s\n%s" % (rc, " ".join(t["cmd"]), out[-3000:]))
    if errors or unconfirmed:
        return 2
    if not os.environ.get("VERIF_KEEP"):
        shutil.rmtree(scratch, ignore_errors=True)
        if not os.listdir(replays):
            os.rmdir(replays)
    return 0


def hash_target(fn):
    return int.from_bytes(hashlib.sha256(fn.split(".", 2)[2].encode()).digest()[:8], "little")


def known_findings(pid):
    p = os.path.join(HERE, "known_findings.txt")
    out = []
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("KNOWN-FINDING: property=%s " % pid):
                out.append(line)
    return out


def replay(path):
    head = {}
    for line in open(path, errors="replace"):
        if ": " in line:
            k, v = line.rstrip("\n").split(": ", 1)
            head.setdefault(k, v)
    name = head["harness"]
    for pid in CHECKS:
        for n, v, b in plan(pid):
            if n == name:
                bins, errors = build_all([(n, v, b)])
                if errors:
                    print(errors)
                    return 2
                sd = os.path.join(BUILD, "scratch", "replay")
                os.makedirs(sd, exist_ok=True)
                r = subprocess.run([bins[n], "replay", "--file", os.path.abspath(path), "--scratch", sd], env=ENV)
                return r.returncode
    print("unknown harness", name)
    return 2


def main():
    a = sys.argv[1:]
    if a and a[0] == "--replay":
        return replay(a[1])
    if a and a[0] == "--self-test":
        for tool in ("clang++", "g++"):
            if not shutil.which(tool):
                print("missing", tool)
                return 2
        return 0
    if a and a[0] == "--build-only":
        ids = a[1:] or list(CHECKS)
        items, seen = [], set()
        for i in ids:
            for it in plan(i):
                if it[0] not in seen:
                    seen.add(it[0])
                    items.append(it)
        bins, errors = build_all(items)
        for n, e in errors.items():
            print("BUILD-ERROR", n, e[-5000:])
        return 2 if errors else 0
    return run_check(a[0])


if __name__ == "__main__":
    sys.exit(main())
