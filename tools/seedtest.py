#!/usr/bin/env python3
"""Development aid (no check uses it): confirms planted bugs in a scratch copy of /repo.

usage: seedtest.py [--demo-only] [--check ID,...] SEED...    each SEED is a folder under seeded/
For each: the patch applies, the tree builds, the stable tests pass, demo.sh passes without and fails with the patch,
and the check of its property reports a violation.
"""
import json, os, re, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(HERE, "seeded")


def sh(cmd, cwd, env=None, timeout=900):
    return subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", env=env, timeout=timeout)


def main():
    args = sys.argv[1:]
    demo_only = "--demo-only" in args
    args = [a for a in args if a != "--demo-only"]
    seeds = args or sorted(os.listdir(SEEDED))
    work = tempfile.mkdtemp(prefix="seedtest.", dir="/tmp")
    repo = os.path.join(work, "repo")
    subprocess.check_call(["cp", "-a", os.environ.get("SEED_REPO", "/repo"), repo])
    sh(["git", "checkout", "-q", "--", "."], repo)
    try:
        for s in seeds:
            d = os.path.join(SEEDED, s)
            meta = json.load(open(os.path.join(d, "meta.json")))
            lay = os.path.join(work, "demo")
            shutil.rmtree(lay, ignore_errors=True)
            shutil.copytree(d, lay, ignore=shutil.ignore_patterns("*.diff", "*.patch", "meta.json"))
            sh(["git", "checkout", "-q", "--", "."], repo)
            r0 = sh(["bash", os.path.join(lay, "demo.sh")], repo)
            a = sh(["git", "apply", os.path.join(d, "patch.diff")], repo)
            if a.returncode:
                print(s, "PATCH DOES NOT APPLY", a.stdout)
                continue
            r1 = sh(["bash", os.path.join(lay, "demo.sh")], repo)
            res = "%s [%s] demo clean=%d bug=%d" % (s, meta["property"], r0.returncode, r1.returncode)
            if r0.returncode or "--verbose" in sys.argv:
                res += "\n" + r0.stdout[-1500:]
            if not r1.returncode:
                res += "  DEMO DOES NOT FAIL"
            if not demo_only and not r0.returncode:
                env = dict(os.environ, VERIF_REPO=repo, VERIF_SEED="1", VERIF_TIER="quick")
                try:
                    c = sh([sys.executable, os.path.join(HERE, "check.py"), meta["property"]], HERE, env)
                    v = re.findall(r"VIOLATION.*", c.stdout)
                    m = re.findall(r"message=(.*)", c.stdout)
                    res += "  check rc=%d %s %s" % (c.returncode, "CAUGHT" if c.returncode == 1 and v else "MISSED", (m[-1][:160] if m else ""))
                    if c.returncode not in (0, 1):
                        res += c.stdout[-3000:]
                except subprocess.TimeoutExpired:
                    res += "  check TIMEOUT"
            print(res, flush=True)
    finally:
        shutil.rmtree(work, ignore_errors=True)


main()
