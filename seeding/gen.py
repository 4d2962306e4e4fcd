"""Writes /verif/seeded/<id>/ and tests each planted bug: builds, passes the stable tests, demo fails with it and passes without;
then runs the property's quick check against the changed tree. usage: gen.py [--check-only] [ids...]"""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/seeding")
from seeds import S
R = "/repo"
PRE = r'''#include <setjmp.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/resource.h>
#include <time.h>
#include "argtable3.h"
#include "argtable3_private.h"
#define CHECK(c) do { if (!(c)) { fprintf(stderr, "failed: %s\n", #c); return 1; } } while (0)
static jmp_buf env;
static void onpanic(const char* fmt, ...) { (void)fmt; longjmp(env, 1); }
static unsigned int hf(const void* k) { (void)k; return 7; }
static int ef(const void* a, const void* b) { return *(const int*)a == *(const int*)b; }
static int cmpint(const void* a, const void* b) { return *(const int*)a - *(const int*)b; }
static int* mk(int k) { int* p = (int*)malloc(sizeof(int)); *p = k; return p; }
int main(void) {
    (void)env; (void)onpanic; (void)hf; (void)ef; (void)cmpint; (void)mk;
%s
    return 0;
}
'''
SH = '''#!/bin/sh
# cwd: the repository. Compiles the library's sources with the demonstration and runs it.
d=$(cd "$(dirname "$0")" && pwd)
w=$(mktemp -d) || exit 2
trap 'rm -rf "$w"' EXIT
export ASAN_OPTIONS=detect_leaks=0
gcc -std=gnu99 -w -D_GNU_SOURCE %s -Isrc "$d/demo.c" src/*.c -o "$w/demo" -lm || exit 3
cd "$w" && timeout 60 ./demo
'''


def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)


def demo(d): return sh("bash %s/demo.sh" % d, cwd=R).returncode


def main():
    ids = [a for a in sys.argv[1:] if not a.startswith("-")]
    only = "--check-only" in sys.argv
    assert not sh("git -C %s status --porcelain" % R).stdout.strip()
    base = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    resf = V + "/seeding/results.json"
    res = json.load(open(resf)) if os.path.exists(resf) else {}
    for s in S:
        if ids and s["id"] not in ids: continue
        d = V + "/seeded/" + s["id"]
        os.makedirs(d, exist_ok=True)
        r = res.setdefault(s["id"], {"property": s["prop"]})
        try:
            for f, a, b in s["edits"]:
                t = open(R + "/" + f).read()
                assert t.count(a) == 1, (s["id"], f, t.count(a))
                open(R + "/" + f, "w").write(t.replace(a, b))
            open(d + "/patch.diff", "w").write(sh("git -C %s diff" % R).stdout)
            open(d + "/demo.c", "w").write(PRE.replace("%s\n    return 0;", s["demo"] + "\n    return 0;"))
            open(d + "/demo.sh", "w").write(SH % s["cflags"].replace("-DHASH", ""))
            os.chmod(d + "/demo.sh", 0o755)
            json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
            if not only:
                b = sh("bash /opt/vp/build.sh")
                r["builds"] = b.returncode == 0
                sh("bash /opt/vp/test.sh /tmp/seed.json")
                p = json.load(open("/tmp/seed.json"))
                r["tests_lost"] = len(base - set(p["passed"]))
                r["demo_with"] = demo(d)
            c = sh("python3 %s/run.py check %s" % (V, s["prop"]))
            r["check"] = c.returncode
            r["by"] = [l for l in c.stdout.splitlines() if l.startswith("counterexample")][:1]
            if c.returncode not in (0, 1): r["by"] = c.stdout.splitlines()[-2:] + c.stderr.splitlines()[-2:]
        finally:
            sh("git -C %s checkout -- ." % R)
        if not only:
            r["demo_without"] = demo(d)
        print(s["id"], s["prop"], {k: r.get(k) for k in ("builds", "tests_lost", "demo_with", "demo_without", "check", "by")}, flush=True)
        json.dump(res, open(resf, "w"), indent=1)
    if not only: sh("bash /opt/vp/build.sh")


main()
