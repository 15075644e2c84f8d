"""Helper to author planted bugs: mk(...) edits a scratch copy of /repo, confirms that the change compiles, passes the stable
tests and is shown by its demonstration, and stores it under /verif/seeded/<id>."""
import json, os, shutil, subprocess, sys, tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
STABLE = None

PRE = r'''#include <libnurbs/Core/Typedefs.hpp>
#include <cassert>
#include <cmath>
#include <libnurbs/Algorithm/MathUtils.hpp>
#include <libnurbs/Algorithm/DegreeAlgo.hpp>
#include <libnurbs/Basis/BSplineBasis.hpp>
#include <libnurbs/Core/BoundingBox.hpp>
#include <libnurbs/Core/Grid.hpp>
#include <libnurbs/Core/KnotVector.hpp>
#include <libnurbs/Curve/Curve.hpp>
#include <libnurbs/Geometry/GeomRect.hpp>
#include <libnurbs/Geometry/GeomSegment.hpp>
#include <libnurbs/Surface/Surface.hpp>
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <iostream>
#include <sstream>
#include <thread>
#include <unistd.h>
#include <atomic>
#include <sys/wait.h>
using namespace libnurbs;
#define CHECK(x) do { if (!(x)) { std::printf("FAILED: %s\n", #x); return 1; } } while (0)
static bool near(double a, double b, double tol = 1e-9) { return std::fabs(a - b) <= tol; }
static bool near(const Vec3& a, const Vec3& b, double tol = 1e-9) { return (a - b).norm() <= tol; }
static Curve mkCurve(int p, std::vector<double> k, std::vector<Vec4> c) { Curve r; r.Degree = p; r.Knots = KnotVector(k); r.ControlPoints = c; return r; }
static Surface mkSurface(int p, int q, std::vector<double> ku, std::vector<double> kv)
{
    Surface s; s.DegreeU = p; s.DegreeV = q; s.KnotsU = KnotVector(ku); s.KnotsV = KnotVector(kv);
    int nu = (int)ku.size() - p - 1, nv = (int)kv.size() - q - 1;
    s.ControlPoints = Grid<Vec4>(nu, nv);
    for (int j = 0; j < nv; ++j) for (int i = 0; i < nu; ++i)
        s.ControlPoints.Get(i, j) = Vec4(i, j, std::sin(1.3 * i + 2.1 * j), 1 + 0.5 * std::cos(i * 0.7 - j));
    return s;
}
[[maybe_unused]] static void unused() { (void)(bool (*)(double, double, double))near; (void)(bool (*)(const Vec3&, const Vec3&, double))near; (void)mkCurve; (void)mkSurface; }
'''

DEMO = r'''#!/bin/bash
# exits 0 when the behaviour is right, non-zero otherwise; run with cwd = the repository
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d /tmp/demo.XXXXXX) || exit 2
clang++-18 -stdlib=libc++ -std=c++23 -O1 -w %(flags)s -Iinclude -I/usr/include/eigen3 "$d/demo.cpp" $(find src -name '*.cpp') -o "$t/demo" -pthread || { rm -rf "$t"; exit 3; }
(cd "$t" && timeout 120 ./demo)
rc=$?
rm -rf "$t"
exit $rc
'''


def sh(cmd, cwd=None, timeout=600):
    return subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, executable="/bin/bash")


def tests(d):
    for f in ("build.sh", "test.sh"):
        s = open("/opt/vp/" + f).read().replace("/opt/vp/build.sh", d + "/build.sh").replace("/repo", d + "/repo")
        open(d + "/" + f, "w").write(s)
    r = sh(f"bash {d}/test.sh {d}/out.json")
    o = json.load(open(d + "/out.json"))
    base = json.load(open("/opt/vp/BASELINE.json"))
    stable = base.get("stable") or base.get("passed") or base.get("tests")
    miss = [t for t in stable if t not in o["passed"]]
    return miss, r.stdout


def mk(id, prop, needs, breaks, edits, demo, flags=""):
    d = tempfile.mkdtemp(prefix="plant.", dir="/tmp")
    try:
        os.makedirs(d + "/repo")
        sh(f"git -C /repo archive HEAD | tar -x -C {d}/repo && cd {d}/repo && git init -q . && git add -A && git -c user.name=x -c user.email=x@x commit -qm base")
        out = os.path.join(d, "bug")
        os.makedirs(out)
        open(out + "/demo.cpp", "w").write(PRE + "\nint main()\n{\n" + demo.strip("\n") + "\n    return 0;\n}\n")
        open(out + "/demo.sh", "w").write(DEMO % dict(flags=flags))
        r0 = sh(f"bash {out}/demo.sh", cwd=d + "/repo")
        if r0.returncode != 0:
            print(f"{id}: demo fails on the unchanged tree (rc {r0.returncode})\n{r0.stdout[-1500:]}")
            return False
        for f, old, new in edits:
            p = os.path.join(d, "repo", f)
            s = open(p).read()
            if s.count(old) != 1:
                print(f"{id}: {s.count(old)} occurrences in {f} of: {old[:60]!r}")
                return False
            open(p, "w").write(s.replace(old, new))
        open(out + "/patch.diff", "w").write(sh("git diff", cwd=d + "/repo").stdout)
        minus, cur = 0, None
        for l in open(out + "/patch.diff"):
            if l.startswith("--- a/"):
                cur = sh(f"git -C /repo show 41dafee:{l[6:].strip()}").stdout.split("\n")
            elif l.startswith("-") and l[1:].strip():
                minus += 1
                if l[1:].rstrip("\n") not in cur:
                    print(f"{id}: touches a line that is not original: {l.strip()}")
                    return False
        if not minus:
            print(f"{id}: changes no original line")
            return False
        r1 = sh(f"bash {out}/demo.sh", cwd=d + "/repo")
        if r1.returncode in (0, 3):
            print(f"{id}: demo does not show the change (rc {r1.returncode})\n{r1.stdout[-1500:]}")
            return False
        miss, o = tests(d)
        if miss:
            print(f"{id}: breaks stable tests {miss[:5]}\n{o[-500:] if len(miss) > 10 else ''}")
            return False
        json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(out + "/meta.json", "w"), indent=1)
        dst = os.path.join(VERIF, "seeded", id)
        shutil.rmtree(dst, ignore_errors=True)
        shutil.copytree(out, dst)
        print(f"{id}: ok ({prop}) demo rc {r1.returncode}: {r1.stdout.strip()[-150:]}")
        return True
    finally:
        shutil.rmtree(d, ignore_errors=True)
