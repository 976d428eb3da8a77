#!/usr/bin/env python3
"""Driver of the runtime monitors.

  run.py check ID              quick or thorough (VERIF_TIER), seed VERIF_SEED
  run.py replay ID FILE        run one recorded case again
  run.py build                 compile everything (setup_cmd)
  run.py list

Everything is compiled from the current tree of /repo into /verif/.build
(git-ignored), keyed by the content of the sources.
"""
import fcntl, glob, hashlib, json, os, shutil, struct, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("MONAA_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")
OUT = os.path.join(VERIF, ".out")
H = os.path.join(VERIF, "harness")
JOBS = 8
os.environ["PATH"] = "/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"

sys.path.insert(0, VERIF)
from checks import CHECKS, BINS  # noqa: E402


class CheckError(Exception):
    pass


def sha(paths, extra=""):
    h = hashlib.sha256(extra.encode())
    for p in sorted(paths):
        h.update(p.encode())
        with open(p, "rb") as f:
            h.update(f.read())
    return h.hexdigest()[:20]


def repo_sources():
    r = []
    for d in ("libmonaa", "monaa"):
        for ext in ("*.cc", "*.hh", "*.h", "*.l", "*.yy", "*.hpp", "*.cpp"):
            r += glob.glob(os.path.join(REPO, d, ext))
    return r


FLAVOUR = {
    "opt": ["-O1", "-g1"],
    "san": ["-O1", "-g1", "-fno-omit-frame-pointer", "-D_GLIBCXX_ASSERTIONS",
            "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined"],
}


def sh(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if p.returncode != 0:
        raise CheckError("command failed: %s\n%s" % (" ".join(cmd), p.stdout[-6000:]))
    return p.stdout


class Builder:
    """Builds the objects and binaries a check needs, in parallel."""

    def __init__(self):
        os.makedirs(BUILD, exist_ok=True)
        self.lock = open(os.path.join(BUILD, "lock"), "w")
        fcntl.flock(self.lock, fcntl.LOCK_EX)
        self.key = sha(repo_sources(), "repo")
        self.dir = os.path.join(BUILD, self.key)
        os.makedirs(self.dir, exist_ok=True)
        os.utime(self.dir)
        # keep the build directories of the two last trees only
        ds = [d for d in glob.glob(os.path.join(BUILD, "*")) if os.path.isdir(d)]
        for d in sorted(ds, key=os.path.getmtime)[:-2]:
            shutil.rmtree(d, ignore_errors=True)

    def gen(self):
        g = os.path.join(self.dir, "gen")
        if os.path.exists(os.path.join(g, "ok")):
            return g
        os.makedirs(g, exist_ok=True)
        sh(["bison", "-o", "tre_parser.tab.cc", "--defines=tre_parser.tab.hh",
            os.path.join(REPO, "monaa/tre_parser.yy")], cwd=g)
        sh(["flex", "-o", "tre_lexer.yy.cc", os.path.join(REPO, "monaa/tre_lexer.l")], cwd=g)
        open(os.path.join(g, "ok"), "w").close()
        return g

    def units(self, kind):
        """Library units of /repo: kind in lib, tre, monaa, tre2ta."""
        g = self.gen() if kind != "lib" else None
        mains = {"main.cc", "tre2ta.cc"}
        lib = sorted(glob.glob(os.path.join(REPO, "libmonaa", "*.cc")))
        if kind == "lib":
            return lib
        tre = [p for p in sorted(glob.glob(os.path.join(REPO, "monaa", "*.cc")))
               if os.path.basename(p) not in mains]
        r = lib + tre + [os.path.join(g, "tre_parser.tab.cc"), os.path.join(g, "tre_lexer.yy.cc")]
        if kind == "monaa":
            r.append(os.path.join(REPO, "monaa/main.cc"))
        if kind == "tre2ta":
            r.append(os.path.join(REPO, "monaa/tre2ta.cc"))
        return r

    def build(self, targets):
        """targets: list of (bin, flavour); returns {target: path}."""
        objs, links, result = {}, [], {}
        hh = sorted(glob.glob(os.path.join(H, "*.hh")))
        for name, fl in targets:
            spec = BINS[name]
            srcs = [os.path.join(H, s) for s in spec.get("src", [])] + self.units(spec["units"])
            fkey = hashlib.sha256(" ".join(FLAVOUR[fl]).encode()).hexdigest()[:6]
            mine = []
            for s in srcs:
                in_h = s.startswith(H)
                k = sha([s] + (hh if in_h else []), fl + fkey)
                o = os.path.join(self.dir, os.path.basename(s) + "." + k + ".o")
                objs[o] = (s, FLAVOUR[fl])
                mine.append(o)
            b = os.path.join(self.dir, name + "." + fl + "." +
                             hashlib.sha256(" ".join(mine).encode()).hexdigest()[:10])
            result[(name, fl)] = b
            links.append((b, mine, fl, spec))
        inc = ["-I" + os.path.join(REPO, "libmonaa"), "-I" + os.path.join(REPO, "monaa"),
               "-I" + os.path.join(self.dir, "gen"), "-I/usr/include/eigen3", "-I" + H,
               "-DMONAA_VERSION=\"HEAD\"", "-DPROJECT_ROOT_DIR=\"" + REPO + "\""]

        def cc(o):
            s, fl = objs[o]
            if os.path.exists(o):
                return
            tmp = o + ".tmp"
            sh(["g++", "-std=c++20", "-w"] + fl + inc + ["-c", s, "-o", tmp])
            os.rename(tmp, o)

        def ld(x):
            b, mine, fl, spec = x
            if os.path.exists(b):
                return
            sh(["g++"] + FLAVOUR[fl] + mine + spec.get("link", []) +
               ["-lboost_program_options", "-lboost_graph", "-o", b + ".tmp"])
            os.rename(b + ".tmp", b)

        order = sorted(objs, key=lambda o: -os.path.getsize(objs[o][0]))
        with ThreadPoolExecutor(JOBS) as ex:
            list(ex.map(cc, order))
            list(ex.map(ld, links))
        return result

    def done(self):
        fcntl.flock(self.lock, fcntl.LOCK_UN)
        self.lock.close()


ENV = dict(os.environ,
           ASAN_OPTIONS="detect_leaks=0:abort_on_error=1:handle_abort=0:allocator_may_return_null=1"
                        ":detect_stack_use_after_return=0",
           UBSAN_OPTIONS="print_stacktrace=1:halt_on_error=1:abort_on_error=1", LC_ALL="C")


def load_known(pid):
    """(id, case hash, text) of the listed findings of this property."""
    r = []
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("known: ") and ("property=" + pid + " ") in line:
                f = dict(x.split("=", 1) for x in line.split() if "=" in x and not x.startswith("what="))
                what = line[line.index("what=") + 5:] if "what=" in line else line
                r.append({"case": f["case"], "monitor": f.get("monitor"), "what": what})
    return r


def body(text):
    return "\n".join(l for l in text.splitlines() if not l.startswith("#")).strip()


def run_native(pid, spec, tier, seed, bins, out):
    res = {"n": {}, "samples": [], "hashes": set(), "viol": [], "timeouts": 0, "crashes": 0,
           "evaluations": 0, "monitors": {}}
    known = load_known(pid)
    known_bodies = {}
    for k in known:
        known_bodies[body(open(os.path.join(VERIF, k["case"])).read())] = k
    env = dict(ENV)
    for (n, fl), b in bins.items():
        env["MON_BIN_" + n.upper()] = b
    for mon in spec["monitors"]:
        cases = mon[tier][0]
        cap = mon[tier][1]
        fl = mon.get("flavour", "opt")
        b = bins[(mon["bin"], fl)]
        d = os.path.join(out, mon["name"] + "-" + fl)
        os.makedirs(d, exist_ok=True)
        env["MON_SCRATCH"] = d
        env.pop("MON_ONLY_CRASH", None)
        if mon.get("crash_only"):
            env["MON_ONLY_CRASH"] = "1"
        procs = []
        for i in range(JOBS):
            procs.append(subprocess.Popen(
                [b, mon["name"], "--seed", str(seed), "--cases", str(cases), "--shard", str(i),
                 "--shards", str(JOBS), "--time", str(cap), "--out", d],
                env=env, stdout=subprocess.DEVNULL,
                stderr=open(os.path.join(d, "runner%d.err" % i), "w"), cwd=d))
        for i, p in enumerate(procs):
            if p.wait() != 0:
                raise CheckError("runner %s shard %d exited with %d: %s" % (
                    mon["name"], i, p.returncode,
                    open(os.path.join(d, "runner%d.err" % i)).read()[-2000:]))
        ev = 0
        tmo = 0
        for i in range(JOBS):
            j = json.load(open(os.path.join(d, "s%d.json" % i)))
            res["timeouts"] += j["timeouts"]
            tmo += j["timeouts"]
            res["crashes"] += j["crashes"]
            for blk in j["blocks"]:
                for k, v in blk["n"].items():
                    if k == "evaluations":
                        ev += v
                        continue
                    kk = mon["name"] + "/" + k
                    if k.startswith("max:"):
                        res["n"][kk] = max(res["n"].get(kk, 0), v)
                    else:
                        res["n"][kk] = res["n"].get(kk, 0) + v
                for s in blk["samples"]:
                    if sum(1 for x in res["samples"] if x["monitor"] == mon["name"]) < 2:
                        res["samples"].append({"monitor": mon["name"], "case": s[:1500]})
            hp = os.path.join(d, "s%d.hash" % i)
            if os.path.exists(hp):
                data = open(hp, "rb").read()
                for q in range(0, len(data) - 7, 8):
                    res["hashes"].add((mon["name"], struct.unpack_from("<Q", data, q)[0]))
        res["evaluations"] += ev
        res["monitors"][mon["name"]] = {"evaluations": ev, "flavour": fl, "timeouts": tmo}
        for f in sorted(glob.glob(os.path.join(d, "*.case"))):
            base = os.path.basename(f)
            if "-timeout-" in base:
                continue
            text = open(f, errors="replace").read()
            msg = [l for l in text.splitlines() if l.startswith("# ") and ": " in l]
            if body(text) in known_bodies:
                continue
            res["viol"].append((f, mon["name"], msg[0][2:] if msg else base))
        if ev == 0 and not res["viol"]:
            raise CheckError("monitor %s observed nothing" % mon["name"])
        if ev and tmo > max(8, (0.12 if mon.get("crash_only") else 0.03) * ev) and not res["viol"]:
            raise CheckError("monitor %s: %d of %d cases were inconclusive (CPU limit)" % (
                mon["name"], tmo, ev))
        if res["viol"]:
            break
    # listed findings: say so as long as they still fail
    for k in known:
        mon = [m for m in spec["monitors"] if m["name"] == k["monitor"]] or [spec["monitors"][0]]
        b = bins[(mon[0]["bin"], mon[0].get("flavour", "opt"))]
        try:
            p = subprocess.run([b, mon[0]["name"], "--replay", os.path.join(VERIF, k["case"])],
                               env=env, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=60)
            rc = p.returncode
        except subprocess.TimeoutExpired:
            rc = 1
        if rc != 0:
            print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    return res


def check(pid):
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    spec = CHECKS[pid]
    out = os.path.join(OUT, pid)
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    b = Builder()
    try:
        need = {(m["bin"], m.get("flavour", "opt")) for m in spec["monitors"] if "bin" in m}
        need |= set(spec.get("extra", []))
        bins = b.build(sorted(need))
    finally:
        b.done()
    tb = time.time()
    if "python" in spec:
        res = spec["python"](pid, tier, seed, bins, out, ENV)
    else:
        res = run_native(pid, spec, tier, seed, bins, out)
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": res["evaluations"],
            "distinct_nontrivial": len(res["hashes"]),
            "rule": spec["rule"],
            "samples": res["samples"],
            "observed": dict(sorted(res["n"].items())),
            "monitors": res["monitors"],
            "inconclusive_timeouts": res["timeouts"],
            "build_s": round(tb - t0, 1),
        },
        "assumptions": spec.get("assumptions", []),
        "wall_s": round(time.time() - t0, 1),
        "violations": len(res["viol"]),
    }
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s: %d evaluations, %d distinct non-trivial, %d inconclusive, %.0f s (build %.0f s)" % (
        pid, res["evaluations"], len(res["hashes"]), res["timeouts"], time.time() - t0, tb - t0))
    for k, v in sorted(res["n"].items()):
        print("   %-50s %s" % (k, v))
    if res["viol"]:
        for f, mon, msg in res["viol"][:5]:
            print("VIOLATION property=%s replay=%s" % (pid, f))
            print("   monitor %s: %s" % (mon, msg[:600]))
        return 1
    if len(res["hashes"]) == 0:
        raise CheckError("no non-trivial case was observed")
    return 0


def main():
    a = sys.argv[1:]
    try:
        if a[:1] == ["check"] and len(a) == 2:
            return check(a[1])
        if a[:1] == ["build"]:
            need = set()
            for s in CHECKS.values():
                need |= {(m["bin"], m.get("flavour", "opt")) for m in s["monitors"] if "bin" in m}
                need |= set(s.get("extra", []))
            b = Builder()
            b.build(sorted(need))
            b.done()
            return 0
        if a[:1] == ["replay"] and len(a) == 3:
            spec = CHECKS[a[1]]
            text = open(a[2], errors="replace").read()
            name = text.split("# monitor ", 1)[1].split()[0] if "# monitor " in text else spec["monitors"][0]["name"]
            m = [m for m in spec["monitors"] if m["name"] == name][0]
            b = Builder()
            bins = b.build(sorted({(m["bin"], m.get("flavour", "opt"))} | set(spec.get("extra", []))))
            b.done()
            env = dict(ENV)
            for (n, fl), p in bins.items():
                env["MON_BIN_" + n.upper()] = p
            return subprocess.call([bins[(m["bin"], m.get("flavour", "opt"))], name, "--replay", os.path.abspath(a[2])], env=env)
        if a[:1] == ["list"]:
            for k, s in CHECKS.items():
                print(k, s["title"], [m["name"] for m in s["monitors"]])
            return 0
    except CheckError as e:
        print("CHECK-ERROR:", e, file=sys.stderr)
        return 2
    print(__doc__, file=sys.stderr)
    return 2


if __name__ == "__main__":
    sys.exit(main())
