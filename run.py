#!/usr/bin/env python3
"""Build a check from /repo's working tree, run it, and report.

  python3 run.py ID [--tier quick|thorough]     run one check
  python3 run.py ID --replay FILE               re-run the case of a replay file
  python3 run.py --setup                        build everything once
  python3 run.py --all [--tier T]               run all checks (for development)
"""
import argparse, glob, json, os, re, shlex, shutil, signal, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = os.path.join(REPO, "pairinteraction")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(HERE, "build"))
KNOWN = os.path.join(HERE, "known_findings.txt")
sys.path.insert(0, HERE)
from checks import CHECKS  # noqa: E402

NEED_WIGNER = {"MatrixElementCache", "MatrixElements", "State", "SystemOne", "SystemTwo",
               "PerturbativeInteraction", "HamiltonianOne", "HamiltonianTwo", "Interface", "SystemBase"}

BASE = ("-std=c++17 -fopenmp -DEIGEN_USE_BLAS -DEIGEN_USE_LAPACKE -DFMT_HEADER_ONLY=1 -DWITH_GSL "
        "-Dlapack_complex_double=std::complex<double> -Dlapack_complex_float=std::complex<float>")
VARIANT = {
    "plain": "-O1 -g1 -DNDEBUG",
    "sched": "-O1 -g1 -DNDEBUG -fsanitize=thread -D_GLIBCXX_EXTERN_TEMPLATE=0 -fno-builtin-memcpy "
             "-fno-builtin-memmove -fno-builtin-memset -fno-builtin-memcmp -Wno-tsan -DVERIF_SCHED",
}
LIBS = "-lopenblas -llapacke -lsqlite3 -lgsl -lgslcblas -lboost_serialization -lboost_program_options -lboost_filesystem -lboost_system -lpthread -ldl"


def boost_libs():
    out = []
    for l in LIBS.split():
        if l.startswith("-lboost"):
            n = l[2:]
            if not glob.glob(f"/usr/lib/x86_64-linux-gnu/lib{n}.*"):
                continue
        out.append(l)
    return " ".join(out)


def write_if_changed(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    try:
        with open(path) as f:
            if f.read() == text:
                return
    except OSError:
        pass
    with open(path, "w") as f:
        f.write(text)


def gen_headers():
    """EmbeddedDatabase.hpp and version.hpp, as CMake generates them."""
    gen = os.path.join(BUILD, "gen")
    with open(os.path.join(SRC, "databases", "quantum_defects.sql"), encoding="utf-8") as f:
        sql = f.read()
    vals = {"QUANTUM_DEFECT_DATABASE_CONTENT": sql, "VERSION_SOFTWARE": "v0.0.0",
            "VERSION_CACHE_MINOR": "0", "VERSION_CACHE": "v18", "VERSION_SETTINGS": "v18",
            "QUANTUM_DEFECT_DATABASE_SHA512": "0"}
    try:
        with open(os.path.join(SRC, "CMakeLists.txt")) as f:
            pass
    except OSError:
        pass
    for t in glob.glob(os.path.join(SRC, "*.hpp.in")):
        with open(t, encoding="utf-8") as f:
            text = f.read()
        text = re.sub(r"@(\w+)@", lambda m: vals.get(m.group(1), "0"), text)
        text = re.sub(r"\$\{(\w+)\}", lambda m: vals.get(m.group(1), "0"), text)
        write_if_changed(os.path.join(gen, os.path.basename(t)[:-3]), text)
    return gen


def nq(s):
    return s.replace("$", "$$").replace(" ", "$ ").replace(":", "$:")


def lib_sources(lib):
    if lib == "none":
        return []
    out = []
    for s in sorted(glob.glob(os.path.join(SRC, "*.cpp"))):
        stem = os.path.basename(s)[:-4]
        if stem == "main":
            continue
        if lib == "core":
            if stem in NEED_WIGNER:
                continue
            if needs_wigner(s):
                continue
        out.append(s)
    return out


_seen = {}


def needs_wigner(path, stack=()):
    """Does this source include the angular-momentum library, directly or through repo headers?"""
    if path in _seen:
        return _seen[path]
    if path in stack:
        return False
    try:
        with open(path, encoding="utf-8", errors="replace") as f:
            t = f.read()
    except OSError:
        return False
    r = "wignerSymbols" in t
    if not r:
        for inc in re.findall(r'^\s*#\s*include\s*"([^"]+)"', t, re.M):
            p = os.path.join(SRC, inc)
            if os.path.exists(p) and needs_wigner(p, stack + (path,)):
                r = True
                break
    _seen[path] = r
    return r


def gen_ninja(ids):
    gen = gen_headers()
    cxx = "g++"
    inc = f"-I{HERE}/harness -I{SRC} -I{gen} -isystem /usr/include/eigen3 -isystem {HERE}/stub"
    L = [f"base = {shlex_join(BASE)} {inc}",
         "rule cxx", "  command = $cxx $base $flags -MMD -MF $out.d -c $in -o $out", "  depfile = $out.d",
         "  deps = gcc", "  description = CXX $out",
         "rule ar", "  command = rm -f $out && ar crs $out $in", "  description = AR $out",
         "rule link", "  command = $cxx $lflags -o $out $in $libs", "  description = LINK $out",
         f"cxx = {cxx}"]
    made = set()

    def obj(src, variant, flags=""):
        tag = "repo" if src.startswith(SRC + "/") else "own"
        o = f"{BUILD}/{variant}/{tag}/{os.path.basename(src)}{('.' + str(abs(zhash(flags)))) if flags else ''}.o"
        if o not in made:
            made.add(o)
            L.append(f"build {nq(o)}: cxx {nq(src)}")
            L.append(f"  flags = {(VARIANT[variant] + ' ' + flags).replace('$', '$$')}")
        return o

    targets = []
    for i in ids:
        c = CHECKS[i]
        v = c["mode"]
        f = " ".join(c["flags"])
        objs = [obj(os.path.join(HERE, c["src"]), v, f)]
        for s in c["extra_src"]:
            if s.startswith("plain:"):
                objs.append(obj(os.path.join(HERE, s[6:]), "plain"))
            else:
                objs.append(obj(s.replace("@SRC", SRC) if s.startswith("@SRC") else os.path.join(HERE, s), v, f))
        if v == "sched":
            objs.append(obj(os.path.join(HERE, "harness/sched_rt.cpp"), "plain"))
        if c["lib"] != "none":
            a = f"{BUILD}/{v}/lib{c['lib']}.a"
            if a not in made:
                made.add(a)
                os_ = " ".join(nq(obj(s, v)) for s in lib_sources(c["lib"]))
                L.append(f"build {nq(a)}: ar {os_}")
            objs.append(a)
        exe = f"{BUILD}/bin/{i}"
        L.append(f"build {nq(exe)}: link {' '.join(nq(o) for o in objs)}")
        w = " ".join(f"-Wl,--wrap={x}" for x in c["wrap"])
        L.append(f"  lflags = -fopenmp -rdynamic {w}")
        libs = (boost_libs() if c["lib"] != "none" else "-lsqlite3 -lpthread -ldl") + " " + " ".join(c["libs"])
        L.append(f"  libs = {libs}")
        targets.append(exe)
    path = os.path.join(BUILD, "build.ninja" if len(ids) != 1 else f"build.{ids[0]}.ninja")
    write_if_changed(path, "\n".join(L) + "\n")
    return path, targets


def zhash(s):
    import zlib
    return zlib.crc32(s.encode())


def shlex_join(s):
    return " ".join(shlex.quote(x) for x in s.split()).replace("$", "$$")


def build(ids):
    path, targets = gen_ninja(ids)
    r = subprocess.run(["ninja", "-f", path, "-C", BUILD] + targets, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        sys.stdout.write(r.stdout[-6000:])
        return False
    return True


def load_known():
    known = {}
    try:
        with open(KNOWN) as f:
            for line in f:
                line = line.rstrip("\n")
                m = re.match(r"known: property=(\S+) key=(.*?) :: (.*)$", line)
                if m:
                    known.setdefault(m.group(1), {})[m.group(2)] = m.group(3)
    except OSError:
        pass
    return known


def run_harness(c, tier, only=None, timeout=None):
    tmp = tempfile.mkdtemp(prefix=f"run.{c['id']}.", dir=os.path.join(BUILD, "tmp"))
    env = dict(os.environ)
    env.update(MC_OUT=os.path.join(tmp, "out.json"), MC_CUR=os.path.join(tmp, "cur"), MC_TMP=tmp,
               VERIF_TIER=tier, OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", OPENBLAS_CORETYPE="Haswell",
               VERIF_REPO=REPO, VERIF_HERE=HERE, VERIF_GEN=os.path.join(BUILD, "gen"), LC_ALL="C",
               HOME=tmp, TMPDIR=tmp)
    env.pop("MC_ONLY", None)
    if only is not None:
        env["MC_ONLY"] = only
    exe = os.path.join(BUILD, "bin", c["id"])
    cmd = [exe]
    if c["driver"]:
        cmd = [x.replace("@HERE", HERE).replace("@EXE", exe) for x in c["driver"]]
    err = open(os.path.join(tmp, "stderr"), "w+")
    p = subprocess.Popen(cmd, cwd=tmp, env=env, stdout=subprocess.DEVNULL, stderr=err,
                         start_new_session=True)
    died = None
    try:
        rc = p.wait(timeout=timeout)
        if rc not in (0, 1):
            died = f"harness ended with status {rc}" if rc >= 0 else f"harness killed by signal {-rc}"
    except subprocess.TimeoutExpired:
        died = f"no end after {timeout} s"
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except OSError:
        pass
    p.wait()
    err.seek(0)
    errtext = err.read()[-8000:]
    err.close()
    rep = None
    try:
        with open(env["MC_OUT"]) as f:
            rep = json.load(f)
    except (OSError, ValueError):
        rep = None
    if rep is None:
        label = ""
        try:
            with open(env["MC_CUR"], "rb") as f:
                label = f.read().split(b"\0")[0].decode(errors="replace")
        except OSError:
            pass
        if died is None:
            died = "harness wrote no report"
        kind = "does not terminate" if died.startswith("no end") else "process dies"
        rep = dict(states=0, transitions=0, evaluations=0, traces=0, distinct=0, samples=[], info={},
                   counts={}, violations=[dict(key=f"{label} | {kind}", label=label,
                                               detail=died + "\n" + errtext[-1500:])])
    shutil.rmtree(tmp, ignore_errors=True)
    return rep, errtext


def run_check(i, tier, quiet=False):
    c = CHECKS[i]
    t0 = time.time()
    os.makedirs(os.path.join(BUILD, "tmp"), exist_ok=True)
    known = load_known().get(i, {})
    if not build([i]):
        print(f"check {i}: build failed")
        return 2
    tb = time.time() - t0
    limit = c["timeout"][0 if tier == "quick" else 1]
    rep, err = run_harness(c, tier, timeout=limit)
    viol = rep["violations"]
    confirmed = []
    if any(v["key"] not in known for v in viol):
        # Confirm by deterministic re-execution of single cases, else of the whole exploration.
        fresh = [v for v in viol if v["key"] not in known]
        again = None
        for v in fresh[:6]:
            r2, _ = run_harness(c, tier, only=v["label"], timeout=max(60, limit // 6)) if v["label"] else (None, "")
            if r2 and any(x["key"] == v["key"] for x in r2["violations"]):
                v["confirmed_by"] = "single-case replay"
                confirmed.append(v)
            elif r2 and r2["violations"] and any(x["label"] == v["label"] for x in r2["violations"]):
                v["confirmed_by"] = "single-case replay (other symptom)"
                confirmed.append(v)
            if confirmed:
                break
        if not confirmed:
            again, _ = run_harness(c, tier, timeout=limit)
            keys = {x["key"] for x in again["violations"]} - set(known)
            labels = {x["label"] for x in again["violations"] if x["key"] not in known}
            for v in fresh:
                if v["key"] in keys or v["label"] in labels:
                    v["confirmed_by"] = "second full exploration"
                    confirmed.append(v)
            if not confirmed:
                print(f"check {i}: {len(fresh)} unconfirmed report(s), not reproduced twice: "
                      + "; ".join(v["key"][:200] for v in fresh[:3]))
    for v in viol:
        if v["key"] in known:
            print(f"KNOWN-FINDING: property={i} {v['key']} :: {known[v['key']]}")
    cov = {"states": rep["states"], "transitions": rep["transitions"],
           "traces_validated_against_impl": rep["traces"], "evaluations": rep["evaluations"],
           "distinct_nontrivial": rep["distinct"], "rule": c["rule"], "samples": rep["samples"] or ["none"],
           "exhaustive": "stopped_early" not in rep["info"], "build_s": round(tb, 1)}
    cov.update({k: v for k, v in rep["info"].items() if k not in cov})
    cov.update({"n_" + k: v for k, v in rep["counts"].items()})
    ev = {"property": i, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
          "level": c["level"], "coverage": cov, "assumptions": c["assumptions"],
          "wall_s": round(time.time() - t0, 2), "violations": len(confirmed)}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", f"{i}.json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    print(f"check {i}: states={rep['states']} transitions={rep['transitions']} traces={rep['traces']} "
          f"evaluations={rep['evaluations']} distinct={rep['distinct']} violations={len(confirmed)} "
          f"known={sum(v['key'] in known for v in viol)} build={tb:.0f}s wall={time.time()-t0:.0f}s")
    if confirmed:
        os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
        path = os.path.join(HERE, "replays", f"{i}.json")
        with open(path, "w") as f:
            json.dump({"property": i, "tier": tier, "violations": confirmed,
                       "all": [v for v in viol if v["key"] not in known][:50]}, f, indent=1)
        for v in confirmed[:3]:
            print(f"  {v['key'][:400]}\n    {v['detail'][:600]}")
        print(f"VIOLATION property={i} replay={path}")
        return 1
    return 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id", nargs="*")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--setup", action="store_true")
    ap.add_argument("--all", action="store_true")
    ap.add_argument("--replay")
    a = ap.parse_args()
    os.makedirs(os.path.join(BUILD, "tmp"), exist_ok=True)
    if a.setup:
        ok = build(sorted(CHECKS)) if CHECKS else True
        print("setup:", "ok" if ok else "build failed")
        return 0 if ok else 1
    if a.replay:
        with open(a.replay) as f:
            r = json.load(f)
        c = CHECKS[r["property"]]
        if not build([r["property"]]):
            return 2
        bad = 0
        for v in r["violations"]:
            rep, err = run_harness(c, r["tier"], only=v["label"], timeout=900)
            print(json.dumps(rep["violations"], indent=1))
            print(err)
            bad |= bool(rep["violations"])
        return bad
    rc = 0
    for i in (sorted(CHECKS) if a.all else a.id):
        rc = max(rc, run_check(i, a.tier))
        sys.stdout.flush()
    return rc


if __name__ == "__main__":
    sys.exit(main())
