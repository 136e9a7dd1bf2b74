#!/usr/bin/env python3
"""Builds /repo's current sources together with an explorer and runs it.

  check.py <property> [--tier quick|thorough] [--replay FILE] [--keep] [--only TASK] [--verbose]

exit 0: the property held on everything explored; exit 1: a line
"VIOLATION property=<id> replay=<path>" was printed; exit 2: no answer (build or harness problem).
"""
import sys, os, json, glob, subprocess, shutil, time, argparse
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, os.path.join(HERE, "tools"))
from stages import STAGES, VARIANTS, PERMIT, ASSUMPTIONS, RULES  # noqa: E402

HEAPFN = ["malloc", "calloc", "realloc", "free", "reallocarray", "aligned_alloc", "posix_memalign", "strdup", "strndup"]


class Infra(Exception):
    pass


def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode != 0:
        raise Infra("command failed: %s\n%s" % (" ".join(cmd), r.stdout[-6000:]))
    return r.stdout


def lib_sources(v):
    src = sorted(glob.glob(os.path.join(REPO, "src", "**", "*.c"), recursive=True))
    return [s for s in src if not any(x in s for x in v.get("exclude", []))]


_libs, _exps = {}, {}  # compiled in this run: library objects per variant, explorers per source


_futs = {}  # compilations of explorers


def explorers(stage, pool):
    """Starts (once) the compilation of the explorers of a stage."""
    v, out = VARIANTS[stage["variant"]], []
    inc = ["-I" + os.path.join(REPO, "include"), "-I" + os.path.join(REPO, "src")]

    def exp(src, o):
        src, cpp = os.path.join(HERE, "src", src), not src.endswith(".c")
        run([v["cxx"] if cpp else v["cc"], "-c", src, "-o", o, "-DZYCORE_STATIC_BUILD", "-pthread", "-I" + os.path.join(HERE, "src")]
            + (["-std=c++17"] if cpp else PERMIT) + v["xflags"] + stage.get("defs", []) + inc)
        return o

    for s in stage["src"]:
        key = (v.get("x", stage["variant"]), s, tuple(stage.get("defs", [])))
        if key not in _futs:
            _futs[key] = pool.submit(exp, s, os.path.join(_futs["dir"], "exp%02d.o" % len(_futs)))
        out.append(_futs[key])
    return out


def build(stage, bdir, pool):
    v = VARIANTS[stage["variant"]]
    key = (stage["variant"], tuple(stage["src"]), tuple(stage.get("defs", [])), tuple(stage.get("ld", [])))
    if key in _exps:
        return _exps[key]
    inc = ["-I" + os.path.join(REPO, "include"), "-I" + os.path.join(REPO, "src")]
    objs = []

    def lib(src, i):
        o = os.path.join(bdir, "lib%02d_%s.o" % (i, os.path.basename(src)))
        run([v["cc"], "-c", src, "-o", o, "-DZYCORE_STATIC_BUILD", "-pthread"] + (PERMIT if v["cc"] == "clang" else []) + v["cflags"] + inc)
        if v.get("heap", True):
            cmd = ["objcopy"]
            for f in HEAPFN:
                cmd += ["--redefine-sym", "%s=zyv_%s" % (f, f)]
            run(cmd + [o])
        if v.get("prefix"):
            run(["objcopy"] + v["prefix"] + [o])
        return o

    futs = explorers(stage, pool)
    if stage["variant"] not in _libs:
        lf = [pool.submit(lib, s, i) for i, s in enumerate(lib_sources(v))]
        _libs[stage["variant"]] = [f.result() for f in lf]
        if v.get("extra"):
            _libs[stage["variant"]] += v["extra"](REPO, HERE, bdir, run, objs, len(stage["src"]))
    objs = [f.result() for f in futs] + _libs[stage["variant"]]
    exe = os.path.join(bdir, "explorer")
    run(v.get("link", [v["cxx"]]) + objs + ["-o", exe, "-pthread"] + v["ldflags"] + stage.get("ld", []))
    _exps[key] = exe
    return exe


def known_findings(prop):
    out = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("finding: property=%s " % prop):
                out.append(l.split(" ", 2)[2])
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--only")
    ap.add_argument("--verbose", action="store_true")
    ap.add_argument("--keep", action="store_true")
    a = ap.parse_args()
    prop = a.prop
    t0 = time.time()
    stages = STAGES[prop]
    jobs = str(min(os.cpu_count() or 4, 16))
    tot = dict(execs=0, states=0, trans=0, faults=0, closed=0, open=0, maxdepth=0, tasks=0)
    samples, notes, viol, infra, per = [], [], None, None, []
    root = os.path.join(HERE, "build", "%s.%s.%d" % (prop, a.tier, os.getpid()))
    shutil.rmtree(root, ignore_errors=True)
    os.makedirs(root)
    _futs["dir"] = root
    with ThreadPoolExecutor(int(jobs)) as pool:
        for st in stages:
            if not st.get("tiers") or a.tier in st["tiers"]:
                explorers(st, pool)
        for si, st in enumerate(stages):
            if st.get("tiers") and a.tier not in st["tiers"]:
                continue
            bdir = os.path.join(root, "s%d" % si)
            os.makedirs(bdir)
            try:
                exe = build(st, bdir, pool)
            except Infra as e:
                infra = str(e)
                break
            bt = time.time()
            cmd = [exe, "--prop", prop, "--tier", a.tier, "--outdir", bdir, "--jobs", jobs] + st.get("args", [])
            if a.replay:
                rl = open(a.replay).read()
                sl = [l for l in rl.splitlines() if l.startswith("stage: ")]
                if sl and int(sl[0][7:]) != si:
                    continue
                cmd += ["--replay", a.replay]
            if a.only:
                cmd += ["--only", a.only]
            if a.verbose:
                cmd += ["--verbose"]
            env = dict(os.environ)
            env["ASAN_OPTIONS"] = "detect_leaks=0:allocator_may_return_null=1:max_allocation_size_mb=2048:quarantine_size_mb=8:malloc_context_size=6:abort_on_error=0:detect_stack_use_after_return=0:handle_abort=1"
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", env=env)
            if a.replay:
                print(r.stdout + r.stderr)
                if not a.keep:
                    shutil.rmtree(root, ignore_errors=True)
                return r.returncode
            sys.stderr.write(r.stderr[-8000:])
            rj = os.path.join(bdir, "result.json")
            if r.returncode not in (0, 1) or not os.path.exists(rj):
                infra = "stage %d: explorer ended with status %d\n%s" % (si, r.returncode, r.stderr[-3000:])
                if not (r.returncode == 2 and os.path.exists(rj)):
                    break
            res = json.load(open(rj))
            for k in tot:
                tot[k] = max(tot[k], res[k]) if k == "maxdepth" else tot[k] + res[k]
            samples += res["samples"][:8]
            notes += res["notes"]
            per.append(dict(stage=si, explorer=st["src"], variant=st["variant"], executions=res["execs"], states=res["states"],
                            transitions=res["trans"], injected_faults=res["faults"], searches_closed=res["closed"],
                            searches_depth_bounded=res["open"], max_depth=res["maxdepth"], tasks=res["tasks"],
                            explore_s=res["wall"], build_s=round(bt - t0, 1)))
            if r.returncode == 1:
                os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
                viol = os.path.join(HERE, "replays", prop + ".txt")
                txt = open(os.path.join(bdir, "violation.txt"), errors="replace").read()
                open(viol, "w").write("stage: %d\ntier: %s\n" % (si, a.tier) + txt)
                break
    if not a.keep:
        shutil.rmtree(root, ignore_errors=True)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    states, trans = tot["states"], tot["trans"]
    ev = dict(property=prop, tier=a.tier, seed=int(os.environ.get("VERIF_SEED", "1") or 1), level="model_checking",
              coverage=dict(states=states, transitions=trans, traces_validated_against_impl=tot["execs"],
                            samples=samples[:12], injected_faults=tot["faults"],
                            rule=RULES.get(prop, ""), searches_closed=tot["closed"], searches_depth_bounded=tot["open"],
                            max_depth=tot["maxdepth"], tasks=tot["tasks"], exhaustive=infra is None and viol is None,
                            explorations=per, notes=notes),
              assumptions=ASSUMPTIONS.get(prop, []) + ASSUMPTIONS["*"],
              wall_s=round(time.time() - t0, 2), violations=1 if viol else 0)
    if not infra or viol:
        json.dump(ev, open(os.path.join(HERE, "evidence", prop + ".json"), "w"), indent=1)
    for k in known_findings(prop):
        print("KNOWN-FINDING: property=%s %s" % (prop, k))
    if viol:
        print("VIOLATION property=%s replay=%s" % (prop, viol))
        return 1
    if infra:
        print("NO ANSWER property=%s: %s" % (prop, infra))
        return 2
    print("OK property=%s executions=%d states=%d transitions=%d wall=%.1fs" % (prop, tot["execs"], states, trans, time.time() - t0))
    return 0


if __name__ == "__main__":
    sys.exit(main())
