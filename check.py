#!/usr/bin/env python3
"""Builds and runs the checker of one property against the working tree of
/repo. Usage: check.py PROPERTY [--thorough] [--keep] [--unit U] [--scenario S]

Exit 0: the property held on every execution explored. Exit 1: violation (a
VIOLATION line is printed). Exit 2: the check itself could not run."""
import concurrent.futures as cf, json, os, re, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
CXX = next((p for p in ("/usr/bin/clang++-17", "clang++-17", "clang++") if shutil.which(p)), "clang++")
LD = next((p for p in ("/usr/bin/clang++-18", "clang++-18") if shutil.which(p)), CXX)  # only it ships the ASan runtime
BASE = ["-std=c++20", "-stdlib=libc++", "-U_FORTIFY_SOURCE", "-fno-omit-frame-pointer",
        "-w", "-iquote", REPO, "-iquote", os.path.join(HERE, "harness")]
WRAP = ["-Wl,--wrap=" + s for s in ("exit", "_exit", "_Exit", "quick_exit", "abort")]
sys.path.insert(0, HERE)
from units import CHECKS  # noqa: E402


def log(*a):
    print(*a, flush=True)


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def lib_sources():
    """Every non-test source of the library, found by looking at the tree."""
    out = []
    for d, _, fs in os.walk(os.path.join(REPO, "best")):
        for f in sorted(fs):
            p = os.path.relpath(os.path.join(d, f), REPO)
            if f.endswith(".cc") and not f.endswith("_test.cc") and "/test/" not in p \
                    and "/cli/" not in p:
                out.append(p)
    return sorted(out)


CLI = ["best/cli/cli.cc", "best/cli/parser.cc", "best/cli/app.cc"]


def load_known(prop):
    known = {}
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line.strip())
            if m and m.group(1) == prop:
                known[m.group(2)] = m.group(3)
    return known


def main():
    args = sys.argv[1:]
    prop = args.pop(0)
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in args:
        tier = "thorough"
    keep = "--keep" in args
    only_unit = args[args.index("--unit") + 1] if "--unit" in args else None
    only_scn = args[args.index("--scenario") + 1] if "--scenario" in args else None
    replay = args[args.index("--replay") + 1] if "--replay" in args else None
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    jobs = os.cpu_count() or 8
    cfg = CHECKS[prop]
    t0 = time.time()
    work = tempfile.mkdtemp(prefix=f"mc-{prop}-")
    try:
        return go(prop, cfg, tier, seed, jobs, work, t0, only_unit, only_scn, replay)
    finally:
        if keep:
            log("kept", work)
        else:
            shutil.rmtree(work, ignore_errors=True)


def go(prop, cfg, tier, seed, jobs, work, t0, only_unit, only_scn, replay):
    thorough = tier == "thorough"
    units = [u for u in cfg["units"] if not only_unit or u["name"] == only_unit]
    # ---- build -----------------------------------------------------------
    tasks = {}

    def obj(src, flags, tag):
        key = (src, tuple(flags))
        if key not in tasks:
            o = os.path.join(work, f"{len(tasks):03d}-{tag}.o")
            tasks[key] = ([CXX, *BASE, *flags, "-c", src, "-o", o], o)
        return tasks[key][1]

    links = []
    for u in units:
        san = u.get("san", ["-fsanitize=address"])
        flags = [u.get("opt", "-O1"), "-gline-tables-only", *san]
        objs = [obj(os.path.join(HERE, "harness", u["src"]),
                    flags + ["-D" + d for d in u.get("defs", []) + (u.get("tdefs", []) if thorough else [])], u["name"])]
        objs.append(obj(os.path.join(HERE, "harness", "mc.cc"), ["-O1", *san], "mc"))
        srcs = lib_sources()
        if u.get("cli"):
            srcs = srcs + CLI
        for s in srcs:
            fl = list(flags)
            if s.endswith("/app.cc"):
                fl.append("-Dmain=best_unused_main")
            objs.append(obj(os.path.join(REPO, s), fl, s.replace("/", "_")))
        exe = os.path.join(work, u["name"])
        links.append((u, [LD, "-stdlib=libc++", "-fuse-ld=lld", *san, *WRAP, *("-Wl,--wrap=" + s for s in u.get("wrap", [])), *objs, "-o", exe, "-lm"], exe))
    errs = []
    # The harness objects are the slow ones: start them first.
    order = sorted(tasks.values(), key=lambda t: 0 if HERE in t[0][-3] else 1)
    with cf.ThreadPoolExecutor(jobs) as ex:
        for r, (cmd, o) in zip(ex.map(lambda t: run(t[0], cwd=REPO), order), order):
            if r.returncode:
                errs.append((cmd[-3], r.stdout))
        if not errs:
            for r, l in zip(ex.map(lambda l: run(l[1]), links), links):
                if r.returncode:
                    errs.append((l[0]["name"], r.stdout))
    if errs:
        for n, e in errs:
            log(f"BUILD ERROR in {n}:\n{e[:4000]}")
        # The library builds, but a documented use of it no longer does.
        uses = [(n, e) for n, e in errs if n.startswith(HERE)]
        if len(uses) == len(errs) and all(": error: " in e and "PLEASE submit a bug report" not in e
                                          and "unable to execute" not in e for _, e in uses):
            rd = os.path.join(HERE, "evidence", "replay")
            os.makedirs(rd, exist_ok=True)
            rp = os.path.join(rd, f"{prop}-build.txt")
            open(rp, "w").write("".join(f"does not compile against the working tree: {n}\n{e[:20000]}\n" for n, e in uses))
            ev = dict(property=prop, tier=tier, seed=seed, level="model_checking",
                      coverage=dict(states=0, transitions=0, traces_validated_against_impl=0, exhaustive=False,
                                    samples=["(none)"], note="the harness does not compile against the working tree"),
                      wall_s=round(time.time() - t0, 2), assumptions=cfg.get("assumptions", []), violations=1)
            write_evidence(prop, ev)
            log(f"VIOLATION property={prop} replay={rp}")
            return 1
        return 2
    t_build = time.time() - t0
    # ---- explore ---------------------------------------------------------
    known = load_known(prop)
    kf = os.path.join(work, "known")
    open(kf, "w").write("".join(k + "\n" for k in known))
    env = dict(os.environ)
    env["ASAN_OPTIONS"] = ("detect_leaks=0:quarantine_size_mb=32:allocator_may_return_null=0:"
                           "max_allocation_size_mb=4096:handle_abort=0:detect_stack_use_after_return=0:"
                           "abort_on_error=0:exitcode=99")
    env["UBSAN_OPTIONS"] = "halt_on_error=1:print_stacktrace=0"
    scns, hits, viol, bad = [], {}, None, []
    for u, _, exe in links:
        out = os.path.join(work, u["name"] + ".jsonl")
        cmd = [exe, "--out", out, "--jobs", str(jobs), "--known", kf, "--limit",
               str(u.get("limit", 200) if not thorough else u.get("tlimit", 1500))]
        if thorough:
            cmd.append("--thorough")
        if only_scn:
            cmd += ["--scenario", only_scn]
        if replay:
            cmd += ["--replay", replay]
            log(run(cmd, env=env, cwd=work).stdout)
            continue
        r = run(cmd, env=env, cwd=work)
        if r.returncode not in (0, 1):
            bad.append(f"{u['name']} exited {r.returncode}: {r.stdout[-2000:]}")
        if not os.path.exists(out):
            # It never got to main(): constructing the globals failed.
            why = "ended before main(): " + re.sub(r"[^ -~\n]", "?", r.stdout)[-1500:]
            bad.pop()
            viol = dict(unit=u["name"], scenario="startup", violation=dict(why=why, key="startup", choices="", trace=""))
            break
        for line in open(out):
            d = json.loads(line)
            d["unit"] = u["name"]
            scns.append(d)
            for k, n in d["known"].items():
                hits[k] = hits.get(k, 0) + n
            if d.get("violation") and not viol:
                viol = d
            if d.get("unconfirmed"):
                bad.append(f"{u['name']}/{d['scenario']}: unconfirmed failure {d['unconfirmed']}")
        if viol:
            break
    if replay:
        return 0
    for d in scns:
        log(f"  {d['unit']}/{d['scenario']}: executions={d['executions']} transitions={d['steps']} "
            f"states={d['states']} pruned={d['pruned']}{' CAPPED' if d['capped'] else ''} {d['wall']}s")
    # ---- evidence --------------------------------------------------------
    ex, st, sta = (sum(d[k] for d in scns) for k in ("executions", "steps", "states"))
    samples = [f"{d['scenario']}: {s}" for d in scns for s in d["samples"][:2]][:40]
    cov = dict(states=sta, transitions=st, traces_validated_against_impl=ex, samples=samples or ["(none)"],
               pruned_by_state_matching=sum(d["pruned"] for d in scns),
               exhaustive=not any(d["capped"] for d in scns),
               build_s=round(t_build, 1),
               scenarios=[dict(name=d["unit"] + "/" + d["scenario"], bounds=d["bounds"], executions=d["executions"],
                               transitions=d["steps"], states=d["states"], capped=bool(d["capped"])) for d in scns],
               note="states: distinct canonical reference-model states/inputs reached; transitions: operations applied "
                    "to the real code and compared with the reference model; traces: complete executions of the real "
                    "code, one per choice vector enumerated")
    viols = []
    if viol:
        viols.append(f"{viol['unit']}/{viol['scenario']}: {viol['violation']['why']}")
    ev = dict(property=prop, tier=tier, seed=seed, level="model_checking", coverage=cov,
              wall_s=round(time.time() - t0, 2), assumptions=cfg.get("assumptions", []), violations=len(viols))
    write_evidence(prop, ev)
    for k, n in sorted(hits.items()):
        log(f"KNOWN-FINDING: property={prop} {k}: {known[k]} ({n} executions)")
    if viol:
        v = viol["violation"]
        rd = os.path.join(HERE, "evidence", "replay")
        os.makedirs(rd, exist_ok=True)
        rp = os.path.join(rd, f"{prop}-{viol['unit']}-{viol['scenario']}.txt")
        with open(rp, "w") as f:
            f.write(f"property: {prop}\nunit: {viol['unit']}\nscenario: {viol['scenario']}\nchoices: {v['choices']}\n"
                    f"failure: {v['why']}\nkey: {v['key']}\ntrace: {v['trace']}\n"
                    f"replay: cd {HERE} && python3 check.py {prop} {'--thorough ' if thorough else ''}--unit {viol['unit']} "
                    f"--scenario {viol['scenario']} --replay '{v['choices'] or '-'}'\n")
        log(f"  {viol['unit']}/{viol['scenario']}: {v['why']}\n  trace: {v['trace'][:1500]}")
        log(f"VIOLATION property={prop} replay={rp}")
        return 1
    if bad:
        for b in bad:
            log("ERROR", b)
        return 2
    if not scns or any(d["executions"] + d["pruned"] == 0 for d in scns):
        log("ERROR: vacuous exploration")
        return 2
    log(f"OK property={prop} tier={tier} executions={ex} transitions={st} states={sta} "
        f"build={t_build:.1f}s wall={time.time() - t0:.1f}s")
    return 0


def write_evidence(prop, ev):
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    p = os.path.join(HERE, "evidence", prop + ".json")
    with open(p + ".tmp", "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(p + ".tmp", p)


if __name__ == "__main__":
    sys.exit(main())
