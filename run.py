#!/usr/bin/env python3
"""Build one property's harness from /repo's working tree and run it.

usage: run.py PROP [--tier quick|thorough] [--seed N] [--scale F] [--replay FILE] [--build-only]
"""
import argparse, concurrent.futures as cf, fcntl, glob, hashlib, json, os, shutil, signal, subprocess, sys, time

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
SUT = os.path.join(REPO, "preload-src")
BUILD = os.path.join(V, "build")
# default file names of the code under test, inside the scratch directory of a case
DIRS = [f'-D{m}="/tmp/.vp-root{d}"' for m, d in (("SYSCONFDIR", "/etc"), ("PKGLOCALSTATEDIR", "/var/lib/preload"), ("LOGDIR", "/var/log"))]
SAN = ["-fsanitize=address", "-fno-omit-frame-pointer"]
LEVEL = {}

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

def fail(msg, code=2):
    print("ERROR:", msg)
    sys.exit(code)

def make_var(name):
    r = sh(["make", "-s", "--no-print-directory", "-C", SUT, "--eval", f"vp-print: ; @echo '$({name})'", "vp-print"])
    if r.returncode:
        fail("cannot read the Makefile: " + r.stdout)
    return r.stdout.strip().replace('\\"', '"').split()

def h(*parts):
    d = hashlib.sha256()
    for p in parts:
        d.update(p if isinstance(p, bytes) else p.encode())
        d.update(b"\0")
    return d.hexdigest()[:20]

def rd(p):
    with open(p, "rb") as f:
        return f.read()

def pkg(flag):
    return sh(["pkg-config", flag, "glib-2.0"]).stdout.split()

def compile_one(job):
    out, cmd, cwd = job
    if os.path.exists(out):
        return None
    tmp = f"{out}.{os.getpid()}.tmp"
    r = sh(cmd + ["-o", tmp], cwd=cwd)
    if r.returncode:
        return " ".join(cmd) + "\n" + r.stdout
    os.replace(tmp, out)
    return None

def sut_jobs(extra, tag):
    """Objects of the code under test, from the Makefile's own lists and flags."""
    srcs = make_var("SRCS")
    cflags = [f for f in make_var("CFLAGS") if not f.startswith(("-W", "-O", "-g"))]
    inc = [f for f in cflags if f.startswith("-I")]
    hdr = h(*[rd(p) for p in sorted(glob.glob(SUT + "/src/**/*.h", recursive=True))])
    jobs = []
    for s in srcs:
        fl = ["clang", "-w", "-O1", "-g1"] + cflags + DIRS + extra
        if s.endswith("daemon/preload.c"):
            fl += ["-Dmain=preload_main"]
        o = os.path.join(BUILD, f"sut-{tag}-{os.path.basename(s)}-{h(rd(os.path.join(SUT, s)), hdr, ' '.join(fl), s)}.o")
        jobs.append((o, fl + ["-c", s], SUT))
    return jobs, inc

def build(check):
    os.makedirs(BUILD, exist_ok=True)
    lock = open(os.path.join(BUILD, ".lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        # C19 needs a callback at every branch of the code under test (points where a signal may arrive)
        jobs, inc = sut_jobs(SAN + ["-fsanitize-coverage=trace-pc-guard"], "asancov") if check == "C19" else sut_jobs(SAN, "asan")
        sutobjs = [j[0] for j in jobs]
        sutinc = [("-I" + os.path.join(SUT, i[2:])) if not i.startswith("-I/") else i for i in inc]
        sut_hdr = h(*[rd(p) for p in sorted(glob.glob(SUT + "/src/**/*.h", recursive=True))])
        own_hdr = h(*[rd(p) for p in sorted(glob.glob(V + "/src/*.h"))])
        cxx = ["clang++", "-std=c++17", "-O1", "-g1", "-Wall", "-Wno-unused-function", "-D_GNU_SOURCE",
               "-DREPO_DIR=\"%s\"" % REPO] + SAN + pkg("--cflags") + sutinc
        objs = []
        def own(name):
            p = os.path.join(V, "src", name)
            o = os.path.join(BUILD, f"{name}-{h(rd(p), own_hdr, sut_hdr, ' '.join(cxx))}.o")
            jobs.append((o, cxx + ["-c", p], V)); objs.append(o)
        for n in ("engine.cpp", "world.cpp", "model.cpp", "sim.cpp", check.lower() + ".cpp"):
            own(n)
        with cf.ThreadPoolExecutor(os.cpu_count() or 4) as ex:
            errs = [e for e in ex.map(compile_one, jobs) if e]
        if errs:
            fail("build failed\n" + errs[0])
        exe = os.path.join(BUILD, f"{check}-{h(*sutobjs, *objs)}")
        e = compile_one((exe, ["clang++"] + SAN + objs + sutobjs + pkg("--libs") + ["-lm", "-ldl"], V))
        if e:
            fail("link failed\n" + e)
        if check == "C21":   # the installed program itself, its configuration as built, and what contains the installer
            srcs = make_var("SRCS"); fl = [f for f in make_var("CFLAGS") if not f.startswith("-g")]
            tree = h(*[rd(p) for p in sorted(glob.glob(SUT + "/src/**/*.[ch]", recursive=True))], *srcs, *fl)
            os.environ["VP_DAEMON"] = os.path.join(BUILD, f"daemon-{tree}")
            os.environ["VP_SHIM"] = os.path.join(BUILD, "shim-%s.so" % h(rd(V + "/src/c21_shim.c")))
            for j in ((os.environ["VP_DAEMON"], ["gcc", "-w"] + fl + srcs + make_var("LDFLAGS"), SUT),
                      (os.environ["VP_SHIM"], ["gcc", "-w", "-shared", "-fPIC", "-O1", "-fno-delete-null-pointer-checks", V + "/src/c21_shim.c", "-ldl"], V)):
                e = compile_one(j)
                if e:
                    fail("build failed\n" + e)
            os.environ["VP_CONF"] = os.path.join(BUILD, "shipped-%s.conf" % tree)
            with open(os.environ["VP_CONF"], "w") as f:
                f.write("# shipped\n[model]\ncycle = 20\n\n[system]\ndoscan = true\n")
        # keep the build directory small
        old = sorted((os.path.getmtime(p), p) for p in glob.glob(BUILD + "/*") if time.time() - os.path.getmtime(p) > 3 * 3600)
        for _, p in old[:200]:
            try: os.unlink(p)
            except OSError: pass
        return exe
    finally:
        fcntl.flock(lock, fcntl.LOCK_UN)

def known_findings(prop):
    """signature -> text, from the committed known-findings file."""
    k = {}
    p = os.path.join(V, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("known: property=" + prop + " "):
                rest = l.split(" ", 2)[2]
                sig, _, txt = rest.partition(" ")
                k[sig.replace("sig=", "", 1)] = txt
    return k

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", default=os.environ.get("VERIF_SEED", "1"))
    ap.add_argument("--scale", default="1")
    ap.add_argument("--limit", default=None)
    ap.add_argument("--replay")
    ap.add_argument("--mode")
    ap.add_argument("--case")
    ap.add_argument("--build-only", action="store_true")
    a = ap.parse_args()
    t0 = time.time()
    exe = build(a.prop)
    if a.build_only:
        return 0
    env = dict(os.environ)
    env["ASAN_OPTIONS"] = ("detect_leaks=0:exitcode=99:allocator_may_return_null=1:handle_abort=1:quarantine_size_mb=8:"
                           "detect_odr_violation=0:max_allocation_size_mb=1024:malloc_context_size=12:symbolize=1:"
                           "detect_stack_use_after_return=0")
    env["ASAN_SYMBOLIZER_PATH"] = shutil.which("llvm-symbolizer") or shutil.which("llvm-symbolizer-18") or ""
    env.pop("G_SLICE", None)
    if a.replay or a.case:
        cmd = [exe, "--seed", a.seed] + (["--replay", a.replay] if a.replay else ["--case", a.case, "--mode", a.mode or "0"])
        p = subprocess.Popen(cmd, env=env)
        rc = p.wait()
        shutil.rmtree(f"/dev/shm/vp.{p.pid}", ignore_errors=True)
        if rc == 1 and a.replay:
            print(f"VIOLATION property={a.prop} replay={a.replay}")
        return rc
    out = os.path.join(BUILD, f"{a.prop}.{os.getpid()}.json")
    limit = a.limit or ("420" if a.tier == "quick" else "3600")
    known = known_findings(a.prop)
    cmd = [exe, "--tier", a.tier, "--seed", a.seed, "--out", out, "--scale", a.scale, "--limit", limit,
           "--jobs", str(os.cpu_count() or 4)]
    if a.mode: cmd += ["--mode", a.mode]
    for s in known: cmd += ["--known", s]
    p = subprocess.Popen(cmd, env=env, start_new_session=True)
    try:
        rc = p.wait()
    except BaseException:
        os.killpg(p.pid, signal.SIGKILL); p.wait(); shutil.rmtree(f"/dev/shm/vp.{p.pid}", ignore_errors=True)
        raise
    shutil.rmtree(f"/dev/shm/vp.{p.pid}", ignore_errors=True)
    if rc not in (0, 1) or not os.path.exists(out):
        fail(f"harness ended with status {rc}")
    with open(out) as f:
        r = json.load(f)
    os.unlink(out)
    viol = [f for f in r["failures"] if not f["known"]]
    ev = {"property": a.prop, "tier": a.tier if a.tier in ("quick", "thorough") else "quick", "seed": int(a.seed),
          "level": level_of(a.prop),
          "coverage": {"evaluations": r["evaluations"], "distinct_nontrivial": r["distinct_nontrivial"], "rule": r["rule"],
                       "samples": r["samples"], "planned": r["planned"], "passed": r["passed"], "skipped": r["skipped"],
                       "skip_reasons": r["skips"], "nontrivial": r["nontrivial"], "labels": r["labels"], "counters": r["counters"],
                       "unstable": r["unstable"], "generation_s": r["gen_s"]},
          "assumptions": ["operating system simulated below the libc interface (process table, memory and battery reports, clock, prefetch calls, faults)",
                          "code under test compiled from the working tree by clang 18 with AddressSanitizer"],
          "wall_s": round(time.time() - t0, 2), "violations": len(viol)}
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    with open(os.path.join(V, "evidence", a.prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print(f"{a.prop} tier={a.tier} seed={a.seed}: {r['evaluations']} cases, {r['distinct_nontrivial']} distinct non-trivial, "
          f"{r['skipped']} skipped, {r['unstable']} unstable, {ev['wall_s']} s")
    code = 0
    for f in r["failures"]:
        if f["known"]:
            print(f"KNOWN-FINDING: property={a.prop} {f['sig']} {known.get(f['sig'], '')}")
            continue
        os.makedirs(os.path.join(V, "replays"), exist_ok=True)
        rp = os.path.join(V, "replays", f"{a.prop}-{f['sig'].replace('/', '_').replace(' ', '_')}-{h(json.dumps(f['tape']))[:8]}.json")
        with open(rp, "w") as o:
            json.dump({"property": a.prop, "mode": f["mode"], "tape": f["tape"], "sig": f["sig"], "mode_name": f["mode_name"],
                       "message": f["message"].split("\n"), "description": f["description"].split("\n"), "seed": int(a.seed),
                       "how_to_replay": f"python3 run.py {a.prop} --replay {rp}"}, o, indent=1)
        print(f["message"][:3000])
        print(f"VIOLATION property={a.prop} replay={rp}")
        code = 1
    return code

def level_of(prop):
    try:
        for c in json.load(open(os.path.join(V, "MANIFEST.json")))["checks"]:
            if c["property"] == prop:
                return c["level"]
    except (OSError, ValueError, KeyError):
        pass
    return "exploration"

if __name__ == "__main__":
    sys.exit(main())
