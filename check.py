#!/usr/bin/env python3
"""Runs the check of one property:  check.py C01 [--tier quick|thorough]

Builds the library from /repo's current working tree (content-addressed cache under /verif/build), links it
with harness/<id>.cpp, runs the exhaustive exploration, replays every reported failure, subtracts the recorded
known findings, writes evidence/<id>.json. Exit 0: held on everything explored. Exit 1: VIOLATION.
"""
import concurrent.futures as cf, glob, hashlib, json, os, shutil, subprocess, sys, threading, time

ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = os.path.join(REPO, "src")
BUILD = os.path.join(ROOT, "build")
HAR = os.path.join(ROOT, "harness")
SAN = ["-fsanitize=address,bounds,null,object-size,return,unreachable,vla-bound,bool,enum", "-fno-sanitize-recover=all"]
COMMON = ["-g1", "-O1", "-fno-omit-frame-pointer", "-ftrivial-auto-var-init=pattern", "-w", "-DUSE_STDONLY", "-DUBTC_TEST", "-I" + SRC]
LIB32 = ["/usr/lib32/" + x for x in ("libstdc++.so.6", "libm.so.6", "libc.so.6", "ld-linux.so.2", "libgcc_s.so.1")]


def m32_flags():
    """flags of the 32-bit variant (compile C, compile C++, link), or None where the 32-bit runtime is not installed"""
    res = subprocess.run(["clang", "-print-resource-dir"], stdout=subprocess.PIPE).stdout.decode().strip()
    rt = [os.path.join(res, "lib/linux/libclang_rt.%s-i386.a" % x) for x in ("asan", "builtins")]
    gxx = sorted(glob.glob("/usr/include/c++/*"))
    if not gxx or not all(os.path.exists(x) for x in LIB32 + rt):
        return None
    c = ["-m32", "-fno-pic", "-nostdinc"]
    tail = ["-isystem", os.path.join(HAR, "m32"), "-isystem", res + "/include", "-isystem", "/usr/include/x86_64-linux-gnu", "-isystem", "/usr/include"]
    cxx = ["-nostdinc++", "-isystem", gxx[-1], "-isystem", "/usr/include/x86_64-linux-gnu/c++/" + os.path.basename(gxx[-1])]
    link = ["-m32", "-nostdlib", "-nostartfiles", "-no-pie", "-Wl,--dynamic-linker=" + LIB32[3], "-Wl,-rpath,/usr/lib32"] + LIB32 + [rt[1]]
    return c + tail, c + cxx + tail, link


VARIANTS = {  # per-variant flags: (all files, C only, C++ only, link)
    "san": (COMMON + SAN, [], [], []),
}


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b"\0")
    return h.hexdigest()[:20]


def tree_files():
    out = []
    for d, _, fs in os.walk(SRC):
        for f in fs:
            if f.endswith((".c", ".cpp", ".h", ".table", ".hpp", ".inc")):
                out.append(os.path.join(d, f))
    return sorted(out)


def run(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode:
        sys.stderr.write(" ".join(cmd) + "\n" + p.stdout.decode(errors="replace")[-4000:])
        raise SystemExit(3)


def build_lib(variant, extra=()):
    flags = VARIANTS[variant][0] + list(extra)
    fc, fx = VARIANTS[variant][1:3]
    files = tree_files()
    key = sha(*([" ".join(flags + fc + fx)] + [f + "\0" + hashlib.sha256(open(f, "rb").read()).hexdigest() for f in files]))
    d = os.path.join(BUILD, "lib-" + key)
    lib = os.path.join(d, "libubtc.a")
    if os.path.exists(lib):
        os.utime(d)
        return lib, key
    tmp = d + ".tmp%d.%d" % (os.getpid(), threading.get_ident())
    os.makedirs(tmp, exist_ok=True)
    jobs, objs = [], []
    for f in files:
        if not f.endswith((".c", ".cpp")):
            continue
        o = os.path.join(tmp, os.path.relpath(f, SRC).replace("/", "_") + ".o")
        objs.append(o)
        jobs.append((["clang++", "-std=c++11"] + fx if f.endswith(".cpp") else ["clang"] + fc) + flags + ["-c", f, "-o", o])
    if variant == "m32":
        objs.append(os.path.join(tmp, "crt.o"))
        jobs.append(["clang", "-m32", "-fno-pic", "-w", "-c", os.path.join(HAR, "m32", "crt.c"), "-o", objs[-1]])
    with cf.ThreadPoolExecutor(8) as ex:
        list(ex.map(run, jobs))
    run(["ar", "rcs", os.path.join(tmp, "libubtc.a")] + objs)
    for o in objs:
        os.remove(o)
    try:
        os.rename(tmp, d)
    except OSError:
        shutil.rmtree(tmp, ignore_errors=True)
    return lib, key


def prune():
    ds = []
    for d in glob.glob(os.path.join(BUILD, "*")):
        try:
            ds.append((os.path.getmtime(d), d))
        except OSError:
            pass
    for _, d in sorted(ds)[:-240]:
        shutil.rmtree(d, ignore_errors=True)


def build_module(name, src, extra):
    """shared object: the library's sources in another build configuration + a harness file with a C interface"""
    flags = [f for f in COMMON if f != "-DUSE_STDONLY"] + SAN + ["-fPIC", "-fvisibility=hidden", "-I" + HAR] + extra
    files = tree_files()
    hdrs = glob.glob(os.path.join(HAR, "conf.h")) + glob.glob(os.path.join(HAR, "arduino", "*"))
    key = sha(*([" ".join(flags)] + [f + "\0" + hashlib.sha256(open(f, "rb").read()).hexdigest() for f in files + [src] + hdrs]))
    d = os.path.join(BUILD, "mod-%s-%s" % (name, key))
    so = os.path.join(d, "m.so")
    if os.path.exists(so):
        os.utime(d)
        return so
    tmp = d + ".tmp%d.%d" % (os.getpid(), threading.get_ident())
    os.makedirs(tmp, exist_ok=True)
    jobs, objs = [], []
    for f in [x for x in files if x.endswith((".c", ".cpp"))] + [src]:
        o = os.path.join(tmp, os.path.relpath(f, SRC).replace("/", "_") + ".o")
        objs.append(o)
        jobs.append((["clang++", "-std=c++11"] if f.endswith(".cpp") else ["clang"]) + flags + ["-c", f, "-o", o])
    try:
        with cf.ThreadPoolExecutor(8) as ex:
            list(ex.map(run, jobs))
        run(["clang++", "-shared", "-Wl,-Bsymbolic"] + SAN + objs + ["-o", os.path.join(tmp, "m.so")])
    except SystemExit:  # the tree does not build in this configuration: it cannot be explored
        sys.stderr.write("configuration %s does not build\n" % name)
        shutil.rmtree(tmp, ignore_errors=True)
        return ""
    for o in objs:
        os.remove(o)
    try:
        os.rename(tmp, d)
    except OSError:
        shutil.rmtree(tmp, ignore_errors=True)
    return so


def build_harness(pid, variant="san"):
    src = os.path.join(HAR, pid + ".cpp")
    first = open(src).read()
    libextra, harextra = [], []
    for line in first.splitlines()[:12]:
        if line.startswith("// LIBFLAGS:"):
            libextra = line.split(":", 1)[1].split()
        if line.startswith("// LDFLAGS:"):
            harextra = line.split(":", 1)[1].split()
    flags = VARIANTS[variant][0] + VARIANTS[variant][2]
    link = VARIANTS[variant][3]
    for line in first.splitlines()[:12]:
        if line.startswith("// MODULE:"):  # // MODULE: <name> <source>: <flags>
            head, mf = line[len("// MODULE:"):].split(":", 1)
            name, msrc = head.split()
            flags.append('-DMODULE_%s="%s"' % (name, build_module(name, os.path.join(HAR, msrc), mf.replace("@", HAR).split())))
    deps = sorted(glob.glob(os.path.join(HAR, "*.h"))) + [src] + [f for f in tree_files() if f.endswith((".h", ".hpp"))]
    ok = sha(" ".join(flags), *[open(f, "rb").read() for f in deps])
    od = os.path.join(BUILD, "obj-%s-%s" % (pid, ok))
    obj = os.path.join(od, pid + ".o")

    def build_obj():
        if os.path.exists(obj):
            os.utime(od)
            return
        tmp = od + ".tmp%d.%d" % (os.getpid(), threading.get_ident())
        os.makedirs(tmp, exist_ok=True)
        run(["clang++", "-std=c++17"] + flags + ["-I" + HAR, "-c", src, "-o", os.path.join(tmp, pid + ".o")])
        try:
            os.rename(tmp, od)
        except OSError:
            shutil.rmtree(tmp, ignore_errors=True)

    with cf.ThreadPoolExecutor(1) as ex:
        fo = ex.submit(build_obj)
        lib, key = build_lib(variant, libextra)
        fo.result()
    hk = sha(key, ok, " ".join(harextra))
    d = os.path.join(BUILD, "bin-%s-%s" % (pid, hk))
    binp = os.path.join(d, pid)
    if not os.path.exists(binp):
        tmp = d + ".tmp%d.%d" % (os.getpid(), threading.get_ident())
        os.makedirs(tmp, exist_ok=True)
        run(["clang++", "-std=c++17"] + flags + [obj, lib, "-o", os.path.join(tmp, pid)] + harextra + link)
        try:
            os.rename(tmp, d)
        except OSError:
            shutil.rmtree(tmp, ignore_errors=True)
    return binp


def known(pid):
    out = {}
    p = os.path.join(ROOT, "known_findings.txt")
    for line in open(p) if os.path.exists(p) else []:
        line = line.strip()
        # finding: property=<id> space=<space> key=<key> :: what fails
        if line.startswith("finding: property=%s " % pid):
            head, what = line[len("finding: "):].split(" :: ", 1)
            f = dict(x.split("=", 1) for x in head.split(" ", 2))
            out[(f["space"], f["key"])] = what
    return out


def coverage(res, meta):
    common = {"choice_points": res["choice_points"], "exhaustive": not res["failures"], "spaces": res["spaces"],
              "outcomes": res["outcomes"], "samples": res["samples"][:12], "bounds": meta.get("bounds", ""),
              "state_table_overflow": res["state_table_overflow"]}
    if meta.get("level") == "fault_enumeration":
        common.update({"evaluations": res["executions"], "distinct_nontrivial": res["states"],
                       "operations": res["operations"],
                       "rule": meta.get("rule", "every choice vector of every space was executed; non-trivial = distinct fingerprint of (scenario, fault point, observed result)")})
    else:
        common.update({"states": res["states"], "transitions": res["operations"],
                       "traces_validated_against_impl": res["executions"],
                       "rule": "every choice vector of every space was executed on the real code; states = distinct "
                               "inputs/observed states (64-bit fingerprints), transitions = library operations executed "
                               "and judged, traces = complete executions compared with the reference model"})
    return common


def plan(pid, tier):
    """what a check explores: [(harness, variant, prefix of its spaces)], or (None, reason)"""
    head = dict(l[3:].split(":", 1) for l in open(os.path.join(HAR, pid + ".cpp")).read().splitlines()[:12] if l.startswith(("// TARGET:", "// RUN32:", "// RUN32-THOROUGH:")))
    if head.get("TARGET", "").strip() != "m32":
        return [(pid, "san", "")], ""
    fl = m32_flags()
    if fl is None:
        return None, "skipped: the 32-bit runtime libraries are not installed"
    VARIANTS["m32"] = (COMMON + SAN,) + fl
    lst = head["RUN32-THOROUGH" if tier == "thorough" else "RUN32"].split()
    return [(pid, "m32", "")] + [(x.split("/")[0], "m32", x.partition("/")[2]) for x in lst], ""


def explore(binp, tier, only, keep):
    """runs one explorer; None: no answer"""
    outp = os.path.join(os.path.dirname(binp), "out.%d.json" % os.getpid())
    cmd = [binp, "--tier", tier, "--out", outp] + (["-j", os.environ["VERIF_J"]] if "VERIF_J" in os.environ else [])
    cmd += (["--only", only] if only else []) + (["--keep-going"] if keep else [])
    rc = subprocess.run(cmd).returncode
    if not os.path.exists(outp):
        # the code crashed or hung while the inputs were being built with it (before any space was explored)
        p = subprocess.run(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)
        log = p.stderr.decode(errors="replace")
        sys.stderr.write("explorer produced no result (rc=%d, again rc=%d)\n%s" % (rc, p.returncode, log[-3000:]))
        if os.path.exists(outp) or rc in (2, 3, -9) or p.returncode in (2, 3, -9):
            return None
        return {"spaces": [], "executions": 1, "operations": 1, "choice_points": 0, "states": 1, "state_table_overflow": 0, "outcomes": {}, "samples": [],
                "failures": [{"space": "setup", "key": "crash-in-setup", "vec": "-", "msg": "the library crashes or hangs on valid inputs while the scenarios are built: " + log[-1200:]}]}
    res = json.load(open(outp))
    os.remove(outp)
    return res


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    os.makedirs(BUILD, exist_ok=True)
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    reps = os.path.join(ROOT, "replays")
    os.makedirs(reps, exist_ok=True)
    kf = known(pid)
    parts, note = plan(pid, tier)
    if parts is None:
        json.dump({"property": pid, "tier": tier, "seed": seed, "level": "model_checking", "coverage": {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "rule": note},
                   "assumptions": [note], "violations": 0, "wall_s": round(time.time() - t0, 2)}, open(os.path.join(ROOT, "evidence", pid + ".json"), "w"), indent=1)
        print("%s %s: %s" % (pid, tier, note))
        return 0
    with cf.ThreadPoolExecutor(8) as ex:  # several harnesses: compiled in parallel
        if len(parts) > 1:
            build_lib(parts[0][1])
        bins = list(ex.map(lambda x: build_harness(x[0], x[1]), parts))
    prune()
    tb = time.time() - t0
    res, binof = None, {}
    for (hid, variant, only), binp in zip(parts, bins):
        r = explore(binp, tier, only, bool(kf))
        if r is None:
            return 3
        pre = "" if hid == pid else hid + "/"
        for x in r["spaces"] + r["failures"]:
            x["space"] = pre + x["space"]
        for x in r["failures"]:
            binof[x["space"]] = (binp, x["space"][len(pre):])
        if res is None:
            res = r
        else:
            for k in ("executions", "operations", "choice_points", "states", "state_table_overflow"):
                res[k] += r[k]
            for k in ("spaces", "failures", "samples"):
                res[k] += r[k]
            for k, v in r["outcomes"].items():
                res["outcomes"][k] = res["outcomes"].get(k, 0) + v
        if r["failures"] and not kf:
            break
    new, old = [], {}
    for f in res["failures"]:
        k = (f["space"], f["key"])
        if k in kf:
            old[k] = f
        else:
            new.append(f)
    confirmed = None
    for f in new[:6]:
        rep = os.path.join(reps, "%s-%s.json" % (pid, sha(f["space"], f["vec"])[:10]))
        binp, sp = binof[f["space"]]
        rcmd = [binp, "--tier", tier] + ([] if sp == "setup" else ["--replay", sp, f["vec"]])
        hang = f["key"].startswith("hang:") or sp == "setup"
        same = 0
        for _ in range(2):
            try:
                p = subprocess.run(rcmd, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, timeout=30 if hang else 120)
                log, bad = p.stderr.decode(errors="replace"), p.returncode != 0
            except subprocess.TimeoutExpired as e:
                log, bad = "timeout", True
            same += bad
        f["replay_command"] = "python3 check.py %s --tier %s --replay %s %s" % (pid, tier, f["space"], f["vec"])
        f["replay_log"] = log[-6000:]
        f["replays_reproducing"] = "%d of 2" % same
        json.dump(f, open(rep, "w"), indent=1)
        if same and confirmed is None:
            confirmed = (f, rep)
    nviol = len(new)
    # a failure that does not reproduce depends on the order of executions in one process: still a violation
    # (state leaking between objects), reported with the exploration itself as the replay
    if new and confirmed is None:
        f = new[0]
        confirmed = (f, os.path.join(reps, "%s-%s.json" % (pid, sha(f["space"], f["vec"])[:10])))
    meta = {}
    mp = os.path.join(ROOT, "harness", "meta.json")
    if os.path.exists(mp):
        meta = json.load(open(mp)).get(pid, {})
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": meta.get("level", "model_checking"),
        "coverage": coverage(res, meta),
        "assumptions": meta.get("assumptions", []),
        "violations": nviol, "known_findings_hit": len(old),
        "build_s": round(tb, 2), "wall_s": round(time.time() - t0, 2),
    }
    json.dump(ev, open(os.path.join(ROOT, "evidence", pid + ".json"), "w"), indent=1)
    for k, what in kf.items():
        if k in old:
            print("KNOWN-FINDING: property=%s %s" % (pid, what))
    if confirmed:
        f, rep = confirmed
        print("%s: %s / %s\n%s" % (pid, f["space"], f["key"], f["msg"]))
        print("VIOLATION property=%s replay=%s" % (pid, rep))
        return 1
    print("%s %s: ok, %d executions, %d states, %d operations, %.1f s" % (pid, tier, res["executions"], res["states"], res["operations"], time.time() - t0))
    return 0


if __name__ == "__main__":
    if "--replay" in sys.argv:
        i = sys.argv.index("--replay")
        pid, sp, vec = sys.argv[1], sys.argv[i + 1], sys.argv[i + 2]
        tier = sys.argv[sys.argv.index("--tier") + 1] if "--tier" in sys.argv else "quick"
        os.makedirs(BUILD, exist_ok=True)
        parts, note = plan(pid, tier)
        hid, variant = parts[0][:2]
        if len(parts) > 1 and sp.partition("/")[0] in [x[0] for x in parts]:
            hid, _, sp = sp.partition("/")
        sys.exit(subprocess.run([build_harness(hid, variant), "--tier", tier, "--replay", sp, vec]).returncode)
    sys.exit(main())
