#!/usr/bin/env python3
"""Driver: builds Merlin++ from /repo's working tree (content-addressed objects), builds one harness,
runs its sections, confirms every failure by replay, applies the known-findings file, writes evidence.

  tools/mc.py check ID [--tier quick|thorough]
  tools/mc.py replay FILE
  tools/mc.py setup
"""
import concurrent.futures as cf
import hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("MC_REPO", "/repo")
SRC = os.path.join(REPO, "Merlin++")
BUILD = os.path.join(VERIF, ".build")
HARN = os.path.join(VERIF, "harness")
JOBS = os.cpu_count() or 8
CXX = "g++"
BASE = ["-std=c++14", "-O1", "-g0", "-DNDEBUG", "-pipe", "-w", "-D_GLIBCXX_ASSERTIONS", "-fno-omit-frame-pointer",
        "-fsanitize=address", "-ftrivial-auto-var-init=pattern"]


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        if isinstance(p, str):
            p = p.encode()
        h.update(len(p).to_bytes(8, "little"))
        h.update(p)
    return h.hexdigest()[:24]


def read(p):
    with open(p, "rb") as f:
        return f.read()


_cxxver = None


def cxxver():
    global _cxxver
    if _cxxver is None:
        _cxxver = subprocess.run([CXX, "--version"], capture_output=True, text=True).stdout
    return _cxxver


def headers_digest(dirs):
    parts = []
    for d in dirs:
        for f in sorted(os.listdir(d)):
            if f.endswith((".h", ".hpp", ".inl")):
                parts += [f, read(os.path.join(d, f))]
    return sha(*parts)


def compile_one(src, incs, flags, hdr):
    key = sha(cxxver(), " ".join(flags), hdr, os.path.basename(src), read(src))
    obj = os.path.join(BUILD, "obj", os.path.basename(src) + "." + key + ".o")
    if os.path.exists(obj):
        try:
            os.utime(obj)
        except OSError:
            pass
        return obj, None
    tmp = obj + ".%d.tmp" % os.getpid()
    r = subprocess.run([CXX] + flags + ["-I" + i for i in incs] + ["-c", src, "-o", tmp], capture_output=True, text=True)
    if r.returncode:
        return None, "compiling %s failed:\n%s" % (src, r.stderr[-4000:])
    os.replace(tmp, obj)
    return obj, None


def build(harness_src, flags):
    os.makedirs(os.path.join(BUILD, "obj"), exist_ok=True)
    os.makedirs(os.path.join(BUILD, "bin"), exist_ok=True)
    lib = [os.path.join(SRC, f) for f in sorted(os.listdir(SRC)) if f.endswith(".cpp") and f != "MerlinVersion.cpp"]
    hdr = headers_digest([SRC])
    hdr2 = sha(hdr, headers_digest([HARN]))
    jobs = []
    with cf.ThreadPoolExecutor(JOBS) as ex:
        if harness_src:
            for s in harness_src + [os.path.join(HARN, "mc.cpp"), os.path.join(HARN, "version_stub.cpp")]:
                jobs.append(ex.submit(compile_one, s, [HARN, SRC], flags, hdr2))
        # big files first
        lib.sort(key=lambda p: -os.path.getsize(p))
        for s in lib:
            jobs.append(ex.submit(compile_one, s, [SRC], flags, hdr))
        objs = []
        for j in jobs:
            o, err = j.result()
            if err:
                print("BUILD-ERROR " + err)
                sys.exit(3)
            objs.append(o)
    if not harness_src:
        return None
    exe = os.path.join(BUILD, "bin", os.path.basename(harness_src[0])[:-4] + "." + sha(*objs))
    if not os.path.exists(exe):
        rsp = exe + ".rsp"
        with open(rsp, "w") as f:
            f.write("\n".join(objs))
        r = subprocess.run([CXX] + flags + ["@" + rsp, "-o", exe + ".tmp"], capture_output=True, text=True)
        os.unlink(rsp)
        if r.returncode:
            print("BUILD-ERROR link failed:\n" + r.stderr[-4000:])
            sys.exit(3)
        os.replace(exe + ".tmp", exe)
    return exe


def prune_cache():
    for sub, limit in (("obj", 3 << 30), ("bin", 1 << 30)):
        d = os.path.join(BUILD, sub)
        try:
            fs = sorted(((os.path.getmtime(os.path.join(d, f)), os.path.getsize(os.path.join(d, f)), os.path.join(d, f))
                         for f in os.listdir(d)), reverse=True)
        except OSError:
            continue
        tot = 0
        for m, s, p in fs:
            tot += s
            if tot > limit and time.time() - m > 600:
                try:
                    os.unlink(p)
                except OSError:
                    pass


def run_section(exe, section, tier, budget, replay=None, timeout=None):
    work = tempfile.mkdtemp(prefix="mc-", dir=os.environ.get("TMPDIR", "/tmp"))
    out = os.path.join(work, "mc.out")
    os.makedirs(os.path.join(work, "cwd", "DataFiles"))
    cmd = [exe, "--section", section, "--out", out, "--budget", str(budget)]
    if tier == "thorough":
        cmd.append("--thorough")
    if replay is not None:
        cmd += ["--replay", replay]
    env = dict(os.environ)
    env["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=1:allocator_may_return_null=1:max_malloc_fill_size=65536:" \
                          "malloc_fill_byte=190:detect_stack_use_after_return=0:quarantine_size_mb=16:handle_segv=0:handle_abort=0:" \
                          "handle_sigbus=0:handle_sigfpe=0:alloc_dealloc_mismatch=0:new_delete_type_mismatch=0:detect_odr_violation=0"
    fails, res, err = [], None, None
    try:
        try:
            with open(os.path.join(work, "stderr"), "wb") as se:
                p = subprocess.run(cmd, cwd=os.path.join(work, "cwd"), env=env, stdin=subprocess.DEVNULL,
                                   stdout=subprocess.DEVNULL, stderr=se, timeout=timeout or budget + 180)
            rc = p.returncode
        except subprocess.TimeoutExpired:
            rc = None
        if os.path.exists(out):
            for line in open(out, errors="replace"):
                t = line.rstrip("\n").split("\t")
                if t[0] == "MCFAIL" and len(t) >= 5:
                    fails.append({"section": t[1], "key": t[2], "path": t[3], "msg": t[4]})
                elif t[0] == "MCRES":
                    res = json.loads(t[1])
                elif t[0] == "MCERR":
                    err = t[1]
        if any(f["key"].startswith("fatal:") for f in fails):
            try:
                se = open(os.path.join(work, "stderr"), errors="replace").read()
                m = re.search(r"ERROR: AddressSanitizer: [^\n]*", se)
                extra = m.group(0) if m else se[-300:]
                fr = re.findall(r"#\d+ 0x[0-9a-f]+ in ([^\n(]+)", se)[:6]
                for f in fails:
                    if f["key"].startswith("fatal:"):
                        f["msg"] += " | " + " ".join(extra.split()) + (" | " + " <- ".join(fr) if fr else "")
            except OSError:
                pass
        elif res is None and err is None:
            err = "section ended without a result (rc=%s)" % rc
    finally:
        shutil.rmtree(work, ignore_errors=True)
    return fails, res, err


def load_known():
    known, path = [], os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            line = line.rstrip("\n")
            m = re.match(r"finding: property=(\S+) section=(\S+) key=(\S+) (.*)", line)
            if m:
                known.append(m.groups())
    return known


def check(pid, tier):
    t0 = time.time()
    man = json.load(open(os.path.join(HARN, "checks.json")))
    cfg = man[pid]
    flags = BASE + cfg.get("flags", [])
    srcs = [os.path.join(HARN, s) for s in cfg["sources"]]
    exe = build(srcs, flags)
    tb = time.time() - t0
    sections = subprocess.run([exe, "--list"], capture_output=True, text=True,
                              env=dict(os.environ, ASAN_OPTIONS="detect_leaks=0:detect_odr_violation=0:alloc_dealloc_mismatch=0")).stdout.split()
    if not sections:
        print("ERROR no sections")
        return 3
    budget = cfg.get("budget", {}).get(tier, 420 if tier == "quick" else 3600)
    known = load_known()
    allf, results, errs = [], [], []
    with cf.ThreadPoolExecutor(JOBS) as ex:
        futs = {s: ex.submit(run_section, exe, s, tier, budget) for s in sections}
        for s in sections:
            f, r, e = futs[s].result()
            allf += f
            if r:
                results.append(r)
            if e:
                errs.append("%s: %s" % (s, e))
    # confirm by replay
    viol, seen_known, unconfirmed = [], [], []
    for f in allf:
        k = [x for x in known if x[0] == pid and x[1] == f["section"] and x[2] == f["key"]]
        if k:
            seen_known.append((k[0], f))
            continue
        f2, r2, e2 = run_section(exe, f["section"], tier, budget, replay=f["path"], timeout=400)
        ok = any(x["key"] == f["key"] for x in f2)
        if not ok:  # may depend on earlier executions of the section: run the whole section again
            f3, _, _ = run_section(exe, f["section"], tier, budget)
            ok = any(x["key"] == f["key"] for x in f3)
            f["whole_section"] = True
        (viol if ok else unconfirmed).append(f)
    for k, f in seen_known:
        print("KNOWN-FINDING: property=%s %s [%s/%s: %s]" % (pid, k[3], f["section"], f["key"], f["msg"][:300]))
    os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
    rc = 0
    for n, f in enumerate(viol):
        rp = os.path.join("replays", "%s-%d.json" % (pid, n))
        with open(os.path.join(VERIF, rp), "w") as fh:
            json.dump(dict(f, property=pid, tier=tier, howto="python3 tools/mc.py replay " + rp), fh, indent=1)
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        print("   section=%s key=%s choices=%s\n   %s" % (f["section"], f["key"], f["path"], f["msg"]))
        rc = 1
    capped = [r["section"] for r in results if r["capped"]]
    cov = {
        "states": sum(r["states"] for r in results),
        "transitions": sum(r["transitions"] for r in results),
        "traces_validated_against_impl": sum(r["executions"] - r["pruned"] for r in results),
        "executions_pruned": sum(r["pruned"] for r in results),
        "distinct_outcomes": sum(r["outcomes"] for r in results),
        "exhaustive": not capped and len(results) == len(sections) and not errs,
        "samples": [s for r in results for s in r["samples"]][:12] or ["(none recorded)"],
        "sections": {r["section"]: {k: r[k] for k in ("executions", "states", "transitions", "outcomes", "capped", "wall")}
                     for r in results},
        "bound": cfg.get("bound", ""),
    }
    if capped:
        cov["capped_sections"] = capped
    ev = {"property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "model_checking",
          "coverage": cov, "wall_s": round(time.time() - t0, 2), "violations": len(viol),
          "assumptions": cfg.get("assumptions", [])}
    ed = os.path.join(VERIF, "evidence")
    os.makedirs(ed, exist_ok=True)
    with open(os.path.join(ed, pid + ".json"), "w") as fh:
        json.dump(ev, fh, indent=1)
    print("%s: sections=%d executions=%d states=%d transitions=%d outcomes=%d build=%.1fs total=%.1fs%s" % (
        pid, len(results), cov["traces_validated_against_impl"], cov["states"], cov["transitions"], cov["distinct_outcomes"], tb,
        ev["wall_s"], " CAPPED:" + ",".join(capped) if capped else ""))
    if rc == 0 and unconfirmed:
        for f in unconfirmed:
            print("ERROR unconfirmed failure %s" % json.dumps(f))
        rc = 3
    if rc == 0 and errs:
        print("ERROR " + "; ".join(errs))
        rc = 3
    prune_cache()
    return rc


def main():
    a = sys.argv[1:]
    if a and a[0] == "setup":
        build(None, BASE)
        print("setup ok")
        return 0
    if a and a[0] == "check":
        tier = os.environ.get("VERIF_TIER", "quick")
        if "--tier" in a:
            tier = a[a.index("--tier") + 1]
        return check(a[1], tier)
    if a and a[0] == "replay":
        f = json.load(open(a[1]))
        cfg = json.load(open(os.path.join(HARN, "checks.json")))[f["property"]]
        exe = build([os.path.join(HARN, s) for s in cfg["sources"]], BASE + cfg.get("flags", []))
        fails, res, err = run_section(exe, f["section"], f["tier"], 600, replay=None if f.get("whole_section") else f["path"])
        for x in fails:
            print(json.dumps(x, indent=1))
        print("reproduced" if any(x["key"] == f["key"] for x in fails) else "NOT reproduced %s" % err)
        return 0
    print(__doc__)
    return 2


if __name__ == "__main__":
    sys.exit(main())
