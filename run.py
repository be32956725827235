#!/usr/bin/env python3
"""Solver-based checks of meteosatlib.

  run.py setup                     build the engine and the bitcode/native objects of the current tree
  run.py <PROPERTY> quick|thorough run the check of one property

See DESIGN.md.  Exit status: 0 the property held on everything explored, 1 a violation was found
and reproduced on the real compiled code.
"""
import sys, os, re, json, time, hashlib, subprocess, shutil, glob, fcntl, tempfile
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
MSYM = os.path.join(BUILD, "msym")
NPROC = min(8, os.cpu_count() or 4)
DEADLINE = time.time() + 840
sys.path.insert(0, VERIF)

EXCLUDE = re.compile(r"netcdf|NetCDF|MSG_data_image|utils/test|msat2gdal")
INC = ["-I" + REPO, "-I" + REPO + "/msat", "-I" + VERIF + "/include/cfg", "-I/usr/include/gdal"]
DEFS = ["-D_FILE_OFFSET_BITS=64"]
BCFLAGS = ["-O1", "-Xclang", "-disable-llvm-passes", "-ffp-contract=off", "-emit-llvm", "-c"]
NATFLAGS = ["-ftrivial-auto-var-init=pattern", "-O1", "-g1", "-fsanitize=address", "-fno-omit-frame-pointer", "-ffp-contract=off", "-w"]


def log(*a):
    print(*a, flush=True)


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode())
        h.update(b"\0")
    return h.hexdigest()[:24]


def rd(p):
    with open(p, "rb") as f:
        return f.read()


class Lock:
    def __init__(self, name):
        os.makedirs(BUILD, exist_ok=True)
        self.f = open(os.path.join(BUILD, name + ".lock"), "w")

    def __enter__(self):
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


def build_engine():
    with Lock("engine"):
        if not os.path.exists(MSYM) or any(os.path.getmtime(f) > os.path.getmtime(MSYM) for f in glob.glob(VERIF + "/engine/*")):
            r = sh(["bash", VERIF + "/engine/build.sh", BUILD])
            if r.returncode:
                log(r.stdout)
                raise SystemExit("engine build failed")


# ---------------------------------------------------------------- the repository's sources
def repo_sources():
    res = []
    for top in ("msat", "gdal"):
        for d, _, fs in os.walk(os.path.join(REPO, top)):
            for f in fs:
                p = os.path.join(d, f)
                if f.endswith((".cpp", ".c", ".cc")) and not EXCLUDE.search(p):
                    res.append(p)
    return sorted(res)


def header_hash():
    h = hashlib.sha256()
    for top in ("msat", "gdal", "tools", "decompress"):
        for d, _, fs in sorted(os.walk(os.path.join(REPO, top))):
            for f in sorted(fs):
                if f.endswith((".h", ".hpp", ".tcc", ".inc", ".def")) or top == "tools":
                    p = os.path.join(d, f)
                    h.update(p.encode())
                    h.update(rd(p))
    for p in sorted(glob.glob(VERIF + "/include/**/*", recursive=True) + glob.glob(VERIF + "/harness/*.h") + glob.glob(VERIF + "/harness/Magick*")):
        if os.path.isfile(p):
            h.update(rd(p))
    return h.hexdigest()


def compile_one(src, kind, hh, extra=(), tag=""):
    """compile one translation unit (content-addressed); returns (object path, None) or (None, messages)"""
    isc = src.endswith(".c")
    body = rd(src)
    key = sha(body, hh, kind, " ".join(extra), src, tag)
    out = os.path.join(BUILD, "obj", "%s-%s.%s" % (os.path.basename(src), key, "bc" if kind == "bc" else "o"))
    if os.path.exists(out):
        os.utime(out)
        return out, None
    os.makedirs(os.path.dirname(out), exist_ok=True)
    tmp = out + ".%d.tmp" % os.getpid()
    inrepo = src.startswith(REPO + "/")
    if kind == "bc":
        cmd = (["clang-18", "-x", "c", "-D__NO_CTYPE"] if isc else ["clang++-18", "-std=c++17"]) + BCFLAGS + ["-w", "-Wno-register", "-Wno-everything", "-I" + VERIF + "/include/bc"]
        if inrepo or "/harness/" in src:
            cmd += ["-gline-tables-only"]
        if "/models/" in src:
            cmd += ["-fno-builtin"] + ([] if isc else ["-fno-access-control"])
    else:
        cmd = (["gcc"] if isc else ["g++", "-std=c++17"]) + NATFLAGS + ["-c"]
    cmd += ([] if "/models/" in src else DEFS) + INC + ["-I" + VERIF + "/include", "-I" + VERIF + "/harness"] + list(extra) + [src, "-o", tmp]
    r = sh(cmd)
    if r.returncode:
        return None, r.stdout
    os.replace(tmp, out)
    return out, None


def prune():
    d = os.path.join(BUILD, "obj")
    try:
        fs = sorted((os.path.getmtime(os.path.join(d, f)), os.path.join(d, f)) for f in os.listdir(d))
    except OSError:
        return
    now = time.time()
    for t, f in fs[:-1500]:
        if now - t > 3600:
            try:
                os.unlink(f)
            except OSError:
                pass


def build_repo(kind, hh):
    srcs = repo_sources()
    with ThreadPoolExecutor(NPROC) as ex:
        rs = list(ex.map(lambda s: compile_one(s, kind, hh), srcs))
    objs, failed = [], {}
    for s, (o, e) in zip(srcs, rs):
        if o:
            objs.append(o)
        else:
            failed[s] = e
    for s, e in failed.items():
        log("note: %s does not compile for %s: %s" % (s, kind, (e or "").strip().splitlines()[:3]))
    key = sha(*objs)
    if kind == "bc":
        out = os.path.join(BUILD, "obj", "repo-%s.bc" % key)
        if not os.path.exists(out):
            tmp = out + ".%d.tmp" % os.getpid()
            r = sh(["llvm-link-18", "-o", tmp] + objs)
            if r.returncode:
                raise SystemExit("llvm-link failed:\n" + r.stdout)
            os.replace(tmp, out)
    else:
        out = os.path.join(BUILD, "obj", "librepo-%s.a" % key)
        if not os.path.exists(out):
            tmp = out + ".%d.tmp" % os.getpid()
            r = sh(["ar", "rcs", tmp] + objs)
            if r.returncode:
                raise SystemExit("ar failed:\n" + r.stdout)
            os.replace(tmp, out)
    os.utime(out)
    return out


def build_models(hh, which):
    res = []
    for m in which:
        p = os.path.join(VERIF, "models", m)
        o, e = compile_one(p, "bc", hh)
        if not o:
            raise SystemExit("model %s does not compile:\n%s" % (m, e))
        res.append(o)
    return res


def link_entry(harness_bc, repo_bc, models, entry, work):
    """harness + repository + runtime models -> one bitcode module reduced to what the entry reaches"""
    linked = os.path.join(work, "linked.bc")
    if not os.path.exists(linked):
        r = sh(["llvm-link-18", "-o", linked + ".tmp", harness_bc, repo_bc] + models)
        if r.returncode:
            raise SystemExit("llvm-link failed:\n" + r.stdout)
        os.replace(linked + ".tmp", linked)
    out = os.path.join(work, entry + ".bc")
    r = sh(["opt-18", "-passes=internalize,globaldce,function(mem2reg,simplifycfg)", "-internalize-public-api-list=" + entry, linked, "-o", out])
    if r.returncode:
        raise SystemExit("opt failed:\n" + r.stdout)
    return out


# ---------------------------------------------------------------- native replay
class Native:
    def __init__(self, harness, hh, work, libs, extra):
        self.harness, self.hh, self.work, self.libs, self.extra = harness, hh, work, libs, extra
        self.bin, self.lock = {}, __import__("threading").Lock()
        self.lib = None

    def get(self, entry):
        with self.lock:
            k = entry
            if k in self.bin:
                return self.bin[k]
            if self.lib is None:
                self.lib = build_repo("nat", self.hh)
            h, e = compile_one(self.harness, "nat", self.hh, tuple(self.extra))
            if not h:
                raise SystemExit("native harness build failed:\n" + e)
            m, e = compile_one(os.path.join(VERIF, "include", "msym_native.cpp"), "nat", self.hh, ("-DMSYM_ENTRY=" + entry,))
            if not m:
                raise SystemExit("native runtime build failed:\n" + e)
            out = os.path.join(self.work, "native-" + entry)
            r = sh(["g++", "-fsanitize=address", "-o", out, m, h, "-Wl,--start-group", self.lib, "-Wl,--end-group"] + self.libs + ["-lpthread", "-ldl"])
            if r.returncode:
                log("note: native link failed: " + r.stdout[-1500:])
                out = None
            self.bin[k] = out
            return out

    def run(self, entry, witness, fillbyte=None, timeout=30):
        """-> (code, output): 0 matched, 42 assertion, 43/44 out of step, 45 observation differs, 'crash', 'hang'"""
        b = self.get(entry)
        if not b:
            return "nobuild", ""
        scratch = tempfile.mkdtemp(prefix="replay", dir=self.work)
        env = {"PATH": "/usr/bin:/bin", "HOME": scratch, "TZ": "UTC", "LC_ALL": "C", "MSYM_REPLAY": os.path.abspath(witness),
               "ASAN_OPTIONS": "exitcode=77:detect_leaks=0:abort_on_error=0:allocator_may_return_null=0:detect_stack_use_after_return=%d" % (fillbyte is None) +
               (":max_malloc_fill_size=1048576:malloc_fill_byte=%d" % fillbyte if fillbyte is not None else "")}
        if fillbyte is not None:
            env["MSYM_FILL"] = str(fillbyte)
        try:
            r = subprocess.run(["timeout", "-k", "2", str(timeout), b], cwd=scratch, env=env, stdin=subprocess.DEVNULL,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
            c, o = r.returncode, r.stdout
        finally:
            shutil.rmtree(scratch, ignore_errors=True)
        if c in (0, 42, 43, 44, 45):
            return c, o
        if c in (124, 137):
            return "hang", o
        return "crash", o


# ---------------------------------------------------------------- one check
def run_entry(pid, spec, ent, tier, bc, outdir, budget):
    name = ent["fn"]
    od = os.path.join(outdir, name)
    shutil.rmtree(od, ignore_errors=True)
    os.makedirs(od)
    tl = ent.get("time", spec.get("time", {"quick": 60, "thorough": 600}))[tier]
    tl = max(5, min(tl, budget))
    cmd = [MSYM, bc, "--entry", name, "--out", od, "--repo", REPO, "--time-limit", str(tl), "--seed", os.environ.get("VERIF_SEED", "1"),
           "--assert-timeout", "20000" if tier == "quick" else "180000"]
    for k, v in {**spec.get("opts", {}), **ent.get("opts", {})}.items():
        if v is True:
            cmd += ["--" + k]
        else:
            cmd += ["--" + k, str(v)]
    try:
        r = sh(["timeout", "-k", "5", str(int(tl + 60))] + cmd)
        msg = r.stdout
    except Exception as e:  # pragma: no cover
        msg = str(e)
    try:
        res = json.load(open(os.path.join(od, "result.json")))
    except Exception:
        res = {"entry": name, "paths": 0, "forks": 0, "transitions": 0, "asserts": 0, "asserts_folded": 0, "asserts_inconclusive": 0, "incomplete": {"engine failed: " + msg[-300:]: 1}, "errors": [], "witnesses": [],
               "functions": [], "reach": {}, "assert_sites": {}, "instructions": 0, "mem_checks": 0, "solver": {"queries": 0, "sat": 0, "unsat": 0, "unknown": 0, "seconds": 0}, "timed_out": True, "wall": tl}
    res["dir"] = od
    return res


def main():
    if len(sys.argv) < 2:
        print(__doc__)
        return 2
    build_engine()
    hh = header_hash()
    if sys.argv[1] == "setup":
        build_repo("bc", hh)
        build_models(hh, ["rt.cpp", "rtc.c", "gdal.cpp"])
        build_repo("nat", hh)
        return 0
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else "quick"
    only = sys.argv[3:]
    from checks import CHECKS
    spec = CHECKS[pid]
    t0 = time.time()
    wd = os.path.join(BUILD, "work")
    os.makedirs(wd, exist_ok=True)
    work = tempfile.mkdtemp(prefix="%s-" % pid, dir=wd)
    try:
        return check(pid, spec, tier, hh, work, t0, only)
    finally:
        if not os.environ.get("VERIF_KEEP"):
            shutil.rmtree(work, ignore_errors=True)
        prune()


def check(pid, spec, tier, hh, work, t0, only):
    harness = os.path.join(VERIF, "harness", spec["harness"])
    extra = ["-fno-access-control", "-DTHOROUGH=%d" % (tier == "thorough")]
    groups = {}
    with ThreadPoolExecutor(4) as ex:
        fr = ex.submit(build_repo, "bc", hh)
        fm = ex.submit(build_models, hh, spec.get("models", ["rt.cpp", "rtc.c"]))
        fh = ex.submit(compile_one, harness, "bc", hh + rd_harness_headers(), extra)
        h, e = fh.result()
        repo_bc, models = fr.result(), fm.result()
    if not h:
        # the harness no longer compiles against the current tree: no verdict is possible
        log("INCONCLUSIVE property=%s the harness does not compile against this tree:\n%s" % (pid, (e or "")[:2000]))
        write_evidence(pid, spec, tier, [], [], [], 0, [], time.time() - t0, ["harness does not compile against this tree"])
        return 0
    libs = spec.get("libs", [])
    nat = Native(harness, hh + rd_harness_headers(), work, libs, extra)
    ents = [e for e in spec["entries"] if not only or e["fn"] in only]
    ents = [e for e in ents if tier == "thorough" or not e.get("thorough_only")]
    bcs = {}
    for i, e in enumerate(ents):
        if i == 0:
            bcs[e["fn"]] = link_entry(h, repo_bc, models, e["fn"], work)
    with ThreadPoolExecutor(NPROC) as ex:
        for e, b in zip(ents[1:], ex.map(lambda e: link_entry(h, repo_bc, models, e["fn"], work), ents[1:])):
            bcs[e["fn"]] = b
    cexdir = os.path.join(BUILD, "cex")
    os.makedirs(cexdir, exist_ok=True)
    outdir = os.path.join(work, "out")
    os.makedirs(outdir)
    # build the native side concurrently with the exploration
    pre = ThreadPoolExecutor(1)
    pre.submit(lambda: nat.get(ents[0]["fn"]))
    limit = DEADLINE - 60
    with ThreadPoolExecutor(NPROC) as ex:
        results = list(ex.map(lambda e: run_entry(pid, spec, e, tier, bcs[e["fn"]], outdir, limit - time.time()), ents))
    pre.shutdown(wait=True)
    known = [k for k in load_known() if k["property"] == pid]
    violations, knownhits, notes = [], {}, []
    replayed = matched = 0
    samples = []

    def replay_path(job):
        r, w = job
        return r, w, nat.run(r["entry"], w)
    jobs = [(r, w) for r in results for w in r["witnesses"]]
    with ThreadPoolExecutor(NPROC) as ex:
        for r, w, (code, out) in ex.map(replay_path, jobs):
            replayed += 1
            if code == 0:
                matched += 1
                if len(samples) < 5:
                    samples.append({"entry": r["entry"], "witness": rd(w).decode()[:600]})
            else:
                notes.append("%s: path witness replay gave %s: %s" % (r["entry"], code, tail(out)))
                save = os.path.join(cexdir, "%s-%s-%s" % (pid, r["entry"], os.path.basename(w)))
                shutil.copy(w, save)
                # An input the engine completed without complaint, but on which the real code crashes
                # or fails the assertion, is a violation in its own right (observed on the real code).
                if code in (42, "crash"):
                    violations.append((r, {"kind": "replay", "msg": tail(out), "loc": "", "trace": "", "witness": w}, code, out))
    # counterexamples
    todo = []
    for r in results:
        for e in r["errors"]:
            todo.append((r, e))

    def confirm(job):
        r, e = job
        if not e["witness"] or e["kind"] == "model":
            return r, e, "nowitness", ""
        best = None
        for fill in (None, 0, 255, 0x41, 1):
            code, out = nat.run(r["entry"], e["witness"], fill)
            if code in (42, "crash") or (code == "hang"):
                return r, e, code, out
            best = (code, out)
        return r, e, best[0], best[1]
    with ThreadPoolExecutor(NPROC) as ex:
        conf = list(ex.map(confirm, todo))
    for r, e, code, out in conf:
        if code in (42, "crash", "hang"):
            violations.append((r, e, code, out))
        else:
            notes.append("%s: unconfirmed engine report [%s] %s at %s (native replay: %s %s)" % (r["entry"], e["kind"], e["msg"], e["loc"], code, tail(out)))
    rc = 0
    real = []
    for r, e, code, out in violations:
        k = match_known(known, r["entry"], e, out)
        save = os.path.join(cexdir, "%s-%s-%s-%s" % (pid, tier, r["entry"], os.path.basename(e["witness"])))
        shutil.copy(e["witness"], save)
        if k is not None:
            knownhits[k["id"]] = (k, save)
            continue
        real.append({"entry": r["entry"], "kind": e["kind"], "message": e["msg"], "location": e["loc"], "trace": e["trace"][:600], "replay": save, "native": "%s: %s" % (code, tail(out))})
    for kid, (k, save) in sorted(knownhits.items()):
        log("KNOWN-FINDING: property=%s %s [%s]" % (pid, k["what"], kid))
    incomplete = {}
    for r in results:
        for k, v in r["incomplete"].items():
            incomplete["%s: %s" % (r["entry"], k)] = v
        if r.get("timed_out"):
            incomplete["%s: time limit reached" % r["entry"]] = 1
        need = next((e.get("reach", []) for e in ents if e["fn"] == r["entry"]), [])
        for t in need:
            if not r["reach"].get(t):
                incomplete["%s: expected point '%s' not reached" % (r["entry"], t)] = 1
    seen = set()
    for v in real:
        key = (v["entry"], v["message"], v["location"])
        if key in seen:
            continue
        seen.add(key)
        log("  %s: [%s] %s" % (v["entry"], v["kind"], v["message"]))
        log("    at %s" % v["location"])
        log("    replayed on the compiled code: %s" % v["native"])
        log("VIOLATION property=%s replay=%s" % (pid, v["replay"]))
        rc = 1
    write_evidence(pid, spec, tier, ents, results, real, (replayed, matched), samples, time.time() - t0, notes, incomplete, [k for k, _ in knownhits.values()])
    tot = lambda f: sum(f(r) for r in results)
    log("%s %s: %d entries, %d paths, %d branch decisions, %d assertions (%d folded), %d solver queries in %.1fs, %d/%d path witnesses reproduced natively, %d incomplete, %d notes, %.1fs" % (
        pid, tier, len(results), tot(lambda r: r["paths"]), tot(lambda r: r["transitions"]), tot(lambda r: r["asserts"]), tot(lambda r: r["asserts_folded"]),
        tot(lambda r: r["solver"]["queries"]), tot(lambda r: r["solver"]["seconds"]), matched, replayed, len(incomplete), len(notes), time.time() - t0))
    if os.environ.get("VERIF_VERBOSE"):
        for r in results:
            log("   %-28s paths %d killed %d asserts %d/%d undecided %d queries %d (%.1fs, unknown %d) wall %.1f errors %d%s" % (r["entry"], r["paths"], r.get("assume_killed", 0), r["asserts"], r["asserts_folded"], r["asserts_inconclusive"],
                r["solver"]["queries"], r["solver"]["seconds"], r["solver"]["unknown"], r.get("wall", 0), len(r["errors"]), " TIMEOUT" if r.get("timed_out") else ""))
    if incomplete:
        for k in sorted(incomplete)[:20]:
            log("  not decided: %s (%d)" % (k, incomplete[k]))
    for n in notes[:10]:
        log("  note: " + n)
    return rc


def tail(out):
    ls = [l for l in (out or "").splitlines() if l.strip()]
    pick = [l for l in ls if "REPLAY:" in l or "ERROR: AddressSanitizer" in l or "terminate called" in l or "what():" in l]
    return " | ".join((pick or ls[-2:])[:3])[:300]


def rd_harness_headers():
    return sha(*[rd(p) for p in sorted(glob.glob(VERIF + "/harness/*.h"))])


def load_known():
    try:
        return [k for k in json.load(open(os.path.join(VERIF, "known_findings.json")))["findings"] if not k.get("fixed")]
    except FileNotFoundError:
        return []


def match_known(known, entry, e, out):
    """a finding is identified by the harness entry and the exact assertion text / crash site"""
    for k in known:
        if k["entry"] == entry and k["kind"] == e["kind"] and re.search(k["match"], e["msg"] + " @@ " + e["loc"]):
            return k
    return None


def write_evidence(pid, spec, tier, ents, results, violations, rep, samples, wall, notes, incomplete=None, known=None):
    if not rep:
        rep = (0, 0)
    fns = {}
    for r in results:
        for f in r["functions"]:
            n, _, file = f.partition("|")
            fns.setdefault(os.path.relpath(file, REPO), []).append(n)
    for k in fns:
        fns[k] = sorted(set(fns[k]))
    tot = lambda k: sum(r[k] for r in results)
    st = lambda k: sum(r["solver"].get(k, 0) for r in results)
    ev = {
        "property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": "model_checking",
        "coverage": {
            "states": tot("paths"), "transitions": tot("transitions"),
            "traces_validated_against_impl": rep[1],
            "traces_replayed": rep[0],
            "assertions_checked": tot("asserts"), "assertions_folded_to_constants": tot("asserts_folded"), "assertions_undecided": tot("asserts_inconclusive"),
            "memory_safety_queries": tot("mem_checks"),
            "instructions_executed": tot("instructions"),
            "solver": {"queries": st("queries"), "sat": st("sat"), "unsat": st("unsat"), "unknown": st("unknown"), "seconds": round(st("seconds"), 3)},
            "bounds": spec.get("bounds", {}).get(tier, spec.get("bounds", {}).get("quick", "")),
            "outside_bounds": spec.get("outside", ""),
            "entries": [{"entry": r["entry"], "about": next((e.get("about", "") for e in ents if e["fn"] == r["entry"]), ""), "paths": r["paths"], "infeasible_or_assumed_away": r.get("assume_killed", 0), "branch_decisions": r["transitions"],
                         "assertion_sites": r["assert_sites"], "reached": r["reach"], "exhausted_within_bounds": not r["incomplete"] and not r.get("timed_out"), "not_decided": r["incomplete"], "wall_s": round(r.get("wall", 0), 2)} for r in results],
            "functions_encoded": fns,
            "samples": samples,
            "not_decided": incomplete or {},
            "notes": notes,
        },
        "assumptions": spec.get("assumptions", []) + COMMON_ASSUMPTIONS,
        "violations": [{"replay": v["replay"], "summary": "%s: %s at %s (%s)" % (v["entry"], v["message"], v["location"], v["native"])} for v in violations],
        "wall_s": round(wall, 2),
    }
    if known:
        ev["coverage"]["known_findings_observed"] = [k["id"] for k in known]
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    p = os.path.join(VERIF, "evidence", pid + ".json")
    json.dump(ev, open(p + ".tmp", "w"), indent=1)
    os.replace(p + ".tmp", p)


COMMON_ASSUMPTIONS = [
    "the code is encoded from the unoptimised bitcode clang 18 emits for the current sources (x86-64, IEEE doubles, no contraction); the shipped build uses gcc",
    "libc and libstdc++ runtime parts (string, iostream buffers, time, printf/scanf families, file system) are replaced by the models in /verif/models; libm functions without an SMT theory are uninterpreted functions refined with the host libm at the points met",
    "memory allocation never fails below the stated allocation limit",
]

if __name__ == "__main__":
    sys.exit(main())
