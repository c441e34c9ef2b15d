#!/usr/bin/env python3
"""Builds the harness of one property against /repo's current working tree and
runs it.   run_check.py <ID> quick|thorough      check (rewrites evidence/<ID>.json)
           run_check.py --replay <file>          replay one saved failure
"""
import concurrent.futures as cf
import glob, hashlib, json, os, re, shutil, struct, subprocess, sys, tempfile, time

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
B = os.environ.get("VERIF_BUILD", os.path.join(V, "build"))
SAN = ["-fsanitize=address", "-fno-omit-frame-pointer"]
COMMON = ["-g1", "-O1", "-DNDEBUG", "-DMETIS", "-w", "-fPIC"]
# Build flavours. A harness that says "// build: omp" gets the second one: OpenMP on, every
# access of the repository's code instrumented, threads and schedules simulated by omp_sim.cpp.
FLAVOURS = {
    "asan": {"cxx": "clang++", "cc": "clang", "repo": SAN, "own": SAN, "link": SAN, "extra": [],
             "assume": ["compiled without OpenMP, as the repository's own build does",
                        "repository sources compiled with clang++ -O1 -DNDEBUG -DMETIS and AddressSanitizer; fresh heap memory filled with 0xbe"]},
    "omp": {"cxx": "g++", "cc": "gcc", "repo": ["-fopenmp", "-DENABLE_OPENMP", "-D__OPENMP__", "-fsanitize=thread"], "own": [], "link": [],
            "extra": ["omp_sim.cpp"],
            "assume": ["repository sources compiled with g++ -O1 -DNDEBUG -DMETIS -fopenmp, memory accesses instrumented",
                       "OpenMP threads are fibers of one system thread: schedules are interleavings of whole memory accesses (sequential consistency)"]},
}
JOBS = min(8, os.cpu_count() or 4)


def sh(cmd, **k):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def headers_hash():
    h = hashlib.sha256()
    for r in (REPO + "/include", REPO + "/utils", REPO + "/src", REPO + "/example/sptrsv_src", V + "/harness"):
        for d, dn, fs in sorted(os.walk(r)):
            dn.sort()
            for f in sorted(fs):
                if f.endswith((".h", ".hpp", ".inc")) or f.endswith("_demo.cpp"):
                    p = os.path.join(d, f)
                    h.update(p.encode()); h.update(open(p, "rb").read())
    return h.hexdigest()


def repo_sources():
    src = []
    src += sorted(glob.glob(REPO + "/src/*.cpp")) + sorted(glob.glob(REPO + "/src/hdagg/*.cpp"))
    src += [f for f in sorted(glob.glob(REPO + "/utils/*.cpp")) if os.path.basename(f) != "SuperNodalTools.cpp"]
    for pat in ("/**/*.c", "/**/*.cpp"):
        src += sorted(glob.glob(REPO + "/utils/external" + pat, recursive=True))
    src += sorted(glob.glob(REPO + "/example/sptrsv_src/*.cpp"))
    return src


INC = ["-I" + REPO + "/include", "-I" + REPO + "/example/sptrsv_src/include", "-I" + REPO + "/include/aggregation",
       "-I" + REPO + "/example", "-I" + V + "/harness"]


def compile_one(job):
    src, flags, hh, fl = job
    cxx = src.endswith(".cpp")
    own = src.startswith(V)
    cmd = [fl["cxx"] if cxx else fl["cc"]] + flags + (fl["own"] if own else fl["repo"]) + INC
    if cxx:
        cmd += ["-std=c++17" if own else "-std=c++11"]
    key = hashlib.sha256((hh + " ".join(cmd) + src).encode() + open(src, "rb").read()).hexdigest()[:24]
    obj = os.path.join(B, "obj", key + ".o")
    if not os.path.exists(obj):
        tmp = obj + ".%d.tmp" % os.getpid()
        r = sh(cmd + ["-c", src, "-o", tmp])
        if r.returncode:
            return None, src, r.stdout
        os.replace(tmp, obj)
    return obj, src, ""


def flavour(pid):
    m = re.search(r"^// build: (\w+)", open(V + "/harness/props/" + pid + ".cpp").read(), re.M)
    return FLAVOURS[m.group(1) if m else "asan"]


def build(pid, main="pbt_main.cpp", tag="", fuzz=False):
    os.makedirs(B + "/obj", exist_ok=True)
    os.makedirs(B + "/bin", exist_ok=True)
    hh = headers_hash()
    fl = flavour(pid)
    if fuzz:
        fl = dict(fl, repo=fl["repo"] + ["-fsanitize=fuzzer-no-link"], link=fl["link"] + ["-fsanitize=fuzzer"])
    flags = list(COMMON)
    # the repository's objects come first: of templates both sides instantiate, the linker keeps theirs
    srcs = repo_sources() + [V + "/harness/props/" + pid + ".cpp"] + [V + "/harness/" + f for f in [main] + fl["extra"]]
    with cf.ThreadPoolExecutor(JOBS) as ex:
        res = list(ex.map(compile_one, [(s, flags, hh, fl) for s in srcs]))
    bad = [r for r in res if r[0] is None]
    if bad:
        for _, s, o in bad:
            sys.stderr.write("cannot compile %s\n%s\n" % (s, o[-4000:]))
        sys.exit(3)
    exe = os.path.join(B, "bin", pid + tag)
    r = sh([fl["cxx"]] + fl["link"] + ["-o", exe + ".tmp%d" % os.getpid()] + [x[0] for x in res] + ["-lmetis", "-lpthread"])
    if r.returncode:
        sys.stderr.write("cannot link\n" + r.stdout[-6000:])
        sys.exit(3)
    os.replace(exe + ".tmp%d" % os.getpid(), exe)
    return exe


def known(pid):
    """known_findings.txt: 'finding: property=<id> repro=<name> <what fails>' lines; the harness
    registers the failing call under that name (pbt::Known)."""
    out = []
    for l in open(os.path.join(V, "known_findings.txt")):
        m = re.match(r"finding: property=(\S+) repro=(\S+) (.*)$", l.strip())
        if m and m.group(1) == pid:
            out.append(m.groups()[1:])
    return out


def main():
    if sys.argv[1] == "--replay":
        r = json.load(open(sys.argv[2]))
        exe = build(r["property"])
        sc = tempfile.mkdtemp(prefix="verif-")
        f = os.path.join(sc, "r")
        with open(f, "w") as o:
            if r.get("history"):
                o.write("HIST %s %d %s\n" % (r["sub"], r["seed"], " ".join(map(str, r["history"]))))
            else:
                o.write(r["sub"] + " " + " ".join(map(str, r["choices"])) + "\n")
        rc = subprocess.run([exe, "--replay", f, "--tier", r.get("tier", "quick"), "--scratch", sc]).returncode
        shutil.rmtree(sc, ignore_errors=True)
        sys.exit(rc)

    if sys.argv[1] == "--setup":
        for t in ("clang++", "clang", "g++", "gcc"):
            if not shutil.which(t):
                sys.exit("missing " + t)
        return
    pid, tier = sys.argv[1], sys.argv[2]
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    t0 = time.time()
    exe = build(pid)
    tb = time.time() - t0
    sc = tempfile.mkdtemp(prefix="verif-")
    out = os.path.join(sc, "out.json")
    cap = 420 if tier == "quick" else float(os.environ.get("VERIF_CAP", "3000"))
    cmd = [exe, "--seed", str(seed), "--tier", tier, "--jobs", str(JOBS), "--cap", str(cap), "--out", out, "--scratch", sc]
    if os.environ.get("VERIF_ONLY"):
        cmd += ["--only", os.environ["VERIF_ONLY"]]
    if os.environ.get("VERIF_SCALE"):
        cmd += ["--scale", os.environ["VERIF_SCALE"]]
    r = subprocess.run(cmd)
    if not os.path.exists(out):
        sys.stderr.write("harness gave no result (exit %d)\n" % r.returncode)
        shutil.rmtree(sc, ignore_errors=True)
        sys.exit(3)
    res = json.load(open(out))
    fuzz = None
    if tier == "thorough" and not res["failures"]:
        fuzz = run_fuzz(pid, seed, sc, exe)
        if fuzz and fuzz.get("failures"):
            res["failures"] += fuzz["failures"]
    viol, seen = [], []
    for name, what in known(pid):
        if subprocess.run([exe, "--known", name, "--scratch", sc]).returncode == 1:
            print("KNOWN-FINDING: property=%s %s" % (pid, what))
            seen.append(what)
    shutil.rmtree(sc, ignore_errors=True)

    for f in res["failures"]:
        os.makedirs(V + "/replays", exist_ok=True)
        rp = os.path.join(V, "replays", "%s-%s.json" % (pid, re.sub(r"\W+", "_", f["sub"])))
        f.update(property=pid, tier=tier, seed=seed)
        json.dump(f, open(rp, "w"), indent=1)
        print("FAILED sub-check %s: %s\n  case: %s" % (f["sub"], f["msg"], f["case"][:2000]))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        viol.append(f)

    samples, labels, subs = [], {}, []
    for s in res["subs"]:
        if not s["evaluations"]:
            continue
        subs.append({k: s[k] for k in ("name", "rule", "evaluations", "discards", "distinct_nontrivial")})
        subs[-1]["labels"] = s["labels"]
        samples += ["%s: %s" % (s["name"], x) for x in s["samples"][:2]]
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": res["evaluations"] + (fuzz["evaluations"] if fuzz else 0),
            "distinct_nontrivial": res["distinct_nontrivial"],
            "rule": "; ".join("%s: %s" % (s["name"], s["rule"]) for s in subs)[:6000] or "none",
            "samples": samples[:40] or ["none"],
            "sub_checks": subs,
            "truncated_by_time_cap": res["capped"],
            "build_s": round(tb, 1),
        },
        "wall_s": round(time.time() - t0, 1),
        "assumptions": flavour(pid)["assume"],
        "violations": [{"sub": f["sub"], "message": f["msg"], "case": f["case"][:2000]} for f in viol],
    }
    if fuzz:
        ev["coverage"]["fuzz"] = {k: v for k, v in fuzz.items() if k != "failures"}
    if seen:
        ev["coverage"]["known_findings_seen"] = seen
    os.makedirs(V + "/evidence", exist_ok=True)
    json.dump(ev, open(os.path.join(V, "evidence", pid + ".json"), "w"), indent=1)
    if viol:
        sys.exit(1)
    if res["errors"]:
        sys.stderr.write("%d failures did not replay\n" % res["errors"])
        sys.exit(3)
    print("%s %s: held on %d cases (%d distinct non-trivial), %.1f s" % (pid, tier, ev["coverage"]["evaluations"], res["distinct_nontrivial"], ev["wall_s"]))
    sys.exit(0)


def run_fuzz(pid, seed, sc, exe):
    """Coverage-guided stage of the thorough tier: libFuzzer mutates the bytes the cases are
    drawn from, guided by the branches of the repository's code. A failure counts once the
    ordinary harness has confirmed and shrunk it."""
    total = float(os.environ.get("VERIF_FUZZ_S", "300"))
    if flavour(pid) is not FLAVOURS["asan"] or total <= 0:
        return None
    fz = build(pid, main="fuzz_main.cpp", tag="-fuzz", fuzz=True)
    subs = sh([exe, "--list"]).stdout.split()
    st = {"evaluations": 0, "discards": 0, "nontrivial": 0, "seconds": total, "processes": JOBS, "unconfirmed": 0, "corpus": 0, "failures": []}
    end = time.time() + total
    rnd = __import__("random").Random(seed)
    corpus = os.path.join(sc, "corpus")
    os.makedirs(corpus)
    for k in range(16 * len(subs)):
        with open(os.path.join(corpus, "s%d" % k), "wb") as f:
            f.write(bytes([k % len(subs)]) + rnd.randbytes(rnd.choice((30, 100, 400, 1500))))
    only = os.environ.get("VERIF_ONLY")

    def worker(w):
        out, rounds = [], 0
        slot = os.path.join(sc, "slot%d" % w)
        wd = os.path.join(sc, "fz%d" % w)
        os.makedirs(wd)
        while time.time() < end - 1:
            rounds += 1
            env = dict(os.environ, VERIF_FUZZ_SLOT=slot, VERIF_FUZZ_SCRATCH=wd)
            left = max(1, int(min(end - time.time(), 120)))
            p = subprocess.run([fz, "-max_total_time=%d" % left, "-seed=%d" % (seed * 1000 + w * 37 + rounds), "-max_len=6000", "-len_control=20",
                                "-close_fd_mask=3", "-timeout=60", "-rss_limit_mb=0", "-detect_leaks=0", "-reload=1", "-verbosity=0",
                                "-artifact_prefix=" + wd + "/", corpus], env=env, cwd=wd, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            ev, di, nt, running, full = struct.unpack("5q", open(slot, "rb").read(40))
            out.append((ev, di, nt))
            if p.returncode and running:
                raw = open(slot, "rb").read()
                out.append(decode_slot(raw[40:], subs))
                os.remove(slot)
                if rounds > 20:
                    break
                continue
            os.remove(slot)
        return out
    with cf.ThreadPoolExecutor(JOBS) as ex:
        res = [r for o in ex.map(worker, range(JOBS)) for r in o]
    done = set()
    for r in res:
        if len(r) == 3:
            st["evaluations"] += r[0]; st["discards"] += r[1]; st["nontrivial"] += r[2]
            continue
        name, ch = r
        if name in done:
            continue
        f = os.path.join(sc, "confirm")
        open(f, "w").write(name + " " + " ".join(map(str, ch)) + "\n")
        o = os.path.join(sc, "confirm.json")
        subprocess.run([exe, "--confirm", f, "--tier", "thorough", "--out", o, "--scratch", sc], stderr=subprocess.DEVNULL)
        fl = json.load(open(o))["failures"]
        if fl:
            done.add(name)
            st["failures"] += fl
        else:
            st["unconfirmed"] += 1
    st["corpus"] = len(os.listdir(corpus))
    return st


def decode_slot(raw, subs):
    # struct Slot: int32 sub; int64 index; uint32 n; int32 failed; char msg[4096]; char desc[32768]; uint64 choices[]
    sub = struct.unpack_from("i", raw, 0)[0]
    n = struct.unpack_from("I", raw, 16)[0]
    return subs[sub], struct.unpack_from("%dQ" % n, raw, 24 + 4096 + 32768)


if __name__ == "__main__":
    main()
