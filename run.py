#!/usr/bin/env python3
"""Decide one property of /repo by generated-input search.

usage: run.py <id>                     (VERIF_TIER=quick|thorough, VERIF_SEED=N)
       run.py <id> --replay FILE       re-run one saved case

Everything is rebuilt from /repo's working tree on every run.  Exit status: 0 the
property held on everything explored, 1 with a VIOLATION line otherwise, 2 the
check itself could not run (no toolchain, the tree does not compile at all).
"""
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VT_REPO", "/repo")
INC = os.path.join(REPO, "include")
sys.path.insert(0, HERE)
from config import PROPS, ASSUMPTIONS  # noqa: E402
import programs  # noqa: E402

# seconds of searching after which the drivers stop and report what they explored
SOFT_CAP = {"quick": 300, "thorough": 5 * 3600}
WALL_CAP = {"quick": 420, "thorough": 6 * 3600}


def log(*a):
    print(*a, flush=True)


def pick_tool(*names):
    for n in names:
        p = n if os.path.isabs(n) and os.access(n, os.X_OK) else shutil.which(n)
        if p:
            return p
    return None


GXX = pick_tool("/usr/bin/g++", "g++")
CLANG = pick_tool("/usr/bin/clang++", "clang++", "clang++-18")


def strip_comments(s):
    s = re.sub(r"/\*.*?\*/", " ", s, flags=re.S)
    return re.sub(r"//[^\n]*", " ", s)


def mine_pool(path):
    """numeric literals of the code under test, used by the generators as special values"""
    vals = set()
    for root, _, files in os.walk(INC):
        for f in files:
            if not f.endswith((".hpp", ".h", ".inl", ".ipp")) and f != "Engabra":
                continue
            try:
                src = strip_comments(open(os.path.join(root, f), errors="replace").read())
            except OSError:
                continue
            for m in re.finditer(r"(?<![\w.])((?:\d+\.\d*|\.\d+|\d+)(?:[eE][+-]?\d+)?)", src):
                try:
                    v = float(m.group(1))
                except ValueError:
                    continue
                if abs(v) < 1e300:
                    vals.add(v)
    eps = 2.0 ** -52
    for k in (1, 2, 4, 8, 16, 64, 1024):
        vals.add(k * eps)
    vals.add(eps ** 0.5)
    with open(path, "w") as f:
        f.write("\n".join(repr(v) for v in sorted(vals)) + "\n")
    return len(vals)


def fuzz_rt():
    for q in ("libclang_rt.fuzzer_no_main-x86_64.a", "libclang_rt.fuzzer_no_main.a"):
        r = subprocess.run([CLANG, "-print-file-name=" + q], capture_output=True, text=True)
        p = r.stdout.strip()
        if r.returncode == 0 and os.path.isabs(p) and os.path.exists(p):
            return p
    base = subprocess.run([CLANG, "-print-resource-dir"], capture_output=True, text=True).stdout.strip()
    for root, _, files in os.walk(base):
        for f in files:
            if f.startswith("libclang_rt.fuzzer_no_main") and "x86_64" in f or f == "libclang_rt.fuzzer_no_main.a":
                return os.path.join(root, f)
    return None


def lib_sources(cfg):
    """the library's compiled part, for checks which call it"""
    d = os.path.join(REPO, "src")
    if not cfg.get("lib") or not os.path.isfile(os.path.join(d, "engabra.cpp")):
        return []
    return ["-DVT_LIB", '-DEngabra_Project_Version="12.34.5678"', '-DEngabra_Source_Identity="0123456789abcdef0123456789abcdef01234567"'] + \
        sorted(os.path.join(d, f) for f in os.listdir(d) if f.endswith((".cpp", ".cc", ".cxx")))


class Build:
    """g++ -O2 random driver (the library's own build configuration) and clang
    ASan+UBSan libFuzzer driver; or the ThreadSanitizer random driver."""

    def __init__(self, pid, cfg, wd):
        src = os.path.join(HERE, "harness", "props", pid + ".cpp")
        common = ["-std=c++17", "-g1", "-w", "-I" + os.path.join(HERE, "harness"), "-I" + INC, src] + lib_sources(cfg)
        self.cmds, self.out = {}, {}
        if cfg.get("tsan"):
            self.out["random"] = os.path.join(wd, "rnd")
            self.cmds["random"] = [GXX, "-O1", "-fsanitize=thread"] + common + ["-o", self.out["random"], "-pthread"]
            # and without the sanitizer: races between atomic accesses show in results only
            self.out["plain"] = os.path.join(wd, "plain")
            self.cmds["plain"] = [GXX, "-O2", "-DNDEBUG"] + common + ["-o", self.out["plain"], "-pthread"]
        else:
            self.out["random"] = os.path.join(wd, "rnd")
            self.cmds["random"] = [GXX, "-O2", "-DNDEBUG"] + common + ["-o", self.out["random"], "-pthread"]
            rt = fuzz_rt() if CLANG else None
            if rt:
                self.out["fuzz"] = os.path.join(wd, "fuzz")
                self.cmds["fuzz"] = [CLANG, "-O1", "-DVT_FUZZ", "-D_GLIBCXX_ASSERTIONS", "-fsanitize=fuzzer-no-link,address,undefined" + cfg.get("sanitize", ""),
                                     "-fno-sanitize-recover=all"] + common + ["-o", self.out["fuzz"], rt, "-pthread"]
            if cfg.get("memcheck") and shutil.which("valgrind"):
                self.out["memcheck"] = os.path.join(wd, "mem")
                self.cmds["memcheck"] = [GXX, "-O0", "-DNDEBUG", "-DVT_MEMCHECK"] + common + ["-o", self.out["memcheck"], "-pthread"]
        self.wd = wd

    def run(self):
        """returns {kind: log} of compilers that failed"""
        procs = {}
        for k, c in self.cmds.items():
            lf = open(os.path.join(self.wd, k + ".build.log"), "w+")
            procs[k] = (subprocess.Popen(c, stdout=lf, stderr=subprocess.STDOUT), lf)
        bad = {}
        for k, (p, lf) in procs.items():
            try:
                rc = p.wait(timeout=600)
            except subprocess.TimeoutExpired:
                p.kill()
                rc = 124
            lf.seek(0)
            if rc != 0:
                bad[k] = lf.read()
            lf.close()
        return bad


def bare_compiles(wd):
    t = os.path.join(wd, "bare.cpp")
    open(t, "w").write('#include "engabra.hpp"\nint main() { return (int)engabra::g3::one<engabra::g3::Scalar>().theData[0] - 1; }\n')
    r = subprocess.run([GXX, "-std=c++17", "-w", "-I" + INC, t, "-o", t + ".o", "-c"], capture_output=True)
    return r.returncode == 0


def read_known():
    """(property, key) of the recorded findings, and their descriptions"""
    out = {}
    p = os.path.join(HERE, "known_findings.txt")
    for line in open(p):
        m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line.strip())
        if m:
            out.setdefault(m.group(1), {})[m.group(2)] = m.group(3)
    return out


MEMCHECK = ["valgrind", "-q", "--leak-check=no", "--num-callers=6"]

ENV = dict(os.environ)
ENV["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=77:handle_segv=0:allow_user_segv_handler=1"
ENV["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1:exitcode=77"
# a report makes the case fail (engine.hpp); the same race must be reported again while shrinking
ENV["TSAN_OPTIONS"] = "halt_on_error=0:exitcode=0:suppress_equal_stacks=0:suppress_equal_addresses=0"


def sh(cmd, timeout=120, env=None):
    try:
        r = subprocess.run(cmd, capture_output=True, text=True, errors="replace", timeout=timeout, env=env or ENV)
        return r.returncode, r.stdout + r.stderr
    except subprocess.TimeoutExpired as e:
        return 124, ""


def read_case(path):
    d = {}
    for line in open(path, errors="replace"):
        k, _, v = line.rstrip("\n").partition(" ")
        d[k] = v
    return d


def write_case(path, d):
    with open(path, "w") as f:
        for k, v in d.items():
            f.write("%s %s\n" % (k, v))


def shrink_outside(binary, wrap, case, wd, budget=160):
    """shrink a crash/sanitizer/hang case by replaying candidates in new processes"""
    d = read_case(case)
    tape = [int(x) for x in d["tape"].split()[1:]]
    cand = os.path.join(wd, "cand")
    if d.get("why") == "hang":
        return False

    def bad(t):
        e = dict(d)
        e["tape"] = " ".join(map(str, [len(t)] + t))
        write_case(cand, e)
        rc, _ = sh(wrap + [binary, "replay", "--in", cand], 20)
        return rc not in (0, 2, 124)

    if not bad(tape):
        return False
    n = len(tape) // 2
    end = time.time() + 90

    def left():
        return budget > 0 and time.time() < end

    while n >= 1 and left():
        i = 0
        while i < len(tape) and left():
            for t in (tape[:i] + tape[i + n:], tape[:i] + [0] * min(n, len(tape) - i) + tape[i + n:]):
                budget -= 1
                if t != tape and bad(t):
                    tape = t
                    break
            else:
                i += n
                continue
            if t[i:i + n] == [0] * n:
                i += n
        n //= 2
    d["tape"] = " ".join(map(str, [len(tape)] + tape))
    write_case(case, d)
    return True


def violation(pid, path, why):
    log("violation: " + why.replace("\n", " ")[:1500])
    log("VIOLATION property=%s replay=%s" % (pid, path))


def history_failure(pid, build, wrap, kind, crash, cmd, wd, rdir):
    """A case failed in its run but not on its own: the code under test carries
    state from call to call.  Replay the shard, and find a short suffix of it that
    still fails; report only what fails again, the same way, three times."""
    if not os.path.exists(crash + ".orig"):
        return None
    d = read_case(crash + ".orig")
    org = d.get("origin", "").split()
    if kind != "random" or len(org) != 4 or "tape" not in d:
        return None
    idx = int(org[3])
    base = [c for c in cmd]
    base[base.index("--cases") + 1] = str(idx + 1)
    for opt in ("--stats", "--hashes", "--crash"):
        i = base.index(opt)
        base[i + 1] = os.path.join(wd, "hist" + opt)

    def fails_from(start, times=1):
        return all(sh(base + ["--from", str(max(0, start))], 900)[0] not in (0, 2, 124) for _ in range(times))

    start, n = None, 1
    while n <= idx + 1:
        if fails_from(idx - n):
            start = max(0, idx - n)
            break
        n *= 4
    if start is None and fails_from(0):
        start = 0
    if start is None or not fails_from(start, 3):
        return None
    os.makedirs(rdir, exist_ok=True)
    path = os.path.join(rdir, "%s-history-%s-%d-%d.replay" % (pid, org[1], int(org[2]), idx))
    write_case(path, {"property": pid, "why": d.get("why", ""), "message": d.get("message", ""),
                      "pool": d.get("pool", "0"), "known": d.get("known", "0"), "driver": kind,
                      "history": "%s %s %d %d" % (org[1], org[2], start, idx + 1),
                      "howto": "python3 %s/run.py %s --replay %s" % (HERE, pid, path)})
    return path, "depends on the calls before it (cases %d..%d of the shard): %s" % (start, idx, d.get("message", ""))


def handle_failure(pid, cfg, build, wrap, kind, crash, out, rc, wd, rdir, cmd):
    """shrink, replay, save.  Returns (path, why) or None when the case does not
    reproduce and was no sanitizer report."""
    binary = build.out[kind]
    why = ""
    reproduced = 0
    if os.path.exists(crash):
        case = read_case(crash)
        shutil.copy(crash, crash + ".orig")
        why = case.get("why", "?") + ": " + case.get("message", "")
        if case.get("why") == "oracle":
            small = os.path.join(wd, "small")
            for b in dict.fromkeys([binary] if kind == "memcheck" else [build.out["random"], binary]):
                src, _ = sh(wrap + [b, "shrink", "--in", crash, "--out", small], 300,
                            dict(ENV, TSAN_OPTIONS=ENV["TSAN_OPTIONS"] + ":symbolize=0"))
                if src == 1 and os.path.exists(small):
                    shutil.copy(small, crash)
                    binary = b
                    kind = "random" if b == build.out["random"] else kind
                    why = "oracle: " + read_case(crash).get("message", "")
                    break
        else:
            shrink_outside(binary, wrap, crash, wd)
        for _ in range(3):
            r, o = sh(wrap + [binary, "replay", "--in", crash], 120)
            if r not in (0, 2):
                reproduced += 1
    else:
        why = "the driver ended with status %s" % rc
    report = "Sanitizer:" in out or "runtime error:" in out
    if reproduced < 3 and not report and not cfg.get("tsan"):
        # not a function of the case alone: replay the history that led to it
        return history_failure(pid, build, wrap, kind, crash, cmd, wd, rdir)
    os.makedirs(rdir, exist_ok=True)
    body = open(crash, errors="replace").read() if os.path.exists(crash) else ""
    tag = hashlib.sha1(body.encode("utf-8", "replace")).hexdigest()[:12]
    path = os.path.join(rdir, "%s-%s.replay" % (pid, tag))
    with open(path, "w") as f:
        f.write(body)
        f.write("driver %s\n" % kind)
        f.write("reproduced %d of 3\n" % reproduced)
        f.write("howto python3 %s/run.py %s --replay %s\n" % (HERE, pid, path))
        if report:
            i = out.find("Sanitizer:")
            i = out.find("runtime error:") if i < 0 else i
            f.write("log " + out[max(0, i - 300):i + 1500].replace("\n", " | ") + "\n")
    if report:
        m = re.search(r"((?:SUMMARY|WARNING|ERROR): .*Sanitizer.*|.*runtime error:.*)", out)
        why += " [" + (m.group(1).strip() if m else "sanitizer report") + "]"
    return path, why


def main():
    pid = sys.argv[1]
    cfg = PROPS[pid]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in WALL_CAP:
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    rdir = os.path.join(HERE, "replays")
    os.makedirs(os.path.join(HERE, "build"), exist_ok=True)
    wd = tempfile.mkdtemp(prefix=pid + ".", dir=os.path.join(HERE, "build"))
    try:
        return (check_programs if "programs" in cfg else check)(pid, cfg, tier, seed, wd, rdir)
    finally:
        shutil.rmtree(wd, ignore_errors=True)


def check_programs(pid, cfg, tier, seed, wd, rdir):
    """generated consumer programs (programs.py)"""
    t0 = time.time()
    if not GXX:
        log("no g++")
        return 2
    if not bare_compiles(wd):
        log("cannot build: the library does not compile")
        return 2
    env = programs.Env(INC, os.path.join(REPO, "src"), GXX, CLANG, wd)
    if "--replay" in sys.argv:
        f = sys.argv[sys.argv.index("--replay") + 1]
        p = json.load(open(f))["program"]
        for k, tu in enumerate(p["tus"]):
            log("// unit %d: %s %s -std=c++%d\n%s" % (k, tu["cc"], tu["opt"], tu["std"],
                                                    programs.tu_source(k, tu).replace(programs.FLAT, "")))
        msg, _ = programs.evaluate(env, p, "replay")
        if msg:
            violation(pid, f, msg)
            return 1
        log("the program builds and agrees")
        return 0
    count = cfg["programs"][tier]
    stat, failed = programs.search(env, seed, count, SOFT_CAP[tier])
    viol, notes = None, []
    if failed:
        p, msg, _ = failed
        p, msg = programs.shrink(env, p, msg, time.time() + 120)
        again = [programs.evaluate(env, p, "again")[0] for _ in range(2)]
        if not all(again):
            log("the search ended early without a reproducible violation: " + msg)
            return 2
        os.makedirs(rdir, exist_ok=True)
        body = json.dumps({"property": pid, "why": msg, "program": p,
                           "howto": "python3 %s/run.py %s --replay FILE" % (HERE, pid)}, indent=1)
        path = os.path.join(rdir, "%s-%s.replay" % (pid, hashlib.sha1(body.encode()).hexdigest()[:12]))
        open(path, "w").write(body)
        viol = (path, msg)
    if stat["stopped"]:
        notes.append("time limit reached: fewer programs than configured")
    st = [{"kind": "programs", "rule": programs.RULE, "known": {}, "evaluations": stat["evaluations"], "comparisons": stat["comparisons"],
           "nontrivial": stat["nontrivial"], "labels": stat["labels"], "samples": stat["samples"]}]
    evidence(pid, cfg, tier, seed, st, {"distinct": len(stat["distinct"])}, t0, 1 if viol else 0, {}, notes, None)
    if viol:
        violation(pid, viol[0], viol[1])
        return 1
    log("property=%s tier=%s seed=%d held: %d programs (%d distinct non-trivial), %d comparisons, %.1f s"
        % (pid, tier, seed, stat["evaluations"], len(stat["distinct"]), stat["comparisons"], time.time() - t0))
    return 0


def check(pid, cfg, tier, seed, wd, rdir):
    t0 = time.time()
    if not GXX:
        log("no g++")
        return 2
    build = Build(pid, cfg, wd)
    bad = build.run()
    if bad:
        # once more, alone: a compiler may have been ended for lack of memory
        bad = build.run()
    if "fuzz" in bad and "random" not in bad:
        if "error:" not in bad["fuzz"]:
            log("note: the fuzz driver could not be linked; random search only\n" + bad["fuzz"][:500])
            del build.out["fuzz"]
            bad = {}
    if bad:
        text = "\n".join("== %s ==\n%s" % kv for kv in bad.items())
        if "error:" in text and bare_compiles(wd):
            os.makedirs(rdir, exist_ok=True)
            path = os.path.join(rdir, pid + "-compile.log")
            open(path, "w").write(text)
            violation(pid, path, "documented API used by this property no longer compiles: "
                      + (re.search(r"error:.*", text) or [""])[0])
            evidence(pid, cfg, tier, seed, [], {}, t0, 1, {}, ["compile"], build)
            return 1
        log("cannot build:\n" + text[:3000])
        return 2
    if "--replay" in sys.argv:
        f = sys.argv[sys.argv.index("--replay") + 1]
        d = read_case(f)
        if "history" in d:
            sd, shard, start, end = d["history"].split()
            pool = os.path.join(wd, "pool")
            open(pool, "w").write("\n".join(d.get("pool", "0").split()[1:]))
            ks = sum((["--known", k] for k in d.get("known", "0").split()[1:]), [])
            rc, out = sh([build.out["random"], "random", "--seed", sd, "--shard", shard, "--from", start, "--cases", end,
                          "--pool", pool] + ks, 900)
            log(out)
            if rc not in (0, 2):
                log("VIOLATION property=%s replay=%s" % (pid, f))
                return 1
            return rc
        kind = read_case(f).get("driver", "random")
        rc, out = sh((MEMCHECK if kind == "memcheck" else []) + [build.out.get(kind, build.out["random"]), "replay", "--in", f], 600)
        log(out)
        if rc not in (0, 2):
            log("VIOLATION property=%s replay=%s" % (pid, f))
            return 1
        return 0 if rc == 0 else 2

    pool = os.path.join(wd, "pool")
    mine_pool(pool)
    known = read_known().get(pid, {})
    extra = ["--pool", pool]
    for k in known:
        extra += ["--known", k]

    wrap = []
    if cfg.get("tsan"):
        # ThreadSanitizer cannot start under some address-space layouts
        rc, out = sh([build.out["random"], "random", "--cases", "1"])
        if "unexpected memory mapping" in out or "FATAL: ThreadSanitizer" in out:
            sa = shutil.which("setarch")
            wrap = [sa, "-R"] if sa else []
            rc, out = sh(wrap + [build.out["random"], "random", "--cases", "1"])
            if "FATAL: ThreadSanitizer" in out:
                log("note: ThreadSanitizer cannot start here; comparing results only")
                subprocess.run([GXX, "-O1", "-std=c++17", "-w", "-I" + os.path.join(HERE, "harness"), "-I" + INC,
                                os.path.join(HERE, "harness", "props", pid + ".cpp")] + lib_sources(cfg)
                               + ["-o", build.out["random"], "-pthread"], check=True)
                wrap = []

    nrand, nfuzz = cfg.get("shards", (5, 3))
    if "fuzz" not in build.out:
        nfuzz = 0
    cases = cfg["cases"][tier]
    runs = cfg.get("runs", {}).get(tier, 0)
    jobs = []
    for k in range(nrand):
        p = os.path.join(wd, "r%d" % k)
        cmd = wrap + [build.out["random"], "random", "--seed", str(seed), "--shard", str(k), "--cases", str(cases),
                      "--soft", str(SOFT_CAP[tier]), "--stats", p + ".stats", "--hashes", p + ".hash", "--crash", p + ".crash"] + extra
        jobs.append(("random", p, cmd))
    for k in range(cfg.get("plain", 0)):
        p = os.path.join(wd, "p%d" % k)
        cmd = [build.out["plain"], "random", "--seed", str(seed), "--shard", str(100 + k), "--cases",
               str(cfg["plain_cases"][tier]), "--soft", str(SOFT_CAP[tier]), "--stats", p + ".stats", "--hashes", p + ".hash",
               "--crash", p + ".crash"] + extra
        jobs.append(("plain", p, cmd))
    if "memcheck" in build.out:
        rc, out = sh(MEMCHECK + [build.out["memcheck"], "random", "--cases", "1"] + extra)
        if rc not in (0, 76, 77, 1):
            log("note: valgrind does not run here; no memcheck shard\n" + out[-300:])
            del build.out["memcheck"]
    if "memcheck" in build.out:
        p = os.path.join(wd, "m0")
        cmd = MEMCHECK + [build.out["memcheck"], "random", "--seed", str(seed), "--shard", "200", "--cases",
                          str(cfg["memcheck"][tier]), "--soft", str(SOFT_CAP[tier]), "--stats", p + ".stats", "--hashes", p + ".hash",
                          "--crash", p + ".crash"] + extra
        jobs.append(("memcheck", p, cmd))
    for k in range(nfuzz):
        p = os.path.join(wd, "f%d" % k)
        corpus = p + ".corpus"
        os.makedirs(corpus)
        if k:  # shard 0 starts from an empty corpus
            x = hashlib.sha256(("%d %s %d" % (seed, pid, k)).encode()).digest()
            for i in range(24):
                blob = b""
                while len(blob) < 16 * (1 + i % 12):
                    x = hashlib.sha256(x).digest()
                    blob += x
                open(os.path.join(corpus, "s%02d" % i), "wb").write(blob)
        cmd = [build.out["fuzz"], "fuzz", "--stats", p + ".stats", "--hashes", p + ".hash", "--crash", p + ".crash"] \
            + extra + ["--", "-runs=%d" % runs, "-seed=%d" % ((seed * 1000003 + k * 7919 + 1) % 2**31 or 1),
                       "-max_len=%d" % cfg.get("max_len", 320), "-timeout=0", "-rss_limit_mb=0", "-max_total_time=%d" % SOFT_CAP[tier], "-print_final_stats=0",
                       "-verbosity=0", "-artifact_prefix=" + p + ".", corpus]
        jobs.append(("fuzz", p, cmd))
    procs, cmd_of = [], {}
    for kind, p, cmd in jobs:
        lf = open(p + ".log", "w")
        procs.append([kind, p, subprocess.Popen(cmd, stdout=lf, stderr=subprocess.STDOUT, env=ENV, cwd=wd), lf])
        cmd_of[p] = cmd
    deadline = time.time() + WALL_CAP[tier]
    failed, capped = None, False
    while True:
        running = 0
        for kind, p, pr, lf in procs:
            rc = pr.poll()
            if rc is None:
                running += 1
            elif rc != 0 and failed is None:
                failed = (kind, p, rc)
        if failed or not running:
            break
        if time.time() > deadline:
            capped = True
            break
        time.sleep(0.05)
    if failed or capped:
        for kind, p, pr, lf in procs:
            if pr.poll() is None:
                pr.terminate()
        time.sleep(0.2)
        for kind, p, pr, lf in procs:
            if pr.poll() is None:
                pr.kill()
            pr.wait()
    for x in procs:
        x[3].close()
    viol = None
    if failed:
        # every finished failure is a candidate: the first that reproduces is reported
        cands = [failed] + [(k, p, pr.returncode) for k, p, pr, _ in procs
                            if os.path.exists(p + ".crash") and p != failed[1]]
        notes = []
        for kind, p, rc in cands:
            out = open(p + ".log", errors="replace").read()
            cmd = cmd_of[p]
            if rc is not None and rc < 0 and not os.path.exists(p + ".crash"):
                notes.append("shard %s ended by signal %d" % (os.path.basename(p), -rc))
                continue
            viol = handle_failure(pid, cfg, build, MEMCHECK if kind == "memcheck" else wrap, kind, p + ".crash", out, rc, wd, rdir, cmd)
            if viol:
                break
            notes.append("shard %s rc=%s: case does not reproduce: %s" % (os.path.basename(p), rc, out[-600:]))
        if not viol:
            log("the search ended early without a reproducible violation:\n" + "\n".join(notes))
            return 2
    stats = []
    for kind, p, pr, _ in procs:
        try:
            s = json.load(open(p + ".stats"))
            s["kind"] = kind
            stats.append(s)
        except (OSError, ValueError):
            pass
    hs = [p + ".hash" for _, p, _, _ in procs if os.path.exists(p + ".hash")]
    distinct = 0
    if hs:
        rc, out = sh([build.out["random"], "merge"] + hs, 300)
        distinct = int(out.split()[0]) if rc == 0 and out.split() else max([s["distinct"] for s in stats] or [0])
    seen = {}
    for s in stats:
        for k, v in s["known"].items():
            seen[k] = seen.get(k, 0) + v
    for k, v in sorted(seen.items()):
        log("KNOWN-FINDING: property=%s %s (%s; met %d times)" % (pid, known.get(k, k), k, v))
    notes = ["wall cap reached: unfinished shards are not counted"] if capped else []
    asked = {"random": cases, "plain": cfg.get("plain_cases", {}).get(tier, 0), "fuzz": runs,
             "memcheck": cfg.get("memcheck", {}).get(tier, 0)}
    if not viol and any(s["evaluations"] < asked[s["kind"]] for s in stats):
        notes.append("time limit reached: some shards explored fewer cases than configured")
    evidence(pid, cfg, tier, seed, stats, {"distinct": distinct}, t0, 1 if viol else 0, seen, notes, build)
    if viol:
        violation(pid, viol[0], viol[1])
        return 1
    if not stats:
        log("no shard finished")
        return 2
    n = sum(s["evaluations"] for s in stats)
    log("property=%s tier=%s seed=%d held: %d cases (%d distinct non-trivial), %d comparisons, %.1f s"
        % (pid, tier, seed, n, distinct, sum(s["comparisons"] for s in stats), time.time() - t0))
    return 0


def evidence(pid, cfg, tier, seed, stats, d, t0, nviol, seen, notes, build):
    labels = {}
    for s in stats:
        for k, v in s["labels"].items():
            labels[k] = labels.get(k, 0) + v
    samples = []
    for s in stats:
        samples += [{"driver": s["kind"], "case": c} for c in s["samples"][:3]]
    rule = (stats[0]["rule"] if stats else "") or "see harness/props/%s.cpp" % pid
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": sum(s["evaluations"] for s in stats),
            "distinct_nontrivial": d.get("distinct", 0),
            "rule": rule,
            "samples": samples[:10] or ["none: " + "; ".join(notes)],
            "oracle_comparisons": sum(s["comparisons"] for s in stats),
            "nontrivial_with_repeats": sum(s["nontrivial"] for s in stats),
            "drivers": [{"kind": s["kind"], "evaluations": s["evaluations"]} for s in stats],
            "classes": dict(sorted(labels.items(), key=lambda kv: -kv[1])),
            "known_findings_excluded": seen,
            "notes": notes,
        },
        "violations": nviol,
        "assumptions": ASSUMPTIONS + cfg.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2),
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    tmp = os.path.join(HERE, "evidence", pid + ".json.tmp")
    json.dump(ev, open(tmp, "w"), indent=1)
    os.replace(tmp, os.path.join(HERE, "evidence", pid + ".json"))


if __name__ == "__main__":
    sys.exit(main())
