#!/usr/bin/env python3
"""check.py <property> [--replay FILE] [--keep]

Builds the property's harnesses from /repo's current tree (instrumented), runs them, collects what the
monitors reported, writes evidence/<property>.json and prints the verdict.
Exit 0: held on everything explored.  1: VIOLATION line printed.  2: the check itself failed.
"""
import concurrent.futures as cf
import json
import os
import re
import shutil
import struct
import subprocess
import sys
import threading
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VF_REPO", "/repo")
sys.path.insert(0, os.path.join(VERIF, "bin"))
from config import ENV_ASAN, PROPS  # noqa: E402

SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
TIER = os.environ.get("VERIF_TIER", "quick")
if "--tier" in sys.argv:
    TIER = sys.argv[sys.argv.index("--tier") + 1]
if TIER not in ("quick", "thorough"):
    TIER = "quick"
CPUS = min(8, os.cpu_count() or 8)

COMMON = ["-std=c++20", "-g1", "-fno-omit-frame-pointer", "-Wno-everything" if False else "-w", "-pthread"]
VARIANTS = {
    # name: (compiler, flags, links)
    "asan": ("g++", ["-O1", "-D_GLIBCXX_ASSERTIONS", "-fsanitize=address,undefined",
                     "-fno-sanitize-recover=all"], []),
    "tsan": ("g++", ["-O1", "-fsanitize=thread"], []),
    "plain": ("g++", ["-O2"], []),
    "casan": ("clang++", ["-O1", "-D_GLIBCXX_ASSERTIONS", "-fsanitize=address,undefined",
                          "-fno-sanitize-recover=all"], []),
    "ctsan": ("clang++", ["-O1", "-fsanitize=thread"], []),
    "vg": ("g++", ["-O1", "-DVF_VG"], []),  # run under valgrind's memcheck
    "cplain": ("clang++", ["-O3"], []),
    "fuzz": ("clang++", ["-O1", "-D_GLIBCXX_ASSERTIONS", "-DVF_FUZZ",
                         "-fsanitize=fuzzer,address,undefined", "-fno-sanitize-recover=all"], []),
}
ENV = dict(os.environ)
ENV.update({
    "ASAN_OPTIONS": ENV_ASAN,
    "UBSAN_OPTIONS": "print_stacktrace=1:exitcode=97:halt_on_error=1",
    "TSAN_OPTIONS": "halt_on_error=1:exitcode=66:history_size=4:second_deadlock_stack=1:handle_abort=0",
    "LC_ALL": "C",
})


class HarnessError(Exception):
    pass


def build(job, out):
    cc, flags, links = VARIANTS[job["variant"]]
    src = os.path.join(VERIF, "harness", job["src"])
    cmd = [cc] + COMMON + flags + [
        "-I" + os.path.join(VERIF, "harness"), "-I" + os.path.join(VERIF, "harness", "stubs"),
        "-I" + os.path.join(REPO, "include"), "-DVF_PROP=\"%s\"" % job["prop"],
    ] + ["-D" + d for d in job.get("defs", [])] + [src, "-o", out] + job.get("links", []) + links
    if not job.get("more"):
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        return p.returncode, " ".join(cmd), p.stdout
    # several translation units: each on its own, then linked
    at, tail_ = cmd.index(src), cmd[cmd.index("-o"):]
    units = [src] + [os.path.join(VERIF, "harness", m) for m in job["more"]]
    procs, objs, log = [], [], ""
    for i, u in enumerate(units):
        objs.append("%s.%d.o" % (out, i))
        procs.append(subprocess.Popen(cmd[:at] + ["-c", u, "-o", objs[-1]], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                                      errors="replace"))
    rc = 0
    for q in procs:
        o, _ = q.communicate()
        log += o
        rc = rc or q.returncode
    if rc == 0:
        p = subprocess.run(cmd[:at] + objs + tail_, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        rc, log = p.returncode, log + p.stdout
    return rc, " ".join(cmd[:at] + units + tail_), log


def control_build(job, work):
    """Does the harness side of the job (everything but /repo) and the toolchain work?"""
    cc, flags, _ = VARIANTS[job["variant"]]
    flags = [f for f in flags if "VF_FUZZ" not in f]
    flags = [f.replace("fuzzer,", "") for f in flags]
    src = os.path.join(work, "control.cpp")
    with open(src, "w") as f:
        f.write('#include "vf.hpp"\n#include <thread>\n#include <functional>\nvoid vf_case(vf::Src&){}\nvoid vf_directed(){}\n')
    p = subprocess.run([cc] + COMMON + flags + ["-I" + os.path.join(VERIF, "harness"), src, "-o",
                                                os.path.join(work, "control")],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    return p.returncode == 0


def tail(path, n=6000):
    try:
        with open(path, "rb") as f:
            f.seek(0, 2)
            size = f.tell()
            f.seek(max(0, size - n))
            return f.read().decode("utf-8", "replace")
    except OSError:
        return ""


def head(path, n=8000):
    try:
        with open(path, "rb") as f:
            return f.read(n).decode("utf-8", "replace")
    except OSError:
        return ""


def repo_headers():
    names = [re.escape(f) for _, _, fs in os.walk(os.path.join(REPO, "include")) for f in fs]
    return names or ["-"]


def crash_key(err, rc):
    """Stable name of a crash: kind + innermost function of the repository on the first stack."""
    kind = "crash rc=%d" % rc
    m = re.search(r"ERROR: AddressSanitizer: ([\w-]+)", err)
    if m:
        kind = "asan " + m.group(1)
    else:
        m = re.search(r"runtime error: ([^\n]+)", err)
        if m:
            kind = "ubsan " + re.sub(r"0x[0-9a-f]+|-?\d+", "N", m.group(1))[:80]
        else:
            m = re.search(r"WARNING: ThreadSanitizer: ([\w -]+?) \(", err)
            if m:
                kind = "tsan " + m.group(1)
            elif re.search(r"^==\d+== \S", err, re.M):
                m = re.search(r"^==\d+== (Conditional jump|Use of uninit|Syscall param|Invalid read|Invalid write|Mismatched|"
                              r"Invalid free|Jump to|Source and destination|Process terminating|[\d,]+ bytes in [\d,]+ blocks are definitely lost"
                              r"|[\d,]+ \(.*definitely lost)", err, re.M)
                kind = "memcheck " + (re.sub(r"[\d,]+", "N", m.group(1)) if m else "error")
            elif "Assertion" in err:
                m = re.search(r"Assertion '([^']+)'", err)
                kind = "assertion " + (m.group(1) if m else "")
            elif "terminate called" in err:
                m = re.search(r"terminate called[^\n]*", err)
                kind = m.group(0)
            elif rc < 0:
                kind = "signal %d" % -rc
    fn = ""
    for line in err.splitlines():
        m = re.search(r"==\s+(?:at|by) 0x[0-9A-F]+: (.+) \(((?:" + "|".join(repo_headers()) + r")):\d+\)", line)
        if m:
            fn = re.sub(r"<.*>", "<>", m.group(1)).split("(")[0].strip() + " " + m.group(2)
            break
        m = re.search(r"#\d+ (?:0x[0-9a-f]+ in )?(.+?) .*include/xitren/([\w/]+\.hpp)", line)
        if m:
            fn = re.sub(r"<.*>", "<>", m.group(1)).split("(")[0].strip() + " " + m.group(2)
            break
    return (kind + (" in " + fn if fn else "")).strip()


class Control:
    """Lets the first violation end the other runs, and the first suspected hang hold back the runs not yet begun."""

    def __init__(self, known):
        self.known = known
        self.stop = threading.Event()
        self.hold = threading.Event()


def run_shard(job, exe, work, i, first, n, timeout, directed, attempt=0, ctl=None):
    if ctl and (ctl.stop.is_set() or ctl.hold.is_set()):
        return None
    res = run_shard_1(job, exe, work, i, first, n, timeout, directed, attempt, ctl)
    if ctl and any(v["key"] not in ctl.known for v in res["viol"]):
        ctl.stop.set()
    if ctl and res["hung"]:
        ctl.hold.set()
    return res


def run_shard_1(job, exe, work, i, first, n, timeout, directed, attempt=0, ctl=None):
    secs = job["secs"]
    base = os.path.join(work, "%s.%d.%d" % (job["name"], i, attempt))
    out, prog, sigs, err = base + ".out", base + ".prog", base + ".sigs", base + ".err"
    env = dict(ENV)
    env.update(job.get("env", {}))
    if job["variant"] == "fuzz":
        corp = base + ".corpus"
        os.makedirs(corp, exist_ok=True)
        env["VF_OUT"], env["VF_SIGS"] = out, sigs
        argv = [exe, "-runs=%d" % n, "-seed=%d" % (SEED * 1000 + i + 1), "-max_len=%d" % job.get("max_len", 600),
                "-len_control=20", "-timeout=%d" % min(timeout, 100),
                "-max_total_time=%d" % secs, "-rss_limit_mb=3000", "-print_final_stats=1",
                "-artifact_prefix=" + base + ".art.", corp]
        extra = []
    else:
        argv = [exe, "--seed", str(SEED), "--first", str(first), "--n", str(n), "--out", out, "--prog", prog,
                "--sigs", sigs, "--secs", str(secs), "--directed", "1" if directed and job.get("directed", True) else "0"]
        if job["variant"] == "vg":
            argv = ["valgrind", "-q", "--error-exitcode=98", "--fair-sched=yes", "--num-callers=20", "--leak-check=full",
                    "--show-leak-kinds=definite", "--errors-for-leak-kinds=definite"] + argv
    t0 = time.time()
    hung = cut = False
    with open(err, "wb") as ef:
        p = subprocess.Popen(argv, stdout=ef, stderr=ef, stdin=subprocess.DEVNULL, env=env, cwd=work,
                             start_new_session=True)
        last, since = None, time.time()
        while True:
            try:
                rc = p.wait(timeout=0.02 if time.time() - t0 < 1 else 0.25)
                break
            except subprocess.TimeoutExpired:
                pass
            try:
                with open(prog, "rb") as f:
                    now = f.read(16)
            except OSError:
                now = None
            if now != last:
                last, since = now, time.time()
            if ctl and ctl.stop.is_set():
                cut = True
                try:
                    os.killpg(p.pid, 9)
                except OSError:
                    pass
                rc = p.wait()
                break
            stuck = time.time() - since > timeout if job["variant"] != "fuzz" else time.time() - t0 > secs + 200
            if stuck:
                hung = True
                try:
                    os.killpg(p.pid, 9)
                except OSError:
                    pass
                rc = p.wait()
                break
    res = {"job": job["name"], "shard": i, "first": first, "n": n, "rc": rc, "hung": hung, "wall": time.time() - t0,
           "viol": [], "stats": None, "sigs": sigs, "err": err, "argv": argv}
    death = None
    try:
        with open(out, errors="replace") as f:
            for line in f:
                try:
                    d = json.loads(line)
                except ValueError:
                    continue
                if d.get("t") == "viol":
                    res["viol"].append(d)
                elif d.get("t") == "stats":
                    res["stats"] = d
                elif d.get("t") == "death":
                    death = d
    except OSError:
        pass
    res["death"] = death
    case = None
    try:
        with open(prog, "rb") as f:
            case = struct.unpack("<Q", f.read(8))[0]
    except (OSError, struct.error):
        pass
    res["case"] = case
    etext = head(err)
    if not hung and not cut and rc != 0 and not (job["variant"] == "fuzz" and res["viol"]):
        if "unexpected memory mapping" in etext and attempt < 5:
            return run_shard_1(job, exe, work, i, first, n, timeout, directed, attempt + 1, ctl)
        if rc in (126, 127) or (rc == -9) or "Cannot allocate memory" in etext or "out-of-memory" in etext \
                or "DEADLYSIGNAL" in etext and "nested bug" in etext:
            res["harness_error"] = "run failed rc=%d: %s" % (rc, etext[-400:])
        else:
            msg = etext[:3500]
            res["viol"].append({"key": crash_key(etext, rc), "case": case, "seed": SEED, "msg": msg,
                                "trace": (death or {}).get("trace", "")})
    return res


def load_findings(prop):
    found = []
    try:
        with open(os.path.join(VERIF, "known_findings.txt")) as f:
            for line in f:
                m = re.match(r"finding: property=(\S+) key=\[(.*?)\] (.*)", line.strip())
                if m and m.group(1) == prop:
                    found.append((m.group(2), m.group(3)))
    except OSError:
        pass
    return found


def main():
    prop = sys.argv[1]
    replay = None
    if "--replay" in sys.argv:
        with open(sys.argv[sys.argv.index("--replay") + 1]) as f:
            replay = json.load(f)
    cfg = PROPS[prop]
    t0 = time.time()
    work = os.path.join(VERIF, ".work", "%s-%d" % (prop, os.getpid()))
    os.makedirs(work, exist_ok=True)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    try:
        code = check(prop, cfg, work, replay, t0)
    except HarnessError as e:
        print("CHECK ERROR: property=%s %s" % (prop, e))
        code = 2
    except Exception:  # noqa: BLE001  (an error of the check, never a verdict)
        import traceback
        traceback.print_exc()
        print("CHECK ERROR: property=%s internal" % prop)
        code = 2
    finally:
        if "--keep" not in sys.argv:
            shutil.rmtree(work, ignore_errors=True)
    sys.exit(code)


def check(prop, cfg, work, replay, t0):
    jobs = []
    for j in cfg["jobs"]:
        if TIER == "quick" and not j.get("quick"):
            continue
        j = dict(j)
        j["prop"] = prop
        j["plan"] = j.get("quick") if TIER == "quick" else (j.get("thorough") or j.get("quick"))
        if replay:
            if j["name"] != replay["job"]:
                continue
            j["plan"] = (1, 1)
        jobs.append(j)
    violations = []  # dicts: key,msg,trace,case,job
    refused = 0  # wrong uses the compiler refused, as it should
    with cf.ThreadPoolExecutor(CPUS) as ex:
        exes = {}
        futs = {}
        for j in jobs:
            sig = (j["src"], j["variant"], tuple(j.get("defs", [])), tuple(j.get("more", [])))
            if sig not in futs:
                exe = os.path.join(work, "h%d" % len(futs))
                futs[sig] = (ex.submit(build, j, exe), exe)
            exes[j["name"]] = sig
        for j in jobs:
            f, exe = futs[exes[j["name"]]]
            rc, cmd, log = f.result()
            j["exe"] = exe
            j["cmd"] = cmd
            if rc != 0:
                if not control_build(j, work):
                    raise HarnessError("toolchain does not build: " + log[-800:])
                if "error:" not in log:
                    raise HarnessError("compiler failed: " + log[-800:])
                if j.get("refused"):  # a wrong use: the compiler's refusal is what the property asks for
                    refused += 1
                    j["skip"] = True
                    continue
                m = re.search(r"(\S+/include/xitren/\S+?):(\d+)", log)
                violations.append({"key": "api-does-not-compile", "job": j["name"], "case": None, "seed": SEED,
                                   "msg": "the public interface this property is about no longer compiles ("
                                          + (m.group(1) if m else "") + ")\n" + log[:3000], "trace": ""})
                j["skip"] = True
        t_build = time.time() - t0
        tasks = []
        par = cfg.get("parallel", CPUS)
        waves = sum(-(-j["plan"][0] // par) if j["plan"][0] >= par else j["plan"][0] / par for j in jobs)
        for j in jobs:
            # a shard stops at this many seconds even if it has cases left
            j["secs"] = cfg.get("secs", max(10, int((240 if TIER == "quick" else 500) / max(1, waves))))
            if j.get("skip"):
                continue
            shards, n = j["plan"]
            for i in range(shards):
                first = i * n
                directed = (i == 0)
                if replay:
                    first = replay["case"] if replay.get("case") is not None and replay["case"] < 2 ** 63 else 0
                    directed = replay.get("case") is None or replay["case"] >= 2 ** 63
                tasks.append((j, i, first, n, directed))
        results = []
        ctl = Control({k for k, _ in load_findings(prop)})
        left = tasks

        def run_left():
            with cf.ThreadPoolExecutor(par) as ex2:
                futs2 = [ex2.submit(run_shard, j, j["exe"], work, i, first, n,
                                    j.get("stall", 90), d, 0, ctl)
                         for (j, i, first, n, d) in left]
                new = [(t, f.result()) for t, f in zip(left, futs2)]
            return [(t, r) for t, r in new if r], [t for t, r in new if not r]
        # hangs: inconclusive unless confirmed on a re-run; what a refuted suspicion held back is run after it
        incon = rounds = 0
        while left and not ctl.stop.is_set():
            rounds += 1
            done, left = run_left()
            results += [r for _, r in done]
            confirmed = None
            for (j, i, first, n, d), r in [x for x in done if x[1]["hung"]][:2]:
                if ctl.stop.is_set():
                    break
                tmo = j.get("stall", 90)
                at = r["case"]
                whole = at is None or at >= 2 ** 63 or j["variant"] == "fuzz"
                with cf.ThreadPoolExecutor(3) as ex3:
                    again = [ex3.submit(run_shard, j, j["exe"], work, i, first if whole else at, n if whole else max(1, first + n - at), tmo,
                                        d and (at is None or at >= 2 ** 63), a) for a in (7, 8, 9)]
                    for f in again:
                        r3 = f.result()
                        results.append(r3)
                        if r3["hung"]:
                            confirmed = r3
                if confirmed:
                    violations.append({"key": "hang", "job": j["name"], "case": confirmed["case"], "seed": SEED,
                                       "msg": "no progress within %d s, in two runs; the case never finished\n%s"
                                              % (tmo, tail(confirmed["err"], 1500)), "trace": ""})
                    break
                incon += 1
            if confirmed:
                break
            if rounds == 3:  # so slow a machine that runs keep being suspected
                incon += len(left)
                break
            ctl.hold.clear()
    for r in results:
        for v in r["viol"]:
            v["job"] = r["job"]
            violations.append(v)
    errs = [r["harness_error"] for r in results if r.get("harness_error")]
    # merge
    counters, samples, cases, foreign = {}, [], 0, 0
    sigs = set()
    for r in results:
        st = r["stats"]
        if st:
            for k, v in st["counts"].items():
                counters[k] = counters.get(k, 0) + v
            for s in st["samples"]:
                if len(samples) < 4:
                    samples.append({"job": r["job"], "case": s})
            foreign += st["foreign"]
            incon += st["inconclusive"]
        try:
            with open(r["sigs"], "rb") as f:
                data = f.read()
            sigs.update(struct.unpack("<%dQ" % (len(data) // 8), data))
        except OSError:
            pass
    cases = counters.pop("cases", 0)
    if refused:
        counters["refused_by_the_compiler"] = refused
    known = load_findings(prop)
    reported, known_hit = [], {}
    for v in violations:
        k = [w for kk, w in known if kk == v["key"]]
        if k:
            known_hit[v["key"]] = k[0]
        else:
            reported.append(v)
    ev = {
        "property": prop, "tier": TIER, "seed": SEED, "level": cfg.get("level", "exploration"),
        "coverage": {
            "evaluations": cases, "distinct_nontrivial": len(sigs), "rule": cfg["rule"],
            "samples": samples or [{"note": "no case completed"}],
            "observed": counters,
            "runs": [{"job": j["name"], "build": VARIANTS[j["variant"]][0] + " " + " ".join(VARIANTS[j["variant"]][1]),
                      "defs": j.get("defs", []), "shards": j["plan"][0], "cases_per_shard": j["plan"][1]} for j in jobs],
            "inconclusive_runs": incon, "reports_for_other_properties": foreign,
            "exhaustive": False,
        },
        "assumptions": cfg.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2), "violations": len(reported),
    }
    if not replay:
        tmp = os.path.join(VERIF, "evidence", ".%s.%d" % (prop, os.getpid()))
        with open(tmp, "w") as f:
            json.dump(ev, f, indent=1)
        os.replace(tmp, os.path.join(VERIF, "evidence", prop + ".json"))
    for key, what in known_hit.items():
        print("KNOWN-FINDING: property=%s %s" % (prop, what))
    if reported:
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        shown = set()
        for v in reported:
            if v["key"] in shown:
                continue
            shown.add(v["key"])
            if len(shown) > 5:
                break
            name = re.sub(r"[^\w]+", "_", v["key"])[:50]
            path = os.path.join(VERIF, "replays", "%s-%s.json" % (prop, name))
            v2 = dict(v)
            v2["property"] = prop
            v2["how"] = "VERIF_SEED=%d VERIF_TIER=%s python3 bin/check.py %s --replay %s" % (SEED, TIER, prop, path)
            v2["build"] = next((j["cmd"] for j in jobs if j["name"] == v["job"]), "")
            with open(path, "w") as f:
                json.dump(v2, f, indent=1)
            print("VIOLATION property=%s replay=%s" % (prop, path))
            print("  key=%s job=%s case=%s" % (v["key"], v["job"], v["case"]))
            for line in (v["msg"].splitlines() or [""])[:8]:
                print("  | " + line[:240])
            if v.get("trace"):
                print("  trace (end):")
                for line in v["trace"].splitlines()[-6:]:
                    print("  . " + line[:160])
        return 1
    if errs:
        raise HarnessError(errs[0])
    missing = [r for r in results if r["stats"] is None and not r["hung"]]
    if missing and not replay:
        raise HarnessError("a run ended without a result: %s" % tail(missing[0]["err"], 500))
    if not replay:
        low = [c for c in cfg.get("require", []) if not counters.get(c)]
        if low or cases == 0 or len(sigs) < cfg.get("min_distinct", 2):
            raise HarnessError("too little observed: %s cases=%d distinct=%d" % (low, cases, len(sigs)))
    if os.environ.get("VF_TIMES"):
        for r in results:
            print("  %s/%d %.1f s" % (r["job"], r["shard"], r["wall"]))
    print("HELD property=%s cases=%d distinct=%d wall=%.1fs build=%.1fs %s" % (
        prop, cases, len(sigs), time.time() - t0, t_build, "inconclusive=%d" % incon if incon else ""))
    return 0


if __name__ == "__main__":
    main()
