#!/usr/bin/env python3
"""Builds and runs the monitors of one property against /repo's working tree.

usage: checks/run.py ID [--tier quick|thorough] [--scenario S] [--variant V]
                        [--seed N] [--only-case N] [--keep DIR]

exit 0: held on everything explored; exit 1: VIOLATION line printed;
exit 2: the check itself could not do its work (build error, nothing observed).
"""
import argparse, glob, hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor
import threading

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, os.path.join(VERIF, "checks"))

COMMON = ["-std=c++14", "-O1", "-g1", "-fno-omit-frame-pointer", "-pthread",
          "-Wno-deprecated-declarations", "-D_GLIBCXX_ASSERTIONS"]
VARIANTS = {
    # memory and undefined behaviour
    "asan": ["-fsanitize=address,undefined", "-fno-sanitize=alignment,vptr",
             "-fno-sanitize-recover=all"],
    # the same with alignment checks (for headers about unaligned access)
    "asanal": ["-fsanitize=address,undefined", "-fno-sanitize=vptr", "-fno-sanitize-recover=all"],
    # memory errors under schedule perturbation
    "asanp": ["-fsanitize=address,undefined", "-fno-sanitize=alignment,vptr",
              "-fno-sanitize-recover=all", "-fsanitize-coverage=trace-pc"],
    # the same with checks of the dynamic types of objects
    "asanv": ["-fsanitize=address,undefined", "-fno-sanitize=alignment",
              "-fno-sanitize-recover=all", "-fsanitize-coverage=trace-pc"],
    # data races under schedule perturbation
    "tsan": ["-fsanitize=thread", "-fsanitize-coverage=trace-pc"],
    # fast, native timing with perturbation
    "native": ["-O2", "-fsanitize-coverage=trace-pc"],
    "plain": ["-O2"],
    # assertions compiled out, as in release builds
    "ndebug": ["-O2", "-DNDEBUG", "-fsanitize=address,undefined",
               "-fno-sanitize=alignment,vptr", "-fno-sanitize-recover=all"],
}
ENV = {
    "ASAN_OPTIONS": "abort_on_error=0:exitcode=99:detect_leaks=1:detect_stack_use_after_return=1:"
                    "strict_string_checks=1:allocator_may_return_null=1:symbolize=1:handle_abort=1",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=98",
    "TSAN_OPTIONS": "halt_on_error=1:exitcode=97:second_deadlock_stack=1:history_size=4:"
                    "suppressions=" + os.path.join(VERIF, "harness", "tsan.supp"),
    "LSAN_OPTIONS": "exitcode=96:report_objects=1",
}


def props():
    d = {}
    with open(os.path.join(VERIF, "checks", "table.json")) as f:
        for k, v in json.load(f).items():
            d[k] = v
    return d


def include_dir(base):
    """<base>/inc/sharemind/...: the repository's headers, plus stand-ins for the
    C headers it depends on that are not installed here."""
    inc = os.path.join(base, "inc")
    for root, dirs, files in os.walk(os.path.join(REPO, "src")):
        rel = os.path.relpath(root, os.path.join(REPO, "src"))
        dst = os.path.normpath(os.path.join(inc, "sharemind", rel))
        os.makedirs(dst, exist_ok=True)
        for f in files:
            os.symlink(os.path.join(root, f), os.path.join(dst, f))
    stubs = os.path.join(VERIF, "stubs", "sharemind")
    for root, dirs, files in os.walk(stubs):
        rel = os.path.relpath(root, stubs)
        dst = os.path.normpath(os.path.join(inc, "sharemind", rel))
        os.makedirs(dst, exist_ok=True)
        for f in files:
            t = os.path.join(dst, f)
            if not os.path.lexists(t):
                os.symlink(os.path.join(root, f), t)
    return inc


def compile_variant(src, variant, inc, out, extra):
    hook = out + "-hook.o"
    r = subprocess.run(["gcc", "-O2", "-c", os.path.join(VERIF, "harness", "vm_hook.c"), "-o", hook],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    if r.returncode != 0:
        return r.returncode, r.stdout, []
    cmd = ["g++"] + COMMON + VARIANTS[variant] + ["-I", inc, "-I", os.path.join(VERIF, "harness")] \
        + ["-DVM_VARIANT_" + variant, "-include", "vm_pre.hpp", src, hook, "-o", out] + extra + ["-latomic"]
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    return r.returncode, r.stdout, cmd


def scenarios_of(text):
    """The scenarios of a harness by name, each with its whole text."""
    out = {}
    for m in re.finditer(r"^VM_SCENARIO\((\w+),", text, re.M):
        i = text.index("{", m.end())
        depth, k, quote = 0, i, None
        while k < len(text):  # braces outside of literals and comments
            c = text[k]
            if quote:
                if c == "\\":
                    k += 1
                elif c == quote:
                    quote = None
            elif c == '"' or (c == "'" and not text[k - 1].isalnum()):
                quote = c
            elif text.startswith("//", k):
                k = text.find("\n", k)
            elif text.startswith("/*", k):
                k = text.find("*/", k) + 1
            elif c == "{":
                depth += 1
            elif c == "}":
                depth -= 1
                if depth == 0:
                    break
            k += 1
        out[m.group(1)] = text[m.start():k + 1]
    return out


def syntax_only(src, variant, inc, extra):
    return subprocess.run(["g++"] + COMMON + VARIANTS[variant] + ["-I", inc, "-I", os.path.join(VERIF, "harness")]
                          + ["-DVM_VARIANT_" + variant, "-include", "vm_pre.hpp", "-fsyntax-only", src] + extra,
                          stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode == 0


class Slots:
    """A weighted semaphore: threaded scenarios take several slots."""
    def __init__(self, n):
        self.n, self.c = n, threading.Condition()

    def take(self, k):
        with self.c:
            while self.n < k:
                self.c.wait()
            self.n -= k

    def give(self, k):
        with self.c:
            self.n += k
            self.c.notify_all()


def classify(rc, err):
    """Key and text of what ended the process abnormally."""
    m = re.search(r"VM-(violation|deadlock|deadline) scenario=\S+ case=\d+ key=(.*?): (.*)", err)
    if m:
        return m.group(2), m.group(0)
    m = re.search(r"Assertion [`'](.*?)' failed", err)
    if m:
        return "assert", m.group(0)
    m = re.search(r"ERROR: AddressSanitizer: (\S+)", err)
    if m and m.group(1) != "ABRT":
        return "asan-" + m.group(1).rstrip(":"), first_lines(err, "ERROR: AddressSanitizer")
    m = re.search(r"runtime error: (.*)", err)
    if m:
        return "ubsan", first_lines(err, "runtime error:")
    m = re.search(r"WARNING: ThreadSanitizer: (.*?) \(pid", err)
    if m:
        return "tsan-" + m.group(1).replace(" ", "-"), first_lines(err, "WARNING: ThreadSanitizer")
    if "LeakSanitizer: detected memory leaks" in err:
        return "leak", first_lines(err, "LeakSanitizer: detected")
    m = re.search(r"terminate called .*", err)
    if m:
        return "terminate", first_lines(err, "terminate called")
    if rc < 0:
        return "signal-%d" % -rc, err[-400:]
    return "exit-%d" % rc, err[-400:]


def first_lines(err, marker, n=14):
    i = err.find(marker)
    return "\n".join(err[i:].splitlines()[:n])


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or "1"))
    ap.add_argument("--scenario")
    ap.add_argument("--variant")
    ap.add_argument("--only-case", type=int)
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--keep")
    ap.add_argument("--times", action="store_true")
    ap.add_argument("--all", action="store_true", help="report every violation, not only the first per scenario")
    a = ap.parse_args()
    t0 = time.time()
    entry = props()[a.id]
    src = os.path.join(VERIF, "harness", entry["harness"])
    text = open(src).read()
    variants = re.search(r"VM-VARIANTS:\s*(.*?)\s*(?:\*/)?$", text, re.M).group(1).split()
    m = re.search(r"VM-LIBS:\s*(.*?)\s*(?:\*/)?$", text, re.M)
    extra = m.group(1).split() if m else []
    # harnesses of many template instances compile faster without optimization
    m = re.search(r"VM-SAN-FLAGS:\s*(.*?)\s*(?:\*/)?$", text, re.M)
    entry["sanflags"] = m.group(1).split() if m else []
    if a.variant:
        variants = [v for v in variants if v == a.variant]
    base = a.keep or tempfile.mkdtemp(prefix="vm-%s-" % a.id)
    os.makedirs(base, exist_ok=True)
    rc = 2
    try:
        rc = run(a, entry, src, variants, extra, base, t0)
    finally:
        if not a.keep:
            shutil.rmtree(base, ignore_errors=True)
    sys.exit(rc)


def run(a, entry, src, variants, extra, base, t0):
    inc = include_dir(base)
    gen = entry.get("generator")
    if gen:  # produces a generated source included by the harness
        r = subprocess.run([sys.executable, os.path.join(VERIF, "harness", gen), base, str(a.seed), a.tier])
        if r.returncode != 0:
            print("HARNESS-ERROR: generator failed")
            return 2
    with ThreadPoolExecutor(8) as ex:
        futs = {v: ex.submit(compile_variant, src, v, inc, os.path.join(base, "h-" + v),
                             extra + (["-I", base] if gen else [])
                             + (entry["sanflags"] if "asan" in v else [])) for v in variants}
        broken = []
        for v, f in futs.items():
            code, out, cmd = f.result()
            if code != 0:
                print(out[-6000:])
                print("HARNESS-ERROR: building %s (%s) failed" % (os.path.basename(src), v))
                broken.append(v)
    # what could be built may still find a violation
    unbuilt = []
    groups = os.path.join(base, "groups")
    if len(broken) == len(variants) and os.path.exists(groups):
        # Find the generated groups which do not compile, and let the program report those:
        # a group is left out (its place is taken by a row that fails) by defining VM_SKIP_<group>.
        names = open(groups).read().split()

        def compiles(skipped):
            return syntax_only(src, variants[0], inc, extra + ["-I", base] + ["-DVM_SKIP_" + g for g in skipped])
        with ThreadPoolExecutor(8) as ex:
            bad = [g for g, ok in zip(names, ex.map(lambda g: compiles([n for n in names if n != g]), names)) if not ok]
        if bad and len(bad) < len(names) and compile_variant(
                src, variants[0], inc, os.path.join(base, "h-" + variants[0]),
                extra + ["-I", base] + ["-DVM_SKIP_" + g for g in bad])[0] == 0:
            print("the generated groups %s do not compile" % " ".join(bad))
            broken = variants[1:]
    if len(broken) == len(variants) and not gen:
        # One scenario may use something the code under test no longer offers; the others still judge the rest.
        text = open(src).read()
        parts = scenarios_of(text)

        def without(names):
            out = os.path.join(base, "reduced-%s.cpp" % ("-".join(n for n in parts if n not in names)[:60] or "none"))
            t = text
            for n in names:
                t = t.replace(parts[n], "")
            with open(out, "w") as f:
                f.write(t)
            return out
        with ThreadPoolExecutor(8) as ex:
            bad = [g for g, ok in zip(parts, ex.map(lambda g: syntax_only(
                without([n for n in parts if n != g]), variants[0], inc, extra), parts)) if not ok]
        if bad and len(bad) < len(parts):
            reduced = without(bad)
            with ThreadPoolExecutor(8) as ex:
                res = list(ex.map(lambda v: compile_variant(
                    reduced, v, inc, os.path.join(base, "h-" + v),
                    extra + (entry["sanflags"] if "asan" in v else []))[0], variants))
            broken = [v for v, c in zip(variants, res) if c != 0]
            unbuilt = bad
            print("the scenarios %s do not compile" % " ".join(bad))
    variants = [v for v in variants if v not in broken]
    if not variants:
        return 2
    listing = []
    for v in variants:
        for line in subprocess.run([os.path.join(base, "h-" + v), "--list"], env=dict(os.environ, **ENV),
                                   stdout=subprocess.PIPE, text=True).stdout.splitlines():
            if line not in listing:
                listing.append(line)
    jobs = []
    for line in listing:
        name, vs, q, t, shards, slots = line.split("\t")
        if a.scenario and a.scenario != name:
            continue
        for v in vs.split():
            if v not in variants:
                continue
            n = int(shards)
            if a.tier == "thorough":
                n = max(n, 8 // max(1, int(slots)))
            if a.only_case is not None:
                n = 1
            for i in range(n):
                jobs.append((name, v, i, n, int(slots)))
    if not jobs:
        print("HARNESS-ERROR: nothing to run")
        return 2
    slots = Slots(8)
    deadline = 45.0 if a.tier == "quick" else 120.0
    limit = 300.0 if a.tier == "quick" else 3600.0
    stop = threading.Event()
    known = load_known(a.id)

    def one(job, attempt=0):
        name, v, i, n, k = job
        if stop.is_set() and not a.all:
            return None
        tag = "%s-%s-%d-%d" % (name, v, i, attempt)
        out = os.path.join(base, tag + ".json")
        casef = os.path.join(base, tag + ".case")
        cwd = os.path.join(base, tag + ".d")
        os.makedirs(cwd, exist_ok=True)
        cmd = [os.path.join(base, "h-" + v), "--scenario", name, "--seed", str(a.seed), "--shard", str(i),
               "--shards", str(n), "--out", out, "--case-file", casef,
               "--case-deadline", str(deadline * (2 if attempt else 1))]
        if a.scale != 1.0:
            cmd += ["--scale", str(a.scale)]
        if a.tier == "thorough":
            cmd.append("--thorough")
        if a.only_case is not None:
            cmd += ["--only-case", str(a.only_case)]
        slots.take(k)
        if stop.is_set() and not a.all:
            slots.give(k)
            return None
        ts = time.time()
        try:
            with open(os.path.join(base, tag + ".err"), "wb") as errf:
                p = subprocess.Popen(cmd, cwd=cwd, env=dict(os.environ, **ENV), stdout=errf, stderr=errf,
                                     start_new_session=True)
                try:
                    rc = p.wait(timeout=limit)
                    timed_out = False
                except subprocess.TimeoutExpired:
                    timed_out = True
                    rc = -9
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except ProcessLookupError:
                    pass
                p.wait()
        finally:
            slots.give(k)
            if a.times:
                print("  %-24s %-7s shard %d: %.1f s (rc %s)" % (name, v, i, time.time() - ts, rc), file=sys.stderr)
        with open(os.path.join(base, tag + ".err"), errors="replace") as f:
            err = f.read()
        res = {}
        try:
            res = json.load(open(out))
        except Exception:
            pass
        case = ""
        try:
            raw = open(casef, "rb").read()
            case = raw[:64].split(b"\0")[0].decode() + " " + raw[64:].split(b"\0")[0].decode(errors="replace")
        except Exception:
            pass
        if rc == 96 and "LeakSanitizer has encountered a fatal error" in err or \
           "LeakSanitizer has encountered a fatal error" in err:
            # the leak checker could not run here: not a verdict about the code
            if res.get("status") == "held":
                return dict(job=job, ok=True, res=res, note="leak check unavailable")
        if timed_out:
            return dict(job=job, ok=None, res=res, why="time limit of %.0f s" % limit, case=case)
        if rc == 0 and res.get("status") == "held":
            return dict(job=job, ok=True, res=res)
        if "FATAL: ThreadSanitizer" in err and "unexpected memory mapping" in err and attempt < 3:
            return one(job, attempt + 1)
        if rc == 72 and attempt == 0 and not stop.is_set():
            return one(job, 1)  # slow machine or livelock? try once more, alone and longer
        if rc in (-9, 137):  # ended from outside (memory guard)
            return dict(job=job, ok=None, res=res, why="killed from outside", case=case)
        key, detail = classify(rc, err)
        if not a.all and not any(kf["scenario"] == name and kf["key"] == key for kf in known):
            stop.set()  # enough for a verdict: start no further process
        return dict(job=job, ok=False, res=res, key=key, detail=detail, case=case, err=err, cmd=cmd)

    with ThreadPoolExecutor(len(jobs)) as ex:
        results = [r for r in ex.map(one, jobs) if r]

    viol, knownhits, incon = [], [], []
    for r in results:
        if r["ok"] is None:
            incon.append(r)
        elif r["ok"] is False:
            hit = None
            for kf in known:
                if kf["scenario"] == r["job"][0] and kf["key"] == r["key"]:
                    hit = kf
            (knownhits if hit else viol).append((r, hit))
    cov = merge(results)
    ok_runs = [r for r in results if r["ok"]]
    cov["rule"] = entry["rule"]
    cov["runs"] = {"%s/%s" % (n, v): sum(1 for r in results if r["job"][0] == n and r["job"][1] == v)
                   for (n, v) in sorted({(r["job"][0], r["job"][1]) for r in results})}
    ev = {"property": a.id, "tier": a.tier, "seed": a.seed, "level": "exploration", "coverage": cov,
          "assumptions": entry.get("assumptions", []), "wall_s": round(time.time() - t0, 2),
          "violations": len(viol)}
    notes = sorted({r["note"] for r in results if r.get("note")})
    if notes:
        ev["notes"] = notes
    if incon:
        ev["inconclusive"] = [{"scenario": r["job"][0], "variant": r["job"][1], "why": r["why"], "case": r["case"]}
                              for r in incon]
    if a.scenario is None and a.only_case is None and a.variant is None:
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", a.id + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
            f.write("\n")
    seen = set()
    for r, hit in knownhits:
        if hit["what"] not in seen:
            seen.add(hit["what"])
            print("KNOWN-FINDING: property=%s %s" % (a.id, hit["what"]))
    if viol:
        rd = os.path.join(VERIF, "replays", a.id)
        os.makedirs(rd, exist_ok=True)
        seen = set()
        for r, _ in viol:
            name, v, i, n, k = r["job"]
            if (name, r["key"]) in seen:
                continue
            seen.add((name, r["key"]))
            path = os.path.join(rd, "%s-%s.json" % (name, re.sub(r"[^A-Za-z0-9_.-]", "_", r["key"])[:60]))
            caseno = r["case"].split(" ")[0]
            with open(path, "w") as f:
                json.dump({"property": a.id, "scenario": name, "variant": v, "seed": a.seed, "shard": i,
                           "shards": n, "tier": a.tier, "key": r["key"], "case": r["case"],
                           "detail": r["detail"],
                           "replay_cmd": "python3 checks/run.py %s --scenario %s --variant %s --seed %d --tier %s --only-case %s"
                                         % (a.id, name, v, a.seed, a.tier, caseno or 0),
                           "log": r["err"][-8000:]}, f, indent=1)
            print("scenario %s (%s), case %s: %s" % (name, v, r["case"][:300], r["detail"][:1500]))
            print("VIOLATION property=%s replay=%s" % (a.id, path))
        return 1
    if broken or unbuilt:
        return 2
    if incon:
        for r in incon:
            print("INCONCLUSIVE: %s/%s: %s (case %s)" % (r["job"][0], r["job"][1], r["why"], r["case"][:200]))
        return 2
    if not ok_runs or cov["evaluations"] == 0 or cov["distinct_nontrivial"] == 0:
        if not knownhits:
            print("HARNESS-ERROR: the monitors observed nothing")
            return 2
    print("%s %s: held on %d evaluations, %d distinct (%.1f s)"
          % (a.id, a.tier, cov["evaluations"], cov["distinct_nontrivial"], time.time() - t0))
    return 0


def merge(results):
    ev, counters, samples, sigs, distinct_max = 0, {}, [], set(), 0
    for r in results:
        x = r.get("res") or {}
        ev += x.get("evaluations", 0)
        for k, v in x.get("counters", {}).items():
            k = "%s.%s" % (r["job"][0], k)
            counters[k] = counters.get(k, 0) + v
        s = x.get("samples", [])
        if s and len(samples) < 24 and not any(y["scenario"] == r["job"][0] for y in samples):
            samples.append({"scenario": r["job"][0], "variant": r["job"][1], "case": s[0]})
        sigs.update((r["job"][0], h) for h in x.get("sigs", []))
    return {"evaluations": ev, "distinct_nontrivial": len(sigs), "samples": samples, "monitor_events": counters}


def load_known(pid):
    path = os.path.join(VERIF, "known-findings.json")
    if not os.path.exists(path):
        return []
    d = json.load(open(path))
    return [k for k in d.get("known", []) if k["property"] == pid]


if __name__ == "__main__":
    main()
