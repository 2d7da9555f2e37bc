#!/usr/bin/env python3
"""Builds the drivers of one property from /repo's working tree, runs them in shards under supervision, and judges.

usage: run_check.py ID [--tier quick|thorough] [--seed N] [--replay FILE]
exit 0: property held on everything explored (listed findings are printed as KNOWN-FINDING)
exit 1: VIOLATION lines printed
exit 2: the check itself could not work (does not compile, nothing observed)
"""
import sys, os, json, subprocess, tempfile, shutil, time, re, fnmatch, glob, struct, hashlib, traceback
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VP_REPO", "/repo")
QUICK_LIMIT = 520  # seconds: past it the shards of a quick run stop at their next batch, keeping what they saw
sys.path.insert(0, VERIF)
from checks_config import CHECKS  # noqa: E402

SAN = {
    # full: everything ASan+UBSan know; asan: the sanitizers that compile fast enough to leave time for many more cases
    "full": ["-O1", "-g1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-D_GLIBCXX_ASSERTIONS"],
    "asan": ["-O1", "-g1", "-fsanitize=address,signed-integer-overflow,shift,bool,enum,bounds,integer-divide-by-zero,float-cast-overflow,return,unreachable",
             "-fno-sanitize-recover=all", "-D_GLIBCXX_ASSERTIONS"],
    "tsan": ["-O1", "-g1", "-fsanitize=thread"],
    "plain": ["-O1", "-g1"],
}


def compile_driver(src, variant, extra, out):
    """the project itself is built by g++ as well as clang: code that only g++ accepts is checked all the same"""
    txt = ""
    # the last two attempts do without the few look-ups that rely on how the code is organised inside
    for cxx in (["clang++", "-Wno-c++11-narrowing"], ["g++", "-Wno-narrowing"], ["clang++", "-Wno-c++11-narrowing", "-DVH_NO_INTERNALS"], ["g++", "-Wno-narrowing", "-DVH_NO_INTERNALS"]):
        cmd = cxx[:1] + ["-std=c++17", "-w", "-pthread"] + cxx[1:] + SAN[variant] + [
            "-I" + REPO + "/libs/cmdr11/include", "-I" + REPO + "/addons/loaders", "-I" + VERIF + "/gen", "-I" + VERIF + "/harness",
            VERIF + "/harness/" + src, "-o", out] + extra
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        if p.returncode == 0:
            return 0, p.stdout
        txt = txt or p.stdout
    return 1, txt


FRAME = re.compile(r"#\d+ 0x[0-9a-f]+ in (.+?) (/\S+?)(?::\d+)*(?:\s|$)")
TFRAME = re.compile(r"^\s+#\d+ (.+?) (/\S+?)(?::\d+)*(?:\s|$)", re.M)


def strip_fn(fn):
    """drops template arguments and parameter lists so a key survives type spelling changes"""
    d, o = 0, ""
    fn = fn.replace("operator<<", "operator_shl").replace("operator>>", "operator_shr").replace("operator()", "operator_call").replace("operator->", "operator_arrow").replace("operator<", "operator_lt").replace("operator>", "operator_gt")
    for ch in fn:
        if ch in "<(":
            d += 1
        elif ch in ">)":
            d -= 1
        elif d == 0:
            o += ch
    return o.strip().split(" ")[-1] if o.strip() else fn[:60]


def crash_key(what):
    """a stable name for a crash/sanitizer report: kind + innermost repository function"""
    def repo_fn():
        for m in FRAME.finditer(what):
            if m.group(2).startswith(REPO + "/"):
                return strip_fn(m.group(1)) or os.path.basename(m.group(2))
        for m in TFRAME.finditer(what):
            if m.group(2).startswith(REPO + "/"):
                return strip_fn(m.group(1)) or os.path.basename(m.group(2))
        for m in TFRAME.finditer(what):
            if "/verif/" in m.group(2):
                return strip_fn(m.group(1))
        return "?"
    m = re.search(r"ERROR: AddressSanitizer: ([\w-]+)", what)
    if m:
        return "asan:%s:%s" % (m.group(1), repo_fn())
    m = re.search(r"ERROR: LeakSanitizer", what)
    if m:
        return "lsan:leak:%s" % repo_fn()
    m = re.search(r"(\S+?):\d+:\d+: runtime error: (.+)", what)
    if m:
        msg = re.sub(r"0x[0-9a-f]+|-?\d+(\.\d+)?(e[+-]\d+)?", "N", m.group(2))
        return "ubsan:%s:%s:%s" % (os.path.basename(m.group(1)), msg[:70], repo_fn())
    m = re.search(r"WARNING: ThreadSanitizer: ([\w -]+?)(?: \(pid|$)", what, re.M)
    if m:
        fns = []
        for part in re.split(r"\n\n", what):
            for f in TFRAME.finditer(part):
                if f.group(2).startswith(REPO + "/"):
                    fns.append(strip_fn(f.group(1)))
                    break
        return "tsan:%s:%s" % (m.group(1).strip(), "|".join(sorted(set(fns[:2]))) or "?")
    if what.startswith("hang:"):
        return what.split("\n")[0]
    m = re.match(r"crash:(\S+)", what)
    return "crash:" + (m.group(1) if m else "unknown")


def load_known(prop):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p)) if k.get("property") == prop and k.get("status", "open") == "open"]


def run_shard(binary, unit, prop, seed, a, b, tier, scratch, name, verbose=False, deadline=0):
    out = os.path.join(scratch, name + ".jsonl")
    home = os.path.join(scratch, name + ".d")
    os.mkdir(home)
    os.chmod(home, 0o777)
    env = {"PATH": "/usr/local/bin:/usr/bin:/bin", "HOME": home, "TMPDIR": home, "TERM": "xterm", "LANG": "C.UTF-8", "TZ": unit.get("tz", "UTC")}
    sym = shutil.which("llvm-symbolizer") or shutil.which("llvm-symbolizer-18") or "/usr/lib/llvm-18/bin/llvm-symbolizer"
    common = "log_path=%s/san:symbolize=1:external_symbolizer_path=%s" % (home, sym)
    env["ASAN_OPTIONS"] = common + ":detect_leaks=%d:abort_on_error=0:exitcode=86:allocator_may_return_null=1:detect_stack_use_after_return=0:handle_abort=1:malloc_context_size=12:%s" % (1 if unit.get("leaks") else 0, unit.get("asan_opts", ""))
    env["UBSAN_OPTIONS"] = common + ":print_stacktrace=1:exitcode=86"
    env["TSAN_OPTIONS"] = common + ":halt_on_error=0:exitcode=66:second_deadlock_stack=1:history_size=4:report_signal_unsafe=0:suppressions=" + VERIF + "/harness/tsan.supp:%s" % unit.get("tsan_opts", "")
    env["VH_STOP"] = os.path.join(scratch, "stop")
    if deadline:
        env["VH_DEADLINE"] = str(int(deadline))
    cmd = [binary, "--prop", prop, "--mode", unit["mode"], "--seed", str(seed), "--from", str(a), "--to", str(b), "--tier", tier, "--out", out, "--scratch", home]
    if verbose:
        cmd = cmd[:-4] + ["--scratch", home, "--verbose"]
    kw = {}
    if unit.get("unpriv") and os.geteuid() == 0:
        def demote():
            try:
                os.setgroups([])
                os.setgid(65534)
                os.setuid(65534)
            except OSError:
                pass
        kw["preexec_fn"] = demote
    errf = open(os.path.join(scratch, name + ".err"), "wb")
    p = subprocess.Popen(cmd, env=env, cwd=home, stdin=subprocess.DEVNULL, stdout=errf if not verbose else None, stderr=subprocess.STDOUT if not verbose else None, start_new_session=True, **kw)
    try:
        rc = p.wait(timeout=unit.get("shard_timeout", 700 if tier == "quick" else 7200))
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, 9)
        except OSError:
            pass
        p.wait()
        rc = "timeout"
    errf.close()
    return rc, out, open(os.path.join(scratch, name + ".err"), "rb").read().decode("latin1")[-2000:]


def main():
    t0 = time.time()
    args = sys.argv[1:]
    prop = args.pop(0)
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    replay = None
    scale = float(os.environ.get("VP_SCALE", "1"))
    while args:
        a = args.pop(0)
        if a == "--tier":
            tier = args.pop(0)
        elif a == "--seed":
            seed = int(args.pop(0))
        elif a == "--replay":
            replay = json.load(open(args.pop(0)))
            seed, tier = replay["seed"], replay["tier"]
    cfg = CHECKS[prop]
    units = cfg["units"]
    if replay:
        units = [u for u in units if u["mode"] == replay["mode"] and u["variant"] == replay["variant"]]
    scratch = tempfile.mkdtemp(prefix="vp_%s_" % prop)
    os.chmod(scratch, 0o777)
    try:
        return body(prop, cfg, units, tier, seed, replay, scratch, scale, t0)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def body(prop, cfg, units, tier, seed, replay, scratch, scale, t0):
    # ---- build
    bins, todo = {}, []
    for u in units:
        k = (u["src"], u["variant"], tuple(u.get("flags", [])))
        if k not in bins:
            bins[k] = os.path.join(scratch, "bin%d" % len(bins))
            todo.append(k)
    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(lambda k: compile_driver(k[0], k[1], list(k[2]), bins[k]), todo))
    for k, (rc, txt) in zip(todo, res):
        if rc != 0:
            print("check error: driver %s (%s) does not compile against %s" % (k[0], k[1], REPO))
            print(txt[:4000])
            return 2
    tbuild = time.time() - t0
    # ---- run
    jobs = []
    ncpu = os.cpu_count() or 8
    for ui, u in enumerate(units):
        b = bins[(u["src"], u["variant"], tuple(u.get("flags", [])))]
        if replay:
            jobs.append((ui, u, b, replay["case"], replay["case"] + 1))
            continue
        n = u["cases"][0 if tier == "quick" else 1]
        n = max(1, int(n * scale))
        sh = min(n, u.get("shards", ncpu))
        for s in range(sh):
            jobs.append((ui, u, b, n * s // sh, n * (s + 1) // sh))
    def one(j):
        i, (ui, u, b, a, e) = j
        return run_shard(b, u, prop, seed, a, e, tier, scratch, "u%d_s%d" % (ui, i), verbose=bool(replay), deadline=0 if replay or tier != "quick" else time.time() + QUICK_LIMIT - (time.time() - t0))
    par = max(1, cfg.get("parallel", ncpu))
    with ThreadPoolExecutor(par) as ex:
        results = list(ex.map(one, enumerate(jobs)))
    if replay:
        return 0
    # ---- collect
    stats, samples, notes, viols, cases = {}, [], [], {}, 0
    sigs = set()
    broken = []
    for (ui, u, b, a, e), (rc, out, err) in zip(jobs, results):
        done = False
        if os.path.exists(out):
            for line in open(out, "rb"):
                try:
                    d = json.loads(line.decode("utf-8", "replace"))
                except ValueError:
                    continue
                t = d.get("t")
                if t == "stat":
                    stats[d["name"]] = stats.get(d["name"], 0) + d["n"]
                elif t == "sample":
                    samples.append(d["text"])
                elif t == "note":
                    notes.append(d["text"])
                elif t == "done":
                    cases += d["cases"]
                    done = True
                elif t in ("viol", "crash"):
                    key = d["key"] if t == "viol" else crash_key(d["what"])
                    msg = d["msg"] if t == "viol" else d["what"]
                    v = viols.setdefault(key, {"key": key, "count": 0, "msg": msg, "case": d["case"], "mode": u["mode"], "variant": u["variant"]})
                    v["count"] += 1
        if os.path.exists(out + ".sig"):
            raw = open(out + ".sig", "rb").read()
            raw = raw[: len(raw) // 8 * 8]
            sigs.update(x[0] for x in struct.iter_unpack("<Q", raw))
        if not done:
            broken.append("shard %s [%d,%d) of %s/%s ended %s without finishing: %s" % (ui, a, e, u["mode"], u["variant"], rc, err[-400:]))
    known = load_known(prop)
    new, shown = [], []
    for key, v in sorted(viols.items()):
        hit = None
        for k in known:
            if any(fnmatch.fnmatchcase(key, pat) for pat in k["keys"]) and ("msg" not in k or re.search(k["msg"], v["msg"], re.S)):
                hit = k
                break
        (shown if hit else new).append((v, hit))
    # listed findings are reported whether or not this run's workload met them
    for k in known:
        n = sum(v["count"] for v, h in shown if h is k)
        print("KNOWN-FINDING: property=%s %s (seen %d times in this run)" % (prop, k["title"], n))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    rdir = os.path.join(VERIF, "replays")
    for v, _ in new:
        os.makedirs(rdir, exist_ok=True)
        h = hashlib.sha1((prop + v["key"]).encode()).hexdigest()[:10]
        path = os.path.join(rdir, "%s-%s.json" % (prop, h))
        json.dump({"property": prop, "seed": seed, "tier": tier, "case": v["case"], "mode": v["mode"], "variant": v["variant"], "key": v["key"], "message": v["msg"]}, open(path, "w"), indent=1)
        print("VIOLATION property=%s replay=%s" % (prop, path))
        print("  key=%s seen=%d case=%d mode=%s\n  %s" % (v["key"], v["count"], v["case"], v["mode"], v["msg"][:1500]))
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration",
          "coverage": {"evaluations": cases, "distinct_nontrivial": len(sigs), "rule": cfg["rule"], "samples": samples[:5],
                       "observed": dict(sorted(stats.items())), "known_findings": len(known), "build_s": round(tbuild, 1),
                       "variants": sorted({u["variant"] for u in units}), "notes": sorted(set(notes))[:10]},
          "assumptions": cfg.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": len(new)}
    json.dump(ev, open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1)
    print("%s: %d cases, %d distinct non-trivial, %d checks, %d new / %d known violation kinds, build %.1fs, total %.1fs" % (prop, cases, len(sigs), stats.get("checks", 0), len(new), len(shown), tbuild, time.time() - t0))
    if os.environ.get("VP_STATS"):
        print(json.dumps(stats, indent=0))
    if new:
        return 1
    if broken:
        print("check error: " + "\n".join(broken[:4]))
        return 2
    if cases == 0 or len(sigs) == 0 or stats.get("checks", 0) == 0:
        print("check error: nothing was observed")
        return 2
    return 0


if __name__ == "__main__":
    try:
        sys.exit(main())
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        sys.exit(2)
