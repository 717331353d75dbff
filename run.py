#!/usr/bin/env python3
"""Runs one check of /verif against the working tree of /repo.

  run.py C07 [--tier quick|thorough] [--keep]     explore; exit 0 / exit 1 + VIOLATION line
  run.py --replay FILE                            re-run one recorded execution (exit 1 when it still fails)
  run.py --setup                                  compile the framework once, as a smoke test
  run.py --manifest                               rewrite MANIFEST.json from the headers of checks/*.cpp
"""
import glob, json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("CE_REPO", "/repo")
CXX = "clang++-18" if shutil.which("clang++-18") else "clang++"
BASE = ["-std=c++17", "-g1", "-Wno-everything", "-I", REPO + "/lib/h", "-I", V + "/mc", "-DCE_REPO=\"%s\"" % REPO]
LIMIT = {"quick": 840, "thorough": 6 * 3600}
RC = {10: "oracle", 11: "crash", 12: "hang", 13: "divergence"}


def header(prop):
    meta = {"config": [], "assume": []}
    for line in open("%s/checks/%s.cpp" % (V, prop)):
        m = re.match(r"//@\s*([a-z]+)(?:\s+([a-z0-9_]+))?\s*:\s*(.*)$", line)
        if not m:
            continue
        k, name, v = m.groups()
        if k == "config":
            meta["config"].append((name, v.split()))
        elif k == "assume":
            meta["assume"].append(v)
        else:
            meta[k] = (meta[k] + " " + v) if k in meta else v
    if not meta["config"]:
        meta["config"] = [("default", [])]
    return meta


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


class Uncompilable(Exception):
    pass


def headers_compile(work):
    """do the headers and sources of the working tree compile by themselves?"""
    src = work + "/all.cpp"
    heads = sorted(glob.glob(REPO + "/lib/h/ce/*.h"))
    heads = [h for h in heads if os.path.basename(h) != "atomic_std.h"]
    open(src, "w").write('#include "ce/ce.h"\n' + "".join('#include "%s"\n' % h for h in heads))
    for s in [src] + sorted(glob.glob(REPO + "/lib/*.cpp")):
        if sh([CXX] + BASE + ["-fsyntax-only", s]).returncode:
            return False
    return True


def build(prop, meta, cfg, flags, work):
    """compile harness + framework + the needed sources of the repository's working tree"""
    opt = meta.get("cxx", "-O1").split()
    srcs = ["%s/checks/%s.cpp" % (V, prop), V + "/mc/mc.cpp"]
    srcs += [V + "/mc/" + s for s in meta.get("extra", "").split()]
    srcs += [REPO + "/lib/" + s for s in meta.get("repo", "").split()]
    plain = set(V + "/mc/" + s for s in ("mc.cpp tsanrt.cpp sched.cpp").split())
    objs = []

    def one(i):
        s = srcs[i]
        o = "%s/%s-%d.o" % (work, cfg, i)
        f = [x for x in opt + flags if not (s in plain and x.startswith("-fsanitize=thread"))]
        f = [x for x in f if not (s in plain and x.startswith("-fsanitize-coverage"))]
        r = sh([CXX] + BASE + f + ["-c", s, "-o", o])
        if r.returncode:  # once more, should the compiler have been short of memory
            r = sh([CXX] + BASE + f + ["-c", s, "-o", o])
        return o, r
    with ThreadPoolExecutor(8) as ex:
        for o, r in ex.map(one, range(len(srcs))):
            objs.append(o)
            if r.returncode:
                print(r.stdout[:6000])
                raise Uncompilable("%s (%s) does not compile against the working tree" % (prop, cfg), r.stdout)
    exe = "%s/%s" % (work, cfg)
    link = [x for x in opt + flags if x != "-fsanitize=thread"]
    r = sh([CXX] + link + objs + ["-lpthread", "-o", exe] + meta.get("link", "").split())
    if r.returncode:
        print(r.stdout[:6000])
        raise Uncompilable("%s (%s) does not link against the working tree" % (prop, cfg), r.stdout)
    return exe


def findings(prop):
    known, path = {}, V + "/known_findings.txt"
    if os.path.exists(path):
        for line in open(path, errors="replace"):
            m = re.match(r"known:\s+property=(\S+)\s+key=(\S+)\s+(.*)", line)
            if m and m.group(1) == prop:
                known[m.group(2)] = m.group(3).strip()
    return known


def run_cfg(prop, exe, cfg, tier, work, known, replay=None):
    kf = work + "/known.txt"
    open(kf, "w").write("\n".join(known) + "\n")
    out = work + "/out-" + cfg
    os.makedirs(out, exist_ok=True)
    stats = out + "/stats.json"
    for f in (stats, out + "/replay.tmp"):
        if os.path.exists(f):
            os.unlink(f)
    cmd = [exe, "--property", prop, "--config", cfg, "--tier", tier, "--out", out, "--known", kf]
    cmd += ["--replay", replay] if replay else ["--stats", stats, "--jobs", "8"]
    log = open(out + "/log", "w")
    try:
        p = subprocess.run(cmd, stdout=log, stderr=subprocess.STDOUT, timeout=LIMIT[tier], cwd=out)
        rc = p.returncode
    except subprocess.TimeoutExpired:
        rc = 124
    log.close()
    text = open(out + "/log", errors="replace").read()
    st = None
    if os.path.exists(stats):
        try:
            st = json.load(open(stats, errors="replace"))
        except ValueError:
            pass
    rp = out + "/replay.tmp"
    return rc, st, text, rp if os.path.exists(rp) else None


def check(prop, tier):
    t0 = time.time()
    meta = header(prop)
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    known = findings(prop)
    ev = "%s/evidence/%s.json" % (V, prop)
    os.makedirs(V + "/evidence", exist_ok=True)
    os.makedirs(V + "/replays", exist_ok=True)
    if os.path.exists(ev):
        os.unlink(ev)
    work = tempfile.mkdtemp(prefix="ce-%s-" % prop)
    scen, samples, hit = [], [], set()
    violation = None
    try:
        for cfg, flags in meta["config"]:
            try:
                exe = build(prop, meta, cfg, flags, work)
            except Uncompilable as e:
                print(e.args[1][:6000])
                if not headers_compile(work):
                    print("ERROR: the working tree itself does not compile")
                    return 2
                # the tree compiles, but an instance of its interface which the property quantifies over does not
                path = "%s/replays/%s.%s.txt" % (V, prop, cfg)
                body = "property=%s\nconfig=%s\ntier=%s\nmessage=%s\n" % (prop, cfg, tier, e.args[0])
                open(path, "w").write(body + "\n" + e.args[1])
                violation = (path, cfg, "compile", body)
                break
            for attempt in range(3):
                rc, st, text, rp = run_cfg(prop, exe, cfg, tier, work, known)
                if rc == 0:
                    break
                if rc not in RC:
                    if attempt < 1 and rc != 124:
                        continue
                    print(text[-4000:])
                    print("ERROR: harness of %s/%s ended with %s" % (prop, cfg, rc))
                    return 2
                path = "%s/replays/%s.%s.txt" % (V, prop, cfg)
                body = open(rp, errors="replace").read() if rp else "property=%s\nconfig=%s\n(no replay recorded)\n" % (prop, cfg)
                open(path, "w").write(body)
                again = []
                if rp and rc != 13:
                    for _ in range(2):
                        r2 = run_cfg(prop, exe, cfg, tier, work, known, replay=path)
                        again.append(r2[0])
                with open(path, "a") as f:
                    f.write("\n---- log of the exploration\n" + text[-6000:] + "\n---- replays ended with %s\n" % again)
                if all(x in RC for x in again) and again or attempt == 2:
                    violation = (path, cfg, RC[rc], body)
                    break
                # did not replay: explore again, alone, before believing it
            if violation:
                break
            for s in st["scenarios"]:
                s["config"] = cfg
                scen.append(s)
            samples += st["samples"]
            hit |= set(st.get("known_hit", []))
    finally:
        shutil.rmtree(work, ignore_errors=True)

    tot = lambda k: sum(s[k] for s in scen)
    complete = all(s["complete"] or s["kind"] == "bfs" for s in scen) and bool(scen)
    level = meta["level"]
    cov = {"scenarios": scen, "exhaustive": complete and not violation,
           "bounds": meta.get("bounds", ""), "configs": [c for c, _ in meta["config"]]}
    if level == "model_checking":
        cov["states"] = tot("states")
        cov["transitions"] = tot("transitions")
        cov["traces_validated_against_impl"] = tot("executions")
        cov["distinct_outcomes"] = tot("outcomes")
    else:
        cov["evaluations"] = max(tot("executions"), tot("transitions"), tot("nontrivial"))
        cov["distinct_nontrivial"] = tot("nontrivial")
        cov["rule"] = meta.get("rule", "")
    if not samples:
        samples = ["no samples recorded"] if not violation else [violation[3][:600]]
    cov["samples"] = samples[:16]
    rec = {"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov,
           "assumptions": meta["assume"], "wall_s": round(time.time() - t0, 3), "violations": 1 if violation else 0}
    json.dump(rec, open(ev, "w"), indent=1)
    for k in sorted(hit):
        print("KNOWN-FINDING: property=%s %s (%s)" % (prop, known.get(k, ""), k))
    if violation:
        print(violation[3][:3000])
        print("VIOLATION property=%s replay=%s" % (prop, violation[0]))
        return 1
    if level == "model_checking":
        print("%s ok: %d states, %d transitions, %d executions of the real code in %.1fs" % (prop, cov["states"], cov["transitions"], tot("executions"), time.time() - t0))
    else:
        print("%s ok: %d cases enumerated, %d non-trivial, in %.1fs" % (prop, cov["evaluations"], cov["distinct_nontrivial"], time.time() - t0))
    return 0


def replay(path):
    kv = dict(l.rstrip("\n").split("=", 1) for l in open(path, errors="replace").read().split("trace:")[0].splitlines() if "=" in l)
    prop, cfg = kv["property"], kv["config"]
    meta = header(prop)
    work = tempfile.mkdtemp(prefix="ce-replay-")
    try:
        try:
            exe = build(prop, meta, cfg, dict(meta["config"])[cfg], work)
        except Uncompilable as e:
            print(e.args[1][:6000], e.args[0])
            return 1
        rc, _, text, _ = run_cfg(prop, exe, cfg, kv.get("tier", "quick"), work, findings(prop), replay=os.path.abspath(path))
    finally:
        shutil.rmtree(work, ignore_errors=True)
    print(text)
    return 1 if rc in RC else rc


def manifest():
    props = [json.loads(l) for l in open(V + "/properties.jsonl") if l.strip()]
    checks, na = [], []
    reasons = {}
    p = V + "/not_applicable.json"
    if os.path.exists(p):
        reasons = json.load(open(p))
    for pr in props:
        i = pr["id"]
        if os.path.exists("%s/checks/%s.cpp" % (V, i)):
            m = header(i)
            checks.append({"property": i, "quick_cmd": "python3 run.py %s --tier quick" % i,
                           "thorough_cmd": "python3 run.py %s --tier thorough" % i,
                           "evidence_file": "evidence/%s.json" % i,
                           "technique": m["technique"], "level": m["level"], "level_note": m["note"]})
        else:
            na.append({"property": i, "reason": reasons.get(i, "check not built yet")})
    man = {"version": 1, "setup_cmd": "python3 run.py --setup", "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo: every check drives the public API of the working tree; nondeterminism is owned by link-time interposition (pthread, clock, write), by a replacement __tsan_* runtime for the atomics, and by template environments."}
    json.dump(man, open(V + "/MANIFEST.json", "w"), indent=1)
    print("%d checks, %d not applicable" % (len(checks), len(na)))


def main():
    a = sys.argv[1:]
    if a[:1] == ["--setup"]:
        w = tempfile.mkdtemp(prefix="ce-setup-")
        r = sh([CXX] + BASE + ["-O1", "-c", V + "/mc/mc.cpp", "-o", w + "/mc.o"])
        shutil.rmtree(w, ignore_errors=True)
        print(r.stdout, "framework compiles" if r.returncode == 0 else "framework does not compile")
        return r.returncode
    if a[:1] == ["--manifest"]:
        return manifest()
    if a[:1] == ["--replay"]:
        return replay(a[1])
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in a:
        tier = a[a.index("--tier") + 1]
    return check(a[0], tier)


if __name__ == "__main__":
    sys.exit(main())
