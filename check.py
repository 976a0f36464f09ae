#!/usr/bin/env python3
"""Decides one property of /repo's current source by abstract interpretation.

usage: check.py <PROPERTY> [quick|thorough]

Compiles /repo's sources and the property's drivers (harness/*.c) to LLVM bitcode, lets the
abstract interpreter (engine/, built to build/mbai) analyse every driver, and maps its alarms
to the property.  Nothing of /repo is executed.
exit 0: every obligation discharged (known findings apart); exit 1: VIOLATION; exit 2: analysis broken.
"""
import json, os, re, shutil, subprocess, sys, tempfile, time, glob, hashlib
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("MBAI_REPO", "/repo")
CLANG = "/usr/bin/clang-18" if os.path.exists("/usr/bin/clang-18") else "clang"
LLVM = "/usr/lib/llvm-18/bin/"
CFLAGS = ["-O0", "-g", "-Xclang", "-disable-O0-optnone", "-fno-builtin", "-D__NO_CTYPE", "-emit-llvm", "-c", "-w"]
sys.path.insert(0, HERE)
import props as P


class Broken(Exception):
    pass


def sh(cmd, what, timeout=600):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    if r.returncode != 0:
        raise Broken("%s failed: %s\n%s" % (what, " ".join(cmd), r.stdout.decode("latin-1")[-2000:]))


def compile_lib(tmp):
    inc = ["-I" + REPO, "-I" + REPO + "/mbus", "-I" + HERE + "/harness/inc/x"]
    srcs = sorted(glob.glob(REPO + "/mbus/*.c"))
    if len(srcs) < 5:
        raise Broken("library sources vanished: %r" % srcs)
    with ThreadPoolExecutor(8) as ex:
        fs = []
        for s in srcs + [HERE + "/harness/models.c"]:
            o = tmp + "/L_" + os.path.basename(s)[:-2] + ".bc"
            fs.append((o, ex.submit(sh, [CLANG] + CFLAGS + inc + ["-I" + HERE + "/harness", s, "-o", o], "compiling")))
        for _, f in fs:
            f.result()
    sh([LLVM + "llvm-link"] + [o for o, _ in fs] + ["-o", tmp + "/lib.bc"], "linking")
    return srcs


def compile_driver(tmp, name, extra=()):
    out = tmp + "/" + name
    src = HERE + "/harness/" + name + ".c"
    sh([CLANG] + CFLAGS + ["-I" + REPO, "-I" + REPO + "/mbus", "-I" + HERE + "/harness", src, "-o", out + ".d.bc"], "compiling driver")
    sh([LLVM + "llvm-link", out + ".d.bc", tmp + "/lib.bc", "-o", out + ".l.bc"], "linking driver")
    sh([LLVM + "opt", "-passes=mem2reg", out + ".l.bc", "-o", out + ".p.bc"], "opt")
    return out + ".p.bc"


def compile_tool(tmp, driver, tool):
    """a driver together with one command line tool, whose main() becomes tool_main()"""
    out = tmp + "/" + driver + "-" + tool
    inc = ["-I" + REPO, "-I" + REPO + "/mbus", "-I" + HERE + "/harness", "-I" + HERE + "/harness/inc/x"]
    sh([CLANG] + CFLAGS + inc + ["-Dmain=tool_main", REPO + "/" + tool + ".c" if "/" in tool else REPO + "/bin/" + tool + ".c", "-o", out + ".t.bc"], "compiling tool")
    sh([CLANG] + CFLAGS + inc + [HERE + "/harness/" + driver + ".c", "-o", out + ".d.bc"], "compiling driver")
    sh([LLVM + "llvm-link", out + ".t.bc", out + ".d.bc", tmp + "/lib.bc", "-o", out + ".l.bc"], "linking tool")
    sh([LLVM + "opt", "-passes=mem2reg", out + ".l.bc", "-o", out + ".p.bc"], "opt")
    return out + ".p.bc"


def run_job(bc, entry, opts, limit, retry=False):
    cmd = [HERE + "/build/mbai", bc, "--entry=" + entry, "--limit=%d" % limit] + list(opts)
    t = time.time()
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=limit + 60)
    except subprocess.TimeoutExpired:
        return {"fatal": "time limit of %d s" % limit, "alarms": [], "entry": entry, "wall": time.time() - t, "cover": {}, "sites": [], "logs": [], "unmodelled": [], "funcs": [], "stat": {}}
    try:
        d = json.loads(r.stdout.decode("latin-1"))
    except ValueError:
        raise Broken("engine crashed (%d) on %s: %s" % (r.returncode, entry, r.stderr.decode("latin-1")[-500:]))
    d["wall"] = time.time() - t
    if "--history" in opts and d["alarms"]:  # what goes wrong without any history is another property's business
        fresh = run_job(bc, entry, [o for o in opts if o != "--history"], limit)
        same = {(a["cat"], a["file"], a["line"], a["msg"]) for a in fresh["alarms"]}
        d["alarms"] = [a for a in d["alarms"] if (a["cat"], a["file"], a["line"], a["msg"]) not in same or a["cat"] == "ro-write" and "table" in a["msg"]]
    if "fatal" in d and not d["alarms"] and "--paths" in opts and not retry:
        # more paths than this input domain should have: merge them sooner
        d2 = run_job(bc, entry, [o for o in opts if not o.startswith("--cap")] + ["--cap=40"], limit, True)
        d2["wall"] += d["wall"]
        return d2
    return d


def load_known():
    out = []
    for l in open(HERE + "/known_findings.txt"):
        if l.startswith("known: "):
            m = re.match(r"known: property=(\S+) cat=(\S+) func=(\S+) text=(.*?) \|\| (.*)$", l.strip())
            if not m:
                raise Broken("bad line in known_findings.txt: " + l)
            out.append(m.groups())
    return out


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    prop = P.PROPS[pid]
    t0 = time.time()
    sh(["bash", HERE + "/engine/build.sh"], "building the engine")
    tmp = tempfile.mkdtemp(prefix="mbai-", dir="/tmp")
    try:
        res = decide(pid, prop, tier, tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    report(pid, prop, tier, res, time.time() - t0)


def selftest(tmp):
    """the engine must still alarm on every broken example and stay quiet on every sound one"""
    src = HERE + "/harness/selftest.c"
    sh([CLANG] + CFLAGS + ["-I" + HERE + "/harness", src, "-o", tmp + "/st.d.bc"], "compiling self-test")
    sh([LLVM + "llvm-link", tmp + "/st.d.bc", tmp + "/L_models.bc", "-o", tmp + "/st.l.bc"], "linking self-test")
    sh([LLVM + "opt", "-passes=mem2reg", tmp + "/st.l.bc", "-o", tmp + "/st.p.bc"], "opt")
    pat = re.compile(r"/\* (GOOD|BAD)(?:\(([^)]*)\))? \*/ void (st_\w+)\(")
    cases = pat.findall(open(src).read())
    if len(cases) < 20:
        raise Broken("self-test lost its cases")
    n = [0, 0]

    def one(c):
        kind, cats, fn = c
        d = run_job(tmp + "/st.p.bc", fn, ["--leak", "--oom"] if "leak" in fn or "oom" in fn else ["--leak", "--history"] if "hist" in fn else ["--leak"], 60)
        got = {a["cat"] for a in d["alarms"]}
        if "fatal" in d:
            raise Broken("self-test %s: %s" % (fn, d["fatal"]))
        if kind == "GOOD" and got:
            raise Broken("self-test %s: unexpected %r" % (fn, got))
        if kind == "BAD" and not (got & set(cats.split(","))):
            raise Broken("self-test %s: expected %s, got %r" % (fn, cats, got))
        return kind
    with ThreadPoolExecutor(8) as ex:
        ks = list(ex.map(one, cases))
    return {"broken_examples_reported": ks.count("BAD"), "sound_examples_quiet": ks.count("GOOD")}


def decide(pid, prop, tier, tmp):
    srcs = compile_lib(tmp)
    res = {"srcs": srcs, "selftest": selftest(tmp), "jobs": [], "viol": [], "known": [], "ignored": []}
    jobs = [j for j in prop["jobs"] if tier == "thorough" or not j.get("thorough")]
    bcs = {}
    with ThreadPoolExecutor(8) as ex:
        for j in jobs:
            k = (j["driver"], j.get("tool"))
            if k not in bcs:
                bcs[k] = ex.submit(compile_tool, tmp, j["driver"], j["tool"]) if j.get("tool") else ex.submit(compile_driver, tmp, j["driver"])
        bcs = {k: f.result() for k, f in bcs.items()}
    with ThreadPoolExecutor(8) as ex:
        fs = [(j, ex.submit(run_job, bcs[(j["driver"], j.get("tool"))], j["entry"], list(j.get("opts", ())) + (list(j.get("thorough_opts", ())) if tier == "thorough" else []), j.get("limit", 150 if tier == "quick" else 1800))) for j in jobs]
        out = [(j, f.result()) for j, f in fs]
    known = load_known()
    expected = json.load(open(HERE + "/reached.json")).get(pid, {}) if os.path.exists(HERE + "/reached.json") else {}
    seen = set()
    reached = {m for _, d in out for m in d["cover"]}
    for j, d in out:
        cats = j.get("cats", prop["cats"])
        rel = []
        for a in d.get("alarms", []):
            a["entry"] = d.get("entry", j["entry"])
            if not any(re.fullmatch(c, a["cat"]) for c in cats):
                res["ignored"].append(a)
                continue
            key = (a["cat"], a["file"], a["line"], a["msg"] if a["cat"].startswith("fail:") else "")
            if key in seen:
                continue
            seen.add(key)
            rel.append(a)
        for m in sorted(set(d.get("sites", []))):
            if m in d["cover"]:
                continue
            if "fatal" in d:
                continue
            if m.startswith("R:"):
                rel.append({"cat": "unreachable", "func": d["entry"], "file": "", "line": 0, "msg": "no input can reach: " + m[2:], "chain": "", "entry": d["entry"]})
        for a in rel:
            k = next((x for x in known if x[0] == pid and x[1] == a["cat"] and x[2] == a["func"] and x[3] in a["msg"]), None)
            (res["known"] if k else res["viol"]).append((a, k))
        gone = [] if "fatal" in d or "unreachable" not in prop["cats"] or (tier != "thorough" and j.get("thorough")) else sorted(set(expected.get(j.get("name", j["driver"] + "/" + j["entry"]), [])) - reached)
        for m in gone:
            res.setdefault("vacuous", []).append((d["entry"], m))
            reached.add(m)
        if "oracle" in j and "fatal" not in d:
            import oracles
            for msg in getattr(oracles, j["oracle"])(d, res, REPO):
                res["viol"].append(({"cat": "oracle", "func": j["entry"], "file": "", "line": 0, "msg": msg, "chain": "", "entry": j["entry"]}, None))
        res["jobs"].append((j, d))
    if "pass" in prop:  # structural rule over the bitcode or syntax tree
        import rules
        getattr(rules, prop["pass"])(res, tmp, REPO)
    return res


def report(pid, prop, tier, res, wall):
    viol, broken = res["viol"], []
    for j, d in res["jobs"]:
        if "fatal" in d and not viol:
            broken.append("%s: %s" % (j["entry"], d["fatal"]))
        if not viol and d.get("unmodelled"):
            bad = [u for u in d["unmodelled"] if u not in P.HARMLESS]
            if bad:
                broken.append("%s: library functions without a model: %s" % (j["entry"], ", ".join(bad)))
    if not broken and not viol:  # behaviour the driver waits for can no longer occur (the abstraction over-approximates)
        for e, m in res.get("vacuous", []):
            viol.append(({"cat": "unreachable", "func": e, "file": "", "line": 0, "msg": "no execution gets as far as the check '%s'" % m[2:], "chain": "", "entry": e}, None))
    checks = sorted({m for _, d in res["jobs"] for m in d.get("cover", {}) if m[:2] in ("C:", "R:")})
    obl = sum(d["stat"].get("obligations", 0) for _, d in res["jobs"]) + sum(d["cover"][m] and 1 for _, d in res["jobs"] for m in d.get("cover", {}) if m[:2] in ("C:", "R:")) + res.get("rule_sites", 0)
    funcs = sorted({f for _, d in res["jobs"] for f in d.get("funcs", []) if f.split("@")[1].startswith(REPO)})
    nf = len(funcs)
    if nf < max(1, prop.get("min_funcs", 1) // 2) and not viol and res["jobs"]:
        broken.append("only %d library functions were analysed, expected at least %d" % (nf, max(1, prop["min_funcs"] // 2)))
    if obl < max(1, prop.get("min_obligations", 1) // 2) and not viol:
        broken.append("only %d obligations, expected at least %d" % (obl, max(1, prop["min_obligations"] // 2)))
    bad = len(viol) + len(res["known"])
    ev = {"property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "proof",
          "coverage": {"obligations": obl, "discharged": max(0, obl - bad),
                       "checker_cmd": "python3 check.py %s %s" % (pid, tier),
                       "trusted_base": ["engine/ (abstract transfer functions, joins, C library models)", "harness/ (drivers, models of the environment)", "clang 18 front end and mem2reg"],
                       "rule": prop["rule"],
                       "functions_analysed": [f.replace(REPO + "/", "") for f in funcs],
                       "drivers": [{"entry": j["entry"], "tool": j.get("tool"), "wall_s": round(d["wall"], 2), "instructions": d["stat"].get("instructions"), "steps": d["stat"].get("steps"), "joins": d["stat"].get("joins"), "fixpoints": d["stat"].get("fixpoints"), "memory_access_sites": d["stat"].get("obligations"), "name": j.get("name", j["driver"] + "/" + j["entry"]), "checks_only": sorted(m[2:] for m in d.get("cover", {}) if m[:2] == "C:"), "checks_reached": {m[2:]: n for m, n in d.get("cover", {}).items() if m[:2] in ("C:", "R:")}} for j, d in res["jobs"]],
                       "self_test": res["selftest"], "sources": [s.replace(REPO + "/", "") for s in res["srcs"]],
                       "other_alarms_not_of_this_property": len(res["ignored"])},
          "assumptions": P.ASSUMPTIONS + prop.get("assumptions", []), "wall_s": round(wall, 1), "violations": len(viol)}
    ev["coverage"].update(res.get("extra", {}))
    os.makedirs(HERE + "/evidence", exist_ok=True)
    with open(HERE + "/evidence/%s.json" % pid, "w") as f:
        json.dump(ev, f, indent=1)
    for a, k in res["known"]:
        print("KNOWN-FINDING: property=%s %s (%s:%d)" % (pid, k[4], a["file"], a["line"]))
    if viol:
        os.makedirs(HERE + "/build/replay", exist_ok=True)
        path = HERE + "/build/replay/%s.txt" % pid
        with open(path, "w") as f:
            for a, _ in viol:
                f.write("%s\n  where: %s:%d in %s\n  rule:  %s (driver %s)\n  path:  %s\n\n" % (a["msg"], a["file"], a["line"], a["func"], a["cat"], a.get("entry", ""), a["chain"]))
        for a, _ in viol[:8]:
            print("%s:%d: %s: [%s] %s\n    via %s" % (a["file"], a["line"], a["func"], a["cat"], a["msg"], a["chain"]))
        print("VIOLATION property=%s replay=%s" % (pid, path))
        sys.exit(1)
    if broken:
        for b in broken:
            print("ANALYSIS BROKEN: " + b)
        sys.exit(2)
    print("%s: held; %d obligations, %d functions, %d checks, %.1f s" % (pid, obl, nf, len(checks), wall))
    sys.exit(0)


if __name__ == "__main__":
    try:
        main()
    except Broken as e:
        print("ANALYSIS BROKEN: %s" % e)
        sys.exit(2)
