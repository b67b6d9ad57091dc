#!/usr/bin/env python3
"""Build the code under test from /repo's working tree together with one property's harness, explore, write evidence.

usage: check.py <property id> [--tier quick|thorough] [--replay FILE] [--keep] [--scenario S] [--list]
exit status: 0 the property held on everything explored; 1 with a VIOLATION line otherwise.
"""
import argparse, concurrent.futures, glob, json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, VERIF)
from props import PROPS  # noqa: E402

CXX = "g++"
BASE = ["-std=gnu++20", "-O1", "-g1", "-fno-pie", "-fno-omit-frame-pointer", "-U_FORTIFY_SOURCE", "-DNDEBUG", "-pthread",
        "-DLIBCOPP_FCONTEXT_USE_TSX=1", "-Wno-tsan", "-w"]


def configure(bdir):
    """libcopp_build_features.h from the project's own template, with the options of the reference build."""
    top = open(os.path.join(REPO, "CMakeLists.txt"), encoding="utf-8").read()
    m = re.search(r'VERSION "([0-9]+)\.([0-9]+)\.([0-9]+)"', top)
    major, minor, patch = m.groups()
    level = 1000 * int(major) + int(minor)
    v = {"LIBCOPP_VERSION_MAJOR": major, "LIBCOPP_VERSION_MINOR": minor, "LIBCOPP_VERSION_PATCH": patch,
         "LIBCOPP_VERSION": ".".join(m.groups()), "LIBCOPP_API_LEVEL": str(level), "LIBCOPP_ABI_TAG": "v%d" % level,
         "LIBCOPP_MACRO_SYS_POSIX": "1", "LIBCOPP_FCONTEXT_USE_TSX": "1", "LIBCOTASK_MACRO_ENABLED": "1",
         "LIBCOTASK_MACRO_AUTO_CLEANUP_MANAGER": "1", "THREAD_TLS_USE_PTHREAD": "1",
         "LIBCOPP_MACRO_ENABLE_STD_COROUTINE": "1", "LIBCOPP_MACRO_ENABLE_EXCEPTION": "1",
         "LIBCOPP_MACRO_ENABLE_STD_EXCEPTION_PTR": "1", "LIBCOPP_MACRO_ENABLE_RTTI": "1",
         "LIBCOPP_MACRO_ENABLE_STD_SPAN": "1"}
    if os.path.exists("/usr/include/valgrind/valgrind.h"):
        v["LIBCOPP_MACRO_USE_VALGRIND"] = "1"
    out = []
    src = os.path.join(REPO, "include/libcopp/utils/config/libcopp_build_features.h.in")
    for line in open(src, encoding="utf-8"):
        m = re.match(r"\s*#\s*cmakedefine01\s+(\w+)", line)
        if m:
            out.append("#define %s %s\n" % (m.group(1), "1" if v.get(m.group(1), "0") not in ("0", "") else "0"))
            continue
        m = re.match(r"\s*#\s*cmakedefine\s+(\w+)(.*)", line)
        if m:
            if v.get(m.group(1)):
                rest = re.sub(r"@(\w+)@", lambda k: v.get(k.group(1), ""), m.group(2))
                out.append("#define %s%s\n" % (m.group(1), rest))
            else:
                out.append("/* #undef %s */\n" % m.group(1))
            continue
        out.append(re.sub(r"@(\w+)@", lambda k: v.get(k.group(1), ""), line))
    d = os.path.join(bdir, "gen/libcopp/utils/config")
    os.makedirs(d)
    open(os.path.join(d, "libcopp_build_features.h"), "w").write("".join(out))


def run(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    if p.returncode:
        return "%s\n%s" % (" ".join(cmd), p.stdout[-6000:])
    return None


def build(bdir, harness, extra=()):
    configure(bdir)
    inc = ["-I", os.path.join(REPO, "include"), "-I", os.path.join(bdir, "gen"), "-I", os.path.join(VERIF, "rt")]
    tsan = ["-fsanitize=thread"]
    jobs = []
    objs = []

    def add(src, flags, name=None):
        o = os.path.join(bdir, (name or re.sub(r"[^A-Za-z0-9]", "_", os.path.relpath(src, "/"))) + ".o")
        objs.append(o)
        jobs.append([CXX] + BASE + flags + inc + ["-c", src, "-o", o])

    add(os.path.join(VERIF, "harness", harness), tsan + list(extra))
    add(os.path.join(VERIF, "rt/mc.cpp"), ["-O2", "-fno-exceptions"] if False else ["-O2"])
    srcs = []
    for sub in ("coroutine", "utils"):
        srcs += glob.glob(os.path.join(REPO, "src/libcopp", sub, "**/*.cpp"), recursive=True)
    srcs += glob.glob(os.path.join(REPO, "src/libcopp/stack/*.cpp"))
    for f in ("allocator/stack_allocator_memory", "allocator/stack_allocator_malloc", "allocator/stack_allocator_posix",
              "stack_traits/stack_traits_posix"):
        srcs.append(os.path.join(REPO, "src/libcopp/stack", f + ".cpp"))
    for s in sorted(set(srcs)):
        add(s, tsan + ["-DLIBCOPP_API_COPP_NATIVE=1"])
    for s in sorted(glob.glob(os.path.join(REPO, "src/libcotask/**/*.cpp"), recursive=True)):
        add(s, tsan + ["-DLIBCOPP_API_COTASK_NATIVE=1"])
    for f in ("jump", "make", "ontop"):
        s = os.path.join(REPO, "src/libcopp/fcontext/asm/%s_x86_64_sysv_elf_gas.S" % f)
        o = os.path.join(bdir, f + "_asm.o")
        objs.append(o)
        jobs.append([CXX, "-DLIBCOPP_FCONTEXT_USE_TSX=1", "-x", "assembler-with-cpp"] + inc + ["-c", s, "-o", o])
    with concurrent.futures.ThreadPoolExecutor(os.cpu_count() or 4) as ex:
        errs = [e for e in ex.map(run, jobs) if e]
    if errs:
        return None, errs[0]
    exe = os.path.join(bdir, "harness")
    e = run([CXX, "-no-pie", "-pthread", "-Wl,-z,now", "-Wl,--wrap=copp_jump_fcontext_v2", "-o", exe] + objs)
    return (None, e) if e else (exe, None)


def known_findings(prop):
    """[(key, description)] of the open findings of this property."""
    res = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p, encoding="utf-8"):
            m = re.match(r"open: property=(\S+) key=(\S+) (.*)", line.strip())
            if m and m.group(1) == prop:
                res.append((m.group(2), m.group(3)))
    return res


def symbolize(exe, text):
    pcs = re.findall(r"pc=0x([0-9a-f]+)", text)
    out = []
    for pc in dict.fromkeys(pcs):
        a = int(pc, 16) - 1
        p = subprocess.run(["addr2line", "-e", exe, "-f", "-C", "-i", "-p", "-s", hex(a)], stdout=subprocess.PIPE,
                           stderr=subprocess.DEVNULL, text=True)
        out.append("pc=0x%s is %s" % (pc, " <- ".join(x.strip() for x in p.stdout.strip().splitlines()[:4])))
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--keep", action="store_true")
    ap.add_argument("--scenario")
    ap.add_argument("--budget", type=float)
    ap.add_argument("--depth")
    ap.add_argument("--preempt")
    ap.add_argument("--no-known", action="store_true")
    a = ap.parse_args()
    prop = PROPS[a.prop]
    t0 = time.time()
    bdir = tempfile.mkdtemp(prefix="verif-%s-" % a.prop)
    try:
        return check(a, prop, bdir, t0)
    finally:
        if a.keep:
            print("kept", bdir)
        else:
            shutil.rmtree(bdir, ignore_errors=True)


def write_evidence(pid, ev):
    d = os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)


def check(a, prop, bdir, t0):
    pid = a.prop
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    workers = str(min(8, os.cpu_count() or 4))
    budget = a.budget or (prop.get("quick_budget", 240) if a.tier == "quick" else prop.get("thorough_budget", 780))
    known = [] if a.no_known else known_findings(pid)
    results = []
    viol = None
    for h in prop["harness"]:
        hd = os.path.join(bdir, h.replace(".cpp", ""))
        os.makedirs(hd)
        exe, err = build(hd, h, prop.get("flags", ()))
        if not exe:
            # Code that no longer compiles against its own documented interface cannot be judged as holding.
            print(err)
            rp = os.path.join(VERIF, "evidence", "%s.replay" % pid)
            os.makedirs(os.path.dirname(rp), exist_ok=True)
            open(rp, "w").write("harness %s does not build\n%s\n" % (h, err))
            print("VIOLATION property=%s replay=%s" % (pid, rp))
            return 1
        if a.replay:
            if not open(a.replay).read().startswith("harness %s\n" % h):
                continue
            return subprocess.call([exe, "--replay", a.replay])
        out = os.path.join(hd, "out.json")
        vp = os.path.join(hd, "viol.replay")
        cmd = [exe, "--out", out, "--violation", vp, "--workers", workers, "--tier", a.tier,
               "--budget", str(max(20.0, (budget - (time.time() - t0)) / (len(prop["harness"]) - len(results))))]
        if a.scenario:
            cmd += ["--scenario", a.scenario]
        if a.depth:
            cmd += ["--depth", a.depth]
        if a.preempt:
            cmd += ["--preempt", a.preempt]
        for k, _ in known:
            cmd += ["--known", k]
        rc = subprocess.call(cmd)
        if rc == 4 and a.scenario and len(prop["harness"]) > 1:
            continue  # it is in another harness
        try:
            r = json.load(open(out))
        except Exception as e:  # the explorer itself died
            print("explorer failure: rc=%s %s" % (rc, e))
            r = {"scenarios": [], "violation": True, "key": "explorer", "message": "explorer failed rc=%s" % rc, "known": {}}
            open(vp, "a").close()
        r["harness"] = h
        results.append(r)
        for k, desc in known:
            if r["known"].get(k, 0) > 0:
                print("KNOWN-FINDING: property=%s %s [%s, %d executions]" % (pid, desc, k, r["known"][k]))
        if r["violation"]:
            viol = (h, r, exe, vp)
            break
    scen = []
    for r in results:
        for s in r["scenarios"]:
            s["harness"] = r["harness"]
            scen.append(s)
    ex = sum(s["executions"] for s in scen)
    st = sum(s["states"] for s in scen)
    tr = sum(s["steps"] + s["sched_points"] for s in scen)
    ev = {
        "property": pid, "tier": a.tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": max(st, 1) if scen else 0, "transitions": tr, "traces_validated_against_impl": ex,
            "executions": ex, "exhaustive": bool(scen) and all(s["exhaustive"] for s in scen),
            "samples": ["%s: %s; depth %s, preemption bound %s, %d executions, %d distinct states, %d steps, %s" % (
                s["name"], s["what"], s["depth"], s["preemption_bound"], s["executions"], s["states"], s["steps"],
                "space exhausted" if s["exhaustive"] else "stopped by time budget") for s in scen] or ["none"],
            "scenarios": scen,
        },
        "assumptions": prop.get("assumptions", []) + [
            "sequentially consistent execution of atomics; weaker orders are judged by the happens-before race detector",
            "x86_64, g++, options of the reference build; one operating-system thread hosts all virtual threads"],
        "wall_s": round(time.time() - t0, 2), "violations": 1 if viol else 0,
    }
    write_evidence(pid, ev)
    if viol:
        h, r, exe, vp = viol
        rp = os.path.join(VERIF, "evidence", "%s.replay" % pid)
        text = open(vp).read() if os.path.exists(vp) else ""
        open(rp, "w").write("harness %s\n%s" % (h, text))
        if text:
            try:
                p = subprocess.run([exe, "--replay", vp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                                   timeout=60, errors="replace")
                lines = p.stdout.splitlines()
                print("\n".join(lines[-80:]))
                tl = ["# " + x for x in lines[-400:]] + ["# " + x for x in symbolize(exe, r.get("message", "") + p.stdout[-3000:])]
                open(rp, "a").write("\n".join(tl) + "\n")
                for x in symbolize(exe, r.get("message", "") + p.stdout[-3000:]):
                    print("  " + x)
            except subprocess.TimeoutExpired:
                print("replay timed out")
        print("violated: %s: %s" % (r.get("key"), r.get("message")))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    print("%s %s: held on %d executions, %d states, %d transitions, %.1fs" % (pid, a.tier, ex, st, tr, time.time() - t0))
    return 0


if __name__ == "__main__":
    sys.exit(main())
