"""Compiles /repo's current sources to LLVM IR, links them with the analysis drivers and runs the abstract interpreter."""
import json, os, re, subprocess, sys, shutil, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("M38_REPO", "/repo")
ABSINT = os.path.join(VERIF, "build", "absint")
TEST_MAINS = {"utests.c", "greshunkel_test.c"}
DRIVERS = os.path.join(VERIF, "drivers")


class Broken(Exception):
    """the analysis cannot answer (not a verdict)"""


def sources():
    d = os.path.join(REPO, "src")
    s = sorted(f for f in os.listdir(d) if f.endswith(".c") and f not in TEST_MAINS)
    if not s:
        raise Broken("no sources in " + d)
    return [os.path.join(d, f) for f in s]


def sh(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)
    return p


CFLAGS = ["-O1", "-Xclang", "-disable-llvm-passes", "-g", "-fno-builtin", "-w", "-std=gnu11", "-I" + REPO + "/include", "-I" + DRIVERS, "-S", "-emit-llvm"]


class Build:
    """one scratch directory with the IR of the repository and of the drivers"""

    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix="m38-")
        self.cache = {}
        self.ll = {}
        if not os.path.exists(ABSINT):
            raise Broken("the analyser is not built (setup_cmd)")
        with ThreadPoolExecutor(8) as ex:
            for s, r in zip(sources(), ex.map(self.compile, sources())):
                self.ll[os.path.basename(s)[:-2]] = r

    def compile(self, src, opts=()):
        out = os.path.join(self.dir, os.path.basename(os.path.dirname(src)) + "_" + os.path.basename(src)[:-2] + ".ll")
        p = sh(["clang-18"] + CFLAGS + list(opts) + [src, "-o", out])
        if p.returncode != 0:
            raise Broken("cannot compile %s: %s" % (src, p.stderr[-400:]))
        return out

    def link(self, drivers, parts=None):
        key = (tuple(drivers), tuple(parts or ()))
        if key in self.cache:
            return self.cache[key]
        n = len(self.cache)
        self.cache[key] = None
        obj = []
        for d in drivers:
            k = ("d", d)
            if k not in self.cache:
                opts = []
                if d == "d_parts.c":  # works on functions that only their own file knows
                    for old, new in internals(self).items():
                        if new is not None:
                            opts += ["-DHAS_" + old] + (["-D%s=%s" % (old, new)] if new != old else [])
                self.cache[k] = self.compile(os.path.join(DRIVERS, d), opts)
            obj.append(self.cache[k])
        out = os.path.join(self.dir, "link%d.ll" % n)
        p = sh(["llvm-link-18", "-S", "-o", out] + obj + [self.ll[x] for x in sorted(self.ll) if parts is None or x in parts])
        if p.returncode != 0:
            raise Broken("cannot link: " + p.stderr[-400:])
        opt = out[:-3] + ".opt.ll"
        p = sh(["opt-18", "-S", "-passes=sroa,loop-simplify", out, "-o", opt])
        if p.returncode != 0:
            raise Broken("opt: " + p.stderr[-400:])
        self.cache[key] = opt
        return opt

    def whole(self):
        """the repository alone, with memory promoted to registers"""
        return self.link([])

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)


# internal functions a driver or a contract stands for, by what they take and give, should they be called something else
LINE = "{ i64, ptr }"
INTERNAL = {"simple_sparsehash": {"hash_fnv1a": ("i64", "ptr", "i64")},
            "greshunkel": {"read_line": (LINE, "ptr"), "vishnu": ("i64", "ptr", "ptr", "ptr", "ptr"), "find_needle": ("ptr", "ptr", "ptr", "i64", "i32"),
                           "_compile_regex": ("void", "ptr"), "_destroy_regex": ("void", "ptr"), "_gshkl_free_arr": ("void", "ptr"),
                           "_filter_line": (LINE, "ptr", "ptr", "ptr"), "_include_line": (LINE, "ptr", "ptr", "ptr"),
                           "_interpolate_line": (LINE, "ptr", "i64", "ptr", "ptr"), "_interpolate_line_subcontext": (LINE, "ptr", "i64", "ptr", "ptr"),
                           "_interpolate_loop": (LINE, "ptr", "ptr", "ptr", "ptr"), "_interpolate_conditionals": (LINE, "ptr", "ptr", "ptr", "ptr")}}


def internals(build):
    """{name: what it is called in the current sources, or None when there is no such function (its work is then part of its callers)}"""
    if getattr(build, "names", None) is not None:
        return build.names
    build.names = {}
    for part, known in INTERNAL.items():
        have = {}
        for m in re.finditer(r"^define (internal )?([^@\n]*)@([\w.$]+)\((.*?)\) #", open(build.ll[part]).read() if part in build.ll else "", re.M):
            ret = LINE if m.group(2).strip().endswith(LINE) else m.group(2).split()[-1]
            have[m.group(3)] = (ret,) + tuple(x.split()[0] for x in m.group(4).split(",") if x.strip()), m.group(1)
        for name, sig in known.items():
            new = [h for h, (s, internal) in have.items() if s == sig and h not in known and internal]
            gone = [k for k, s in known.items() if s == sig and k not in have]
            build.names[name] = name if name in have else new[0] if len(new) == len(gone) == 1 else None
    return build.names


def named(build, name):
    return internals(build).get(name, name)


def analyse(build, opt, run, timeout):
    cmd = [ABSINT, opt, "--entry", run["entry"], "--time", str(timeout)]
    for k, v in run.get("contracts", {}).items():
        k = named(build, k)
        if k is None:
            continue
        cmd += ["--contract", "%s=%s" % (k, v)]
    for k, v in run.get("cats", {}).items():
        cmd += ["--cat", "%s=%s" % (k, v)]
    for k, v in run.get("sets", {}).items():
        cmd += ["--set", "%s=%d" % (k, v)]
    for k in run.get("real", ()):
        cmd += ["--real", k]
    if run.get("alloc"):
        cmd += ["--alloc-limit", str(run["alloc"])]
    cmd += run.get("opts", [])
    if run.get("cap"):
        cmd += ["--cap", str(run["cap"])]
    t = time.time()
    try:
        p = sh(cmd + ["-v"], timeout=timeout + 30)
    except subprocess.TimeoutExpired:
        return {"name": run["name"], "error": "time limit of %d s" % timeout, "seconds": time.time() - t}
    try:
        j = json.loads(p.stdout)
    except ValueError:
        return {"name": run["name"], "error": "analyser ended with %d: %s" % (p.returncode, p.stderr[-300:]), "seconds": time.time() - t}
    j["name"] = run["name"]
    j["seconds"] = round(time.time() - t, 2)
    return j


def run_all(build, runs, timeout, workers=8):
    runs = [r for r in runs if r.get("target") is None or named(build, r["target"]) is not None]
    for r in runs:  # link serially, analyse in parallel
        r["_opt"] = build.link(r["drivers"], r.get("parts"))
    with ThreadPoolExecutor(workers) as ex:
        return list(ex.map(lambda r: analyse(build, r["_opt"], r, timeout), sorted(runs, key=lambda r: -r.get("cost", 1))))
