"""Rules over the program's IR and syntax trees; each returns what it examined and what it found."""
import ast, json, os, re, subprocess
import engine, pybind

ASSUMPTIONS = ["libc and system calls behave as modelled in drivers/models.c, drivers/sys_model.c and engine/builtins.cpp",
               "memory allocation succeeds", "numbers have the widths of x86-64"]


def facts(build):
    if not hasattr(build, "_facts"):
        p = subprocess.run([os.path.join(engine.VERIF, "build", "facts"), build.whole()], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
        if p.returncode:
            raise engine.Broken("facts: " + p.stderr[-300:])
        build._facts = json.loads(p.stdout)
        build._fn = {f["name"]: f for f in build._facts["functions"]}
    return build._facts


# ---------------------------------------------------------------- C12
SETUP = {"m38_http_serve", "m38_set_404_handler", "m38_set_404_cleanup"}   # called by the program's main thread, before requests
NONREENTRANT = set("""strtok localtime gmtime ctime asctime rand srand random srandom initstate setstate drand48 lrand48 mrand48 srand48
 setenv putenv unsetenv clearenv setlocale gethostbyname gethostbyaddr gethostbyname2 getservbyname getservbyport getprotobyname inet_ntoa ether_ntoa
 getpwnam getpwuid getgrnam getgrgid getspnam tmpnam mktemp ttyname getlogin crypt ecvt fcvt gcvt l64a ptsname hcreate hsearch hdestroy localeconv
 mblen mbtowc wctomb getopt getopt_long basename dirname chdir fchdir umask strsignal lgamma gammaf catgets dlerror nl_langinfo getdate encrypt setkey
 getutent getmntent ftw nftw readdir wordexp re_comp re_exec setlogmask tzset""".split())


def in_requests(build):
    """functions that run for requests: everything but what only the setup calls reach"""
    F = facts(build)["functions"]
    fn = build._fn
    roots = [f["name"] for f in F if f["root"] or (f["external"] and f["name"] not in SETUP)]
    seen = set()
    while roots:
        n = roots.pop()
        if n in seen or n not in fn:
            continue
        seen.add(n)
        roots += [c["to"] for c in fn[n]["calls"] if c["to"] != "pthread_create"]
    return seen


def shared_state(build):
    J = facts(build)
    fn = build._fn
    own = {g["name"]: g for g in J["globals"] if g["own"]}
    scope = in_requests(build)
    inst, bad = [], []
    acc = {}
    for n in sorted(scope):
        for a in fn[n]["accesses"]:
            if a["kind"] == "write":
                inst.append("%s (%s)" % (a["at"], n))
            for g in a.get("globals", ()):
                if g in own:
                    acc.setdefault(g, []).append((n, a))
    for g, l in sorted(acc.items()):
        writes = [(n, a) for n, a in l if a["kind"] == "write"]
        if not writes:
            continue
        if all(a["atomic"] for n, a in l):
            continue
        locks = None
        for n, a in l:
            h = set(a["held"])
            locks = h if locks is None else locks & h
        if locks:
            continue
        n, a = writes[0]
        bad.append(("%s: %s" % (n, g), "%s in %s writes %s (declared at %s), which every thread shares, without one lock that all accesses hold%s" %
                    (a["at"], n, g, own[g]["at"], " (it is thread-local: state kept between requests)" if own[g]["tls"] else "")))
    return {"rule": "no write reachable for a request may reach a variable of static storage (inclusion-based points-to) unless one lock is held at all of its accesses or all are atomic",
            "instances": inst, "findings": bad}


def reentrancy(build):
    facts(build)
    inst, bad = [], []
    for n in sorted(in_requests(build)):
        for c in build._fn[n]["calls"]:
            if c["to"] in build._fn:
                continue
            inst.append("%s %s" % (c["at"], c["to"]))
            if c["to"] in NONREENTRANT:
                bad.append(("%s: %s" % (n, c["to"]), "%s in %s calls %s, which keeps state that all threads share" % (c["at"], n, c["to"])))
    return {"rule": "no function reachable for a request calls a library function that keeps state of its own", "instances": inst, "findings": bad}


# ---------------------------------------------------------------- C20
FORMATS = {"printf": 0, "fprintf": 1, "sprintf": 1, "snprintf": 2, "dprintf": 1, "asprintf": 1, "vprintf": 0, "vfprintf": 1, "vsprintf": 1, "vsnprintf": 2,
           "vdprintf": 1, "vasprintf": 1, "syslog": 1, "vsyslog": 1, "err": 1, "errx": 1, "warn": 0, "warnx": 0, "__printf_chk": 1, "__fprintf_chk": 2, "__snprintf_chk": 4, "__sprintf_chk": 3}
SCANS = {"sscanf": 1, "fscanf": 1, "scanf": 0, "vsscanf": 1, "vfscanf": 1, "__isoc99_sscanf": 1, "__isoc99_fscanf": 1, "__isoc99_scanf": 0, "__isoc23_sscanf": 1, "__isoc23_fscanf": 1}
CONV = re.compile(r"%(?:%|([-+ #0']*)(\*|\d+)?(?:\.(\*|\d*))?(hh|h|ll|l|j|z|t|L|q)?(.))", re.S)


def conversions(fmt):
    """kinds of the arguments a printf text takes, or None if it is no valid text"""
    out, notes = [], []
    i = 0
    while i < len(fmt):
        if fmt[i] != "%":
            i += 1
            continue
        m = CONV.match(fmt, i)
        if not m:
            return None, ["a broken conversion"]
        i = m.end()
        if m.group(0) == "%%":
            continue
        fl, w, pr, ln, c = m.groups()
        if w == "*":
            out.append("i32")
        if pr == "*":
            out.append("i32")
        if c in "diouxXc":
            out.append("i64" if ln in ("l", "ll", "j", "z", "t", "q") and c != "c" else "i32")
        elif c in "fFeEgGaA":
            out.append("ldouble" if ln == "L" else "double")
        elif c in "sp":
            out.append("ptr")
            if c == "s" and pr is None:
                notes.append("unbounded")
        elif c == "n":
            out.append("ptr")
            notes.append("%n")
        else:
            return None, ["an unknown conversion %" + c]
    return out, notes


def scan_kinds(fmt):
    out, notes = [], []
    for m in re.finditer(r"%(?:%|(\*)?(\d+)?(hh|h|ll|l|j|z|t|L|m)?(\[\^?\]?[^\]]*\]|.))", fmt, re.S):
        if m.group(0) == "%%" or m.group(1):
            continue
        out.append("ptr")
        if m.group(4)[0] in "s[" and not m.group(2) and m.group(3) != "m":
            notes.append("unbounded")
    return out, notes


def formats(build):
    facts(build)
    fn = build._fn
    known = {k: (v, k.startswith("v")) for k, v in FORMATS.items()}
    known.update({k: (v, k.startswith("v")) for k, v in SCANS.items()})
    # a function that passes a parameter on as the text takes a text itself
    ch = True
    while ch:
        ch = False
        for f in fn.values():
            for c in f["calls"]:
                if c["to"] in known and f["name"] not in known:
                    t = c["texts"].get(str(known[c["to"]][0]))
                    if t and t["params"] and (f["variadic"] or len(c["types"]) > known[c["to"]][0] + 1 and known[c["to"]][1]):
                        known[f["name"]] = (t["params"][0], not f["variadic"])
                        ch = True
    inst, bad = [], []
    for f in sorted(fn.values(), key=lambda f: f["name"]):
        for c in f["calls"]:
            if c["to"] == "strftime":
                t = c["texts"].get("2")
                inst.append("%s strftime" % c["at"])
                if t is None or t["other"] or t["params"] or not t["is"]:
                    bad.append(("%s: strftime" % f["name"], "%s in %s: the text given to strftime is not a constant" % (c["at"], f["name"])))
                continue
            if c["to"] not in known:
                continue
            k, va = known[c["to"]]
            inst.append("%s %s" % (c["at"], c["to"]))
            key = "%s: %s" % (f["name"], c["to"])
            where = "%s in %s: " % (c["at"], f["name"])
            t = c["texts"].get(str(k))
            if t is None:
                bad.append((key, where + "no text is given to " + c["to"]))
                continue
            if t["other"] or (t["params"] and f["name"] not in known) or (not t["is"] and not t["params"]):
                bad.append((key, where + "the text given to %s is not a constant" % c["to"]))
                continue
            scan = c["to"] in SCANS
            have = c["types"][k + 1:]
            fits, wrong = 0, []
            for s in t["is"]:
                kinds, notes = scan_kinds(s) if scan else conversions(s)
                if kinds is None:
                    bad.append((key, where + "%s in %r" % (notes[0], s)))
                    continue
                if "%n" in notes:
                    bad.append((key, where + "the text %r writes through an argument" % s))
                if "unbounded" in notes and (scan or c["to"] in ("sprintf", "vsprintf")):
                    bad.append((key, where + "nothing bounds what %r writes" % s))
                if va:
                    continue
                if kinds == have:
                    fits += 1
                else:
                    m = min(len(kinds), len(have))
                    if kinds[:m] == have[:m] and len(t["is"]) > 1:
                        wrong.append((s, kinds))
                    else:
                        bad.append((key, where + "%r takes %s, but is given %s" % (s, ", ".join(kinds) or "nothing", ", ".join(have) or "nothing")))
            if wrong and not fits and not va:
                bad.append((key, where + "%r takes %s, but is given %s" % (wrong[0][0], ", ".join(wrong[0][1]), ", ".join(have))))
    return {"rule": "the text of every formatting call is one of a set of constants, found by following the value; conversions agree with the arguments in number, order and machine type; no %n, no unbounded target",
            "instances": inst, "findings": bad}


RULES = {"C12": [shared_state, reentrancy], "C19": [pybind.binding], "C20": [formats]}
