"""C19: the Python binding, evaluated symbolically over its syntax tree, against the C types recorded in the program's debug information."""
import ast, os, re
import engine

# ---------------------------------------------------------------- C side
SKIP = {"DW_TAG_typedef", "DW_TAG_const_type", "DW_TAG_volatile_type", "DW_TAG_restrict_type"}


class Debug:
    """functions and types of a linked module, from its debug information"""

    def __init__(self, path):
        self.md, self.fn = {}, {}
        for l in open(path):
            if l.startswith("!"):
                m = re.match(r"!(\d+) = (?:distinct )?(!\w*)?(.*)", l)
                if m:
                    self.md[m.group(1)] = (m.group(2) or "").lstrip("!") + m.group(3)
            elif l.startswith("define "):
                m = re.search(r"@([\w.$]+)\(", l)
                d = re.search(r"!dbg !(\d+)", l)
                vis = "internal" if re.match(r"define (internal|private)\b", l) else "hidden" if re.match(r"define [^@]*\bhidden\b", l) else "public"
                self.fn[m.group(1)] = (vis, d and d.group(1))

    def field(self, n, k, default=None):
        m = re.search(r"\b%s: (\"[^\"]*\"|[^,)]*)" % k, self.md.get(n, ""))
        return m.group(1).strip('"') if m else default

    def ref(self, n, k):
        v = self.field(n, k)
        return v[1:] if v and v.startswith("!") else None

    def list(self, n):
        return [x if x is None else x for x in [None if y == "null" else y.lstrip("!") for y in re.findall(r"null|!\d+", self.md.get(n, ""))]]

    def strip(self, n):
        while n is not None and self.field(n, "tag") in SKIP:
            n = self.ref(n, "baseType")
        return n

    def type(self, n, depth=0):
        """('void') ('int', bytes, what) ('float', bytes) ('ptr', type) ('fn', ret, params) ('rec', name, size, fields) ('arr', type, size)"""
        n = self.strip(n)
        if n is None:
            return ("void",)
        t, s = self.field(n, "tag"), int(self.field(n, "size", "0") or 0) // 8
        if self.md[n].startswith("DIBasicType"):
            e = self.field(n, "encoding")
            return ("float", s) if e == "DW_ATE_float" else ("int", s, "char" if "char" in e else "bool" if "bool" in e else "int")
        if t == "DW_TAG_enumeration_type":
            return ("int", s, "int")
        if t == "DW_TAG_pointer_type":
            return ("ptr", self.type(self.ref(n, "baseType"), depth + 1) if depth < 4 else ("void",))
        if self.md[n].startswith("DISubroutineType"):
            l = self.list(self.ref(n, "types"))
            l = [None] if not l else l
            return ("fn", self.type(l[0], depth + 1), tuple(self.type(x, depth + 1) for x in l[1:]))
        if t in ("DW_TAG_structure_type", "DW_TAG_union_type"):
            f = []
            if depth < 4:
                for e in self.list(self.ref(n, "elements") or "") if self.ref(n, "elements") else []:
                    f.append((self.field(e, "name"), int(self.field(e, "offset", "0") or 0) // 8, self.type(self.ref(e, "baseType"), depth + 1)))
            return ("rec", self.field(n, "name", "?"), s, tuple(f))
        if t == "DW_TAG_array_type":
            return ("arr", self.type(self.ref(n, "baseType"), depth + 1), s)
        return ("void",)

    def signature(self, name):
        d = self.fn[name][1]
        if d is None:
            return None
        l = self.list(self.ref(self.ref(d, "type"), "types"))
        l = l or [None]
        return self.type(l[0]), [self.type(x) for x in l[1:]]


def size_of(c):
    return {"int": lambda: c[1], "float": lambda: c[1], "ptr": lambda: 8, "rec": lambda: c[2], "arr": lambda: c[2]}.get(c[0], lambda: 0)()


def show_c(c):
    if c[0] == "int":
        return "%s of %d bytes" % ("a truth value" if c[2] == "bool" else "a character" if c[2] == "char" else "an integer", c[1])
    if c[0] == "ptr":
        return "a pointer to " + ("a function" if c[1][0] == "fn" else show_c(c[1]) if c[1][0] != "ptr" else "a pointer")
    return {"void": "nothing", "float": "a floating number", "rec": "%s of %d bytes" % (c[1] if c[0] == "rec" else "", c[2] if c[0] == "rec" else 0),
            "fn": "a function", "arr": "an array"}[c[0]]


# ---------------------------------------------------------------- ctypes types: ('c', name) ('P', T) ('F', res, args) ('A', T, n) ('R', class name, union?, fields, pack)
INT = {"c_int": 4, "c_uint": 4, "c_int32": 4, "c_uint32": 4, "c_long": 8, "c_ulong": 8, "c_size_t": 8, "c_ssize_t": 8, "c_longlong": 8, "c_ulonglong": 8, "c_int64": 8,
       "c_uint64": 8, "c_short": 2, "c_ushort": 2, "c_int16": 2, "c_uint16": 2, "c_byte": 1, "c_ubyte": 1, "c_int8": 1, "c_uint8": 1, "c_char": 1, "c_bool": 1, "c_time_t": 8}
FLOAT = {"c_float": 4, "c_double": 8, "c_longdouble": 16}
PTR = {"c_void_p", "c_char_p", "c_wchar_p", "py_object"}


def py_layout(t):
    """(size, alignment) of a ctypes type"""
    if t[0] == "c":
        s = INT.get(t[1]) or FLOAT.get(t[1]) or (8 if t[1] in PTR else 4 if t[1] == "c_wchar" else 0)
        return s, max(s, 1)
    if t[0] in "PF":
        return 8, 8
    if t[0] == "A":
        s, a = py_layout(t[1])
        return s * t[2], a
    if t[0] == "R":
        off, al = 0, 1
        for _, ft in t[3]:
            s, a = py_layout(ft)
            a = min(a, t[4]) if t[4] else a
            al = max(al, a)
            off = max(off, s) if t[2] else (off + a - 1) // a * a + s
        return (off + al - 1) // al * al, al
    return 0, 1


def agree(t, c, result=False):
    """why the ctypes type t cannot stand for the C type c, or None"""
    if t[0] == "c" and t[1] in INT:
        if c[0] == "int" and c[1] == INT[t[1]] and (c[2] == "bool") == (t[1] == "c_bool"):
            return None if t[1] != "c_char" or c[2] == "char" else "a character"
    elif t[0] == "c" and t[1] in FLOAT:
        if c[0] == "float" and c[1] == FLOAT[t[1]]:
            return None
    elif t[0] == "c" and t[1] == "c_void_p":
        if c[0] == "ptr":
            return None
    elif t[0] == "c" and t[1] == "c_char_p":
        if c[0] == "ptr" and (c[1][:1] == ("int",) and c[1][1] == 1):
            return None
    elif t[0] == "P":
        if c[0] == "ptr":
            return None if c[1][0] == "void" or agree(t[1], c[1]) is None else "what it points to differs"
    elif t[0] == "A":
        if c[0] == "ptr" and not result:
            return None if c[1][0] == "void" or agree(t[1], c[1]) is None else "the elements differ"
        if c[0] == "arr":
            return None if t[2] * py_layout(t[1])[0] == c[2] and agree(t[1], c[1]) is None else "the arrays differ"
    elif t[0] == "F":
        if c[0] == "ptr" and c[1][0] == "fn":
            f = c[1]
            if len(f[2]) != len(t[2]) or any(agree(x, y) for x, y in zip(t[2], f[2])):
                return "the parameters of the function differ"
            if t[1] is None:
                return None if f[1][0] == "void" else "the result of the function differs"
            return None if agree(t[1], f[1], True) is None else "the result of the function differs"
    elif t[0] == "R":
        if c[0] == "rec":
            if py_layout(t)[0] != c[2]:
                return "%s has %d bytes, %s has %d" % (t[1], py_layout(t)[0], c[1], c[2])
            off = 0
            byname = {n: (o, ct) for n, o, ct in c[3]}
            for n, ft in t[3]:
                s, a = py_layout(ft)
                a = min(a, t[4]) if t[4] else a
                o = 0 if t[2] else (off + a - 1) // a * a
                off = o + s
                # fields are matched by place: names are the binding's own
                there = [ct for (_, co, ct) in c[3] if co == o and size_of(ct) == s]
                if c[3] and not (agree(ft, byname[n][1]) is None and byname[n][0] == o if n in byname else any(agree(ft, ct) is None for ct in there)):
                    return "the field %s of %s lies or reads differently in %s" % (n, t[1], c[1])
            return None
    return "the kinds differ"


def show_t(t):
    return t[1] if t[0] == "c" else {"P": "POINTER(%s)", "F": "a function type%.0s", "A": "an array of %s", "R": "%.0s" + str(t[1])}[t[0]] % (show_t(t[1]) if t[0] in "PA" else "")


# ---------------------------------------------------------------- Python side
class Val(tuple):
    pass


UNK = ("unknown",)
_n = [0]


def fresh(kind="sym"):
    _n[0] += 1
    return (kind, _n[0])


class State:
    def __init__(self, env, decl, attrs):
        self.env, self.decl, self.attrs = env, decl, attrs

    def copy(self):
        return State([dict(e) for e in self.env], {k: dict(v) for k, v in self.decl.items()}, dict(self.attrs))


class Binding:
    LIMIT = 256

    def __init__(self, path):
        self.path = path
        self.tree = ast.parse(open(path).read(), path)
        self.calls = {}     # (line, col, function) -> list of (args, kwargs, used, decl)
        self.uses = {}      # function -> line of a use
        self.lost = []
        self.bad = []
        self.funcs = {n.name: n for n in self.tree.body if isinstance(n, (ast.FunctionDef,))}
        self.called = set()
        self.depth = 0
        self.stack = []
        sts = self.block(self.tree.body, [State([{}], {}, {})])
        self.final = sts
        for c in self.tree.body:
            if isinstance(c, ast.FunctionDef):
                self.root(c, None)
            if isinstance(c, ast.ClassDef):
                for m in c.body:
                    if isinstance(m, ast.FunctionDef):
                        self.root(m, c)

    def root(self, f, cls):
        private = f.name.startswith("_") and not f.name.startswith("__")
        names = {n.func.id if isinstance(n.func, ast.Name) else n.func.attr for n in ast.walk(self.tree) if isinstance(n, ast.Call) and isinstance(n.func, (ast.Name, ast.Attribute))}
        if private and f.name in names:
            return  # evaluated where it is called
        for st in self.final[:8]:
            s = State(st.env, st.decl, st.attrs)
            self.apply(("def", f, None), [("self", cls.name) if cls and k == 0 else fresh() for k in range(len(f.args.args))], {}, s)

    # -- calls of the module's own functions
    def apply(self, fv, args, kw, st):
        f = fv[1]
        key = (f.name, tuple(map(repr, args)), tuple(sorted((k, repr(v)) for k, v in kw.items())))
        if self.depth > 12 or key in self.stack or sum(1 for k in self.stack if k[0] == f.name) > 2:
            return [(fresh(), st)]
        self.called.add(f.name)
        loc = {}
        a = list(args)
        for i, p in enumerate(f.args.posonlyargs + f.args.args):
            if a:
                loc[p.arg] = a.pop(0)
            elif p.arg in kw:
                loc[p.arg] = kw[p.arg]
            else:
                d = f.args.defaults
                j = i - (len(f.args.posonlyargs + f.args.args) - len(d))
                loc[p.arg] = self.expr1(d[j], st) if j >= 0 else fresh()
        if f.args.vararg:
            loc[f.args.vararg.arg] = ("list", tuple(a))
        for p, d in zip(f.args.kwonlyargs, f.args.kw_defaults):
            loc[p.arg] = kw[p.arg] if p.arg in kw else self.expr1(d, st) if d else fresh()
        if f.args.kwarg:
            loc[f.args.kwarg.arg] = UNK
        s = State(st.env[:1] + [loc], st.decl, st.attrs)
        self.depth += 1
        self.stack.append(key)
        out = []
        for r in self.block(f.body, [s]):
            v = r.env[-1].pop("return", ("none",)) if len(r.env) > 1 else ("none",)
            out.append((v, State(r.env[:1] + st.env[1:], r.decl, r.attrs)))
        self.depth -= 1
        self.stack.pop()
        return out or [(("none",), st)]

    # -- statements
    def block(self, body, sts):
        for s in body:
            nxt = []
            for st in sts:
                if "return" in st.env[-1] or "raised" in st.env[-1]:
                    nxt.append(st)
                else:
                    nxt += self.stmt(s, st)
            sts = self.unique(nxt)
        return [s for s in sts if "raised" not in s.env[-1]] if False else sts

    def unique(self, sts):
        seen, out = set(), []
        for s in sts:
            k = repr((s.env, sorted(s.decl.items()), sorted(s.attrs.items(), key=repr)))
            if k not in seen:
                seen.add(k)
                out.append(s)
        if len(out) > self.LIMIT:
            self.lost.append("too many paths")
            out = out[:self.LIMIT]
        return out

    def stmt(self, s, st):
        if isinstance(s, (ast.Import, ast.ImportFrom)):
            for a in s.names:
                if isinstance(s, ast.Import):
                    st.env[-1][a.asname or a.name.split(".")[0]] = ("module", a.name)
                elif s.module == "ctypes" and a.name == "*":
                    for n in list(INT) + list(FLOAT) + list(PTR) + "cdll CDLL PyDLL POINTER byref pointer CFUNCTYPE Union Structure LittleEndianStructure cast string_at sizeof create_string_buffer addressof".split():
                        st.env[-1][n] = self.ctypes(n)
                else:
                    st.env[-1][a.asname or a.name] = self.ctypes(a.name) if s.module == "ctypes" else ("ext", a.name)
            return [st]
        if isinstance(s, ast.FunctionDef):
            st.env[-1][s.name] = ("def", s, None)
            return [st]
        if isinstance(s, ast.ClassDef):
            return [self.klass(s, st)]
        if isinstance(s, ast.Assign):
            out = []
            for v, t in self.expr(s.value, st):
                for tgt in s.targets:
                    self.assign(tgt, v, t)
                out.append(t)
            return out
        if isinstance(s, (ast.AnnAssign, ast.AugAssign)):
            if s.value is None:
                return [st]
            out = []
            for v, t in self.expr(s.value, st):
                if isinstance(s, ast.AugAssign):
                    old = self.expr1(s.target, t) if isinstance(s.target, (ast.Name, ast.Attribute)) else UNK
                    v = ("list", old[1] + v[1]) if old[0] == v[0] == "list" and isinstance(s.op, ast.Add) else fresh()
                self.assign(s.target, v, t)
                out.append(t)
            return out
        if isinstance(s, ast.Expr):
            return [t for _, t in self.expr(s.value, st, used=False)]
        if isinstance(s, ast.Return):
            out = []
            for v, t in self.expr(s.value, st) if s.value else [(("none",), st)]:
                t.env[-1]["return"] = v
                out.append(t)
            return out
        if isinstance(s, ast.If):
            out = []
            for v, t in self.expr(s.test, st):
                k = self.truth(s.test, v, t)
                if k is not False:
                    a = t.copy()
                    self.refine(s.test, a)
                    out += self.block(s.body, [a])
                if k is not True:
                    out += self.block(s.orelse, [t.copy()])
            return out
        if isinstance(s, (ast.For, ast.While)):
            if isinstance(s, ast.For):
                out = []
                for v, t in self.expr(s.iter, st):
                    if v[0] == "list":
                        cur = [t]
                        for x in v[1]:
                            nxt = []
                            for c in cur:
                                if "return" not in c.env[-1]:
                                    self.assign(s.target, x, c)
                                nxt.append(c)
                            cur = self.block(s.body, nxt)
                        out += cur
                    else:
                        a = t.copy()
                        self.assign(s.target, fresh(), a)
                        b = self.block(s.body, [a])
                        c = []
                        for x in b:
                            y = x.copy()
                            self.assign(s.target, fresh(), y)
                            c += self.block(s.body, [y])
                        out += [t] + b + c
                return self.block(s.orelse, out) if s.orelse else out
            once = self.block(s.body, [t for _, t in self.expr(s.test, st.copy())])
            twice = self.block(s.body, [x.copy() for x in once])
            return [st] + once + twice
        if isinstance(s, ast.With):
            cur = [st]
            for it in s.items:
                nxt = []
                for c in cur:
                    for v, t in self.expr(it.context_expr, c):
                        if it.optional_vars is not None:
                            self.assign(it.optional_vars, fresh(), t)
                        nxt.append(t)
                cur = nxt
            return self.block(s.body, cur)
        if isinstance(s, ast.Try):
            a = self.block(s.body, [st.copy()])
            b = []
            for h in s.handlers:
                t = st.copy()
                if h.name:
                    t.env[-1][h.name] = UNK
                b += self.block(h.body, [t])
            out = self.block(s.orelse, a) + b
            return self.block(s.finalbody, out)
        if isinstance(s, ast.Raise):
            st.env[-1]["return"] = ("none",)
            return [st]
        if isinstance(s, (ast.Delete, ast.Assert)):
            return [st]
        if isinstance(s, ast.Global):
            return [st]
        return [st]

    def truth(self, e, v, st):
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            k = self.truth(e.operand, self.expr1(e.operand, st.copy()), st)
            return None if k is None else not k
        if isinstance(e, ast.Compare) and len(e.ops) == 1 and isinstance(e.ops[0], (ast.Is, ast.IsNot, ast.Eq, ast.NotEq)):
            a, b = (self.expr1(x, st.copy()) for x in (e.left, e.comparators[0]))
            sure = ("none", "type", "num", "str", "list", "dict", "cfn", "lib", "def", "class", "inst", "bytes")
            pos = isinstance(e.ops[0], (ast.Is, ast.Eq))
            if a == b and a[0] in ("none", "type", "num", "str"):
                return pos
            if a[0] in sure and b[0] in sure and ("none" in (a[0], b[0]) or a[0] == b[0] in ("num", "str", "type")) and a != b:
                return not pos
            return None
        return {"none": False, "type": True, "cfn": True, "lib": True, "def": True, "class": True, "inst": True, "text": None}.get(v[0], bool(v[1]) if v[0] in ("num", "str", "list", "dict") else None)

    def refine(self, e, st):
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == "isinstance" and len(e.args) == 2 and isinstance(e.args[0], ast.Name):
            v, c = self.expr1(e.args[0], st), self.expr1(e.args[1], st)
            if v[0] in ("sym", "item", "attr") and c == ("builtin", "str"):
                self.assign(e.args[0], ("text", v), st)

    def klass(self, s, st):
        bases = [self.expr1(b, st) for b in s.bases]
        kind = next((b[1] for b in bases if b[0] == "base"), None)
        inh = next((b for b in bases if b[0] == "type" and b[1][0] == "R"), None)
        body = State(st.env[:1] + [{}], st.decl, st.attrs)
        for x in s.body:
            if isinstance(x, ast.FunctionDef):
                body.env[-1][x.name] = ("def", x, None)
            else:
                body = self.stmt(x, body)[0]
        scope = body.env[-1]
        if kind:
            f = scope.get("_fields_")
            st.env[-1][s.name] = self.record(s.name, kind == "Union", f, scope.get("_pack_"))
        elif inh:
            st.env[-1][s.name] = inh
        else:
            st.env[-1][s.name] = ("class", s.name, tuple((k, v) for k, v in scope.items() if v[0] == "def"))
            for k, v in scope.items():
                st.attrs[(s.name, k)] = v
        return st

    def record(self, name, union, f, pack):
        fields = []
        if f is None or f[0] != "list":
            return ("type", ("R", name, union, (), 0), "open")
        for x in f[1]:
            if x[0] != "list" or len(x[1]) < 2 or x[1][0][0] != "str" or x[1][1][0] != "type":
                self.lost.append("the fields of %s cannot be read" % name)
                return ("unknown",)
            fields.append((x[1][0][1], x[1][1][1]))
        p = pack[1] if pack and pack[0] == "num" else 0
        return ("type", ("R", name, union, tuple(fields), p))

    def assign(self, t, v, st):
        if isinstance(t, ast.Name):
            glob = len(st.env) > 1 and t.id in st.env[0] and t.id not in st.env[-1] and False
            st.env[0 if glob else -1][t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            vs = v[1] if v[0] == "list" and len(v[1]) == len(t.elts) else [fresh() for _ in t.elts]
            for x, y in zip(t.elts, vs):
                self.assign(x, y, st)
        elif isinstance(t, ast.Attribute):
            o = self.expr1(t.value, st)
            self.setattr(o, t.attr, v, st, t)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, fresh(), st)

    def setattr(self, o, attr, v, st, at):
        if o[0] == "cfn" and attr in ("argtypes", "restype"):
            self.uses.setdefault(o[1], getattr(at, "lineno", 0))
            st.decl.setdefault(o[1], {})[attr] = v
        elif o[0] == "type" and attr == "_fields_":
            r = self.record(o[1][1], o[1][2], v, None)
            for e in st.env:
                for k, x in list(e.items()):
                    if x[0] == "type" and x[1] == o[1]:
                        e[k] = r
        else:
            st.attrs[(o, attr)] = v

    # -- expressions
    def expr1(self, e, st):
        return self.expr(e, st)[0][0]

    def args(self, es, st):
        out = [([], st)]
        for e in es:
            nxt = []
            for vs, t in out:
                star = isinstance(e, ast.Starred)
                for v, u in self.expr(e.value if star else e, t):
                    nxt.append((vs + (list(v[1]) if star and v[0] == "list" else [("star",)] if star else [v]), u))
            out = nxt
        return out

    def ctypes(self, n):
        if n in INT or n in FLOAT or n in PTR:
            return ("type", ("c", n))
        if n in ("Union", "LittleEndianUnion", "BigEndianUnion"):
            return ("base", "Union")
        if n in ("Structure", "LittleEndianStructure", "BigEndianStructure"):
            return ("base", "Structure")
        if n in ("CDLL", "PyDLL"):
            return ("loader",)
        if n in ("cdll", "pydll"):
            return ("loaders",)
        return ("ct", n)

    def expr(self, e, st, used=True):
        if isinstance(e, ast.Constant):
            v = e.value
            if v is None:
                return [(("none",), st)]
            if isinstance(v, str):
                return [(("str", v), st)]
            if isinstance(v, bytes):
                return [(("bytes", ("const", v)), st)]
            if isinstance(v, (int, bool)):
                return [(("num", int(v)), st)]
            return [(UNK, st)]
        if isinstance(e, ast.Name):
            for k in (-1, 0):
                if e.id in st.env[k]:
                    return [(st.env[k][e.id], st)]
            if e.id in self.funcs:
                return [(("def", self.funcs[e.id], None), st)]
            if e.id in ("len", "getattr", "setattr", "hasattr", "isinstance", "bytes", "str", "int", "list", "tuple", "dict", "zip", "type", "super", "bool", "callable", "enumerate", "map"):
                return [(("builtin", e.id), st)]
            if e.id in ("True", "False"):
                return [(("num", int(e.id == "True")), st)]
            return [(("ext", e.id), st)]
        if isinstance(e, (ast.List, ast.Tuple, ast.Set)):
            return [(("list", tuple(v)), t) for v, t in self.args(e.elts, st)]
        if isinstance(e, ast.Dict):
            if any(k is None for k in e.keys):
                return [(fresh(), st)]
            out = []
            for ks, t in self.args(e.keys, st):
                for vs, u in self.args(e.values, t):
                    out.append((("dict", tuple(zip(ks, vs))), u))
            return out
        if isinstance(e, ast.Attribute):
            return [self.attr(v, e.attr, t, e) for v, t in self.expr(e.value, st)]
        if isinstance(e, ast.Call):
            return self.call(e, st, used)
        if isinstance(e, ast.IfExp):
            out = []
            for _, t in self.expr(e.test, st):
                out += self.expr(e.body, t.copy()) + self.expr(e.orelse, t.copy())
            return out
        if isinstance(e, ast.BinOp):
            out = []
            for a, t in self.expr(e.left, st):
                for b, u in self.expr(e.right, t):
                    out.append((self.binop(e.op, a, b), u))
            return out
        if isinstance(e, ast.NamedExpr):
            out = []
            for v, t in self.expr(e.value, st):
                self.assign(e.target, v, t)
                out.append((v, t))
            return out
        if isinstance(e, ast.Subscript):
            out = []
            for a, t in self.expr(e.value, st):
                for b, u in self.expr(e.slice, t) if not isinstance(e.slice, ast.Slice) else [(UNK, t)]:
                    v = fresh()
                    if a[0] == "loaders":
                        v = ("lib", "")
                    elif a[0] == "lib" and b[0] == "str":
                        v = self.attr(a, b[1], u, e)[0]
                    elif a[0] == "list" and b[0] == "num" and -len(a[1]) <= b[1] < len(a[1]):
                        v = a[1][b[1]]
                    elif a[0] == "dict":
                        v = next((y for x, y in a[1] if x == b), v)
                    elif a[0] in ("sym", "self", "str"):
                        v = ("item", a, b) if b != UNK else fresh()
                    out.append((v, u))
            return out
        if isinstance(e, (ast.BoolOp, ast.Compare)):
            out = [st]
            for x in (e.values if isinstance(e, ast.BoolOp) else [e.left] + e.comparators):
                out = [t for s in out for _, t in self.expr(x, s)]
            return [(fresh(), t) for t in out]
        if isinstance(e, ast.UnaryOp):
            return [((("num", -v[1]) if isinstance(e.op, ast.USub) and v[0] == "num" else fresh()), t) for v, t in self.expr(e.operand, st)]
        if isinstance(e, (ast.ListComp, ast.GeneratorExp, ast.SetComp, ast.DictComp)):
            t = State(st.env[:-1] + [dict(st.env[-1])], st.decl, st.attrs)
            if len(st.env) == 1:
                t = State([st.env[0], {}], st.decl, st.attrs)
            items = None
            for g in e.generators:
                it = self.expr1(g.iter, t)
                items = it[1] if it[0] == "list" and len(e.generators) == 1 and not g.ifs else None
                self.assign(g.target, fresh(), t)
                for c in g.ifs:
                    self.expr(c, t)
            if items is not None and not isinstance(e, ast.DictComp):
                vs = []
                for x in items:
                    self.assign(e.generators[0].target, x, t)
                    vs.append(self.expr1(e.elt, t))
                return [(("list", tuple(vs)), st)]
            for x in ([e.key, e.value] if isinstance(e, ast.DictComp) else [e.elt]):
                self.expr(x, t)
            return [(fresh(), st)]
        if isinstance(e, ast.Lambda):
            return [(("def", ast.FunctionDef(name="<lambda %d>" % e.lineno, args=e.args, body=[ast.copy_location(ast.Return(value=e.body), e)], decorator_list=[]), None), st)]
        if isinstance(e, ast.JoinedStr):
            return [(fresh(), st)]
        if isinstance(e, (ast.Yield, ast.YieldFrom, ast.Await)):
            return [(fresh(), t) for _, t in self.expr(e.value, st)] if e.value else [(fresh(), st)]
        return [(fresh(), st)]

    def binop(self, op, a, b):
        if isinstance(op, ast.Mult):
            for x, y in ((a, b), (b, a)):
                if x[0] == "type" and y[0] == "num":
                    return ("type", ("A", x[1], y[1]))
                if x[0] == "list" and y[0] == "num":
                    return ("list", x[1] * y[1])
        if a[0] == b[0] == "num":
            f = {ast.Add: lambda: a[1] + b[1], ast.Sub: lambda: a[1] - b[1], ast.Mult: lambda: a[1] * b[1]}.get(type(op))
            if f:
                return ("num", f())
        if isinstance(op, ast.Add) and a[0] == b[0] == "list":
            return ("list", a[1] + b[1])
        if isinstance(op, ast.Add) and a[0] == "bytes" and b[0] == "bytes":
            return ("bytes", ("cat", a[1], b[1]))
        if b[0] == "num" and b[1] == 0 and isinstance(op, (ast.Add, ast.Sub)):
            return a
        return ("op", type(op).__name__, a, b)

    def attr(self, v, n, st, at):
        if (v, n) in st.attrs:
            return st.attrs[(v, n)], st
        if v[0] == "module" and v[1] == "ctypes":
            return self.ctypes(n), st
        if v[0] == "loaders":
            return (("loader",) if n == "LoadLibrary" else ("lib", "")), st
        if v[0] == "lib":
            if n.startswith("_"):
                return UNK, st
            self.uses.setdefault(n, getattr(at, "lineno", 0))
            return ("cfn", n), st
        if v[0] == "cfn" and n in ("argtypes", "restype"):
            return st.decl.get(v[1], {}).get(n, UNK), st
        if v[0] == "self" and (v[1], n) in st.attrs:
            m = st.attrs[(v[1], n)]
            return (("def", m[1], v) if m[0] == "def" else m), st
        if v[0] == "class":
            for k, m in v[2]:
                if k == n:
                    return m, st
        if v[0] == "inst" and n == "value":
            return (("bytes", v[2]) if v[2] is not None else fresh()), st
        return ("attr", v, n), st

    def call(self, e, st, used):
        out = []
        for f, t in self.expr(e.func, st) if not isinstance(e.func, ast.Attribute) else [(None, st)]:
            if f is None:
                for o, u in self.expr(e.func.value, t):
                    if not (o[0] in ("lib", "module", "loaders", "self", "class", "cfn")) and (o, e.func.attr) not in u.attrs:
                        for vs, w in self.args(e.args, u):
                            for kw, x in self.kwargs(e, w):
                                out.append((self.method(o, e.func.attr, vs, kw, x), x))
                        continue
                    g, u = self.attr(o, e.func.attr, u, e)
                    out += self.invoke(g, e, u, used)
            else:
                out += self.invoke(f, e, t, used)
        return out

    def kwargs(self, e, st):
        names = [k.arg for k in e.keywords]
        return [(dict(zip(names, v)), t) for v, t in self.args([k.value for k in e.keywords], st)]

    def invoke(self, f, e, st, used):
        out = []
        for vs, t in self.args(e.args, st):
            for kw, u in self.kwargs(e, t):
                out += self.invoke1(f, vs, kw, u, e, used)
        return out

    def method(self, o, n, vs, kw, st):
        if n == "encode":
            enc = vs[0] if vs else kw.get("encoding", ("str", "utf-8"))
            if o[0] == "str" and enc[0] == "str":
                try:
                    return ("bytes", ("const", o[1].encode(enc[1])))
                except (UnicodeError, LookupError):
                    pass
            return ("bytes", ("encoded", o, enc))
        if n in ("items", "keys", "values") and o[0] == "dict":
            return ("list", tuple(("list", (k, v)) if n == "items" else k if n == "keys" else v for k, v in o[1]))
        if n == "append" and o[0] == "list":
            return UNK
        return fresh()

    def invoke1(self, f, vs, kw, st, e, used):
        k = f[0]
        if k == "def":
            return self.apply(f, ([f[2]] if f[2] else []) + vs, kw, st)
        if k == "loader":
            return [(("lib", ""), st)]
        if k == "cfn":
            self.uses.setdefault(f[1], e.lineno)
            self.calls.setdefault((e.lineno, e.col_offset, f[1]), []).append((tuple(vs), tuple(kw), used, dict(st.decl.get(f[1], {}))))
            r = st.decl.get(f[1], {}).get("restype", ("type", ("c", "c_int")))
            if r[0] == "type" and r[1] == ("c", "c_char_p"):
                return [(("bytes", fresh()), st)]
            if r[0] == "type" and r[1] == ("c", "c_void_p"):
                return [(("address", fresh()), st)]
            if r[0] == "type" and r[1][0] in "RPF":
                return [(("inst", r[1], None, fresh()), st)]
            if r[0] == "none":
                return [(("none",), st)]
            return [(("result", fresh()), st)]
        if k == "type":
            t = f[1]
            if t == ("c", "c_char_p") and vs and vs[0][0] in ("text", "str", "num", "len"):
                self.bad.append(("c_char_p", "%s:%d: c_char_p is made of %s, not of bytes" % (os.path.basename(self.path), e.lineno, "a text" if vs[0][0] in ("text", "str") else "a number")))
            pay = vs[0][1] if t == ("c", "c_char_p") and vs and vs[0][0] == "bytes" else None
            return [(("inst", t, pay, vs[0] if vs else ("none",)), st)]
        if k == "class":
            o = ("self", f[1])
            m = dict(f[2]).get("__init__")
            if m:
                return [(o, t) for _, t in self.apply(("def", m[1], o), [o] + vs, kw, st)]
            return [(o, st)]
        if k == "ct":
            n = f[1]
            if n == "POINTER" and vs and vs[0][0] == "type":
                return [(("type", ("P", vs[0][1])), st)]
            if n in ("CFUNCTYPE", "PYFUNCTYPE") and vs and all(v[0] == "type" for v in vs[1:]) and vs[0][0] in ("type", "none"):
                return [(("type", ("F", vs[0][1] if vs[0][0] == "type" else None, tuple(v[1] for v in vs[1:]))), st)]
            if n in ("byref", "pointer") and vs:
                v = vs[0]
                return [(("inst", ("P", v[1]), None, v) if v[0] == "inst" else ("ref", v), st)]
            if n == "create_string_buffer":
                v = vs[0] if vs else UNK
                return [(("inst", ("A", ("c", "c_char"), 0), v[1] if v[0] == "bytes" else None, v), st)]
            if n == "cast" and len(vs) > 1 and vs[1][0] == "type":
                return [(("inst", vs[1][1], vs[0][2] if vs[0][0] == "inst" else None, vs[0]), st)]
            return [(fresh(), st)]
        if k == "builtin":
            n = f[1]
            if n == "len" and vs:
                return [(("num", len(vs[0][1][1])) if vs[0][0] == "bytes" and vs[0][1][0] == "const" else ("num", len(vs[0][1])) if vs[0][0] in ("list", "str") and isinstance(vs[0][1], (tuple, str)) else ("len", vs[0]), st)]
            if n == "getattr" and len(vs) > 1 and vs[1][0] == "str":
                return [self.attr(vs[0], vs[1][1], st, e)]
            if n == "setattr" and len(vs) > 2 and vs[1][0] == "str":
                self.setattr(vs[0], vs[1][1], vs[2], st, e)
                return [(("none",), st)]
            if n in ("list", "tuple") and vs and vs[0][0] in ("list",):
                return [(vs[0], st)]
            if n == "bytes" and vs and vs[0][0] == "bytes":
                return [(vs[0], st)]
            if n == "bytes" and len(vs) > 1:
                return [(("bytes", ("encoded", vs[0], vs[1])), st)]
            if n == "int" and vs and vs[0][0] in ("num", "len", "result", "address"):
                return [(vs[0], st)]
            if n == "zip" and vs and all(v[0] == "list" for v in vs):
                return [(("list", tuple(("list", tuple(x)) for x in zip(*[v[1] for v in vs]))), st)]
            if n == "enumerate" and vs and vs[0][0] == "list":
                return [(("list", tuple(("list", (("num", i), x)) for i, x in enumerate(vs[0][1]))), st)]
            return [(fresh(), st)]
        return [(fresh(), st)]


def default_pass(v, c):
    """what happens to a Python value that no declaration converts, for a parameter of C type c: why it fails, or None"""
    if v[0] == "none":
        return None if c[0] == "ptr" else "None for " + show_c(c)
    if v[0] == "bytes":
        return None if c[0] == "ptr" else "bytes for " + show_c(c)
    if v[0] == "inst":
        return agree(v[1], c)
    if v[0] in ("num", "len", "result", "address"):
        if c[0] == "int" and c[1] == 4 and v[0] != "address":
            return None
        return "a Python number is passed as an int of 4 bytes where %s is declared" % show_c(c)
    return "no declaration says how the value is passed where %s is declared" % show_c(c)


def declared_pass(v, t):
    """values that the declared type refuses or misreads"""
    if t == ("c", "c_char_p") and v[0] in ("str", "text", "num", "len", "address", "result"):
        return "%s is given where bytes are needed" % {"str": "a text", "text": "a text"}.get(v[0], "a number")
    if v[0] == "bytes" and t[0] == "c" and (t[1] in INT and t[1] != "c_char" or t[1] in FLOAT):
        return "bytes are given for a number"
    if v[0] == "inst" and t[0] == "P" and v[1][0] == "P" and v[1] != t:
        return "a reference to another type is given"
    if v[0] == "inst" and v[1][0] == "c" and t[0] == "c" and v[1] != t and not (t[1] == "c_void_p" and v[1][1] in PTR):
        return "%s is given for %s" % (v[1][1], t[1])
    return None


def binding(build):
    d = Debug(build.whole())
    path = os.path.join(engine.REPO, "python", "greshunkel.py")
    inst, bad = [], []
    if not os.path.exists(path):
        raise engine.Broken("no " + path)
    try:
        b = Binding(path)
    except SyntaxError as x:
        raise engine.Broken("the binding does not parse: %s" % x)
    rel = os.path.relpath(path, engine.REPO)
    for name, line in sorted(b.uses.items()):
        at = "%s:%d %s" % (rel, line, name)
        inst.append(at)
        if name not in d.fn or d.fn[name][0] != "public":
            bad.append((name + ": exists", "%s: the library gives no function %s%s" % (at, name, " to others (it is %s)" % d.fn[name][0] if name in d.fn else "")))
            continue
        ret, params = d.signature(name)
        for st in b.final:
            dec = st.decl.get(name, {})
            a = dec.get("argtypes")
            if a is not None and a[0] != "none":
                if a[0] != "list" or any(x[0] != "type" for x in a[1]):
                    bad.append((name + ": argtypes", "%s: the declared argument types cannot be read" % at))
                    continue
                inst.append(at + " argtypes")
                if len(a[1]) != len(params):
                    bad.append((name + ": argtypes", "%s: %d argument types are declared, the library's function takes %d" % (at, len(a[1]), len(params))))
                for i, (x, c) in enumerate(zip(a[1], params)):
                    w = agree(x[1], c)
                    inst.append("%s argument %d" % (at, i + 1))
                    if w:
                        bad.append(("%s: argument %d" % (name, i + 1), "%s: argument %d is declared as %s, the library takes %s (%s)" % (at, i + 1, show_t(x[1]), show_c(c), w)))
            r = dec.get("restype")
            if r is not None and r[0] == "type":
                inst.append(at + " restype")
                w = agree(r[1], ret, True)
                if w:
                    bad.append((name + ": result", "%s: the result is declared as %s, the library gives %s (%s)" % (at, show_t(r[1]), show_c(ret), w)))
            elif r is not None and r[0] not in ("none",):
                bad.append((name + ": result", "%s: the declared result type cannot be read" % at))
    for (line, col, name), uses in sorted(b.calls.items()):
        if name not in d.fn or d.fn[name][0] != "public":
            continue
        at = "%s:%d call of %s" % (rel, line, name)
        inst.append(at)
        ret, params = d.signature(name)
        for vs, kw, used, dec in uses:
            if kw:
                bad.append((name + ": call", at + ": keyword arguments"))
            a = dec.get("argtypes")
            types = [x[1] for x in a[1]] if a and a[0] == "list" and all(x[0] == "type" for x in a[1]) else None
            if ("star",) in vs:
                bad.append((name + ": call", at + ": the number of arguments cannot be read"))
                continue
            if len(vs) != len(params):
                bad.append((name + ": call", "%s: %d arguments are given, the library's function takes %d" % (at, len(vs), len(params))))
                continue
            for i, (v, c) in enumerate(zip(vs, params)):
                w = declared_pass(v, types[i]) if types and i < len(types) else default_pass(v, c) if types is None else None
                if w:
                    bad.append(("%s: call: argument %d" % (name, i + 1), "%s, argument %d: %s" % (at, i + 1, w)))
                # a size that follows a text is the size of that text
                if c[0] == "int" and c[1] == 8 and i and params[i - 1][0] == "ptr" and params[i - 1][1][:1] == ("int",) and params[i - 1][1][1] == 1:
                    text = vs[i - 1]
                    sym = text[1] if text[0] == "bytes" else text[2] if text[0] == "inst" else None
                    inst.append("%s size %d" % (at, i + 1))
                    num = v[3] if v[0] == "inst" and v[1][0] == "c" and v[1][1] in INT else v
                    ok = num == ("len", ("bytes", sym)) if sym is not None and sym[0] != "const" else sym is not None and num == ("num", len(sym[1]))
                    if text[0] == "inst" and text[1][:1] == ("A",) and num == ("op", "Sub", ("len", text), ("num", 1)):
                        ok = True
                    if not ok and not (text[0] == "none" and num == ("num", 0)):
                        bad.append(("%s: call: size" % name, "%s: argument %d is not the size in bytes of the text given before it" % (at, i + 1)))
            r = dec.get("restype")
            if used:
                inst.append(at + " result")
                if ret[0] == "void":
                    bad.append((name + ": call: result", at + ": a result is used, the library's function gives none"))
                elif r is None and not (ret[0] == "int" and ret[1] == 4):
                    bad.append((name + ": call: result", "%s: the result is read as an int of 4 bytes, the library gives %s" % (at, show_c(ret))))
                elif r is not None and r[0] == "none":
                    bad.append((name + ": call: result", at + ": the result is used, but declared as none"))
            if ret[0] == "rec" and r is None:
                bad.append((name + ": call: result", "%s: the result is %s, which the library writes where the caller said; none was declared" % (at, show_c(ret))))
    bad += b.bad
    for l in b.lost:
        raise engine.Broken("the binding: " + l)
    return {"rule": "every library function used exists; its declared and passed argument and result types agree with the library's in number, kind, width and layout; a size given after a text is that text's size",
            "instances": sorted(set(inst)), "findings": sorted(set(bad))}
