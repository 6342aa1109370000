"""A model of flatdata schemas independent of the generator: definitions as plain data, a renderer with
many surface styles, an own parser of the schema language and the meaning (semantics) of definitions."""
import copy
import itertools
import re

WIDTH = {"bool": 1, "u8": 8, "i8": 8, "u16": 16, "i16": 16, "u32": 32, "i32": 32, "u64": 64, "i64": 64}


# ---- construction ------------------------------------------------------------------------------
def const(ns, name, type_, value):
    return {"k": "const", "ns": ns, "name": name, "type": type_, "value": value}


def enum(ns, name, type_, width, values):
    return {"k": "enum", "ns": ns, "name": name, "type": type_, "width": width,
            "values": [list(v) if isinstance(v, (tuple, list)) else [v, None] for v in values]}


def field(name, type_, width=None, range=None, consts=(), optional=None):
    return {"name": name, "type": type_, "width": width, "range": range, "consts": list(consts), "optional": optional}


def struct(ns, name, *fields):
    return {"k": "struct", "ns": ns, "name": name, "fields": list(fields)}


def resource(name, kind, *args, width=None, optional=False, erefs=()):
    return {"name": name, "kind": kind, "args": list(args), "width": width, "optional": optional,
            "erefs": [list(e) for e in erefs]}


def archive(ns, name, *resources, bound=()):
    return {"k": "archive", "ns": ns, "name": name, "bound": [[b[0], list(b[1])] for b in bound],
            "resources": list(resources)}


def path(d):
    return ".%s.%s" % (d["ns"], d["name"])


def clone(m):
    return copy.deepcopy(m)


# identifiers close to what generators treat specially: prefixes, keywords, builtins, generated names
ODD_NAMES = ["_x", "x_", "_1", "x__y", "UNKNOWN_", "UNKNOWN_VALUE_77", "UNKNOWN_VALUE_MINUS_77", "builtin", "xbuiltin", "builtins_", "_builtins",
             "struct1", "structure", "archive_", "archives", "vector2", "multivector_", "constant", "const_", "enum_", "namespace1", "raw_data1",
             "optional_", "range_", "explicit_reference", "bound_implicitly", "bool1", "i8x", "u80", "index", "IndexType", "IndexType8", "value", "schema",
             "doc", "er_x", "x_index", "A_", "z9", "CamelCase", "snake_case", "SHOUT_CASE", "x" * 70]

ODD_QUICK = ["_x", "x__y", "UNKNOWN_", "UNKNOWN_VALUE_77", "builtin", "xbuiltin", "_builtins", "structure", "vector2", "const_", "IndexType", "index",
             "schema", "er_x", "CamelCase"]


def identifiers(m):
    """{identifier: kind} of a model (which has to use every identifier once)"""
    out = {}
    for d in m:
        for n in d["ns"].split("."):
            out.setdefault(n, "namespace")
        out[d["name"]] = d["k"]
        for x in d.get("values", ()):
            out[x[0]] = "enumerator"
        for x in d.get("fields", ()):
            out[x["name"]] = "field"
            if x["range"]:
                out[x["range"]] = "range"
        for x in d.get("resources", ()):
            out[x["name"]] = "resource"
        for x in d.get("bound", ()):
            out[x[0]] = "bound"
    return out


def renamed(m, old, new):
    """The model with every identifier `old` replaced"""
    if isinstance(m, str):
        return ".".join(new if x == old else x for x in m.split("."))
    if isinstance(m, list):
        return [renamed(x, old, new) for x in m]
    if isinstance(m, dict):
        return {k: v if k in ("k", "kind") else renamed(v, old, new) for k, v in m.items()}
    return m


# ---- rendering ---------------------------------------------------------------------------------
class Style:
    """Ways to write the same schema."""

    def __init__(self, local=False, merged=False, comments=False, space=" ", hexa=False, newline=False,
                 explicit_width=False, order=None):
        self.local, self.merged, self.comments, self.space = local, merged, comments, space
        self.hexa, self.newline, self.explicit_width, self.order = hexa, newline, explicit_width, order
        self._n = 0

    def doc(self):
        if not self.comments:
            return ""
        self._n += 1
        return ("// line comment %d struct X { y : u8; }\n", "/* block %d\n ; { } */", "/** doc %d\n * text \"quoted\"\n */",
                "/// doc %d\n")[self._n % 4] % self._n

    def ref(self, d, ref):
        prefix = ".%s." % d["ns"]
        if self.local and ref.startswith(prefix):
            local = ref[len(prefix):]
            if "." not in local or d["k"] == "archive":
                return local
        return ref

    def value(self, v):
        if not self.hexa:
            return str(v)
        return "-0x%x" % -v if v < 0 else "0x%X" % v


def render_def(d, st):
    w = st.space
    out = [st.doc()]
    if d["k"] == "const":
        out.append("const%s%s%s%s%s=%s%s;" % (w, d["type"], w, d["name"], w, w, st.value(d["value"])))
    elif d["k"] == "enum":
        width = d["width"]
        if width is None and st.explicit_width:
            width = WIDTH[d["type"]]
        vals = []
        for n, v in d["values"]:
            vals.append(st.doc() + n + ("" if v is None else w + "=" + w + st.value(v)))
        out.append("enum%s%s%s:%s%s%s%s{%s%s%s}" % (
            w, d["name"], w, w, d["type"], "" if width is None else w + ":" + w + str(width), w, w,
            (w + "," + w).join(vals), "," if st.explicit_width else ""))
    elif d["k"] == "struct":
        out.append("struct%s%s%s{" % (w, d["name"], w))
        for f in d["fields"]:
            out.append(st.doc())
            if f["range"]:
                out.append("@range(%s%s%s)%s" % (w, f["range"], w, w))
            for c in f["consts"]:
                out.append("@const(%s%s%s)%s" % (w, st.ref(d, c), w, w))
            if f["optional"]:
                out.append("@optional(%s%s%s)%s" % (w, st.ref(d, f["optional"]), w, w))
            width = f["width"]
            if width is None and st.explicit_width and f["type"] in WIDTH:
                width = WIDTH[f["type"]]
            out.append("%s%s:%s%s%s;%s" % (f["name"], w, w, st.ref(d, f["type"]) if f["type"] not in WIDTH else f["type"],
                                           "" if width is None else w + ":" + w + str(width), w))
        out.append("}")
    else:
        for name, refs in d["bound"]:
            out.append("@bound_implicitly(%s%s%s:%s%s%s)%s" % (w, name, w, w, (w + "," + w).join(_res(d, r, st) for r in refs), w, w))
        out.append("archive%s%s%s{" % (w, d["name"], w))
        for r in d["resources"]:
            out.append(st.doc())
            for s, f, dest in r["erefs"]:
                out.append("@explicit_reference(%s%s.%s,%s%s%s)%s" % (w, st.ref(d, s), f, w, _res(d, dest, st), w, w))
            if r["optional"]:
                out.append("@optional" + (w or " "))
            args = [st.ref(d, a) for a in r["args"]]
            t = {"raw": "raw_data", "instance": "%s", "vector": "vector<" + w + "%s" + w + ">",
                 "multivector": "multivector<" + w + "%s" + w + ">", "archive": "archive" + (w or " ") + "%s"}[r["kind"]]
            if r["kind"] == "multivector":
                args = [str(r["width"])] + args
            if r["kind"] != "raw":
                t = t % (w + "," + w).join(args)
            out.append("%s%s:%s%s%s;%s" % (r["name"], w, w, t, w, w))
        out.append("}")
    return "".join(out)


def _res(d, ref, st):
    own = path(d) + "."
    if st.local and ref.startswith(own):
        return ref[len(own):]
    return st.ref(d, ref)


def render(m, style=None):
    st = style or Style()
    defs = list(m)
    if st.order is not None:
        defs = [defs[i] for i in st.order]
    nl = "\n" if st.newline or st.comments else " "
    if st.merged:
        groups = [(ns, list(ds)) for ns, ds in itertools.groupby(defs, key=lambda d: d["ns"])]
    else:
        groups = [(d["ns"], [d]) for d in defs]
    out = []
    if st.comments:
        out.append("// leading comment\n")
    for ns, ds in groups:
        body = nl.join(render_def(d, st) for d in ds)
        out.append("namespace %s%s{%s%s%s}%s" % (ns, st.space, st.space, body, st.space, nl))
        if st.comments:
            out.append(" // end of namespace\n")
    return nl.join(out)


# ---- own parser --------------------------------------------------------------------------------
class ParseError(Exception):
    pass


_TOKEN = re.compile(r"\s+|//[^\n]*|/\*.*?\*/|(@?[A-Za-z_][A-Za-z_0-9]*|-?0x[0-9a-fA-F]+|-?\d+|[.:;,{}<>()=])", re.S)


def tokens(text):
    pos, out = 0, []
    while pos < len(text):
        mt = _TOKEN.match(text, pos)
        if not mt:
            raise ParseError("unexpected text %r" % text[pos:pos + 20])
        pos = mt.end()
        if mt.group(1):
            out.append(mt.group(1))
    return out


class Parser:
    def __init__(self, text):
        self.t = tokens(text)
        self.i = 0
        self.defs = []

    def peek(self):
        return self.t[self.i] if self.i < len(self.t) else None

    def take(self, expected=None):
        tok = self.peek()
        if tok is None or (expected is not None and tok != expected):
            raise ParseError("expected %s, got %s" % (expected, tok))
        self.i += 1
        return tok

    def accept(self, tok):
        if self.peek() == tok:
            self.i += 1
            return True
        return False

    def ident(self):
        tok = self.take()
        if not re.fullmatch(r"[A-Za-z_]\w*", tok):
            raise ParseError("identifier expected, got " + tok)
        return tok

    def ref(self):
        r = "." if self.accept(".") else ""
        r += self.ident()
        while self.accept("."):
            r += "." + self.ident()
        return r

    def int(self):
        return int(self.take(), 0)

    def parse(self):
        while self.peek() is not None:
            self.namespace([])
        return self.defs

    def namespace(self, outer):
        self.take("namespace")
        names = outer + self.ref().split(".")
        self.take("{")
        while not self.accept("}"):
            if self.peek() == "namespace":     # nested blocks as in normalized schemas
                self.namespace(names)
            else:
                self.definition(".".join(names))

    def definition(self, ns):
        bound = []
        while self.accept("@bound_implicitly"):
            self.take("(")
            name = self.ident()
            self.take(":")
            refs = [self.ref()]
            while self.accept(","):
                refs.append(self.ref())
            self.take(")")
            bound.append([name, refs])
        k = self.take()
        if k == "const":
            t, n = self.ident(), self.ident()
            self.take("=")
            self.defs.append(const(ns, n, t, self.int()))
            self.take(";")
        elif k == "enum":
            n = self.ident()
            self.take(":")
            t, w = self.ident(), None
            if self.accept(":"):
                w = self.int()
            self.take("{")
            vals = []
            while not self.accept("}"):
                v = [self.ident(), None]
                if self.accept("="):
                    v[1] = self.int()
                vals.append(v)
                if not self.accept(","):
                    self.take("}")
                    break
            self.defs.append(enum(ns, n, t, w, vals))
        elif k == "struct":
            n = self.ident()
            self.take("{")
            fields = []
            while not self.accept("}"):
                fields.append(self.field())
            self.defs.append(struct(ns, n, *fields))
        elif k == "archive":
            n = self.ident()
            self.take("{")
            res = []
            while not self.accept("}"):
                res.append(self.resource())
            self.defs.append(archive(ns, n, *res, bound=bound))
        else:
            raise ParseError("definition expected, got " + k)

    def field(self):
        rng, consts, opt = None, [], None
        while self.peek().startswith("@"):
            d = self.take()
            self.take("(")
            r = self.ref()
            self.take(")")
            if d == "@range":
                rng = r
            elif d == "@const":
                consts.append(r)
            elif d == "@optional" and opt is None:
                opt = r
            else:
                raise ParseError("unexpected " + d)
        n = self.ident()
        self.take(":")
        t, w = self.ref(), None
        if self.accept(":"):
            w = self.int()
        self.take(";")
        return field(n, t, w, rng, consts, opt)

    def resource(self):
        opt, erefs = False, []
        while self.peek().startswith("@"):
            d = self.take()
            if d == "@optional":
                opt = True
            elif d == "@explicit_reference":
                self.take("(")
                src = self.ref()
                self.take(",")
                erefs.append([src.rpartition(".")[0], src.rpartition(".")[2], self.ref()])
                self.take(")")
            else:
                raise ParseError("unexpected " + d)
        n = self.ident()
        self.take(":")
        t = self.take() if self.peek() in ("raw_data", "vector", "multivector", "archive") else self.ref()
        width, args = None, []
        kind = {"raw_data": "raw", "vector": "vector", "multivector": "multivector", "archive": "archive"}.get(t, "instance")
        if kind == "instance":
            args = [t]
        elif kind == "archive":
            args = [self.ref()]
        elif kind != "raw":
            self.take("<")
            if kind == "multivector":
                width = self.int()
                self.take(",")
            args = [self.ref()]
            while self.accept(","):
                args.append(self.ref())
            self.take(">")
        self.take(";")
        return resource(n, kind, *args, width=width, optional=opt, erefs=erefs)


def parse(text):
    return Parser(text).parse()


# ---- meaning -----------------------------------------------------------------------------------
class Meaning:
    """Semantics of the definitions of a model; raises KeyError for dangling references."""

    def __init__(self, m):
        self.defs = {}
        for d in m:
            p = path(d)
            if p in self.defs:
                raise KeyError("redefinition of " + p)
            self.defs[p] = d
        self.referenced = set()
        for d in m:
            if d["k"] == "struct":
                for f in d["fields"]:
                    for c in f["consts"] + ([f["optional"]] if f["optional"] else []):
                        self.referenced.add(self.find(d, c, "const"))

    def find(self, d, ref, kind):
        p = ref if ref.startswith(".") else ".%s.%s" % (d["ns"], ref)
        if p not in self.defs or self.defs[p]["k"] != kind:
            raise KeyError("%s %s not found" % (kind, p))
        return p

    def find_resource(self, d, ref):
        if ref.startswith("."):
            p = ref
        elif any(r["name"] == ref for r in d["resources"]):
            p = path(d) + "." + ref
        else:
            p = ".%s.%s" % (d["ns"], ref)
        owner, _, name = p.rpartition(".")
        if owner not in self.defs or self.defs[owner]["k"] != "archive" or \
                not any(r["name"] == name for r in self.defs[owner]["resources"]):
            raise KeyError("resource %s not found" % p)
        return p

    def const(self, p):
        d = self.defs[p]
        return (p, d["type"], d["value"])

    def enum(self, p):
        d = self.defs[p]
        cur, vals = 0, []
        for n, v in d["values"]:
            cur = cur if v is None else v
            vals.append((n, cur))
            cur += 1
        return (p, d["type"], WIDTH[d["type"]] if d["width"] is None else d["width"], tuple(sorted(vals)))

    def struct(self, p):
        d = self.defs[p]
        out, offset = [], 0
        for f in d["fields"]:
            if f["type"] in WIDTH:
                t = f["type"]
                w = WIDTH[t] if f["width"] is None else f["width"]
            else:
                t = self.enum(self.find(d, f["type"], "enum"))
                w = t[2]
                if f["width"] not in (None, w):
                    raise KeyError("width of %s" % f["name"])
            out.append((f["name"], t, offset, w, f["range"],
                        tuple(sorted(self.const(self.find(d, c, "const")) for c in f["consts"])),
                        self.const(self.find(d, f["optional"], "const")) if f["optional"] else None))
            offset += w
        return (p, tuple(out), offset)

    def resource(self, d, r, strict=True):
        """strict=False: the targets of explicit references need not be defined"""
        if r["kind"] == "archive":
            params = (self.archive(self.find(d, r["args"][0], "archive")),)
        else:
            params = tuple(self.struct(self.find(d, a, "struct")) for a in r["args"])
        erefs = []
        for s, f, dest in r["erefs"]:
            sp = self.find(d, s, "struct")
            if not any(x["name"] == f for x in self.defs[sp]["fields"]):
                raise KeyError("field %s.%s not found" % (sp, f))
            if strict:
                dest = self.find_resource(d, dest)
            elif not dest.startswith("."):
                raise KeyError("relative reference " + dest)
            erefs.append((sp, f, dest))
        return (path(d), r["name"], r["kind"], r["width"], params, bool(r["optional"]), tuple(sorted(erefs)))

    def archive(self, p, strict=True):
        d = self.defs[p]
        return (p, tuple(sorted((b[0], tuple(sorted(self.find_resource(d, x) for x in b[1]))) for b in d["bound"])),
                tuple(sorted(self.resource(d, r, strict) for r in d["resources"])), self.globals())

    def globals(self):
        return tuple(sorted(self.const(p) for p, d in self.defs.items()
                            if d["k"] == "const" and p not in self.referenced))

    def items(self):
        """{key: meaning} of everything that has a stored schema"""
        out = {}
        for p, d in self.defs.items():
            if d["k"] == "struct":
                out[("struct", p)] = self.struct(p)
            elif d["k"] == "archive":
                out[("archive", p)] = self.archive(p)
                for r in d["resources"]:
                    out[("resource", p, r["name"])] = self.resource(d, r)
        return out
