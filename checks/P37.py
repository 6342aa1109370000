"""P37: which texts are schemas, and what they mean: every edit of tokens and of characters of schemas that use all of the
language is judged by the real generator and by an independent grammar; what is accepted has to mean the same as the text that
the independent grammar makes of it. Blanks, line ends and comments between any two tokens change nothing; comments arrive in the
generated code in front of what they describe, and never as code."""
import ast
import io
import itertools
import os
import re
import sys
import tokenize

sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import vlib  # noqa: E402
import genlib as g  # noqa: E402
import schemamodel as sm  # noqa: E402

BASES = {
    "all": """namespace n.m { const u8 C = 3 ; const i16 D = -0x1F ; enum E : i8 : 2 { A = -1 , B , X = 1 , Y = -0x2 , }
struct St { @range ( r ) a : u32 : 20 ; @const ( C ) @optional ( .n.m.K ) b : u8 ; e : .n.m.E ; f : E : 2 ; }
const u8 K = 0 ; struct U { only : bool ; }
@bound_implicitly ( bd : .n.m.R.v , R.w )
archive R { @explicit_reference ( St.b , .n.m.R.v ) @optional v : vector < St > ; @explicit_reference ( .n.m.St.a , w ) w : vector < .n.m.St > ;
m : multivector < 33 , U , o.T > ; i : U ; raw : raw_data ; z : archive Z ; }
namespace o { struct T { x : i64 : 33 ; } } archive Z { } } namespace n { enum Q : bool { F , G } }""",
    "small": "namespace n { const i8 C = -1 ; struct S { @const ( C ) x : i8 ; } archive A { v : vector < S > ; } }",
}
ALPHABET = ("namespace const enum struct archive vector multivector raw_data @range @const @optional @bound_implicitly @explicit_reference "
            "{ } ( ) < > : ; , = . - @ u8 bool i16 n n.m S .n.m.S E C K R St v w a X zz .n..S n. S. 0 1 2 08 -1 0x2 0X2 3x _ $ \" é \\ struct_ u80").split(" ")
COMMENTS = ("// c\n", "/* c */", "/**/", "//\n", "/* c\n * d } ; */", "/// c */ /*\n", "/** // c **/", "/* /* c */", "// c \\\n d\n", "//*/ c\n", "/*/ c */")
BLANKS = ("  ", "\t", "\n", "\r\n", "\r", " \t\r\n\n ")
CHARACTERS = " \t\n.:;,{}<>()=-@/*x0_$"
TYPES = ("bool", "i8", "u8", "i16", "u16", "i32", "u32", "i64", "u64")


class Invalid(Exception):
    """no text of the language"""


class Unclear(Exception):
    """nothing says whether this is a text of the language"""


TOKEN = re.compile(r"""(?P<comment>//(?:\\\n|[^\n])*|/\*.*?\*/)|(?P<blank>[ \t\r\n]+)|(?P<word>[A-Za-z_.][A-Za-z0-9_.]*)|(?P<at>@[A-Za-z_][A-Za-z0-9_$]*)
|(?P<number>-?(?:0x[0-9a-fA-F]+|[0-9]+))|(?P<other>[:;,{}<>()=])""", re.S | re.X)
IDENTIFIER = re.compile(r"[A-Za-z_][A-Za-z0-9_]*\Z")
REFERENCE = re.compile(r"\.?[A-Za-z_][A-Za-z0-9_]*(?:\.[A-Za-z_][A-Za-z0-9_]*)*\Z")


class Grammar:
    """recursive descent; the model of a text, or Invalid. comments: whether all of them are at documented places"""
    def __init__(self, text):
        self.tokens, self.before = [], []
        at, comments = 0, 0
        while at < len(text):
            m = TOKEN.match(text, at)
            if not m:
                raise Invalid("character %r" % text[at])
            at = m.end()
            if m.lastgroup == "comment":
                comments += 1
            elif m.lastgroup != "blank":
                self.tokens.append(m.group())
                self.before.append(comments)
                comments = 0
        self.rest = comments
        self.at, self.model = 0, []
        self.unclear = False

    def peek(self):
        return self.tokens[self.at] if self.at < len(self.tokens) else ""

    def take(self, expected=None, place=False):
        """place: comments are documented here"""
        t = self.peek()
        if not t or expected is not None and t != expected:
            raise Invalid("%r instead of %r" % (t, expected))
        if self.before[self.at] > (1 if place else 0):
            self.unclear = True
        self.at += 1
        return t

    def accept(self, t):
        if self.peek() == t:
            self.take()
            return True
        return False

    def name(self, place=False):
        t = self.take(place=place)
        if not IDENTIFIER.match(t):
            raise Invalid("identifier " + t)
        return t

    def reference(self):
        t = self.take()
        if not REFERENCE.match(t):
            raise Invalid("reference " + t)
        return t

    def width(self):
        t = self.take()
        if not t.isdigit():
            raise Invalid("width " + t)
        return int(t)

    def number(self):
        t = self.take()
        m = re.match(r"(-?)(?:0x([0-9a-fA-F]+)|([0-9]+))\Z", t)
        if not m:
            raise Invalid("number " + t)
        if m.group(3) and len(m.group(3)) > 1 and m.group(3)[0] == "0":
            # octal or decimal?
            if m.group(3).strip("0"):
                raise Invalid("leading zeros " + t)
            self.unclear = True
        v = int(m.group(2), 16) if m.group(2) else int(m.group(3))
        return -v if m.group(1) else v

    def basic(self):
        t = self.take()
        if t not in TYPES:
            raise Invalid("type " + t)
        return t

    def schema(self):
        if not self.tokens:
            raise Unclear()
        first = True
        while first or self.at < len(self.tokens):
            if first:
                self.before[0] = 0
            first = False
            self.namespace([])
        if self.rest:
            self.unclear = True
        return self.model

    def namespace(self, outer):
        self.take("namespace", place=bool(outer))
        n = self.reference()
        if n.startswith("."):
            raise Invalid("name of namespace")
        path = outer + n.split(".")
        self.take("{")
        while self.peek() != "}":
            if self.peek() == "namespace":
                self.namespace(path)
            else:
                self.definition(".".join(path))
        self.take("}")

    def parenthesis(self, read):
        self.take("(")
        out = read()
        self.take(")")
        return out

    def definition(self, ns):
        bound = []
        # any number of comments may precede a definition
        if self.at < len(self.tokens):
            self.before[self.at] = min(self.before[self.at], 1)
        place = True
        while self.peek() == "@bound_implicitly":
            self.take(place=place)
            place = False
            self.take("(")
            name, refs = self.name(), []
            self.take(":")
            while not refs or self.accept(","):
                refs.append(self.reference())
            self.take(")")
            bound.append([name, refs])
        kind = self.take("archive" if bound else None, place=place)
        if kind == "const":
            t, n = self.basic(), self.name()
            self.take("=")
            self.model.append(sm.const(ns, n, t, self.number()))
            self.take(";")
        elif kind == "enum":
            n = self.name()
            self.take(":")
            t, w, values = self.basic(), None, []
            if self.accept(":"):
                w = self.width()
            self.take("{")
            while True:
                v = [self.name(place=True), None]
                if self.accept("="):
                    v[1] = self.number()
                values.append(v)
                if not self.accept(","):
                    break
                if self.peek() == "}":
                    break
            self.take("}")
            self.model.append(sm.enum(ns, n, t, w, values))
        elif kind == "struct":
            n, fields = self.name(), []
            self.take("{")
            while not fields or self.peek() != "}":
                fields.append(self.field())
            self.take("}")
            self.model.append(sm.struct(ns, n, *fields))
        elif kind == "archive":
            n, resources = self.name(), []
            self.take("{")
            while self.peek() != "}":
                resources.append(self.resource())
            self.take("}")
            self.model.append(sm.archive(ns, n, *resources, bound=bound))
        else:
            raise Invalid("definition " + kind)

    def field(self):
        rng, consts, opt, place = None, [], None, True
        while self.peek().startswith("@"):
            d = self.take(place=place)
            place = False
            if d == "@range":
                if rng is not None:
                    self.unclear = True
                rng = self.parenthesis(self.name)
            elif d == "@const":
                consts.append(self.parenthesis(self.reference))
            elif d == "@optional":
                if opt is not None:
                    self.unclear = True
                opt = self.parenthesis(self.reference)
            else:
                raise Invalid("decoration " + d)
        n = self.name(place=place)
        self.take(":")
        t, w = self.reference(), None
        if self.accept(":"):
            w = self.width()
        self.take(";")
        return sm.field(n, t, w, rng, consts, opt)

    def resource(self):
        opt, refs, place = False, [], True
        while self.peek().startswith("@"):
            d = self.take(place=place)
            place = False
            if d == "@optional":
                opt = True
            elif d == "@explicit_reference":
                self.take("(")
                source = self.take()
                # blanks next to the dots are read over
                while self.peek()[:1] == "." or source[-1:] == "." and self.peek() not in ("", ","):
                    source += self.take()
                    self.unclear = True
                if not REFERENCE.match(source) or "." not in source[1:]:
                    raise Invalid("reference to a field " + source)
                self.take(",")
                refs.append([source.rpartition(".")[0], source.rpartition(".")[2], self.reference()])
                self.take(")")
            else:
                raise Invalid("decoration " + d)
        n = self.name(place=place)
        self.take(":")
        t, width, args, kind = self.peek(), None, [], None
        if t == "raw_data":
            self.take()
            kind = "raw"
        elif t in ("vector", "multivector"):
            kind = self.take()
            if self.peek() == ";":
                # a structure of this name?
                self.unclear = True
                kind, args = "instance", [t]
            else:
                self.take("<")
                if kind == "multivector":
                    width = self.width()
                    self.take(",")
                args = [self.reference()]
                while kind == "multivector" and self.accept(","):
                    args.append(self.reference())
                self.take(">")
        elif t == "archive":
            self.take()
            kind, args = "archive", [self.reference()]
        else:
            kind, args = "instance", [self.reference()]
        self.take(";")
        return sm.resource(n, kind, *args, width=width, optional=opt, erefs=refs)


def expected(text):
    """('valid' | 'invalid' | 'unclear', model)"""
    try:
        grammar = Grammar(text)
        model = grammar.schema()
        return ("unclear" if grammar.unclear else "valid"), model
    except Invalid as e:
        return "invalid", str(e)
    except Unclear:
        return "unclear", None


def normalized(text):
    """(kind, normalized schema or error) of the real generator"""
    from flatdata.generator.engine import Engine
    from flatdata.generator.tree.errors import FlatdataSyntaxError, ParsingError
    try:
        engine = Engine(text)
    except ParsingError as e:
        return "no text", e
    except FlatdataSyntaxError as e:
        return "error", e
    except Exception as e:  # pylint: disable=broad-except
        return "crash", e
    # in which order the definitions come does not matter (P16)
    return "ok", "\n\n".join(sorted(engine.render("flatdata").strip().split("\n\n")))


CANONICAL = {}


def judge(text, documented=True):
    """None or what is wrong with the generator's verdict on the text"""
    want, model = expected(text)
    got, result = normalized(text)
    if got == "crash":
        return "the generator crashes: %r" % (result,)
    if want == "invalid":
        return "accepted, although it is no text of the language (%s)" % model if got == "ok" else None
    if want == "valid" and got == "no text":
        return "not parsed: %s" % result
    if got != "ok" or model is None:
        # whether references and values are right is P18, P19 and P20
        return None
    canonical = sm.render(model)
    if canonical not in CANONICAL:
        CANONICAL[canonical] = normalized(canonical)
    if CANONICAL[canonical] != ("ok", result):
        return "means\n%s\nbut without comments, in the same words\n%s" % (result, CANONICAL[canonical][1])
    wrong = different(model, sm.parse(result))
    if wrong:
        return "means\n%s\nwhich is not what was written (%s)" % (result, wrong)
    return None


def different(model, parsed):
    """what is not the same in a model and in its normalized form, in which references are absolute"""
    def fits(ref, absolute):
        return absolute == ref or absolute.endswith("." + ref) and not ref.startswith(".")

    def all_fit(refs, absolutes):
        rest = list(absolutes)
        for r in sorted(refs, key=len, reverse=True):
            hit = next((x for x in rest if fits(r, x)), None)
            if hit is None:
                return False
            rest = [x for x in rest if x != hit]
        # a constant that is named twice is one
        return not rest

    def width(t, w):
        return w if w is not None else g.WIDTH.get(t)
    got = {sm.path(d): d for d in parsed}
    if sorted(got) != sorted(sm.path(d) for d in model):
        return "definitions %s" % sorted(got)
    for d in model:
        p, o = sm.path(d), got[sm.path(d)]
        if d["k"] != o["k"]:
            return p
        if d["k"] == "const" and (d["type"], d["value"]) != (o["type"], o["value"]):
            return p
        if d["k"] == "enum":
            values, current = [], 0
            for n, v in d["values"]:
                current = current if v is None else v
                values.append([n, current])
                current += 1
            named = [list(v) for v in o["values"] if v[0] in dict(d["values"])]
            if (d["type"], width(d["type"], d["width"]), values) != (o["type"], o["width"], named):
                return p
        if d["k"] == "struct":
            if len(d["fields"]) != len(o["fields"]):
                return p
            for f, h in zip(d["fields"], o["fields"]):
                if f["name"] != h["name"] or f["range"] != h["range"] or not fits(f["type"], h["type"]):
                    return "field " + f["name"]
                if width(f["type"], f["width"]) not in (None, h["width"]) or h["width"] is None:
                    return "width of " + f["name"]
                if not all_fit(set(f["consts"]), h["consts"]) or (f["optional"] is None) != (h["optional"] is None) or f["optional"] and not fits(f["optional"], h["optional"]):
                    return "decorations of " + f["name"]
        if d["k"] == "archive":
            if len(d["resources"]) != len(o["resources"]) or len(d["bound"]) != len(o["bound"]):
                return p
            for x, y in zip(d["bound"], o["bound"]):
                if x[0] != y[0] or len(x[1]) != len(y[1]) or not all(fits(v, w) for v, w in zip(x[1], y[1])):
                    return "bound " + x[0]
            for r, q in zip(d["resources"], o["resources"]):
                if any(r[k] != q[k] for k in ("name", "kind", "width")) or bool(r["optional"]) != bool(q["optional"]):
                    return "resource " + r["name"]
                if len(r["args"]) != len(q["args"]) or not all(fits(v, w) for v, w in zip(r["args"], q["args"])):
                    return "types of " + r["name"]
                if len(r["erefs"]) != len(q["erefs"]) or not all(fits(v[0], w[0]) and v[1] == w[1] and fits(v[2], w[2]) for v, w in zip(sorted(r["erefs"]), sorted(q["erefs"]))):
                    if not any(all(fits(v[0], w[0]) and v[1] == w[1] and fits(v[2], w[2]) for v, w in zip(r["erefs"], perm)) for perm in itertools.permutations(q["erefs"])) or len(r["erefs"]) != len(q["erefs"]):
                        return "references of " + r["name"]
    return None


# ---- edits ----------------------------------------------------------------------------------------
def edits(name, text, thorough):
    """(what, text)"""
    tokens = re.findall(r"\S+", text)
    n = len(tokens)

    def join(t):
        return " ".join(t)
    yield "unchanged", text
    for i in range(n):
        for j in range(i + 1, n + 1):
            if j - i <= 12 or thorough:
                yield "tokens %d to %d deleted" % (i, j - 1), join(tokens[:i] + tokens[j:])
    for i in range(n):
        for k in range(1, 7 if thorough else 4):
            if i + k <= n:
                yield "tokens %d to %d repeated" % (i, i + k - 1), join(tokens[:i + k] + tokens[i:])
            if i + k < n:
                yield "tokens %d and %d exchanged" % (i, i + k), join(tokens[:i] + [tokens[i + k]] + tokens[i + 1:i + k] + [tokens[i]] + tokens[i + k + 1:])
        for a in ALPHABET:
            yield "token %d replaced by %s" % (i, a), join(tokens[:i] + [a] + tokens[i + 1:])
            yield "%s before token %d" % (a, i), join(tokens[:i] + [a] + tokens[i:])
    compact = re.sub(r"\b ?([^\w\s]) ?\b|(?<=\W) | (?=\W)", lambda m: m.group(1) or "", " ".join(tokens))
    yield "no blanks", compact
    for i in range(len(compact)):
        yield "character %d deleted" % i, compact[:i] + compact[i + 1:]
        for c in CHARACTERS if thorough or name == "small" else CHARACTERS[::3]:
            yield "%r before character %d" % (c, i), compact[:i] + c + compact[i:]
        if thorough or name == "small":
            for c in CHARACTERS:
                yield "character %d replaced by %r" % (i, c), compact[:i] + c + compact[i + 1:]
    for k in range(n + 1):
        for c in COMMENTS:
            yield "comment %r before token %d" % (c, k), join(tokens[:k]) + " " + c + join(tokens[k:])
            if thorough or name == "small":
                for d in COMMENTS:
                    yield "comments %r %r before token %d" % (c, d, k), join(tokens[:k]) + " " + c + d + join(tokens[k:])
        for b in BLANKS:
            yield "blank %r before token %d" % (b, k), join(tokens[:k]) + b + join(tokens[k:])
    for b in BLANKS:
        yield "blank %r everywhere" % b, b.join(tokens)
    for c in COMMENTS:
        yield "comment %r everywhere" % c, (" " + c + " ").join(tokens)
        yield "unfinished comment %r" % c, text + c[:-1]
        yield "only comment %r" % c, c
    if name == "small":
        # two edits
        for i in range(n):
            for j in range(i + 1, n + 1):
                for a in ALPHABET if thorough else ALPHABET[:24]:
                    yield "%s before token %d, token %d deleted" % (a, i, j - 1), join(tokens[:i] + [a] + tokens[i:j - 1] + tokens[j:])


class Edits:
    def __init__(self, thorough, only):
        self.thorough, self.only = thorough, only

    def __call__(self, part):
        vlib.repo_on_path()
        g.cache_templates()
        index, shards = part
        out, number, kinds = [], 0, set()
        for name, text in BASES.items():
            for what, edited in edits(name, text, self.thorough):
                number += 1
                if number % shards != index:
                    continue
                case = "%s: %s" % (name, what)
                if self.only is not None and case != self.only:
                    continue
                message = judge(edited)
                kinds.add(edited)
                if message:
                    out.append((case, "%s\n%s" % (message, edited)))
                    if len(out) > 5:
                        return out, len(kinds)
        return out, len(kinds)


# ---- documentation ----------------------------------------------------------------------------------
DOCUMENTED = """namespace quux {
%(konst)s const u8 KONST = 3;
%(colour)s enum Colour : u8 : 2 { %(crimson)s CRIMSON, %(indigo)s INDIGO, %(olive)s OLIVE }
%(thing)s struct Thing { %(first)s first : u32 : 20; %(second)s @const(KONST) second : u8; %(third)s third : Colour; %(fourth)s fourth : bool; }
%(spanned)s struct Spanned { %(begin)s @range(extent) begin : u32; }
%(parcel)s archive Parcel { %(blob)s blob : raw_data; }
%(vault)s archive Vault { %(many)s many : vector< Thing >; %(mixed)s mixed : multivector< 16, Thing >; %(single)s single : Thing; %(parts)s parts : archive Parcel;
 %(bytes)s @optional opaque : raw_data; %(spans)s spans : vector< Spanned >; }
}
"""
PLACES = re.findall(r"%\((\w+)\)s", DOCUMENTED)
NAMED = {p: p for p in PLACES}
NAMED["bytes"] = "opaque"
FORMS = ["// %s\n", "/// %s\n", "/* %s */", "/** %s */", "/**\n * %s\n */", "/**\n    * %s\n    *\n    * after\n    */", "/* %s\n after */", "// %s } ; \" ' { \n", "//%s\n", "/*%s*/",
         "/** %s \"\"\" quoted ''' */", "/** `%s` <b> & %% # ${x} {{ y }} {%% z %%} {# c #} */", "// %s #include <x>\n", "/** %s \\n \\\" \\\\ \\x */", "/* %s http://x.y/z */", "/* %s // after */",
         "// %s \xe9 \u20ac \U0001f600\n"]
ITEMS = {"konst", "colour", "thing", "spanned", "parcel", "vault"}
# ranges are reached by their own name
ALIASES = {"extent": "begin"}
# what becomes of the comments before these is not documented
SILENT = {"cpp": {"begin"}, "rust": set(), "py": {"konst", "colour", "crimson", "indigo", "olive", "parcel", "vault"}}


def code_of(language, text):
    """(tokens of the code without comments, [(position, comment)])"""
    out, notes = [], []
    if language == "py":
        # documentation is in comments and in strings for documentation
        for t in tokenize.generate_tokens(io.StringIO(text).readline):
            if t.type == tokenize.COMMENT:
                notes.append((len(out), t.string))
            elif t.type not in (tokenize.NL, tokenize.NEWLINE, tokenize.INDENT, tokenize.DEDENT):
                if t.type == tokenize.STRING and t.string.startswith('"""') and "namespace" not in t.string and (out[-1:] == ["="] and out[-2].endswith("_DOC") or out[-1:] in ([":"], ["doc"])):
                    notes.append((len(out), ast.literal_eval(t.string)))
                    out.append("DOC")
                else:
                    out.append(t.string)
        return out, notes
    pattern = r'''(?P<note>//[^\n]*|/\*.*?\*/)|(?P<code>r\#*"(?:.*?)"\#*|R"(\w*)\(.*?\)\3"|"(?:\\.|[^"\\])*"|'(?:\\.|[^'\\])'|\w+|\S)|\s+'''
    for m in re.finditer(pattern, text, re.S):
        if m.lastgroup is None:
            continue
        if m.group("note") is not None:
            notes.append((len(out), m.group("note")))
        elif m.group("code") is not None:
            out.append(m.group("code"))
    return out, notes


def squeeze(name):
    return name.replace("_", "").lower()


class Docs:
    def __init__(self, only):
        self.only = only

    def __call__(self, part):
        vlib.repo_on_path()
        g.cache_templates()
        from flatdata.generator.engine import Engine
        bare = Engine(DOCUMENTED % dict.fromkeys(PLACES, ""))
        languages = ("cpp", "rust", "py", "flatdata", "go", "dot")
        plain = {}
        for l in languages:
            try:
                plain[l] = bare.render(l)
            except Exception:  # pylint: disable=broad-except
                continue
        out, count = [], 0
        for form, places in part:
            docs = dict.fromkeys(PLACES, "")
            words = {}
            for p in places:
                words[p] = "Qz%sqZ" % p
                docs[p] = form % words[p]
            text = DOCUMENTED % docs
            try:
                engine = Engine(text)
            except Exception as e:  # pylint: disable=broad-except
                out.append(("documentation %r at %s" % (form, places), "not accepted: %r" % (e,)))
                continue
            for l in plain:
                case = "documentation %r at %s in %s" % (form, places, l)
                if self.only is not None and case != self.only:
                    continue
                count += 1
                code = engine.render(l)
                if l in ("flatdata", "dot"):
                    if code != plain[l]:
                        out.append((case, "a comment changes the %s\n%s" % ("schema" if l == "flatdata" else "graph", code)))
                    continue
                if l == "go":
                    if code_of(l, code)[0] != code_of(l, plain[l])[0]:
                        out.append((case, "a comment changes the code"))
                    continue
                tokens, notes = code_of(l, code)
                base = code_of(l, plain[l])[0]
                if [t for t in tokens if t != "DOC"] != [t for t in base if t != "DOC"]:
                    first = next((i for i, (a, b) in enumerate(zip(tokens, base)) if a != b), min(len(tokens), len(base)))
                    out.append((case, "a comment changes the code at\n%s\ninstead of\n%s" % (" ".join(tokens[first:first + 30]), " ".join(base[first:first + 30]))))
                    continue
                for p in places:
                    found = [at for at, note in notes if words[p] in note]
                    if not found:
                        if p not in SILENT[l]:
                            out.append((case, "the comment of %s is not in the code" % p))
                        continue
                    # the next name of the same kind
                    names = {squeeze(n): n for q, n in NAMED.items() if (q in ITEMS) == (p in ITEMS)}
                    names.update(ALIASES if p not in ITEMS else {})
                    nexts = []
                    for at in found:
                        # in Python the string is inside of what it documents
                        nexts.append(next((names[squeeze(n)] for t in tokens[at:] for n in [t.strip("\"'").rpartition("quux_")[2]] if squeeze(n) in names), None))
                        if l == "py" and tokens[at:at + 1] == ["DOC"]:
                            back = [squeeze(re.sub(r"^_(\w+)_DOC$", r"\1", t).rpartition("quux_")[2]) for t in tokens[max(0, at - 8):at]]
                            nexts += [names[b] for b in back if b in names]
                    if NAMED[p] not in nexts:
                        out.append((case, "the comment of %s precedes %s" % (p, nexts)))
        return out, count


def body(check):
    check.rule = "every edit of the tokens and characters of schemas that use all of the language; every form of comments at every documented place; distinct: texts"
    check.assumptions = ["where comments are not documented (behind what they describe, inside of definitions) they may be rejected",
                         "whether references and values are right is not judged here (P18, P19, P20)", "numbers made of several zeros, a repeated @range or @optional may be rejected",
                         "documentation: C++ and Rust for all, Python for structures, fields and resources, as is the case in the templates"]
    shards, distinct = 32, 0
    for bad, n in vlib.parallel(Edits(check.thorough, check.only), [(i, shards) for i in range(shards)]):
        check.count(n)
        distinct += n
        for case, message in bad:
            check.fail(case, message)
    check.extra["distinct_nontrivial"] = distinct
    jobs = [(f, PLACES) for f in FORMS] + [(f, [p]) for p in PLACES for f in (FORMS if check.thorough else FORMS[4:6])]
    for bad, n in vlib.parallel(Docs(check.only), [jobs[i::8] for i in range(8)]):
        check.count(n)
        for case, message in bad:
            check.fail(case, message)
    check.sample("all: token 17 replaced by @optional")
    check.sample("small: comments '// c\\n' '/**/' before token 4")


if __name__ == "__main__":
    vlib.run_check(vlib.Check("P37", "exploration"), body)
