"""String literals of generated code (decoded; adjacent C++ literals are joined)."""
import re

_ESC = {"n": "\n", "t": "\t", "\\": "\\", '"': '"', "'": "'", "r": "\r", "0": "\0"}


def _unescape(s):
    return re.sub(r"\\(.)", lambda m: _ESC.get(m.group(1), m.group(0)), s, flags=re.S)


_CPP = re.compile(r'//[^\n]*|/\*.*?\*/|(?P<raw>R"(?P<d>[^(\s]*)\((?P<rb>.*?)\)(?P=d)")|(?P<str>"(?P<sb>(?:\\.|[^"\\])*)")'
                  r"|'(?:\\.|[^'\\])'|\s+|.", re.S)
_RUST = re.compile(r'//[^\n]*|/\*.*?\*/|(?P<raw>r(?P<d>#*)"(?P<rb>.*?)"(?P=d))|(?P<str>"(?P<sb>(?:\\.|[^"\\])*)")'
                   r"|'(?:\\.|[^'\\])'|\s+|.", re.S)
_GO = re.compile(r'//[^\n]*|/\*.*?\*/|(?P<raw>`(?P<d>)(?P<rb>[^`]*)`)|(?P<str>"(?P<sb>(?:\\.|[^"\\])*)")'
                 r"|'(?:\\.|[^'\\])'|\s+|.", re.S)


def literals(code, language):
    out, join = [], False
    for m in {"cpp": _CPP, "rust": _RUST, "go": _GO}[language].finditer(code):
        text = m.group(0)
        if m.group("raw") or m.group("str"):
            value = m.group("rb") if m.group("raw") else _unescape(m.group("sb"))
            if join and language == "cpp":
                out[-1] += value
            else:
                out.append(value)
            join = True
        elif not (text.isspace() or text.startswith(("//", "/*"))):
            join = False
    return out
