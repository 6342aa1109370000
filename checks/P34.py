"""P34: what Go reads from archives of all bounded contents and faults: generated code and runtime of the working tree."""
import base64
import itertools
import json
import os
import subprocess
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import vlib
import fixture as fx
import refmodel as rm
from golib import Go

A = rm.S("A", [("a", "u32", 7), ("b", "i16", 9), ("c", "bool", 1), ("d", "i32", 30)])
B = rm.S("B", [("x", "u8", 3), ("y", "u64", 64), ("z", "i64", 61)])
C = rm.S("C", [("l", "u16", 11)])
SCHEMA = """namespace n {
%s
%s
%s
archive Sub { v : vector< C >; @optional
o : raw_data; }
archive Arc {
    inst : A;
    vec : vector< B >;
    mv : multivector< 33, A, B, C >;
    raw : raw_data;
    sub : archive Sub;
    @optional
    oinst : C;
    @optional
    ovec : vector< A >;
    @optional
    omv : multivector< 16, B >;
    @optional
    oraw : raw_data;
}
}
""" % (A.text(), B.text(), C.text())
ORDER = ["inst", "vec", "mv", "raw", "sub", "oinst", "ovec", "omv", "oraw"]
OPTIONAL = {"oinst", "ovec", "omv", "oraw"}
TYPES = [A, B, C]
AS = [dict(a=1, b=-1, c=1, d=-5), dict(a=127, b=-256, c=0, d=(1 << 29) - 1), dict(a=0, b=255, c=0, d=-(1 << 29))]
BS = [dict(x=7, y=(1 << 64) - 1, z=-(1 << 60)), dict(x=0, y=1 << 63, z=(1 << 60) - 1), dict(x=5, y=1, z=-1)]
CS = [dict(l=0), dict(l=2047), dict(l=1024)]
VALUES = {"A": AS, "B": BS, "C": CS}
BASE = {"inst": AS[0], "vec": [BS[0], BS[1]], "mv": [[("A", 0), ("B", 0)], [], [("B", 1)]], "raw": b"xyz\0", "sub/v": CS[:2], "sub/o": b"o",
        "oinst": CS[1], "ovec": [AS[1]], "omv": [[("B", 0)], []], "oraw": b"\0"}
ERRORS = {"short": "invalid flatdata resource", "noschema": "can't open schema for resource", "emptyschema": "schema for resource is empty",
          "schema": "schemas didn't match"}


def files(content, schemas):
    out = {"Arc.archive": rm.frame(b""), "Arc.archive.schema": schemas["Arc"]}
    for name, data in content.items():
        schema = schemas[name.replace("sub/", "Sub.")]
        if name in ("inst", "oinst"):
            out[name] = rm.frame((A if name == "inst" else C).pack(data))
        elif name in ("vec", "ovec", "sub/v"):
            out[name] = rm.vector({"vec": B, "ovec": A, "sub/v": C}[name], data)
        elif name in ("mv", "omv"):
            structs = TYPES if name == "mv" else [B]
            lists = [[([s.name for s in structs].index(t), VALUES[t][k]) for t, k in item] for item in data]
            out[name + "_index"], out[name] = rm.multivector(structs, 33 if name == "mv" else 16, lists)
            out[name + "_index.schema"] = "index(%s)" % schema
        else:
            out[name] = rm.frame(data)
        out[name + ".schema"] = schema
    out["sub/Sub.archive"] = rm.frame(b"")
    out["sub/Sub.archive.schema"] = schemas["Sub"]
    return {k: v if isinstance(v, bytes) else v.encode() for k, v in out.items()}


def element(struct, values, position):
    show = {n: str(v) if t != "bool" else "true" if v else "false" for n, t, _w, _o in struct.fields for v in [values[n]]}
    text = '{"name": "%s", "position": %d, "attributes": {%s}}' % (struct.name, position, ",".join('"%s": %s' % kv for kv in show.items()))
    return dict(show, t=struct.name, s=json.loads(text))


def attributes(struct):
    return {"name": struct.name, "attributes": [{"name": n, "offset": o, "width": w, "is_signed": t[0] == "i"} for n, t, w, o in struct.fields]}


def elements(struct, values):
    return [element(struct, v, 8 + k * struct.size) for k, v in enumerate(values)]


def items(data, structs):
    out, position = [], 8
    for item in data:
        row = []
        for t, k in item:
            struct = {"A": A, "B": B, "C": C}[t]
            position += 1
            row.append(element(struct, VALUES[t][k], position))
            position += struct.size
        out.append(row)
    return out


def b64(data):
    return base64.b64encode(data).decode()


def expected(content, fs, deep, mode):
    """what the program has to print"""
    out = {"error": ""}
    sizes = {}
    for name in ORDER:
        p = {"optional": name in OPTIONAL, "open": name in content if name != "sub" else True}
        out[name] = p
        if name == "sub":
            if mode == "mem":
                p.update(v={"open": False}, o={"open": False})
                continue
            for q in ("v", "o"):
                p[q] = {"open": "sub/" + q in content}
            if "sub/v" in content:
                p["v"]["all"] = elements(C, content["sub/v"])
                sizes["sub/v"] = len(fs["sub/v"])
            if "sub/o" in content:
                p["o"]["value"] = b64(content["sub/o"])
                sizes["sub/o"] = len(fs["sub/o"])
            continue
        if name not in content:
            continue
        data = content[name]
        sizes[name] = len(fs[name])
        if name == "inst":
            p.update(value=element(A, data, 8), size=1, bytes=len(fs[name]), text={"container_type": "Instance", "size": 1, "size_in_bytes": len(fs[name]), "element_types": [attributes(A)]})
        elif name == "oinst":
            p.update(value=element(C, data, 8))
        elif name == "vec":
            every = elements(B, data)
            p.update(size=len(data), bytes=len(fs[name]), all=every,
                     text={"container_type": "Vector", "size": len(data), "size_in_bytes": len(fs[name]), "element_types": [attributes(B)]})
            if deep:
                n = len(data)
                p["slices"] = {"%d %d %d" % (i, j, k): every[i:j + 1:k] for i in range(n) for j in range(n) for k in range(1, 4)}
        elif name == "ovec":
            p.update(size=len(data), all=elements(A, data))
        elif name == "mv":
            index = rm.S("IndexType33", [("value", "u64", 33)])
            p.update(size=len(data), bytes=len(fs[name]), all=items(data, TYPES),
                     text={"container_type": "Multivector", "size": len(data), "size_in_bytes": len(fs[name]), "element_types": [attributes(t) for t in TYPES], "index_type": attributes(index)})
        elif name == "omv":
            p.update(size=len(data), all=items(data, [B]))
        elif name == "raw":
            p.update(size=len(data), bytes=len(fs[name]), value=b64(data), text={"container_type": "RawData", "size": len(data), "size_in_bytes": len(fs[name]), "element_types": []})
        else:
            p.update(value=b64(data))
    out["bytes"] = sum(sizes.values())
    out["close"] = " ".join(["false"] * 8)
    return out


def tidy(got):
    """texts that are JSON are parsed; the entry of a multivector for its sentinel is judged once (known finding)"""
    if isinstance(got, dict):
        out = {}
        for k, v in got.items():
            if k in ("s", "text") and isinstance(v, str) and not v.startswith("panics"):
                try:
                    v = json.loads(v)
                except ValueError:
                    v = "no JSON: " + v
            out[k] = tidy(v)
        return out
    return [tidy(x) for x in got] if isinstance(got, list) else got


def without_sentinel(got):
    for name in ("mv", "omv"):
        p = got.get(name, {})
        if p.get("open") and isinstance(p.get("size"), int) and p.get("all") and p["all"][-1] == [] and p["size"] == len(p["all"]):
            p["size"] -= 1
            p["all"].pop()
            if isinstance(p.get("text"), dict):
                p["text"]["size"] -= 1
    return got


def first_difference(want, got, path=""):
    if isinstance(want, dict) and isinstance(got, dict):
        for k in sorted(set(want) | set(got)):
            if want.get(k) != got.get(k):
                return first_difference(want.get(k), got.get(k), path + "/" + k)
    if isinstance(want, list) and isinstance(got, list) and len(want) == len(got):
        for i, (x, y) in enumerate(zip(want, got)):
            if x != y:
                return first_difference(x, y, "%s/%d" % (path, i))
    return "%s: %s instead of %s" % (path or "result", json.dumps(got), json.dumps(want))


def cases(thorough):
    """(name, content, faults, deep)"""
    yield "complete", BASE, {}, True
    n = 3
    for length in range(5 if thorough else 4):
        for pick in itertools.product(range(n), repeat=length):
            yield "vec %s" % "".join(map(str, pick)), dict(BASE, vec=[BS[k] for k in pick], ovec=[AS[k] for k in pick], **{"sub/v": [CS[k] for k in pick]}), {}, length < 4
    for length in (7, 8, 9, 31, 32, 33, 255, 256, 257):
        yield "vec of %d" % length, dict(BASE, vec=[BS[k % 3] for k in range(length)]), {}, length < 10
    for k in range(n):
        for m in range(n):
            yield "inst %d %d" % (k, m), dict(BASE, inst=AS[k], oinst=CS[m]), {}, False
    kinds = [()] + [(x,) for x in "ABC"] + list(itertools.permutations("ABC", 2)) + list(itertools.permutations("ABC", 3))
    for length in range(5 if thorough else 4):
        for pick in itertools.product(kinds, repeat=length):
            data = [[(t, (k + i) % 3) for i, t in enumerate(item)] for k, item in enumerate(pick)]
            yield "mv %s" % ",".join("".join(i) or "-" for i in pick), dict(BASE, mv=data, omv=[[e for e in i if e[0] == "B"] for i in data]), {}, False
    for length in range(5 if thorough else 4):
        for pick in itertools.product((0, 10, 255), repeat=length):
            yield "raw %s" % bytes(pick).hex(), dict(BASE, raw=bytes(pick), oraw=bytes(pick), **{"sub/o": bytes(pick)}), {}, False
    # every set of resources that are absent
    names = sorted(BASE)
    for bits in range(1, 1 << len(names)):
        gone = [x for i, x in enumerate(names) if bits >> i & 1]
        yield "absent %s" % " ".join(gone), {k: v for k, v in BASE.items() if k not in gone}, {}, False
    yield "known: two elements of a type in an item", dict(BASE, mv=[[("A", 0), ("A", 1)]]), {}, False
    yield "known: size of a multivector", BASE, {}, False
    yield "known: absent resource printed", {k: v for k, v in BASE.items() if k != "oraw"}, {}, False
    # every fault of every file
    for name in ("inst", "vec", "mv", "mv_index", "raw", "sub/v", "sub/o", "oinst", "ovec", "omv", "omv_index", "oraw"):
        for length in range(16):
            yield "short %s %d" % (name, length), BASE, {name: ("short", length)}, False
        yield "noschema %s" % name, BASE, {name: ("noschema", 0)}, False
        yield "emptyschema %s" % name, BASE, {name: ("emptyschema", 0)}, False
        if not name.endswith("_index"):
            size = 1000 if thorough else 60
            for k in range(-size, size):
                yield "schema %s %d" % (name, k), BASE, {name: ("schema", k)}, False


def body(check):
    check.rule = ("all vectors, items, raw data and instances of bounded sizes over an alphabet of extremes, every subset of absent resources, every fault of every "
                  "file, from files and from memory; distinct: results")
    check.assumptions = ["the subset of schemas the Go back end (beta) supports", "golang.org/x/exp/mmap is replaced by a stand-in that reads the file",
                         "sizes in files of at least 16 bytes are right (the Go runtime does not look at them)", "the schema of an index is not compared",
                         "an archive in memory has no subarchives", "printing of whole archives is judged where no resource is absent, elements of an item have different types (known findings)"]
    module = vlib.python_module(SCHEMA)
    schemas = {"Arc": module.n_Arc.schema(), "Sub": module.n_Sub.schema()}
    schemas.update({r: module.n_Arc.resource_schema(r) for r in BASE if "/" not in r})
    schemas.update({"Sub." + r: module.n_Sub.resource_schema(r) for r in "vo"})
    with vlib.scratch() as root:
        go = Go(root)
        with open(os.path.join(vlib.VERIF, "go", "reader.go")) as f:
            text = f.read()
        exe, errors = go.compile("reader", text, [("reader/n", "n.go", vlib.render(SCHEMA, "go"))])
        if not exe:
            check.fail("go", "does not compile:\n" + errors)
            return
        todo = []
        for number, (name, content, faults, deep) in enumerate(cases(check.thorough)):
            fs = files(content, schemas)
            error = None
            for f, (kind, k) in faults.items():
                error = ERRORS[kind]
                if kind == "short":
                    fs[f] = fs[f][:k]
                elif kind == "noschema":
                    del fs[f + ".schema"]
                elif kind == "emptyschema":
                    fs[f + ".schema"] = b""
                else:
                    s = fs[f + ".schema"]
                    at = k % len(s)
                    fs[f + ".schema"] = s[:at] + (b"" if k % 2 else bytes([s[at] ^ 1])) + s[at + 1:]
            for mode in ("file", "mem"):
                case = "%s %s" % (mode, name)
                if not check.wants(case) or mode == "mem" and any("sub/" in f for f in faults):
                    continue
                here = dict(content)
                want = {"error": error} if error else expected(here, fs, deep, mode)
                todo.append((case, mode, fs, deep, want, len(faults) or any(x not in content for x in BASE)))
        # missing subarchives: Go goes on
        def part(chunk):
            lines = []
            for k, (case, mode, fs, deep, _want, _incomplete) in enumerate(chunk):
                path = os.path.join(root, "data", case.replace("/", "_").replace(" ", "_")[:150] + str(abs(hash(case))))
                if mode == "file":
                    fx.write_dir(path, fs)
                lines.append(json.dumps({"Mode": mode, "Path": os.path.join(path, "Arc.archive"), "Deep": deep, "Files": {k: b64(v) for k, v in fs.items()} if mode == "mem" else {}}))
            r = subprocess.run([exe], input="\n".join(lines) + "\n", stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=600)
            vlib.shutil.rmtree(os.path.join(root, "data"), ignore_errors=True)
            return r
        for at in range(0, len(todo), 2000):
            chunk = todo[at:at + 2000]
            r = part(chunk)
            answers = r.stdout.splitlines()
            for (case, mode, fs, deep, want, incomplete), line in zip(chunk, answers):
                check.count()
                got = tidy(json.loads(line))
                text, got_text = None, got.pop("text", None)
                if case.endswith("size of a multivector"):
                    if got["mv"]["size"] != want["mv"]["size"]:
                        check.fail(case, "GetSize() is %s for %d items" % (got["mv"]["size"], want["mv"]["size"]))
                    continue
                if case.endswith("absent resource printed"):
                    if not isinstance(got_text, dict):
                        check.fail(case, "ToString(): %s" % got_text)
                    continue
                got = without_sentinel(got)
                check.nontrivial(line)
                if got != want:
                    check.fail(case, first_difference(want, got))
                    continue
                if not incomplete and mode == "file":
                    parts = [got[x].get("text") for x in ORDER]
                    shape = (isinstance(got_text, dict) and got_text.get("name") == "Arc" and got_text.get("container_type") == "Archive" and got_text.get("size_in_bytes") == want["bytes"]
                             and len(got_text.get("resources", ())) == len(ORDER) and got_text["resources"][4].get("name") == "Sub"
                             and all(x["container_type"] == y["container_type"] and x["size"] == (y["size"] + 1 if y["container_type"] == "Multivector" else y["size"])
                                     for x, y in zip(got_text["resources"], parts) if y))
                    if not shape:
                        check.fail(case, "prints %s" % json.dumps(got_text)[:2000])
            if r.returncode or len(answers) != len(chunk):
                check.fail(chunk[min(len(answers), len(chunk) - 1)][0], "ends with %s\n%s" % (r.returncode, r.stderr[-2000:]))
    check.sample("file mv AB,-,C: three items, Get() of each, positions, printed JSON")
    check.sample("mem short mv_index 15 -> invalid flatdata resource")


if __name__ == "__main__":
    vlib.run_check(vlib.Check("P34", "exploration"), body)
