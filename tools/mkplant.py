"""tools/mkplant.py SPEC.py: creates seeded/<id>/ from specs: a list PLANTS of dicts
id, property, edits [(file, old, new)], demo (shell text, or (python text)), needs, breaks, files {name: text}"""
import difflib
import json
import os
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def head(path):
    return subprocess.check_output(["git", "-C", "/repo", "show", "HEAD:" + path], text=True)


spec = {}
exec(open(sys.argv[1]).read(), spec)
for p in spec["PLANTS"]:
    if len(sys.argv) > 2 and p["id"] not in sys.argv[2:]:
        continue
    d = os.path.join(VERIF, "seeded", p["id"])
    os.makedirs(d, exist_ok=True)
    texts = {}
    for path, old, new in p["edits"]:
        s = texts.get(path) or head(path)
        if s.count(old) != 1:
            raise SystemExit("%s: %d occurrences in %s of %r" % (p["id"], s.count(old), path, old))
        texts[path] = s.replace(old, new)
    diff = ""
    for path, s in texts.items():
        diff += "diff --git a/%s b/%s\n" % (path, path)
        for line in difflib.unified_diff(head(path).splitlines(True), s.splitlines(True), "a/" + path, "b/" + path):
            diff += line if line.endswith("\n") else line + "\n\\ No newline at end of file\n"
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    demo = p["demo"]
    files = dict(p.get("files", {}))
    kind = p.get("kind", "sh")
    if kind == "py":
        files["demo.py"] = demo
        demo = 'exec env PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=/repo/flatdata-generator:/repo/flatdata-py /opt/venv/bin/python -B -W ignore "$(dirname "$0")/demo.py"\n'
    elif kind == "cpp":
        files["demo.cpp"] = demo
        gen = ""
        if "schema" in p:
            files["s.flatdata"] = p["schema"]
            gen = ('PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=/repo/flatdata-generator /opt/venv/bin/python -B -W ignore -c "from flatdata.generator.app import main; main()" '
                   '-g cpp -s "$here/s.flatdata" -O "$w/s.hpp" >/dev/null || exit 3\n')
        demo = ('here=$(cd "$(dirname "$0")" && pwd)\nw=$(mktemp -d /tmp/demo.XXXXXX)\ntrap \'rm -rf "$w"\' EXIT\n' + gen +
                'g++ -std=c++17 -g %s -I"$w" -I/repo/flatdata-cpp/include "$here/demo.cpp" /repo/flatdata-cpp/src/*.cpp -o "$w/demo" '
                '-lboost_filesystem -lboost_system -lpthread || exit 3\ncd "$w" && timeout 120 ./demo "$w"\n' % p.get("flags", "-O1"))
    elif kind == "rust":
        files["demo.rs"] = demo
        files["s.flatdata"] = p["schema"]
        files["diff.rs"] = """pub enum Result<T> { Left(T), Both(T, T), Right(T) }
pub fn lines<'a>(left: &'a str, right: &'a str) -> Vec<Result<&'a str>> {
    left.lines().map(Result::Left).chain(right.lines().map(Result::Right)).collect()
}
"""
        demo = r'''here=$(cd "$(dirname "$0")" && pwd)
w=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf "$w"' EXIT
mkdir -p "$w/diff/src" "$w/src" "$w/data"
cp "$here/diff.rs" "$w/diff/src/lib.rs"
cp "$here/demo.rs" "$w/src/main.rs"
printf '[package]\nname = "diff"\nversion = "0.1.13"\nedition = "2018"\n' > "$w/diff/Cargo.toml"
cp -r /repo/flatdata-rs/lib "$w/flatdata"
printf '[package]\nname = "demo"\nversion = "0.1.0"\nedition = "2018"\n[dependencies]\nflatdata = { path = "flatdata", features = ["tar"] }\n[patch.crates-io]\ndiff = { path = "diff" }\n[workspace]\n[profile.dev]\nopt-level = 1\n' > "$w/Cargo.toml"
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=/repo/flatdata-generator /opt/venv/bin/python -B -W ignore -c "from flatdata.generator.app import main; main()" \
    -g rust -s "$here/s.flatdata" -O "$w/src/s.rs" >/dev/null || exit 3
cd "$w" && RUSTFLAGS="--cap-lints warn" CARGO_TARGET_DIR="$w/target" cargo build --offline -q 2> "$w/log" || { cat "$w/log"; exit 3; }
timeout 150 "$w/target/debug/demo" "$w/data"
'''
    open(os.path.join(d, "demo.sh"), "w").write("#!/bin/bash\n" + demo)
    for name, text in files.items():
        open(os.path.join(d, name), "w").write(text)
    json.dump({"property": p["property"], "needs": p["needs"], "what_it_breaks": p["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
    print(p["id"])
