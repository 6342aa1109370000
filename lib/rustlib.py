"""Builds the Rust runtime of /repo's working tree offline and runs programs against it.
The only dependency that is not available offline (`diff`, used for the text of schema mismatches) is replaced
by a stand-in of the same interface."""
import os
import shutil
import subprocess
import vlib

_DIFF = '''//! stand-in of the diff crate: every line of both texts, without looking for common ones
pub enum Result<T> { Left(T), Both(T, T), Right(T) }
pub fn lines<'a>(left: &'a str, right: &'a str) -> Vec<Result<&'a str>> {
    let (l, r): (Vec<_>, Vec<_>) = (left.lines().collect(), right.lines().collect());
    if l == r { return l.into_iter().zip(r).map(|(a, b)| Result::Both(a, b)).collect(); }
    l.into_iter().map(Result::Left).chain(r.into_iter().map(Result::Right)).collect()
}
'''


class Rust:
    def __init__(self, directory):
        self.dir = os.path.join(directory, "rust")
        stub = os.path.join(self.dir, "diff")
        os.makedirs(os.path.join(stub, "src"))
        os.makedirs(os.path.join(self.dir, "fd"))
        with open(os.path.join(stub, "Cargo.toml"), "w") as f:
            f.write('[package]\nname = "diff"\nversion = "0.1.13"\nedition = "2018"\n')
        with open(os.path.join(stub, "src", "lib.rs"), "w") as f:
            f.write(_DIFF)
        fd = os.path.join(self.dir, "fd")
        with open(os.path.join(fd, "Cargo.toml"), "w") as f:
            f.write('[package]\nname = "flatdata"\nversion = "0.5.8"\nedition = "2018"\n'
                    '[lib]\npath = "%s/flatdata-rs/lib/src/lib.rs"\n[features]\ndefault = ["tar"]\ntar = ["dep:tar"]\n'
                    '[dependencies]\ndiff = { path = "../diff" }\nmemmap2 = "0.9.4"\nwalkdir = "2.2.9"\n'
                    'tar = { version = "0.4.38", optional = true }\n[workspace]\n'
                    % vlib.REPO)
        env = dict(os.environ, RUSTFLAGS="--cap-lints warn", CARGO_TARGET_DIR=os.path.join(self.dir, "target"),
                   CARGO_NET_OFFLINE="true")
        r = subprocess.run(["cargo", "build", "--offline", "-q"], cwd=fd, env=env, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True, timeout=300)
        if r.returncode != 0:
            raise RuntimeError("building the Rust library failed:\n" + r.stdout[-6000:])
        self.target = os.path.join(self.dir, "target", "debug")

    def compile(self, name, code, flags=(), modules=()):
        """modules: (file name, text). Returns (executable, None) or (None, compiler output)."""
        d = os.path.join(self.dir, "prog_" + name)
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        for fname, text in list(modules) + [("main.rs", code)]:
            with open(os.path.join(d, fname), "w") as f:
                f.write(text)
        exe = os.path.join(d, "main")
        r = subprocess.run(
            ["rustc", "--edition", "2018", "--cap-lints", "allow", "-C", "debug-assertions=on", "-C", "debuginfo=0",
             "-C", "incremental=" + d, "--extern",
             "flatdata=" + os.path.join(self.target, "libflatdata.rlib"), "-L", os.path.join(self.target, "deps"),
             *flags, "-o", exe, os.path.join(d, "main.rs")],
            stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=600)
        if r.returncode != 0:
            return None, r.stdout[-6000:]
        return exe, None
