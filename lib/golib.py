"""Builds Go programs against the Go runtime and the generated code of /repo's working tree, offline (GOPATH mode).
golang.org/x/exp/mmap, which is not available offline, is replaced by a stand-in that reads the file."""
import os
import shutil
import subprocess
import vlib

_MMAP = '''package mmap
import ("errors"; "io/ioutil"; "io")
type ReaderAt struct { data []byte }
func Open(filename string) (*ReaderAt, error) {
	data, err := ioutil.ReadFile(filename)
	if err != nil { return nil, err }
	return &ReaderAt{data}, nil
}
func (r *ReaderAt) Close() error { if r.data == nil { return nil }; r.data = nil; return nil }
func (r *ReaderAt) Len() int { return len(r.data) }
func (r *ReaderAt) At(i int) byte { return r.data[i] }
func (r *ReaderAt) ReadAt(p []byte, off int64) (int, error) {
	if r.data == nil { return 0, errors.New("mmap: closed") }
	if off < 0 || int64(len(r.data)) < off { return 0, errors.New("mmap: invalid ReadAt offset") }
	n := copy(p, r.data[off:])
	if n < len(p) { return n, io.EOF }
	return n, nil
}
'''


class Go:
    def __init__(self, directory):
        self.dir = os.path.join(directory, "gopath")
        src = os.path.join(self.dir, "src")
        os.makedirs(os.path.join(src, "golang.org/x/exp/mmap"))
        with open(os.path.join(src, "golang.org/x/exp/mmap/mmap.go"), "w") as f:
            f.write(_MMAP)
        lib = os.path.join(src, "github.com/heremaps/flatdata/flatdata-go/flatdata")
        os.makedirs(lib)
        origin = os.path.join(vlib.REPO, "flatdata-go", "flatdata")
        for name in sorted(os.listdir(origin)):
            if name.endswith(".go") and not name.endswith("_test.go"):
                shutil.copy(os.path.join(origin, name), lib)
        self.src = src
        self.env = dict(os.environ, GO111MODULE="off", GOPATH=self.dir, GOCACHE=os.path.join(self.dir, "cache"),
                        GOFLAGS="", GOTOOLCHAIN="local", HOME=self.dir, GOENV="off")

    def compile(self, name, main, packages=()):
        """packages: (import path, file name, text). Returns (executable, None) or (None, compiler output)."""
        for path, fname, text in list(packages) + [(name + "/main", "main.go", main)]:
            d = os.path.join(self.src, path)
            os.makedirs(d, exist_ok=True)
            with open(os.path.join(d, fname), "w") as f:
                f.write(text)
        exe = os.path.join(self.dir, name + ".exe")
        r = subprocess.run(["go", "build", "-o", exe, name + "/main"], env=self.env, cwd=self.src,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=300)
        if r.returncode != 0:
            return None, r.stdout[-6000:]
        return exe, None
