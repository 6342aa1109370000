// P38: every sequence of operations on handles of archives (see checks/P38.py).
// args: mode(mem|dir|tar) depth part parts directory current-file [sequence]
mod generated { #![allow(warnings)] include!("generated.rs"); }
mod wide { #![allow(warnings)] include!("wide.rs"); }
use generated::n;
use flatdata::{FileResourceStorage, MemoryResourceStorage, StorageHandle, TarArchiveResourceStorage};
use std::alloc::{GlobalAlloc, Layout, System};
use std::collections::{BTreeMap, HashSet};
use std::fs;
use std::io::{Seek, SeekFrom, Write};
use std::path::Path;

// freed memory is overwritten: what still refers to it reads something else
struct Overwrite;
unsafe impl GlobalAlloc for Overwrite {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { std::ptr::write_bytes(p, 0xdd, l.size()); System.dealloc(p, l) }
}
#[global_allocator]
static ALLOCATOR: Overwrite = Overwrite;

fn a(e: &n::A) -> String { format!("{},{},{},{}", e.a(), e.b(), e.c(), e.d()) }
fn b(e: &n::B) -> String { format!("{},{},{}", e.x(), e.y(), e.z()) }
fn list<T>(v: &[T], f: fn(&T) -> String) -> String { format!("[{}]", v.iter().map(f).collect::<Vec<_>>().join(";")) }
fn opt<T>(v: Option<T>, f: impl Fn(T) -> String) -> String { v.map(f).unwrap_or("-".to_string()) }
fn sub(s: &n::Sub) -> String { format!("v={}\to={}", list(s.v(), a), opt(s.o(), |r| format!("{:?}", r.as_bytes()))) }
fn text(x: &n::Arc) -> String {
    let mv = (0..x.mv().len()).map(|i| x.mv().at(i).map(|r| match r { n::MvRef::A(e) => a(e), n::MvRef::B(e) => b(e) }).collect::<Vec<_>>().join(";")).collect::<Vec<_>>().join("|");
    let omv = opt(x.omv(), |m| (0..m.len()).map(|i| m.at(i).map(|r| match r { n::OmvRef::B(e) => b(e) }).collect::<Vec<_>>().join(";")).collect::<Vec<_>>().join("|"));
    format!("inst={}\toinst={}\tvec={}\tovec={}\tmv={}\tomv={}\traw={:?}\toraw={}\tsub={}\tosub={}\tdebug={}", a(x.inst()), opt(x.oinst(), b), list(x.vec(), b), opt(x.ovec(), |v| list(v, a)), mv, omv,
        x.raw().as_bytes(), opt(x.oraw(), |r| format!("{:?}", r.as_bytes())), sub(x.sub()), opt(x.osub(), sub), format!("{:?}", x).replace('\t', " "))
}

struct Given { mode: String, root: String, live: String, directory: String, texts: Vec<String>, files: Vec<BTreeMap<String, Vec<u8>>>, tars: Vec<Vec<u8>> }

fn collect(base: &Path, rel: &str, out: &mut BTreeMap<String, Vec<u8>>) {
    for e in fs::read_dir(base.join(rel)).unwrap() {
        let e = e.unwrap();
        let name = format!("{}{}", rel, e.file_name().into_string().unwrap());
        if e.file_type().unwrap().is_dir() { collect(base, &format!("{}/", name), out) } else { out.insert(name, fs::read(e.path()).unwrap()); }
    }
}

#[derive(Default)]
struct World {
    s: Option<StorageHandle>, fresh: bool, s_gen: i32, flip: usize, at: i32,
    a: Option<n::Arc>, b: Option<n::Arc>, c: Option<n::Sub>, wa: String, wb: String, wc: String, error: String,
}

impl Given {
    fn write(&self, s: &StorageHandle, gen: usize) {
        for (name, data) in &self.files[gen] {
            if name.ends_with(".schema") { continue }
            let schema = String::from_utf8(self.files[gen][&format!("{}.schema", name)].clone()).unwrap();
            let payload = &data[8..data.len() - 8];
            match name.split_once('/') {
                Some((d, leaf)) => s.subdir(d).write(leaf, &schema, payload).unwrap(),
                None => s.write(name, &schema, payload).unwrap(),
            }
        }
    }
    fn put(&self, x: &mut World, gen: i32) {
        if x.at >= 0 { if self.mode == "dir" { fs::remove_dir_all(&self.live).unwrap() } else { fs::remove_file(&self.live).unwrap() } }
        x.at = gen;
        if gen < 0 { return }
        if self.mode == "tar" { fs::write(&self.live, &self.tars[gen as usize]).unwrap(); return }
        for d in ["", "/sub", "/osub"] { fs::create_dir(format!("{}{}", self.live, d)).unwrap() }
        for (name, data) in &self.files[gen as usize] { fs::write(format!("{}/{}", self.live, name), data).unwrap() }
    }
    fn open(&self, x: &mut World, threaded: bool) -> (Option<n::Arc>, String) {
        let s = x.s.clone().unwrap();
        let got = if threaded { std::thread::spawn(move || n::Arc::open(s)).join().unwrap() } else { n::Arc::open(s) }.ok();
        let t = opt(got.as_ref(), text);
        let certain = if self.mode != "dir" { x.s_gen } else if x.fresh { x.s_gen = x.at; x.at } else if x.s_gen == x.at { x.at } else { -2 };
        x.fresh = false;
        if certain == -2 {
            x.s_gen = -2;
            // of a storage that was read before the archive was replaced: each resource is of the one or of the other
            let parts = |t: &String| t.split('\t').filter(|p| !p.starts_with("debug=")).map(|p| p.to_string()).collect::<Vec<_>>();
            let known: HashSet<String> = self.texts.iter().flat_map(parts).collect();
            if t != "-" { if let Some(bad) = parts(&t).into_iter().find(|p| !known.contains(p)) { x.error = format!("opened by a storage that was read before: {}", bad) } }
            return (got, t);
        }
        let want = if certain < 0 { "-".to_string() } else { self.texts[certain as usize].clone() };
        if t != want { x.error = format!("opening gives {} instead of {}", t, want) }
        (got, want)
    }
    fn apply(&self, x: &mut World, op: char) -> bool {
        match op {
            's' => {
                if x.s.is_some() { return false }
                x.fresh = true;
                x.s_gen = if self.mode == "mem" { x.flip as i32 } else { x.at };
                x.s = match &self.mode[..] {
                    "mem" => { let s: StorageHandle = MemoryResourceStorage::new("/root"); self.write(&s, x.flip); x.flip ^= 1; Some(s) }
                    "dir" => Some(FileResourceStorage::new(&self.live)),
                    _ => TarArchiveResourceStorage::new(&self.live).ok().map(|s| -> StorageHandle { s }),
                };
                if x.s.is_some() != (x.at >= 0 || self.mode != "tar") { x.error = "storage".to_string() }
            }
            'x' => if x.s.take().is_none() { return false },
            'o' | 'O' => { if x.s.is_none() || (op == 'O' && x.a.is_some()) { return false } let (v, t) = self.open(x, op == 'O'); x.a = v; x.wa = t; }
            'p' => { if x.s.is_none() { return false } let (v, t) = self.open(x, false); x.b = v; x.wb = t; }
            'c' => { if x.a.is_none() { return false } x.b = x.a.clone(); x.wb = x.wa.clone(); }
            'n' => { if x.b.is_none() { return false } x.a.clone_from(&x.b); x.wa = x.wb.clone(); }
            'm' => { if x.a.is_none() { return false } x.b = x.a.take(); x.wb = std::mem::replace(&mut x.wa, "-".to_string()); }
            'w' => { if x.a.is_none() && x.b.is_none() { return false } std::mem::swap(&mut x.a, &mut x.b); std::mem::swap(&mut x.wa, &mut x.wb); }
            'd' => { if x.a.take().is_none() { return false } x.wa = "-".to_string(); }
            'e' => { if x.b.take().is_none() { return false } x.wb = "-".to_string(); }
            't' => { let v = match x.a.take() { None => return false, Some(v) => v }; x.a = Some(std::thread::spawn(move || { text(&v); *Box::new(v) }).join().unwrap()); }
            'u' => { match &x.a { None => return false, Some(v) => { x.c = Some(v.sub().clone()); x.wc = sub(v.sub()); } } }
            'v' => { match x.b.as_ref().and_then(|v| v.osub()) { None => return false, Some(v) => { x.wc = sub(v); x.c = Some(v.clone()); } } }
            'f' => { if x.c.take().is_none() { return false } x.wc = "-".to_string(); }
            'r' => {
                if self.mode != "mem" { let g = if x.at == 0 { 1 } else { 0 }; self.put(x, g) }
                else { let s = match x.s.clone() { None => return false, Some(s) => s }; x.s_gen ^= 1; self.write(&s, x.s_gen as usize); }
            }
            'k' => { if self.mode == "mem" || x.at < 0 { return false } self.put(x, -1) }
            _ => return false,
        }
        true
    }
    fn files_open(&self) -> usize {
        let maps = fs::read_to_string("/proc/self/maps").unwrap().lines().filter(|l| l.contains(&self.root)).count();
        maps + fs::read_dir("/proc/self/fd").unwrap().filter(|e| e.as_ref().ok().and_then(|e| fs::read_link(e.path()).ok()).map(|t| t.to_string_lossy().contains(&self.root)).unwrap_or(false)).count()
    }
    fn run(&self, seq: &str, counts: &mut (usize, usize, HashSet<String>), current: &mut fs::File) -> bool {
        current.seek(SeekFrom::Start(0)).unwrap();
        current.write_all(format!("{} {}\0", self.mode, seq).as_bytes()).unwrap();
        let mut x = World { at: -1, wa: "-".to_string(), wb: "-".to_string(), wc: "-".to_string(), ..Default::default() };
        if self.mode != "mem" { self.put(&mut x, 0) }
        let mut valid = true;
        for op in seq.chars() { if valid && x.error.is_empty() { valid = self.apply(&mut x, op) } }
        if valid {
            counts.0 += 1;
            counts.2.insert(format!("{}{}{}{}|{}|{}|{}", x.s.is_some(), x.fresh, x.s_gen, x.at, x.wa, x.wb, x.wc));
            let first = counts.0 % 2 == 0;
            let mut look = |x: &mut World, when: &str| {
                counts.1 += 3;
                for (what, got, want) in [("a", opt(x.a.as_ref(), text), &x.wa), ("b", opt(x.b.as_ref(), text), &x.wb), ("c", opt(x.c.as_ref(), sub), &x.wc)] {
                    if got != *want && x.error.is_empty() { x.error = format!("{} {} reads {} instead of {}", when, what, got, want) }
                }
            };
            look(&mut x, "now");
            if first { x.s = None; }
            x.a = None; x.wa = "-".to_string();
            look(&mut x, "when a ended");
            x.b = None; x.wb = "-".to_string();
            look(&mut x, "when the archives ended");
            x.c = None;
            x.s = None;
            if self.mode != "mem" && self.files_open() > 0 && x.error.is_empty() { x.error = "files are still open or mapped at the end".to_string() }
            if !x.error.is_empty() { println!("FAIL|{} {}|{}", self.mode, seq, x.error.replace('\n', ";")); valid = false; }
        }
        let _ = self.directory;
        if self.mode != "mem" { x.a = None; x.b = None; x.c = None; x.s = None; self.put(&mut x, -1) }
        valid
    }
    fn explore(&self, seq: &str, depth: usize, part: usize, parts: usize, number: &mut usize, counts: &mut (usize, usize, HashSet<String>), current: &mut fs::File) {
        if seq.len() == depth { return }
        for op in "sxoOpcnmwdetuvfrk".chars() {
            if seq.is_empty() && !"srk".contains(op) { continue }
            if seq.len() == 2 { *number += 1; if *number % parts != part { continue } }
            let next = format!("{}{}", seq, op);
            if self.run(&next, counts, current) { self.explore(&next, depth, part, parts, number, counts, current) }
        }
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args[1] == "read" {
        for line in std::io::stdin().lines() {
            let line = line.unwrap();
            let (kind, path) = line.split_once(' ').unwrap();
            if kind == "wide" {
                let s = FileResourceStorage::new(path);
                let wide = wide::w::Wide::open(s.clone());
                for _ in 0..3 { let _ = wide::w::Wide::open(s.clone()); }
                drop(s);
                println!("{}", match wide { Err(e) => format!("error {:?}", e), Ok(wide) => { let v: Vec<u32> = include!("wide_inc.rs"); v.iter().map(|x| format!("{} ", x)).collect::<String>() } });
                continue
            }
            let s = if kind == "dir" { Ok(FileResourceStorage::new(path) as StorageHandle) } else { TarArchiveResourceStorage::new(path).map(|s| -> StorageHandle { s }) };
            println!("{}", match s { Err(e) => format!("nothing {}", e), Ok(s) => format!("{} {} {} {}", match n::Arc::open(s.clone()) { Ok(a) => text(&a), Err(e) => format!("error {:?}", e) },
                s.subdir("nowhere").exists("v"), s.exists("nothing"), s.read("none", "schema").is_ok()) }.replace('\n', ";"));
        }
        return
    }
    let (mode, depth, part, parts, directory) = (args[1].clone(), args[2].parse().unwrap(), args[3].parse().unwrap(), args[4].parse().unwrap(), args[5].clone());
    let root = format!("{}/r{}{}", directory, mode, part);
    fs::create_dir(&root).unwrap();
    let mut current = fs::File::create(&args[6]).unwrap();
    let mut g = Given { live: format!("{}/live", root), mode, root, directory: directory.clone(), texts: vec![], files: vec![], tars: vec![] };
    for k in 0..2 {
        let base = format!("{}/g{}", directory, k);
        let mut files = BTreeMap::new();
        collect(Path::new(&base), "", &mut files);
        g.files.push(files);
        g.tars.push(fs::read(format!("{}.tar", base)).unwrap());
        match n::Arc::open(FileResourceStorage::new(base)) { Ok(a) => g.texts.push(text(&a)), Err(e) => { println!("FAIL|{}|archive {} does not open: {}", g.mode, k, e); return } }
    }
    if g.texts[0] == g.texts[1] { println!("FAIL|{}|both archives read the same", g.mode); return }
    let mut counts = (0, 0, HashSet::new());
    if args.len() > 7 { g.run(&args[7], &mut counts, &mut current); }
    else { g.explore("", depth, part, parts, &mut 0, &mut counts, &mut current) }
    println!("COUNT {} {} {}", counts.0, counts.1, counts.2.len());
}
