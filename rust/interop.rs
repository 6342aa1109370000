// Writes and reads archives of lib/interop.py with the Rust library. stdin, per case:
//   "W directory way content"   "R directory"   "D directory operations" (opens the files of a directory damaged in memory)
// stdout: one line per case. Operations: see cpp/arc_server.cpp
mod generated { #![allow(warnings)] include!("generated.rs"); }
use generated::n;
use flatdata::{FileResourceStorage, MemoryResourceStorage, ResourceStorage, Vector};
use std::collections::BTreeMap;
use std::fmt::Write as _;
use std::io::{self, BufRead, Write};

type Tokens<'a> = std::iter::Peekable<std::str::SplitWhitespace<'a>>;
type Res<T> = Result<T, String>;
fn num(t: &mut Tokens) -> i128 { t.next().expect("a number").parse().expect("a number") }
fn e2s<E: std::fmt::Debug>(e: E) -> String { format!("{:?}", e) }

trait Fields { fn put(&mut self, t: &mut Tokens); fn get(&self, o: &mut String); }
macro_rules! fields { ($T:ty, $($f:ident $s:ident $k:ty),*) => { impl Fields for $T {
    fn put(&mut self, t: &mut Tokens) { $( self.$s(num(t) as $k); )* }
    fn get(&self, o: &mut String) { $( write!(o, " {}", self.$f()).unwrap(); )* } } } }
impl Fields for n::A {
    fn put(&mut self, t: &mut Tokens) { self.set_a(num(t) as u32); self.set_b(num(t) as i16); self.set_c(num(t) != 0); self.set_d(num(t) as i32); }
    fn get(&self, o: &mut String) { write!(o, " {} {} {} {}", self.a(), self.b(), self.c() as u8, self.d()).unwrap(); }
}
fields!(n::B, x set_x u8, y set_y u64, z set_z i64);
impl Fields for n::E {
    fn put(&mut self, t: &mut Tokens) {
        self.set_k(if num(t) == 5 { n::Kind::Y } else { n::Kind::X });
        let o = num(t) as i16;
        self.set_o(if o == n::NONE { None } else { Some(o) });
        self.set_p(num(t) as u8);
    }
    fn get(&self, o: &mut String) { write!(o, " {} {} {}", self.k() as u8, self.o().unwrap_or(-7), self.p()).unwrap(); }
}
fields!(n::R, first set_first u32, v set_v u8);
fields!(n::U, u set_u u8);
fields!(n::m::A, w set_w u16);

fn absent(t: &mut Tokens, name: &str) -> bool {
    assert_eq!(t.next(), Some(name));
    if t.peek() == Some(&"-") { t.next(); return true; }
    false
}

fn hex(t: &mut Tokens) -> Vec<u8> {
    let s = t.next().unwrap();
    if s == "." { return vec![]; }
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}

macro_rules! inst { ($b:ident, $t:ident, $n:ident, $set:ident, $T:ty) => { if !absent($t, stringify!($n)) {
    let mut s = <$T>::new(); s.put($t); $b.$set(&s).map_err(e2s)?; } } }
macro_rules! vector { ($b:ident, $t:ident, $way:ident, $n:ident, $set:ident, $start:ident, $T:ty) => { if !absent($t, stringify!($n)) {
    let size = num($t) as usize;
    if $way == 1 {
        let mut v = $b.$start().map_err(e2s)?;
        for _ in 0..size { v.grow().map_err(e2s)?.put($t); }
        if v.len() != size { return Err(format!("{} has {} elements", stringify!($n), v.len())); }
        v.close().map_err(e2s)?;
    } else if $way == 0 {
        let mut v: Vector<$T> = Vector::with_len(size);
        for i in 0..size { v[i].put($t); }
        $b.$set(&v.as_view()).map_err(e2s)?;
    } else {
        let mut v: Vector<$T> = Vector::new();
        v.reserve(size / 2);
        for _ in 0..size { v.grow().put($t); }
        if v.len() != size { return Err(format!("{} has {} elements", stringify!($n), v.len())); }
        $b.$set(&v.as_view()).map_err(e2s)?;
    } } } }
macro_rules! raw { ($b:ident, $t:ident, $n:ident, $set:ident) => { if !absent($t, stringify!($n)) { $b.$set(&hex($t)).map_err(e2s)?; } } }
macro_rules! multi { ($b:ident, $t:ident, $n:ident, $start:ident, $($i:literal $add:ident),*) => { if !absent($t, stringify!($n)) {
    let mut v = $b.$start().map_err(e2s)?;
    for _ in 0..num($t) {
        let mut l = v.grow().map_err(e2s)?;
        for _ in 0..num($t) { match num($t) { $( $i => l.$add().put($t), )* _ => panic!("type") } }
    }
    v.close().map_err(e2s)?; } } }
macro_rules! sub { ($b:ident, $t:ident, $way:ident, $n:ident, $f:ident) => { if !absent($t, stringify!($n)) {
    assert_eq!($t.next(), Some("{")); $f($b.$n().map_err(e2s)?, $t, $way)?; assert_eq!($t.next(), Some("}")); } } }

fn write_leaf(b: n::m::LeafBuilder, t: &mut Tokens, way: i32) -> Res<()> {
    inst!(b, t, a, set_a, n::m::A); vector!(b, t, way, v, set_v, start_v, n::m::A); raw!(b, t, o, set_o);
    Ok(())
}
fn write_mid(b: n::MidBuilder, t: &mut Tokens, way: i32) -> Res<()> {
    sub!(b, t, way, leaf, write_leaf); sub!(b, t, way, more, write_leaf); vector!(b, t, way, us, set_us, start_us, n::U);
    Ok(())
}
fn write_top(b: n::TopBuilder, t: &mut Tokens, way: i32) -> Res<()> {
    inst!(b, t, inst, set_inst, n::A); vector!(b, t, way, vec, set_vec, start_vec, n::B); vector!(b, t, way, es, set_es, start_es, n::E);
    vector!(b, t, way, rs, set_rs, start_rs, n::R);
    multi!(b, t, mv, start_mv, 0 add_a, 1 add_b, 2 add_u); multi!(b, t, mvs, start_mvs, 0 add_u); multi!(b, t, mvl, start_mvl, 0 add_e, 1 add_b);
    raw!(b, t, raw, set_raw); sub!(b, t, way, mid, write_mid); inst!(b, t, oinst, set_oinst, n::E); vector!(b, t, way, ovec, set_ovec, start_ovec, n::U);
    multi!(b, t, omv, start_omv, 0 add_u); raw!(b, t, oraw, set_oraw); sub!(b, t, way, omid, write_mid);
    Ok(())
}

fn show_vec<T: Fields>(o: &mut String, v: &[T]) { write!(o, " {}", v.len()).unwrap(); for e in v { e.get(o); } }
// the sentinel of a vector of ranges is not an element; its bytes follow the last one
fn show_ranges(o: &mut String, v: &[n::R]) {
    write!(o, " {}", v.len() + 1).unwrap();
    let all = unsafe { std::slice::from_raw_parts(v.as_ptr(), v.len() + 1) };
    for e in all { e.get(o); }
    for i in 0..v.len() { if v[i].edges() != (all[i].first()..all[i + 1].first()) { o.push_str(" (range)"); } }
}
fn show_raw(o: &mut String, r: flatdata::RawData) {
    let b: &[u8] = r.as_bytes();
    o.push(' ');
    if b.is_empty() { o.push('.'); }
    for x in b { write!(o, "{:02x}", x).unwrap(); }
}
macro_rules! show_mv { ($o:ident, $v:expr, $($i:literal $variant:path),*) => { {
    let v = $v;
    write!($o, " {}", v.len()).unwrap();
    let (mut backwards, mut i) = (Vec::new(), 0);
    for item in v.iter() {
        let mut s = String::new();
        let mut k = 0;
        for e in item { k += 1; match e { $( $variant(e) => { write!(s, " {}", $i).unwrap(); e.get(&mut s); } )* } }
        // other ways to the same item
        let mut again = String::new();
        for e in v.at(i) { match e { $( $variant(e) => { write!(again, " {}", $i).unwrap(); e.get(&mut again); } )* } }
        if again != s { $o.push_str(" (at)"); }
        let mut third = String::new();
        for e in v.slice(i..).at(0) { match e { $( $variant(e) => { write!(third, " {}", $i).unwrap(); e.get(&mut third); } )* } }
        if third != s { $o.push_str(" (slice)"); }
        backwards.push(s.clone());
        i += 1;
        write!($o, " {}{}", k, s).unwrap();
    }
    for item in v.iter().rev() {
        let mut s = String::new();
        for e in item { match e { $( $variant(e) => { write!(s, " {}", $i).unwrap(); e.get(&mut s); } )* } }
        if backwards.pop() != Some(s) { $o.push_str(" (rev)"); }
    }
    if !backwards.is_empty() || i != v.len() || v.iter().len() != i || v.is_empty() != (i == 0) { $o.push_str(" (len)"); }
} } }
macro_rules! opt { ($o:ident, $n:literal, $v:expr, $x:ident => $show:expr) => { $o.push_str(concat!(" ", $n)); match $v { Some($x) => $show, None => $o.push_str(" -") } } }
fn leaf(o: &mut String, a: &n::m::Leaf) {
    o.push_str(" { a"); a.a().get(o); o.push_str(" v"); show_vec(o, a.v());
    opt!(o, "o", a.o(), x => show_raw(o, x)); o.push_str(" }");
}
fn mid(o: &mut String, a: &n::Mid) {
    o.push_str(" { leaf"); leaf(o, a.leaf()); opt!(o, "more", a.more(), x => leaf(o, x)); opt!(o, "us", a.us(), x => show_vec(o, x)); o.push_str(" }");
}
fn show(a: &n::Top) -> String {
    let mut s = String::new();
    let o = &mut s;
    o.push_str("inst"); a.inst().get(o); o.push_str(" vec"); show_vec(o, a.vec()); o.push_str(" es"); show_vec(o, a.es()); o.push_str(" rs"); show_ranges(o, a.rs());
    o.push_str(" mv"); show_mv!(o, a.mv(), 0 n::MvRef::A, 1 n::MvRef::B, 2 n::MvRef::U);
    o.push_str(" mvs"); show_mv!(o, a.mvs(), 0 n::MvsRef::U);
    o.push_str(" mvl"); show_mv!(o, a.mvl(), 0 n::MvlRef::E, 1 n::MvlRef::B);
    o.push_str(" raw"); show_raw(o, a.raw()); o.push_str(" mid"); mid(o, a.mid());
    opt!(o, "oinst", a.oinst(), x => x.get(o)); opt!(o, "ovec", a.ovec(), x => show_vec(o, x));
    opt!(o, "omv", a.omv(), x => show_mv!(o, x, 0 n::OmvRef::U)); opt!(o, "oraw", a.oraw(), x => show_raw(o, x)); opt!(o, "omid", a.omid(), x => mid(o, x));
    // printing is possible and names every resource
    let debug = format!("{:?}", a);
    for r in ["inst", "vec", "es", "rs", "mv", "mvs", "mvl", "raw", "mid", "oinst", "ovec", "omv", "oraw", "omid"] {
        if !debug.contains(&format!("{}: ", r)) { return format!("{} is not in {}", r, debug); }
    }
    s
}

// ---- damaged files
fn collect(dir: &std::path::Path, prefix: &str, out: &mut BTreeMap<String, Vec<u8>>) {
    for e in std::fs::read_dir(dir).unwrap() {
        let e = e.unwrap();
        let name = format!("{}{}", prefix, e.file_name().to_str().unwrap());
        if e.path().is_dir() { collect(&e.path(), &(name + "/"), out) } else { out.insert(name, std::fs::read(e.path()).unwrap()); }
    }
}

fn damage(files: &mut BTreeMap<String, Vec<u8>>, ops: &str) {
    for one in ops.split(';') {
        let w: Vec<&str> = one.split_whitespace().collect();
        if w.len() < 2 || !files.contains_key(w[0]) { continue; }
        let a: u64 = w.get(2).map_or(0, |x| x.parse().unwrap());
        let b = w.get(3).map_or(0u64, |x| x.parse().unwrap()) as u8;
        let d = files.get_mut(w[0]).unwrap();
        let n = a as usize;
        match w[1] {
            "D" => { files.remove(w[0]); }
            "T" => d.truncate(n),
            "S" => if n < d.len() { d[n] = b },
            "I" => d.insert(n.min(d.len()), b),
            "R" => if n < d.len() { d.remove(n); },
            "H" => { let rest = d.split_off(8.min(d.len())); *d = a.to_le_bytes().to_vec(); d.extend(rest); }
            "A" => d.extend(std::iter::repeat(b).take(n)),
            "L" => { // correctly framed, cut after a bytes
                let mut r = a.to_le_bytes().to_vec();
                r.extend(d[8.min(d.len())..].iter().take(n));
                r.extend([0; 8]);
                *d = r;
            }
            "Z" => { // correctly framed, filled with zeros up to a bytes
                let mut r = a.to_le_bytes().to_vec();
                r.extend(&d[8..d.len() - 8]);
                r.resize(8 + n + 8, 0);
                *d = r;
            }
            _ => panic!("operation"),
        }
    }
}

// one step of a history: a letter and a number of elements
fn step(b: &n::MidBuilder, op: &str, storage: &flatdata::StorageHandle) -> Res<String> {
    let k: usize = op[1..].parse().unwrap();
    match &op[..1] {
        "S" => { let mut v: Vector<n::U> = Vector::with_len(k); for i in 0..k { v[i].set_u((k + i) as u8); } b.set_us(&v.as_view()).map_err(e2s)?; }
        "G" | "P" => {
            let mut v = b.start_us().map_err(e2s)?;
            for i in 0..k { v.grow().map_err(e2s)?.set_u((100 + k + i) as u8); }
            if &op[..1] == "G" {
                let view = v.close().map_err(e2s)?;
                if view.len() != k || (0..k).any(|i| view[i].u() as usize != 100 + k + i) { return Ok("wrong".into()); }
            }
        }
        "L" | "M" => {
            let l = if &op[..1] == "L" { b.leaf() } else { b.more() }.map_err(e2s)?;
            let mut a = n::m::A::new();
            a.set_w(k as u16);
            l.set_a(&a).map_err(e2s)?;
            if k > 0 { let mut v: Vector<n::m::A> = Vector::with_len(k); v[k - 1].set_w(7); l.set_v(&v.as_view()).map_err(e2s)?; }
        }
        "E" => { return Ok(format!("{}{}{}", storage.exists("us") as u8, storage.subdir("leaf").exists("Leaf.archive") as u8, storage.exists("Mid.archive") as u8)); }
        "A" => { n::MidBuilder::new(storage.clone()).map_err(e2s)?; }
        _ => panic!("step"),
    }
    Ok("ok".into())
}

// more than fits into the buffers of growing resources
fn big(dir: &str, kind: &str, count: usize) -> Res<String> {
    let b = n::TopBuilder::new(FileResourceStorage::new(dir)).map_err(e2s)?;
    let value = |i: usize| (i as u64).wrapping_mul(0x9E37_79B9_7F4A_7C15) >> 7;
    match kind {
        "vec" => {
            let mut v = b.start_vec().map_err(e2s)?;
            for i in 0..count { let e = v.grow().map_err(e2s)?; e.set_y(value(i)); e.set_z(-(i as i64)); }
            let view = v.close().map_err(e2s)?;
            if view.len() != count { return Ok(format!("{} elements", view.len())); }
            for (i, e) in view.iter().enumerate() { if e.y() != value(i) || e.z() != -(i as i64) || e.x() != 0 { return Ok(format!("element {}", i)); } }
        }
        "rs" => {
            let mut v = b.start_rs().map_err(e2s)?;
            for i in 0..count { let e = v.grow().map_err(e2s)?; e.set_first((i >> 4) as u32); e.set_v(i as u8 & 15); }
            let view = v.close().map_err(e2s)?;
            if view.len() + 1 != count { return Ok(format!("{} elements", view.len())); }
            for (i, e) in view.iter().enumerate() {
                if e.edges() != ((i >> 4) as u32..((i + 1) >> 4) as u32) || e.v() != (i & 15) as u8 { return Ok(format!("element {}", i)); }
            }
        }
        "mv" => { // two elements per item, a third one in every fifth
            let mut v = b.start_mv().map_err(e2s)?;
            for i in 0..count {
                let mut l = v.grow().map_err(e2s)?;
                l.add_u().set_u(i as u8);
                l.add_b().set_y(value(i));
                if i % 5 == 0 { l.add_a().set_d(-(i as i32)); }
            }
            let view = v.close().map_err(e2s)?;
            if view.len() != count { return Ok(format!("{} items", view.len())); }
            for (i, item) in view.iter().enumerate() {
                let mut k = 0;
                for e in item {
                    let ok = match e { n::MvRef::U(e) => k == 0 && e.u() == i as u8, n::MvRef::B(e) => k == 1 && e.y() == value(i) && e.x() == 0,
                                       n::MvRef::A(e) => k == 2 && i % 5 == 0 && e.d() == -(i as i32) };
                    if !ok { return Ok(format!("item {}", i)); }
                    k += 1;
                }
                if k != if i % 5 == 0 { 3 } else { 2 } { return Ok(format!("{} elements in item {}", k, i)); }
            }
        }
        _ => { // "mvl": empty items
            let mut v = b.start_mvl().map_err(e2s)?;
            for i in 0..count { let mut l = v.grow().map_err(e2s)?; if i % 0x10000 == 7 { l.add_b().set_y(value(i)); } }
            let view = v.close().map_err(e2s)?;
            if view.len() != count { return Ok(format!("{} items", view.len())); }
            for (i, item) in view.iter().enumerate() {
                let mut k = 0;
                for e in item { if !matches!(e, n::MvlRef::B(e) if e.y() == value(i)) { return Ok(format!("item {}", i)); } k += 1; }
                if (k == 1) != (i % 0x10000 == 7) { return Ok(format!("{} elements in item {}", k, i)); }
            }
        }
    }
    Ok("ok".into())
}

fn run(line: &str, base: &mut Option<(String, BTreeMap<String, Vec<u8>>)>) -> Res<String> {
    let mut t = line.split_whitespace().peekable();
    let (op, dir) = (t.next().unwrap(), t.next().unwrap());
    match op {
        "W" => {
            let way = num(&mut t) as i32;
            write_top(n::TopBuilder::new(FileResourceStorage::new(dir)).map_err(e2s)?, &mut t, way)?;
            Ok("ok".into())
        }
        "M" => { // written to memory and read from there
            let way = num(&mut t) as i32;
            let storage = MemoryResourceStorage::new(dir);
            write_top(n::TopBuilder::new(storage.clone()).map_err(e2s)?, &mut t, way)?;
            Ok(show(&n::Top::open(storage).map_err(e2s)?))
        }
        "H" => { // histories of writing an archive of type Mid
            let memory = t.next() == Some("m");
            let storage: flatdata::StorageHandle = if memory { MemoryResourceStorage::new(dir) } else { FileResourceStorage::new(dir) };
            let b = n::MidBuilder::new(storage.clone()).map_err(e2s)?;
            let mut out = String::new();
            for op in t {
                let r = step(&b, op, &storage);
                write!(out, "{} ", match r { Ok(s) => s, Err(e) => format!("error:{}", e.replace(' ', "_")) }).unwrap();
            }
            let storage: flatdata::StorageHandle = if memory { storage } else { FileResourceStorage::new(dir) };
            match n::Mid::open(storage) { Ok(a) => mid(&mut out, &a), Err(_) => out.push_str("closed") }
            Ok(out)
        }
        "B" => { let (kind, count) = (t.next().unwrap(), num(&mut t) as usize); big(dir, kind, count) }
        "R" => Ok(show(&n::Top::open(FileResourceStorage::new(dir)).map_err(e2s)?)),
        _ => {
            if base.as_ref().map_or(true, |b| b.0 != dir) {
                let mut files = BTreeMap::new();
                collect(std::path::Path::new(dir), "", &mut files);
                *base = Some((dir.to_string(), files));
            }
            let mut files = base.as_ref().unwrap().1.clone();
            damage(&mut files, line.splitn(3, ' ').nth(2).unwrap_or(""));
            let storage = MemoryResourceStorage::new("/damaged");
            for (name, data) in &files { storage.create_output_stream(name).map_err(e2s)?.write_all(data).map_err(e2s)?; }
            Ok(show(&n::Top::open(storage).map_err(e2s)?))
        }
    }
}

fn main() {
    std::panic::set_hook(Box::new(|_| ()));
    let mut base = None;
    for line in io::stdin().lock().lines() {
        let line = line.unwrap();
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| run(&line, &mut base)));
        let s = match r { Ok(Ok(s)) => s, Ok(Err(e)) => format!("error: {}", e), Err(p) => format!("panic: {}", p.downcast_ref::<String>().cloned().or(p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default()) };
        println!("{}", s.replace('\n', " "));
        io::stdout().flush().unwrap();
    }
}
