// P32: every short history of operations on Rust's containers, compared with plain lists.
#[path = "containers_gen.rs"]
#[allow(warnings)]
pub mod gen;
use flatdata::*;
use gen::n;
use std::fmt::Debug;
use std::panic::{catch_unwind, AssertUnwindSafe};

static mut COUNT: u64 = 0;
static mut CASES: u64 = 0;
static mut FAILURES: u64 = 0;
static mut ONLY: Option<String> = None;

fn count() { unsafe { COUNT += 1; } }
fn fail(case: &str, msg: &str) { unsafe { FAILURES += 1; if FAILURES < 6 { println!("FAIL|{}|{}", case, msg.replace("\n", " ")); } } }
#[allow(static_mut_refs)]
fn wanted(case: &str) -> bool { unsafe { FAILURES < 6 && ONLY.as_ref().map(|o| o == case).unwrap_or(true) } }
type Outcome = Result<(), String>;
macro_rules! want { ($ok:expr, $($arg:tt)*) => { count(); if !$ok { return Err(format!($($arg)*)); } } }

fn case(name: String, f: impl FnOnce() -> Outcome) {
    if !wanted(&name) { return; }
    unsafe { CASES += 1; }
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(Ok(())) => {}
        Ok(Err(m)) => fail(&name, &m),
        Err(p) => fail(&name, &format!("panics: {:?}", p.downcast_ref::<String>().cloned().or(p.downcast_ref::<&str>().map(|s| s.to_string())))),
    }
}

fn pack(fields: &[(u64, usize)]) -> Vec<u8> {
    let bits: usize = fields.iter().map(|f| f.1).sum();
    let mut out = vec![0u8; (bits + 7) / 8];
    let mut at = 0;
    for (v, w) in fields { for i in 0..*w { out[at / 8] |= ((v >> i & 1) as u8) << (at % 8); at += 1; } }
    out
}

// element number k, 0 is the one with zeros
trait El: Struct {
    fn put(&mut self, k: u64);
    fn is(&self, k: u64) -> bool;
    fn bytes(k: u64) -> Vec<u8>;
    fn text(k: u64) -> String;
    fn begin(_k: u64) -> u64 { 0 }
    fn range(&self) -> std::ops::Range<u64> { 0..0 }
}
fn ax(k: u64) -> u32 { (k * 40503 % (1 << 17)) as u32 }
fn ay(k: u64) -> i8 { if k == 0 { 0 } else { (k * 37 % 128) as i8 - 64 } }
impl El for n::A {
    fn put(&mut self, k: u64) { self.set_x(ax(k)); self.set_y(ay(k)); }
    fn is(&self, k: u64) -> bool { self.x() == ax(k) && self.y() == ay(k) }
    fn bytes(k: u64) -> Vec<u8> { pack(&[(ax(k) as u64, 17), (ay(k) as i64 as u64, 7)]) }
    fn text(k: u64) -> String { format!("A {{ x: {}, y: {} }}", ax(k), ay(k)) }
}
fn bz(k: u64) -> u8 { (k * 7 % 32) as u8 }
impl El for n::B {
    fn put(&mut self, k: u64) { self.set_z(bz(k)); }
    fn is(&self, k: u64) -> bool { self.z() == bz(k) }
    fn bytes(k: u64) -> Vec<u8> { pack(&[(bz(k) as u64, 5)]) }
    fn text(k: u64) -> String { format!("B {{ z: {} }}", bz(k)) }
}
fn ca(k: u64) -> u64 { k.wrapping_mul(0x9E3779B97F4A7C15) >> 3 }
fn cb(k: u64) -> u8 { (k * 5 % 256) as u8 }
impl El for n::Large {
    fn put(&mut self, k: u64) { self.set_a(ca(k)); self.set_b(cb(k)); }
    fn is(&self, k: u64) -> bool { self.a() == ca(k) && self.b() == cb(k) }
    fn bytes(k: u64) -> Vec<u8> { pack(&[(ca(k), 61), (cb(k) as u64, 8)]) }
    fn text(k: u64) -> String { format!("Large {{ a: {}, b: {} }}", ca(k), cb(k)) }
}
fn rf(k: u64) -> u16 { (k * 611 % 4096) as u16 }
fn rk(k: u64) -> u8 { (k * 3 % 16) as u8 }
impl El for n::R {
    fn put(&mut self, k: u64) { self.set_first(rf(k)); self.set_k(rk(k)); }
    fn is(&self, k: u64) -> bool { self.first() == rf(k) && self.k() == rk(k) }
    fn bytes(k: u64) -> Vec<u8> { pack(&[(rf(k) as u64, 12), (rk(k) as u64, 4)]) }
    fn text(k: u64) -> String { format!("R {{ first: {}, k: {} }}", rf(k), rk(k)) }
    fn begin(k: u64) -> u64 { rf(k) as u64 }
    fn range(&self) -> std::ops::Range<u64> { let r = self.xs(); r.start as u64..r.end as u64 }
}
fn qo(k: u64) -> u32 { (k * 31 % 512) as u32 }
impl El for n::Q {
    fn put(&mut self, k: u64) { self.set_only(qo(k)); }
    fn is(&self, k: u64) -> bool { self.only() == qo(k) }
    fn bytes(k: u64) -> Vec<u8> { pack(&[(qo(k) as u64, 9)]) }
    fn text(k: u64) -> String { format!("Q {{ only: {} }}", qo(k)) }
    fn begin(k: u64) -> u64 { qo(k) as u64 }
    fn range(&self) -> std::ops::Range<u64> { let r = self.ys(); r.start as u64..r.end as u64 }
}
fn framed(payload: &[u8]) -> Vec<u8> {
    let mut r = (payload.len() as u64).to_le_bytes().to_vec();
    r.extend_from_slice(payload);
    r.extend_from_slice(&[0; 8]);
    r
}
fn all_bytes<T: El>(m: &[u64]) -> Vec<u8> { m.iter().flat_map(|k| T::bytes(*k)).collect() }
fn text<T: El>(m: &[u64]) -> String { format!("[{}]", m.iter().map(|k| T::text(*k)).collect::<Vec<_>>().join(", ")) }

fn same<T: El + Debug>(what: &str, v: &[T], m: &[u64], ends: Option<u64>) -> Outcome {
    want!(v.len() == m.len() && v.is_empty() == m.is_empty(), "{}: {} elements instead of {}", what, v.len(), m.len());
    for (i, k) in m.iter().enumerate() {
        want!(v[i].is(*k), "{}: element {} is {:?} instead of {}", what, i, v[i], T::text(*k));
        if T::IS_OVERLAPPING_WITH_NEXT {
            if let Some(end) = ends {
                let end = if i + 1 < m.len() { T::begin(m[i + 1]) } else { end };
                want!(v[i].range() == (T::begin(*k)..end), "{}: range {} is {:?} instead of {:?}", what, i, v[i].range(), T::begin(*k)..end);
            }
        }
    }
    want!(v.iter().zip(m).all(|(e, k)| e.is(*k)) && v.iter().count() == m.len(), "{}: iteration", what);
    want!(v.iter().rev().zip(m.iter().rev()).all(|(e, k)| e.is(*k)), "{}: iteration backwards", what);
    for i in 0..=m.len() { for j in i..=m.len() { want!(v[i..j].len() == j - i && v[i..j].iter().zip(&m[i..j]).all(|(e, k)| e.is(*k)), "{}: slice {}..{}", what, i, j); } }
    want!(format!("{:?}", v) == text::<T>(m), "{} prints {:?} instead of {}", what, v, text::<T>(m));
    Ok(())
}

// what differs between vectors of structures with and without ranges
trait Access<T: El> { fn at_mut(&mut self, i: usize) -> &mut T; fn all_mut(&mut self, k: u64) -> usize; }
macro_rules! access {
    ($T:ty, plain) => { impl Access<$T> for Vector<$T> {
        fn at_mut(&mut self, i: usize) -> &mut $T { &mut self[i] }
        fn all_mut(&mut self, k: u64) -> usize { let mut n = 0; for (i, e) in self.iter_mut().enumerate() { e.put(k + i as u64); n += 1; } n }
    } };
    ($T:ty, range) => { impl Access<$T> for Vector<$T> {
        fn at_mut(&mut self, i: usize) -> &mut $T { &mut self[i] }
        fn all_mut(&mut self, k: u64) -> usize { let n = self.len(); for i in 0..n { self[i].put(k + i as u64); } n }
    } };
}
access!(n::A, plain); access!(n::B, plain); access!(n::Large, plain); access!(n::R, range); access!(n::Q, range);

const OPS: &str = "gzlfcrnwi";
fn vector<T: El + Debug>(name: &str, ops: &str) -> Outcome where Vector<T>: Access<T> {
    let mut v: Vector<T> = if ops.len() % 2 == 0 { Vector::new() } else { Vector::default() };
    let mut m: Vec<u64> = Vec::new();
    for (step, o) in ops.chars().enumerate() {
        let k = 11 * step as u64 + 1;
        match o {
            'g' => { let e = v.grow(); want!(e.is(0), "a new element is not zero"); e.put(k); m.push(k); }
            'z' => { v.grow(); m.push(0); }
            'l' => if let Some(l) = m.last_mut() { *l = k; let i = v.len() - 1; v.at_mut(i).put(k); },
            'f' => if !m.is_empty() { m[0] = k; v.at_mut(0).put(k); },
            'c' => { v.clear(); m.clear(); }
            'r' => v.reserve(step + 2),
            'n' => { v = Vector::new(); m.clear(); }
            'w' => { v = Vector::with_len(step % 4); m = vec![0; step % 4]; }
            _ => { want!(v.all_mut(k) == m.len(), "mutable iteration"); for (i, e) in m.iter_mut().enumerate() { *e = k + i as u64; } }
        }
    }
    // behind the last element there are zeros
    same(name, &v[..], &m, Some(0))?;
    want!(v.len() == m.len() && v.is_empty() == m.is_empty(), "length {}", v.len());
    for (i, k) in m.iter().enumerate() { want!(v[i].is(*k), "element {}", i); }
    let visible = if T::IS_OVERLAPPING_WITH_NEXT { &m[..m.len().saturating_sub(1)] } else { &m[..] };
    let view = v.as_view();
    same("view", view, visible, m.last().map(|k| T::begin(*k)))?;
    want!(format!("{:?}", v) == text::<T>(visible), "prints {:?}", v);
    let stored = if m.is_empty() && T::IS_OVERLAPPING_WITH_NEXT { vec![0; T::SIZE_IN_BYTES] } else { all_bytes::<T>(&m) };
    want!(view.as_bytes() == &stored[..], "bytes {:?} instead of {:?}", view.as_bytes(), stored);
    let again = <&[T]>::from_bytes(view.as_bytes()).map_err(|e| format!("{:?}", e))?;
    same("view of the bytes", again, visible, m.last().map(|k| T::begin(*k)))
}

fn external<'a, T: El + Debug>(name: &str, ops: &str, v: std::io::Result<ExternalVector<'a, T>>, storage: &'a StorageHandle, open: impl Fn(&[u64]) -> Outcome) -> Outcome {
    let mut v = v.map_err(|e| e.to_string())?;
    let mut m = Vec::new();
    for (step, o) in ops.chars().enumerate() {
        let k = 5 * step as u64 + 3;
        let e = v.grow().map_err(|e| e.to_string())?;
        want!(e.is(0), "a new element is not zero");
        if o == 'g' { e.put(k); m.push(k); } else { m.push(0); }
        want!(v.len() == m.len() && !v.is_empty() && format!("{:?}", v) == format!("ExternalVector {{ len: {} }}", m.len()), "length {:?}", v);
    }
    want!(v.is_empty() == m.is_empty(), "emptiness");
    let view = v.close().map_err(|e| format!("{:?}", e))?;
    let visible = if T::IS_OVERLAPPING_WITH_NEXT { &m[..m.len().saturating_sub(1)] } else { &m[..] };
    same("closed", view, visible, m.last().map(|k| T::begin(*k)))?;
    let stored = if m.is_empty() && T::IS_OVERLAPPING_WITH_NEXT { vec![0; T::SIZE_IN_BYTES] } else { all_bytes::<T>(&m) };
    want!(storage.read_resource(name).map_err(|e| e.to_string())? == &framed(&stored)[..], "stored bytes");
    open(visible)?;
    same("afterwards", view, visible, m.last().map(|k| T::begin(*k)))
}

fn open(storage: &StorageHandle) -> Result<n::Arc, String> { n::Arc::open(storage.clone()).map_err(|e| format!("{:?}", e)) }

fn builder(storage: &StorageHandle) -> Result<n::ArcBuilder, String> {
    let b = n::ArcBuilder::new(storage.clone()).map_err(|e| format!("{:?}", e))?;
    let e = |e: std::io::Error| e.to_string();
    b.set_a(&Vector::new().as_view()).map_err(e)?;
    b.set_r(&Vector::new().as_view()).map_err(e)?;
    b.set_large(&Vector::new().as_view()).map_err(e)?;
    b.set_q(&Vector::new().as_view()).map_err(e)?;
    b.set_raw(b"").map_err(e)?;
    b.start_eight().map_err(e)?.close().map_err(|e| format!("{:?}", e))?;
    b.start_many().map_err(e)?.close().map_err(|e| format!("{:?}", e))?;
    Ok(b)
}

// an element of an item: (type, k); compares, prints
trait Variant: VariadicRef { fn is(&self, t: usize, k: u64) -> bool; }
macro_rules! variant { ($R:ident, $($i:expr => $V:ident),*) => { impl<'a> Variant for n::$R<'a> {
    fn is(&self, t: usize, k: u64) -> bool { match self { $( n::$R::$V(e) => t == $i && El::is(*e, k) ),* } }
} } }
variant!(EightRef, 0 => A, 1 => B);
variant!(ManyRef, 0 => B, 1 => Large, 2 => A);

type Items = Vec<Vec<(usize, u64)>>;
struct Kind { name: &'static str, bits: usize, size: fn(usize) -> usize, bytes: fn(usize, u64) -> Vec<u8>, text: fn(usize, u64) -> String }
const EIGHT: Kind = Kind { name: "eight", bits: 8, size: |t| [3, 1][t], bytes: |t, k| if t == 0 { n::A::bytes(k) } else { n::B::bytes(k) }, text: |t, k| if t == 0 { n::A::text(k) } else { n::B::text(k) } };
const MANY: Kind = Kind { name: "many", bits: 33, size: |t| [1, 9, 3][t], bytes: |t, k| match t { 0 => n::B::bytes(k), 1 => n::Large::bytes(k), _ => n::A::bytes(k) },
    text: |t, k| match t { 0 => n::B::text(k), 1 => n::Large::text(k), _ => n::A::text(k) } };

fn item<'a, Ts: VariadicRefFactory>(kind: &Kind, what: &str, it: MultiArrayViewItemIter2<'a, Ts>, m: &[(usize, u64)]) -> Outcome where <Ts as VariadicStruct<'a>>::Item: Variant {
    want!(format!("{:?}", it) == format!("MultiArrayViewItemIter {{ data: [{}] }}", m.iter().map(|e| (kind.text)(e.0, e.1)).collect::<Vec<_>>().join(", ")), "{} prints {:?}", what, it);
    let mut it = it;
    for i in 0..=m.len() {
        let rest: Vec<_> = it.clone().collect();
        want!(rest.len() == m.len() - i && rest.iter().zip(&m[i..]).all(|(e, k)| e.is(k.0, k.1) && e.size_in_bytes() == (kind.size)(k.0)), "{}: elements {:?} instead of {:?}", what, rest, &m[i..]);
        for (x, a) in rest.iter().zip(&m[i..]) { for (y, b) in rest.iter().zip(&m[i..]) { want!((x == y) == (a.0 == b.0 && (kind.bytes)(a.0, a.1) == (kind.bytes)(b.0, b.1)), "{}: {:?} == {:?}", what, x, y); } }
        match it.next() { Some(e) => { want!(i < m.len() && e.is(m[i].0, m[i].1), "{}: element {} is {:?}", what, i, e); } None => { want!(i == m.len(), "{}: ends at {}", what, i); } }
    }
    want!(it.next().is_none() && it.next().is_none(), "{}: goes on after its end", what);
    Ok(())
}
// the type of the iterator over the elements of an item is not exported
type MultiArrayViewItemIter2<'a, Ts> = <<MultiArrayView<'a, Ts> as IntoIterator>::IntoIter as Iterator>::Item;

fn contents<'a, Ts: VariadicRefFactory + 'a>(kind: &Kind, what: &str, v: &MultiArrayView<'a, Ts>, m: &[Vec<(usize, u64)>], deep: bool) -> Outcome where <Ts as VariadicStruct<'a>>::Item: Variant {
    want!(v.len() == m.len() && v.is_empty() == m.is_empty(), "{}: {} items instead of {}", what, v.len(), m.len());
    for (i, e) in m.iter().enumerate() { item::<Ts>(kind, &format!("{} item {}", what, i), v.at(i), e)?; }
    let list = |it: Vec<MultiArrayViewItemIter2<'a, Ts>>, m: Vec<&Vec<(usize, u64)>>| -> bool {
        it.len() == m.len() && it.iter().zip(&m).all(|(i, e)| { let l: Vec<_> = i.clone().collect(); l.len() == e.len() && l.iter().zip(e.iter()).all(|(x, k)| x.is(k.0, k.1)) })
    };
    want!(list(v.iter().collect(), m.iter().collect()), "{}: iteration", what);
    want!(list(v.into_iter().collect(), m.iter().collect()) && list(v.clone().into_iter().collect(), m.iter().collect()), "{}: into_iter", what);
    want!(list(v.iter().rev().collect(), m.iter().rev().collect()), "{}: iteration backwards", what);
    for i in 0..=m.len() + 1 { want!(list(v.iter().skip(i).collect(), m.iter().skip(i).collect()) && list(v.iter().nth(i).into_iter().collect(), m.get(i).into_iter().collect()), "{}: skip {}", what, i); }
    if m.len() <= 10 {
        let t = m.iter().enumerate().map(|(i, e)| format!("({}, [{}])", i, e.iter().map(|e| (kind.text)(e.0, e.1)).collect::<Vec<_>>().join(", "))).collect::<Vec<_>>().join(", ");
        want!(format!("{:?}", v) == format!("MultiArrayView {{ len: {}, data: [{}] }}", m.len(), t), "{} prints {:?}", what, v);
        want!(format!("{:?}", v.iter()) == format!("MultiArrayViewIter {{ len: {}, data: [{}] }}", m.len(), t), "{}: iterator prints {:?}", what, v.iter());
    } else {
        let t = format!("{:?}", v);
        want!(t.starts_with(&format!("MultiArrayView {{ len: {}, data: [(0, [", m.len())) && t.ends_with("... }") && t.contains("(9, [") && !t.contains("(10, ["), "{} prints {}", what, t);
    }
    if !deep { return Ok(()); }
    // every mixture of steps from both ends
    for bits in 0..1u32 << m.len().min(7) {
        let mut it = v.iter();
        let (mut a, mut b) = (0, m.len());
        for s in 0..m.len() {
            want!(it.len() == b - a, "{}: {} items left", what, it.len());
            want!(it.size_hint() == (b - a, Some(b - a)), "{}: size hint {:?} of {}", what, it.size_hint(), b - a);
            let got = if bits >> s & 1 == 0 { a += 1; it.next() } else { b -= 1; it.next_back() };
            let at = if bits >> s & 1 == 0 { a - 1 } else { b };
            want!(list(got.into_iter().collect(), vec![&m[at]]), "{}: steps {:b}, step {}", what, bits, s);
            want!(list(it.clone().collect(), m[a..b].iter().collect()), "{}: rest after steps {:b}, step {}", what, bits, s);
        }
        want!(it.next().is_none() && it.next_back().is_none() && it.next().is_none() && it.len() == 0, "{}: goes on", what);
    }
    for i in 0..=m.len() {
        contents(kind, &format!("{} {}..", what, i), &v.slice(i..), &m[i..], false)?;
        contents(kind, &format!("{} ..{}", what, i), &v.slice(..i), &m[..i], false)?;
        for j in i..=m.len() {
            let s = v.slice(i..j);
            contents(kind, &format!("{} {}..{}", what, i, j), &s, &m[i..j], false)?;
            if i < j { contents(kind, &format!("{} {}..={}", what, i, j - 1), &v.slice(i..=j - 1), &m[i..j], false)?; contents(kind, "nested", &s.slice(1..), &m[i + 1..j], false)?; }
        }
    }
    contents(kind, &format!("{} ..", what), &v.slice(..), m, false)
}

// ops: G starts an item, digits add elements of a type (with values or zeros)
fn parse(ops: &str) -> Items {
    let mut m: Items = Vec::new();
    for (step, o) in ops.chars().enumerate() {
        match o { 'G' => m.push(Vec::new()), d => m.last_mut().unwrap().push((d as usize - '0' as usize, if step % 5 == 4 { 0 } else { 9 * step as u64 + 1 })) }
    }
    m
}
fn stored(kind: &Kind, m: &Items) -> (Vec<u8>, Vec<u8>) {
    let (mut index, mut data) = (Vec::new(), Vec::new());
    for i in m {
        index.extend(pack(&[(data.len() as u64, kind.bits)]));
        for e in i { data.push(e.0 as u8); data.extend((kind.bytes)(e.0, e.1)); }
    }
    index.extend(pack(&[(data.len() as u64, kind.bits)]));
    (framed(&index), framed(&data))
}

macro_rules! multi {
    ($f:ident, $KIND:expr, $start:ident, $get:ident, $($i:expr => $add:ident),*) => {
        fn $f(ops: &str, storage: &StorageHandle, b: &n::ArcBuilder) -> Outcome {
            let m = parse(ops);
            let mut v = b.$start().map_err(|e| e.to_string())?;
            for (i, e) in m.iter().enumerate() {
                let mut item = v.grow().map_err(|e| e.to_string())?;
                for (t, k) in e {
                    match t { $( $i => { let e = item.$add(); want!(El::is(e, 0), "a new element is not zero"); if *k > 0 { e.put(*k); want!(El::is(e, *k), "the new element"); } } )* _ => unreachable!() }
                }
                want!(format!("{:?}", v) == format!("MultiVector {{ len: {} }}", i + 1), "prints {:?}", v);
            }
            let view = v.close().map_err(|e| format!("{:?}", e))?;
            contents(&$KIND, "closed", &view, &m, true)?;
            let (index, data) = stored(&$KIND, &m);
            want!(storage.read_resource(concat!(stringify!($get), "_index")).map_err(|e| e.to_string())? == &index[..], "index");
            want!(storage.read_resource(stringify!($get)).map_err(|e| e.to_string())? == &data[..], "data");
            let arc = open(storage)?;
            contents(&$KIND, "opened", arc.$get(), &m, false)?;
            contents(&$KIND, "afterwards", &view, &m, false)
        }
    };
}
multi!(eight, EIGHT, start_eight, eight, 0 => add_a, 1 => add_b);
multi!(many, MANY, start_many, many, 0 => add_b, 1 => add_large, 2 => add_a);

fn sequences(alphabet: &str, max: usize) -> Vec<String> {
    let mut out = vec![String::new()];
    let mut from = 0;
    for _ in 0..max {
        let to = out.len();
        for i in from..to { for c in alphabet.chars() { let s = format!("{}{}", out[i], c); out.push(s); } }
        from = to;
    }
    out
}

fn raw(data: &[u8]) -> Outcome {
    let r = RawData::new(data);
    want!(r.as_bytes() == data && &*r == data && r.len() == data.len() && r.iter().eq(data.iter()), "its bytes {:?}", r.as_bytes());
    let copy = r;
    for s in 0..=data.len() {
        let part: Vec<u8> = data[s..].iter().cloned().take_while(|b| *b != 0).collect();
        want!(r.substring_raw(s) == &part[..], "substring_raw({}) {:?}", s, r.substring_raw(s));
        want!(copy.substring(s) == std::str::from_utf8(&part), "substring({}) {:?}", s, r.substring(s));
        want!(r.substring_lossy(s) == String::from_utf8_lossy(&part), "substring_lossy({}) {:?}", s, r.substring_lossy(s));
        if std::str::from_utf8(&part).is_ok() { want!(unsafe { r.substring_unchecked(s) }.as_bytes() == &part[..], "substring_unchecked({})", s); }
    }
    Ok(())
}

fn bytes<T: El + Debug>(name: &str, len: usize) -> Outcome {
    let size = T::SIZE_IN_BYTES;
    let m: Vec<u64> = (0..len as u64 / size as u64 + 1).map(|k| 3 * k + 1).collect();
    let data = &all_bytes::<T>(&m)[..len];
    let valid = len % size == 0 && (!T::IS_OVERLAPPING_WITH_NEXT || len >= size);
    match <&[T]>::from_bytes(data) {
        Ok(v) => {
            want!(valid, "{} bytes make {} elements", len, v.len());
            let n = len / size - T::IS_OVERLAPPING_WITH_NEXT as usize;
            same(name, v, &m[..n], Some(if len == 0 { 0 } else { T::begin(m[len / size - 1]) }))?;
            want!(v.as_bytes() == data, "bytes {:?}", v.as_bytes());
        }
        Err(e) => { want!(!valid && matches!(e, ResourceStorageError::UnexpectedDataSize), "{} bytes: {:?}", len, e); }
    }
    Ok(())
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let (part, parts, depth): (usize, usize, usize) = (args[1].parse().unwrap(), args[2].parse().unwrap(), args[3].parse().unwrap());
    let dir = &args[4];
    if args.len() > 5 { unsafe { ONLY = Some(args[5].clone()); } }
    std::panic::set_hook(Box::new(|_| {}));
    let mine = |i: usize| i % parts == part;
    macro_rules! vectors { ($($T:ident),*) => { $(
        for (i, s) in sequences(OPS, depth).iter().enumerate().filter(|x| mine(x.0)) { let _ = i; case(format!("vector {} {}", stringify!($T), s), || vector::<n::$T>(stringify!($T), s)); }
        for len in (0..60).filter(|l| mine(*l)) { case(format!("bytes {} {}", stringify!($T), len), || bytes::<n::$T>(stringify!($T), len)); }
    )* } }
    vectors!(A, B, Large, R, Q);
    for memory in vec![true, false] {
        let storage: StorageHandle = if memory { MemoryResourceStorage::new("/m") } else { FileResourceStorage::new(format!("{}/{}", dir, part)) };
        let which = if memory { "memory" } else { "files" };
        let b = match builder(&storage) { Ok(b) => b, Err(e) => { fail("builder", &e); return; } };
        macro_rules! externals { ($($T:ident $name:ident $start:ident),*) => { $(
            for (_, s) in sequences("gz", if memory { depth + 1 } else { 3 }).iter().enumerate().filter(|x| mine(x.0)) {
                case(format!("external {} {} {}", which, stringify!($T), s), || external::<n::$T>(stringify!($name), s, b.$start(), &storage, |m| same("opened", open(&storage)?.$name(), m, None)));
            }
        )* } }
        externals!(A a start_a, R r start_r, Large large start_large, Q q start_q);
        let d = if memory { depth } else { 3 };
        for (_, s) in sequences("G01", d + 2).iter().filter(|s| !s.starts_with(|c| c != 'G')).enumerate().filter(|x| mine(x.0)) { case(format!("multivector {} eight {}", which, s), || eight(s, &storage, &b)); }
        for (_, s) in sequences("G012", d + 1).iter().filter(|s| !s.starts_with(|c| c != 'G')).enumerate().filter(|x| mine(x.0)) { case(format!("multivector {} many {}", which, s), || many(s, &storage, &b)); }
        for n in 9..13 { for s in ["G", "G1", "G0G1"].iter().filter(|_| mine(n)) { case(format!("multivector {} eight {} times {}", which, n, s), || eight(&s.repeat(n), &storage, &b)); } }
    }
    let alphabet = [0u8, b'a', 0xC3, 0xA9, 0xFF];
    for len in 0..=depth + 1 {
        for i in (0..5usize.pow(len as u32)).filter(|i| mine(*i)) {
            let data: Vec<u8> = (0..len).map(|k| alphabet[i / 5usize.pow(k as u32) % 5]).collect();
            case(format!("raw {:?}", data), || raw(&data));
        }
    }
    unsafe { println!("COUNT {}\nCASES {}", COUNT, CASES); }
}
