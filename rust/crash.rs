// Writes an archive step by step (the process may be ended, or calls may fail, at any point), or opens and prints it.
// usage: crash write DIR stop|continue STEP...   crash read|open DIR
#[path = "crash_gen.rs"]
#[allow(warnings)]
pub mod gen;
use flatdata::*;
use gen::n;

type R = Result<(), String>;
fn s<T, E: std::fmt::Debug>(r: Result<T, E>) -> Result<T, String> { r.map_err(|e| format!("{:?}", e)) }
fn a(k: usize) -> n::A {
    let mut e = n::A::new();
    if k == 0 { e.set_a(1); e.set_b(-1); e.set_c(1); e.set_d(-5); } else { e.set_a(127); e.set_b(-256); e.set_c(0); e.set_d((1 << 29) - 1); }
    e
}
fn b(k: usize) -> n::B {
    let mut e = n::B::new();
    if k == 0 { e.set_x(7); e.set_y(u64::MAX); e.set_z(-(1 << 60)); } else { e.set_x(0); e.set_y(1 << 63); e.set_z((1 << 60) - 1); }
    e
}
macro_rules! vector { ($b:ident, $grow:expr, $set:ident, $start:ident, $f:ident, $T:ty, $ks:expr, $count:expr) => {
    if $grow {
        let mut v = s($b.$start())?;
        for i in 0..$count { let k: &[usize] = &$ks; s(v.grow())?.fill_from(&$f(k[i % k.len()])); }
        s(v.close()).map(|_| ())
    } else {
        let mut v: Vector<$T> = Vector::new();
        for k in $ks { v.grow().fill_from(&$f(k)); }
        s($b.$set(&v.as_view()))
    }
} }
fn sub(b: &n::SubBuilder, grow: bool, name: &str, second: bool) -> R {
    match name {
        "v" => { let ks: Vec<usize> = if second { vec![] } else { vec![0, 1] }; vector!(b, grow, set_v, start_v, a, n::A, ks.clone(), ks.len()) }
        _ => s(b.set_o(if second { b"" } else { b"raw" })),
    }
}
struct State { arc: n::ArcBuilder, sub: Option<n::SubBuilder>, osub: Option<n::SubBuilder> }
fn step(st: &mut State, text: &str) -> R {
    let (text, count) = match text.find('*') { Some(i) => (&text[..i], text[i + 1..].parse().unwrap()), None => (text, 0usize) };
    let grow = text.starts_with('+');
    let name = text.trim_start_matches('+');
    let arc = &st.arc;
    match name {
        "inst" => s(arc.set_inst(&a(0))),
        "oinst" => s(arc.set_oinst(&b(1))),
        "vec" => vector!(arc, grow, set_vec, start_vec, b, n::B, [0, 1], if count > 0 { count } else { 2 }),
        "ovec" => vector!(arc, grow, set_ovec, start_ovec, a, n::A, [1], if count > 0 { count } else { 1 }),
        "mv" => {
            let mut v = s(arc.start_mv())?;
            for _ in 0..std::cmp::max(count, 1) {
                { let mut i = s(v.grow())?; i.add_a().fill_from(&a(0)); i.add_b().fill_from(&b(0)); }
                s(v.grow())?;
                s(v.grow())?.add_b().fill_from(&b(1));
            }
            s(v.close()).map(|_| ())
        }
        "omv" => {
            let mut v = s(arc.start_omv())?;
            s(v.grow())?.add_b().fill_from(&b(0));
            s(v.grow())?;
            s(v.close()).map(|_| ())
        }
        "raw" => s(arc.set_raw(b"xyz\0")),
        "oraw" => s(arc.set_oraw(b"\0")),
        "sub/v" | "sub/o" => { if st.sub.is_none() { st.sub = Some(s(arc.sub())?); } sub(st.sub.as_ref().unwrap(), grow, &name[4..], false) }
        "osub/v" | "osub/o" => { if st.osub.is_none() { st.osub = Some(s(arc.osub())?); } sub(st.osub.as_ref().unwrap(), grow, &name[5..], true) }
        _ => panic!("{}", name),
    }
}
fn main() {
    let args: Vec<String> = std::env::args().collect();
    let storage = FileResourceStorage::new(&args[2]);
    if args[1] == "read" {
        match n::Arc::open(storage) { Ok(a) => println!("{:?}", a), Err(e) => println!("error {:?}", e) }
        return;
    }
    if args[1] == "open" {
        match n::Arc::open(storage) { Ok(_) => println!("opened"), Err(e) => println!("error {:?}", e) }
        return;
    }
    let mut failed = false;
    let arc = match n::ArcBuilder::new(storage) { Ok(b) => b, Err(e) => { eprintln!("{:?}", e); std::process::exit(3); } };
    let mut st = State { arc, sub: None, osub: None };
    for t in &args[4..] {
        if let Err(e) = step(&mut st, t) { eprintln!("{} {}", t, e); failed = true; if args[3] == "stop" { break; } }
    }
    std::process::exit(if failed { 3 } else { 0 });
}
