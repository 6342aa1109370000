// P36: reads archives with huge (sparse) resources. stdin: "open dir|tar PATH", "size R", "at R I", "end".
mod generated { #![allow(warnings)] include!("generated.rs"); }
use generated::n;
use flatdata::{FileResourceStorage, TarArchiveResourceStorage};
use std::io::BufRead;

fn b(e: &n::B) -> String { format!("{}", e.x()) }
fn t(e: &n::T) -> String { format!("{},{}", e.x(), e.y()) }
fn w(e: &n::W) -> String { format!("{},{}", e.x(), e.y()) }
fn l(e: &n::L) -> String { format!("{},{},{},{},{}", e.a(), e.b(), e.c(), e.d(), e.e()) }

fn at<T>(v: &[T], i: usize, show: fn(&T) -> String) -> String {
    let k = v.len();
    let forms = vec![show(&v[i]), show(v.get(i).unwrap()), show(&v[i..][0]), show(&v[..i + 1][i]), show(v.iter().nth(i).unwrap()), show(v.iter().rev().nth(k - i - 1).unwrap())];
    if forms.iter().all(|f| *f == forms[0]) { forms[0].clone() } else { format!("differs by the way of access: {}", forms.join(" ")) }
}
fn show(r: n::MRef) -> String { match r { n::MRef::B(e) => format!("B{}", b(e)), n::MRef::W(e) => format!("W{}", w(e)), n::MRef::L(e) => format!("L{}", l(e)) } }

fn answer(a: &n::A, op: &str, r: &str, i: usize) -> String {
    let m = a.m();
    let raw = a.r();
    match (op, r) {
        ("size", "b") => format!("{} {}", a.b().len(), std::mem::size_of_val(a.b())),
        ("size", "t") => format!("{} {}", a.t().len(), std::mem::size_of_val(a.t())),
        ("size", "w") => format!("{} {}", a.w().len(), std::mem::size_of_val(a.w())),
        ("size", "l") => format!("{} {}", a.l().len(), std::mem::size_of_val(a.l())),
        ("size", "m") => format!("{}", m.len()),
        ("size", "r") => format!("{}", raw.len()),
        ("at", "b") => at(a.b(), i, b),
        ("at", "t") => at(a.t(), i, t),
        ("at", "w") => at(a.w(), i, w),
        ("at", "l") => at(a.l(), i, l),
        ("at", "m") => {
            let one = m.at(i).map(show).collect::<Vec<_>>().join(" ");
            let two = m.slice(i..i + 1).at(0).map(show).collect::<Vec<_>>().join(" ");
            if one == two { one } else { format!("differs: {} / {}", one, two) }
        }
        ("at", "r") => if raw.as_bytes()[i] == raw[i] && (raw[i] == 0) == raw.substring_raw(i).is_empty() { format!("{}", raw[i]) } else { "differs".to_string() },
        _ => String::new(),
    }
}

fn main() {
    let mut archive = None;
    for line in std::io::stdin().lock().lines() {
        let line = line.unwrap();
        let p: Vec<&str> = line.split(' ').collect();
        let out = if p[0] == "open" {
            archive = None;
            let storage = if p[1] == "tar" { TarArchiveResourceStorage::new(p[2]).map(|x| -> flatdata::StorageHandle { x }).map_err(|e| format!("{:?}", e)) } else { Ok(FileResourceStorage::new(p[2]) as flatdata::StorageHandle) };
            match storage {
                Ok(s) => match n::A::open(s) { Ok(a) => { archive = Some(a); "open".to_string() } Err(_) => "closed".to_string() },
                Err(_) => "closed".to_string(),
            }
        } else {
            match &archive { Some(a) => answer(a, p[0], p[1], p.get(2).map(|x| x.parse().unwrap()).unwrap_or(0)), None => "not open".to_string() }
        };
        println!("{}", out);
    }
}
