// Opening of archives whose resources are limited by explicit references (cpp/refs.flatdata): all sizes around every limit.
mod generated { #![allow(warnings)] include!("generated.rs"); }
use generated::n;
use flatdata::{MemoryResourceStorage, ResourceStorageError, Vector};

fn run(target: usize, otarget: i64, raw: usize, multi: usize, ranged: usize, free: usize, count: &mut usize, failures: &mut usize) {
    let storage = MemoryResourceStorage::new("/refs");
    {
        let b = n::ArcBuilder::new(storage.clone()).unwrap();
        let v = |k: usize| -> Vector<n::T> { Vector::with_len(k) };
        b.set_refs(&Vector::<n::R>::with_len(2).as_view()).unwrap();
        b.set_refs2(&Vector::<n::R>::new().as_view()).unwrap();
        b.set_ns(&Vector::<n::N>::with_len(2).as_view()).unwrap();
        b.set_target(&v(target).as_view()).unwrap();
        if otarget >= 0 { b.set_otarget(&v(otarget as usize).as_view()).unwrap(); }
        b.set_rawtarget(&vec![120; raw]).unwrap();
        let mut m = b.start_mtarget().unwrap();
        for i in 0..multi { let mut l = m.grow().unwrap(); if i % 2 == 1 { l.add_t().set_t(i as u16); l.add_t(); } }
        m.close().unwrap();
        b.set_ranged(&v(ranged).as_view()).unwrap();
        b.set_free(&v(free).as_view()).unwrap();
    }
    *count += 1;
    let sizes: Vec<(&str, usize, usize)> = vec![("target", target, 4), ("otarget", otarget.max(0) as usize, 8), ("rawtarget", raw, 4), ("mtarget", multi, 8), ("ranged", ranged, 16)];
    let large: Vec<_> = sizes.iter().filter(|(_, size, limit)| size > limit).collect();
    let got = match n::Arc::open(storage) {
        Ok(a) => if large.is_empty() && a.target().len() == target && a.otarget().map(|o| o.len() as i64).unwrap_or(-1) == otarget && a.rawtarget().len() == raw
                && a.mtarget().len() == multi && a.ranged().len() == ranged && a.free().len() == free { return } else { "an archive".to_string() },
        Err(ResourceStorageError::TooBig { resource_name, size }) => if large.iter().any(|(n, s, _)| *n == resource_name && *s == size) { return } else { format!("too large {} of {}", resource_name, size) },
        Err(e) => format!("{:?}", e),
    };
    *failures += 1;
    if *failures < 10 {
        println!("FAIL|target={} otarget={} rawtarget={} mtarget={} ranged={} free={}|opening gives {}, too large are {:?}", target, otarget, raw, multi, ranged, free, got, large);
    }
}

fn main() {
    let (mut c, mut f) = (0, 0);
    for t in [0, 3, 4, 5, 8] { for o in [-1, 0, 4, 7, 8, 9, 16] { for r in [0, 3, 4, 5] { for m in [0, 7, 8, 9] { for g in [0, 15, 16, 17] { for x in [0, 20] {
        run(t, o, r, m, g, x, &mut c, &mut f);
    } } } } } }
    for i in 0..20 {
        run(i, 0, 0, 0, 0, 0, &mut c, &mut f); run(0, i as i64, 0, 0, 0, 0, &mut c, &mut f); run(0, 0, i, 0, 0, 0, &mut c, &mut f);
        run(0, 0, 0, i, 0, 0, &mut c, &mut f); run(0, 0, 0, 0, i, 0, &mut c, &mut f);
    }
    run(0, 0, 0, 0, 0, 70000, &mut c, &mut f);
    println!("COUNT|{}", c);
}
