// P36: writes one huge resource. usage: largewrite KIND PATH COUNT LO HI ... (bytes of the payload are zero but in [LO, HI))
mod generated { #![allow(warnings)] include!("generated.rs"); }
use generated::n;
use flatdata::{FileResourceStorage, Vector};

fn value(p: u64) -> u8 { ((p.wrapping_mul(0x9E3779B97F4A7C15) >> 40) % 255 + 1) as u8 }
fn fill(windows: &[(u64, u64)], bytes: &mut [u8], p: u64) -> bool {
    let mut any = false;
    for (lo, hi) in windows {
        let mut q = p.max(*lo);
        while q < (p + bytes.len() as u64).min(*hi) { bytes[(q - p) as usize] = value(q); any = true; q += 1; }
    }
    any
}
extern "C" { fn mmap(p: *mut u8, n: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8; }

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let kind = args[1].as_str();
    let count: u64 = args[3].parse().unwrap();
    let w: Vec<(u64, u64)> = args[4..].chunks(2).map(|x| (x[0].parse().unwrap(), x[1].parse().unwrap())).collect();
    let a = n::ABuilder::new(FileResourceStorage::new(&args[2])).unwrap();
    if kind != "b" { a.set_b(&Vector::<n::B>::with_len(1).as_view()).unwrap(); }
    a.set_w(&Vector::<n::W>::with_len(1).as_view()).unwrap();
    if kind != "t" { a.set_t(&Vector::<n::T>::new().as_view()).unwrap(); }
    if kind != "r" { a.set_r(b"raw").unwrap(); }
    if kind != "m" { a.start_m().unwrap().close().unwrap(); }
    if kind != "l" { a.set_l(&Vector::<n::L>::new().as_view()).unwrap(); }
    let set = |e: &mut n::L, p: u64| { let mut bytes = [0u8; 37]; if fill(&w, &mut bytes, p) { e.fill_from(n::L::from_bytes(&bytes)); } };
    match kind {
        "l" => {
            let mut v = a.start_l().unwrap();
            for i in 0..count { set(v.grow().unwrap(), i * 37); }
            assert_eq!(v.len() as u64, count);
            assert_eq!(v.close().unwrap().len() as u64, count);
        }
        "m" => {
            let mut m = a.start_m().unwrap();
            let mut p = 0;
            for _ in 0..count {
                let mut item = m.grow().unwrap();
                for _ in 0..60 { set(item.add_l(), p + 1); p += 38; }
            }
            assert_eq!(m.close().unwrap().len() as u64, count);
        }
        _ => {
            let bytes = (count * if kind == "t" { 3 } else { 1 }) as usize;
            let memory = unsafe { std::slice::from_raw_parts_mut(mmap(std::ptr::null_mut(), bytes, 3, 0x4022, -1, 0), bytes) };
            for (lo, hi) in &w { fill(&w, &mut memory[*lo as usize..*hi as usize], *lo); }
            match kind {
                "r" => a.set_r(memory).unwrap(),
                "t" => a.set_t(unsafe { std::slice::from_raw_parts(memory.as_ptr() as *const n::T, count as usize) }).unwrap(),
                _ => a.set_b(unsafe { std::slice::from_raw_parts(memory.as_ptr() as *const n::B, count as usize) }).unwrap(),
            }
        }
    }
    println!("ok");
}
