// stdin: tar file, number of keys, keys (each preceded by its length, u32); stdout: "X" if the file is rejected, else one line per key:
// "=" hexadecimal bytes, or "-"; "P" text if the library panics; then "."
mod generated { #![allow(warnings)] include!("generated.rs"); }
use flatdata::{FileResourceStorage, ResourceStorage, StorageHandle, TarArchiveResourceStorage};
use std::io::{self, Read, Write};
use std::os::unix::ffi::OsStringExt;

fn frame(s: &mut dyn Read) -> Option<Vec<u8>> {
    let mut n = [0; 4];
    s.read_exact(&mut n).ok()?;
    let mut d = vec![0; u32::from_le_bytes(n) as usize];
    s.read_exact(&mut d).ok()?;
    Some(d)
}

fn hex(d: &[u8]) -> String { d.iter().map(|b| format!("{:02x}", b)).collect() }

// the same resource through every number of subdirectories
fn read(storage: &StorageHandle, key: &str) -> String {
    let mut out = Vec::new();
    let cuts: Vec<usize> = key.match_indices('/').map(|(i, _)| i).filter(|i| *i > 0 && *i + 1 < key.len()).collect();
    for bits in 0..1u32 << cuts.len().min(3) {
        let (mut s, mut at) = (storage.clone(), 0);
        for (i, c) in cuts.iter().enumerate() { if bits >> i & 1 == 1 { s = s.subdir(&key[at..*c]); at = c + 1; } }
        let name = &key[at..];
        let r = match s.read_resource(name) { Ok(d) => format!("={}", hex(d)), Err(e) => if e.kind() == io::ErrorKind::NotFound { "-".into() } else { format!("error {:?}", e) } };
        if s.exists(name) != r.starts_with("=") { return format!("exists {} but {}", s.exists(name), r); }
        out.push(r);
    }
    if out.iter().any(|r| r != &out[0]) { return format!("differs {:?}", out); }
    out.remove(0)
}

fn show(storage: StorageHandle) -> String { match generated::n::Arc::open(storage) { Ok(a) => format!("{:?}", a), Err(e) => format!("error {:?}", e) } }

fn main() {
    std::panic::set_hook(Box::new(|_| ()));
    let file = std::path::PathBuf::from(std::ffi::OsString::from_vec(std::env::args_os().nth(1).unwrap().into_vec()));
    let (mut s, mut o) = (io::stdin(), io::stdout());
    while let Some(tar) = frame(&mut s) {
        let keys: Vec<Vec<u8>> = { let n = frame(&mut s).unwrap()[0]; (0..n).map(|_| frame(&mut s).unwrap()).collect() };
        std::fs::remove_file(&file).ok();
        std::fs::write(&file, &tar).unwrap();
        let r = std::panic::catch_unwind(|| {
            let mut out = String::new();
            if keys.len() == 1 && keys[0].starts_with(b"dir:") { // the same archive from a directory and from the tar
                let parts: Vec<&str> = std::str::from_utf8(&keys[0][4..]).unwrap().split(':').collect();
                let mut t: StorageHandle = TarArchiveResourceStorage::new(&file).unwrap();
                if !parts[1].is_empty() { t = t.subdir(parts[1]); }
                let (a, b) = (show(FileResourceStorage::new(parts[0])), show(t));
                return if a == b && a.starts_with("Arc") { "same\n".into() } else { format!("from the directory {} from the tar {}\n", a, b) };
            }
            match TarArchiveResourceStorage::new(&file) {
                Err(_) => out.push_str("X\n"),
                Ok(t) => { let t: StorageHandle = t; for k in &keys { if let Ok(k) = std::str::from_utf8(k) { out.push_str(&read(&t, k)); } else { out.push('?'); } out.push('\n'); } }
            }
            out
        });
        match r { Ok(t) => o.write_all(t.as_bytes()).unwrap(),
                  Err(p) => o.write_all(format!("P {}\n", p.downcast_ref::<String>().cloned().or(p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default()).as_bytes()).unwrap() }
        o.write_all(b".\n").unwrap();
        o.flush().unwrap();
    }
}
