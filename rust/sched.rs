// Explores every schedule (up to a number of preemptions) of threads which use one storage of the Rust library. The library is compiled
// against a std whose locks and threads are those of shuttle, a scheduler of this program decides who runs at each of their operations.
// Freed memory and removed mappings are made unusable, so that slices into them are noticed.
// arguments: directory of an archive, preemptions; stdin: one scenario per line: "m|f thread thread ...", a thread is letters (operations)
mod generated { #![allow(warnings)] include!("generated.rs"); }
use flatdata::{FileResourceStorage, MemoryResourceStorage, StorageHandle};
use generated::n;
use shim::shuttle::{self, scheduler::{Schedule, Scheduler, Task, TaskId}};
use std::alloc::{GlobalAlloc, Layout, System};
use std::io::{BufRead, Write};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Arc;

// ---- freed memory -----------------------------------------------------------------------------------------------------------------
struct Quarantine;
const SLOTS: usize = 4096;
static mut FREED: [(usize, usize, usize); SLOTS] = [(0, 0, 0); SLOTS];
static mut NEXT: usize = 0;
static mut BUSY: bool = false;
unsafe impl GlobalAlloc for Quarantine {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if l.size() > 4096 || BUSY { return System.dealloc(p, l); }
        std::ptr::write_bytes(p, 0xdd, l.size());
        let (old, size, align) = FREED[NEXT];
        FREED[NEXT] = (p as usize, l.size(), l.align());
        NEXT = (NEXT + 1) % SLOTS;
        if old != 0 { System.dealloc(old as *mut u8, Layout::from_size_align_unchecked(size, align)); }
    }
}
#[global_allocator]
static ALLOCATOR: Quarantine = Quarantine;

extern "C" { fn syscall(n: i64, ...) -> i64; fn mprotect(p: *mut u8, n: usize, prot: i32) -> i32; }
const MAPS: usize = 2048;
static mut FILES: [usize; MAPS] = [0; MAPS];
static mut REMOVED: [(usize, usize); MAPS] = [(0, 0); MAPS];
static mut LAST: usize = 0;
#[no_mangle]
pub unsafe extern "C" fn mmap(p: *mut u8, n: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8 {
    let r = syscall(9, p, n, prot as i64, flags as i64, fd as i64, off) as isize;
    if r == -1 { return r as *mut u8; }
    if fd >= 0 { for f in 0..MAPS { if FILES[f] == 0 { FILES[f] = r as usize; break; } } }
    r as *mut u8
}
#[no_mangle]
pub unsafe extern "C" fn mmap64(p: *mut u8, n: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8 { mmap(p, n, prot, flags, fd, off) }
#[no_mangle]
pub unsafe extern "C" fn munmap(p: *mut u8, n: usize) -> i32 {
    for f in 0..MAPS {
        if FILES[f] == p as usize && FILES[f] != 0 {
            FILES[f] = 0;
            mprotect(p, n, 0);
            let (old, size) = REMOVED[LAST];
            REMOVED[LAST] = (p as usize, n);
            LAST = (LAST + 1) % MAPS;
            if old != 0 { syscall(11, old, size); }
            return 0;
        }
    }
    syscall(11, p, n) as i32
}

// ---- schedules --------------------------------------------------------------------------------------------------------------------
struct Bounded { limit: usize, choices: Vec<(usize, usize)>, step: usize, used: usize, first: bool, count: Arc<AtomicUsize>, steps: Arc<AtomicUsize> }
impl Scheduler for Bounded {
    fn new_execution(&mut self) -> Option<Schedule> {
        if !self.first {
            while let Some((at, n)) = self.choices.pop() { if at + 1 < n { self.choices.push((at + 1, n)); break; } }
            if self.choices.is_empty() { return None; }
        }
        self.first = false;
        self.step = 0;
        self.used = 0;
        self.count.fetch_add(1, Ordering::SeqCst);
        Some(Schedule::new(0))
    }
    fn next_task(&mut self, runnable: &[&Task], current: Option<TaskId>, _yielding: bool) -> Option<TaskId> {
        self.steps.fetch_add(1, Ordering::SeqCst);
        let ids: Vec<TaskId> = runnable.iter().map(|t| t.id()).collect();
        let mut options = ids.clone();
        let going = current.filter(|c| ids.contains(c));
        if let Some(c) = going {
            options.retain(|t| *t != c);
            options.insert(0, c);
            if self.used >= self.limit { options.truncate(1); }
        }
        let at = if options.len() == 1 { 0 } else {
            if self.step == self.choices.len() { self.choices.push((0, options.len())); }
            let (at, n) = self.choices[self.step];
            assert!(n == options.len(), "the program is not deterministic");
            self.step += 1;
            at
        };
        if going.is_some() && at > 0 { self.used += 1; }
        Some(options[at])
    }
    fn next_u64(&mut self) -> u64 { 0 }
}

// ---- operations -------------------------------------------------------------------------------------------------------------------
type Slice = (&'static [u8], Vec<u8>);
fn read(s: &StorageHandle, name: &str) -> &'static [u8] { unsafe { std::mem::transmute(s.read_resource(name).expect("read")) } }

struct Expected { us: Vec<u8>, a: Vec<u8>, signature: Vec<u8>, text: String }

fn operation(op: char, thread: usize, storage: &StorageHandle, e: &Expected, kept: &mut Vec<Slice>, archives: &mut Vec<n::Mid>, handles: &mut Vec<StorageHandle>) {
    let mut keep = |d: &'static [u8], want: &Vec<u8>| { assert!(d == &want[..], "read {:?}, expected {:?}", d, want); kept.push((d, want.clone())); };
    match op {
        'u' => keep(read(storage, "us"), &e.us),
        's' => keep(read(storage, "Mid.archive.schema"), &e.signature),
        'l' => { let sub = storage.subdir("leaf"); keep(read(&sub, "a"), &e.a); handles.push(sub); }
        'e' => assert!(storage.exists("us") && !storage.exists("none") && storage.subdir("leaf").exists("a")),
        'x' => assert!(storage.read_resource("none").map_err(|e| e.kind() == std::io::ErrorKind::NotFound) == Err(true)),
        'd' => { let t = format!("{:?}", storage); assert!(t.contains("Storage")); }
        'o' => { let m = n::Mid::open(storage.clone()).expect("open"); let t = format!("{:?}", m); assert!(t == e.text, "opened {}, expected {}", t, e.text); archives.push(m); }
        'w' => { // an own resource
            let name = format!("own{}", thread);
            storage.write(&name, "schema", name.as_bytes()).expect("write");
            let d = unsafe { std::mem::transmute::<&[u8], &'static [u8]>(storage.read(&name, "schema").expect("read own")) };
            keep(d, &name.into_bytes());
        }
        'b' => { // an own subarchive
            let s = storage.subdir(&format!("sub{}", thread));
            let b = n::m::LeafBuilder::new(s.clone()).expect("builder");
            let mut a = n::m::A::new();
            a.set_w(thread as u16);
            b.set_a(&a).expect("set");
            let mut v = b.start_v().expect("start");
            v.grow().expect("grow").set_w(77);
            v.close().expect("close");
            let l = n::m::Leaf::open(s).expect("own archive");
            assert!(l.a().w() == thread as u16 && l.v().len() == 1 && l.v()[0].w() == 77);
        }
        _ => panic!("operation"),
    }
}

fn scenario(dir: &str, scratch: &str, memory: bool, threads: &[String], files: &[(String, Vec<u8>)], e: &Arc<Expected>) {
    let storage: StorageHandle = if memory {
        let s = MemoryResourceStorage::new("/m");
        for (name, data) in files {
            use flatdata::ResourceStorage;
            s.create_output_stream(name).unwrap().write_all(data).unwrap();
        }
        s
    } else {
        for i in 0..threads.len() {
            for p in [format!("own{}", i), format!("own{}.schema", i)] { std::fs::remove_file(format!("{}/{}", scratch, p)).ok(); }
            std::fs::remove_dir_all(format!("{}/sub{}", scratch, i)).ok();
        }
        FileResourceStorage::new(if threads.iter().any(|t| t.contains(|c| c == 'w' || c == 'b')) { scratch } else { dir })
    };
    let handles: Vec<_> = threads.iter().enumerate().map(|(i, ops)| {
        let (ops, storage, e) = (ops.clone(), storage.clone(), e.clone());
        shuttle::thread::spawn(move || {
            let (mut kept, mut archives, mut handles) = (Vec::new(), Vec::new(), Vec::new());
            for op in ops.chars() { operation(op, i, &storage, &e, &mut kept, &mut archives, &mut handles); }
            for (d, want) in &kept { assert!(*d == &want[..], "a slice changed to {:?}, it was {:?}", d, want); }
            (kept, archives, handles)
        })
    }).collect();
    // what was read stays valid as long as the storage
    for h in handles {
        let (kept, archives, _handles) = h.join().unwrap();
        for (d, want) in kept { assert!(d == &want[..], "a slice changed to {:?}, it was {:?}", d, want); }
        for m in archives { let t = format!("{:?}", m); assert!(t == e.text, "an open archive changed to {}, it was {}", t, e.text); }
    }
}

fn collect(dir: &std::path::Path, prefix: &str, out: &mut Vec<(String, Vec<u8>)>) {
    for e in std::fs::read_dir(dir).unwrap() {
        let e = e.unwrap();
        let name = format!("{}{}", prefix, e.file_name().to_str().unwrap());
        if e.path().is_dir() { collect(&e.path(), &(name + "/"), out) } else { out.push((name, std::fs::read(e.path()).unwrap())); }
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let (dir, limit) = (args[1].clone(), args[2].parse().unwrap());
    let mut files = Vec::new();
    collect(std::path::Path::new(&dir), "", &mut files);
    let scratch = format!("{}.own{}", dir, std::process::id());
    for (name, data) in &files {
        let p = std::path::Path::new(&scratch).join(name);
        std::fs::create_dir_all(p.parent().unwrap()).unwrap();
        std::fs::write(p, data).unwrap();
    }
    let content = |name: &str| files.iter().find(|f| f.0 == name).unwrap().1.clone();
    // expectations without any other thread (in a schedule of its own, locks need one)
    let text = Arc::new(std::sync::Mutex::new(String::new()));
    {
        let (text, dir) = (text.clone(), dir.clone());
        shuttle::check_dfs(move || { *text.lock().unwrap() = format!("{:?}", n::Mid::open(FileResourceStorage::new(&dir)).unwrap()); }, Some(1));
    }
    let e = Arc::new(Expected { us: content("us"), a: content("leaf/a"), signature: content("Mid.archive.schema"), text: text.lock().unwrap().clone() });
    let files = Arc::new(files);
    let message = Arc::new(std::sync::Mutex::new(String::new()));
    { let m = message.clone(); std::panic::set_hook(Box::new(move |p| { let mut m = m.lock().unwrap(); if m.is_empty() { *m = format!("{}", p); } })); }
    for line in std::io::stdin().lock().lines() {
        let line = line.unwrap();
        println!("START|{}", line);
        std::io::stdout().flush().unwrap();
        let words: Vec<String> = line.split(' ').map(|w| w.to_string()).collect();
        let (count, steps) = (Arc::new(AtomicUsize::new(0)), Arc::new(AtomicUsize::new(0)));
        let s = Bounded { limit, choices: vec![], step: 0, used: 0, first: true, count: count.clone(), steps: steps.clone() };
        let (dir, scratch, files, e) = (dir.clone(), scratch.clone(), files.clone(), e.clone());
        let mut config = shuttle::Config::new();
        config.failure_persistence = shuttle::FailurePersistence::None;
        config.max_steps = shuttle::MaxSteps::None;
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            shuttle::Runner::new(s, config).run(move || scenario(&dir, &scratch, words[0] == "m", &words[1..], &files, &e));
        }));
        let failed = r.is_err();
        println!("{}|{}|{}|{}|{}", if failed { "FAIL" } else { "DONE" }, line, count.load(Ordering::SeqCst), steps.load(Ordering::SeqCst), message.lock().unwrap().replace('\n', " "));
        std::io::stdout().flush().unwrap();
        if failed { break; }
    }
    std::fs::remove_dir_all(&scratch).ok();
}
