// Values of generated structures in Rust: compared, copied, printed. Reads the values from a file (see values.py).
#[path = "values_gen.rs"]
#[allow(warnings)]
pub mod gen;
use gen::n;
use std::fmt::Debug;

pub trait Value: Sized + Clone + Default + Debug + PartialEq + flatdata::Struct {
    fn put(&mut self, v: &[i64]);
    fn got(&self) -> Vec<i64>;
    fn fill(&mut self, other: &Self);
    fn bytes(&self) -> &[u8];
    fn view(data: &[u8]) -> &Self;
    fn view_mut(data: &mut [u8]) -> &mut Self;
    fn exact(data: &[u8]) -> &Self;
    fn exact_mut(data: &mut [u8]) -> &mut Self;
    fn fresh() -> Self;
}
include!("values_of.rs");

struct Case { value: Vec<i64>, bytes: Vec<u8>, text: String }
struct Kind { name: String, size: usize, cases: Vec<Case> }
static mut KINDS: Vec<Kind> = Vec::new();
static mut COUNT: u64 = 0;
static mut FAILURES: u64 = 0;

fn expect(ok: bool, name: &str, msg: &str) {
    unsafe {
        COUNT += 1;
        if !ok {
            FAILURES += 1;
            if FAILURES < 6 { println!("FAIL|{}|{}", name, msg.replace("\n", " ")); }
        }
    }
}

fn run<T: Value>(k: usize) {
    #[allow(static_mut_refs)]
    let kind = unsafe { &KINDS[k] };
    expect(T::SIZE_IN_BYTES == kind.size && !T::IS_OVERLAPPING_WITH_NEXT && std::mem::size_of::<T>() == kind.size, &kind.name, "size");
    let zero = T::fresh();
    expect(zero == T::default() && zero.bytes() == &vec![0u8; kind.size][..], &kind.name, "a new structure is not zero");
    let mut all = Vec::new();
    for c in &kind.cases {
        let name = format!("{} {:?}", kind.name, c.value);
        let mut s = T::fresh();
        s.put(&c.value);
        expect(s.bytes() == &c.bytes[..], &name, &format!("its bytes are {:?}", s.bytes()));
        expect(s.got() == c.value, &name, &format!("reads as {:?}", s.got()));
        expect(format!("{:?}", s) == c.text, &name, &format!("prints {:?}", s));
        // over what was there before
        let mut data = vec![0xffu8; kind.size + 9];
        T::view_mut(&mut data).put(&c.value);
        expect(T::view(&data).got() == c.value && data[kind.size..] == [0xff; 9], &name, "a view of bytes differs");
        expect(*T::view(&data) == s, &name, "a view of bytes is not equal");
        let mut data = vec![0x5au8; kind.size];
        T::exact_mut(&mut data).put(&c.value);
        expect(T::exact(&data).got() == c.value && *T::exact(&data) == s && T::exact(&data).bytes() == &data[..], &name, "a view of an array differs");
        let other = s.clone();
        expect(other == s && other.bytes() == s.bytes(), &name, "its clone differs");
        s.put(&vec![0; c.value.len()]);
        expect(other.got() == c.value, &name, "its clone is not independent");
        all.push(other);
    }
    for (x, a) in kind.cases.iter().zip(&all) {
        for (y, b) in kind.cases.iter().zip(&all) {
            let name = format!("{} {:?} and {:?}", kind.name, x.value, y.value);
            let same = x.value == y.value;
            expect((a == b) == same, &name, "==");
            expect((a != b) != same, &name, "!=");
            expect((a == &b.clone()) == same, &name, "== with a clone");
            let mut t = a.clone();
            t.fill(b);
            expect(t == *b && t.got() == y.value && a.got() == x.value && t.bytes() == &y.bytes[..], &name, &format!("filling it gives {:?}", t));
        }
    }
}

#[allow(static_mut_refs)]
fn main() {
    let data = std::fs::read_to_string(std::env::args().nth(1).unwrap()).unwrap();
    for line in data.lines() {
        let w: Vec<&str> = line.splitn(2, '|').collect();
        let f: Vec<&str> = w[0].split_whitespace().collect();
        unsafe {
            if f[0] == "S" {
                KINDS.push(Kind { name: f[1].into(), size: f[2].parse().unwrap(), cases: vec![] });
            } else {
                KINDS.last_mut().unwrap().cases.push(Case {
                    value: f[2..].iter().map(|x| x.parse().unwrap()).collect(),
                    bytes: (0..f[1].len() / 2).map(|i| u8::from_str_radix(&f[1][2 * i..2 * i + 2], 16).unwrap()).collect(),
                    text: w[1].into() });
            }
        }
    }
    all();
    unsafe {
        println!("COUNT {}", COUNT);
        std::process::exit((FAILURES != 0) as i32);
    }
}
