//! Runs one harness natively on concrete inputs: `replay FILE`.
//!
//! FILE has lines `harness NAME`, `shard N`, `tier N`, `in NAME HEX`.
//! Exit: 0 completed, 10 assertion failed, 11 known finding reached, 12 panic, 13 assumption false
//! (not a valid replay), 14 bad file.  Covers are printed as `COVER name`.
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap};

thread_local! {
    static IN: RefCell<BTreeMap<String, Vec<u8>>> = RefCell::new(BTreeMap::new());
    static SEEN: RefCell<HashMap<String, u32>> = RefCell::new(HashMap::new());
    static CFG: RefCell<(u64, u64)> = const { RefCell::new((0, 0)) };
}
struct Cap;
/// Mirrors the executor's bound: one request above 64 MiB is a violation.
unsafe impl std::alloc::GlobalAlloc for Cap {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 {
        if l.size() > 64 << 20 { end(12, "PANIC huge allocation") }
        std::alloc::System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) { std::alloc::System.dealloc(p, l) }
    unsafe fn realloc(&self, p: *mut u8, l: std::alloc::Layout, n: usize) -> *mut u8 {
        if n > 64 << 20 { end(12, "PANIC huge allocation") }
        std::alloc::System.realloc(p, l, n)
    }
}
#[global_allocator]
static A: Cap = Cap;
fn s(p: *const u8, n: usize) -> String { String::from_utf8_lossy(unsafe { std::slice::from_raw_parts(p, n) }).into_owned() }
fn end(code: i32, what: &str) -> ! {
    println!("{}", what);
    use std::io::Write;
    let _ = std::io::stdout().flush();
    std::process::exit(code)
}
#[no_mangle]
pub extern "C" fn sym_bytes(p: *mut u8, n: usize, name: *const u8, nn: usize) {
    let name = s(name, nn);
    let k = SEEN.with(|m| { let mut m = m.borrow_mut(); let e = m.entry(name.clone()).or_insert(0); *e += 1; *e - 1 });
    let key = if k == 0 { name } else { format!("{}#{}", name, k) };
    let v = IN.with(|m| m.borrow().get(&key).cloned().unwrap_or_default());
    for i in 0..n { unsafe { *p.add(i) = *v.get(i).unwrap_or(&0) } }
}
#[no_mangle]
pub extern "C" fn sym_assume(c: u8) { if c == 0 { end(13, "ASSUMPTION FALSE") } }
#[no_mangle]
pub extern "C" fn sym_assert(c: u8, p: *const u8, n: usize) { if c == 0 { end(10, &format!("FAIL {}", s(p, n))) } }
#[no_mangle]
pub extern "C" fn sym_fail(p: *const u8, n: usize) -> ! { end(10, &format!("FAIL {}", s(p, n))) }
#[no_mangle]
pub extern "C" fn sym_done() -> ! { end(0, "DONE") }
#[no_mangle]
pub extern "C" fn sym_known(p: *const u8, n: usize) -> ! { end(11, &format!("KNOWN {}", s(p, n))) }
#[no_mangle]
pub extern "C" fn sym_cover(p: *const u8, n: usize) { println!("COVER {}", s(p, n)) }
#[no_mangle]
pub extern "C" fn sym_concretize(v: u64) -> u64 { v }
#[no_mangle]
pub extern "C" fn sym_shard() -> u64 { CFG.with(|c| c.borrow().0) }
#[no_mangle]
pub extern "C" fn sym_tier() -> u64 { CFG.with(|c| c.borrow().1) }
#[no_mangle]
pub extern "C" fn sym_token(_: *const u8, _: *const u8, _: u64, _: *mut u8) {}
#[no_mangle]
pub extern "C" fn sym_native() -> u64 { 1 }

fn main() {
    let f = std::env::args().nth(1).unwrap_or_default();
    let text = std::fs::read_to_string(&f).unwrap_or_else(|e| end(14, &format!("{}: {}", f, e)));
    let (mut name, mut shard, mut tier) = (String::new(), 0, 0);
    for l in text.lines() {
        let w: Vec<&str> = l.split_whitespace().collect();
        match w.first().copied() {
            Some("harness") => name = w[1].into(),
            Some("shard") => shard = w[1].parse().unwrap(),
            Some("tier") => tier = w[1].parse().unwrap(),
            Some("in") => {
                let h = w.get(2).copied().unwrap_or("");
                let b = (0..h.len() / 2).map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap()).collect();
                IN.with(|m| m.borrow_mut().insert(w[1].into(), b));
            }
            _ => {}
        }
    }
    CFG.with(|c| *c.borrow_mut() = (shard, tier));
    std::panic::set_hook(Box::new(|i| end(12, &format!("PANIC {}", i).replace('\n', " "))));
    let Some(h) = harness::entries().find(|e| e.0 == name) else { end(14, &format!("no harness {}", name)) };
    (h.1)();
    end(0, "OK")
}
