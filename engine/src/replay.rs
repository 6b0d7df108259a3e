//! Native replay: runs one harness of the compiled library on recorded inputs.
//!   vreplay LIB HARNESS INPUTS TIER     (INPUTS: lines "name hex", in order)
//! Prints COVER/OBS/ASSERT lines and DONE at the end of the run; a panic aborts the process.
use std::collections::HashMap;
use std::ffi::{c_char, c_int, c_void, CString};
use std::sync::Mutex;

extern "C" {
    fn dlopen(f: *const c_char, flag: c_int) -> *mut c_void;
    fn dlsym(h: *mut c_void, n: *const c_char) -> *mut c_void;
    fn dlerror() -> *const c_char;
    fn setrlimit(r: c_int, l: *const [u64; 2]) -> c_int;
}
struct Ctx { inputs: HashMap<String, Vec<Vec<u8>>>, used: HashMap<String, usize>, tier: u64 }
static CTX: Mutex<Option<Ctx>> = Mutex::new(None);

unsafe fn s(p: *const u8, n: usize) -> String { String::from_utf8_lossy(std::slice::from_raw_parts(p, n)).into_owned() }
fn next(name: &str, n: usize) -> Vec<u8> {
    let mut g = CTX.lock().unwrap();
    let c = g.as_mut().unwrap();
    let k = c.used.entry(name.to_string()).or_default();
    let v = c.inputs.get(name).and_then(|v| v.get(*k)).cloned().unwrap_or_default();
    *k += 1;
    let mut v = v; v.resize(n, 0); v
}
#[no_mangle] pub unsafe extern "C" fn vsym_bytes(p: *mut u8, n: usize, name: *const u8, nl: usize) { let v = next(&s(name, nl), n); std::ptr::copy_nonoverlapping(v.as_ptr(), p, n) }
#[no_mangle] pub unsafe extern "C" fn vsym_choice(n: u64, name: *const u8, nl: usize) -> u64 { let v = next(&s(name, nl), 1)[0] as u64; if v >= n { println!("ASSUME"); std::process::exit(4) } v }
#[no_mangle] pub extern "C" fn vsym_concretize(v: u64) -> u64 { v }
#[no_mangle] pub extern "C" fn vsym_is_symbolic(_v: u64) -> u64 { 0 }
#[no_mangle] pub extern "C" fn vsym_assume(c: bool) { if !c { println!("ASSUME"); std::process::exit(4) } }
#[no_mangle] pub unsafe extern "C" fn vsym_assert(c: bool, m: *const u8, n: usize) { if !c { println!("ASSERT {}", s(m, n)); std::process::exit(3) } }
#[no_mangle] pub unsafe extern "C" fn vsym_cover(m: *const u8, n: usize) { println!("COVER {}", s(m, n)) }
#[no_mangle] pub unsafe extern "C" fn vsym_observe(p: *const u8, n: usize, nm: *const u8, nl: usize) { let b = if n == 0 { vec![] } else { std::slice::from_raw_parts(p, n).to_vec() }; let hex: String = b.iter().map(|x| format!("{x:02x}")).collect(); println!("OBS {} {hex}", s(nm, nl)) }
#[no_mangle] pub extern "C" fn vsym_fmt(_on: bool) {}
#[no_mangle] pub extern "C" fn vsym_tier() -> u64 { CTX.lock().unwrap().as_ref().unwrap().tier }
#[no_mangle] pub unsafe extern "C" fn vsym_debug(m: *const u8, n: usize, v: u64) { eprintln!("DBG {} {v:#x}", s(m, n)) }

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let (lib, h, inp, tier) = (&a[1], &a[2], &a[3], a[4].parse().unwrap());
    let mut inputs: HashMap<String, Vec<Vec<u8>>> = HashMap::new();
    for l in std::fs::read_to_string(inp).unwrap().lines() {
        let (n, x) = l.split_once(' ').unwrap_or((l, ""));
        inputs.entry(n.to_string()).or_default().push((0..x.len() / 2).map(|i| u8::from_str_radix(&x[2 * i..2 * i + 2], 16).unwrap()).collect());
    }
    *CTX.lock().unwrap() = Some(Ctx { inputs, used: HashMap::new(), tier });
    // keep the functions alive
    let keep: [*const (); 11] = [vsym_bytes as *const (), vsym_choice as *const (), vsym_concretize as *const (), vsym_is_symbolic as *const (), vsym_assume as *const (), vsym_assert as *const (), vsym_cover as *const (), vsym_observe as *const (), vsym_tier as *const (), vsym_debug as *const (), vsym_fmt as *const ()];
    std::hint::black_box(keep);
    unsafe {
        setrlimit(4, &[0, 0]); // no core files
        let l = [3u64 << 30, 3 << 30];
        setrlimit(9, &l); // address space
        let c = CString::new(lib.as_str()).unwrap();
        let d = dlopen(c.as_ptr(), 2);
        if d.is_null() { eprintln!("dlopen: {}", std::ffi::CStr::from_ptr(dlerror()).to_string_lossy()); std::process::exit(70) }
        let n = CString::new(h.as_str()).unwrap();
        let f = dlsym(d, n.as_ptr());
        if f.is_null() { eprintln!("no harness {h}"); std::process::exit(70) }
        let f: extern "C" fn() = std::mem::transmute(f);
        f();
    }
    println!("DONE");
    std::process::exit(0)
}
