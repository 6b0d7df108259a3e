mod exec;
mod expr;
mod ir;
mod z3;
use std::time::{Duration, Instant};
extern "C" { fn pipe(f: *mut i32) -> i32; fn fcntl(fd: i32, c: i32, a: i32) -> i32; fn write(fd: i32, b: *const u8, n: usize) -> isize; }
fn real_main() {
    let mut ll = String::new(); let mut out = String::new(); let mut hs = vec![]; let mut jobs = 1; let mut secs = 600u64; let mut tier = 0; let mut prof = false; let mut verbose = false; let mut steps = 20_000_000u64; let mut alloc = 1u64 << 31; let mut maxv = 8;
    let mut libs: Vec<String> = vec!["/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3/lib/libz3.so".into(), "/usr/lib/x86_64-linux-gnu/libz3.so".into(), "libz3.so.4".into()];
    let mut it = std::env::args().skip(1);
    while let Some(a) = it.next() {
        let mut v = || it.next().unwrap();
        match a.as_str() { "--ll" => ll = v(), "--out" => out = v(), "--jobs" => jobs = v().parse().unwrap(), "--secs" => secs = v().parse().unwrap(), "--tier" => tier = v().parse().unwrap(), "--steps" => steps = v().parse().unwrap(), "--alloc" => alloc = v().parse().unwrap(), "--max-viol" => maxv = v().parse().unwrap(), "--z3" => libs.insert(0, v()), "--prof" => prof = true, "-v" => verbose = true, _ => hs.push(a) }
    }
    expr::init();
    let m = ir::Module::load(&ll);
    if hs.is_empty() { for f in &m.funcs { if f.name.starts_with("h_") && f.body.is_some() { println!("{}", f.name) } } return }
    let z = z3::Z3::new(&libs);
    let mut e = exec::Engine::new(m, z);
    e.out = out; e.tier = tier; e.verbose = verbose; e.step_limit = steps; e.alloc_limit = alloc; e.max_viol = maxv;
    if prof { e.prof = Some(Default::default()) }
    e.deadline = Instant::now() + Duration::from_secs(secs);
    for h in &hs { if let Err(x) = e.start(h) { eprintln!("ENGINE-ERROR: {x}"); std::process::exit(70) } }
    if jobs > 1 { let mut f = [0i32; 2]; unsafe { pipe(f.as_mut_ptr()); fcntl(f[0], 4, 2048); let b = vec![1u8; jobs - 1]; write(f[1], b.as_ptr(), b.len()); } e.tok_r = f[0]; e.tok_w = f[1]; }
    e.run();
    e.finish();
}
fn main() {
    std::thread::Builder::new().stack_size(4 << 30).spawn(real_main).unwrap().join().unwrap();
}
