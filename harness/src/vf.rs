//! Verification API. Under `--features symbolic` the functions are intercepted by the symbolic
//! executor; natively they replay a recorded model (one `label value` line per symbolic input).
#![allow(dead_code)]
#[cfg(feature = "symbolic")]
mod imp {
    extern "C" {
        fn vf_sym(p: *const u8, n: usize, lo: u64, hi: u64) -> u64;
        fn vf_assume(c: bool);
        fn vf_assert(c: bool, p: *const u8, n: usize);
        fn vf_reach(p: *const u8, n: usize);
        fn vf_observe(v: u64);
        fn vf_concretize(v: u64) -> u64;
        fn vf_param(p: *const u8, n: usize, d: u64) -> u64;
        fn vf_log(p: *const u8, n: usize, v: u64);
        fn vf_ite(c: bool, a: u64, b: u64) -> u64;
    }
    pub fn sym(l: &str, lo: u64, hi: u64) -> u64 { unsafe { vf_sym(l.as_ptr(), l.len(), lo, hi) } }
    pub fn assume(c: bool) { unsafe { vf_assume(c) } }
    pub fn check(c: bool, m: &str) { unsafe { vf_assert(c, m.as_ptr(), m.len()) } }
    pub fn reach(m: &str) { unsafe { vf_reach(m.as_ptr(), m.len()) } }
    pub fn observe(v: u64) { unsafe { vf_observe(v) } }
    pub fn concretize(v: u64) -> u64 { unsafe { vf_concretize(v) } }
    pub fn param(l: &str, d: u64) -> u64 { unsafe { vf_param(l.as_ptr(), l.len(), d) } }
    pub fn log(l: &str, v: u64) { unsafe { vf_log(l.as_ptr(), l.len(), v) } }
    pub fn ite(c: bool, a: u64, b: u64) -> u64 { unsafe { vf_ite(c, a, b) } }
    pub fn finish() {}
    pub fn jitter() {}
}
#[cfg(not(feature = "symbolic"))]
mod imp {
    use std::sync::Mutex;
    static TAPE: Mutex<Option<(Vec<(String, u64)>, usize)>> = Mutex::new(None);
    fn die(code: i32, m: String) -> ! { println!("{}", m); std::process::exit(code) }
    pub fn sym(l: &str, lo: u64, hi: u64) -> u64 {
        let mut g = TAPE.lock().unwrap();
        if g.is_none() {
            let f = std::env::var("VF_REPLAY").unwrap_or_default();
            let t = std::fs::read_to_string(&f).unwrap_or_default();
            let v = t.lines().filter(|x| !x.is_empty() && !x.starts_with('#') && !x.starts_with("sched ")).map(|x| { let mut i = x.rsplitn(2, ' '); let v = i.next().unwrap().parse().unwrap(); (i.next().unwrap_or("").to_string(), v) }).collect();
            *g = Some((v, 0));
        }
        let (tape, pos) = g.as_mut().unwrap();
        if *pos >= tape.len() { die(92, format!("VF-TAPE-EXHAUSTED at {}", l)) }
        let (n, v) = &tape[*pos];
        *pos += 1;
        if n != l { die(90, format!("VF-TAPE-MISMATCH expected {} got {}", n, l)) }
        if *v < lo || *v > hi { die(91, format!("VF-TAPE-RANGE {} = {}", l, v)) }
        *v
    }
    pub fn assume(c: bool) { if !c { die(93, "VF-ASSUMED-OUT".into()) } }
    pub fn check(c: bool, m: &str) { if !c { die(77, format!("VF-ASSERT-FAIL {}", m)) } }
    pub fn reach(m: &str) { println!("REACH {}", m) }
    pub fn observe(v: u64) { println!("OBS {}", v) }
    pub fn concretize(v: u64) -> u64 { v }
    pub fn param(l: &str, d: u64) -> u64 { std::env::var(format!("VF_PARAM_{}", l)).ok().and_then(|x| x.parse().ok()).unwrap_or(d) }
    pub fn log(l: &str, v: u64) { println!("LOG {} {}", l, v) }
    pub fn ite(c: bool, a: u64, b: u64) -> u64 { if c { a } else { b } }
    pub fn finish() { println!("VF-OK") }
    /// perturbs the native schedule when a counterexample that needs one is replayed
    pub fn jitter() {
        use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
        static S: AtomicU64 = AtomicU64::new(0);
        let seed: u64 = std::env::var("VF_JITTER").ok().and_then(|x| x.parse().ok()).unwrap_or(0);
        if seed == 0 { return; }
        let x = (S.fetch_add(1, SeqCst) + seed * 7919).wrapping_mul(0x9e3779b97f4a7c15) >> 33;
        if x % 3 == 0 { std::thread::sleep(std::time::Duration::from_micros(x % 700)) } else if x % 3 == 1 { std::thread::yield_now() }
    }
    #[no_mangle]
    pub unsafe extern "C" fn vf_cparam(n: *const i8, d: u64) -> u64 { param(std::ffi::CStr::from_ptr(n as *const _).to_str().unwrap(), d) }
}
pub use imp::*;
/// symbolic value, concretised: every value in the range is explored as a separate path family
pub fn choose(l: &str, lo: u64, hi: u64) -> u64 { concretize(sym(l, lo, hi)) }
pub fn flag(l: &str) -> bool { choose(l, 0, 1) == 1 }
