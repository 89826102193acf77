#[cfg(not(fxdmon_no_rt))]
mod imp {
    extern "C" {
        fn rt_instrumented() -> i32;
        fn rt_edges_total() -> u64;
        fn rt_edges_hit() -> u64;
        fn rt_features() -> u64;
        fn rt_cmps() -> u64;
        fn rt_begin();
        fn rt_end() -> u32;
        fn rt_rarest(h: *mut u64) -> u64;
        fn rt_hits(i: u64) -> u64;
        fn rt_consts(o: *mut u64, cap: u32) -> u32;
        fn rt_pairs(o: *mut u64, cap: u32) -> u32;
        fn rt_case(p: *const u8, n: u32);
        fn rt_install(p: *const i8, s: i32);
    }
    pub fn instrumented() -> bool {
        unsafe { rt_instrumented() != 0 }
    }
    pub fn edges() -> (u64, u64) {
        unsafe { (rt_edges_hit(), rt_edges_total()) }
    }
    pub fn features() -> u64 {
        unsafe { rt_features() }
    }
    pub fn cmps() -> u64 {
        unsafe { rt_cmps() }
    }
    pub fn begin() {
        unsafe { rt_begin() }
    }
    pub fn end() -> u32 {
        unsafe { rt_end() }
    }
    /// rarest edge of the last execution, and the number of executions that reached it
    pub fn rarest() -> (u32, u64) {
        let mut h = 0;
        let e = unsafe { rt_rarest(&mut h) };
        (e as u32, h)
    }
    pub fn hits(i: u32) -> u64 {
        unsafe { rt_hits(i as u64) }
    }
    pub fn consts() -> Vec<u64> {
        let mut v = vec![0u64; 2048];
        let n = unsafe { rt_consts(v.as_mut_ptr(), 2048) };
        v.truncate(n as usize);
        v
    }
    pub fn pairs() -> Vec<[u64; 2]> {
        let mut v = vec![[0u64; 2]; 256];
        let n = unsafe { rt_pairs(v.as_mut_ptr() as *mut u64, 256) };
        v.truncate(n as usize);
        v
    }
    pub fn case(b: &[u8]) {
        unsafe { rt_case(b.as_ptr(), b.len() as u32) }
    }
    pub fn install(path: &str, secs: i32) {
        let c = std::ffi::CString::new(path).unwrap();
        unsafe { rt_install(c.as_ptr() as *const i8, secs) }
    }
}
#[cfg(fxdmon_no_rt)]
mod imp {
    pub fn instrumented() -> bool {
        false
    }
    pub fn edges() -> (u64, u64) {
        (0, 0)
    }
    pub fn features() -> u64 {
        0
    }
    pub fn cmps() -> u64 {
        0
    }
    pub fn begin() {}
    pub fn end() -> u32 {
        0
    }
    pub fn rarest() -> (u32, u64) {
        (u32::MAX, u64::MAX)
    }
    pub fn hits(_: u32) -> u64 {
        0
    }
    pub fn consts() -> Vec<u64> {
        vec![]
    }
    pub fn pairs() -> Vec<[u64; 2]> {
        vec![]
    }
    pub fn case(_: &[u8]) {}
    pub fn install(_: &str, _: i32) {}
}
pub use imp::*;
