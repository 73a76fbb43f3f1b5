//! Interface between harnesses and the symbolic engine / the native replayer.
mod raw {
    extern "C" {
        pub fn vx_bytes(p: *mut u8, n: usize, name: *const u8, nl: usize);
        pub fn vx_assume(c: bool);
        pub fn vx_assert(c: bool, msg: *const u8, ml: usize);
        pub fn vx_reach(id: u64);
        pub fn vx_concretize(v: u64) -> u64;
        pub fn vx_param(i: u64) -> u64;
        pub fn vx_note(msg: *const u8, ml: usize, v: u64);
        pub fn vx_file_make(name: *const u8, nl: usize, p: *const u8, n: usize);
        pub fn vx_file_read(name: *const u8, nl: usize, p: *mut u8, n: usize) -> u64;
        pub fn vx_catch(f: extern "C" fn() -> i32) -> i32;
        pub fn vx_args_init(argc: i32, argv: *const *const u8, envp: *const *const u8);
    }
}
/// Make `b` arbitrary.
pub fn bytes(b: &mut [u8], name: &str) {
    if b.is_empty() {
        return;
    }
    unsafe { raw::vx_bytes(b.as_mut_ptr(), b.len(), name.as_ptr(), name.len()) }
}
pub fn any<const N: usize>(name: &str) -> [u8; N] {
    let mut b = [0u8; N];
    bytes(&mut b, name);
    b
}
pub fn u8(name: &str) -> u8 {
    any::<1>(name)[0]
}
pub fn u16(name: &str) -> u16 {
    u16::from_le_bytes(any::<2>(name))
}
pub fn u64(name: &str) -> u64 {
    u64::from_le_bytes(any::<8>(name))
}
pub fn assume(c: bool) {
    unsafe { raw::vx_assume(c) }
}
pub fn check(c: bool, msg: &str) {
    unsafe { raw::vx_assert(c, msg.as_ptr(), msg.len()) }
}
pub fn reach(id: u64) {
    unsafe { raw::vx_reach(id) }
}
/// Split into one path per feasible value.
pub fn split(v: u64) -> u64 {
    unsafe { raw::vx_concretize(v) }
}
pub fn split_u8(v: u8) -> u8 {
    split(v as u64) as u8
}
pub fn param(i: u64) -> u64 {
    unsafe { raw::vx_param(i) }
}
pub fn note(msg: &str, v: u64) {
    unsafe { raw::vx_note(msg.as_ptr(), msg.len(), v) }
}
pub fn file_make(name: &str, data: &[u8]) {
    unsafe { raw::vx_file_make(name.as_ptr(), name.len(), data.as_ptr(), data.len()) }
}
pub fn file_read(name: &str, data: &mut [u8]) -> u64 {
    unsafe { raw::vx_file_read(name.as_ptr(), name.len(), data.as_mut_ptr(), data.len()) }
}
/// Arbitrary value in 0..n (one path per value).
pub fn pick(name: &str, n: u64) -> u64 {
    let v = u8(name);
    assume((v as u64) < n);
    split(v as u64)
}

/// Run a program's entry point with these arguments; its output is in the files vx_stdout and vx_stderr.
pub fn program(args: &[&str], f: extern "C" fn() -> i32) -> i32 {
    let mut p: Vec<*const u8> = vec![];
    for a in args {
        let mut v = a.as_bytes().to_vec();
        v.push(0);
        p.push(Box::leak(v.into_boxed_slice()).as_ptr());
    }
    p.push(std::ptr::null());
    unsafe {
        raw::vx_args_init(args.len() as i32, Box::leak(p.into_boxed_slice()).as_ptr(), std::ptr::null());
        raw::vx_catch(f)
    }
}
