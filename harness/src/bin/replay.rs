//! Native re-execution of a harness on concrete inputs (counterexamples and
//! sampled witnesses of the symbolic engine), linked against the real crate.
//!
//! usage: replay FILE     (cwd: a scratch directory)
//! FILE:  harness NAME / params 1,2 / input NAME HEX ...
//! exit:  0 completed, 1 assertion failed, 2 usage, 77 assumption not met,
//!        101/134 panic
use std::io::Write;
use std::sync::Mutex;

struct St {
    inputs: Vec<(String, Vec<u8>)>,
    next: usize,
    params: Vec<u64>,
}
static ST: Mutex<St> = Mutex::new(St { inputs: vec![], next: 0, params: vec![] });

fn say(s: &str) {
    let o = std::io::stdout();
    let mut o = o.lock();
    let _ = writeln!(o, "{}", s);
    let _ = o.flush();
}
unsafe fn text(p: *const u8, n: usize) -> String {
    String::from_utf8_lossy(std::slice::from_raw_parts(p, n)).into_owned()
}

#[no_mangle]
pub unsafe extern "C" fn vx_bytes(p: *mut u8, n: usize, name: *const u8, nl: usize) {
    let name = text(name, nl);
    let mut st = ST.lock().unwrap();
    let out = std::slice::from_raw_parts_mut(p, n);
    let k = st.next;
    match st.inputs.get(k) {
        Some((nm, b)) if *nm == name && b.len() == n => out.copy_from_slice(b),
        _ => {
            say(&format!("MISMATCH input {} {} len {}", k, name, n));
            std::process::exit(3);
        }
    }
    st.next += 1;
}
#[no_mangle]
pub unsafe extern "C" fn vx_assume(c: bool) {
    if !c {
        say("ASSUME-FALSE");
        std::process::exit(77);
    }
}
#[no_mangle]
pub unsafe extern "C" fn vx_assert(c: bool, m: *const u8, ml: usize) {
    if !c {
        say(&format!("ASSERT-FAILED {}", text(m, ml)));
        std::process::exit(1);
    }
}
#[no_mangle]
pub unsafe extern "C" fn vx_reach(id: u64) {
    say(&format!("NOTE reach={}", id));
}
#[no_mangle]
pub unsafe extern "C" fn vx_concretize(v: u64) -> u64 {
    v
}
#[no_mangle]
pub unsafe extern "C" fn vx_param(i: u64) -> u64 {
    ST.lock().unwrap().params.get(i as usize).copied().unwrap_or(0)
}
#[no_mangle]
pub unsafe extern "C" fn vx_note(m: *const u8, ml: usize, v: u64) {
    say(&format!("NOTE {}={}", text(m, ml), v));
}
#[no_mangle]
pub unsafe extern "C" fn vx_file_make(name: *const u8, nl: usize, p: *const u8, n: usize) {
    let name = text(name, nl);
    assert!(!name.contains('/'), "harness files live in the scratch directory");
    std::fs::write(name, std::slice::from_raw_parts(p, n)).unwrap();
}
#[no_mangle]
pub unsafe extern "C" fn vx_file_read(name: *const u8, nl: usize, p: *mut u8, n: usize) -> u64 {
    match std::fs::read(text(name, nl)) {
        Ok(b) => {
            let k = n.min(b.len());
            std::slice::from_raw_parts_mut(p, k).copy_from_slice(&b[..k]);
            b.len() as u64
        }
        Err(_) => u64::MAX,
    }
}

extern "C" {
    fn fork() -> i32;
    fn waitpid(p: i32, s: *mut i32, o: i32) -> i32;
    fn dup2(a: i32, b: i32) -> i32;
    fn _exit(c: i32) -> !;
    static __init_array_start: [Option<unsafe extern "C" fn(i32, *const *const u8, *const *const u8)>; 0];
    static __init_array_end: [u8; 0];
}
/// Give the program new arguments: what the loader does at start-up.
#[no_mangle]
pub unsafe extern "C" fn vx_args_init(c: i32, v: *const *const u8, e: *const *const u8) {
    let mut p = std::ptr::addr_of!(__init_array_start) as *const Option<unsafe extern "C" fn(i32, *const *const u8, *const *const u8)>;
    let end = std::ptr::addr_of!(__init_array_end) as *const Option<unsafe extern "C" fn(i32, *const *const u8, *const *const u8)>;
    while p < end {
        if let Some(f) = *p {
            f(c, v, e);
        }
        p = p.add(1);
    }
}
/// Run a program in a child process with its standard streams in files.
#[no_mangle]
pub unsafe extern "C" fn vx_catch(f: extern "C" fn() -> i32) -> i32 {
    use std::os::fd::AsRawFd;
    if !std::path::Path::new("vx_stdin").exists() {
        std::fs::write("vx_stdin", b"").unwrap();
    }
    let i = std::fs::File::open("vx_stdin").unwrap();
    let o = std::fs::File::create("vx_stdout").unwrap();
    let e = std::fs::File::create("vx_stderr").unwrap();
    let pid = fork();
    if pid == 0 {
        dup2(i.as_raw_fd(), 0);
        dup2(o.as_raw_fd(), 1);
        dup2(e.as_raw_fd(), 2);
        _exit(f());
    }
    let mut st = 0;
    waitpid(pid, &mut st, 0);
    if st & 0x7f != 0 || (st >> 8) & 0xff == 101 {
        let t = String::from_utf8_lossy(&std::fs::read("vx_stdout").unwrap_or_default()).into_owned();
        let l = t.lines().find(|l| l.starts_with("PANIC")).unwrap_or("PANIC in the program").to_string();
        say(&l);
        std::process::exit(101);
    }
    (st >> 8) & 0xff
}

fn main() {
    let f = std::env::args().nth(1).expect("usage: replay FILE");
    let mut name = String::new();
    {
        let mut st = ST.lock().unwrap();
        for l in std::fs::read_to_string(f).expect("replay file").lines() {
            let mut w = l.split_whitespace();
            match w.next() {
                Some("harness") => name = w.next().unwrap().to_string(),
                Some("params") => {
                    if let Some(p) = w.next() {
                        st.params = p.split(',').map(|x| x.parse().unwrap()).collect()
                    }
                }
                Some("input") => {
                    let n = w.next().unwrap().to_string();
                    let h = w.next().unwrap_or("");
                    let b = (0..h.len() / 2).map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap()).collect();
                    st.inputs.push((n, b));
                }
                _ => {}
            }
        }
    }
    std::panic::set_hook(Box::new(|i| {
        let l = i.location().map(|l| format!("{}:{}:{}", l.file(), l.line(), l.column())).unwrap_or_default();
        say(&format!("PANIC at {} {}", l, i));
    }));
    let h = vharness::table().into_iter().find(|(n, _)| *n == name).unwrap_or_else(|| {
        say(&format!("no harness {}", name));
        std::process::exit(2)
    });
    (h.1)();
    say("COMPLETED");
}
