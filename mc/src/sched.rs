//! Runs concurrent compilations of the real library under a controlled scheduler.
//!
//! One request per line:
//! `cold|warm <program>,<program>[,..] <first thread> <class>:<t>@<point>><t>,... [own]`.
//! Each is carried out in a forked process: the threads run one at a time, and the running one is
//! replaced by another at the given points of its execution only (or where it waits or ends).
//! Points of class 1 are the visible operations (see rt/rt.c), those of class 0 the allocations
//! and deallocations. The answer lists, for each thread, the visible operations that another
//! thread's conflict with (same location, at least one of them a write).
use std::alloc::{GlobalAlloc, Layout, System};
use std::collections::HashMap;
use std::io::{BufRead, Read, Write};
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};

#[path = "progs.rs"]
mod progs;

#[repr(C)]
struct Op {
    addr: u64,
    kind: u32,
    len: u32,
}
unsafe extern "C" {
    fn fork() -> i32;
    fn waitpid(pid: i32, status: *mut i32, opts: i32) -> i32;
    fn _exit(code: i32) -> !;
    fn pipe(fds: *mut i32) -> i32;
    fn close(fd: i32) -> i32;
    fn kill(pid: i32, sig: i32) -> i32;
    fn mc_alloc_point();
    fn mc_setup(n: u32);
    fn mc_plan(class: i32, t: u32, at: u32, to: u32);
    fn mc_begin(t: i32);
    fn mc_end();
    fn mc_start(t: u32);
    fn mc_wait() -> i32;
    fn mc_forced() -> u32;
    fn mc_taken() -> u32;
    fn mc_points(class: i32, t: u32) -> u64;
    fn mc_trace(t: u32, len: *mut u32) -> *const Op;
}

struct Hook;
unsafe impl GlobalAlloc for Hook {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        unsafe {
            mc_alloc_point();
            System.alloc(l)
        }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        unsafe {
            mc_alloc_point();
            System.dealloc(p, l)
        }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        unsafe {
            mc_alloc_point();
            System.realloc(p, l, n)
        }
    }
}
#[global_allocator]
static HOOK: Hook = Hook;

/// The visible operations of each thread that conflict with one of another thread.
/// For each, its number and how often its location is accessed.
fn conflicts(n: usize) -> Vec<Vec<(usize, usize)>> {
    // location -> threads that read it, threads that write it, accesses
    let mut by: HashMap<u64, ([u8; 2], usize)> = HashMap::new();
    let traces: Vec<&[Op]> = (0..n)
        .map(|t| {
            let mut len = 0;
            let p = unsafe { mc_trace(t as u32, &mut len) };
            unsafe { std::slice::from_raw_parts(p, len as usize) }
        })
        .collect();
    let cells = |o: &Op| (o.addr >> 3)..=((o.addr + u64::from(o.len.max(1)) - 1) >> 3);
    for (t, tr) in traces.iter().enumerate() {
        for o in *tr {
            for c in cells(o) {
                let e = by.entry(c).or_default();
                e.0[o.kind as usize] |= 1 << t;
                e.1 += 1;
            }
        }
    }
    traces
        .iter()
        .enumerate()
        .map(|(t, tr)| {
            let hit = |o: &Op| {
                cells(o)
                    .filter_map(|c| {
                        let ([r, w], k) = by[&c];
                        let others = !(1u8 << t);
                        // (the state of the process: see rt.c)
                        let k = if c < 8 { 1 } else { k };
                        ((w | if o.kind == 1 { r } else { 0 }) & others != 0).then_some(k)
                    })
                    .min()
            };
            tr.iter().enumerate().filter_map(|(i, o)| Some((i + 1, hit(o)?))).collect()
        })
        .collect()
}

/// In the forked process: carry the request out; the text of the result.
fn execute(cold: bool, ps: &[usize], first: usize, plan: &[[usize; 4]]) -> String {
    if !cold {
        for p in ps {
            progs::run(*p);
        }
    }
    let n = ps.len();
    unsafe { mc_setup(n as u32) };
    for s in plan {
        unsafe { mc_plan(s[0] as i32, s[1] as u32, s[2] as u32, s[3] as u32) };
    }
    let ready: &'static AtomicUsize = Box::leak(Box::new(AtomicUsize::new(0)));
    let hs: Vec<_> = ps
        .iter()
        .enumerate()
        .map(|(me, p)| {
            let p = *p;
            std::thread::Builder::new()
                .stack_size(16 << 20)
                .spawn(move || {
                    ready.fetch_add(1, SeqCst);
                    unsafe { mc_begin(me as i32) };
                    let r = std::panic::catch_unwind(|| progs::run(p)).unwrap_or_else(|_| "panic".into());
                    unsafe { mc_end() };
                    r
                })
                .unwrap()
        })
        .collect();
    while ready.load(SeqCst) < n {
        std::thread::yield_now();
    }
    unsafe { mc_start(first as u32) };
    if unsafe { mc_wait() } != 0 {
        return "deadlock".into();
    }
    let res: Vec<String> = hs.into_iter().map(|h| h.join().unwrap_or_else(|_| "panic".into())).collect();
    let pts: Vec<String> = (0..n).map(|i| unsafe { format!("{}/{}", mc_points(0, i as u32), mc_points(1, i as u32)) }).collect();
    let conf: Vec<String> = conflicts(n).iter().map(|v| v.iter().map(|(k, f)| format!("{k}:{f}")).collect::<Vec<_>>().join(",")).collect();
    unsafe { format!("{} {} {}\n{}\n{}", pts.join(","), mc_forced(), mc_taken(), conf.join(" "), res.join("\u{1}")) }
}

fn in_child(f: impl FnOnce() -> String) -> String {
    use std::os::fd::FromRawFd;
    let mut fds = [0i32; 2];
    unsafe {
        if pipe(fds.as_mut_ptr()) != 0 {
            return "pipe".into();
        }
        let pid = fork();
        if pid == 0 {
            close(fds[0]);
            let s = f();
            let mut w = std::fs::File::from_raw_fd(fds[1]);
            let _ = w.write_all(s.as_bytes());
            _exit(0);
        }
        close(fds[1]);
        if pid < 0 {
            close(fds[0]);
            return "fork".into();
        }
        let mut r = std::fs::File::from_raw_fd(fds[0]);
        let mut out = vec![];
        let _ = r.read_to_end(&mut out);
        let mut st = 0;
        let _ = kill(pid, 9);
        waitpid(pid, &mut st, 0);
        String::from_utf8_lossy(&out).into_owned()
    }
}

fn main() {
    let dir = std::env::args().nth(1).unwrap_or_else(|| ".".into());
    progs::setup(&dir);
    std::panic::set_hook(Box::new(|_| {}));
    let stdin = std::io::stdin();
    let mut out = std::io::stdout();
    let mut line = String::new();
    loop {
        line.clear();
        if stdin.lock().read_line(&mut line).unwrap_or(0) == 0 {
            return;
        }
        let w: Vec<&str> = line.split_whitespace().collect();
        let ps: Vec<usize> = w[1].split(',').map(|x| x.parse().unwrap()).collect();
        let plan: Vec<[usize; 4]> = w
            .get(3)
            .map(|s| {
                s.split(',')
                    .map(|x| {
                        let mut it = x.split([':', '@', '>']).map(|v| v.parse().unwrap());
                        std::array::from_fn(|_| it.next().unwrap())
                    })
                    .collect()
            })
            .unwrap_or_default();
        let r = in_child(|| execute(w[0] == "cold", &ps, w[2].parse().unwrap(), &plan));
        let _ = write!(out, "{}\n{r}\n", r.len());
        let _ = out.flush();
    }
}
