//! C29: what the library does to the process it runs in.  A child process asks
//! the kernel (seccomp) to refuse, and tell, every system call by which a
//! program can be noticed from outside, and then uses the library.
#![cfg(all(target_os = "linux", target_arch = "x86_64"))]

use crate::engine::*;
use crate::plan::script_no;
use crate::special::{fuzz_item, parse_line, replay_digest};
use std::cell::Cell;

extern "C" {
    fn fork() -> i32;
    fn waitpid(pid: i32, st: *mut i32, opt: i32) -> i32;
    fn _exit(code: i32) -> !;
    fn mmap(a: *mut u8, n: usize, prot: i32, fl: i32, fd: i32, off: i64) -> *mut u8;
    fn prctl(op: i32, ...) -> i32;
    fn sigaction(sig: i32, new: *const Sigaction, old: *mut Sigaction) -> i32;
    fn memfd_create(name: *const i8, flags: u32) -> i32;
    fn dup2(a: i32, b: i32) -> i32;
    fn lseek(fd: i32, off: i64, wh: i32) -> i64;
    fn alarm(s: u32) -> u32;
    fn exit(code: i32) -> !;
    fn mallopt(what: i32, value: i32) -> i32;
}
#[repr(C)]
struct Sigaction {
    handler: usize,
    mask: [u64; 16],
    flags: i32,
    restorer: usize,
}
#[repr(C)]
#[derive(Clone, Copy)]
struct Filter {
    code: u16,
    jt: u8,
    jf: u8,
    k: u32,
}
#[repr(C)]
struct Prog {
    len: u16,
    filter: *const Filter,
}

/// Output, input, files, sockets, processes, threads, signals, timers, limits,
/// directories, the terminal.  Memory, locks, random numbers, clocks and exit
/// are nobody's business.
pub const DENIED: &[(u32, &str)] = &[
    (0, "read"), (1, "write"), (2, "open"), (3, "close"), (4, "stat"), (6, "lstat"), (13, "rt_sigaction"), (16, "ioctl"),
    (17, "pread64"), (18, "pwrite64"), (19, "readv"), (20, "writev"), (21, "access"), (22, "pipe"), (32, "dup"), (33, "dup2"),
    (34, "pause"), (37, "alarm"), (38, "setitimer"), (40, "sendfile"), (41, "socket"), (42, "connect"), (44, "sendto"), (46, "sendmsg"),
    (49, "bind"), (50, "listen"), (53, "socketpair"), (56, "clone"), (57, "fork"), (58, "vfork"), (59, "execve"), (62, "kill"),
    (72, "fcntl"), (76, "truncate"), (77, "ftruncate"), (78, "getdents"), (80, "chdir"), (81, "fchdir"), (82, "rename"), (83, "mkdir"),
    (84, "rmdir"), (85, "creat"), (86, "link"), (87, "unlink"), (88, "symlink"), (89, "readlink"), (90, "chmod"), (91, "fchmod"),
    (92, "chown"), (95, "umask"), (105, "setuid"), (106, "setgid"), (109, "setpgid"), (112, "setsid"), (126, "capset"), (133, "mknod"),
    (141, "setpriority"), (142, "sched_setparam"), (144, "sched_setscheduler"), (160, "setrlimit"), (161, "chroot"), (200, "tkill"), (203, "sched_setaffinity"), (213, "epoll_create"),
    (217, "getdents64"), (222, "timer_create"), (234, "tgkill"), (247, "waitid"), (253, "inotify_init"), (257, "openat"), (258, "mkdirat"), (262, "newfstatat"),
    (263, "unlinkat"), (264, "renameat"), (265, "linkat"), (266, "symlinkat"), (267, "readlinkat"), (269, "faccessat"), (272, "unshare"), (283, "timerfd_create"),
    (284, "eventfd"), (288, "accept4"), (290, "eventfd2"), (291, "epoll_create1"), (292, "dup3"), (293, "pipe2"), (302, "prlimit64"), (316, "renameat2"),
    (319, "memfd_create"), (322, "execveat"), (332, "statx"), (425, "io_uring_setup"), (435, "clone3"), (437, "openat2"), (439, "faccessat2"),
];

const TEXT: usize = 64;
/// Shared with the parent: [0] system call + 1, [1] inside the library, [2]
/// items done, [3] finished, [4] states, [5] api calls, [6] what else went
/// wrong, [7] filter in force, [8], [9] lengths of the texts, [10] a thread or
/// the process is about to end (then whatever happens is the library's doing)
static mut SHARED: *mut u64 = std::ptr::null_mut();
fn put(i: usize, v: u64) {
    unsafe { SHARED.add(i).write_volatile(v) }
}
fn get(i: usize) -> u64 {
    unsafe { SHARED.add(i).read_volatile() }
}
fn put_text(s: &str) {
    let b = s.as_bytes();
    let n = b.len().min(3000);
    unsafe {
        std::ptr::copy_nonoverlapping(b.as_ptr(), SHARED.add(TEXT + 64) as *mut u8, n);
    }
    put(8, n as u64);
}

unsafe extern "C" fn refused(_sig: i32, info: *const u8, uc: *mut u8) {
    let nr = *(info.add(24) as *const i32);
    let regs = uc.add(40) as *mut i64;
    if get(0) == 0 {
        put(0, nr as u64 + 1);
        // (at the end of a thread its variables are gone)
        put(1, (get(10) != 0 || crate::real::IN_API.with(|c| c.get())) as u64);
        if nr == 1 {
            let n = (*regs.add(12) as usize).min(300);
            put(9, n as u64);
            std::ptr::copy_nonoverlapping(*regs.add(9) as *const u8, SHARED.add(TEXT) as *mut u8, n);
        }
    }
    // not permitted
    *regs.add(13) = -1;
}

/// Refused system calls are to be told.
fn hear() -> bool {
    let act = Sigaction {
        handler: refused as *const () as usize,
        mask: [0; 16],
        flags: 4 | 0x4000_0000, // SA_SIGINFO, SA_NODEFER
        restorer: 0,
    };
    unsafe { sigaction(31, &act, std::ptr::null_mut()) == 0 }
}

/// From now on this thread is under the filter.
fn confine() -> bool {
    let st = |code, k| Filter { code, jt: 0, jf: 0, k };
    let mut f = vec![st(0x20, 0)]; // load the number
    for &(nr, _) in DENIED {
        f.push(Filter { code: 0x15, jt: 0, jf: 1, k: nr });
        f.push(st(0x06, 0x0003_0000)); // trap
    }
    f.push(st(0x06, 0x7fff_0000)); // allow
    let prog = Prog { len: f.len() as u16, filter: f.as_ptr() };
    unsafe {
        prctl(38, 1usize, 0usize, 0usize, 0usize) == 0
            && prctl(22, 2usize, &prog as *const Prog, 0usize, 0usize) == 0
    }
}

fn mxcsr() -> u32 {
    let mut x = 0u32;
    unsafe {
        std::arch::asm!("stmxcsr [{}]", in(reg) &mut x);
    }
    x & !0x3f // the sticky flags may change
}

thread_local! { static HOOKED: Cell<u64> = const { Cell::new(0) }; }

/// Up to the last ply there is, and back.
fn last_plies(cx: &mut Cx) -> Res {
    let mut p = loop {
        let fam = [0, 1, 8, 12][cx.rng.below(4)];
        let p = crate::gen::start(&mut cx.rng, fam);
        if p.king(0).is_some() && p.king(1).is_some() {
            break p;
        }
    };
    p.ply = 65535 - 200;
    set_cur(&Hist::new(&p));
    let mut pos = crate::real::new(&p);
    let mut way = vec![];
    for _ in 0..200 {
        let l = crate::real::moves_raw(&pos);
        if l.is_empty() {
            break;
        }
        let m = l[cx.rng.below(l.len())];
        crate::real::api(|| pos.is_check_move(m));
        crate::real::api(|| pos.do_move(m));
        way.push(m);
    }
    while let Some(m) = way.pop() {
        crate::real::api(|| pos.undo_move(m));
    }
    cx.nontrivial(p.ident().0);
    Ok(())
}

fn child(seed: u64, from: u64, count: u64) -> ! {
    std::env::set_var("VP_PROBE", "here");
    let env0: Vec<_> = std::env::vars_os().collect();
    let fp0 = mxcsr();
    let out = unsafe { memfd_create(c"out".as_ptr(), 0) };
    unsafe {
        dup2(out, 1);
        dup2(out, 2);
    }
    std::panic::set_hook(Box::new(|_| HOOKED.with(|c| c.set(c.get() + 1))));
    // (the C library reads files to manage memory of threads apart)
    unsafe { mallopt(-8, 1) };
    // threads that use the library and end, under the filter too
    let heard = hear();
    let workers: Vec<_> = (0..2u64)
        .map(|w| {
            std::thread::spawn(move || {
                while get(11) != w + 1 {
                    std::hint::spin_loop();
                    std::thread::yield_now();
                }
                if heard {
                    confine();
                }
                let mut cx = Cx::new("C29", seed ^ (w + 1), false);
                for i in from..from + 20 {
                    cx.idx = i;
                    cx.rng = item_rng("C29", seed ^ (w + 1), 120, i);
                    let _ = guarded(String::new, || fuzz_item(&mut cx, 100));
                }
                put(10, 1);
            })
        })
        .collect();
    if heard && confine() {
        put(7, 1);
    }
    for (w, t) in workers.into_iter().enumerate() {
        put(11, w as u64 + 1);
        while !t.is_finished() {
            std::thread::yield_now();
        }
        let _ = t.join();
        put(10, 0);
    }
    let mut cx = Cx::new("C29", seed, false);
    for i in from..from + count {
        cx.idx = i;
        cx.rng = item_rng("C29", seed, 120, i);
        let text = || CUR.with(|c| c.borrow().as_ref().map(|h| h.text()).unwrap_or_default());
        let r = guarded(text, || {
            if i % 4 == 0 {
                // now and then a long game
                fuzz_item(&mut cx, if i % 128 == 0 { 5000 } else { 200 })
            } else if i % 128 == 63 {
                last_plies(&mut cx)
            } else {
                let line = script_no(seed, i, 24);
                let h = parse_line(&line).unwrap();
                set_cur(&h);
                let mut seen = vec![];
                replay_digest(&h, 12, |_, _, o| seen.push(o.st.ident().0));
                for s in seen {
                    cx.nontrivial(s);
                }
                let pos = crate::real::new(&h.start);
                let t = crate::real::api(|| format!("{pos:?} {:?}", pos.clone()));
                let mut t2 = crate::real::new(&h.start);
                crate::real::api(|| t2.clone_from(&pos));
                crate::real::api(|| drop((pos, t2)));
                std::hint::black_box(t);
                Ok(())
            }
        });
        let at = match r {
            Ok(Err(v)) => v.signature, // what it did wrong is for other monitors
            _ => text(),
        };
        let stdio = unsafe { lseek(out, 0, 2) };
        let wrong = if get(0) != 0 {
            99
        } else if stdio != 0 {
            2
        } else if !std::env::vars_os().eq(env0.iter().cloned()) {
            3
        } else if mxcsr() != fp0 {
            4
        } else {
            let n = HOOKED.with(|c| c.get());
            let _ = std::panic::catch_unwind(|| panic!("probe"));
            if HOOKED.with(|c| c.get()) != n + 1 {
                5
            } else {
                0
            }
        };
        if wrong != 0 {
            put_text(&at);
            put(6, wrong);
            unsafe { _exit(0) }
        }
        put(2, i - from + 1);
    }
    put(4, cx.distinct.len() as u64);
    put(5, crate::real::API_CALLS.with(|c| c.get()));
    put(3, 1);
    let _ = std::panic::take_hook();
    put(10, 1);
    unsafe { exit(0) }
}

pub struct Outcome {
    pub confined: bool,
    pub items: u64,
    pub states: u64,
    pub calls: u64,
    pub viol: Option<Viol>,
    pub error: Option<String>,
}

/// Must be called before any other thread exists.
pub fn quiet(seed: u64, from: u64, count: u64) -> Outcome {
    unsafe {
        SHARED = mmap(std::ptr::null_mut(), 8192, 3, 0x21, -1, 0) as *mut u64;
        let pid = fork();
        if pid == 0 {
            alarm(400);
            child(seed, from, count);
        }
        let mut st = 0;
        waitpid(pid, &mut st, 0);
        let text = |at: usize, n: u64| String::from_utf8_lossy(std::slice::from_raw_parts(SHARED.add(at) as *const u8, n as usize)).to_string();
        let at = text(TEXT + 64, get(8));
        let mut o = Outcome {
            confined: get(7) == 1,
            items: get(2),
            states: get(4),
            calls: get(5),
            viol: None,
            error: None,
        };
        let v = |w: String, s: String| Some(Viol { what: w, signature: s });
        if get(0) != 0 {
            let nr = get(0) as u32 - 1;
            let name = DENIED.iter().find(|x| x.0 == nr).map(|x| x.1).unwrap_or("?");
            if get(1) == 1 {
                let mut w = format!("the library makes the system call {name}");
                if get(10) != 0 {
                    w += " at the end of a thread or of the process";
                }
                if nr == 1 {
                    w += &format!(" ({:?})", text(TEXT, get(9)));
                }
                o.viol = v(w, if at.is_empty() { format!("item {} of seed {seed}", from + get(2)) } else { at });
            } else {
                o.error = Some(format!("the harness itself makes the system call {name}"));
            }
        } else if get(6) != 0 {
            let w = match get(6) {
                2 => "the library writes to standard output or error",
                3 => "the library changes the environment",
                4 => "the library changes the floating point state",
                _ => "the library takes the panic hook away",
            };
            o.viol = v(w.into(), at);
        } else if get(3) != 1 {
            let i = from + get(2);
            if st & 127 == 14 {
                o.error = Some("no end".into());
            } else {
                o.viol = v(format!("the process using the library ended (status {st:#x})"), format!("item {i} of seed {seed}"));
            }
        }
        o
    }
}
