//! Obligations that need more than two loads and a comparison: history
//! independence, confinement, growth of cost, conversions.
use crate::alloc;
use crate::ob::{self, cut};
use crate::refparse::Fmt;
use nobject_rs as n;
use serde::{Deserialize, Serialize};
use std::ffi::CStr;
use std::io::Read;
use std::os::unix::io::FromRawFd;
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU64, Ordering::Relaxed};

type Res = Result<(), String>;

// ---------------------------------------------------------------- forking

/// What became of a forked computation.
pub enum Child {
    Done(Vec<u8>),
    Signal(i32),
    Exit(i32, Vec<u8>),
}
/// Runs `f` in a forked process (of this single-threaded one) and returns the
/// bytes it gave.
pub fn forked(f: impl FnOnce(i32) -> Vec<u8>) -> Child {
    unsafe {
        let mut p = [0i32; 2];
        assert_eq!(libc::pipe(p.as_mut_ptr()), 0, "HARNESS: pipe");
        let pid = libc::fork();
        assert!(pid >= 0, "HARNESS: fork");
        if pid == 0 {
            libc::close(p[0]);
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(p[1])));
            #[cfg(feature = "guided")]
            crate::cov::export();
            let code = match r {
                Ok(b) => {
                    write_all(p[1], &b);
                    0
                }
                Err(_) => {
                    write_all(p[1], crate::run::last_panic().as_bytes());
                    101
                }
            };
            libc::_exit(code);
        }
        libc::close(p[1]);
        let mut out = Vec::new();
        std::fs::File::from_raw_fd(p[0]).read_to_end(&mut out).expect("HARNESS: read");
        let mut st = 0;
        while libc::waitpid(pid, &mut st, 0) < 0 {}
        if libc::WIFSIGNALED(st) {
            Child::Signal(libc::WTERMSIG(st))
        } else if libc::WEXITSTATUS(st) == 0 {
            Child::Done(out)
        } else {
            Child::Exit(libc::WEXITSTATUS(st), out)
        }
    }
}
fn write_all(fd: i32, mut b: &[u8]) {
    while !b.is_empty() {
        let n = unsafe { libc::write(fd, b.as_ptr().cast(), b.len()) };
        if n <= 0 {
            unsafe { libc::_exit(99) };
        }
        b = &b[n as usize..];
    }
}

// ------------------------------------------------- environment of the process

/// When set, every environment variable the process asks for (but those of the
/// Rust runtime) is there, and the clock is years off.
static ODD_WORLD: AtomicBool = AtomicBool::new(false);
static CLOCK_SHIFT: AtomicI64 = AtomicI64::new(0);
extern "C" {
    static environ: *const *const libc::c_char;
}
#[no_mangle]
pub unsafe extern "C" fn getenv(name: *const libc::c_char) -> *mut libc::c_char {
    let want = CStr::from_ptr(name).to_bytes();
    if ODD_WORLD.load(Relaxed)
        && !want.starts_with(b"RUST_")
        && !want.starts_with(b"MALLOC_")
        && !want.starts_with(b"GLIBC_")
        && !want.starts_with(b"LD_")
    {
        return c"1".as_ptr() as *mut _;
    }
    let mut p = environ;
    if p.is_null() {
        return std::ptr::null_mut();
    }
    while !(*p).is_null() {
        let e = CStr::from_ptr(*p).to_bytes();
        if e.len() > want.len() && e[want.len()] == b'=' && &e[..want.len()] == want {
            return (*p).add(want.len() + 1) as *mut _;
        }
        p = p.add(1);
    }
    std::ptr::null_mut()
}
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: libc::clockid_t, t: *mut libc::timespec) -> i32 {
    let r = libc::syscall(libc::SYS_clock_gettime, id as libc::c_long, t) as i32;
    if r == 0 {
        (*t).tv_sec += CLOCK_SHIFT.load(Relaxed);
    }
    r
}

// ---------------------------------------------------------------- C20

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Pure {
    /// earlier loads: text, how often
    pub history: Vec<(Fmt, String, u32)>,
    pub fmt: Fmt,
    pub probe: String,
    pub threads: u8,
    pub offset: u8,
}

/// Everything observable of a load.
pub fn outcome(fmt: Fmt, t: &str) -> String {
    match fmt {
        Fmt::Obj => match ob::cobj(t) {
            Ok(m) => format!("{m:?}"),
            Err(e) => format!("error {e} / {e:?}"),
        },
        Fmt::Mtl => match ob::cmtl(t) {
            Ok(m) => format!("{m:?}"),
            Err(e) => format!("error {e} / {e:?}"),
        },
    }
}
enum Kept {
    O(Result<n::Model, n::ObjError>),
    M(Result<Vec<n::Material>, n::ObjError>),
}
fn keep(fmt: Fmt, t: &str) -> Kept {
    match fmt {
        Fmt::Obj => Kept::O(ob::obj(t)),
        Fmt::Mtl => Kept::M(ob::mtl(t)),
    }
}
impl Kept {
    fn show(&self) -> String {
        match self {
            Kept::O(Ok(m)) => format!("{:?}", crate::canon::model(m)),
            Kept::M(Ok(m)) => format!("{:?}", m.iter().map(crate::canon::material).collect::<Vec<_>>()),
            Kept::O(Err(e)) | Kept::M(Err(e)) => format!("error {e} / {e:?}"),
        }
    }
}
/// Another text of the same length and shape.
fn decoy(t: &str) -> String {
    t.chars()
        .map(|c| match c {
            '0'..='8' => ((c as u8) + 1) as char,
            '9' => '0',
            c => c,
        })
        .collect()
}
/// Texts that resemble `t`: what is remembered from them under too weak a key
/// would be taken for something of `t`.
fn relatives(t: &str) -> Vec<String> {
    // one function for the arguments of a statement, keywords stay
    let words = |f: &dyn Fn(&str) -> String| -> String {
        t.split_inclusive(['\n', '\r'])
            .map(|line| {
                let mut n = 0;
                line.split_inclusive([' ', '\t', '\n', '\r', '/'])
                    .map(|w| {
                        let core = w.trim_end_matches([' ', '\t', '\n', '\r', '/']);
                        n += usize::from(!core.is_empty());
                        let keep = n < 2 || core.starts_with('-') || crate::refparse::reserved(core) || core.eq_ignore_ascii_case("on") || core.eq_ignore_ascii_case("off");
                        if keep {
                            w.to_string()
                        } else {
                            f(core) + &w[core.len()..]
                        }
                    })
                    .collect::<String>()
            })
            .collect()
    };
    let shift = |c: char| match c {
        'a'..='y' | 'A'..='Y' | '0'..='8' => ((c as u8) + 1) as char,
        'z' | 'Z' => ((c as u8) - 25) as char,
        '9' => '0',
        c => c,
    };
    let lines: Vec<&str> = t.lines().collect();
    let mut half = t.len() / 2;
    while !t.is_char_boundary(half) {
        half += 1;
    }
    let mut v = vec![
        decoy(t),
        words(&|w| w.chars().rev().collect()),
        words(&|w| {
            let c: Vec<char> = w.chars().collect();
            c.iter().skip(1).chain(c.first()).collect()
        }),
        words(&|w| {
            // two neighbours in the middle changed round
            let mut c: Vec<char> = w.chars().collect();
            let n = c.len();
            if n > 2 {
                c.swap(n / 2, n / 2 - 1);
            }
            c.into_iter().collect()
        }),
        words(&|w| w.chars().map(|c| if c.is_ascii_uppercase() { c.to_ascii_lowercase() } else { c.to_ascii_uppercase() }).collect()),
        words(&|w| w.chars().map(shift).collect()),
        words(&|w| {
            let n = w.chars().count();
            w.chars().enumerate().map(|(i, c)| if i + 1 == n { shift(c) } else { c }).collect()
        }),
        words(&|w| w.chars().enumerate().map(|(i, c)| if i == 0 { shift(c) } else { c }).collect()),
        words(&|w| format!("{w}{w}")),
        lines.iter().rev().map(|l| format!("{l}\n")).collect(),
        t[..half].to_string(),
        t[half..].to_string(),
        format!("{t}\n{t}"),
        t.to_ascii_uppercase(),
    ];
    v.dedup();
    v.retain(|x| x != t);
    v
}

impl Pure {
    pub fn texts(&self) -> Vec<&String> {
        let mut v: Vec<&String> = self.history.iter().map(|h| &h.1).collect();
        v.push(&self.probe);
        v
    }
    pub fn check(&self) -> Res {
        let base = match forked(|_| outcome(self.fmt, &self.probe).into_bytes()) {
            Child::Done(b) => String::from_utf8(b).expect("HARNESS: utf8"),
            Child::Signal(s) => return Err(format!("a load in a fresh process ends by signal {s}")),
            Child::Exit(_, m) => format!("panic: {}", String::from_utf8_lossy(&m)),
        };
        let other = match forked(|_| outcome(self.fmt, &self.probe).into_bytes()) {
            Child::Done(b) => String::from_utf8(b).expect("HARNESS: utf8"),
            Child::Signal(s) => return Err(format!("a load in a fresh process ends by signal {s}")),
            Child::Exit(_, m) => format!("panic: {}", String::from_utf8_lossy(&m)),
        };
        if base != other {
            return Err(format!("two fresh processes: {} / {}", cut(&base, 300), cut(&other, 300)));
        }
        if base.starts_with("panic: ") {
            return Ok(()); // not this property
        }
        // what is remembered from the first text seen
        let after = match forked(|_| {
            for r in relatives(&self.probe) {
                let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| drop(keep(self.fmt, &r))));
            }
            outcome(self.fmt, &self.probe).into_bytes()
        }) {
            Child::Done(b) => String::from_utf8(b).expect("HARNESS: utf8"),
            Child::Signal(s) => return Err(format!("after loads of similar texts the load ends by signal {s}")),
            Child::Exit(_, m) => format!("panic: {}", String::from_utf8_lossy(&m)),
        };
        if after != base {
            return Err(format!("after loads of similar texts: {} / in a fresh process: {}", cut(&after, 300), cut(&base, 300)));
        }
        match forked(|_| self.in_child(&base).into_bytes()) {
            Child::Done(b) if b.is_empty() => Ok(()),
            Child::Done(b) => Err(String::from_utf8_lossy(&b).into_owned()),
            Child::Signal(s) => Err(format!("with a history the load ends by signal {s}")),
            Child::Exit(c, m) => Err(format!("with a history the load panics ({c}): {}", String::from_utf8_lossy(&m))),
        }
    }
    fn in_child(&self, base: &str) -> String {
        let differ = |what: &str, got: &str| format!("{what}: got {} instead of {}", cut(got, 500), cut(base, 500));
        let text = self.probe.clone();
        let first = keep(self.fmt, &text);
        let s = first.show();
        if s != base {
            return differ("first load", &s);
        }
        drop(text);
        ODD_WORLD.store(true, Relaxed);
        CLOCK_SHIFT.store(400_000_000, Relaxed);
        for (f, t, k) in &self.history {
            for _ in 0..*k {
                // a panic in a history text is not this property
                let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| drop(keep(*f, t))));
            }
        }
        let s = outcome(self.fmt, &self.probe);
        if s != base {
            return differ("after other loads", &s);
        }
        let s = outcome(self.fmt, &self.probe);
        if s != base {
            return differ("the same load again", &s);
        }
        let fmt2 = if self.fmt == Fmt::Obj { Fmt::Mtl } else { Fmt::Obj };
        let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| drop(keep(fmt2, &self.probe))));
        let s = outcome(self.fmt, &self.probe);
        if s != base {
            return differ("after loading the text in the other format", &s);
        }
        // inside a larger buffer, at some address
        let pad = "#".repeat(self.offset as usize);
        let big = format!("{pad}{}{pad}7", self.probe);
        let s = outcome(self.fmt, &big[pad.len()..pad.len() + self.probe.len()]);
        if s != base {
            return differ("at another address", &s);
        }
        // in a buffer that held a text of the same length
        let mut buf = decoy(&self.probe);
        let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| drop(keep(self.fmt, &buf))));
        buf.clear();
        buf.push_str(&self.probe);
        let s = outcome(self.fmt, &buf);
        if s != base {
            return differ("in a reused buffer", &s);
        }
        drop(buf);
        for r in relatives(&self.probe) {
            let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| drop(keep(self.fmt, &r))));
            let s = outcome(self.fmt, &self.probe);
            if s != base {
                return differ(&format!("after loading {}", cut(&format!("{r:?}"), 300)), &s);
            }
        }
        if self.threads > 1 {
            let bad: Vec<String> = std::thread::scope(|sc| {
                let hs: Vec<_> = (0..self.threads)
                    .map(|i| {
                        sc.spawn(move || {
                            let d = decoy(&self.probe);
                            for round in 0..24 {
                                if (round + i as usize) % 2 == 0 {
                                    let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| drop(keep(self.fmt, &d))));
                                }
                                if let Some((f, t, _)) = self.history.get(round % self.history.len().max(1)) {
                                    let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| drop(keep(*f, t))));
                                }
                                let s = outcome(self.fmt, &self.probe);
                                if s != base {
                                    return Some(s);
                                }
                            }
                            None
                        })
                    })
                    .collect();
                hs.into_iter()
                    .filter_map(|h| h.join().unwrap_or_else(|_| Some("a panic".into())))
                    .collect()
            });
            if let Some(s) = bad.first() {
                return differ("in concurrent threads", s);
            }
        }
        let s = first.show();
        if s != base {
            return differ("the first value, after its text was dropped and after later loads", &s);
        }
        String::new()
    }
}

// ---------------------------------------------------------------- C21

#[repr(C)]
struct Filter {
    code: u16,
    jt: u8,
    jf: u8,
    k: u32,
}
#[repr(C)]
struct Prog {
    len: u16,
    filter: *const Filter,
}
static REPORT_FD: AtomicI64 = AtomicI64::new(-1);

unsafe extern "C" fn on_sigsys(_: i32, info: *mut libc::siginfo_t, _: *mut libc::c_void) {
    // si_syscall lies behind si_call_addr
    let nr = *(info as *const u8).add(24).cast::<i32>();
    let mut b = *b"syscall      ";
    let mut x = nr;
    let mut i = 12;
    while i > 8 {
        b[i] = b'0' + (x % 10) as u8;
        x /= 10;
        i -= 1;
        if x == 0 {
            break;
        }
    }
    libc::write(REPORT_FD.load(Relaxed) as i32, b.as_ptr().cast(), b.len());
    libc::_exit(77);
}

/// System calls that reach nothing outside the process.
const HARMLESS: [libc::c_long; 30] = [
    libc::SYS_mmap, libc::SYS_munmap, libc::SYS_mremap, libc::SYS_brk, libc::SYS_madvise, libc::SYS_mprotect,
    libc::SYS_futex, libc::SYS_exit, libc::SYS_exit_group, libc::SYS_rt_sigreturn, libc::SYS_rt_sigprocmask,
    libc::SYS_rt_sigaction, libc::SYS_sigaltstack, libc::SYS_getrandom, libc::SYS_clock_gettime, libc::SYS_gettimeofday,
    libc::SYS_time, libc::SYS_sched_yield, libc::SYS_gettid, libc::SYS_getpid, libc::SYS_set_robust_list,
    libc::SYS_rseq, libc::SYS_sched_getaffinity, libc::SYS_prctl, libc::SYS_nanosleep, libc::SYS_clock_nanosleep,
    libc::SYS_membarrier, libc::SYS_getcpu, libc::SYS_set_tid_address, libc::SYS_clock_getres,
];

unsafe fn confine(fd: i32) {
    REPORT_FD.store(fd as i64, Relaxed);
    let mut sa: libc::sigaction = std::mem::zeroed();
    sa.sa_sigaction = on_sigsys as *const () as usize;
    sa.sa_flags = libc::SA_SIGINFO;
    libc::sigaction(libc::SIGSYS, &sa, std::ptr::null_mut());
    const LD: u16 = 0x20; // load word, absolute
    const JEQ: u16 = 0x15;
    const JSET: u16 = 0x45;
    const RET: u16 = 0x06;
    const ALLOW: u32 = 0x7fff_0000;
    const TRAP: u32 = 0x0003_0000;
    const ENOSYS: u32 = 0x0005_0000 | 38;
    let op = |code, jt, jf, k| Filter { code, jt, jf, k };
    let mut p = vec![op(LD, 0, 0, 0)];
    for s in HARMLESS {
        p.push(op(JEQ, 0, 1, s as u32));
        p.push(op(RET, 0, 0, ALLOW));
    }
    // glibc falls back to clone
    p.push(op(JEQ, 0, 1, libc::SYS_clone3 as u32));
    p.push(op(RET, 0, 0, ENOSYS));
    // threads, not processes
    p.push(op(JEQ, 0, 4, libc::SYS_clone as u32));
    p.push(op(LD, 0, 0, 16));
    p.push(op(JSET, 0, 1, libc::CLONE_THREAD as u32));
    p.push(op(RET, 0, 0, ALLOW));
    p.push(op(RET, 0, 0, TRAP));
    // the message to the parent
    p.push(op(JEQ, 0, 3, libc::SYS_write as u32));
    p.push(op(LD, 0, 0, 16));
    p.push(op(JEQ, 0, 1, fd as u32));
    p.push(op(RET, 0, 0, ALLOW));
    p.push(op(RET, 0, 0, TRAP));
    let prog = Prog { len: p.len() as u16, filter: p.as_ptr() };
    assert_eq!(libc::prctl(libc::PR_SET_NO_NEW_PRIVS, 1, 0, 0, 0), 0, "HARNESS: no_new_privs");
    let r = libc::prctl(libc::PR_SET_SECCOMP, 2, &prog as *const Prog as libc::c_ulong, 0, 0);
    assert_eq!(r, 0, "HARNESS: seccomp");
    std::mem::forget(p);
}

/// Proof that the confinement is on: a file inspection inside it is reported.
pub fn confinement_works() -> bool {
    let r = forked(|fd| {
        unsafe { confine(fd) };
        let e = std::path::Path::new("/").exists();
        vec![b'!', e as u8]
    });
    let ok1 = matches!(&r, Child::Exit(77, m) if m.starts_with(b"syscall"));
    let r = forked(|fd| {
        unsafe { confine(fd) };
        let v: Vec<String> = (0..1000).map(|i| "x".repeat(i)).collect();
        let h = std::collections::HashMap::from([(v.len(), 1)]);
        vec![h[&1000]]
    });
    ok1 && matches!(r, Child::Done(b) if b == [1])
}

pub fn no_io(fmt: Fmt, text: &str, files: &[String]) -> Res {
    let dir = scratch();
    std::fs::create_dir_all(&dir).expect("HARNESS: scratch");
    let mut made = Vec::new();
    for f in files {
        // only plain names, inside the scratch directory
        if f.len() < 100 && !f.contains(['/', '\0']) && f != "." && f != ".." {
            let p = dir.join(f);
            if std::fs::write(&p, "newmtl inner\nKd 1 1 1\nv 1 2 3\n").is_ok() {
                made.push(p);
            }
        }
    }
    let text = text.replace("@DIR@", dir.to_str().expect("HARNESS: path"));
    let cdir = std::ffi::CString::new(dir.to_str().unwrap()).unwrap();
    let r = forked(|fd| {
        unsafe {
            libc::chdir(cdir.as_ptr());
            let null = libc::open(c"/dev/null".as_ptr(), libc::O_RDWR);
            libc::dup2(null, 1);
            libc::dup2(null, 2);
            confine(fd);
        }
        let r = keep(fmt, &text);
        drop(r);
        Vec::new()
    });
    for p in made {
        let _ = std::fs::remove_file(p);
    }
    let _ = std::fs::remove_dir(&dir);
    match r {
        Child::Exit(77, m) => Err(format!("the load makes a system call that leaves the process: {}", String::from_utf8_lossy(&m))),
        Child::Done(_) | Child::Exit(101, _) => Ok(()),
        Child::Exit(c, _) => panic!("HARNESS: confined child ended with {c}"),
        Child::Signal(s) => Err(format!("the confined load ends by signal {s}")),
    }
}
pub fn scratch() -> std::path::PathBuf {
    let base = std::env::var("NH_WORK").unwrap_or_else(|_| "/tmp".into());
    std::path::PathBuf::from(base).join(format!("scratch-{}", std::process::id()))
}

// ---------------------------------------------------------------- C22

/// `unit` repeated n times: `{i}` is the number of the repetition, `{n}` is n.
/// Where it has several parts (PHASE between them), each is repeated n times.
pub const PHASE: char = '\u{1}';
pub fn grown(head: &str, unit: &str, tail: &str, n: usize) -> String {
    let mut s = String::with_capacity(head.len() + tail.len() + (unit.len() + 4) * n);
    s.push_str(head);
    // fixed width: the text length is exactly linear
    let unit = unit.replace("{n}", &format!("{n:06}"));
    for phase in unit.split(PHASE) {
        let parts: Vec<&str> = phase.split("{i}").collect();
        for i in 0..n {
            for (j, p) in parts.iter().enumerate() {
                if j > 0 {
                    s.push_str(&format!("{:06}", 100_000 + i));
                }
                s.push_str(p);
            }
        }
    }
    s.push_str(tail);
    s
}
/// `m2` may exceed twice `m1` by this share.
pub const TOLERANCE: f64 = 1.1;

fn growth(what: &str, t: [u64; 3], lens: [usize; 3], slack: u64) -> Res {
    let m1 = t[1].saturating_sub(t[0]);
    let m2 = t[2].saturating_sub(t[1]);
    // per character of the text: absorbs what the text itself grows by
    let l1 = (lens[1] - lens[0]).max(1) as f64;
    let l2 = (lens[2] - lens[1]).max(1) as f64;
    debug(&format!("INSN {:.3} {m1} {lens:?}", (m2 as f64 / l2) / (m1 as f64 / l1)));
    if m2 as f64 / l2 <= TOLERANCE * m1 as f64 / l1 || m2 <= slack {
        return Ok(());
    }
    Err(format!("{what} for texts of {lens:?} bytes: {t:?}; the second increase is {:.2} times the first per byte", (m2 as f64 / l2) / (m1 as f64 / l1)))
}

/// Bytes allocated per byte of text, as a mean over one octave of sizes: what
/// collections allocate by doubling is linear in that mean, wherever their
/// capacities step.
fn per_byte(fmt: Fmt, head: &str, unit: &str, tail: &str, n: usize) -> f64 {
    const POINTS: usize = 8;
    let mut sum = 0.0;
    for j in 0..POINTS {
        let k = (n as f64 * 2f64.powf(j as f64 / POINTS as f64)).round() as usize;
        let text = grown(head, unit, tail, k);
        let (_, s) = alloc::measured(4 << 30, || drop(keep(fmt, &text)));
        sum += s.total as f64 / text.len().max(1) as f64;
    }
    sum / POINTS as f64
}
/// From n to 8n a linear load allocates no more per byte; a share q of the cost
/// that is quadratic makes it 1 + 7q.
pub const ALLOC_TOLERANCE: f64 = 1.12;
pub fn alloc_growth(fmt: Fmt, head: &str, unit: &str, tail: &str, n: usize) -> Res {
    let n = (n / 4).max(32);
    let a = per_byte(fmt, head, unit, tail, n);
    let b = per_byte(fmt, head, unit, tail, 8 * n);
    debug(&format!("ALLOC {:.3} {a:.1} {:?} {n}", b / a, ob::cut(unit, 60)));
    if b <= ALLOC_TOLERANCE * a + 1.0 {
        return Ok(());
    }
    Err(format!("{a:.1} bytes allocated per byte of text at {n} repetitions, {b:.1} at {}", 8 * n))
}

pub static VALGRIND_RUNS: AtomicU64 = AtomicU64::new(0);
/// The program without its debugging information, which valgrind reads on
/// every start.
fn lean_exe() -> std::path::PathBuf {
    let exe = std::env::current_exe().expect("HARNESS: exe");
    let Ok(work) = std::env::var("NH_WORK") else { return exe };
    let lean = std::path::PathBuf::from(work).join(format!("lean-{}", std::process::id()));
    if lean.exists() {
        return lean;
    }
    match std::process::Command::new("strip").arg("-o").arg(&lean).arg(&exe).status() {
        Ok(s) if s.success() => lean,
        _ => exe,
    }
}
fn instructions(fmt: Fmt, text: &str) -> Result<u64, String> {
    VALGRIND_RUNS.fetch_add(1, Relaxed);
    let file = scratch().with_extension("txt");
    if let Some(d) = file.parent() {
        std::fs::create_dir_all(d).expect("HARNESS: work dir");
    }
    std::fs::write(&file, text).expect("HARNESS: text file");
    let out = std::process::Command::new("valgrind")
        .args(["--tool=cachegrind", "--cache-sim=no", "--cachegrind-out-file=/dev/null"])
        .arg("--log-fd=1")
        .arg(lean_exe())
        .arg("load")
        .arg(if fmt == Fmt::Obj { "obj" } else { "mtl" })
        .arg(&file)
        .output()
        .expect("HARNESS: valgrind");
    let _ = std::fs::remove_file(&file);
    let s = String::from_utf8_lossy(&out.stdout);
    if out.status.code() == Some(101) {
        return Err("the load panics".into());
    }
    let line = s.lines().find(|l| l.contains("I ") && l.contains("refs:"));
    let v = line
        .and_then(|l| l.split("refs:").nth(1))
        .map(|x| x.trim().replace(',', ""))
        .and_then(|x| x.parse().ok());
    match v {
        Some(v) if out.status.success() => Ok(v),
        _ => panic!("HARNESS: valgrind ended with {:?}: {}", out.status, cut(&s, 500)),
    }
}
pub fn insn_growth(fmt: Fmt, head: &str, unit: &str, tail: &str, most: usize) -> Res {
    // Counting is some fifty times slower than running: where a load is slow
    // (it need not be linear), the growth shows at smaller sizes too.
    let mut n = (most / 64).max(1);
    while 2 * n <= most && cpu(fmt, &grown(head, unit, tail, 4 * n)) < 0.1 {
        n *= 2;
    }
    if 2 * n > most {
        n = most;
    }
    let mut t = [0u64; 3];
    let mut lens = [0; 3];
    for (i, k) in [n, 2 * n, 4 * n].into_iter().enumerate() {
        let text = grown(head, unit, tail, k);
        lens[i] = text.len();
        t[i] = instructions(fmt, &text)?;
    }
    growth("instructions executed", t, lens, 100_000)
}

fn cpu(fmt: Fmt, text: &str) -> f64 {
    let now = || unsafe {
        let mut t: libc::timespec = std::mem::zeroed();
        libc::clock_gettime(libc::CLOCK_THREAD_CPUTIME_ID, &mut t);
        t.tv_sec as f64 + t.tv_nsec as f64 * 1e-9
    };
    let a = now();
    drop(keep(fmt, text));
    now() - a
}
/// CPU time says where to look, counted instructions decide: time per byte at n
/// and at 16n repetitions. Where it rises, the instructions at 4n, 8n and 16n.
pub const SCREEN: f64 = 1.7;
pub static SCREENED: AtomicU64 = AtomicU64::new(0);
pub static SUSPECTED: AtomicU64 = AtomicU64::new(0);
const MOST_SUSPECTS: u64 = 6;
pub fn cost_growth(fmt: Fmt, head: &str, unit: &str, tail: &str, n: usize) -> Res {
    SCREENED.fetch_add(1, Relaxed);
    // Keep freed memory: else the time goes into faulting it in again, which
    // grows where the texts leave the caches.
    static KEEP: std::sync::Once = std::sync::Once::new();
    KEEP.call_once(|| unsafe {
        libc::mallopt(libc::M_MMAP_THRESHOLD, 1 << 30);
        libc::mallopt(libc::M_TRIM_THRESHOLD, i32::MAX);
        libc::mallopt(libc::M_TOP_PAD, 64 << 20);
    });
    // steps first: a load far from linear must not be met at full size
    for k in [n / 16, n / 4, n, 4 * n] {
        if k > 0 && cpu(fmt, &grown(head, unit, tail, k)) > 0.5 {
            return insn_growth(fmt, head, unit, tail, k);
        }
    }
    let (a, b) = (grown(head, unit, tail, n), grown(head, unit, tail, 16 * n));
    let (mut x, mut y) = (f64::MAX, f64::MAX);
    let mut ratio = 0.0;
    for _ in 0..3 {
        for _ in 0..4 {
            x = x.min(cpu(fmt, &a));
        }
        y = y.min(cpu(fmt, &b));
        ratio = (y / b.len() as f64) / (x / a.len() as f64);
        if ratio < SCREEN {
            break;
        }
    }
    debug(&format!("TIME {ratio:.3} {x} {:?}", ob::cut(unit, 60)));
    if ratio < SCREEN || SUSPECTED.fetch_add(1, Relaxed) >= MOST_SUSPECTS {
        return Ok(());
    }
    insn_growth(fmt, head, unit, tail, 4 * n)
}
fn debug(s: &str) {
    if let Some(f) = std::env::var_os("NH_DEBUG") {
        use std::io::Write;
        if let Ok(mut f) = std::fs::OpenOptions::new().append(true).create(true).open(f) {
            let _ = writeln!(f, "{s}");
        }
    }
}

// ---------------------------------------------------------------- C23

/// Floats as bits: every value, NaN included, survives the replay file.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Conv {
    Vertex(u32, u32, u32, Option<u32>),
    Normal(u32, u32, u32),
    Texture(u32, Option<u32>, Option<u32>),
    FaceEl(i32, Option<i32>, Option<i32>),
    LineEl(i32, Option<i32>),
    Face(Vec<(i32, Option<i32>, Option<i32>)>, i32),
    Line(Vec<(i32, Option<i32>)>),
    Point(Vec<i32>),
    Group(String, bool, bool, bool, u8, Option<String>),
    Default,
}
fn fb(x: u32) -> f32 {
    f32::from_bits(x)
}
fn want<T: PartialEq + std::fmt::Debug>(what: &str, got: T, want: T) -> Res {
    if got == want {
        Ok(())
    } else {
        Err(format!("{what}: got {got:?}, want {want:?}"))
    }
}
impl Conv {
    pub fn check(&self) -> Res {
        match self {
            Conv::Vertex(x, y, z, w) => {
                let t = (fb(*x), fb(*y), fb(*z), w.map(fb));
                for (how, v) in [
                    ("from a tuple", n::Vertex::from(t)),
                    ("from the constructor", n::Vertex::new(t.0, t.1, t.2, t.3)),
                    ("a copy", { #[allow(clippy::clone_on_copy)] n::Vertex::from(t).clone() }),
                ] {
                    want(&format!("Vertex {how}"), (v.x.to_bits(), v.y.to_bits(), v.z.to_bits(), v.w.map(f32::to_bits)), (*x, *y, *z, *w))?;
                    let b: (f32, f32, f32, Option<f32>) = v.into();
                    want(&format!("Vertex {how} to a tuple"), (b.0.to_bits(), b.1.to_bits(), b.2.to_bits(), b.3.map(f32::to_bits)), (*x, *y, *z, *w))?;
                }
                Ok(())
            }
            Conv::Normal(x, y, z) => {
                let t = (fb(*x), fb(*y), fb(*z));
                for (how, v) in [("from a tuple", n::Normal::from(t)), ("from the constructor", n::Normal::new(t.0, t.1, t.2))] {
                    want(&format!("Normal {how}"), (v.x.to_bits(), v.y.to_bits(), v.z.to_bits()), (*x, *y, *z))?;
                    let b: (f32, f32, f32) = v.into();
                    want(&format!("Normal {how} to a tuple"), (b.0.to_bits(), b.1.to_bits(), b.2.to_bits()), (*x, *y, *z))?;
                }
                Ok(())
            }
            Conv::Texture(u, v, w) => {
                let t = (fb(*u), v.map(fb), w.map(fb));
                for (how, x) in [("from a tuple", n::Texture::from(t)), ("from the constructor", n::Texture::new(t.0, t.1, t.2))] {
                    want(&format!("Texture {how}"), (x.u.to_bits(), x.v.map(f32::to_bits), x.w.map(f32::to_bits)), (*u, *v, *w))?;
                    let b: (f32, Option<f32>, Option<f32>) = x.into();
                    want(&format!("Texture {how} to a tuple"), (b.0.to_bits(), b.1.map(f32::to_bits), b.2.map(f32::to_bits)), (*u, *v, *w))?;
                }
                Ok(())
            }
            Conv::FaceEl(v, t, k) => {
                for (how, e) in [("from a tuple", n::FaceElement::from((*v, *t, *k))), ("from the constructor", n::FaceElement::new(*v, *t, *k))] {
                    want(&format!("FaceElement {how}"), (e.vertex_index, e.texture_index, e.normal_index), (*v, *t, *k))?;
                    want(&format!("FaceElement {how} to a tuple"), e.into(), (*v, *t, *k))?;
                }
                Ok(())
            }
            Conv::LineEl(v, t) => {
                for (how, e) in [("from a tuple", n::LineElement::from((*v, *t))), ("from the constructor", n::LineElement::new(*v, *t))] {
                    want(&format!("LineElement {how}"), (e.vertex_index, e.texture_index), (*v, *t))?;
                    want(&format!("LineElement {how} to a tuple"), e.into(), (*v, *t))?;
                }
                Ok(())
            }
            Conv::Face(es, s) => {
                let es: Vec<n::FaceElement> = es.iter().map(|e| n::FaceElement::new(e.0, e.1, e.2)).collect();
                for (how, f) in [("from a tuple", n::Face::from((es.clone(), *s))), ("from the constructor", n::Face::new(es.clone(), *s))] {
                    want(&format!("Face {how}"), (f.elements.clone(), f.smoothing_group), (es.clone(), *s))?;
                    want("Face clone", f.clone() == f, true)?;
                    let b: (Vec<n::FaceElement>, i32) = f.into();
                    want(&format!("Face {how} to a tuple"), b, (es.clone(), *s))?;
                }
                Ok(())
            }
            Conv::Line(es) => {
                let es: Vec<n::LineElement> = es.iter().map(|e| n::LineElement::new(e.0, e.1)).collect();
                for (how, f) in [("from its component", n::Line::from(es.clone())), ("from the constructor", n::Line::new(es.clone()))] {
                    want(&format!("Line {how}"), f.elements.clone(), es.clone())?;
                    let b: Vec<n::LineElement> = f.into();
                    want(&format!("Line {how} to its component"), b, es.clone())?;
                }
                Ok(())
            }
            Conv::Point(es) => {
                for (how, f) in [("from its component", n::Point::from(es.clone())), ("from the constructor", n::Point::new(es.clone()))] {
                    want(&format!("Point {how}"), f.elements.clone(), es.clone())?;
                    let b: Vec<i32> = f.into();
                    want(&format!("Point {how} to its component"), b, es.clone())?;
                }
                Ok(())
            }
            Conv::Group(m, b, c, d, l, t) => {
                let tu = (m.clone(), *b, *c, *d, *l, t.clone());
                for (how, g) in [
                    ("from a tuple", n::Group::from(tu.clone())),
                    ("from the constructor", n::Group::new(m.clone(), *b, *c, *d, *l, t.clone())),
                ] {
                    want(
                        &format!("Group {how}"),
                        (g.material_name.clone(), g.bevel, g.c_interp, g.d_interp, g.lod, g.texture_map.clone()),
                        tu.clone(),
                    )?;
                    want("Group clone", g.clone() == g, true)?;
                    let back: (String, bool, bool, bool, u8, Option<String>) = g.into();
                    want(&format!("Group {how} to a tuple"), back, tu.clone())?;
                }
                Ok(())
            }
            Conv::Default => defaults(),
        }
    }
}
fn defaults() -> Res {
    want("default Vertex", n::Vertex::default().into(), (0.0, 0.0, 0.0, None::<f32>))?;
    want("default Normal", n::Normal::default().into(), (0.0, 0.0, 0.0))?;
    want("default Texture", n::Texture::default().into(), (0.0, None::<f32>, None::<f32>))?;
    want("default FaceElement", n::FaceElement::default().into(), (0, None::<i32>, None::<i32>))?;
    want("default LineElement", n::LineElement::default().into(), (0, None::<i32>))?;
    want("default Face", n::Face::default().into(), (Vec::<n::FaceElement>::new(), 0))?;
    want("default Line", n::Line::default().elements.len(), 0)?;
    want("default Point", n::Point::default().elements.len(), 0)?;
    want("default Group", n::Group::default().into(), (String::new(), false, false, false, 0u8, None::<String>))?;
    let m = crate::canon::model(&n::Model::default());
    let mut w = crate::canon::CModel::default();
    w.groups.insert("default".into(), Default::default());
    want("default Model", m, w)?;
    let m = crate::canon::material(&n::Material::default());
    want("default Material", format!("{m:?}"), "{\"name\": \"\\\"\\\"\"}".to_string())?;
    let c = n::ColorCorrectedMap::default();
    want("default ColorCorrectedMap", (c.file_name.as_str(), c.blend_u, c.blend_v, c.color_correct, c.clamp), ("", None, None, None, None))?;
    want("default ColorCorrectedMap", (c.texture_range, c.offset, c.scale, c.turbulance, c.texture_res), (None, None, None, None, None))?;
    let c = n::NonColorCorrectedMap::default();
    want("default NonColorCorrectedMap", (c.file_name.as_str(), c.blend_u, c.blend_v, c.clamp, c.imf_chan.clone()), ("", None, None, None, None))?;
    want("default NonColorCorrectedMap", (c.texture_range, c.offset, c.scale, c.turbulance, c.texture_res), (None, None, None, None, None))?;
    let b = n::BumpMap::default();
    want("default BumpMap", (b.bump_multiplier, b.map_settings.is_none()), (None, true))?;
    let r = n::ReflectionMap::default();
    want("default ReflectionMap", (r.reflection_type.as_str(), r.map_settings.is_none()), ("", true))
}

/// For `nharness load`: one load and nothing else.
pub fn load_file(fmt: &str, file: &str) {
    let t = std::fs::read_to_string(file).expect("HARNESS: read");
    if fmt == "obj" {
        drop(n::load_obj(&t));
    } else {
        drop(n::load_mtl(&t));
    }
}
