//! Generating, judging, shrinking, replaying, counting.
use crate::ob::{self, Ob};
use crate::props::{self, Case};
use crate::special;
use crate::{sweep, sweep2};
use proptest::strategy::{Strategy, ValueTree};
use proptest::test_runner::{Config, RngAlgorithm, TestRng, TestRunner};
use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::Ordering::Relaxed;
use std::time::{Duration, Instant};

pub const SHARDS: u64 = 8;
/// Exit codes of a worker or a replay.
pub const HELD: i32 = 0;
pub const BROKEN: i32 = 1;
pub const HARNESS: i32 = 2;

thread_local! { static PANIC: RefCell<String> = const { RefCell::new(String::new()) }; }
pub fn last_panic() -> String {
    PANIC.with(|p| p.borrow().clone())
}
pub fn quiet_panics() {
    std::panic::set_hook(Box::new(|i| {
        let m = i
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| i.payload().downcast_ref::<String>().cloned())
            .unwrap_or_default();
        let at = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let s = format!("{m} at {at}");
        PANIC.with(|p| *p.borrow_mut() = s);
    }));
}
/// The harness's own mistakes are no violations.
fn own_panic(m: &str) -> bool {
    m.contains("HARNESS") || m.rsplit(" at ").next().is_some_and(|l| l.starts_with("src/"))
}

/// `Err((obligation, why))`: false of the crate.
pub fn judge(obs: &[Ob]) -> Result<(), (usize, String)> {
    for (i, o) in obs.iter().enumerate() {
        match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| o.check())) {
            Ok(Ok(())) => {}
            Ok(Err(e)) => return Err((i, e)),
            Err(_) => {
                let m = last_panic();
                if own_panic(&m) {
                    println!("HARNESS ERROR {m}");
                    eprintln!("HARNESS ERROR {m}");
                    std::process::exit(HARNESS);
                }
                return Err((i, format!("panic: {m}")));
            }
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- the case a worker is at

const SLOT: usize = 8 << 20;
pub struct Slot(*mut u8);
impl Slot {
    fn open(p: &Path) -> Slot {
        use std::os::unix::io::AsRawFd;
        let f = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(false).open(p).expect("HARNESS: slot");
        f.set_len(SLOT as u64).expect("HARNESS: slot");
        let m = unsafe { libc::mmap(std::ptr::null_mut(), SLOT, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED, f.as_raw_fd(), 0) };
        assert!(m != libc::MAP_FAILED, "HARNESS: mmap");
        Slot(m.cast())
    }
    pub fn put(&self, obs: &[Ob], count: u64) {
        let j = serde_json::to_vec(obs).expect("HARNESS: json");
        let j = if j.len() + 16 > SLOT { b"[]".to_vec() } else { j };
        unsafe {
            std::ptr::copy_nonoverlapping(j.as_ptr(), self.0.add(16), j.len());
            self.0.add(8).cast::<u64>().write_volatile(j.len() as u64);
            self.0.cast::<u64>().write_volatile(count);
        }
    }
    fn count(&self) -> u64 {
        unsafe { self.0.cast::<u64>().read_volatile() }
    }
    fn get(&self) -> Vec<Ob> {
        let b = unsafe {
            let n = self.0.add(8).cast::<u64>().read_volatile() as usize;
            std::slice::from_raw_parts(self.0.add(16), n.min(SLOT - 16)).to_vec()
        };
        serde_json::from_slice(&b).unwrap_or_default()
    }
}

// ---------------------------------------------------------------- worker

#[derive(Serialize, Deserialize, Default)]
pub struct Report {
    pub cases: u64,
    pub loads: u64,
    pub loaded: u64,
    pub valgrind_runs: u64,
    pub shrunk: u64,
    pub tags: BTreeMap<String, u64>,
    pub hashes: Vec<u64>,
    /// of the sweep, whose cases are distinct by construction
    pub fixed_nontrivial: u64,
    pub samples: Vec<(String, String)>,
    pub failure: Option<(Ob, String)>,
    /// branches of the crate reached by the guided part
    pub edges: u64,
}

fn seed_bytes(seed: u64, id: &str, shard: u64, part: u64) -> [u8; 32] {
    let mut b = [0u8; 32];
    b[..8].copy_from_slice(&seed.to_le_bytes());
    b[8..16].copy_from_slice(&shard.to_le_bytes());
    b[16..19].copy_from_slice(&id.as_bytes()[..3]);
    b[24..32].copy_from_slice(&part.to_le_bytes());
    b
}
/// For trying out the random part alone.
fn fixed_off() -> bool {
    std::env::var_os("NH_NOFIXED").is_some()
}
pub fn hash_obs(obs: &[Ob]) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    let mut any = false;
    for o in obs {
        for t in o.texts() {
            t.hash(&mut h);
            any = true;
        }
    }
    if !any {
        format!("{obs:?}").hash(&mut h);
    }
    h.finish()
}
fn sample(c: &Case) -> String {
    match c.obs.first() {
        Some(o) => ob::cut(&serde_json::to_string(o).expect("HARNESS: json"), 700),
        None => String::new(),
    }
}

pub fn worker(id: &str, seed: u64, shard: u64, cases: u64, insn: u64, work: &Path) -> Report {
    let slot = Slot::open(&work.join(format!("slot-{shard}")));
    let mut r = Report::default();
    let mut hashes = HashSet::new();
    let mut per_tag: BTreeMap<&'static str, usize> = BTreeMap::new();
    let plan = [(0u64, cases, props::strategy(id)), (1, insn, props::insn_strategy())];
    'all: for (part, n, strat) in plan {
        let mut runner = TestRunner::new_with_rng(
            Config { failure_persistence: None, max_shrink_iters: 0, ..Config::default() },
            TestRng::from_seed(RngAlgorithm::ChaCha, &seed_bytes(seed, id, shard, part)),
        );
        for i in 0..n {
            let mut tree = strat.new_tree(&mut runner).expect("HARNESS: strategy");
            let case = tree.current();
            r.cases += 1;
            *r.tags.entry(case.tag.into()).or_default() += 1;
            slot.put(&case.obs, r.cases);
            let vac = ob::VACUOUS.load(Relaxed);
            if let Err((k, why)) = judge(&case.obs) {
                let (o, why) = shrink(&mut *tree, case.obs[k].clone(), why, &mut r.shrunk, &slot, r.cases);
                r.failure = Some((o, why));
                break 'all;
            }
            if case.nontrivial && ob::VACUOUS.load(Relaxed) == vac {
                hashes.insert(hash_obs(&case.obs));
                let k = per_tag.entry(case.tag).or_default();
                if *k < 1 && i > 5 {
                    *k += 1;
                    r.samples.push((case.tag.into(), sample(&case)));
                }
            }
        }
    }
    if r.failure.is_none() {
        let thorough = std::env::var("VERIF_TIER").is_ok_and(|t| t == "thorough");
        for (i, case) in sweep::cases(id, thorough).chain(sweep2::cases(id, thorough)).enumerate() {
            if i as u64 % SHARDS != shard || fixed_off() {
                continue;
            }
            r.cases += 1;
            *r.tags.entry(case.tag.into()).or_default() += 1;
            slot.put(&case.obs, r.cases);
            let vac = ob::VACUOUS.load(Relaxed);
            if let Err((k, why)) = judge(&case.obs) {
                let mut check = |o: &Ob| -> Option<String> {
                    slot.put(std::slice::from_ref(o), r.cases);
                    judge(std::slice::from_ref(o)).err().map(|e| e.1)
                };
                r.failure = Some(cut_text((case.obs[k].clone(), why), Instant::now(), Duration::from_secs(30), &mut check));
                break;
            }
            if case.nontrivial && ob::VACUOUS.load(Relaxed) == vac {
                r.fixed_nontrivial += 1;
                let k = per_tag.entry(case.tag).or_default();
                if *k < 1 && r.fixed_nontrivial % 97 == 1 + shard {
                    *k += 1;
                    r.samples.push((case.tag.into(), sample(&case)));
                }
            }
        }
    }
    r.hashes = hashes.into_iter().collect();
    r.loads = ob::LOADS.load(Relaxed);
    r.loaded = ob::LOADED_OK.load(Relaxed);
    r.valgrind_runs = special::VALGRIND_RUNS.load(Relaxed);
    r
}

#[cfg(feature = "guided")]
pub fn guided_worker(id: &str, seed: u64, shard: u64, execs: u64, ms: u64, work: &Path) -> Report {
    let slot = Slot::open(&work.join(format!("slot-{shard}")));
    let mut runner = TestRunner::new_with_rng(
        Config { failure_persistence: None, max_shrink_iters: 0, ..Config::default() },
        TestRng::from_seed(RngAlgorithm::ChaCha, &seed_bytes(seed, id, shard, 2)),
    );
    let mut h = std::collections::hash_map::DefaultHasher::new();
    (seed, shard, id).hash(&mut h);
    crate::guided::worker(id, &mut runner, h.finish(), execs, Duration::from_millis(ms), &slot)
}

/// proptest's own shrinking of the generated structure, then removal of lines,
/// words and characters where the oracle stays meaningful.
fn shrink(tree: &mut dyn ValueTree<Value = Case>, ob: Ob, why: String, steps: &mut u64, slot: &Slot, count: u64) -> (Ob, String) {
    let slow = matches!(ob, Ob::Insn { .. } | Ob::Cost { .. });
    let t0 = Instant::now();
    let limit = Duration::from_secs(if slow { 60 } else { 30 });
    let mut best = (ob, why);
    let mut left = 4000;
    if tree.simplify() {
        loop {
            if left == 0 || t0.elapsed() > limit {
                break;
            }
            left -= 1;
            *steps += 1;
            let c = tree.current();
            slot.put(&c.obs, count);
            match judge(&c.obs) {
                Err((k, why)) => {
                    best = (c.obs[k].clone(), why);
                    if !tree.simplify() {
                        break;
                    }
                }
                Ok(()) => {
                    if !tree.complicate() {
                        break;
                    }
                }
            }
        }
    }
    let mut check = |o: &Ob| -> Option<String> {
        *steps += 1;
        slot.put(std::slice::from_ref(o), count);
        judge(std::slice::from_ref(o)).err().map(|e| e.1)
    };
    cut_text(best, t0, limit * 2, &mut check)
}

/// Delta debugging on the text of an obligation that allows it.
pub fn cut_text(mut best: (Ob, String), t0: Instant, limit: Duration, check: &mut dyn FnMut(&Ob) -> Option<String>) -> (Ob, String) {
    let text = match best.0.texts().as_slice() {
        [t] if best.0.with_text(String::new()).is_some() => t.to_string(),
        _ => return best,
    };
    for unit in 0..3 {
        let text_now = best.0.texts()[0].clone();
        let mut pieces: Vec<String> = match unit {
            0 => text_now.split_inclusive(['\n', '\r']).map(String::from).collect(),
            1 => text_now.split_inclusive([' ', '\t', '\n', '\r']).map(String::from).collect(),
            _ => text_now.chars().map(String::from).collect(),
        };
        if pieces.len() > 20_000 {
            continue;
        }
        let mut size = pieces.len().div_ceil(2);
        while size >= 1 {
            let mut i = 0;
            let mut shrunk = false;
            while i < pieces.len() {
                if t0.elapsed() > limit {
                    return best;
                }
                let j = (i + size).min(pieces.len());
                let cand: String = pieces[..i].iter().chain(&pieces[j..]).map(|s| s.as_str()).collect();
                let o = best.0.with_text(cand).unwrap();
                match check(&o) {
                    Some(why) => {
                        best = (o, why);
                        pieces.drain(i..j);
                        shrunk = true;
                    }
                    None => i = j,
                }
            }
            if size == 1 && !shrunk {
                break;
            }
            size = if size == 1 { 1 } else { size / 2 };
        }
    }
    let _ = text;
    best
}

// ---------------------------------------------------------------- parent

pub struct Budget {
    pub cases: u64,
    pub insn: u64,
    /// variations of the guided part, and the seconds it may take
    pub execs: u64,
    pub guided_s: u64,
}
/// Cases per shard.
pub fn budget(id: &str, thorough: bool) -> Budget {
    let (cases, insn) = match id {
        "C01" => (80_000, 0),
        "C02" => (60_000, 0),
        "C03" => (60_000, 0),
        "C20" => (1_500, 0),
        "C21" => (8_000, 0),
        "C22" => (300, 10),
        "C23" => (400_000, 0),
        "C11" | "C17" => (80_000, 0),
        _ => (30_000, 0),
    };
    let execs = match id {
        "C22" | "C23" => 0,
        "C20" => 3_000,
        "C21" => 5_000,
        _ => 150_000,
    };
    if thorough {
        Budget { cases: cases * 25, insn: insn * 30, execs: execs * 60, guided_s: 900 }
    } else {
        Budget { cases, insn, execs, guided_s: 20 }
    }
}

fn cpu_seconds(pid: u32) -> f64 {
    let Ok(s) = std::fs::read_to_string(format!("/proc/{pid}/stat")) else { return 0.0 };
    let Some(rest) = s.rsplit(')').next() else { return 0.0 };
    let f: Vec<&str> = rest.split_whitespace().collect();
    let t = |i: usize| f.get(i).and_then(|x| x.parse::<f64>().ok()).unwrap_or(0.0);
    (t(11) + t(12)) / 100.0
}
/// CPU seconds one case may use. The slowest take a fraction of one.
const HANG: f64 = 40.0;

enum End {
    Held,
    Broken(String),
    Died(String),
    Hang,
    Error,
}
/// Judges one obligation in a process of its own.
fn alone(o: &Ob, work: &Path) -> End {
    let f = work.join("alone.json");
    std::fs::write(&f, serde_json::to_vec(o).expect("HARNESS: json")).expect("HARNESS: write");
    let mut c = Command::new(std::env::current_exe().expect("HARNESS: exe"));
    c.arg("one").arg(&f).env("NH_WORK", work).stdout(Stdio::piped()).stderr(Stdio::null());
    unsafe {
        use std::os::unix::process::CommandExt;
        c.pre_exec(|| {
            let l = libc::rlimit { rlim_cur: HANG as u64, rlim_max: HANG as u64 + 5 };
            libc::setrlimit(libc::RLIMIT_CPU, &l);
            Ok(())
        });
    }
    let out = c.output().expect("HARNESS: spawn");
    use std::os::unix::process::ExitStatusExt;
    let s = String::from_utf8_lossy(&out.stdout).trim().to_string();
    match (out.status.code(), out.status.signal()) {
        (Some(HELD), _) => End::Held,
        (Some(BROKEN), _) => End::Broken(s),
        (_, Some(libc::SIGXCPU)) => End::Hang,
        (_, Some(x)) if x != libc::SIGKILL && x != libc::SIGTERM => End::Died(format!("the process ends by signal {x}")),
        _ => End::Error,
    }
}

pub fn check(id: &str) -> i32 {
    let t0 = Instant::now();
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse().ok()).unwrap_or(1);
    let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
    let thorough = tier == "thorough";
    let root = PathBuf::from(std::env::var("NH_ROOT").unwrap_or_else(|_| "/verif".into()));
    let work = root.join("work").join(format!("{id}-{}", std::process::id()));
    std::fs::create_dir_all(&work).expect("HARNESS: work dir");
    let code = check_in(id, seed, thorough, &root, &work, t0);
    let _ = std::fs::remove_dir_all(&work);
    code
}

#[derive(Default)]
struct Got {
    total: Report,
    hashes: HashSet<u64>,
    errors: Vec<String>,
    found: Vec<(Ob, String)>,
    /// what went wrong in the guided part without being the crate's fault
    notes: Vec<String>,
}
impl Got {
    /// Runs one worker for each shard and collects what they report.
    fn phase(&mut self, id: &str, work: &Path, command: impl Fn(u64) -> Command, guided: bool) {
        let mut kids: Vec<_> = (0..SHARDS)
            .map(|s| {
                let out = std::fs::File::create(work.join(format!("report-{s}"))).expect("HARNESS: report");
                let err = std::fs::File::create(work.join(format!("stderr-{s}"))).expect("HARNESS: report");
                let c = command(s)
                    .arg(work)
                    .env("NH_WORK", work)
                    .stdout(out)
                    .stderr(err)
                    .spawn()
                    .expect("HARNESS: worker");
                (s, c, None::<std::process::ExitStatus>, 0u64, 0f64)
            })
            .collect();
        let slots: Vec<Slot> = (0..SHARDS).map(|s| Slot::open(&work.join(format!("slot-{s}")))).collect();
        let mut hung: Option<u64> = None;
        loop {
            let mut running = false;
            for (s, c, st, count, cpu) in kids.iter_mut() {
                if st.is_some() {
                    continue;
                }
                match c.try_wait().expect("HARNESS: wait") {
                    Some(x) => *st = Some(x),
                    None => {
                        running = true;
                        let (n, t) = (slots[*s as usize].count(), cpu_seconds(c.id()));
                        if n != *count {
                            (*count, *cpu) = (n, t);
                        } else if t - *cpu > HANG + 100.0 * (n == 0) as u8 as f64 {
                            let _ = c.kill();
                            hung = Some(*s);
                        }
                    }
                }
            }
            if !running {
                break;
            }
            std::thread::sleep(Duration::from_millis(20));
        }

        let Got { total, hashes, errors, found, notes } = self;
        for (s, _, st, _, _) in &kids {
            let out = std::fs::read(work.join(format!("report-{s}"))).unwrap_or_default();
            let err = std::fs::read_to_string(work.join(format!("stderr-{s}"))).unwrap_or_default();
            if let Ok(r) = serde_json::from_slice::<Report>(&out) {
                total.cases += r.cases;
                total.loads += r.loads;
                total.loaded += r.loaded;
                total.valgrind_runs += r.valgrind_runs;
                total.shrunk += r.shrunk;
                total.fixed_nontrivial += r.fixed_nontrivial;
                for (k, v) in r.tags {
                    *total.tags.entry(k).or_default() += v;
                }
                total.edges = total.edges.max(r.edges);
                hashes.extend(r.hashes);
                total.samples.extend(r.samples);
                found.extend(r.failure);
                continue;
            }
            // the worker did not come to its end: the case it was at, alone
            let st = st.expect("HARNESS: status");
            total.cases += slots[*s as usize].count();
            if st.code() == Some(HARNESS) {
                errors.push(format!("shard {s}: {}", ob::cut(&(String::from_utf8_lossy(&out).into_owned() + &err), 3000)));
                continue;
            }
            let obs = slots[*s as usize].get();
            let mut any = false;
            for o in obs {
                let bad = |o: &Ob| match alone(o, work) {
                    End::Broken(w) | End::Died(w) => Some(w),
                    End::Hang if id == "C01" => Some(format!("no result after {HANG} seconds of CPU time")),
                    _ => None,
                };
                if let Some(why) = bad(&o) {
                    any = true;
                    let limit = if hung.is_some() { Duration::from_secs(1) } else { Duration::from_secs(40) };
                    found.push(cut_text((o, why), Instant::now(), limit, &mut |o| bad(o)));
                    break;
                }
            }
            if !any {
                let to = if guided { &mut *notes } else { &mut *errors };
                to.push(format!("shard {s}: worker ended with {st:?}, its case holds alone{}; {}", if hung == Some(*s) { " or takes too long" } else { "" }, ob::cut(&err, 1500)));
            }
        }
    }
}

fn check_in(id: &str, seed: u64, thorough: bool, root: &Path, work: &Path, t0: Instant) -> i32 {
    if id == "C21" && !special::confinement_works() {
        println!("HARNESS ERROR: system calls cannot be trapped here");
        return HARNESS;
    }
    let mut b = budget(id, thorough);
    if let Some(n) = std::env::var("NH_CASES").ok().and_then(|s| s.parse().ok()) {
        b.cases = n;
    }
    let exe = std::env::current_exe().expect("HARNESS: exe");
    let mut got = Got::default();
    let sh = |s: u64| [id.to_string(), seed.to_string(), s.to_string()];
    got.phase(id, work, |s| {
        let mut c = Command::new(&exe);
        c.arg("worker").args(sh(s)).args([b.cases.to_string(), b.insn.to_string()]);
        c
    }, false);
    let guided = root.join("harness/target/guided/release/nharness");
    if b.execs > 0 && !guided.exists() {
        got.notes.push("the build with coverage counters failed".into());
    } else if b.execs > 0 && got.found.is_empty() && got.errors.is_empty() {
        got.phase(id, work, |s| {
            let mut c = Command::new(&guided);
            c.arg("guided").args(sh(s)).args([b.execs.to_string(), (b.guided_s * 1000).to_string()]);
            c
        }, true);
    }
    let Got { mut total, hashes, errors, mut found, notes } = got;
    total.samples.sort_by_key(|x| (x.0.clone(), x.1.len()));
    let mut samples: Vec<serde_json::Value> = Vec::new();
    let mut seen: BTreeMap<String, u32> = BTreeMap::new();
    for (tag, s) in &total.samples {
        let k = seen.entry(tag.clone()).or_default();
        *k += 1;
        if *k <= 2 {
            samples.push(serde_json::json!({"class": tag, "case": s}));
        }
    }
    // the smallest witness
    found.sort_by_key(|(o, _)| o.texts().iter().map(|t| t.len()).sum::<usize>());
    let ev = serde_json::json!({
        "property": id,
        "tier": if thorough { "thorough" } else { "quick" },
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": total.cases,
            "distinct_nontrivial": hashes.len() as u64 + total.fixed_nontrivial,
            "of_these_from_exhaustive_sweeps": total.fixed_nontrivial,
            "rule": props::rule(id),
            "samples": samples,
            "classes": total.tags,
            "loads": total.loads,
            "loads_that_gave_a_value": total.loaded,
            "valgrind_runs": total.valgrind_runs,
            "shrink_steps": total.shrunk,
            "shards": SHARDS,
            "branches_reached_by_the_guided_search": total.edges,
            "guided_workers_lost": notes,
        },
        "assumptions": ["what the generators can reach; see DESIGN.md"],
        "wall_s": t0.elapsed().as_secs_f64(),
        "violations": found.len(),
    });
    let evf = root.join("evidence").join(format!("{id}.json"));
    std::fs::create_dir_all(root.join("evidence")).expect("HARNESS: evidence");
    std::fs::write(&evf, serde_json::to_string_pretty(&ev).unwrap()).expect("HARNESS: evidence");
    println!(
        "{id}: {} cases, {} distinct non-trivial, {} loads ({} with a value), {:.1} s",
        total.cases, hashes.len() as u64 + total.fixed_nontrivial, total.loads, total.loaded, t0.elapsed().as_secs_f64()
    );
    for (k, v) in &total.tags {
        println!("  {v:>8}  {k}");
    }
    if let Some((o, why)) = found.first() {
        let rp = root.join("work").join(format!("replay-{id}.json"));
        std::fs::write(&rp, serde_json::to_string_pretty(o).unwrap()).expect("HARNESS: replay");
        println!("{}", ob::cut(&serde_json::to_string(o).unwrap(), 2000));
        println!("{}", printable(&why));
        println!("VIOLATION property={id} replay={}", rp.display());
        return BROKEN;
    }
    if !errors.is_empty() {
        for e in errors {
            println!("HARNESS ERROR {}", printable(&e));
        }
        return HARNESS;
    }
    HELD
}
/// One obligation: a replay file.
pub fn replay(file: &str) -> i32 {
    let b = std::fs::read(file).expect("HARNESS: replay file");
    let o: Ob = serde_json::from_slice(&b).expect("HARNESS: replay file");
    match judge(std::slice::from_ref(&o)) {
        Ok(()) => HELD,
        Err((_, why)) => {
            println!("{}", printable(&why));
            BROKEN
        }
    }
}

/// Prints generated cases.
pub fn show(id: &str, seed: u64, count: u64) {
    let strat = props::strategy(id);
    let mut runner = TestRunner::new_with_rng(
        Config { failure_persistence: None, ..Config::default() },
        TestRng::from_seed(RngAlgorithm::ChaCha, &seed_bytes(seed, id, 0, 0)),
    );
    for _ in 0..count {
        let c = strat.new_tree(&mut runner).expect("HARNESS: strategy").current();
        println!("[{}{}] {}", c.tag, if c.nontrivial { "" } else { ", trivial" }, sample(&c));
    }
}

/// On one line, without control characters a text under test brings in.
fn printable(s: &str) -> String {
    s.chars().map(|c| if c.is_control() { c.escape_default().to_string() } else { c.to_string() }).collect()
}
