//! Generated-input search against the properties of nobject-rs; see DESIGN.md.
mod alloc;
mod ast;
mod canon;
#[cfg(feature = "guided")]
mod cov;
mod dict;
mod gen;
#[cfg(feature = "guided")]
mod guided;
mod ob;
mod props;
mod refparse;
mod run;
mod special;
mod sweep;
mod sweep2;

#[global_allocator]
static A: alloc::Counting = alloc::Counting;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let a: Vec<&str> = a.iter().map(|s| s.as_str()).collect();
    match &a[1..] {
        ["load", fmt, file] => {
            special::load_file(fmt, file);
            return;
        }
        ["check", id] => std::process::exit(run::check(id)),
        _ => {}
    }
    run::quiet_panics();
    let code = std::panic::catch_unwind(|| match &a[1..] {
        ["worker", id, seed, shard, cases, insn, work] => {
            let n = |s: &str| s.parse().expect("HARNESS: number");
            let r = run::worker(id, n(seed), n(shard), n(cases), n(insn), std::path::Path::new(work));
            println!("{}", serde_json::to_string(&r).expect("HARNESS: json"));
            0
        }
        #[cfg(feature = "guided")]
        ["guided", id, seed, shard, execs, ms, work] => {
            let n = |s: &str| s.parse().expect("HARNESS: number");
            let r = run::guided_worker(id, n(seed), n(shard), n(execs), n(ms), std::path::Path::new(work));
            println!("{}", serde_json::to_string(&r).expect("HARNESS: json"));
            0
        }
        ["one", file] | ["replay", file] => run::replay(file),
        ["gen", id, seed, count] => {
            run::show(id, seed.parse().expect("HARNESS: number"), count.parse().expect("HARNESS: number"));
            0
        }
        _ => {
            eprintln!("usage: nharness check ID | replay FILE | gen ID SEED COUNT");
            2
        }
    })
    .unwrap_or_else(|_| {
        eprintln!("HARNESS ERROR {}", run::last_panic());
        println!("HARNESS ERROR {}", run::last_panic());
        2
    });
    std::process::exit(code);
}
