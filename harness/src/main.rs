#[macro_use]
mod run;
#[macro_use]
mod io;
mod c_conc;
mod c_digest;
mod c_faults;
mod c_hostile;
mod c_limits;
mod c_proto;
mod c_san;
mod c_values;
mod corpus;
mod hostile;
mod model;
mod mon;
mod ops;
mod rng;
mod v;

#[global_allocator]
static ALLOC: mon::MonAlloc = mon::MonAlloc;

use run::*;

pub fn checks(p: &str) -> Option<fn(&Ctx)> {
    Some(match p {
        "C01" => c_values::c01,
        "C02" => c_values::c02,
        "C03" => c_values::c03,
        "C04" => c_values::c04,
        "C05" => c_values::c05,
        "C06" => c_values::c06,
        "C07" => c_values::c07,
        "C08" => c_hostile::c08,
        "C09" => c_hostile::c09,
        "C10" => c_limits::c10,
        "C11" => c_limits::c11,
        "C12" => c_hostile::c12,
        "C26" => c_limits::c26,
        "C22" => c_hostile::c22,
        "C27" => c_digest::c27,
        "C28" => c_hostile::c28,
        "C13" => c_values::c13,
        "C14" => c_faults::c14,
        "C15" => c_faults::c15,
        "C16" => c_faults::c16,
        "C17" => c_proto::c17,
        "C18" => c_proto::c18,
        "C19" => c_values::c19,
        "C20" => c_conc::c20,
        "C21" => c_san::c21,
        "C23" => c_proto::c23,
        "C24" => c_values::c24,
        "C25" => c_proto::c25,
        _ => return None,
    })
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let opt = |n: &str| a.iter().position(|x| x == n).and_then(|i| a.get(i + 1)).cloned();
    let prop = a.get(1).cloned().unwrap_or_default();
    if prop == "ready" {
        println!("HARNESS-READY");
        return;
    }
    let Some(f) = checks(&prop) else {
        eprintln!("HARNESS-ERROR: unknown property {:?}", prop);
        std::process::exit(3);
    };
    let tier = match opt("--tier").as_deref() {
        Some("thorough") => Tier::Thorough,
        Some("mini") => Tier::Mini,
        _ => Tier::Quick,
    };
    let mut ctx = Ctx {
        prop,
        seed: opt("--seed").and_then(|x| x.parse().ok()).unwrap_or(1),
        tier,
        threads: opt("--threads").and_then(|x| x.parse().ok()).unwrap_or_else(|| std::thread::available_parallelism().map_or(4, |n| n.get())),
        only: a.iter().position(|x| x == "--only").map(|i| (a[i + 1].clone(), a[i + 2].parse().expect("index"))),
        only_groups: opt("--groups").map(|g| g.split(',').map(String::from).collect()),
        stats: Default::default(),
        fails: Default::default(),
        marker: opt("--marker"),
        stop: false.into(),
        group_seq: 0.into(),
        scale: opt("--scale").and_then(|x| x.parse().ok()).unwrap_or(1.0),
        out: opt("--out"),
        prefix: String::new(),
        shard: opt("--shard").map(|s| {
            let (k, n) = s.split_once('/').expect("k/n");
            (k.parse().expect("k"), n.parse().expect("n"))
        }),
        group_ms: opt("--group-ms").map(|x| x.parse().expect("ms")),
        skip: opt("--skip").map(|g| g.split(',').map(String::from).collect()).unwrap_or_default(),
        part: opt("--part").map(|s| {
            let (k, n) = s.split_once('/').expect("k/n");
            (k.parse().expect("k"), n.parse().expect("n"))
        }),
        dump: opt("--dump"),
        times: a.iter().any(|x| x == "--times"),
        sanitizing: false,
        digest: Default::default(),
    };
    v::TINY.store(a.iter().any(|x| x == "--tiny"), std::sync::atomic::Ordering::SeqCst);
    mon::install_panic_hook();
    if ctx.prop == "C21" {
        let started = std::time::Instant::now();
        let deadline: Option<u64> = opt("--deadline").and_then(|x| x.parse().ok());
        // all other checks' workloads, judged by the sanitizers alone
        ctx.sanitizing = true;
        mon::PEEK.store(true, std::sync::atomic::Ordering::SeqCst);
        for p in c_san::WORKLOADS {
            if opt("--workloads").is_some_and(|w| !w.split(',').any(|x| x == *p)) {
                continue;
            }
            ctx.prop = p.to_string();
            ctx.prefix = format!("{}/", p);
            let done = std::sync::atomic::AtomicBool::new(false);
            std::thread::scope(|s| {
                if let Some(d) = deadline {
                    let (ctx, done) = (&ctx, &done);
                    s.spawn(move || {
                        while !done.load(std::sync::atomic::Ordering::SeqCst) {
                            if started.elapsed().as_secs() >= d {
                                ctx.end_at_deadline();
                            }
                            std::thread::park_timeout(std::time::Duration::from_millis(50));
                        }
                    });
                }
                checks(p).unwrap()(&ctx);
                done.store(true, std::sync::atomic::Ordering::SeqCst);
            });
        }
    } else {
        f(&ctx);
    }
    let r = ctx.report();
    match opt("--out") {
        Some(p) => std::fs::write(p, r).expect("write report"),
        None => println!("{}", r),
    }
    if !ctx.fails.lock().unwrap().is_empty() {
        std::process::exit(1);
    }
}
