//! Deterministic simulation of lokky with fault injection. See /verif/DESIGN.md.

mod cmp;
mod cont;
mod elem;
mod heap;
mod plan;
mod props;
mod rng;
mod runner;
mod scopes;
mod seq;
mod shared;
mod shm;
mod stats;
mod text;
mod vals;
mod world;

use plan::*;
use rng::{mix, Rng};
use shm::Shm;
use stats::St;
use world::*;

#[global_allocator]
static GLOBAL: std::alloc::System = std::alloc::System;

pub const CHECKED: bool = cfg!(debug_assertions);

pub fn scen_ops(scen: usize) -> &'static [&'static str] {
    match scen {
        ARC | URC | RC => shared::OPS,
        BOX | VEC | SMALLVEC => seq::OPS,
        STRING => text::OPS,
        SCOPE => scopes::OPS,
        _ => &[],
    }
}

/// Plan and the seed of the decisions of the run of this index.
pub fn make_plan(prop: usize, seed: u64, index: u64, checked: bool) -> (Plan, u64) {
    let mut rng = Rng::new(mix(seed.wrapping_mul(0x9e37_79b9_7f4a_7c15) ^ mix(prop as u64 + 1)) ^ mix(index));
    let weights: Vec<u32> = props::PROPS[prop].scen.iter().map(|s| s.1).collect();
    let scen = props::PROPS[prop].scen[rng.weighted(&weights)].0;
    let mut plan = Plan { prop, checked, scen, cfg: [0; 8], ops: vec![], dec: vec![] };
    plan.cfg[7] = rng.below(8) as u16;
    match scen {
        ARC | URC | RC => shared::gen(prop, scen, &mut rng, &mut plan),
        BOX | VEC | SMALLVEC => seq::gen(prop, scen, &mut rng, &mut plan),
        STRING => text::gen(prop, &mut rng, &mut plan),
        SCOPE => scopes::gen(prop, &mut rng, &mut plan),
        _ => unreachable!(),
    }
    // In some of the runs all of it happens in a destructor while the thread is unwinding.
    plan.cfg[6] = (mix(seed ^ index << 8 ^ 0x77) % 32 == 0) as u16;
    // Some of the refusals are made by the scope, which panics then.
    for (n, o) in plan.ops.iter_mut().enumerate() {
        if let Fault::Alloc { nth, .. } = o.fault {
            if mix(seed ^ index << 10 ^ n as u64) % 8 == 0 {
                o.fault = Fault::Panic { kind: P_SCOPE, nth };
            }
        }
    }
    (plan, rng.next())
}

/// Execute. Returns only if nothing bad was found.
pub fn run_plan(plan: Plan, seed: u64, free: bool) {
    let scen = plan.scen;
    begin(plan, seed, free);
    heap::reset_envs();
    let run = || {
        std::panic::catch_unwind(|| match scen {
            ARC | URC | RC => shared::run(),
            BOX | VEC | SMALLVEC => seq::run(),
            STRING => text::run(),
            SCOPE => scopes::run(),
            _ => unreachable!(),
        })
    };
    let cfg = w().plan.cfg;
    let threads = matches!(scen, ARC | URC | SCOPE) && cfg[0] > 0;
    let r = if cfg[6] == 1 && !threads { vals::while_unwinding(run) } else { run() };
    if r.is_err() {
        let msg = w().last_panic.clone();
        violate(props::Class::PANIC, format!("panic outside of any operation: {msg}"));
    }
    let w = w();
    w.stat(St::runs);
    w.stat_n(St::steps, w.steps);
    w.stat_n(St::thread_switches, w.switches);
}

fn nontrivial() -> bool {
    let w = w();
    w.real_ops >= 3 && (w.switches > 0 || w.faults_fired > 0 || w.heap.allocated > 0)
}

fn arg<T: std::str::FromStr>(args: &[String], i: usize) -> T {
    args.get(i).and_then(|s| s.parse().ok()).unwrap_or_else(|| {
        eprintln!("bad argument {i}");
        std::process::exit(2)
    })
}

/// worker SHM PROP SEED FIRST STEP LAST MILLIS
fn worker(args: &[String]) {
    let path: String = arg(args, 0);
    let prop = props::by_id(&args[1]).expect("property");
    let seed: u64 = arg(args, 2);
    let (first, step, last, millis): (u64, u64, u64, u64) =
        (arg(args, 3), arg(args, 4), arg(args, 5), arg(args, 6));
    let p = shm::map(&path, false);
    init(p);
    let shm: &mut Shm = unsafe { &mut *p };
    let start = std::time::Instant::now();
    let mut index = first;
    while index < last {
        shm.current = index + 1;
        let (plan, rseed) = make_plan(prop, seed, index, CHECKED);
        run_plan(plan, rseed, true);
        if nontrivial() {
            let h = mix(w().log_hash) as usize % shm::BITMAP_BITS;
            shm.bitmap[h / 8] |= 1 << (h % 8);
        }
        shm.finished += 1;
        index += step;
        if index / step % 16 == 0 && start.elapsed().as_millis() as u64 > millis {
            break;
        }
    }
    shm.current = index + 1;
    shm.state = shm::DONE;
}

/// attempt SHM FILE SCHEDULES: execute the file, then try more schedules for it.
fn attempt(args: &[String]) {
    let path: String = arg(args, 0);
    let file: String = arg(args, 1);
    let n: u64 = arg(args, 2);
    let text = std::fs::read_to_string(&file).expect("file");
    let (plan, _) = Plan::parse(&text).expect("plan");
    let p = shm::map(&path, false);
    init(p);
    unsafe { (*p).current = 1 };
    run_plan(plan.clone(), 1, false);
    for i in 0..n {
        unsafe { (*p).current = 2 + i };
        let mut plan = plan.clone();
        if i % 8 == 0 {
            plan.dec.clear();
        } else {
            let keep = plan.dec.len() * (i as usize % 16) / 16;
            plan.dec.truncate(keep);
        }
        run_plan(plan, mix(i + 77), true);
    }
    unsafe { (*p).state = shm::DONE };
}

/// digest PROP SEED FIRST LAST: hash of everything observed in these runs, with and without
/// feeding recorded decisions back.
fn digest(args: &[String]) {
    let prop = props::by_id(&args[0]).expect("property");
    let (seed, first, last): (u64, u64, u64) = (arg(args, 1), arg(args, 2), arg(args, 3));
    let p = shm::map(&format!("/dev/shm/lokky-sim-digest-{}", std::process::id()), true);
    std::fs::remove_file(format!("/dev/shm/lokky-sim-digest-{}", std::process::id())).unwrap();
    init(p);
    let mut sum = 0u64;
    for index in first..last {
        let (plan, rseed) = make_plan(prop, seed, index, CHECKED);
        run_plan(plan.clone(), rseed, true);
        let h = w().log_hash;
        let shm = unsafe { &*p };
        let dec = shm.dec[..shm.ndec as usize].to_vec();
        run_plan(Plan { dec, ..plan }, 1, false);
        if w().log_hash != h {
            println!("run {index} is not repeatable by its decisions");
            std::process::exit(3);
        }
        sum = mix(sum ^ h);
    }
    println!("digest {sum:016x}");
}

fn replay(args: &[String]) -> i32 {
    let file: String = arg(args, 0);
    let text = std::fs::read_to_string(&file).expect("file");
    let (plan, expect) = match Plan::parse(&text) {
        Ok(p) => p,
        Err(e) => {
            eprintln!("{file}: {e}");
            return 2;
        }
    };
    if plan.checked != CHECKED {
        return runner::run_other(&["replay", &file]);
    }
    let shm = runner::scratch("replay");
    let p = shm::map(&shm, true);
    let id = props::PROPS[plan.prop].id;
    // Child does it, as the process may well crash.
    let pid = unsafe { libc::fork() };
    if pid == 0 {
        init(p);
        w().trace = true;
        run_plan(plan, 1, false);
        use std::io::Write;
        let _ = std::io::stdout().flush();
        unsafe { libc::_exit(0) };
    }
    let mut status = 0;
    unsafe { libc::waitpid(pid, &mut status, 0) };
    let _ = std::fs::remove_file(&shm);
    let shm = unsafe { &*p };
    let found = if libc::WIFSIGNALED(status) {
        format!("crash: signal {}", libc::WTERMSIG(status))
    } else if libc::WEXITSTATUS(status) == 77 {
        format!("{}: {}", props::CLASS_NAMES[shm.class as usize], shm.message())
    } else {
        println!("no violation (expected: {expect})");
        return libc::WEXITSTATUS(status).min(3);
    };
    println!("found: {found}");
    if !expect.is_empty() && expect != found {
        println!("note: file says: {expect}");
    }
    println!("VIOLATION property={id} replay={file}");
    1
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let rest = args.get(2..).unwrap_or(&[]);
    let code = match args.get(1).map(|s| s.as_str()) {
        Some("worker") => {
            worker(rest);
            0
        }
        Some("attempt") => {
            attempt(rest);
            0
        }
        Some("digest") => {
            digest(rest);
            0
        }
        Some("replay") => replay(rest),
        Some("check") => runner::check(rest),
        Some("plan") => {
            let prop = props::by_id(&rest[0]).expect("property");
            let (plan, _) = make_plan(prop, arg(rest, 1), arg(rest, 2), CHECKED);
            print!("{}", plan.to_text(""));
            0
        }
        _ => {
            eprintln!("check PROP TIER | replay FILE | plan PROP SEED INDEX | digest PROP SEED FIRST LAST");
            2
        }
    };
    std::process::exit(code);
}
