//! Parent process: starts workers, watches over them, minimises what they find, writes evidence.

use crate::plan::*;
use crate::props::{self, Class, Ctx};
use crate::shm::{self, Shm};
use crate::stats;
use std::path::PathBuf;
use std::process::{Child, Command, Stdio};
use std::time::{Duration, Instant};

const WORKERS: usize = 8;

pub fn scratch(name: &str) -> String {
    format!("/dev/shm/lokky-sim-{}-{name}", std::process::id())
}

/// This binary, and the one built with the other profile.
fn binary(checked: bool) -> PathBuf {
    let this = std::env::current_exe().expect("exe");
    if checked == crate::CHECKED {
        return this;
    }
    match std::env::var("LOKKY_SIM_OTHER") {
        Ok(p) => p.into(),
        Err(_) => {
            let s = this.to_string_lossy().into_owned();
            if crate::CHECKED {
                s.replace("target-checked/checked", "target-fast/release").into()
            } else {
                s.replace("target-fast/release", "target-checked/checked").into()
            }
        }
    }
}

pub fn run_other(args: &[&str]) -> i32 {
    match Command::new(binary(!crate::CHECKED)).args(args).status() {
        Ok(s) => s.code().unwrap_or(2),
        Err(e) => {
            eprintln!("other binary: {e}");
            2
        }
    }
}

struct Slot {
    shm: *mut Shm,
    path: String,
    child: Option<Child>,
    checked: bool,
    next: u64,
    last_seen: u64,
    last_change: Instant,
    restarts: u32,
    over: bool,
}

impl Drop for Slot {
    fn drop(&mut self) {
        if let Some(c) = &mut self.child {
            let _ = c.kill();
            let _ = c.wait();
        }
        shm::unmap(self.shm);
        let _ = std::fs::remove_file(&self.path);
    }
}

struct Found {
    index: u64,
    checked: bool,
    class: Class,
    msg: String,
    dec: Vec<u16>,
    hang: bool,
}

enum End {
    Clean,
    Ours(Class, String),
    Foreign,
    Error(String),
}

/// What the end of the process means.
fn judge(prop: usize, shm: &Shm, status: std::process::ExitStatus) -> End {
    use std::os::unix::process::ExitStatusExt;
    match status.code() {
        Some(0) => End::Clean,
        Some(77) => End::Ours(props::CLASSES[shm.class as usize], shm.message()),
        Some(78) => End::Foreign,
        Some(79) => End::Error(shm.message()),
        Some(c) => End::Error(format!("worker exits with {c}: {}", shm.message())),
        None => {
            let sig = status.signal().unwrap_or(0);
            if sig == libc::SIGKILL {
                return End::Error("worker is killed".into());
            }
            let ctx = Ctx {
                oom: shm.ctx & 1 != 0,
                panic: shm.ctx & 2 != 0,
                iter: shm.ctx & 4 != 0,
            };
            if props::accepts(prop, Class::CRASH, ctx) {
                End::Ours(Class::CRASH, format!("signal {sig}"))
            } else {
                End::Foreign
            }
        }
    }
}

pub fn check(args: &[String]) -> i32 {
    let id = args.first().cloned().unwrap_or_default();
    let Some(prop) = props::by_id(&id) else {
        eprintln!("no property {id}");
        return 2;
    };
    let tier = args.get(1).cloned().unwrap_or("quick".into());
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let env_num = |n: &str| std::env::var(n).ok().and_then(|s| s.parse::<u64>().ok());
    let thorough = tier == "thorough";
    let runs = env_num("LOKKY_SIM_RUNS")
        .unwrap_or(props::PROPS[prop].quick_runs * if thorough { 60 } else { 1 });
    let millis = env_num("LOKKY_SIM_MILLIS").unwrap_or(if thorough { 600_000 } else { 30_000 });
    let start = Instant::now();

    let mut slots: Vec<Slot> = (0..WORKERS)
        .map(|i| {
            let path = scratch(&format!("w{i}"));
            let shm = shm::map(&path, true);
            Slot {
                shm,
                path,
                child: None,
                checked: i % 2 == 1,
                next: i as u64,
                last_seen: 0,
                last_change: Instant::now(),
                restarts: 0,
                over: false,
            }
        })
        .collect();

    let mut found: Option<Found> = None;
    let mut error = None;
    let mut foreign = 0u64;
    'outer: loop {
        let mut active = false;
        for slot in slots.iter_mut() {
            let shm = unsafe { &mut *slot.shm };
            if slot.over {
                continue;
            }
            active = true;
            let Some(child) = &mut slot.child else {
                let left = millis.saturating_sub(start.elapsed().as_millis() as u64);
                if slot.next >= runs || left == 0 || slot.restarts > 300 {
                    slot.over = true;
                    continue;
                }
                shm.state = shm::RUNNING;
                shm.current = 0;
                let child = Command::new(binary(slot.checked))
                    .args(["worker", &slot.path, &id, &seed.to_string()])
                    .args([slot.next, WORKERS as u64, runs, left].map(|n| n.to_string()))
                    .stdout(Stdio::null())
                    .stderr(Stdio::null())
                    .spawn();
                match child {
                    Ok(c) => slot.child = Some(c),
                    Err(e) => {
                        error = Some(format!("cannot start worker: {e}"));
                        break 'outer;
                    }
                }
                slot.last_change = Instant::now();
                slot.restarts += 1;
                continue;
            };
            let index = shm.current.saturating_sub(1);
            match child.try_wait().expect("wait") {
                Some(status) => {
                    slot.child = None;
                    match judge(prop, shm, status) {
                        End::Clean => slot.over = true,
                        End::Ours(class, msg) => {
                            found = Some(Found {
                                index,
                                checked: slot.checked,
                                class,
                                msg,
                                dec: shm.dec[..shm.ndec as usize].to_vec(),
                                hang: false,
                            });
                            break 'outer;
                        }
                        End::Foreign => {
                            foreign += 1;
                            slot.next = index + WORKERS as u64;
                        }
                        End::Error(e) => {
                            error = Some(format!("run {index}: {e}"));
                            break 'outer;
                        }
                    }
                }
                None => {
                    if shm.current != slot.last_seen {
                        slot.last_seen = shm.current;
                        slot.last_change = Instant::now();
                    } else if slot.last_change.elapsed() > Duration::from_secs(15) {
                        let _ = child.kill();
                        let _ = child.wait();
                        slot.child = None;
                        let ctx = Ctx {
                            oom: shm.ctx & 1 != 0,
                            panic: shm.ctx & 2 != 0,
                            iter: shm.ctx & 4 != 0,
                        };
                        if props::accepts(prop, Class::HANG, ctx) {
                            found = Some(Found {
                                index,
                                checked: slot.checked,
                                class: Class::HANG,
                                msg: "run does not end".into(),
                                dec: shm.dec[..shm.ndec as usize].to_vec(),
                                hang: true,
                            });
                            break 'outer;
                        }
                        foreign += 1;
                        slot.next = index + WORKERS as u64;
                    }
                }
            }
        }
        if !active {
            break;
        }
        std::thread::sleep(Duration::from_millis(2));
    }
    let search_s = start.elapsed().as_secs_f64();
    for s in slots.iter_mut() {
        if let Some(c) = &mut s.child {
            let _ = c.kill();
            let _ = c.wait();
        }
        s.child = None;
    }
    if let Some(e) = error {
        eprintln!("harness error: {e}");
        return 3;
    }

    // Sum up.
    let mut sum = [0u64; stats::N];
    let mut bitmap = vec![0u8; shm::BITMAP_BITS / 8];
    let mut finished = 0;
    for s in &slots {
        let shm = unsafe { &*s.shm };
        finished += shm.finished;
        for (a, b) in sum.iter_mut().zip(shm.stats) {
            *a += b;
        }
        for (a, b) in bitmap.iter_mut().zip(shm.bitmap.iter()) {
            *a |= b;
        }
    }
    let distinct: u64 = bitmap.iter().map(|b| b.count_ones() as u64).sum();
    drop(slots);

    let mut result = None;
    if let Some(f) = found {
        let (file, expect) = minimise(prop, seed, &f);
        println!("found in run {} of seed {seed}: {expect}", f.index);
        result = Some((file, expect, f.index));
    }

    let samples: Vec<String> = (0..3)
        .map(|i| {
            let (p, _) = crate::make_plan(prop, seed, i, i % 2 == 1);
            let ops = p.ops_text().replace("\nop ", "; ");
            format!("run {i} ({}, cfg {:?}): {ops}", SCENARIOS[p.scen], p.cfg)
        })
        .collect();
    let wall = start.elapsed().as_secs_f64();
    let stat_json = |pre: &str, keep: bool| -> String {
        let v: Vec<String> = stats::NAMES
            .iter()
            .zip(sum)
            .filter(|(n, v)| n.starts_with(pre) && *v > 0 && (keep || !n.contains("f_")))
            .map(|(n, v)| format!("\"{}\": {v}", &n[pre.len()..]))
            .collect();
        format!("{{{}}}", v.join(", "))
    };
    let get = |s: stats::St| sum[s as usize];
    let scen: Vec<String> =
        props::PROPS[prop].scen.iter().map(|s| format!("\"{}\"", SCENARIOS[s.0])).collect();
    let json = format!(
        r#"{{
 "property": "{id}",
 "tier": "{tier}",
 "seed": {seed},
 "level": "exploration",
 "coverage": {{
  "evaluations": {finished},
  "distinct_nontrivial": {distinct},
  "rule": "One evaluation is one complete simulated execution: a workload, faults and all scheduling, memory-order and allocator decisions drawn from (VERIF_SEED, property, run index). Non-trivial: at least 3 operations took effect and at least one thread switch, injected fault or allocation happened. Distinct: by 64-bit hash of the whole event log (operations, atomic accesses with values, allocator traffic, drops, faults), counted in a table of 2^26 bits, so this is a lower bound.",
  "samples": [{samples}],
  "runs_per_hour": {per_hour},
  "runs_planned": {runs},
  "runs_ended_by_violations_of_other_properties": {foreign},
  "simulated_steps": {steps},
  "operations": {ops},
  "thread_switches": {switches},
  "atomic_operations": {atomics},
  "faults_injected": {faults},
  "rare_conditions_hit": {probes},
  "scenarios": [{scen}],
  "simulated_time": "there is no clock in the library; simulated time is counted in scheduling steps",
  "builds": ["optimised", "debug assertions and overflow checks"],
  "real_components": ["all code of lokky: pointers, containers, scopes, selectors"],
  "simulated_components": ["threads and scheduler", "memory order of atomics", "allocators", "user code: elements, closures, iterators, scopes"]
 }},
 "assumptions": ["payload accesses are seen at granularity of a value, not of a byte", "sequentially consistent loads read the latest store", "addresses are never reused within a run"],
 "wall_s": {wall:.2},
 "violations": {nviol}
}}
"#,
        samples = samples.iter().map(|s| json_str(s)).collect::<Vec<_>>().join(", "),
        per_hour = (finished as f64 / search_s.max(0.001) * 3600.0) as u64,
        steps = get(stats::St::steps),
        ops = get(stats::St::ops),
        switches = get(stats::St::thread_switches),
        atomics = get(stats::St::atomic_ops),
        faults = stat_json("f_", true),
        probes = stat_json("p_", true),
        scen = scen.join(", "),
        nviol = result.is_some() as u32,
    );
    let dir = std::env::var("LOKKY_SIM_DIR").unwrap_or("/verif".into());
    let _ = std::fs::create_dir_all(format!("{dir}/evidence"));
    if let Err(e) = std::fs::write(format!("{dir}/evidence/{id}.json"), json) {
        eprintln!("evidence: {e}");
        return 3;
    }
    println!(
        "{id}: {finished} runs ({distinct} distinct) in {search_s:.1} s, {} steps, {foreign} ended by other properties",
        get(stats::St::steps)
    );
    if finished == 0 && result.is_none() {
        eprintln!("harness error: nothing was run");
        return 3;
    }
    match result {
        Some((file, _, _)) => {
            println!("VIOLATION property={id} replay={file}");
            1
        }
        None => 0,
    }
}

fn json_str(s: &str) -> String {
    let mut out = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => out += "\\\"",
            '\\' => out += "\\\\",
            '\n' => out += "\\n",
            c if (c as u32) < 32 => out += &format!("\\u{:04x}", c as u32),
            c => out.push(c),
        }
    }
    out + "\""
}

// ---------------------------------------------------------------------------------------------
// Minimisation.

struct Tester {
    path: String,
    file: String,
    shm: *mut Shm,
    deadline: Instant,
    class: Class,
    prop: usize,
    timeout: Duration,
    pub tries: u32,
}

impl Tester {
    /// Whether the plan fails in the same way. Decisions of the plan get replaced
    /// by the ones with which it did.
    fn fails(&mut self, plan: &mut Plan, schedules: u32) -> Option<String> {
        if Instant::now() > self.deadline {
            return None;
        }
        self.tries += 1;
        std::fs::write(&self.file, plan.to_text("")).ok()?;
        let shm = unsafe { &mut *self.shm };
        shm.state = shm::RUNNING;
        shm.current = 0;
        shm.ndec = 0;
        shm.ctx = 0;
        let mut child = Command::new(binary(plan.checked))
            .args(["attempt", &self.path, &self.file, &schedules.to_string()])
            .stdout(Stdio::null())
            .stderr(Stdio::null())
            .spawn()
            .ok()?;
        let start = Instant::now();
        let status = loop {
            if let Some(s) = child.try_wait().ok()? {
                break s;
            }
            if start.elapsed() > self.timeout {
                let _ = child.kill();
                let _ = child.wait();
                if self.class == Class::HANG {
                    plan.dec = shm.dec[..shm.ndec as usize].to_vec();
                    return Some("run does not end".into());
                }
                return None;
            }
            std::thread::sleep(Duration::from_micros(300));
        };
        match judge(self.prop, shm, status) {
            End::Ours(class, msg) if class == self.class => {
                plan.dec = shm.dec[..shm.ndec as usize].to_vec();
                Some(msg)
            }
            _ => None,
        }
    }
}

fn trim(plan: &mut Plan) {
    while plan.dec.last() == Some(&0) {
        plan.dec.pop();
    }
}

fn minimise(prop: usize, seed: u64, f: &Found) -> (String, String) {
    let (mut plan, _) = crate::make_plan(prop, seed, f.index, f.checked);
    plan.dec = f.dec.clone();
    let path = scratch("min");
    let shm = shm::map(&path, true);
    let secs = std::env::var("LOKKY_SIM_MINIMISE").ok().and_then(|s| s.parse().ok()).unwrap_or(15);
    let mut t = Tester {
        file: format!("{path}.plan"),
        path,
        shm,
        deadline: Instant::now() + Duration::from_secs(secs),
        class: f.class,
        prop,
        timeout: Duration::from_secs(if f.hang { 2 } else { 10 }),
        tries: 0,
    };
    let mut msg = f.msg.clone();
    let many = 200;
    let mut best = plan.clone();
    let mut cand = best.clone();
    if let Some(m) = t.fails(&mut cand, 0) {
        msg = m;
        let mut size = best.ops.len().next_power_of_two();
        // Operations.
        while size > 0 {
            let mut i = 0;
            let mut removed = false;
            while i < best.ops.len() {
                let mut cand = best.clone();
                let end = (i + size).min(cand.ops.len());
                cand.ops.drain(i..end);
                if let Some(m) = t.fails(&mut cand, many) {
                    best = cand;
                    msg = m;
                    removed = true;
                } else {
                    i += size;
                }
            }
            if !(size == 1 && removed) {
                size /= 2;
            }
        }
        // Faults.
        for i in 0..best.ops.len() {
            if best.ops[i].fault != Fault::None {
                let mut cand = best.clone();
                cand.ops[i].fault = Fault::None;
                if let Some(m) = t.fails(&mut cand, many) {
                    best = cand;
                    msg = m;
                }
            }
        }
        // Settings and arguments.
        for i in 0..8 {
            for v in [0, best.cfg[i] / 2, best.cfg[i].saturating_sub(1)] {
                if v < best.cfg[i] {
                    let mut cand = best.clone();
                    cand.cfg[i] = v;
                    if let Some(m) = t.fails(&mut cand, many / 4) {
                        best = cand;
                        msg = m;
                    }
                }
            }
        }
        for i in 0..best.ops.len() {
            for k in 0..3 {
                let get = |p: &Plan| [p.ops[i].a, p.ops[i].b, p.ops[i].c][k];
                let old = get(&best);
                for v in [0, 1, old / 2, old.saturating_sub(1)] {
                    if v < get(&best) {
                        let mut cand = best.clone();
                        let o = &mut cand.ops[i];
                        *[&mut o.a, &mut o.b, &mut o.c][k] = v;
                        if let Some(m) = t.fails(&mut cand, 20) {
                            best = cand;
                            msg = m;
                        }
                    }
                }
            }
        }
        // Decisions.
        let mut size = best.dec.len().next_power_of_two();
        while size > 0 {
            let mut i = 0;
            while i < best.dec.len() {
                let end = (i + size).min(best.dec.len());
                if best.dec[i..end].iter().any(|&d| d != 0) {
                    let mut cand = best.clone();
                    cand.dec[i..end].fill(0);
                    trim(&mut cand);
                    let n = cand.dec.len();
                    if let Some(m) = t.fails(&mut cand, 0) {
                        cand.dec.truncate(n.max(0));
                        best = cand;
                        msg = m;
                    }
                }
                i += size;
            }
            size /= 2;
        }
        trim(&mut best);
    } else {
        println!("note: the first replay of the violation did not reproduce it");
    }
    // The file must reproduce by itself.
    t.deadline = Instant::now() + Duration::from_secs(30);
    let mut last = best.clone();
    match t.fails(&mut last, 0) {
        Some(m) => msg = m,
        None => {
            best = plan;
            let mut last = best.clone();
            if let Some(m) = t.fails(&mut last, 0) {
                msg = m;
            }
        }
    }
    let expect = format!("{}: {}", props::CLASS_NAMES[f.class as usize], msg);
    let dir = std::env::var("LOKKY_SIM_DIR").unwrap_or("/verif".into());
    let _ = std::fs::create_dir_all(format!("{dir}/replays"));
    let file = format!("{dir}/replays/{}-{seed}-{}.replay", props::PROPS[prop].id, f.index);
    let text = best.to_text(&expect);
    if let Err(e) = std::fs::write(&file, text) {
        eprintln!("replay file: {e}");
    }
    let _ = std::fs::remove_file(&t.path);
    let _ = std::fs::remove_file(&t.file);
    shm::unmap(shm);
    println!(
        "minimised to {} operations and {} decisions in {} attempts",
        best.ops.len(),
        best.dec.iter().filter(|&&d| d != 0).count(),
        t.tries
    );
    (file, expect)
}
