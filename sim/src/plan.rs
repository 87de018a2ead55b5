//! A run is a pure function of a plan (scenario, configuration, operations with the faults
//! attached to them) and a list of decisions.

use crate::props;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Fault {
    None,
    /// Refuse `nth` request to the allocator made by the operation, or all from there on.
    Alloc { nth: u8, sticky: bool },
    /// Panic in `nth` call of user code of this kind.
    Panic { kind: u8, nth: u8 },
}

pub const P_CLONE: u8 = 0;
pub const P_DROP: u8 = 1;
pub const P_EQ: u8 = 2;
pub const P_CALL: u8 = 3;
pub const P_ITER: u8 = 4;
pub const P_SCOPE: u8 = 5;
pub const PANIC_NAMES: [&str; 6] = ["clone", "drop", "eq", "closure", "iterator", "scope"];

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Op {
    /// Simulated thread. 0 is the main one before the others start, `AFTER` is the main one after
    /// they all are done.
    pub t: u8,
    pub code: u8,
    pub a: u16,
    pub b: u16,
    pub c: u16,
    pub fault: Fault,
}

pub const AFTER: u8 = 255;

#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Plan {
    pub prop: usize,
    pub checked: bool,
    pub scen: usize,
    pub cfg: [u16; 8],
    pub ops: Vec<Op>,
    pub dec: Vec<u16>,
}

pub const SCENARIOS: [&str; 8] =
    ["arc", "urc", "rc", "box", "vec", "smallvec", "string", "scope"];
pub const ARC: usize = 0;
pub const URC: usize = 1;
pub const RC: usize = 2;
pub const BOX: usize = 3;
pub const VEC: usize = 4;
pub const SMALLVEC: usize = 5;
pub const STRING: usize = 6;
pub const SCOPE: usize = 7;

pub fn op_name(scen: usize, code: u8) -> &'static str {
    crate::scen_ops(scen).get(code as usize).copied().unwrap_or("?")
}

impl Plan {
    pub fn ops_text(&self) -> String {
        let mut s = String::new();
        for op in &self.ops {
            let fault = match op.fault {
                Fault::None => "-".to_string(),
                Fault::Alloc { nth, sticky: false } => format!("refuse:{nth}"),
                Fault::Alloc { nth, sticky: true } => format!("refuse-from:{nth}"),
                Fault::Panic { kind, nth } => {
                    format!("panic-{}:{nth}", PANIC_NAMES[kind as usize % 6])
                }
            };
            let t = if op.t == AFTER { "after".to_string() } else { op.t.to_string() };
            s += &format!(
                "op {t} {} {} {} {} {fault}\n",
                op_name(self.scen, op.code),
                op.a,
                op.b,
                op.c
            );
        }
        s
    }

    pub fn to_text(&self, expect: &str) -> String {
        let mut s = String::from("lokky-sim-replay 1\n");
        s += &format!("property {}\n", props::PROPS[self.prop].id);
        s += &format!("build {}\n", if self.checked { "checked" } else { "fast" });
        s += &format!("scenario {}\n", SCENARIOS[self.scen]);
        s += "cfg";
        for c in self.cfg {
            s += &format!(" {c}");
        }
        s += "\n";
        s += &self.ops_text();
        s += "decisions";
        let last = self.dec.iter().rposition(|&d| d != 0).map_or(0, |i| i + 1);
        for d in &self.dec[..last] {
            s += &format!(" {d}");
        }
        s += "\n";
        if !expect.is_empty() {
            s += &format!("expect {}\n", expect.replace('\n', " "));
        }
        s
    }

    /// Returns plan and the expected violation.
    pub fn parse(text: &str) -> Result<(Plan, String), String> {
        let mut plan =
            Plan { prop: 0, checked: false, scen: 0, cfg: [0; 8], ops: vec![], dec: vec![] };
        let mut expect = String::new();
        let mut lines = text.lines();
        if lines.next() != Some("lokky-sim-replay 1") {
            return Err("not a replay file".into());
        }
        for line in lines {
            let (key, rest) = line.split_once(' ').unwrap_or((line, ""));
            let words: Vec<&str> = rest.split_whitespace().collect();
            let num = |s: &str| s.parse::<u16>().map_err(|e| format!("{line}: {e}"));
            match key {
                "property" => plan.prop = props::by_id(rest).ok_or(format!("no property {rest}"))?,
                "build" => plan.checked = rest == "checked",
                "scenario" => {
                    plan.scen = SCENARIOS.iter().position(|s| *s == rest).ok_or("no scenario")?
                }
                "cfg" => {
                    for (i, w) in words.iter().enumerate().take(8) {
                        plan.cfg[i] = num(w)?;
                    }
                }
                "op" => {
                    if words.len() != 6 {
                        return Err(format!("bad op: {line}"));
                    }
                    let code = crate::scen_ops(plan.scen)
                        .iter()
                        .position(|n| *n == words[1])
                        .ok_or(format!("no op {}", words[1]))?;
                    let f = words[5];
                    let (name, nth) = f.split_once(':').unwrap_or((f, "0"));
                    let nth = num(nth)? as u8;
                    let fault = match name {
                        "-" => Fault::None,
                        "refuse" => Fault::Alloc { nth, sticky: false },
                        "refuse-from" => Fault::Alloc { nth, sticky: true },
                        _ => {
                            let kind = name.strip_prefix("panic-").ok_or("bad fault")?;
                            let kind =
                                PANIC_NAMES.iter().position(|n| *n == kind).ok_or("bad fault")?;
                            Fault::Panic { kind: kind as u8, nth }
                        }
                    };
                    plan.ops.push(Op {
                        t: if words[0] == "after" { AFTER } else { num(words[0])? as u8 },
                        code: code as u8,
                        a: num(words[2])?,
                        b: num(words[3])?,
                        c: num(words[4])?,
                        fault,
                    });
                }
                "decisions" => {
                    for w in words {
                        plan.dec.push(num(w)?);
                    }
                }
                "expect" => expect = rest.to_string(),
                "" => {}
                _ if key.starts_with('#') => {}
                _ => return Err(format!("bad line: {line}")),
            }
        }
        Ok((plan, expect))
    }
}

/// One run in 24 is several times as long as the others.
pub fn long(rng: &mut crate::rng::Rng) -> bool {
    rng.chance(1, 24)
}
