//! Worker and single-execution entry points of the simulation binaries.
//!
//! `BIN worker PROP TIER SEED FROM STEP COUNT SECONDS PROGRESS OUT`
//!     runs FROM, FROM+STEP, … ; writes a summary to OUT.
//! `BIN exec PROP TIER tape FILE | seed SEED INDEX FORCED [LOG] [TAPE_OUT]`
//!     one execution; prints a JSON report.

use crate::{Report, Source};
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::io::Write as _;
use std::time::Instant;

pub struct Prop {
    pub id: &'static str,
    /// One simulated execution.
    pub scenario: fn(tier: Tier),
    /// The first choice of the scenario is the fault point; enumerate it up to
    /// the value the scenario reports in the counter `fault_points`.
    pub enumerate_faults: bool,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

pub const FORCE_FAULT: usize = 1 << 40;
const ENUM_CAP: u64 = if cfg!(miri) { 9 } else { 48 };

pub fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => write!(o, "\\u{:04x}", c as u32).unwrap(),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn report_json(r: &Report) -> String {
    let mut o = String::from("{");
    match (&r.violation, &r.harness_panic) {
        (Some(v), _) => {
            write!(o, "\"class\":{},\"msg\":{},", jstr(&v.class), jstr(&v.msg)).unwrap()
        }
        (None, Some(p)) => {
            write!(o, "\"class\":\"unexpected-panic\",\"msg\":{},", jstr(p)).unwrap()
        }
        _ => o.push_str("\"class\":null,\"msg\":null,"),
    }
    write!(o, "\"hash\":\"{:016x}\",\"state\":\"{:016x}\",\"steps\":{},", r.hash, r.state_hash, r.steps)
        .unwrap();
    o.push_str("\"stats\":{");
    for (i, (k, v)) in r.stats.iter().enumerate() {
        write!(o, "{}{}:{}", if i > 0 { "," } else { "" }, jstr(k), v).unwrap();
    }
    o.push_str("},\"tape\":[");
    for (i, v) in r.tape.iter().enumerate() {
        write!(o, "{}{}", if i > 0 { "," } else { "" }, v).unwrap();
    }
    o.push_str("],\"log\":[");
    for (i, v) in r.log.iter().enumerate() {
        write!(o, "{}{}", if i > 0 { "," } else { "" }, jstr(v)).unwrap();
    }
    o.push_str("]}");
    o
}

pub fn run_seed(seed: u64, prop: &str, index: u64) -> u64 {
    crate::mix(crate::mix(seed, crate::hash_str(prop)), index)
}

/// Puts global state back before a run.
pub static RESET: std::sync::OnceLock<fn()> = std::sync::OnceLock::new();

fn one(p: &Prop, tier: Tier, source: Source, log: bool, out: Option<std::fs::File>) -> Report {
    if let Some(f) = RESET.get() {
        f();
    }
    let r = crate::run(source, log, out, || (p.scenario)(tier));
    crate::vast::run_over();
    r
}

pub fn main(props: &[Prop]) {
    std::panic::set_hook(Box::new(|info| {
        if std::env::var_os("SIM_PANICS").is_some() {
            eprintln!("{info}");
        }
    }));
    let a: Vec<String> = std::env::args().collect();
    let p = props.iter().find(|p| p.id == a[2]).expect("unknown property");
    let tier = if a[3] == "thorough" { Tier::Thorough } else { Tier::Quick };
    match a[1].as_str() {
        "worker" => worker(p, tier, &a[4..]),
        "exec" => exec(p, tier, &a[4..]),
        _ => panic!("unknown command"),
    }
}

fn exec(p: &Prop, tier: Tier, a: &[String]) {
    let (source, rest) = match a[0].as_str() {
        "tape" => {
            let text = std::fs::read_to_string(&a[1]).unwrap();
            let t = text.split_whitespace().map(|x| x.parse().unwrap()).collect();
            (Source::Tape(t), &a[2..])
        }
        _ => {
            let forced: Vec<u64> =
                if a[3] == "-" { vec![] } else { a[3].split(',').map(|x| x.parse().unwrap()).collect() };
            let s = run_seed(a[1].parse().unwrap(), p.id, a[2].parse().unwrap());
            (Source::Seed(s, forced), &a[4..])
        }
    };
    let log = rest.first().is_some_and(|l| l == "log");
    let out = rest.get(1).map(|f| std::fs::File::create(f).unwrap());
    let r = one(p, tier, source, log, out);
    let report = report_json(&r);
    // standard output may be a simulated terminal
    match std::env::var_os("SIM_REPORT") {
        Some(path) => std::fs::write(path, report).unwrap(),
        None => println!("{report}"),
    }
}

struct Totals {
    runs: u64,
    steps: u64,
    hashes: HashSet<u64>,
    states: HashSet<u64>,
    nontrivial: HashSet<u64>,
    stats: BTreeMap<&'static str, u64>,
}

fn worker(p: &Prop, tier: Tier, a: &[String]) {
    let seed: u64 = a[0].parse().unwrap();
    let from: u64 = a[1].parse().unwrap();
    let step: u64 = a[2].parse().unwrap();
    let total: u64 = a[3].parse().unwrap();
    let secs: f64 = a[4].parse().unwrap();
    let mut progress = std::fs::File::create(&a[5]).unwrap();
    let out = &a[6];
    let t0 = Instant::now();
    let mut t = Totals {
        runs: 0,
        steps: 0,
        hashes: HashSet::new(),
        states: HashSet::new(),
        nontrivial: HashSet::new(),
        stats: BTreeMap::new(),
    };
    let in_order = std::env::var_os("SIM_ORDERED").is_some();
    let mut ordered = vec![];
    let mut done_indices = 0u64;
    let mut found: Option<String> = None;
    let mut i = from;
    'outer: while i < total {
        if t0.elapsed().as_secs_f64() > secs {
            break;
        }
        let s = run_seed(seed, p.id, i);
        let mut forced: Vec<Vec<u64>> = vec![if p.enumerate_faults { vec![0] } else { vec![] }];
        let mut fi = 0;
        while fi < forced.len() {
            let f = forced[fi].clone();
            let ftext = f.first().map_or("-".to_string(), |x| x.to_string());
            // fixed-width record, overwritten in place
            use std::io::Seek;
            progress.seek(std::io::SeekFrom::Start(0)).unwrap();
            progress.write_all(format!("{i:>20} {ftext:>20}\n").as_bytes()).unwrap();
            let r = one(p, tier, Source::Seed(s, f.clone()), false, None);
            t.runs += 1;
            t.steps += r.steps;
            t.hashes.insert(r.hash);
            if in_order {
                ordered.push((i, r.state_hash));
            }
            t.states.insert(r.state_hash);
            if r.stats.get("nontrivial").copied().unwrap_or(0) > 0 {
                t.nontrivial.insert(r.hash);
            }
            for (k, v) in &r.stats {
                *t.stats.entry(k).or_insert(0) += v;
            }
            if r.violation.is_some() || r.harness_panic.is_some() {
                let mut o = String::new();
                write!(o, "{{\"index\":{i},\"forced\":{},\"report\":{}}}", jstr(&ftext), report_json(&r))
                    .unwrap();
                found = Some(o);
                break 'outer;
            }
            if fi == 0 && p.enumerate_faults {
                let n = r.stats.get("fault_points").copied().unwrap_or(0);
                let cap = if tier == Tier::Thorough && !cfg!(miri) { ENUM_CAP * 4 } else { ENUM_CAP };
                if n <= cap {
                    forced.extend((1..=n).map(|k| vec![k]));
                } else {
                    // all of the first and last ones, and an even spread between
                    let mut ks: Vec<u64> = (1..=cap / 3).collect();
                    ks.extend((0..cap / 3).map(|j| cap / 3 + 1 + j * (n - 2 * (cap / 3)) / (cap / 3)));
                    ks.extend(n - cap / 3 + 1..=n);
                    ks.sort_unstable();
                    ks.dedup();
                    forced.extend(ks.into_iter().map(|k| vec![k]));
                }
            }
            fi += 1;
        }
        done_indices += 1;
        i += step;
    }
    let mut o = String::from("{");
    write!(
        o,
        "\"runs\":{},\"indices\":{},\"steps\":{},\"secs\":{:.3},\"found\":{},\"stats\":{{",
        t.runs,
        done_indices,
        t.steps,
        t0.elapsed().as_secs_f64(),
        found.as_deref().unwrap_or("null")
    )
    .unwrap();
    for (i, (k, v)) in t.stats.iter().enumerate() {
        write!(o, "{}{}:{}", if i > 0 { "," } else { "" }, jstr(k), v).unwrap();
    }
    o.push_str("}}");
    if in_order {
        let bytes: Vec<u8> = ordered.iter().flat_map(|(i, h)| [i.to_le_bytes(), h.to_le_bytes()].concat()).collect();
        std::fs::write(format!("{out}.ordered"), bytes).unwrap();
    }
    std::fs::write(out, o).unwrap();
    for (name, set) in [("hashes", &t.hashes), ("states", &t.states), ("nontrivial", &t.nontrivial)] {
        let mut v: Vec<u64> = set.iter().copied().collect();
        v.sort_unstable();
        let bytes: Vec<u8> = v.iter().flat_map(|x| x.to_le_bytes()).collect();
        std::fs::write(format!("{out}.{name}"), bytes).unwrap();
    }
}
