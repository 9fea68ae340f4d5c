//! Runs batches of simulations in processes of their own, minimises what fails, writes evidence.

use crate::model_gen::{ALL_ENUMS, ENUM_INFO};
use crate::gen_::{Dict, make_plan, run_seed};
use crate::plan::{AT_END, Act, Mut, Plan};
use crate::rng::mix;
use crate::{root, run_plan};
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::fmt::Write as _;
use std::io::{BufRead, BufReader};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::Mutex;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::time::{Duration, Instant};

const BATCH: u64 = 24;
const WORKERS: usize = 8;
/// Builds of the library: with its own and the arithmetic checks on; as shipped; not optimised at all
const BUILDS: [&str; 3] = ["debug", "shipped", "plain"];
/// Time zones the process finds itself in: DIS time is UTC, wherever the host is
const ZONES: [&str; 4] = ["UTC0", "IST-5:30", "NST3:30", "NPT-5:45"];
/// Where a batch runs: which build, in which time zone
#[derive(Clone, Copy, PartialEq)]
struct Place {
    build: usize,
    zone: usize,
}
fn place_of(prop: &str, batch: u64) -> Place {
    let build = match batch % 12 {
        4 | 10 => 1,
        // work is not that of code nothing was inlined in
        5 if prop != "C07" && prop != "C17" => 2,
        _ => 0,
    };
    Place { build, zone: (batch / 2 % 4) as usize }
}
fn executable(build: usize) -> PathBuf {
    let own = std::env::current_exe().unwrap_or_else(|_| "/proc/self/exe".into());
    match own.parent().and_then(Path::parent) {
        Some(target) if build > 0 => target.join(BUILDS[build]).join("dissim"),
        _ => own,
    }
}
/// No run needs this much processor time, or waits this long for nothing, unless it does not end.
/// However slow the machine is, that says nothing about the run.
const PATIENCE: Duration = Duration::from_secs(60);
const TICK: Duration = Duration::from_secs(5);

/// Is the process asleep, and how much processor time has it had (in 1/100 s)?
fn activity(pid: u32) -> Option<(bool, u64)> {
    let t = std::fs::read_to_string(format!("/proc/{pid}/stat")).ok()?;
    let f: Vec<&str> = t.rsplit_once(')')?.1.split_whitespace().collect();
    let n = |i: usize| f.get(i).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0);
    Some((f.first() == Some(&"S"), n(11) + n(12)))
}

// ------------------------------------------------------------------ sources

/// (property, finding, text)
pub fn known_findings() -> Vec<(String, String, String)> {
    let t = std::fs::read_to_string(root().join("known_findings.txt")).unwrap_or_default();
    t.lines()
        .filter_map(|l| l.strip_prefix("known: property="))
        .filter_map(|l| {
            let (p, rest) = l.split_once(' ')?;
            let (f, text) = rest.split_once(' ')?;
            Some((p.to_string(), f.trim_end_matches(':').to_string(), text.to_string()))
        })
        .collect()
}

fn sources(dir: &Path, out: &mut Vec<PathBuf>) {
    let Ok(rd) = std::fs::read_dir(dir) else {
        return;
    };
    let mut v: Vec<PathBuf> = rd.filter_map(|e| e.ok().map(|e| e.path())).collect();
    v.sort();
    for p in v {
        if p.is_dir() {
            sources(&p, out);
        } else if p.extension().is_some_and(|e| e == "rs") {
            out.push(p);
        }
    }
}

/// What the library sources mention, and how often in which file: (file, number or Enum::Enumerant)
fn mentions() -> BTreeMap<(String, String), u32> {
    let repo = PathBuf::from(std::env::var("DISSIM_REPO").unwrap_or_else(|_| "/repo".into())).join("src");
    let mut files = vec![];
    sources(&repo, &mut files);
    let mut out = BTreeMap::new();
    for f in files {
        let Ok(t) = std::fs::read_to_string(&f) else {
            continue;
        };
        let file = f.strip_prefix(&repo).unwrap_or(&f).to_string_lossy().into_owned();
        let mut add = |what: String| *out.entry((file.clone(), what)).or_insert(0) += 1;
        for line in t.lines() {
            let code = line.split("//").next().unwrap_or("");
            let b = code.as_bytes();
            let word = |c: u8| c.is_ascii_alphanumeric() || c == b'_';
            let mut i = 0;
            // value and end of a constant expression so far
            let mut sum: Option<(u64, usize)> = None;
            while i < b.len() {
                // "text"
                if b[i] == b'"' {
                    let end = (i + 1..b.len()).find(|j| b[*j] == b'"').unwrap_or(b.len());
                    let t = &code[i + 1..end];
                    if !t.is_empty() && t.len() <= 32 && !t.contains(['\\', '{']) {
                        add(format!("text:{}", t.bytes().map(|c| format!("{c:02x}")).collect::<String>()));
                    }
                    i = end + 1;
                    continue;
                }
                // 'x'
                if b[i] == b'\'' && i + 2 < b.len() && b[i + 2] == b'\'' && b[i + 1] != b'\\' {
                    add(b[i + 1].to_string());
                    i += 3;
                    continue;
                }
                if !word(b[i]) || (i > 0 && word(b[i - 1])) {
                    i += 1;
                    continue;
                }
                let s = i;
                if !b[i].is_ascii_digit() {
                    // Enum::Enumerant
                    while i < b.len() && word(b[i]) {
                        i += 1;
                    }
                    if b[s].is_ascii_uppercase() && b[i..].starts_with(b"::") && b.get(i + 2).is_some_and(u8::is_ascii_uppercase) {
                        i += 2;
                        while i < b.len() && word(b[i]) {
                            i += 1;
                        }
                        add(code[s..i].to_string());
                    }
                    continue;
                }
                while i < b.len() && (word(b[i]) || (b[i] == b'.' && i + 1 < b.len() && b[i + 1].is_ascii_digit())) {
                    i += 1;
                }
                let mut w: String = code[s..i].chars().filter(|c| *c != '_').collect();
                for suffix in ["usize", "isize", "u128", "i128", "u64", "i64", "u32", "i32", "u16", "i16", "u8", "i8"] {
                    if let Some(x) = w.strip_suffix(suffix) {
                        w = x.to_string();
                        break;
                    }
                }
                let v = if let Some(h) = w.strip_prefix("0x") {
                    u64::from_str_radix(h, 16).ok()
                } else if let Some(h) = w.strip_prefix("0b") {
                    u64::from_str_radix(h, 2).ok()
                } else if let Some(h) = w.strip_prefix("0o") {
                    u64::from_str_radix(h, 8).ok()
                } else if w.contains('.') || w.ends_with("f32") || w.ends_with("f64") {
                    let x = w.trim_end_matches("f32").trim_end_matches("f64");
                    if let Ok(x) = x.parse::<f64>() {
                        add(x.to_bits().to_string());
                        add(u64::from((x as f32).to_bits()).to_string());
                    }
                    None
                } else {
                    w.parse().ok()
                };
                if let Some(v) = v {
                    add(v.to_string());
                    let folded = sum.and_then(|(a, end)| match code[end..s].trim() {
                        "*" => a.checked_mul(v),
                        "+" => a.checked_add(v),
                        "-" => a.checked_sub(v),
                        "<<" => (v < 64).then(|| a << v),
                        "|" => Some(a | v),
                        _ => None,
                    });
                    if let Some(x) = folded {
                        add(x.to_string());
                    }
                    sum = Some((folded.unwrap_or(v), i));
                }
            }
        }
    }
    out
}

/// The mentions of the pinned tree, as a text
pub fn mentions_text() -> String {
    mentions().iter().map(|((f, w), n)| format!("{f} {w} {n}\n")).collect()
}

pub fn source_dict() -> Dict {
    let now = mentions();
    let text = std::fs::read_to_string(root().join("sim/baseline_mentions.txt")).unwrap_or_default();
    let pinned: BTreeMap<(String, String), u32> = text
        .lines()
        .filter_map(|l| {
            let f: Vec<&str> = l.split(' ').collect();
            Some(((f.first()?.to_string(), f.get(1)?.to_string()), f.get(2)?.parse().ok()?))
        })
        .collect();
    let mut fresh = BTreeSet::new();
    let mut base = BTreeSet::new();
    let mut enumerants = BTreeSet::new();
    let mut texts = BTreeSet::new();
    for ((f, w), n) in now {
        let new = n > pinned.get(&(f.clone(), w.clone())).copied().unwrap_or(0);
        if let Some(hex) = w.strip_prefix("text:") {
            let octets: Vec<u8> = (0..hex.len() / 2).filter_map(|i| u8::from_str_radix(&hex[2 * i..2 * i + 2], 16).ok()).collect();
            texts.extend(String::from_utf8(octets).ok().filter(|_| new));
        } else if let Ok(v) = w.parse::<u64>() {
            if new { fresh.insert(v) } else { base.insert(v) };
        } else if let (true, Some((e, v))) = (new, w.split_once("::")) {
            let which = ENUM_INFO.iter().position(|x| x.name == e);
            let number = ALL_ENUMS.iter().find(|x| x.name == e).and_then(|x| x.values.iter().find(|x| x.1 == v));
            if let (Some(i), Some(n)) = (which, number) {
                enumerants.insert((i as u64) << 32 | u64::from(n.0));
            }
        }
    }
    Dict {
        base: base.difference(&fresh).copied().collect(),
        fresh: fresh.into_iter().collect(),
        enumerants: enumerants.into_iter().collect(),
        texts: texts.into_iter().collect(),
        stateful: vec![],
    }
}
fn write_dict(d: &Dict, p: &Path) -> std::io::Result<()> {
    let line = |v: &[u64]| v.iter().map(u64::to_string).collect::<Vec<_>>().join(" ");
    let lines = [line(&d.base), line(&d.fresh), line(&d.stateful), line(&d.enumerants)];
    std::fs::write(p, lines.iter().chain(&d.texts).map(|l| format!("{l}\n")).collect::<String>())
}
pub fn read_dict(p: &str) -> Dict {
    let t = std::fs::read_to_string(p).unwrap_or_default();
    let mut l = t.lines();
    let mut numbers = || l.next().unwrap_or_default().split(' ').filter_map(|x| x.parse().ok()).collect::<Vec<u64>>();
    let (base, fresh, stateful, enumerants) = (numbers(), numbers(), numbers(), numbers());
    Dict { base, fresh, stateful, enumerants, texts: l.map(str::to_string).collect() }
}

// ------------------------------------------------------------------ child processes

#[derive(Clone, Debug)]
pub struct Found {
    pub run: u64,
    pub class: String,
    pub op: usize,
    pub msg: String,
}

#[derive(Default)]
struct Batch {
    hashes: Vec<(u64, u64)>,
    found: Option<Found>,
    counts: BTreeMap<String, u64>,
    situations: Vec<u64>,
    edges: Vec<u64>,
    edge_total: u64,
    stateful: Vec<u64>,
    started: u64,
    complete: bool,
}

fn child(place: Place, args: &[&str]) -> Batch {
    let mut b = Batch::default();
    let spawned = Command::new(executable(place.build)).env("TZ", ZONES[place.zone]).args(args).stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn();
    let Ok(mut c) = spawned else { return b };
    let Some(out) = c.stdout.take() else { return b };
    let (tx, rx) = std::sync::mpsc::channel::<String>();
    let reader = std::thread::spawn(move || {
        for l in BufReader::new(out).lines() {
            let Ok(l) = l else { break };
            if tx.send(l).is_err() {
                break;
            }
        }
    });
    let mut hung = false;
    // processor time at the last line heard and at the last sign of life, and how long it has slept since
    let (mut heard, mut alive, mut asleep) = (0, 0, Duration::ZERO);
    loop {
        match rx.recv_timeout(TICK) {
            Ok(l) => {
                asleep = Duration::ZERO;
                heard = u64::MAX;
                let f: Vec<&str> = l.splitn(5, ' ').collect();
                let n = |i: usize| f.get(i).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0);
                match f[0] {
                    "S" => b.started = n(1),
                    "H" => b.hashes.push((n(1), u64::from_str_radix(f[2], 16).unwrap_or(0))),
                    "V" => {
                        let v = Found {
                            run: n(1),
                            class: f.get(2).unwrap_or(&"").to_string(),
                            op: n(3) as usize,
                            msg: f.get(4).unwrap_or(&"").to_string(),
                        };
                        b.found.get_or_insert(v);
                    }
                    "N" => {
                        b.counts.insert(f[1].to_string(), n(2));
                    }
                    "Q" => b.situations = l[2..].split(' ').filter_map(|x| u64::from_str_radix(x, 16).ok()).collect(),
                    "C" => b.edges = l[2..].split(' ').filter_map(|x| u64::from_str_radix(x, 16).ok()).collect(),
                    "T" => b.edge_total = n(1),
                    "M" => b.stateful = l[2..].split(' ').filter_map(|x| x.parse().ok()).collect(),
                    "E" => b.complete = true,
                    _ => {}
                }
            }
            Err(std::sync::mpsc::RecvTimeoutError::Disconnected) => break,
            Err(std::sync::mpsc::RecvTimeoutError::Timeout) => {
                let Some((sleeps, used)) = activity(c.id()) else { continue };
                heard = heard.min(used);
                asleep = if sleeps && used == alive { asleep + TICK } else { Duration::ZERO };
                alive = used;
                if asleep >= PATIENCE || used - heard > 100 * PATIENCE.as_secs() {
                    hung = true;
                    break;
                }
            }
        }
    }
    if hung {
        let _ = c.kill();
    }
    let status = c.wait();
    let _ = reader.join();
    if !b.complete && b.found.is_none() {
        let how = if hung {
            "hang".to_string()
        } else {
            use std::os::unix::process::ExitStatusExt as _;
            let status = status.ok();
            match status.and_then(|s| s.signal()) {
                _ if status.and_then(|s| s.code()) == Some(seams::ENDLESS) => "endless".to_string(),
                Some(9) => "killed".to_string(),
                Some(s) => format!("abort-signal-{s}"),
                None => "exit".to_string(),
            }
        };
        let prop = if args[0] == "worker" { args[1].to_string() } else { "run".into() };
        b.found = Some(Found { run: b.started, class: format!("{prop}:{how}"), op: 0, msg: format!("the process running the library ended: {how}") });
    }
    b
}

static SCRATCH: AtomicU64 = AtomicU64::new(0);
fn scratch() -> PathBuf {
    let n = SCRATCH.fetch_add(1, Ordering::Relaxed);
    std::env::temp_dir().join(format!("dissim.{}.{n}", std::process::id()))
}

/// Does this sequence of plans show a violation of this class? Each time in a fresh process.
fn shows(place: Place, plans: &[Plan], class: &str) -> Option<Found> {
    let f = scratch();
    let text: String = plans.iter().map(Plan::text).collect();
    std::fs::write(&f, text).ok()?;
    let b = child(place, &["exec", &f.to_string_lossy()]);
    let _ = std::fs::remove_file(&f);
    let v = b.found?;
    let tail = |s: &str| s.split_once(':').map_or(s.to_string(), |x| x.1.to_string());
    (tail(&v.class) == tail(class)).then_some(v)
}

// ------------------------------------------------------------------ minimisation

fn minimise(place: Place, mut plans: Vec<Plan>, class: &str, deadline: Instant) -> Vec<Plan> {
    let mut budget = 600;
    let mut ok = |p: &[Plan]| {
        if budget == 0 || Instant::now() > deadline {
            return false;
        }
        budget -= 1;
        shows(place, p, class).is_some()
    };
    // runs before the failing one
    let mut chunk = plans.len();
    while chunk >= 1 && plans.len() > 1 {
        let mut i = 0;
        let mut smaller = false;
        while i + 1 < plans.len() {
            let mut t = plans.clone();
            let e = (i + chunk).min(t.len() - 1);
            t.drain(i..e);
            if ok(&t) {
                plans = t;
                smaller = true;
            } else {
                i = e;
            }
        }
        if chunk == 1 && !smaller {
            break;
        }
        chunk = (chunk / 2).max(1);
        if chunk == 1 && !smaller && plans.len() > 60 {
            break;
        }
    }
    // steps of each run
    for which in (0..plans.len()).rev() {
        let mut chunk = plans[which].ops.len().div_ceil(2).max(1);
        loop {
            let mut i = 0;
            let mut smaller = false;
            while i < plans[which].ops.len() {
                let mut t = plans.clone();
                let e = (i + chunk).min(t[which].ops.len());
                t[which].ops.drain(i..e);
                if ok(&t) {
                    plans = t;
                    smaller = true;
                } else {
                    i = e;
                }
            }
            if chunk == 1 && !smaller {
                break;
            }
            chunk = (chunk / 2).max(1);
        }
    }
    // what the steps carry
    for which in 0..plans.len() {
        let mut i = 0;
        while i < plans[which].ops.len() {
            for round in 0..40 {
                let mut t = plans.clone();
                if !simpler(&mut t[which].ops[i].act, round) {
                    continue;
                }
                if t[which].ops[i] == plans[which].ops[i] {
                    continue;
                }
                if ok(&t) {
                    plans = t;
                }
            }
            i += 1;
        }
        let mut t = plans.clone();
        t[which].dict = Default::default();
        if ok(&t) {
            plans = t;
        }
    }
    plans
}

/// One attempt at making a step simpler; false if there is nothing of that kind
fn simpler(a: &mut Act, round: usize) -> bool {
    let items = |v: &mut Vec<crate::plan::Item>, round: usize| -> bool {
        match round {
            0..=7 if v.len() > 1 => {
                let k = round.min(v.len() - 1);
                v.remove(v.len() - 1 - k);
            }
            8 => v.iter_mut().for_each(|i| i.slot = 0),
            9 => v.iter_mut().for_each(|i| i.flags = 0),
            10 => v.iter_mut().for_each(|i| i.target = 0),
            11 => v.iter_mut().for_each(|i| i.lite = i.lite.max(1)),
            12 => v.iter_mut().for_each(|i| i.seed = 1),
            _ => return false,
        }
        true
    };
    match a {
        Act::Send { items: v, buf, cap, .. } => {
            if round == 13 {
                *buf = 0;
                *cap = 0;
                return true;
            }
            items(v, round)
        }
        Act::Append { items: v } => items(v, round),
        Act::Records { items: v, buf, .. } => {
            if round == 13 {
                *buf = 0;
                return true;
            }
            items(v, round)
        }
        Act::Deliver { rd, muts, .. } => match round {
            0..=5 if muts.len() > 1 => {
                let k = round.min(muts.len() - 1);
                muts.remove(k);
                true
            }
            6 => {
                rd.reader = 0;
                true
            }
            7 => {
                rd.junk = 0;
                rd.njunk = 0;
                true
            }
            8 => {
                rd.api = 0;
                true
            }
            9 => {
                for m in muts {
                    if let Mut::Garbage(n, _) | Mut::Extend(n, _) = m {
                        *n /= 2;
                    }
                }
                true
            }
            _ => false,
        },
        Act::ReadRecords { rd, .. } | Act::Crash { rd, .. } => match round {
            6 => {
                rd.reader = 0;
                true
            }
            7 => {
                rd.junk = 0;
                rd.njunk = 0;
                true
            }
            8 => {
                rd.api = 0;
                true
            }
            _ => false,
        },
        Act::Arrive { rd, n } => match round {
            0 if *n < AT_END && *n > 1 => {
                *n /= 2;
                true
            }
            6 => {
                rd.reader = 0;
                true
            }
            7 => {
                rd.junk = 0;
                true
            }
            8 => {
                rd.api = 0;
                true
            }
            _ => false,
        },
        Act::Task { ops, what } => {
            if round < 6 && ops.len() > 1 {
                let k = round.min(ops.len() - 1);
                ops.remove(k);
                what.remove(k);
                return true;
            }
            if (8..13).contains(&round) { items(ops, round) } else { false }
        }
        Act::Warm { item, times, .. } | Act::Endure { item, times, .. } => {
            match round {
                0..=16 => *times -= *times / 2,
                17..=24 => *times -= *times / 8,
                25 => item.lite = 1,
                26 => item.seed = 1,
                27..=35 => *times -= (*times).min(3) / 2,
                _ => return false,
            }
            true
        }
        Act::Stamp { ticks, .. } => {
            if ticks.is_empty() {
                return false;
            }
            match round {
                0 => ticks.clear(),
                1..=4 => {
                    let k = (round - 1).min(ticks.len() - 1);
                    ticks[k] = 0;
                }
                5 => {
                    ticks.pop();
                }
                _ => return false,
            }
            true
        }
        _ => false,
    }
}

pub fn replay(file: &str) -> i32 {
    let Some(plans) = std::fs::read_to_string(file).ok().and_then(|t| Plan::parse_all(&t)).filter(|p| !p.is_empty()) else {
        eprintln!("not a replay file: {file}");
        return 2;
    };
    let text = std::fs::read_to_string(file).unwrap_or_default();
    let named = |what: &str, all: &[&str]| {
        let n = text.lines().find_map(|l| l.strip_prefix(what));
        n.and_then(|n| all.iter().position(|b| *b == n)).unwrap_or(0)
    };
    let place = Place { build: named("# build: ", &BUILDS), zone: named("# zone: ", &ZONES) };
    let b = child(place, &["exec", file]);
    match b.found {
        Some(v) => {
            println!("step {}: {}", v.op, v.msg);
            println!("VIOLATION property={} replay={file}", plans[0].prop);
            1
        }
        None => {
            println!("no violation ({} runs)", plans.len());
            0
        }
    }
}

// ------------------------------------------------------------------ a check

/// Runs for the quick check, and simulated seconds of patience on a slow machine
fn size(prop: &str, thorough: bool) -> (u64, Duration) {
    let quick = match prop {
        "C10" => 19_200,
        "C01" | "C03" | "C09" | "C12" | "C17" => 28_800,
        "C15" | "C19" => 96_000,
        "C18" => 1_200,
        _ => 48_000,
    };
    if thorough { (quick * 60, Duration::from_secs(2400)) } else { (quick, Duration::from_secs(200)) }
}

pub fn check(prop: &str) -> i32 {
    let began = Instant::now();
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let thorough = std::env::var("VERIF_TIER").is_ok_and(|t| t == "thorough");
    let (mut runs, cap) = size(prop, thorough);
    if let Some(n) = std::env::var("DISSIM_RUNS").ok().and_then(|s| s.parse().ok()) {
        runs = n;
    }
    println!("property={prop} VERIF_SEED={seed} tier={}", if thorough { "thorough" } else { "quick" });
    let dict = source_dict();
    let dict_file = scratch();
    if write_dict(&dict, &dict_file).is_err() {
        eprintln!("cannot write to the temporary directory");
        return 2;
    }
    let batches = runs.div_ceil(BATCH);
    let next = AtomicU64::new(0);
    let stop = AtomicBool::new(false);
    struct Total {
        counts: BTreeMap<String, u64>,
        situations: HashSet<u64>,
        edges: HashSet<u64>,
        edge_total: u64,
        traces: HashSet<u64>,
        runs: u64,
        found: Vec<(u64, Found)>,
        first: BTreeMap<u64, u64>,
        stateful: BTreeSet<u64>,
    }
    let total = Mutex::new(Total {
        counts: BTreeMap::new(),
        situations: HashSet::new(),
        edges: HashSet::new(),
        edge_total: 0,
        traces: HashSet::new(),
        runs: 0,
        found: vec![],
        first: BTreeMap::new(),
        stateful: BTreeSet::new(),
    });
    let seed_s = seed.to_string();
    let explore = |from: u64, to: u64, dict_s: &str, until: Duration| {
        next.store(from, Ordering::Relaxed);
        std::thread::scope(|s| {
            for _ in 0..WORKERS {
                s.spawn(|| {
                    loop {
                        if stop.load(Ordering::Relaxed) || began.elapsed() > until {
                            return;
                        }
                        let b = next.fetch_add(1, Ordering::Relaxed);
                        if b >= to {
                            return;
                        }
                        let batch = || child(place_of(prop, b), &["worker", prop, &seed_s, dict_s, &(b * BATCH).to_string(), &BATCH.to_string()]);
                        let mut r = batch();
                        // what comes from outside does not come again
                        if r.found.as_ref().is_some_and(|f| f.class.ends_with(":hang") || f.class.ends_with(":killed")) {
                            r = batch();
                        }
                        let mut t = total.lock().expect("totals");
                        *t.counts.entry(format!("build.{}", BUILDS[place_of(prop, b).build])).or_insert(0) += r.hashes.len() as u64;
                        t.runs += r.hashes.len() as u64 + u64::from(r.found.is_some());
                        for (k, v) in r.counts {
                            let e = t.counts.entry(k.clone()).or_insert(0);
                            *e = if k.starts_with("max") { (*e).max(v) } else { *e + v };
                        }
                        t.situations.extend(r.situations);
                        if place_of(prop, b).build == 0 {
                            t.edges.extend(r.edges);
                            t.edge_total = t.edge_total.max(r.edge_total);
                        }
                        t.traces.extend(r.hashes.iter().map(|x| x.1));
                        t.stateful.extend(r.stateful);
                        if b < 6 {
                            t.first.extend(r.hashes.iter().copied());
                        }
                        if let Some(f) = r.found {
                            stop.store(true, Ordering::Relaxed);
                            t.found.push((b, f));
                        }
                    }
                });
            }
        });
    };
    explore(0, batches, &dict_file.to_string_lossy(), cap);
    // operations that keep state get as many runs again, for themselves
    let mut dict2 = dict.clone();
    dict2.stateful = total.lock().expect("totals").stateful.iter().copied().collect();
    let second = !dict2.stateful.is_empty() && !stop.load(Ordering::Relaxed);
    let dict_file2 = scratch();
    if second && write_dict(&dict2, &dict_file2).is_ok() {
        explore(batches, 2 * batches, &dict_file2.to_string_lossy(), cap + cap / 2);
    }
    let _ = std::fs::remove_file(&dict_file2);
    let mut t = total.into_inner().expect("totals");
    let explored = began.elapsed();
    t.found.sort_by_key(|f| f.1.run);
    let mut code = 0;
    let mut violations = 0;
    let mk = |i: u64| make_plan(prop, seed, i, if i < batches * BATCH { &dict } else { &dict2 });
    let reproduce = |b: u64, f: &Found| {
        let alone = vec![mk(f.run)];
        if shows(place_of(prop, b), &alone, &f.class).is_some() {
            return Some(alone);
        }
        // it takes the runs before it in the same process
        let all: Vec<Plan> = (b * BATCH..=f.run).map(mk).collect();
        shows(place_of(prop, b), &all, &f.class).map(|_| all)
    };
    if !t.found.is_empty() {
        let deadline = Instant::now() + Duration::from_secs(120);
        let found = t.found.iter().find_map(|(b, f)| reproduce(*b, f).map(|p| (f.clone(), p, place_of(prop, *b))));
        match found {
            None => {
                for (_, f) in &t.found {
                    eprintln!("run {} ({}: {}) cannot be reproduced", f.run, f.class, f.msg);
                }
                code = 2;
            }
            Some((f, plans, place)) => {
                let small = minimise(place, plans, &f.class, deadline);
                let last = shows(place, &small, &f.class).unwrap_or_else(|| f.clone());
                let dir = root().join("replays");
                let _ = std::fs::create_dir_all(&dir);
                let file = dir.join(format!("{prop}-{seed}-{}.plan", f.run));
                let mut text: String = format!(
                    "# {}\n# {}\n# VERIF_SEED={seed} run {} seed {:x}; replay: ./check.sh --replay FILE\n# build: {}\n# zone: {}\n",
                    last.class,
                    last.msg,
                    f.run,
                    run_seed(prop, seed, f.run),
                    BUILDS[place.build],
                    ZONES[place.zone]
                );
                for p in &small {
                    text.push_str(&p.text());
                }
                if std::fs::write(&file, text).is_err() {
                    eprintln!("cannot write {}", file.display());
                }
                println!("{}", last.msg);
                println!(
                    "first seen in run {} (VERIF_SEED={seed}); minimised to {} step(s)",
                    f.run,
                    small.iter().map(|p| p.ops.len()).sum::<usize>()
                );
                println!("VIOLATION property={prop} replay={}", file.display());
                code = 1;
                violations = 1;
            }
        }
    } else {
        // the same seeds again, in other company: nothing may differ
        let mut same = 0;
        let mut company = 0;
        let again: Vec<Vec<(u64, u64)>> = std::thread::scope(|s| {
            let hs: Vec<_> = (0..6u64)
                .map(|k| {
                    let (seed_s, dict_s) = (&seed_s, &*dict_file.to_string_lossy().into_owned().leak());
                    // batches in full, and single runs out of their batch
                    let (from, n) = if k < 2 { (k * BATCH, BATCH) } else { (k * 17 % (6 * BATCH), 1) };
                    let from = if k == 1 { 4 * BATCH } else { from };
                    s.spawn(move || child(place_of(prop, from / BATCH), &["worker", prop, seed_s, dict_s, &from.to_string(), &n.to_string()]).hashes)
                })
                .collect();
            hs.into_iter().map(|h| h.join().unwrap_or_default()).collect()
        });
        for (k, v) in again.iter().enumerate() {
            for (i, h) in v {
                match t.first.get(i) {
                    Some(x) if x == h => same += 1,
                    // tables filled on first use: how a run goes may depend on the runs before it in its process
                    Some(_) if k >= 2 && !t.stateful.is_empty() => company += 1,
                    Some(_) => {
                        eprintln!("run {i} is not deterministic");
                        code = 2;
                    }
                    None => {}
                }
            }
        }
        t.counts.insert("determinism.runs_that_depend_on_their_company".into(), company);
        t.counts.insert("determinism.runs_repeated_identically".into(), same);
        for (p, f, text) in known_findings() {
            if p == prop && t.counts.get(&format!("known.{f}")).copied().unwrap_or(0) > 0 {
                println!("KNOWN-FINDING: property={p} {f} {text}");
            }
        }
    }
    let _ = std::fs::remove_file(&dict_file);
    if t.runs == 0 && code == 0 {
        eprintln!("nothing was run");
        code = 2;
    }
    // ---- evidence
    let hours = explored.as_secs_f64() / 3600.0;
    let mut j = String::new();
    let q = |s: &str| {
        let mut o = String::from("\"");
        for c in s.chars() {
            match c {
                '"' => o.push_str("\\\""),
                '\\' => o.push_str("\\\\"),
                '\n' => o.push_str("\\n"),
                c if (c as u32) < 32 => o.push(' '),
                c => o.push(c),
            }
        }
        o.push('"');
        o
    };
    let group = |prefix: &str| {
        let v: Vec<String> = t.counts.iter().filter_map(|(k, v)| k.strip_prefix(prefix).map(|k| format!("{}: {v}", q(k)))).collect();
        format!("{{{}}}", v.join(", "))
    };
    let plain: Vec<String> = t
        .counts
        .iter()
        .filter(|(k, _)| !["fault.", "probe.", "max", "known.", "build."].iter().any(|p| k.starts_with(p)))
        .map(|(k, v)| format!("{}: {v}", q(k)))
        .collect();
    let samples: Vec<String> = (0..2u64).map(|i| q(&shorten(&make_plan(prop, seed, i * 7 + 1, &dict)))).collect();
    let sim_s = t.counts.get("sim_ns").copied().unwrap_or(0) as f64 / 1e9;
    let _ = write!(
        j,
        r#"{{
 "property": {prop_q}, "tier": {tier}, "seed": {seed}, "level": "exploration",
 "coverage": {{
  "evaluations": {runs},
  "distinct_nontrivial": {traces},
  "rule": "one evaluation is one simulated run: a plan drawn from mix(VERIF_SEED, property, run number) and executed against the library; distinct and non-trivial are runs whose trace hash (every octet sent, every decode outcome, every schedule switch) no other run has",
  "samples": [{samples}],
  "runs_per_hour": {rph:.0}, "seeds_per_hour": {rph:.0}, "simulated_seconds": {sim_s:.3},
  "runs_planned": {planned},
  "distinct_situations": {sit}, "situations_are": "distinct (PDU or record type, size class, reader and API or schedule) combinations",
  "library_edges_reached": {edges}, "edges_instrumented": {edge_total}, "edges_are": "control-flow edges (SanitizerCoverage) of library and generic library code executed inside library calls; the total includes the simulator's own; of the debug build",
  "runs_by_build": {builds}, "builds_are": "debug: optimised lightly, arithmetic checks and debug assertions on; shipped: optimised, no checks, no debug assertions; plain: not optimised, checks on",
  "faults_fired": {faults},
  "probes": {probes},
  "maxima": {maxima},
  "kinds_keeping_state_between_operations": {stateful},
  "known_findings_met": {knowns},
  "counts": {{{plain}}},
  "real": "all encode, decode, length, type-peek, timestamp and constructor code of open-dis-rust, the bytes and chrono crates, the allocator behind the counting seam",
  "stub": "network, log disk, receive buffers (one of eight kinds, six of them the bytes crate's or std's), wall and monotonic clock, getrandom, thread scheduling and futex waits inside library calls, independent DIS peer (reference encoder)"
 }},
 "assumptions": ["the reference wire layout in sim/src/model_gen.rs and model.rs is the documented one", "seeded search samples executions; it does not enumerate them"],
 "wall_s": {wall:.2},
 "violations": {violations}
}}
"#,
        prop_q = q(prop),
        tier = q(if thorough { "thorough" } else { "quick" }),
        runs = t.runs,
        traces = t.traces.len(),
        samples = samples.join(", "),
        rph = t.runs as f64 / hours,
        planned = batches * BATCH * if second { 2 } else { 1 },
        sit = t.situations.len(),
        edges = t.edges.len(),
        edge_total = t.edge_total,
        builds = group("build."),
        faults = group("fault."),
        probes = group("probe."),
        maxima = group("max."),
        stateful = t.stateful.len(),
        knowns = group("known."),
        plain = plain.join(", "),
        wall = began.elapsed().as_secs_f64(),
    );
    let dir = root().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    if std::fs::write(dir.join(format!("{prop}.json")), j).is_err() {
        eprintln!("cannot write the evidence file");
        if code == 0 {
            code = 2;
        }
    }
    println!(
        "{} runs in {:.1} s, {} distinct traces, {} situations, {} edges",
        t.runs,
        explored.as_secs_f64(),
        t.traces.len(),
        t.situations.len(),
        t.edges.len()
    );
    code
}

fn shorten(p: &Plan) -> String {
    let t = p.text();
    let n = t.char_indices().nth(1500).map_or(t.len(), |x| x.0);
    if n < t.len() { format!("{}... ({} steps)", &t[..n], p.ops.len()) } else { t }
}

#[allow(dead_code)]
fn unused() {
    let _ = (mix(0), run_plan);
}
