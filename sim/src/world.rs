//! Executes a plan against the real library: nodes, network, disks and clocks are simulated, every
//! encode and decode is the library's own. Checks the properties while the run proceeds.

use crate::model::*;
use crate::model_gen::{ENUM_INFO, KINDS, RECORDS, pdutype_value};
use crate::plan::*;
use crate::rng::{Rng, mix};
use bytes::{Buf, Bytes, BytesMut};
use open_dis_rust::common::dis_error::DISError;
use open_dis_rust::common::{GenericHeader, LiveEntityPduHeader, PduHeader};
use seams::simbuf::{OP_BUDGET_MSG, SimBuf};
use seams::{ClockState, MemStat};
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet, VecDeque};
use std::panic::{AssertUnwindSafe, catch_unwind};

pub const MAX_PDU: usize = 8192;
pub const HEADER: usize = 12;

// ------------------------------------------------------------------ results

#[derive(Clone, Debug)]
pub struct Violation {
    pub class: String,
    pub msg: String,
    pub op: usize,
}

#[derive(Default)]
pub struct Stats {
    pub n: BTreeMap<&'static str, u64>,
    /// Distinct situations met (hashes)
    pub situations: HashSet<u64>,
    /// PDU types (or 1000 + record types) whose operations used memory that outlives them
    pub stateful: BTreeSet<usize>,
}
impl Stats {
    pub fn hit(&mut self, k: &'static str) {
        *self.n.entry(k).or_insert(0) += 1;
    }
    pub fn add(&mut self, k: &'static str, v: u64) {
        *self.n.entry(k).or_insert(0) += v;
    }
    pub fn max(&mut self, k: &'static str, v: u64) {
        let e = self.n.entry(k).or_insert(0);
        *e = (*e).max(v);
    }
}

// ------------------------------------------------------------------ calling the library

thread_local! {
    static LAST_PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}
pub fn quiet_panics() {
    std::panic::set_hook(Box::new(|info| {
        let was = seams::leave();
        let s = info.to_string();
        LAST_PANIC.with(|p| *p.borrow_mut() = s);
        seams::enter(was);
    }));
}

/// A library call: simulated clock, measured memory, panics caught
pub fn call<T>(clock: ClockState, f: impl FnOnce() -> T) -> (Result<T, String>, MemStat, ClockState) {
    let ((r, mem), clock) = seams::with_clock(clock, || seams::scope(|| catch_unwind(AssertUnwindSafe(f))));
    let r = r.map_err(|_| LAST_PANIC.with(|p| p.borrow().replace('\n', " ")));
    (r, mem, clock)
}

pub fn digest(b: &[u8]) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64 ^ b.len() as u64;
    for c in b.chunks(8) {
        let mut w = [0u8; 8];
        w[..c.len()].copy_from_slice(c);
        h = (h ^ u64::from_le_bytes(w)).wrapping_mul(0x9E37_79B9_7F4A_7C15);
        h ^= h >> 29;
    }
    h
}

// ------------------------------------------------------------------ building the objects to send

pub fn generator<'a>(it: &Item, dict: &'a Words) -> Gen<'a> {
    let mut g = Gen::new(it.seed, dict);
    if it.lite == 1 {
        g.special = 0;
        g.bulk = 0;
    }
    if it.target > 0 {
        g.greedy = true;
        g.budget = i64::from(it.target) - HEADER as i64;
    }
    g.undecodable = it.flags & UNDECODABLE != 0;
    g.miscount = it.flags & MISCOUNT != 0;
    g.undefined = it.flags & NEWER != 0;
    g.raw_text = (it.flags & RAW_TEXT != 0).then_some(it.seed);
    if it.flags & TWEAK != 0 {
        g.keep = [30, 60, 90, 100][(it.seed >> 60) as usize % 4];
    }
    g
}

pub fn give_content(p: &mut dyn ModelPdu, it: &Item, dict: &Words) {
    if it.lite == 2 {
        return;
    }
    let ts = p.pdu_ref().header().timestamp;
    let mut g = generator(it, dict);
    fill(p, &mut g);
    if it.flags & FRESH_TS != 0 {
        p.pdu().header_mut().timestamp = ts;
    }
}

// ------------------------------------------------------------------ receive buffers

/// Cut positions for a segmented reader
pub fn cuts(seed: u64, n: usize) -> Vec<usize> {
    let mut r = Rng::new(seed ^ 0xC075);
    let mut v = vec![];
    match r.below(7) {
        0 => v.extend(1..n.max(1)),
        1 => {
            let w = 1 + r.below(16);
            v.extend((1..).map(|i| i * w).take_while(|x| *x < n));
        }
        2 => v.push(r.below(n.max(1))),
        3 => v.push(1 + r.below(13)),
        4 => {
            for _ in 0..1 + r.below(6) {
                v.push(r.below(n.max(1)));
            }
        }
        5 => {
            let mut at = 0;
            while at < n {
                at += 1 + r.below(40);
                v.push(at);
            }
        }
        _ => {
            // everything whole but one field somewhere
            let at = r.below(n.max(1));
            v.extend([at, at + 1 + r.below(8)]);
        }
    }
    v.retain(|x| *x > 0 && *x < n);
    v.sort_unstable();
    v.dedup();
    v
}

pub fn op_limit(n: usize) -> u64 {
    4_000_000 + 400 * n as u64
}

/// A reborrow whose object lifetime is as short as the borrow
pub fn any<'a>(b: &'a mut (dyn Buf + '_)) -> &'a mut (dyn Buf + 'a) {
    unsafe { std::mem::transmute(b) }
}

pub fn with_reader<R>(rd: &Rd, data: &[u8], f: impl FnOnce(&mut dyn Buf) -> R) -> (R, u64) {
    match rd.reader {
        1 => {
            let mut b = BytesMut::from(data);
            (f(&mut b), 0)
        }
        2 => {
            let mut b = Bytes::copy_from_slice(data);
            (f(&mut b), 0)
        }
        3 | 7 => {
            let c = cuts(rd.seed, data.len());
            let mut b = SimBuf::new(data, &c, op_limit(data.len()));
            let r = f(&mut b);
            (r, b.ops.get())
        }
        4 => {
            let mut b: VecDeque<u8> = VecDeque::with_capacity(data.len() + 16);
            // a ring whose content wraps around
            let k = Rng::new(rd.seed).below(data.len() + 16);
            for _ in 0..k {
                b.push_back(0);
            }
            for _ in 0..k {
                b.pop_front();
            }
            b.extend(data);
            (f(&mut b), 0)
        }
        5 => {
            let k = Rng::new(rd.seed).below(data.len() + 1);
            let mut b = (&data[..k]).chain(&data[k..]);
            (f(&mut b), 0)
        }
        6 => {
            let mut more = data.to_vec();
            more.extend_from_slice(&[0xA5; 24]);
            let mut b = more.as_slice().take(data.len());
            (f(&mut b), 0)
        }
        _ => {
            let mut b = data;
            (f(&mut b), 0)
        }
    }
}

// ------------------------------------------------------------------ decoding one PDU

pub enum Got {
    Pdu(Box<dyn ModelPdu>),
    Err,
    /// No decoder for the type in the header, or no header
    None,
    Panic(String),
}
impl Got {
    pub fn word(&self) -> &'static str {
        match self {
            Got::Pdu(_) => "a PDU",
            Got::Err => "an error",
            Got::None => "no known PDU type",
            Got::Panic(_) => "a panic",
        }
    }
}
pub struct Decoded {
    pub got: Got,
    pub consumed: usize,
    pub mem: MemStat,
}

fn kind_of_type(v: u32) -> Option<usize> {
    KINDS.iter().position(|k| u32::from(k.type_value) == v)
}

/// `raw` is what `buf` still holds, as the peeking receiver sees it
/// What an error says about its cause
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Why {
    /// Octets are missing
    Missing { attempted: usize, available: usize },
    /// The header does not fit
    Header,
    TooBig { size: usize, most: usize },
    /// A shortage or an excess, but its message does not give the figures
    Unsaid,
    Other,
}
fn why(e: &DISError) -> Why {
    match e {
        DISError::BufferUnderflow { attempted, available } => Why::Missing { attempted: *attempted, available: *available },
        DISError::InvalidHeader { .. } => Why::Header,
        DISError::PduSizeExceeded { size, max_size } => Why::TooBig { size: *size, most: *max_size },
        _ => Why::Other,
    }
}
/// Does the message tell the figures of the error?
fn tells(text: &str, w: Why) -> bool {
    let (a, b) = match w {
        Why::Missing { attempted, available } => (attempted, available),
        Why::TooBig { size, most } => (size, most),
        _ => return true,
    };
    let mut numbers = text.split(|c: char| !c.is_ascii_digit()).filter_map(|n| n.parse::<usize>().ok());
    numbers.any(|n| n == a) && numbers.any(|n| n == b)
}
thread_local! {
    static LAST_WHY: std::cell::Cell<Option<Why>> = const { std::cell::Cell::new(None) };
}

/// A receiver writes down what was wrong with a datagram
fn reported(e: &DISError) -> Got {
    let mut text = format!("{e}");
    let why = why(e);
    LAST_WHY.set(Some(if tells(&text, why) { why } else { Why::Unsaid }));
    text += &format!(" {e:?}");
    let mut cause = std::error::Error::source(e);
    for _ in 0..8 {
        let Some(c) = cause else { break };
        text += &c.to_string();
        cause = c.source();
    }
    std::hint::black_box(&text);
    Got::Err
}

pub fn decode_one(api: u8, hint: Option<usize>, raw: &[u8], buf: &mut dyn Buf, clock: ClockState) -> Decoded {
    let before = raw.len();
    let b: &mut &mut dyn Buf = &mut any(buf);
    let direct = |kind: usize, b: &mut &mut dyn Buf| match (KINDS[kind].de)(b) {
        Ok(p) => Got::Pdu(p),
        Err(e) => reported(&e),
    };
    let (r, mem, _) = call(clock, || match (api, hint) {
        (0, Some(k)) => direct(k, b),
        (1, _) => {
            if before < HEADER {
                return Got::None;
            }
            let h = <PduHeader as GenericHeader>::deserialize(b);
            match kind_of_type(pdutype_value(h.pdu_type)) {
                Some(k) => match (KINDS[k].de_wh)(b, h) {
                    Ok(p) => Got::Pdu(p),
                    Err(e) => reported(&e),
                },
                None => Got::None,
            }
        }
        _ => match PduHeader::get_pdu_type(raw).and_then(|t| kind_of_type(pdutype_value(t))) {
            Some(k) => direct(k, b),
            None => Got::None,
        },
    });
    let consumed = before - buf.remaining().min(before);
    Decoded { got: r.unwrap_or_else(Got::Panic), consumed, mem }
}

// ------------------------------------------------------------------ the world

#[derive(Clone)]
pub struct Sent {
    pub kind: usize,
    pub off: usize,
    pub len: usize,
    pub canon: Vec<u8>,
    /// Canonical form and re-encoding without the lists of the recorded finding, where they differ
    pub alt: Option<(Vec<u8>, Vec<u8>)>,
    /// What this library makes of octets that are no text, if known (see known_findings.txt)
    pub raw: Option<Vec<u8>>,
    pub fields: Vec<Field>,
    pub ts: u32,
    pub extended: bool,
    pub by_lib: bool,
}
#[derive(Clone, Default)]
pub struct Datagram {
    pub bytes: Vec<u8>,
    pub pdus: Vec<Sent>,
    pub records: Vec<(usize, usize, usize, usize)>, // kind, offset, length, opaque length
    pub canons: Vec<Vec<u8>>,
}

struct Relayed {
    pdu: Box<dyn ModelPdu>,
    octets: Vec<u8>,
    sent: Sent,
}

struct NodeState {
    role: Role,
    skew: i64,
    slots: HashMap<(u8, usize), Box<dyn ModelPdu>>,
    sendbuf: BytesMut,
    recv: Vec<u8>,
    relay: VecDeque<Relayed>,
    disk: Vec<u8>,
    pending: Vec<u8>,
    logged: Vec<Sent>,
    damaged_before: u64,
    stream: Stream,
}
/// The byte stream a node writes to, and the other end of it
#[derive(Default)]
struct Stream {
    octets: Vec<u8>,
    arrived: usize,
    taken: usize,
    coming: VecDeque<Sent>,
    tried: u64,
}
impl NodeState {
    fn new(n: &Node) -> Self {
        NodeState {
            role: n.role,
            skew: n.skew,
            slots: HashMap::new(),
            sendbuf: BytesMut::new(),
            recv: vec![],
            relay: VecDeque::new(),
            disk: vec![],
            pending: vec![],
            logged: vec![],
            damaged_before: 0,
            stream: Stream::default(),
        }
    }
}

pub struct World<'p> {
    pub plan: &'p Plan,
    pub prop: u8,
    pub known: bool,
    nodes: Vec<NodeState>,
    net: HashMap<u32, Datagram>,
    pub stats: &'p mut Stats,
    pub hash: u64,
    pub violation: Option<Violation>,
    op: usize,
    t: u64,
    memo: HashMap<u64, (u64, String)>,
}

pub fn prop_number(s: &str) -> u8 {
    s.trim_start_matches('C').parse().unwrap_or(0)
}

/// Clock of a node
fn clock_at(base: i128, t: u64, skew: i64) -> ClockState {
    let now = base + i128::from(t) + i128::from(skew);
    ClockState::new(now, 1_000_000_000_000 + i128::from(t), vec![])
}

/// DIS time units since the hour, exact
fn units(ns: i128) -> i128 {
    ns.rem_euclid(3_600_000_000_000) * (1 << 31) / 3_600_000_000_000
}
/// Is `ts` within two units of an instant in [a, b]?
fn in_span(ts: u32, a: i128, b: i128) -> bool {
    const HOUR: i128 = 1 << 31;
    if b - a >= 3_600_000_000_000 {
        return i128::from(ts) < HOUR;
    }
    let lo = units(a) - 2;
    let hi = units(b) + 2 + if units(b) < units(a) { HOUR } else { 0 };
    i128::from(ts) < HOUR && [-HOUR, 0, HOUR].iter().any(|k| (lo..=hi).contains(&(i128::from(ts) + k)))
}

impl<'p> World<'p> {
    pub fn new(plan: &'p Plan, known: bool, stats: &'p mut Stats) -> Self {
        World {
            plan,
            prop: prop_number(&plan.prop),
            known,
            nodes: plan.nodes.iter().map(NodeState::new).collect(),
            net: HashMap::new(),
            stats,
            hash: mix(plan.seed),
            violation: None,
            op: 0,
            t: 0,
            memo: HashMap::new(),
        }
    }

    fn fail(&mut self, prop: u8, class: &str, msg: String) {
        if prop == self.prop && self.violation.is_none() {
            self.violation = Some(Violation { class: format!("{}:{class}", self.plan.prop), msg, op: self.op });
        }
    }
    fn note(&mut self, v: u64) {
        self.hash = mix(self.hash ^ v);
    }
    fn situation(&mut self, a: u64, b: u64, c: u64) {
        self.stats.situations.insert(mix(a ^ mix(b ^ mix(c))));
    }
    fn clock(&self, node: usize) -> ClockState {
        clock_at(self.plan.base_ns, self.t, self.nodes[node].skew)
    }

    pub fn run(&mut self) {
        let ops: &'p [Op] = &self.plan.ops;
        for (i, o) in ops.iter().enumerate() {
            self.op = i;
            self.t = o.t;
            if o.node >= self.nodes.len() {
                continue;
            }
            self.stats.hit("steps");
            match &o.act {
                Act::Send { dg, buf, cap, items } => {
                    self.send(o.node, *dg, *buf, *cap, items);
                    if self.prop == 19 {
                        self.write_to_stream(o.node, *dg);
                    }
                }
                Act::Arrive { n, rd } => self.arrive(o.node, *n, rd),
                Act::Reset => {
                    if self.nodes[o.node].stream.taken < self.nodes[o.node].stream.octets.len() {
                        self.stats.hit("fault.connection_lost_within_pdu");
                    }
                    self.nodes[o.node].stream = Stream::default();
                }
                Act::Deliver { dg, rd, muts } => self.deliver(o.node, *dg, rd, muts),
                Act::Lose { why, .. } => self.stats.hit(match why {
                    0 => "fault.loss",
                    1 => "fault.partition_loss",
                    _ => "fault.receiver_down_loss",
                }),
                Act::Forward { dg, max, buf } => self.forward(o.node, *dg, *max as usize, *buf),
                Act::Restart => {
                    let fresh = NodeState::new(&self.plan.nodes[o.node]);
                    let old = std::mem::replace(&mut self.nodes[o.node], fresh);
                    self.nodes[o.node].disk = old.disk;
                    self.nodes[o.node].skew = old.skew;
                    self.stats.hit("fault.node_restart");
                }
                Act::Clock { step } => {
                    self.nodes[o.node].skew = self.nodes[o.node].skew.wrapping_add(*step);
                    self.stats.hit("fault.clock_step");
                }
                Act::Stamp { which, kind, ticks } => self.stamp(o.node, *which, *kind, ticks),
                Act::Append { items } => self.append(o.node, items),
                Act::Flush { sel } => {
                    let n = &mut self.nodes[o.node];
                    let k = if n.pending.is_empty() { 0 } else { (*sel % (n.pending.len() as u64 + 1)) as usize };
                    let part: Vec<u8> = n.pending.drain(..k).collect();
                    n.disk.extend(part);
                }
                Act::Crash { sel, zeros, rd } => self.crash(o.node, *sel, *zeros as usize, rd),
                Act::Records { dg, items, buf } => self.send_records(o.node, *dg, items, *buf),
                Act::ReadRecords { dg, rd } => self.read_records(o.node, *dg, rd),
                Act::Warm { item, what, times } => {
                    self.stats.add("fault.operations_repeated_many_times", u64::from(*times));
                    if let Some(m) = crate::tasks::warm(*what, item, &self.plan.dict, *times) {
                        self.fail(10, "history", m);
                    }
                }
                Act::Endure { item, what, times } => {
                    let mut trace = 0;
                    let grown = crate::tasks::endure(*what, item, &self.plan.dict, *times, &mut self.stats, &mut trace);
                    self.note(trace);
                    self.situation(18, (item.kind % KINDS.len()) as u64, u64::from(*what) << 8 | u64::from(item.slot) << 4 | u64::from(item.flags));
                    if let Some(m) = grown {
                        self.fail(18, "growth", m);
                    }
                }
                Act::Task { .. } | Act::Switch { .. } => {}
            }
            if self.violation.is_some() {
                return;
            }
        }
        self.stats.max("max_sim_ns", self.t);
        self.stats.add("sim_ns", self.t);
    }

    // -------------------------------------------------------------- byte streams (C19)

    fn write_to_stream(&mut self, node: usize, dg: u32) {
        let Some(d) = self.net.remove(&dg) else { return };
        let s = &mut self.nodes[node].stream;
        let base = s.octets.len();
        s.coming.extend(d.pdus.into_iter().map(|p| Sent { off: base + p.off, ..p }));
        s.octets.extend(d.bytes);
    }

    fn arrive(&mut self, node: usize, n: u32, rd: &Rd) {
        let mut s = std::mem::take(&mut self.nodes[node].stream);
        let to = match s.coming.front() {
            Some(f) if n >= AT_END => (f.off + f.len + (n & 0xff) as usize).saturating_sub(16),
            _ => s.arrived + (n % AT_END) as usize,
        };
        s.arrived = to.clamp(s.arrived, s.octets.len());
        self.stats.hit("stream.arrivals");
        while let Some(f) = s.coming.pop_front() {
            let raw = &s.octets[s.taken..s.arrived];
            let whole = raw.len() >= f.len;
            let taken = self.try_front(node, &f, raw, rd);
            self.note(taken as u64 ^ (raw.len() as u64) << 20);
            self.situation(1900 + f.kind as u64, bucket(raw.len()), u64::from(rd.api) << 4 | u64::from(whole));
            if self.violation.is_some() {
                return;
            }
            if whole {
                if s.tried > 0 {
                    self.stats.hit("stream.pdus_after_retries");
                }
                s.taken += f.len;
                s.tried = 0;
            } else {
                self.stats.hit("stream.attempts_too_early");
                s.tried += 1;
                s.coming.push_front(f);
                break;
            }
        }
        self.nodes[node].stream = s;
    }

    /// The receiver tries to decode the PDU at the front of what has arrived
    fn try_front(&mut self, node: usize, f: &Sent, raw: &[u8], rd: &Rd) -> usize {
        let clock = self.clock(node);
        let name = KINDS[f.kind].name;
        let api = rd.api % 3;
        LAST_WHY.set(None);
        let (r, _) = with_reader(rd, raw, |b| decode_one(api, Some(f.kind), raw, b, clock.clone()));
        let why = LAST_WHY.take();
        let have = raw.len();
        if have < f.len {
            let short = f.len - have;
            match (&r.got, why) {
                // nothing to tell the type by
                (Got::None, _) if api != 0 && have < HEADER => {}
                (Got::Err, Some(Why::Missing { attempted, available })) => {
                    if available >= attempted || available > have {
                        let m = format!("{have} of the {} octets of {name} have arrived: the error says {attempted} were wanted and {available} are there", f.len);
                        self.fail(19, "figures", m);
                    } else if attempted - available > short {
                        let m = format!("the last {short} of the {} octets of {name} are missing, the error asks for {} more", f.len, attempted - available);
                        self.fail(19, "too-many", m);
                    }
                }
                (Got::Err, w) => {
                    self.fail(19, "cause", format!("{have} of the {} octets of {name} have arrived, which is reported as {w:?}", f.len));
                }
                (g, _) => {
                    self.fail(19, "early", format!("{have} of the {} octets of {name} have arrived and decoding gives {}", f.len, g.word()));
                }
            }
            return 0;
        }
        let right = matches!(&r.got, Got::Pdu(p) if self.is_right(p.as_ref(), f));
        if !right || r.consumed != f.len {
            let g = r.got.word();
            self.fail(19, "late", format!("all {} octets of {name} and {} more have arrived: decoding gives {g} ({why:?}), {} consumed", f.len, have - f.len, r.consumed));
            return 0;
        }
        if rd.junk & 1 == 1 {
            // asked for something else than what is there: no more octets can help
            let other = (f.kind + 1 + rd.seed as usize % (KINDS.len() - 1)) % KINDS.len();
            LAST_WHY.set(None);
            let (r, _) = with_reader(rd, raw, |b| decode_one(0, Some(other), raw, b, clock.clone()));
            let why = LAST_WHY.take();
            self.stats.hit("fault.other_type_asked_for");
            if !matches!(r.got, Got::Err) || why != Some(Why::Header) {
                let m = format!("{name}, complete, asked for as {}: {} ({why:?}), not an invalid header", KINDS[other].name, r.got.word());
                self.fail(19, "type", m);
            }
        }
        if rd.junk & 2 == 2 {
            let mut bad = raw.to_vec();
            bad[8..10].copy_from_slice(&((rd.seed % HEADER as u64) as u16).to_be_bytes());
            LAST_WHY.set(None);
            let (r, _) = with_reader(rd, &bad, |b| decode_one(api, Some(f.kind), &bad, b, clock.clone()));
            let why = LAST_WHY.take();
            self.stats.hit("fault.length_below_header");
            if !matches!(r.got, Got::Err) || !matches!(why, Some(Why::Header | Why::Other)) {
                let m = format!("{name} whose length field says {}: {} ({why:?}), though no more octets can cure it", rd.seed % HEADER as u64, r.got.word());
                self.fail(19, "length", m);
            }
        }
        f.len
    }

    // -------------------------------------------------------------- sending

    /// The object to send, with its content; None if the library failed to make one
    fn object(&mut self, node: usize, it: &Item) -> Option<(Box<dyn ModelPdu>, ClockState)> {
        let kind = it.kind % KINDS.len();
        let k = &KINDS[kind];
        let reused = if it.slot > 0 { self.nodes[node].slots.remove(&(it.slot, kind)) } else { None };
        let mut clock = self.clock(node);
        if reused.is_none() && it.flags & FRESH_TS != 0 {
            clock.ticks = Rng::new(it.seed ^ 0x71C).ticks();
        }
        let made = if let Some(o) = reused {
            self.stats.hit("probe.object_reused");
            Ok(o)
        } else {
            let make = if it.flags & DEFAULT_CTOR != 0 { k.default } else { k.new };
            let (r, _, c) = call(clock.clone(), make);
            clock = c;
            if let Ok(p) = &r {
                self.check_fresh(k.name, p.pdu_ref().header().timestamp, &clock);
                if matches!(self.prop, 2 | 3 | 8) {
                    self.check_created(k, p.as_ref(), it.flags & DEFAULT_CTOR == 0);
                }
            }
            r
        };
        let mut p = match made {
            Ok(p) => p,
            Err(e) => {
                self.fail(self.prop, "panic-new", format!("constructing {} panicked: {e}", k.name));
                return None;
            }
        };
        take_fault();
        let dict: &'p Words = &self.plan.dict;
        let filled = catch_unwind(AssertUnwindSafe(|| give_content(p.as_mut(), it, dict)));
        if filled.is_err() {
            let e = LAST_PANIC.with(|p| p.borrow().replace('\n', " "));
            self.fail(self.prop, "panic-content", format!("building the content of {} panicked: {e}", k.name));
            return None;
        }
        if let Some(f) = take_fault() {
            for p in [1, 2, 15] {
                self.fail(p, "content", f.clone());
            }
        }
        if self.prop == 2 && it.lite != 2 {
            let r = catch_unwind(AssertUnwindSafe(|| {
                let h = p.pdu().header_mut();
                let wrong = if it.seed & 3 == 0 { set_status(h, it.seed) } else { None };
                wrong.or_else(|| status_disagrees(h)).or_else(|| flag_disagrees(it.seed))
            }));
            match r {
                Ok(None) => self.stats.hit("probe.status_and_flags_by_name"),
                Ok(Some(m)) => self.fail(2, "status", m),
                Err(_) => self.fail(2, "status", "a status accessor panicked".to_string()),
            }
        }
        Some((p, clock))
    }

    /// What the header of a PDU says before anything was done to the PDU
    fn check_created(&mut self, k: &Kind, p: &dyn ModelPdu, by_new: bool) {
        let h = *p.pdu_ref().header();
        let n = wire(p).out.len();
        let name = k.name;
        self.stats.hit("probe.headers_of_new_pdus");
        if h.protocol_version as u8 != 7 || status_byte(&h) != 0 {
            self.fail(2, "created", format!("a new {name} has protocol version {} and status {:#04x}", h.protocol_version as u8, status_byte(&h)));
        }
        if by_new && (h.pdu_type as u8 != k.type_value || h.protocol_family as u8 != k.family) {
            self.fail(8, "created", format!("a new {name} says it is of type {} and family {}", h.pdu_type as u8, h.protocol_family as u8));
        }
        if by_new && usize::from(h.length) != n {
            self.fail(3, "created", format!("a new {name}, {n} octets long, says it has {}", h.length));
        }
    }

    fn check_fresh(&mut self, what: &str, ts: u32, clock: &ClockState) {
        self.stats.hit("probe.timestamps_checked");
        if clock.spans.len() > 1 {
            self.stats.hit("fault.clock_jump_during_call");
        }
        if !clock.spans.iter().any(|(a, b)| in_span(ts, *a, *b)) {
            let (a, b) = clock.spans[0];
            self.fail(
                11,
                "timestamp",
                format!(
                    "{what}: timestamp {ts} is not the time of the call, which began at {} and ended at {} units past the hour \
                     ({} clock readings, {} jumps; call began {a} ns, ended {b} ns)",
                    units(a),
                    units(clock.spans.last().expect("span").1),
                    clock.reads,
                    clock.spans.len() - 1
                ),
            );
        }
    }

    fn sent_of(&self, p: &dyn ModelPdu, off: usize, len: usize, fields: Vec<Field>, by_lib: bool, pads: Option<u64>) -> Sent {
        let canon = expected(p, len, false);
        let alt = if KINDS[p.kind()].type_value == MINEFIELD_DATA {
            let a = expected(p, len, true);
            if a == canon {
                None
            } else {
                let mut e = wire_dropped(p);
                if let Some(seed) = pads {
                    fill_padding(&mut e.out, &e.fields, seed, false);
                }
                Some((a, e.out))
            }
        } else {
            None
        };
        Sent { kind: p.kind(), off, len, canon, alt, fields, ts: p.pdu_ref().header().timestamp, extended: false, by_lib, raw: None }
    }

    fn send(&mut self, node: usize, dg: u32, buf: u8, cap: u16, items: &[Item]) {
        let mut d = Datagram::default();
        if self.nodes[node].role == Role::Ref {
            for it in items {
                let kind = it.kind % KINDS.len();
                let well = Item { flags: it.flags & !(MISCOUNT | TWEAK), ..it.clone() };
                let made = call(self.clock(node), || {
                    let mut p = (KINDS[kind].new)();
                    give_content(p.as_mut(), &well, &self.plan.dict);
                    p
                });
                let Ok(p) = made.0 else { continue };
                take_fault();
                let e = wire(p.as_ref());
                let mut bytes = e.out;
                if bytes.len() > MAX_PDU {
                    continue;
                }
                if it.flags & PADS != 0 {
                    // padding that was not cleared: a relay hands it on, but none of it is a value.
                    // (What aligns a variable datum is not stored; only its decoding is at stake.)
                    fill_padding(&mut bytes, &e.fields, it.seed, self.prop == 2);
                    self.stats.hit("fault.padding_not_cleared");
                }
                if it.flags & EXTENDED != 0 {
                    // a later revision of the PDU with octets this one does not know
                    let extra = 1 + (it.seed % 40) as usize;
                    bytes.extend((0..extra).map(|i| mix(it.seed ^ i as u64) as u8));
                    let n = bytes.len() as u16;
                    bytes[8..10].copy_from_slice(&n.to_be_bytes());
                    self.stats.hit("fault.extended_pdu");
                }
                let text: Vec<Field> = e.fields.iter().filter(|f| f.mark == Mark::Text).copied().collect();
                let as_relayed = bytes.clone();
                if it.flags & RAW_TEXT != 0 && it.lite != 2 {
                    for f in &text {
                        bytes[f.off..f.off + f.width].copy_from_slice(&raw_text(it.seed)[..f.width]);
                        self.stats.hit("fault.marking_not_utf8");
                    }
                }
                let mut s = self.sent_of(p.as_ref(), d.bytes.len(), bytes.len(), e.fields, false, (it.flags & PADS != 0).then_some(it.seed));
                s.extended = it.flags & EXTENDED != 0;
                if bytes != as_relayed {
                    s.raw = Some(as_relayed);
                }
                d.bytes.extend_from_slice(&bytes);
                d.pdus.push(s);
                self.stats.hit("pdus.sent_by_reference_peer");
            }
            self.note(digest(&d.bytes));
            self.net.insert(dg, d);
            return;
        }
        // the send buffer
        let mut r = Rng::new(u64::from(cap) ^ u64::from(dg) << 20);
        let mut out = match buf {
            0 => BytesMut::new(),
            1 => BytesMut::with_capacity(cap as usize),
            2 | 4 => std::mem::take(&mut self.nodes[node].sendbuf),
            5 => BytesMut::zeroed(0),
            // one that collects a great deal before it is handed on
            6 => {
                let cap = usize::from(cap);
                let n = if cap < 3000 { 65_400 + cap % 200 } else { 65_536 + cap * 8 };
                self.stats.hit("fault.send_buffer_above_64k");
                BytesMut::zeroed(n)
            }
            _ => {
                let n = (cap % 96) as usize;
                BytesMut::from((0..n).map(|_| r.next() as u8).collect::<Vec<_>>().as_slice())
            }
        };
        if buf == 2 {
            out.clear();
        }
        if buf == 4 {
            out = out.split();
            out.clear();
        }
        let prefix = out.len();
        for it in items {
            let start = out.len();
            let state = seams::shared_accesses();
            let sent = self.send_one(node, it, &mut out, prefix);
            if seams::shared_accesses() > state {
                self.stats.stateful.insert(it.kind % KINDS.len());
            }
            match sent {
                // only the act of sending it was of interest
                Some(_) if it.flags & MISCOUNT != 0 => {
                    self.stats.hit("fault.counts_disagree");
                    out.truncate(start);
                }
                Some(s) => d.pdus.push(s),
                None => {}
            }
            if self.violation.is_some() {
                return;
            }
        }
        d.bytes = out[prefix..].to_vec();
        self.stats.max("max.datagram_octets", d.bytes.len() as u64);
        self.note(digest(&d.bytes));
        if buf == 4 {
            // hand the content on, keep the rest of the allocation
            let mut o = out;
            let sent = o.split();
            self.nodes[node].sendbuf = o;
            drop(sent);
        } else if buf == 2 {
            self.nodes[node].sendbuf = out;
        }
        self.net.insert(dg, d);
    }

    /// C17: what it took to send `want` octets with `held` of them in the buffer already
    fn sending_cost(&mut self, what: &str, name: &str, want: usize, held: usize, mem: &MemStat) {
        if self.prop != 17 {
            return;
        }
        let (n, all) = (want as u64, (want + held) as u64);
        self.stats.max("max.send_peak_octets", mem.peak.max(0) as u64);
        self.stats.max("max.send_peak_per_octet_x100", (mem.peak.max(0) as u64).saturating_sub(8192) * 100 / (all + 1));
        self.stats.max("max.send_moved_per_octet_x100", mem.moved.saturating_sub(8192) * 100 / (all + 1));
        self.stats.max("max.send_allocated_per_octet_x100", mem.octets.saturating_sub(8192) * 100 / (all + 1));
        self.stats.max("max.send_allocations", mem.allocs);
        self.stats.max("max.send_edges", mem.edges);
        self.stats.max("max.send_edges_per_octet_x100", mem.edges.saturating_sub(4096) * 100 / (n + 1));
        if mem.peak > 81_920 + 8 * all as isize || mem.denied > 0 || mem.allocs > 64 + n {
            let m = format!("{what} {name} of {want} octets held {} more octets of memory at once, in {} allocations", mem.peak, mem.allocs);
            self.fail(17, "memory", m);
        }
        if mem.octets > 131_072 + 64 * all || mem.moved > 131_072 + 64 * all {
            let m = format!("{what} {name} of {want} octets allocated {} octets altogether and copied or filled {}", mem.octets, mem.moved);
            self.fail(17, "work", m);
        }
        if mem.edges > 16_384 + 40 * n {
            self.fail(17, "work", format!("{what} {name} of {want} octets went through {} control-flow edges", mem.edges));
        }
    }

    /// Serialize one object into the send buffer; what was put on the wire, if anything
    fn send_one(&mut self, node: usize, it: &Item, out: &mut BytesMut, prefix: usize) -> Option<Sent> {
        let (mut p, _) = self.object(node, it)?;
        let kind = p.kind();
        let name = KINDS[kind].name;
        let e = wire(p.as_ref());
        let want = e.out.len();
        let ts = p.pdu_ref().header().timestamp;
        let as_sent = (want <= MAX_PDU).then(|| self.sent_of(p.as_ref(), out.len() - prefix, want, e.fields.clone(), true, None));
        let before = out.to_vec();
        let key = (self.prop == 10).then(|| mix(digest(&canon(p.as_ref())) ^ kind as u64));
        // what the caller did with the length before sending must not matter
        let before_sending = mix(it.seed ^ 0x1E6) % 4;
        if self.prop == 3 && before_sending == 1 {
            let _ = catch_unwind(AssertUnwindSafe(|| p.pdu().header_mut().set_length((it.seed >> 20) as u16)));
        }
        if (self.prop == 3 || self.prop == 17) && before_sending > 1 && want <= MAX_PDU {
            let finalize = before_sending == 3;
            let (l, mem, _) = call(self.clock(node), || {
                let l = p.pdu_ref().calculate_length();
                if finalize {
                    p.pdu().finalize();
                }
                l
            });
            self.sending_cost("working out the length of", name, want, 0, &mem);
            let l = l.ok().and_then(Result::ok).map(usize::from);
            let h = usize::from(p.pdu_ref().header().length);
            if l != Some(want) || (finalize && h != want) {
                self.fail(3, "calculated", format!("{name} of {want} octets: calculated {l:?} before serializing, {h} in the header (finalized: {finalize})"));
            }
        }
        let (r, mem, _) = call(self.clock(node), || p.pdu().serialize(out));
        self.stats.hit("pdus.serialized");
        self.sending_cost("serializing", name, want, before.len(), &mem);
        if out.len() < before.len() || out[..before.len()] != before[..] {
            let at = before.iter().zip(out.iter()).position(|(a, b)| a != b).unwrap_or(out.len().min(before.len()));
            self.fail(9, "prefix", format!("serializing {name} changed octet {at} of the {} already in the buffer", before.len()));
            return None;
        }
        let res = match r {
            Err(panic) => {
                for prop in [1, 9] {
                    self.fail(prop, "serialize-panic", format!("serializing {name} ({want} octets) panicked: {panic}"));
                }
                return None;
            }
            Ok(res) => res,
        };
        let n = out.len() - before.len();
        if let Some(key) = key {
            let d = mix(digest(&out[before.len()..]) ^ u64::from(res.is_ok()));
            self.remember(key, d, || format!("serializing {name}"));
        }
        if want > MAX_PDU {
            self.stats.hit("fault.oversize_pdu");
            if res.is_ok() {
                self.fail(9, "oversize-accepted", format!("{name} of {want} octets was accepted for sending ({n} octets appended)"));
            } else if n != 0 {
                self.fail(9, "oversize-residue", format!("refusing {name} of {want} octets left {n} octets in the buffer"));
            }
            if let Err(e) = &res {
                let again = call(self.clock(node), || p.pdu_ref().calculate_length()).0.ok().and_then(Result::err);
                let told = [Some(e), again.as_ref()].map(|e| {
                    reported(e?);
                    LAST_WHY.take()
                });
                for w in told {
                    if w != Some(Why::TooBig { size: want, most: MAX_PDU }) {
                        self.fail(19, "size", format!("{name} of {want} octets is refused with {w:?}"));
                    }
                }
            }
            if res.is_err() {
                // shrink and send again: same object, same buffer
                let small = Item { target: 0, lite: 1, slot: 0, flags: 0, ..it.clone() };
                if catch_unwind(AssertUnwindSafe(|| give_content(p.as_mut(), &small, &self.plan.dict))).is_err() {
                    return None;
                }
                take_fault();
                let e = wire(p.as_ref());
                let start = out.len();
                let (r, _, _) = call(self.clock(node), || p.pdu().serialize(out));
                if !matches!(r, Ok(Ok(()))) {
                    self.fail(9, "after-refusal", format!("{name}, shrunk after a refusal, is not accepted"));
                } else if out[start..] != e.out[..] {
                    self.fail(9, "after-refusal-octets", format!("{name}, shrunk after a refusal, comes out wrong"));
                }
                out.truncate(start);
            }
            self.keep(node, it, p);
            return None;
        }
        if let Err(err) = res {
            self.fail(9, "refused", format!("{name} of {want} octets was refused: {err}"));
            self.fail(1, "refused", format!("{name} of {want} octets was refused: {err}"));
            self.fail(2, "refused", format!("{name} of {want} octets was refused: {err}"));
            if n != 0 {
                self.fail(9, "residue", format!("a refused {name} left {n} octets in the buffer"));
            }
            return None;
        }
        if want > MAX_PDU - 200 {
            self.stats.hit("probe.pdu_near_maximum");
        }
        let got = &out[before.len()..];
        // C03: what the length fields say
        let (lr, _, _) = call(self.clock(node), || p.pdu_ref().calculate_length());
        let declared = p.pdu_ref().header().length as usize;
        let on_wire = if n >= 10 { usize::from(u16::from_be_bytes([got[8], got[9]])) } else { 0 };
        let calculated = match lr {
            Ok(Ok(l)) => Some(usize::from(l)),
            _ => None,
        };
        if declared != n || on_wire != n || calculated != Some(n) {
            self.fail(
                3,
                "length",
                format!("{name}: {n} octets appended, header length {declared} (on the wire {on_wire}), calculated {calculated:?}"),
            );
        }
        // C02: the octets themselves
        if got != &e.out[..] {
            let at = got.iter().zip(&e.out).position(|(a, b)| a != b).unwrap_or(n.min(want));
            if self.prop == 2 {
                let m = format!(
                    "{name}: {n} octets emitted, {want} expected; first difference at octet {at}, field {} (got {:02x?}, want {:02x?})",
                    wire_field(p.as_ref(), at),
                    &got[at.min(n)..(at + 8).min(n)],
                    &e.out[at.min(want)..(at + 8).min(want)]
                );
                self.fail(2, "layout", m);
            }
        }
        let wire_ts = if n >= 8 { u32::from_be_bytes([got[4], got[5], got[6], got[7]]) } else { 0 };
        if p.pdu_ref().header().timestamp != ts || wire_ts != ts {
            self.fail(11, "serialize-timestamp", format!("serializing {name} changed its timestamp from {ts} to {wire_ts}"));
        }
        if it.flags & TWICE != 0 {
            let mut again = BytesMut::new();
            let (r, _, _) = call(self.clock(node), || p.pdu().serialize(&mut again));
            self.stats.hit("probe.serialized_twice");
            if !matches!(r, Ok(Ok(()))) || again[..] != *got {
                self.fail(10, "twice", format!("serializing the same {name} again gives different octets"));
                self.fail(9, "twice", format!("serializing the same {name} again gives different octets"));
            }
        }
        self.situation(kind as u64, bucket(n), u64::from(it.lite));
        let mut s = as_sent?;
        if n != s.len {
            // lengths disagree with the layout: the receiver is judged by what was really emitted
            s.len = n;
            let l = (n as u16).to_be_bytes();
            s.canon[8..10].copy_from_slice(&l);
            if let Some(a) = &mut s.alt {
                a.0[8..10].copy_from_slice(&l);
            }
            s.fields.retain(|f| f.off + f.width <= n);
        }
        self.keep(node, it, p);
        Some(s)
    }

    fn keep(&mut self, node: usize, it: &Item, p: Box<dyn ModelPdu>) {
        if it.slot > 0 && it.flags & MISCOUNT == 0 {
            self.nodes[node].slots.insert((it.slot, p.kind()), p);
        }
    }

    /// C10: the same operation has the same outcome every time
    fn remember(&mut self, key: u64, outcome: u64, what: impl Fn() -> String) {
        let op = self.op;
        if let Some((o, first)) = self.memo.get(&key) {
            self.stats.hit("probe.operation_repeated");
            if *o != outcome {
                let m = format!("{} gave another outcome than the same operation before ({first})", what());
                self.fail(10, "history", m);
            }
        } else {
            self.memo.insert(key, (outcome, format!("step {op}")));
        }
    }

    // -------------------------------------------------------------- receiving

    fn is_right(&mut self, p: &dyn ModelPdu, s: &Sent) -> bool {
        let c = canon(p);
        if p.kind() != s.kind {
            return false;
        }
        if c == s.canon {
            return true;
        }
        if let (true, Some(a)) = (self.known, &s.alt) {
            if c == a.0 {
                self.stats.hit("known.minefield-data-lists");
                return true;
            }
        }
        false
    }

    fn deliver(&mut self, node: usize, dg: u32, rd: &Rd, muts: &[Mut]) {
        let Some(d) = self.net.get(&dg).cloned() else {
            return;
        };
        let m = mutate(&d, muts, &self.net, self.stats);
        self.stats.hit("datagrams.delivered");
        let state = seams::shared_accesses();
        self.receive(node, &d, &m, rd);
        if seams::shared_accesses() > state {
            self.stats.stateful.extend(d.pdus.iter().map(|s| s.kind));
        }
        if m.damaged() {
            self.nodes[node].damaged_before += 1;
        }
    }

    fn receive(&mut self, node: usize, d: &Datagram, m: &Mutated, rd: &Rd) {
        let n = m.bytes.len();
        // the receive buffer of the node: the datagram, then whatever was there before
        let mut store = std::mem::take(&mut self.nodes[node].recv);
        let junk = if m.exact_end { 0 } else { rd.njunk as usize };
        if store.len() < n + junk {
            store.resize(n + junk, 0);
        }
        match rd.junk {
            2 => store[n..n + junk].fill(0),
            3 => store[n..n + junk].fill(0xff),
            4 => {
                let k = rd.seed as usize % KINDS.len();
                for (i, b) in store[n..n + junk].iter_mut().enumerate() {
                    *b = [7, 1, KINDS[k].type_value, KINDS[k].family, 0, 0, 0, 0, 0, 200, 0, 0][i % 12];
                }
            }
            _ => {}
        }
        store[..n].copy_from_slice(&m.bytes);
        if junk > 0 {
            self.stats.hit("probe.junk_after_datagram");
        }
        let data = &store[..n + junk];
        self.read_datagram(node, d, m, data, n, rd);
        self.nodes[node].recv = store;
    }

    fn read_datagram(&mut self, node: usize, d: &Datagram, m: &Mutated, data: &[u8], n: usize, rd: &Rd) {
        let clock = self.clock(node);
        let mut results: Vec<(Decoded, usize, usize)> = vec![]; // decoded, offset, index
        let good = m.good;
        let mut pos = 0;
        let api = rd.api % 3;
        let total = data.len();
        let mem_bound = |len: usize| 8192 + 160 * len as isize;
        // --- read with the reader of this delivery
        let (_, ops) = with_reader(rd, data, |buf| {
            for (i, s) in d.pdus.iter().enumerate().take(good) {
                let r = decode_one(api, Some(s.kind), &data[pos..], buf, clock.clone());
                let c = r.consumed;
                let stop = !matches!(r.got, Got::Pdu(_));
                results.push((r, pos, i));
                pos += c;
                if stop {
                    break;
                }
            }
            let intact_done = results.len() == good && results.iter().all(|r| matches!(r.0.got, Got::Pdu(_)));
            if m.tail != Tail::Stop && intact_done {
                // whatever follows: read on until an error
                let hint = if m.tail == Tail::MustErr { d.pdus.get(good).map(|s| s.kind) } else { None };
                let mut api = if hint.is_some() { api } else { 1 + rd.api % 2 };
                if m.tail == Tail::Any && rd.api >= 3 {
                    api = 0;
                }
                let mut rng = Rng::new(rd.seed ^ 0x7A11);
                for _ in 0..n / HEADER + 3 {
                    let h = hint.or_else(|| (api == 0).then(|| rng.below(KINDS.len())));
                    let r = decode_one(api, h, &data[pos..], buf, clock.clone());
                    let c = r.consumed;
                    let stop = !matches!(r.got, Got::Pdu(_)) || c == 0 || pos + c >= total;
                    results.push((r, pos, usize::MAX));
                    pos += c;
                    if stop {
                        break;
                    }
                }
            }
        });
        // --- judge
        let mut h = 0u64;
        let count = results.len();
        for (r, off, _) in &results {
            h = mix(h ^ mix(*off as u64
                ^ (r.consumed as u64) << 20
                ^ match &r.got {
                    Got::Pdu(p) => digest(&canon(p.as_ref())),
                    Got::Err => 1,
                    Got::None => 2,
                    Got::Panic(_) => 3,
                }));
        }
        self.note(h);
        if self.prop == 10 {
            let seg = u64::from(rd.reader) ^ if matches!(rd.reader, 3 | 4 | 5 | 7) { rd.seed } else { 0 };
            let key = mix(digest(&data[..n])
                ^ mix(seg)
                ^ 0xDEC0DE
                ^ u64::from(api) << 8
                ^ (m.tail as u64) << 16
                ^ (rd.api as u64) << 24
                ^ if m.tail == Tail::Any { rd.seed } else { 0 }
                ^ (good as u64) << 32);
            // what lies after the datagram may matter to damaged ones only
            if m.tail != Tail::Any || data.len() == n {
                self.remember(key, h, || "decoding the same datagram".to_string());
            }
        }
        for (i, (r, off, idx)) in results.iter().enumerate() {
            let left = total - off;
            if let Got::Panic(e) = &r.got {
                if e.contains(OP_BUDGET_MSG) {
                    self.fail(5, "endless", format!("decoding {left} octets does not come to an end"));
                    self.fail(7, "work", format!("decoding {left} octets made more than {} buffer accesses", op_limit(total)));
                } else {
                    self.fail(5, "panic", format!("decoding {left} octets at offset {off} panicked: {e}"));
                }
                if *idx == usize::MAX && m.tail == Tail::MustErr {
                    self.fail(6, "panic", format!("decoding a PDU cut short panicked: {e}"));
                }
            }
            self.stats.max("max.decode_peak_octets", r.mem.peak as u64);
            if r.mem.peak > mem_bound(left) || r.mem.denied > 0 || r.mem.allocs > 64 + 2 * left as u64 {
                self.fail(
                    7,
                    "memory",
                    format!("decoding {left} octets held {} octets of memory at once, in {} allocations", r.mem.peak, r.mem.allocs),
                );
            }
            let most = 65_536 + 256 * left as u64;
            if r.mem.octets > most || r.mem.moved > most {
                self.fail(
                    7,
                    "work",
                    format!("decoding {left} octets allocated {} octets altogether and copied or filled {} in blocks", r.mem.octets, r.mem.moved),
                );
            }
            if r.mem.edges > 16_384 + 600 * left as u64 {
                self.fail(7, "work", format!("decoding {left} octets went through {} control-flow edges", r.mem.edges));
            }
            self.stats.max("max.allocated_per_octet_x100", r.mem.octets.saturating_sub(16_384) * 100 / (left as u64 + 1));
            self.stats.max("max.moved_per_octet_x100", r.mem.moved.saturating_sub(65_536) * 100 / (left as u64 + 1));
            self.stats.max("max.decode_allocated", r.mem.octets);
            self.stats.max("max.decode_moved", r.mem.moved);
            self.stats.max("max.decode_edges", r.mem.edges);
            self.stats.max("max.edges_per_octet_x100", r.mem.edges.saturating_sub(4096) * 100 / (left as u64 + 1));
            self.stats.max("max.allocations_per_octet_x100", r.mem.allocs.saturating_sub(32) * 100 / (left as u64 + 1));
            if left > 0 {
                self.stats.max("max.decode_peak_per_octet_x100", (r.mem.peak.max(0) as u64).saturating_sub(2048) * 100 / left as u64);
            }
            if *idx != usize::MAX {
                let s = &d.pdus[*idx];
                self.judge_intact(node, d, s, r, *off, data, rd, i + 1 < count);
            } else if m.tail == Tail::MustErr && i == good {
                if let Got::Pdu(p) = &r.got {
                    let k = p.kind();
                    self.fail(6, "delivered", format!("{} ({}) was delivered as a complete PDU", KINDS[k].name, m.what));
                } else {
                    self.stats.hit("probe.cut_pdu_reported");
                }
            }
            if self.violation.is_some() {
                return;
            }
        }
        if ops > 0 {
            self.stats.max("max.ops_per_octet_x100", ops.saturating_sub(2048) * 100 / (n as u64 + 1));
            if ops > 8_192 + 24 * total as u64 {
                self.fail(7, "work", format!("decoding {n} octets made {ops} buffer accesses"));
            }
        }
        let lost = results.len() < good;
        if lost && results.iter().all(|r| matches!(r.0.got, Got::Pdu(_))) {
            self.fail(3, "lost", "a PDU of a bundle was not found".into());
        }
        if self.prop == 6 && m.tail == Tail::MustErr && good > 0 {
            // complete PDUs before the cut must be there if they are there without the cut
            let bad = results.iter().find(|(r, _, i)| *i != usize::MAX && !matches!(&r.got, Got::Pdu(p) if canon(p.as_ref()) == d.pdus[*i].canon));
            if let Some((_, _, i)) = bad {
                let s = d.pdus[*i].clone();
                let alone = decode_one(0, Some(s.kind), &d.bytes[s.off..s.off + s.len], &mut &d.bytes[s.off..s.off + s.len], clock.clone());
                if matches!(&alone.got, Got::Pdu(p) if canon(p.as_ref()) == s.canon) {
                    self.fail(6, "before-cut", format!("{} before the cut is not delivered", KINDS[s.kind].name));
                }
            }
        }
        if self.prop == 4 {
            self.compare_readers(m, data, n, rd, &results, clock.clone());
        }
        if self.prop == 14 && !m.bad.is_empty() {
            self.judge_unknown_enums(d, m, data, rd, clock.clone());
        }
        if self.prop == 8 {
            self.judge_types(d, m, data, n, rd, clock);
        }
        // relays keep what they understood
        if self.nodes[node].role == Role::Relay && self.violation.is_none() {
            for (r, off, idx) in results {
                if let (Got::Pdu(p), true) = (r.got, idx != usize::MAX) {
                    let octets = data[off..off + r.consumed].to_vec();
                    if octets.len() == d.pdus[idx].len && !d.pdus[idx].extended {
                        self.nodes[node].relay.push_back(Relayed { pdu: p, octets, sent: d.pdus[idx].clone() });
                    }
                }
            }
            while self.nodes[node].relay.len() > 200 {
                self.nodes[node].relay.pop_front();
            }
        }
    }

    #[allow(clippy::too_many_arguments)]
    fn judge_intact(&mut self, node: usize, d: &Datagram, s: &Sent, r: &Decoded, off: usize, data: &[u8], rd: &Rd, more: bool) {
        let name = KINDS[s.kind].name;
        self.stats.hit("pdus.delivered_intact");
        self.situation(100 + s.kind as u64, bucket(s.len), u64::from(rd.reader) << 8 | u64::from(rd.api) << 4 | u64::from(more));
        let right = match &r.got {
            Got::Pdu(p) => self.is_right(p.as_ref(), s),
            _ => false,
        };
        if let (2, Got::Pdu(p)) = (self.prop, &r.got) {
            match catch_unwind(AssertUnwindSafe(|| status_disagrees(p.pdu_ref().header()))) {
                Ok(None) => (),
                Ok(Some(m)) => self.fail(2, "status", m),
                Err(_) => self.fail(2, "status", "a status accessor panicked".to_string()),
            }
        }
        if off != s.off {
            self.fail(3, "offset", format!("{name} is looked for at octet {off}, it begins at octet {}", s.off));
        }
        if !right {
            let m = match &r.got {
                Got::Pdu(p) => {
                    if p.kind() == s.kind {
                        first_difference(s.kind, p.as_ref(), &s.canon)
                    } else {
                        format!("{name} was taken for {}", KINDS[p.kind()].name)
                    }
                }
                Got::Panic(e) => format!("decoding {name} panicked: {e}"),
                g => format!("decoding {name} ({} octets) gave {}", s.len, g.word()),
            };
            if s.by_lib {
                self.fail(1, "value", m.clone());
            } else {
                self.fail(2, "decode", m.clone());
            }
            if matches!(r.got, Got::Err | Got::None) {
                self.fail(12, "lost", m.clone());
                self.fail(14, "lost", m.clone());
            }
            // is it the company it came in?
            if matches!(self.prop, 3 | 5) {
                let alone = &d.bytes[s.off..s.off + s.len];
                let a = decode_one(0, Some(s.kind), alone, &mut &alone[..], self.clock(node));
                let ok = matches!(&a.got, Got::Pdu(p) if self.is_right(p.as_ref(), s)) && a.consumed == s.len;
                if ok {
                    self.fail(3, "bundle", format!("alone it decodes right, but here: {m}"));
                    if self.nodes[node].damaged_before > 0 {
                        self.fail(5, "after-damage", format!("after damaged datagrams: {m}"));
                    }
                }
            }
        }
        if let Got::Pdu(p) = &r.got {
            if r.consumed != s.len {
                self.fail(3, "consumed", format!("decoding {name} of {} octets consumed {}", s.len, r.consumed));
            }
            let ts = p.pdu_ref().header().timestamp;
            if ts != s.ts {
                self.fail(11, "decode-timestamp", format!("decoding {name} changed its timestamp from {} to {ts}", s.ts));
            }
        } else if self.prop == 3 && matches!(r.got, Got::Err) {
            // refused: does it insist on octets beyond the declared length?
            let alone = &d.bytes[s.off..s.off + s.len];
            let mut longer = alone.to_vec();
            longer.extend_from_slice(&[0; 64]);
            let a = decode_one(0, Some(s.kind), &longer, &mut &longer[..], self.clock(node));
            if matches!(a.got, Got::Pdu(_)) {
                self.fail(3, "consumed", format!("decoding {name} of {} octets wants octets after its end", s.len));
            }
        }
        let _ = data;
    }

    /// C04: the same octets in one piece and in this delivery's pieces
    fn compare_readers(&mut self, m: &Mutated, data: &[u8], n: usize, rd: &Rd, results: &[(Decoded, usize, usize)], clock: ClockState) {
        for (r, off, idx) in results {
            let kinds: Vec<usize> = if *idx == usize::MAX {
                let mut v = vec![];
                if let Got::Pdu(p) = &r.got {
                    v.push(p.kind());
                } else if let Some(t) = data.get(off + 2) {
                    v.extend(kind_of_type(u32::from(*t)));
                }
                v
            } else if let Got::Pdu(p) = &r.got {
                vec![p.kind()]
            } else {
                data.get(off + 2).and_then(|t| kind_of_type(u32::from(*t))).into_iter().collect()
            };
            for k in kinds {
                let whole = &data[*off..];
                let one = decode_one(0, Some(k), whole, &mut &whole[..], clock.clone());
                for extra in 0..2u64 {
                    let rd2 = if extra == 0 { rd.clone() } else { Rd { reader: 3, seed: mix(rd.seed ^ extra ^ *off as u64), ..rd.clone() } };
                    let (two, _) = with_reader(&rd2, whole, |b| decode_one(0, Some(k), whole, b, clock.clone()));
                    self.stats.hit("probe.segmentations_compared");
                    let same = match (&one.got, &two.got) {
                        (Got::Pdu(a), Got::Pdu(b)) => one.consumed == two.consumed && canon(a.as_ref()) == canon(b.as_ref()),
                        (Got::Err | Got::None, Got::Err | Got::None) => true,
                        (Got::Panic(_), Got::Panic(_)) => true,
                        _ => false,
                    };
                    self.situation(400 + k as u64, u64::from(rd2.reader), matches!(one.got, Got::Pdu(_)) as u64 + (one.got.word().len() as u64) << 4);
                    if !same {
                        let name = KINDS[k].name;
                        let why = match (&one.got, &two.got) {
                            (Got::Pdu(_), Got::Pdu(b)) if one.consumed == two.consumed => {
                                let want = match &one.got {
                                    Got::Pdu(a) => canon(a.as_ref()),
                                    _ => vec![],
                                };
                                first_difference(k, b.as_ref(), &want)
                            }
                            (a, b) => {
                                format!("{} ({} octets consumed) in one piece, {} ({}) in pieces", a.word(), one.consumed, b.word(), two.consumed)
                            }
                        };
                        self.fail(
                            4,
                            "differs",
                            format!(
                                "{name}, {} octets{}, reader {}: {why}",
                                n - off.min(&n),
                                if m.damaged() { " (damaged)" } else { "" },
                                rd2.reader
                            ),
                        );
                        return;
                    }
                }
            }
        }
    }

    /// C14: unknown values become the default, everything else stays
    fn judge_unknown_enums(&mut self, d: &Datagram, m: &Mutated, data: &[u8], rd: &Rd, clock: ClockState) {
        for (i, want) in &m.bad {
            let s = &d.pdus[*i];
            let name = KINDS[s.kind].name;
            let raw = &data[s.off..];
            let (r, _) = with_reader(rd, raw, |b| decode_one(rd.api % 3, Some(s.kind), raw, b, clock.clone()));
            self.stats.hit("fault.unknown_enumeration_value");
            match &r.got {
                Got::Pdu(p) => {
                    let got = wire_as_is(p.as_ref());
                    if r.consumed != s.len {
                        self.fail(14, "framing", format!("{name} with {}: {} of {} octets consumed", m.what, r.consumed, s.len));
                    } else if got != *want {
                        let at = got.iter().zip(want).position(|(a, b)| a != b).unwrap_or(got.len().min(want.len()));
                        let msg = format!(
                            "{name} with {}: field {} at octet {at} is {:02x?}, expected {:02x?}",
                            m.what,
                            wire_field(p.as_ref(), at),
                            &got[at.min(got.len())..(at + 8).min(got.len())],
                            &want[at.min(want.len())..(at + 8).min(want.len())]
                        );
                        self.fail(14, "collateral", msg);
                    }
                }
                g => {
                    let w = if let Got::Panic(e) = g { e.clone() } else { g.word().to_string() };
                    self.fail(14, "lost", format!("{name} with {}: decoding gave {w}", m.what));
                }
            }
            if self.violation.is_some() {
                return;
            }
        }
    }

    /// C08: types are told apart
    fn judge_types(&mut self, d: &Datagram, m: &Mutated, data: &[u8], n: usize, rd: &Rd, clock: ClockState) {
        let mut r = Rng::new(rd.seed ^ 0x7E57);
        for s in d.pdus.iter().take(m.good) {
            let name = KINDS[s.kind].name;
            let raw = &data[s.off..];
            let (t, _, _) = call(clock.clone(), || PduHeader::get_pdu_type(raw).map(pdutype_value));
            if t != Ok(Some(u32::from(KINDS[s.kind].type_value))) {
                self.fail(8, "peek", format!("the type peeked from {name} (type {}) is {t:?}", KINDS[s.kind].type_value));
            }
            let short = r.below(HEADER);
            let (t, _, _) = call(clock.clone(), || PduHeader::get_pdu_type(&raw[..short.min(raw.len())]).map(pdutype_value));
            if t != Ok(None) {
                self.fail(8, "peek-short", format!("a type is peeked from {short} octets of {name}: {t:?}"));
            }
            for _ in 0..3 {
                let k = r.below(KINDS.len());
                if k == s.kind {
                    continue;
                }
                let (one, _) = with_reader(rd, raw, |b| decode_one(0, Some(k), raw, b, clock.clone()));
                self.stats.hit("fault.wrong_type_decode");
                if !matches!(one.got, Got::Err) {
                    self.fail(8, "mistaken", format!("decoding the octets of {name} as {} gave {}", KINDS[k].name, one.got.word()));
                }
                let (two, _) = with_reader(rd, raw, |b| {
                    let b: &mut &mut dyn Buf = &mut any(b);
                    call(clock.clone(), || {
                        let h = <PduHeader as GenericHeader>::deserialize(b);
                        (KINDS[k].de_wh)(b, h).is_ok()
                    })
                    .0
                });
                if two != Ok(false) {
                    self.fail(8, "mistaken-header", format!("decoding the octets of {name} as {} with its header gave {two:?}", KINDS[k].name));
                }
            }
            // the type octet replaced: by another one, by one nobody has, by "other"
            let mut forged = raw.to_vec();
            let (k, what) = match r.below(4) {
                0 => (s.kind, 0u8),
                1 => (s.kind, r.next() as u8),
                2 => (r.below(KINDS.len()), *r.pick(&[0, 0, 255, 128, 127, 73])),
                _ => (r.below(KINDS.len()), r.next() as u8),
            };
            forged[2] = what;
            if what != KINDS[k].type_value {
                let known = ENUM_INFO.iter().any(|e| e.name == "PduType" && e.values.contains(&u32::from(what)));
                let what = if known { format!("of PDU type {what}") } else { format!("with the PDU type {what}, which is not defined,") };
                self.stats.hit("fault.forged_type_decode");
                let (one, _) = with_reader(rd, &forged, |b| decode_one(0, Some(k), &forged, b, clock.clone()));
                if !matches!(one.got, Got::Err) {
                    self.fail(8, "mistaken", format!("decoding octets {what} as {} gave {}", KINDS[k].name, one.got.word()));
                }
                let (two, _) = with_reader(rd, &forged, |b| {
                    let b: &mut &mut dyn Buf = &mut any(b);
                    call(clock.clone(), || {
                        let h = <PduHeader as GenericHeader>::deserialize(b);
                        (KINDS[k].de_wh)(b, h).is_ok()
                    })
                    .0
                });
                if two != Ok(false) {
                    self.fail(8, "mistaken-header", format!("decoding octets {what} as {} with their header gave {two:?}", KINDS[k].name));
                }
                let (t, _, _) = call(clock.clone(), || PduHeader::get_pdu_type(&forged).map(pdutype_value));
                if !matches!(t, Ok(x) if x == known.then_some(u32::from(forged[2])) || (!known && matches!(x, None | Some(0)))) {
                    self.fail(8, "peek", format!("the type peeked from octets {what} is {t:?}"));
                }
            }
            let whole = decode_one(0, Some(s.kind), raw, &mut &raw[..], clock.clone());
            if let Got::Pdu(p) = &whole.got {
                let k = r.below(KINDS.len());
                let res = call(clock.clone(), || {
                    let g = p.pdu_ref();
                    let own = (KINDS[s.kind].is)(g) && (KINDS[s.kind].down)(g).is_some_and(|q| canon(q) == canon(p.as_ref()));
                    let other = k != s.kind && ((KINDS[k].is)(g) || (KINDS[k].down)(g).is_some());
                    (own, other)
                })
                .0;
                self.stats.hit("probe.downcasts");
                if res != Ok((true, false)) {
                    self.fail(8, "downcast", format!("a decoded {name} handed on as generic PDU: own type and other type recovered: {res:?}"));
                }
                if pdutype_value(p.pdu_ref().header().pdu_type) != u32::from(KINDS[s.kind].type_value) {
                    self.fail(8, "header-type", format!("a decoded {name} has another type in its header"));
                }
            } else if matches!(whole.got, Got::Err) && s.by_lib {
                self.fail(8, "own-type-refused", format!("decoding {name} as its own type fails"));
            }
            if self.violation.is_some() {
                return;
            }
        }
        let _ = n;
    }

    // -------------------------------------------------------------- relaying

    fn forward(&mut self, node: usize, dg: u32, max: usize, buf: u8) {
        let mut d = Datagram::default();
        let mut out = if buf == 2 { std::mem::take(&mut self.nodes[node].sendbuf) } else { BytesMut::new() };
        out.clear();
        for _ in 0..max {
            let Some(mut x) = self.nodes[node].relay.pop_front() else {
                break;
            };
            let name = KINDS[x.sent.kind].name;
            let start = out.len();
            let ts = x.pdu.pdu_ref().header().timestamp;
            let (r, _, _) = call(self.clock(node), || x.pdu.pdu().serialize(&mut out));
            self.stats.hit("pdus.relayed");
            if !matches!(r, Ok(Ok(()))) {
                self.fail(12, "refused", format!("a relay cannot serialize the {name} it decoded: {r:?}"));
                out.truncate(start);
                continue;
            }
            let got = out[start..].to_vec();
            let mut s = x.sent.clone();
            if got != x.octets {
                if self.known && s.raw.as_ref() == Some(&got) {
                    self.stats.hit("known.marking-octets");
                    out.truncate(start);
                    continue;
                }
                let known = match (&s.alt, self.known) {
                    (Some((_, w)), true) => *w == got,
                    _ => false,
                };
                if known {
                    self.stats.hit("known.minefield-data-lists");
                    let Some((mut c, w)) = s.alt.take() else {
                        continue;
                    };
                    s.len = w.len();
                    c[8..10].copy_from_slice(&(w.len() as u16).to_be_bytes());
                    s.canon = c;
                } else {
                    let at = got.iter().zip(&x.octets).position(|(a, b)| a != b).unwrap_or(got.len().min(x.octets.len()));
                    let msg = format!(
                        "{name}: {} octets received, {} forwarded, first difference at octet {at} (field {})",
                        x.octets.len(),
                        got.len(),
                        wire_field(x.pdu.as_ref(), at)
                    );
                    self.fail(12, "altered", msg);
                }
            }
            if got.len() >= 8 {
                let wire_ts = u32::from_be_bytes([got[4], got[5], got[6], got[7]]);
                if wire_ts != ts || wire_ts != s.ts {
                    self.fail(11, "forward-timestamp", format!("forwarding {name} changed its timestamp from {} to {wire_ts}", s.ts));
                }
            }
            s.off = start;
            if got.len() != s.len {
                out.truncate(start);
                continue;
            }
            d.pdus.push(s);
            if self.violation.is_some() {
                return;
            }
        }
        d.bytes = out.to_vec();
        self.note(digest(&d.bytes));
        if buf == 2 {
            self.nodes[node].sendbuf = out;
        }
        self.net.insert(dg, d);
    }

    // -------------------------------------------------------------- clocks

    fn stamp(&mut self, node: usize, which: u8, kind: usize, ticks: &[i64]) {
        let mut c = self.clock(node);
        c.ticks = ticks.to_vec();
        let kind = kind % KINDS.len();
        let k = &KINDS[kind];
        let (pt, pf) = (k.pdu_type, open_dis_rust::common::enums::ProtocolFamily::default());
        let (r, _, c) = call(c, || match which % 8 {
            0 => (PduHeader::new(pt, pf, 1, 0).timestamp, "PduHeader::new"),
            1 => (PduHeader::default().timestamp, "PduHeader::default"),
            2 => (PduHeader::calculate_dis_timestamp(), "PduHeader::calculate_dis_timestamp"),
            3 => (LiveEntityPduHeader::new(pt, pf, 1, 0).timestamp, "LiveEntityPduHeader::new"),
            4 => (LiveEntityPduHeader::default().timestamp, "LiveEntityPduHeader::default"),
            5 => (LiveEntityPduHeader::calculate_dis_timestamp(), "LiveEntityPduHeader::calculate_dis_timestamp"),
            6 => ((k.new)().pdu_ref().header().timestamp, k.name),
            _ => ((k.default)().pdu_ref().header().timestamp, k.name),
        });
        self.stats.hit("probe.stamps");
        self.situation(1100 + u64::from(which % 8), c.reads as u64, c.spans.len() as u64);
        match r {
            Ok((ts, what)) => {
                self.note(u64::from(ts));
                self.check_fresh(what, ts, &c);
            }
            Err(e) => self.fail(11, "panic", format!("taking a timestamp panicked: {e}")),
        }
        // time goes on from where the call left it
        let moved = c.now - (self.plan.base_ns + i128::from(self.t) + i128::from(self.nodes[node].skew));
        if moved.abs() > 1_000_000_000 {
            self.nodes[node].skew = self.nodes[node].skew.wrapping_add(i64::try_from(moved).unwrap_or(0));
        }
    }

    // -------------------------------------------------------------- logs

    fn append(&mut self, node: usize, items: &[Item]) {
        for it in items {
            let mut b = BytesMut::new();
            if let Some(mut s) = self.send_one(node, it, &mut b, 0) {
                let n = &mut self.nodes[node];
                s.off = n.disk.len() + n.pending.len();
                n.pending.extend_from_slice(&b);
                n.logged.push(s);
                self.stats.hit("log.appended");
            }
            if self.violation.is_some() {
                return;
            }
        }
    }

    fn crash(&mut self, node: usize, sel: u64, zeros: usize, rd: &Rd) {
        let n = &mut self.nodes[node];
        // part of what was on its way to the disk gets there
        let torn = if n.pending.is_empty() { 0 } else { (sel % (n.pending.len() as u64 + 1)) as usize };
        let part: Vec<u8> = n.pending.drain(..torn).collect();
        n.disk.extend(part);
        n.pending.clear();
        let written = n.disk.len();
        let complete = n.logged.iter().filter(|s| s.off + s.len <= written).count();
        let end = n.logged[..complete].last().map_or(0, |s| s.off + s.len);
        let tail = written - end;
        let tail_kind = n.logged.get(complete).map(|s| (s.kind, s.len));
        let mut image = n.disk.clone();
        image.extend(std::iter::repeat_n(0u8, zeros));
        let logged = n.logged.clone();
        // back to the last complete PDU, then go on
        n.disk.truncate(end);
        n.logged.truncate(complete);
        n.slots.clear();
        n.sendbuf = BytesMut::new();
        self.stats.hit("fault.crash");
        if tail > 0 {
            self.stats.hit("fault.torn_write");
        }
        if zeros > 0 {
            self.stats.hit("fault.zero_filled_tail");
        }
        // recovery: read the log from the beginning
        let clock = self.clock(node);
        let api = rd.api % 3;
        let mut got: Vec<Decoded> = vec![];
        let mut pos = 0;
        let total = image.len();
        with_reader(rd, &image, |buf| {
            while pos < total && got.len() < complete + 4 {
                let hint = logged.get(got.len()).map(|s| s.kind).or(Some(rd.seed as usize % KINDS.len()));
                let r = decode_one(api, hint, &image[pos..], buf, clock.clone());
                let c = r.consumed;
                let stop = !matches!(r.got, Got::Pdu(_));
                got.push(r);
                pos += c;
                if stop || c == 0 {
                    break;
                }
            }
        });
        self.note(got.len() as u64 ^ (pos as u64) << 20);
        self.situation(1300, bucket(tail) << 8 | bucket(zeros), bucket(complete));
        for (i, s) in logged[..complete].iter().enumerate() {
            let name = KINDS[s.kind].name;
            self.stats.hit("log.recovered");
            match got.get(i) {
                Some(r) => match &r.got {
                    Got::Pdu(p) => {
                        if !self.is_right(p.as_ref(), s) {
                            let m = first_difference(s.kind, p.as_ref(), &s.canon);
                            self.fail(13, "altered", format!("entry {i} of the log: {m}"));
                        } else if r.consumed != s.len {
                            self.fail(13, "framing", format!("entry {i}, {name} of {} octets: {} consumed", s.len, r.consumed));
                        }
                    }
                    Got::Panic(e) => self.fail(13, "panic", format!("entry {i}, {name}: reading panicked: {e}")),
                    g => self.fail(13, "lost", format!("entry {i}, a completely written {name}, reads as {}", g.word())),
                },
                None => self.fail(13, "lost", format!("entry {i}, a completely written {name}, is not found")),
            }
            if self.violation.is_some() {
                return;
            }
        }
        for r in &got[complete.min(got.len())..] {
            match &r.got {
                Got::Panic(e) => {
                    self.fail(13, "tail-panic", format!("the tail of the log ({tail} octets of a PDU, {zeros} zeros) makes reading panic: {e}"));
                }
                Got::Pdu(p) => {
                    // zeros may complete a PDU whose length field was written: not recognisable
                    let length_known = match tail_kind {
                        Some((_, l)) => tail >= 10 || (tail == 9 && l >= 256),
                        None => false,
                    };
                    if zeros == 0 || !length_known {
                        let name = KINDS[p.kind()].name;
                        self.fail(13, "invented", format!("the tail of the log ({tail} octets of a PDU, {zeros} zeros) reads as {name}"));
                    }
                }
                _ => {
                    self.stats.hit("probe.torn_tail_recognised");
                }
            }
        }
    }

    // -------------------------------------------------------------- records

    fn send_records(&mut self, node: usize, dg: u32, items: &[Item], buf: u8) {
        let mut d = Datagram::default();
        let mut out = if buf == 2 { std::mem::take(&mut self.nodes[node].sendbuf) } else { BytesMut::new() };
        out.clear();
        for it in items {
            let kind = it.kind % RECORDS.len();
            let k = &RECORDS[kind];
            take_fault();
            let dict: &'p Words = &self.plan.dict;
            let made = call(self.clock(node), || {
                let mut g = generator(&Item { target: 0, ..it.clone() }, dict);
                g.budget = if it.target > 0 { i64::from(it.target) } else { 3000 };
                (k.new)(&mut g)
            });
            let Ok(mut rec) = made.0 else {
                self.fail(self.prop, "panic-new", format!("making a {} panicked", k.name));
                return;
            };
            if let Some(f) = take_fault() {
                self.fail(self.prop, "content", f);
            }
            let state = seams::shared_accesses();
            if let (Some(via), 0) = (k.via, it.seed % 3) {
                let mut want = Enc::canon();
                rec.enc(&mut want);
                rec = match call(self.clock(node), || via(rec)).0 {
                    Ok(r) => r,
                    Err(p) => {
                        self.fail(self.prop, "panic-new", format!("constructing {} panicked: {p}", k.name));
                        return;
                    }
                };
                self.stats.hit("records.by_constructor");
                if let Some(field) = differs(rec.as_ref(), &want.out) {
                    self.fail(self.prop, "constructor", format!("{}: field {field} is not what the constructor was given", k.name));
                    return;
                }
            }
            let mut e = Enc::wire();
            rec.enc(&mut e);
            let mut c = Enc::canon();
            rec.enc(&mut c);
            let before = out.to_vec();
            let (r, _, _) = call(self.clock(node), || {
                if it.slot == 1 {
                    if let Some(f) = k.fser {
                        f(rec.as_ref(), &mut out);
                        return;
                    }
                }
                (k.ser)(rec.as_ref(), &mut out);
            });
            self.stats.hit("records.serialized");
            if it.flags & NEWER != 0 {
                self.stats.hit("fault.unknown_enumerant_alone");
            }
            if let Err(p) = r {
                self.fail(self.prop, "panic", format!("serializing {} panicked: {p}", k.name));
                return;
            }
            if out.len() < before.len() || out[..before.len()] != before[..] {
                self.fail(self.prop, "prefix", format!("serializing {} changed what was in the buffer", k.name));
                return;
            }
            let got = &out[before.len()..];
            if *got != e.out[..] {
                let at = got.iter().zip(&e.out).position(|(a, b)| a != b).unwrap_or(got.len().min(e.out.len()));
                let mut t = Enc::wire();
                t.trace = true;
                rec.enc(&mut t);
                let field = t.paths.iter().rev().find(|(o, _)| *o <= at).map_or(String::new(), |x| x.1.clone());
                let m = format!("{}: {} octets emitted, {} expected, first difference at octet {at}, field {field}", k.name, got.len(), e.out.len());
                self.fail(self.prop, "layout", m);
                return;
            }
            let n = got.len();
            if let Some(f) = k.len {
                let l = call(self.clock(node), || f(rec.as_ref())).0;
                if l != Ok(n) {
                    self.fail(self.prop, "length", format!("{}: {n} octets emitted, length report {l:?}", k.name));
                }
            }
            if let Some(l) = k.const_len {
                if l != n {
                    self.fail(self.prop, "const-length", format!("{}: {n} octets emitted, constant length {l}", k.name));
                }
            }
            self.situation(1500 + kind as u64, bucket(n), u64::from(it.slot == 1));
            d.records.push((kind, before.len(), n, usize::from(it.slot == 1)));
            if seams::shared_accesses() > state {
                self.stats.stateful.insert(1000 + kind);
            }
            d.canons.push(c.out);
        }
        d.bytes = out.to_vec();
        self.note(digest(&d.bytes));
        if buf == 2 {
            self.nodes[node].sendbuf = out;
        }
        self.net.insert(dg, d);
    }

    fn read_records(&mut self, node: usize, dg: u32, rd: &Rd) {
        let Some(d) = self.net.get(&dg).cloned() else {
            return;
        };
        let mut data = d.bytes.clone();
        let mut r = Rng::new(rd.seed ^ 0x0E5);
        data.extend((0..rd.njunk % 64).map(|_| if rd.junk == 2 { 0 } else { r.next() as u8 }));
        let clock = self.clock(node);
        let state = seams::shared_accesses();
        let mut fails: Vec<(&'static str, String)> = vec![];
        let total = data.len();
        with_reader(rd, &data, |buf| {
            for (i, (kind, off, len, via_field)) in d.records.iter().enumerate() {
                let k = &RECORDS[*kind];
                let at = total - buf.remaining();
                if at != *off {
                    fails.push(("offset", format!("{} is read at octet {at} instead of {off}", k.name)));
                    return;
                }
                let b: &mut &mut dyn Buf = &mut any(buf);
                let (got, _, _) = call(clock.clone(), || {
                    let use_field = (*via_field == 1) ^ (rd.api & 1 == 1);
                    match (use_field, k.fde) {
                        (true, Some(f)) => f(b, *len),
                        _ => (k.de)(b, *len),
                    }
                });
                let consumed = total - buf.remaining() - at;
                match got {
                    Err(p) => {
                        fails.push(("panic", format!("decoding {} ({len} octets) panicked: {p}", k.name)));
                        return;
                    }
                    Ok(rec) => {
                        if let Some(field) = differs(rec.as_ref(), &d.canons[i]) {
                            fails.push(("value", format!("{}: field {field} differs after decoding", k.name)));
                            return;
                        }
                    }
                }
                if consumed != *len {
                    fails.push(("consumed", format!("{} of {len} octets: {consumed} consumed", k.name)));
                    return;
                }
            }
        });
        self.stats.add("records.decoded", d.records.len() as u64);
        if seams::shared_accesses() > state {
            self.stats.stateful.extend(d.records.iter().map(|x| 1000 + x.0));
        }
        for (c, m) in fails {
            self.fail(self.prop, c, m);
        }
    }
}

/// The first field in which a record is not what it should be
fn differs(rec: &dyn Rec, want: &[u8]) -> Option<String> {
    let mut c = Enc::canon();
    rec.enc(&mut c);
    if c.out == want {
        return None;
    }
    let at = c.out.iter().zip(want).position(|(a, b)| a != b).unwrap_or(c.out.len().min(want.len()));
    let mut t = Enc::canon();
    t.trace = true;
    rec.enc(&mut t);
    Some(t.paths.iter().rev().find(|(o, _)| *o <= at).map_or(String::new(), |x| x.1.clone()))
}

fn bucket(n: usize) -> u64 {
    if n < 64 { n as u64 / 8 } else { 64 + u64::from((n as u64).ilog2()) * 8 + ((n as u64) >> ((n as u64).ilog2() - 3) & 7) }
}

pub const MINEFIELD_DATA: u8 = 39;

// ------------------------------------------------------------------ damage

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tail {
    /// Nothing more to read
    Stop,
    /// The next PDU is cut short
    MustErr,
    /// Anything may follow
    Any,
}

pub struct Mutated {
    pub bytes: Vec<u8>,
    /// This many PDUs are intact at the beginning
    pub good: usize,
    pub tail: Tail,
    /// Nothing may follow the octets
    pub exact_end: bool,
    /// PDUs with unknown enumeration values, and their expected re-encoding
    pub bad: Vec<(usize, Vec<u8>)>,
    pub what: String,
}
impl Mutated {
    pub fn damaged(&self) -> bool {
        self.tail != Tail::Stop
    }
}

fn mutate(d: &Datagram, muts: &[Mut], net: &HashMap<u32, Datagram>, stats: &mut Stats) -> Mutated {
    let mut b = d.bytes.clone();
    let mut first = usize::MAX; // first affected octet
    let mut cut: Option<(usize, String)> = None; // PDU cut short
    let mut exact_end = false;
    let mut bad: BTreeMap<usize, Vec<u8>> = BTreeMap::new();
    let mut what = String::new();
    let field_of = |sel: u64, pred: &dyn Fn(&Field) -> bool| -> Option<(usize, Field)> {
        let all: Vec<(usize, Field)> =
            d.pdus.iter().enumerate().flat_map(|(i, s)| s.fields.iter().filter(|f| pred(f)).map(move |f| (i, *f))).collect();
        if all.is_empty() { None } else { Some(all[(sel % all.len() as u64) as usize]) }
    };
    for m in muts {
        let n = b.len() as u64;
        match m {
            Mut::Flip(at) if n > 0 => {
                let bit = at % (n * 8);
                b[(bit / 8) as usize] ^= 1 << (bit % 8);
                first = first.min((bit / 8) as usize);
                stats.hit("fault.bit_flip");
            }
            Mut::Set(at, v) if n > 0 => {
                b[(at % n) as usize] = *v;
                first = first.min((at % n) as usize);
                stats.hit("fault.octet_overwritten");
            }
            Mut::Count(sel, v) | Mut::Field(sel, v) => {
                let count = matches!(m, Mut::Count(..));
                let f = field_of(*sel, &|f| {
                    if count { f.mark == Mark::Count } else { f.width > 0 && f.width <= 8 }
                });
                if let Some((i, f)) = f {
                    let off = d.pdus[i].off + f.off;
                    if off + f.width <= b.len() && f.width > 0 {
                        let v = v.to_be_bytes();
                        b[off..off + f.width].copy_from_slice(&v[8 - f.width..]);
                        first = first.min(off);
                        stats.hit(if count { "fault.count_overwritten" } else { "fault.field_overwritten" });
                    }
                }
            }
            Mut::Type(sel, v) => {
                if let Some(s) = pick(&d.pdus, *sel) {
                    if s.off + 2 < b.len() {
                        b[s.off + 2] = *v;
                        first = first.min(s.off + 2);
                        stats.hit("fault.type_overwritten");
                    }
                }
            }
            Mut::DeclLen(sel, v) => {
                if let Some(s) = pick(&d.pdus, *sel) {
                    if s.off + 10 <= b.len() {
                        b[s.off + 8..s.off + 10].copy_from_slice(&v.to_be_bytes());
                        first = first.min(s.off + 8);
                        stats.hit("fault.length_overwritten");
                    }
                }
            }
            Mut::Cut(style, at) => {
                // 0: anywhere, 1: in the last PDU, 2: in a header, 3: near the end of a PDU, 4: near its start
                if let Some(i) = (!d.pdus.is_empty()).then(|| if *style == 1 { d.pdus.len() - 1 } else { (at >> 32) as usize % d.pdus.len() }) {
                    let s = &d.pdus[i];
                    let low = at & 0xffff_ffff;
                    let rel = match style {
                        2 => low as usize % HEADER.min(s.len),
                        3 => s.len - 1 - low as usize % 9.min(s.len),
                        4 => (HEADER + low as usize % 8).min(s.len - 1),
                        _ => low as usize % s.len,
                    };
                    b.truncate(s.off + rel);
                    first = first.min(s.off + rel);
                    cut = Some((i, format!("cut to {rel} of {} octets", s.len)));
                    exact_end = true;
                    stats.hit("fault.truncation");
                }
            }
            Mut::Short(sel, v) => {
                if let Some(s) = pick(&d.pdus, *sel) {
                    if s.off + 10 <= b.len() && !s.extended {
                        let short = match v % 4 {
                            0 => s.len - 1 - (v >> 2) as usize % 8.min(s.len),
                            1 => (v >> 2) as usize % 16.min(s.len),
                            _ => (v >> 2) as usize % s.len,
                        };
                        b[s.off + 8..s.off + 10].copy_from_slice(&(short as u16).to_be_bytes());
                        first = first.min(s.off + 8);
                        let i = (*sel % d.pdus.len() as u64) as usize;
                        cut = Some((i, format!("of {} octets, declared length {short}", s.len)));
                        stats.hit("fault.declared_too_short");
                    }
                }
            }
            Mut::Extend(k, seed) => {
                let mut r = Rng::new(*seed);
                first = first.min(b.len());
                b.extend((0..*k).map(|_| r.next() as u8));
                stats.hit("fault.garbage_appended");
            }
            Mut::Splice(dg, from, k, to) => {
                if let Some(o) = net.get(dg) {
                    if !o.bytes.is_empty() {
                        let f = (*from % o.bytes.len() as u64) as usize;
                        let e = (f + *k as usize).min(o.bytes.len());
                        let t = (*to % (n + 1)) as usize;
                        let tail: Vec<u8> = b.split_off(t);
                        b.extend_from_slice(&o.bytes[f..e]);
                        if to & 1 << 40 != 0 {
                            b.extend(tail);
                        }
                        first = first.min(t);
                        stats.hit("fault.splice");
                    }
                }
            }
            Mut::Garbage(k, seed) => {
                let mut r = Rng::new(*seed);
                let keep = if seed & 1 == 1 { HEADER.min(b.len()) } else { 0 };
                b.truncate(keep);
                b.extend((0..*k).map(|_| r.next() as u8));
                if seed & 6 == 6 && b.len() >= HEADER {
                    b[2] = KINDS[r.below(KINDS.len())].type_value;
                }
                if seed & 8 == 8 && b.len() >= HEADER {
                    let l = (b.len() as u16).to_be_bytes();
                    b[8..10].copy_from_slice(&l);
                }
                first = 0;
                stats.hit("fault.garbage_datagram");
            }
            Mut::BadEnum(sel, v) => {
                let f = field_of(*sel, &|f| matches!(f.mark, Mark::Enum(_)));
                if let Some((i, f)) = f {
                    if d.pdus[i].by_lib && d.pdus[i].alt.is_some() {
                        continue;
                    }
                    let Mark::Enum(id) = f.mark else { continue };
                    let info = &ENUM_INFO[id as usize];
                    if let Some(u) = undefined_value(info.values, info.width, *v) {
                        let s = &d.pdus[i];
                        let off = s.off + f.off;
                        if off + f.width > b.len() {
                            continue;
                        }
                        let ub = u.to_be_bytes();
                        b[off..off + f.width].copy_from_slice(&ub[4 - f.width..]);
                        let e = bad.entry(i).or_insert_with(|| {
                            let mut e = d.bytes[s.off..s.off + s.len].to_vec();
                            s.fields.iter().filter(|f| f.mark == Mark::Pad).for_each(|f| e[f.off..f.off + f.width].fill(0));
                            e
                        });
                        let db = info.default.to_be_bytes();
                        e[f.off..f.off + f.width].copy_from_slice(&db[4 - f.width..]);
                        what.push_str(&format!("{}={u} at octet {} ", info.name, f.off));
                    }
                }
            }
            Mut::ZeroTail(at) if n > 0 => {
                let k = (at % n) as usize;
                b[k..].fill(0);
                first = first.min(k);
                stats.hit("fault.zeroed_tail");
            }
            _ => {}
        }
    }
    if !bad.is_empty() {
        // other damage is not combined with unknown values
        return Mutated { bytes: b, good: 0, tail: Tail::Stop, exact_end: false, bad: bad.into_iter().collect(), what };
    }
    if first == usize::MAX {
        return Mutated { bytes: b, good: d.pdus.len(), tail: Tail::Stop, exact_end: false, bad: vec![], what };
    }
    let good = d.pdus.iter().filter(|s| s.off + s.len <= first).count();
    let tail = match &cut {
        Some((i, w)) if muts.len() == 1 => {
            what = w.clone();
            debug_assert!(good >= *i || good < d.pdus.len());
            if good == *i { Tail::MustErr } else { Tail::Any }
        }
        _ => Tail::Any,
    };
    Mutated { bytes: b, good, tail, exact_end: exact_end || tail == Tail::Any, bad: vec![], what }
}

fn pick(v: &[Sent], sel: u64) -> Option<&Sent> {
    if v.is_empty() { None } else { Some(&v[(sel % v.len() as u64) as usize]) }
}

/// Padding as a peer sends it that does not clear it
fn fill_padding(b: &mut [u8], fields: &[Field], seed: u64, align: bool) {
    let mut r = Rng::new(seed ^ 0x9AD);
    for f in fields {
        if f.mark == Mark::Pad || (f.mark == Mark::Align && align) {
            b[f.off..f.off + f.width].iter_mut().for_each(|b| *b = r.next() as u8);
        }
    }
}
