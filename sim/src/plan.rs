//! A plan is one complete, explicit execution: who sends what when, and everything the network,
//! the disks, the clocks and the scheduler do to it. Running a plan draws no further choices, so
//! a plan written to a file is the replay of that execution.

use std::fmt::Write as _;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Role {
    /// Node sending with the library
    Lib,
    /// Independent implementation (reference encoder), not using the library's codec
    Ref,
    Recv,
    Relay,
    Log,
    /// The plan is a set of tasks on threads of their own
    Threads,
    /// The plan is a set of tasks interleaved on one thread
    Nested,
}
const ROLES: [(Role, &str); 7] = [
    (Role::Lib, "lib"),
    (Role::Ref, "ref"),
    (Role::Recv, "recv"),
    (Role::Relay, "relay"),
    (Role::Log, "log"),
    (Role::Threads, "threads"),
    (Role::Nested, "nested"),
];

#[derive(Clone, Debug)]
pub struct Node {
    pub role: Role,
    /// Clock skew against true time, nanoseconds
    pub skew: i64,
}

pub const FRESH_TS: u16 = 1;
pub const UNDECODABLE: u16 = 2;
pub const DEFAULT_CTOR: u16 = 4;
pub const EXTENDED: u16 = 8;
pub const TWICE: u16 = 16;
/// Count and length fields need not match their lists (sending is judged, nothing is delivered)
pub const MISCOUNT: u16 = 32;

/// Changes what the object holds instead of replacing all of it
pub const TWEAK: u16 = 64;
/// The reference peer does not clear the padding it sends
pub const PADS: u16 = 128;
/// The reference peer sends markings that are no UTF-8 text
pub const RAW_TEXT: u16 = 256;
/// Enumerations that stand alone carry numbers this library does not know
pub const NEWER: u16 = 512;

/// See `Act::Arrive`
pub const AT_END: u32 = 1 << 20;

#[derive(Clone, Debug, PartialEq, Default)]
pub struct Item {
    pub kind: usize,
    pub seed: u64,
    /// 0 as generated, 1 short lists and plain values, 2 left as constructed
    pub lite: u8,
    /// 0 fresh object, otherwise an object of the node that is used again and again
    pub slot: u8,
    pub flags: u16,
    /// Fill the lists up to about this many octets (0: no)
    pub target: u32,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Mut {
    Flip(u64),
    Set(u64, u8),
    /// Overwrite the count/length field chosen by the first number with the second
    Count(u64, u64),
    /// Overwrite any field
    Field(u64, u64),
    Type(u64, u8),
    DeclLen(u64, u16),
    Cut(u8, u64),
    Short(u64, u64),
    Extend(u16, u64),
    Splice(u32, u64, u16, u64),
    Garbage(u16, u64),
    BadEnum(u64, u64),
    ZeroTail(u64),
}

#[derive(Clone, Debug, PartialEq)]
pub struct Rd {
    pub reader: u8,
    pub seed: u64,
    pub api: u8,
    pub junk: u8,
    pub njunk: u16,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Act {
    Send {
        dg: u32,
        buf: u8,
        cap: u16,
        items: Vec<Item>,
    },
    Deliver {
        dg: u32,
        rd: Rd,
        muts: Vec<Mut>,
    },
    Lose {
        dg: u32,
        why: u8,
    },
    Forward {
        dg: u32,
        max: u16,
        buf: u8,
    },
    Restart,
    Clock {
        step: i64,
    },
    Stamp {
        which: u8,
        kind: usize,
        ticks: Vec<i64>,
    },
    /// Logger: append items, let octets reach the disk, crash and recover
    Append {
        items: Vec<Item>,
    },
    Flush {
        sel: u64,
    },
    Crash {
        sel: u64,
        zeros: u16,
        rd: Rd,
    },
    Records {
        dg: u32,
        items: Vec<Item>,
        buf: u8,
    },
    ReadRecords {
        dg: u32,
        rd: Rd,
    },
    /// Task engine: an operation of a task, and a forced switch after n suspension points
    Task {
        ops: Vec<Item>,
        what: Vec<u8>,
    },
    Switch {
        point: u32,
        to: u8,
    },
    /// The same operation many times over: what is kept from one to the next shows afterwards
    Warm {
        item: Item,
        what: u8,
        times: u32,
    },
    /// More octets of the node's byte stream reach the other end, which decodes as far as it can.
    /// `n` at or above `AT_END`: up to the end of the PDU that is arriving, `n & 0xff` - 16 octets beyond
    Arrive {
        n: u32,
        rd: Rd,
    },
    /// The connection breaks, and with it goes what had not arrived in full
    Reset,
    /// A long life: PDUs of ever other content made, sent, received, refused and dropped
    Endure {
        item: Item,
        what: u8,
        times: u32,
    },
}

#[derive(Clone, Debug, PartialEq)]
pub struct Op {
    pub t: u64,
    pub node: usize,
    pub act: Act,
}

/// Values that the sources under test mention: they steer what is generated, nothing else
#[derive(Clone, Debug, Default, PartialEq)]
pub struct Words {
    pub all: Vec<u64>,
    /// So many of them are mentioned where the pinned tree does not
    pub fresh: usize,
    /// Enumerants newly mentioned: enumeration << 32 | number
    pub enumerants: Vec<u64>,
    /// Texts newly mentioned
    pub texts: Vec<String>,
}

#[derive(Clone, Debug)]
pub struct Plan {
    pub prop: String,
    pub seed: u64,
    pub base_ns: i128,
    pub dict: Words,
    pub nodes: Vec<Node>,
    pub ops: Vec<Op>,
}

fn items(v: &[Item]) -> String {
    v.iter().map(|i| format!("{}:{:x}:{}:{}:{}:{}", i.kind, i.seed, i.lite, i.slot, i.flags, i.target)).collect::<Vec<_>>().join(",")
}
fn p_items(s: &str) -> Option<Vec<Item>> {
    if s.is_empty() || s == "-" {
        return Some(vec![]);
    }
    s.split(',')
        .map(|x| {
            let f: Vec<&str> = x.split(':').collect();
            Some(Item {
                kind: f.first()?.parse().ok()?,
                seed: u64::from_str_radix(f.get(1)?, 16).ok()?,
                lite: f.get(2)?.parse().ok()?,
                slot: f.get(3)?.parse().ok()?,
                flags: f.get(4)?.parse().ok()?,
                target: f.get(5)?.parse().ok()?,
            })
        })
        .collect()
}
fn rd(r: &Rd) -> String {
    format!("{}:{:x}:{}:{}:{}", r.reader, r.seed, r.api, r.junk, r.njunk)
}
fn p_rd(s: &str) -> Option<Rd> {
    let f: Vec<&str> = s.split(':').collect();
    Some(Rd {
        reader: f.first()?.parse().ok()?,
        seed: u64::from_str_radix(f.get(1)?, 16).ok()?,
        api: f.get(2)?.parse().ok()?,
        junk: f.get(3)?.parse().ok()?,
        njunk: f.get(4)?.parse().ok()?,
    })
}
fn muts(v: &[Mut]) -> String {
    v.iter()
        .map(|m| match m {
            Mut::Flip(a) => format!("flip:{a}"),
            Mut::Set(a, b) => format!("set:{a}:{b}"),
            Mut::Count(a, b) => format!("count:{a}:{b}"),
            Mut::Field(a, b) => format!("field:{a}:{b}"),
            Mut::Type(a, b) => format!("type:{a}:{b}"),
            Mut::DeclLen(a, b) => format!("decllen:{a}:{b}"),
            Mut::Cut(a, b) => format!("cut:{a}:{b}"),
            Mut::Short(a, b) => format!("short:{a}:{b}"),
            Mut::Extend(a, b) => format!("extend:{a}:{b}"),
            Mut::Splice(a, b, c, d) => format!("splice:{a}:{b}:{c}:{d}"),
            Mut::Garbage(a, b) => format!("garbage:{a}:{b}"),
            Mut::BadEnum(a, b) => format!("badenum:{a}:{b}"),
            Mut::ZeroTail(a) => format!("zerotail:{a}"),
        })
        .collect::<Vec<_>>()
        .join(",")
}
fn p_muts(s: &str) -> Option<Vec<Mut>> {
    if s.is_empty() || s == "-" {
        return Some(vec![]);
    }
    s.split(',')
        .map(|x| {
            let f: Vec<&str> = x.split(':').collect();
            let n = |i: usize| f.get(i).and_then(|v| v.parse::<u64>().ok());
            Some(match *f.first()? {
                "flip" => Mut::Flip(n(1)?),
                "set" => Mut::Set(n(1)?, n(2)? as u8),
                "count" => Mut::Count(n(1)?, n(2)?),
                "field" => Mut::Field(n(1)?, n(2)?),
                "type" => Mut::Type(n(1)?, n(2)? as u8),
                "decllen" => Mut::DeclLen(n(1)?, n(2)? as u16),
                "cut" => Mut::Cut(n(1)? as u8, n(2)?),
                "short" => Mut::Short(n(1)?, n(2)?),
                "extend" => Mut::Extend(n(1)? as u16, n(2)?),
                "splice" => Mut::Splice(n(1)? as u32, n(2)?, n(3)? as u16, n(4)?),
                "garbage" => Mut::Garbage(n(1)? as u16, n(2)?),
                "badenum" => Mut::BadEnum(n(1)?, n(2)?),
                "zerotail" => Mut::ZeroTail(n(1)?),
                _ => return None,
            })
        })
        .collect()
}
fn list<T: std::fmt::Display>(v: &[T]) -> String {
    if v.is_empty() { "-".into() } else { v.iter().map(T::to_string).collect::<Vec<_>>().join(",") }
}
fn p_list<T: std::str::FromStr>(s: &str) -> Option<Vec<T>> {
    if s == "-" { Some(vec![]) } else { s.split(',').map(|x| x.parse().ok()).collect() }
}

impl Op {
    pub fn text(&self) -> String {
        let dash = |s: String| if s.is_empty() { "-".to_string() } else { s };
        let a = match &self.act {
            Act::Send { dg, buf, cap, items: i } => format!("send {dg} {buf} {cap} {}", dash(items(i))),
            Act::Deliver { dg, rd: r, muts: m } => {
                format!("deliver {dg} {} {}", rd(r), dash(muts(m)))
            }
            Act::Lose { dg, why } => format!("lose {dg} {why}"),
            Act::Forward { dg, max, buf } => format!("forward {dg} {max} {buf}"),
            Act::Restart => "restart".into(),
            Act::Clock { step } => format!("clock {step}"),
            Act::Stamp { which, kind, ticks } => format!("stamp {which} {kind} {}", list(ticks)),
            Act::Append { items: i } => format!("append {}", dash(items(i))),
            Act::Flush { sel } => format!("flush {sel}"),
            Act::Crash { sel, zeros, rd: r } => format!("crash {sel} {zeros} {}", rd(r)),
            Act::Records { dg, items: i, buf } => format!("records {dg} {} {buf}", dash(items(i))),
            Act::ReadRecords { dg, rd: r } => format!("readrecords {dg} {}", rd(r)),
            Act::Task { ops, what } => format!("task {} {}", dash(items(ops)), list(what)),
            Act::Switch { point, to } => format!("switch {point} {to}"),
            Act::Warm { item, what, times } => format!("warm {} {what} {times}", items(std::slice::from_ref(item))),
            Act::Arrive { n, rd: r } => format!("arrive {n} {}", rd(r)),
            Act::Reset => "reset".into(),
            Act::Endure { item, what, times } => format!("endure {} {what} {times}", items(std::slice::from_ref(item))),
        };
        format!("op {} {} {a}", self.t, self.node)
    }
    fn parse(s: &str) -> Option<Op> {
        let f: Vec<&str> = s.split(' ').collect();
        let n = |i: usize| f.get(i).and_then(|v| v.parse::<u64>().ok());
        let act = match *f.get(3)? {
            "send" => Act::Send { dg: n(4)? as u32, buf: n(5)? as u8, cap: n(6)? as u16, items: p_items(f.get(7)?)? },
            "deliver" => Act::Deliver { dg: n(4)? as u32, rd: p_rd(f.get(5)?)?, muts: p_muts(f.get(6)?)? },
            "lose" => Act::Lose { dg: n(4)? as u32, why: n(5)? as u8 },
            "forward" => Act::Forward { dg: n(4)? as u32, max: n(5)? as u16, buf: n(6)? as u8 },
            "restart" => Act::Restart,
            "clock" => Act::Clock { step: f.get(4)?.parse().ok()? },
            "stamp" => Act::Stamp { which: n(4)? as u8, kind: n(5)? as usize, ticks: p_list(f.get(6)?)? },
            "append" => Act::Append { items: p_items(f.get(4)?)? },
            "flush" => Act::Flush { sel: n(4)? },
            "crash" => Act::Crash { sel: n(4)?, zeros: n(5)? as u16, rd: p_rd(f.get(6)?)? },
            "records" => Act::Records { dg: n(4)? as u32, items: p_items(f.get(5)?)?, buf: n(6)? as u8 },
            "readrecords" => Act::ReadRecords { dg: n(4)? as u32, rd: p_rd(f.get(5)?)? },
            "task" => Act::Task { ops: p_items(f.get(4)?)?, what: p_list(f.get(5)?)? },
            "switch" => Act::Switch { point: n(4)? as u32, to: n(5)? as u8 },
            "warm" => Act::Warm { item: p_items(f.get(4)?)?.pop()?, what: n(5)? as u8, times: n(6)? as u32 },
            "arrive" => Act::Arrive { n: n(4)? as u32, rd: p_rd(f.get(5)?)? },
            "reset" => Act::Reset,
            "endure" => Act::Endure { item: p_items(f.get(4)?)?.pop()?, what: n(5)? as u8, times: n(6)? as u32 },
            _ => return None,
        };
        Some(Op { t: n(1)?, node: n(2)? as usize, act })
    }
}

impl Plan {
    pub fn text(&self) -> String {
        let mut s = String::new();
        let _ = writeln!(s, "plan {} {:x}", self.prop, self.seed);
        let _ = writeln!(s, "base {}", self.base_ns);
        let _ = writeln!(s, "dict {}", list(&self.dict.all));
        let _ = writeln!(s, "hot {} {}", self.dict.fresh, list(&self.dict.enumerants));
        for t in &self.dict.texts {
            let _ = writeln!(s, "text {}", t.bytes().map(|c| format!("{c:02x}")).collect::<String>());
        }
        for n in &self.nodes {
            let r = ROLES.iter().find(|x| x.0 == n.role).map_or("?", |x| x.1);
            let _ = writeln!(s, "node {r} {}", n.skew);
        }
        for o in &self.ops {
            let _ = writeln!(s, "{}", o.text());
        }
        s.push_str("end\n");
        s
    }
    /// Parses every plan of a replay file
    pub fn parse_all(text: &str) -> Option<Vec<Plan>> {
        let mut out: Vec<Plan> = Vec::new();
        for l in text.lines() {
            let f: Vec<&str> = l.split(' ').collect();
            match f[0] {
                "plan" => out.push(Plan {
                    prop: f.get(1)?.to_string(),
                    seed: u64::from_str_radix(f.get(2)?, 16).ok()?,
                    base_ns: 0,
                    dict: Words::default(),
                    nodes: vec![],
                    ops: vec![],
                }),
                "base" => out.last_mut()?.base_ns = f.get(1)?.parse().ok()?,
                "dict" => out.last_mut()?.dict.all = p_list(f.get(1)?)?,
                "hot" => {
                    let d = &mut out.last_mut()?.dict;
                    d.fresh = f.get(1)?.parse::<usize>().ok()?.min(d.all.len());
                    d.enumerants = p_list(f.get(2)?)?;
                }
                "text" => {
                    let hex = f.get(1)?;
                    let octets: Option<Vec<u8>> = (0..hex.len() / 2).map(|i| u8::from_str_radix(hex.get(2 * i..2 * i + 2)?, 16).ok()).collect();
                    out.last_mut()?.dict.texts.push(String::from_utf8(octets?).ok()?);
                }
                "node" => {
                    let role = ROLES.iter().find(|x| x.1 == f[1])?.0;
                    out.last_mut()?.nodes.push(Node { role, skew: f.get(2)?.parse().ok()? });
                }
                "op" => out.last_mut()?.ops.push(Op::parse(l)?),
                _ => {}
            }
        }
        Some(out)
    }
}
