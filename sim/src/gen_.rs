//! From one seed to one plan: the workload, the network's faults, crashes, clock events and the
//! schedule of a run are all decided here.

use crate::model_gen::{ALL_ENUMS, FIRST_ENUM, KINDS};
use crate::plan::*;
use crate::rng::{Rng, mix};
use crate::tasks::{AT_SHARED, ENDURED};
use crate::world::{MINEFIELD_DATA, prop_number};
use std::sync::OnceLock;

/// Integers met in the sources under test; `fresh` are those the pinned baseline does not have
#[derive(Default, Clone)]
pub struct Dict {
    pub base: Vec<u64>,
    pub fresh: Vec<u64>,
    /// Enumerants newly mentioned: enumeration << 32 | number
    pub enumerants: Vec<u64>,
    /// Texts newly mentioned
    pub texts: Vec<String>,
    /// PDU types (or 1000 + record types) found to keep state between operations: second phase
    pub stateful: Vec<u64>,
}

#[derive(Clone, Copy)]
struct Knobs {
    primary: usize,
    second: usize,
    focus: u32,
    lite: u32,
    big: u32,
    slot: u32,
    bundle: usize,
    loss: u32,
    dup: u32,
    reorder: u32,
    damage: u32,
    partition: bool,
    restart: u32,
    clock: u32,
    reader: u8, // 255: any
    junk: u32,
    bufs: u32,
    stateful: bool,
}

const SEC: u64 = 1_000_000_000;

pub fn run_seed(prop: &str, seed: u64, i: u64) -> u64 {
    mix(mix(seed ^ 0xD15) ^ mix(u64::from(prop_number(prop)) << 40 ^ i))
}

pub fn make_plan(prop: &str, seed: u64, i: u64, dict: &Dict) -> Plan {
    let s = run_seed(prop, seed, i);
    let mut r = Rng::new(s);
    let p = prop_number(prop);
    let mut d: Vec<u64> = vec![];
    if dict.fresh.len() <= 24 {
        // each of them often enough to matter
        d.extend(&dict.fresh);
    } else {
        d.extend((0..24).map(|_| *r.pick(&dict.fresh)));
    }
    let fresh = d.len();
    if !dict.base.is_empty() {
        d.extend((0..12).map(|_| *r.pick(&dict.base)));
    }
    // mostly this century; now and then near 1970, or beyond the dates that 31, 32 or 33 bits of seconds can tell
    let (from, to) = *r.pick(&[
        (978_307_200, 4_102_444_800),
        (978_307_200, 4_102_444_800),
        (978_307_200, 4_102_444_800),
        (1_700_000_000, 1_900_000_000),
        (400_000_000, 978_307_200),
        (2_147_483_648 - 7_200, 2_147_483_648 + 3_600),
        (4_294_967_296 - 7_200, 4_294_967_296 + 3_600),
        (4_102_444_800, 17_000_000_000),
    ]);
    let base_s = match r.below(4) {
        0 => r.range(from, to) / 3600 * 3600,
        1 => r.range(from, to) / 60 * 60,
        _ => r.range(from, to),
    };
    let base_ns = i128::from(base_s) * i128::from(SEC)
        + match r.below(4) {
            0 => 0,
            1 => -i128::from(r.range(1, 5000)),
            2 => i128::from(r.range(0, 999_999_999)),
            _ => 999_999_000,
        };
    let rate = |r: &mut Rng, max: u32| {
        if r.chance(35) { 0 } else { r.below(max as usize) as u32 }
    };
    let mut k = Knobs {
        primary: (i % KINDS.len() as u64) as usize,
        second: r.below(KINDS.len()),
        focus: *r.pick(&[0, 50, 70, 95]),
        lite: *r.pick(&[0, 0, 10, 60]),
        big: *r.pick(&[0, 0, 0, 3, 15]),
        slot: *r.pick(&[0, 30, 80]),
        bundle: *r.pick(&[1, 1, 2, 4, 8]),
        loss: rate(&mut r, 40),
        dup: rate(&mut r, 40),
        reorder: rate(&mut r, 80),
        damage: rate(&mut r, 40),
        partition: r.chance(25),
        restart: rate(&mut r, 12),
        clock: rate(&mut r, 10),
        reader: if r.chance(40) { r.below(8) as u8 } else { 255 },
        junk: *r.pick(&[0, 30, 100]),
        bufs: *r.pick(&[0, 50, 100]),
        stateful: !dict.stateful.is_empty(),
    };
    let state: Vec<usize> = dict.stateful.iter().map(|x| *x as usize).collect();
    let kinds: Vec<usize> = state.iter().copied().filter(|x| *x < 1000).collect();
    if !kinds.is_empty() {
        k.primary = *r.pick(&kinds);
        k.second = *r.pick(&kinds);
        k.focus = *r.pick(&[70, 95, 100]);
    }
    let record = state.iter().copied().filter(|x| *x >= 1000).map(|x| x as usize - 1000).collect::<Vec<_>>();
    let mut plan = Plan { prop: prop.to_string(), seed: s, base_ns, dict: Words { all: d, fresh, enumerants: dict.enumerants.iter().copied().take(60).collect(), texts: dict.texts.iter().take(8).cloned().collect() }, nodes: vec![], ops: vec![] };
    match p {
        1 => traffic(&mut plan, &mut r, &k, p, &[Role::Lib, Role::Lib], &[Role::Recv, Role::Recv]),
        2 => {
            k.damage /= 4;
            let who = r.pick(&[[Role::Lib, Role::Ref], [Role::Ref, Role::Ref]]).to_vec();
            traffic(&mut plan, &mut r, &k, p, &who, &[Role::Recv]);
        }
        3 => {
            k.bundle = *r.pick(&[1, 2, 6, 12, 30, 60]);
            k.lite = *r.pick(&[0, 60, 100]);
            traffic(&mut plan, &mut r, &k, p, &[Role::Lib, Role::Ref], &[Role::Recv, Role::Recv]);
        }
        4 => {
            k.damage = *r.pick(&[0, 30, 60]);
            k.reader = *r.pick(&[3, 3, 3, 4, 5, 6, 1, 255]);
            traffic(&mut plan, &mut r, &k, p, &[Role::Lib, Role::Ref], &[Role::Recv]);
        }
        5 | 7 => {
            k.damage = *r.pick(&[50, 75, 90]);
            if p == 7 && r.chance(70) {
                k.reader = 3;
            }
            traffic(&mut plan, &mut r, &k, p, &[Role::Lib, Role::Ref], &[Role::Recv, Role::Recv]);
        }
        6 => {
            k.damage = *r.pick(&[70, 100]);
            traffic(&mut plan, &mut r, &k, p, &[Role::Lib, Role::Ref], &[Role::Recv]);
        }
        8 => {
            k.damage /= 4;
            traffic(&mut plan, &mut r, &k, p, &[Role::Lib, Role::Ref], &[Role::Recv]);
        }
        9 | 17 => {
            k.big = *r.pick(&[20, 50, 80]);
            k.bundle = *r.pick(&[1, 2, 4, 6]);
            k.bufs = 100;
            k.slot = *r.pick(&[0, 50, 90]);
            traffic(&mut plan, &mut r, &k, p, &[Role::Lib], &[]);
        }
        10 => {
            if r.chance(if state.is_empty() { 45 } else { 80 }) {
                tasks(&mut plan, &mut r, &k, &state);
            } else {
                history(&mut plan, &mut r, &k);
            }
        }
        11 => {
            if r.chance(50) {
                stamps(&mut plan, &mut r);
            } else {
                k.clock = 30;
                traffic(&mut plan, &mut r, &k, p, &[Role::Lib, Role::Lib], &[Role::Relay, Role::Recv]);
            }
        }
        12 => {
            let who = r.pick(&[[Role::Lib, Role::Ref], [Role::Ref, Role::Ref], [Role::Lib, Role::Lib]]).to_vec();
            traffic(&mut plan, &mut r, &k, p, &who, &[Role::Relay, Role::Relay, Role::Recv]);
        }
        13 => logs(&mut plan, &mut r, &k),
        19 => streams(&mut plan, &mut r, &k),
        18 => lives(&mut plan, &mut r, k.primary),
        14 if r.chance(12) => {
            let e = enumeration(&mut r);
            records(&mut plan, &mut r, e, true);
        }
        14 => {
            k.damage = 100;
            traffic(&mut plan, &mut r, &k, p, &[Role::Ref, Role::Lib], &[Role::Recv]);
        }
        _ => {
            let primary = if record.is_empty() { (i % FIRST_ENUM as u64) as usize } else { *r.pick(&record) };
            records(&mut plan, &mut r, primary, false);
        }
    }
    if p != 18 && plan.nodes.iter().all(|n| !matches!(n.role, Role::Threads | Role::Nested)) && r.chance(if k.stateful { 6 } else { 1 }) {
        warm_up(&mut plan, &mut r, &k, &record, p);
    }
    plan
}

/// Nodes that write PDUs to connections; the octets reach the other end in pieces, at any pace
fn streams(plan: &mut Plan, r: &mut Rng, k: &Knobs) {
    plan.nodes = vec![Node { role: Role::Lib, skew: 0 }, Node { role: Role::Ref, skew: r.range(0, 1 << 50) as i64 }, Node { role: Role::Lib, skew: 0 }];
    let k = Knobs { big: *r.pick(&[0, 0, 3, 20]), reader: if r.chance(50) { 0 } else { k.reader }, ..*k };
    let mut t = 0;
    let mut dg = 0;
    // a receiver that keeps to one way of decoding, and one that does not
    let api = r.below(6) as u8;
    let rd = |r: &mut Rng| {
        let rd = reading(r, &k, 19);
        Rd { junk: r.below(4) as u8, njunk: 0, api: if api < 3 { api } else { rd.api }, ..rd }
    };
    for _ in 0..3 + r.below(8) {
        t += later(r);
        let node = r.below(3);
        let mut items: Vec<Item> = (0..1 + r.below(k.bundle.min(4))).map(|_| item(r, &k, 19)).collect();
        if node == 1 {
            for x in &mut items {
                x.flags |= if r.chance(20) { EXTENDED } else { 0 } | if r.chance(20) { PADS } else { 0 };
            }
        }
        plan.ops.push(Op { t, node, act: Act::Send { dg, buf: r.below(6) as u8, cap: r.below(3000) as u16, items } });
        dg += 1;
        if r.chance(8) {
            plan.ops.push(Op { t, node: r.below(3), act: Act::Clock { step: r.range(0, 20_000 * SEC) as i64 - 10_000 * SEC as i64 } });
        }
        let most = *r.pick(&[1, 3, 12, 100, 3000]);
        let tries = *r.pick(&[4, 10, 25, 25, 90]);
        for _ in 0..r.below(tries) {
            t += r.range(0, 40_000_000);
            let n = if r.chance(40) { AT_END + r.below(32) as u32 } else { r.below(most + 1) as u32 };
            plan.ops.push(Op { t, node: if r.chance(80) { node } else { r.below(3) }, act: Act::Arrive { n, rd: rd(r) } });
        }
        if r.chance(5) {
            plan.ops.push(Op { t, node: r.below(3), act: Act::Reset });
        }
        if r.chance(k.restart / 2) {
            plan.ops.push(Op { t, node: r.below(3), act: Act::Restart });
        }
    }
    for node in 0..3 {
        plan.ops.push(Op { t: t + 1, node, act: Act::Arrive { n: AT_END - 1, rd: rd(r) } });
    }
}

/// A process that goes on for long; what varies from one PDU to the next is everything, or little
fn lives(plan: &mut Plan, r: &mut Rng, primary: usize) {
    plan.nodes = vec![Node { role: Role::Lib, skew: 0 }];
    for t in 0..1 + r.below(2) as u64 {
        let brief = r.chance(15);
        let times = if brief { 400 } else { *r.pick(&[2500, 2500, 4000, 8000]) };
        let item = Item {
            kind: primary,
            seed: r.next(),
            lite: 1,
            slot: u8::from(r.chance(40)) | if brief { 2 } else { 0 },
            flags: if r.chance(20) { *r.pick(&[UNDECODABLE, MISCOUNT, NEWER, RAW_TEXT]) } else { 0 },
            target: 0,
        };
        let what = if r.chance(50) { 0 } else { 1 + r.below(ENDURED) as u8 };
        plan.ops.push(Op { t, node: 0, act: Act::Endure { item, what, times } });
    }
}

/// Somewhere in the run, an operation that is repeated very often
fn warm_up(plan: &mut Plan, r: &mut Rng, k: &Knobs, record: &[usize], p: u8) {
    let at = r.below(plan.ops.len().max(1));
    let t = plan.ops.get(at).map_or(0, |o| o.t);
    let what = *r.pick(match p {
        15 => &[4, 4, 4, 4, 4, 1][..],
        9 | 17 => &[0, 3, 3, 5, 5, 4][..],
        5 | 6 | 7 => &[1, 2, 2, 2, 4][..],
        _ => &[0, 1, 1, 2, 2, 3, 4, 5][..],
    });
    let kind = match what {
        4 if !record.is_empty() => *r.pick(record),
        4 => r.below(FIRST_ENUM),
        _ if r.chance(60) => k.primary,
        _ => r.below(KINDS.len()),
    };
    let times = match r.below(100) {
        0..=69 => r.range(200, 1500),
        70..=94 => r.range(1500, 9000),
        _ => r.range(65_536, 70_000),
    } as u32;
    let item = Item { kind, seed: r.next(), lite: 1, slot: 0, flags: 0, target: 0 };
    plan.ops.insert(at, Op { t, node: 0, act: Act::Warm { item, what, times } });
}

fn item(r: &mut Rng, k: &Knobs, p: u8) -> Item {
    let kind = if r.chance(k.focus) { if r.chance(70) { k.primary } else { k.second } } else { r.below(KINDS.len()) };
    let mut flags = 0;
    if r.chance(20) {
        flags |= DEFAULT_CTOR;
    }
    if matches!(p, 1 | 2 | 12) && KINDS[kind].type_value == MINEFIELD_DATA && r.chance(50) {
        flags |= UNDECODABLE;
    }
    if p == 11 && r.chance(60) {
        flags |= FRESH_TS;
    }
    if matches!(p, 9 | 10) && r.chance(30) {
        flags |= TWICE;
    }
    if matches!(p, 2 | 3 | 9 | 10) && r.chance(6) || p == 17 && r.chance(35) {
        flags |= MISCOUNT;
    }
    let slot = if r.chance(k.slot) { 1 + r.below(2) as u8 } else { 0 };
    if slot > 0 && r.chance(35) {
        flags |= TWEAK;
    }
    let target = if matches!(p, 9 | 17 | 19) && r.chance(k.big) {
        (match r.below(8) {
            0..=2 => r.range(8150, 8240),
            3 => r.range(8192, 9000),
            4 => r.range(9000, 40_000),
            5 => r.range(65_400, 65_700),
            6 => r.range(65_536, 75_000),
            _ => r.range(2000, 8192),
        }) as u32
    } else if r.chance(k.big) {
        r.range(500, 8192) as u32
    } else {
        0
    };
    Item { kind, seed: r.next(), lite: if r.chance(k.lite) { 1 + u8::from(r.chance(10)) } else { 0 }, slot, flags, target }
}

fn reading(r: &mut Rng, k: &Knobs, p: u8) -> Rd {
    let junk = if r.chance(k.junk) { 1 + r.below(4) as u8 } else { 0 };
    Rd {
        reader: if k.reader == 255 { r.below(8) as u8 } else { k.reader },
        seed: r.next() >> 16,
        api: if p == 5 { r.below(6) as u8 } else { r.below(3) as u8 },
        junk,
        njunk: match junk {
            0 => 0,
            // a stream that goes on for more than 64 KiB
            _ if r.chance(2) => r.range(64_500, 65_535) as u16,
            _ => r.range(1, 400) as u16,
        },
    }
}

fn big_value(r: &mut Rng) -> u64 {
    match r.below(10) {
        0 => u64::MAX,
        1 => 1 << r.below(64),
        2 => (1u64 << r.below(63)) - 1,
        3 => r.below(300) as u64,
        4 => 0x7fff_ffff,
        5 => 0xffff,
        6 => 0xff,
        7 => 0,
        8 => 0xffff_fff8,
        _ => r.next(),
    }
}

fn damage(r: &mut Rng, p: u8, sent: u32) -> Vec<Mut> {
    if p == 6 {
        return vec![if r.chance(70) { Mut::Cut(r.below(5) as u8, r.next()) } else { Mut::Short(r.next(), r.next()) }];
    }
    if p == 14 {
        let n = *r.pick(&[1, 1, 1, 2, 3, 8]);
        return (0..n).map(|_| Mut::BadEnum(r.next(), r.next())).collect();
    }
    let n = *r.pick(&[1, 1, 1, 2, 3, 6]);
    (0..n)
        .map(|_| match r.below(if p == 7 { 8 } else { 14 }) {
            0..=2 => Mut::Count(r.next(), big_value(r)),
            3 => Mut::Field(r.next(), big_value(r)),
            4 => Mut::DeclLen(
                r.next(),
                match r.below(4) {
                    0 => r.below(24) as u16,
                    1 => r.below(512) as u16,
                    2 => u16::MAX - r.below(4) as u16,
                    _ => r.next() as u16,
                },
            ),
            5 => Mut::Garbage(r.below(600) as u16, r.next()),
            6 => Mut::Cut(r.below(5) as u8, r.next()),
            7 => Mut::Extend(r.below(200) as u16, r.next()),
            8 => Mut::Flip(r.next()),
            9 => Mut::Set(r.next(), *r.pick(&[0, 1, 0x7f, 0x80, 0xff, 0xfe])),
            10 => Mut::Type(r.next(), if r.chance(70) { KINDS[r.below(KINDS.len())].type_value } else { r.next() as u8 }),
            11 => Mut::Short(r.next(), r.next()),
            12 => Mut::Splice(r.below(sent as usize + 1) as u32, r.next(), r.below(300) as u16, r.next()),
            _ => Mut::ZeroTail(r.next()),
        })
        .collect()
}

fn later(r: &mut Rng) -> u64 {
    match r.below(20) {
        0 => r.range(0, 4_000) * SEC,
        1 => r.range(0, 90) * SEC,
        2..=5 => 0,
        _ => r.range(0, 50_000_000),
    }
}

/// Nodes exchanging datagrams over a network that loses, duplicates, delays, reorders, partitions
/// and damages them
fn traffic(plan: &mut Plan, r: &mut Rng, k: &Knobs, p: u8, senders: &[Role], receivers: &[Role]) {
    for role in senders.iter().chain(receivers) {
        let skew = match r.below(4) {
            0 => 0,
            1 => r.range(0, 2_000_000_000) as i64 - 1_000_000_000,
            _ => r.range(0, 1 << 60) as i64 - (1 << 59),
        };
        // keep simulated clocks within the years a real one shows
        let skew = if plan.base_ns + i128::from(skew) < i128::from(SEC) * 100_000_000 { 0 } else { skew };
        plan.nodes.push(Node { role: *role, skew });
    }
    let sends = match r.below(10) {
        0 => 40,
        1..=3 => 16,
        _ => 4 + r.below(8),
    };
    let mut ev: Vec<(u64, u64, Op)> = vec![];
    let mut seq = 0;
    let mut push = |t: u64, node: usize, act: Act, ev: &mut Vec<(u64, u64, Op)>| {
        seq += 1;
        ev.push((t, seq, Op { t, node, act }));
    };
    let mut t = 0;
    let mut dg = 0u32;
    let mut cut: Option<(u64, usize)> = None; // partition: until when, which receiver
    for _ in 0..sends {
        t += later(r);
        let from = r.below(senders.len());
        if r.chance(k.restart) {
            let n = r.below(plan.nodes.len());
            push(t, n, Act::Restart, &mut ev);
        }
        if r.chance(k.clock) {
            let n = r.below(plan.nodes.len());
            let step = r.range(0, 20_000 * SEC) as i64 - 10_000 * SEC as i64;
            push(t, n, Act::Clock { step }, &mut ev);
        }
        if k.partition && r.chance(20) {
            cut = Some((t + r.range(0, 200_000_000), r.below(receivers.len().max(1))));
        }
        let n = 1 + r.below(k.bundle);
        let mut items: Vec<Item> = (0..n).map(|_| item(r, k, p)).collect();
        if senders[from] == Role::Ref && matches!(p, 3 | 5) && r.chance(30) {
            for x in &mut items {
                if r.chance(40) {
                    x.flags |= EXTENDED;
                }
            }
        }
        if senders[from] == Role::Ref && matches!(p, 2 | 3 | 5 | 12 | 14) && r.chance(40) {
            for x in &mut items {
                x.flags |= PADS;
            }
        }
        if senders[from] == Role::Ref && p == 12 && r.chance(20) {
            for x in &mut items {
                x.flags |= RAW_TEXT;
            }
        }
        if p == 10 && r.chance(60) && n > 1 {
            items[1] = Item { slot: items[1].slot, ..items[0].clone() };
        }
        let buf = if r.chance(k.bufs) { if r.chance(3) { 6 } else { 1 + r.below(5) as u8 } } else { 0 };
        let this = dg;
        push(t, from, Act::Send { dg: this, buf, cap: r.below(9000) as u16, items }, &mut ev);
        dg += 1;
        for (ri, role) in receivers.iter().enumerate() {
            let node = senders.len() + ri;
            // with relays in the world, traffic to the end goes through them
            if receivers[0] == Role::Relay && *role == Role::Recv && r.chance(70) {
                continue;
            }
            if let Some((until, who)) = cut {
                if t < until && who == ri {
                    push(t, node, Act::Lose { dg: this, why: 1 }, &mut ev);
                    continue;
                }
            }
            if r.chance(k.loss) {
                push(t, node, Act::Lose { dg: this, why: 0 }, &mut ev);
                continue;
            }
            let copies = if r.chance(k.dup) { 2 + r.below(2) } else { 1 };
            for _ in 0..copies {
                let delay = if r.chance(k.reorder) { r.range(0, 300_000_000) } else { r.range(0, 1000) };
                let muts = if r.chance(k.damage) { damage(r, p, dg) } else { vec![] };
                push(t + delay, node, Act::Deliver { dg: this, rd: reading(r, k, p), muts }, &mut ev);
            }
        }
        // relays pass on what they have
        for (ri, role) in receivers.iter().enumerate() {
            if *role == Role::Relay && r.chance(70) {
                let at = t + r.range(0, 400_000_000);
                let fwd = dg;
                dg += 1;
                push(at, senders.len() + ri, Act::Forward { dg: fwd, max: 1 + r.below(20) as u16, buf: if r.chance(50) { 2 } else { 0 } }, &mut ev);
                let next = (ri + 1 + r.below(receivers.len() - 1)) % receivers.len();
                push(at + r.range(0, 1_000_000), senders.len() + next, Act::Deliver { dg: fwd, rd: reading(r, k, p), muts: vec![] }, &mut ev);
            }
        }
    }
    ev.sort_by_key(|e| (e.0, e.1));
    plan.ops = ev.into_iter().map(|e| e.2).collect();
}

/// C10 on one node: the same operations again and again, with everything else in between
fn history(plan: &mut Plan, r: &mut Rng, k: &Knobs) {
    plan.nodes =
        vec![Node { role: Role::Lib, skew: 0 }, Node { role: Role::Ref, skew: 0 }, Node { role: Role::Recv, skew: r.range(0, 1 << 50) as i64 }];
    let pool: Vec<Item> = (0..3 + r.below(5)).map(|_| item(r, k, 10)).collect();
    let n = if r.chance(3) { 1200 } else { 20 + r.below(60) };
    let mut t = 0;
    let mut dg = 0;
    let mut known: Vec<(u32, Rd, Vec<Mut>)> = vec![];
    for _ in 0..n {
        t += r.range(0, 100_000_000);
        let pick = |r: &mut Rng| {
            let mut it = if r.chance(70) { r.pick(&pool).clone() } else { item(r, k, 10) };
            it.slot = if r.chance(50) { 1 + r.below(2) as u8 } else { 0 };
            it.flags &= !TWEAK;
            if it.slot > 0 && r.chance(30) {
                it.flags |= TWEAK;
            }
            if r.chance(4) {
                it.target = r.range(8193, 70_000) as u32;
            }
            it
        };
        let act = match r.below(10) {
            0..=3 => {
                let items = (0..1 + r.below(3)).map(|_| pick(r)).collect();
                dg += 1;
                (0, Act::Send { dg, buf: r.below(6) as u8, cap: r.below(4000) as u16, items })
            }
            4 => {
                let items = vec![pick(r)];
                dg += 1;
                (1, Act::Send { dg, buf: 0, cap: 0, items })
            }
            5..=6 if dg > 0 => {
                let muts = if r.chance(50) { damage(r, 5, dg) } else { vec![] };
                let d = 1 + r.below(dg as usize) as u32;
                let rd = reading(r, k, 10);
                known.push((d, rd.clone(), muts.clone()));
                (2, Act::Deliver { dg: d, rd, muts })
            }
            7..=8 if !known.is_empty() => {
                let (d, rd, muts) = r.pick(&known).clone();
                (2, Act::Deliver { dg: d, rd: Rd { junk: 0, njunk: 0, ..rd }, muts })
            }
            _ => (2, if r.chance(20) { Act::Restart } else { Act::Clock { step: r.range(0, 4_000_000_000) as i64 - 2_000_000_000 } }),
        };
        plan.ops.push(Op { t, node: act.0, act: act.1 });
    }
}

fn tasks(plan: &mut Plan, r: &mut Rng, k: &Knobs, state: &[usize]) {
    let nested = r.chance(35);
    plan.nodes = vec![Node { role: if nested { Role::Nested } else { Role::Threads }, skew: 0 }];
    // now and then many, each suspended in the middle of its operation
    let crowd = r.chance(6);
    let n = if crowd { 5 + r.below(28) } else { 2 + r.below(3) };
    let same_kind = r.chance(60);
    let same_item = r.chance(if state.is_empty() { 25 } else { 60 });
    let first = item(r, k, 10);
    // only one sort of operation, on PDUs or on records
    let sort: Option<u8> = if r.chance(if state.is_empty() { 15 } else { 60 }) { Some(*r.pick(&[0, 1, 1, 3, 4])) } else { None };
    let recs: Vec<usize> = state.iter().filter(|x| **x >= 1000).map(|x| x - 1000).collect();
    for t in 0..n {
        let len = if crowd { 1 } else { 1 + r.below(5) };
        let mut ops = vec![];
        let mut what = vec![];
        for _ in 0..len {
            let mut it = item(r, k, 10);
            it.flags = 0;
            it.slot = 0;
            if same_kind {
                it.kind = first.kind;
            }
            if same_item && r.chance(60) {
                it = Item { flags: 0, slot: 0, ..first.clone() };
            }
            let any = if nested { *r.pick(&[0, 1, 1, 1, 2, 2, 4, 4, 3, 5]) } else { *r.pick(&[0, 0, 0, 1, 1, 1, 2, 3, 3, 4, 5]) };
            let w = sort.unwrap_or(any);
            if w == 4 && !recs.is_empty() {
                it.kind = *r.pick(&recs);
            }
            ops.push(it);
            what.push(w);
        }
        plan.ops.push(Op { t: t as u64, node: 0, act: Act::Task { ops, what } });
    }
    let mut at = 0u64;
    if crowd {
        for i in 0..3 * n {
            at += r.range(1, if nested { 10 } else { 60 });
            plan.ops.push(Op { t: 50, node: 0, act: Act::Switch { point: at as u32, to: ((i + 1) % n) as u8 } });
        }
    }
    let pace = if nested { *r.pick(&[2u64, 10, 40]) } else { *r.pick(&[3u64, 20, 100, 600, 3000]) };
    for i in 0..*r.pick(&[1, 2, 3, 8, 30, 80]) {
        at += 1 + r.range(0, pace * 2);
        plan.ops.push(Op { t: 100 + i as u64, node: 0, act: Act::Switch { point: at as u32, to: r.below(n) as u8 } });
    }
    // and at accesses to memory that tasks share, should there be any
    if !nested && r.chance(70) {
        let pace = *r.pick(&[1u64, 2, 4, 12]);
        let mut at = 0;
        for i in 0..*r.pick(&[2, 8, 40]) {
            at += r.range(1, pace * 2 - 1);
            let point = AT_SHARED | at as u32;
            plan.ops.push(Op { t: 1000 + i as u64, node: 0, act: Act::Switch { point, to: r.below(n) as u8 } });
        }
    }
}

fn stamps(plan: &mut Plan, r: &mut Rng) {
    plan.nodes =
        vec![Node { role: Role::Lib, skew: r.range(0, 1 << 60) as i64 }, Node { role: Role::Lib, skew: r.range(0, 3_600_000_000_000) as i64 }];
    let mut t = 0;
    for _ in 0..60 + r.below(100) {
        t += match r.below(6) {
            0 => r.range(0, 7_200) * SEC,
            1 => r.range(0, 60) * SEC,
            2 => r.range(0, 3),
            _ => r.range(0, 2_000_000_000),
        };
        let node = r.below(2);
        let act = if r.chance(12) {
            // a step to (nearly) a boundary of second, minute or hour
            let unit = *r.pick(&[SEC, 60 * SEC, 3600 * SEC]) as i128;
            let now = plan.base_ns + i128::from(t) + i128::from(plan.nodes[node].skew);
            let to = (now / unit + 1) * unit - i128::from(r.range(0, 3000));
            Act::Clock { step: (to - now) as i64 }
        } else {
            Act::Stamp { which: r.below(8) as u8, kind: r.below(KINDS.len()), ticks: r.ticks() }
        };
        plan.ops.push(Op { t, node, act });
    }
}

fn logs(plan: &mut Plan, r: &mut Rng, k: &Knobs) {
    plan.nodes = vec![Node { role: Role::Log, skew: 0 }, Node { role: Role::Log, skew: r.range(0, 1 << 50) as i64 }];
    let mut t = 0;
    for _ in 0..10 + r.below(40) {
        t += r.range(0, 2_000_000_000);
        let node = r.below(2);
        let act = match r.below(10) {
            0..=4 => Act::Append { items: (0..1 + r.below(k.bundle)).map(|_| Item { flags: 0, ..item(r, k, 13) }).collect() },
            5..=6 => Act::Flush { sel: r.next() },
            _ => Act::Crash {
                sel: match r.below(4) {
                    0 => 0,
                    1 => r.below(24) as u64,
                    _ => r.next(),
                },
                zeros: if r.chance(40) { r.range(1, 600) as u16 } else { 0 },
                rd: Rd { junk: 0, njunk: 0, ..reading(r, k, 13) },
            },
        };
        plan.ops.push(Op { t, node, act });
    }
    for node in 0..2 {
        plan.ops.push(Op { t: t + 1, node, act: Act::Crash { sel: r.next(), zeros: 0, rd: Rd { junk: 0, njunk: 0, ..reading(r, k, 13) } } });
    }
}

/// One of the enumerations, those with many enumerants more often
fn enumeration(r: &mut Rng) -> usize {
    static SIZES: OnceLock<Vec<usize>> = OnceLock::new();
    let ends = SIZES.get_or_init(|| {
        let mut end = 0;
        ALL_ENUMS.iter().map(|e| { end += 4 + e.values.len(); end }).collect()
    });
    let at = r.below(ends[ends.len() - 1]);
    FIRST_ENUM + ends.partition_point(|e| *e <= at)
}

fn records(plan: &mut Plan, r: &mut Rng, primary: usize, newer: bool) {
    plan.nodes = vec![Node { role: Role::Lib, skew: 0 }, Node { role: Role::Recv, skew: 0 }];
    for dg in 0..4 + r.below(8) as u32 {
        let items = (0..1 + r.below(if newer { 40 } else { 20 }))
            .map(|_| Item {
                kind: match r.below(100) {
                    _ if newer => enumeration(r),
                    0..=44 => primary,
                    45..=69 => r.below(FIRST_ENUM),
                    _ => enumeration(r),
                },
                seed: r.next(),
                lite: u8::from(r.chance(20)),
                slot: u8::from(r.chance(50)),
                flags: if newer && r.chance(75) { NEWER } else { 0 },
                target: if r.chance(5) { r.range(1000, 9000) as u32 } else { 0 },
            })
            .collect();
        let t = u64::from(dg) * 1_000_000;
        plan.ops.push(Op { t, node: 0, act: Act::Records { dg, items, buf: if r.chance(40) { 2 } else { 0 } } });
        for _ in 0..1 + r.below(3) {
            let rd = Rd { reader: r.below(8) as u8, seed: r.next() >> 16, api: r.below(2) as u8, junk: r.below(3) as u8, njunk: r.below(60) as u16 };
            plan.ops.push(Op { t: t + 10, node: 1, act: Act::ReadRecords { dg, rd } });
        }
    }
}
