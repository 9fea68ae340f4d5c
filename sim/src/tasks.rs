//! Tasks encoding and decoding at the same time. A task can be suspended at every control-flow edge
//! of the library, every buffer access, allocation, clock reading and lock wait; the plan says
//! where, and who runs next. Either on threads of their own, of which one runs at a time, or on one
//! thread, where the suspended task waits for the others' operation.

use crate::model::*;
use crate::model_gen::{KINDS, RECORDS};
use crate::plan::*;
use crate::rng::{Rng, mix};
use crate::world::*;
use bytes::{Buf, BytesMut};
use open_dis_rust::common::{GenericHeader, PduHeader};
use seams::simbuf::SimBuf;
use seams::{ClockState, MemStat, Point};
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::sync::{Arc, Condvar, Mutex};

fn clock() -> ClockState {
    ClockState::new(1_700_000_000_000_000_000, 1_000_000_000_000, vec![])
}

fn damaged(bytes: &mut Vec<u8>, seed: u64) {
    let mut r = Rng::new(seed ^ 0xDA);
    match r.below(4) {
        0 => bytes.truncate(r.below(bytes.len())),
        1 => {
            for _ in 0..1 + r.below(4) {
                let at = r.below(bytes.len());
                bytes[at] = r.next() as u8;
            }
        }
        2 => {
            let at = r.below(bytes.len());
            bytes[at..].fill(0xff);
        }
        _ => bytes[9] ^= 1 << r.below(8),
    }
}

/// One operation; what the task gets from it, as a number
fn perform(what: u8, it: &Item, dict: &Words, own: &mut BTreeMap<usize, Box<dyn ModelPdu>>) -> u64 {
    let outcome = |r: Result<Option<Vec<u8>>, String>| match r {
        Ok(Some(b)) => mix(digest(&b)),
        Ok(None) => 1,
        Err(_) => 2,
    };
    let kind = it.kind % KINDS.len();
    let k = &KINDS[kind];
    let cap = (it.seed >> 8) as usize % 200;
    match what % 6 {
        0 | 3 => {
            // encode, in an object of its own or one this task used before
            let mut p = match own.remove(&kind) {
                Some(p) if what % 6 == 3 && it.lite != 2 => p,
                _ => match call(clock(), k.new).0 {
                    Ok(p) => p,
                    Err(_) => return 3,
                },
            };
            give_content(p.as_mut(), it, dict);
            let (r, _, _) = call(clock(), || {
                let mut b = BytesMut::with_capacity(cap);
                p.pdu().serialize(&mut b).ok().map(|()| b)
            });
            let r = outcome(r.map(|b| b.map(|b| b.to_vec())));
            own.insert(kind, p);
            r
        }
        1 | 2 => {
            // decode what an independent peer sent, intact or damaged
            let Ok(mut p) = call(clock(), k.new).0 else {
                return 3;
            };
            give_content(p.as_mut(), it, dict);
            let mut bytes = wire(p.as_ref()).out;
            if what % 6 == 2 {
                damaged(&mut bytes, it.seed);
            }
            let c = cuts(it.seed, bytes.len());
            let mut b = SimBuf::new(&bytes, &c, op_limit(bytes.len()));
            let d = decode_one(0, Some(kind), &bytes, &mut b, clock());
            match d.got {
                Got::Pdu(p) => mix(digest(&canon(p.as_ref())) ^ d.consumed as u64),
                Got::Panic(_) => 2,
                _ => 1,
            }
        }
        4 => {
            // a record on its own: encode and decode
            let k = &RECORDS[it.kind % RECORDS.len()];
            let mut g = generator(&Item { target: 0, ..it.clone() }, dict);
            g.budget = 600;
            let rec = (k.new)(&mut g);
            let (r, _, _) = call(clock(), || {
                let mut b = BytesMut::with_capacity(cap);
                (k.ser)(rec.as_ref(), &mut b);
                b
            });
            let Ok(bytes) = r else { return 2 };
            let c = cuts(it.seed, bytes.len());
            let mut b = SimBuf::new(&bytes, &c, op_limit(bytes.len()));
            let (r, _, _) = call(clock(), || {
                let b: &mut &mut dyn Buf = &mut (&mut b as &mut dyn Buf);
                (k.de)(b, bytes.len())
            });
            match r {
                Ok(rec) => {
                    let mut e = Enc::canon();
                    rec.enc(&mut e);
                    mix(digest(&e.out) ^ digest(&bytes))
                }
                Err(_) => 2,
            }
        }
        _ => {
            // encode something that is refused
            let Ok(mut p) = call(clock(), k.new).0 else {
                return 3;
            };
            give_content(p.as_mut(), &Item { target: 9000, ..it.clone() }, dict);
            let (r, _, _) = call(clock(), || {
                let mut b = BytesMut::with_capacity(cap);
                let ok = p.pdu().serialize(&mut b).is_ok();
                ok.then_some(b)
            });
            outcome(r.map(|b| b.map(|b| b.to_vec())))
        }
    }
}

/// Steps of the library after which an operation has been repeated often enough
const WARM_ENOUGH: u64 = 200_000_000;

/// The same operation `times` over; says which one had another outcome than the first
pub fn warm(what: u8, it: &Item, dict: &Words, times: u32) -> Option<String> {
    let kind = it.kind % KINDS.len();
    let k = &KINDS[kind];
    let Ok(mut p) = call(clock(), k.new).0 else { return None };
    let content = if what % 6 == 5 { Item { target: 9000, ..it.clone() } } else { it.clone() };
    give_content(p.as_mut(), &content, dict);
    let mut bytes = wire(p.as_ref()).out;
    if what % 6 == 2 {
        damaged(&mut bytes, it.seed);
    }
    let rk = &RECORDS[it.kind % RECORDS.len()];
    let mut g = generator(&Item { target: 0, ..it.clone() }, dict);
    g.budget = 300;
    let rec = (rk.new)(&mut g);
    let mut first = None;
    let mut spent = 0;
    for i in 0..times {
        let mut cost = MemStat::default();
        let outcome = match what % 6 {
            0 | 3 | 5 => {
                let (r, m, _) = call(clock(), || {
                    let mut fresh = if what % 6 == 0 { Some((k.new)()) } else { None };
                    let p = fresh.as_mut().unwrap_or(&mut p);
                    if what % 6 == 0 {
                        // the timestamp is all a new object has of its own
                        p.pdu().header_mut().timestamp = 0;
                    }
                    let mut b = BytesMut::new();
                    p.pdu().serialize(&mut b).ok().map(|()| b)
                });
                cost = m;
                r.map_or(2, |b| b.map_or(1, |b| digest(&b)))
            }
            1 | 2 => {
                let (r, m, _) = call(clock(), || {
                    let mut b = &bytes[..];
                    let r = {
                        let b: &mut &mut dyn Buf = &mut (&mut b as &mut dyn Buf);
                        (k.de)(b).ok()
                    };
                    r.map(|p| (p, b.len()))
                });
                cost = m;
                r.map_or(2, |r| r.map_or(1, |(p, left)| mix(digest(&canon(p.as_ref())) ^ left as u64)))
            }
            _ => {
                let (r, m, _) = call(clock(), || {
                    let mut b = BytesMut::new();
                    (rk.ser)(rec.as_ref(), &mut b);
                    let n = b.len();
                    let mut b = &b[..];
                    let b: &mut &mut dyn Buf = &mut (&mut b as &mut dyn Buf);
                    ((rk.de)(b, n), b.remaining())
                });
                cost = m;
                r.map_or(2, |(rec, left)| {
                    let mut e = Enc::canon();
                    rec.enc(&mut e);
                    mix(digest(&e.out) ^ left as u64)
                })
            }
        };
        let want = *first.get_or_insert(outcome);
        if outcome != want {
            let i_what = usize::from(what % 6);
            let did = ["serializing a new", "decoding", "decoding damaged octets of", "serializing", "the record", "serializing an oversize"][i_what];
            let name = if i_what == 4 { rk.name } else { k.name };
            return Some(format!("{did} {name}: time {} had another outcome than the first", i + 1));
        }
        // some do in one go what others do in a thousand
        spent += 500 + cost.edges + cost.moved / 8;
        if spent > WARM_ENOUGH {
            break;
        }
    }
    None
}

/// What a process may go on doing for long, besides all of it
pub const ENDURED: usize = 7;

/// One round of it, all dropped again at the end; what came of it, as a number
fn live_on(what: u8, it: &Item, dict: &Words, round: u64) -> u64 {
    let mut r = Rng::new(mix(it.seed ^ round.wrapping_mul(0x9E37_79B9)));
    let it = &Item { seed: r.next(), ..it.clone() };
    let does = |n: u8| what == 0 || what == n;
    let kind = if it.slot & 1 != 0 { r.below(KINDS.len()) } else { it.kind % KINDS.len() };
    let k = &KINDS[kind];
    let mut got = 0;
    let mut quietly = |f: &mut dyn FnMut() -> u64| got = mix(got ^ catch_unwind(AssertUnwindSafe(f)).unwrap_or(3));
    let decode = |kind: usize, mut b: &[u8]| {
        let ok = {
            let b: &mut &mut dyn Buf = &mut (&mut b as &mut dyn Buf);
            (KINDS[kind].de)(b).is_ok()
        };
        if ok { 4 + b.len() as u64 } else { 1 }
    };
    if what != 5 {
        let mut made = None;
        quietly(&mut || {
            made = Some((k.new)());
            0
        });
        let Some(mut p) = made else { return got };
        give_content(p.as_mut(), it, dict);
        let bytes = wire(p.as_ref()).out;
        if does(1) {
            // as peers do who tell about the same thing again
            for _ in 0..2 {
                quietly(&mut || {
                    let mut b = BytesMut::new();
                    if p.pdu().serialize(&mut b).is_ok() { digest(&b) } else { 1 }
                });
            }
        }
        if does(2) {
            for _ in 0..2 {
                quietly(&mut || decode(kind, &bytes));
            }
        }
        if does(3) {
            let mut bytes = bytes.clone();
            damaged(&mut bytes, it.seed);
            quietly(&mut || decode(kind, &bytes));
            quietly(&mut || decode(r.below(KINDS.len()), &bytes));
        }
        if does(4) {
            quietly(&mut || {
                let whole = PduHeader::get_pdu_type(&bytes).is_some();
                let part = PduHeader::get_pdu_type(&bytes[..r.below(12).min(bytes.len())]).is_some();
                let mut b = &bytes[..];
                let b: &mut &mut dyn Buf = &mut (&mut b as &mut dyn Buf);
                if bytes.len() >= HEADER {
                    let h = <PduHeader as GenericHeader>::deserialize(b);
                    let _ = (k.de_wh)(b, h);
                }
                u64::from(whole) << 1 | u64::from(part)
            });
        }
        if does(6) && (what != 0 || round % 16 == 0) {
            give_content(p.as_mut(), &Item { target: 8800 + r.below(400) as u32, ..it.clone() }, dict);
            quietly(&mut || {
                let mut b = BytesMut::new();
                if p.pdu().serialize(&mut b).is_ok() { b.len() as u64 } else { 1 }
            });
        }
        if does(7) {
            quietly(&mut || {
                let mut b = BytesMut::with_capacity(r.below(200));
                for _ in 0..2 {
                    let mut fresh = (k.new)();
                    let _ = fresh.pdu().serialize(&mut b);
                }
                digest(&b)
            });
        }
    }
    if does(5) {
        let at = if it.slot & 1 != 0 { r.below(RECORDS.len()) } else { it.kind % RECORDS.len() };
        let k = &RECORDS[at];
        let mut g = generator(it, dict);
        g.budget = 300;
        quietly(&mut || {
            let rec = (k.new)(&mut g);
            let mut b = BytesMut::new();
            (k.ser)(rec.as_ref(), &mut b);
            let n = b.len();
            let mut left = &b[..];
            let buf: &mut &mut dyn Buf = &mut (&mut left as &mut dyn Buf);
            let _ = (k.de)(buf, n);
            digest(&b) ^ left.len() as u64
        });
    }
    got
}

/// A process that goes on for long, with everything dropped again once it is done with: says how
/// the memory held, or the work done for one round, keeps on growing
pub fn endure(what: u8, it: &Item, dict: &Words, times: u32, stats: &mut Stats, trace: &mut u64) -> Option<String> {
    let times = u64::from(times.max(2));
    let mut now = 1_700_000_000_000_000_000u64;
    let mut r = Rng::new(it.seed ^ 0xE4);
    // every round on a thread of its own, as a server has that starts one per connection
    let brief = it.slot & 2 != 0;
    let mut round = |i: Option<u64>| {
        now += r.range(0, 10_000_000_000);
        let clock = ClockState::new(now.into(), (now >> 20).into(), vec![]);
        let work = || seams::with_clock(clock, || seams::scope(|| i.map_or(0, |i| live_on(what, it, dict, i)))).0;
        if !brief {
            let (got, mem) = work();
            return (got, mem.live as i64, mem.edges);
        }
        let before = seams::held_by_brief_threads();
        let (got, mem) = std::thread::scope(|s| {
            let t = s.spawn(|| {
                seams::live_briefly();
                work()
            });
            t.join().unwrap_or_default()
        });
        (got, seams::held_by_brief_threads() - before, mem.edges)
    };
    // what a thread that does nothing seems to hold: it frees what it was started with
    let empty = if brief { (0..3).map(|_| round(None).1).last().unwrap_or(0) } else { 0 };
    let mut stretch = |from: u64, to: u64| {
        let (mut held, mut work) = (0i64, 0u64);
        for i in from..to {
            let (got, live, edges) = round(Some(i));
            *trace = mix(*trace ^ got);
            held += live - empty;
            work += edges;
        }
        if brief {
            stats.add("fault.threads_that_ended", to - from);
        }
        stats.add("rounds_of_a_long_life", to - from);
        if matches!(what, 0 | 3 | 6) {
            stats.add("fault.damaged_mistyped_or_refused_in_a_long_life", to - from);
        }
        (held, work / (to - from).max(1))
    };
    let (_, mut per_round) = stretch(0, times / 2);
    // what only fills up to some size stops growing: go on for longer before this is told
    let (mut from, mut to) = (times / 2, times);
    let (mut grows, mut slows) = (true, true);
    let mut last = 0;
    let mut steps = 0;
    for k in 0..4 {
        let (held, work) = stretch(from, to);
        steps += work * (to - from);
        grows &= held > if brief { 1024 } else { 16_384 } + (to - from) as i64 / 16;
        slows &= work > per_round + per_round / 4;
        if !grows && !slows {
            return None;
        }
        (last, per_round) = (held, work);
        (from, to) = (to, to * 2);
        if k > 0 && steps > 1_000_000_000 {
            break;
        }
    }
    Some(if grows {
        format!("memory held after everything was dropped keeps growing: by {last} octets from round {} to round {from}", from / 2)
    } else {
        format!("the work for one round keeps growing: {per_round} steps on average from round {} to round {from}", from / 2)
    })
}

/// Switches at the n-th access to static memory are marked with this
pub const AT_SHARED: u32 = 1 << 31;

struct Shared {
    current: usize,
    points: u64,
    shared: u64,
    /// Position among the accesses to static memory, and who goes on
    at_shared: Vec<(u64, usize)>,
    next_shared: usize,
    switches: Vec<(u64, usize)>,
    next: usize,
    done: Vec<bool>,
    waits: u64,
    since: u64,
    schedule: u64,
    preemptions: u64,
    in_midst: u64,
    results: Vec<Vec<u64>>,
}
struct Sched {
    s: Mutex<Shared>,
    cv: Condvar,
}

thread_local! {
    static ME: RefCell<Option<(usize, Arc<Sched>)>> = const { RefCell::new(None) };
    static NEST: RefCell<Option<Nest>> = const { RefCell::new(None) };
}

fn runnable(s: &Shared, from: usize) -> Option<usize> {
    (0..s.done.len()).map(|k| (from + k) % s.done.len()).find(|t| !s.done[*t])
}

fn thread_hook(p: Point) {
    let Some((me, sched)) = ME.with(|m| m.borrow().clone()) else {
        return;
    };
    let mut s = sched.s.lock().expect("schedule");
    s.points += 1;
    let mut to = None;
    if let Point::Futex(..) = p {
        s.waits += 1;
        if s.waits > 200_000 {
            eprintln!("tasks wait for each other for ever");
            std::process::abort();
        }
        to = runnable(&s, me + 1);
    } else {
        s.waits = 0;
        s.since += 1;
        if s.since > 400_000 {
            // nobody is kept from running for ever
            to = runnable(&s, me + 1);
        }
        while s.next < s.switches.len() && s.switches[s.next].0 <= s.points {
            let t = s.switches[s.next].1 % s.done.len();
            s.next += 1;
            if !s.done[t] && t != me {
                to = Some(t);
            }
        }
        if p == Point::Shared {
            s.shared += 1;
            while s.next_shared < s.at_shared.len() && s.at_shared[s.next_shared].0 <= s.shared {
                let t = s.at_shared[s.next_shared].1 % s.done.len();
                s.next_shared += 1;
                if !s.done[t] && t != me {
                    to = Some(t);
                }
            }
        }
    }
    if let Some(t) = to {
        if t != me {
            s.since = 0;
            s.current = t;
            s.preemptions += 1;
            s.in_midst += u64::from(p == Point::Edge);
            s.schedule = mix(s.schedule ^ s.points ^ (t as u64) << 40);
            sched.cv.notify_all();
            while s.current != me {
                s = sched.cv.wait(s).expect("schedule");
            }
        }
    }
}

#[derive(Clone)]
struct Work {
    tasks: Vec<Vec<(u8, Item)>>,
}

fn on_threads(plan: &Plan, work: &Work, switches: &[(u64, usize)], at_shared: &[(u64, usize)]) -> Shared {
    let n = work.tasks.len();
    let sched = Arc::new(Sched {
        s: Mutex::new(Shared {
            current: usize::MAX,
            points: 0,
            shared: 0,
            at_shared: at_shared.to_vec(),
            next_shared: 0,
            switches: switches.to_vec(),
            next: 0,
            done: vec![false; n],
            waits: 0,
            since: 0,
            schedule: 0,
            preemptions: 0,
            in_midst: 0,
            results: vec![vec![]; n],
        }),
        cv: Condvar::new(),
    });
    let dict = Arc::new(plan.dict.clone());
    let handles: Vec<_> = (0..n)
        .map(|me| {
            let (sched, dict, ops) = (sched.clone(), dict.clone(), work.tasks[me].clone());
            std::thread::spawn(move || {
                {
                    let mut s = sched.s.lock().expect("schedule");
                    while s.current != me {
                        s = sched.cv.wait(s).expect("schedule");
                    }
                }
                ME.with(|m| *m.borrow_mut() = Some((me, sched.clone())));
                let mut own = BTreeMap::new();
                let mut out = vec![];
                seams::set_hook(Some(thread_hook));
                for (w, it) in &ops {
                    out.push(perform(*w, it, &dict, &mut own));
                }
                seams::set_hook(None);
                ME.with(|m| *m.borrow_mut() = None);
                let mut s = sched.s.lock().expect("schedule");
                s.results[me] = out;
                s.done[me] = true;
                if let Some(t) = runnable(&s, me + 1) {
                    s.current = t;
                }
                sched.cv.notify_all();
            })
        })
        .collect();
    {
        let mut s = sched.s.lock().expect("schedule");
        s.current = 0;
        sched.cv.notify_all();
    }
    for h in handles {
        let _ = h.join();
    }
    let mut s = sched.s.lock().expect("schedule");
    std::mem::replace(
        &mut *s,
        Shared {
            current: 0,
            points: 0,
            shared: 0,
            at_shared: vec![],
            next_shared: 0,
            switches: vec![],
            next: 0,
            done: vec![],
            waits: 0,
            since: 0,
            schedule: 0,
            preemptions: 0,
            in_midst: 0,
            results: vec![],
        },
    )
}

struct Nest {
    work: Work,
    dict: Words,
    cursor: Vec<usize>,
    own: Vec<Option<BTreeMap<usize, Box<dyn ModelPdu>>>>,
    results: Vec<Vec<u64>>,
    switches: Vec<(u64, usize)>,
    next: usize,
    points: u64,
    depth: usize,
    schedule: u64,
    nested: u64,
    waits: u64,
}

/// Run the next operation of a task to its end
fn step(task: usize) -> bool {
    let job = NEST.with(|n| {
        let mut n = n.borrow_mut();
        let n = n.as_mut()?;
        let c = n.cursor[task];
        let op = n.work.tasks[task].get(c)?.clone();
        let own = n.own[task].take()?; // busy: it is this task that is suspended
        n.cursor[task] += 1;
        n.depth += 1;
        Some((op, own, n.dict.clone()))
    });
    let Some(((w, it), mut own, dict)) = job else {
        return false;
    };
    let r = perform(w, &it, &dict, &mut own);
    NEST.with(|n| {
        if let Some(n) = n.borrow_mut().as_mut() {
            n.results[task].push(r);
            n.own[task] = Some(own);
            n.depth -= 1;
        }
    });
    true
}

fn nest_hook(p: Point) {
    // on one thread a task can only be suspended where the library calls back: in its buffer
    if !matches!(p, Point::Read | Point::Futex(..)) {
        return;
    }
    let to = NEST.with(|n| {
        let mut n = n.borrow_mut();
        let n = n.as_mut()?;
        n.points += 1;
        if let Point::Futex(..) = p {
            n.waits += 1;
            if n.waits > 200_000 {
                eprintln!("a task waits for a task suspended below it for ever");
                std::process::abort();
            }
        } else {
            n.waits = 0;
        }
        let mut to = None;
        while n.next < n.switches.len() && n.switches[n.next].0 <= n.points {
            to = Some(n.switches[n.next].1 % n.own.len());
            n.next += 1;
        }
        let t = to?;
        if n.depth >= n.own.len().max(4) || n.own[t].is_none() {
            return None;
        }
        n.schedule = mix(n.schedule ^ n.points ^ (t as u64) << 40);
        n.nested += 1;
        Some(t)
    });
    if let Some(t) = to {
        seams::set_hook(Some(nest_hook));
        step(t);
        seams::set_hook(None);
    }
}

pub fn run_tasks(plan: &Plan, stats: &mut Stats) -> (Option<Violation>, u64) {
    let mut work = Work { tasks: vec![] };
    let (mut switches, mut at_shared) = (vec![], vec![]);
    let mut where_ = vec![];
    for (i, o) in plan.ops.iter().enumerate() {
        match &o.act {
            Act::Task { ops, what } => {
                work.tasks.push(what.iter().copied().zip(ops.iter().cloned()).collect());
                where_.push(i);
            }
            Act::Switch { point, to } if point & AT_SHARED != 0 => at_shared.push((u64::from(point & !AT_SHARED), *to as usize)),
            Act::Switch { point, to } => switches.push((u64::from(*point), *to as usize)),
            _ => {}
        }
    }
    if work.tasks.is_empty() {
        return (None, 0);
    }
    let all: Vec<(u8, Item)> = work.tasks.iter().flatten().cloned().collect();
    // what each operation gives when it has the machine to itself
    let alone = |(w, it): &(u8, Item)| perform(*w, it, &plan.dict, &mut BTreeMap::new());
    let before: Vec<u64> = all
        .iter()
        .map(|x| {
            let state = seams::shared_accesses();
            let r = alone(x);
            if seams::shared_accesses() > state {
                stats.stateful.insert(if x.0 % 6 == 4 { 1000 + x.1.kind % RECORDS.len() } else { x.1.kind % KINDS.len() });
            }
            r
        })
        .collect();
    let mut hash = 0u64;
    let (results, points, how) = if plan.nodes.first().is_some_and(|n| n.role == Role::Nested) {
        let n = work.tasks.len();
        NEST.with(|x| {
            *x.borrow_mut() = Some(Nest {
                work: work.clone(),
                dict: plan.dict.clone(),
                cursor: vec![0; n],
                own: (0..n).map(|_| Some(BTreeMap::new())).collect(),
                results: vec![vec![]; n],
                switches: switches.clone(),
                next: 0,
                points: 0,
                depth: 0,
                schedule: 0,
                nested: 0,
                waits: 0,
            });
        });
        seams::set_hook(Some(nest_hook));
        for t in 0..n {
            while step(t) {}
        }
        seams::set_hook(None);
        let x = NEST.with(|x| x.borrow_mut().take()).expect("tasks");
        stats.add("fault.nested_operation", x.nested);
        stats.situations.insert(mix(x.schedule));
        hash = mix(hash ^ x.schedule);
        (x.results, x.points, "suspended and resumed on one thread")
    } else {
        let s = on_threads(plan, &work, &switches, &at_shared);
        stats.add("probe.static_memory_accesses", s.shared);
        stats.add("fault.preemption", s.preemptions);
        stats.add("probe.preempted_between_two_edges", s.in_midst);
        stats.situations.insert(mix(s.schedule));
        hash = mix(hash ^ s.schedule);
        (s.results, s.points, "interleaved with other threads")
    };
    stats.add("probe.suspension_points", points);
    stats.add("probe.task_operations", all.len() as u64);
    let after: Vec<u64> = all.iter().map(alone).collect();
    let describe = |(w, it): &(u8, Item)| {
        let what = ["serializing", "decoding", "decoding damaged octets of", "serializing a reused", "record", "serializing an oversize"];
        let i = (*w % 6) as usize;
        let name = if i == 4 { RECORDS[it.kind % RECORDS.len()].name } else { KINDS[it.kind % KINDS.len()].name };
        format!("{} {name}", what[i])
    };
    let mut at = 0;
    let mut violation = None;
    for (t, ops) in work.tasks.iter().enumerate() {
        for (j, op) in ops.iter().enumerate() {
            let got = results[t].get(j).copied();
            hash = mix(hash ^ got.unwrap_or(7));
            if violation.is_none() {
                let class = if got != Some(before[at]) {
                    Some(("concurrent", format!("task {t}, operation {j}: {} gave another outcome when {how}", describe(op))))
                } else if after[at] != before[at] {
                    Some(("history", format!("{} gave another outcome after the tasks had run", describe(op))))
                } else {
                    None
                };
                if let Some((c, m)) = class {
                    violation = Some(Violation { class: format!("C10:{c}"), msg: m, op: where_[t] });
                }
            }
            at += 1;
        }
    }
    (violation, hash)
}
