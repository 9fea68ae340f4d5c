//! Executable reference model: how values are generated, and how they are laid out on the wire.
//! Nothing here calls the library's codec.

use crate::model_gen::FLAGS;
use crate::plan::Words;
use crate::rng::{Rng, mix};
use bytes::{Buf, BytesMut};
use open_dis_rust::common::data_types::{
    EntityCoordinateVector, EventId, WorldCoordinate, antenna_pattern::AntennaPattern, datum_records::VariableDatumRecord,
    directed_energy_damage::DirectedEnergyDamage, entity_marking::EntityMarking, euler_angles::EulerAngles, grid_axis_descriptor::*,
    grid_data_record::*, linear_segment_parameter::LinearSegmentParameter, modulation_parameters::ModulationParameters,
    record_specification_element::RecordSpecificationElement,
};
use open_dis_rust::common::enums::*;
use open_dis_rust::common::{DISError, GenericHeader, LiveEntityPduHeader, Pdu, PduHeader};
use std::any::Any;

pub struct EnumInfo {
    pub name: &'static str,
    pub width: usize,
    pub default: u32,
    pub values: &'static [u32],
}

pub type DynBuf<'a> = &'a mut dyn Buf;

pub struct Kind {
    pub name: &'static str,
    pub type_value: u8,
    pub family: u8,
    pub pdu_type: PduType,
    pub new: fn() -> Box<dyn ModelPdu>,
    pub default: fn() -> Box<dyn ModelPdu>,
    pub de: fn(&mut DynBuf) -> Result<Box<dyn ModelPdu>, DISError>,
    pub de_wh: fn(&mut DynBuf, PduHeader) -> Result<Box<dyn ModelPdu>, DISError>,
    pub is: fn(&dyn Pdu<Header = PduHeader>) -> bool,
    pub down: for<'a> fn(&'a dyn Pdu<Header = PduHeader>) -> Option<&'a dyn ModelPdu>,
}

/// A library PDU type seen through the model
pub trait ModelPdu {
    fn kind(&self) -> usize;
    /// Assign generated values to all public fields (list and count fields consistent)
    fn set(&mut self, g: &mut Gen);
    fn enc_body(&self, e: &mut Enc);
    fn pdu(&mut self) -> &mut dyn Pdu<Header = PduHeader>;
    fn pdu_ref(&self) -> &dyn Pdu<Header = PduHeader>;
}

pub trait Model: Sized {
    fn gen_(g: &mut Gen) -> Self;
    fn enc(&self, e: &mut Enc);
}

/// Type-erased standalone record
pub trait Rec: Any {
    fn enc(&self, e: &mut Enc);
    fn any(&self) -> &dyn Any;
    fn into_any(self: Box<Self>) -> Box<dyn Any>;
}
pub fn take<T: 'static>(r: Box<dyn Rec>) -> T {
    r.into_any().downcast::<Holder<T>>().expect("record kind").0
}
pub struct Holder<T>(pub T);
impl<T: Model + 'static> Rec for Holder<T> {
    fn enc(&self, e: &mut Enc) {
        self.0.enc(e);
    }
    fn any(&self) -> &dyn Any {
        self
    }
    fn into_any(self: Box<Self>) -> Box<dyn Any> {
        self
    }
}
impl dyn Rec {
    pub fn downcast<T: 'static>(&self) -> &T {
        &self.any().downcast_ref::<Holder<T>>().expect("record kind").0
    }
}
pub struct RecordKind {
    pub name: &'static str,
    pub new: fn(&mut Gen) -> Box<dyn Rec>,
    pub ser: fn(&dyn Rec, &mut BytesMut),
    pub de: fn(&mut DynBuf, usize) -> Box<dyn Rec>,
    pub fser: Option<fn(&dyn Rec, &mut BytesMut)>,
    pub fde: Option<fn(&mut DynBuf, usize) -> Box<dyn Rec>>,
    pub len: Option<fn(&dyn Rec) -> usize>,
    pub const_len: Option<usize>,
    /// The same record made by its constructor
    pub via: Option<fn(Box<dyn Rec>) -> Box<dyn Rec>>,
}

/// Any enumeration of the library as a value of its own: its number on the wire and the name of the
/// enumerant that number stands for
pub struct EnumDef {
    pub name: &'static str,
    pub width: usize,
    pub default: u32,
    pub values: &'static [(u32, &'static str)],
}
pub struct EnumRec {
    def: &'static EnumDef,
    number: u32,
    name: String,
}
impl EnumRec {
    pub fn draw(g: &mut Gen, def: &'static EnumDef) -> Box<dyn Rec> {
        let (mut number, mut name) = *g.pick(def.values);
        if g.undefined {
            let known: Vec<u32> = def.values.iter().map(|v| v.0).collect();
            if let Some(n) = undefined_value(&known, def.width, g.r.next()) {
                number = n;
                name = def.values.iter().find(|v| v.0 == def.default).map_or("", |v| v.1);
            }
        }
        Box::new(EnumRec { def, number, name: name.to_string() })
    }
    pub fn named(def: &'static EnumDef, name: String) -> Box<dyn Rec> {
        Box::new(EnumRec { def, number: 0, name })
    }
    /// The library has no encoder for most enumerations: their numbers come from a reference peer
    pub fn ser(r: &dyn Rec, b: &mut BytesMut) {
        let mut e = Enc::wire();
        r.enc(&mut e);
        b.extend_from_slice(&e.out);
    }
}
impl Rec for EnumRec {
    fn enc(&self, e: &mut Enc) {
        if e.canon {
            e.at("enumerant", |e| e.octets(self.name.as_bytes()));
        } else {
            e.octets(&self.number.to_be_bytes()[4 - self.def.width..]);
        }
    }
    fn any(&self) -> &dyn Any {
        self
    }
    fn into_any(self: Box<Self>) -> Box<dyn Any> {
        self
    }
}

/// A value of the width of the enumeration that it does not define
pub fn undefined_value(values: &[u32], width: usize, v: u64) -> Option<u32> {
    let max = if width == 4 { u32::MAX } else { (1u32 << (8 * width)) - 1 };
    let mut r = Rng::new(v);
    for _ in 0..64 {
        let c = match r.below(6) {
            0 => max,
            1 => values[r.below(values.len())].wrapping_add(1),
            2 => values[r.below(values.len())].wrapping_add(256),
            3 => values[r.below(values.len())].wrapping_add(0x1_0000),
            4 => r.below(300) as u32,
            _ => r.next() as u32,
        } & max;
        if !values.contains(&c) {
            return Some(c);
        }
    }
    (0..=max.min(70_000)).find(|c| !values.contains(c))
}

// ---------------------------------------------------------------- generation

pub struct Gen<'a> {
    pub r: Rng,
    /// Interesting integers (collected from the sources under test)
    pub dict: &'a Words,
    /// Octets that may still be spent on lists
    pub budget: i64,
    /// 0..=3: how long lists tend to be
    pub bulk: u8,
    /// Also fill lists this library cannot decode (see known_findings.txt)
    pub undecodable: bool,
    /// Percentage of special (boundary, dictionary) values
    pub special: u32,
    /// Make lists as long as the budget allows
    pub greedy: bool,
    /// Let count and length fields disagree with the lists they announce
    pub miscount: bool,
    pub miscounted: bool,
    /// Chance that a field of an object that is used again is left alone or changed in place
    pub keep: u32,
    pub raw_text: Option<u64>,
    /// Give enumerations that stand alone numbers this library does not know
    pub undefined: bool,
    /// Integers given out lately
    seen: [u64; 8],
    at: usize,
    /// Chance that a value is one the sources newly mention
    hot: u32,
    /// Keep to numbers below this one, if not 0
    small: u64,
    /// Chance that a record is the same as one of its type that was made before
    echo: u32,
    made: Vec<(&'static str, Rng, [u64; 8], usize)>,
}

macro_rules! gen_int {
    ($($f:ident $t:ty, $w:expr);*) => { $(
        pub fn $f(&mut self) -> $t { self.charge($w); self.int($w * 8) as $t }
    )* }
}

impl<'a> Gen<'a> {
    pub fn new(seed: u64, dict: &'a Words) -> Self {
        let mut r = Rng::new(seed);
        let bulk = *r.pick(&[0, 0, 1, 1, 1, 2, 2, 3]);
        let special = *r.pick(&[0, 20, 50, 50, 80, 100]);
        let newly = dict.fresh + dict.enumerants.len() + dict.texts.len() > 0 && special > 0;
        let hot = if newly { *r.pick(&[0, 0, 8, 30, 60]) } else { 0 };
        let small = if special > 0 && r.chance(6) { *r.pick(&[2, 4, 10, 300]) } else { 0 };
        let echo = if special == 0 { 0 } else { *r.pick(&[0, 0, 0, 15, 40]) };
        Gen {
            r,
            dict,
            budget: 7400,
            bulk,
            undecodable: false,
            special,
            greedy: false,
            miscount: false,
            miscounted: false,
            keep: 0,
            raw_text: None,
            undefined: false,
            seen: [0; 8],
            at: 0,
            hot,
            small,
            echo,
            made: vec![],
        }
    }
    /// A field: a new value, or the value another field of this type has
    pub fn make<T: Model>(&mut self) -> T {
        if self.echo == 0 || size_of::<T>() < 3 {
            return T::gen_(self);
        }
        let name = std::any::type_name::<T>();
        if self.r.chance(self.echo) {
            let k = self.made.len();
            let from = if k == 0 { 0 } else { self.r.below(k) };
            if let Some(i) = (0..k).map(|i| (i + from) % k).find(|i| self.made[*i].0 == name) {
                let (_, r, seen, at) = self.made[i].clone();
                let on = std::mem::replace(&mut self.r, r);
                let (seen, at) = (std::mem::replace(&mut self.seen, seen), std::mem::replace(&mut self.at, at));
                let echo = std::mem::replace(&mut self.echo, 0);
                let v = T::gen_(self);
                (self.r, self.seen, self.at, self.echo) = (on, seen, at, echo);
                return v;
            }
        }
        if self.made.len() < 24 {
            // one made without repeating anything itself can be repeated exactly
            let echo = self.echo;
            if self.r.chance(70) {
                self.echo = 0;
            }
            self.made.push((name, self.r.clone(), self.seen, self.at));
            let v = T::gen_(self);
            self.echo = echo;
            return v;
        }
        T::gen_(self)
    }
    pub fn charge(&mut self, n: usize) {
        self.budget -= n as i64;
    }
    pub fn pick<'b, T>(&mut self, v: &'b [T]) -> &'b T {
        self.r.pick(v)
    }
    gen_int!(u8 u8, 1; i8 i8, 1; u16 u16, 2; i16 i16, 2; u32 u32, 4; i32 i32, 4; u64 u64, 8; i64 i64, 8);
    pub fn int(&mut self, bits: u32) -> u64 {
        let mask = if bits == 64 { u64::MAX } else { (1 << bits) - 1 };
        let v = self.any_int(bits, mask) & mask;
        if bits > 8 {
            self.seen[self.at % 8] = v;
            self.at += 1;
        }
        v
    }
    /// What a count or length field says about `n`
    pub fn cnt(&mut self, n: usize) -> usize {
        if !self.miscount || self.r.chance(60) {
            return n;
        }
        self.miscounted = true;
        match self.r.below(7) {
            0 => n + 1,
            1 => n.wrapping_sub(1),
            2 => 0,
            3 => 255,
            4 => usize::MAX,
            5 => n * 2 + 1,
            _ => self.r.next() as usize,
        }
    }
    fn newly(&mut self) -> Option<u64> {
        (self.hot > 0 && self.dict.fresh > 0 && self.r.chance(self.hot)).then(|| self.dict.all[self.r.below(self.dict.fresh)])
    }
    pub fn pick_enum<'b, T>(&mut self, which: u64, all: &'b [T], numbers: &[u32]) -> &'b T {
        if self.hot > 0 && self.r.chance(self.hot) {
            let named: Vec<u64> = self.dict.enumerants.iter().filter(|e| **e >> 32 == which).map(|e| e & 0xffff_ffff).collect();
            let v = if named.is_empty() { self.newly() } else { Some(*self.r.pick(&named)) };
            if let Some(i) = v.and_then(|v| numbers.iter().position(|n| u64::from(*n) == v)) {
                return &all[i];
            }
        }
        if self.small > 0 {
            return &all[self.r.below(all.len().min(self.small as usize))];
        }
        self.r.pick(all)
    }
    /// A text newly mentioned, if it fits
    fn named(&mut self, max: usize) -> Option<String> {
        if self.hot == 0 || self.dict.texts.is_empty() || !self.r.chance(self.hot) {
            return None;
        }
        let t = &self.dict.texts[self.r.below(self.dict.texts.len())];
        (t.len() <= max).then(|| t.clone())
    }
    fn any_int(&mut self, bits: u32, mask: u64) -> u64 {
        if let Some(v) = self.newly() {
            return if self.r.chance(15) { v.wrapping_add(self.r.below(3) as u64).wrapping_sub(1) } else { v };
        }
        if self.small > 0 {
            return self.r.below(self.small as usize) as u64;
        }
        if !self.r.chance(self.special) {
            return self.r.next();
        }
        match self.r.below(11) {
            // one that appeared before
            10 => self.seen[self.r.below(8)],
            0 => 0,
            1 => mask,
            2 => 1u64 << self.r.below(bits as usize),
            3 => (1u64 << self.r.below(bits as usize)).wrapping_sub(1),
            4 => (mask >> 1) + self.r.below(3) as u64,
            5 => mask - self.r.below(4) as u64,
            6 => self.r.below(34) as u64,
            7 => self.r.next() & 0xff,
            _ => {
                if self.dict.all.is_empty() {
                    self.r.next()
                } else {
                    let d = self.dict.all[self.r.below(self.dict.all.len())];
                    if self.r.chance(15) { d.wrapping_add(self.r.below(3) as u64).wrapping_sub(1) } else { d }
                }
            }
        }
    }
    pub fn f32(&mut self) -> f32 {
        self.charge(4);
        const S: [f32; 20] = [
            f32::from_bits(1),
            f32::from_bits(0x7fa0_0001),
            f32::from_bits(0xffc0_1234),
            f32::from_bits(0x8000_0001),
            0.0,
            -0.0,
            1.0,
            -1.0,
            f32::INFINITY,
            f32::NEG_INFINITY,
            f32::NAN,
            f32::MIN_POSITIVE,
            f32::MAX,
            f32::MIN,
            f32::EPSILON,
            0.1,
            1.5,
            90.0,
            -180.0,
            6_378_137.0,
        ];
        if let Some(v) = self.newly() {
            return if self.r.chance(50) { f32::from_bits(v as u32) } else { v as f32 };
        }
        if self.small > 0 {
            return self.r.below(self.small as usize) as f32;
        }
        match self.r.below(if self.special == 0 { 3 } else { 6 }) {
            0 | 1 => f32::from_bits(self.r.next() as u32),
            2 => (self.r.range(0, 2_000_000) as f32 - 1_000_000.0) / 256.0,
            3 => *self.r.pick(&S),
            4 => f32::from_bits(self.int(32) as u32),
            _ => self.int(16) as f32,
        }
    }
    pub fn f64(&mut self) -> f64 {
        self.charge(8);
        const S: [f64; 18] = [
            f64::from_bits(1),
            f64::from_bits(0x7ff4_0000_0000_0001),
            f64::from_bits(0xfff8_0000_dead_beef),
            f64::from_bits(0x800f_ffff_ffff_ffff),
            0.0,
            -0.0,
            1.0,
            -1.0,
            f64::INFINITY,
            f64::NEG_INFINITY,
            f64::NAN,
            f64::MIN_POSITIVE,
            f64::MAX,
            f64::MIN,
            f64::EPSILON,
            0.1,
            -6_378_137.0,
            16_777_217.0,
        ];
        if let Some(v) = self.newly() {
            return if self.r.chance(50) { f64::from_bits(v as u64) } else { v as f64 };
        }
        if self.small > 0 {
            return self.r.below(self.small as usize) as f64;
        }
        match self.r.below(if self.special == 0 { 3 } else { 6 }) {
            0 | 1 => f64::from_bits(self.r.next()),
            2 => (self.r.range(0, 1 << 40) as f64 - (1u64 << 39) as f64) / 65536.0,
            3 => *self.r.pick(&S),
            4 => f64::from_bits(self.int(64)),
            _ => self.int(32) as f64,
        }
    }
    /// A list length: usually short, sometimes at a limit of its count field, never beyond the budget
    pub fn list_len(&mut self, max: usize) -> usize {
        if self.greedy {
            return max;
        }
        if let Some(d) = self.newly().filter(|d| *d <= 3000) {
            return (d as usize + self.r.below(3)).saturating_sub(1).min(max);
        }
        if !self.dict.all.is_empty() && self.bulk > 0 && self.r.chance(6) {
            let d = self.dict.all[self.r.below(self.dict.all.len())];
            if d <= 600 {
                return (d as usize + self.r.below(3)).saturating_sub(1).min(max);
            }
        }
        let n = match (self.bulk, self.r.below(8)) {
            (0, 0..=5) | (_, 0) => 0,
            (_, 1..=3) => 1 + self.r.below(2),
            (0 | 1, _) => self.r.below(5),
            (2, 4..=6) => self.r.below(24),
            (2, _) => self.r.below(300),
            (_, 4) => self.r.below(40),
            (_, 5) => 255,
            (_, 6) => 256 + self.r.below(2),
            (_, _) => 4000,
        };
        n.min(max)
    }
    pub fn list<T: Model>(&mut self, max: usize) -> Vec<T> {
        let n = self.list_len(max);
        let mut v = Vec::new();
        let mut biggest = 0;
        // some lists hold the same item more than once
        let repeat = if self.special > 0 && self.r.chance(12) { 30 } else { 0 };
        let mut last = self.r.clone();
        while v.len() < n {
            let before = self.budget;
            if before - biggest < if self.greedy { 0 } else { 160 } || (self.greedy && before <= 0) {
                break;
            }
            if repeat > 0 {
                if self.r.chance(repeat) && !v.is_empty() {
                    let on = std::mem::replace(&mut self.r, last.clone());
                    let seen = self.seen;
                    self.seen = [0; 8];
                    v.push(T::gen_(self));
                    self.seen = seen;
                    self.r = on;
                    biggest = biggest.max(before - self.budget);
                    continue;
                }
                self.seen = [0; 8];
                last = self.r.clone();
            }
            v.push(T::gen_(self));
            biggest = biggest.max(before - self.budget);
        }
        v
    }
    /// Give a field its content
    pub fn put<T: Model>(&mut self, field: &mut T) {
        if self.keep == 0 || !self.r.chance(self.keep) {
            *field = self.make();
        }
    }
    pub fn put_list<T: Model>(&mut self, list: &mut Vec<T>, max: usize) {
        if self.keep == 0 || !self.r.chance(self.keep) {
            *list = self.list(max);
            return;
        }
        match self.r.below(8) {
            // as it is
            0 => {}
            // other items in the same places
            1..=3 => {
                let all = self.r.chance(30);
                for x in list.iter_mut() {
                    if all || self.r.chance(30) {
                        *x = T::gen_(self);
                    }
                }
            }
            // another list in the same memory
            4 | 5 => {
                let mut new: Vec<T> = self.list(max);
                list.clear();
                list.append(&mut new);
            }
            6 => list.truncate(self.r.below(list.len() + 1)),
            _ => {
                if list.len() < max.min(40) {
                    list.push(T::gen_(self));
                }
                let n = list.len();
                list.rotate_left(self.r.below(n.max(1)).min(n));
            }
        }
    }
    pub fn opt_list<T: Model>(&mut self) -> Vec<Option<T>> {
        let n = self.r.below(4);
        (0..n).map(|_| if self.r.chance(70) { Some(T::gen_(self)) } else { None }).collect()
    }
    /// A number of octets for an opaque field
    pub fn small_len(&mut self, max: usize) -> usize {
        if self.greedy {
            return max.min(self.budget.max(0) as usize);
        }
        let n = match self.r.below(8) {
            0 | 1 => 0,
            2..=4 => 1 + self.r.below(12),
            5 => 8 * self.r.below(9),
            6 => self.r.below(256),
            _ => self.list_len(max),
        };
        n.min(max).min((self.budget - 160).max(0) as usize)
    }
    /// A length in bits
    pub fn bit_length(&mut self, max_bits: usize) -> usize {
        let octets = self.small_len(max_bits / 8);
        if octets == 0 {
            return 0;
        }
        if self.r.chance(50) { octets * 8 } else { octets * 8 - self.r.below(8) }
    }
    pub fn octets(&mut self, n: usize) -> Vec<u8> {
        self.charge(n);
        let start = self.named(n).unwrap_or_default().into_bytes();
        let rest = n - start.len();
        start.into_iter().chain((0..rest).map(|_| self.int(8) as u8)).collect()
    }
    fn marking(&mut self) -> String {
        if self.miscount && self.r.chance(50) {
            // more than fits
            let n = *self.r.pick(&[12, 13, 16, 40, 300]);
            return self.text(n);
        }
        self.text(11)
    }
    pub fn text(&mut self, max: usize) -> String {
        let mut s = self.named(max).unwrap_or_default();
        let n = match self.r.below(if s.is_empty() { 4 } else { 2 }) {
            0 => max,
            1 => 0,
            _ => self.r.below(max + 1),
        };
        let (wide, odd) = (self.r.chance(15), self.r.chance(10));
        while s.len() < n {
            let new = self.newly().filter(|v| (1..128).contains(v));
            let c = if let Some(v) = new {
                v as u8 as char
            } else if odd && self.r.chance(30) {
                // control characters; a trailing NUL would be padding
                if s.len() + 2 < n { self.r.below(32) as u8 as char } else { '\u{1}' }
            } else if wide && self.r.chance(30) {
                *self.r.pick(&['é', 'ß', '€', '漢', '🛰', '\u{7f}', '\u{80}'])
            } else {
                (0x20 + self.r.below(95) as u8) as char
            };
            if s.len() + c.len_utf8() > max {
                break;
            }
            s.push(c);
        }
        while s.ends_with('\0') {
            s.pop();
        }
        s
    }
}

// ---------------------------------------------------------------- reference encoding

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Mark {
    Int,
    Enum(u16),
    /// Enumeration that selects the layout of what follows
    Tag(u16),
    Count,
    Pad,
    /// Up to the boundary a record ends on
    Align,
    /// Text of fixed size
    Text,
    Octets,
}

#[derive(Clone, Copy)]
pub struct Field {
    pub off: usize,
    pub width: usize,
    pub mark: Mark,
}

#[derive(Default)]
pub struct Enc {
    pub out: Vec<u8>,
    pub fields: Vec<Field>,
    /// Canonical form: also records list and text lengths, so that different values never coincide
    pub canon: bool,
    pub drop_undecodable: bool,
    tag: bool,
    in_count: bool,
    pub trace: bool,
    path: Vec<String>,
    pub paths: Vec<(usize, String)>,
}

impl Enc {
    pub fn wire() -> Self {
        Enc::default()
    }
    pub fn canon() -> Self {
        Enc { canon: true, ..Enc::default() }
    }
    fn put(&mut self, b: &[u8], mark: Mark) {
        let mark = match mark {
            Mark::Int if self.in_count => Mark::Count,
            m => m,
        };
        self.fields.push(Field { off: self.out.len(), width: b.len(), mark });
        if self.trace {
            self.paths.push((self.out.len(), self.path.join(".")));
        }
        self.out.extend_from_slice(b);
    }
    pub fn u8(&mut self, v: u8) {
        self.put(&[v], Mark::Int);
    }
    pub fn u16(&mut self, v: u16) {
        self.put(&v.to_be_bytes(), Mark::Int);
    }
    pub fn u32(&mut self, v: u32) {
        self.put(&v.to_be_bytes(), Mark::Int);
    }
    pub fn u64(&mut self, v: u64) {
        self.put(&v.to_be_bytes(), Mark::Int);
    }
    pub fn octets(&mut self, v: &[u8]) {
        self.put(v, Mark::Octets);
    }
    pub fn pad(&mut self, n: usize) {
        self.put(&vec![0; n], Mark::Pad);
    }
    pub fn align(&mut self, n: usize) {
        self.put(&vec![0; n], Mark::Align);
    }
    pub fn enumv(&mut self, v: u32, width: usize, id: u16) {
        let b = v.to_be_bytes();
        let m = if self.tag { Mark::Tag(id) } else { Mark::Enum(id) };
        self.put(&b[4 - width..], m);
    }
    pub fn tag(&mut self, f: impl FnOnce(&mut Self)) {
        self.tag = true;
        f(self);
        self.tag = false;
    }
    pub fn count(&mut self, f: impl FnOnce(&mut Self)) {
        self.in_count = true;
        f(self);
        self.in_count = false;
    }
    pub fn at(&mut self, name: &str, f: impl FnOnce(&mut Self)) {
        if self.trace {
            self.path.push(name.to_string());
            f(self);
            self.path.pop();
        } else {
            f(self);
        }
    }
    /// A field of pinned width: if its type is another one by now, its value at the pinned width
    pub fn fixed(&mut self, name: &str, width: usize, kind: u8, f: impl FnOnce(&mut Self)) {
        let (start, n) = (self.out.len(), self.fields.len());
        self.at(name, f);
        let got = self.out.len() - start;
        if got == width || self.fields.len() != n + 1 || got > 8 {
            return;
        }
        let negative = kind == b'i' && self.out[start] & 0x80 != 0;
        let mut v = self.out[start..].iter().fold(if negative { u64::MAX } else { 0 }, |a, b| a << 8 | u64::from(*b));
        if kind == b'f' {
            v = match (got, width) {
                (8, 4) => u64::from((f64::from_bits(v) as f32).to_bits()),
                (4, 8) => f64::from(f32::from_bits(v as u32)).to_bits(),
                _ => v,
            };
        }
        self.out.truncate(start);
        self.out.extend_from_slice(&v.to_be_bytes()[8 - width..]);
        self.fields[n].width = width;
    }
    /// Only in canonical form
    pub fn shape(&mut self, n: usize) {
        if self.canon {
            let (t, c) = (self.tag, self.in_count);
            (self.tag, self.in_count) = (false, false);
            self.put(&(n as u32).to_be_bytes(), Mark::Pad);
            (self.tag, self.in_count) = (t, c);
        }
    }
}

macro_rules! model_prim {
    ($($t:ty, $f:ident, $e:expr);* $(;)?) => { $(
        impl Model for $t {
            fn gen_(g: &mut Gen) -> Self { g.$f() }
            fn enc(&self, e: &mut Enc) { let f: fn(&$t, &mut Enc) = $e; f(self, e) }
        }
    )* }
}
model_prim! {
    u8, u8, |v, e| e.u8(*v);
    i8, i8, |v, e| e.u8(*v as u8);
    u16, u16, |v, e| e.u16(*v);
    i16, i16, |v, e| e.u16(*v as u16);
    u32, u32, |v, e| e.u32(*v);
    i32, i32, |v, e| e.u32(*v as u32);
    u64, u64, |v, e| e.u64(*v);
    i64, i64, |v, e| e.u64(*v as u64);
    f32, f32, |v, e| e.u32(v.to_bits());
    f64, f64, |v, e| e.u64(v.to_bits());
}

impl<T: Model> Model for Vec<T> {
    fn gen_(g: &mut Gen) -> Self {
        g.list(255)
    }
    fn enc(&self, e: &mut Enc) {
        e.shape(self.len());
        for (i, x) in self.iter().enumerate() {
            if e.trace {
                e.at(&format!("[{i}]"), |e| x.enc(e));
            } else {
                x.enc(e);
            }
        }
    }
}
impl<T: Model> Model for Option<T> {
    fn gen_(g: &mut Gen) -> Self {
        if g.r.chance(70) { Some(T::gen_(g)) } else { None }
    }
    fn enc(&self, e: &mut Enc) {
        e.shape(self.is_some() as usize);
        if let Some(x) = self {
            x.enc(e);
        }
    }
}
impl<T: Model + Default + Copy, const N: usize> Model for [T; N] {
    fn gen_(g: &mut Gen) -> Self {
        let mut a = [T::default(); N];
        for x in &mut a {
            *x = T::gen_(g);
        }
        a
    }
    fn enc(&self, e: &mut Enc) {
        for x in self {
            x.enc(e);
        }
    }
}

// ---------------------------------------------------------------- records with rules of their own

/// Octets of a marking that need not be UTF-8
pub fn raw_text(seed: u64) -> [u8; 11] {
    let mut r = Rng::new(seed ^ 0x7E87);
    let mut b = [0; 11];
    let n = r.range(1, 11) as usize;
    b[..n].iter_mut().for_each(|b| *b = if r.chance(60) { 0x20 + r.below(95) as u8 } else { 1 + r.below(255) as u8 });
    b
}

impl Model for EntityMarking {
    fn gen_(g: &mut Gen) -> Self {
        let entity_marking_character_set = Model::gen_(g);
        g.charge(11);
        let text = g.raw_text.map(|seed| String::from_utf8_lossy(&raw_text(seed)).trim_end_matches('\0').to_string());
        EntityMarking { entity_marking_character_set, entity_marking_string: text.unwrap_or_else(|| g.marking()) }
    }
    fn enc(&self, e: &mut Enc) {
        e.at("entity_marking_character_set", |e| self.entity_marking_character_set.enc(e));
        e.at("entity_marking_string", |e| {
            let s = self.entity_marking_string.as_bytes();
            e.shape(s.len());
            let mut b = [0u8; 11];
            let n = s.len().min(11);
            b[..n].copy_from_slice(&s[..n]);
            e.put(&b, Mark::Text);
        });
    }
}

impl Model for VariableDatumRecord {
    fn gen_(g: &mut Gen) -> Self {
        g.charge(4 + 8);
        let datum_id = g.u32();
        let length_bits = g.bit_length(60_000);
        let value = g.octets(length_bits.div_ceil(8));
        VariableDatumRecord { datum_id, length_bits: g.cnt(length_bits) as u32, value }
    }
    fn enc(&self, e: &mut Enc) {
        e.at("datum_id", |e| self.datum_id.enc(e));
        e.count(|e| e.at("length_bits", |e| self.length_bits.enc(e)));
        e.at("value", |e| {
            e.shape(self.value.len());
            e.octets(&self.value);
        });
        // the record ends on a 64-bit boundary
        let octets = (self.length_bits as usize).div_ceil(8);
        e.align(octets.div_ceil(8) * 8 - octets);
    }
}

impl Model for RecordSpecificationElement {
    fn gen_(g: &mut Gen) -> Self {
        g.charge(4);
        let (record_id, record_set_serial_number) = (g.u32(), g.u32());
        let (length, count) = match g.r.below(6) {
            0 => (g.small_len(4000), 1),
            1 => (1, g.small_len(4000)),
            2 => (g.small_len(300), 0),
            3 => (0, g.small_len(300)),
            _ => {
                let l = 1 + g.r.below(40);
                (l, g.small_len(4000) / l)
            }
        };
        RecordSpecificationElement {
            record_id,
            record_set_serial_number,
            record_length: g.cnt(length) as u16,
            record_count: g.cnt(count) as u16,
            record_values: g.octets(length * count),
        }
    }
    fn enc(&self, e: &mut Enc) {
        e.at("record_id", |e| self.record_id.enc(e));
        e.at("record_set_serial_number", |e| self.record_set_serial_number.enc(e));
        e.count(|e| e.at("record_length", |e| self.record_length.enc(e)));
        e.count(|e| e.at("record_count", |e| self.record_count.enc(e)));
        e.at("record_values", |e| {
            e.shape(self.record_values.len());
            e.octets(&self.record_values);
        });
    }
}

fn align8(n: usize) -> usize {
    n.div_ceil(8) * 8 - n
}

impl Model for GridAxisDescriptor {
    fn gen_(g: &mut Gen) -> Self {
        let (domain_initial, domain_final, domain_points, interleaf_factor) = (g.f64(), g.f64(), g.u16(), g.u8());
        g.charge(7);
        if g.r.chance(50) {
            GridAxisDescriptor {
                domain_initial,
                domain_final,
                domain_points,
                interleaf_factor,
                axis_type: GridAxisDescriptorAxisType::RegularAxis,
                data: GridAxisType::FixedSpacing { number_of_points_on_x_axis: g.u16(), initial_index: g.u16() },
            }
        } else {
            let initial_index = g.u16();
            let (coordinate_scale_x, coordinate_offset_x) = (g.f64(), g.f64());
            let x_values: Vec<u16> = g.list(3000);
            let padding = g.octets(align8(40 + 2 * x_values.len()));
            GridAxisDescriptor {
                domain_initial,
                domain_final,
                domain_points,
                interleaf_factor,
                axis_type: GridAxisDescriptorAxisType::IrregularAxis,
                data: GridAxisType::VariableSpacing {
                    number_of_points_on_x_axis: g.cnt(x_values.len()) as u16,
                    initial_index,
                    coordinate_scale_x,
                    coordinate_offset_x,
                    x_values,
                    padding,
                },
            }
        }
    }
    fn enc(&self, e: &mut Enc) {
        e.at("domain_initial", |e| self.domain_initial.enc(e));
        e.at("domain_final", |e| self.domain_final.enc(e));
        e.at("domain_points", |e| self.domain_points.enc(e));
        e.at("interleaf_factor", |e| self.interleaf_factor.enc(e));
        e.at("axis_type", |e| e.tag(|e| self.axis_type.enc(e)));
        match &self.data {
            GridAxisType::FixedSpacing { number_of_points_on_x_axis, initial_index } => {
                e.shape(0);
                e.at("data.number_of_points_on_x_axis", |e| number_of_points_on_x_axis.enc(e));
                e.at("data.initial_index", |e| initial_index.enc(e));
            }
            GridAxisType::VariableSpacing {
                number_of_points_on_x_axis,
                initial_index,
                coordinate_scale_x,
                coordinate_offset_x,
                x_values,
                padding,
            } => {
                e.shape(1);
                e.count(|e| e.at("data.number_of_points_on_x_axis", |e| number_of_points_on_x_axis.enc(e)));
                e.at("data.initial_index", |e| initial_index.enc(e));
                e.at("data.coordinate_scale_x", |e| coordinate_scale_x.enc(e));
                e.at("data.coordinate_offset_x", |e| coordinate_offset_x.enc(e));
                e.at("data.x_values", |e| x_values.enc(e));
                e.at("data.padding", |e| padding.enc(e));
            }
        }
    }
}

impl Model for GridDataRecord {
    fn gen_(g: &mut Gen) -> Self {
        let sample_type = Model::gen_(g);
        g.charge(10);
        match g.r.below(3) {
            0 => {
                let data_values: Vec<u8> = g.list(6000);
                let padding = g.octets(align8(6 + data_values.len()));
                GridDataRecord {
                    sample_type,
                    data_representation: GriddedDataDataRepresentation::Type0,
                    data: DataRepresentationType::Type0 { number_of_octets: g.cnt(data_values.len()) as u16, data_values, padding },
                }
            }
            1 => {
                let (field_scale, field_offset) = (g.f32(), g.f32());
                let data_values: Vec<u16> = g.list(3000);
                let padding = g.octets(align8(14 + 2 * data_values.len()));
                GridDataRecord {
                    sample_type,
                    data_representation: GriddedDataDataRepresentation::Type1,
                    data: DataRepresentationType::Type1 {
                        field_scale,
                        field_offset,
                        number_of_values: g.cnt(data_values.len()) as u16,
                        data_values,
                        padding,
                    },
                }
            }
            _ => {
                let padding = g.u16();
                let data_values: Vec<f32> = g.list(1500);
                GridDataRecord {
                    sample_type,
                    data_representation: GriddedDataDataRepresentation::Type2,
                    data: DataRepresentationType::Type2 { number_of_values: g.cnt(data_values.len()) as u16, padding, data_values },
                }
            }
        }
    }
    fn enc(&self, e: &mut Enc) {
        e.at("sample_type", |e| self.sample_type.enc(e));
        e.at("data_representation", |e| e.tag(|e| self.data_representation.enc(e)));
        match &self.data {
            DataRepresentationType::Type0 { number_of_octets, data_values, padding } => {
                e.shape(0);
                e.count(|e| e.at("data.number_of_octets", |e| number_of_octets.enc(e)));
                e.at("data.data_values", |e| data_values.enc(e));
                e.at("data.padding", |e| padding.enc(e));
            }
            DataRepresentationType::Type1 { field_scale, field_offset, number_of_values, data_values, padding } => {
                e.shape(1);
                e.at("data.field_scale", |e| field_scale.enc(e));
                e.at("data.field_offset", |e| field_offset.enc(e));
                e.count(|e| e.at("data.number_of_values", |e| number_of_values.enc(e)));
                e.at("data.data_values", |e| data_values.enc(e));
                e.at("data.padding", |e| padding.enc(e));
            }
            DataRepresentationType::Type2 { number_of_values, padding, data_values } => {
                e.shape(2);
                e.count(|e| e.at("data.number_of_values", |e| number_of_values.enc(e)));
                e.at("data.padding", |e| padding.enc(e));
                e.at("data.data_values", |e| data_values.enc(e));
            }
        }
    }
}

impl Model for DirectedEnergyDamage {
    fn gen_(g: &mut Gen) -> Self {
        g.charge(4);
        DirectedEnergyDamage::new(
            g.u32(),
            g.u16(),
            EntityCoordinateVector::gen_(g),
            g.f32(),
            g.f32(),
            Model::gen_(g),
            Model::gen_(g),
            g.u8(),
            Model::gen_(g),
            EventId::gen_(g),
        )
    }
    fn enc(&self, e: &mut Enc) {
        e.at("record_type", |e| self.record_type.enc(e));
        e.at("record_length", |e| self.record_length.enc(e));
        e.pad(2);
        e.at("damage_location", |e| self.damage_location.enc(e));
        e.at("damage_diameter", |e| self.damage_diameter.enc(e));
        e.at("temperature", |e| self.temperature.enc(e));
        e.at("component_identification", |e| self.component_identification.enc(e));
        e.at("component_damage_status", |e| self.component_damage_status.enc(e));
        e.at("component_visual_damage_status", |e| self.component_visual_damage_status.enc(e));
        e.at("component_visual_smoke_color", |e| self.component_visual_smoke_color.enc(e));
        e.at("fire_event_id", |e| self.fire_event_id.enc(e));
        e.pad(2);
    }
}

impl Model for LinearSegmentParameter {
    fn gen_(g: &mut Gen) -> Self {
        g.charge(4);
        LinearSegmentParameter::new(
            g.u8(),
            g.u8(),
            g.u32(),
            g.u32(),
            WorldCoordinate::gen_(g),
            EulerAngles::gen_(g),
            g.f32(),
            g.f32(),
            g.f32(),
            g.f32(),
        )
    }
    fn enc(&self, e: &mut Enc) {
        e.at("segment_number", |e| self.segment_number.enc(e));
        e.at("segment_modification", |e| self.segment_modification.enc(e));
        e.at("general_segment_appearance", |e| self.general_segment_appearance.enc(e));
        e.at("specific_segment_appearance", |e| self.specific_segment_appearance.enc(e));
        e.at("segment_location", |e| self.segment_location.enc(e));
        e.at("segment_orientation", |e| self.segment_orientation.enc(e));
        e.at("segment_length", |e| self.segment_length.enc(e));
        e.at("segment_width", |e| self.segment_width.enc(e));
        e.at("segment_height", |e| self.segment_height.enc(e));
        e.at("segment_depth", |e| self.segment_depth.enc(e));
        e.pad(4);
    }
}

// The content of these two is private: it can be put in by decoding only, and seen through their
// Debug form only (or, should that form not show it, by serializing).
thread_local! {
    static FAULT: std::cell::RefCell<Option<String>> = const { std::cell::RefCell::new(None) };
}
/// A value that did not take the content it was given
pub fn take_fault() -> Option<String> {
    FAULT.with(|f| f.borrow_mut().take())
}
fn debug_octets(s: &str) -> Vec<u8> {
    let inner = s.split_once('[').and_then(|x| x.1.rsplit_once(']')).map_or("", |x| x.0);
    inner.split(',').filter_map(|x| x.trim().parse().ok()).collect()
}
macro_rules! model_opaque {
    ($t:ident, $max:expr, $lt:ty) => {
        impl Model for $t {
            fn gen_(g: &mut Gen) -> Self {
                let len = g.small_len($max).max(1);
                let o = g.octets(len);
                let v = $t::deserialize(&mut o.as_slice(), len as $lt).unwrap_or_default();
                let mut e = Enc::wire();
                v.enc(&mut e);
                if e.out != o {
                    let m = format!("{} decoded from {:02x?} holds {:02x?}", stringify!($t), o, e.out);
                    FAULT.with(|f| *f.borrow_mut() = Some(m));
                }
                v
            }
            fn enc(&self, e: &mut Enc) {
                static SHOWS: std::sync::OnceLock<bool> = std::sync::OnceLock::new();
                let shows = seams::outside(|| {
                    *SHOWS.get_or_init(|| {
                        let v = $t::deserialize(&mut [7u8, 0, 255].as_slice(), 3).unwrap_or_default();
                        debug_octets(&format!("{v:?}")) == [7, 0, 255]
                    })
                });
                let o = if shows {
                    debug_octets(&format!("{self:?}"))
                } else {
                    let mut b = BytesMut::new();
                    self.serialize(&mut b);
                    b.to_vec()
                };
                e.shape(o.len());
                e.octets(&o);
            }
        }
    };
}
model_opaque!(AntennaPattern, 2000, u16);
model_opaque!(ModulationParameters, 255, u8);

// ---------------------------------------------------------------- headers

pub fn status_byte(h: &PduHeader) -> u8 {
    h.status_record.into_bytes()[0]
}

/// The sub-fields of the status octet where the documented layout has them, against the accessors:
/// TEI bit 0, LVC bits 1 and 2, CEI bit 3, then by PDU type FTI or ISM in bit 4, AII in bit 5, or
/// DTI, RAI or IAI in bits 4 and 5 (3 is unassigned there and reads as the default)
pub fn status_disagrees(h: &PduHeader) -> Option<String> {
    let (s, b) = (h.status_record, status_byte(h));
    let two = |v: u8| if (v >> 4) & 3 == 3 { 0 } else { (v >> 4) & 3 };
    let views = [
        ("tei", s.tei() as u8, b & 1),
        ("lvc", s.lvc() as u8, (b >> 1) & 3),
        ("cei", s.cei() as u8, (b >> 3) & 1),
        ("fti", s.get_fti() as u8, (b >> 4) & 1),
        ("ism", s.get_ism() as u8, (b >> 4) & 1),
        ("aii", s.get_aii() as u8, (b >> 5) & 1),
        ("dti", s.get_dti() as u8, two(b)),
        ("rai", s.get_rai() as u8, two(b)),
        ("iai", s.get_iai() as u8, two(b)),
        ("bits 4 and 5", s.bit4_5(), (b >> 4) & 3),
        ("octet", s.to_u8(), b),
    ];
    views.iter().find(|v| v.1 != v.2).map(|v| format!("status octet {b:#04x}: accessor of {} says {}, the layout {}", v.0, v.1, v.2))
}
/// A named bit of a set of flags
pub struct FlagDef {
    pub name: &'static str,
    pub bits: fn(bool) -> u64,
    pub assigned: u64,
    pub back: fn(u64) -> bool,
}
/// What a peer finds when a sender sets a named flag, and what a sender's flag is taken for
pub fn flag_disagrees(seed: u64) -> Option<String> {
    let f = &FLAGS[(mix(seed) % FLAGS.len() as u64) as usize];
    let bits = (f.bits)(seed & 4 != 0);
    if bits != f.assigned {
        return Some(format!("{} is {bits:#x} on the wire, the assigned bits are {:#x}", f.name, f.assigned));
    }
    (!(f.back)(f.assigned)).then(|| format!("bits {:#x} are not taken for {}", f.assigned, f.name))
}
/// Sets sub-fields of the status through the accessors; says what is wrong with the octet afterwards
pub fn set_status(h: &mut PduHeader, seed: u64) -> Option<String> {
    let mut r = Rng::new(seed ^ 0x57A7);
    for _ in 0..1 + r.below(6) {
        let b = status_byte(h);
        let s = &mut h.status_record;
        let (name, shift, width, v) = match r.below(9) {
            0 => {
                let v = *r.pick(&[TransferredEntityIndicator::NoDifference, TransferredEntityIndicator::Difference]);
                s.set_tei(v);
                ("tei", 0, 1, u8::from(v == TransferredEntityIndicator::Difference))
            }
            1 => {
                let i = r.below(4);
                s.set_lvc([LVCIndicator::NoStatement, LVCIndicator::Live, LVCIndicator::Virtual, LVCIndicator::Constructive][i]);
                ("lvc", 1, 2, i as u8)
            }
            2 => {
                let i = r.below(2);
                s.set_cei([CoupledExtensionIndicator::NotCoupled, CoupledExtensionIndicator::Coupled][i]);
                ("cei", 3, 1, i as u8)
            }
            3 => {
                let i = r.below(2);
                s.set_fti([FireTypeIndicator::Munition, FireTypeIndicator::Expendable][i]);
                ("fti", 4, 1, i as u8)
            }
            4 => {
                let i = r.below(2);
                s.set_ism([PduStatusIFFSimulationMode::Regeneration, PduStatusIFFSimulationMode::Interactive][i]);
                ("ism", 4, 1, i as u8)
            }
            5 => {
                let i = r.below(2);
                s.set_aii([ActiveInterrogationIndicator::NotActive, ActiveInterrogationIndicator::Active][i]);
                ("aii", 5, 1, i as u8)
            }
            6 => {
                let i = r.below(3);
                s.set_dti([DetonationTypeIndicator::Munition, DetonationTypeIndicator::Expendable, DetonationTypeIndicator::NonMunitionExplosion][i]);
                ("dti", 4, 2, i as u8)
            }
            7 => {
                let i = r.below(3);
                s.set_rai([RadioAttachedIndicator::NoStatement, RadioAttachedIndicator::Unattached, RadioAttachedIndicator::Attached][i]);
                ("rai", 4, 2, i as u8)
            }
            _ => {
                let i = r.below(3);
                s.set_iai([IntercomAttachedIndicator::NoStatement, IntercomAttachedIndicator::Unattached, IntercomAttachedIndicator::Attached][i]);
                ("iai", 4, 2, i as u8)
            }
        };
        let mask = ((1u8 << width) - 1) << shift;
        let want = (b & !mask) | (v << shift);
        let got = status_byte(h);
        if got != want {
            return Some(format!("setting {name} to {v} turned the status octet {b:#04x} into {got:#04x} instead of {want:#04x}"));
        }
    }
    None
}

impl Model for PduHeader {
    fn gen_(g: &mut Gen) -> Self {
        let mut h = PduHeader::new(Model::gen_(g), Model::gen_(g), g.u8(), g.u16());
        h.protocol_version = Model::gen_(g);
        h.timestamp = g.u32();
        h.status_record = open_dis_rust::common::pdu_header::PduStatusRecord::from_bytes([g.u8()]);
        h
    }
    fn enc(&self, e: &mut Enc) {
        e.at("header.protocol_version", |e| self.protocol_version.enc(e));
        e.at("header.exercise_id", |e| self.exercise_id.enc(e));
        e.at("header.pdu_type", |e| e.tag(|e| self.pdu_type.enc(e)));
        e.at("header.protocol_family", |e| self.protocol_family.enc(e));
        e.at("header.timestamp", |e| self.timestamp.enc(e));
        e.count(|e| e.at("header.length", |e| self.length.enc(e)));
        e.at("header.status_record", |e| e.u8(status_byte(self)));
        e.pad(1);
    }
}
impl Model for LiveEntityPduHeader {
    fn gen_(g: &mut Gen) -> Self {
        let mut h = LiveEntityPduHeader::new(Model::gen_(g), Model::gen_(g), g.u8(), g.u16());
        h.protocol_version = Model::gen_(g);
        h.timestamp = g.u32();
        h.subprotocol_number = Model::gen_(g);
        h
    }
    fn enc(&self, e: &mut Enc) {
        e.at("protocol_version", |e| self.protocol_version.enc(e));
        e.at("exercise_id", |e| self.exercise_id.enc(e));
        e.at("pdu_type", |e| self.pdu_type.enc(e));
        e.at("protocol_family", |e| self.protocol_family.enc(e));
        e.at("timestamp", |e| self.timestamp.enc(e));
        e.at("length", |e| self.length.enc(e));
        e.at("subprotocol_number", |e| self.subprotocol_number.enc(e));
        e.pad(1);
    }
}

/// A header made by its constructor, which knows some of the fields
pub trait Anew {
    fn anew(self) -> Self;
}
/// A header given its values through what all headers have in common, and asked for them again
fn through_accessors<H: GenericHeader>(mut h: H, of: &H, exercise: u8, new: fn(PduType, ProtocolFamily, u8, u16) -> H) -> H {
    h.set_pdu_type(of.pdu_type());
    h.set_protocol_family(of.protocol_family());
    h.set_length(of.length());
    new(h.pdu_type(), h.protocol_family(), exercise, h.length())
}
impl Anew for PduHeader {
    fn anew(self) -> Self {
        let mut h = PduHeader::new(self.pdu_type, self.protocol_family, self.exercise_id, self.length);
        if self.timestamp % 2 == 0 {
            h = through_accessors(PduHeader::default(), &h, self.exercise_id, PduHeader::new);
        }
        (h.protocol_version, h.timestamp, h.status_record) = (self.protocol_version, self.timestamp, self.status_record);
        h
    }
}
impl Anew for LiveEntityPduHeader {
    fn anew(self) -> Self {
        let mut h = LiveEntityPduHeader::new(self.pdu_type, self.protocol_family, self.exercise_id, self.length);
        if self.timestamp % 2 == 0 {
            h = through_accessors(LiveEntityPduHeader::default(), &h, self.exercise_id, LiveEntityPduHeader::new);
        }
        (h.protocol_version, h.timestamp, h.subprotocol_number) = (self.protocol_version, self.timestamp, self.subprotocol_number);
        h
    }
}

/// Give a PDU generated content, header fields included
pub fn fill(p: &mut dyn ModelPdu, g: &mut Gen) {
    p.set(g);
    let (version, exercise, timestamp, status) = (ProtocolVersion::gen_(g), g.u8(), g.u32(), g.u8());
    let h = p.pdu().header_mut();
    h.protocol_version = version;
    h.exercise_id = exercise;
    h.timestamp = timestamp;
    h.status_record = open_dis_rust::common::pdu_header::PduStatusRecord::from_bytes([status]);
}

/// Reference encoding of a whole PDU as a sender puts it on the wire: type, family and length are
/// the ones of its type and layout, whatever the header object holds.
pub fn wire(p: &dyn ModelPdu) -> Enc {
    let mut e = Enc::wire();
    encode_pdu(p, &mut e);
    e
}

/// Reference encoding with the header exactly as the object holds it
pub fn wire_as_is(p: &dyn ModelPdu) -> Vec<u8> {
    let mut e = Enc::wire();
    p.pdu_ref().header().enc(&mut e);
    p.enc_body(&mut e);
    e.out
}
/// Reference encoding of what is left of a PDU once the lists this library cannot decode are gone
pub fn wire_dropped(p: &dyn ModelPdu) -> Enc {
    let mut e = Enc::wire();
    e.drop_undecodable = true;
    encode_pdu(p, &mut e);
    e
}

fn encode_pdu(p: &dyn ModelPdu, e: &mut Enc) {
    p.pdu_ref().header().enc(e);
    p.enc_body(e);
    let k = &crate::model_gen::KINDS[p.kind()];
    let len = e.out.len();
    e.out[2] = k.type_value;
    e.out[3] = k.family;
    e.out[8..10].copy_from_slice(&(len as u16).to_be_bytes());
}

/// Canonical form of a decoded PDU exactly as the object stands (header as is)
pub fn canon(p: &dyn ModelPdu) -> Vec<u8> {
    let mut e = Enc::canon();
    p.pdu_ref().header().enc(&mut e);
    p.enc_body(&mut e);
    e.out
}

/// What a receiver must obtain for this PDU: the canonical form with the header as sent
pub fn expected(p: &dyn ModelPdu, length: usize, drop_undecodable: bool) -> Vec<u8> {
    let mut e = Enc::canon();
    p.pdu_ref().header().enc(&mut e);
    let k = &crate::model_gen::KINDS[p.kind()];
    e.out[2] = k.type_value;
    e.out[3] = k.family;
    e.out[8..10].copy_from_slice(&(length as u16).to_be_bytes());
    e.drop_undecodable = drop_undecodable;
    p.enc_body(&mut e);
    if drop_undecodable {
        // decoded objects hold the lists, empty
        e.drop_undecodable = false;
        let mut probe = Enc::canon();
        let before = {
            let mut x = Enc::canon();
            x.drop_undecodable = true;
            (crate::model_gen::KINDS[p.kind()].default)().enc_body(&mut x);
            x.out.len()
        };
        (crate::model_gen::KINDS[p.kind()].default)().enc_body(&mut probe);
        e.out.extend_from_slice(&probe.out[before..]);
    }
    e.out
}

/// Describe the first difference between two canonical forms by field name
pub fn first_difference(kind: usize, got: &dyn ModelPdu, want: &[u8]) -> String {
    let mut e = Enc::canon();
    e.trace = true;
    got.pdu_ref().header().enc(&mut e);
    got.enc_body(&mut e);
    let n = e.out.iter().zip(want).take_while(|(a, b)| a == b).count();
    let path = e.paths.iter().rev().find(|(o, _)| *o <= n).map_or(String::new(), |x| x.1.clone());
    format!(
        "{} field {} (got ..{:02x?}.., want ..{:02x?}..)",
        crate::model_gen::KINDS[kind].name,
        path,
        &e.out[n.min(e.out.len())..(n + 8).min(e.out.len())],
        &want[n.min(want.len())..(n + 8).min(want.len())]
    )
}
/// Name of the field at a wire offset
pub fn wire_field(p: &dyn ModelPdu, off: usize) -> String {
    let mut e = Enc::wire();
    e.trace = true;
    encode_pdu(p, &mut e);
    e.paths.iter().rev().find(|(o, _)| *o <= off).map_or(String::new(), |x| x.1.clone())
}
