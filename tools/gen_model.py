#!/usr/bin/env python3
"""Writes sim/src/model_gen.rs: the independent description of the wire layout.

Run once, by hand, against a reviewed tree (python3 tools/gen_model.py /repo); its output is
committed and is NOT regenerated by the checks: the checks compare the current tree against the
pinned layout (declared field order, widths, numeric enumerant values).
"""
import re, glob, sys, os
REPO = sys.argv[1] if len(sys.argv) > 1 else '/repo'
OUT = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'sim', 'src', 'model_gen.rs')

def strip(s):
    s = s.split('#[cfg(test)]')[0]
    return re.sub(r'//[^\n]*', '', s)

enums_src = strip(open(f'{REPO}/src/common/enums.rs').read())
ENUMS = {}
for m in re.finditer(r'((?:#\[[^\]]*\]\s*)*)pub enum (\w+)\s*\{(.*?)\n\}', enums_src, re.S):
    name, body = m[2], m[3]
    vals, cur, dflt = [], -1, None
    for part in body.split(','):
        p = part.strip()
        if not p: continue
        isd = '#[default]' in p
        p = re.sub(r'#\[[^\]]*\]', '', p).strip()
        mm = re.match(r'(\w+)(?:\s*=\s*(\w+))?$', p)
        if not mm: continue
        cur = int(mm[2].replace('_', ''), 0) if mm[2] else cur + 1
        vals.append((mm[1], cur))
        if isd: dflt = mm[1]
    ENUMS[name] = (vals, dflt)
LEN = {m[1]: int(m[2]) for m in re.finditer(r'impl FieldLen for (\w+) \{\s*fn field_len\(&self\) -> usize \{\s*(\d+)\s*\}', enums_src)}
LEN.update(ProtocolVersion=1, PduType=1, ProtocolFamily=1, DISLiveEntitySubprotocolNumber=1, EntityKind=1, Country=2,
           EmitterName=2, EmitterSystemFunction=1, EntityMarkingCharacterSet=1, VariableParameterRecordType=4)
BITFLAGS = {'FrozenBehavior': (1, 'u8', 7), 'ObjectStateAppearanceGeneral': (2, 'u16', 0xffff)}

STRUCTS, PDUS = {}, []
for f in sorted(glob.glob(f'{REPO}/src/common/data_types/*.rs')):
    mod = os.path.basename(f)[:-3]
    s = strip(open(f).read())
    traits = {}
    for m in re.finditer(r'impl (\w+) for (\w+)', s): traits.setdefault(m[2], set()).add(m[1])
    for m in re.finditer(r'pub struct (\w+) \{(.*?)\n\}', s, re.S):
        fields = [(v or '').strip() and (n, t) or (n, t, 'private') for v, n, t in re.findall(r'(pub )?(\w+): ([^\n]+?),\n', m[2] + '\n')]
        attr = s[:m.start()].rstrip().split('\n\n')[-1]
        c = re.search(rf'impl {m[1]} \{{.*?pub (?:const )?fn new\((.*?)\) -> Self', s, re.S)
        args = re.findall(r'(\w+): ([^,]+?)\s*(?:,|$)', c[1].strip()) if c else []
        dflt = 'Default' in traits.get(m[1], ()) or bool(re.search(r'derive\([^)]*Default[^)]*\)\]\s*$', attr))
        STRUCTS[m[1]] = dict(mod=mod, fields=fields, traits=traits.get(m[1], set()), dflt=dflt, args=args)
for f in sorted(glob.glob(f'{REPO}/src/*.rs')):
    mod = os.path.basename(f)[:-3]
    if mod in ('pdu_macro', 'lib'): continue
    s = strip(open(f).read())
    for m in re.finditer(r'define_pdu!\s*\{.*?struct (\w+)\s*\{\s*header: (\w+),\s*pdu_type: ([\w:]+),\s*protocol_family: ([\w:]+),\s*fields: \{(.*?)\n        \}\n', s, re.S):
        fields, counts = [], []
        for a, v, n, t in re.findall(r'((?:#\[[^\]]*\]\s*)*)(pub )?(\w+)\s*:\s*([^\n]+?),\s*(?=\n|$)', m[5]):
            c = re.search(r'#\[count = (.*?)\]', a)
            if c: counts.append((c[1], n))
            fields.append((n, t) if v else (n, t, 'private'))
        PDUS.append(dict(name=m[1], mod=mod, variant=m[3].split('::')[-1], family=m[4].split('::')[-1], fields=fields, counts=counts))
pt = dict(ENUMS['PduType'][0]); pf = dict(ENUMS['ProtocolFamily'][0])
PDUS.sort(key=lambda p: pt[p['variant']])
assert len(PDUS) == 66, len(PDUS)

# count/length fields of records: struct -> {list field: (count field, expression)}
REC_COUNT = {
 'AcousticEmitterSystemData': {'beam_records': 'number_of_beams'},
 'AttributeRecord': {'record_specific_fields': 'record_length'},
 'AttributeRecordSet': {'attribute_records': 'number_of_attribute_records'},
 'ElectromagneticEmissionBeamData': {'track_jam_targets': 'number_of_track_jam_targets'},
 'ElectromagneticEmissionSystemData': {'beam_data_records': 'number_of_beams'},
 'RecordSpecification': {'record_sets': 'number_of_record_sets'},
 'StandardVariableRecords': {'record_specific_fields': 'record_length'},
 'StandardVariableSpecification': {'standard_variable_records': 'number_of_standard_variable_records'},
 'VariableTransmitterParameters': {'record_specific_fields': 'record_length'},
}
HAND = {'VariableDatumRecord', 'RecordSpecificationElement', 'GridAxisDescriptor', 'GridDataRecord', 'DirectedEnergyDamage',
        'LinearSegmentParameter', 'AntennaPattern', 'ModulationParameters', 'EntityMarking'}
MAXCOUNT = {'u8': 255, 'u16': 65535, 'u32': 65535}
MINE_OPT = ['ground_burial_depth_offset','water_burial_depth_offset','snow_burial_depth_offset','mine_orientation','thermal_contrast','reflectance',
  'mine_emplacement_time','mine_entity_id','fusing','scalar_detection_coefficient','paint_scheme','number_of_trip_wires','number_of_vertices','vertices']

PRIM = {'u8','i8','u16','i16','u32','i32','u64','i64','f32','f64'}
used_enums, used_structs = set(), set()
def visit(t):
    t = t.strip()
    for w in re.findall(r'\w+', t):
        if w in PRIM or w in ('Vec', 'Option', 'String') or w.isdigit() or w in BITFLAGS: continue
        if w in STRUCTS: used_structs.add(w)
        elif w in ENUMS: used_enums.add(w)
        else: raise SystemExit(f'unknown type {w} in {t}')
for p in PDUS:
    for fl in p['fields']: visit(fl[1])
for n, st in STRUCTS.items():
    for fl in st['fields']:
        if fl[1] != 'GridAxisType' and fl[1] != 'DataRepresentationType': visit(fl[1])
used_enums |= {'ProtocolVersion', 'PduType', 'ProtocolFamily', 'DISLiveEntitySubprotocolNumber'}
# those with a codec of their own that no PDU uses
used_enums |= {'RepairGroups', 'TransmitterAntennaPatternReferenceSystem'}

o = []
w = o.append
w('// Written by tools/gen_model.py, then committed: the pinned wire layout. Not regenerated by the checks.')
w('#![allow(deprecated, unreachable_patterns, clippy::all)]')
w('use crate::model::*;')
w('use open_dis_rust::common::{Pdu, PduHeader, LiveEntityPduHeader, GenericHeader, SerializedLength};')
w('use open_dis_rust::common::enums::*;')
w('use open_dis_rust::pdu_macro::{FieldSerialize, FieldDeserialize, FieldLen};')
for n in sorted(STRUCTS): w(f'use open_dis_rust::common::data_types::{STRUCTS[n]["mod"]}::{n};')
for p in PDUS: w(f'use open_dis_rust::{p["mod"]}::{p["name"]};')
w('')
# enums
eid = {}
for i, n in enumerate(sorted(used_enums)):
    vals, d = ENUMS[n]; eid[n] = i; wd = LEN[n]
    dv = dict(vals)[d]
    w(f'const {n.upper()}_ALL: &[{n}] = &[' + ', '.join(f'{n}::{v}' for v, _ in vals) + '];')
    w(f'const {n.upper()}_NUM: &[u32] = &[' + ', '.join(str(k) for _, k in vals) + '];')
    w(f'pub fn {n.lower()}_value(v: {n}) -> u32 {{ match v {{')
    for v, k in vals: w(f'    {n}::{v} => {k},')
    w(f'    other => other as u32,\n}} }}')
    w(f'impl Model for {n} {{')
    w(f'    fn gen_(g: &mut Gen) -> Self {{ g.charge({wd}); *g.pick_enum({i}, {n.upper()}_ALL, {n.upper()}_NUM) }}')
    w(f'    fn enc(&self, e: &mut Enc) {{ e.enumv({n.lower()}_value(*self), {wd}, {i}); }}')
    w('}')
w('pub static ENUM_INFO: &[EnumInfo] = &[')
for n in sorted(used_enums):
    vals, d = ENUMS[n]
    w(f'    EnumInfo {{ name: "{n}", width: {LEN[n]}, default: {dict(vals)[d]}, values: &[' + ', '.join(str(k) for k in sorted(k for _, k in vals)) + '] },')
w('];')
for n, (wd, ty, mask) in BITFLAGS.items():
    w(f'impl Model for {n} {{')
    w(f'    fn gen_(g: &mut Gen) -> Self {{ {n}::from_bits_retain(g.{ty}() & {mask}) }}')
    w(f'    fn enc(&self, e: &mut Enc) {{ e.{ty}(self.bits()); }}')
    w('}')

def gen_expr(t, budget_hint=''):
    return f'<{t.replace("Vec<", "Vec::<").replace("Option<", "Option::<") if False else t} as Model>::gen_(g)'

def cast(ctype, expr): return f'({expr}) as {ctype}'

def enc_line(nm, t):
    """The field at the width it has on the pinned tree, whatever its type is now"""
    if t in PRIM: return f'e.fixed("{nm}", {int(t[1:]) // 8}, b\'{t[0]}\', |e| self.{nm}.enc(e));'
    if t in ENUMS: return f'e.fixed("{nm}", {LEN[t]}, b\'u\', |e| self.{nm}.enc(e));'
    return f'e.at("{nm}", |e| self.{nm}.enc(e));'

for n in sorted(STRUCTS):
    st = STRUCTS[n]
    if n in HAND: continue
    fs = st['fields']
    cnt = REC_COUNT.get(n, {}); cfields = set(cnt.values()); types = {f[0]: f[1] for f in fs}
    w(f'impl Model for {n} {{')
    w('    fn gen_(g: &mut Gen) -> Self {')
    for fl in fs:
        nm, t = fl[0], fl[1]
        if nm in cfields: w(f'        g.charge({ {"u8":1,"u16":2,"u32":4}[t] });')
        elif nm in cnt: w(f'        let {nm} = g.list({MAXCOUNT[types[cnt[nm]]]});')
        else: w(f'        let {nm} = g.make();')
    for l, c in cnt.items(): w(f'        let {c} = g.cnt(Vec::len(&{l})) as _;')
    if st['dflt']:   # fields this description does not know do not keep it from compiling
        w(f'        let mut this = {n}::default(); ' + ' '.join(f'this.{f[0]} = {f[0]};' for f in fs) + ' this')
    else: w(f'        {n} {{ ' + ', '.join(f[0] for f in fs) + ' }')
    w('    }')
    w('    fn enc(&self, e: &mut Enc) {')
    for fl in fs:
        if fl[0] in cfields: w('        e.count(|e| ' + enc_line(*fl[:2])[:-1] + ');')
        else: w('        ' + enc_line(*fl[:2]))
    w('    }')
    w('}')

# PDUs
for p in PDUS:
    n = p['name']; types = {f[0]: f[1] for f in p['fields']}
    cmap = {}
    special = []
    for c, l in p['counts']:
        if re.fullmatch(r'\w+', c): cmap[l] = c
        else: special.append((c, l))
    w(f'impl ModelPdu for {n} {{')
    w(f'    fn kind(&self) -> usize {{ {PDUS.index(p)} }}')
    w('    fn set(&mut self, g: &mut Gen) {')
    cset = set(cmap.values())
    late = []
    for fl in p['fields']:
        nm, t = fl[0], fl[1]
        wd = {'u8':1,'u16':2,'u32':4,'Vec<u8>':0}
        if len(fl) == 3: w(f'        g.charge({wd[t]});'); continue
        if nm in cset or (n in ('SignalPdu','IntercomSignalPdu') and nm == 'data_length') or nm in ('intercom_parameters_length','modulation_parameter_length','antenna_pattern_length'):
            w(f'        g.charge({wd[t]});'); continue
        if nm in cmap: w(f'        g.put_list(&mut self.{nm}, {MAXCOUNT[types[cmap[nm]]]});'); continue
        if n in ('SignalPdu','IntercomSignalPdu') and nm == 'data':
            w('        self.data_length = g.bit_length(65535) as _;')
            w('        self.data = g.octets((self.data_length as usize).div_ceil(8));')
            w('        self.data_length = g.cnt(self.data_length as usize) as _;'); continue
        if nm == 'intercom_parameters':
            w('        g.put_list(&mut self.intercom_parameters, 8000);')
            w('        self.intercom_parameters_length = g.cnt(self.intercom_parameters.len() * 8) as _;'); continue
        if n == 'IFFPdu' and nm == 'iff_parameters':
            w('        g.put_list(&mut self.iff_parameters, 65535);')
            w('        self.secondary_operational_data.number_of_iff_fundamental_parameter_records = g.cnt(self.iff_parameters.len()) as _;'); continue
        if nm == 'modulation_parameters':
            w('        let len = g.small_len(255); self.modulation_parameter_length = len as _;')
            w('        self.modulation_parameters = if len == 0 { None } else { ModulationParameters::deserialize(&mut g.octets(len).as_slice(), len as u8) };'); continue
        if nm == 'antenna_pattern':
            w('        let len = g.small_len(2000); self.antenna_pattern_length = len as _;')
            w('        self.antenna_pattern = if len == 0 { None } else { AntennaPattern::deserialize(&mut g.octets(len).as_slice(), len as u16) };'); continue
        if n == 'MinefieldDataPdu' and nm in MINE_OPT:
            inner = re.match(r'Vec<Option<(.*)>>$', t)[1]
            w(f'        self.{nm} = if g.undecodable {{ g.opt_list::<{inner}>() }} else {{ Vec::new() }};'); continue
        w(f'        g.put(&mut self.{nm});')
    for l, c in cmap.items(): w(f'        self.{c} = g.cnt(self.{l}.len()) as _;')
    w('    }')
    w('    fn enc_body(&self, e: &mut Enc) {')
    for fl in p['fields']:
        nm, t = fl[0], fl[1]
        if len(fl) == 3:
            if t != 'Vec<u8>': w(f'        e.pad({ {"u8":1,"u16":2,"u32":4}[t] });')
            continue
        if n == 'MinefieldDataPdu' and nm in MINE_OPT:
            w(f'        if !e.drop_undecodable {{ e.at("{nm}", |e| self.{nm}.enc(e)); }}'); continue
        iscount = nm in cset or nm in ('data_length','intercom_parameters_length','modulation_parameter_length','antenna_pattern_length')
        if iscount: w('        e.count(|e| ' + enc_line(nm, t)[:-1] + ');')
        else: w('        ' + enc_line(nm, t))
    w('    }')
    w('    fn pdu(&mut self) -> &mut dyn Pdu<Header = PduHeader> { self }')
    w('    fn pdu_ref(&self) -> &dyn Pdu<Header = PduHeader> { self }')
    w('}')
w('pub static KINDS: &[Kind] = &[')
for p in PDUS:
    n = p['name']
    w(f'    Kind {{ name: "{n}", type_value: {pt[p["variant"]]}, family: {pf[p["family"]]}, pdu_type: PduType::{p["variant"]},')
    w(f'      new: || Box::new({n}::new()), default: || Box::new({n}::default()),')
    w(f'      de: |b| {n}::deserialize(b).map(|p| Box::new(p) as Box<dyn ModelPdu>),')
    w(f'      de_wh: |b, h| {n}::deserialize_without_header(b, h).map(|p| Box::new(p) as Box<dyn ModelPdu>),')
    w(f'      is: |p| p.as_any().is::<{n}>(),')
    w(f'      down: |p| p.as_any().downcast_ref::<{n}>().map(|p| p as &dyn ModelPdu) }},')
w('];')

def via(n):
    """How to make the record anew through its constructor"""
    st = STRUCTS[n]; fs = [f[:2] for f in st['fields']]; names = [a for a, _ in st['args']]
    if n in ('EntityId', 'EventId'): v = ['t.simulation_address.site_id', 't.simulation_address.application_id', 't.' + fs[1][0]]
    elif names and set(names) < {f[0] for f in fs}:
        rest = ' '.join(f'n.{f[0]} = t.{f[0]};' for f in fs if f[0] not in names)
        return f'Some(|r| {{ let t = take::<{n}>(r); let mut n = {n}::new(' + ', '.join('t.' + a for a in names) + f'); {rest} Box::new(Holder(n)) }})'
    elif len(names) != len(fs) or not fs: return 'None'
    elif set(names) == {f[0] for f in fs}: v = ['t.' + a for a in names]
    elif [t for _, t in st['args']] == [f[1] for f in fs]: v = ['t.' + f[0] for f in fs]
    else: return 'None'
    return f'Some(|r| {{ let t = take::<{n}>(r); Box::new(Holder({n}::new(' + ', '.join(v) + '))) })'

# standalone records
w('pub static RECORDS: &[RecordKind] = &[')
for n in sorted(STRUCTS):
    st = STRUCTS[n]; tr = st['traits']
    if n in ('AntennaPattern', 'ModulationParameters'):
        lt = 'u16' if n == 'AntennaPattern' else 'u8'
        w(f'    RecordKind {{ name: "{n}", new: |g| Box::new(Holder(<{n} as Model>::gen_(g))), ser: |r, b| r.downcast::<{n}>().serialize(b),')
        w(f'      de: |b, len| Box::new(Holder({n}::deserialize(b, len as {lt}).unwrap_or_default())),')
        w(f'      fser: Some(|r, b| FieldSerialize::serialize_field(r.downcast::<{n}>(), b)),')
        w(f'      fde: Some(|b, len| Box::new(Holder(<{n} as open_dis_rust::pdu_macro::FieldDeserializeWithLen>::deserialize_with_len(b, len)))),')
        w(f'      len: Some(|r| FieldLen::field_len(r.downcast::<{n}>())), const_len: None, via: None }},')
        continue
    w(f'    RecordKind {{ name: "{n}", new: |g| Box::new(Holder(<{n} as Model>::gen_(g))), ser: |r, b| r.downcast::<{n}>().serialize(b),')
    w(f'      de: |b, _| Box::new(Holder({n}::deserialize(b))),')
    fs = f'Some(|r, b| FieldSerialize::serialize_field(r.downcast::<{n}>(), b))' if 'FieldSerialize' in tr else 'None'
    fd = f'Some(|b, _| Box::new(Holder(<{n} as FieldDeserialize>::deserialize_field(b))))' if 'FieldDeserialize' in tr else 'None'
    fl = f'Some(|r| FieldLen::field_len(r.downcast::<{n}>()))' if 'FieldLen' in tr else 'None'
    sl = f'Some(<{n} as SerializedLength>::LENGTH)' if 'SerializedLength' in tr else 'None'
    w(f'      fser: {fs}, fde: {fd}, len: {fl}, const_len: {sl}, via: {via(n)} }},')
for n in ('PduHeader', 'LiveEntityPduHeader'):
    w(f'    RecordKind {{ name: "{n}", new: |g| Box::new(Holder(<{n} as Model>::gen_(g))), ser: |r, b| GenericHeader::serialize(r.downcast::<{n}>(), b),')
    w(f'      de: |b, _| Box::new(Holder(<{n} as GenericHeader>::deserialize(b))), fser: ' + ('Some(|r, b| FieldSerialize::serialize_field(r.downcast::<PduHeader>(), b))' if n=='PduHeader' else 'None')
      + ', fde: ' + ('Some(|b, _| Box::new(Holder(<PduHeader as FieldDeserialize>::deserialize_field(b))))' if n=='PduHeader' else 'None')
      + ', len: ' + ('Some(|r| FieldLen::field_len(r.downcast::<PduHeader>()))' if n=='PduHeader' else 'None') + f', const_len: Some(<{n} as SerializedLength>::LENGTH), via: Some(|r| Box::new(Holder(take::<{n}>(r).anew()))) }},')
# standalone enumerations with a codec of their own
for n in sorted(used_enums):
    has = {t for t in ('FieldSerialize', 'FieldDeserialize', 'FieldLen') if re.search(rf'impl {t} for {n} ', enums_src)}
    if len(has) != 3: continue
    w(f'    RecordKind {{ name: "{n}", new: |g| Box::new(Holder(<{n} as Model>::gen_(g))), ser: |r, b| FieldSerialize::serialize_field(r.downcast::<{n}>(), b),')
    w(f'      de: |b, _| Box::new(Holder({n}::deserialize(b))),')
    w(f'      fser: Some(|r, b| FieldSerialize::serialize_field(r.downcast::<{n}>(), b)), fde: Some(|b, _| Box::new(Holder(<{n} as FieldDeserialize>::deserialize_field(b)))), len: Some(|r| FieldLen::field_len(r.downcast::<{n}>())), const_len: None, via: None }},')
# every enumeration as a value of its own: number on the wire, name of the enumerant it decodes to
enums_full = open(f'{REPO}/src/common/enums.rs').read()
w('// the enumerations')
ALLE = []
for n in sorted(ENUMS):
    vals, d = ENUMS[n]
    m = re.search(rf'impl {n} \{{[^}}]*fn deserialize<B: Buf>\(buf: &mut B\) -> Self \{{\s*Self::from_(u\d+)\(buf', enums_full)
    if not m or not vals: continue
    w(f'    RecordKind {{ name: "{n}", new: |g| EnumRec::draw(g, &ALL_ENUMS[{len(ALLE)}]), ser: EnumRec::ser, fser: None, fde: None, len: None, const_len: None, via: None,')
    w(f'      de: |b, _| EnumRec::named(&ALL_ENUMS[{len(ALLE)}], format!("{{:?}}", {n}::deserialize(b))) }},')
    ALLE.append((n, int(m[1][1:]) // 8, dict(vals)[d], vals))
w('];')
w(f'pub const FIRST_ENUM: usize = RECORDS.len() - ALL_ENUMS.len();')
w('pub static ALL_ENUMS: &[EnumDef] = &[')
for n, wd, dv, vals in ALLE:
    w(f'    EnumDef {{ name: "{n}", width: {wd}, default: {dv}, values: &[' + ', '.join(f'({k}, "{v}")' for v, k in vals) + '] },')
w('];')
# the named flags: what each constant is on the wire
w('/// (flag, its bits in the library, its assigned bits, the set read back from bits)')
w('pub static FLAGS: &[FlagDef] = &[')
for m in re.finditer(r'pub struct (\w+): (u\d+) \{\n((?:\s*const .*\n)+)\s*\}', enums_full):
    for c in re.finditer(r'const (\w+) = (\d+) << (\d+);', m[3]):
        w(f'    FlagDef {{ name: "{m[1]}::{c[1]}", bits: |v| if v {{ u64::from({m[1]}::{c[1]}.as_{m[2]}()) }} else {{ u64::from({m[1]}::{c[1]}.bits()) }}, assigned: {int(c[2]) << int(c[3])}, back: |v| {m[1]}::from_{m[2]}(v as {m[2]}).is_some_and(|x| x == {m[1]}::{c[1]} && x.contains({m[1]}::{c[1]})) }},')
w('];')
open(OUT, 'w').write('\n'.join(o) + '\n')
print(len(o), 'lines;', len(used_enums), 'enums', len(STRUCTS), 'records', len(PDUS), 'pdus')
