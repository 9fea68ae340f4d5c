#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that long texts stay readable)."""
import json, os
D='src/common/data_types/'
PD=['src/entity_information.rs','src/warfare.rs','src/logistics.rs','src/simulation_management.rs','src/simulation_management_with_reliability.rs','src/distributed_emissions.rs','src/radio_communications.rs','src/entity_management.rs','src/minefield.rs','src/synthetic_environment.rs','src/information_operations.rs']
MACRO='src/pdu_macro.rs'; HDR='src/common/pdu_header.rs'
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=(),hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=hook)))
codec=('define_pdu! generated serialize/deserialize over the FieldSerialize/FieldDeserialize traits',MACRO)
recs=('hand-written serialize/deserialize pair of every record', D)
p('C01','A PDU that arrives intact is the PDU that was sent',
 "For each of the 66 PDU types: whenever a datagram holding serialized PDUs reaches a receiver unaltered, the receiver obtains from it exactly the PDUs that were sent, in order, with every header field (protocol version, exercise, timestamp, status, length) and every body field equal, including every record of every list and every bit pattern of integers, floats, enumerations and text. "
 "This holds whatever else happened on the network (other datagrams lost, duplicated, delayed, reordered, damaged, receivers restarted) and whatever the receive buffer held before or holds after the datagram. "
 "PDUs are assumed well formed: count and length fields match the lists they announce, and enumerations hold defined values.",
 ['inputs','fault_sequences','histories'],'all PDU types, contents and list sizes up to the maximum PDU size; all sequences of loss, duplication, delay, reordering, damage to other datagrams, receiver restarts, buffer reuse',
 'The tests round-trip default-constructed PDUs with empty lists and zero-valued fields through one fresh buffer and mostly compare only the header; they never vary field contents, lists, buffer reuse or what happened before.',
 [MACRO,HDR,'src/common/enums.rs']+PD,[codec,recs,('PduHeader serialize/deserialize',HDR)],['Pdu::serialize','Pdu::deserialize','Pdu::deserialize_without_header'])
p('C02','Independent DIS peers and this library understand each other byte for byte',
 "In a mixed exercise, the bytes this library emits for a PDU are exactly the documented wire layout: 12-octet header, then the fields in their declared order and width, big-endian, IEEE-754 floats, enumerations as their assigned numeric values, fixed-size text zero-padded, variable datums padded to 64 bits, and nothing else. "
 "The sub-fields of the status octet sit at their documented bits: what a sender sets through the accessors of the status record is what a peer finds there, each setter leaving the other bits alone; a named flag of a set of flags (frozen behaviour, appearance) is the assigned bit. "
 "A PDU just created carries the current protocol version and an empty status. "
 "Conversely a PDU encoded by an independent implementation of that layout is decoded to the values it encodes.",
 ['inputs','fault_sequences','histories'],'all PDU types and contents exchanged in both directions between library nodes and independently written reference nodes, under network faults',
 'A symmetric mistake (same wrong order, width, enumerant or byte order on both sides) survives every round-trip test; the tests contain no independent encoding.',
 [MACRO,HDR,'src/common/enums.rs',D]+PD,[codec,recs,('numeric enumerant values and widths','src/common/enums.rs')],['bytes produced by Pdu::serialize','values returned by Pdu::deserialize'])
p('C03','Declared length, emitted and consumed bytes agree; bundles split exactly',
 "Serializing a PDU appends exactly as many octets as its header length field announces, which is also what the length calculation reports for it, whatever the length field held before; a PDU just created by its constructor announces the length it has. "
 "Decoding a PDU consumes exactly that many octets, so PDUs packed back to back into one datagram or stream, of any types and sizes and followed by any other bytes, are recovered one after the other without loss or overlap.",
 ['inputs','histories','fault_sequences'],'all PDU types, list shapes, orders and groupings of PDUs into datagrams, and trailing bytes',
 'Tests check the length only of default PDUs with empty lists and decode one PDU per buffer; lengths of populated lists, padding and nested records, and the cursor position after decoding, are never looked at.',
 [MACRO,D,HDR]+PD,[('calculate_length / FieldLen sums and SerializedLength constants',MACRO),('length bounded body decoding',MACRO)],['header length','BytesMut length','Buf::remaining after deserialize'])
p('C04','Decoding does not depend on how the received bytes are split into chunks',
 "Decoding the same octets gives the same outcome (same PDU or an error in both cases, same number of octets consumed on success) whether they sit in one contiguous slice or arrive as any sequence of separately stored segments, with boundaries anywhere including inside a field.",
 ['inputs','schedules'],'all segmentations of all PDU encodings (intact or damaged), chosen independently of field boundaries',
 'All tests decode from a single contiguous BytesMut; no test uses a buffer whose chunk() is shorter than remaining().',
 [MACRO,HDR,D,'src/common/enums.rs'],[('all reads go through bytes::Buf accessors',MACRO),recs],['Pdu::deserialize on non-contiguous Buf'])
p('C05','No received datagram can crash or hang a receiver',
 "Whatever octets a receiver is handed (random garbage, a valid PDU with flipped bits, overwritten count, length or type fields, truncation, concatenation of fragments) and whichever PDU type it tries to decode them as, decoding returns a PDU or an error: it never panics, aborts, overflows or loops without end. The receiver goes on to decode the following intact datagrams correctly.",
 ['inputs','fault_sequences'],'all byte strings up to the maximum datagram size, decoded as any PDU type, at any point of a history',
 'Tests feed only well-formed bytes (plus one wrong-type check); damaged input is never tried.',
 [MACRO,HDR,D,'src/common/enums.rs'],[('body view that reports underflow instead of panicking',MACRO),('unknown enumerants fall back to the default','src/common/enums.rs')],['Pdu::deserialize','Pdu::deserialize_without_header','PduHeader::get_pdu_type'])
p('C06','A PDU cut short is reported as an error, never delivered',
 "If a datagram or stream ends before the end of a PDU, at whatever octet, decoding that PDU reports an error; a PDU with missing or invented content is never returned. The same holds if the header declares a length too small for what the PDU's own counts announce; complete PDUs before the cut in the same datagram are still delivered.",
 ['inputs','fault_sequences','crash_points'],'all PDU types and contents, all cut positions from 0 to one octet short, all too-small declared lengths, any surrounding bytes in the buffer',
 'No test decodes a truncated buffer.',
 [MACRO,HDR,D],[('declared length checked against available bytes and body reads bounded by it',MACRO)],['result of Pdu::deserialize / get_pdu_type on prefixes'])
p('C07','Decoding a datagram costs memory and work proportional to its size',
 "The memory reserved and the work done while decoding one datagram are bounded by a small multiple of the number of octets actually received, regardless of the counts and lengths those octets claim.",
 ['inputs','fault_sequences'],'all datagrams, in particular those whose count or length fields announce far more than the datagram holds, for every PDU type',
 'No test decodes a datagram with inconsistent counts, and none measures allocation or work.',
 [MACRO,D],[('get_items/get_octets reserve no more than the buffer can fill and stop at its end',MACRO)],['allocator','number of buffer reads'])
p('C08','A PDU is never taken for one of another type',
 "A PDU just created by its constructor says it is of its own type and protocol family. The PDU type peeked from a received datagram is the type its sender put there, for every type, and is absent when fewer than 12 octets are present. Decoding octets of one PDU type as another type, directly or with an already decoded header, fails with an error, and a PDU handed on as a generic PDU can be recovered as its own type and only that.",
 ['inputs','fault_sequences','histories'],'all ordered pairs of PDU types, contents, misdirected or stale datagrams, peeking on any prefix',
 'One test checks one mismatching pair; peeking is tested for two types only.',
 [MACRO,HDR,'src/common/generic_header.rs','src/common/pdu.rs','src/common/enums.rs']+PD,[('type check before body decoding',MACRO),('PduHeader::get_pdu_type',HDR),('Pdu::as_any',MACRO)],['PduHeader::get_pdu_type','Pdu::deserialize','Pdu::deserialize_without_header','Pdu::as_any'])
p('C09','Sending appends a whole PDU or fails leaving the send buffer untouched',
 "Serializing a PDU only appends to the caller's buffer: bytes already there stay as they are. A PDU of up to 8192 octets is accepted; a larger one is refused with an error, leaving the buffer exactly as it was, and both the buffer and the PDU object (once shrunk) can be used for further sends that come out right.",
 ['inputs','histories','fault_sequences'],'all PDU types with lists, sizes around and beyond the maximum PDU size, any buffer contents and capacity, any sequence of failed and successful sends',
 'No test serializes an oversize PDU or into a non-empty buffer.',
 [MACRO,'src/common/constants.rs','src/common/dis_error.rs'],[('length computed before any byte is written',MACRO),('MAX_PDU_SIZE_OCTETS','src/common/constants.rs')],['Pdu::serialize result and buffer','Pdu::calculate_length'])
p('C10','Encoding and decoding are independent of history and of concurrent tasks',
 "What a task gets from serializing or decoding a PDU depends only on that PDU or those octets: not on which PDUs were encoded or decoded before, on whether the same object or buffer was used before, on failed operations, or on how other tasks' encodes and decodes are interleaved with it, even when it is suspended in the middle of the operation.",
 ['schedules','histories'],'all interleavings of encode/decode/construct operations of several tasks, with switches at any buffer read, memory allocation, clock reading or lock wait inside the library, and all operation histories',
 'Tests run each operation once on fresh objects; none runs operations concurrently or repeats them on used objects.',
 [MACRO,HDR,D],[('no shared or global state: every operation works on its arguments only',MACRO)],['results of concurrent Pdu::serialize / Pdu::deserialize'])
p('C11','The DIS timestamp denotes the time at which the PDU was created',
 "The timestamp put into a freshly created PDU or header, or computed on request, is the time past the hour, in units of 3600 s / 2^31 and to within two units, of an instant between the start and the end of that call, whatever the clock does meanwhile (ticking over a second, minute or hour, being stepped). "
 "Serializing, forwarding or decoding a PDU never changes its timestamp.",
 ['schedules','inputs','fault_sequences'],'all clock values, all clock movements between and during calls (ticks at any instant, forward and backward steps, skew between nodes), all delays between creation, sending and decoding',
 'Tests cannot control the wall clock, so rollover between clock readings, scale and precision are never exercised; no test looks at the timestamp value.',
 [HDR,'src/common/live_entity_pdu_header.rs',MACRO],[('calculate_dis_timestamp reads the clock once and converts in integers',HDR)],['header timestamp after new()/default()','header timestamp after deserialize'],[('wall clock','the only ambient input of the library','chrono::Utc::now')])
p('C12','A relay that decodes and re-serializes PDUs is transparent',
 "Decoding a PDU and serializing the result again yields exactly the octets that were received, padding fields of the layout included (alignment octets after a variable datum are zero), over any number of hops, so gateways, loggers and replay tools can forward PDUs without altering them.",
 ['inputs','histories','fault_sequences'],'all well-formed PDUs of all types, any number of relay hops, interleaved with other traffic, relay crashes and restarts',
 'No test serializes a decoded PDU.',
 [MACRO,HDR,D,'src/common/enums.rs'],[codec,recs],['bytes out of a relay versus bytes in'])
p('C13','A PDU log survives a crash: everything completely written is recovered',
 "If PDUs are appended to a log and the writer crashes at any point, leaving a torn or zero-filled tail, reading the log back recovers every completely written PDU, in order and unaltered, and recognises the torn tail as incomplete instead of crashing or inventing a PDU.",
 ['crash_points','histories','inputs'],'all sequences of PDUs, all crash points, any tail (cut at any octet, zero-filled block)',
 'No test reads more than one PDU from a buffer or decodes an incomplete one.',
 [MACRO,HDR],[('self-delimiting PDUs via the header length',HDR),('underflow reported as error',MACRO)],['sequence of PDUs read back from the simulated disk'])
p('C14','Unknown enumeration values from newer peers do no collateral damage',
 "When a peer sends a well-formed PDU in which some enumeration field carries a value this library does not know, the PDU is still delivered: that field takes its default value and every other field, every list and the framing are exactly as sent. "
 "The same holds for every enumeration decoded on its own: an unassigned number gives the default and consumes exactly the width of the enumeration.",
 ['inputs','fault_sequences','configurations'],'all PDU types, every enumeration field in them, all undefined values of its width, one or several fields at once, in mixed-version exercises',
 'No test decodes an undefined enumerant.',
 ['src/common/enums.rs',D,HDR],[('from_uN(..) with fallback to the default variant','src/common/enums.rs')],['fields returned by Pdu::deserialize'])
p('C15','Every record type travels on its own through a stream unchanged',
 "Each public record type (identifiers, vectors, datums, emitter, radio, minefield, environment and IFF records, headers of either kind), made field by field or by its constructor and serialized on its own into a stream among other records, is decoded again to equal values, consumes exactly the octets it produced, produces as many octets as its length report says, and follows the declared big-endian layout. "
 "Every enumeration of the library, used in a PDU or not, decodes each of its assigned numbers, at its declared width, to the enumerant of that number.",
 ['inputs','histories','schedules'],'all record types and contents, any order of records in a stream, any segmentation of the stream',
 'Records have almost no tests of their own; some (acoustic emitter system data, grid records, live entity header) are not reached through any PDU test.',
 [D,'src/common/live_entity_pdu_header.rs',HDR],[recs,('FieldLen/SerializedLength',D)],['record serialize/deserialize'])
p('C16','Vector operators and size helpers are correct',
 "The vector operators obey ordinary vector algebra, and the size helpers agree with the documented limits.",
 ['inputs'],'all operand values',
 'The tests sample a few operand values.',
 [D+'vector3_float.rs','src/common/constants.rs'],[('operator implementations',D+'vector3_float.rs')],['return values'])
p('C17','Sending costs memory and work proportional to the PDU',
 "Serializing a PDU, or working out its length, costs memory and work bounded by a small multiple of the octets the PDU really holds (plus, once, those already in the send buffer, which may have to move for it to grow), regardless of what its count and length fields claim, of how often it was sent before, and also when the PDU is refused for its size.",
 ['inputs','histories'],'all PDU types, contents and sizes up to and far beyond the maximum, objects whose counts and lengths disagree with their lists, any send buffer',
 'No test measures what serializing costs.',
 [MACRO,D],[('field by field serialization and length calculation',MACRO)],['allocator','control flow of Pdu::serialize and Pdu::calculate_length'])
p('C18','A process that goes on for long holds no more memory and does no more work',
 "However many PDUs and records a process has created, serialized, been refused, peeked at, decoded or failed to decode, once they are dropped the memory the library holds, and the work one more PDU takes, do not keep growing with the number handled so far.",
 ['histories','inputs','fault_sequences'],'all sequences of operations of any length, all PDU and record types, intact, damaged, mistyped and refused ones, any stretch of time',
 'No test runs more than a few operations in a process, or looks at memory.',
 [MACRO,HDR,'src/common/enums.rs',D],[('no state is kept between operations',MACRO)],['allocator','control flow of all operations'])
p('C19','Errors tell a receiver or sender whether to wait, to skip or to give up',
 "When the octets of a PDU arrive bit by bit on a byte stream, every attempt to decode it before its last octet is there reports a buffer underflow, whose figures ask for no more octets than are missing, and the first attempt after that octet arrived yields the PDU, whatever follows it. A complete PDU of another type than asked for, or one whose length field is shorter than a header, is reported as an invalid header, not as an underflow that more octets could cure. A PDU too large to send is refused as exceeding the size limit, with its true size and the limit of 8192 octets.",
 ['inputs','histories','fault_sequences'],'all PDU types and contents, all divisions of a stream into arrivals, any number of attempts in between, lost connections, all oversize contents',
 'Unit tests decode whole PDUs, or check that a handful of cuts give some error; none looks at what the error says or tries again when more has arrived.',
 [MACRO,'src/common/dis_error.rs','src/common/pdu.rs',HDR],[('underflow, header and size errors',MACRO),('error variants and their figures','src/common/dis_error.rs')],['error variant and figures','decode outcome per arrival'])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl')
with open(out,'w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
for x in P: assert len(x['title'])<=80,(x['id'],len(x['title']))
