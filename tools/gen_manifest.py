#!/usr/bin/env python3
import json, os
here=os.path.dirname(os.path.abspath(__file__))
T="deterministic simulation with fault injection: "
tech={
'C01':"seeded exercises over a faulty network (loss, duplication, reorder, damage, partition, restart); receiver results compared with what was sent",
'C02':"mixed exercises between the library and an independent reference encoder; octets and decoded values compared",
'C03':"bundled datagrams from both kinds of sender, framing conservation over the history",
'C04':"each delivery replayed through differently segmented receive buffers, outcomes compared",
'C05':"damaged, garbage, spliced and mistyped datagrams; progress with the following intact ones",
'C06':"torn datagrams and shortened length fields; nothing may be delivered past the cut",
'C07':"hostile counts and lengths under a counting allocator, step-counting buffers and edge counters",
'C08':"mixed-type traffic, mistyped decodes and generic-PDU recovery against the sender's record",
'C09':"senders with reused buffers and objects, oversize PDUs and failed sends, octet-exact buffer history",
'C17':"senders of large, oversize and inconsistent objects into reused buffers under a counting allocator, counted block operations and edge counters",
'C18':"seeded long lives of thousands of operations on ever other content, with damage, refusals and a moving clock, under a counting allocator and edge counters",
'C19':"PDUs arriving octet by octet on byte streams that stall and break, a decoding attempt per arrival, mistyped, mislengthed and oversize ones; causes and figures of the errors checked",
'C10':"seeded preemptive scheduling of tasks at control-flow edges, buffer reads, allocations and lock waits; history replays",
'C11':"simulated wall clock that ticks and steps between any two readings; interval oracle",
'C12':"multi-hop relays over a faulty network; forwarded octets compared with received ones",
'C13':"simulated log disk with torn and zero-filled tails at seeded crash points; recovery compared with the written history",
'C14':"peers of a newer revision: seeded unknown enumerants; collateral differences reported",
'C15':"streams of bare records through segmented buffers, compared with the reference encoder",
}
note="Seeded search over simulated executions of the real library: a sample, not an enumeration. Trusts the reference wire layout in sim/src/model*.rs (written from the field declarations, not from the encoders) and the simulator's seams."
checks=[]
for l in open(os.path.join(here,'..','properties.jsonl')):
    d=json.loads(l)
    if d['id'] in tech:
        c=f"./check.sh {d['id']}"
        checks.append({"property":d['id'],"quick_cmd":c,"thorough_cmd":"VERIF_TIER=thorough "+c,"evidence_file":f"evidence/{d['id']}.json","technique":T+tech[d['id']],"level":"exploration","level_note":note})
m={"version":1,"setup_cmd":"./check.sh --build","checks":checks,
"not_applicable":[{"property":"C16","reason":"pure functions of their arguments: no scheduling, time, I/O, fault or second party for an execution to vary in, so simulating executions decides nothing that a plain property test would not"}],
"notes":"No hooks in /repo: every seam (clock_gettime, futex syscalls, getrandom, global allocator, SanitizerCoverage edge callbacks, Buf trait) is replaced from the harness binary. Replay a violation with ./check.sh --replay FILE."}
json.dump(m,open(os.path.join(here,'..','MANIFEST.json'),'w'),indent=1); open(os.path.join(here,'..','MANIFEST.json'),'a').write('\n')
