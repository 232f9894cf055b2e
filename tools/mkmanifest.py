#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of what is claimed."""
import json
T = "deterministic simulation with fault injection: "
CLAIMED = {
 "C01": ("exploration", T + "seeded step histories on the real builder under a simulated allocator, cancelled at arbitrary points, against an ownership model",
   "Seeded search: evidence, not proof. The builder, vtables and derived code are real; heap and values are the simulator's, so double frees, leaks, use of freed memory at the allocator boundary, wrong layouts and unexpected panics are seen, plain reads of released memory only through their consequences."),
 "C02": ("exploration", T + "seeded step histories run to completion, the outcome compared with a model value natively, through views and type-erased",
   "Seeded search over one universe of about 60 root types; the reference model of the builder is the simulator's."),
 "C03": ("exploration", T + "seeded step histories in which the nth call of user code (parse, default, hash, eq, cmp, invariant) panics or refuses",
   "Seeded search; after an injected panic values are audited, container buffers are not."),
 "V01": ("exploration", T + "seeded histories of type-erased operations shadowed by native twins, under a simulated allocator with failing callbacks",
   "Seeded search over a registry of about 130 types."),
 "V02": ("exploration", T + "seeded histories of type-erased operations and every observation compared with the native operation on twins",
   "Seeded search over a registry of about 130 types."),
 "J01": ("exploration", T + "seeded values written through simulated sinks that take any number of bytes, interrupt, refuse and panic, every attempt recorded and compared with an independent JSON writer",
   "Seeded search over about 60 writable types and all sink behaviours of std::io::Write."),
 "J02": ("exploration", T + "values written through simulated sinks to simulated storage, the process crashing at seeded points, reread after the crash and compared",
   "Seeded search; documents up to some hundred bytes; every cut position of many documents."),
 "J03": ("exploration", T + "seeded damage to stored documents and failing callbacks under a simulated allocator, the outcome compared with an independent JSON reader",
   "Seeded search; the independent reader leaves open what the property leaves open (such as lone surrogates in skipped members)."),
 "M01": ("exploration", T + "values written to simulated storage, cut and re-encoded by the run, reread and compared with an independent MessagePack codec",
   "Seeded search over types and all width and length classes up to 65,536."),
 "M02": ("exploration", T + "seeded damage to stored encodings and failing callbacks under a simulated allocator, the outcome compared with an independent MessagePack reader",
   "Seeded search."),
 "T01": ("exploration", T + "stored documents spelled by the run, damaged and cut, read under a simulated allocator with failing callbacks, judged by an independent reader over a reference parse",
   "Seeded search; the parser below the reader (toml_edit) is also the reference parser for damaged documents, undamaged ones are judged by the tree they were rendered from."),
 "Y01": ("exploration", T + "stored documents laid out by the run, damaged and cut, read under a simulated allocator with failing callbacks, judged by an independent reader over a reference parse",
   "Seeded search; the parser below the reader (yaml-rust2) is third party and taken as given."),
 "U01": ("exploration", T + "form data in seeded pair orders and encodings, damaged and cut, read under a simulated allocator, several hash seeds and failing callbacks, judged by an independent reader",
   "Seeded search."),
 "A01": ("exploration", T + "command lines in seeded orders, with dropped, duplicated and damaged arguments and failing callbacks, under a simulated allocator, judged by an independent reader",
   "Seeded search; every panic counts as the documented refusal."),
 "C04": ("exploration", T + "every scenario of the other properties re-run in a process of its own in which the simulated allocator refuses one seeded allocation or all from there on",
   "Seeded search; a refused allocation ends the process in the way Rust defines or is survived, never by a fault."),
 "P01": ("exploration", T + "seeded values printed under seeded configurations to simulated text sinks that fail or panic at any position, and in separate processes, the text compared with everything the value has to be shown with",
   "Seeded search over about 60 types; layout, indentation and colours are left open, their repeatability is not."),
 "P02": ("exploration", T + "pairs of values that differ in sensitive fields only, printed under seeded configurations to simulated text sinks that fail or panic at any position: the texts have to be the same",
   "Seeded search over about 25 types with sensitive fields in every kind of surrounding."),
 "S01": ("exploration", T + "seeded interleavings of operations on real threads that run one at a time, the turn changing at allocations, releases, user code, sink writes, accesses of static memory and between single machine instructions; every result compared with the one obtained alone",
   "Seeded search; sequentially consistent interleavings only (effects of weaker memory ordering are not simulated)."),
}
NA = {
 "D01": "a pure function of the type definition, decided at compile time: there is no schedule, clock, fault or history in it for a simulation to vary",
 "D02": "a pure function of one number and one target type: no schedule, fault or history",
 "D03": "a build-time generator compared with committed files: no schedule, fault or history",
}
props = [json.loads(l) for l in open("properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CLAIMED:
        lv, tech, note = CLAIMED[i]
        checks.append({"property": i, "quick_cmd": f"bash run.sh {i}", "thorough_cmd": f"bash run.sh {i} thorough",
          "evidence_file": f"evidence/{i}.json", "technique": tech, "level": lv, "level_note": note})
    else:
        na.append({"property": i, "reason": NA.get(i, "check not built yet")})
m = {"version": 1, "setup_cmd": "bash sim/setup.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo were needed: the allocator, the user code behind vtables, the sinks, the inputs and hash seeds are the simulator's, real threads are parked and released one at a time, and accesses of static memory are seen through compiler instrumentation."}
open("MANIFEST.json", "w").write(json.dumps(m, indent=1) + "\n")
