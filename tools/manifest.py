#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of claimed properties."""
import json
NOTE = {
 'C01': "2-6 threads, up to 8 requests each over a pool of about 60 types incl. recursive and hand-described ones; preemption at basic-block edges; sequential consistency",
 'C02': "as C01, with metadata code that asks for other descriptions; deadlock detected by the scheduler, non-termination by a step budget and stack limit",
 'C03': "as C01, with user code that panics at drawn points",
 'C04': "real processes of the same binary with different ASLR, simulated entropy, clock, thread count and history; compared byte for byte",
 'C05': "documents up to about 40 nodes; 8 encodings and streams; faults drawn per I/O call",
 'C06': "all types of the zoo; as C05, plus node-by-node comparison with the declaration",
 'C07': "up to 6 damages per message out of 8 kinds, memory bound proportional to the input",
 'C08': "sink fails or panics at every byte position class; documents, paths, descriptors",
 'C09': "visitor fails or panics at a drawn callback",
 'C10': "user conversions, clones and defaults that fail or panic at the k-th call",
 'C11': "1 editor, up to 5 typed and dynamic replicas, up to 40 edits, against the reference model",
 'C12': "snapshot plus log on a simulated disk that loses and tears unsynced writes; crash at any I/O call, repeatedly",
 'C13': "duplicate delivery of every idempotent edit",
 'C14': "disjoint edits delivered in different orders",
 'C15': "stale, misaddressed and mismatched edits",
 'C16': "pairs and triples of related documents",
 'C17': "editor that works only from the received description",
 'C18': "2-5 threads, each with its own operations; compared with the same operations run alone",
}
NA = {
 'C19': "a pure function of one string with no concurrency, time, I/O or second party to simulate or to fail: nothing for a scheduler or a fault injector to decide",
 'C20': "a pure query decided by the static type of one value: no schedule, history or fault can influence it (the dynamic part, reaching a value by field, index or path, is covered by C11 and C15)",
 'C21': "decided by the compiler before there is an execution to simulate",
 'C22': "a statement about a build configuration: without std there is no cache, lock or thread left to schedule, and the remaining code is the code C05-C17 run",
}
claimed = [l.strip() for l in open('/verif/tools/claimed.txt') if l.strip()]
props = [json.loads(l) for l in open('/verif/properties.jsonl')]
m = {
 'version': 1,
 'setup_cmd': 'bash /verif/build.sh',
 'checks': [{
   'property': p['id'],
   'quick_cmd': f"bash /verif/check.sh {p['id']}",
   'thorough_cmd': f"bash /verif/check.sh {p['id']} thorough",
   'technique': 'deterministic simulation with fault injection (seeded search)',
   'level': 'exploration',
   'level_note': NOTE[p['id']],
 } for p in props if p['id'] in claimed],
 'not_applicable': [{'property': p['id'], 'reason': NA.get(p['id'], 'check not built yet')}
                    for p in props if p['id'] not in claimed],
}
json.dump(m, open('/verif/MANIFEST.json', 'w'), indent=1)
