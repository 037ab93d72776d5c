#!/usr/bin/env python3
"""Writes MANIFEST.json. Properties with a check are claimed; the others are
listed as not applicable with the reason."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {
 "C15": "The split of a topic filter is a pure function of one string: no scheduling, clock, I/O, randomness or second party takes part, so there is nothing for a simulator to control and one run would be one unit test. Its effect on received packets (accepted and rejected filters, share names of decoded subscriptions) is covered by C01, C04 and C05.",
 "C16": "Normalising a plugin configuration is a pure function of one value: no scheduling, time, I/O or multi-party behaviour exists for it to depend on.",
 "C17": "Descriptions of codes are constant tables: nothing in them depends on a schedule, clock, fault or history.",
}
NOTES = {
 "C01": "Seeded exploration of two peers over a simulated fragmenting byte stream, judged by an independent model of the contents. Assumes the model and its reading of the MQTT standards (sim/ref); contents are drawn from seeded generators, so absence of a violation is evidence, not proof.",
 "C02": "Seeded exploration of receive-buffer histories (every cut, delay, coalescing) guided only by Decode's answers, judged by the fixed header alone. Trusts the independent encoder.",
 "C03": "Seeded exploration of corrupted, cut, spliced and forged traffic; work is measured in executed statements of the instrumented library and memory in bytes held, against linear bounds.",
 "C04": "Seeded exploration of rule-breaking packets that arise from faults and hostile peers, judged by an independent strict parser; packets on which the standards leave room are not judged.",
 "C05": "Seeded exploration of both directions between the library and an independent implementation (encoder with all permitted forms, strict parser). Trusts that implementation's reading of the standards.",
 "C06": "Seeded exploration of encoding attempts with short, dirty and guarded buffers and contents broken and repaired in between, judged by guard bytes and the independent parser.",
 "C07": "Seeded exploration of histories of one packet's updates, failures and encodings, refined against a small model of its contents.",
 "C08": "Seeded exploration of schedules (pre-emption before every statement of the library, map accesses checked for concurrent writes) of clones and their changes, judged by models per copy.",
 "C09": "Seeded exploration of schedules of independent connections with aborts, each judged by its own reference execution; statement-level pre-emption on one processor, so reordering by weak memory is not simulated.",
 "C10": "Seeded exploration of clock histories (steady, stalled, stepped, moving between two readings), judged by the exact arithmetic on the clock values the library could have read.",
 "C11": "Seeded exploration of crash points, torn and lost writes, restarts and clock jumps in a simulated broker whose only durable state is a simulated disk; the broker and disk are stubs, encoding, decoding and expiry are real code.",
 "C12": "Seeded exploration of schedules of adders and a sampler, judged by conservation and by linearizability of the values returned; sequentially consistent memory.",
 "C13": "Seeded exploration of schedules of updates and readers, judged by the history of values at the instants of update; sequentially consistent memory.",
 "C18": "Seeded exploration of logins and sessions with faulty or damaged packets between a simulated client and server, judged by the codes the standards allow (listed independently of the library) and by what the client reads.",
 "C19": "Seeded exploration of programs that make legal and illegal requests of packets they made or received and send each other what is not refused, judged by an independent strict parser and the library's decoder. Changes of the version after contents were set are not explored here (C07 does).",
 "C20": "Seeded exploration of long histories of simulated connections and of long-lived packets; what the package variables hold, the goroutines and the steps of a fixed probe are measured at doubling lengths and must stop growing. Memory held by closures only, and sync.Pool contents, are not measured.",
 "C14": "Seeded exploration of receive-buffer reuse while decoded packets are held, changed, cloned and encoded, judged by snapshots.",
}
ids = [json.loads(l)["id"] for l in open(f"{V}/properties.jsonl")]
src = "".join(open(f"{V}/sim/props/{f}").read() for f in os.listdir(f"{V}/sim/props"))
have = set(re.findall(r'ID:\s*"(C\d\d)"', src))
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": [], "not_applicable": []}
for i in ids:
    if i in have:
        m["checks"].append({
            "property": i, "quick_cmd": f"sim/check.sh {i}",
            "thorough_cmd": f"VERIF_TIER=thorough sim/check.sh {i}",
            "evidence_file": f"evidence/{i}.json",
            "technique": "deterministic simulation with fault injection",
            "level": "exploration", "level_note": NOTES[i]})
    else:
        m["not_applicable"].append({"property": i, "reason": NA.get(i, "No check yet.")})
m["notes"] = "No hooks in /repo: every check instruments a scratch copy of /repo's working tree (sim/cmd/instr), so the shipped code is unchanged. Replay: sim/check.sh <id> --replay <file>."
json.dump(m, open(f"{V}/MANIFEST.json", "w"), indent=1)
open(f"{V}/MANIFEST.json", "a").write("\n")
