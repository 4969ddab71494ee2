#!/usr/bin/env python3
"""Source of /verif/MANIFEST.json."""
import json, os
T = "deterministic simulation with fault injection"
D = "Seeded search over the runs of the other simulations in a build with assertions, each run repeated in a build without them and compared by its event log; evidence, not proof, bounded by the number of runs."
J = "Seeded search: many simulated runs of the real library (all of src/core, src/message, src/util, NDEBUG, ASan+UBSan) with a seeded scheduler over several clients' handles and seeded refusal of memory requests, compared with an executable reference model after every operation. Evidence, not proof: what the seeds did not reach is not covered. Trusts the reference model (sim/wire.hpp) and the simulated allocator; callers keep the documented contracts."
L = "Seeded search over histories of the real code against an independent reference (sim/ref.hpp or plain containers), with simulated memory and seeded refusals; evidence, not proof, bounded by the number of runs reported in the evidence file."
G = "Seeded search: random schemas of one to three files (nested and imported messages, enums with negative and aliased numbers, oneofs, defaults, packed fields, extensions in any scope) go through the real generator of src/generator in process, under three memory layouts; the bindings are compiled, their tables compared with the schema, and their accessors driven through interleaved histories with refusals and restarts against the reference model. Evidence, not proof. Trusts libprotoc, gcc and the reference model; out of scope: accessor names that collide by design (a.b and a_b), groups, services, schemas beyond the generated grammar."
tech = {
 "P01": "interleaved clients vs tree model, audit of every live handle", "P02": "interleaved clients vs tree model", "P03": "erase histories, every stale handle used again and again",
 "P04": "crash/restart at every operation boundary on the persisted bytes, refused memory half-way", "P05": "cursor iterations interleaved with edits vs tree model", "P06": "packed/unpacked/mixed runs vs list model",
 "P07": "oneof histories with refusals vs tree model", "P08": "nested accessors vs step-by-step walk of the model", "P09": "snapshots of bytes, addresses, edit log and allocator calls around every read",
 "P10": "first memory requests refused, unchanged state, retry", "P11": "refusal at any request of any operation, sanitizers and ledger", "P12": "range edits vs strings with refusals",
 "P13": "caller-owned memory, in place or not at all", "P14": "damaged, cut and rotting stored bytes, reads vs reference decoder", "P15": "edits on damaged and rotting stored bytes with refusals",
 "P16": "decode histories with damage, aborts, re-entrance vs reference decoder", "P17": "encode histories with refusals vs reference decoder", "P18": "validation histories vs reference verdict",
 "P19": "block histories on a refusing system, content and disjointness", "P20": "allocator ledger over open/edit/fail/close histories", "P21": "chains of invalid structures from refusals and destruction",
 "P22": "several journals, copies, refusals and restarts", "P23": "message views over bytes fields vs tree model", "P24": "exact bytes vs placement model, two replays equal", "P25": "defaults at every point of histories", "P26": "extension registration at any point of histories",
 "P29": "registration histories vs list model, iterators kept across them",
 "P30": "runs of all other simulations in a build with assertions, event logs compared with a production build",
 "P28": "random schemas through the real generator and compiler, accessors driven through interleaved histories vs tree model, generator under three memory layouts",
}
checks = []
for i in sorted(tech):
    checks.append({"property": i, "quick_cmd": f"bash check.sh {i} quick", "thorough_cmd": f"bash check.sh {i} thorough", "evidence_file": f"evidence/{i}.json",
                   "technique": f"{T}: {tech[i]}", "level": "exploration", "level_note": G if i == "P28" else D if i == "P30" else L if i in ("P12", "P16", "P17", "P18", "P19", "P29") else J})
na = [
 {"property": "P27", "reason": "packing and unpacking one integer is a pure function of its argument: no schedule, time, I/O, allocation, fault or history for a simulator to control. (Its use is exercised inside the runs of P02, P16 and P17, which compare every value with the reference.)"},
]
m = {"version": 1, "setup_cmd": "bash build.sh && bash bindgen.sh",
     "hooks": {"guard": "none", "enable": "no hooks in /repo: the checks compile /repo's sources unchanged; the allocator seam is the library's own pb_allocator_t, and malloc/calloc/realloc/free of the compiled objects are redirected with objcopy --redefine-sym", "source_commits": []},
     "checks": checks, "not_applicable": na,
     "notes": "Every check: bash check.sh PROPERTY quick|thorough builds .build/sim from /repo's working tree and explores seeds derived from VERIF_SEED. A violation is minimised and written to out/PROPERTY.replay; bash replay.sh FILE reproduces it. Known findings: known-findings.txt with the recorded histories in findings/."}
p = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "MANIFEST.json")
open(p, "w").write(json.dumps(m, indent=1) + "\n")
