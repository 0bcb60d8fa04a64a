#!/usr/bin/env python3
"""Regenerates MANIFEST.json from properties.jsonl and the list of built checks below."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CLAIMED = open(os.path.join(root, "tools/claimed.txt")).read().split()
NA = {
 "C25": "A property of the compiled artefact (targets, absence of code paths), not of any execution; simulated runs cannot decide it.",
}
TCP = ("exploration", "Seeded search over whole-connection histories, schedules and faults; the real TCP module runs inside a simulated std (sockets, processes, files, clock). Trusts the model of the TCG simulator protocol in sim/src/world.rs and the std shim in sim_std.rs. Absence of a violation is evidence over the explored seeds, not proof.")
CLI = ("exploration", "Seeded search over commands, sessions, answers and transport faults; the real client library runs against a simulated TPM and transport. Trusts the reference encoder/decoder in sim/src. Evidence over the explored seeds, not proof.")
SRV = ("exploration", "Seeded search over request histories and faults of the platform (buffers, entropy source, random generator); the real server library runs on simulated platform services. Trusts the reference model in sim/src. Evidence over the explored seeds, not proof.")
checks, na = [], []
for line in open(os.path.join(root, "properties.jsonl")):
    p = json.loads(line); i = p["id"]
    if i in CLAIMED:
        n = int(i[1:])
        lvl, note = TCP if n <= 7 or n == 22 else SRV if 15 <= n <= 21 else CLI
        checks.append({"property": i, "quick_cmd": f"bash check.sh {i} quick", "thorough_cmd": f"bash check.sh {i} thorough",
                       "evidence_file": f"evidence/{i}.json",
                       "technique": "deterministic simulation with fault injection (seeded search, reference-model oracle)",
                       "level": lvl, "level_note": note})
    else:
        na.append({"property": i, "reason": NA.get(i, "check not built yet")})
m = {"version": 1, "setup_cmd": "bash build.sh",
     "hooks": {"guard": "--cfg verif_sim (rustc cfg, off by default)",
               "enable": "RUSTFLAGS='--cfg verif_sim' cargo build in /verif/sim (build.sh)",
               "source_commits": ["8df9bb8", "7b8721e"]},
     "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(root, "MANIFEST.json"), "a").write("\n")
