#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the tables below."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(root + "/properties.jsonl")]
DEX = ("exploration", "Seeded search over simulated histories of the real dex program on a simulated chain, with faults; "
       "every transaction is compared with an executable reference model and the property's invariants. Assumes the "
       "simulated runtime (accounts, signer and writable privileges, rollback, sysvars) and the spl-token stand-in "
       "behave as Solana's do; says nothing about histories not drawn.")
FAM = {p["id"]: DEX for p in props if 1 <= int(p["id"][1:]) <= 21}
POOL = ("exploration", "Seeded search over simulated histories of several users and an admin on the real pool code (the "
        "simple pool and the admin-controlled pool), with injected failures; every transaction is compared with an "
        "executable reference model and the dilution invariant. Assumes the simulated runtime and token program behave "
        "as Solana's do; says nothing about histories not drawn.")
FAM["C22"] = FAM["C23"] = POOL
FAM["C24"] = ("exploration", "Seeded search over simulated histories of several users and attackers on the real proxy and "
              "middleware code in front of the real dex program, with injected inner failures; every proxied transaction is "
              "compared byte for byte with the equivalent direct calls to the real dex. The market's own middleware is the "
              "harness's. Assumes the simulated runtime and token program behave as Solana's do; says nothing about "
              "histories not drawn.")
FAM["C25"] = ("exploration", "Seeded search over simulated executions of the real crank (its loop, worker threads and RPC "
              "client library) against a simulated RPC node in front of the real dex program; the simulator schedules every "
              "thread, timer, response, landing, loss and process kill. Assumes the simulated node answers as Solana's does; "
              "says nothing about schedules not drawn.")
FAM["C26"] = ("exploration", "Seeded search over simulated histories of the real client library (instruction encoding and "
              "builders, order, listing and token calls, RPC client library above its transport) against a simulated RPC node "
              "in front of the real dex and token programs, with RPC faults; every call is compared with the same operation "
              "encoded by hand and executed on a copy of the state. Assumes the simulated node answers as Solana's does; says "
              "nothing about histories not drawn.")
FAM["C27"] = ("exploration", "Seeded search over simulated histories in which transactions guarded by the real assertion "
              "program land late, twice, reordered or cut short while other parties create, close and hand over the accounts; "
              "every transaction is compared with the same one whose assertions are judged by the specification. Assumes the "
              "simulated runtime and system program behave as Solana's do; says nothing about histories not drawn.")
NA = {}
checks, na = [], []
for p in props:
    i = p["id"]
    if i in FAM:
        level, note = FAM[i]
        checks.append({
            "property": i,
            "quick_cmd": f"bash check.sh {i}",
            "thorough_cmd": f"VERIF_TIER=thorough bash check.sh {i}",
            "evidence_file": f"evidence/{i}.json",
            "technique": "deterministic simulation with fault injection: seeded random schedules and faults, "
                         "refinement against an executable reference model, invariants, minimised replay",
            "level": level, "level_note": note,
        })
    else:
        na.append({"property": i, "reason": NA[i]})
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na}
HOOKS = {"guard": "--cfg serum_sim (rustc flag, off by default)",
         "enable": "cranksim/.cargo/config.toml sets rustflags = [\"--cfg\", \"serum_sim\"]; sim needs no hook",
         "source_commits": ["babd73a"]}
if HOOKS:
    m["hooks"] = HOOKS
json.dump(m, open(root + "/MANIFEST.json", "w"), indent=1)
open(root + "/MANIFEST.json", "a").write("\n")
