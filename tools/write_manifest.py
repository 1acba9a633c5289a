#!/usr/bin/env python3
"""Writes MANIFEST.json from the property list."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = {
 "L": "Seeded search over schedules and faults; samples the space, no exhaustive claim. The relay's real source runs; tokio's I/O and process types, std::process and the two peers are simulated.",
 "C": "Seeded search over input cuts, interruptions, and input/output failures; the filter's real source runs over simulated stdin, stdout and files.",
 "Q": "Seeded search over values, units, stream cuts, interruptions and failing readers and sinks; the library's real code runs, only readers and writers are simulated.",
 "M": "Seeded search over hash seeds, expansion orders and threads; the macros' real code runs, the compiler's bridge is the proc-macro2 fallback.",
}
NA = {
 "D01": "a compile-time type relation: no schedule, clock, I/O or fault for it to depend on",
 "D02": "a compile-time type relation and pure arithmetic: nothing nondeterministic to simulate",
 "D03": "pure arithmetic on values: no schedule, time, I/O or party involved",
 "D04": "pure arithmetic on values: no schedule, time, I/O or party involved",
 "D05": "a compile-time type relation: nothing nondeterministic to simulate",
 "D06": "a pure function of the unit expression evaluated at compile time",
 "D07": "pure arithmetic on values: no schedule, time, I/O or party involved",
 "D08": "a compile-time trait relation and pure arithmetic",
 "D09": "a pure function from a type to its displayed name; the fault-dependent side of display is Q04 and L04",
 "D10": "a compile-time equivalence of notations; the nondeterministic side of code generation is M01",
 "D11": "a compile-time type relation: nothing nondeterministic to simulate",
 "D12": "a compile-time type relation: nothing nondeterministic to simulate",
 "D13": "a property of generated code and layout: nothing nondeterministic to simulate",
 "D14": "a property of which targets the library compiles for: nothing nondeterministic to simulate",
 "D15": "constants in tables: nothing nondeterministic to simulate",
 "D16": "pure comparison of values: no schedule, time, I/O or party involved",
}
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
claimed = os.environ.get("CLAIM", "").split() or [p["id"] for p in props if p["id"] not in NA]
checks = []
for p in props:
    i = p["id"]
    if i not in claimed:
        continue
    checks.append({
        "property": i,
        "quick_cmd": f"bash check.sh check --prop {i} --tier quick",
        "thorough_cmd": f"bash check.sh check --prop {i} --tier thorough",
        "evidence_file": f"evidence/{i}.json",
        "technique": "deterministic simulation with fault injection: seeded search over schedules, stream cuts and fault sequences" if i[0] != "M" else "deterministic simulation: seeded search over hash seeds, expansion orders and threads",
        "level": "exploration",
        "level_note": NOTE[i[0]],
    })
na = [{"property": p["id"], "reason": NA.get(p["id"], "check not built yet")} for p in props if p["id"] not in claimed]
m = {
    "version": 1,
    "setup_cmd": "bash check.sh build",
    "hooks": {"guard": "none", "enable": "no hooks: the checks compile /repo's sources against simulated std, tokio, clap and env_logger crates in /verif/sim", "source_commits": []},
    "checks": checks,
    "not_applicable": na,
    "notes": "All randomness derives from VERIF_SEED. A violation prints its replay file; 'bash check.sh replay FILE' reproduces it exactly.",
}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
