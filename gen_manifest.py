#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl."""
import json, os
here = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl")) if l.strip()]
NA = {
    "C20": "Pure functions of a value or a byte slice (formatting and parsing a message): no schedule, clock, fault or interleaving takes part. Messages that arrive in pieces are covered by C01 and C15, what both sides of a session make of each other's messages by C25.",
    "C21": "Pure functions of their arguments (argument encodings): nothing for a simulator to schedule or break. Arguments that are exchanged in simulated sessions are covered by C25.",
    "C22": "Pure function of its arguments (formatting into a slice): no nondeterminism or fault. What happens on a server when a message does not fit is covered by C02 and C03, by a client by C25.",
    "C23": "Pure functions of strings (identifier grammars): no nondeterminism or fault is involved. Identifiers that are exchanged in simulated sessions are covered by C25.",
}
special = {"C15": "fd 60 and its faults", "C16": "the entropy source and its faults", "C17": "the whole example server", "C19": "environment and file system", "C24": "sessions of clients built from the library; reference model as oracle", "C25": "sessions of clients built from the library; independent codec as oracle"}
checks, na = [], []
for p in props:
    i = p["id"]
    if i in NA:
        na.append({"property": i, "reason": NA[i]})
        continue
    checks.append({
        "property": i,
        "quick_cmd": f"bash check.sh {i} quick",
        "thorough_cmd": f"bash check.sh {i} thorough",
        "technique": "deterministic simulation with fault injection (seeded schedules and faults, %s)" % special.get(i, "simulated executor, sockets, locks, timers; reference model as oracle"),
        "level": "exploration",
        "level_note": "Seeded sample of schedules, inputs and faults of the real code in one simulated process, every run repeatable from its seed and minimised on failure; no proof. Trusts the simulated sockets/executor/locks (sequentially consistent interleavings at lock, atomic, wake-up, I/O and callback granularity) and the reference model in sim/dst.",
    })
m = {
    "version": 1,
    "setup_cmd": "bash build.sh",
    "checks": checks,
    "not_applicable": na,
    "notes": "No hooks in /repo: the sources are compiled unchanged against simulated `std` (locks, atomics, threads) and `tokio` crates (sim/simstd, sim/simtokio), and libc calls are interposed. See DESIGN.md. replay.sh FILE repeats a reported violation.",
}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
