#!/usr/bin/env python3
"""Regenerates /verif/MANIFEST.json (the committed file is its output)."""
import json, pathlib
POOL = "seeded schedule and fault search in a deterministic simulator over the real page cache; per-operation invariants, reference model of page contents, bounded-progress liveness"
VOL = "seeded schedule and fault search in a deterministic simulator over real volume creation on a simulated file system, clock and device; independent decoder of the stored metadata"
CH = {f"C0{i}": POOL for i in range(1, 8)}
CH |= {p: VOL for p in ("C08", "C09", "C10", "C11", "C12")}
JSON = "seeded search over values, stream faults, fragmentation and damage in a deterministic simulator over the real JSON encoder and decoder; independent reference encoder/decoder"
CH |= {p: JSON for p in ("C13", "C14", "C15")}
ROWS = "seeded schedule, restart and damage search in a deterministic simulator over the real row pages and marshaller; list model with linearizability of edits, differential memory oracle"
CH |= {p: ROWS for p in ("C16", "C17", "C18", "C19", "C20")}
CH["C29"] = VOL + "; creations dropped at any point and failing page reads"
CH["C30"] = "seeded search over long histories of accesses with failed reads and abandonment in a deterministic simulator over the real page cache; counting allocator"
CH["C31"] = POOL + "; holders dropped, unwinding, or abandoning their release"
CH["C32"] = VOL + "; impossible parameters between possible ones"
SCHEMA = "seeded search over texts, layouts, fragmentation and damage in transit between simulated processes, in a deterministic simulator over the real type parser and paths, against a reference grammar"
CH["C26"] = SCHEMA
CH["C27"] = SCHEMA + " and a reference resolution of names"
CH["C33"] = "seeded search over types, values, spellings, interleavings, restarts and stream faults in a deterministic simulator over the real decoder, marshaller, row pages, page cache and encoder together; independent reference reader of documents"
SQL = "seeded search over statements, spellings, orders, repetitions, fragmentation and damage in transit between simulated clients and servers over the real SQL "
CH["C23"] = SQL + "parser; independent recursive-descent reference parser"
CH["C24"] = SQL + "parser and typing pass, with a catalogue that grows, lags behind and is rebuilt; independent reference checker, and evaluation of accepted statements on random rows"
CH["C25"] = SQL + "parser and catalogue, with restarts; reference catalogue"
NOTE = "Seeded exploration, not exhaustive: absence of a violation is evidence for the sampled schedules, workloads and faults only. One seed is one exactly repeatable execution. Trusts the simulator (scheduler, simulated async-std synchronisation / file system / stream / clock) and the reference model in /verif/sim; see DESIGN.md."
checks = [dict(property=p, quick_cmd=f"bash ./check.sh {p} --tier quick", thorough_cmd=f"bash ./check.sh {p} --tier thorough",
    evidence_file=f"evidence/{p}.json", technique="deterministic simulation with fault injection: " + t, level="exploration", level_note=NOTE)
    for p, t in CH.items()]
TODO = {p: "no check yet" for p in ()}
NA = {
 "C21": "The code has no durable write: VolumeManager::store/fetch/mount/unmount are unimplemented!(), nothing is ever written back or acknowledged, so there is no execution in which a crash could lose acknowledged data.",
 "C22": "VolumeManager::mount and unmount are unimplemented!() (they panic in every execution); there is no behaviour to simulate. What creation leaves in the cache is decided under C08/C09.",
 "C28": "src/bin/{router,coordinator,storage}.rs are empty programs: there is no networking, routing or node code to run under a simulator.",
}
m = dict(version=1, setup_cmd="bash ./build.sh",
    hooks=dict(guard="cfg(cathlamet_sim), cfg(cathlamet_sim_sql)", enable="sim/.cargo/config.toml passes RUSTFLAGS --cfg cathlamet_sim --cfg cathlamet_sim_sql; sim/Cargo.toml replaces async-std by the simulated /verif/sim/async-std through [patch.crates-io]",
               source_commits=["a6ef9b7", "e99a3e4", "35992d8"]),
    checks=checks,
    not_applicable=[dict(property=p, reason=r) for p, r in (NA | TODO).items()],
    notes="check.sh <property> rebuilds /verif/sim against /repo's working tree and runs the search; replay a violation with target/debug/dst replay <file>.")
pathlib.Path(__file__).parent.parent.joinpath("MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")
