"""Writes /verif/MANIFEST.json. CLAIMED: property -> level note."""
import json
DEV = ("Seeded exploration: the real CLI, dev server, HTTP server and build pipeline run in one process under a simulated scheduler, clock, network, keyboard "
       "and faulty disk. A violation is a replayable history; absence of one covers only the histories explored. ")
RT = ("Seeded exploration: the real compiler runs on generated programs and the resulting engine nodes run in a simulated host (memory, entities, frames, streams, "
      "random source, schedules). Trusts the host's node semantics, written from the engine's documented functions. ")
CLAIMED = {
 "D01": DEV + "Assumes completed writes survive process death (no power loss).",
 "D02": DEV + "Threads switch at lock, file, socket, stdio and clock operations.",
 "D03": DEV + "The oracle is a fault-free build of the same files by the same code in a new process.",
 "D04": DEV + "Bounded time is simulated time; threads switch at seam operations only.",
 "D07": "Seeded exploration of environments (hash seed, heap layout, garbage collector, clock, directory order, stale output, prior commands); only the variants generated are covered.",
 "D08": DEV + "The oracle is the bytes of the source files and of a fault-free build.",
 "C01": "Seeded exploration: compilations aborted at chosen interpreter events (lines, calls, allocations in native code, recursion limit); abort points inside cleanup handlers are excluded.",
 "R01": RT + "Graphs are generated; the reference is an independent interpreter of the unoptimised graph.",
 "R02": RT + "Graphs are generated; the reference is an independent interpreter of the unoptimised graph with memory of its own.",
 "D05": DEV + "Message sites are generated; the served engine is executed by a simulated host to obtain the codes it logs.",
 "R03": RT + "Single engine operations are atomic and each engine thread has temporary memory of its own.",
 "R04": RT + "The host's stream functions are modelled after their documentation; frame times are dyadic so that time minus delta is exact.",
 "R06": RT + "Draws are 32-bit floats; reachability is judged over a bounded number of uniform draws.",
 "R05": RT + "The reference is a set of plain list, set and dict models driven through the same history; sorting longer custom-ordered records than 15 is left out.",
 "R07": RT + "The oracle runs the same source as Python against models of the API; engines are generated.",
 "R08": RT + "The oracle runs the same source as Python; failing conditions come from opaque run-time values.",
 "D06": DEV + "The oracle is the site served before, and a fresh build after recovery.",
}
NA = {
 "N01": "A pure function of its operands: no schedule, clock, I/O, fault or history for a simulator to decide; a simulation would only be random input generation.",
 "N02": "Pure arithmetic helpers without concurrency, time, I/O or state; nothing for a simulator to schedule or fail.",
 "N03": "A pure text round trip; no concurrency, time, I/O or multi-party behaviour.",
 "N04": "A single deterministic, stateless computation on one project; no schedule, fault or history takes part.",
}
if __name__ == "__main__":
    ids = [json.loads(l)["id"] for l in open("/verif/properties.jsonl")]
    m = {"version": 1, "setup_cmd": "python3 run.py --selfcheck",
         "checks": [{"property": i, "quick_cmd": f"python3 run.py {i}", "thorough_cmd": f"VERIF_TIER=thorough python3 run.py {i}",
                     "evidence_file": f"evidence/{i}.json", "technique": "deterministic simulation with fault injection (seeded schedules, faults and histories)",
                     "level": "exploration", "level_note": CLAIMED[i]} for i in ids if i in CLAIMED],
         "not_applicable": [{"property": i, "reason": NA.get(i, "Not claimed yet: its check is being built.")} for i in ids if i not in CLAIMED],
         "notes": "No hooks in /repo: every seam is an existing one (stdlib modules replaced inside the simulated process). Commits in /repo are fixes only; see known-findings.json."}
    json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1)
    print(len(m["checks"]), "claimed")
