#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below (run by hand after changing it)."""
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
T = "deterministic simulation: "
CHECKS = {
 "C01": ("exploration", T + "seeded interleavings of stream operations on a simulated disk against byte-array models",
         "sampled histories, not exhaustive; single process"),
 "C02": ("exploration", T + "seeded namespace histories with forbidden operations, GC and reopen points against a tree model",
         "sampled histories, not exhaustive"),
 "C03": ("exploration", T + "seeded histories; every closed image audited by an independent MS-CFB reader",
         "sampled histories; sparse disk for files beyond 2 GB"),
 "C04": ("exploration", T + "seeded foreign layouts from an independent writer plus seeded edit histories",
         "sampled layouts and histories"),
 "C05": ("exploration", T + "seeded multi-session object-graph histories on a simulated disk with seeded gc points against an object-graph model; files audited by an independent reader",
         "sampled histories"),
 "C06": ("exploration", T + "each seeded history executed under several memory policies (collection at seeded steps inside the code, cache capacities, retention) and compared with the model and with each other",
         "sampled histories and policies"),
 "C07": ("exploration", T + "failing and short raw reads injected at seeded positions of seeded open/traverse/read histories; every operation checked against a model and repeated after the fault",
         "sampled histories and fault positions"),
 "C08": ("exploration", T + "failing, short and refused raw writes, truncates and closes and full disks injected at seeded positions of seeded editing histories; a session in which nothing raised must leave the model's file",
         "sampled histories and fault positions"),
 "C09": ("exploration", T + "with-blocks left at seeded points by exceptions, asynchronous interrupts at seeded steps and failing exits; handles, state and the last saved graph checked",
         "sampled histories and exit points"),
 "C10": ("exploration", T + "crashes with lost, torn and reordered writes and seeded damage to files of every origin; every call of a full traversal limited in steps, recursion and memory",
         "sampled damage; time is counted in loop steps of the code"),
 "C11": ("exploration", T + "seeded mixes of reads through kept handles and objects and attempts to change a file opened for reading, on files of every origin and on writable and unwritable underlying files; refusals, reads and the bytes of the simulated disk checked",
         "sampled histories; reaching into private state is not an attempted mutation"),
 "C12": ("exploration", T + "seeded interleavings of edits and copies within and between two or three open files (own, foreign, with and without extensions), with seeded read faults of the source file during copies; copies, sources and definitions checked against a model of every file",
         "sampled histories; reads of the target do not fail; a copy that failed on a read error is repeated, its partial result is not judged"),
 "C13": ("exploration", T + "sessions of the other checks run in threads of one process under a seeded scheduler that hands over at raw I/O operations and at seeded steps inside the code; each compared (results, raw I/O, bytes written) with the same session run alone in a fresh process",
         "sampled session mixes and schedules; one thread runs at a time, so handovers happen at I/O operations and jumps, not between arbitrary bytecodes"),
 "C14": ("exploration", T + "seeded synthetic PCM, DNxHD and raw video sources imported in seeded orders over read caps, short, failing and ending reads; stored bytes, lengths, rates and exports compared with a model, and again after reopening",
         "sampled sources and histories"),
 "C15": ("exploration", T + "seeded multi-session object-graph histories on own and third-party files; every closed image audited by an independent AAF reader",
         "sampled histories"),
 "C16": ("exploration", T + "seeded MXF (and WAVE, AIFF) files from an independent writer, linked to intact under adverse delivery and read faults (result compared with the description, live and after reopening) and damaged (each call limited in steps, the run in memory by the size of the input)",
         "sampled descriptions, damage and faults; bounds are multiples of the input's size"),
 "C17": ("exploration", T + "seeded pools of types of every category, classes, properties and elements registered in seeded orders, used, registered again, copied between files and carried through sessions; checked through the live API and by an independent reader",
         "sampled pools and histories"),
 "C18": ("exploration", T + "seeded histories of timeline edits, collection and reopens on a simulated disk; every query's answer computed a second time from a model of the object graph, also while reads fail and again afterwards",
         "sampled graphs and histories; no answer is prescribed where the graph leaves it open"),
}
NA = {
 "N01": "pure functions of their argument: no schedule, clock, fault, I/O or shared state for a simulator to decide; generated inputs alone would be property testing in simulator vocabulary",
 "N02": "pure arithmetic on in-memory numbers with no nondeterminism or fault surface; deterministic simulation has nothing to control",
 "N03": "pure functions of one value or one buffer; the I/O-dependent part (chunked, failing and short source reads during import) is claimed under C14, the remainder has no schedule or fault to inject",
}


def main():
    props = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
    m = {"version": 1, "setup_cmd": "python3 selftest.py --quick",
         "hooks": {"guard": "VERIF_SIM (unused)", "enable": "no hooks were needed: file objects, io.open, os.urandom, datetime.now and gc are existing seams", "source_commits": []},
         "checks": [], "not_applicable": []}
    for p in props:
        if p in CHECKS:
            lvl, tech, note = CHECKS[p]
            m["checks"].append({"property": p, "quick_cmd": "python3 check.py %s" % p,
                                "thorough_cmd": "VERIF_TIER=thorough python3 check.py %s --tier thorough" % p,
                                "technique": tech, "level": lvl, "level_note": note})
        else:
            m["not_applicable"].append({"property": p, "reason": NA.get(p, "check not built yet")})
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
