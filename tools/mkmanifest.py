#!/usr/bin/env python3
"""writes MANIFEST.json"""
import json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = "deterministic simulation with fault injection (seeded search, real code under a simulated libc)"
BASE = ("Seeded exploration, not a proof: every run executes the real library code of /repo under a simulated libc "
        "(sockets, scheduler, clock, RNG device, files) and judges it against independent reference code. "
        "Trusts the reference crypto and TLS code in sim/ (self-tested against published vectors), std and rustc. ")
N = {
"C01": "Honest peers only: two real endpoints, or one with a reference peer that uses other legal framings.",
"C02": "Sizes up to about 66 KiB per round, at most 3 rounds per connection; with write breaks and timeouts the retries of the caller decide, with the checked prefix.",
"C03": "Attacker without keys, on established connections.",
"C04": "Catalogue of server deviations with random combinations; forging a signature by luck is not explored.",
"C05": "Catalogue of client deviations with random combinations.",
"C06": "Dates and clocks around calendar pivots and random ones; verdict by the wall clock values during the handshake.",
"C07": "Attacker without endpoint keys: structured and byte-level edits, replay, reflection, relaying with own credentials.",
"C08": "Structured mutation at every stage, also properly encrypted; a run that takes 1e9 basic blocks or 60 s of CPU or exceeds 1 MiB + 16 times the received bytes is a violation.",
"C09": "Up to 3 accepting threads at once, and series of up to 420 connections per run.",
"C10": "Dependence on the RNG bytes is decided by flipping them (group testing), freshness by comparing all values seen.",
"C11": "Passive observer with the logged secrets, connections of more than 65,536 records, failed sends included; leaks are found as runs of 12 equal bytes.",
"C12": "One log file per endpoint or shared; faults of open and write.",
"C13": "Alerts sent are judged against the returned error; alerts received are generated at every stage.",
"C14": "Strict independent parser over every byte sent.",
"C15": "Structured offers and selections, conforming and not.",
"C16": "Fault plans over the file operations that the builders make.",
"C19": "Catalogue of deviations from the permitted sequence, combined at random, with random framing and delivery; messages the library does not implement (PSK, HelloRetryRequest, KeyUpdate, NewSessionTicket) are only sent where they are not permitted.",
"C20": "Series of up to 130 connections to servers of nine kinds; growth is judged with slack (16 KiB plus 128 bytes per connection, two descriptors).",
}
NA = {
"C17": "pure functions of their arguments: no concurrency, time, I/O, randomness or peer for a simulator to control; deciding them is test-vector or proof work, another family",
"C18": "pure functions of their arguments: no concurrency, time, I/O, randomness or peer for a simulator to control; deciding them is property-based testing or proof, another family",
}
ready = os.environ.get("READY", "").split() or sorted(N)
props = [json.loads(l)["id"] for l in open(R + "/properties.jsonl")]
m = {"version": 1, "setup_cmd": "./build.sh",
     "checks": [], "not_applicable": []}
for p in props:
    if p in NA:
        m["not_applicable"].append({"property": p, "reason": NA[p]})
    elif p in ready:
        m["checks"].append({"property": p, "quick_cmd": f"./check.sh {p} quick", "thorough_cmd": f"./check.sh {p} thorough",
                            "technique": TECH, "level": "exploration", "level_note": BASE + N[p]})
    else:
        m["not_applicable"].append({"property": p, "reason": "check under construction"})
m["notes"] = "No hooks in /repo: the seam is the libc ABI, replaced inside the simulator binary. See DESIGN.md."
json.dump(m, open(R + "/MANIFEST.json", "w"), indent=1)
