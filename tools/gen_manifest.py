#!/usr/bin/env python3
"""Writes MANIFEST.json from the table of checks."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
    "C01": "deterministic simulation of terminals, switches and hosts over faulty links with crashes; sent = received oracle",
    "C02": "deterministic simulation: library against an independent reference peer over a faulty link; refinement both ways",
    "C03": "deterministic simulation of a byte stream: connection cut at every byte, run-together frames, noise",
    "C04": "deterministic simulation with corrupting link; accounting invariant on every accepted message, step budget",
    "C05": "deterministic simulation with corrupting link, cuts and specification skew; failures located against a reference model",
    "C06": "deterministic simulation of damaged documents, refusal, repair and retry; reference model",
    "C07": "deterministic simulation of long-lived dictionaries with refusals and interrupts; fresh-process oracle",
    "C08": "deterministic thread scheduling at bytecode granularity, seeded; solo-execution oracle",
    "C09": "deterministic simulation: exceptions injected at any line of the library; fresh-process oracle",
    "C10": "deterministic simulation: nested calls injected at any bytecode and callback; solo-execution oracle",
    "C11": "deterministic simulation of long histories with live specification edits; fresh-process oracle",
    "C12": "deterministic simulation of failing output streams at every write; healthy-stream oracle",
    "C13": "deterministic simulation of a crashing trace log; independent reader as oracle",
    "C14": "deterministic simulation of a process pool shipping pickled errors; equality oracle",
    "C15": "deterministic simulation of buffer recycling and result editing; snapshot oracle",
    "C16": "deterministic simulation of a JSON journal on a crashing disk with restarts; byte-equality oracle",
    "C18": "deterministic simulation of independent ISO 8583:1987 hosts, terminals and form-changing gateways over tearing links with restarts; sent = received oracle",
    "C19": "deterministic simulation of a trace sink that cuts lines at its width; what is left is read back and compared",
    "C20": "deterministic simulation of long lives (tens of thousands of calls, interrupts); what the library still holds must stop growing",
    "C21": "deterministic simulation in a watched process: exceptions at any line, failing streams and mappings; process-wide state compared before and after",
    "C17": "deterministic simulation of a failing codec registry; reference model names the element",
}
NOTE = ("Seeded search over generated specifications, messages, schedules and faults in thousands of simulated "
        "runs; every violation replays exactly from its file. Sampling, not proof. Trusts Python's codecs and json, "
        "the simulator and the oracle named in DESIGN.md.")
NA = {
}


def main():
    checks = []
    for p in sorted(TECH):
        checks.append({"property": p, "quick_cmd": "python3 check.py %s --tier quick" % p,
                       "thorough_cmd": "python3 check.py %s --tier thorough" % p,
                       "evidence_file": "evidence/%s.json" % p,
                       "technique": TECH[p], "level": "exploration", "level_note": NOTE})
    doc = {"version": 1, "setup_cmd": "python3 -B -c \"import ast; ast.parse(open('check.py').read())\" && python3 -c \"import sys; sys.exit(sys.version_info < (3, 9))\"",
           "checks": checks,
           "not_applicable": [{"property": k, "reason": v} for k, v in sorted(NA.items())],
           "notes": "No hook was needed in /repo. Known findings and fixed defects: KNOWN_FINDINGS.txt. "
                    "Replay a violation: python3 check.py --replay FILE."}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(doc, f, indent=1)
        f.write("\n")


main()
