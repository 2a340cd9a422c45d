#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of checks below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
STATEFUL = ("model-based property testing: proptest generated operation histories run against the real "
            "event loop on a virtual clock and compared with an independent reference model, with shrinking")
T = {}
for i in ["C01","C02","C03","C04","C05","C06","C07","C08","C09","C10","C11","C12","C13","C14","C15","C16","C17","C18"]:
    T[i] = (STATEFUL, "Random search: histories of up to a few dozen operations, not exhaustive; see DESIGN.md.")
T["C19"] = ("property-based testing: proptest generated strings and addresses against an independent reading of the address syntax, with shrinking",
    "Short addresses are sampled densely (nearly all), extended ones randomly.")
HTTPD = ("stateful property-based testing: seeded random scenes and operation sequences against the running pica-http, "
         "%s, with confirmation and shrinking")
T["C20"] = (HTTPD % "all pairwise measurements compared with an independent computation of the geometry",
    "The geometry is observed through the integer results of neighbor-updated events; azimuth is not constrained within 0.01 degree of the poles.")
T["C21"] = (HTTPD % "answers and get-state compared with a model of the scene", "Random search, not exhaustive.")
T["C22"] = (HTTPD % "event streams replayed into a mirror of the scene", "Random search, not exhaustive.")
T["C26"] = (HTTPD % "SESSION_INFO_NTF in real time compared with the scene placed through HTTP", "Random search in real time; short sessions.")
T["C27"] = (HTTPD % "every answer compared with the file of the source tree", "Random paths, dense around the declared ones.")
T["C29"] = ("differential property-based testing: proptest generated client histories against the running pica over TCP, compared with the library in-process and with the ranging semantics in real time, with confirmation and shrinking",
    "Random search; real-time bounds are loose so that a loaded machine raises no alarm.")
T["C23"] = ("property-based testing and mutational fuzzing: seeded random packet values and mutated byte strings through the Rust codec, compared with an independent interpreter of the expected layout, with shrinking",
    "Random search over inputs; enumerations exhaustively. The expected layout is a copy of the packet grammar kept in /verif.")
T["C28"] = ("differential property-based testing: seeded random packet values and mutated byte strings through the Python and the Rust codec, with shrinking",
    "Random search over inputs; enumerations exhaustively. Inputs on which the Rust codec panics (finding of C23) are not compared.")
T["C24"] = ("property-based testing: seeded random packet streams in random segments and chunks into the Python Host, and random sequences of sent packets and expectations, compared with an independent interpreter of the packet layout, with shrinking",
    "Random search. Payload bytes of unknown packet kinds are compared when decoded, not when matched.")
T["C25"] = ("property-based testing: seeded random command lines typed into the running console, the bytes received by a stand-in controller and HTTP server compared with an independent encoding, with confirmation and shrinking",
    "Random search over arguments, every command of the console in every run.")
checks = []
for i in sorted(T):
    checks.append({"property": i,
        "quick_cmd": "python3 /verif/check.py %s --tier quick" % i,
        "thorough_cmd": "python3 /verif/check.py %s --tier thorough" % i,
        "technique": T[i][0], "level": "exploration", "level_note": T[i][1]})
m = {"version": 1, "setup_cmd": "python3 /verif/check.py --setup", "checks": checks, "not_applicable": []}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
