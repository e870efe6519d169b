#!/usr/bin/env python3
"""Source of /verif/MANIFEST.json (run to regenerate)."""
import json
T = {
 "C01": "exhaustive enumeration of registration sequences x requests on the real server, against a reference dispatcher",
 "C02": "exhaustive enumeration of overlapping patterns x request paths on the real server, against a reference matcher",
 "C03": "exhaustive enumeration of register/mount histories on the real server, against the flattened application",
 "C04": "exhaustive enumeration of path strings (request and registration) on the real server, against a reference normaliser",
 "C05": "exhaustive enumeration of segmentations and arrival schedules under a simulated socket layer, differential to the unsegmented run",
 "C06": "exhaustive enumeration of declared x sent lengths, ends and cuts under a simulated socket layer, against a reference framing",
 "C07": "exhaustive enumeration of header blocks on the real server, against a reference parser",
 "C08": "exhaustive enumeration of byte streams, truncations and client faults under a simulated socket layer",
 "C09": "stateless exploration of all event interleavings of 2-4 connections (deviation bounded beyond 2) and of histories",
 "C10": "exhaustive enumeration of response operation sequences on the real server, against a reference response",
 "C11": "exhaustive enumeration of cookie lists x attributes x operations on the real server, against a reference response",
 "C12": "exhaustive enumeration of Cookie header values on the real server, against a reference parser",
 "C13": "exhaustive enumeration of socket answers (partial, would-block, error) under a simulated socket layer",
 "C14": "exhaustive enumeration of file sizes x partial file reads x socket answers x operation sequences on the real server",
 "C15": "exhaustive enumeration of query strings on the real server, against a reference decoder",
 "C16": "exhaustive enumeration of query pair sequences on the real server, against a reference decoder",
 "C17": "exhaustive enumeration of all days 1970-9999 under a simulated clock, against a reference calendar",
 "C18": "exhaustive enumeration of request lines x headers on the real server, against a reference validator",
 "C19": "exhaustive fault-sequence enumeration of accept errors and misbehaving clients under a simulated socket layer",
 "C20": "exhaustive enumeration of status codes x versions x operations on the real server, against the IANA table",
 "C21": "exhaustive enumeration of configuration call sequences, against a reference state machine",
 "C22": "exhaustive enumeration of announced x sent lengths and histories with an allocation-counting heap",
 "C23": "exhaustive enumeration of flights' segmentations, records, socket answers, broken handshakes and interleavings with a TLS client inside the explorer, differential to the plain port, for rustls and OpenSSL",
 "C24": "exhaustive enumeration of response operation sequences, HEAD differential to GET, on the real server",
 "C25": "exhaustive enumeration of strings over an injection alphabet in every API position on the real server",
 "C26": "exhaustive enumeration of struct declarations, each expanded by the real derives and compiled, x values x damaged JSON, against a reference conversion",
 "C27": "exhaustive enumeration of annotated signatures x bodies and of paths, each expanded by the real macros, compiled and run, against the un-annotated meaning",
 "C28": "exhaustive fault enumeration of socket set-up calls x errno and of all ports under a simulated socket layer",
 "C29": "exhaustive enumeration of structures and of response operation sequences on the real server, against a reference response",
 "C30": "exhaustive enumeration of feature combinations (none and all but one; thorough: all 63) x the families of the other properties on servers really built so, against the same references",
}
NA = {}
NOTE = "Every execution in the stated bounds (DESIGN.md) of the unmodified octane + tokio + mio stack is run, none sampled; assumes the simulated libc socket layer answers as Linux does and that inputs outside the alphabets behave like those inside."
MNOTE = "Every declaration in the stated bounds (DESIGN.md) is expanded by the real macro, compiled by rustc and run, none sampled; declarations outside the bounds are not covered."
json.dump({"version": 1, "setup_cmd": "bash run.sh build",
  "checks": [{"property": i, "quick_cmd": f"bash run.sh check {i} quick", "thorough_cmd": f"bash run.sh check {i} thorough",
    "evidence_file": f"evidence/{i}.json", "technique": "model checking: " + t, "level": "model_checking", "level_note": MNOTE if i in ("C26", "C27") else NOTE} for i, t in T.items()],
  "not_applicable": [{"property": i, "reason": r} for i, r in NA.items()],
  "notes": "No hooks in /repo: the harness replaces libc's socket, epoll, clock and random functions at link time. Genuine defects are repaired by the fix: commits listed in known_findings.json."},
  open('/verif/MANIFEST.json', 'w'), indent=1)
