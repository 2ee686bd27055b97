#!/usr/bin/env python3
"""Writes MANIFEST.json (kept in step with properties.jsonl)."""
import json
import os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

ENGINE = ("TLA+ specification of the mapping engine; TLC checks the property on all states of small "
          "configurations, every transition is replayed into the real engine, and recorded histories of "
          "random configurations are validated by TLC")
ENGINE_NOTE = ("Holds for all histories of the enumerated configurations up to the stated depth on the "
               "specification, and the real engine emitted exactly the specified events on every one of these "
               "transitions and on all random histories run. Trusts TLC, the compiler and the driver; "
               "configurations beyond the enumerated ones are sampled.")
CHECKS = {}
for i in range(1, 12):
    CHECKS["C%02d" % i] = (ENGINE, ENGINE_NOTE)
SERVER = ENGINE.replace("the mapping engine", "the server's state machine on top of the mapping engine").replace(
    "the real engine", "the real server state machine under a virtual clock")
SERVER_NOTE = ENGINE_NOTE.replace("the real engine", "the real server state machine").replace(
    "and the driver;", "and the driver, which stands in for the main loop, the client port and the output device;")
for i in range(12, 17):
    CHECKS["C%02d" % i] = (SERVER, SERVER_NOTE)
PARSE = ("TLA+ specification of the translation of key expressions; TLC checks that it is well formed on all token "
         "lists up to a length and agrees with a structural definition, every transition is replayed into the real "
         "parser, and outcomes of random expressions are validated by TLC")
PARSE_NOTE = ("Holds on the specification for all token lists over the enumerated alphabets up to the stated length, and "
              "the real parser gave exactly the specified outcome for each of them, for all key names and for all random "
              "expressions run. Trusts TLC, the compiler and the driver; longer expressions are sampled.")
CHECKS["C17"] = (PARSE, PARSE_NOTE)
CHECKS["C18"] = (PARSE.replace("translation of key expressions", "meaning of configuration files").replace("token lists", "files")
                 .replace("up to a length and agrees with a structural definition", "up to a number of lines")
                 .replace("random expressions", "random files"),
                 PARSE_NOTE.replace("token lists over the enumerated alphabets up to the stated length", "files over the enumerated lines up to the stated length")
                 .replace("each of them, for all key names and for all random expressions run", "each of them and for all random files run")
                 .replace("longer expressions", "longer files"))
LINK = ("TLA+ specification of the connection between client and server; TLC checks the property on all histories of small "
        "scenarios, every transition is replayed into the real ends of the connection on a controlled transport, and "
        "recorded random histories are validated by TLC")
LINK_NOTE = ("Holds on the specification for all histories of the enumerated scenarios, and the real code did exactly what is "
             "specified on every one of these transitions and on all random histories run. Trusts TLC, the compiler and the "
             "driver with its interposed system calls; other messages and longer histories are sampled.")
for p in ("C19", "C20"):
    CHECKS[p] = (LINK, LINK_NOTE)
for p in ("C21", "C22", "C23"):
    CHECKS[p] = (LINK.replace("connection between client and server", "client").replace("the real ends of the connection on a controlled transport",
                 "the real client with real configuration files and real ports"),
                 LINK_NOTE.replace("with its interposed system calls", "with its interposed system calls and main loop"))

DAEMON = ("TLA+ specification of the server program with its devices; TLC checks the property on all histories of small sets of "
          "devices and configurations, every transition is replayed into the real server program running on interposed device "
          "files, and recorded random histories are validated by TLC")
for p in ("C24", "C25", "C26"):
    CHECKS[p] = (DAEMON, LINK_NOTE.replace("scenarios", "sets of devices").replace("with its interposed system calls; other messages",
                 "with its model of the system's input devices (evdev, uinput and inotify calls are interposed); other devices"))

props = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
m = dict(
    version=1,
    setup_cmd="python3 check.py --setup",
    hooks=dict(guard="none", enable="no hooks: the checks compile /repo's sources as they are", source_commits=[]),
    checks=[dict(property=p, quick_cmd="python3 check.py " + p, thorough_cmd="python3 check.py " + p,
                 technique=CHECKS[p][0], level="model_checking", level_note=CHECKS[p][1])
            for p in props if p in CHECKS],
    not_applicable=[dict(property=p, reason="specification and check not built yet") for p in props if p not in CHECKS],
    notes="TLA+ with TLC. Exit 2 means the check could not do its work. Findings: known-findings.json.")
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
