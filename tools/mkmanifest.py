#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TRUST = ("Sampled, not enumerated: evidence, not proof. Trusted: the instrumentation (self-tested), sequential consistency, and the stand-ins of ")
note = {
 "C01": "sync, time and the connection.",
 "C02": "sync, time and the connection, whose writes fail at any byte.",
 "C03": "sync, time and the connection, with outages.",
 "C04": "sync, time and the connection; End at any instant.",
 "C05": "sync, time, connection and listener, with nobody reading the errors.",
 "C06": "sync, time and the connection, whose life cycle is checked call by call.",
 "C07": "sync, time, the connection and a unix datagram socket that runs out of buffers.",
 "C08": "sync, time, sockets and standard streams on an exact virtual clock.",
 "C09": "sync, time and the peers' sockets, which cut the stream anywhere.",
 "C10": "sync, time and tcp, unix, unixgram sockets.",
 "C11": "sync, time and sockets whose accept and read calls fail.",
 "C12": "sync, time and sockets; an independent decoder written from RFC 5424/5425 is the oracle.",
 "C13": "sync, time and sockets; End at any instant.",
 "C14": "sync, time and sockets; kept messages are compared again and again.",
 "C15": "sync, time and the connection.",
 "C16": "sync, time and the connection.",
 "C17": "sync and time, the wall clock jumping at any instruction.",
 "C18": "time, the wall clock advancing between any two instructions.",
 "C19": "sync, time, context and net, name server included.",
 "C20": "sync, time, os and net with a file system in memory.",
 "C21": "sync, time, os and net with separate processes and machines that crash.",
 "C22": "sync and time, and sockets.",
 "C27": "sync, time, os and net; the destinations of the senders and some listeners are the harness's.",
 "C26": "sync, time, os and net with a file system in memory and separate processes that crash.",
}
tech = {
 "C03": "deterministic simulation with fault injection (outages), history checked against the accepted order",
 "C15": "deterministic simulation, seeded search over schedules (no fault is involved), reference model of channels",
 "C18": "deterministic simulation of the clock (jumps, new year, time zones), reference model of the date",
 "C22": "deterministic simulation, seeded search over schedules (no fault is involved), reference model of the registry",
}
checks = []
for i in list(range(1, 23)) + [26, 27]:
    p = "C%02d" % i
    checks.append(dict(property=p, quick_cmd="./check.sh %s quick" % p, thorough_cmd="./check.sh %s thorough" % p,
        evidence_file="evidence/%s.json" % p,
        technique=tech.get(p, "deterministic simulation with fault injection, seeded search over schedules and faults, history oracle"),
        level="exploration", level_note=TRUST + note[p]))
pure = "A pure function of its input: no schedule, clock, fault or history for a simulator to vary. Covered incidentally, on the messages that pass through the simulated system, by "
m = dict(version=1, setup_cmd="./setup.sh",
    checks=checks,
    not_applicable=[
        dict(property="C23", reason=pure + "C09, C12, C21."),
        dict(property="C24", reason=pure + "C16, C21, C22."),
        dict(property="C25", reason=pure + "C12, C15."),
    ],
    notes="No hooks in /repo: sim/cmd/instr instruments /repo's working tree at check time and go build -overlay builds the twins. "
          "A check's exit code 2 means no verdict. Replay: ./check.sh --replay FILE. Known findings: known_findings.jsonl.")
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
