#!/usr/bin/env python3
"""Writes MANIFEST.json. CHECKS: property -> (harness crate, technique, note)."""
import json, os, subprocess

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MUX = "stateless model checking of the real session code under a controlled scheduler"
SVC = "stateless model checking of the real services under a controlled scheduler, network and clock"
CHECKS = {
    "Y01": ("h-yamux", MUX, "all schedules up to the deviation bound, all window sizes and transport shapes of the driver; bytes compared per stream"),
    "Y02": ("h-yamux", MUX, "as Y01 with the frames on the wire decoded by an independent decoder and the credit ledger checked at every frame"),
    "Y03": ("h-yamux", MUX, "one stream held unread, others driven to completion under every schedule up to the bound"),
    "Y04": ("h-yamux", MUX, "all scripts of opens, writes, closes and drops of both ends up to the depth bound against a reference"),
    "Y05": ("h-yamux", MUX, "every end of a session at every step of the driver; no operation may stay pending"),
    "Y06": ("h-yamux", MUX, "virtual clock; every pattern of answered and unanswered pings up to the bound"),
    "Y07": ("h-yamux", "exhaustive enumeration of frames, headers and cut positions against a reference codec", "all inputs over boundary alphabets"),
    "Y08": ("h-yamux", "exhaustive enumeration of hostile frame sequences against a reference model, on the real session", "all sequences over a 31-frame alphabet to depth 3 (4 thorough), 11 frames to depth 5 (6 thorough)"),
    "S01": ("h-secio", "exhaustive enumeration of configurations on the real handshake against an independent peer; controlled scheduler for transport fragmentation", "all ordered subsets of each algorithm kind on both sides, both precedences; schedules and short reads up to the deviation bound; transports that buffer one handshake message (512 bytes)"),
    "S02": ("h-secio", "exhaustive enumeration of single attacks by a man in the middle and a rogue peer on the real handshake", "every byte, cut, insertion, deletion, message drop/dup/swap, every subset of replayed messages, 69 forged proofs"),
    "S03": ("h-secio", "stateless model checking of the real secure stream under a controlled scheduler, exhaustive single attacks", "size patterns, transports, fragmentation up to the deviation bound, every single-message attack"),
    "S04": ("h-secio", "exhaustive enumeration of message sequences and counter positions against a reference cipher", "all sequences of four boundary lengths; 70 000 (2^24+300) counter positions"),
    "S05": ("h-secio", "exhaustive enumeration of near-miss encodings against a reference", "all one-byte edits, two-byte prefixes, one-character text edits"),
    "A01": ("h-secio", "exhaustive enumeration of addresses and near-miss encodings against a reference codec", "all sequences of two (three) of 52 components, all one-byte and one-character edits, all byte strings up to three bytes"),
    "A02": ("h-tentacle", "exhaustive enumeration of addresses against a reference", "all sequences of four (five) of 14 components, all ports, all IPv4 addresses, all first segments of IPv6 addresses"),
    "C01": ("h-channel", "stateless model checking of thread interleavings of the real channel source: own scheduler (sequentially consistent, preemption bound) and loom (C11 memory model, preemption bound); exhaustive operation sequences", "small programs of up to two (three) sender threads and a receiver; all operation sequences to depth 5 (7)"),
    "C02": ("h-channel", "stateless model checking of thread interleavings of the real channel source: own scheduler (sequentially consistent, preemption bound) and loom (C11 memory model, preemption bound); exhaustive operation sequences", "as C01, with capacity, wake-ups, closing and dropping"),
    "T01": ("h-tentacle", SVC, "all programs of two and three messages between two services (sender, protocol, priority, size, distance) over plain, encrypted, websocket, small-window and small-buffer connections; messages sent from callbacks; broadcasts and lists over two sessions while one closes; bursts beyond every queue; first messages of a remote cut at every pair of positions; schedules up to the deviation bound"),
    "T02": ("h-tentacle", SVC, "two connected services, six ways of handling a protocol; every history of up to two requests or faults, back to back and at every gap, all schedules up to the deviation bound; and one service with a hand-written remote that plays every sequence of up to two of 20 acts"),
    "T03": ("h-tentacle", SVC, "two connected services; every history of up to two requests or faults, back to back and at every gap, all schedules up to the deviation bound"),
    "T04": ("h-tentacle", SVC, "all sequences of dial and listen requests up to the depth bound over an address alphabet (good, refused, silent, closing, mute, unsupported, DNS, own), plain and encrypted, with and without connection limit; schedules up to the deviation bound"),
    "T05": ("h-tentacle", SVC, "two or three services with keys; repeated, crossing and misaddressed dials at every gap, all schedules up to the deviation bound"),
    "T06": ("h-tentacle", SVC, "all pairs of version lists of up to three versions and three relations of names; opens from both sides at every distance; every cut and single-byte change of a negotiation message; a negotiation never answered; schedules up to the deviation bound"),
    "T07": ("h-tentacle", SVC, "two connected services; graceful and immediate stops combined with every other request, back to back and at every gap, all schedules up to the deviation bound"),
    "T08": ("h-tentacle", SVC, "one handler blocked in a callback, or one connection frozen, until nothing else moves: all sequences of up to two of 14 and 11 requests meanwhile, with queues empty and full; growing data against two send buffer limits; schedules up to the deviation bound"),
    "T09": ("h-tentacle", SVC, "all sequences of up to four set, remove, wait and close steps over tokens of two protocols and levels on a virtual clock, compared with a reference model; schedules up to the deviation bound"),
    "T10": ("h-tentacle", "exhaustive enumeration of hostile frame and byte sequences against the real service under a controlled scheduler, network and clock", "all sequences of two of 30 (client) and 43 (server) hostile acts, every cut and single-byte change of the first bytes of plain, secure and websocket connections, silent peers at each stage, connections dead on arrival"),
    "T11": ("h-tentacle", SVC, "a service kept by a listener or a dial: all sequences of up to three of 13 requests, arrivals, closes, losses and listener failures, at every gap; schedules up to the deviation bound"),
    "T12": ("h-tentacle", SVC, "limits 0 to 3, all sequences of up to four connections in and out, silent dials and closes, at rest, back to back and at every gap; schedules up to the deviation bound"),
    "T13": ("h-tentacle", SVC, "all sequences of up to three of ten listener and session changes and messages, at every gap; schedules up to the deviation bound"),
    "T14": ("h-tentacle", SVC, "all sequences of up to three futures of eight kinds with disconnects and stops among them; all poll scripts of three answers with two of six events; at every gap; schedules up to the deviation bound"),
    "T15": ("h-tentacle", SVC, "a panic at the first or second call of each of five callbacks, either end, five handler arrangements, 12 activities, at every gap; schedules up to the deviation bound"),
    "T16": ("h-tentacle", "explicit-state model of the requests' effects, every trace of it up to the depth replayed against the real services under a controlled scheduler", "all sequences of up to two of 41 requests, each in seven ways, two handler kinds; single requests under all schedules up to the deviation bound"),
    "W01": ("h-tentacle", "exhaustive enumeration of message cuts and interposed messages against the real websocket transport under a controlled scheduler", "every cut into two and three messages and fragments, with every kind of message without data between; schedules up to the deviation bound"),
    "P01": ("h-proto", SVC, "the real ping handler in a real service: all sequences of four (five) of 11 acts of a peer and of three (four) of 5 acts of two peers against a reference on a virtual clock; schedules up to the deviation bound; messages cut and changed at every byte; molecule and flatbuffers messages"),
    "P02": ("h-proto", SVC, "the real identify handler in a real service: every decision of the user, all sequences of three (four) of 11 acts of a peer and of two (three) of 5 acts of two peers against a reference on a virtual clock; schedules up to the deviation bound; messages cut and changed at every byte; molecule and flatbuffers messages"),
    "P03": ("h-proto", SVC, "the real discovery handler in a real service: all sequences of three (four) of 11 acts of a peer, every limit with five sizes of the store, two and three peers, against a reference on a virtual clock; schedules up to the deviation bound; messages cut and changed at every byte; molecule and flatbuffers messages"),
}
HOOKS = ["d991e7d", "076f991", "b4a4a73", "a11a232"]

props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CHECKS:
        c, t, n = CHECKS[i]
        checks.append({
            "property": i,
            "quick_cmd": f"./check {c} {i} quick",
            "thorough_cmd": f"./check {c} {i} thorough",
            "evidence_file": f"evidence/{i}.json",
            "technique": t,
            "level": "model_checking",
            "level_note": n,
        })
    else:
        na.append({"property": i, "reason": "the harness for this property is not built yet"})
m = {
    "version": 1,
    "setup_cmd": "./setup",
    "hooks": {
        "guard": "cfg(p2p_verif)",
        "enable": "RUSTFLAGS=\"--cfg p2p_verif\" (set by ./check)",
        "source_commits": [subprocess.check_output(["git", "-C", "/repo", "rev-parse", h], text=True).strip() for h in HOOKS],
    },
    "checks": checks,
    "not_applicable": na,
    "notes": "check <harness> <property> <tier> rebuilds the harness from /repo and explores; --replay <file> replays a violation.",
}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
