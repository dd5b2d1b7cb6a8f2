#!/usr/bin/env python3
"""Writes MANIFEST.json from the check modules that exist (python3 tools/make_manifest.py)."""
import json
import pathlib

VERIF = pathlib.Path(__file__).resolve().parent.parent

# property: (technique, level note)
CHECKS = {
    "C01": ("generated frames against an independent table of wire layouts", "frames of every command the library has a message type for, whole and cut short, are generated field by field and decoded; bounded by field sizes and case counts"),
    "C02": ("round trip and differential encoding against an independent table of wire layouts", "field values of every composable command are generated, too large and missing values included, and the composed bytes are compared with the reference encoder and decoded back"),
    "C03": ("model-based operation sequences against a big-integer reference", "sequences of reads, peeks and writes on bit streams against a reference over the data as one integer"),
    "C04": ("fuzzing of datagrams (structured mutation, plus coverage-guided fuzzing in the thorough tier) with interleaved valid traffic as oracle", "garbage from mutated frames and random bytes on all three sockets; valid traffic around it must be unaffected"),
    "C05": ("generated histories of sends, acknowledgements and queue notices on virtual time against a reference model", "concurrent sends with lost, late, duplicate, foreign and queued answers; every outcome and its time is compared with a model"),
    "C06": ("generated histories on virtual time against a reference model", "sends and received traffic at generated times; the times of keep-alives are compared with a model"),
    "C07": ("generated histories of requests, replies and cancellations on virtual time against a reference model", "concurrent requests with replies before, after and without acknowledgement; every outcome is compared with a model"),
    "C08": ("generated traffic histories on a simulated network against an expected delivery list", "commands on all three kinds of socket between node list changes; deliveries and acknowledgements are compared with what arrived"),
    "C09": ("generated send histories on a simulated network against a model of what was announced", "concurrent sends with generated address answers; every transmission and outcome is compared with a model"),
    "C10": ("model-based histories of node lists on a simulated network", "node list reports that overlap with loading nodes and failing lookups; nodes and announcements are compared with the reference set"),
    "C11": ("generated class lists against a reference parser", "all marks, duplicates and unknown classes in generated lists against an independent reading of the node information frame"),
    "C12": ("metamorphic and history-based checks of generated supervised and bare commands", "the same command bare and supervised must be handled alike; reports are counted and compared"),
    "C13": ("generated handler sets and commands against a routing model", "which handlers and listeners are called, in which order, is compared with a model"),
    "C14": ("generated update histories with save and restart on YAML storage, round trip against a reference", "histories of updates through messages, interviews and settings; the restored state is compared with the one before"),
    "C15": ("generated lock and update histories, sequential and concurrent, against a reference model", "nesting, overlapping tasks, exceptions and cancellation; signals are compared with a model"),
    "C16": ("generated interviews with injected time-outs and answers against a reference model", "which versions are asked, what is interviewed and what is marked is compared with a model"),
    "C17": ("generated nodes with injected faults against a reference model of their associations", "requests sent, groups recorded and the lifeline set are compared with a simulated node"),
    "C18": ("model-based histories of mailbox traffic with injected send failures", "pushes, wake-ups and acknowledgements of several queues against a reference queue"),
    "C19": ("generated mailbox histories on virtual time against a timing model", "heartbeats of several entries with failing and slow sends; times and contents are compared with a model"),
    "C20": ("generated listener sets with raising and slow listeners against a reference model", "calls, their order and the values collected are compared with a model"),
    "C21": ("generated call histories against a simulated gateway with injected losses", "commands sent, sequence numbers and results are compared with the simulated gateway"),
    "C22": ("generated values through constructor, assignment and restore, round trip and differential", "every attribute of every message and command class in all ways of setting it"),
    "C23": ("generated report orders and losses against a reference model of the groups", "requests, state and signals are compared with a model"),
    "C24": ("round trip and differential conversion against an independent key formatter", "keys of all lengths in every representation"),
    "C25": ("generated request and report histories on virtual time against a reference model", "values returned, requests sent, cached values and signals are compared with a model"),
    "C26": ("generated object pairs with generated operations on one and a comparison of the other", "state of every other object before and after each operation"),
    "C27": ("generated messages and states rendered as text, compared with their fields", "every message type and command class; rendering must not raise or change anything"),
    "C28": ("generated connects with injected losses on a simulated gateway against a reference model", "commands sent while connecting and attribution afterwards are compared with a model"),
    "C29": ("generated inclusion and exclusion histories against an expected announcement list", "announcements and the handled flag are compared with what the gateway sent"),
    "C30": ("generated datagrams, keys and schedules of the receive thread on a stand-in for the dtls package", "what the handler and the socket get is compared with what was fed; key buffers have guard bytes"),
    "C31": ("generated numbers and names through decoding, composing and text against a table of the specification", "every enumerated field with named and unnamed numbers in both directions, options, metadata, command class and command numbers"),
    "C32": ("generated saves in forked processes, cut off by a kill, a full disk, or at every state the directory ever has", "all crash states of a save at function call granularity are restored and compared with the settings before and after"),
    "C33": ("generated histories of several connections on real loopback sockets and on a simulated network against the list of datagrams given", "datagrams, handlers, refusals, strangers, stops and restarts; what peers and handlers get is compared with what was sent"),
}
NOT_APPLICABLE = {}
PENDING = "no check has been built for it yet"

checks = []
missing = []
for prop in CHECKS:
    if not (VERIF / "checks" / (prop.lower() + ".py")).exists():
        missing.append({"property": prop, "reason": NOT_APPLICABLE.get(prop, PENDING)})
        continue
    technique, note = CHECKS[prop]
    checks.append(
        {
            "property": prop,
            "quick_cmd": "/opt/venv/bin/python check.py %s --tier quick" % prop,
            "thorough_cmd": "/opt/venv/bin/python check.py %s --tier thorough" % prop,
            "evidence_file": "evidence/%s.json" % prop,
            "technique": "property-based testing: " + technique,
            "level": "exploration",
            "level_note": note,
        }
    )
manifest = {"version": 1, "setup_cmd": "/opt/venv/bin/python -B -c 'import lib.bootstrap, hypothesis'", "checks": checks, "not_applicable": missing}
(VERIF / "MANIFEST.json").write_text(json.dumps(manifest, indent=1) + "\n")
print(len(checks), "checks;", [m["property"] for m in missing])
