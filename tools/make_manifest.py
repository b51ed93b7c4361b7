"""Writes MANIFEST.json (development tool; no check runs it)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = " Workload: seeded random; nothing is claimed beyond the executions listed in the evidence. Trusts CPython, the kernel and the reference model in apgmon/."
T = {
    "C01": ("differential monitor: model read back through its public attributes against the abstract bundle the text was rendered from", "Every execution compares the whole parsed model."),
    "C02": ("monitor of numbering in model, compiled enum and COSMOS states; rejection monitor on exit status and folder snapshots", "Valid numberings are compared in three outputs; invalid ones must be refused by every generator."),
    "C03": ("rejection monitor: exit status and folder snapshot of every generator with one dangling reference planted, accepted twin run beside it", "Each planted reference has an accepted twin, so a refusal for another reason is noticed."),
    "C04": ("rejection monitor with planted duplicates and wrong module lists, accepted twin run beside it", "As C03."),
    "C05": ("boundary monitor: both sides of every representable limit run through every generator", "Acceptance and refusal around each limit, at every place a range can occur."),
    "C06": ("rejection monitor with CPU-time watchdog over generated import and type graphs", "A run which exceeds its CPU budget counts as a violation; the budget is more than ten times the slowest valid run."),
    "C07": ("rejection monitor over systematic and random text mutations", "Mutations are only used where the mutated text is outside the documented grammar for certain."),
    "C08": ("trace monitor over audit hooks and folder snapshots with injected I/O faults and limits at chosen files and bytes", "Every fault point of a set of runs; audit events cover opens, renames, removals and processes."),
    "C09": ("compiled probe under ASan/UBSan measures each field's bits and compares them with a reference layout", "Layout measured on gcc x86-64; -std=gnu11."),
    "C10": ("offline checker of the COSMOS file against a reference expansion of the message", "Every line of each packet is accounted for."),
    "C11": ("cross-output monitor: measured cFS struct layout against the COSMOS items of the same bundle", "Compares two outputs of the tool with each other; no reference layout is involved."),
    "C12": ("macro values evaluated by the C preprocessor and compiler against reference message ids", "All macros of each header are accounted for."),
    "C13": ("generated source compiled under ASan/UBSan and its variables read back at run time against the values of the text", "All translation units of a bundle in one program; gcc x86-64."),
    "C14": ("binary files compared with reference packing and read back through the compiled struct under ASan/UBSan", "Little-endian files are read into the struct, big-endian ones compared bytewise and with a byte-swapping reader."),
    "C15": ("pairwise execution monitor: byte comparison over hash seeds, orders, folders, histories in one process", "Histories run real parses and generations in one process."),
    "C16": ("metamorphic execution monitor: byte or semantic comparison of rewritten modules", "Byte comparison for layout, semantic comparison for order of definitions."),
    "C17": ("offline checker of comments by place, and pairwise comparison of runs with and without comments", "Comments are separated from code by an own lexer."),
    "C18": ("rejection monitor over faulty command lines with snapshots of the whole scratch area, and pairwise comparison of spellings", "Each faulty command is made from one which was accepted just before."),
    "C19": ("monitor of the messages of refusing runs against the planted cause", "Only presence of the names, limits, paths and lines is decided, not the wording."),
    "C20": ("offline checker of include lines and notes of the generated headers against the bundle", "All include lines and notes of each header are accounted for."),
    "C21": ("offline checker of the unions of the generated headers, and location of their alternatives in a program under ASan and UBSan", "C types of alternatives which are neither sequence nor enumeration are not decided (known finding K2)."),
}
m = {
    "version": 1,
    "setup_cmd": "/opt/venv/bin/python tools/selftest.py",
    "checks": [
        {
            "property": k,
            "quick_cmd": "./check.py %s --tier quick" % k,
            "thorough_cmd": "./check.py %s --tier thorough" % k,
            "evidence_file": "evidence/%s.json" % k,
            "technique": t,
            "level": "fault_enumeration" if k == "C08" else "exploration",
            "level_note": n + NOTE,
        }
        for k, (t, n) in T.items()
    ],
    "not_applicable": [],
    "notes": "No hooks in /repo: all observation is from outside (audit hooks installed by the runner, snapshots, compiled probes). Exit codes: 0 held, 1 violation, 2 inconclusive, 3 machinery error.",
}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
