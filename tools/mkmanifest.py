"""Writes /verif/MANIFEST.json."""
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
COMMON = (" Assurance: exploration, no proof; held on the executions of the run, whose number, kinds and reach are in the evidence file, and which fall into the domain DESIGN.md "
          "describes. Trusted: the Python interpreter and the monitor's own oracle.")
T = {
    "C01": ("differential rendering oracle (two CommonMark implementations) over generated documents and widths",
            "Random document trees, layouts and widths; input and output are rendered by markdown-it-py and commonmark.py and must be equivalent in at least one (tables: markdown-it-py)."),
    "C02": ("online idempotence monitor over arbitrary texts", "Every returned text is formatted again and must come back unchanged; unstable witnesses must be refused."),
    "C03": ("exception monitor and step watchdog over hostile texts", "Every outcome must be a string or a documented exception; generated well-formed documents must be formatted."),
    "C04": ("conservation monitor (letters; content characters) over texts and documents", "Sequences of letters of any text, and of all content characters of generated documents, are compared."),
    "C05": ("trace checker: code lines located in the output via the document model", "Every line of each generated code block is matched in the output's corresponding block."),
    "C06": ("trace checker: inline pieces matched in the output token by token", "Each paragraph's output is matched against its pieces with spaces or line ends exactly where the source had white space."),
    "C07": ("trace checker: greedy-fill specification on each output paragraph", "Each output line is checked against the maximal filling of the pieces at its width."),
    "C08": ("line monitor and metamorphic comparison of line-ending spellings", "Each output line is inspected; results for all spellings of the line endings are compared."),
    "C09": ("trace checker: list numbering against the document model", "Item numbers, order, content and indentation of each output list."),
    "C10": ("trace checker: list tree against the document model", "Bullets, items, depth, order and indentation of each output list."),
    "C11": ("trace checker: table grid against the document model", "Every cell, row, padding and divider of each output table."),
    "C12": ("fault injection into tables with an error monitor", "Rows and dividers are made malformed; exception kind, line number and counts are compared with the injected fault."),
    "C13": ("trace checker: heading lines against the document model", "Level, text, underline of each output heading."),
    "C14": ("trace checker: quote markers and sub-document equality", "Markers of each output line and equality of the content with its separate formatting."),
    "C15": ("trace checker: definition parts against the document model", "Label, destination, title, layout of each output definition."),
    "C16": ("trace checker: rules against the document model", "Each output rule's character and length; no other line is a rule."),
    "C17": ("metamorphic monitor: concatenation of separately formatted blocks", "Whole-document output equals the joined outputs of its blocks."),
    "C18": ("history and schedule monitor (controlled thread interleavings, injected faults, logging-state snapshots)",
            "Call histories with failures, injected exceptions at executed lines, deterministic and free-running thread schedules; results compared with fresh-process results, logging state with its snapshot."),
    "C19": ("process monitor (audit events, tree snapshots) over command lines", "Real command runs with --check; file system, audit log, status and report compared with a real run."),
    "C20": ("process monitor (audit events, tree snapshots) over command lines", "Real command runs; every file and write event compared with the library's formatting."),
    "C21": ("fault enumeration over command lines with tree snapshots", "Failing files at every position and wrong arguments of every kind; file system, status and message."),
    "C22": ("process monitor over random directory trees", "The set of files changed and counted is compared with an independent walk of the generated tree."),
    "C23": ("process monitor of standard streams", "Standard output bytes and status for every kind of text, line length and verbosity; also through an actual pipe."),
    "C24": ("metamorphic monitor: pairs of layouts and widths", "Outputs of two random layouts of one document, and of re-wrapped texts, are compared."),
    "C25": ("step counter (executed lines) over growing input families", "Executed MarkFlow lines for n, 2n, 4n ...; growth per doubling and absolute step and CPU limits."),
    "C26": ("log monitor against the document model", "Every log record of a run: sections must tile the document, warnings name exactly the injected oddities' lines; the command's standard error at each verbosity."),
    "C27": ("file-tree monitor around the command", "The tree before and after --write-renders runs on unstable texts; renderings against each other, the text and the library."),
    "C28": ("process monitor over layouts of installations", "Copies of the package in random checkouts and installations; version, help, formatting, exit status and the tree of real processes."),
}
sys.path.insert(0, HERE)
props = [json.loads(x) for x in open(os.path.join(HERE, "properties.jsonl"))]
checks = []
for p in props:
    i = p["id"]
    tech, note = T[i]
    checks.append({
        "property": i,
        "quick_cmd": "python3 check.py --property " + i,
        "thorough_cmd": "python3 check.py --property %s --tier thorough" % i,
        "evidence_file": "evidence/%s.json" % i,
        "technique": "runtime monitoring: " + tech,
        "level": "fault_enumeration" if i in ("C18", "C21") else "exploration",
        "level_note": note + COMMON,
    })
json.dump({
    "version": 1,
    "setup_cmd": "python3 check.py --selftest",
    "checks": checks,
    "not_applicable": [],
    "notes": "No hooks in /repo: executions are observed with sys.monitoring, audit hooks and the public interface. known_findings.txt lists recorded and repaired defects.",
}, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
print(len(checks), "checks")
