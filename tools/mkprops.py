"""Writes /verif/properties.jsonl (kept as code so that the statements are easy to edit)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def p(id, title, statement, over, text, why, files, symbols=(), observe=(), hook=None, mech=()):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": list(files),
            "mechanism": [{"name": n, "where": w} for n, w in mech],
            "observe_at": list(observe), "hook_needed": hook,
        },
    })


FMT = "markflow/reformat_markdown.py"
TW = "markflow/_utils/textwrap.py"
D = "markflow/detectors/"
F = "markflow/formatters/"
API = "return value of markflow.reformat_markdown_text"

exec(open(os.path.join(HERE, "tools", "props_data.py")).read())

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), "properties")
