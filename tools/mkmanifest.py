"""Write MANIFEST.json from the checks that exist (run with any python3)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
    "C01": "property-based testing (Hypothesis): execution and name resolution of modules generated from structured data",
    "C02": "property-based testing: runtime conformance of the data to the executed hints",
    "C03": "property-based testing against an independent reference inference model",
    "C04": "property-based testing of containers of dictionaries against a reference merging model",
    "C05": "metamorphic property-based testing over pairs of heights",
    "C06": "metamorphic property-based testing over pairs of strategies",
    "C07": "property-based testing of rendering histories, differential against processes with other hash seeds",
    "C08": "property-based testing: snapshots of identity, order and value of the data before and after",
    "C09": "metamorphic property-based testing: limit against truncated data, endless iterators",
    "C10": "property-based testing of adversarial keys, read back from the executed TypedDicts",
    "C11": "property-based testing of adversarial documentation texts, read back from the executed classes",
    "C12": "structured fuzzing of YAML texts, differential against from_data on the loaded content",
    "C13": "property-based testing of generated YAML files with known owner of every comment",
    "C14": "property-based testing and boundary enumeration of options and names, with Python itself as oracle",
    "C15": "stateful (model-based) testing of live histories in a sandboxed copy",
    "C16": "stateful (model-based) testing of validation histories in a sandboxed copy",
    "C17": "stateful (model-based) testing of the interface file after live histories",
    "C18": "property-based testing of sequences of writes with file-system snapshots",
    "C19": "property-based testing of generated data frames and series against their own columns and values",
    "C20": "property-based testing of generated function sources against their signatures",
    "C21": "property-based testing with mypy as oracle: generated literals accepted, mutated ones rejected",
    "C22": "metamorphic property-based testing: permuted, repeated and rebuilt data",
    "C23": "property-based testing of nearly equal siblings: alias sharing read from the declarations",
    "C24": "property-based testing of leaf objects against a table of their types",
    "C25": "property-based testing of live histories with crash injection at every traced state another process at generated places, and threads",
    "C26": "property-based testing with exceptions injected at generated lines, nested and threaded calls, failing loaders; differential against isolated calls",
    "C27": "differential property-based testing between processes with different environments",
    "C28": "metamorphic property-based testing: counted calls for generated patterns of data at one and two times the size",
}
ids = [json.loads(l)["id"] for l in open(f"{V}/properties.jsonl")]
checks, missing = [], []
for i in ids:
    if not os.path.exists(f"{V}/checks/{i.lower()}.py"):
        missing.append({"property": i, "reason": "no check built yet"})
        continue
    checks.append({
        "property": i,
        "quick_cmd": f"/opt/venv/bin/python check.py {i}",
        "thorough_cmd": f"/opt/venv/bin/python check.py {i}",
        "technique": TECH[i],
        "level": "exploration",
        "level_note": "The property held on every generated case (counts, rule and samples in the evidence file); nothing is shown about inputs that were not generated. "
        "Trusted: the generators' domain and the oracle described in DESIGN.md, Python's typing introspection, Hypothesis.",
    })
json.dump({
    "version": 1,
    "setup_cmd": "/opt/venv/bin/python tools/selftest.py",
    "checks": checks,
    "not_applicable": missing,
    "notes": "Pure Python: every check imports the code from /repo's working tree (VERIF_REPO overrides the path). No hooks in /repo.",
}, open(f"{V}/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks;", [m["property"] for m in missing])
