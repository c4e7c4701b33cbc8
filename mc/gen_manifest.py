"""Writes MANIFEST.json from the checks that exist."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = {
    "C01": ("explicit enumeration of term pairs and of unify/undo histories on the real unifier, against an independent mgu model", "model_checking"),
    "C02": ("explicit enumeration of annotated literal pairs, set iteration orders and programs, against all injective pairings", "model_checking"),
    "C03": ("exhaustive enumeration of queries and rule sets executed on the interpreter, trace conformance to an executable model", "model_checking"),
    "C04": ("exhaustive enumeration of belief operation histories, trace and belief-base conformance to an executable model", "model_checking"),
    "C05": ("exhaustive enumeration of plan libraries and events, trace conformance to an executable model", "model_checking"),
    "C06": ("exhaustive enumeration of plan bodies, trace conformance to an executable model", "model_checking"),
    "C07": ("exhaustive enumeration of call patterns, call graphs and concurrent instances, trace conformance to an executable model", "model_checking"),
    "C08": ("stateless exploration of waits, events and clock behaviours on the real run loop under a virtual clock, against a timed model", "model_checking"),
    "C09": ("stateless exploration of agent interleavings with a preemption bound on the real agents, against solo runs and the model", "model_checking"),
    "C10": ("exhaustive enumeration of message sequences and bounded-preemption interleavings, conformance to an executable model", "model_checking"),
    "C11": ("withdrawal injected at every step of the receiver's execution, conformance to an executable model", "model_checking"),
    "C12": ("exhaustive enumeration of plans and plan-message histories, differential against the same plan in the receiver's program", "model_checking"),
    "C13": ("exhaustive enumeration of bounded token sequences and single-token edits, acceptance decided by an independent recogniser", "model_checking"),
    "C14": ("exhaustive enumeration of syntax trees and terms, print/parse round trip on the real code", "model_checking"),
    "C15": ("exhaustive enumeration of expressions with every constant/variable split, against an independent evaluator", "model_checking"),
    "C16": ("exhaustive enumeration of token sequences, separators and comment positions, against an independent scanner", "model_checking"),
    "C17": ("exhaustive enumeration of include graphs and path spellings, against textual inlining", "model_checking"),
    "C18": ("exhaustive enumeration of action arguments and binding modes, against independent definitions", "model_checking"),
    "C19": ("exhaustive enumeration of registries, declarations and calls, against an independent dispatch model", "model_checking"),
    "C20": ("exhaustive enumeration of term pairs and triples for the laws, and of freeze/ground under all bindings", "model_checking"),
    "C21": ("failure injected at every statement and action call of enumerated multi-intention programs, conformance to the model", "model_checking"),
    "C22": ("exhaustive enumeration of build-request histories, against a naming model", "model_checking"),
    "C24": ("exhaustive enumeration of conditions and of histories with inspections at every point, dumps read back and compared with an executable model", "model_checking"),
    "C25": ("exhaustive enumeration of programs, files and ways of starting, run in forked interpreters, conformance to an executable model", "model_checking"),
    "C26": ("exhaustive enumeration of histories of interface calls and runs, from outside and from within actions, conformance to an executable model", "model_checking"),
    "C23": ("exhaustive enumeration of console sessions driven through the real console loop, against a session model", "model_checking"),
}
LEVEL_NOTE = ("Exhaustive within the bounds given in DESIGN.md and the evidence file; every enumerated case is executed on the real "
              "code, so the model cannot drift from it unnoticed. Trusts the model in /verif/mc/ref.py or the check, CPython, and the harness.")


def main():
    props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
    checks = []
    missing = []
    for p in props:
        c = p["id"].lower()
        if not os.path.exists(os.path.join(ROOT, "mc", c + ".py")):
            missing.append({"property": p["id"], "reason": "no check has been built yet"})
            continue
        technique, level = NOTES[p["id"]]
        checks.append({
            "property": p["id"], "quick_cmd": "mc/run.sh %s --tier quick" % c, "thorough_cmd": "mc/run.sh %s --tier thorough" % c,
            "technique": "model checking: " + technique, "level": level, "level_note": LEVEL_NOTE,
        })
    manifest = {"version": 1, "setup_cmd": "true",
                "checks": checks, "not_applicable": missing,
                "notes": "No hooks in /repo are needed: checks drive the public API. mc/run.sh CHECK --replay FILE reproduces a violation."}
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(manifest, f, indent=1)
        f.write("\n")


main()
