"""Writes /verif/MANIFEST.json from the checks that exist (run by hand)."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)

TECH = "deterministic simulation with fault injection: "
T = {
 "C01": (TECH + "seeded search over programs x interruption points; effect "
         "history must be a prefix of the undisturbed run's",
         "Every interruption point is a simulated step chosen by distinct "
         "source line; the oracle is the same program undisturbed. Trusts "
         "the simulator's effect log."),
 "C02": (TECH + "seeded search over REPL sessions of failing, random and "
         "garbage entries x interrupts, failed allocations, bounded stack",
         "Each entry is followed by one whose execution is observed; "
         "reporting and farewell are checked on the recorded history."),
 "C03": (TECH + "interrupt / allocation / stack / fatal-error schedules over "
         "REPL sessions, state compared with a reference model over "
         "immutable values",
         "After every cut the probed variables must equal the model's state "
         "at some point between the last output that happened and the next. "
         "Sub-language of the model only."),
 "C04": (TECH + "sessions and programs with aliasing shapes, also cut short, "
         "against a reference model without sharing",
         "Model values are immutable, so any observable sharing in the real "
         "interpreter shows as a difference. Sub-language of the model "
         "only."),
 "C05": (TECH + "the same program under many deliveries of its input "
         "(splits, delays, EINTR, line ends, soft EOF), against the line "
         "sequence",
         "Line sequence computed independently from the bytes; on-demand "
         "reading observed by a causal peer."),
 "C06": (TECH + "output devices with short, interrupted and failing writes; "
         "a causal peer that answers only what it has seen",
         "Device bytes compared with the printed sequence; faults at "
         "arbitrary byte offsets."),
 "C07": (TECH + "program files, stdin and arguments delivered with short "
         "reads, read errors at any offset and open errors",
         "All-or-nothing judged on the effect history against direct "
         "execution of the same code."),
 "C08": (TECH + "seeded programs under different histories, entropies, "
         "clocks and hash seeds must give equal histories",
         "Comparison between simulated runs that differ only in what must "
         "not matter."),
 "C09": (TECH + "scripted (adversarial) outcomes of the random generator",
         "Range, membership, permutation and attainability are checked for "
         "extreme and random raw outcomes."),
 "C10": (TECH + "histories of runs (also failed and interrupted ones) in one "
         "simulated process against a fresh process",
         "The last run's complete history must equal that of the same run "
         "alone, under another hash seed."),
 "C11": (TECH + "effectful operands for every operator, order compared with "
         "an independent evaluation-order table, also when cut short",
         "The table states the order per operator shape; interruptions must "
         "leave a prefix."),
 "C12": (TECH + "paired runs with and without diagnostics, also interrupted "
         "at corresponding effects",
         "Effect histories, status and failure point of the pair must be "
         "equal."),
 "C13": (TECH + "nested, recursive and callback calls, aborted at any point, "
         "against a reference model",
         "Frame contents are displayed by the program itself and compared "
         "with the model's."),
 "C14": (TECH + "REPL entries split over lines and byte deliveries, compared "
         "with single-line delivery",
         "Comparison between deliveries plus an independent count of "
         "displays and history."),
 "C15": (TECH + "WG after generated mutations, failed and interrupted "
         "statements, against a reference model",
         "All predefined names are probed in turn against the model's "
         "initial table."),
 "C16": (TECH + "regex operations with callbacks and loops, cut short at "
         "any point, against a reference model",
         "All match variables are probed; a cut may only leave the state of "
         "one match or of the transition to the next."),
 "C17": (TECH + "argument vectors through every source and delivery, with "
         "failures and interrupts while they are evaluated",
         "Arguments displayed by the program are compared with the given "
         "ones; failed evaluation must leave no program effect."),
}

def main():
    props = [json.loads(l) for l in open(os.path.join(HERE,
                                                      "properties.jsonl"))]
    checks, na = [], []
    for p in props:
        i = p["id"]
        if i.startswith("N"):
            na.append({"property": i, "reason": NA[i]})
            continue
        if not os.path.exists(os.path.join(HERE, "dst", "props",
                                           i.lower() + ".py")):
            na.append({"property": i, "reason": "check not built yet"})
            continue
        sys.path.insert(0, HERE)
        from dst.runner import load_prop
        checks.append({
            "property": i,
            "quick_cmd": f"python3 -B -m dst.runner check {i}",
            "thorough_cmd": f"python3 -B -m dst.runner check {i}",
            "evidence_file": f"evidence/{i}.json",
            "technique": T[i][0],
            "level": load_prop(i).level,
            "level_note": T[i][1]})
    m = {"version": 1,
         "setup_cmd": "python3 -B -m dst.selftest quick",
         "checks": checks, "not_applicable": na,
         "notes": "No hooks in /repo: every source of nondeterminism is "
                  "reached through CPython's own seams (sys.std*, "
                  "builtins.open, random, os.urandom, sys.monitoring, "
                  "recursion limit). Repairs of genuine defects are the "
                  "'fix:' commits listed in known-findings.json. "
                  "DST_THOROUGH_S sets the seconds of a thorough run "
                  "(default 600)."}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


PURE = ("A pure function of its operands: no schedule, clock, input arrival, "
        "randomness or crash point is involved, so simulation with fault "
        "injection adds nothing over plain input generation. ")
NA = {
 "N01": PURE + "(Text form of functions.)",
 "N02": PURE + "(Range against list operands.)",
 "N03": PURE + "(Parsing.)",
 "N04": PURE + "(RP form.)",
 "N05": PURE + "(Base conversion.)",
 "N06": PURE + "(Sorting; the order of key-function calls is part of C11.)",
 "N07": PURE + "(Itemwise application.)",
 "N08": PURE + "(Regex translation; match variables are C16.)",
 "N09": PURE + "(Output formats; delivery of the output is C06.)",
}

if __name__ == "__main__":
    main()
