#!/usr/bin/env python3
"""Writes MANIFEST.json from props.py."""
import json, os, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "bin"))
import props
hook = [l.split()[0] for l in subprocess.run(["git", "-C", "/repo", "log", "--format=%H %s"], capture_output=True, text=True).stdout.splitlines() if l.split(" ", 1)[1].startswith("hook")]
note = {
    "C04": "Constants and masks proved for each of the 16 settings, the default and invalid settings, in sequences of builds in one directory. Trusts Kani, CBMC, cargo.",
    "C12": "Proved for all values for the ways that release; five known findings (F8) are the ways that never release, each pinned to one harness and one obligation.",
    "C18": "Enums that use every discriminant: proved for all values. Enums with too many variants: rejected by the compiler's const evaluation, at the sizes and shapes listed in the evidence (bounded).",
    "C10": "Proved for all values of the family; destructor runs during unwinding only by the bounded layer.",
    "C15": "Proved for all values of the family; panicking callbacks only by the bounded layer (c15::panics).",
}
std = "Discharged by CBMC for every value at the widths, payload types and enums listed in the evidence; loops fully unwound. Trusts Kani, CBMC and rustc; generic code is checked per type of the grid."
ctr = " Function contracts in /repo (guarded) are checked one function at a time, callers against the callees' contracts."
checks = []
for p, s in props.PROPS.items():
    c = bool([r for r in s["runs"]("quick", 1) if r.get("layer") == "ctr"])
    checks.append(dict(property=p, quick_cmd=f"bin/check {p}", thorough_cmd=f"bin/check {p} --thorough",
                       technique="contract-based deductive verification: " + ("Kani function contracts on the real code, with proof harnesses for the lemmas over them" if c else "pre/postconditions as Kani proof harnesses over the real code"),
                       level="proof", level_note=note.get(p, std) + (ctr if c else "")))
na = [dict(property="C23", reason="whether a type is Send or Sync is decided by rustc's trait solver alone: there is no function whose contract could state it, and no execution that could break it inside a verifier (auto traits leave no trace in MIR)")]
json.dump(dict(version=1, setup_cmd="cargo kani --version && cargo --version", hooks=dict(guard="--cfg tagged_box_contracts", enable="RUSTFLAGS='--cfg tagged_box_contracts' cargo kani -Z function-contracts -Z mem-predicates (bin/check does this for its contract runs)", source_commits=hook), checks=checks, not_applicable=na), open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
