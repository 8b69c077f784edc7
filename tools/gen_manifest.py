"""Writes /verif/MANIFEST.json: every property with a contracts/<id>.py is claimed, the others are listed with a reason."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = {
}
DEFAULT = ("Contracts on the public operations named in properties.jsonl are executed on the unmodified source of /repo over symbolic reals, integers and "
           "choices; every clause on every path is an obligation discharged by the normal form of symx/poly.py, z3 or cvc5 for all values at once. "
           "The shapes (number of atoms, bonds, rows) are fixed per contract variant and stated as bounds in the evidence file; beyond them the same "
           "contracts are checked at run time on random inputs, which is labelled bounded and not counted as proved. "
           "Assumed: exact real arithmetic instead of floating point, and the contracts of numpy, scipy and h5py in symx/shim.py.")


IND = " The sums over the terms of the Hamiltonian hold for any number of terms by induction over the loops of the code (symx/loops.py)."
for i in ("C09", "C10", "C11", "C12"):
    NOTES[i] = DEFAULT + IND
NOTES["C11"] += " The line search holds for any number of trials by a loop invariant."


def main():
    props = [json.loads(l) for l in open(f"{HERE}/properties.jsonl")]
    checks, na = [], []
    for p in props:
        i = p["id"]
        if os.path.exists(f"{HERE}/contracts/{i.lower()}.py"):
            checks.append({
                "property": i,
                "quick_cmd": f"/opt/venv/bin/python -m symx.run {i} --tier quick",
                "thorough_cmd": f"/opt/venv/bin/python -m symx.run {i} --tier thorough",
                "evidence_file": f"evidence/{i}.json",
                "technique": "contract-based deductive verification: contracts on the real Python functions, obligations generated by symbolic execution of /repo's source, discharged by normal forms and SMT",
                "level": "proof",
                "level_note": NOTES.get(i, DEFAULT),
            })
        else:
            na.append({"property": i, "reason": "contracts not built yet"})
    m = {"version": 1, "setup_cmd": "/opt/venv/bin/python -c 'import symx.run' && python3-vt -c 'import z3'",
         "checks": checks, "not_applicable": na,
         "notes": "No hooks in /repo; repairs of genuine defects are the fix: commits listed in KNOWN_FINDINGS.txt."}
    json.dump(m, open(f"{HERE}/MANIFEST.json", "w"), indent=1)
    open(f"{HERE}/MANIFEST.json", "a").write("\n")


main()
