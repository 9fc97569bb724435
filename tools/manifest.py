"""Rewrite MANIFEST.json from properties.jsonl and the checks that exist."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ORACLE = {
    "C01": "Fock-space exp(-T)H exp(T) and T1-dressed integrals",
    "C02": "linear part of the Fock-space residual, explicit ladder and ring expressions",
    "C03": "Fock-space expectation value",
    "C04": "Fock-space commutator gradient, exact polynomial differentiation",
    "C05": "Fock-space spin-orbital problem, block by block",
    "C06": "Fock-space closed-shell spin-orbital problem",
    "C07": "Fock-space expectation values",
    "C08": "Fock-space expectation values and linearity of the Lagrangian",
    "C09": "spin blocks of Fock-space expectation values",
    "C10": "metamorphic: orbital rotations and non-interacting subsystems",
    "C11": "metamorphic: argument snapshots, memory layouts, call sequences",
    "C12": "metamorphic: linearity in the scale, independence of prior content",
    "C13": "explicit element-by-element spin assembly and round trips",
    "C14": "explicit element-by-element definition",
    "C15": "bit-string fermion algebra",
    "C16": "brute-force enumeration of determinants",
    "C17": "bit-string second-quantised Hamiltonian",
    "C18": "bit-string second-quantised operators",
    "C19": "Fock-space exponential of the cluster operator",
    "C20": "60-digit decimal arithmetic",
    "C21": "60-digit decimal arithmetic",
    "C22": "dense four-index transformation of generated integrals",
    "C23": "dense transformation with generated mean-field objects",
    "C24": "dense transformation of generated periodic integrals, real cells",
    "C25": "symmetry laws over sizes and random states",
    "C26": "linearity in the imaginary unit",
    "C27": "exact diagonalisation, end to end",
    "C28": "metamorphic: exact rescaling of units and orbitals",
    "C29": "metamorphic: same values in other number types",
    "C30": "metamorphic: memory of results, arguments and earlier results",
}


def main():
    props = [json.loads(x) for x in open(os.path.join(HERE, "properties.jsonl"))]
    checks, missing = [], []
    for p in props:
        pid = p["id"]
        if not os.path.exists(os.path.join(HERE, "checks", pid.lower() + ".py")):
            missing.append({"property": pid, "reason": "check not built yet"})
            continue
        checks.append({
            "property": pid,
            "quick_cmd": "./run %s" % pid,
            "thorough_cmd": "./run %s" % pid,
            "evidence_file": "evidence/%s.json" % pid,
            "technique": "property-based testing: " + ORACLE[pid],
            "level": "exploration",
            "level_note": "Random search with shrinking, compared with an oracle that "
                          "shares no code with the library. Holds for the inputs tried; "
                          "sizes are bounded. Trusts numpy, the oracle in vlib and the "
                          "stated tolerance."})
    out = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks,
           "not_applicable": missing,
           "notes": "Pure Python: each check imports cqcpy from /repo's working tree. "
                    "Replays: ./run <property> --replay <file>."}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(out, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
