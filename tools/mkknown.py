#!/usr/bin/env python3
"""Writes /verif/known_findings.jsonl from the table below (run by hand after each fix: commit; never by a check)."""
import json, os, subprocess, re
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# start of the commit subject (after "fix: ") -> properties whose check found it
FIXED = [
    ("numbers which touch each other", ["C19", "C15"]),
    ("force sets of supercells with a non-diagonal", ["C10"]),
    ("average over symmetry leaves out", ["C32", "C11"]),
    ("rfc_calc draws the bands", ["C23"]),
    ("fitdata smooths short", ["C24"]),
    ("MEM of small or predictable signals", ["C04"]),
    ("fitdata uses the first row", ["C24"]),
    ("the mesh can follow the bands", ["C26"]),
    ("keys not offered", ["C29"]),
    ("the printed table of the bands", ["C28"]),
    ("qha_extract keeps", ["C31"]),
    ("atoms of LAMMPS live runs are put", ["C27"]),
    ("LAMMPS live runs take", ["C27"]),
    ("LAMMPS live runs are turned", ["C27"]),
    ("plots against time", ["C28"]),
    ("eigenvector plots weight", ["C28"]),
    ("scan of MEM coefficients leaves", ["C28"]),
    ("scan of MEM coefficients reports", ["C28"]),
    ("MD cell mismatches of short axes", ["C25"]),
    ("blank lines and comments are allowed anywhere", ["C26"]),
    ("band labels stay with their bands", ["C26"]),
    ("band structure files do not store the path bounds", ["C23"]),
    ("every branch is kept when renormalized bands", ["C23"]),
    ("rfc_calc reads the quasiparticle files", ["C23"]),
    ("rfc_calc uses the supercell given with --dim", ["C23"]),
 ("damped oscillator fit starts", ["C22"]),
 ("area of asymmetric and damped", ["C22"]),
 ("free energy does not overflow", ["C21"]),
 ("free energy includes the first", ["C21"]),
 ("entropy does not overflow", ["C21"]),
 ("automatic ordering finds", ["C17"]),
 ("keeping the last steps of a loaded projection", ["C18"]),
 ("maximum entropy method reads its data", ["C01","C04"]),
 ("maximum entropy method releases", ["C01"]),
 ("maximum entropy method refuses", ["C01"]),
 ("direct method multiplies", ["C05","C02"]),
 ("direct method refuses", ["C01"]),
 ("direct method releases", ["C01"]),
 ("atomic displacements release", ["C01"]),
 ("atomic displacements refuse", ["C01"]),
 ("atomic displacements wrap one-dim", ["C03"]),
 ("power spectrum unit", ["C07"]),
 ("cropping a trajectory", ["C13","C14"]),
 ("mean displacement matrices", ["C13","C20"]),
 ("MD cell mismatches of opposite", ["C25"]),
 ("a refused MD cell", ["C25"]),
 ("average positions folded", ["C20"]),
 ("every memory mapped array", ["C14"]),
 ("trajectory readers return", ["C15","C16"]),
 ("XDATCAR cell", ["C15"]),
 ("supercells repeat", ["C19"]),
 ("equivalent atoms compare", ["C26","C13"]),
 ("replacing the positions", ["C13"]),
 ("VASP structures are written", ["C19"]),
 ("POSCAR files are read", ["C19"]),
 ("concath5 joins", ["C18"]),
 ("times loaded from a hdf5", ["C18"]),
 ("the save renormalized", ["C23"]),
 ("symmetrizing force constants", ["C24"]),
 ("partial power spectra", ["C12"]),
 ("projecting onto an atom", ["C12"]),
 ("setting QHA", ["C12"]),
 ("cropping the trajectory of an analysis", ["C12"]),
 ("full power spectra projected", ["C12"]),
 ("silent full power", ["C09"]),
 ("writing extra", ["C23"]),
 ("printing phonon", ["C12"]),
 ("changing the number", ["C12"]),
 ("the temperature fit", ["C07"]),
 ("harmonic calculations use", ["C08"]),
 ("the initial phase", ["C10"]),
 ("wave vectors equivalent", ["C11"]),
 ("calculating the renormalized", ["C12","C24"]),
]
KNOWN = []   # dicts: property, key, what
try:
    from known_table import KNOWN  # noqa
except ImportError:
    pass
if __name__ == "__main__":
    log = [l.split(" ", 1) for l in subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s"], capture_output=True, text=True).stdout.splitlines()]
    done = set()
    out = []
    for start, props in FIXED:
        m = [(h, s) for h, s in log if s.startswith("fix: " + start)]
        assert len(m) == 1, (start, m)
        done.add(m[0][0])
        for p in props:
            out.append({"status": "fixed", "property": p, "commit": m[0][0], "what": m[0][1][5:],
                        "line": "fixed: property=%s %s %s" % (p, m[0][0], m[0][1][5:])})
    for h, s in log:
        if s.startswith("fix:") and h not in done:
            print("NOT LISTED", h, s)
    for k in KNOWN:
        out.append(dict(status="known", **k))
    with open(os.path.join(HERE, "known_findings.jsonl"), "w") as f:
        for o in sorted(out, key=lambda o: (o["property"], o["status"])):
            f.write(json.dumps(o) + "\n")
    print(len(out), "entries")
