#!/usr/bin/env python3
"""Writes MANIFEST.json for the checks present in checks/."""
import json
import os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
    'C01': 'AddressSanitizer/UBSan build of the kernels under hostile arguments, and allocation accounting over repeated calls',
    'C02': 'ThreadSanitizer build with a pthread OpenMP runtime and schedule perturbation; bitwise comparison across thread counts',
    'C03': 'online monitor of displacement calls against the minimum-image relation, random cells',
    'C04': 'reference-model monitor (own Burg recursion) over generated signals',
    'C05': 'reference-model monitor (own correlation transform) and peak monitors over generated signals',
    'C06': 'reference-model monitor (own periodogram) over generated signals, engine against engine',
    'C07': 'conservation monitor: spectral area and temperature against the recorded kinetic energy',
    'C08': 'conservation and reference monitors on recorded projections, own dynamical matrix as oracle',
    'C09': 'additivity monitor over recorded spectra with output options toggled',
    'C10': 'round-trip monitor with an own lattice-dynamics oracle; equation-of-motion monitor on generated trajectories',
    'C11': 'monitor of symmetry lists and commensurability decisions against an own lattice-dynamics oracle',
    'C12': 'history monitor: random setter/query sequences against a fresh replay of the final settings',
    'C13': 'history monitor: random query orders against fresh objects',
    'C14': 'differential monitor of memory-mapped against in-memory runs, and of the files left behind',
    'C15': 'record checker: generated MD files against the frames returned by the readers',
    'C16': 'crash-point injection: files cut at every kind of byte, prefix checker over the returned frames',
    'C17': 'permutation monitor: shuffled MD files against the recovered order',
    'C18': 'round-trip and conservation checkers over saved, reloaded and joined HDF5 files',
    'C19': 'reference-model monitor of supercells and structure files, own parsers',
    'C20': 'reference-model monitor of displacement statistics',
    'C21': 'identity and reference-model monitors of the thermodynamic functions, floating-point error monitor',
    'C22': 'monitor of fits of synthetic line shapes with known parameters',
    'C23': 'file checker: saved analysis files against the values observed in memory',
    'C24': 'differential monitor: command-line runs against the library with the same settings',
    'C25': 'monitor of the MD-cell verdict over generated matching and mismatching cells',
    'C26': 'metamorphic monitor of the input reader and reference monitor of the derived structure',
    'C27': 'conformance monitor of live runs against a recording stand-in of LAMMPS that plays known motions',
    'C29': 'conformance monitor of scripted interactive sessions (recording terminal stand-in, pseudo terminal) against the Python interface',
    'C30': 'reference-model monitor (own dynamical matrix with polar term, own derivatives) over random on/off histories',
    'C31': 'monitor of complete runs on generated volume series with known equations of state and force constants',
    'C32': 'end-to-end monitor: complete analyses of synthetic motion with known frequencies and life times',
    'C28': 'monitor of finished figures and printed text against the numbers and own oracles, random orders of plots',
}
NOTE = 'held on the executions listed in the evidence file; workload is seeded, the oracle is independent of the code under test'
NOTES = {
    'C32': 'positions and widths are judged within a fraction of width and resolution (looser for maximum entropy and damped oscillators); modes narrower in frequency than 4.5 widths from zero are not judged; the asymmetric fit may fail for one mode in thirty',
    'C01': 'sanitizers see the paths driven and miss non-adjacent or intra-object overflows; live-memory growth is measured per call',
    'C02': 'races are judged on the interleavings that occurred (3 rates of injected yields, 1-16 threads)',
    'C05': 'the agreement with the FFT algorithms is a sampling statement, judged within stated tolerances',
    'C07': 'areas are judged where the sampling resolves the signal; the FFT algorithms take magnitudes, so their area is judged from below and above only loosely; the spectrum itself is judged tightly',
    'C12': 'two analyses alive in one process share their settings (known finding)',
    'C16': 'cuts at every byte of short files, sampled bytes of longer ones',
}


def main():
    checks, na = [], []
    for line in open(os.path.join(ROOT, 'properties.jsonl')):
        p = json.loads(line)
        i = p['id']
        if os.path.exists(os.path.join(ROOT, 'checks', i.lower() + '.py')):
            checks.append({'property': i,
                           'quick_cmd': '/opt/venv/bin/python run.py %s --tier quick' % i,
                           'thorough_cmd': '/opt/venv/bin/python run.py %s --tier thorough' % i,
                           'evidence_file': 'evidence/%s.json' % i,
                           'technique': 'runtime monitoring: ' + T[i],
                           'level': 'exploration',
                           'level_note': NOTES.get(i, NOTE)})
        else:
            na.append({'property': i, 'reason': 'the check is still being built (runtime monitoring applies)'})
    m = {'version': 1,
         'setup_cmd': '/opt/venv/bin/python -m compileall -q lib checks run.py >/dev/null 2>&1; test -x /opt/venv/bin/python',
         'checks': checks, 'not_applicable': na,
         'notes': 'No hooks in /repo: every monitor observes public calls, files and process behaviour of a scratch build of '
                  'the working tree (sanitizer flags are passed through the project\'s own setup.py). Genuine defects are '
                  'repaired by the fix: commits listed in known_findings.jsonl.'}
    json.dump(m, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
    print(len(checks), 'checks')


main()
