"""Writes /verif/MANIFEST.json."""
import json
import os
import sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
REAL = 'bounded exhaustive exploration of the real code: '
TECH = {
    'C01': REAL + 'every record sequence / calendar and clock grid within the bounds, each read compared with a reference model of the formats',
    'C02': REAL + 'every degree x minutes x hemisphere and every record sequence with dropouts and foreign records, against a reference decoder',
    'C03': REAL + 'every record history x split into files x decimation, against a list-based reference model',
    'C04': REAL + 'every recorded interval x requested interval x length x split, against a reference resampler',
    'C05': REAL + 'every move sequence near the meridian up to the depth bound, invariants on every state plus a reference unwrapping',
    'C06': REAL + 'the whole product of vessels, talkers, overrides and file sequences, against a dispatch table model',
    'C07': REAL + 'every record sequence x split x scale and clock grids, against a reference model of the records',
    'C08': REAL + 'every sequence of good and malformed lines and clock grids, against a reference model of the records',
    'C09': REAL + 'every record sequence x split x clock mode x scaling, against a reference model of the records',
    'C10': REAL + 'every sequence of log lines within the bounds x line ends x tags, against a reference extractor',
    'C11': 'exhaustive crash-point enumeration: every byte of the last record of every format, the torn file read by the real code',
    'C12': REAL + 'all 65536 status words and all small tables, against a bit-by-bit model',
    'C13': REAL + 'every document over the alphabet of lines up to the bound, output parsed by an independent TOML parser',
    'C14': REAL + 'every impulse position, window state and small sample history, against the defining sum',
    'C15': REAL + 'exact polynomial tracks of every order and every single disturbance, against closed-form velocities',
    'C16': REAL + 'every three-sample motion window and small history, against an independent vector derivation',
    'C17': REAL + 'the whole latitude x height grid, against closed forms in exact/high precision arithmetic',
    'C18': REAL + 'grid of places x instants x time zones, against an independent transcription of the formulas',
    'C19': REAL + 'every small two-axis acceleration/flag history, against a step-by-step reference filter',
    'C20': REAL + 'every arrangement of stretch lengths and gaps up to the bound, against a reference segmentation and planted coefficients',
    'C21': REAL + 'every small relief/unit cell on every small grid size, against the series summed with exact wavenumbers',
    'C22': REAL + 'grid of ages x depths x parameters, against closed forms and inverse relations',
    'C23': REAL + 'every unit residual (the map is linear) on every small grid size, against an independent transform',
    'C24': 'explicit-state exploration of every event sequence up to the depth bound on the real event handlers (fake canvas), state compared with a list model after each event',
    'C25': 'exhaustive exploration of call histories (ordered pairs/triples, environment changes) each in a forked process, differential against the call alone',
    'C27': REAL + 'the whole product of vessel formats, meters, places, motions, nights and divisions into files, the files taken through the documented workflow and compared with an end-to-end reference model',
    'C28': REAL + 'every combination of lengths, orders, limits and file positions around each limit and every short sequence of refused and served calls, against the table of what must be refused',
    'C29': REAL + 'every profile and grid of the product of sea floors, covers, axes and cooling models with every harmonic of thickness, taken through the documented workflow and compared with the series summed exactly and with the planted thickness',
    'C30': REAL + 'every subset of options left out or given with every number of positional arguments, every combination of number types, every reader with every form of paths and progress bar, compared with the one call that spells everything out by keyword',
    'C31': REAL + 'every assignment of line ends and empty lines to files of up to four records of every format, compared with the plainly written file',
    'C32': REAL + 'a fault injector under the real readers that fails every single open, read, map and write operation in turn (and hands files over in pieces of every size), the result being refused or whole',
    'C33': REAL + 'every file name, directory, way to write a path, order and repetition of the alphabet for every reader, compared with plainly named files, with an audit hook that records every file opened',
    'C26': 'stateless exploration of thread schedules of the real code under a controlled scheduler (line-level preemption points, preemption bound 1-2)',
}
NOTE = {
    'C04': 'One listed known finding (sampling= ignored); any other departure from the recorded instants or the requested interval is a violation. Trusts the reference model in mc/c04.py.',
    'C11': 'Complete over every byte position of the last record of every format within the stated file sizes; torn writes other than truncation are out of scope.',
    'C21': 'One listed known finding (layer wavenumber): a mismatch counts as listed only if it equals the finding\'s own exact formula.',
    'C23': 'Two listed known findings (output order): a mismatch counts as listed only if it equals the correct result in exactly the listed order.',
    'C24': 'matplotlib is not installed here; the axes, lines and canvas are stand-ins implementing the Line2D/Axes calls used. Results are those of the real event handlers.',
    'C25': 'Exhaustive over the listed calls and histories; calls with other arguments are covered only by the one-argument-at-a-time variants.',
    'C27': 'The workflow of example-scripts (sorting, interpolation, sums) is re-enacted in mc/c27.py, with a tie of its own; tie values of database.toml are not judged. Reference: the independent models of C15-C20.',
    'C29': 'The workflow of example-scripts/RMBA_calc.py is re-enacted in mc/c29.py. Output orders that C23 lists as findings are accepted here. Reference: the independent models of C21-C23.',
    'C30': 'Reference: the same function called with every argument by keyword in plain decimals (a relation between executions of the real code), the documented default values written out in the check. Arrays of 16 bits or of single precision are not claimed.',
    'C31': 'Reference: the same reader on the plainly written file (a relation between executions of the real code); what the plain file means is settled by C01-C10.',
    'C32': 'Faults are injected at open(), below the buffering of file objects, and at mmap(); code that went round both would be run without faults. Data and scratch files only, inside the scratch directory of the check.',
    'C33': 'Reference: the same reader on plainly named files (a relation between executions of the real code). Names that end like archives (.gz, .zip ...), which pandas unpacks, are not claimed.',
    'C26': 'Library code (numpy, pandas) runs atomically between shipgrav lines; schedules with more preemptions than the bound are not explored except for the alternating ones.',
}
DEF = 'Exhaustive within the stated bounds (see the evidence file) on the real code; values outside the alphabets and longer histories are not covered. Trusts the reference model in mc/%s.py and the file-format writers in mc/.'


def main():
    import importlib
    checks = []
    for l in open(os.path.join(V, 'properties.jsonl')):
        pid = json.loads(l)['id']
        mod = importlib.import_module('mc.' + pid.lower())
        checks.append({'property': pid, 'quick_cmd': './check.sh %s quick' % pid, 'thorough_cmd': './check.sh %s thorough' % pid,
                       'technique': TECH[pid], 'level': mod.LEVEL, 'level_note': NOTE.get(pid, DEF % pid.lower())})
    m = {'version': 1, 'setup_cmd': './setup.sh', 'checks': checks, 'not_applicable': [],
         'notes': 'No hooks in /repo: every check drives the public entry points of the working tree (imported from /repo, byte code caches ignored). '
                  'Known findings: known_findings.txt. Engine: mc/core.py. Replay: ./check.sh ID --replay FILE.'}
    with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


main()
