#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the list below."""
import json, os
D = os.path.dirname(os.path.abspath(__file__))
ids = [json.loads(l)['id'] for l in open(D + '/properties.jsonl')]
T = {
 'W': ('exhaustive enumeration of G-code programs over an alphabet, run on the real welder, judged by a reference printer model', 'model_checking'),
 'L': ('exhaustive enumeration of inputs/operation sequences on the real classes, compared with a reference model at every state', 'model_checking'),
 'S': ('exhaustive enumeration of arcs, modes and settings on the real interpolators, judged by a reference printer model', 'model_checking'),
 'C': ('exhaustive enumeration of option vectors on the real programs, compared with the library under a reference option model', 'model_checking'),
 'P': ('exhaustive enumeration of argument dictionaries and callback answers on the real extension, compared with the library', 'model_checking'),
}
OVER = {
 'W13': ('exhaustive enumeration of environments (log level, buffer, callback, reuse, overwriting) per program on the real welder', 'model_checking'),
 'W16': ('exhaustive enumeration of cancellation points per program on the real welder', 'model_checking'),
 'W22': ('exhaustive enumeration of the schedules of two real conversions under a controlled scheduler, up to a bound on switches', 'model_checking'),
 'W23': ('exhaustive enumeration of files, options, numbers and locales, each run of the real code compared with the same run under the C locale', 'model_checking'),
 'W24': ('exhaustive enumeration of outcomes of conversions and of operation sequences on the real code, with every block of memory, open file and file in the folder accounted for', 'model_checking'),
 'W17': ('enumeration of every crash point and every failing file operation of the real program', 'fault_enumeration'),
 'S09': ('enumeration of every crash point and every failing file operation of the real program', 'fault_enumeration'),
}
NOTE = {
 'W': 'Exhaustive over every program of the stated alphabets and depths, run through the real arc_welder::process; trusts the reference printer model (src/refgc.hpp, src/weldlib.hpp) and g++; nothing is claimed beyond the bounds in the evidence file.',
 'L': 'Exhaustive over every sequence/input within the stated bounds on the real classes; trusts the reference model in src/lib.cpp and g++.',
 'S': 'Exhaustive over the stated grids and command sequences on the real interpolators; trusts the reference printer model and g++.',
 'C': 'Exhaustive over the stated option sets on the real executables; trusts the reference option model.',
 'P': 'Exhaustive over the stated dictionaries and callback answers on the real extension in the system Python; trusts the reference model.',
}
DONE = [l.strip() for l in open(D + '/done.txt') if l.strip()]
NA = {}   # property -> reason it is not claimed
checks = []; na = []
for i in ids:
    if i in DONE:
        t, lv = OVER.get(i, T[i[0]])
        checks.append(dict(property=i, quick_cmd='python3 check.py %s --tier quick' % i, thorough_cmd='python3 check.py %s --tier thorough' % i,
                           technique='model checking: ' + t, level=lv, level_note=NOTE[i[0]]))
    else:
        na.append(dict(property=i, reason=NA.get(i, 'The explorer for this property is not finished yet.')))
m = dict(version=1, setup_cmd='python3 check.py --selftest', checks=checks, not_applicable=na,
         notes='No hooks in /repo: the explorers compile its sources unchanged. Repaired defects are "fix:" commits, listed in known_findings.txt.')
json.dump(m, open(D + '/MANIFEST.json', 'w'), indent=1); print(len(checks), 'claimed', len(na), 'not')
