#!/usr/bin/env python3
"""Writes MANIFEST.json from the properties and from the checks run.py knows."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import run
props = [json.loads(l)['id'] for l in open(V + '/properties.jsonl')]
T = {}
LOCK = 'bounded exhaustive enumeration of executions of the real interpreter, every tick compared with an executable reference model'
SCHED = 'stateless model checking of the real threads under a controlled scheduler (bounded preemptions), outcomes compared with the atomic-step model'
NOTE = 'Every execution in the stated families is run on the real code and compared state by state with the reference machine. Holds for the enumerated bounds (program length, operand alphabet, stack shapes); trusts the reference machine in harness/ref.cpp and the observation through the public interface of FungeUniverse, FungeRunner, Field and StackStack.'
SNOTE = 'Every schedule with at most the stated number of preemptions of each listed program is run on the real code at sequentially consistent atomicity; a sleep-set reduction is applied together with the bound, so a schedule equal to an explored one may be skipped. Data races are reported by a happens-before monitor, weak memory is not explored. Trusts the interposed pthread primitives and the reference machine.'
CLINOTE = 'Every enumerated command line is run on the real program; trusts the table of documented option meanings in the harness.'
SPECIAL = run.__dict__.get('TECHNIQUE', {})
checks, na = [], []
for p in props:
    if p in run.PROPS:
        k = SPECIAL.get(p, 'lock')
        t, n = {'lock': (LOCK, NOTE), 'sched': (SCHED, SNOTE), 'cli': ('exhaustive enumeration of command lines and scripts against a reference model', CLINOTE)}[k]
        checks.append({'property': p, 'quick_cmd': f'python3 run.py {p} --tier quick', 'thorough_cmd': f'python3 run.py {p} --tier thorough', 'technique': t, 'level': 'model_checking', 'level_note': n})
    else:
        na.append({'property': p, 'reason': run.__dict__.get('NOT_APPLICABLE', {}).get(p, 'no check has been built for it yet')})
m = {'version': 1, 'setup_cmd': 'python3 run.py --setup', 'checks': checks, 'not_applicable': na,
     'notes': 'run.py PROPERTY builds the check from /repo and runs it; run.py PROPERTY --case FAMILY:INDEX replays one execution. No hooks in /repo: scheduling, time and input are owned by interposing libc and by a link-time wrap of FungeRunner::tick.'}
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not claimed')
