#!/usr/bin/env python3
# Writes MANIFEST.json from sim/props.py.
import json, os, sys
R = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
sys.path.insert(0, os.path.join(R, 'sim'))
from props import PROPS
NOTE = ('Seeded search over explicit plans of operations, schedules and faults against the real code; held on everything explored, not a proof. '
        'Trusts OpenSSL 3.0 as reference, the compiler, and the seams listed in the evidence file. ')
EXTRA = {
 'C01': 'Preemption points are basic blocks and memory accesses of the library compiled with sanitizer-coverage; weak memory ordering is not simulated.',
 'C02': 'Preemption points as C01; the bundle file, mutexes and static-initialisation guards are simulated.',
 'C03': 'Quality of the operating system entropy itself is outside.',
 'C11': 'One known finding (CA:FALSE issuers) is listed in known-findings.txt.',
 'C13': 'Memory errors are those AddressSanitizer detects, plus dependence on fresh-memory contents.',
 'C15': 'The protocol around the library is the harness\'s own TLS-1.3-like state machine; impostors and one peer may be the reference implementation.',
}
NA = {
 'C18': 'A pure function of one block and key: no schedule, history, fault or second party in it, so simulation has nothing to decide. Wrong blocks still show up through C06, C08 and C15.',
 'C19': 'Pure arithmetic on its operands: no schedule, history or fault. Exercised indirectly by C09, C10, C15 and C17.',
 'C20': 'A timing side-channel property; a deterministic simulator owns time and cannot observe it.',
 'C21': 'Pure one-shot functions of their input; the parts that reach a peer are decided by C10 and C11.',
}
m = dict(version=1, setup_cmd='python3 check.py build',
  checks=[dict(property=k, quick_cmd=f'python3 check.py {k} quick', thorough_cmd=f'python3 check.py {k} thorough', evidence_file=f'evidence/{k}.json',
               technique='deterministic simulation with fault injection: seeded search over operation, schedule and fault plans, checked against a reference model', level='exploration', level_note=NOTE + EXTRA.get(k, '')) for k in sorted(PROPS)],
  not_applicable=[dict(property=k, reason=v) for k, v in NA.items()],
  notes='No hooks in /repo: every seam is at the compiler (sanitizer coverage), libc or operator new level, in /verif. All commits in /repo are fix: commits, listed in known-findings.txt.')
json.dump(m, open(os.path.join(R, 'MANIFEST.json'), 'w'), indent=1)
