#!/usr/bin/env python3
"""Writes /verif/DESIGN.md from its hand-written parts and the configuration."""
import os, sys, json
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, R)
from config import CHECKS, RULES, TECH  # noqa: E402
OR = {
 'C01': 'Newton–Euler step in `ref.hpp`; every field of the state after each step',
 'C02': 'analytic motion (uniform, constant force), own short-step twin, exact rotor response; exception + bitwise unchanged state for dt ≤ 0',
 'C03': 'limits of each rotor; first-order law; twin in which other rotors differ (bitwise)',
 'C04': 'norm = 1 up to rounding at every tick; exact rotation exp(ωt)',
 'C05': 'difference between the step and the deterministic reference = random part; mean/variance/correlation tests; seeds must not matter when off',
 'C06': 'bitwise equality of all observables with twin, copy or sequential run; ThreadSanitizer',
 'C07': 'step predicted on a copy of the dynamics that knows no floor; then contact rule or no effect',
 'C08': 'zero command; twin without the disarmed updates (bitwise); spin-down law',
 'C09': 'shadow of all references and modes after every call',
 'C10': 'reference cascade; twin with other foreign references; direct call of the cascade',
 'C11': 'textbook PID law accumulated over the history in long double',
 'C12': 'limits; unlimited twin; direction',
 'C13': 'scalar class, one-dimensional vector and vector axes next to each other; permuted and perturbed twins',
 'C14': 'wrench that the vehicle model itself and the reference produce for the commanded rotor speeds',
 'C15': 'reference attitude law; metamorphic: equilibrium, sign, yaw period, cut thrust',
 'C16': 'rotated kinematics + bias',
 'C17': 'moments of recorded noise, bias, increments; zero-intensity exactness; reseeding',
 'C18': 'reference integrator; true motion of the vehicle',
 'C19': 'acceptance rule; twin that never saw the rejected set (bitwise); reference for accepted ones',
 'C20': 'shadow of every setting; newly built twins',
 'C21': 'ASan, UBSan, MSan, assertions; repetition of the history with other garbage in memory must give the same observations',
 'C22': 'parse back; rotation rebuilt from angles',
 'C23': 'distance to the reference in every step of a holding window after a fixed settling time; shifted and turned twin',
 'C24': 'documented layout, wrench patterns',
 'C25': 'paired runs; complete explicit instantiation',
}
out = open(os.path.join(R, 'tools/design_head.md')).read()
for i in sorted(CHECKS):
    jobs = CHECKS[i]['jobs']('quick')
    out += '| %s | %s | %s | %s |\n' % (i, RULES[i].split(' Distinct:')[0].replace('|', '/'), OR[i], ', '.join('%s-%s×%d' % (j[1], j[2], j[4]) for j in jobs))
out += '\n' + open(os.path.join(R, 'tools/design_tail.md')).read()
P = os.path.join(R, 'tools/planted.json')
if os.path.exists(P):
    out += """
## Planted changes and the checks that catch them

Each is a directory in `seeded/` (patch, demonstration, meta data). All compile, pass the stable tests and fail their
demonstration. `quick` of the property named was run against each.

| change | property | needs | caught by | first report |
|---|---|---|---|---|
"""
    for i, v in sorted(json.load(open(P)).items(), key=lambda x: (x[1]['property'], x[0])):
        out += '| %s | %s | %s | %s | %s |\n' % (i, v['property'], v['needs'].replace('|', '/'), v['caught'], v['report'].replace('|', '/'))
open(os.path.join(R, 'DESIGN.md'), 'w').write(out)
