#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json: one entry per property that has a harness in checks/."""
import json
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = 'symbolic execution of the real Python source; z3 decides each assertion over all inputs in the bounds; counterexamples replayed on the real package'
COMMON = ('Solver-based: holds for every value of the symbolic inputs within the bounds listed in the evidence file. Arithmetic is over exact reals (floating-point rounding is outside), '
          'equalities are also accepted when coefficients agree to 1e-12; float literals are their decimal values. Trusts the symbolic NumPy/SciPy models (cross-checked on every run by real executions), '
          'the polynomial normal form that simplifies assertions before z3, and z3. ')
NOTE = dict(
    C01='Bessel-free: the phase-factor coefficients and response values are arbitrary.',
    C02='Bessel functions of a symbolic argument are uninterpreted functions of order and argument (with J_-n = (-1)^n J_n).',
    C03='The response function is an uninterpreted odd/arbitrary function of voltage.',
    C04='The response function is uninterpreted (ideal or arbitrary); Bessel functions as in C02.',
    C05='The tunneling current is an uninterpreted function of frequency, bias and junction voltages and the inverse Jacobian an arbitrary matrix, so every correction step is covered.',
    C06='With several coupled unknowns the affine junction map has fixed generic rational coefficients.',
    C07='The tunneling current is an uninterpreted function; correction steps are arbitrary.',
    C12='The interpolation grid is a coarse stand-in; spline evaluation between the nodes is uninterpreted.',
    C13='The interpolation grid is a coarse stand-in.',
    C19='The offset minimiser may return any value; the Savitzky-Golay filter is off.',
    C24='The complete recovery runs with the drive levels and ac currents of an ideal circuit in place of the search (which is checked on its own); irrational constants are rational approximations there.',
    C25='The dc analysis, I-V import and IF analyses are replaced by arbitrary results.',
    C27='The drawing library is replaced by a recorder; printed numbers are modelled by the rounding contract of text formatting; the spline through the noise temperatures is a stand-in.',
    C30='The drawing library is replaced by a recorder; response values and smoothing are those of C23 and the filter property; the folder layout of initialize_dir is decided by running it on the listed folder states (no symbolic input).',
    C29='Printed numbers are modelled by their rounding contract; the tunnelling current in harmonic balance and the numerical searches of the recovery are stand-ins; wording and timings are not checked.',
    C28='The drawing library is replaced by a recorder; harmonic balance and current calculation are stand-ins in plot_simulated; splines are uninterpreted between their nodes.',
)
OPEN = {}


def main():
    props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
    checks, na = [], []
    for p in props:
        i = p['id']
        if i in OPEN:
            na.append(dict(property=i, reason=OPEN[i]))
        elif os.path.exists(os.path.join(HERE, 'checks', i.lower() + '.py')):
            checks.append(dict(property=i, quick_cmd='python3-vt run.py %s' % i, thorough_cmd='python3-vt run.py %s --thorough' % i,
                               evidence_file='evidence/%s.json' % i, technique=TECH, level='other', level_note=COMMON + NOTE.get(i, '')))
        else:
            na.append(dict(property=i, reason='no check yet: the harness for this property is not finished'))
    m = dict(version=1, setup_cmd='python3-vt -c "import z3, mpmath, numpy"', checks=checks, not_applicable=na,
             notes='No hooks are used. run.py reads /repo source on every run (QMIX_REPO overrides the path for experiments).')
    json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
    print(len(checks), 'checks', len(na), 'not applicable')


main()
