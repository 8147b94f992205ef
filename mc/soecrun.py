"""Runs the elastic analysis through the CLI and reads back its report."""
import re

import numpy as np

from . import cli
from checks import c11


def analyse(C, rho, args=(), title='T', fmt='%.6f', form='complete'):
    rows = c11.rows_of(C, form, fmt)
    with open('a.dat', 'w') as f:
        f.write(c11.text(rows, title, None if rho is None else repr(float(rho))))
    return cli.quantas(['soec', 'a.dat'] + list(args)), np.array([[float(fmt % x) for x in r] for r in C])


def nums(line):
    return [float(x) for x in re.findall(r'(?<![\w.])[-+]?(?:\d+\.?\d*(?:[eE][-+]?\d+)?|inf|nan)(?![\w.])', line)]


def block(lines, head, n, skip=1):
    i = [k for k, l in enumerate(lines) if l.startswith(head)]
    return [nums(l) for l in lines[i[0] + skip:i[0] + skip + n]] if i else None


def parse(output):
    """numbers of the report, by meaning"""
    L = output.splitlines()
    out = {}
    m = re.search(r'^System is (\S+)', output, re.M)
    out['system'] = m.group(1) if m else None
    out['compliance'] = block(L, 'Compliance tensor', 6)
    avg = {}
    for l in L:
        w = l.split()
        if len(w) == 5 and w[0] in ('Voigt', 'Reuss', 'Hill'):
            avg[w[0]] = [float(x) for x in w[1:]]
    out['averages'] = [avg[k] for k in ('Voigt', 'Reuss', 'Hill')] if len(avg) == 3 else None
    m = re.search(r'Transversal\s+\(Vs\):\s*(\S+) km', output)
    n = re.search(r'Longitudinal \(Vp\):\s*(\S+) km', output)
    out['velocities'] = [float(m.group(1)), float(n.group(1))] if m and n else None
    out['eigenvalues'] = [float(x) for x in re.findall(r'lambda_\d: *(\S+)', output)]

    def table(head, names):
        i = [k for k, l in enumerate(L) if head in l]
        if not i:
            return
        i = i[0]
        ax = 0
        tags = None
        for l in L[i:]:
            w = l.replace('|', ' ').split()
            if l.startswith('Notes'):
                break
            if 'Values' in w:
                v = nums(l)
                for a, nm in enumerate(names):
                    out[nm] = {'min': v[2 * a], 'max': v[2 * a + 1], 'axes': []}
            elif 'Anisotropy' in w:
                v = nums(l)
                for a, nm in enumerate(names):
                    out[nm]['anisotropy'] = v[a]
            elif w and '---' not in l and 'anisotropy' in out.get(names[0], {}):
                v = [float(x) for x in w if re.match(r'^[-+]?\d+\.\d+$', x)]
                for a, nm in enumerate(names):
                    out[nm]['axes'].append((v[2 * a], v[2 * a + 1]))
    table("Young's modulus          |", ['E', 'LC'])
    table("Shear modulus           |", ['G', 'nu'])
    table('|          V_s1', ['vs1', 'vs2', 'vp'])
    return out
