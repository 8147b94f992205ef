"""Writers of the outputs of CRYSTAL, VASP and phonopy that quantas converts,
following the layout of the samples of the repository's tests and of the format
strings of those programs."""
import numpy as np

STAR = ' ' + '*' * 79
HH = ' ' + 'H' * 78


def _atoms(n, tag='T'):
    return ['%7d %s %3d %-2s  %20.12E%20.12E%20.12E' % (i + 1, tag, 12 if i % 2 == 0 else 8, 'MG' if i % 2 == 0 else 'O',
                                                        i / (n + 1.), 0.25 * (i % 3), -0.125 * (i % 2)) for i in range(n)]


def _lattice(lat):
    return [' DIRECT LATTICE VECTORS CARTESIAN COMPONENTS (ANGSTROM)', '          X                    Y                    Z'] + \
        ['  %19.12E  %19.12E  %19.12E' % tuple(r) for r in lat]


def _cell(lat, natom, density=3.513, head=' GEOMETRY FOR WAVE FUNCTION - DIMENSIONALITY OF THE SYSTEM    3'):
    vol = abs(np.linalg.det(lat))
    return [head, ' (NON PERIODIC DIRECTION: LATTICE PARAMETER FORMALLY SET TO 500)', STAR,
            ' LATTICE PARAMETERS (ANGSTROMS AND DEGREES) - BOHR = 0.5291772083 ANGSTROM',
            ' PRIMITIVE CELL - CENTRING CODE 5/0 VOLUME=%13.6f - DENSITY%7.3f g/cm^3' % (vol, density),
            '         A              B              C           ALPHA      BETA       GAMMA ',
            '     2.98975014     2.98975014     2.98975014    60.000000  60.000000  60.000000', STAR,
            ' ATOMS IN THE ASYMMETRIC UNIT %4d - ATOMS IN THE UNIT CELL: %4d' % (natom, natom),
            '     ATOM                 X/A                 Y/B                 Z/C    ', STAR] + _atoms(natom) + \
        ['', ' T = ATOM BELONGING TO THE ASYMMETRIC UNIT', '',
         ' ****   48 SYMMOPS - TRANSLATORS IN FRACTIONAL UNITS',
         '   1   1  1.00  0.00  0.00  0.00  1.00  0.00  0.00  0.00  1.00  0.00  0.00  0.00', ''] + _lattice(lat) + ['', '']


def _modes(freqs, group=True):
    """frequency table; equal neighbouring frequencies share a line"""
    L = ['    MODES         EIGV          FREQUENCIES     IRREP  IR   INTENS    RAMAN',
         '             (HARTREE**2)   (CM**-1)     (THZ)             (KM/MOL)']
    i = 0
    while i < len(freqs):
        j = i
        while group and j + 1 < len(freqs) and freqs[j + 1] == freqs[i] and j - i < 2:
            j += 1
        L.append(' %4d-%4d %13.4E %11.4f %9.4f  (Fu )   A (%9.2f)   I' % (i + 1, j + 1, 1e-10 * freqs[i] ** 2, freqs[i], freqs[i] * 0.02998, 1.5))
        i = j + 1
    return L + ['']


def _expansion(dim):
    return [' *******************************************************************************', ' * SUPERCELL OPTION', '',
            ' EXPANSION MATRIX OF PRIMITIVE CELL'] + ['  E%d %9.3f %9.3f %9.3f' % (i + 1, r[0], r[1], r[2]) for i, r in enumerate(dim)] + ['']


def crystal_gamma(lat, natom, energy, freqs, dim=None, group=True):
    """Gamma point run; with dim, of a supercell (lattice and atoms are its own)"""
    L = ['', '[ ... omissis ... ]', ' EEEEEEEEEE STARTING  DATE 26 02 2020 TIME 10:02:56.6', ' Title of the run', '',
         ' CRYSTAL CALCULATION', '']
    if dim is not None:
        L += _expansion(dim)
    n0 = natom if dim is None else natom // int(round(abs(np.linalg.det(dim))))
    L += _consistent(n0)
    L += _cell(lat, natom)
    L += [' HHHHHHH', '                   FORCE CONSTANT MATRIX - NUMERICAL ESTIMATE', HH,
          ' MAX ABS(DGRAD): MAXIMUM ABSOLUTE GRADIENT DIFFERENCE WITH RESPECT TO', '                 THE CENTRAL POINT',
          ' DE:             ENERGY DIFFERENCE WITH RESPECT TO THE CENTRAL POINT', '',
          '   ATOM      MAX ABS(DGRAD)       TOTAL ENERGY (AU)  N.CYC      DE       SYM',
          '    CENTRAL POINT           %20.12E    37     0.0000E+00    48' % energy,
          '    2 O  DX   2.9899E-04    %20.12E     6     8.6363E-07     8' % (energy + 1e-6), '',
          ' EIGENVALUES (EIGV) OF THE MASS WEIGHTED HESSIAN MATRIX AND HARMONIC TRANSVERSE',
          ' OPTICAL (TO) FREQUENCIES. IRREP LABELS REFER TO SYMMETRY REPRESENTATION', '', HH, '']
    L += _modes(freqs, group) + [HH, ' VIBRATIONAL ANALYSIS:', '', '[ ... omissis ... ]', '']
    return '\n'.join(L)


def _consistent(natom):
    return [' GEOMETRY NOW FULLY CONSISTENT WITH THE GROUP', '', ' GCALCO - MAX INDICES DIRECT LATTICE VECTOR    14    14    14',
            ' NO.OF VECTORS CREATED 6999 STARS  105 RMAX    59.79196 BOHR', '', ' CAPPA:IS1 12;IS2 12;IS3 12', '',
            ' ATOMS IN THE ASYMMETRIC UNIT %4d - ATOMS IN THE UNIT CELL: %4d' % (natom, natom),
            '     ATOM                 X/A                 Y/B                 Z/C    ', STAR] + _atoms(natom) + ['']


def crystal_dispersion(lat, natom, energy, dim, qpoints, bands, shrink, hess=False, density=3.513, group=False):
    """SCELPHONO run: lat is the unit cell; energy that of the supercell;
    qpoints [(weight, (i, j, k))], bands [[freq]] of the unit cell."""
    n = int(round(abs(np.linalg.det(dim))))
    L = ['', ' EEEEEEEEEE STARTING  DATE 26 02 2020 TIME 10:02:56.6', ' Title of the run', ''] + _expansion(dim)
    L += _consistent(natom) + [' * PHONON FREQUENCIES AT A SET OF K POINTS BY USING A SUPERCELL', '']
    L += _cell(np.dot(dim, lat), natom * n, density)
    L += ['    CENTRAL POINT           %20.12E    37     0.0000E+00    48' % energy, '']
    q = ['  *  %4d  %8.4f   %3d %3d %3d   *' % ((i + 1, w) + tuple(c)) for i, (w, c) in enumerate(qpoints)]
    end = '  * WITH SHRINKING FACTORS: IS1 =  %d  IS2 =  %d  IS3 =  %d  *' % tuple(shrink)
    if hess:
        L += [' * ACTIVATED INTERPOLATION OF THE HESSIAN UP TO %4d K POINTS *' % len(qpoints), ' *'] + [' * .'] * 6 + \
            [' *       K       WEIGHT       COORD'] + q + [end, '']
    else:
        L += [' * THIS SUPERCELL THAT PERMITS THE CALCULATION OF MODES AT %4d K POINTS *' % len(qpoints), ' *',
              ' *       K       WEIGHT       COORD'] + q + [end, '']
    L += [' EIGENVALUES (EIGV) OF THE MASS WEIGHTED HESSIAN MATRIX AND HARMONIC TRANSVERSE', ' OPTICAL (TO) FREQUENCIES.', '']
    for i, b in enumerate(bands):
        L += [' DISPERSION K POINT NUMBER %6d' % (i + 1), ''] + _modes(b, group)
    return '\n'.join(L + ['', ''])


def crystal_qha(lats, natom, energies, freqs, dim=None, order=None):
    """QHA run: lats [n][3][3] of the simulated cell sorted by volume, energies [n],
    freqs [modes][n]; order: the order in which geometries were optimised."""
    L = ['', ' EEEEEEEEEE STARTING  DATE 26 02 2020 TIME 10:02:56.6', ' Title of the run', '']
    if dim is not None:
        L += _expansion(dim)
    L += [' * QUASI-HARMONIC APPROXIMATION *', '']
    for i in (order if order is not None else range(len(lats))):
        L += _cell(lats[i], natom, head=' FINAL OPTIMIZED GEOMETRY - DIMENSIONALITY OF THE SYSTEM      3')
    L += [' SORTING VOLUMES/ENERGIES', '', '      VOLUME (A^3)         ENERGY (AU)', ' ' + '-' * 40]
    for lat, e in zip(lats, energies):
        L.append(' %18.8f %24.12E' % (abs(np.linalg.det(lat)), e))
    L += ['', ' FITTING OF FREQUENCIES', '']
    for i, f in enumerate(freqs):
        L += [' FREQUENCY #%6d' % (i + 1), '', '     VOLUME (A^3)    FREQUENCY (CM^-1)']
        for lat, x in zip(lats, f):
            L.append(' %18.6f %18.6f' % (abs(np.linalg.det(lat)), x))
        L.append('')
    return '\n'.join(L + ['', ''])


def crystal_soec(C, density=3.513, system='CUBIC', before=None, after=()):
    """before, after: densities of the geometry as typed and of the deformed ones"""
    L = ['', '[ ... omissis ... ]', '']
    if before is not None:
        L += _cell(np.eye(3) * 3.1, 1, before, head=' GEOMETRY OUTPUT - DIMENSIONALITY OF THE SYSTEM    3')
    L += [' GEOMETRY NOW FULLY CONSISTENT WITH THE GROUP', '']
    L += _cell(np.eye(3) * 3., 2, density)
    for d in after:
        L += _cell(np.eye(3) * 3.2, 2, d)
    L += [' * ELASTCON OPTION, W.F. PERGER, B. CIVALLERI, R. DOVESI                *', '',
          ' ' + '*' * 72, '                           FINAL RESULTS START', ' ' + '*' * 72, '',
          ' DATA FOR MAXIMUM NUMBER OF POINTS AND ORDER OF FIT', '',
          ' SYMMETRIZED ELASTIC CONSTANTS FOR %-12s CASE, IN GPa' % system, '']
    for i in range(6):
        L.append(' |' + ' ' * (9 * i) + ' ' + ''.join('%9.3f' % C[i, j] for j in range(i, 6)) + ' |')
    S = np.linalg.inv(C) * 1000.
    L += ['', '', ' ELASTIC MODULI (COMPLIANCE TENSOR), IN TPa^-1', '']
    for i in range(6):
        L.append(' |' + ' ' * (9 * i) + ' ' + ''.join('%9.4f' % S[i, j] for j in range(i, 6)) + ' |')
    return '\n'.join(L + ['', '[ ... omissis ... ]', ''])


VASP_ORDER = [0, 1, 2, 5, 3, 4]          # XX YY ZZ XY YZ ZX as Voigt indices


def _vasp_block(title, C):
    """C in GPa and Voigt order"""
    V = 10. * C[VASP_ORDER][:, VASP_ORDER]
    L = [' ' + title, ' Direction    XX          YY          ZZ          XY          YZ          ZX', ' ' + '-' * 80]
    for n, r in zip(('XX', 'YY', 'ZZ', 'XY', 'YZ', 'ZX'), V):
        L.append(' %s       ' % n + ''.join('%12.4f' % x for x in r))
    return L + [' ' + '-' * 80, '', '']


def vasp(C, total=True, clamped=None):
    clamped = C + np.diag(np.arange(1., 7.)) if clamped is None else clamped
    if not total:
        clamped = C
    L = ['', '[ ... omissis ... ]', ''] + _vasp_block(' ELASTIC MODULI  (kBar)', clamped + 0.5)
    L += _vasp_block(' SYMMETRIZED ELASTIC MODULI (kBar)', clamped)
    if total:
        L += _vasp_block(' ELASTIC MODULI CONTR FROM IONIC RELAXATION (kBar)', C - clamped)
        L += _vasp_block(' TOTAL ELASTIC MODULI (kBar)', C)
    return '\n'.join(L + ['[ ... omissis ... ]', ''])


def phonopy(lat, natom, energy, dim, qpoints, bands_THz, symbols=('Mg', 'O'), steps=1):
    """{suffix: text}: '.yaml', '_disp.yaml' and '.xml' (of a run of that many ionic steps)"""
    def lattice(ind, m):
        return [ind + 'lattice:'] + [ind + '- [ %20.15f, %20.15f, %20.15f ]' % tuple(r) for r in m]

    def points(ind, n):
        L = [ind + 'points:']
        for i in range(n):
            L += [ind + '- symbol: %s # %d' % (symbols[i % len(symbols)], i + 1), ind + '  coordinates: [ %.12f, %.12f, %.12f ]' % (i / (n + 1.), 0.25, 0.5),
                  ind + '  mass: 24.305000']
        return L
    L = ['mesh: [ 2, 2, 2 ]', 'nqpoint: %d' % len(qpoints), 'reciprocal_lattice:', '- [ 1.0, 0.0, 0.0 ]', '- [ 0.0, 1.0, 0.0 ]', '- [ 0.0, 0.0, 1.0 ]',
         'natom: %d' % natom] + lattice('', lat) + points('', natom) + ['', 'phonon:']
    for (w, c), b in zip(qpoints, bands_THz):
        L += ['- q-position: [ %12.7f, %12.7f, %12.7f ]' % tuple(c), '  weight: %d' % w, '  band:']
        for j, f in enumerate(b):
            L += ['  - # %d' % (j + 1), '    frequency: %15.10f' % f]
        L.append('')
    n = int(round(abs(np.linalg.det(dim))))
    D = ['phonopy:', '  version: 2.4.1', 'supercell_matrix:'] + ['- [ %d, %d, %d ]' % tuple(r) for r in dim]
    D += ['supercell:'] + lattice('  ', np.dot(dim, lat)) + points('  ', natom * n) + ['displacements:', '- atom: 1', '']
    X = []
    for k in range(steps):
        e = energy + steps - 1 - k
        X += [' <calculation>', '  <scstep>', '   <energy>',
         '    <i name="e_fr_energy">  -1.00000000 </i>', '    <i name="e_wo_entrp">  -2.00000000 </i>', '   </energy>', '  </scstep>', '  <energy>',
         '   <i name="e_fr_energy"> %18.8f </i>' % (e - 0.5), '   <i name="e_wo_entrp"> %18.8f </i>' % e,
         '   <i name="e_0_energy"> %18.8f </i>' % (e + 0.5), '  </energy>', ' </calculation>']
    X = ['<?xml version="1.0" encoding="ISO-8859-1"?>', '<modeling>'] + X + ['</modeling>', '']
    return {'.yaml': '\n'.join(L), '_disp.yaml': '\n'.join(D), '.xml': '\n'.join(X)}
