"""Writes properties.jsonl and MANIFEST.json from this one table."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, technique, note, level='model_checking', state=None):
    assert len(title) <= 80, title
    assert statement.count('. ') <= 2 + statement.count('e.g. ') + statement.count('i.e. '), (id, statement)
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  technique=technique, note=note, level=level, state=state))


prop('C01', 'Unit conversions are exact, reversible and side-effect free',
     'For every pair of documented unit names of energy, length, volume, pressure, frequency and temperature, converting a '
     'scalar, list or array gives the value expressed in the target unit by the physical definition of both units, so that '
     'conversions compose and converting back returns the original. Energy-per-volume to pressure conversion and its inverse '
     'obey the same rule for every supported unit triple. Unsupported units are refused and the caller\'s data are never modified.',
     ['inputs', 'histories'], 'all unit pairs and chains of three x value kinds (scalars, lists, 0-d, 2-d, strided, integer arrays)',
     'No unit test covers the conversions; the example runs use one unit set.',
     ['quantas/utils/physics/units.py'], [('scale tables and convert_*', 'quantas/utils/physics/units.py')],
     'bounded-exhaustive enumeration of unit chains x value kinds against an SI reference model',
     'complete for the unit spellings; values limited to an alphabet')

prop('C02', 'Harmonic thermodynamics equals the textbook sum over oscillators',
     'For every temperature, phonon spectrum, band weight and volume grid, zero-point energy, thermal energy, vibrational free '
     'energy, entropy and isochoric heat capacity equal the weighted sum over independent quantum oscillators, with non-positive '
     'frequencies contributing nothing and T = 0 giving the ground state. Consequently F = U - TS holds at every grid point, entropy '
     'and heat capacity are non-negative with the correct limits, and enthalpy, Gibbs energy, adiabatic bulk modulus and Gruneisen '
     'parameter obey their defining formulas including zero T and zero Cv.',
     ['inputs'], 'all (T, frequency, weight) of the alphabet; all array shapes (nT, nq, nf, nV) in the bound',
     'One example run with rounded expectations samples one spectrum and shape.',
     ['quantas/utils/physics/statistical_mechanics.pyx', 'quantas/utils/physics/thermodynamics.pyx'],
     [('Cython kernels', 'quantas/utils/physics/statistical_mechanics.pyx')],
     'bounded-exhaustive enumeration of shapes and oscillator alphabets against a reference model',
     'complete within the shape bound and alphabets; real compiled kernels')

prop('C03', 'Multi-threaded numerical kernels give the serial result under any schedule',
     'Whatever the number of worker threads and however they interleave, every parallel numerical routine returns the same values as '
     'a serial execution. No result depends on the schedule, and no thread\'s work is lost, duplicated or mixed with another\'s.',
     ['schedules'], 'all interleavings of 2-3 threads with at most 2 preemptions, for every parallel kernel and several shapes',
     'Tests run one arbitrary schedule of one input; a lost update shows up only in some interleavings.',
     ['quantas/utils/physics/statistical_mechanics.pyx', 'quantas/utils/physics/thermodynamics.pyx', 'quantas/utils/math/fast_math.pyx', 'quantas/soec/utils'],
     [('prange loops', 'quantas/utils/physics/statistical_mechanics.pyx')],
     'stateless model checking of the compiled kernels: controlled scheduler under -fsanitize=thread instrumentation, preemption-bounded',
     'complete up to the preemption bound for the harness shapes; sequentially consistent memory')

prop('C04', 'Harmonic analysis reports physically consistent properties in any units',
     'For any accepted input file and any combination of unit options, a harmonic run reports, at each temperature and volume, the '
     'oscillator sums over all bands with q-point weights normalised, and Utot = U0 + Uzp + Uth, F = U0 + Fvib = Utot - TS. Expressing '
     'the same system in other input units changes no physical result, and output units only rescale it.',
     ['inputs', 'configurations'], 'all combinations of energy/volume/frequency/temperature units x small systems x grids',
     'One example with default units is run; no other combination or identity is checked.',
     ['quantas/harmonic/harmonic.py', 'quantas/harmonic/commands/cmd_ha.py', 'quantas/IO/qha_reader.py'],
     [('HA calculator', 'quantas/harmonic/harmonic.py')],
     'bounded-exhaustive enumeration of systems x unit configurations through the CLI against a reference model',
     'complete over the listed configurations; end-to-end through the real CLI and HDF5 file')

prop('C05', 'Quasi-harmonic results satisfy the thermodynamic identities at each P, T',
     'For any physical input and any calculation scheme, each computed (T, P) state is the minimum of the fitted free energy plus PV, '
     'and free energy, internal energy, entropy, enthalpy, Gibbs energy, heat capacities, thermal expansion, bulk moduli and '
     'Gruneisen parameter at that state satisfy their defining relations. All schemes and input units agree on the same physical system '
     'within fitting accuracy.',
     ['inputs', 'configurations'], 'scheme x minimisation x EoS x degree x units x systems x (T,P) grids',
     'Nothing in the test suite runs a quasi-harmonic calculation.',
     ['quantas/qha/qha.py', 'quantas/qha/commands/cmd_qha.py'],
     [('QHA calculator', 'quantas/qha/qha.py')],
     'bounded-exhaustive enumeration of schemes x units x systems through the CLI against an independent model',
     'systems with a known analytic answer; tolerances from fitting error on the alphabet')

prop('C06', 'Temperature and pressure grids are exactly the requested ones',
     'For any requested minimum, maximum and step, the temperatures and pressures at which properties are computed are min, min+step, '
     '... up to the largest such value not exceeding max, each present exactly once and in order. The grid is the same whatever the '
     'unit it is expressed in, and is the one reported with the results.',
     ['inputs', 'configurations'], 'all (min, max, step) of an alphabet containing non-representable decimal steps',
     'Tests use a single grid whose endpoint happens to be exact in binary.',
     ['quantas/harmonic/harmonic.py', 'quantas/qha/qha.py'],
     [('grid construction', 'quantas/qha/qha.py')],
     'bounded-exhaustive enumeration of grid requests against exact decimal arithmetic',
     'complete over the request alphabet; real calculators and CLI')

prop('C07', 'Equation-of-state energy, pressure, modulus and derivative agree',
     'For each supported formulation and order, pressure and energy equal the published formula at every volume, for scalars and arrays, and '
     'pressure is minus the volume derivative of the energy. At the reference volume P = 0 and the bulk modulus and its pressure derivatives '
     'are the parameters given or, for those not fitted, the published implied values (for cell axes, three times the volumetric K\' '
     'of second-order forms). Normalised pressures describe the same curve, and no evaluation changes the parameters it is given.',
     ['inputs', 'configurations'], 'formulation x order x volume or linear x compression grid x parameter alphabet',
     'The only EoS test reads a file; no evaluation is tested.',
     ['quantas/eosfit/utils/pv_eos.py', 'quantas/qha/utils/ev_eos.py'],
     [('EoS formulations', 'quantas/eosfit/utils/pv_eos.py')],
     'bounded-exhaustive enumeration of formulations x parameters x compressions against published formulas',
     'complete over the listed formulations/orders; values from alphabets')

prop('C08', 'Fitting an equation of state recovers the parameters that made the data',
     'Data generated from any supported P-V, P-length or E-V equation of state are fitted back to the generating parameters, for any '
     'formulation, order, weighting and subset of fixed parameters; fixed parameters keep their value and have no uncertainty. For inexact '
     'data the result is the weighted optimum and the fit statistics, implied values and calculated curve describe the returned '
     'parameters. A fit never changes its data or guess, and refitting or fitting another axis afterwards gives the same answer as a fresh fit.',
     ['inputs', 'configurations', 'histories'], 'formulation x order x axis x sigma kind x subsets of fixed parameters; sequences of fits on one session',
     'No fit is tested at all.',
     ['quantas/eosfit/utils/pv_eos.py', 'quantas/qha/utils/ev_eos.py'],
     [('EOS.fit', 'quantas/eosfit/utils/pv_eos.py')],
     'bounded-exhaustive enumeration of fit configurations and fit histories on the real fitter',
     'exact synthetic data; convergence from the default guesses on the alphabet')

prop('C09', 'EoS data files are read exactly as the documented keyword format says',
     'Any file following the documented format is read so that each number reaches the quantity its FORMAT keyword names, whatever '
     'keyword order, case, columns, comments, blank lines or title. A file lacking pressure or every cell measure, or holding '
     'malformed rows, is refused with an error and no partial data, and earlier files read never influence it.',
     ['inputs', 'histories'], 'all keyword subsets/orders up to the bound x layout variants x corruptions x sequences of files',
     'One well-formed file is read.',
     ['quantas/IO/eos_reader.py'], [('EoSInputFileReader', 'quantas/IO/eos_reader.py')],
     'exhaustive enumeration of the input grammar up to a bound against a reference reader',
     'complete within the grammar bound')

prop('C10', 'The interactive fit session obeys every sequence of answers',
     'For every sequence of menu answers, valid or not, the interactive equation-of-state session never crashes or hangs, re-prompts on '
     'invalid answers, and the parameters, fixed flags, formulation and order used by the fit are exactly those last selected. '
     'Leaving the session always works and earlier selections never leak into later fits except as displayed.',
     ['histories', 'inputs'], 'all answer sequences up to the depth bound over the menu alphabet',
     'The interactive session is never driven by the tests.',
     ['quantas/eosfit/utils', 'quantas/eosfit/eosfit.py'], [('interactive menu', 'quantas/eosfit/utils')],
     'explicit-state search over answer sequences driving the real session',
     'complete up to the depth bound with state merging')

prop('C11', 'Elastic input files give the same tensor in every documented layout',
     'A stiffness matrix written as upper triangular, lower triangular or complete, with or without title line and density and '
     'whatever spacing and number style, is always read as the same symmetric tensor and density. Files with wrong counts, non-numeric '
     'entries or asymmetric matrices are refused with a clear error, and one file read never affects the next.',
     ['inputs', 'histories'], 'layout x title x density x number style x corruption at every token; sequences of reads',
     'One upper triangular file and one malformed file are read.',
     ['quantas/IO/soec_reader.py'], [('SOECInputFileReader', 'quantas/IO/soec_reader.py')],
     'exhaustive enumeration of the input grammar and single-token corruptions against a reference reader',
     'complete within the grammar bound')

prop('C12', 'Phonon input files written by the generator read back unchanged',
     'Whatever system is written by the input generator, reading the file returns the same cell, energies, volumes, q-points, weights '
     'and mode frequencies within the printed precision, for every number of q-points, modes and volumes. Hand-written files following the '
     'documented layout give the same data, and any mismatch between declared and actual sizes is refused with an error.',
     ['inputs', 'histories'], 'shapes (nV, nq, nmodes) x number magnitudes x optional keys x every size mismatch; write/read histories',
     'One example is generated and compared.',
     ['quantas/IO/qha_reader.py', 'quantas/IO/qha_writer.py'], [('YAML reader/writer', 'quantas/IO')],
     'bounded-exhaustive write/read round trips and size-mismatch enumeration',
     'complete within the shape bound')

prop('C13', 'One analysis never influences another in the same process',
     'For any sequence of readings, calculations, failures and exports in one process, each gives the same outcome as if it '
     'were run alone in a fresh process. Repeating an analysis on the same input is deterministic.',
     ['histories'], 'all ordered sequences up to the depth bound of operations on distinct inputs, incl. failing ones',
     'Tests run each operation once per process.',
     ['quantas/core', 'quantas/IO', 'quantas/interfaces', 'quantas/soec', 'quantas/harmonic'],
     [('per-instance state', 'quantas/core/calculator.py')],
     'exhaustive enumeration of operation histories, differential against fresh-process execution',
     'complete up to history depth over the operation menu')

prop('C14', 'Elastic averages and directional properties follow from the tensor',
     'For any stable stiffness tensor, reported compliance, Voigt, Reuss and Hill averages, Young modulus, linear compressibility, shear '
     'modulus and Poisson ratio in any direction equal those from rotating the full fourth-rank tensor. Specialised and general code '
     'paths agree, results are unchanged under the symmetry operations of the crystal, and 2-D section and 3-D map '
     'data refer to the directions they are labelled with.',
     ['inputs'], 'crystal systems x tensors x direction lattice',
     'One hydroxylapatite run checks a handful of scalars.',
     ['quantas/soec/utils/soec_obj.py', 'quantas/soec/soec.py'], [('SOEC tensor', 'quantas/soec/utils/soec_obj.py')],
     'bounded-exhaustive enumeration of tensors x direction lattice against a fourth-rank tensor model',
     'complete over the lattice; tensors from an alphabet of all crystal systems')

prop('C15', 'Reported elastic extremes bound every direction and are attained',
     'The reported minimum and maximum of each elastic modulus bound its value in every direction, and evaluating the property along '
     'the reported axes gives the reported extreme. The anisotropy ratio is the ratio of those extremes.',
     ['inputs'], 'crystal systems x tensors; a fine direction lattice',
     'A single tensor is checked against previously recorded numbers.',
     ['quantas/soec/utils/soec_obj.py', 'quantas/soec/soec.py'], [('variations', 'quantas/soec/soec.py')],
     'bounded-exhaustive direction lattice search against reported extremes',
     'extremes verified against a dense lattice; off-lattice directions not covered')

prop('C16', 'Crystal system and mechanical stability are identified correctly',
     'Any stiffness tensor having the form of one crystal class (standard setting) is reported as that class, whatever its values and rounding. A tensor that is not positive definite is reported '
     'as mechanically unstable, with no analysis of its elastic moduli nor results saved, and every positive definite one is analysed.',
     ['inputs'], 'all crystal class forms x sign patterns x numerical noise; tensors on both sides of each stability limit',
     'Only one stable hexagonal crystal is used.',
     ['quantas/soec/utils/symmetry.py', 'quantas/soec/soec.py'], [('classification', 'quantas/soec/utils/symmetry.py')],
     'exhaustive enumeration of crystal classes and stability boundary sides',
     'complete over the class table; values from alphabets')

prop('C17', 'Result files hold exactly what was computed and can all be exported',
     'The HDF5 file of every run contains the computed datasets and settings in the stated units, and each dataset can be '
     'exported as a table whose rows, columns, headings and values are those of the file. Exporting any selection of results, for any run '
     'options, finishes without error and writes only the selected quantities.',
     ['inputs', 'configurations', 'histories'], 'run kinds x options x every exportable selection',
     'No exporter is tested.',
     ['quantas/IO/hdf5_export.py', 'quantas/harmonic/utils/export.py', 'quantas/qha/utils/export.py', 'quantas/soec/utils/export.py', 'quantas/core/export.py'],
     [('HDF5Exporter and export sessions', 'quantas/core/export.py')],
     'exhaustive enumeration of run options x export selections, differential against the HDF5 content',
     'complete over the menu of selections')

prop('C18', 'Outputs of CRYSTAL, VASP and phonopy are converted faithfully',
     'For any output of a supported program, the generated input holds the volumes, energies, q-points, weights, frequencies '
     'and elastic constants of that output, with indices in Voigt order and units as documented, in the order of the given '
     'files. Incomplete or foreign files are refused with an error in finite time, and conversions are independent of earlier ones.',
     ['inputs', 'histories'], 'synthetic outputs: shapes (cells, q-points, bands), 21 elastic entries individually, all truncation points',
     'One CRYSTAL file per task and one VASP file, both too symmetric to tell indices apart.',
     ['quantas/interfaces/crystal.py', 'quantas/interfaces/vasp.py', 'quantas/interfaces/phonopy.py'],
     [('interfaces', 'quantas/interfaces')],
     'bounded-exhaustive synthetic outputs and all truncation points against a reference parser',
     'layouts modelled on the shipped examples; other program versions not covered')

prop('C19', 'Commands never destroy the user\'s files',
     'No command modifies or truncates its input files, whatever file names and options are given. An existing result file is overwritten '
     'only when the user agreed, and the answer given decides exactly which files are written.',
     ['configurations', 'inputs'], 'commands x input names x output options x existing files x answers',
     'Tests do not go through the command line.',
     ['quantas/cmdline', 'quantas/harmonic/commands', 'quantas/qha/commands', 'quantas/soec/commands', 'quantas/eosfit/commands'],
     [('output name handling', 'quantas/cmdline/utils')],
     'exhaustive enumeration of file name/option/answer combinations in a scratch directory, directory snapshots compared',
     'complete over the enumerated combinations')

prop('C20', 'Damaged input is reported, never turned into results or a crash',
     'Cutting an input file at any point, dropping or corrupting any of its lines, or giving an empty or foreign file makes each '
     'command end with an error message, or with the results that the remaining content defines; never with a traceback, a hang, or a '
     'result file holding values the file does not define.',
     ['inputs', 'fault_sequences'], 'every truncation point, dropped/duplicated line and emptied file of small inputs of every command',
     'Two malformed files are tested.',
     ['quantas/IO', 'quantas/core/reader.py', 'quantas/interfaces'], [('reader error handling', 'quantas/core/reader.py')],
     'fault enumeration: every truncation point and line-level fault of each input, run through the real CLI',
     'complete for the listed files and fault kinds')

prop('C21', 'Seismic velocities solve the Christoffel equation in every direction',
     'For any stable tensor and density and any direction, the three phase velocities and polarisations solve the Christoffel '
     'equation, and group velocity, power flow angle and enhancement factor are the derivatives they stand for. Directions, '
     'angles and vectors reported together describe the same direction, and results respect inversion and crystal symmetry.',
     ['inputs'], 'tensors x direction lattice x evaluation histories',
     'The seismic module has no test.',
     ['quantas/seismic/utils/seismic_obj.py'], [('Christoffel object', 'quantas/seismic/utils/seismic_obj.py')],
     'bounded-exhaustive enumeration of tensors x directions x call orders against a reference Christoffel solver',
     'degenerate directions compared on velocities only')

prop('C22', 'Polynomial fitting, minimisation and interpolation are exact where defined',
     'Fitting data lying on a polynomial of the chosen degree returns that polynomial with unit determination coefficient, for every curve '
     'fitted at once, and evaluation, derivatives and interpolation return its values for scalars and arrays alike. The minimum found is the '
     'minimum of the curve within the data range, and vector and tensor helpers match their definitions.',
     ['inputs'], 'degrees x numbers of points/curves x coefficient alphabets x array shapes',
     'None of the helpers is tested.',
     ['quantas/utils/math'], [('fit and interpolation helpers', 'quantas/utils/math')],
     'bounded-exhaustive enumeration of shapes and coefficients against exact rational references',
     'complete over the alphabet')

prop('C23', 'Acoustic contributions follow the sine-dispersion model',
     'For any temperature and any set of acoustic limit frequencies, the acoustic contribution to the thermal Helmholtz energy, entropy and '
     'heat capacity is the integral over the sine dispersion of each branch, so that S = -dF/dT and Cv = T dS/dT. Everything vanishes at T = 0, '
     'each branch gives R at high temperature, and neither the order of the branches nor earlier evaluations matter.',
     ['inputs', 'histories'], 'frequencies x temperatures (alphabets), sets of 1-3 branches in every order, all orders of evaluation on one object',
     'No test covers it.',
     ['quantas/qha/utils/kieffer.py'], [('Kieffer model', 'quantas/qha/utils/kieffer.py')],
     'bounded-exhaustive enumeration of frequency sets x temperatures x evaluation histories against quadrature in the angle variable',
     'values from alphabets; thermal part only (the module computes no zero-point term)')

prop('C24', 'Reported text, log file and quiet mode describe the same results',
     'The log file of a run contains the report shown on screen, quiet mode suppresses the screen only, and the settings, warnings and '
     'figures printed are those used in the calculation and stored in the results. Changing presentation options never changes '
     'computed results.',
     ['configurations', 'inputs'], 'scenarios of every command x existing outputs x answers x subsets of the presentation options; all option values; all tables and figures',
     'Tests never look at the printed report.',
     ['quantas/core/calculator.py', 'quantas/cmdline/utils', 'quantas/soec/utils/plotting.py'],
     [('echo functions', 'quantas/cmdline/utils'), ('reports', 'quantas/*/commands'), ('figures', 'quantas/soec/utils/plotting.py')],
     'exhaustive enumeration of presentation options and settings, differential comparison of screen, log, figures and result file',
     'complete over the listed options')

NA_REASON = 'check not built yet (work in progress)'


def main():
    with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
        for p in P:
            f.write(json.dumps({
                'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                'quantifier': {'over': p['over'], 'text': p['text']},
                'why_tests_cant': p['why'],
                'anchors': {'files': p['files'], 'mechanism': [{'name': a, 'where': b} for a, b in p['mech']]},
            }) + '\n')
    man = {'version': 1, 'setup_cmd': '/opt/venv/bin/python -m mc.build', 'checks': [], 'not_applicable': []}
    for p in P:
        if os.path.exists(os.path.join(V, 'checks', p['id'].lower() + '.py')):
            man['checks'].append({'property': p['id'], 'quick_cmd': './check %s' % p['id'],
                                  'thorough_cmd': './check %s --thorough' % p['id'],
                                  'evidence_file': 'evidence/%s.json' % p['id'],
                                  'technique': p['technique'], 'level': p['level'], 'level_note': p['note']})
        else:
            man['not_applicable'].append({'property': p['id'], 'reason': NA_REASON})
    man['notes'] = 'Generated by tools/gen_meta.py; see DESIGN.md.'
    with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
        json.dump(man, f, indent=1)
        f.write('\n')


main()
