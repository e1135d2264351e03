#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json: run after editing."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, observe):
    P.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text},
              'why_tests_cant': why,
              'anchors': {'files': files, 'mechanism': [{'name': a, 'where': b} for a, b in mech],
                          'observe_at': observe, 'hook_needed': None}})


M = 'src/models/'
ALLM = [M + f'ClassPotential{x}.cpp' for x in ('SM', 'R2HDM', 'C2HDM', 'N2HDM', 'CxSM', 'CPintheDark')]
ORI = M + 'ClassPotentialOrigin.cpp'

prop('P01', 'Tree-level potential equals the documented Lagrangian in every form',
     'For each built-in model the tree-level scalar potential returned for any field configuration equals the documented Lagrangian of the model with the input parameters inserted. The tensor form, the simplified form used for speed and the form used by default agree wherever they are used, and the derivative requested for a field is the derivative of the potential with respect to that field.',
     ['inputs', 'configurations'], 'every built-in model, every real parameter point of it, every real field configuration, every field index',
     'Tests compare a handful of numbers at one fixed parameter point per model; a term that vanishes at that point (a phase, a mixing, a field that is zero) can be wrong unnoticed.',
     ALLM + [ORI], [('coupling tensors set from the parameters', 'SetCurvatureArrays'), ('tree potential and its simplified form', 'VTree, VTreeSimplified')],
     ['value of the tree-level potential'])
prop('P02', 'Counterterm potential equals the documented one in every form',
     'For each built-in model and every value of the counterterm parameters, the counterterm potential for any field configuration equals the documented counterterm Lagrangian. Its explicit, simplified, gradient and Hessian forms are the value, gradient and Hessian of that same polynomial.',
     ['inputs', 'configurations'], 'every built-in model, all counterterm parameter values, all field configurations, all field indices',
     'Tests look at the counterterms of one parameter point; contributions that cancel or vanish there are invisible.',
     ALLM + [ORI], [('counterterm tensors', 'set_CT_Pot_Par'), ('counterterm potential', 'CounterTerm, VCounterSimplified, NablaVCT, HessianCT')],
     ['value, gradient and Hessian of the counterterm potential'])
prop('P03', 'Coupling tensors have the symmetry of the derivatives they stand for',
     'After a model has been set up with any parameter point, every coupling tensor has the dimensions of its fields and the index symmetry of the derivative it represents: scalar and counterterm tensors are fully symmetric, gauge couplings are symmetric in the gauge and in the scalar pair, Yukawa couplings are symmetric in the fermion pair.',
     ['inputs', 'configurations'], 'every built-in model, every parameter point and every value of the Standard Model constants, all index tuples',
     'There are tens of thousands of index tuples and the existing tests do not look at them.',
     ALLM, [('assignment of tensor entries', 'SetCurvatureArrays, set_CT_Pot_Par')], ['the coupling tensors of a configured model'])
prop('P04', 'The input vacuum is a stationary point with massless Goldstone bosons',
     'For every parameter point the tree-level potential built from it has a vanishing gradient at the zero-temperature vacuum expectation value that belongs to the input. There the scalar mass matrix annihilates the three Goldstone directions of the broken electroweak symmetry, and the photon direction is unbroken.',
     ['inputs', 'configurations'], 'every built-in model, every admissible parameter point (for the dark-sector model those whose input mass parameter belongs to the input vacuum)',
     'Tests check the minimum numerically at one point per model.',
     ALLM, [('minimum conditions solved for mass parameters', 'set_gen'), ('vacuum written to the field vector', 'SetCurvatureArrays / vevTree')], ['tree-level gradient and mass matrix at the vacuum'])
prop('P05', 'Fermion and gauge-boson masses and quark mixing are the input ones',
     'At the zero-temperature vacuum of every model and parameter point the field-dependent quark, lepton and gauge-boson masses are exactly the Standard Model masses given as constants (one massless photon, W twice, Z once). The Yukawa couplings connect fields with the CKM matrix and with the doublet assignment of the chosen Yukawa type.',
     ['inputs', 'configurations'], 'every built-in model, every Yukawa type, every value of the masses, gauge couplings and of the CKM entries, every parameter point',
     'Tests use one set of constants and one Yukawa type per model and never look at the couplings.',
     ALLM + [M + 'SMParam.cpp', ORI], [('Yukawa and gauge tensors', 'SetCurvatureArrays'), ('mass eigenvalues', 'QuarkMassesSquared, LeptonMassesSquared, GaugeMassesSquared')], ['mass spectra at the vacuum'])
prop('P06', 'The implemented scalar potential is gauge invariant',
     'For each built-in model the tree-level scalar potential is unchanged by infinitesimal SU(2) and U(1) hypercharge rotations of the scalar fields, for every parameter point and every field configuration. The rotations are the ones encoded in the gauge couplings.',
     ['inputs', 'configurations'], 'every built-in model, every parameter point, every real field configuration, each of the four gauge generators',
     'No existing test varies charged or CP-odd field directions.',
     ALLM, [('coupling tensors', 'SetCurvatureArrays')], ['tree-level potential under gauge rotations'])
prop('P07', 'Thermal mass corrections follow from the couplings of the model',
     'The scalar thermal mass matrix equals the leading high-temperature sum over scalar, gauge and fermion couplings, both when computed in general and when the closed formula of a model is used (which keeps the third-generation quarks only). The gauge thermal masses are the 11/6-type multiples fixed by the group, the matter content and the number of doublets.',
     ['inputs', 'configurations'], 'every built-in model, every parameter point and constants, all pairs of fields',
     'Tests compare one point per model; the closed formulas are exercised in one sector only.',
     ALLM + [ORI], [('Debye corrections', 'CalculateDebye, CalculateDebyeSimplified, CalculateDebyeGauge')], ['thermal mass matrices'])
prop('P08', 'Counterterms keep masses and minimum at their tree-level values',
     'The counterterm parameters computed for any one-loop gradient and Hessian make the gradient of the counterterm potential at the zero-temperature vacuum cancel the one-loop gradient, and make its Hessian cancel the one-loop Hessian in every entry the counterterm Lagrangian can reach. As many values are returned as there are counterterm parameters, in the order of their labels.',
     ['inputs', 'configurations'], 'every built-in model, every parameter point with non-zero vacuum, every one-loop gradient and Hessian compatible with the symmetries',
     'Tests compare the computed counterterms with stored numbers at one parameter point.',
     ALLM, [('closed formulas for the counterterms', 'calc_CT'), ('labels', 'addLegendCT')], ['counterterm parameters, renormalised gradient and Hessian'])
prop('P09', 'Setting up a parameter point does not depend on what was set up before',
     'Initialising a model object with a parameter point gives the same couplings, vacuum and parameters whatever points the object was used for before. Reading a point from a line of text gives the same model as passing the numbers directly, and the numbers of labels match the numbers of values a model writes.',
     ['inputs', 'histories', 'configurations'], 'every built-in model, every pair of successive parameter points, every input line',
     'Tests construct a fresh object for each point.',
     ALLM + [ORI], [('initialisation', 'initModel, resetbools, ReadAndSet, set_gen, set_All')], ['state of the model after initialisation; legends'])
prop('P10', 'The effective potential is assembled from its documented parts',
     'At every field configuration and temperature the effective potential is the tree-level potential plus, at one-loop order, the counterterm potential, the sum of Coleman-Weinberg and thermal terms over all scalars, gauge bosons, quarks and leptons with their multiplicities and renormalisation constants, and the daisy resummation of the chosen scheme. Derivatives with respect to a field or to the temperature are the derivatives of that value, for positive, negative and vanishing squared masses.',
     ['inputs', 'configurations'], 'every list of squared masses, field configuration given in full or as vacuum directions, temperature, order, derivative and resummation scheme',
     'Tests evaluate the potential at a handful of points and never its derivatives in field or temperature.',
     [ORI], [('sum over particle species', 'V1Loop'), ('bosonic and fermionic contributions', 'boson, fermion'), ('total', 'VEff')], ['value and derivatives of the effective potential'])
prop('P11', 'One-loop functions are the divided differences they stand for',
     'The Coleman-Weinberg term and the two-, three- and four-point one-loop functions used for physical couplings agree with the divided differences of m^2 log m^2 in every arrangement of equal, distinct and vanishing masses. They do not depend on the order of their arguments.',
     ['inputs'], 'every tuple of non-negative squared masses, every pattern of coincidences and zeros, every renormalisation scale',
     'The case distinctions over coincidences are exponentially many and tests visit those of one spectrum.',
     [ORI], [('loop functions', 'CWTerm, fbase, fbaseTri, fbaseFour')], ['values of the loop functions'])
prop('P12', 'Field-dependent masses are the eigenvalues of the coupling contractions',
     'The field- and temperature-dependent scalar mass matrix is the Hessian of the tree-level potential plus the thermal corrections, and the gauge-boson and fermion mass matrices are the field contractions of the couplings; the reported squared masses are their eigenvalues. Derivatives of the masses with respect to a field or the temperature are the diagonal of the differentiated matrix in the eigenbasis.',
     ['inputs', 'configurations'], 'every built-in model, every parameter point, field configuration and temperature, every derivative index',
     'Tests compare masses at the zero-temperature vacuum of one point.',
     [ORI] + ALLM, [('mass matrices', 'HiggsMassMatrix, HiggsMassesSquared, GaugeMassesSquared, QuarkMassMatrix, LeptonMassMatrix'), ('derivatives of eigenvalues', 'FirstDerivativeOfEigenvalues')], ['mass matrices, masses and their derivatives'])
prop('P13', 'Thermal functions equal their defining integrals and expansions',
     'The bosonic and fermionic thermal functions are the defining integrals over momentum when evaluated numerically, and their low- and high-temperature expansions have the coefficients the integrals imply. The functions used by the potential join these without a jump, and the requested derivatives are the derivatives of the functions.',
     ['inputs'], 'every real argument, every expansion order in use, both statistics, value and derivative',
     'Tests sample arguments; expansions agree there to a tolerance that hides a wrong higher coefficient or derivative.',
     ['src/ThermalFunctions/ThermalFunctions.cpp', 'include/BSMPT/ThermalFunctions/ThermalFunctions.h'], [('integrands, expansions, interpolation', 'JbosonIntegrand, JbosonInterpolatedLow/High, JfermionInterpolated')], ['values and derivatives of the thermal functions'])
prop('P14', 'Numerical derivatives are exact on the polynomials of their order',
     'The numerical gradient and Hessian used for tracing phases reproduce the exact derivatives of every polynomial up to the accuracy order of the difference stencil, in every direction and at every point and step size. Hessians are symmetric.',
     ['inputs'], 'every polynomial of the stencil order in any number of variables tried, every point and positive step',
     'Tests compare with one function at one point to a tolerance.',
     ['src/utility/NumericalDerivatives.cpp'], [('difference stencils', 'NablaNumerical, HessianNumerical')], ['gradient and Hessian'])
prop('P15', 'Splines interpolate, are smooth and reproduce what they were built from',
     'A cubic spline passes through every knot, is continuous with its first two derivatives, honours its boundary conditions and reports the derivatives of the curve it evaluates. A path parametrised by arc length starts at zero length, moves with unit speed along straight paths, and lookups outside the range extrapolate linearly.',
     ['inputs'], 'every strictly increasing list of knots of the sizes under contract, all values, all boundary conditions, all evaluation points',
     'Tests evaluate single splines at single points.',
     ['include/BSMPT/utility/spline/spline.h', 'src/utility/spline/spline.cpp', 'src/utility/const_velocity_spline.cpp'], [('spline construction and evaluation', 'spline::set_points, operator(), deriv'), ('arc-length parametrisation', 'cvspline')], ['values and derivatives along the spline'])
prop('P16', 'Vector algebra and list utilities compute what their names say',
     'Sums, differences, scalar and matrix products, norms, distances, flattening and dilogarithms of real vectors agree with their mathematical definitions for all inputs of matching size, and mismatched sizes are rejected with an exception. Approximate comparison is symmetric and accepts exactly values within the given tolerance.',
     ['inputs'], 'all real vectors and matrices of the sizes under contract, matching and mismatching',
     'Tests use a few fixed vectors.',
     ['include/BSMPT/utility/utility.h', 'src/utility/utility.cpp'], [('operators on std::vector', 'operator+, operator-, operator*, L2NormVector, almost_the_same, Li2')], ['results of the utilities'])
prop('P17', 'A traced phase stays ordered in temperature and answers within its range',
     'Whatever order minima are added in, a phase keeps them sorted by temperature without duplicates, its temperature limits are those of its first and last minimum, and asking for the minimum at a temperature starts from the nearest stored one.',
     ['inputs', 'histories'], 'every sequence of added minima and every query temperature',
     'Tests trace a few benchmark points.',
     ['src/minimum_tracer/minimum_tracer.cpp'], [('ordered insertion and lookup', 'Phase::Add, Phase::Get')], ['stored minima, limits and returned minimum'])
prop('P18', 'A critical temperature separates the two orderings of the phases',
     'For two coexisting phases a reported critical temperature lies in their common temperature range, brackets a sign change of the difference of their potentials to the requested precision, and the status says whether the true vacuum never, always or from there on is the deeper one.',
     ['inputs', 'histories'], 'every pair of potential curves over any common temperature range',
     'Tests know a few benchmark transitions.',
     ['src/minimum_tracer/minimum_tracer.cpp'], [('bisection on the potential difference', 'CoexPhases::CalculateTc')], ['critical temperature and its status'])
prop('P19', 'Symmetry reduction and flat-direction handling keep the potential value',
     'Mapping a vacuum configuration to its representative under the discrete symmetries found for the model never changes the potential, is the same for all configurations related by these symmetries, and only symmetries of the potential are used. Directions reported flat leave the potential unchanged.',
     ['inputs', 'configurations'], 'every set of sign symmetries, every configuration',
     'Tests use the symmetry groups of two models at one point.',
     ['src/minimum_tracer/minimum_tracer.cpp'], [('representative under the symmetry group', 'ReduceVEV'), ('flat directions', 'FindFlatDirections, ConvertToNonFlatDirections')], ['reduced configurations'])
prop('P20', 'Status reports decode every outcome one to one',
     'Every outcome of tracing, critical-, nucleation-, percolation- and completion-temperature and gravitational-wave calculations is reported with its own documented text, and reading a report flag back gives the outcome that produced it. Unknown settings fall back to the documented default.',
     ['inputs', 'configurations'], 'every value of every status and setting',
     'Tests see the outcomes of a few benchmark points only.',
     ['src/minimum_tracer/minimum_tracer.cpp', 'include/BSMPT/minimum_tracer/minimum_tracer.h'], [('status tables', 'StatusTracing and related'), ('decoding of numeric settings', 'GetStatus...')], ['reported status strings'])
prop('P21', 'Reported nucleation to completion temperatures solve their condition',
     'A nucleation, percolation or completion temperature that is reported as found lies in the temperature range of the transition and satisfies its defining condition to the stated tolerance. If the calculation fails, the status says so and no temperature is reported as a success.',
     ['inputs', 'histories'], 'every tunnelling-rate curve on any temperature range',
     'Tests cover a few benchmark transitions that all succeed.',
     ['src/bounce_solution/bounce_solution.cpp'], [('bisection on rate and false-vacuum fraction', 'CalculateNucleationTemp, CalculatePercolationTemp, CalculateCompletionTemp')], ['temperatures and status'])
prop('P22', 'Gravitational-wave spectra follow the documented formulae',
     'For every strength, duration, wall velocity and temperature the reported efficiency factors, peak frequencies, amplitudes and signal-to-noise ratios equal the documented formulae, including at the joins of velocity regimes. The results do not depend on the order in which the quantities are requested.',
     ['inputs', 'histories'], 'all positive transition strengths, durations, temperatures, wall velocities between zero and one, all frequencies, all call orders',
     'Tests compare one benchmark.',
     ['src/gravitational_waves/gw.cpp'], [('efficiency, amplitude and peak formulae', 'Getkappa_sw, GetK_sw, CalcPeakAmplitude, CalcPeakFrequency, CalcGWAmplitude, GetSNR')], ['gravitational-wave observables'])
prop('P23', 'The reported minimum is the deepest of all candidates found',
     'Whatever candidates the enabled minimisers return, the global minimum reported is the candidate with the lowest effective potential, with its full field configuration. Points are only searched inside the region the start configuration allows.',
     ['inputs', 'configurations'], 'every combination of enabled minimisers, every list of candidates they return',
     'Tests run real minimisers on a few points; the selection is only seen with agreeing candidates.',
     ['src/minimizer/Minimizer.cpp', 'src/minimizer/MinimizeGSL.cpp'], [('comparison of candidates', 'Minimize_gen_all')], ['reported minimum'])
prop('P24', 'The transition temperature found by bisection brackets the vanishing of the VEV',
     'When the search for the electroweak transition reports success, the vacuum expectation value is non-zero at the reported temperature and vanishes within the stated tolerance above it. Every other outcome is reported with its own status.',
     ['inputs'], 'every dependence of the electroweak vacuum on the temperature',
     'Tests see one benchmark per model with one crossing.',
     ['src/minimizer/Minimizer.cpp'], [('bisection in temperature', 'PTFinder_gen_all')], ['transition temperature, VEV and status'])
prop('P25', 'Command-line and logger settings are honoured for every input',
     'Every option given on the command line or in a configuration file reaches the program with the value given, missing required options and unknown or malformed ones are rejected, and later options do not disturb earlier ones. Enabling or disabling a logging level changes exactly that level.',
     ['inputs', 'histories'], 'all option lists and all sequences of logger settings',
     'Tests use a few argument lists.',
     ['src/utility/parser.cpp', 'src/utility/Logger.cpp'], [('argument parsing', 'parser::check_parameters, add_input'), ('logger', 'Logger::SetLevel')], ['option values and log output'])
prop('P26', 'Vacuum directions are embedded into the full field space consistently',
     'Embedding a vacuum configuration into the full list of fields puts each entry in its documented position and zeros elsewhere, for every list of vacuum directions. The electroweak vacuum expectation value is the root of the sum of squares of the doublet directions only, and is unchanged by adding singlet directions.',
     ['inputs', 'configurations'], 'every built-in model and every configuration',
     'Tests only embed the zero-temperature vacuum.',
     [ORI] + ALLM, [('embedding', 'MinimizeOrderVEV'), ('electroweak VEV', 'EWSBVEV')], ['embedded configuration, electroweak VEV'])


def main():
    cfg = json.load(open(os.path.join(V, 'contracts', 'config.json')))
    with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
        for p in P:
            f.write(json.dumps(p) + '\n')
    checks, na = [], []
    for p in P:
        c = cfg.get(p['id'])
        if c and not c.get('unclaimed'):
            checks.append({'property': p['id'], 'quick_cmd': f"python3 tools/check.py {p['id']}",
                           'thorough_cmd': f"VERIF_TIER=thorough python3 tools/check.py {p['id']} --thorough",
                           'technique': c.get('technique', 'contract-based deductive verification: obligations generated by executing the mechanically extracted source over first-order terms, discharged by polynomial/rational normal form and SMT (z3)'),
                           'level': c.get('level', 'proof'),
                           'level_note': c.get('note', 'Every contract obligation on the extracted code is discharged for all inputs; double arithmetic is treated as real arithmetic; Eigen/GSL/NLopt and the C++ standard library are trusted.')})
        else:
            na.append({'property': p['id'], 'reason': NA.get(p['id'], 'no contract for it yet')})
    man = {'version': 1, 'setup_cmd': 'python3 tools/setup.py',
           'hooks': {'guard': 'BSMPT_VERIF', 'enable': 'no hook was needed: the contracts are put on code extracted mechanically from the unmodified sources', 'source_commits': []},
           'checks': checks, 'not_applicable': na,
           'notes': 'tools/check.py extracts /repo on every run, generates and discharges the obligations, replays failures on the unmodified sources.'}
    json.dump(man, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
    print(len(P), 'properties', len(checks), 'checks')


NA = {}
if __name__ == '__main__':
    main()
