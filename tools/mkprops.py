import json
def P(id,title,st,over,text,why,files,mech,obs=None,state=None):
    d=dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=text),why_tests_cant=why,anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech]))
    if obs: d["anchors"]["observe_at"]=obs
    if state: d["anchors"]["state"]=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    return d
S="source/himalaya/"; I="include/himalaya/"
L=[
P("P01","Concurrent calculations do not influence each other",
 "Any number of threads may construct calculators and run calculations at the same time, on different parameter points or reading the same objects: every thread obtains exactly the numbers (and the errors) it obtains when it runs alone. No schedule produces a data race, a deadlock or lost progress, and the start-up information is printed at most once per process.",
 ["schedules"],"all interleavings of 2-3 threads, up to a preemption bound, over construction, completion of incomplete points, full calculations (top and bottom type), fixed-order, EFT and two-loop calls, failing calculations and shared read-only objects",
 "The tests are single-threaded; a race needs one particular interleaving inside the Fortran COMMON blocks or a lazily set global.",
 [S+"mh2l/DSZHiggs.cpp",S+"mh2l/DSZHiggs.f",S+"HierarchyCalculator.cpp",S+"misc/Logger.hpp"],
 [("mutex around the Fortran two-loop routines",S+"mh2l/DSZHiggs.cpp"),("atomic once-flag of the start-up information",S+"HierarchyCalculator.cpp")],
 ["results of all calculators","stderr"],[("COMMON /listderiv/","scratch of the two-loop derivative routines",S+"mh2l/DSZHiggs.f"),("isInfoPrinted","start-up information already printed",S+"HierarchyCalculator.cpp")]),
P("P02","Results do not depend on what was calculated before",
 "Every calculation is a function of the parameter point and of the settings made on the object it is called on: after any history of other calls in the process - other points, other calculators, bottom- or top-type calculations, verbose runs, calls that failed with an exception - it returns bit for bit what it returns in a fresh process. Querying an object never changes what it, or a copy of it, returns later, and a setting that is changed and changed back leaves no trace.",
 ["histories"],"all sequences, up to a depth, of calls on the hierarchy calculator, EFT, threshold, fixed-order and two-loop components over several points and settings, including failing calls",
 "Unit tests make one call on one object per process state; leaked temporary settings or cached values need a specific earlier call.",
 [S+"HierarchyCalculator.cpp",S+"mh2_eft/Mh2EFTCalculator.cpp",S+"mh2_eft/ThresholdCalculator.cpp",S+"mh2_fo/MSSM_mass_eigenstates.cpp",S+"misc/RAII.hpp",S+"mh2l/DSZHiggs.cpp"],
 [("scope-bound restoration of expansion and limit settings",S+"misc/RAII.hpp"),("fresh COMMON block contents in every two-loop call",S+"mh2l/DSZHiggs.f")]),
P("P03","The best suitable mass-hierarchy expansion is selected",
 "For every spectrum, the three-loop expansion that is selected is one whose assumed mass ordering the spectrum satisfies and, among all of those, the one with the smallest combined error (deviation of the expanded from the exact two-loop Higgs mass and expansion uncertainty, added in quadrature, both relative); the absolute and relative two-loop deviations and the expansion uncertainties reported with it are those of the selected expansion. If no expansion is suitable, the calculation fails with an exception instead of returning a number.",
 ["inputs"],"all orderings, ties and 30%-window positions of stop/sbottom, gluino and light-squark masses on a grid, for top- and bottom-type calculations",
 "The tests pin a handful of benchmark spectra; a wrong comparison shows only for particular mass orderings.",
 [S+"HierarchyCalculator.cpp",S+"hierarchies/Hierarchies.hpp"],
 [("suitability conditions and error comparison",S+"HierarchyCalculator.cpp"),("expansion uncertainty",S+"HierarchyCalculator.cpp")],["selected hierarchy, AbsDiff2L, RelDiff2L, expansion uncertainties of the result"]),
P("P04","The result record is a faithful, range-checked store",
 "A result record returns for every quantity and loop order exactly the value stored last for it, independent of all other stores, and copies are independent; loop orders outside the documented range are rejected with an exception and change nothing. Derived quantities (relative differences, parametric uncertainty, renormalization-scheme conversions, names, text output) always follow from the currently stored values.",
 ["histories","inputs"],"all sequences of stores up to a depth over all setters, valid and invalid orders and special values, compared with a plain map",
 "The tests only read records filled by a complete calculation.",
 [I+"HierarchyObject.hpp",S+"HierarchyObject.cpp"],[("indexed storage with range checks",S+"HierarchyObject.cpp")]),
P("P05","Input parameters are validated and completed consistently",
 "Completing a parameter point fills in exactly what is missing (electroweak and fermion masses, sfermion masses and mixings) with the tree-level values that follow from the given parameters, keeps everything the user supplied (up to the documented mass ordering, imaginary-part and degeneracy treatment), and completing twice changes nothing further. Points with unphysical input (tachyonic masses, vanishing or negative scale, masses or vacuum expectation values, non-finite values, off-diagonal entries where unsupported) are rejected or repaired exactly as documented, never silently accepted.",
 ["inputs"],"all subsets of supplied/missing quantities, orderings, signs and special values over a grid of points",
 "The tests use complete benchmark points and two or three incomplete ones.",
 [S+"Himalaya_interface.cpp",I+"Himalaya_interface.hpp"],[("validation and completion",S+"Himalaya_interface.cpp")]),
P("P06","The three-loop result is internally consistent",
 "In every complete calculation the reported matrices are symmetric, the reported mass corrections of each order are the order-by-order perturbative diagonalisation of the reported matrices, the fixed-order, top-coupling-only and effective-theory columns repeat or combine the other reported numbers as documented, and each agrees with the corresponding stand-alone component called on the same point. Uncertainties are non-negative, and finite wherever the Higgs masses they are derived from are real, scheme shifts are the difference of the two schemes' results, bottom-type calculations report no three-loop threshold correction, and the caller's parameters are not modified.",
 ["inputs"],"grid of spectra covering every expansion, top- and bottom-type",
 "The tests compare single numbers with earlier output at a few points; they do not relate the fields to each other.",
 [S+"HierarchyCalculator.cpp",S+"HierarchyObject.cpp",S+"mh2_fo/Linalg.cpp"],[("assembly of the result",S+"HierarchyCalculator.cpp")]),
P("P07","Coupling-order switches select disjoint, additive contributions",
 "Every correction is the sum of its coupling-order contributions: for every subset of enabled orders, in whatever sequence the switches were set, the result equals the sum of the results with each enabled order alone. With everything switched off nothing remains, and a switch affects no loop order it does not belong to; only the two mixed bottom-tau orders are one joint contribution in the fixed-order calculation.",
 ["configurations","histories"],"all single and pairwise subsets (all subsets of small groups) of coupling-order flags at each loop order, in different setting orders, of the EFT, fixed-order and hierarchy calculators",
 "The tests use three or four fixed flag combinations.",
 [S+"mh2_eft/Mh2EFTCalculator.cpp",S+"mh2_fo/MSSM_mass_eigenstates.cpp",S+"HierarchyCalculator.cpp",S+"mh2_eft/EFTFlags.hpp"],[("flag-weighted sums",S+"mh2_eft/Mh2EFTCalculator.cpp")]),
P("P08","Formulas for equal masses continue the general formulas",
 "Wherever the library switches to a separate formula because masses are (nearly) equal - threshold corrections, two-loop fixed-order corrections, loop functions - that formula yields the limit of the general formula: results are continuous across the switch, up to the change of the inputs within the switching window. This holds for every combination of coinciding masses, for both signs of the mixing parameters, with and without logarithms and in every renormalization scheme.",
 ["inputs"],"all coincidence patterns of the squark and gluino masses (and of the stop, sbottom, stau masses) x mixing x scheme x coupling order, against extrapolation of the general formula",
 "The tests evaluate a few limits at one point each; a wrong coefficient in a special case is only visible exactly there.",
 [S+"mh2_eft/ThresholdCalculator.cpp",S+"mh2_eft/ThresholdLoopFunctions.cpp",S+"mh2l/DSZHiggs.cpp",S+"mh2l/DSZHiggs.f"],[("mass-limit selection and limit formulas",S+"mh2_eft/ThresholdCalculator.cpp"),("equal-mass branches",S+"mh2l/DSZHiggs.cpp")]),
P("P09","Special functions are accurate on every branch and at every boundary",
 "The real and complex dilogarithm, the Clausen function, the one-loop self-energy functions, the threshold loop functions and the two-loop vacuum function agree with their defining formulas to the accuracy of the floating-point format (up to documented expansion accuracy near removable singularities) over their whole domain, in particular just below, at and just above every point where the implementation switches between formulas. Functions with a symmetry respect it and removable singularities yield the finite limit.",
 ["inputs"],"for every function a grid over its domain plus both sides of every switching point (and products of these for several arguments), against extended-precision evaluation of the definition",
 "The tests compare with tabulated values at random points; errors within 1e-3 of a switching point fall between the points.",
 [S+"misc/Li2.cpp",S+"mh2l/Li2.f90",S+"mh2l/Li2f.cpp",S+"mh2_fo/PV.cpp",S+"mh2_eft/ThresholdLoopFunctions.cpp"],[("piecewise approximations and Taylor expansions","the files above")]),
P("P10","Results have the right mass dimension",
 "If all dimensionful inputs are rescaled by a common factor, squared-mass corrections rescale with its square, masses with the factor itself, and dimensionless results (quartic-coupling and coupling thresholds, mixings, the selected expansion, relative differences) do not change. This holds for all components, orders and flags.",
 ["inputs"],"rescaling by several powers of two over a grid of points, all outputs of all components",
 "No test evaluates the same point in two units.",
 [S+"HierarchyCalculator.cpp",S+"mh2_fo/MSSM_mass_eigenstates.cpp",S+"mh2_eft/Mh2EFTCalculator.cpp",S+"mh2_eft/ThresholdCalculator.cpp",S+"mh2l/DSZHiggs.cpp"],[("all mass dependence through ratios and overall prefactors","all formulas")]),
P("P11","Every three-loop expansion reproduces the known corrections in its domain",
 "Within its region of validity each of the fourteen mass-hierarchy expansions reproduces the exact one- and two-loop corrections up to the size of the omitted expansion terms, gives at three loops the renormalization-scale logarithms required by the lower orders, and agrees with the neighbouring expansions where their regions overlap. Contributions of the three-loop order equal the published expansions, i.e. the frozen reference values, in each of the two squark-mass schemes.",
 ["inputs"],"all expansions x grid of mass splittings, mixings, schemes and loop-order flags",
 "The tests check a few expansion coefficients at one parameter point.",
 [S+"hierarchies/",S+"HierarchyCalculator.cpp"],[("expansion terms",S+"hierarchies/*.cpp"),("choice of arguments and schemes",S+"HierarchyCalculator.cpp")]),
P("P12","The Mathematica interface transfers every input and output faithfully",
 "Every number handed over by Mathematica reaches exactly the parameter it is documented for, and the returned list contains every documented rule with the numbers the C++ interface gives for that point. For any fault - wrong argument count, failing transfer at any position, invalid or unsupported point - the caller gets a message and a failure value instead of partial output or a crash, output streams are restored, and the next call works normally.",
 ["inputs","fault_sequences","histories"],"each input position varied, transfer failures at every position, invalid points, and call sequences, against a stand-in for the Mathematica link",
 "The interface is not built or tested without Mathematica.",
 ["source/himalaya/LibraryLink/Himalaya_LibraryLink.cpp","source/himalaya/LibraryLink/Himalaya_LibraryLink.m"],[("sequential reader of the argument list, rule writer, stream redirection","source/himalaya/LibraryLink/Himalaya_LibraryLink.cpp"),("names and order of arguments and options","source/himalaya/LibraryLink/Himalaya_LibraryLink.m")]),
P("P13","The tree-level spectrum diagonalises its mass matrices",
 "For every parameter point all tree-level masses and mixings are the eigenvalues and eigenvectors of the model's mass matrices: masses are ordered and non-negative, mixing matrices are orthogonal or unitary and diagonalise the matrices, traces and determinants are preserved, and the well-known tree-level sum rules among the masses hold. Degenerate, massless and strongly mixed spectra are no exception, and the perturbative diagonalisation agrees with the exact one to the order it claims.",
 ["inputs"],"grid of points including exact degeneracies, maximal and zero mixing, light and heavy spectra; matrices with all sign patterns and degeneracies for the linear algebra",
 "The tests check masses of one spectrum.",
 [S+"mh2_fo/MSSM_spectrum.cpp",S+"mh2_fo/Linalg.cpp",S+"mh2_fo/Linalg.hpp"],[("mass matrices",S+"mh2_fo/MSSM_spectrum.cpp"),("diagonalisation routines",S+"mh2_fo/Linalg.hpp")]),
P("P14","Fixed-order and effective-theory results agree for heavy superpartners",
 "When all superpartner masses become large compared with the electroweak scale, the fixed-order Higgs-mass corrections and the effective-theory corrections agree order by order and coupling by coupling: their difference vanishes like the squared ratio of electroweak to superpartner scale (up to logarithms). This holds for arbitrary ratios among the superpartner masses, mixings and tan(beta), including degenerate spectra.",
 ["inputs"],"grid of superpartner mass patterns, mixings and coupling orders, along sequences of increasing superpartner scale",
 "The tests check two or three mass patterns and couplings.",
 [S+"mh2_fo/MSSM_mass_eigenstates.cpp",S+"mh2_eft/Mh2EFTCalculator.cpp",S+"mh2_eft/ThresholdCalculator.cpp",S+"mh2l/DSZHiggs.cpp"],[("one- and two-loop self-energies",S+"mh2_fo/MSSM_mass_eigenstates.cpp"),("threshold corrections",S+"mh2_eft/ThresholdCalculator.cpp")]),
P("P15","Results respect the symmetries of the model",
 "Exchanging the first two sfermion generations, relabelling the two eigenstates of a sfermion together with its mixing angle, exchanging left and right third-generation squark masses where the correction is symmetric, or flipping the simultaneous sign of all gaugino masses, trilinear couplings and the higgsino mass leaves every result unchanged (the gluino mass is positive by convention, so the strong corrections take part with the strong coupling switched off). Quantities that a correction does not depend on (other sectors' couplings, unused entries) have no influence on it.",
 ["inputs"],"all symmetry operations and single-parameter perturbations over a grid of points, all outputs",
 "No test evaluates a transformed point.",
 [S+"HierarchyCalculator.cpp",S+"mh2_fo/MSSM_mass_eigenstates.cpp",S+"mh2_fo/MSSM_spectrum.cpp",S+"mh2_eft/ThresholdCalculator.cpp",S+"mh2l/DSZHiggs.cpp"],[("symmetric treatment of the sectors","all formulas")]),
P("P16","Every call ends with finite numbers or an exception, silently",
 "Whatever parameter point, switch setting or loop argument is passed in, no call crashes, hangs, overruns memory, uses uninitialised data or executes an undefined operation: it returns or throws an exception. Points with non-finite input or without a positive renormalization scale are rejected. For ordinary points - superpartner masses from tens of GeV to 1e5 GeV, any ordering and any coincidence among them, gauge couplings, bottom and tau Yukawa couplings and mixings down to and including zero - all results are finite numbers of reasonable size (except quantities derived from a mass that is imaginary at that point and coupling orders of a vanishing Yukawa coupling), and with messages disabled nothing is printed.",
 ["inputs"],"extreme and degenerate values of every parameter (singly and in pairs) around base points, all components, in an instrumented build",
 "The tests run ordinary points without instrumentation.",
 [S+"HierarchyCalculator.cpp",S+"mh2_fo/MSSM_mass_eigenstates.cpp",S+"mh2_eft/ThresholdCalculator.cpp",S+"mh2_eft/Mh2EFTCalculator.cpp",S+"misc/Logger.hpp"],[("guards against vanishing denominators","all formulas")]),
P("P17","The Higgs mass is renormalization-scale invariant order by order",
 "When the renormalization scale is changed and all running parameters are evolved to it, the Higgs mass at the highest included order of the strong coupling changes only by terms of higher order: the explicit scale dependence of the two- and three-loop corrections is exactly the one required by the one- and two-loop results. This holds for the fixed-order corrections, the threshold corrections and the three-loop expansions.",
 ["inputs"],"grid of spectra and scales, all mixing and scheme choices, derivative of each order compared with the renormalization-group prediction",
 "No test evaluates the same physics at two scales.",
 [S+"mh2l/DSZHiggs.cpp",S+"mh2l/DSZHiggs.f",S+"mh2_eft/ThresholdCalculator.cpp",S+"hierarchies/",S+"HierarchyCalculator.cpp"],[("logarithms of the renormalization scale","all formulas")]),
]
import sys
for d in L:
    assert len(d["title"])<=80,d["id"]
    # at most three sentences
    assert d["statement"].count(". ")<=2,(d["id"])
open("/verif/properties.jsonl","w").write("".join(json.dumps(d)+"\n" for d in L))
