#!/usr/bin/env python3
"""writes MANIFEST.json from the table of claimed checks below"""
import json
CL = {}
def C(id, technique, level, note): CL[id] = (technique, level, note)
C("P01", "stateless model checking of the implementation under a controlled scheduler (all schedules up to a preemption bound) with happens-before race detection", "model_checking",
  "real code, real Fortran, every synchronisation operation a scheduling point; bound 2 (quick) / 4 (thorough) preemptions, 2-3 threads")
C("P04", "explicit exploration of all operation sequences up to a depth against a reference map", "model_checking",
  "all histories up to depth 3 over the full store alphabet; states compared field by field with a plain map")
C("P05", "exhaustive bounded enumeration of input shapes against a reference model of completion", "exploration",
  "all supplied/missing subsets x orderings x special values; reference completion written independently")
C("P02", "explicit exploration of all call histories up to a depth, every observation compared with a fresh process", "model_checking",
  "41 operations on the real library; all histories of length <= 3 (quick) / 4 (thorough) in forked processes, bitwise comparison")
C("P03", "exhaustive enumeration of mass orderings, ties and window positions against a table-driven reference selection", "exploration",
  "all orderings/ties/window positions on a lattice; suitability and errors recomputed by an independent reference that calls the expansion classes directly")
C("P06", "exhaustive enumeration of a lattice of spectra, every reported number re-derived from the others and from independent formulas", "exploration",
  "72k (quick) / 900k (thorough) complete calculations covering all 14 expansions, top and bottom type; one-loop matrix, scheme conversion and MDR masses from independent formulas, other numbers from the stand-alone components")
C("P07", "exhaustive enumeration of all switch subsets and of all switch-setting sequences up to a depth against the sum of single contributions", "model_checking",
  "all 4096/512 subsets of one-/two-loop EFT orders, all 1024 subsets of fixed-order switches, all set/query sequences to depth 3 (quick) / 4-5 (thorough), all loop-flag combinations of the 14 expansions")
C("P09", "exhaustive enumeration of a lattice over the domain and of both sides of every switching point (with products for several arguments) against 128-bit reference evaluation", "exploration",
  "all functions (dilogarithms, Clausen, B0/DB0, 30 threshold loop functions, phi) on all branch combinations; reference from defining formulas in 128 bits, removable singularities by the mean-value property; accuracy bound per function and region")
C("P13", "exhaustive enumeration of sector-wise parameter lattices (all coincidences, zeros, signs, hierarchies) and of all small matrices over a finite alphabet, against textbook mass matrices and eigen-relations", "exploration",
  "every mass and mixing inserted into M = U^T diag U with independently written matrices; all symmetric 2x2..4x4 and general 2x2, 3x3 matrices over small alphabets for the linear algebra; perturbative diagonalisation to third order on all small matrices")
C("P10", "exhaustive enumeration of a lattice of spectra x rescaling factors, every output of every component compared with its prediction by dimensional analysis", "exploration",
  "all mass orderings and coincidences, mixings, couplings, six mass limits, both schemes and all 14 expansion classes; ~600 numbers per point and factor")
C("P14", "exhaustive enumeration of a lattice of heavy spectra x coupling-order classes, fixed-order result against effective-theory result (independent implementations), difference extrapolated to the decoupling limit", "exploration",
  "five classes of two-loop orders, one loop with and without gauge couplings; all third-generation mass orderings, mixings, scales; low-energy remainder predicted from one-loop thresholds")
C("P17", "exhaustive enumeration of a lattice of spectra x perturbative orders, renormalization-group relation between consecutive orders checked at every point with textbook beta functions", "exploration",
  "one- to three-loop relations of effective theory (nine two-loop orders), thresholds, fixed order (all couplings at one loop, five two-loop orders) and the fourteen three-loop expansions near their expansion points")
C("P11", "exhaustive enumeration of expansions x distances from the expansion point x mixings x schemes x loop-order flags on the real code; one- and two-loop oracle from independent formulas, three-loop values frozen, overlaps compared", "exploration",
  "all fourteen expansions; error bounds per expansion, loop order, element and distance; three-loop terms without oracle are frozen reference values in both squark-mass schemes")
C("P08", "exhaustive enumeration of all coincidence patterns (set partitions) of the masses of eight sectors x mixings x directions, results at and near the pattern compared with the polynomial continuation of the general formulas", "exploration",
  "all threshold corrections (both schemes, with and without logarithms) and one-/two-loop fixed-order corrections; also vanishing sfermion mixing; tolerances per observable from the documented windows")
C("P12", "exhaustive enumeration of argument positions, option sets, transfer failures at every position and call histories of the real LibraryLink function against a stand-in for the Mathematica link, compared with the C++ interface", "exploration",
  "order and names of arguments and options read from the Mathematica package and checked against what the real entry function does; every failing read or write position; all call histories over ten kinds of calls")
C("P15", "exhaustive enumeration of a lattice of points x symmetry operations (relabelling, exchange, signs, single-parameter changes), every output of every component compared with its image", "exploration",
  "nine families of symmetries: generations, signs, unused entries, up/down mirror, left/right, sector dependence of every number on each of 37 parameters, relabelled eigenstates of the two-loop functions, colour and flavour blindness")
C("P16", "exhaustive enumeration of all single and paired parameter values over an alphabet of ordinary, extreme and invalid values, of all given/missing mass combinations and of all call arguments, on a sanitizer build with poisoned uninitialised variables", "exploration",
  "every observable of every component per point (about 2000 numbers); AddressSanitizer, UndefinedBehaviorSanitizer, pattern-initialised locals, per-case time limit, captured output streams")
exec(open("/verif/tools/claims.py").read()) if __import__("os").path.exists("/verif/tools/claims.py") else None
props = [json.loads(l) for l in open("/verif/properties.jsonl")]
m = {"version": 1, "setup_cmd": "./run.sh setup quick",
     "checks": [{"property": p["id"], "quick_cmd": f"./run.sh {p['id']} quick", "thorough_cmd": f"./run.sh {p['id']} thorough",
                 "evidence_file": f"evidence/{p['id']}.json", "technique": CL[p["id"]][0], "level": CL[p["id"]][1], "level_note": CL[p["id"]][2]} for p in props if p["id"] in CL],
     "not_applicable": [{"property": p["id"], "reason": "no check registered yet (under construction)"} for p in props if p["id"] not in CL]}
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1)
print(len(m["checks"]), "checks")
