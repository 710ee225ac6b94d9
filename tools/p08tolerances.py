#!/usr/bin/env python3
"""Rewrites data/P08_tolerances.inc from the maxima of the last thorough run of P08 (evidence/P08.json; run it with all
entries for equal masses set to 0): name, largest relative deviation at equal masses, at almost equal masses, in the windows per relative
splitting, and outside of them."""
import json, os
d = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
m = json.load(open(d + '/evidence/P08.json'))['coverage']['maxima']
names = sorted({k.split('.', 1)[1].rsplit('.', 1)[0] for k in m if k.split('.')[0] in ('thresholds', 'fixedorder')})
with open(d + '/data/P08_tolerances.inc', 'w') as f:
    f.write('struct Tol { double t[4]; };\nconst std::map<std::string, Tol> TOLERANCES = {\n')
    for n in names:
        g = lambda c: max([0] + [m.get(s + n + '.' + c, 0) for s in ('thresholds.', 'fixedorder.')])
        f.write('   {"%s", {%.2e, %.2e, %.2e, %.2e}},\n' % (n, 2e-5 + 2*g('exact'), 5e-5 + 2*g('near'), .02 + 1.5*g('window'), 1e-5 + 2*g('general')))
    f.write('};\ndouble tolerance(const std::string& n, int c) { const auto i = TOLERANCES.find(n); return i == TOLERANCES.end() ? 1e-4 : i->second.t[c]; }\n')
