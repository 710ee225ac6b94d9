#!/usr/bin/env python3
"""Rewrites data/P11_bounds.inc from the maxima of the last thorough run of P11 (evidence/P11.json)."""
import json, os
d = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
m = json.load(open(d + '/evidence/P11.json'))['coverage']['maxima']
with open(d + '/data/P11_bounds.inc', 'w') as f:
    f.write('/// largest error of each expansion: name.loop.element.distance, 1.5 times the largest one of the thorough lattice\ndouble bound(const std::string& n)\n{\n   static const std::map<std::string, double> b = {\n')
    for k in sorted(m):
        if k.split('.')[0] in ('exact', 'scheme', 'overlap'):
            f.write('   {"%s", %.2e},\n' % (k, max(1.5*m[k], 1e-8)))
    f.write('   };\n   const auto i = b.find(n); return i == b.end() ? 0 : i->second;\n}\n')
