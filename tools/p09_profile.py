#!/usr/bin/env python3
"""stdin: output of P09_CALIBRATE=1 run.sh P09 thorough; writes data/P09_accuracy.txt (5 times the measured deviation)"""
import sys, re
out = []
for l in sys.stdin:
    m = re.match(r"   max (\S+) = (\S+)", l)
    if m:
        v = 5*float(m.group(2)); assert v < 0.05, l
        if v > 2e-14: out.append("%s %.2g" % (m.group(1), v))
open("/verif/data/P09_accuracy.txt", "w").write("\n".join(sorted(out)) + "\n")
