#!/usr/bin/env python3
"""Largest deviations of a calibration run (MC_ECAL), maximised over the fields not listed."""
import sys,collections
d=collections.defaultdict(float); drop=sys.argv[2].split(',') if len(sys.argv)>2 else []
for l in open(sys.argv[1]):
    t=l.split(); k=' '.join(x for x in t[1:] if not any(x.startswith(p) and x[len(p):].isdigit() for p in drop))
    d[k]=max(d[k],float(t[0]))
for k in sorted(d): print(k,d[k])
