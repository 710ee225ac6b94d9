#!/usr/bin/env python3
"""Prints data/P14_lowenergy.inc for the built check (VERIF_BUILD, default build, P14)."""
import subprocess,os,re
os.environ['P14_PRINT']='1'
v=[None]*90
import concurrent.futures as cf
def go(i):
    o=subprocess.run([os.environ.get('VERIF_BUILD','build')+'/P14','--replay','lowenergy:%d'%i],capture_output=True,text=True).stderr
    m=re.findall(r'^T(\d+) (\S+)$',o,re.M); return i,m[0][1]
with cf.ThreadPoolExecutor(8) as ex:
    for i,x in ex.map(go,range(90)): v[i]=x
print(',\n'.join(', '.join(v[i:i+5]) for i in range(0,90,5)))
