"""Writes lib/fnref.json: the functions of the reference tree with their types, used to recognise renamed functions (run by hand)."""
import os, sys, json
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, 'lib'))
import mir
out = {}
for c in mir.CRATES:
    if c == 'verif_inst': continue
    p = mir.prog(c)
    for n, ks in p.byname.items():
        if len(ks) == 1 and 'packages' in p.raw[ks[0]]['file'] and '::' in n and '{' not in n:
            out[n] = p.sig(ks[0])
json.dump(out, open(os.path.join(ROOT, 'lib/fnref.json'), 'w'), indent=0, sort_keys=True)
print(len(out), 'functions')
