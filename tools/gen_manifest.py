#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of checks in check.py"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import check
NOTE = {
 'C01': ('property-based testing: random files x coordinates against a nearest-cell reference model (ASan/UBSan)', 'random search, shrinking; trusts libnetcdf and the model of file contents'),
 'C02': ('property-based testing: metamorphic/differential over storage configurations with random access histories', 'random search; values are also compared with the file model'),
 'C03': ('property-based testing: conversion oracle in C++ over random value types and layouts, guarded buffers', 'random search; conversions that are undefined in C++ are left out'),
 'C04': ('property-based testing: metadata against the generated file, round trip of coordinates of the reported range', 'random search; relative tolerance 1e-8 of the spacing'),
 'C05': ('stateful property-based testing: histories of create/open/read/close on several grids and levels against a model', 'random search over histories'),
 'C06': ('fuzzing of files, names and requests (mutated files, unusual but valid files) with error-code oracle and retry', 'random search under ASan/UBSan; inputs that crash libnetcdf itself are left out; damage is applied to classic formats only'),
 'C07': ('property-based testing: random parameter sets in random spelling, oracle on observed file accesses', 'random search; observes block boxes through the netCDF calls'),
}
sys.path.insert(0, os.path.join(V, "tools")); import tools_notes
NOTE.update(tools_notes.NOTE)
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if i in check.STAGES:
        t, n = NOTE[i]
        checks.append(dict(property=i, quick_cmd='python3 check.py %s' % i, thorough_cmd='python3 check.py %s --thorough' % i,
            evidence_file='evidence/%s.json' % i, technique=t, level='exploration', level_note=n))
    else:
        na.append(dict(property=i, reason='check under construction'))
m = dict(version=1, setup_cmd='python3 setup.py', checks=checks, not_applicable=na,
    notes='No hooks in /repo: the library sources are compiled unchanged, calls of pthread, netCDF, MPI and libnuma are redirected in the object files (objcopy --redefine-sym) to the harness and a simulated MPI.')
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks,', len(na), 'not claimed')
