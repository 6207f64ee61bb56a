#!/usr/bin/env python3
"""Builds everything once so that the checks find compiled objects (they build what is missing themselves)."""
import build, check
build.prepare()
todo = []
for stages in check.STAGES.values():
    for s in stages:
        w, e = check.start(s)
        todo += list(w.values()) + [e]
for t in todo:
    t()
print('ready')
