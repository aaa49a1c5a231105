#!/usr/bin/env python3
"""Writes MANIFEST.json from propinfo.py and properties.jsonl."""
import json, propinfo
props = [json.loads(l) for l in open('properties.jsonl')]
checks, na = [], []
for p in props:
    i = p['id']
    if i in propinfo.P:
        d = propinfo.P[i]
        checks.append(dict(property=i, quick_cmd=f'python3 dst.py check {i} --tier quick', thorough_cmd=f'python3 dst.py check {i} --tier thorough',
                           evidence_file=f'evidence/{i}.json', technique=d['technique'], level='exploration', level_note=d['note']))
    else: na.append(dict(property=i, reason=propinfo.NA[i]))
m = dict(version=1, setup_cmd='python3 dst.py build', checks=checks, not_applicable=na,
         notes='No hooks in /repo: the seams are the operating system calls and the allocator, replaced at link time (ld --wrap) in the simulator builds; threads are scheduled at compiler-inserted instrumentation points.')
json.dump(m, open('MANIFEST.json', 'w'), indent=1)
