#!/usr/bin/env python3
"""Prints the bounds table of DESIGN.md from evidence files.

usage: bounds.py QUICK_EVIDENCE_DIR THOROUGH_EVIDENCE_DIR
"""
import sys, json, glob, os
def load(d):
    r = {}
    for p in glob.glob(d + '/*.json'):
        e = json.load(open(p)); r[os.path.basename(p)[:-5]] = {m['model']: m for m in e['coverage'].get('models', [])}
    return r
def num(n):
    if n is None: return '-'
    return f'{n/1e6:.1f}M' if n >= 1e6 else (f'{n/1e3:.0f}k' if n >= 1e4 else str(n))
q, t = load(sys.argv[1]), load(sys.argv[2])
order = [f'C{i:02}' for i in range(1, 17)] + [f'A{i:02}' for i in range(1, 7)] + [f'P{i:02}' for i in range(1, 6)] + ['M01', 'M02', 'M03']
print('| id | model | starts | depth q/t | states or points q/t | transitions or executions q/t |')
print('|---|---|---|---|---|---|')
for p in order:
    for n, m in q.get(p, {}).items():
        o = t.get(p, {}).get(n, {})
        g = 'grid_points' in m
        a = lambda x, k1, k2: x.get(k1, x.get(k2))
        d = 'grid' if g else f"{m.get('depth_bound')}/{o.get('depth_bound', '-')}"
        print(f"| {p} | {n} | {m.get('start_states', '-') if not g else '-'} | {d} | {num(a(m,'states','grid_points'))}/{num(a(o,'states','grid_points'))} | {num(a(m,'transitions','executions'))}/{num(a(o,'transitions','executions'))} |")
