#!/usr/bin/env python3
"""p3show.py replay.json: last grids, poses and goals of a rejected planner_3d episode"""
import json, sys
r = json.load(open(sys.argv[1]))['replay']
m = None; ups = []; last = {}
for x in r['episode']:
    try: e = json.loads(x)
    except Exception: continue
    if e['op'] == 'map': m = e; ups = []
    if e['op'] == 'upd': ups.append(e)
    if e['op'] in ('pose', 'nopose', 'cfg', 'goal', 'ag', 'dump'): last[e['op']] = x[:160]
for v in last.values(): print(v)
for z in range(m['a'] if len(sys.argv) > 2 else 1):
    for y in range(m['h'] - 1, -1, -1): print('%2d |' % y, ' '.join('%3d' % v for v in m['d'][(z * m['h'] + y) * m['w']:][:m['w']]))
print({k: m[k] for k in m if k != 'd'})
for u in ups[-3:]:
    print({k: u[k] for k in u if k != 'd'})
    for y in range(u['h'] - 1, -1, -1): print('%2d |' % (u['y'] + y), ' '.join('%3d' % v for v in u['d'][y * u['w']:(y + 1) * u['w']]))
