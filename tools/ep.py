#!/usr/bin/env python3
"""ep.py replay.json [n]: last n events of a rejected episode"""
import json, sys
r = json.load(open(sys.argv[1]))['replay']
n = int(sys.argv[2]) if len(sys.argv) > 2 else 8
ep = r.get('episode') or []
if ep: print('   ', ep[0][:500])
for x in ep[1:][-n:]: print('   ', x[:int(sys.argv[3]) if len(sys.argv) > 3 else 300])
if not ep: print(str(r)[-1500:])
