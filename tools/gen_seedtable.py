"""Writes the table of planted bugs into DESIGN.md (between the markers)."""
import json, os, re
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.path.join(HERE, 'seeded')
missed = json.load(open(os.path.join(HERE, 'tools', 'missed.json'))) if os.path.exists(os.path.join(HERE, 'tools', 'missed.json')) else {}
rows = ['<!-- seeds -->', '| bug | needs | breaks | first run | now |', '|---|---|---|---|---|']
for i in sorted(os.listdir(S)):
    m = json.load(open(os.path.join(S, i, 'meta.json')))
    rows.append(f"| {i} | {m['needs']} | {m['what_it_breaks']} | {'missed: ' + missed[i] if i in missed else 'caught'} | {m['property']} catches |")
rows.append('<!-- /seeds -->')
p = os.path.join(HERE, 'DESIGN.md')
s = open(p).read()
t = '\n'.join(rows)
s = s.replace('SEEDTABLE', t) if 'SEEDTABLE' in s else re.sub('<!-- seeds -->.*<!-- /seeds -->', lambda m: t, s, flags=re.S)
open(p, 'w').write(s)
