#!/usr/bin/env python3
"""Rewrite the table of planted changes in DESIGN.md from /verif/seeded."""
import json, glob, re
rows = ["| change | needs | breaks | caught by |", "|---|---|---|---|"]
for f in sorted(glob.glob('/verif/seeded/*/meta.json')):
    m = json.load(open(f)); c = lambda s: s.replace('|', '\\|').replace('\n', ' ')
    rows.append("| %s | %s | %s | %s |" % (f.split('/')[-2], c(m['needs']), c(m['what_it_breaks']), m['property']))
t = open('/verif/DESIGN.md').read()
t = re.sub(r'(<!-- seeds -->\n).*?(<!-- /seeds -->)', lambda k: k.group(1) + "\n".join(rows) + "\n" + k.group(2), t, flags=re.S)
open('/verif/DESIGN.md', 'w').write(t)
