#!/usr/bin/env python3
"""Appends "fixed" entries for the fix commits of the repository to
known_findings.jsonl (documentation; run by hand after adding fixes)."""
import json, os, subprocess, sys
repo = os.environ.get('VERIF_REPO', '/repo')
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# Property of every fix: of the commit named and of those that follow it.
START = [('9176e9d', 'C01'), ('42566ea', 'C21'), ('9a917de', 'C02'),
         ('2464866', 'C01'), ('6acbd87', 'C02'), ('d7b119e', 'C03'),
         ('4a265ef', 'C04'), ('5fdf4af', 'C02'), ('9e15b78', 'C05'),
         ('bbd2cfe', 'C04'), ('5058926', 'C05'), ('142794f', 'C07'),
         ('7b792ed', 'C01'), ('165bfda', 'C02'), ('63941c7', 'C04'),
         ('02a2062', 'C06'), ('660955b', 'C11'), ('6d2f4ff', 'C08'),
         ('89a3c40', 'C01'), ('28f8841', 'C21'), ('a7ae3a8', 'C10'),
         ('8baa60a', 'C12'), ('c561718', 'C13'), ('4c32514', 'C14'),
         ('ff3fe06', 'C15'), ('4bf0f1c', 'C16'), ('c9e5410', 'C17'),
         ('6c86221', 'C18'), ('b511794', 'C19'), ('e44ec9d', 'C20'),
         ('bc7867b', 'C21'), ('0e0e689', 'C22'), ('49576aa', 'C23'),
         ('94f3328', 'C24'), ('0a8cf39', 'C25'), ('398a04c', 'C27'), ('a453767', 'C05'), ('c2d45e2', 'C28'), ('1c9d887', 'C29'), ('6b29d8b', 'C30'), ('327f3e3', 'C01'), ('0fb8915', 'C03'),
         ('4af3c0d', 'C04'), ('522eae0', 'C08'), ('b4228de', 'C15'), ('84a14d9', 'C20'), ('47f5f07', 'C19'),
         ('3d7e384', 'C29'), ('d6d22d8', 'C04')]
START += [tuple(a.split('=')) for a in sys.argv[1:]]   # e.g. abc1234=C28
path = os.path.join(root, 'known_findings.jsonl')
lines = [l for l in open(path) if '"status": "fixed"' not in l]
log = subprocess.run(['git', '-C', repo, 'log', '--reverse', '--format=%h %s'],
                     capture_output=True, text=True).stdout.splitlines()
reverted = {l.split('Revert "', 1)[1].rstrip('"') for l in log if 'Revert "' in l}
start = dict(START)
cur = None
for l in log:
    h, s = l.split(' ', 1)
    cur = start.get(h, cur)
    if not s.startswith('fix:') or s in reverted:
        continue
    what = s[4:].strip()
    lines.append(json.dumps({
        'status': 'fixed', 'property': cur, 'commit': h,
        'entry': 'fixed: property=%s %s %s' % (cur, h, what)}) + '\n')
open(path, 'w').writelines(lines)
print(len(lines))
