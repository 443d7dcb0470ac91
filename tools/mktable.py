#!/usr/bin/env python3
"""Write ENTRIES.md: every harness entry, the properties it decides, its bounds and what it does (from the harness comments)."""
import os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = ['# Harness entries', '', 'Generated by tools/mktable.py from harness/*.cpp. `p` = preemption bound quick/thorough '
       '(unbounded switches at blocking points).', '']
for f in sorted(os.listdir(V + '/harness')):
    if not f.endswith('.cpp'):
        continue
    ls = open(V + '/harness/' + f).read().split('\n')
    rows = []
    for i, l in enumerate(ls):
        m = re.match(r'\s*ENTRY\((\w+)\)\s*\{?\s*//\s*@(\S+)\s*(.*)$', l)
        if not m:
            continue
        c = []
        j = i - 1
        while j >= 0 and ls[j].startswith('//'):
            c.insert(0, ls[j].lstrip('/').replace('----', '').strip())
            j -= 1
        kv = m.group(3)
        p = re.search(r'(?<!\.)\bpreempt=(\d+)', kv)
        tp = re.search(r'thorough\.preempt=(\d+)', kv)
        t = re.search(r'(?<!\.)\btier=(\w+)', kv)
        q = p.group(1) if p else '2'
        rows.append('| %s | %s | %s/%s%s | %s |' % (m.group(1), m.group(2).replace(',', ' '), q, tp.group(1) if tp else q,
                    ' thorough only' if t and t.group(1) == 'thorough' else '', ' '.join(c).replace('|', '\\|') or '(see source)'))
    if rows:
        out += ['## ' + f, '', '| entry | properties | p | what is decided |', '|---|---|---|---|'] + rows + ['']
open(V + '/ENTRIES.md', 'w').write('\n'.join(out))
