#!/usr/bin/env python3
"""Writes /verif/DESIGN.md from tools/design_body.md, the scenarios and the planted bugs."""
import glob, json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
body = open(f'{V}/tools/design_body.md').read()
mut = f'{V}/tools/mutation.md'
body = body.replace('@@MUTATION@@', ('\n' + open(mut).read() + '\n') if os.path.exists(mut) else '')
out = [body, '## Appendix A: scenarios and bounds\n']
lst = subprocess.run(['bash', f'{V}/run.sh', 'list'], capture_output=True, text=True, check=True).stdout
sc = {}
for l in lst.splitlines():
    head, bounds = l.split(': ', 1)
    p, tier, name = head.split(' ', 2)
    sc.setdefault(p, {}).setdefault(name, {})[tier] = bounds
for p in sc:
    out.append(f'\n**{p}**\n')
    for n, t in sc[p].items():
        q, th = t.get('quick', '(none)'), t.get('thorough', '(none)')
        if q == th:
            out.append(f'* *{n}* (both tiers): {q}')
        else:
            a, b = q.split(' '), th.split(' ')
            diff = [y for x, y in zip(a, b) if x != y] if len(a) == len(b) else None
            out.append(f'* *{n}*: {q}; thorough: {", ".join(diff) if diff and len(diff) <= 4 else th}')
out.append('\n## Appendix B: planted bugs and the checks that catch them\n')
out.append('Caught by the quick check of the property named, unless noted otherwise.\n')
out.append('| id | property | needs | breaks |\n|----|----|----|----|')
for f in sorted(glob.glob(f'{V}/seeded/*/meta.json')):
    m = json.load(open(f))
    out.append(f"| {f.split('/')[-2]} | {m['property']} | {m['needs']} | {m['what_it_breaks']} |")
open(f'{V}/DESIGN.md', 'w').write('\n'.join(out) + '\n')
