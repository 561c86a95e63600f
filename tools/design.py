#!/usr/bin/env python3
"""Writes DESIGN.md from tools/design_head.md, tools/design_tail.md, the property table, the evidence of the last run
(what a check does, how many obligations it decided, its time) and tools/catches.txt (output lines of tools/try.py seeded)."""
import json, os, re, glob
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = [json.loads(l) for l in open(R + '/properties.jsonl')]
M = json.load(open(R + '/MANIFEST.json'))
claimed = {c['property']: c for c in M['checks']}
na = {c['property']: c['reason'] for c in M['not_applicable']}
kf = [l.strip() for l in open(R + '/known-findings.txt') if not l.startswith('#')]
catches = {}
for l in open(R + '/tools/catches.txt'):
    m = re.match(r'(\S+) (?:\[\w+\])?:? ?.*caught by: ?(.*)', l)
    if m: catches[m.group(1)] = m.group(2).split()
exec(open(R + '/tools/design_notes.py').read())   # NOTES: id -> (oracle, bounds)
o = [open(R + '/tools/design_head.md').read().rstrip(), '']
groups = [('R', 'Runbooks'), ('G', 'Dependency graphs'), ('P', 'PostgreSQL connection and inspection'), ('S', 'Secrets'),
          ('D', 'Descriptions, definition parsers, generated SQL'), ('C', 'Command line and commands'), ('T', 'Task sets')]
o.append('## 3. The properties, one by one\n')
o.append('"Decided by" is what the analysis does; "oracle" is what it compares with; "bounds" is what the argument leaves out. '
         'The counts are those of the unchanged tree (every obligation is a construct on a path that a rule was applied to); '
         'a floor on them makes a check fail if the code it is about can no longer be found.\n')
for g, t in groups:
    o.append('### %s\n' % t)
    for p in P:
        if p['id'][0] != g: continue
        o.append('**%s %s.** %s' % (p['id'], p['title'], p['statement']))
        if p['id'] in na:
            o.append('\n*Not claimed*: %s\n' % na[p['id']]); continue
        e = json.load(open('%s/evidence/%s.json' % (R, p['id'])))
        c = e['coverage']
        ex = c['explanation'].strip()
        ex = ex[0].upper() + ex[1:] + ('' if ex.endswith('.') else '.')
        n = NOTES.get(p['id'], ('', ''))
        o.append('\n- Decided by: %s (%d obligations of %d rules in %d functions, %.1f s.)' % (ex, c['obligations'], len(c['obligations_per_rule']), c['functions_analysed'], e['wall_s']))
        if n[0]: o.append('- Oracle: ' + n[0])
        if n[1]: o.append('- Bounds: ' + n[1])
        b = sorted(k for k in catches if p['id'] in catches[k])
        own = [k for k in b if k.startswith(p['id'].lower() + '-')]
        oth = [k for k in b if k not in own]
        s = ', '.join(own) or 'none of its own'
        if oth: s += '; also notices ' + ', '.join(oth)
        o.append('- Planted bugs it catches: %s.' % s)
        f = [l for l in kf if l.startswith('fixed: property=%s ' % p['id'])]
        for l in f:
            w = l.split(' ', 3); o.append('- Defect found and repaired (%s): %s.' % (w[2], w[3]))
        for l in [l for l in kf if l.startswith('known: property=%s ' % p['id'])]:
            o.append('- Known finding: %s.' % l.split(' :: ', 1)[1])
        o.append('')
o.append(open(R + '/tools/design_tail.md').read().rstrip())
open(R + '/DESIGN.md', 'w').write('\n'.join(o) + '\n')
print(len('\n'.join(o)))
