"""DESIGN.md: the prose below, with the bounds and job counts of specs.py filled in"""
import sys, os, json
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
import specs
HERE = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
titles = {}
for l in open(HERE+'/properties.jsonl'):
    d = json.loads(l); titles[d['id']] = d['title']
src = open(HERE+'/tools/design.md').read()
out = []
for part in src.split('\n'):
    if part.startswith('@@'):
        k = part[2:].strip().split()[0]
        if k not in specs.PROPS: out.append('### %s %s\n\nNot applicable: %s' % (k, titles[k], specs.NA.get(k, ''))); continue
        e = specs.PROPS[k]
        out.append('### %s %s' % (k, titles[k]))
        out.append('\n*Jobs*: %d quick, %d thorough.  *Bounds*: %s.  *Outside*: %s.' % (len(e['jobs']('quick')), len(e['jobs']('thorough')), e['bounds'], e['outside']))
    else: out.append(part)
open(HERE+'/DESIGN.md', 'w').write('\n'.join(out))
