#!/usr/bin/env python3
"""mkseed.py SPEC.py: writes seeded/<id>/ from a spec (ID, PROP, FILE/EDITS=[(file, old, new)], NEEDS, BREAKS, DEMO python text)."""
import json
import os
import subprocess
import sys
ROOT = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
for spec in sys.argv[1:]:
    g = {}
    exec(open(spec).read(), g)
    for s in g['SEEDS']:
        d = os.path.join(ROOT, 'seeded', s['id'])
        os.makedirs(d, exist_ok=True)
        tmp = '/tmp/mkseed'
        subprocess.run('rm -rf /tmp/mkseed && mkdir /tmp/mkseed && cd /repo && git archive HEAD src | tar x -C /tmp/mkseed && cd /tmp/mkseed && git init -q . && git add -A && git -c user.name=a -c user.email=a@b commit -qm a', shell=True, check=True)
        for f, old, new in s['edits']:
            p = os.path.join(tmp, f)
            t = open(p).read()
            assert t.count(old) == 1, (s['id'], f, t.count(old))
            open(p, 'w').write(t.replace(old, new))
        diff = subprocess.run('cd /tmp/mkseed && git diff', shell=True, capture_output=True, text=True).stdout
        open(os.path.join(d, 'patch.diff'), 'w').write(diff)
        open(os.path.join(d, 'demo.sh'), 'w').write(
            '#!/bin/bash\nD=$(cd "$(dirname "$0")" && pwd)\nexport PYTHONPATH=/repo/src MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1\n'
            'cd /repo && exec /opt/venv/bin/python -W ignore "$D/demo.py"\n')
        open(os.path.join(d, 'demo.py'), 'w').write(s['demo'].lstrip())
        json.dump({'property': s['prop'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)
        print('wrote', s['id'])
