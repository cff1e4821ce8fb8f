"""mkseed.py SPEC.py: SPEC defines SEEDS = [dict(id, prop, needs, breaks, edits=[(file, old, new)], demo)] -> /verif/seeded/<id>/"""
import sys, os, json, subprocess, shutil
g = {}; exec(open(sys.argv[1]).read(), g)
only = sys.argv[2:]
for s in g['SEEDS']:
    if only and s['id'] not in only: continue
    d = '/verif/seeded/' + s['id']; os.makedirs(d, exist_ok=True)
    ok = True
    for f, old, new in s['edits']:
        p = '/repo/' + f; t = open(p).read()
        if t.count(old) != 1: print(s['id'], f, 'old text occurs', t.count(old)); ok = False; break
        open(p, 'w').write(t.replace(old, new))
    if ok:
        diff = subprocess.run(['git', '-C', '/repo', 'diff'], capture_output=True, text=True).stdout
        open(d + '/patch.diff', 'w').write(diff)
        open(d + '/demo.sh', 'w').write('#!/bin/bash\ncd "$(dirname "$0")" && PYTHONDONTWRITEBYTECODE=1 exec python3 demo.py\n' if s.get('kind', 'py') == 'py' else s['sh'])
        os.chmod(d + '/demo.sh', 0o755)
        if s.get('kind', 'py') == 'py':
            open(d + '/demo.py', 'w').write('import sys, os, struct, time\nfrom dax import *\n' + s['demo'].lstrip('\n'))
            shutil.copy('/verif/tools/dax.py', d + '/dax.py')
        for n, c in s.get('files', {}).items(): open(d + '/' + n, 'w').write(c)
        json.dump({'property': s['prop'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(d + '/meta.json', 'w'), indent=1)
        print(s['id'], 'written')
    subprocess.run(['git', '-C', '/repo', 'checkout', '-q', '--', '.'])
