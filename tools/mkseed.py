"""mkseed.py ID PROPERTY FILE  (stdin: python literal dict {'edits': [(old,new)...], 'needs':..., 'breaks':..., 'demo': C++ source, 'src': [extra /repo sources], 'libs': str, 'flags': str})
writes /verif/seeded/ID; the edit is made in a scratch copy of the file only"""
import ast, json, os, subprocess, sys, tempfile
sid, pid, path = sys.argv[1:4]
d = eval(sys.stdin.read())
V = '/verif/seeded/' + sid
os.makedirs(V, exist_ok=True)
edits = d['edits'] if isinstance(d['edits'], dict) else {path: d['edits']}
diff = ''
for p, es in edits.items():
    s = open('/repo/' + p).read()
    for o, n in es:
        assert s.count(o) == 1, (p, o, s.count(o))
        s = s.replace(o, n)
    with tempfile.NamedTemporaryFile('w', delete=False) as f:
        f.write(s)
    r = subprocess.run(['diff', '-u', '--label', 'a/' + p, '--label', 'b/' + p, '/repo/' + p, f.name], capture_output=True, text=True)
    os.unlink(f.name)
    diff += r.stdout
open(V + '/patch.diff', 'w').write(diff)
open(V + '/demo.cpp', 'w').write(d['demo'])
mods = 'AlexandriaKernel Configuration FilePool GridContainer Histogram KdTree MathUtils NdArray PhysicsUtils SOM SourceCatalog Table XYDataset'
inc = ' '.join('-I' + m for m in mods.split())
if d.get('stubs'):
    os.makedirs(V + '/stubs', exist_ok=True)
    subprocess.check_call(['cp', '-r', '/verif/stubs/.', V + '/stubs/'])
    inc += ' -I"$d/stubs"'
open(V + '/demo.sh', 'w').write('''#!/bin/bash
# run with cwd /repo: exit 0 when the property holds for this scenario
d="$(cd "$(dirname "$0")" && pwd)"
t="$(mktemp -d)"; trap 'rm -rf -- "$t"' EXIT
g++ -std=c++14 -O0 -w %s -I. %s "$d/demo.cpp" %s -o "$t/demo" %s || exit 0
cd "$t" && timeout 100 ./demo
''' % (d.get('flags', ''), inc, ' '.join(d.get('src', [])), d.get('libs', '')))
os.chmod(V + '/demo.sh', 0o755)
json.dump({'property': pid, 'needs': d['needs'], 'what_it_breaks': d['breaks']}, open(V + '/meta.json', 'w'), indent=1)
print('wrote', sid)
