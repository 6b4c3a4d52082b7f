#!/usr/bin/env python3
"""plant.py SPEC.py : writes /verif/seeded/<id>/ from specs; each spec: ID, PROP, FILE, OLD, NEW, NEEDS, BREAKS, DEMO (python source)"""
import sys, os, json, subprocess, difflib
V = '/verif/seeded'
SH = '''#!/bin/bash
# exit 0: behaves as stated; nonzero: the property is broken
D=$(cd "$(dirname "$0")" && pwd)
export HOME=/root LANG=C.UTF-8 LC_ALL=C.UTF-8 OMP_NUM_THREADS=${OMP_NUM_THREADS:-1} OPENBLAS_NUM_THREADS=1 PYTHONDONTWRITEBYTECODE=1 PYTHONWARNINGS=ignore
export PYTHONPATH=/opt/vp/py3compat/modules:/repo/_build/inst/lib/x86_64-linux-gnu/yade/py
T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
cd "$T" && timeout 250 /usr/bin/python3 "$D/demo.py"
'''
HEAD = 'import yade, yade.boot, yade.wrapper, yade.utils, vp_iter, sys\nvp_iter.patch()\nfrom yade.wrapper import *\nfrom yade import utils\nfrom minieigen import *\nimport math\nO = Omega()\n\n'


def spec(id, prop, edits, needs, breaks, demo, env=''):
    d = os.path.join(V, id)
    os.makedirs(d, exist_ok=True)
    out = ''
    byfile = {}
    for f, old, new in edits:
        byfile.setdefault(f, []).append((old, new))
    for f, ed in byfile.items():
        a = subprocess.check_output(['git', '-C', '/repo', 'show', 'HEAD:' + f]).decode('utf-8', 'surrogateescape')
        b = a
        for old, new in ed:
            assert b.count(old) == 1, (id, f, b.count(old), old)
            b = b.replace(old, new)
        la, lb = a.splitlines(True), b.splitlines(True)
        out += ''.join(difflib.unified_diff(la, lb, 'a/' + f, 'b/' + f))
    open(d + '/patch.diff', 'wb').write(out.encode('utf-8', 'surrogateescape'))
    open(d + '/demo.sh', 'w').write(SH.replace('timeout 250', env + ' timeout 250') if env else SH)
    os.chmod(d + '/demo.sh', 0o755)
    open(d + '/demo.py', 'w').write(HEAD + demo)
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)
    subprocess.check_call(['git', '-C', '/repo', 'apply', '--check', d + '/patch.diff'])
    r = subprocess.run(['bash', d + '/demo.sh'], capture_output=True, text=True, cwd='/repo')
    print(id, 'demo on the unchanged tree:', r.returncode, r.stdout[-300:], r.stderr[-300:] if r.returncode else '')


exec(open(sys.argv[1]).read())
