"""mkseed.py SPEC.py...: turn specs into /verif/seeded/<id>/ and confirm them.
A spec defines ID, PROPERTY, NEEDS, BREAKS, EDITS=[(file, old, new)], DEMO (python text)."""
import json, os, subprocess, sys, tempfile, shutil
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WP = os.path.join(HERE, 'tools', 'with_patch.sh')
DEMO_SH = '''#!/bin/bash
# run with cwd /repo: exit 0 when the property holds, 1 when it is broken
here="$(cd "$(dirname "$0")" && pwd)"
. /opt/vp/env.sh
unset TF_DETERMINISTIC_OPS
export PYTHONPATH="/repo:/opt/vp/plugins"
exec timeout 280 $PY -W ignore "$here/demo.py" 2> >(tail -5 >&2)
'''
PRELUDE = '''import sys
import tf_v1_api
import numpy as np
import tensorflow as tf
tf.get_logger().setLevel('ERROR')


def done(ok, text=''):
    print('holds' if ok else 'BROKEN', text)
    sys.stdout.flush()
    sys.exit(0 if ok else 1)


'''

def sh(*a, **k):
    return subprocess.run(a, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)

def one(spec):
    ns = {}
    exec(compile(open(spec).read(), spec, 'exec'), ns)
    sid = ns['ID']
    d = os.path.join(HERE, 'seeded', sid)
    tmp = tempfile.mkdtemp(prefix='/tmp/ms.')
    try:
        r = os.path.join(tmp, 'r')
        subprocess.check_call(['git', 'clone', '-q', '/repo', r])
        for f, old, new in ns['EDITS']:
            p = os.path.join(r, f)
            s = open(p).read()
            n = s.count(old)
            if n != 1:
                print(sid, 'edit matches', n, 'times in', f, repr(old[:60])); return False
            open(p, 'w').write(s.replace(old, new))
        diff = subprocess.check_output(['git', '-C', r, 'diff'], text=True)
        os.makedirs(d, exist_ok=True)
        open(os.path.join(d, 'patch.diff'), 'w').write(diff)
        open(os.path.join(d, 'demo.sh'), 'w').write(DEMO_SH); os.chmod(os.path.join(d, 'demo.sh'), 0o755)
        open(os.path.join(d, 'demo.py'), 'w').write(PRELUDE + ns['DEMO'].lstrip('\n'))
        json.dump(dict(property=ns['PROPERTY'], needs=ns['NEEDS'], what_it_breaks=ns['BREAKS']), open(os.path.join(d, 'meta.json'), 'w'), indent=1)
        lay = os.path.join(tmp, 'lay'); os.makedirs(lay)
        for f in ('demo.sh', 'demo.py'): shutil.copy(os.path.join(d, f), lay)
        a = sh('bash', os.path.join(lay, 'demo.sh'), cwd='/repo')
        b = sh(WP, os.path.join(d, 'patch.diff'), 'bash', '-c', 'cd /repo && bash %s/demo.sh' % lay)
        t = sh(WP, os.path.join(d, 'patch.diff'), 'bash', '-c', 'bash /opt/vp/build.sh >/dev/null 2>&1 || echo BUILDFAIL; cd /repo; bash /opt/vp/test.sh %s/o.json >/dev/null 2>&1; cat %s/o.json' % (tmp, tmp))
        bad = []
        if 'BUILDFAIL' in t.stdout: bad.append('build fails')
        try:
            res = json.loads(t.stdout[t.stdout.index('{'):])
            base = json.load(open('/opt/vp/BASELINE.json'))['stable']
            ok = set(res.get('passed', []))
            miss = [x for x in base if x not in ok]
            if miss: bad.append('tests: %s' % miss[:3])
        except Exception as e:
            bad.append('no results %r %s' % (e, t.stdout[-300:]))
        if a.returncode != 0: bad.append('demo on clean: rc %d %s' % (a.returncode, a.stdout[-600:]))
        if b.returncode == 0: bad.append('demo with patch passes: %s' % b.stdout[-300:])
        print(sid, 'OK' if not bad else bad, '|', b.stdout.strip()[-150:])
        return not bad
    finally:
        shutil.rmtree(tmp)

sys.exit(0 if all([one(s) for s in sys.argv[1:]]) else 1)
