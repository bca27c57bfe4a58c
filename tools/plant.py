"""Planting of bugs, in a scratch worktree (/tmp/plant/repo), never in /repo.

plant.py add ID PROP NEEDS BREAKS FILE <<< 'old\n====\nnew'   record a change (old text must be unique), verify the demo
plant.py tests ID...                  apply the listed changes together and run the stable tests
plant.py detect ID...                 run the property's check with the change applied to /repo
"""
import json, os, shutil, subprocess, sys

S = '/tmp/plant/repo'
V = '/verif/seeded/'
PY = '/opt/venv/bin/python'


def fresh():
    shutil.rmtree(S, ignore_errors=True)
    os.makedirs('/tmp/plant', exist_ok=True)
    subprocess.check_call(['cp', '-a', '/repo', S])
    subprocess.check_call(['git', '-C', S, 'checkout', '-q', '--', '.'])


def demo(id_):
    env = dict(os.environ, PYTHONPATH=S, PYTHONDONTWRITEBYTECODE='1')
    p = subprocess.run(['bash', V + id_ + '/demo.sh'], cwd=S, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=300)
    return p.returncode, p.stdout.decode(errors='replace')[-400:]


def add(id_, prop, needs, breaks, *files):
    fresh()
    parts = sys.stdin.read().split('\n@@@@\n')
    for f, part in zip(files, parts):
        old, new = part.rstrip('\n').split('\n====\n')
        t = open(S + '/' + f).read()
        assert t.count(old) == 1, (f, t.count(old))
        open(S + '/' + f, 'w').write(t.replace(old, new))
    diff = subprocess.check_output(['git', '-C', S, 'diff'])
    os.makedirs(V + id_, exist_ok=True)
    open(V + id_ + '/patch.diff', 'wb').write(diff)
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(V + id_ + '/meta.json', 'w'), indent=1)
    check_demo(id_)


def check_demo(id_):
    fresh()
    r0 = demo(id_)
    subprocess.check_call(['git', '-C', S, 'apply', V + id_ + '/patch.diff'])
    r1 = demo(id_)
    print(id_, 'OK' if r0[0] == 0 and r1[0] else 'BAD', r0 if r0[0] else '', r1[0] or r1)


def tests(*ids):
    fresh()
    for i in ids:
        subprocess.check_call(['git', '-C', S, 'apply', V + i + '/patch.diff'])
    t = open('/opt/vp/test.sh').read().replace('cd /repo', 'cd ' + S).replace('rm -rf /opt/vp/logs\n', '').replace('cp -r "$W/logs" /opt/vp/logs', '')
    open('/tmp/plant/test.sh', 'w').write(t)
    subprocess.run(['bash', '/tmp/plant/test.sh', '/tmp/plant/out.json'], env=dict(os.environ, PYTHONPATH=S), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    out = json.load(open('/tmp/plant/out.json'))
    base = json.load(open('/opt/vp/BASELINE.json'))
    def passed(d):  # OUT.json: passed, BASELINE.json: stable
        p = d.get('passed', d.get('stable', d.get('tests')))
        return set(x.replace(S + '/', '/repo/') for x in p)
    bad = passed(base) - passed(out)
    print('not passing:', len(bad), sorted(bad)[:8])


def detect(*ids):
    for i in ids:
        prop = json.load(open(V + i + '/meta.json'))['property']
        subprocess.check_call(['git', '-C', '/repo', 'apply', V + i + '/patch.diff'])
        try:
            p = subprocess.run(['python3-vt', '/verif/check.py', prop, 'quick'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=900)
            lines = [l[:200] for l in p.stdout.decode().splitlines() if l.startswith('VIOLATION')]
            print(i, p.returncode, lines[:3])
        finally:
            subprocess.check_call(['git', '-C', '/repo', 'checkout', '-q', '--', '.'])


if __name__ == '__main__':
    {'add': add, 'tests': tests, 'detect': detect, 'demo': check_demo}[sys.argv[1]](*sys.argv[2:])
