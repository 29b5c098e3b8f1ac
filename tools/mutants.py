#!/usr/bin/env python3
"""Small generated changes of the code against the unit tests and the checks.

mutants.py unit LIST OUT [N SEED]   which of (a sample of) the changes build and pass the unit tests
mutants.py checks IN OUT [SEED]     which of those the checks see; checks are chosen by file
Works on scratch copies below /tmp/mut only.
"""
import json, os, random, shutil, subprocess, sys, threading, queue, time

ENV = dict(os.environ, **{l.split('=', 1)[0]: l.split('=', 1)[1] for l in subprocess.run(['bash', '-c', '. /opt/vp/env.sh; env'], capture_output=True, text=True).stdout.splitlines() if '=' in l})
BASE = json.load(open('/opt/vp/BASELINE.json'))
MAP = [
    ('ripsrc/history3/process/repo', 'C09 C08 C10 C07 C19 C21'),
    ('ripsrc/history3/process/parser', 'C01 C02 C04 C24 C21 C19'),
    ('ripsrc/history3/process/gitblamecommit', 'C01 C21 C19 C22'),
    ('ripsrc/history3/process', 'C01 C02 C04 C03 C07 C29 C10 C28 C21 C19 C20 C08 C22'),
    ('ripsrc/history3/incblame', 'C24 C01 C02 C07'),
    ('ripsrc/branchmeta', 'C12 C28 C21 C19 C22'),
    ('ripsrc/branches2', 'C13 C14 C12 C28 C19 C21 C18'),
    ('ripsrc/branches.go', 'C12 C13 C19 C21 C26'),
    ('ripsrc/parentsgraph', 'C11 C13 C14 C21 C10'),
    ('ripsrc/commitmeta', 'C05 C06 C03 C21 C19 C22 C20 C15'),
    ('ripsrc/fileinfo', 'C16 C15 C17'),
    ('ripsrc/gitblame2', 'C25 C01 C02 C21 C22'),
    ('ripsrc/gitexec', 'C01 C06 C25 C21 C19 C22 C23 C18'),
    ('ripsrc/pkg/logger', 'C27'),
    ('ripsrc/pkg/gitrepos', 'C26'),
    ('ripsrc/pkg/random', 'C18 C09'),
    ('ripsrc/cmd', 'C26'),
    ('cmd/', 'C26'),
    ('ripsrc/', 'C15 C03 C04 C29 C07 C16 C19 C21 C20 C28 C18 C12'),
]
CASES = {'C01': 450, 'C02': 450, 'C03': 450, 'C04': 450, 'C16': 500, 'C15': 800, 'C20': 400}


def apply(root, m):
    p = os.path.join(root, m['file'])
    b = open(p, 'rb').read()
    if b[m['off']:m['off'] + m['len']].decode(errors='replace') != m.get('old', '') and m['len']:
        return False  # the file has changed since
    open(p, 'wb').write(b[:m['off']] + m['new'].encode() + b[m['off'] + m['len']:])
    return True


def undo(root, m):
    shutil.copyfile(os.path.join('/repo', m['file']), os.path.join(root, m['file']))


def limited(cmd, cwd, t, mem='10G', env=ENV):
    p = subprocess.Popen(['prlimit', '--as=%d' % (int(mem[:-1]) << 30)] + cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', start_new_session=True)
    try:
        out, _ = p.communicate(timeout=t)
        rc = p.returncode
    except subprocess.TimeoutExpired:
        rc, out = -9, 'timeout'
    subprocess.run(['pkill', '-KILL', '-s', str(p.pid)], check=False)
    try:
        os.killpg(p.pid, 9)
    except OSError:
        pass
    return rc, out


def unit(lst, out, n=0, seed=1):
    ms = [json.loads(l) for l in open(lst)]
    random.Random(seed).shuffle(ms)
    if n:
        ms = ms[:n]
    q = queue.Queue()
    for m in ms:
        q.put(m)
    lock = threading.Lock()
    f = open(out, 'a')
    seen = set()
    if os.path.exists(out):
        for l in open(out):
            d = json.loads(l)
            seen.add((d['file'], d['off'], d['new'], d['kind']))

    def work(k):
        root = '/tmp/mut/u%d' % k
        if not os.path.exists(root):
            subprocess.run(['cp', '-a', '/repo', root], check=True)
        while True:
            try:
                m = q.get_nowait()
            except queue.Empty:
                return
            if (m['file'], m['off'], m['new'], m['kind']) in seen:
                continue
            apply(root, m)
            rc, o = limited(['go', 'build', './...'], root, 120)
            if rc:
                m['unit'] = 'nobuild'
            else:
                rc, o = limited(['timeout', '-k', '1', '90', 'go', 'test', '-json', '-vet=off', '-failfast', '-timeout', '60s', './...'], root, 120)
                bad = []
                for l in o.splitlines():
                    try:
                        d = json.loads(l)
                    except ValueError:
                        continue
                    if d.get('Action') == 'fail':
                        bad.append(d['Package'].split('ripsrc', 1)[1] + ' ' + d.get('Test', ''))
                m['unit'] = 'killed' if bad or rc else 'survived'
                if rc == -9:
                    m['unit'] = 'killed'
            undo(root, m)
            with lock:
                f.write(json.dumps(m) + '\n')
                f.flush()
    ts = [threading.Thread(target=work, args=(k,)) for k in range(int(os.environ.get('PAR', '4')))]
    [t.start() for t in ts]
    [t.join() for t in ts]


def checks(inp, out, seed=1):
    seen = set()
    if os.path.exists(out):
        for l in open(out):
            d = json.loads(l)
            seen.add((d['file'], d['off'], d['new'], d['kind']))
    f = open(out, 'a')
    root, ver = '/tmp/mut/c', '/tmp/mut/verif'
    if not os.path.exists(root):
        subprocess.run(['cp', '-a', '/repo', root], check=True)
    shutil.rmtree(ver, ignore_errors=True)
    os.makedirs(ver + '/evidence')
    os.makedirs(ver + '/out')
    for x in ['harness', 'run.sh', 'known-findings.json', 'MANIFEST.json']:
        subprocess.run(['cp', '-a', '/verif/' + x, ver], check=True)
    subprocess.run(['sed', '-i', 's|=> /repo$|=> %s|' % root, ver + '/harness/go.mod'], check=True)
    while True:
        ms = [json.loads(l) for l in open(inp)]
        todo = [m for m in ms if m.get('unit') == 'survived' and (m['file'], m['off'], m['new'], m['kind']) not in seen]
        if not todo:
            return
        for m in todo:
            seen.add((m['file'], m['off'], m['new'], m['kind']))
            if not apply(root, m):
                continue
            m['by'] = None
            m['odd'] = []
            t = time.time()
            for pre, ids in MAP:
                if m['file'].startswith(pre):
                    break
            for c in ids.split():
                env = dict(ENV, VERIF_SEED=str(seed))
                if c in CASES:
                    env['VH_CASES'] = str(CASES[c])
                rc, o = limited(['./run.sh', c], ver, 400, '400G' if c == 'C18' else '24G', env)
                if rc == 1 and 'VIOLATION' in o:
                    m['by'] = c
                    m['how'] = [l for l in o.splitlines() if l.startswith('---')][:1]
                    break
                if rc:
                    m['odd'].append([c, rc, o[-300:]])
                    if 'BUILD-ERROR' in o:
                        break
            m['secs'] = round(time.time() - t)
            undo(root, m)
            f.write(json.dumps(m) + '\n')
            f.flush()


if __name__ == '__main__':
    if sys.argv[1] == 'unit':
        unit(sys.argv[2], sys.argv[3], *map(int, sys.argv[4:]))
    else:
        checks(sys.argv[2], sys.argv[3], *map(int, sys.argv[4:]))
