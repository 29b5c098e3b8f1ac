#!/usr/bin/env python3
"""seed.py SPEC.py [ID...]   write /verif/seeded/<id> for the bugs a spec file lists.

A spec holds bugs = [dict(id, prop, edits=[(file, old, new)], needs, breaks, demo, [flags], [sh])];
demo is the body of a Go program that uses seedlib/lib.go, sh replaces demo.sh's last line."""
import os, shutil, subprocess, sys, json
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ns = {}
exec(open(sys.argv[1]).read(), ns)
SH = '''#!/bin/bash
# exit 0 when the property holds in this demonstration, 1 when it does not
D="$(cd "$(dirname "$0")" && pwd)"; R="$PWD"
. /opt/vp/env.sh; cd "$R" || exit 2
T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
export TMPDIR="$T" GIT_CONFIG_GLOBAL=/dev/null GIT_CONFIG_NOSYSTEM=1
cat > "$T/overlay.json" <<EOF
{"Replace": {"$R/verifdemo/main.go": "$D/main.go", "$R/verifdemo/lib.go": "$D/lib.go"}}
EOF
%s
'''
RUN = 'go run %s -overlay "$T/overlay.json" ./verifdemo'
def base(f):
    return set(subprocess.run(['git','-C','/repo','show','b224ccc:'+f],capture_output=True,text=True).stdout.split('\n'))
for b in ns['bugs']:
    if len(sys.argv) > 2 and b['id'] not in sys.argv[2:]: continue
    d = os.path.join(V, 'seeded', b['id'])
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    diff = ''
    files = {}
    for f, old, new in b['edits']:
        s = files.get(f) or open('/repo/'+f).read()
        assert s.count(old) == 1, (b['id'], f, s.count(old), old)
        files[f] = s.replace(old, new)
    orig = False
    for f, s in files.items():
        tmp = '/tmp/seed.new'
        open(tmp,'w').write(s)
        if b.get('fmt', True):
            subprocess.run(['gofmt','-w',tmp+'.go'] if os.rename(tmp,tmp+'.go') is None else [],check=True); tmp += '.go'
        out = subprocess.run(['git','diff','--no-index','--','/repo/'+f,tmp],capture_output=True,text=True).stdout.split('\n')
        bl = base(f)
        for i,l in enumerate(out):
            if l.startswith('diff --git'): out[i] = 'diff --git a/%s b/%s' % (f,f)
            elif l.startswith('--- '): out[i] = '--- a/'+f
            elif l.startswith('+++ '): out[i] = '+++ b/'+f
            elif l.startswith('-'):
                if l[1:] in bl: orig = True
                else: print('  note: not an original line:', l)
        diff += '\n'.join(l for l in out if not l.startswith('index ') and not l.startswith('old mode') and not l.startswith('new mode'))
        os.remove(tmp)
    open(d+'/patch.diff','w').write(diff)
    json.dump({'property': b['prop'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(d+'/meta.json','w'), indent=1)
    body = b['demo'].strip('\n')+'\n'
    open(d+'/main.go','w').write(body if body.startswith('package') else 'package main\n\n'+body)
    subprocess.run(['gofmt','-l','-w',d+'/main.go'],check=True,stdout=subprocess.DEVNULL)
    shutil.copy(os.path.join(V,'tools/seedlib/lib.go'), d+'/lib.go')
    open(d+'/demo.sh','w').write(SH % b.get('sh', RUN % b.get('flags','-tags no_license')))
    print(b['id'], 'written', '' if orig else '(NO ORIGINAL LINE REMOVED)')
