#!/usr/bin/env python3
"""mkseed.py SPEC.py: writes /verif/seeded/<id>/ from a spec defining
seeds=[dict(id,property,needs,breaks,file,edits=[(old,new)...] or files={file:edits},pkg,demo)].
The demo is an in-package Go test compiled through an overlay."""
import sys,os,subprocess,tempfile,shutil,json
ns={}
exec(open(sys.argv[1]).read(),ns)
DEMO='''#!/bin/bash
# Exits 0 if the demonstration test passes on the tree in the current directory.
here="$(cd "$(dirname "$0")" && pwd)"; repo="$PWD"
tmp="$(mktemp -d)" || exit 3
trap 'rm -rf "$tmp"' EXIT
export TMPDIR="$tmp" GOTOOLCHAIN=local GOPROXY=off
echo "{\\"Replace\\":{\\"$repo/PKG/zz_demo_test.go\\":\\"$here/demo_test.go\\"}}" >"$tmp/overlay.json"
cd "$repo" && timeout 250 go test -vet=off -count=1 -overlay "$tmp/overlay.json" -run '^TestZZDemo$' ./PKG
'''
for s in ns['seeds']:
    d='/verif/seeded/'+s['id']; shutil.rmtree(d,ignore_errors=True); os.makedirs(d)
    t=tempfile.mkdtemp()
    subprocess.check_call(['cp','-a','/repo',t+'/repo']); r=t+'/repo'
    files=s.get('files') or {s['file']:s['edits']}
    for f,eds in files.items():
        c=open(r+'/'+f).read()
        for o,n in eds:
            assert c.count(o)==1,(s['id'],f,c.count(o),o)
            c=c.replace(o,n)
        open(r+'/'+f,'w').write(c)
    subprocess.check_call(['gofmt','-l',*[r+'/'+f for f in files]])
    diff=subprocess.check_output(['git','-C',r,'diff']); open(d+'/patch.diff','wb').write(diff)
    base=subprocess.check_output(['git','-C',r,'rev-list','--max-parents=0','HEAD']).decode().split()[0]
    shutil.rmtree(t)
    open(d+'/demo.sh','w').write(DEMO.replace('PKG',s['pkg'])); os.chmod(d+'/demo.sh',0o755)
    open(d+'/demo_test.go','w').write(s['demo'])
    json.dump(dict(property=s['property'],needs=s['needs'],what_it_breaks=s['breaks']),open(d+'/meta.json','w'),indent=1)
    print(s['id'])
