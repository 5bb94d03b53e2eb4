# usage: in a python script: plant(id, prop, file, old, new, needs, breaks, demo, extra files)
import os, subprocess, json, shutil
def plant(id, prop, edits, needs, breaks, demo, files={}):
    d='/verif/seeded/'+id
    os.makedirs(d, exist_ok=True)
    w='/tmp/mkplant'
    subprocess.run(['rm','-rf',w]); subprocess.run(['git','clone','-q','/repo',w],check=True)
    for f,old,new in edits:
        p=w+'/'+f; s=open(p,encoding='latin-1').read()
        assert s.count(old)==1,(f,s.count(old),old)
        open(p,'w',encoding='latin-1').write(s.replace(old,new))
    diff=subprocess.run(['git','-C',w,'diff'],stdout=subprocess.PIPE).stdout
    open(d+'/patch.diff','wb').write(diff)
    json.dump({"property":prop,"needs":needs,"what_it_breaks":breaks},open(d+'/meta.json','w'),indent=1)
    open(d+'/demo.sh','w').write(demo)
    for n,t in files.items(): open(d+'/'+n,'w').write(t)
    subprocess.run(['rm','-rf',w])
ST='''#!/bin/bash
# Runs demo.st with the tree's gst and compares its output with demo.ok.
D=$(cd "$(dirname "$0")" && pwd)
out=$(timeout 100 ./gst -q --no-user-files -I gst.im --kernel-directory kernel "$D/demo.st" 2>&1)
[ "$out" = "$(cat "$D/demo.ok")" ] && exit 0
echo "expected:"; cat "$D/demo.ok"; echo "got:"; echo "$out"
exit 1
'''
def st(id, prop, edits, needs, breaks, prog, ok):
    plant(id, prop, edits, needs, breaks, ST, {'demo.st':prog,'demo.ok':ok})
def real(prog):
    """What the unchanged tree answers."""
    open('/tmp/mk.st','w').write(prog)
    return subprocess.run(['timeout','100','/tmp/gst2.sh','-q','--no-user-files','/tmp/mk.st'],stdout=subprocess.PIPE,stderr=subprocess.STDOUT).stdout.decode('latin-1')
def stx(id, prop, edits, needs, breaks, prog):
    ok=real(prog); print(id,'->',ok); st(id,prop,edits,needs,breaks,prog,ok)
