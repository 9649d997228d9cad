"""mk(id, prop, needs, breaks, edits, demo): make a planted bug"""
import subprocess, os, json, sys
WT = '/tmp/wt'
LIB = open('/verif/tools/demolib.py').read()
def mk(bid, prop, needs, breaks, edits, demo, extra={}):
    d = '/verif/seeded/' + bid
    os.makedirs(d, exist_ok=True)
    assert not subprocess.check_output(['git','-C',WT,'status','--short','-uno']).strip()
    try:
        for f, old, new in edits:
            fn = WT + '/' + f
            s = open(fn).read()
            assert s.count(old) == 1, (f, s.count(old), old)
            open(fn,'w').write(s.replace(old, new))
        open(d+'/patch.diff','wb').write(subprocess.check_output(['git','-C',WT,'diff']))
    finally:
        subprocess.check_call(['git','-C',WT,'checkout','-q','--','.'])
    open(d+'/demo.sh','w').write('#!/bin/sh\n# cwd is the built repository\nexec python3 "$(dirname "$0")/demo.py"\n')
    open(d+'/demo.py','w').write(LIB + '\n' + demo)
    for k, v in extra.items():
        open(d+'/'+k,'w').write(v)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d+'/meta.json','w'), indent=1)
