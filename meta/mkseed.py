"""mkseed(id, prop, edits, demo, needs, breaks): edits = [(file, old, new)]"""
import os, subprocess, json, shutil
def mkseed(id, prop, edits, demo, needs, breaks):
    d = '/verif/seeded/' + id
    os.makedirs(d, exist_ok=True)
    assert not subprocess.check_output(['git','-C','/repo','status','--short']).strip()
    for f, old, new in edits:
        p = '/repo/' + f
        s = open(p).read()
        assert s.count(old) == 1, (f, s.count(old), old)
        open(p, 'w').write(s.replace(old, new))
    diff = subprocess.check_output(['git','-C','/repo','diff']).decode()
    subprocess.check_call(['git','-C','/repo','checkout','-q','--','.'])
    open(d + '/patch.diff','w').write(diff)
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json','w'), indent=1)
    open(d + '/demo.py','w').write('from zdemo import *\n\n' + demo.strip() + '\n')
    open(d + '/demo.sh','w').write('#!/bin/bash\nPYTHONDONTWRITEBYTECODE=1 exec python3 "$(dirname "$0")/demo.py"\n')
    shutil.copy('/verif/meta/zdemo.py', d)
