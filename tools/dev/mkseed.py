# usage: mkseed.py NAME PROP FILE <<< JSON? -> python module style: import and call
import subprocess, os, json, shutil
def seed(name, prop, edits, demo, needs, breaks):
    d='/verif/seeded/'+name
    os.makedirs(d, exist_ok=True)
    wt='/tmp/mkseed_wt'
    shutil.rmtree(wt, ignore_errors=True)
    subprocess.run('cp -a /repo '+wt, shell=True, check=True)
    for f, old, new in edits:
        p=os.path.join(wt,f); s=open(p,encoding='utf8').read()
        assert s.count(old)==1, (name, f, s.count(old), old)
        open(p,'w',encoding='utf8').write(s.replace(old,new))
    r=subprocess.run('git diff', shell=True, cwd=wt, stdout=subprocess.PIPE, text=True).stdout
    open(d+'/patch.diff','w').write(r)
    open(d+'/demo.py','w').write(demo.lstrip('\n'))
    open(d+'/demo.sh','w').write('#!/bin/bash\nD=$(cd "$(dirname "$0")" && pwd)\nJYTHONPATH=/opt/bgsite:/repo exec /opt/jy/jy -B "$D/demo.py" < /dev/null\n')
    json.dump({'property':prop,'needs':needs,'what_it_breaks':breaks}, open(d+'/meta.json','w'), indent=1)
    shutil.rmtree(wt)
