import json,sys,subprocess
p='/verif/known_findings.json';k=json.load(open(p))
c=sys.argv[3] if len(sys.argv)>3 else subprocess.run('git -C /repo log -1 --format=%h',shell=True,capture_output=True,text=True).stdout.strip()
k['fixed'].append('fixed: property=%s %s %s'%(sys.argv[1],c,sys.argv[2]))
json.dump(k,open(p,'w'),indent=1)
