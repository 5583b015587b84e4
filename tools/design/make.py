import sys,json
sys.path.insert(0,'/verif')
from props import PROPS
import os
D=os.path.dirname(os.path.abspath(__file__))
ns={}; exec(open(D+'/info.py').read(),ns); info=ns['I']
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
import os
out=[open(D+'/head.md').read()]
for p in props:
    i=p['id']; P=PROPS[i]
    ev='/verif/evidence/%s.json'%i
    t=''
    w={}
    try: w=json.load(open(D+'/times.json'))
    except Exception: pass
    out.append("### %s %s\n\n"%(i,p['title']))
    out.append(info[i].strip()+"\n\n")
    jobs="; ".join("%s (%s%s)"%(j['src'],j['variant'],(", part %d"%j['part']) if j.get('part') else '') for j in P['jobs']) if i!='C28' else 'c28.cpp (gcc and clang, -O0 to -O3)'
    out.append("*Runs*: %s. *Level*: %s.%s\n*Q*: %s.\n*T*: %s.\n\n"%(jobs,P['level'],(" *Quick cost*: %s s."%w[i]) if i in w else '',P['bounds']['quick'],P['bounds']['thorough']))
out.append(open(D+'/tail.md').read())
import subprocess
out.append(subprocess.run(['python3','/verif/tools/design/table.py'],capture_output=True,text=True).stdout)
open('/verif/DESIGN.md','w').write("".join(out))
