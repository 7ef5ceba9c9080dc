"""rerun a decoder replay: prints stdout and side files"""
import json,sys,os,re,subprocess,tempfile
sys.path.insert(0,'/verif/vf'); import common
d=json.load(open(sys.argv[1])); x=d['data']; print(d['what'])
t=tempfile.mkdtemp()
cfg=re.sub(r'/tmp/vf-\S*/',t+'/',x['config'])
rt=re.search(r'\[tm_file\]\n(\S+)',cfg).group(1)
open(rt,'w').write("\n".join(x['rules'])+"\n")
for k,v in x.get('files',{}).items(): open(t+'/'+k,'w').write(v)
open(t+'/cfg','w').write(cfg)
e=common.build('asan',bins=['travatar'])['travatar']
r=common.run([e,'-config_file',t+'/cfg'],x['input'])
print(r.rc,r.san); print(r.out)
for f in sorted(os.listdir(t)):
    if f[-2:] in ('nb','tr','fo'): print(f); print(open(t+'/'+f).read())
