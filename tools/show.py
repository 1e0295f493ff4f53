import json,sys
sys.path.insert(0,'/verif/harness')
import vp
def d(x):
    if isinstance(x,list):
        if len(x)==2 and isinstance(x[1],list) and isinstance(x[0],int) and x[0] in(-1,0,1,2) and all(isinstance(i,int) for i in x[1]) and (x[0]!=0 or x[1]==[]) : return float('%.6g'%vp.dec(x)) if x[0]!=2 else 'nan'
        return [d(i) for i in x]
    if isinstance(x,dict): return {k:d(v) for k,v in x.items()}
    return x
r=json.load(open(sys.argv[1]))
print({k:v for k,v in r.items() if k not in('trace',)})
n=int(sys.argv[2]) if len(sys.argv)>2 else 600
for e in r['trace']: print(str(d(e))[:n])
