import sys, json, threading, time
sys.path.insert(0,'/verif')
def main():
    from pyvc import drive
    drive.WORKERS=6
    V,bad=drive.load('/repo'); print(bad)
    res=drive.run_all(V,[((n,None),o,t,None,1) for n,p,o,t in V.proofs],300,time.time()+800)
    cover={}
    for (n,_),r in sorted(res.items(), key=lambda x:x[1].get('time',0)):
        if r.get('error') or any(o['status']!='proved' for o in r['obligations']): print('BAD',n,r.get('error'))
        for q in r.get('inlined',[]): cover.setdefault(q,[]).append(n)
    json.dump(cover,open('/tmp/cover.json','w'),indent=0)
    print(len(cover))
    for q in sorted(cover): print(q, len(cover[q]))
threading.stack_size(512*1024*1024); t=threading.Thread(target=main); t.start(); t.join()
