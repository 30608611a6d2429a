"""TLC's JSON export of the Tok.tla control table -> (header with names, flat binary of entries)."""
import json,struct,sys
d=json.load(open(sys.argv[1]))
ACT={'n+':'A_np','v+':'A_vp','n/':'A_ns','v/':'A_vs','open{':'A_openO','open[':'A_openA','close}':'A_closeO',
     'close]':'A_closeA','mopen{':'A_mopenO','mopen[':'A_mopenA'}
for p in('memb','elem'):
    for t in 'SNABZ': ACT[p+t]='A_'+p+t
names=['A_none']+list(ACT.values()); num={n:i for i,n in enumerate(names)}
qs=d['qs']; key=lambda q:(q['m'],q['s'],q['x'],q['t'])
qi={key(q):i for i,q in enumerate(qs)}; NQ=len(qs); FAIL=NQ
cs=d['cs']; ci={c:i for i,c in enumerate(cs)}
errs=['-']
def ent(r):
    q=FAIL if r['q']['m']=='X' else qi[key(r['q'])]
    if r['err'] not in errs: errs.append(r['err'])
    a=[num[ACT[x]] for x in r['acts']]
    assert len(a)<=2
    return struct.pack('<hBBBBBB',q,*(a+[0]*(2-len(a))),len(a),r['again'],errs.index(r['err']),0)[:8]
row={}
for oi,op in enumerate(d['opts']):
    row[op['a']*1+op['n']*2+op['s']*4+op['c']*8]=d['d'][oi]
b=bytearray(); cnt=0
for code in range(16):
    for qe in row[code]:
        for t in qe:
            for c in t:
                cnt+=len(c)
                for k in (c if len(c)==3 else c*3): b+=ent(k)
open(sys.argv[3],'wb').write(bytes(b))
o=['enum Act{%s};'%','.join(names),
 'enum{NQ=%d,NC=%d,Q_FAIL=%d,Q0=%d};'%(NQ,len(cs),FAIL,qi[key(d['q0'])]),
 'struct Ent{short q;unsigned char acts[2];unsigned char nacts,again,err,pad;};',
 'static const unsigned char T_CLASS[256]={%s};'%','.join(['%d'%ci['oth']]+['%d'%ci[c] for c in d['classes']]),
 'static const char*const C_NAME[]={%s};'%','.join('"%s"'%c for c in cs)]
for n,f in (('Q_S_ASC',lambda q:q['s']=='asc'),('Q_M_N',lambda q:q['m']=='N'),('Q_M_E',lambda q:q['m']=='E')):
    o.append('static const bool %s[NQ+1]={%s,0};'%(n,','.join(str(int(f(q))) for q in qs)))
o.append("static const char Q_T[NQ+1]={%s,'-'};"%','.join("'%s'"%q['t'] for q in qs))
o.append('static const char*const Q_NAME[NQ+1]={%s,"fail"};'%','.join('"%s/%s/%d/%s"'%(q['m'],q['s'],q['x'],q['t']) for q in qs))
o.append('static const char*const ERR_NAME[]={%s};'%','.join('"%s"'%e for e in errs))
o.append('enum{NERR=%d,N_TRANSITIONS=%d};'%(len(errs),cnt))
open(sys.argv[2],'w').write('\n'.join(o)+'\n')
