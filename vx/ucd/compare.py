import unicodedata as U, collections
N="cp gc bc ccc mir dt can com name age blk alpha alnum ctl num ws low up cased ci cwl cwu cwt cwcf cwcm gcb wb sb ids idc xids xidc psyn pws emo epres emod emb ecomp bctl idna cm nat nal".split()
R={}
for l in open('dump.tsv'):
    f=l.rstrip('\n').split('\t'); d=dict(zip(N,f)); R[int(f[0],16)]=d
bad=collections.Counter(); ex=collections.defaultdict(list)
def chk(k,cp,a,b):
    if a!=b:
        bad[k]+=1
        if len(ex[k])<8: ex[k].append(("%04X"%cp,a,b))
for cp,d in R.items():
    c=chr(cp)
    asg=d['age']!='-'
    if d['gc']!='Cn':
        chk('gc',cp,d['gc'],U.category(c)); chk('bc',cp,d['bc'],U.bidirectional(c)); chk('mir',cp,d['mir'],str(U.mirrored(c)))
        chk('ccc',cp,d['ccc'],str(U.combining(c)))
        nm=U.name(c,'-'); chk('name',cp,d['name'],nm)
        dec=U.decomposition(c)
        if 0xAC00<=cp<0xD7A4: dec=''
        if dec.startswith('<'):
            t,m=dec.split('> '); t=t[1:]
            chk('com',cp,d['com'].strip(),m); chk('dt',cp,d['dt'].lower(),t.lower()); chk('can',cp,d['can'],'')
        else: chk('can',cp,d['can'].strip(),dec); chk('com',cp,d['com'],'')
        nd=[U.normalize('NFD',c)]
    else: chk('name?',cp,d['name'],'-')
    chk('age-cn',cp,asg, d['gc']!='Cn' or (cp&0xFFFE)==0xFFFE or 0xFDD0<=cp<=0xFDEF)
    gc=d['gc']
    chk('cased',cp,d['cased']=='1', d['low']=='1' or d['up']=='1' or gc=='Lt')
    chk('low',cp,d['low']=='1' or gc!='Ll',True); chk('up',cp,d['up']=='1' or gc!='Lu',True)
    chk('ci',cp,d['ci']=='1', gc in('Mn','Me','Cf','Lm','Sk') or d['wb'] in ('ML','MB','SQ'))
    chk('num',cp,d['num']=='1',gc in('Nd','Nl','No')); chk('ctl',cp,d['ctl']=='1',gc=='Cc')
    chk('alnum',cp,d['alnum']=='1',d['alpha']=='1' or gc in ('Nd','Nl','No'))
    chk('alpha',cp,d['alpha']=='1' or not (gc in('Lm','Lo','Lt','Nl') or d['low']=='1' or d['up']=='1'),True)
    chk('cm',cp,d['cm']=='1',gc[0]=='M')
    chk('cccM',cp,d['ccc']=='0' or gc[0]=='M',True)
    chk('cwcm',cp,d['cwcm']=='1',d['cwl']=='1' or d['cwu']=='1' or d['cwt']=='1')
    chk('ids<idc',cp,d['ids']<=d['idc'] and d['xids']<=d['xidc'] and d['xids']<=d['ids'] and d['xidc']<=d['idc'],True)
    chk('ids',cp,d['ids']=='1',(gc[0]=='L' or gc=='Nl' or cp in(0x1885,0x1886,0x2118,0x212E,0x309B,0x309C)) and d['psyn']=='0' and d['pws']=='0')
    chk('idc',cp,d['idc']=='1',(d['ids']=='1' or gc in('Mn','Mc','Nd','Pc') or cp in(0xB7,0x387,0x19DA) or 0x1369<=cp<=0x1371) and d['psyn']=='0' and d['pws']=='0')
    chk('epres',cp,d['epres']<=d['emo'] and d['emod']<=d['emo'] and d['emb']<=d['emo'],True)
    chk('na',cp,sorted(d['nat'].replace('Some(','').replace(')','').replace('None','[]').strip('[]').split(', ')),sorted(d['nal'].strip('[]').split(', ')))
    h='LV' if 0xAC00<=cp<0xD7A4 and (cp-0xAC00)%28==0 else 'LVT' if 0xAC00<=cp<0xD7A4 else None
    if h or d['gcb'] in('LV','LVT'): chk('hg',cp,d['gcb'],h)
    chk('gcbC',cp,d['gcb'] not in('EX','SM') or gc[0]=='M' or cp in (0x200C,) or 0xFF9E<=cp<=0xFF9F or 0xE0020<=cp<=0xE007F or gc=='Sk',True)
    chk('gcb-wb',cp, gc in('Mn','Me') and d['wb'] not in('Extend','EX'),False)
    if c.isspace and False: pass
print(dict(bad))
for k in ex: print(k,ex[k])
