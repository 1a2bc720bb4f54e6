"""One-off generator of data/shipped.txt and data/unicode17.txt (committed).

  /tmp/x/repo.txt     per code point dump of the library's own lookups (base tree)
  /tmp/gref/*.txt     Go 1.27 x/net/idna + x/text (Unicode 17.0) per code point
  node                ID_Start / ID_Continue (ICU, Unicode 17.0)
"""
import subprocess, sys
dn="NONE BN CS ES ON EN L R NSM AL AN ET WS RLO LRO PDF RLE RLI FSI PDI LRI B S LRE".split()
gn="L R EN ES ET AN CS B S WS ON BN NSM AL Control X LRO RLO LRE RLE PDF LRI RLI FSI PDI".split()
js=r"""
let o=[];let s=/^\p{ID_Start}$/u,c=/^\p{ID_Continue}$/u;
for(let i=0;i<0x110000;i++){if(i>=0xd800&&i<0xe000)continue;let t=String.fromCodePoint(i);o.push((s.test(t)?1:0)+";"+(c.test(t)?1:0));}
console.log(process.versions.unicode);console.log(o.join("\n"));
"""
ids=subprocess.run(['node','-e',js],capture_output=True,text=True).stdout.split('\n')
print('node unicode',ids[0]); ids=ids[1:]
A=[l.rstrip('\n').split(';') for l in open('/tmp/gref/idna.txt')]
B=[l.rstrip('\n').split(';') for l in open('/tmp/gref/x.txt')]
R=[l.rstrip('\n').split(';') for l in open('/tmp/x/repo.txt')]
def hang(c): return 0xAC00<=c<0xAC00+11172
def emit(fn,rows):
    out=[]; 
    for c,row in rows:
        if out and out[-1][1]==c-1 and out[-1][2]==row: out[-1][1]=c
        else: out.append([c,c,row])
    with open(fn,'w') as f:
        f.write('# lo;hi;status;mapping;bidi;ccc;nfd;combining;not_nfc;id_start;id_continue;joining;virama\n')
        for lo,hi,row in out: f.write('%x;%x;%s\n'%(lo,hi,';'.join(row)))
    print(fn,len(out))
g=[];r=[]
for a,b,q,i in zip(A,B,R,ids):
    c=int(a[0],16); s,k=i.split(';')
    d='' if hang(c) else b[3].strip('[]'); 
    s2='1' if c in(36,95) else s; k2='1' if c==36 else k
    g.append((c,(a[1],a[2].strip('[]') if a[1]=='M' else '',gn[int(b[1])],b[2],d,a[5],'1' if b[4] else '0',s2,k2,a[3],a[4])))
    d='' if hang(c) else q[5]
    r.append((c,(q[1],q[2],dn[int(q[3])],q[4],d,q[6],'1' if (q[7] and not hang(c)) else '0',q[8],q[9],'','')))
emit('data/unicode17.txt',g)
# joiner sets of the shipped library
import re
src=open('/repo/src/validity.cpp').read()
J={}
for nm in ('virama','R','L','D'):
    m=re.search(r'uint32_t %s\[\] = \{(.*?)\}'%nm,src,re.S); J[nm]={int(x,16) for x in re.findall(r'0x([0-9A-Fa-f]+)',m.group(1))}
r=[(c,row[:9]+(('1' if c in J['L'] else '2' if c in J['D'] else '4' if c in J['R'] else '0'),'1' if c in J['virama'] else '0')) for c,row in r]
emit('data/shipped.txt',r)
