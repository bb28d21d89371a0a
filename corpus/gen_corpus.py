#!/usr/bin/env python3
"""Extracts the proof snippets of /repo/carcara/tests/rules/*.rs into corpus/<file>.txt (static seeds of
the falsifier; committed, not regenerated by the checks).  Record: fn \\x1f name \\x1f defs \\x1f proof \\x1f 0|1"""
import re,sys,glob,os
STR=re.compile(r'"((?:[^"\\]|\\.|"")*?)"(?!")|r#"(.*?)"#',re.S)
def lex(s):
    i=0;out=[]
    n=len(s)
    while i<n:
        c=s[i]
        if s.startswith('//',i):
            j=s.find('\n',i); i=n if j<0 else j; continue
        m=re.match(r'r(#*)"',s[i:])
        if m and (i==0 or not (s[i-1].isalnum() or s[i-1]=='_')):
            end='"'+m.group(1); j=s.index(end,i+m.end()); out.append(('s',s[i+m.end():j])); i=j+len(end); continue
        if c=='"':
            j=i+1;buf=''
            while s[j]!='"':
                if s[j]=='\\':
                    e=s[j+1]
                    if e=='\n':
                        j+=2
                        while s[j].isspace(): j+=1
                        continue
                    if e=='u':
                        k=s.index('}',j); buf+=chr(int(s[j+3:k],16)); j=k+1; continue
                    buf+={'n':'\n','t':'\t','\\':'\\','"':'"','0':'\0','r':'\r'}.get(e,e); j+=2
                else: buf+=s[j]; j+=1
            out.append(('s',buf)); i=j+1; continue
        m=re.match(r'[A-Za-z_#][A-Za-z0-9_#!]*',s[i:])
        if m: out.append(('i',m.group(0))); i+=m.end(); continue
        if not c.isspace(): out.append(('p',c))
        i+=1
    return out
for f in sorted(glob.glob('/repo/carcara/tests/rules/*.rs')):
    b=os.path.basename(f)[:-3]
    if b=='mod': continue
    toks=lex(open(f).read())
    recs=[];fn='';defs='';name='';i=0;consts={}
    while i<len(toks):
        t=toks[i]
        if t==('i','fn'): fn=toks[i+1][1].replace('r#','')
        if t[0]=='i' and t[1] in('const','let','static'):
            # const X: &str = "..."
            nm=toks[i+1][1]
            j=i
            while j<len(toks) and toks[j]!=('p','=') : j+=1
            if j+1<len(toks) and toks[j+1][0]=='s': consts[nm]=toks[j+1][1]
        if t==('i','definitions') and i+2<len(toks) and toks[i+1]==('p','=') and (toks[i+2][0]=='s' or toks[i+2][1] in consts):
            d=toks[i+2]
            defs=d[1] if d[0]=='s' else consts[d[1]]
            i+=2
        elif t[0]=='s' and i+2<len(toks) and toks[i+1]==('p','{'): name=t[1]
        elif t[0]=='s' and i+2<len(toks) and toks[i+1]==('p',':') and toks[i+2][1] in('true','false'):
            recs.append((fn,name,defs,t[1],'1' if toks[i+2][1]=='true' else '0'))
        i+=1
    open(f'/verif/corpus/{b}.txt','w').write('\x1e\n'.join('\x1f'.join(r) for r in recs))
    print(b,len(recs),sum(r[4]=='1' for r in recs))
    if b=='rare': open('/verif/corpus/rare_rules.rare','w').write(consts['RARE_RULES'])
