"""Candidate mutants of fieldx: (file, line number, new line(s), description)"""
import re, glob, json, random
R='/repo/'
files=[f for f in glob.glob(R+'fieldx/src/**/*.rs',recursive=True)+glob.glob(R+'fieldx_derive/src/**/*.rs',recursive=True)+glob.glob(R+'fieldx_aux/src/**/*.rs',recursive=True)+glob.glob(R+'fieldx_*/src/**/*.rs',recursive=True)]
files=sorted(set(files))
OPS=[(r'&&','||'),(r'\|\|(?! [^)]*\))(?=\s*[a-z!(])','&&'),(r'==','!='),(r'!=','=='),(r'\btrue\b','false'),(r'\bfalse\b','true'),
(r'\.is_some\(\)','.is_none()'),(r'\.is_none\(\)','.is_some()'),(r'(?<![a-z])if !','if '),(r'(?<![a-z])if (?!let|!|#)(?=[a-z(])','if !'),
(r'!(?=[a-z_]+[.(])(?!vec|quote|format|panic|parse|matches|write|assert|unreachable|concat)',''),
(r'\.is_some_and\(','.is_none_or('),(r'\.map_or\(false','.map_or(true'),(r'\.map_or\(true','.map_or(false'),
(r'unwrap_or\(true\)','unwrap_or(false)'),(r'unwrap_or\(false\)','unwrap_or(true)'),
(r'\.read\(\)','.write()'),(r'\.upgradable_read\(\)','.read()'),(r'\.take\(\)','.clone()'),
(r'FXValueRepr::Exact','FXValueRepr::Versatile'),(r'FXValueRepr::Versatile','FXValueRepr::Exact'),
(r'\.or_else\(\|\| [^)]*\)+',''),(r'\.or\([^)]*\)',''),(r'\.and_then\(','.and_then('),
(r'Option::Some','Option::None'),(r'Ordering::(Acquire|Release|SeqCst|AcqRel)','Ordering::Relaxed'),
(r'\.not\(\)',''),(r'is_sync\(\)','is_async()'),(r'is_async\(\)','is_sync()'),(r'is_lazy\(\)','is_optional()'),(r'is_optional\(\)','is_lazy()'),
(r'args\(\)\.','args().'),
]
out=[]
for f in files:
    L=open(f).read().split('\n')
    for i,l in enumerate(L):
        st=l.strip()
        if st.startswith('//') or st.startswith('use ') or st.startswith('#[') or 'debug' in st: continue
        for a,b in OPS:
            for m in re.finditer(a,l):
                n=l[:m.start()]+m.expand(b)+l[m.end():]
                if n!=l: out.append((f[len(R):],i,[n],'%s -> %s'%(m.group(0),b)))
        # statement deletion
        if re.match(r'^\s+(self\.|ctx\.|fctx\.|[a-z_]+\.|\*|return |drop)[^{}]*;$',l) and st.count('(')==st.count(')'):
            out.append((f[len(R):],i,[''],'delete '+st[:60]))
        # list/alternative deletion: a line `|| x`, `&& x` or a chained `.or_else(..)`
        if re.match(r'^\s+(\|\||&&) .*$',l) and st.count('(')==st.count(')'):
            tail=';' if st.endswith(';') else ''
            out.append((f[len(R):],i,[tail],'delete '+st[:60]))
        if re.match(r'^\s+\.(or_else|or|filter|map_or|chain|and_then)\(.*\)[;,]?$',l) and st.count('(')==st.count(')'):
            tail=st[-1] if st[-1] in ';,' else ''
            out.append((f[len(R):],i,[tail],'delete '+st[:60]))
seen=set(); u=[]
for o in out:
    k=(o[0],o[1],tuple(o[2]))
    if k not in seen: seen.add(k); u.append(o)
random.seed(4); random.shuffle(u)
json.dump(u,open('/tmp/mut/cands.json','w'))
from collections import Counter
print(len(u)); print(Counter(o[0] for o in u))
