#!/usr/bin/env python3
"""writes contracts/dto.rs from the vendored rusoto_s3 (the types /repo/src/dto.rs re-exports)"""
import re,glob,sys
src=open(glob.glob('/root/.cargo/registry/src/*/rusoto_s3-0.48.0/src/generated.rs')[0]).read()
dto=open('/repo/src/dto.rs').read()
names=re.search(r'pub use rusoto_s3::\{(.*?)\};',dto,re.S).group(1).replace('\n',' ')
names=[n.strip() for n in names.split(',') if n.strip()]
prim={'String','i64','bool','f64','bytes::Bytes'}
todo=list(names); done={}
while todo:
    n=todo.pop(0)
    if n in done: continue
    m=re.search(r'pub struct %s \{\n(.*?)\n\}'%n,src,re.S)
    if m:
        fs=re.findall(r'pub (\w+): (.+?),\n',m.group(1)+',\n')
        done[n]=('s',fs)
        fs=[(f,t.rstrip(',')) for f,t in fs]; done[n]=('s',fs)
        for _,t in fs:
            for w in re.findall(r'[A-Z]\w+',t):
                if w not in ('String','Option','Vec','HashMap','StreamingBody') and w not in done: todo.append(w)
        continue
    if re.search(r'pub struct %s \{\}'%n,src): done[n]=('s',[]); continue
    m=re.search(r'pub enum %s \{\n(.*?)\n\}'%n,src,re.S)
    if m:
        vs=re.findall(r'^\s*(\w+)(\(String\))?,',m.group(1),re.M); done[n]=('e',vs); continue
    m=re.search(r'pub enum %s \{\}'%n,src)
    if m: done[n]=('e',[]); continue
    sys.exit('unknown '+n)
def dflt(t):
    if t.startswith('Option'): return 'None'
    if t=='i64': return '0'
    if t=='bool': return 'false'
    return None
o=['// generated by tools/mkdto.py from rusoto_s3 0.48 (the types /repo/src/dto.rs re-exports); do not edit']
SKIP={'CopyObjectError','CreateBucketError','GetObjectError','HeadBucketError','HeadObjectError','ListObjectsError','ListObjectsV2Error'}  # in u08_errors.vc, with their codes
for n,(k,b) in done.items():
    if n in SKIP: continue
    if k=='s':
        o.append('pub struct %s {'%n)
        for f,t in b: o.append('    pub %s: %s,'%(f,t.rstrip(',').replace('StreamingBody','ByteStream')))
        o.append('}')
        if all(dflt(t) for _,t in b):
            lit='%s { %s }'%(n,', '.join('%s: %s'%(f,dflt(t)) for f,t in b))
            o.append('impl %s { pub fn default() -> (r: Self) ensures r == (%s) { %s } }'%(n,lit,lit))
    else:
        if b: o.append('pub enum %s { %s }'%(n,', '.join(v+a for v,a in b)))
        else: o.append('pub enum %s { Never_ }'%n)
for n in re.findall(r'pub struct (\w+);',dto): o.append('pub struct %s;'%n)
txt='\n'.join(o)+'\n'
txt=txt0=re.sub(r'(::)?std::collections::HashMap','HashMap','\n'.join(o)+'\n')
txt=re.sub(r'\bS3Error\b','RusotoS3Error',txt0)
open('/verif/contracts/dto.rs','w').write(txt)
