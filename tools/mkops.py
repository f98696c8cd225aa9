#!/usr/bin/env python3
"""writes contracts/u11_out.vc (and the tables of the operations) from the tables below: which field of an
operation's output is reported by which header / element of the response (S3 API reference)."""
import itertools
SSE=[('x-amz-server-side-encryption','server_side_encryption'),('x-amz-server-side-encryption-aws-kms-key-id','ssekms_key_id')]
SSEC=[('x-amz-server-side-encryption-customer-algorithm','sse_customer_algorithm'),('x-amz-server-side-encryption-customer-key-md5','sse_customer_key_md5')]
CTX=[('x-amz-server-side-encryption-context','ssekms_encryption_context')]
RC=[('x-amz-request-charged','request_charged')]
EXP=[('x-amz-expiration','expiration')]
VER=[('x-amz-version-id','version_id')]
LOCK=[('x-amz-object-lock-mode','object_lock_mode'),('x-amz-object-lock-retain-until-date','object_lock_retain_until_date'),('x-amz-object-lock-legal-hold','object_lock_legal_hold_status')]
OBJ=[('x-amz-delete-marker','delete_marker','d'),('accept-ranges','accept_ranges')]+EXP+[('x-amz-restore','restore'),('last-modified','last_modified','t'),
  ('content-length','content_length','d'),('etag','e_tag'),('x-amz-missing-meta','missing_meta','d')]+VER+[('cache-control','cache_control'),
  ('content-disposition','content_disposition'),('content-encoding','content_encoding'),('content-language','content_language'),('content-type','content_type'),
  ('expires','expires'),('x-amz-website-redirect-location','website_redirect_location')]+SSE+SSEC+[('x-amz-storage-class','storage_class')]+RC+[
  ('x-amz-replication-status','replication_status'),('x-amz-mp-parts-count','parts_count','d')]+LOCK
# name, file, headers, status, body
OUT=[
 ('PutObjectOutput','put_object',EXP+[('etag','e_tag')]+SSE+VER+SSEC+CTX+RC,'OK',None),
 ('UploadPartOutput','upload_part',[('etag','e_tag')]+SSE+SSEC+RC,'OK',None),
 ('DeleteObjectOutput','delete_object',[('x-amz-delete-marker','delete_marker','d')]+VER+RC,'NO_CONTENT',None),
 ('CreateBucketOutput','create_bucket',[('location','location')],'OK',None),
 ('HeadBucketOutput','head_bucket',[],'OK',None),
 ('DeleteBucketOutput','delete_bucket',[],'NO_CONTENT',None),
 ('HeadObjectOutput','head_object',OBJ,'OK','meta'),
 ('GetObjectOutput','get_object',OBJ+[('content-range','content_range'),('x-amz-tagging-count','tag_count','d')],'OK','stream'),
 ('CompleteMultipartUploadOutput','complete_multipart_upload',EXP+SSE+VER+RC,'OK','xml'),
 ('CreateMultipartUploadOutput','create_multipart_upload',[('x-amz-abort-date','abort_date'),('x-amz-abort-rule-id','abort_rule_id')]+SSE+SSEC+CTX+RC,'OK','xml'),
 ('CopyObjectOutput','copy_object',EXP+[('x-amz-copy-source-version-id','copy_source_version_id')]+VER+SSE+SSEC+CTX+RC,'OK','xml'),
 ('GetBucketLocationOutput','get_bucket_location',[],'OK','xml'),
 ('DeleteObjectsOutput','delete_objects',RC,'OK','xml'),
 ('ListBucketsOutput','list_buckets',[],'OK','xml'),
 ('ListObjectsOutput','list_objects',[],'OK','xml'),
 ('ListObjectsV2Output','list_objects_v2',[],'OK','xml'),
]
names=sorted({h[0] for o in OUT for h in o[2]}|{'content-type'})
# a number for every name, a function of the name: a mix of a few of its characters
def feats(n,ps): return [ord(n[p]) for p in ps]
minlen=min(map(len,names))
def ev(n,sp):  # sp: list of ('a',k) from start, ('z',k) from the end, ('l',)
    r=0
    for s in sp: r=r*256+(len(n) if s[0]=='l' else ord(n[s[1]]) if s[0]=='a' else ord(n[len(n)-1-s[1]]))
    return r
cand=[('l',)]+[('a',k) for k in range(minlen)]+[('z',k) for k in range(minlen)]
for k in range(1,5):
    sp=next((c for c in itertools.combinations(cand,k) if len({ev(n,c) for n in names})==len(names)),None)
    if sp: break
def hexpr():
    r=None
    for s in sp:
        t='s.len() as int' if s[0]=='l' else 's[%d] as int'%s[1] if s[0]=='a' else 's[s.len() - %d] as int'%(s[1]+1)
        r=t if r is None else '(%s) * 256 + (%s)'%(r,t)
    return r
def nometa(n):
    m='x-amz-meta-'
    if len(n)<len(m): return ''
    i=next(i for i in range(len(m)) if n[i]!=m[i]); return ' assert(%s@[%d] != "x-amz-meta-"@[%d]);'%('"'+n+'"',i,i)
L=[]
w=L.append
w('''// generated by tools/mkops.py; do not edit
pub mod hids {
use super::*;
/// a number that depends on nothing but the name: what tells the names below apart
pub closed spec fn hid(s: Seq<char>) -> int { %s }
pub open spec fn is_meta(s: Seq<char>) -> bool { s.len() >= 11 && forall|i: int| 0 <= i < 11 ==> #[trigger] s[i] == "x-amz-meta-"@[i] }'''%hexpr())
for i,n in enumerate(names):
    w('proof fn lemma_hid_%d() ensures hid("%s"@) == %d, !is_meta("%s"@) { reveal_strlit("%s"); reveal_strlit("x-amz-meta-");%s }'%(i,n,ev(n,sp),n,n,nometa(n)))
w('/// the header names of the responses are different\npub proof fn lemma_hids()\n    ensures')
for n in names: w('        hid("%s"@) == %d, !is_meta("%s"@),'%(n,ev(n,sp),n))
w('{ '+' '.join('lemma_hid_%d();'%i for i in range(len(names)))+' }\n}\npub use hids::{is_meta, hid, lemma_hids};')
def loop(n,fn,v):
    W='h_set_xml_body_w'
    return '''//@ hint before_loopN_
    let ghost wN_ = W_;
//@ loop N_
        invariant itN_.v() == o.V_->Some_0@, 0 <= itN_.i() <= itN_.v().len(), *final(W_.out) == *final(wN_.out),
            xml_evs(W_.out@) == F_(xml_evs(wN_.out@), itN_.v().take(itN_.i())),
        ensures xml_evs(W_.out@) == F_(xml_evs(wN_.out@), o.V_->Some_0@),
        decreases itN_.v().len() - itN_.i(),
//@ hint loopN__body
    proof { assert(itN_.v().take(itN_.i()).drop_last() =~= itN_.v().take(itN_.i() - 1)); }
//@ hint loopN__exit
    proof { assert(itN_.v().take(itN_.i()) =~= itN_.v()); }'''.replace('V_',v).replace('N_',str(n)).replace('W_',W).replace('F_',fn)
EXTRA={'delete_objects':[loop(0,'ev_deleted','deleted'),loop(1,'ev_errors','errors')],
 'list_buckets':[loop(0,'ev_buckets','buckets')],
 'list_objects':[loop(0,'ev_contents','contents'),loop(1,'ev_prefixes','common_prefixes')],
 'list_objects_v2':[loop(0,'ev_contents','contents'),loop(1,'ev_prefixes','common_prefixes')]}
fld=lambda n: n.replace('-','_')
w('/// the values of the header fields the operations set\npub struct HR {')
for n in names: w('    pub %s: Option<Seq<u8>>,'%fld(n))
w('    /// no other header field but metadata\n    pub clean: bool,\n}\npub mod hrl {\n    use super::*;\n    pub open spec fn hrec(m: Map<Seq<char>, Seq<u8>>) -> HR {\n        HR {')
for n in names: w('            %s: hv(m, "%s"@),'%(fld(n),n))
w('            clean: clean(m),')
w('        }\n    }')
w('    pub open spec fn known_name(h: Seq<char>) -> bool { is_meta(h) || '+' || '.join('h == "%s"@'%n for n in names)+' }')
w('''    pub open spec fn clean(m: Map<Seq<char>, Seq<u8>>) -> bool { forall|h: Seq<char>| #[trigger] has(m, h) ==> known_name(h) }
    pub proof fn lemma_clean(m: Map<Seq<char>, Seq<u8>>, n: Seq<char>, v: Option<Seq<char>>)
        requires known_name(n),
        ensures clean(opt_header(m, n, v)) == clean(m),
    {
        if clean(m) { assert forall|h: Seq<char>| #[trigger] has(opt_header(m, n, v), h) implies known_name(h) by { if h != n { assert(has(m, h)); } } }
        if clean(opt_header(m, n, v)) { assert forall|h: Seq<char>| #[trigger] has(m, h) implies known_name(h) by { assert(has(opt_header(m, n, v), h)); } }
    }
    pub proof fn lemma_clean_meta(o: Map<Seq<char>, Seq<u8>>, n: Map<Seq<char>, Seq<u8>>, m: Map<Seq<char>, Seq<char>>)
        requires meta_headers(o, n, m),
        ensures clean(n) == clean(o),
    {
        lemma_hv_meta(o, n, m);
        if clean(o) { assert forall|h: Seq<char>| #[trigger] has(n, h) implies known_name(h) by { if !is_meta(h) { assert(has(o, h)); } } }
        if clean(n) { assert forall|h: Seq<char>| #[trigger] has(o, h) implies known_name(h) by { assert(has(n, h)); } }
    }''')
for n in names:
    w('    pub broadcast proof fn lemma_hr_%s(m: Map<Seq<char>, Seq<u8>>, v: Option<Seq<char>>)\n        ensures hrec(#[trigger] opt_header(m, "%s"@, v)) == (HR { %s: hvo(v, hrec(m).%s), ..hrec(m) }),\n    { hide(clean); lemma_hids(); lemma_clean(m, "%s"@, v); }'%(fld(n),n,fld(n),fld(n),n))
w('    pub broadcast proof fn lemma_hr_empty()\n        ensures #[trigger] hrec(Map::<Seq<char>, Seq<u8>>::empty()) == (HR { '+', '.join('%s: None'%fld(n) for n in names)+', clean: true }),\n    {}')
w('    pub broadcast proof fn lemma_hr_meta(o: Map<Seq<char>, Seq<u8>>, n: Map<Seq<char>, Seq<u8>>, m: Map<Seq<char>, Seq<char>>)\n        requires #[trigger] meta_headers(o, n, m),\n        ensures hrec(n) == hrec(o),\n    { lemma_hids(); lemma_hv_meta(o, n, m); lemma_clean_meta(o, n, m); }')
w('}\npub use hrl::hrec;')
open('/verif/contracts/hids.rs','w').write('\n'.join(L)+'\n')
V=[]
w=V.append
def BR(hs,c): return '\n    broadcast use {'+', '.join('hrl::lemma_hr_%s'%fld(n) for n in [h[0] for h in hs]+['empty','meta'])+', hvl::lemma_hvo};' if c else ''
w(open('/verif/tools/u11_head.vc').read().rstrip('\n'))
def val(h):
    k=h[2] if len(h)>2 else 's'
    return {'s':'os(o.%s)','d':'odisp(o.%s)','t':'odate(os(o.%s))'}[k]%h[1]
for nm,f,hs,st,body in OUT:
    s='out_'+f
    w('//@ text')
    ok=['r.st == StatusCode::%s'%st]
    for h in hs:
        if body=='xml' : pass
        ok.append(('hrec(r.hd@).%s == oenc(%s)'%(fld(h[0]),val(h))) if len(hs)>15 else 'hv(r.hd@, "%s"@) == oenc(%s)'%(h[0],val(h)))
    if body=='xml': ok.append('hv(r.hd@, "content-type"@) == oenc(Some("text/xml"@))'); ok.append('xml_evs(r.bd@) == doc_%s(o)'%f)
    elif body=='stream': ok.append('match o.body { Some(b) => r.bd == stream_body(b), None => r.bd@ == Seq::<u8>::empty() }')
    else: ok.append('r.bd@ == Seq::<u8>::empty()')
    # no other header
    dom=['h == "%s"@'%h[0] for h in hs]+(['h == "content-type"@'] if body=='xml' else [])
    extra='!is_meta(h) && ' if body in('meta','stream') else ''
    if len(hs)>15: ok[1:1+len(hs)]=['hrec(r.hd@) == (HR { %s, clean: true })'%', '.join('%s: %s'%(fld(n),dict((h[0],'oenc(%s)'%val(h)) for h in hs).get(n,'None')) for n in names)]
    elif dom: ok.append('forall|h: Seq<char>| %s#[trigger] has(r.hd@, h) ==> %s'%(extra,' || '.join(dom)))
    else: ok.append('forall|h: Seq<char>| !#[trigger] has(r.hd@, h)')
    if body in('meta','stream'): ok.append('meta_out(r.hd@, omap(o.metadata))')
    w('pub mod op_%s {\nuse super::*;\n    broadcast use {BCAST};'%f)
    w('/// what the response reports of the output\npub open spec fn %s(o: %s, r: Response) -> bool {'%(s,nm))
    for x in ok: w('    &&& '+x)
    w('}')
    good=[]
    for h in hs:
        if len(h)>2 and h[2]=='t': good.append('(o.%s is Some ==> rfc3339(o.%s->Some_0@) is Some)'%(h[1],h[1]))
        good.append('can(%s)'%val(h))
    if body in('meta','stream'): good.append('meta_can(o.metadata)')
    w('/// every value can be a header value\npub open spec fn %s_can(o: %s) -> bool {'%(s,nm))
    for x in good: w('    &&& '+x)
    w('    &&& true\n}')
    err='e.code() is InternalError' + ('' if body=='xml' else ' && !%s_can(self)'%s)
    w('impl S3Output for %s {\n    open spec fn out_ok(self, r: Response) -> bool { %s(self, r) }\n    open spec fn out_err(self, e: S3Error) -> bool { %s }\n    fn try_into_response(self) -> (r: S3Result<Response>) { %s(self) }\n}'%(nm,s,err,s+'_resp'))
    w('//@ fn src/ops/%s.rs %s=S3Output::try_into_response'%(f,nm))
    w('//@ nostrlit\n//@ comb map option')
    w('//@ hide '+' '.join((['hrec'] if len(hs)>15 else [])+([e for e in ['ev_push','ev_opt','ev_elem'] if (e=='ev_elem')==(f=='get_bucket_location') or e=='ev_push'] if body=='xml' else [])+['opt_header','hv','meta_headers','has','hvo','oenc','is_meta','encode_utf8','nometa','meta_out']))
    w('//@ sig pub fn %s_resp(self_: %s) -> (r: S3Result<Response>)'%(s,nm))
    w('//@ hint start\n    proof { axiom_xml_empty(); lemma_hids(); }'+BR(hs,len(hs)>15)+'\n    let ghost o = self_;')
    for x in EXTRA.get(f,[]): w(x)
    w('//@ spec')
    w('    ensures match r { Ok(p) => self_.out_ok(p), Err(e) => self_.out_err(e) },\n//@ text\n}')
import re
bc=re.findall(r'^broadcast use (.*);$',V[0],re.M)
head=re.sub(r'^broadcast use .*;\n','',V[0],flags=re.M)
V[0]=head
open('/verif/contracts/u11_out.vc','w').write('\n'.join(V).replace('BCAST',', '.join(['bc::lemma_empty_chars']+bc))+'\n')
