// P11: the read cache under concurrent use.  P12: concurrent use of separate and of shared, unmodified data sets.
// Built with ThreadSanitizer (races, lock order) and with AddressSanitizer (lifetime of shared objects).
#include "codec.h"
#include <thread>
#include <atomic>
#include <sched.h>
#include <time.h>
#include <sys/syscall.h>
#if defined(__has_feature)
#if __has_feature(thread_sanitizer)
#define TSAN 1
#endif
#if __has_feature(address_sanitizer)
#define ASAN 1
#include <sanitizer/asan_interface.h>
#endif
#endif
#include <sanitizer/allocator_interface.h>
using namespace vf;
using namespace Partio;

// ---------------------------------------------------------------- schedule disturbance and event order -----
static std::atomic<uint32_t> ticket{0};
struct Tls { uint64_t s=0; int mode=0; uint32_t* buf=nullptr; uint32_t n=0,cap=0; bool in=false; };
static thread_local Tls tls;
static inline uint64_t tlsNext(){ tls.s+=0x9e3779b97f4a7c15ULL; return mix(tls.s); }
static inline uint32_t tick(){ return ticket.fetch_add(1,std::memory_order_relaxed); }   // relaxed: creates no ordering that could hide a race
static inline void mark(){ uint32_t t=tick(); if(tls.n<tls.cap) tls.buf[tls.n++]=t; }
static void disturb(int weight){ if(!tls.mode) return; uint64_t x=tlsNext(); unsigned p=x&255; 
    if(tls.mode==1){ if(p<64) sched_yield(); }
    else if(tls.mode==2){ if(p<40) usleep((x>>8)%80); else if(p<90) sched_yield(); }
    else if(tls.mode==3){ if((int)p<2*weight) usleep((x>>8)%600); }
    else { if(p<30) for(volatile int i=0;i<(int)((x>>8)%4000);i=i+1){} } }
extern "C" void vf_perturb(int where){ if(!tls.buf||tls.in) return; tls.in=true; mark(); disturb(where==2?12:where==3?8:4); tls.in=false; }
// allocations and deallocations inside the library are further points of disturbance
static void nap(long us){ struct timespec t{0,us*1000}; syscall(SYS_nanosleep,&t,nullptr); }
static void onAlloc(const volatile void*,size_t){ if(!tls.buf||tls.in||!tls.mode) return; tls.in=true; uint64_t x=tlsNext(); if((x&31)==0) nap((x>>8)%150); else if((x&31)<3) syscall(SYS_sched_yield); tls.in=false; }
static void onFree(const volatile void* p){ onAlloc(p,0); }
static int hooks=__sanitizer_install_malloc_and_free_hooks(onAlloc,onFree);

// runs f(thread) on n threads that start together; returns the order of events
struct Failures { std::string key,msg; bool any=false; };
static uint64_t runThreads(Rng& r,int n,const std::function<void(int)>& f){
    std::vector<std::vector<uint32_t>> bufs(n,std::vector<uint32_t>(40000)); std::vector<uint32_t> len(n); std::vector<Failures> fl(n); std::atomic<int> ready{0}; std::atomic<bool> go{false}; int mode=(int)r.below(5); uint64_t seed=r.next(); std::vector<std::thread> ts;
    for(int i=0;i<n;i++) ts.emplace_back([&,i]{ tls.s=seed+i*977; tls.mode=mode; tls.n=0; tls.cap=(uint32_t)bufs[i].size(); ready.fetch_add(1,std::memory_order_relaxed); while(!go.load(std::memory_order_relaxed)) sched_yield(); tls.buf=bufs[i].data();
        try { f(i); } catch(const Violation& v){ fl[i].key=v.key; fl[i].msg=v.msg; fl[i].any=true; } catch(const std::exception& e){ fl[i].key="exception"; fl[i].msg=e.what(); fl[i].any=true; }
        len[i]=tls.n; tls.buf=nullptr; });
    while(ready.load(std::memory_order_relaxed)<n) sched_yield(); go.store(true,std::memory_order_relaxed); for(auto& t:ts) t.join();
    std::vector<std::pair<uint32_t,int>> all; for(int i=0;i<n;i++) for(uint32_t j=0;j<len[i];j++) all.push_back({bufs[i][j],i}); std::sort(all.begin(),all.end()); uint64_t h=n; uint64_t sw=0; for(size_t i=0;i<all.size();i++){ h=mix(h^all[i].second); if(i&&all[i].second!=all[i-1].second) sw++; } count("events",all.size()); count("context_switches",sw);
    for(auto& x:fl) if(x.any) fail(x.key,x.msg);
    return h; }

// ------------------------------------------------------------------------------------------- P11 -----------
struct Use { int file; ParticlesData* p; uint32_t s,ret,rel,relEnd; int version; };
static std::atomic<int> live{0};
static bool boxCheck(Rng& r,const ParticlesData& p,const Table& t,std::string& why){
    const Attr* a=t.find("position"); if(!a||!t.n) return true; float lo[3],hi[3]; for(int c=0;c<3;c++){ float x=u2f(a->vals[3*r.below(t.n)+c]),y=u2f(a->vals[3*r.below(t.n)+c]); lo[c]=std::min(x,y)-1; hi[c]=std::max(x,y)+1; }
    std::vector<ParticleIndex> got,ref; p.findPoints(lo,hi,got); for(int i=0;i<t.n;i++){ bool in=true; for(int c=0;c<3;c++){ float x=u2f(a->vals[3*i+c]); in&=x>=lo[c]&&x<=hi[c]; } if(in) ref.push_back(i); } std::sort(got.begin(),got.end()); if(got!=ref){ why=fmt("box query gives %zu instead of %zu particles",got.size(),ref.size()); return false; } return true; }

static void cacheCase(Rng& r,long k){
    std::string dir=tmpFile("c"); mkdir(dir.c_str(),0700); struct RM { std::string d; ~RM(){ rmTree(d); } } rm{dir};
    static const char* ex[]={"bgeo","bgeo","pdb","pdc","pdb64","bgeo.gz"}; int nf=r.range(1,3),nt=r.range(2,6),nv=r.range(1,4); int style=(int)r.below(3); // 0: many releases to zero, 1: mixed, 2: long holds
    std::vector<std::string> name(nf); std::vector<std::vector<Table>> ver(nf); std::vector<std::vector<uint32_t>> pub0(nf),pub1(nf);
    for(int f=0;f<nf;f++){ std::string e=ex[r.below(6)]; name[f]=dir+fmt("/f%d.",f)+e; int base=r.range(1,r.chance(1,4)?400:40); for(int v=0;v<nv;v++){ GenOpt o; o.vals=V_SMALL; o.n=base+v; o.maxAttrs=3; o.maxCount=3; o.strs=S_TEXT; Table t; do t= e[0]=='b'? genTable(r,o) : genWritable(format(e).base,r,base+v); while(t.n!=base+v); for(auto& a:t.attrs) if(a.isFloat()) genVals(r,a,t.n,V_SMALL); std::string file=fmt("%s/v%d_%d.%s",dir.c_str(),f,v,e.c_str()); { PM p(make(t)); std::ostringstream es; Partio::write(file.c_str(),*p,false,true,es); VF_CHECK(exists(file),"setup","cannot write %s",file.c_str()); } ver[f].push_back(expectRead(e=="bgeo.gz"?"bgeo":e,t)); if(v==0) rename(file.c_str(),name[f].c_str()); } pub0[f].assign(nv,0); pub1[f].assign(nv,0); }
    std::string junk=dir+"/junk.pdb"; spit(junk,std::string("\x9e\2\0\0\1\0garbage",13)+std::string(60,'\7'));
    std::vector<std::vector<Use>> uses(nt); std::vector<uint64_t> seeds(nt); for(auto& s:seeds) s=r.next(); int steps=r.range(10,40); bool publisher=nv>1&&r.chance(2,3); ticket=1;   // 0 stands for "never"
    uint64_t order=runThreads(r,nt+(publisher?1:0),[&](int me){
        if(me==nt){ // replaces files by newer versions while they are in use
            for(int v=1;v<nv;v++) for(int f=0;f<nf;f++){ usleep(300+tlsNext()%1500); std::string e=name[f].substr(name[f].find('.',dir.size())+1); pub0[f][v]=tick(); rename(fmt("%s/v%d_%d.%s",dir.c_str(),f,v,e.c_str()).c_str(),name[f].c_str()); pub1[f][v]=tick(); } return; }
        Rng q(seeds[me]); std::vector<Use> held; std::vector<Use>& log=uses[me]; log.reserve(steps+4);
        auto rel=[&](size_t i){ Use u=held[i]; held.erase(held.begin()+i); u.rel=tick(); u.p->release(); u.relEnd=tick(); log.push_back(u); };
        try { for(int s=0;s<steps;s++){
            int op=(int)q.below(10); size_t cap=style==0?1:style==1?3:6;
            if(op<6){ int f=(int)q.below(nf); bool sort=q.chance(1,3); Use u; u.file=f; std::ostringstream es; mark(); u.s=tick(); u.p=Partio::readCached(name[f].c_str(),sort,false,es); u.ret=tick(); VF_CHECK(u.p,"P11.null","a cached read of an existing file returned null: %s",es.str().c_str());
                u.version=u.p->numParticles()-ver[f][0].n; VF_CHECK(u.version>=0&&u.version<nv,"P11.content","a cached set of %s has %d particles; the versions of the file have %d to %d",name[f].c_str()+dir.size(),u.p->numParticles(),ver[f][0].n,ver[f][0].n+nv-1); held.push_back(u);
                if(q.chance(1,3)){ std::string d=diff(ver[f][u.version],snapshot(*u.p)); VF_CHECK(d.empty(),"P11.content","a holder sees other content than the file's: %s",d.c_str()); }
                if(sort){ std::string why; VF_CHECK(boxCheck(q,*u.p,ver[f][u.version],why),"P11.query","a sorted cached set: %s",why.c_str()); }
                while(held.size()>cap) rel(q.below(held.size())); }
            else if(op<8){ if(held.empty()) continue; size_t i=q.below(held.size()); if(q.chance(1,2)){ std::string d=diff(ver[held[i].file][held[i].version],snapshot(*held[i].p)); VF_CHECK(d.empty(),"P11.content","before its release a holder sees other content than the file's: %s",d.c_str()); } rel(i); }
            else if(op==8){ std::ostringstream es; int f=(int)q.below(nf); PM p(Partio::read(name[f].c_str(),false,es)); VF_CHECK(p,"P11.uncached","an uncached read fails beside cached ones: %s",es.str().c_str()); for(auto& h:held) VF_CHECK(h.p!=p.get(),"P11.aliased","an uncached read returned a cached set"); }
            else { std::ostringstream es; ParticlesData* p=Partio::readCached(q.chance(1,2)?junk.c_str():(dir+"/none.bgeo").c_str(),q.chance(1,2),false,es); if(p) p->release(); } }
        } catch(...){ while(!held.empty()) rel(0); throw; }
        while(!held.empty()){ if(q.chance(1,3)) { std::string d=diff(ver[held[0].file][held[0].version],snapshot(*held[0].p)); if(!d.empty()){ std::string m=d; while(!held.empty()) rel(0); fail("P11.content","at the end a holder sees other content than the file's: "+m); } } rel(0); } });
    // offline: the recorded history
    std::vector<Use> all; for(auto& u:uses) all.insert(all.end(),u.begin(),u.end()); std::sort(all.begin(),all.end(),[](const Use& a,const Use& b){ return a.ret<b.ret; }); uint64_t overlaps=0,shared=0;
    for(size_t i=0;i<all.size();i++){ bool alone=true; for(size_t j=0;j<all.size();j++) if(i!=j){ const Use &a=all[i],&b=all[j];
            if(j>i&&b.ret<a.rel){ overlaps++; // both hold at the time b.ret
                if(a.file==b.file){ shared++; VF_CHECK(a.p==b.p,"P11.twolive","two live objects for one file: %p held during (%u,%u), %p during (%u,%u)",(void*)a.p,a.ret,a.rel,(void*)b.p,b.ret,b.rel); }
                else VF_CHECK(a.p!=b.p,"P11.mixed","one object for two files"); }
            if(a.file==b.file&&b.s<a.ret&&a.s<b.relEnd) alone=false; }
        const Use& u=all[i]; int lo=0,hi=0; for(int v=1;v<nv;v++){ if(pub1[u.file][v]&&pub1[u.file][v]<u.s) lo=v; if(pub0[u.file][v]&&pub0[u.file][v]<u.ret) hi=v; }
        VF_CHECK(u.version<=hi,"P11.future","version %d returned before it was written (latest %d)",u.version,hi);
        if(alone){ count("fresh_loads_checked"); VF_CHECK(u.version>=lo,"P11.stale","a cached read that overlaps no use of the file returned version %d although version %d was in place before it started",u.version,lo); } }
    evaluated(all.size()); count("uses",all.size()); count("overlapping_holds",overlaps); count("shared_holds",shared); distinct(order); count(fmt("threads.%d",nt)); if(publisher) count("histories_with_replacements");
#ifdef ASAN
    { std::set<ParticlesData*> seen; for(auto& u:all) if(seen.insert(u.p).second) VF_CHECK(getenv("VERIF_REUSE")||__asan_address_is_poisoned(u.p),"P11.notfreed","an object is still allocated after all references were released"); count("objects_freed",seen.size()); }
#endif
    // nothing stays cached
    for(int f=0;f<nf;f++){ std::string e=name[f].substr(name[f].find('.',dir.size())+1); std::string be=e=="bgeo.gz"?"bgeo":e; Table t=genWritable(format(be).base,r,ver[f][0].n+nv+3); for(auto& a:t.attrs) if(a.isFloat()) genVals(r,a,t.n,V_SMALL); { PM p(make(t)); std::ostringstream es; Partio::write(name[f].c_str(),*p,false,false,es); } std::ostringstream es; PD p(Partio::readCached(name[f].c_str(),false,false,es)); VF_CHECK(p,"P11.null","cannot read after the threads are done"); std::string d=diff(expectRead(be,t),snapshot(*p)); VF_CHECK(d.empty(),"P11.stays","after all releases the cache still answers with the old content: %s",d.c_str()); count("reloads"); }
    if(k<2) sample(fmt("%d threads, %d files, %d versions, %zu cached uses, %llu overlapping holds of one file",nt,nf,nv,all.size(),(unsigned long long)shared)); }

// many repetitions of one small history must not change the number of live allocations
static size_t liveBytes(){ return __sanitizer_get_current_allocated_bytes(); }
static Reg r11("P11",[](Rng& r,long k){
    if(k%5!=4){ cacheCase(r,k); return; }
    std::string dir=tmpFile("b"); mkdir(dir.c_str(),0700); struct RM { std::string d; ~RM(){ rmTree(d); } } rm{dir}; std::string f=dir+"/a.bgeo"; GenOpt o; o.n=3000; o.maxAttrs=4; Table t=genTable(r,o); { PM p(make(t)); std::ostringstream es; Partio::write(f.c_str(),*p,false,false,es); }
    // the data of one set is far larger than what thread bookkeeping can account for: one lost set per round shows
    int nt=r.range(2,6); size_t bal[4]; size_t one; { size_t b=liveBytes(); PM p(Partio::read(f.c_str(),false)); one=liveBytes()-b; }
    for(int round=0;round<4;round++){ size_t before=liveBytes(); distinct(runThreads(r,nt,[&](int me){ Rng q(tls.s+me); for(int i=0;i<12;i++){ std::ostringstream es; ParticlesData* p=Partio::readCached(f.c_str(),q.chance(1,3),false,es); VF_CHECK(p,"P11.null","null for an existing file"); if(q.chance(1,4)){ ParticlesData* z=Partio::readCached(f.c_str(),false,false,es); bool same=z==p; z->release(); if(!same){ p->release(); fail("P11.twolive","a file that is held was returned as another object"); } } p->release(); } })); size_t after=liveBytes(); bal[round]= after>before?after-before:0; evaluated(nt*12); count("balance_rounds"); }
    if(one>20000) VF_CHECK(!(bal[1]>one/2&&bal[2]>one/2&&bal[3]>one/2),"P11.leak","each round of cached reads and releases leaves %zu, %zu, %zu bytes allocated (one set takes %zu)",bal[1],bal[2],bal[3],one); });

// ------------------------------------------------------------------------------------------- P12 -----------
typedef std::vector<std::pair<std::string,uint64_t>> Trace;
static std::string scrub(std::string s,const std::string& dir){ size_t p; while((p=s.find(dir))!=std::string::npos) s.replace(p,dir.size(),"D"); return s; }
static void note(Trace& tr,const std::string& what,uint64_t h){ tr.push_back({what,h}); mark(); }
static uint64_t queryDigest(Rng& q,const ParticlesData& p,const Table& t){ const Attr* a=t.find("position"); uint64_t h=5; if(!a||a->type!=T_VECTOR||!t.n) return h; for(int i=0;i<3;i++){ float lo[3],hi[3],ce[3]; for(int c=0;c<3;c++){ float x=u2f(a->vals[3*q.below(t.n)+c]),y=u2f(a->vals[3*q.below(t.n)+c]); lo[c]=std::min(x,y); hi[c]=std::max(x,y); ce[c]=x; }
        std::vector<ParticleIndex> pts; p.findPoints(lo,hi,pts); std::sort(pts.begin(),pts.end()); h=hashBytes(pts.data(),pts.size()*sizeof(pts[0]),h); std::vector<float> d; pts.clear(); p.findNPoints(ce,(int)q.range(1,9),100,pts,d); std::sort(d.begin(),d.end()); h=hashBytes(d.data(),d.size()*4,h); ParticleIndex ids[9]; float dd[9],fr=0; int n=p.findNPoints(ce,9,50,ids,dd,&fr); std::sort(dd,dd+n); h=hashBytes(dd,n*4,h); } return h; }
static uint64_t gatherDigest(Rng& q,const ParticlesData& p,const Table& t){ uint64_t h=3; if(!t.n) return h; for(int i=0;i<p.numAttributes();i++){ ParticleAttribute a; if(!p.attributeInfo(i,a)) continue; int n=(int)q.range(1,std::min(20,t.n)); std::vector<ParticleIndex> ix(n); for(auto& x:ix) x=q.below(t.n); if(a.type==FLOAT||a.type==VECTOR){ std::vector<float> v(n*a.count); const_cast<ParticlesData&>(p).data<float>(a,n,ix.data(),true,v.data()); h=hashBytes(v.data(),v.size()*4,h); } else if(a.type==INT||a.type==INDEXEDSTR){ std::vector<int> v(n*a.count); const_cast<ParticlesData&>(p).data<int>(a,n,ix.data(),true,v.data()); h=hashBytes(v.data(),v.size()*4,h); } std::vector<float> f(n*a.count); p.dataAsFloat(a,n,ix.data(),true,f.data()); h=hashBytes(f.data(),f.size()*4,h);
        if(a.type==INDEXEDSTR){ const std::vector<std::string>& s=p.indexedStrs(a); for(size_t j=0;j<s.size()&&j<5;j++) h=mix(h^(uint64_t)p.lookupIndexedStr(a,s[j].c_str())); h=mix(h^(uint64_t)(int64_t)p.lookupIndexedStr(a,"not there")); } } 
    for(int i=0;i<p.numFixedAttributes();i++){ FixedAttribute a; if(p.fixedAttributeInfo(i,a)&&a.type==INDEXEDSTR){ const std::vector<std::string>& s=p.fixedIndexedStrs(a); for(size_t j=0;j<s.size()&&j<5;j++) h=mix(h^(uint64_t)p.lookupFixedIndexedStr(a,s[j].c_str())); } } return h; }
static uint64_t iterDigest(const ParticlesData& p){ uint64_t h=11; int n=p.numAttributes(); std::vector<ParticleAttribute> at; for(int i=0;i<n&&i<3;i++){ ParticleAttribute a; if(p.attributeInfo(i,a)) at.push_back(a); } std::vector<ParticleAccessor> acc; acc.reserve(at.size()); for(auto& a:at) acc.emplace_back(a); ParticlesDataMutable::const_iterator it=p.begin(); for(auto& a:acc) it.addAccessor(a); int c=0; for(;it!=p.end()&&c<2000;++it,++c) for(size_t i=0;i<at.size();i++){ const char* d=(const char*)acc[i].raw<float>(it); h=hashBytes(d,at[i].count*4,h); } return mix(h^c); }
static uint64_t tableDigest(const Table& t){ return hashTable(t); }
// printing from several threads: the text may interleave, the library's own state may not
struct Mute { NullBuf b; std::streambuf* old; Mute(){ old=std::cout.rdbuf(&b); } ~Mute(){ std::cout.rdbuf(old); } };
// everything here touches only the thread's own data sets and files
static void ownScript(uint64_t seed,const std::string& dir,Trace& tr,int steps){
    static const std::vector<std::string> rd{"bgeo","geo","pdb","pdb32","pdb64","pda","ptc","ptf","pdc","prt","bin","mc","pts","bhclassic","hclassic"}, wr{"bgeo","geo","pdb","pdb32","pdb64","pda","ptc","ptf","pdc","prt","bin","rib","bhclassic","hclassic"};
    Rng q(seed); std::vector<std::pair<PM,Table>> own; for(int i=q.range(0,3);i-->0;){ GenOpt o; o.vals=V_SMALL; o.bigN=350; o.maxAttrs=4; Table t=genTable(q,o); PM p(make(t,&q,0,q.chance(1,3))); own.emplace_back(std::move(p),t); }
    for(int s=0;s<steps;s++){ int op=(int)q.below(10); 
        switch(op){
        case 0: { GenOpt o; o.vals=V_SMALL; o.bigN=350; o.maxAttrs=4; Table t=genTable(q,o); bool il=q.chance(1,3); PM p(make(t,&q,0,il)); note(tr,"create",tableDigest(snapshot(*p))); own.emplace_back(std::move(p),t); break; }
        case 1: { std::string e=q.pick(wr); bool gz=q.chance(1,3)&&format(e).gz; Table t=genWritable(format(e).base,q,q.range(1,60)); PM p(make(t)); std::string f=dir+"/w."+e+(gz?".gz":""); std::ostringstream es; Partio::write(f.c_str(),*p,gz,true,es); note(tr,"write "+e,hashStr(slurp(f))); note(tr,"write diag "+e,hashStr(scrub(es.str(),dir))); if(format(e).rd){ std::ostringstream e2; PM z(Partio::read(f.c_str(),true,e2)); note(tr,"read back "+e,z?tableDigest(snapshot(*z)):0); } break; }
        case 2: case 3: { std::string e=q.pick(rd); Table t; std::string b=encode(e,q,t); if(q.chance(1,4)&&format(e).gz) b=gzipForeign(q,b); std::string f=dir+"/r."+e; spit(f,b); std::ostringstream es; if(op==2){ PM p(Partio::read(f.c_str(),true,es)); note(tr,"read "+e,p?tableDigest(snapshot(*p)):0); if(p&&q.chance(1,2)) own.emplace_back(std::move(p),Table()); } else { PI p(Partio::readHeaders(f.c_str(),true,es)); note(tr,"headers "+e,p?tableDigest(schemaOf(*p)):0); } note(tr,"diag "+e,hashStr(scrub(es.str(),dir))); break; }
        case 4: { if(own.empty()) break; size_t i=q.below(own.size()); PM c(Partio::clone(*own[i].first,q.chance(3,4))); note(tr,"clone",tableDigest(snapshot(*c))); if(q.chance(1,3)){ Partio::print(c.get()); note(tr,"print",tableDigest(snapshot(*c))); } break; }
        case 5: { if(own.empty()) break; own.erase(own.begin()+q.below(own.size())); note(tr,"release",1); break; }
        case 6: { GenOpt o; o.vals=V_SMALL; o.n=q.range(0,150); o.maxAttrs=1; Table t=genTable(q,o); PM p(make(t,&q,0,q.chance(1,3))); p->sort(); note(tr,"sort and query",queryDigest(q,*p,t)); note(tr,"gather",gatherDigest(q,*p,t)); note(tr,"iterate",iterDigest(*p)); break; }
        case 7: { if(own.size()<2) break; size_t i=q.below(own.size()),j=q.below(own.size()); if(i==j) break; Partio::merge(*own[i].first,*own[j].first,q.chance(1,2)?"id":""); if(own[i].first->numParticles()>3000){ own.erase(own.begin()+i); break; } note(tr,"merge",tableDigest(snapshot(*own[i].first))); break; }
        case 8: { std::ostringstream es; std::string e=q.pick(rd),f=dir+"/bad."+e; Table t; std::string b=encode(e,q,t); if(!b.empty()&&q.chance(2,3)) b.resize(q.below(b.size())); else if(!b.empty()) b[q.below(std::min<size_t>(b.size(),8))]^=0x5a; spit(f,b); if(q.chance(1,5)) f=dir+"/missing."+e; if(q.chance(1,8)) f=dir+"/unknown.zzz"; PI h(Partio::readHeaders(f.c_str(),true,es)); note(tr,"damaged headers "+e,h?1:0); break; }
        default: { GenOpt o; o.vals=V_SMALL; o.n=q.range(1,12); o.maxAttrs=2; o.fixed=false; Table t=genTable(q,o); Attr* id=t.find("id"); if(!id){ Attr a; a.name="id"; a.type=T_INT; a.count=1; for(int i=0;i<t.n;i++) a.vals.push_back(i*7); t.attrs.push_back(a); } PM p(make(t)); ParticleAttribute a=p->addAttribute("strs of mine",INDEXEDSTR,1); for(int i=0;i<t.n;i++) p->dataWrite<int>(a,i)[0]=i%6; for(int i=0;i<6;i++) p->registerIndexedStr(a,genString(q,S_TEXT).c_str()); note(tr,"strings",tableDigest(snapshot(*p))); PM c(Partio::computeClustering(p.get(),q.range(1,3),q.real(0,20),q.real(0,1),q.range(1,3),q.real(0.01,0.1))); note(tr,"cluster",c?(uint64_t)c->numParticles()*64+c->numAttributes():0); break; }
        } } }
// everything here only reads the shared set
static void sharedScript(uint64_t seed,const std::string& dir,const ParticlesData& p,const Table& t,bool sorted,Trace& tr,int steps){
    static const std::vector<std::string> wr{"bgeo","geo","pdb","pdb32","pdb64","pda","ptc","pdc","prt","rib"}; Rng q(seed);
    for(int s=0;s<steps;s++) switch((int)q.below(9)){
        case 8: { Partio::print(&p); note(tr,"print",p.numParticles()); break; }
        case 0: if(sorted){ note(tr,"query",queryDigest(q,p,t)); } break;
        case 1: note(tr,"gather",gatherDigest(q,p,t)); break;
        case 2: note(tr,"iterate",iterDigest(p)); break;
        case 3: note(tr,"snapshot",tableDigest(snapshot(p))); break;
        case 4: { PM c(Partio::clone(p,q.chance(3,4))); note(tr,"clone",tableDigest(snapshot(*c))); break; }
        case 5: { std::string e=q.pick(wr),f=dir+"/s."+e; std::ostringstream es; Partio::write(f.c_str(),p,q.chance(1,3),true,es); note(tr,"write "+e,exists(f)?hashStr(slurp(f)):0); unlink(f.c_str()); break; }
        case 6: { PM b(q.chance(1,2)?Partio::create():Partio::createInterleave()); Partio::merge(*b,p,q.chance(1,2)?"id":""); note(tr,"merge",tableDigest(snapshot(*b))); break; }
        default: { ParticleAttribute a; FixedAttribute f; uint64_t h=p.numParticles(); for(int i=0;i<p.numAttributes();i++){ p.attributeInfo(i,a); ParticleAttribute b; h=mix(h^(uint64_t)p.attributeInfo(a.name.c_str(),b)^b.attributeIndex); } h=mix(h^(uint64_t)p.attributeInfo("nope",a)); h=mix(h^(uint64_t)p.fixedAttributeInfo("nope",f)); note(tr,"lookup",h); } } }
static void compareTraces(const Trace& a,const Trace& b,int me,const char* kind){ VF_CHECK(a.size()==b.size(),"P12.result","thread %d (%s) did %zu things beside other threads and %zu alone",me,kind,a.size(),b.size()); for(size_t i=0;i<a.size();i++) VF_CHECK(a[i]==b[i],std::string("P12.result.")+a[i].first,"thread %d (%s), operation %zu '%s': the result beside other threads differs from the result alone ('%s')",me,kind,i,a[i].first.c_str(),b[i].first.c_str()); }

static Reg r12("P12",[](Rng& r,long k){
    Mute mute;
    std::string root=tmpFile("t"); mkdir(root.c_str(),0700); struct RM { std::string d; ~RM(){ rmTree(d); } } rm{root}; int nt=r.range(2,6); bool shared=k%2==1; bool same=r.chance(1,4); std::vector<uint64_t> seeds(nt); uint64_t s0=r.next(); for(auto& s:seeds) s= same? s0 : r.next(); int steps=r.range(4,14); std::vector<Trace> together(nt),alone(nt); std::vector<std::string> dirs(nt); for(int i=0;i<nt;i++){ dirs[i]=root+fmt("/%d",i); mkdir(dirs[i].c_str(),0700); }
    if(!shared){ // the very first use of the library in this process may happen on several threads at once
        distinct(runThreads(r,nt,[&](int i){ ownScript(seeds[i],dirs[i],together[i],steps); })); for(int i=0;i<nt;i++){ rmTree(dirs[i]); mkdir(dirs[i].c_str(),0700); ownScript(seeds[i],dirs[i],alone[i],steps); } }
    else { GenOpt o; o.vals=V_SMALL; o.bigN=320; o.maxAttrs=5; Table t=genTable(r,o); int kind=(int)r.below(3); bool sorted=r.chance(2,3)&&kind!=2; std::unique_ptr<PM> own; PD cached; const ParticlesData* p;
        if(kind==2){ std::string f=root+"/c.bgeo"; { PM w(make(t)); std::ostringstream es; Partio::write(f.c_str(),*w,false,false,es); } std::ostringstream es; sorted=r.chance(1,2); cached.reset(Partio::readCached(f.c_str(),sorted,false,es)); VF_CHECK(cached,"P12.setup","cannot read"); p=cached.get(); t=expectRead("bgeo",t); }
        else { own.reset(new PM(make(t,&r,0,kind==1))); if(sorted) (*own)->sort(); p=own->get(); }
        distinct(runThreads(r,nt,[&](int i){ sharedScript(seeds[i],dirs[i],*p,t,sorted,together[i],steps); })); for(int i=0;i<nt;i++) sharedScript(seeds[i],dirs[i],*p,t,sorted,alone[i],steps); std::string d=diff(t,snapshot(*p)); VF_CHECK(d.empty(),"P12.modified","reading threads changed the shared set: %s",d.c_str()); count(kind==0?"shared.simple":kind==1?"shared.interleaved":"shared.cached"); }
    for(int i=0;i<nt;i++){ compareTraces(together[i],alone[i],i,shared?"shared set":"own sets"); evaluated(together[i].size()); for(auto& x:together[i]) count((shared?"shared op: ":"own op: ")+x.first.substr(0,x.first.find(' '))); } count(fmt("threads.%d",nt)); if(k==ctx().from) count("first_use_in_process"); if(k<2&&!together[0].empty()) sample(fmt("%d threads, %s, %d steps, thread 0 starts with '%s'",nt,shared?"one shared set":"own sets",steps,together[0][0].first.c_str())); });

int main(int argc,char** argv){ hugeSets()=false; return runMain(argc,argv); }
