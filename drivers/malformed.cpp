// P08: hostile bytes through every reader.  P30: allocation and descriptor balance around every call.
#include "codec.h"
#include <core/ParticleHeaders.h>
#include <ZIP.h>
#include <sanitizer/allocator_interface.h>
#include <sanitizer/common_interface_defs.h>
#include <sanitizer/asan_interface.h>
#include <sys/resource.h>
#include <time.h>
using namespace vf;

// operator new throws when the (capped) allocator refuses, as it does without a sanitizer
void* operator new(size_t n){ void* p=malloc(n?n:1); if(!p) throw std::bad_alloc(); return p; }
void* operator new[](size_t n){ void* p=malloc(n?n:1); if(!p) throw std::bad_alloc(); return p; }
void operator delete(void* p) noexcept { free(p); }
void operator delete[](void* p) noexcept { free(p); }
void operator delete(void* p,size_t) noexcept { free(p); }
void operator delete[](void* p,size_t) noexcept { free(p); }

// ------------------------------------------------------------------------- mutators ---------
static uint64_t interesting(Rng& r){
    static const uint64_t v[]={0,1,2,3,4,5,7,8,16,31,32,44,56,127,128,255,256,512,1000,4095,4096,32767,32768,65535,65536,0xffffff,0x1000000,0x10000000,0x1fffffff,0x20000000,0x3fffffff,0x40000000,0x55555556,0x7ffffffe,0x7fffffff,0x80000000,0x80000001,0xfffffff0,0xfffffffe,0xffffffff,0x100000000ull,0x155555556ull,0x4000000000000000ull,0x7fffffffffffffffull,0x8000000000000000ull,0xffffffffffffffffull,0x7ff0000000000000ull,0x7ff8000000000000ull,0x41e0000000000000ull,0xc000000000000000ull,0x7f800000,0x7fc00000,0xff800000};
    uint64_t x=v[r.below(sizeof(v)/sizeof(*v))]; if(r.chance(1,6)) x+=r.range(-3,3); return x; }
static void putField(Rng& r,std::string& b,size_t at){ static const int w[]={1,2,2,4,4,4,8}; int n=w[r.below(7)]; if(at+n>b.size()) return; uint64_t v=r.chance(3,4)?interesting(r):r.next()>>r.below(64); bool be=r.chance(1,2); for(int i=0;i<n;i++) b[at+(be?n-1-i:i)]=(char)(v>>(8*i)); }
static size_t where(Rng& r,const std::string& b){ if(b.empty()) return 0; switch(r.below(4)){ case 0: return r.below(std::min<size_t>(b.size(),48)); case 1: return r.below(std::min<size_t>(b.size(),400)); case 2: return b.size()-1-r.below(std::min<size_t>(b.size(),40)); default: return r.below(b.size()); } }
static bool texty(const std::string& b){ int n=0,t=0; for(size_t i=0;i<b.size()&&i<300;i++){ unsigned char c=b[i]; n++; if(c=='\n'||c=='\t'||c=='\r'||(c>=32&&c<127)) t++; } return n&&t*100>n*95; }
static std::string badToken(Rng& r){ static const char* s[]={"-1","0","1","2","3","99999999999999999999","2147483647","2147483648","-2147483648","4294967295","4294967296","1e999","-1e-999","nan","inf","-inf","0x10","1e","--","+","(",")","[0]","\"","\"\\","\\","\"unclosed","","NPoints","NPointAttrib","PointAttrib","TYPES","ATTRIBUTES","NUMBER_OF_PARTICLES:","BEGIN","DATA","V","R","I","X","float","vector","int","index","1.5","100000","16","4096"}; if(r.chance(1,8)) return std::string(r.range(1,r.chance(1,4)?70000:300),(char)r.range(33,126)); if(r.chance(1,3)) return std::to_string((long long)interesting(r)); return s[r.below(sizeof(s)/sizeof(*s))]; }
static void tokenMutate(Rng& r,std::string& b){ // replace, drop, repeat or insert a white-space separated token
    size_t at=where(r,b),p=at; while(p>0&&!isspace((unsigned char)b[p-1])) p--; size_t e=p; while(e<b.size()&&!isspace((unsigned char)b[e])) e++;
    switch(r.below(5)){ case 0: case 1: b.replace(p,e-p,badToken(r)); break; case 2: b.erase(p,std::min(b.size(),e+1)-p); break; case 3: b.insert(p,b.substr(p,e-p)+" "); break; default: b.insert(p,badToken(r)+(r.chance(1,2)?" ":"\n")); } }
static void lineMutate(Rng& r,std::string& b){ size_t at=where(r,b),p=at; while(p>0&&b[p-1]!='\n') p--; size_t e=b.find('\n',p); e= e==std::string::npos? b.size(): e+1; std::string l=b.substr(p,e-p); switch(r.below(4)){ case 0: b.erase(p,e-p); break; case 1: b.insert(p,l); break; case 2: b.insert(p,badToken(r)+"\n"); break; default: if(!l.empty()){ l.insert(r.below(l.size()),std::string(r.range(1,9000),r.chance(1,2)?' ':'7')); b.replace(p,e-p,l); } } }
static const char* mutate(Rng& r,std::string& b,const std::string& other){
    switch(r.below(b.size()<2?1:11)){
        case 0: { size_t n=r.range(1,40); std::string j; while(n--) j+=(char)r.below(256); b+=j; return "append"; }
        case 1: case 2: { b.resize(r.chance(1,2)?where(r,b):r.below(b.size())); return "truncate"; }
        case 3: case 4: case 5: { int n=r.chance(2,3)?1:r.range(2,6); while(n--) putField(r,b,where(r,b)); return "field"; }
        case 6: { int n=r.chance(1,2)?1:r.range(2,30); while(n--) b[where(r,b)]^=(char)(1<<r.below(8)); return "bitflip"; }
        case 7: { size_t a=where(r,b),n=std::min<size_t>(b.size()-a,1+r.below(r.chance(1,2)?8:200)); b.erase(a,n); return "delete"; }
        case 8: { size_t a=where(r,b),n=std::min<size_t>(b.size()-a,1+r.below(64)); std::string s=b.substr(a,n); int k=r.range(1,4); while(k--) b.insert(where(r,b),s); return "duplicate"; }
        case 9: { if(other.empty()) return "none"; size_t a=r.below(b.size()),o=r.below(other.size()); b=b.substr(0,a)+other.substr(o,1+r.below(other.size()-o)); return "splice"; }
        default: if(texty(b)){ int n=r.range(1,3); while(n--&&!b.empty()) r.chance(2,3)?tokenMutate(r,b):lineMutate(r,b); return "token"; } for(int n=r.range(1,4);n--;) putField(r,b,4*r.below(1+std::min<size_t>(b.size()/4,40))); return "aligned"; }
}
static const std::vector<std::string>& exts(){ static auto e=extsOf([](const Format& f){ return f.rd; }); return e; }
// magic numbers alone followed by noise reach the header parsers of every format
static std::string noise(Rng& r,const std::string& base){
    std::string m; if(base=="bgeo") m=std::string("BgeoV\0\0\0\5",9); else if(base=="geo") m="PGEOMETRY V5\n"; else if(base=="pdb") m=std::string("\x9e\2\0\0\1\0",6); else if(base=="pda") m="ATTRIBUTES\n"; else if(base=="ptc") m="pptc"; else if(base=="pdc") m="PDC \0\0\0\1"; else if(base=="prt") m=std::string("\xc0PRT\r\n\x1a\n",8); else if(base=="bin") m=std::string("\xda\xba\xfa\0",4); else if(base=="mc") m="FOR4"; 
    if(r.chance(1,10)) m.clear(); size_t n= r.chance(1,8)? 0 : r.below(r.chance(1,5)?3000:200); bool small=r.chance(1,2); while(n--) m+= small? (char)(r.chance(2,3)?0:r.below(5)) : (char)r.below(256); return m; }
struct Hostile { std::string ext,bytes,desc; };
static std::string validBytes(Rng& r,const std::string& ext){
    const Format& f=format(ext); Table t;
    if(f.wr && r.chance(1,3)){ t=genWritable(f.base,r,r.range(0,12)); PM p(make(t)); std::string fn=tmpFile("w."+ext); std::ostringstream es; Partio::write(fn.c_str(),*p,false,true,es); std::string b=slurp(fn); unlink(fn.c_str()); return b; }
    for(int i=0;i<6;i++){ std::string b=encode(ext,r,t); if(b.size()<20000) return b; } return encode(ext,r,t); }
static Hostile hostile(Rng& r,long k){
    Hostile h; h.ext=exts()[k%exts().size()]; const Format& f=format(h.ext);
    if(r.chance(1,12)){ h.bytes=noise(r,f.base); h.desc="noise"; }
    else { std::string src= r.chance(1,15)? r.pick(exts()) : h.ext; h.bytes=validBytes(r,src); h.desc= src==h.ext?"":"content of "+src+", "; }
    if(h.bytes.size()>60000) h.bytes.resize(60000);
    return h; }
static std::string wrap(Rng& r,const std::string& b,std::string& d){ std::string g=gzipForeign(r,b); d+="+gzip";
    switch(r.below(6)){ case 0: g.resize(r.below(g.size())); d+="+truncated"; break; case 1: { int n=r.range(1,6); while(n--) g[r.below(g.size())]^=(char)(1<<r.below(8)); d+="+bitflip"; break; } case 2: { std::string o; mutate(r,g,b); d+="+mutated"; break; } case 3: if(g.size()>3){ g[3]=(char)r.below(256); d+="+flags"; } break; case 4: g+=gzipForeign(r,b); d+="+second member"; break; default: break; } return g; }

// ------------------------------------------------------------------------- inspection -------
static volatile uint64_t sink;
static void inspectInfo(const ParticlesInfo& p){ Table t=schemaOf(p); uint64_t h=hashTable(t); ParticleAttribute a; FixedAttribute fa; for(auto& x:t.attrs) h+=p.attributeInfo(x.name.c_str(),a); for(auto& x:t.fixed) h+=p.fixedAttributeInfo(x.name.c_str(),fa); h+=p.attributeInfo("nosuch",a); sink+=h;
    int na=(int)t.attrs.size(),nf=(int)t.fixed.size(); for(int i:{-1,INT_MIN,INT_MAX}) VF_CHECK(!p.attributeInfo(i,a)&&!p.fixedAttributeInfo(i,fa),"P08.index","index %d is accepted",i); for(int d=0;d<3;d++) VF_CHECK(!p.attributeInfo(na+d,a)&&!p.fixedAttributeInfo(nf+d,fa),"P08.index","an index %d past the last attribute is accepted (%d attributes, %d fixed)",d,na,nf); }
static void inspect(ParticlesDataMutable& p,Rng& r){
    inspectInfo(p); VF_CHECK(p.numParticles()>=0&&p.numAttributes()>=0&&p.numFixedAttributes()>=0,"P08.negative","negative counts: %d particles, %d attributes",p.numParticles(),p.numAttributes());
    if(p.numParticles()>30000000){ count("huge_empty_sets"); return; } // only sets whose attributes have no components get that far
    Table t=snapshot(p); sink+=hashTable(t); std::vector<Partio::ParticleAccessor> acc; 
    for(int i=0;i<p.numAttributes();i++){ ParticleAttribute a; p.attributeInfo(i,a); VF_CHECK(a.count>=0&&a.type>=T_NONE&&a.type<=T_STR,"P08.attr","attribute '%s' has type %d and width %d",shortStr(a.name).c_str(),a.type,a.count); if(a.type==T_STR){ for(auto& s:p.indexedStrs(a)) sink+=p.lookupIndexedStr(a,s.c_str()); sink+=p.lookupIndexedStr(a,"nosuch"); }
        if(t.n>0&&a.count>0&&a.count<1000){ ParticleIndex idx[3]={0,(ParticleIndex)(t.n-1),(ParticleIndex)r.below(t.n)}; std::vector<float> v(3*a.count); p.dataAsFloat(a,3,idx,false,v.data()); sink+=hashBytes(v.data(),v.size()*4); } }
    for(int i=0;i<p.numFixedAttributes();i++){ FixedAttribute a; p.fixedAttributeInfo(i,a); if(a.type==T_STR) for(auto& s:p.fixedIndexedStrs(a)) sink+=p.lookupFixedIndexedStr(a,s.c_str()); }
    long n=0; ParticleAttribute a0; bool h0=p.attributeInfo(0,a0)&&a0.count>0; Partio::ParticleAccessor ac(a0); const ParticlesData& cp=p; ParticlesData::const_iterator it=cp.begin(); if(h0) it.addAccessor(ac); for(;it!=cp.end();++it){ if(h0) sink+=*(const uint32_t*)ac.raw<char>(it); n++; } VF_CHECK(n==t.n,"P08.iter","iteration visits %ld of %d particles",n,t.n);
    p.addParticle(); VF_CHECK(p.numParticles()==t.n+1,"P08.grow","adding a particle gives %d",p.numParticles()); }

static double cpu(){ timespec t; clock_gettime(CLOCK_PROCESS_CPUTIME_ID,&t); return t.tv_sec+1e-9*t.tv_nsec; }
static void readHostile(Rng& r,const std::string& ext,const std::string& b,const std::string& desc,bool gzname){
    std::string fn=tmpFile(fmt("h.%s%s",ext.c_str(),gzname?".gz":"")); spit(fn,b); const Format& f=format(ext); evaluated(); distinct(hashBytes(b.data(),b.size(),hashStr(ext))); 
    double t0=cpu(); bool verbose=r.chance(1,2); std::ostringstream es; int mode=(int)r.below(4);
    try{
        if(mode!=1){ PM p(Partio::read(fn.c_str(),verbose,es)); count(std::string(p?"accepted.":"refused.")+f.base); if(p) inspect(*p,r); }
        if(mode!=0){ PI h(Partio::readHeaders(fn.c_str(),verbose,es)); if(h) inspectInfo(*h); count(h?"headers_accepted":"headers_refused"); }
        if(mode==3){ PD c(Partio::readCached(fn.c_str(),false,verbose,es)); if(c) inspectInfo(*c); }
    } catch(const std::bad_alloc&){ count("memory_exhausted"); }
    double dt=cpu()-t0; if(dt>4) count("slow_reads"); unlink(fn.c_str()); (void)desc; }

static Reg r8("P08",[](Rng& r,long k){ hugeSets()=false;
    Hostile h=hostile(r,k); const Format& f=format(h.ext); std::string other; if(r.chance(1,3)){ other=validBytes(r,r.chance(2,3)?h.ext:r.pick(exts())); }
    if(k%7==0 && h.bytes.size()<1500 && !h.bytes.empty()){ // every truncation of a small file
        count("all_truncations"); size_t step=1+h.bytes.size()/400; for(size_t i=r.below(step);i<=h.bytes.size();i+=step){ count("mutation.truncate"); readHostile(r,h.ext,h.bytes.substr(0,i),"truncated",false); } 
        if(f.gz){ std::string g=gzipForeign(r,h.bytes); step=1+g.size()/100; for(size_t i=0;i<g.size();i+=step){ count("mutation.gz_truncate"); readHostile(r,h.ext,g.substr(0,i),"truncated gzip",r.chance(1,2)); } } return; }
    if(k%7==1 && h.bytes.size()>8){ // every header word, with every interesting kind of value
        count("header_sweep"); for(size_t at=0;at<std::min<size_t>(h.bytes.size()-8,160);at+=1+r.below(3)){ std::string b=h.bytes; putField(r,b,at); readHostile(r,h.ext,b,"field",false); } return; }
    for(int i=0;i<24;i++){ std::string b=h.bytes,d=h.desc; int n=r.chance(2,3)?1:r.range(2,4); while(n--){ const char* m=mutate(r,b,other); count(std::string("mutation.")+m); d+=std::string(m)+" "; }
        bool gz=false; if(f.gz&&r.chance(1,6)){ b=wrap(r,b,d); gz=r.chance(1,2); count("mutation.gzip"); }
        readHostile(r,h.ext,b,d,gz); }
    if(k<3) sample(h.ext+" "+std::to_string(h.bytes.size())+" bytes, "+h.desc+" mutated 24 times"); });

// ------------------------------------------------------------------------- balance ----------
// live allocations made while armed, without allocating
namespace bal {
static const size_t N=1<<17; static const void* tab[N]; static size_t sz[N]; static long live=0; static bool armed=false,overflow=false; static long total=0;
static size_t slot(const void* p){ return (size_t)(mix((uint64_t)p)&(N-1)); }
static void onMalloc(const volatile void* vp,size_t n){ if(!armed) return; const void* p=(const void*)vp; total++; if(live>(long)N/2){ overflow=true; return; } size_t i=slot(p); while(tab[i]) i=(i+1)&(N-1); tab[i]=p; sz[i]=n; live++; }
static void onFree(const volatile void* vp){ if(!armed) return; const void* p=(const void*)vp; size_t i=slot(p); while(tab[i]&&tab[i]!=p) i=(i+1)&(N-1); if(!tab[i]) return; live--; size_t j=i; // close the gap
    for(;;){ tab[i]=nullptr; for(;;){ j=(j+1)&(N-1); if(!tab[j]) return; size_t h=slot(tab[j]); if(i<=j? (i<h&&h<=j) : (i<h||h<=j)) continue; break; } tab[i]=tab[j]; sz[i]=sz[j]; i=j; } }
static void reset(){ memset(tab,0,sizeof tab); live=0; overflow=false; total=0; }
static std::string first(std::string* key){ for(size_t i=0;i<N;i++) if(tab[i]){ void* tr[24]; int tid=0; size_t n=__asan_get_alloc_stack((void*)tab[i],tr,24,&tid); std::string s=fmt("%zu bytes allocated by",sz[i]); for(size_t k=0;k<n;k++){ char b[512]; __sanitizer_symbolize_pc(tr[k],"%f %s:%l",b,sizeof b); std::string x=b; size_t q=x.find("/src/lib/"); if(q!=std::string::npos){ std::string loc=x.substr(x.rfind('/')+1),fun=x.substr(0,x.find('(')); s+=" "+fun+" ("+loc+")"; if(key->empty()){ *key=loc.substr(0,loc.find(':'))+":"+fun; for(auto& c:*key) if(c==' ') c='_'; } } } return s; } return ""; }
}
static int openFds(){ int n=0; DIR* d=opendir("/proc/self/fd"); while(readdir(d)) n++; closedir(d); return n; }
typedef std::function<void()> Op;
static void balanced(const std::string& what,const Op& op){
    static bool hooked=false; if(!hooked){ __sanitizer_install_malloc_and_free_hooks(bal::onMalloc,bal::onFree); hooked=true; }
    std::string key,msg; int fdLeak=0; bool threw=false;
    for(int tries=0;tries<3;tries++){ // an imbalance counts only if it happens every time (lazily created statics are not leaks)
        int f0=openFds(); bal::reset(); bal::armed=true; try{ op(); } catch(const std::bad_alloc&){ threw=true; } catch(...){ bal::armed=false; throw; } bal::armed=false; int f1=openFds();
        if(threw){ count("memory_exhausted"); return; }
        count("allocations_watched",bal::total);
        if(bal::overflow){ count("too_many_allocations"); return; }
        if(bal::live==0&&f1<=f0) return;
        key.clear(); fdLeak=f1-f0; long lv=bal::live; msg= lv? fmt("%ld allocations are still in use, the first: ",lv)+bal::first(&key) : ""; if(fdLeak>0) msg+=fmt(" %d descriptors are still open",fdLeak); }
    fail(fdLeak>0?"P30.fd."+key:"P30.leak."+key,what+": "+msg); }

static void useHeap(Rng& r,ParticlesDataMutable* p){ (void)r; delete[] new char[1]; (void)p; }
static Reg r30("P30",[](Rng& r,long k){ hugeSets()=false;
    // inputs are prepared outside of the watched calls
    Hostile h=hostile(r,k); const Format& f=format(h.ext); std::string good=h.bytes; int kind=(int)r.below(4);
    if(k%5==0 && good.size()<1200){ // every truncation
        size_t step=1+good.size()/(thorough()?400:120); std::string fn=tmpFile("t."+h.ext); std::string name=fn;
        for(size_t i=r.below(step);i<=good.size();i+=step){ spit(fn,good.substr(0,i)); evaluated(); distinct(hashBytes(good.data(),i,hashStr(h.ext))); count("truncations"); int m=(int)r.below(3);
            balanced(fmt("%s of a %s file cut to %zu of %zu bytes",m==1?"headers":m==0?"read":"cached read",h.ext.c_str(),i,good.size()),[&]{ std::ostringstream es; if(m==0){ PM p(Partio::read(name.c_str(),true,es)); } else if(m==1){ PI p(Partio::readHeaders(name.c_str(),true,es)); } else { PD a(Partio::readCached(name.c_str(),false,true,es)),b(Partio::readCached(name.c_str(),false,true,es)); } }); }
        unlink(fn.c_str()); return; }
    std::string other=validBytes(r,r.chance(2,3)?h.ext:r.pick(exts()));
    for(int i=0;i<8;i++){
        std::string b=good,d; if(kind){ int n=r.range(1,3); while(n--) d+=std::string(mutate(r,b,other))+" "; } if(f.gz&&r.chance(1,4)) b=wrap(r,b,d);
        std::string fn=tmpFile(fmt("b.%s",h.ext.c_str())); spit(fn,b); uint64_t seed=r.next(); int m=(int)r.below(5); evaluated(); distinct(hashBytes(b.data(),b.size(),hashStr(h.ext)^m)); count(kind?"malformed":"wellformed"); count("format."+std::string(f.base));
        balanced(fmt("%s of a %s file (%s)",m==0?"read":m==1?"headers":m==2?"cached read":m==3?"read and use":"mixed calls",h.ext.c_str(),d.empty()?"well-formed":d.c_str()),[&]{ Rng q(seed); std::ostringstream es; const char* n=fn.c_str();
            if(m==0) { PM p(Partio::read(n,true,es)); }
            else if(m==1){ PI p(Partio::readHeaders(n,true,es)); PI p2(Partio::readHeaders((fn+".no.bgeo").c_str(),true,es)); }
            else if(m==2){ PD a(Partio::readCached(n,false,true,es)); PD c(Partio::readCached(n,false,true,es)); a.reset(); PD e(Partio::readCached(n,false,true,es)); }
            else if(m==3){ PM p(Partio::read(n,true,es)); if(p) inspect(*p,q); }
            else { PM p(Partio::read(n,true,es)); PI hh(Partio::readHeaders(n,true,es)); PD c(Partio::readCached(n,false,true,es)); PM x(Partio::read("/nonexistent/x.bgeo",true,es)); if(p) useHeap(q,p.get()); } });
        unlink(fn.c_str()); }
    // calls that produce and consume data sets, files and archives
    int what=(int)r.below(8); uint64_t seed=r.next(); static auto we=extsOf([](const Format& x){ return x.wr; }); std::string ext=we[(k/3)%we.size()]; const Format& wf=format(ext); Table t=genWritable(wf.base,r,r.range(0,40)); bool il=r.chance(1,3);
    std::string dir=tmpFile("d"); mkdir(dir.c_str(),0700); std::string out=dir+"/o."+ext+(wf.gz&&r.chance(1,3)?".gz":""); static const char* names[]={"write","failing write","clone","merge","cluster","build, sort and query","archive","iterate"}; evaluated(); count(std::string("op.")+names[what]); distinct(hashTable(t,what));
    GenOpt go; go.vals=V_SMALL; go.anyNames=false; Table bt=genTable(r,go),ct; { GenOpt o=go; o.n=r.range(0,60); ct=genTable(r,o); bool hasPos=ct.find("position")&&ct.find("position")->type==T_VECTOR&&ct.find("position")->count==3; if(hasPos&&r.chance(3,4)){ for(size_t i=0;i<ct.attrs.size();i++) if(ct.attrs[i].name=="id"){ ct.attrs.erase(ct.attrs.begin()+i); break; } Attr a; a.name="id"; a.type=T_INT; genVals(r,a,ct.n,V_BITS); ct.attrs.push_back(a); } }
    balanced(fmt("%s (%s, %s%s)",names[what],ext.c_str(),describe(t).c_str(),il?", interleaved":""),[&]{ Rng q(seed); std::ostringstream es;
        PM p(make(what==4?ct:t,&q,q.range(0,3),il&&what!=1));
        if(what==0){ Partio::write(out.c_str(),*p,false,true,es); }
        else if(what==1){ Partio::write((dir+"/no/such/dir/x."+ext).c_str(),*p,q.chance(1,2),true,es); Partio::write((dir+"/x.unknown").c_str(),*p,false,true,es); Partio::write(("/dev/full/"+ext).c_str(),*p,false,true,es); std::string l=dir+"/full."+ext; if(symlink("/dev/full",l.c_str())==0){ Partio::write(l.c_str(),*p,wf.gz&&q.chance(1,2),true,es); unlink(l.c_str()); } }
        else if(what==2){ std::map<std::string,std::string> m; if(!t.attrs.empty()) m[t.attrs[0].name]=q.chance(1,2)?"renamed":"position"; PM a(Partio::clone(*p,true,&m)),b(Partio::clone(*p,false)),c(Partio::cloneSchema(*p,&m)); a->addParticles(q.range(1,40)); }
        else if(what==3){ PM base(make(bt)); Partio::merge(*base,*p,q.chance(1,2)?"id":"",q.chance(1,3)?"type":""); Partio::merge(*base,*base.get(),""); }
        else if(what==4){ PM c(Partio::computeClustering(p.get(),q.range(0,8),q.real(0,200),q.real(0,10),q.range(0,6),q.real(0,0.2))); }
        else if(what==5){ bool ok=false; ParticleAttribute pa; if(p->attributeInfo("position",pa)&&pa.type==T_VECTOR&&pa.count==3){ ok=true; for(int i=0;i<p->numParticles();i++) for(int c=0;c<3;c++){ float* d=p->dataWrite<float>(pa,i); if(!std::isfinite(d[c])) d[c]=0; } } if(ok){ p->sort(); p->sort(); float c[3]={0,0,0}; std::vector<ParticleIndex> pts; std::vector<float> ds; p->findNPoints(c,5,100,pts,ds); float lo[3]={-50,-50,-50},hi[3]={50,50,50}; p->findPoints(lo,hi,pts); } }
        else if(what==6){ std::string z=dir+"/a.zip"; { Partio::ZipFileWriter w(z); for(int i=q.range(0,4);i>0;i--){ std::ostream* o=w.Add_File(fmt("f%d",i)); *o<<std::string(q.range(0,5000),'x'); delete o; } } { Partio::ZipFileReader rd(z); std::vector<std::string> l; rd.Get_File_List(l); for(auto& s:l){ std::istream* i=rd.Get_File(s); std::string c; if(i) *i>>c; delete i; } delete rd.Get_File("absent"); } if(q.chance(1,3)){ std::string b=slurp(z); b.resize(b.size()/2); spit(z,b); try{ Partio::ZipFileReader rd(z); } catch(const std::exception&){ } } unlink(z.c_str()); }
        else { ParticleAttribute pa; int n=0; ParticlesDataMutable::iterator it=p->begin(); Partio::ParticleAccessor a1(pa),a2(pa); if(p->attributeInfo(0,pa)&&pa.count){ Partio::ParticleAccessor b(pa); it.addAccessor(b); ParticlesDataMutable::iterator cp=it; for(;cp!=p->end();++cp) n++; } else for(;it!=p->end();++it) n++; sink+=n; } });
    rmTree(dir); if(k<3) sample(h.ext+" "+h.desc+", then "+names[what]); });

// every format once, well-formed and missing: lazily created state exists afterwards
struct Warm { Warm(){ } };
int main(int argc,char** argv){ return runMain(argc,argv); }
