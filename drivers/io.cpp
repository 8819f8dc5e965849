// P01-P07, P27, P28: files.
#include "codec.h"
#include <malloc.h>
#include <locale>
#include <clocale>
using namespace vf;

static std::string g_dir;
static std::string fileName(const std::string& stem,const std::string& ext,bool gz){ return tmpFile(stem+"."+ext+(gz?".gz":"")); }
static PM readBack(const std::string& f,const char* what="read"){ std::ostringstream err; PM p(Partio::read(f.c_str(),true,err)); VF_CHECK(p,"unreadable","%s of %s (%zu bytes) returned null; diagnostics: %s",what,f.c_str(),slurp(f).size(),err.str().c_str()); return p; }
static void writeTo(const std::string& f,const ParticlesData& p,bool force=false){ std::ostringstream err; Partio::write(f.c_str(),p,force,true,err); VF_CHECK(exists(f),"notwritten","write created no file %s; diagnostics: %s",f.c_str(),err.str().c_str()); }
static uint64_t bits(const std::string& ext,const Table& t,uint64_t extra=0){ return hashTable(t,hashStr(ext,extra)); }

// ---- round trips --------------------------------------------------------------------------
static void roundTrip(Rng& r,long k,const std::vector<std::string>& exts,const char* prop){
    std::string ext=exts[k%exts.size()]; const Format& f=format(ext); bool gz=f.gz&&r.chance(1,4),force=f.gz&&r.chance(1,8);
    int fixedN=-1; if(std::string(f.base)=="bgeo"&&r.chance(1,60)) fixedN=r.range(65530,65545);
    Table t=genWritable(f.base,r,fixedN);
    if(std::string(f.base)=="bgeo"&&r.chance(1,25)){ Attr a; a.name=uniqueName(r,t.attrs,[&](Rng& q){ std::string s=genString(q,S_ANY)+"x"; s.resize(q.chance(1,2)?65535:(size_t)q.range(30000,65535),'n'); return s; }); a.type=T_STR; a.count=1; for(int i=0;i<2;i++){ std::string s=genWord(r); s.resize((size_t)(i?65535:r.range(32760,32775)),(char)('a'+i)); a.strs.push_back(s);} genVals(r,a,t.n,V_BITS); (r.chance(1,3)&&t.n>0?t.fixed:t.attrs).push_back(a); if(!t.fixed.empty()&&t.fixed.back().name==a.name) t.fixed.back().vals.resize(1); }
    PM p(make(t,&r,fixedN>0?0:r.range(0,3)));
    Table built=snapshot(*p); std::string d=diff(t,built); VF_CHECK(d.empty(),"setup","the data set does not hold what was stored: %s",d.c_str());
    std::string fn=fileName(genWord(r),ext,gz); writeTo(fn,*p,force);
    PM q=readBack(fn); Table got=snapshot(*q); Table want=expectRead(ext,t);
    evaluated(); distinct(bits(ext,t)); count("format."+ext+(gz||force?".gz":"")); if(t.n==0) count("empty_sets"); if(!t.fixed.empty()) count("sets_with_fixed"); count("particles",t.n); count("values",[&]{ uint64_t s=0; for(auto& a:t.attrs) s+=a.vals.size(); return s; }());
    if(k<3) sample(ext+(gz?".gz ":" ")+describe(t));
    d=diff(want,got,cmpFor(ext)); unlink(fn.c_str());
    VF_CHECK(d.empty(),std::string(prop)+"."+f.base,"%s%s of %s: %s",ext.c_str(),gz?".gz":"",describe(t).c_str(),d.c_str());
    // what was read is itself a data set: it must survive the trip again unchanged
    if(r.chance(1,6)){ std::string fn2=fileName("again",ext,false); writeTo(fn2,*q); PM q2=readBack(fn2); Table again=snapshot(*q2); d=diff(expectRead(ext,got),again,cmpFor(ext)); unlink(fn2.c_str()); VF_CHECK(d.empty(),std::string(prop)+".second."+f.base,"%s written a second time: %s",ext.c_str(),d.c_str()); count("second_generation"); }
}
static Reg r1("P01",[](Rng& r,long k){ static auto e=extsOf([](const Format& f){return std::string(f.base)=="bgeo";}); roundTrip(r,k,e,"P01"); });
static Reg r2("P02",[](Rng& r,long k){ static auto e=extsOf([](const Format& f){ std::string b=f.base; return f.rd&&f.wr&&b!="bgeo"&&b!="geo"&&b!="pda";}); roundTrip(r,k,e,"P02"); });
static Reg r3("P03",[](Rng& r,long k){ static auto e=extsOf([](const Format& f){ std::string b=f.base; return b=="geo"||b=="pda";}); roundTrip(r,k,e,"P03"); });

// ---- foreign files ------------------------------------------------------------------------
static Reg r4("P04",[](Rng& r,long k){
    static auto e=extsOf([](const Format& f){return f.rd;}); std::string ext=e[k%e.size()]; const Format& f=format(ext);
    Table t; std::string b=encode(ext,r,t); bool gz=f.gz&&r.chance(1,4); std::string disk=gz?gzipForeign(r,b):b; bool gzName=gz? r.chance(2,3) : f.gz&&r.chance(1,20);
    std::string fn=fileName(genWord(r),ext,gzName); spit(fn,disk);
    PM q=readBack(fn); Table got=snapshot(*q); evaluated(); distinct(bits(ext,t)); count("format."+ext+(gz?".gz":"")); count("particles",t.n); if(k<3) sample(ext+" "+describe(t));
    Cmp c=cmpFor(ext); c.nanAny= ext=="prt"||ext=="ptc"||ext=="ptf"; std::string d=diff(t,got,c); unlink(fn.c_str());
    VF_CHECK(d.empty(),std::string("P04.")+f.base,"%s file (%zu bytes, %s): %s",ext.c_str(),b.size(),describe(t).c_str(),d.c_str()); });

// ---- written files under independent decoders ---------------------------------------------
static Reg r5("P05",[](Rng& r,long k){
    static auto e=extsOf([](const Format& f){return f.wr;}); std::string ext=e[k%e.size()]; const Format& f=format(ext);
    Table t=genWritable(f.base,r); PM p(make(t,&r,r.range(0,2))); std::string fn=fileName(genWord(r),ext,false); writeTo(fn,*p); std::string b=slurp(fn); unlink(fn.c_str());
    evaluated(); distinct(bits(ext,t)); count("format."+ext); count("bytes_decoded",b.size()); if(k<3) sample(ext+" "+describe(t));
    std::string err,d; if(std::string(f.base)=="rib") err=decRIB(b,t);
    else { Table got; err=decode(ext,b,got); if(err.empty()) d=diff(expectDecoded(ext,t),got,cmpFor(ext)); }
    VF_CHECK(err.empty(),std::string("P05.form.")+f.base,"%s file of %s is malformed: %s",ext.c_str(),describe(t).c_str(),err.c_str());
    VF_CHECK(d.empty(),std::string("P05.content.")+f.base,"%s file of %s: %s",ext.c_str(),describe(t).c_str(),d.c_str()); });

// ---- compression --------------------------------------------------------------------------
static Table sizedBgeo(Rng& r,size_t target){ // a BGEO data set whose file has (about) exactly `target` bytes
    Table t; t.n=0; Attr p; p.name="position"; p.type=T_VECTOR; p.count=3; Attr s; s.name="s"; s.type=T_STR; s.count=1;
    size_t base=41+2+1+2+4+4+2; // header, descriptor, trailer (no strings, no points)
    if(target<base){ t.attrs={p}; return t; }
    size_t left=target-base; size_t per=20; t.n=(int)std::min<size_t>(left/per/2,3000); left-=per*t.n;
    bool compressible=r.chance(1,2); int id=0;
    while(left>=8){ size_t l=std::min<size_t>(left-2,60000); if(left-2-l>0&&left-2-l<8) l-=8; std::string x=std::to_string(id++); if(x.size()>l) x.resize(l); while(x.size()<l) x+= compressible? (char)('a'+(x.size()/37)%5) : (char)r.range(1,255); s.strs.push_back(x); left-=2+l; }
    t.attrs={p,s}; genVals(r,t.attrs[0],t.n,compressible?V_SMALL:V_BITS); genVals(r,t.attrs[1],t.n,V_BITS); return t; }
static Reg r6("P06",[](Rng& r,long k){
    static auto ew=extsOf([](const Format& f){return f.wr&&f.gz;}); static auto er=extsOf([](const Format& f){return f.rd&&f.gz;});
    int mode=(int)(k%4);
    if(mode<=1){ // library-written
        std::string ext=mode==1?"bgeo":ew[(k/4)%ew.size()]; const Format& f=format(ext); Table t;
        if(mode==1){ size_t unit=r.chance(1,2)?512:r.chance(1,2)?4096:1024; t=sizedBgeo(r,unit*(size_t)r.range(1,r.chance(1,20)?600:40)+r.range(-3,3)); } else t=genWritable(f.base,r);
        PM p(make(t)); std::string a=fileName("plain",ext,false),b=fileName("comp",ext,true),c=fileName("forced",ext,false); writeTo(a,*p); writeTo(b,*p); writeTo(c,*p,true);
        std::string pa=slurp(a),pb=slurp(b),pc=slurp(c),u; evaluated(); distinct(bits(ext,t,mode)); count("written."+ext); count(fmt("plain_size_mod_512.%zu",pa.size()%512<3||pa.size()%512>509?pa.size()%512:3));
        std::string e=gunzipStrict(pb,u); VF_CHECK(e.empty(),"P06.gz","%s.gz of %s: %s",ext.c_str(),describe(t).c_str(),e.c_str()); VF_CHECK(u==pa,"P06.content","%s.gz decompresses to %zu bytes that differ from the %zu plain bytes",ext.c_str(),u.size(),pa.size());
        e=gunzipStrict(pc,u); VF_CHECK(e.empty(),"P06.forced","forced compressed %s of %s: %s",ext.c_str(),describe(t).c_str(),e.c_str()); VF_CHECK(u==pa,"P06.forcedcontent","forced %s differs from plain",ext.c_str());
        if(f.rd){ PM x=readBack(a),y=readBack(b),z=readBack(c); Table tx=snapshot(*x); std::string d=diff(tx,snapshot(*y)); VF_CHECK(d.empty(),"P06.read","%s.gz reads differently from plain: %s",ext.c_str(),d.c_str()); d=diff(tx,snapshot(*z)); VF_CHECK(d.empty(),"P06.read","forced %s reads differently from plain: %s",ext.c_str(),d.c_str()); }
        unlink(a.c_str()); unlink(b.c_str()); unlink(c.c_str()); if(k<4) sample(ext+" "+describe(t));
    } else { // made by other tools
        std::string ext=mode==2?er[(k/4)%er.size()]:std::string("bgeo"); const Format& f=format(ext); Table t; std::string b;
        if(mode==2) b=encode(ext,r,t); else { size_t unit=r.chance(1,2)?512:4096; t=sizedBgeo(r,unit*(size_t)r.range(1,40)+r.range(-3,3)); PM p(make(t)); std::string a=fileName("src","bgeo",false); writeTo(a,*p); b=slurp(a); unlink(a.c_str()); t=expectRead("bgeo",t); }
        for(int rep=0;rep<3;rep++){ unsigned fl= rep==0? (unsigned)((k/8)%32) : ~0u; if(rep==0&&(k%16)<3) fl&=0x1f; std::string g=gzipForeign(r,b,fl); std::string fn=fileName("foreign",ext,r.chance(1,2)); spit(fn,g); PM q=readBack(fn,"read of a foreign gzip file"); Table got=snapshot(*q); Cmp c=cmpFor(ext); c.nanAny=ext=="ptc"||ext=="ptf"; std::string d=diff(t,got,c); evaluated(); distinct(hashBytes(g.data(),g.size())); count("foreign."+ext); count(fmt("gzip_header_flags.%02x",(unsigned char)g[3])); 
            VF_CHECK(d.empty(),std::string("P06.foreign.")+f.base,"gzip (flags %02x, %zu -> %zu bytes) %s: %s",(unsigned char)g[3],b.size(),g.size(),ext.c_str(),d.c_str());
            PI h(Partio::readHeaders(fn.c_str(),false)); VF_CHECK(h,"P06.foreignheaders","headers of a foreign gzip %s are unreadable",ext.c_str()); unlink(fn.c_str()); }
    } });

// ---- headers ------------------------------------------------------------------------------
static Reg r7("P07",[](Rng& r,long k){
    static auto e=extsOf([](const Format& f){return f.rd;}); std::string ext=e[k%e.size()]; const Format& f=format(ext); std::string b; Table t; bool own=f.wr&&r.chance(1,2);
    std::string fn; bool gz=f.gz&&r.chance(1,3);
    if(own){ t=genWritable(f.base,r); PM p(make(t)); fn=fileName("own",ext,gz); writeTo(fn,*p); } else { b=encode(ext,r,t); fn=fileName("foreign",ext,gz&&r.chance(1,2)); spit(fn,gz?gzipForeign(r,b):b); }
    std::ostringstream err; PI h(Partio::readHeaders(fn.c_str(),true,err)); PM p=readBack(fn); VF_CHECK(h,std::string("P07.null.")+f.base,"headers of a readable %s%s file are refused: %s",ext.c_str(),gz?".gz":"",err.str().c_str());
    Table th=schemaOf(*h),tp=schemaOf(*p); evaluated(); distinct(bits(ext,t,gz)); count("format."+ext+(gz?".gz":"")); if(k<3) sample(ext+" "+describe(th)); unlink(fn.c_str());
    Cmp c; c.schemaOnly=true; c.ignoreCount=ext=="pts"; std::string d=diff(tp,th,c); VF_CHECK(d.empty(),std::string("P07.")+f.base,"%s%s (%s): headers disagree with the full read: %s",ext.c_str(),gz?".gz":"",own?"own":"foreign",d.c_str());
    for(auto& a:th.attrs){ ParticleAttribute pa; VF_CHECK(h->attributeInfo(a.name.c_str(),pa)&&pa.count==a.count&&pa.type==a.type&&pa.name==a.name,"P07.lookup","header object cannot look up '%s'",shortStr(a.name).c_str()); }
    for(size_t i=0;i<th.fixed.size();i++){ auto& a=th.fixed[i]; FixedAttribute fa,fb; bool named=h->fixedAttributeInfo(a.name.c_str(),fa); bool first=true; for(size_t j=0;j<i;j++) first&=th.fixed[j].name!=a.name; VF_CHECK(named&&fa.name==a.name&&(!first||(fa.count==a.count&&fa.type==a.type)),"P07.fixedlookup","header object looks up fixed '%s' as %s %s[%d]",shortStr(a.name).c_str(),named?shortStr(fa.name).c_str():"nothing",typeName(fa.type),fa.count);
        VF_CHECK(p->fixedAttributeInfo(a.name.c_str(),fb)&&fb.count==fa.count&&fb.type==fa.type,"P07.fixedlookup","fixed '%s' differs between the header object and the full read",shortStr(a.name).c_str()); }
    { ParticleAttribute x; FixedAttribute y; int na=(int)th.attrs.size(),nf=(int)th.fixed.size(); for(int i:{-1,na,na+1,INT_MAX}) VF_CHECK(!h->attributeInfo(i,x),"P07.index","header object accepts attribute index %d of %d",i,na); for(int i:{-1,nf,nf+1,INT_MAX}) VF_CHECK(!h->fixedAttributeInfo(i,y),"P07.index","header object accepts fixed attribute index %d of %d",i,nf); VF_CHECK(!h->fixedAttributeInfo("no such attribute",y)||th.findFixed("no such attribute"),"P07.lookup","header object finds a fixed attribute that does not exist"); }
    ParticleAttribute pa; VF_CHECK(!h->attributeInfo("no such attribute",pa)||th.find("no such attribute"),"P07.lookup","header object finds an attribute that does not exist"); });

// ---- ambient-state monitor ----------------------------------------------------------------
struct StreamState { std::ios::fmtflags f; std::streamsize p,w; char fill; std::string loc; std::ios::iostate st;
    explicit StreamState(std::ios& s):f(s.flags()),p(s.precision()),w(s.width()),fill(s.fill()),loc(s.getloc().name()),st(s.rdstate()){}
    std::string diff(const StreamState& o) const { if(f!=o.f) return fmt("format flags 0x%x became 0x%x",(unsigned)f,(unsigned)o.f); if(p!=o.p) return fmt("precision %ld became %ld",(long)p,(long)o.p); if(fill!=o.fill) return "fill character changed"; if(loc!=o.loc) return "locale changed"; if(st!=o.st) return "state changed"; return ""; } };
struct Ambient { StreamState o,e,l; std::string cloc; std::locale gl; char cwd[4096]; 
    Ambient():o(std::cout),e(std::cerr),l(std::clog),cloc(setlocale(LC_ALL,nullptr)),gl(){ if(!getcwd(cwd,sizeof cwd)) cwd[0]=0; }
    void check(const char* what){ Ambient n; std::string d;
        d=o.diff(n.o); VF_CHECK(d.empty(),std::string("P28.cout"),"%s: std::cout: %s",what,d.c_str()); d=e.diff(n.e); VF_CHECK(d.empty(),"P28.cerr","%s: std::cerr: %s",what,d.c_str()); d=l.diff(n.l); VF_CHECK(d.empty(),"P28.clog","%s: std::clog: %s",what,d.c_str());
        VF_CHECK(cloc==n.cloc,"P28.clocale","%s changed the C locale from %s to %s",what,cloc.c_str(),n.cloc.c_str()); VF_CHECK(gl==n.gl,"P28.locale","%s changed the global C++ locale",what); VF_CHECK(!strcmp(cwd,n.cwd),"P28.cwd","%s changed the working directory",what); } };
struct HostilePunct : std::numpunct<char> { char dp,ts; std::string g; HostilePunct(char d,char t,const std::string& gg):dp(d),ts(t),g(gg){} char do_decimal_point() const override {return dp;} char do_thousands_sep() const override {return ts;} std::string do_grouping() const override {return g;} };
struct HostileCtype : std::ctype<char> { static mask* tab(){ static mask m[table_size]; memcpy(m,classic_table(),sizeof m); m[(int)',']|=space; m[(int)'_']|=space; return m; } HostileCtype():std::ctype<char>(tab()){} };
struct LocaleGuard { std::locale old; ~LocaleGuard(){ std::locale::global(old); setlocale(LC_ALL,"C"); } };
struct CwdGuard { char d[4096]; bool on=false; CwdGuard(){ if(!getcwd(d,sizeof d)) d[0]=0; } ~CwdGuard(){ if(on&&chdir(d)!=0) abort(); } };

static Reg r28("P28",[](Rng& r,long k){
    static auto e=extsOf([](const Format&){return true;}); std::string ext=e[k%e.size()]; const Format& f=format(ext); bool gz=f.gz&&r.chance(1,5); Table t; std::string bytes; Table base; bool own=f.wr&&(!f.rd||r.chance(2,3));
    std::string fn=fileName("base",ext,gz); PM p;
    if(own){ t=genWritable(f.base,r); p.reset(make(t)); writeTo(fn,*p); } else { std::string b=encode(ext,r,t); spit(fn,gz?gzipForeign(r,b):b); }
    bytes=slurp(fn); Table baseHdr; if(f.rd){ PM q=readBack(fn); base=snapshot(*q); PI h(Partio::readHeaders(fn.c_str(),false)); VF_CHECK(h,"unreadable","headers unreadable"); baseHdr=schemaOf(*h); }
    static const char dps[]={',','.','x','\''}; static const char tss[]={'.',',','_','5'}; 
    for(int rep=0;rep<2;rep++){
        LocaleGuard lg; CwdGuard cg; std::ostringstream es; int what=r.range(1,15); std::string desc;
        if(what&1){ static const char* gs[]={"\3","\1","\2\3",""}; std::locale l(std::locale::classic(),new HostilePunct(dps[r.below(4)],tss[r.below(4)],gs[r.below(4)])); if(r.chance(1,3)) l=std::locale(l,new HostileCtype()); std::locale::global(l); desc+="C++ locale "; }
        if(what&2){ setlocale(LC_ALL,"C.utf8"); desc+="C locale "; }
        std::ios::fmtflags of=std::cout.flags(),ef=std::cerr.flags(),lf=std::clog.flags(); std::streamsize op=std::cout.precision(); std::locale oloc=std::cout.getloc();
        if(what&4){ for(std::ostream* s:{(std::ostream*)&std::cout,(std::ostream*)&std::cerr,(std::ostream*)&std::clog,(std::ostream*)&es}){ *s<<std::hex<<std::showbase<<std::scientific<<std::uppercase<<std::boolalpha; s->precision(r.range(1,20)); s->fill('*'); } es.imbue(std::locale()); desc+="stream flags "; }
        std::string dir=tmpFile("cwd"); std::string rel=fileName("amb",ext,gz),in=fn; if(what&8){ mkdir(dir.c_str(),0700); if(chdir(dir.c_str())!=0) throw std::runtime_error("chdir"); cg.on=true; rel="../"+rel.substr(rel.rfind('/')+1); in="../"+in.substr(in.rfind('/')+1); desc+="cwd "; }
        auto restore=[&]{ std::cout.flags(of); std::cerr.flags(ef); std::clog.flags(lf); std::cout.precision(op); std::cerr.precision(6); std::clog.precision(6); std::cout.fill(' '); std::cerr.fill(' '); std::clog.fill(' '); };
        struct RG { std::function<void()> f; ~RG(){ f(); } } rg{restore};
        std::string got; Table gt,gh; StreamState ss(es);
        if(own){ Ambient a; Partio::write(rel.c_str(),*p,false,true,es); a.check("write"); got=slurp(rel); unlink(rel.c_str()); }
        if(f.rd){ Ambient a; PM q(Partio::read(in.c_str(),true,es)); a.check("read"); PI h(Partio::readHeaders(in.c_str(),true,es)); a.check("readHeaders"); VF_CHECK(q&&h,std::string("P28.unreadable.")+f.base,"under {%s} %s is unreadable: %s",desc.c_str(),ext.c_str(),es.str().c_str()); gt=snapshot(*q); gh=schemaOf(*h); }
        if(p&&r.chance(1,6)){ Ambient a; Partio::print(p.get()); a.check("print"); PM c(Partio::clone(*p)); c->sort(); a.check("clone/sort"); PM m(Partio::read(("missing."+ext).c_str(),true,es)); PM m2(Partio::read("missing.zzz",true,es)); PM m3(Partio::read("missing",true,es)); a.check("failing read"); Partio::write("/nonexistent-dir/x.bgeo",*p,false,true,es); a.check("failing write"); count("other_calls_watched"); }
        std::string sd=ss.diff(StreamState(es)); VF_CHECK(sd.empty(),"P28.errstream","the caller's error stream: %s",sd.c_str());
        restore(); if(cg.on){ if(chdir(cg.d)!=0) abort(); cg.on=false; rmdir(dir.c_str()); }
        evaluated(); distinct(mix(bits(ext,t)^mix(what*7+rep))); count("format."+ext); count("ambient."+std::to_string(what)); if(k<2&&!rep) sample(ext+" under "+desc);
        if(own) VF_CHECK(got==bytes,std::string("P28.bytes.")+f.base,"under {%s} writing %s gives %zu bytes that differ from the %zu usual ones (%s)",desc.c_str(),ext.c_str(),got.size(),bytes.size(),describe(t).c_str());
        if(f.rd){ std::string d=diff(base,gt); VF_CHECK(d.empty(),std::string("P28.read.")+f.base,"under {%s} reading %s gives a different result: %s",desc.c_str(),ext.c_str(),d.c_str()); Cmp c; c.schemaOnly=true; d=diff(baseHdr,gh,c); VF_CHECK(d.empty(),std::string("P28.headers.")+f.base,"under {%s} reading headers of %s gives a different result: %s",desc.c_str(),ext.c_str(),d.c_str()); }
    }
    unlink(fn.c_str()); });

// ---- no mutation, reproducible output -----------------------------------------------------
static void __attribute__((noinline)) scribbleStack(int v){ volatile char b[32768]; for(size_t i=0;i<sizeof b;i++) b[i]=(char)v; }
static void perturb(int v){
    mallopt(M_PERTURB,v);   // the plain build hands out memory filled with a different byte each time
    scribbleStack(v); std::vector<char*> ps; for(int i=0;i<40;i++){ char* p=(char*)malloc(16u<<(i%10)); memset(p,v,16u<<(i%10)); ps.push_back(p);} for(char* p:ps) free(p); }
static Reg r27("P27",[](Rng& r,long k){
    static auto e=extsOf([](const Format& f){return f.wr;}); std::string ext=e[k%e.size()]; const Format& f=format(ext);
    Table t=genWritable(f.base,r); if(r.chance(1,3)){ GenOpt o; o.vals=V_FINITE; o.anyNames=false; t=genTable(r,o); } // sets the format cannot represent fully are not changed either
    bool unrep=false; (void)unrep;
    perturb(0x11); PM p(make(t,&r,r.range(0,3))); bool sorted=false; if(p->numAttributes()&&t.find("position")&&t.n>0&&r.chance(1,2)){ bool fin=true; for(auto v:t.find("position")->vals) fin&=std::isfinite(u2f(v)); if(fin&&t.find("position")->type==T_VECTOR){ p->sort(); sorted=true; } }
    Table before=snapshot(*p); std::string d=diff(t,before); VF_CHECK(d.empty(),"P27.sort","sorting or filling changed the data: %s",d.c_str());
    bool gz=f.gz&&r.chance(1,4); std::string a=fileName("a",ext,gz),b=fileName("b",ext,gz),c=fileName("c",ext,gz);
    auto wr=[&](const std::string& fn,const ParticlesData& q){ Partio::write(fn.c_str(),q,false,r.chance(1,2)); };
    perturb(0x55); wr(a,*p); std::string ba=exists(a)?slurp(a):"<none>"; unlink(a.c_str());
    perturb(0xee); { PM junk(make(genWritable("bgeo",r,r.range(0,20)))); } wr(b,*p); std::string bb=exists(b)?slurp(b):"<none>"; unlink(b.c_str());
    evaluated(); distinct(bits(ext,t)); count("format."+ext+(gz?".gz":"")); if(k<3) sample(ext+" "+describe(t));
    VF_CHECK(ba==bb,std::string("P27.repro.")+f.base,"writing the same data set twice as %s gives different bytes (%zu/%zu, first difference at %zu) for %s",ext.c_str(),ba.size(),bb.size(),(size_t)(std::mismatch(ba.begin(),ba.begin()+std::min(ba.size(),bb.size()),bb.begin()).first-ba.begin()),describe(t).c_str());
    perturb(0x33); { PM cl(Partio::clone(*p)); wr(c,*cl); std::string bc=exists(c)?slurp(c):"<none>"; unlink(c.c_str()); VF_CHECK(ba==bc,std::string("P27.cloned.")+f.base,"a clone written as %s gives different bytes (%zu/%zu) for %s",ext.c_str(),ba.size(),bc.size(),describe(t).c_str()); }
    // everything else that only reads
    std::map<std::string,std::string> ren; if(!t.attrs.empty()) ren[t.attrs[0].name]="renamed";
    { PM x(Partio::cloneSchema(*p)); PM y(Partio::clone(*p,false,&ren)); PM z(Partio::clone(*p,true,&ren)); }
    Partio::print(p.get());
    if(sorted){ const float* q0=p->data<float>([&]{ ParticleAttribute pa; p->attributeInfo("position",pa); return pa; }(),(int)r.below(t.n)); float lo[3],hi[3]; for(int i=0;i<3;i++){ lo[i]=q0[i]-1000; hi[i]=q0[i]+1000; } std::vector<ParticleIndex> pts; p->findPoints(lo,hi,pts); std::vector<float> ds; p->findNPoints(q0,5,1e6f,pts,ds); count("queried"); }
    for(int i=0;i<p->numAttributes();i++){ ParticleAttribute pa; p->attributeInfo(i,pa); std::vector<ParticleIndex> idx; for(int j=0;j<10&&t.n;j++) idx.push_back(r.below(t.n)); std::vector<float> v(idx.size()*pa.count+1); p->dataAsFloat(pa,(int)idx.size(),idx.data(),false,v.data()); p->lookupIndexedStr(pa,"nope"); }
    { const ParticlesData* cp=p.get(); int nn=0; for(ParticlesData::const_iterator it=cp->begin();it!=cp->end();++it) nn++; VF_CHECK(nn==t.n,"P27.iter","iteration visited %d of %d",nn,t.n); }
    { GenOpt o; o.vals=V_FINITE; o.anyNames=false; Table bt=genTable(r,o); PM base(make(bt)); Partio::merge(*base,*p,r.chance(1,2)?"id":"",r.chance(1,3)?"name":""); count("merged_from"); }
    Table after=snapshot(*p); d=diff(before,after); VF_CHECK(d.empty(),"P27.mutated","reading operations changed the data set: %s",d.c_str()); });

int main(int argc,char** argv){ return runMain(argc,argv); }
