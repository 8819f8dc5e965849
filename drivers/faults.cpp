// P09: failing I/O.  P10: the read cache under single-threaded histories.
#include "codec.h"
#include <sys/resource.h>
#include <sanitizer/asan_interface.h>
#include <signal.h>
using namespace vf;

// everything that reaches the standard streams, through iostreams or descriptors
struct Capture {
    std::stringbuf o,e,l; std::streambuf *po,*pe,*pl; off_t s1,s2;
    static off_t size(int fd){ struct stat st; return fstat(fd,&st)==0&&S_ISREG(st.st_mode)? st.st_size : 0; }
    Capture(){ po=std::cout.rdbuf(&o); pe=std::cerr.rdbuf(&e); pl=std::clog.rdbuf(&l); fflush(stdout); fflush(stderr); s1=size(1); s2=size(2); }
    ~Capture(){ std::cout.rdbuf(po); std::cerr.rdbuf(pe); std::clog.rdbuf(pl); }
    std::string text(){ fflush(stdout); fflush(stderr); std::string s; if(!o.str().empty()) s+="std::cout: "+o.str(); if(!e.str().empty()) s+="std::cerr: "+e.str(); if(!l.str().empty()) s+="std::clog: "+l.str(); if(size(1)!=s1||size(2)!=s2) s+="descriptors 1/2"; return s; }
};
static std::set<std::string> listing(const std::string& d){ std::set<std::string> s; DIR* dir=opendir(d.c_str()); if(!dir) return s; while(dirent* e=readdir(dir)){ std::string n=e->d_name; if(n!="."&&n!="..") s.insert(n); } closedir(dir); return s; }
static bool isDir(const std::string& p){ struct stat st; return stat(p.c_str(),&st)==0&&S_ISDIR(st.st_mode); }
struct NoDescriptors { rlimit old; bool on; NoDescriptors(bool b):on(b){ if(!on) return; getrlimit(RLIMIT_NOFILE,&old); rlimit l=old; l.rlim_cur=0; /* not the first free one: the sanitizer's own thread opens and closes files */ setrlimit(RLIMIT_NOFILE,&l); } ~NoDescriptors(){ if(on) setrlimit(RLIMIT_NOFILE,&old); } };
struct FileLimit { rlimit old; bool on; FileLimit(bool b,long n):on(b){ if(!on) return; signal(SIGXFSZ,SIG_IGN); getrlimit(RLIMIT_FSIZE,&old); rlimit l=old; l.rlim_cur=n; setrlimit(RLIMIT_FSIZE,&l); } ~FileLimit(){ if(on) setrlimit(RLIMIT_FSIZE,&old); } };

static Reg r9("P09",[](Rng& r,long k){
    static auto all=extsOf([](const Format&){return true;}); static auto wr=extsOf([](const Format& f){return f.wr;}); static auto rd=extsOf([](const Format& f){return f.rd;});
    std::string dir=tmpFile("d"); mkdir(dir.c_str(),0700); struct RM { std::string d; ~RM(){ rmTree(d); } } rm{dir};
    // data sets that must survive whatever fails
    std::vector<std::pair<Table,PM>> alive; for(int i=0;i<2;i++){ GenOpt o; Table t=genTable(r,o); PM p(make(t,&r,0,r.chance(1,3))); alive.emplace_back(t,std::move(p)); }
    Table net; { Rng r2(r.next()); net=genWritable("bgeo",r2,3); } PM nonempty(make(net));
    Table ft=genWritable("bgeo",r,r.range(0,20)); std::string keep=dir+"/keep.bgeo"; { PM p(make(ft)); std::ostringstream es; Partio::write(keep.c_str(),*p,false,true,es); } Table want=expectRead("bgeo",ft); PD held(Partio::readCached(keep.c_str(),false,false)); VF_CHECK(held,"P09.setup","cannot read what was just written");
    mkdir((dir+"/sub").c_str(),0700); spit(dir+"/plainfile","x");
    int steps=r.range(3,8); std::string firstName;
    for(int s=0;s<steps;s++){
        int op=(int)r.below(5); bool writing=op>=3; int fault=(int)r.below(writing?10:11); std::string e=writing?wr[(k+s)%wr.size()]:rd[(k+s)%rd.size()]; bool gz=r.chance(1,4); std::string x="."+e+(gz?".gz":""),p; bool nodesc=false,known=true,willCreate=false; const char* fn="";
        switch(fault){
            case 0: fn="missing file"; p= writing? dir+"/nodir/a"+x : dir+"/missing"+x; break;
            case 1: fn="missing parent"; p=dir+"/no/such/place"+x; break;
            case 2: fn="component is a file"; p=dir+"/plainfile/a"+x; break;
            case 3: fn="directory"; p=dir+"/folder"+x; mkdir(p.c_str(),0700); break;
            case 4: { fn="unknown extension"; static const char* u[]={".xyz",".BGEO",".bgeo2",".","..",".gz.gz",".bgeo.bz2",".json",".txt",".bgeo ","._",".pd"}; p=dir+"/a"+u[r.below(12)]; if(p.substr(p.size()-4)=="/a.."||p.substr(p.size()-3)=="/a."){} known=false; if(!writing&&r.chance(1,2)){ spit(p,slurp(keep)); willCreate=true; } if(writing&&e!="rib"&&r.chance(1,6)&&false) known=false; break; }
            case 5: { fn="no extension"; static const char* u[]={"noext","","gz"}; p=r.chance(1,3)?std::string(u[r.below(3)]):dir+"/"+u[0]; if(dir.find('.')!=std::string::npos) p="noext"; known=false; break; }
            case 6: fn="symlink loop"; p=dir+"/loop"+x; if(symlink(p.c_str(),p.c_str())!=0) return; willCreate=true; break;
            case 7: fn="name too long"; p=dir+"/"+std::string(300,'n')+x; break;
            case 8: fn="no descriptors left"; nodesc=true; p= writing? dir+"/new"+x : keep; if(!writing){ p=dir+"/good"+x; Table t; std::string b=encode(e,r,t); if(gz&&format(e).gz) b=gzipForeign(r,b); spit(p,b); willCreate=true; } break;
            case 9: if(writing){ static const char* ro[]={"mc","pts"}; fn="read-only format"; p=dir+"/a."+ro[r.below(2)]; known=false; } else { fn="write-only format"; p=dir+"/a.rib"; known=false; } break;
            default: fn="dangling symlink"; p=dir+"/dangling"+x; if(symlink((dir+"/nowhere"+x).c_str(),p.c_str())!=0) return; willCreate=true; break; }
        bool verbose=r.chance(1,2),force=r.chance(1,3); std::set<std::string> l0=listing(dir),s0=listing(dir+"/sub"); std::ostringstream es; std::string spill; void* got=nullptr; const char* on="";
        { Capture c; NoDescriptors nd(nodesc); 
          switch(op){ case 0: on="read"; { ParticlesDataMutable* q=Partio::read(p.c_str(),verbose,es); got=q; if(q) q->release(); } break; case 1: on="readHeaders"; { ParticlesInfo* q=Partio::readHeaders(p.c_str(),verbose,es); got=q; if(q) q->release(); } break; case 2: on="readCached"; { ParticlesData* q=Partio::readCached(p.c_str(),r.chance(1,2),verbose,es); got=q; if(q) q->release(); } break;
            default: on="write"; { const PM* q=&alive[r.below(alive.size())].second; if((*q)->numParticles()==0) q=&nonempty; /* the PRT writer opens no file for an empty set */ Partio::write(p.c_str(),**q,force,verbose,es); } }
          spill=c.text(); }
        evaluated(); distinct(hashStr(p.substr(dir.size()<p.size()?dir.size():0),mix(op*64+fault*4+verbose*2+force))); count(std::string("fault.")+fn); count(std::string("op.")+on); if(k<2&&s<2) sample(fmt("%s, %s, %s, verbose %d",on,fn,x.c_str(),verbose));
        std::string cs=fmt("%s of '%s' (%s, verbose %s)",on,p.substr(0,150).c_str(),fn,verbose?"on":"off");
        VF_CHECK(!got,"P09.null","%s returned a data set",cs.c_str());
        std::set<std::string> l1=listing(dir); VF_CHECK(l1==l0&&listing(dir+"/sub")==s0,std::string("P09.created.")+on,"%s left a file behind",cs.c_str());
        if(verbose) VF_CHECK(!es.str().empty(),fmt("P09.silent.%s.%s",on,known?format(e).base:"dispatch"),"%s wrote no diagnostic to the caller's stream%s%s",cs.c_str(),spill.empty()?"":"; instead ",spill.c_str());
        if(!verbose&&known) VF_CHECK(es.str().empty(),fmt("P09.noisy.%s.%s",on,format(e).base),"%s wrote to the caller's stream: %s",cs.c_str(),es.str().c_str());
        VF_CHECK(spill.empty(),fmt("P09.spill.%s.%s",on,known?format(e).base:"dispatch"),"%s printed elsewhere: %s",cs.c_str(),spill.c_str());
        VF_CHECK(es.good(),"P09.stream","%s left the caller's stream in an error state",cs.c_str());
        if(fault==3) rmdir(p.c_str()); else if(willCreate) unlink(p.c_str());
        // the same name works once the reason is gone
        if(known&&!writing&&fault!=7&&fault!=1&&fault!=2&&fault!=6&&r.chance(1,2)){ Table t; std::string b=encode(e,r,t); unlink(p.c_str()); spit(p,gz&&format(e).gz?gzipForeign(r,b):b); std::ostringstream e2; PD q(op==2?Partio::readCached(p.c_str(),false,true,e2):Partio::read(p.c_str(),true,e2)); VF_CHECK(q,"P09.later","%s: after the file was created, it still cannot be read: %s",cs.c_str(),e2.str().c_str()); unlink(p.c_str()); count("recovered"); }
        if(known&&writing&&r.chance(1,3)){ std::string ok=dir+"/ok"+x; Table t=genWritable(format(e).base,r,r.range(1,10)); PM q(make(t)); std::ostringstream e2; Partio::write(ok.c_str(),*q,false,true,e2); VF_CHECK(exists(ok),"P09.later","%s: a later write of %s fails: %s",cs.c_str(),ok.c_str(),e2.str().c_str()); if(format(e).rd){ PM z(Partio::read(ok.c_str(),true,e2)); VF_CHECK(z&&z->numParticles()==t.n,"P09.later","%s: a later write and read of %s fails: %s",cs.c_str(),ok.c_str(),e2.str().c_str()); } unlink(ok.c_str()); count("recovered"); }
    }
    // a device that is full, or a file that may not grow: the call returns and nothing else changes
    { std::string e=wr[k%wr.size()]; bool gz=format(e).gz&&r.chance(1,3); std::string p=dir+"/full."+e+(gz?".gz":""); bool dev=r.chance(1,2); if(dev){ if(symlink("/dev/full",p.c_str())!=0) return; } Table t=genWritable(format(e).base,r); PM q(make(t)); std::ostringstream es; { Capture c; FileLimit fl(!dev,(long)r.below(2000)); Partio::write(p.c_str(),*q,false,r.chance(1,2),es); } count(dev?"full_device":"file_size_limit"); std::string d=diff(t,snapshot(*q)); VF_CHECK(d.empty(),"P09.disturbed","a failing write changed the data set: %s",d.c_str()); unlink(p.c_str()); }
    for(auto& a:alive){ std::string d=diff(a.first,snapshot(*a.second)); VF_CHECK(d.empty(),"P09.disturbed","failing calls changed a data set: %s",d.c_str()); }
    { std::string d=diff(want,snapshot(*held)); VF_CHECK(d.empty(),"P09.disturbed","failing calls changed a cached data set: %s",d.c_str()); PD again(Partio::readCached(keep.c_str(),false,false)); VF_CHECK(again.get()==held.get(),"P09.cache","failing calls made the cache forget a held file"); PM q(Partio::read(keep.c_str(),false)); VF_CHECK(q&&diff(want,snapshot(*q)).empty(),"P09.later","a good file can no longer be read"); } });

// ------------------------------------------------------------------------- cache ------------
struct Entry { ParticlesData* p=nullptr; int refs=0; Table t; bool sorted=false; };
static void queryCheck(Rng& r,const ParticlesData& p,const Table& t,const char* what){
    const Attr* a=t.find("position"); if(!a||t.n==0||a->type!=T_VECTOR||a->count!=3) return; float lo[3],hi[3]; for(int c=0;c<3;c++){ float x=u2f(a->vals[3*r.below(t.n)+c]),y=u2f(a->vals[3*r.below(t.n)+c]); lo[c]=std::min(x,y)-1; hi[c]=std::max(x,y)+1; }
    std::vector<ParticleIndex> got,ref; p.findPoints(lo,hi,got); for(int i=0;i<t.n;i++){ bool in=true; for(int c=0;c<3;c++){ float x=u2f(a->vals[3*i+c]); in&=x>=lo[c]&&x<=hi[c]; } if(in) ref.push_back(i); } std::sort(got.begin(),got.end()); VF_CHECK(got==ref,"P10.query","%s: a sorted cached set answers a box query with %zu instead of %zu particles",what,got.size(),ref.size()); count("queries"); 
    float ce[3]={u2f(a->vals[0]),u2f(a->vals[1]),u2f(a->vals[2])}; std::vector<ParticleIndex> np; std::vector<float> nd; p.findNPoints(ce,1,10,np,nd); VF_CHECK(np.size()==1&&nd[0]==0,"P10.query","%s: nearest neighbour of particle 0 not found",what); }
// many files at once, many references to one
static void scaleCase(Rng& r){
    std::string dir=tmpFile("m"); mkdir(dir.c_str(),0700); struct RM { std::string d; ~RM(){ rmTree(d); } } rm{dir}; std::ostringstream es; static const int ns[]={1,17,33,65,129,257,300}; int nf=ns[r.below(7)]; std::vector<std::string> name(nf); std::vector<Table> t(nf); std::vector<ParticlesData*> p(nf,nullptr); std::vector<int> refs(nf,0);
    std::string stem= r.chance(1,3)? std::string(r.range(100,200),'n') : "n"; auto rewrite=[&](int i){ GenOpt o; o.vals=V_SMALL; o.n=1+i%7; o.maxAttrs=1; Table x=genTable(r,o); PM q(make(x)); Partio::write(name[i].c_str(),*q,false,true,es); t[i]=expectRead("bgeo",x); };
    for(int i=0;i<nf;i++){ name[i]=dir+"/"+stem+fmt("%d.bgeo",i); rewrite(i); }
    auto acquire=[&](int i){ ParticlesData* x=Partio::readCached(name[i].c_str(),r.chance(1,4),false,es); VF_CHECK(x,"P10.null","%d files: null for an existing file",nf); if(refs[i]) VF_CHECK(x==p[i],"P10.identity","%d files held: a held file was returned as another object",nf); else { for(int j=0;j<nf;j++) if(refs[j]) VF_CHECK(p[j]!=x,"P10.shared","%d files held: two names share one object",nf); std::string d=diff(t[i],snapshot(*x)); VF_CHECK(d.empty(),"P10.content","%d files: content differs from the file: %s",nf,d.c_str()); } p[i]=x; refs[i]++; };
    auto drop=[&](int i){ p[i]->release(); if(--refs[i]==0) VF_CHECK(getenv("VERIF_REUSE")||__asan_address_is_poisoned(p[i]),"P10.notfreed","%d files: still allocated after the last release",nf); else VF_CHECK(!__asan_address_is_poisoned(p[i]),"P10.early","freed while %d references are left",refs[i]); };
    for(int i=0;i<nf;i++) acquire(i); for(int s=0;s<nf+40;s++){ int i=(int)r.below(nf); if(r.chance(1,2)||!refs[i]) acquire(i); else { drop(i); if(!refs[i]&&r.chance(1,2)) rewrite(i); } } evaluated(nf); count("many_files");
    { static const int rs[]={255,256,257,1000,32767,32768,65535,65536,65537,70000}; int i=(int)r.below(nf),n=rs[r.below(10)]; if(!refs[i]) acquire(i); for(int j=0;j<n;j++){ ParticlesData* x=Partio::readCached(name[i].c_str(),false,false,es); VF_CHECK(x==p[i],"P10.identity","after %d reads a held file was returned as another object",refs[i]); refs[i]++; } for(int j=0;j<n;j++){ p[i]->release(); refs[i]--; VF_CHECK(!__asan_address_is_poisoned(p[i]),"P10.early","freed while %d of %d references are left",refs[i],n); } std::string d=diff(t[i],snapshot(*p[i])); VF_CHECK(d.empty(),"P10.content","after %d reads and releases a held set changed: %s",n,d.c_str()); evaluated(2*n); count("many_references"); distinct(mix(nf*100000+n)^r.next()); }
    for(int i=0;i<nf;i++) if(refs[i]){ std::string d=diff(t[i],snapshot(*p[i])); VF_CHECK(d.empty(),"P10.content","%d files held: a set changed while held: %s",nf,d.c_str()); } for(int i=0;i<nf;i++) while(refs[i]) drop(i);
    for(int i=0;i<nf;i+=1+(int)r.below(5)){ rewrite(i); acquire(i); drop(i); } }
static Reg r10("P10",[](Rng& r,long k){
    if(k%113==7){ scaleCase(r); return; }
    static auto rd=extsOf([](const Format& f){return f.rd&&f.wr&&std::string(f.base)!="bin"&&std::string(f.base)!="prt";}); std::string dir=tmpFile("c"); mkdir(dir.c_str(),0700); if(r.chance(1,2)) mkdir((dir+"/s").c_str(),0700); struct RM { std::string d; ~RM(){ rmTree(d); } } rm{dir};
    // several names, some of them for the same file
    std::vector<std::string> names; int nf=r.range(1,4); for(int i=0;i<nf;i++){ std::string e=r.chance(1,2)?"bgeo":r.pick(rd); if(e=="geo"||e=="hclassic"||e=="pda"||e=="ptc"||e=="ptf") e="pdb"; names.push_back(dir+fmt("/f%d.",i)+e); } names.push_back(dir+"/./f0."+names[0].substr(names[0].rfind('.')+1)); { std::string l=dir+"/link"+names[0].substr(names[0].rfind('.')); if(symlink(names[0].substr(dir.size()+1).c_str(),l.c_str())==0) names.push_back(l); }
    auto target=[&](size_t i)->std::string { return (int)i<nf? names[i] : names[0]; };
    std::map<std::string,Table> disk;   // what reading the file returns
    auto writeFile=[&](size_t i){ std::string f=target(i),e=f.substr(f.rfind('.')+1); Table t; if(format(e).base==std::string("bgeo")){ GenOpt o; o.vals=V_SMALL; o.bigN=400; if(r.chance(1,6)){ o.n=r.chance(1,40)?r.range(9000,70000):r.range(900,3000); o.maxAttrs=2; count("large_files"); } t=genTable(r,o); } else { t=genWritable(format(e).base,r,r.range(1,120)); for(auto& a:t.attrs) if(a.isFloat()) genVals(r,a,t.n,V_SMALL); } PM p(make(t)); std::ostringstream es; Partio::write(f.c_str(),*p,r.chance(1,4)&&format(e).gz,true,es); Table x=expectRead(e,t); disk[f]=x; };
    for(int i=0;i<nf;i++) if(r.chance(5,6)) writeFile(i);
    std::map<std::string,Entry> model; std::vector<std::string> hist; std::vector<std::pair<ParticlesDataMutable*,Table>> plain; int maxRefs=0;
    auto note=[&](const std::string& s){ hist.push_back(s); }; auto where=[&]{ std::string s; size_t from=hist.size()>14?hist.size()-14:0; for(size_t i=from;i<hist.size();i++) s+=hist[i]+"; "; return s; };
    int steps=r.range(10,60); uint64_t hh=1;
    for(int s=0;s<steps;s++){
        size_t i=r.below(names.size()); int op=(int)r.below(12); static long burst=0; static size_t burstOn=0; if(s==0) burst=0; if(burst>0){ burst--; i=burstOn; op=0; } else if(r.chance(1,25)){ burst=r.range(2,r.chance(1,10)?300:7); steps+=(int)burst; burstOn=i; op=0; count("bursts"); } std::string n=names[i]; hh=mix(hh^(op*16+i));
        if(op<=4){ bool sort=r.chance(1,burst>0?2:3); std::ostringstream es; ParticlesData* p=Partio::readCached(n.c_str(),sort,r.chance(1,2),es); note(fmt("readCached(%s,%d)",n.substr(dir.size()).c_str(),sort)); evaluated(); auto it=model.find(n); bool onDisk=disk.count(target(i));
            if(it!=model.end()){ VF_CHECK(p==it->second.p,"P10.identity","history %s: a held file was returned as another object (%p, held %p)",where().c_str(),(void*)p,(void*)it->second.p); it->second.refs++; count("hits"); maxRefs=std::max(maxRefs,it->second.refs); }
            else if(!onDisk){ VF_CHECK(!p,"P10.missing","history %s: a missing file gives a data set",where().c_str()); count("failed_reads"); continue; }
            else { VF_CHECK(p,"P10.null","history %s: null for an existing file: %s",where().c_str(),es.str().c_str()); for(auto& m:model) VF_CHECK(m.second.p!=p,"P10.shared","history %s: two names share one object",where().c_str()); Entry e; e.p=p; e.refs=1; e.t=disk[target(i)]; model[n]=e; count("loads"); it=model.find(n); }
            Entry& e=model[n]; std::string d=diff(e.t,snapshot(*p)); VF_CHECK(d.empty(),"P10.content","history %s: content differs from the file when it was loaded: %s",where().c_str(),d.c_str());
            if(sort||e.sorted){ e.sorted=true; queryCheck(r,*p,e.t,where().c_str()); } }
        else if(op<=7){ if(model.empty()) continue; auto it=model.begin(); std::advance(it,r.below(model.size())); Entry& e=it->second; note(fmt("release(%s) at %d",it->first.substr(dir.size()).c_str(),e.refs)); ParticlesData* p=e.p; evaluated(); p->release(); if(--e.refs==0){ VF_CHECK(getenv("VERIF_REUSE")||__asan_address_is_poisoned(p),"P10.notfreed","history %s: the object is still allocated after its last release",where().c_str()); model.erase(it); count("last_releases"); } else VF_CHECK(!__asan_address_is_poisoned(p),"P10.early","history %s: the object was freed while %d references are left",where().c_str(),e.refs); }
        else if(op==8){ int f=(int)r.below(nf); note(fmt("rewrite %s",names[f].substr(dir.size()).c_str())); unlink(names[f].c_str()); if(r.chance(3,4)) writeFile(f); else disk.erase(names[f]); }
        else if(op==9){ std::ostringstream es; note("uncached read/release"); if(!plain.empty()&&r.chance(1,2)){ size_t j=r.below(plain.size()); std::string d=diff(plain[j].second,snapshot(*plain[j].first)); VF_CHECK(d.empty(),"P10.plain","history %s: an uncached set changed: %s",where().c_str(),d.c_str()); plain[j].first->release(); plain.erase(plain.begin()+j); } else if(disk.count(target(i))){ ParticlesDataMutable* p=Partio::read(n.c_str(),false,es); VF_CHECK(p,"P10.plain","history %s: cannot read %s",where().c_str(),n.c_str()); for(auto& m:model) VF_CHECK(m.second.p!=p,"P10.aliased","history %s: an uncached read returned the cached object",where().c_str()); plain.push_back({p,disk[target(i)]}); } }
        else if(op==10){ note("failing reads"); std::ostringstream es; static const char* bad[]={"/none.bgeo","/none.zzz","/none","/s"}; std::string b=dir+bad[r.below(4)]; ParticlesData* p=Partio::readCached(b.c_str(),r.chance(1,2),r.chance(1,2),es); VF_CHECK(!p,"P10.missing","a missing file gives a data set"); std::string g=dir+"/junk.pdb"; spit(g,std::string("\x9e\2\0\0\1\0garbage",13)+std::string(60,(char)r.below(256))); p=Partio::readCached(g.c_str(),false,false,es); if(p) p->release(); unlink(g.c_str()); evaluated(2); count("failed_reads",2); }
        else { // the whole pool still holds what was loaded
            note("check all"); evaluated(); for(auto& m:model){ std::string d=diff(m.second.t,snapshot(*m.second.p)); VF_CHECK(d.empty(),"P10.content","history %s: %s changed while held: %s",where().c_str(),m.first.substr(dir.size()).c_str(),d.c_str()); if(m.second.sorted) queryCheck(r,*m.second.p,m.second.t,where().c_str()); if(r.chance(1,3)){ Partio::beginCachedAccess(m.second.p); Partio::endCachedAccess(m.second.p); PM c(Partio::clone(*m.second.p)); } } }
    }
    for(auto& m:model) while(m.second.refs){ m.second.refs--; ParticlesData* p=m.second.p; p->release(); if(!m.second.refs) VF_CHECK(getenv("VERIF_REUSE")||__asan_address_is_poisoned(p),"P10.notfreed","history %s: still allocated after the last release",where().c_str()); }
    for(auto& p:plain){ std::string d=diff(p.second,snapshot(*p.first)); VF_CHECK(d.empty(),"P10.plain","history %s: an uncached set changed: %s",where().c_str(),d.c_str()); p.first->release(); }
    // nothing is held any more: the next cached read sees the file as it is now
    for(size_t i=0;i<names.size();i++) if(disk.count(target(i))){ std::ostringstream es; writeFile((int)i<nf?i:0); PD p(Partio::readCached(names[i].c_str(),false,false,es)); VF_CHECK(p,"P10.null","history %s: null for an existing file",where().c_str()); std::string d=diff(disk[target(i)],snapshot(*p)); VF_CHECK(d.empty(),"P10.stale","history %s: after the last release the old content is returned: %s",where().c_str(),d.c_str()); count("reloads"); }
    distinct(hh); count(fmt("max_references.%d",std::min(maxRefs,6))); if(k<2) sample(where()); });

int main(int argc,char** argv){ return runMain(argc,argv); }
