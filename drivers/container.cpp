// P13-P17: containers, iterators, bulk access and string tables against a reference table.
#include "codec.h"
#include <PartioIterator.h>
using namespace vf;

// ---- a model attribute that knows which of its values have been written ----------------------
struct MAttr { Attr a; std::vector<char> known; std::map<std::string,std::vector<int>> tokens; };   // tokens: string -> tokens that carry it
struct Model {
    int n=0; std::vector<MAttr> at,fx;
    MAttr* find(std::vector<MAttr>& v,const std::string& s){ for(auto& m:v) if(m.a.name==s) return &m; return nullptr; }
};
// one container under test, with the handles it handed out
struct Sut { const char* name; PM p; std::vector<ParticleAttribute> h; std::vector<FixedAttribute> f; };

static void checkSchema(Sut& s,Model& m,const char* pid,const char* op){
    ParticlesDataMutable& p=*s.p;
    VF_CHECK(p.numParticles()==m.n,std::string(pid)+".count","%s after %s: %d particles, expected %d",s.name,op,p.numParticles(),m.n);
    VF_CHECK(p.numAttributes()==(int)m.at.size(),std::string(pid)+".nattr","%s after %s: %d attributes, expected %zu",s.name,op,p.numAttributes(),m.at.size());
    VF_CHECK(p.numFixedAttributes()==(int)m.fx.size(),std::string(pid)+".nfixed","%s after %s: %d fixed attributes, expected %zu",s.name,op,p.numFixedAttributes(),m.fx.size());
}
static void checkLookups(Sut& s,Model& m,Rng& r,const char* pid){
    ParticlesDataMutable& p=*s.p; std::string K=std::string(pid)+".lookup";
    for(int bad: {-1,-100,(int)m.at.size(),(int)m.at.size()+3,INT_MAX,INT_MIN}){ ParticleAttribute a; VF_CHECK(!p.attributeInfo(bad,a),K,"%s: attributeInfo(%d) accepted with %zu attributes",s.name,bad,m.at.size()); }
    for(int bad: {-1,-100,(int)m.fx.size(),(int)m.fx.size()+3,INT_MAX,INT_MIN}){ FixedAttribute a; VF_CHECK(!p.fixedAttributeInfo(bad,a),K,"%s: fixedAttributeInfo(%d) accepted with %zu attributes",s.name,bad,m.fx.size()); }
    for(size_t i=0;i<m.at.size();i++){ ParticleAttribute a,b; const Attr& e=m.at[i].a; VF_CHECK(p.attributeInfo((int)i,a)&&a.name==e.name&&a.type==e.type&&a.count==e.count,K,"%s: attribute %zu is '%s' %s[%d], expected '%s' %s[%d]",s.name,i,shortStr(a.name).c_str(),typeName(a.type),a.count,shortStr(e.name).c_str(),typeName(e.type),e.count);
        VF_CHECK(p.attributeInfo(e.name.c_str(),b)&&b.name==e.name&&b.type==e.type&&b.count==e.count&&b.attributeIndex==a.attributeIndex,K,"%s: lookup of '%s' by name and by index disagree",s.name,shortStr(e.name).c_str()); }
    for(size_t i=0;i<m.fx.size();i++){ FixedAttribute a,b; const Attr& e=m.fx[i].a; VF_CHECK(p.fixedAttributeInfo((int)i,a)&&a.name==e.name&&a.type==e.type&&a.count==e.count,K,"%s: fixed attribute %zu is '%s' %s[%d], expected '%s' %s[%d]",s.name,i,shortStr(a.name).c_str(),typeName(a.type),a.count,shortStr(e.name).c_str(),typeName(e.type),e.count);
        VF_CHECK(p.fixedAttributeInfo(e.name.c_str(),b)&&b.name==e.name&&b.type==e.type&&b.count==e.count&&b.attributeIndex==a.attributeIndex,K,"%s: lookup of fixed '%s' by name and by index disagree",s.name,shortStr(e.name).c_str()); }
    for(int i=0;i<3;i++){ std::string u=i==0?"":genWord(r,1,3); if(i==1&&!m.at.empty()) u=m.at[r.below(m.at.size())].a.name+"x"; if(i==2&&!m.at.empty()){ u=m.at[r.below(m.at.size())].a.name; if(!u.empty()) u.resize(u.size()-1); }
        ParticleAttribute a; FixedAttribute f; VF_CHECK(p.attributeInfo(u.c_str(),a)==(m.find(m.at,u)!=nullptr),K,"%s: attributeInfo('%s') is wrong about its existence",s.name,shortStr(u).c_str()); VF_CHECK(p.fixedAttributeInfo(u.c_str(),f)==(m.find(m.fx,u)!=nullptr),K,"%s: fixedAttributeInfo('%s') is wrong about its existence",s.name,shortStr(u).c_str()); }
    count("lookups_checked",m.at.size()+m.fx.size());
}
static void checkOne(Sut& s,Model& m,size_t ai,int i,const char* pid,const char* op){
    MAttr& a=m.at[ai]; const uint32_t* d=s.p->data<uint32_t>(s.h[ai],i); VF_CHECK(d||!a.a.count,std::string(pid)+".null","%s: data() null",s.name);
    for(int c=0;c<a.a.count;c++){ size_t k=(size_t)i*a.a.count+c; if(a.known[k]) VF_CHECK(d[c]==a.a.vals[k],std::string(pid)+".value","%s after %s: '%s' %s[%d] of particle %d/%d component %d is 0x%08x, last written 0x%08x",s.name,op,shortStr(a.a.name).c_str(),typeName(a.a.type),a.a.count,i,m.n,c,d[c],a.a.vals[k]); }
}
static void checkStrs(const std::vector<std::string>& got,const MAttr& a,const char* pid,const char* who,const char* op){
    VF_CHECK(got==a.a.strs,std::string(pid)+".strs","%s after %s: string table of '%s' has %zu entries that differ from the %zu registered",who,op,shortStr(a.a.name).c_str(),got.size(),a.a.strs.size()); }
static void checkAll(Sut& s,Model& m,const char* pid,const char* op){
    for(size_t ai=0;ai<m.at.size();ai++){ for(int i=0;i<m.n;i++) checkOne(s,m,ai,i,pid,op); if(m.at[ai].a.type==T_STR) checkStrs(s.p->indexedStrs(s.h[ai]),m.at[ai],pid,s.name,op); count("values_checked",(uint64_t)m.n*m.at[ai].a.count); }
    for(size_t ai=0;ai<m.fx.size();ai++){ MAttr& a=m.fx[ai]; const uint32_t* d=s.p->fixedData<uint32_t>(s.f[ai]); for(int c=0;c<a.a.count;c++) if(a.known[c]) VF_CHECK(d[c]==a.a.vals[c],std::string(pid)+".fixedvalue","%s after %s: fixed '%s' component %d is 0x%08x, last written 0x%08x",s.name,op,shortStr(a.a.name).c_str(),c,d[c],a.a.vals[c]); if(a.a.type==T_STR) checkStrs(s.p->fixedIndexedStrs(s.f[ai]),a,pid,s.name,op); }
    if(m.n>0&&!m.at.empty()&&s.name[0]=='d'){ VF_CHECK(s.p->data<uint32_t>(s.h[0],(ParticleIndex)m.n)==nullptr,std::string(pid)+".range","%s: data() of particle %d of %d is not null",s.name,m.n,m.n); uint32_t junk[64]={0}; if(m.at[0].a.count<=64) s.p->set<uint32_t>(s.h[0],(ParticleIndex)m.n+7,junk); }
}
static uint32_t genAny(Rng& r,const Attr& a){ return a.isFloat()?genFloat(r,V_BITS):a.type==T_STR?(uint32_t)r.range(0,std::max(0,(int)a.strs.size()-1)):genInt(r); }
static void genShape(Rng& r,Attr& a){
    static const int ty[]={T_FLOAT,T_VECTOR,T_INT,T_STR,T_FLOAT,T_INT}; a.type=ty[r.below(6)];
    a.count= a.type==T_VECTOR? (r.chance(4,5)?3:r.range(1,5)) : r.chance(1,2)?1 : r.chance(1,10)?r.range(10,70) : r.range(1,8); if(r.chance(1,60)) a.count=0; }
static std::string genAttrName(Rng& r){ if(r.chance(1,10)) return genString(r,S_ANY); if(r.chance(1,6)) return "position"; return r.chance(1,2)?commonName(r):genWord(r,1,4); }

static void history(Rng& r,long k,bool both,const char* pid){
    std::vector<Sut> suts; suts.push_back({"default",PM(Partio::create()),{},{}}); if(both) suts.push_back({"interleaved",PM(Partio::createInterleave()),{},{}});
    Model m; int ops=r.chance(1,10)?r.range(80,250):r.range(10,70); uint64_t h=hashStr(pid); std::string trace;
    bool vast=r.chance(1,500),wide=!vast&&r.chance(1,150),big=!wide&&(vast||r.chance(1,12)); int maxN= vast?250000:big?20000:wide?12:1500; if(vast){ ops=std::min(ops,60); count("vast_histories"); } if(wide) count("wide_histories"); char lastOp[80]="create";
    for(auto& s:suts){ checkSchema(s,m,pid,"create"); checkLookups(s,m,r,pid); }
    // some histories begin with a long schema phase, so that the first particle meets many attributes
    int schemaFirst=r.chance(1,6)? (r.chance(1,12)? r.range(100,280):r.range(2,45)) : 0; ops+=schemaFirst; if(schemaFirst>90) count("wide_schemas"); size_t maxAttrs=vast?4:wide?12:schemaFirst>90?270:40;
    for(int o=0;o<ops;o++){
        int w=o<schemaFirst? (int)r.below(17) : (int)r.below(100); h=mix(h^w^((uint64_t)m.n<<32)^m.at.size());
        if(w<14 && m.at.size()<maxAttrs){ // attribute
            Attr a; a.name=genAttrName(r); genShape(r,a); if(vast) a.count=std::min(a.count,3); if(wide&&a.type!=T_VECTOR&&r.chance(1,2)) a.count=r.range(100,r.chance(1,2)?9000:33000); if(a.name=="position"&&r.chance(3,4)){ a.type=T_VECTOR; a.count=3; } bool dup=m.find(m.at,a.name)!=nullptr;
            for(auto& s:suts){ ParticleAttribute pa=s.p->addAttribute(a.name.c_str(),(Partio::ParticleAttributeType)a.type,a.count);
                if(dup) VF_CHECK(pa.type==Partio::NONE&&pa.count==0,std::string(pid)+".duplicate","%s: duplicate attribute '%s' was accepted",s.name,shortStr(a.name).c_str());
                else { VF_CHECK(pa.name==a.name&&pa.type==a.type&&pa.count==a.count,std::string(pid)+".handle","%s: addAttribute('%s',%s,%d) returned '%s' %s[%d]",s.name,shortStr(a.name).c_str(),typeName(a.type),a.count,shortStr(pa.name).c_str(),typeName(pa.type),pa.count); s.h.push_back(pa); } }
            if(dup) count("duplicate_refused"); else { MAttr ma; ma.a=a; ma.a.vals.resize((size_t)m.n*a.count); ma.known.assign((size_t)m.n*a.count,0); m.at.push_back(ma); }
            snprintf(lastOp,80,"addAttribute #%d (%s[%d]%s)",o,typeName(a.type),a.count,dup?" duplicate":"");
        } else if(w<20 && m.fx.size()<30){
            Attr a; a.name=genAttrName(r); genShape(r,a); if(wide&&r.chance(1,2)) a.count=r.range(100,r.chance(1,2)?9000:33000); bool dup=m.find(m.fx,a.name)!=nullptr;
            for(auto& s:suts){ FixedAttribute pa=s.p->addFixedAttribute(a.name.c_str(),(Partio::ParticleAttributeType)a.type,a.count);
                if(dup) VF_CHECK(pa.type==Partio::NONE&&pa.count==0,std::string(pid)+".duplicate","%s: duplicate fixed attribute accepted",s.name);
                else { VF_CHECK(pa.name==a.name&&pa.type==a.type&&pa.count==a.count,std::string(pid)+".handle","%s: addFixedAttribute returned another shape",s.name); s.f.push_back(pa); } }
            if(!dup){ MAttr ma; ma.a=a; ma.a.vals.resize(a.count); ma.known.assign(a.count,0); m.fx.push_back(ma); }
            snprintf(lastOp,80,"addFixedAttribute #%d",o);
        } else if(w<34 && m.n<maxN){
            int k=vast&&r.chance(1,2)?r.range(1000,70000):r.chance(1,6)?r.range(1,40):r.range(1,4); if(wide) k=std::min(k,maxN-m.n);
            for(int i=0;i<k;i++){ for(auto& s:suts){ ParticleIndex x=s.p->addParticle(); VF_CHECK(x==(ParticleIndex)m.n,std::string(pid)+".index","%s: addParticle returned %llu, expected %d",s.name,(unsigned long long)x,m.n); } m.n++; }
            for(auto& a:m.at){ a.a.vals.resize((size_t)m.n*a.a.count); a.known.resize((size_t)m.n*a.a.count,0); }
            snprintf(lastOp,80,"addParticle x%d #%d",k,o);
        } else if(w<44 && m.n<maxN){
            int k= wide? r.range(0,maxN-m.n) : r.chance(1,10)?0 : vast&&r.chance(1,2)? r.range(5000,90000) : big&&r.chance(1,3)? r.range(100,5000): r.chance(1,3)?r.range(1,200):r.range(1,20);
            for(auto& s:suts){ auto it=s.p->addParticles(k); int seen=0; bool ok=true; for(auto e=s.p->end();it!=e;++it){ ok&= it.index==(size_t)(m.n+seen); seen++; if(seen>k+2) break; } VF_CHECK(ok&&seen==k,std::string(pid)+".bulkindex","%s: the iterator of addParticles(%d) at %d visits %d particles%s",s.name,k,m.n,seen,ok?"":" with wrong indices"); }
            m.n+=k; for(auto& a:m.at){ a.a.vals.resize((size_t)m.n*a.a.count); a.known.resize((size_t)m.n*a.a.count,0); }
            snprintf(lastOp,80,"addParticles(%d) #%d",k,o);
        } else if(w<72 && m.n>0 && !m.at.empty()){ // write some values
            size_t ai=r.below(m.at.size()); MAttr& a=m.at[ai]; int k=r.chance(1,4)&&m.n<20000?m.n:r.range(1,std::min(m.n,m.n<20000?12:3000)); int start=(int)r.below(m.n); int how=(int)r.below(4); 
            for(int q=0;q<k;q++){ int i=(start+q)%m.n; if(r.chance(1,8)) i=m.n-1-(int)r.below(std::min(m.n,3)); std::vector<uint32_t> v(a.a.count); for(auto& x:v) x=genAny(r,a.a);
                for(auto& s:suts){ if(how==0) s.p->set<uint32_t>(s.h[ai],i,v.data()); else if(how==1){ uint32_t* d=s.p->dataWrite<uint32_t>(s.h[ai],i); for(int c=0;c<a.a.count;c++) d[c]=v[c]; }
                    else if(how==2){ auto it=s.p->setupIterator(i); Partio::ParticleAccessor acc(s.h[ai]); it.addAccessor(acc); uint32_t* d=acc.raw<uint32_t>(it); for(int c=0;c<a.a.count;c++) d[c]=v[c]; }
                    else { ParticleAttribute again; VF_CHECK(s.p->attributeInfo(a.a.name.c_str(),again),std::string(pid)+".lookup","%s: attribute '%s' vanished",s.name,shortStr(a.a.name).c_str()); memcpy(s.p->dataWrite<void>(again,i),v.data(),v.size()*4); } }
                for(int c=0;c<a.a.count;c++){ a.a.vals[(size_t)i*a.a.count+c]=v[c]; a.known[(size_t)i*a.a.count+c]=1; } }
            count("values_written",(uint64_t)k*a.a.count); snprintf(lastOp,80,"set #%d",o);
        } else if(w<78 && !m.fx.empty()){
            size_t ai=r.below(m.fx.size()); MAttr& a=m.fx[ai]; std::vector<uint32_t> v(a.a.count); for(auto& x:v) x=genAny(r,a.a);
            for(auto& s:suts){ if(r.chance(1,2)) s.p->setFixed<uint32_t>(s.f[ai],v.data()); else memcpy(s.p->fixedDataWrite<void>(s.f[ai]),v.data(),v.size()*4); }
            for(int c=0;c<a.a.count;c++){ a.a.vals[c]=v[c]; a.known[c]=1; } snprintf(lastOp,80,"setFixed #%d",o);
        } else if(w<88){ // strings
            bool fixed=r.chance(1,3); std::vector<MAttr>& v=fixed?m.fx:m.at; std::vector<size_t> c; for(size_t i=0;i<v.size();i++) if(v[i].a.type==T_STR) c.push_back(i);
            if(!c.empty()){ size_t ai=c[r.below(c.size())]; MAttr& a=v[ai]; std::string st=a.a.strs.empty()||r.chance(2,3)?genString(r,S_ANY):a.a.strs[r.below(a.a.strs.size())]; int want=-1; for(size_t i=0;i<a.a.strs.size();i++) if(a.a.strs[i]==st) want=(int)i; bool isNew=want<0; if(isNew) want=(int)a.a.strs.size();
                for(auto& s:suts){ int t=fixed?s.p->registerFixedIndexedStr(s.f[ai],st.c_str()):s.p->registerIndexedStr(s.h[ai],st.c_str()); VF_CHECK(t==want,std::string(pid)+".token","%s: registering a string gave token %d, expected %d",s.name,t,want); int l=fixed?s.p->lookupFixedIndexedStr(s.f[ai],st.c_str()):s.p->lookupIndexedStr(s.h[ai],st.c_str()); VF_CHECK(l==want,std::string(pid)+".token","%s: lookup gave %d, expected %d",s.name,l,want); }
                if(isNew) a.a.strs.push_back(st); count("strings"); } snprintf(lastOp,80,"registerIndexedStr #%d",o);
        } else if(w<92){
            bool ok=true; MAttr* pos=m.find(m.at,"position"); if(pos){ for(size_t i=0;i<pos->known.size();i++) if(!pos->known[i]||!std::isfinite(u2f(pos->a.vals[i]))) ok=false; if(pos->a.type!=T_VECTOR||pos->a.count!=3) ok=true; }
            if(ok&&m.n<3000){ for(auto& s:suts) s.p->sort(); count(pos?"sorts":"sorts_without_position"); snprintf(lastOp,80,"sort #%d",o); }
        } else if(w<96){ for(auto& s:suts) checkLookups(s,m,r,pid); }
        else { for(auto& s:suts) checkAll(s,m,pid,lastOp); }
        for(auto& s:suts){ checkSchema(s,m,pid,lastOp); if(m.n&&!m.at.empty()) for(int q=0;q<3;q++) checkOne(s,m,r.below(m.at.size()),(int)r.below(m.n),pid,lastOp); }
        count("operations");
    }
    for(auto& s:suts){ checkLookups(s,m,r,pid); checkAll(s,m,pid,lastOp); }
    evaluated(); distinct(mix(h^m.n)); if(k<2) sample(fmt("%d operations ending with %d particles, %zu attributes, %zu fixed",ops,m.n,m.at.size(),m.fx.size()));
    count(m.n>10?"histories_beyond_first_growth":"short_histories");
    if(!both) return;
    // give every value a definite content, then the two containers must be indistinguishable
    for(size_t ai=0;ai<m.at.size();ai++){ MAttr& a=m.at[ai]; for(int i=0;i<m.n;i++){ bool all=true; for(int c=0;c<a.a.count;c++) all&=a.known[(size_t)i*a.a.count+c]; if(all) continue; for(int c=0;c<a.a.count;c++) a.a.vals[(size_t)i*a.a.count+c]=genAny(r,a.a); for(auto& s:suts) s.p->set<uint32_t>(s.h[ai],i,&a.a.vals[(size_t)i*a.a.count]); } }
    for(size_t ai=0;ai<m.fx.size();ai++){ MAttr& a=m.fx[ai]; bool all=true; for(char c:a.known) all&=c; if(all) continue; for(auto& x:a.a.vals) x=genAny(r,a.a); for(auto& s:suts) s.p->setFixed<uint32_t>(s.f[ai],a.a.vals.data()); }
    Table a=snapshot(*suts[0].p),b=snapshot(*suts[1].p); std::string d=diff(a,b); VF_CHECK(d.empty(),"P14.snapshot","interleaved differs from default: %s",d.c_str());
    { PM c(Partio::clone(*suts[1].p)); d=diff(a,snapshot(*c)); VF_CHECK(d.empty(),"P14.clone","a clone of the interleaved set differs: %s",d.c_str()); count("clones_compared"); }
    for(auto& s:suts){ for(size_t ai=0;ai<s.h.size();ai++){ std::vector<int> seen; auto it=s.p->begin(); Partio::ParticleAccessor acc(s.h[ai]); it.addAccessor(acc); int i=0; for(auto e=s.p->end();it!=e;++it,++i){ const uint32_t* x=acc.raw<uint32_t>(it); for(int c=0;c<m.at[ai].a.count;c++) VF_CHECK(x[c]==m.at[ai].a.vals[(size_t)i*m.at[ai].a.count+c],"P14.iterate","%s: iteration sees another value of '%s' at particle %d",s.name,shortStr(m.at[ai].a.name).c_str(),i); } VF_CHECK(i==m.n,"P14.iterate","%s: iteration visits %d of %d",s.name,i,m.n); if(ai>3) break; } }
    if(m.n>0) for(size_t ai=0;ai<m.at.size()&&ai<6;ai++){ int c=m.at[ai].a.count,nn=r.range(0,20); std::vector<ParticleIndex> idx; for(int i=0;i<nn;i++) idx.push_back(r.below(m.n)); std::vector<uint32_t> g0((size_t)nn*c+1,0xabcdef01u),g1=g0; suts[0].p->data<void>(suts[0].h[ai],nn,idx.data(),false,(void*)g0.data()); suts[1].p->data<void>(suts[1].h[ai],nn,idx.data(),false,(void*)g1.data()); VF_CHECK(g0==g1,"P14.gather","gathering '%s' differs between the containers",shortStr(m.at[ai].a.name).c_str()); }
    bool p3=false; if(MAttr* pos=m.find(m.at,"position")) p3=pos->a.type==T_VECTOR&&pos->a.count==3;
    static const char* exts[]={"bgeo","pdb","geo","ptc","pdc","pda","prt","bin","rib"};
    bool zero=false; for(auto& x:m.at) zero|=x.a.count==0||x.a.name.empty(); for(auto& x:m.fx) zero|=x.a.count==0||x.a.name.empty();
    if(p3&&!zero){ std::string ext=exts[r.below(9)],f0=tmpFile("d."+ext),f1=tmpFile("i."+ext); Partio::write(f0.c_str(),*suts[0].p,false,false); Partio::write(f1.c_str(),*suts[1].p,false,false); VF_CHECK(exists(f0)==exists(f1),"P14.write","only one of the containers can be written as %s",ext.c_str()); if(exists(f0)){ VF_CHECK(slurp(f0)==slurp(f1),"P14.write","the containers give different %s files",ext.c_str()); unlink(f0.c_str()); unlink(f1.c_str()); count("files_compared."+ext); } }
    // spatial queries
    if(p3&&m.n>0&&m.n<2000){ bool fin=true; for(auto v:m.find(m.at,"position")->a.vals) fin&=std::isfinite(u2f(v)); if(fin){ for(auto& s:suts) s.p->sort(); MAttr& pos=*m.find(m.at,"position"); for(int q=0;q<4;q++){ const uint32_t* c0=&pos.a.vals[3*r.below(m.n)]; float c[3]={u2f(c0[0]),u2f(c0[1]),u2f(c0[2])},hi[3]; float rad=(float)std::ldexp(1,r.range(-2,20)); float lo[3]; for(int i=0;i<3;i++){ lo[i]=c[i]-rad; hi[i]=c[i]+rad; } std::vector<ParticleIndex> x,y; suts[0].p->findPoints(lo,hi,x); suts[1].p->findPoints(lo,hi,y); std::sort(x.begin(),x.end()); std::sort(y.begin(),y.end()); VF_CHECK(x==y,"P14.findPoints","box queries differ: %zu and %zu points",x.size(),y.size()); std::vector<float> dx,dy; x.clear(); y.clear(); float ra=suts[0].p->findNPoints(c,r.range(1,8),rad,x,dx),rb; rb=suts[1].p->findNPoints(c,(int)std::max<size_t>(1,x.size()),rad,y,dy); (void)ra;(void)rb; std::sort(dx.begin(),dx.end()); std::sort(dy.begin(),dy.end()); VF_CHECK(dx==dy,"P14.findNPoints","nearest neighbour queries differ"); count("queries_compared"); } } }
}
static Reg r13("P13",[](Rng& r,long k){ history(r,k,false,"P13"); });
static Reg r14("P14",[](Rng& r,long k){ history(r,k,true,"P14"); });

// ---- iterators ------------------------------------------------------------------------------
template<class P,class IT> static void walk(P& p,const Table& t,IT it,IT end,int start,int style,const std::vector<int>& which,const std::vector<ParticleAttribute>& h,Rng& r,const char* how){
    std::vector<std::unique_ptr<Partio::ParticleAccessor>> acc; for(int w:which){ acc.emplace_back(new Partio::ParticleAccessor(h[w])); it.addAccessor(*acc.back()); }
    int i=start; long guard=(long)t.n+5;
    for(;it!=end;){
        VF_CHECK(i<t.n&&guard-->0,"P15.beyond","%s: the iteration goes on beyond the last of %d particles (started at %d)",how,t.n,start);
        VF_CHECK(it.valid()&&it.index==(size_t)i,"P15.order","%s: iterator is at %zu, expected %d of %d",how,it.index,i,t.n);
        for(size_t a=0;a<which.size();a++){ const Attr& at=t.attrs[which[a]]; const uint32_t* e=&at.vals[(size_t)i*at.count]; uint32_t got[128];
            if(at.count>128) continue;
            switch(r.below(3)){ case 0: memcpy(got,acc[a]->template raw<uint32_t>(it),at.count*4); break;
                case 1: if(at.isFloat()&&at.count==3){ const Partio::DataV& v=acc[a]->template data<Partio::DataV>(it); memcpy(got,&v,12); } else if(at.isFloat()&&at.count==1){ const Partio::DataF& v=acc[a]->template data<Partio::DataF>(it); memcpy(got,&v,4); } else if(at.count==1){ const Partio::DataI& v=acc[a]->template data<Partio::DataI>(it); memcpy(got,&v,4); } else memcpy(got,acc[a]->template raw<char>(it),at.count*4); break;
                default: { const Partio::ParticleAccessor& ca=*acc[a]; memcpy(got,ca.template raw<char>(it),at.count*4); } }
            VF_CHECK(!memcmp(got,e,at.count*4),"P15.value","%s: accessor %zu of %zu ('%s' %s[%d]) sees 0x%08x at particle %d, expected 0x%08x",how,a,which.size(),shortStr(at.name).c_str(),typeName(at.type),at.count,got[0],i,e[0]); count("accesses"); }
        i++;
        if(style==0||(style==2&&r.chance(1,2))) ++it; else if(which.empty()){ IT old=it++; VF_CHECK(old.index==(size_t)(i-1),"P15.postfix","%s: postfix increment returned an iterator at %zu, expected %d",how,old.index,i-1); } else it++;
    }
    VF_CHECK(i==std::max(start,t.n),"P15.missed","%s: the iteration ended after particle %d of %d (started at %d)",how,i-1,t.n,start); count("walks");
}
static Reg r15("P15",[](Rng& r,long k){
    GenOpt o; o.position=r.chance(1,2); o.bigN=4000; o.maxAttrs=7; Table t=genTable(r,o); bool il=r.chance(1,2); PM p(make(t,&r,r.range(0,3),il)); const ParticlesData& cp=*p;
    std::vector<ParticleAttribute> h; for(auto& a:t.attrs){ ParticleAttribute pa; VF_CHECK(p->attributeInfo(a.name.c_str(),pa),"P15.setup","attribute lost"); h.push_back(pa); }
    evaluated(); distinct(hashTable(t,il)); count(il?"interleaved":"default"); if(t.n==0) count("empty"); if(k<2) sample(describe(t));
    for(int rep=0;rep<6;rep++){
        std::vector<int> which; int na=t.attrs.empty()?0:r.range(0,6); for(int i=0;i<na;i++) which.push_back((int)r.below(t.attrs.size()));
        int style=(int)r.below(3),start= r.chance(1,3)?0: t.n? (int)r.below(t.n+1):0; const char* st=style==0?"prefix":style==1?"postfix":"mixed";
        if(r.chance(1,2)){ ParticlesDataMutable::iterator e=p->end(); if(start==0) walk(*p,t,ParticlesDataMutable::iterator(p->begin()),e,0,style,which,h,r,fmt("mutable %s",st).c_str()); else walk(*p,t,p->setupIterator(start),e,start,style,which,h,r,fmt("mutable %s from index",st).c_str()); }
        else { ParticlesData::const_iterator e=cp.end(); if(start==0) walk(cp,t,cp.begin(),e,0,style,which,h,r,fmt("const %s",st).c_str()); else walk(cp,t,cp.setupConstIterator(start),e,start,style,which,h,r,fmt("const %s from index",st).c_str()); }
    }
    // iterators any distance apart compare as their positions do
    if(t.n>1) for(int q=0;q<12;q++){ int a=(int)r.below(t.n+1),b=(int)r.below(t.n+1); static const int dist[]={1,2,255,256,257,1023,1024,4096,32768,65535,65536,65537,131072}; if(r.chance(2,3)) b=a+dist[r.below(13)]; if(b>t.n) b=t.n; auto x=p->setupIterator(a),y=p->setupIterator(b); ParticlesData::const_iterator cx=cp.setupConstIterator(a),cy=cp.setupConstIterator(b); VF_CHECK((x==y)==(a==b)&&(x!=y)==(a!=b)&&(cx==cy)==(a==b)&&(cx!=cy)==(a!=b),"P15.compare","iterators at %d and %d of %d compare %s",a,b,t.n,x==y?"equal":"unequal"); VF_CHECK((x==p->end())==(a==t.n),"P15.compare","an iterator at %d of %d %s end()",a,t.n,a==t.n?"differs from":"equals"); count("comparisons"); }
    // copies and assignments of iterators are independent
    if(t.n>1){ auto it=p->begin(); int adv=(int)r.below(t.n); for(int i=0;i<adv;i++) ++it; auto cpy=it; ParticlesDataMutable::iterator as; as=it; ++it; VF_CHECK(cpy.index==(size_t)adv&&as.index==(size_t)adv&&cpy==as,"P15.copy","copy of an iterator moved with the original"); if(adv+1<t.n) VF_CHECK(!(cpy==it)&&cpy!=it&&it.index==(size_t)adv+1,"P15.compare","iterators at %d and %d compare equal",adv,adv+1); VF_CHECK(cpy!=p->end(),"P15.compare","an iterator at particle %d equals end()",adv); }
    // writing through accessors
    if(!t.attrs.empty()&&t.n){ Table w=t; std::vector<int> which; for(int i=r.range(1,4);i>0;i--) which.push_back((int)r.below(t.attrs.size())); auto it=p->begin(); std::vector<std::unique_ptr<Partio::ParticleAccessor>> acc; for(int x:which){ acc.emplace_back(new Partio::ParticleAccessor(h[x])); it.addAccessor(*acc.back()); } int i=0; for(auto e=p->end();it!=e;++it,++i) for(size_t a=0;a<which.size();a++){ Attr& at=w.attrs[which[a]]; for(int c=0;c<at.count;c++){ uint32_t v=genAny(r,at); acc[a]->raw<uint32_t>(it)[c]=v; at.vals[(size_t)i*at.count+c]=v; } }
        std::string d=diff(w,snapshot(*p)); VF_CHECK(d.empty(),"P15.write","after writing through %zu accessors: %s",which.size(),d.c_str()); t=w; count("written_through_accessors"); }
    // the iterator of a bulk add
    { int add=r.chance(1,6)?0:r.range(1,50),old=t.n; auto it=p->addParticles(add); t.n+=add; for(auto& a:t.attrs){ a.vals.resize((size_t)t.n*a.count); }
      std::vector<std::unique_ptr<Partio::ParticleAccessor>> acc; for(size_t x=0;x<t.attrs.size();x++){ acc.emplace_back(new Partio::ParticleAccessor(h[x])); it.addAccessor(*acc.back()); }
      int i=old; for(auto e=p->end();it!=e;++it,++i){ VF_CHECK(i<t.n,"P15.bulk","iterator of addParticles(%d) goes beyond the end",add); VF_CHECK(it.index==(size_t)i,"P15.bulk","iterator of addParticles(%d) is at %zu, expected %d",add,it.index,i); for(size_t x=0;x<t.attrs.size();x++) for(int c=0;c<t.attrs[x].count;c++){ uint32_t v=genAny(r,t.attrs[x]); acc[x]->raw<uint32_t>(it)[c]=v; t.attrs[x].vals[(size_t)i*t.attrs[x].count+c]=v; } }
      VF_CHECK(i==t.n,"P15.bulk","iterator of addParticles(%d) ended at %d, expected %d",add,i,t.n); std::string d=diff(t,snapshot(*p)); VF_CHECK(d.empty(),"P15.bulk","after filling the particles of a bulk add: %s",d.c_str()); count("bulk_adds"); }
});

// ---- bulk gathers ---------------------------------------------------------------------------
static Reg r16("P16",[](Rng& r,long k){
    GenOpt o; o.position=r.chance(1,2); o.bigN=3000; o.n=r.chance(1,12)?0:-1; Table t=genTable(r,o); bool il=r.chance(1,2); PM p(make(t,&r,r.range(0,3),il)); evaluated(); distinct(hashTable(t,il)); count(il?"interleaved":"default"); if(k<2) sample(describe(t));
    for(auto& a:t.attrs){ ParticleAttribute pa; VF_CHECK(p->attributeInfo(a.name.c_str(),pa),"P16.setup","attribute lost");
        for(int rep=0;rep<3;rep++){
            std::vector<ParticleIndex> idx; int kind=(int)r.below(5); if(t.n>0){ int c= kind==4?0: r.range(1,kind==3?400:40); if(kind==0) for(int i=0;i<t.n;i++) idx.push_back(i); else for(int i=0;i<c;i++) idx.push_back(r.chance(1,10)?(r.chance(1,2)?0:t.n-1):r.below(t.n)); }
            bool sorted=r.chance(1,2); if(sorted) std::sort(idx.begin(),idx.end()); bool flag= sorted&&r.chance(1,2);
            size_t nv=idx.size()*(size_t)a.count; const uint32_t G=0x5ca1ab1e; std::vector<uint32_t> out(nv+8,G);
            // exact-size heap buffer so that the sanitizer sees one element too many
            std::unique_ptr<uint32_t[]> ex(new uint32_t[nv?nv:1]); for(size_t i=0;i<nv;i++) ex[i]=G; std::vector<ParticleIndex> keep=idx;
            if(r.chance(1,2)||a.type==T_NONE) p->data<void>(pa,(int)idx.size(),idx.data(),flag,(void*)(out.data()+4)); else if(a.isFloat()) p->data<float>(pa,(int)idx.size(),idx.data(),flag,(float*)(out.data()+4)); else p->data<int>(pa,(int)idx.size(),idx.data(),flag,(int*)(out.data()+4));
            p->data<void>(pa,(int)idx.size(),idx.data(),flag,(void*)ex.get());
            for(int g=0;g<4;g++) VF_CHECK(out[g]==G&&out[nv+4+g]==G,"P16.guard","gather of %zu x %s[%d] wrote outside its output",idx.size(),typeName(a.type),a.count);
            for(size_t i=0;i<idx.size();i++) for(int c=0;c<a.count;c++){ uint32_t e=a.vals[idx[i]*a.count+c]; VF_CHECK(out[4+i*a.count+c]==e&&ex[i*a.count+c]==e,"P16.gather","%s: gathered value %zu component %d of '%s' %s[%d] (particle %llu) is 0x%08x, expected 0x%08x",il?"interleaved":"default",i,c,shortStr(a.name).c_str(),typeName(a.type),a.count,(unsigned long long)idx[i],out[4+i*a.count+c],e); }
            VF_CHECK(idx==keep,"P16.indices","the index list was modified");
            std::vector<float> fo(nv+8,-777.25f); std::unique_ptr<float[]> fe(new float[nv?nv:1]); for(size_t i=0;i<nv;i++) fe[i]=-777.25f;
            const ParticlesData& cp=*p; cp.dataAsFloat(pa,(int)idx.size(),idx.data(),flag,fo.data()+4); cp.dataAsFloat(pa,(int)idx.size(),idx.data(),flag,fe.get());
            for(int g=0;g<4;g++) VF_CHECK(fo[g]==-777.25f&&fo[nv+4+g]==-777.25f,"P16.guardfloat","dataAsFloat of %zu x %s[%d] wrote outside its output",idx.size(),typeName(a.type),a.count);
            for(size_t i=0;i<idx.size();i++) for(int c=0;c<a.count;c++){ uint32_t raw=a.vals[idx[i]*a.count+c]; uint32_t e=a.isFloat()?raw:f2u((float)(int)raw); VF_CHECK(f2u(fo[4+i*a.count+c])==e&&f2u(fe[i*a.count+c])==e,"P16.float","%s: dataAsFloat value %zu component %d of '%s' %s[%d] is %.9g, expected %.9g",il?"interleaved":"default",i,c,shortStr(a.name).c_str(),typeName(a.type),a.count,fo[4+i*a.count+c],u2f(e)); }
            count(std::string("gathers.")+typeName(a.type)); count("values",nv*4);
        } }
    std::string d=diff(t,snapshot(*p)); VF_CHECK(d.empty(),"P16.mutated","gathering changed the data: %s",d.c_str());
});

// ---- string tables --------------------------------------------------------------------------
// Reference: strings by token; lookup of a string gives the token it was first bound to.  A rename moves the
// binding of the token; if another token still carries the old string, lookups may find either of those tokens.
struct RefStr { std::vector<std::string> s; std::set<std::string> ambiguous;
    std::set<int> tokens(const std::string& x) const { std::set<int> t; for(size_t i=0;i<s.size();i++) if(s[i]==x) t.insert((int)i); return t; } };
static Reg r17("P17",[](Rng& r,long k){
    bool il=r.chance(1,2); PM p(il?Partio::createInterleave():Partio::create()); int na=r.range(1,4),nf=r.range(0,3); std::vector<ParticleAttribute> h; std::vector<FixedAttribute> f; std::vector<RefStr> ref(na+nf);
    if(r.chance(1,2)) p->addParticles(r.range(1,20));
    for(int i=0;i<na;i++) h.push_back(p->addAttribute(fmt("a%d",i).c_str(),Partio::INDEXEDSTR,r.range(1,3))); for(int i=0;i<nf;i++) f.push_back(p->addFixedAttribute(fmt(r.chance(1,2)?"a%d":"f%d",i).c_str(),Partio::INDEXEDSTR,1));
    int ops=r.chance(1,15)?r.range(300,1500):r.range(5,80); bool dense=r.chance(1,2); uint64_t hh=il; std::vector<std::string> pool; for(int i=0;i<(dense?6:40);i++) pool.push_back(genString(r,S_ANY));
    if(r.chance(1,3)){ std::string b=genWord(r); pool.push_back(b); pool.push_back(b+"x"); pool.push_back(b+" "); std::string u=b; u[0]=(char)toupper(u[0]); pool.push_back(u); pool.push_back(""); }
    auto look=[&](int w,const std::string& s){ return w<na?p->lookupIndexedStr(h[w],s.c_str()):p->lookupFixedIndexedStr(f[w-na],s.c_str()); };
    auto list=[&](int w)->const std::vector<std::string>&{ return w<na?p->indexedStrs(h[w]):p->fixedIndexedStrs(f[w-na]); };
    auto checkLook=[&](int w,const std::string& s,const char* op){ int g=look(w,s); std::set<int> t=ref[w].tokens(s); VF_CHECK(t.empty()?g==-1:t.count(g)>0,"P17.lookup","%s%s attribute %d after %s: lookup of '%s' gives %d; it is carried by %zu token(s), first %d",il?"interleaved ":"",w<na?"particle":"fixed",w,op,shortStr(s).c_str(),g,t.size(),t.empty()?-1:*t.begin()); count("lookups"); };
    auto checkList=[&](int w,const char* op){ const std::vector<std::string>& l=list(w); VF_CHECK(l==ref[w].s,"P17.list","%s%s attribute %d after %s: list has %zu strings that differ from the %zu expected",il?"interleaved ":"",w<na?"particle":"fixed",w,op,l.size(),ref[w].s.size()); };
    if(r.chance(1,400)){ static const int sizes[]={130,257,300,1000,32769,33000,65537,66000}; int n=sizes[r.below(8)],w=(int)r.below(na+nf); ops=std::min(ops,25); std::string pre=r.chance(1,3)?std::string(r.range(1,300),'p'):"s"; if(n>5000) pre="s";
        for(int i=0;i<n;i++){ std::string s=pre+std::to_string(i); int g=w<na?p->registerIndexedStr(h[w],s.c_str()):p->registerFixedIndexedStr(f[w-na],s.c_str()); VF_CHECK(g==i,"P17.register","registering new string %d gave token %d",i,g); ref[w].s.push_back(s); }
        for(int q=0;q<300;q++){ int i=(int)r.below(n); if(q<10) i=n-1-q; VF_CHECK(look(w,ref[w].s[i])==i,"P17.lookup","lookup of string %d of %d gives %d",i,n,look(w,ref[w].s[i])); } checkList(w,"many registrations"); for(int q=0;q<3;q++){ pool.push_back(ref[w].s[r.below(n)]); pool.push_back(ref[w].s[n-1]); } count("large_tables"); hh=mix(hh^n); }
    for(int o=0;o<ops;o++){ int w=(int)r.below(na+nf); RefStr& R=ref[w]; std::string s=r.chance(3,4)?r.pick(pool):R.s.empty()?genString(r,S_ANY):R.s[r.below(R.s.size())]; int q=(int)r.below(10); hh=mix(hh^q^((uint64_t)w<<8)^hashStr(s));
        if(q<5){ std::set<int> t=R.tokens(s); int before=look(w,s); int g=w<na?p->registerIndexedStr(h[w],s.c_str()):p->registerFixedIndexedStr(f[w-na],s.c_str());
            if(t.empty()){ VF_CHECK(g==(int)R.s.size(),"P17.register","registering a new string gave token %d, expected %zu",g,R.s.size()); R.s.push_back(s); } else VF_CHECK(t.count(g)&&g==before,"P17.register","registering '%s' again gave token %d, expected %d",shortStr(s).c_str(),g,*t.begin()); count("registered"); }
        else if(q<8){ int tok= r.chance(1,6)? (r.chance(1,2)?-1-(int)r.below(5):(int)R.s.size()+(int)r.below(3)) : r.chance(1,40)? (r.chance(1,2)?INT_MAX:INT_MIN) : R.s.empty()?0:(int)r.below(R.s.size());
            bool in=tok>=0&&tok<(int)R.s.size(); int before=look(w,s); bool had=!R.tokens(s).empty(); std::string old=in?R.s[tok]:"";
            if(w<na) p->setIndexedStr(h[w],tok,s.c_str()); else p->setFixedIndexedStr(f[w-na],tok,s.c_str());
            if(in){ R.s[tok]=s; count(had?(old==s?"renamed_to_itself":"renamed_to_existing"):"renamed"); checkLook(w,old,"rename"); checkLook(w,s,"rename"); if(!had) VF_CHECK(look(w,s)==tok,"P17.rename","after renaming token %d to a new string its lookup gives %d",tok,look(w,s)); else if(before!=tok&&R.s[before]==s) VF_CHECK(look(w,s)==before,"P17.rename","renaming token %d to the string of token %d changed the lookup of the latter to %d",tok,before,look(w,s)); }
            else count("renames_out_of_range"); checkList(w,in?"rename":"rename out of range"); }
        else checkLook(w,r.chance(1,2)?s:genString(r,S_ANY),"lookup");
        if(o%8==0) for(int x=0;x<na+nf;x++) checkList(x,"operations"); }
    for(int x=0;x<na+nf;x++){ checkList(x,"the whole history"); size_t step=std::max<size_t>(1,ref[x].s.size()/300); for(size_t i=0;i<ref[x].s.size();i+=step) checkLook(x,ref[x].s[i],"the whole history"); for(auto& s:pool) checkLook(x,s,"the whole history"); }
    evaluated(); distinct(hh); count(il?"interleaved":"default"); if(k<2) sample(fmt("%d operations on %d+%d tables, %zu strings in the first",ops,na,nf,ref[0].s.size()));
});

int main(int argc,char** argv){ return runMain(argc,argv); }
