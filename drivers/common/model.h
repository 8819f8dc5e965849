// The data-set model: a plain table, its generator, and its view of a Partio set through the public API.
#pragma once
#include "rt.h"
#include <Partio.h>

namespace vf {
using Partio::ParticlesData; using Partio::ParticlesDataMutable; using Partio::ParticlesInfo;
using Partio::ParticleAttribute; using Partio::FixedAttribute; using Partio::ParticleIndex;

enum T { T_NONE=Partio::NONE, T_VECTOR=Partio::VECTOR, T_FLOAT=Partio::FLOAT, T_INT=Partio::INT, T_STR=Partio::INDEXEDSTR };
inline const char* typeName(int t){ return t==T_VECTOR?"VECTOR":t==T_FLOAT?"FLOAT":t==T_INT?"INT":t==T_STR?"INDEXEDSTR":"NONE"; }

struct Attr {
    std::string name; int type=T_FLOAT; int count=1;
    std::vector<std::string> strs;
    std::vector<uint32_t> vals;           // n*count raw 32-bit patterns (fixed: count)
    double absTol=0; bool quantNormal=false; // comparison hints carried by expectations
    bool isFloat() const { return type==T_FLOAT||type==T_VECTOR; }
};
struct Table {
    int n=0; std::vector<Attr> attrs,fixed;
    Attr* find(const std::string& s){ for(auto& a:attrs) if(a.name==s) return &a; return nullptr; }
    const Attr* find(const std::string& s) const { for(auto& a:attrs) if(a.name==s) return &a; return nullptr; }
    Attr* findFixed(const std::string& s){ for(auto& a:fixed) if(a.name==s) return &a; return nullptr; }
    const Attr* findFixed(const std::string& s) const { for(auto& a:fixed) if(a.name==s) return &a; return nullptr; }
};
inline uint32_t f2u(float f){ uint32_t u; memcpy(&u,&f,4); return u; }
inline float u2f(uint32_t u){ float f; memcpy(&f,&u,4); return f; }

inline uint64_t hashTable(const Table& t,uint64_t h=99){
    h=mix(h^t.n);
    auto H=[&](const std::vector<Attr>& v){ for(auto& a:v){ h=hashStr(a.name,h); h=mix(h^(a.type*131+a.count)); for(auto& s:a.strs) h=hashStr(s,h); h=hashBytes(a.vals.data(),a.vals.size()*4,h);} h=mix(h+1); };
    H(t.attrs); H(t.fixed); return h;
}
inline std::string shortStr(const std::string& s){ return s.size()>60? s.substr(0,60)+fmt("...(%zu)",s.size()) : s; }
inline std::string describe(const Table& t){
    std::string s=fmt("n=%d attrs=[",t.n);
    for(size_t i=0;i<t.attrs.size();i++){ auto& a=t.attrs[i]; s+=(i?", ":"")+shortStr(a.name)+fmt(" %s[%d]",typeName(a.type),a.count); if(a.type==T_STR) s+=fmt("{%zu strs}",a.strs.size()); }
    s+="] fixed=[";
    for(size_t i=0;i<t.fixed.size();i++){ auto& a=t.fixed[i]; s+=(i?", ":"")+shortStr(a.name)+fmt(" %s[%d]",typeName(a.type),a.count); if(a.type==T_STR) s+=fmt("{%zu strs}",a.strs.size()); }
    return s+"]";
}

// ---- model -> Partio ----------------------------------------------------------------------
// mode 0: attributes then bulk particles; 1: one by one; 2: particles first; 3: mixed
inline void fill(ParticlesDataMutable* p,const Table& t,Rng* r=nullptr,int mode=0){
    std::vector<ParticleAttribute> h;
    auto addA=[&](const Attr& a){ ParticleAttribute pa=p->addAttribute(a.name.c_str(),(Partio::ParticleAttributeType)a.type,a.count); for(auto& s:a.strs) p->registerIndexedStr(pa,s.c_str()); h.push_back(pa); };
    if(mode==2){ p->addParticles(t.n); for(auto& a:t.attrs) addA(a); }
    else if(mode==3 && r){
        int have=0; size_t ai=0;
        while(have<t.n||ai<t.attrs.size()){
            if(ai<t.attrs.size() && (have>=t.n||r->chance(1,2))) addA(t.attrs[ai++]);
            else if(r->chance(1,2)){ int k=r->range(0,t.n-have); if(k==0) k=1; if(p->numParticles()==0 && k<1) k=1; p->addParticles(k); have+=k; }
            else { p->addParticle(); have++; }
        }
    } else {
        for(auto& a:t.attrs) addA(a);
        if(mode==1) for(int i=0;i<t.n;i++) p->addParticle(); else p->addParticles(t.n);
    }
    for(size_t k=0;k<t.attrs.size();k++) for(int i=0;i<t.n;i++)
        p->set<uint32_t>(h[k],i,t.attrs[k].vals.data()+(size_t)i*t.attrs[k].count);
    for(auto& a:t.fixed){
        FixedAttribute fa=p->addFixedAttribute(a.name.c_str(),(Partio::ParticleAttributeType)a.type,a.count);
        for(auto& s:a.strs) p->registerFixedIndexedStr(fa,s.c_str());
        p->setFixed<uint32_t>(fa,a.vals.data());
    }
}
inline ParticlesDataMutable* make(const Table& t,Rng* r=nullptr,int mode=0,bool interleave=false){
    ParticlesDataMutable* p=interleave?Partio::createInterleave():Partio::create(); fill(p,t,r,mode); return p;
}
struct Release { template<class X> void operator()(X* p) const { if(p) p->release(); } };
typedef std::unique_ptr<ParticlesDataMutable,Release> PM;
typedef std::unique_ptr<ParticlesInfo,Release> PI;
typedef std::unique_ptr<ParticlesData,Release> PD;

// ---- Partio -> model ----------------------------------------------------------------------
inline Table schemaOf(const ParticlesInfo& p){
    Table t; t.n=p.numParticles();
    for(int i=0;i<p.numAttributes();i++){ ParticleAttribute a; VF_CHECK(p.attributeInfo(i,a),"attrinfo","attributeInfo(%d) refused though there are %d attributes",i,p.numAttributes()); Attr m; m.name=a.name; m.type=a.type; m.count=a.count; t.attrs.push_back(m); }
    for(int i=0;i<p.numFixedAttributes();i++){ FixedAttribute a; VF_CHECK(p.fixedAttributeInfo(i,a),"fixedinfo","fixedAttributeInfo(%d) refused",i); Attr m; m.name=a.name; m.type=a.type; m.count=a.count; t.fixed.push_back(m); }
    return t;
}
inline Table snapshot(const ParticlesData& p){
    Table t=schemaOf(p);
    for(int i=0;i<(int)t.attrs.size();i++){ ParticleAttribute a; p.attributeInfo(i,a); Attr& m=t.attrs[i];
        if(a.type==T_NONE) continue;
        if(a.type==T_STR) m.strs=p.indexedStrs(a);
        m.vals.resize((size_t)t.n*a.count);
        for(int k=0;k<t.n;k++){ const void* d=p.data<void>(a,k); VF_CHECK(d||a.count==0,"nulldata","data() null for particle %d of %d attr %s",k,t.n,a.name.c_str()); if(a.count) memcpy(&m.vals[(size_t)k*a.count],d,4*a.count); } }
    for(int i=0;i<(int)t.fixed.size();i++){ FixedAttribute a; p.fixedAttributeInfo(i,a); Attr& m=t.fixed[i];
        if(a.type==T_NONE) continue;
        if(a.type==T_STR) m.strs=p.fixedIndexedStrs(a);
        m.vals.resize(a.count); const void* d=p.fixedData<void>(a); if(a.count) memcpy(m.vals.data(),d,4*a.count); }
    return t;
}

// ---- comparison ---------------------------------------------------------------------------
struct Cmp { bool text=false; bool schemaOnly=false; bool ignoreCount=false; bool nanAny=false; };
inline bool closeText(float a,float b){
    if(a==b) return true; if(!std::isfinite(a)||!std::isfinite(b)) return false;
    double d=std::fabs((double)a-(double)b),m=std::max(std::fabs((double)a),std::fabs((double)b));
    return d<=m*5.1e-6+1.5e-45;    // half a unit in the 6th significant digit, relative to the smallest mantissa, plus rounding of denormals
}
inline std::string diffAttr(const Attr& a,const Attr& b,int n,const Cmp& c,const char* kind){
    if(a.name!=b.name) return fmt("%s attribute name '%s' became '%s'",kind,shortStr(a.name).c_str(),shortStr(b.name).c_str());
    if(a.type!=b.type) return fmt("%s attribute '%s' type %s became %s",kind,shortStr(a.name).c_str(),typeName(a.type),typeName(b.type));
    if(a.count!=b.count) return fmt("%s attribute '%s' width %d became %d",kind,shortStr(a.name).c_str(),a.count,b.count);
    if(c.schemaOnly) return "";
    if(a.strs!=b.strs){ size_t i=0; while(i<a.strs.size()&&i<b.strs.size()&&a.strs[i]==b.strs[i]) i++;
        return fmt("%s attribute '%s' string table differs at token %zu (sizes %zu/%zu): '%s' vs '%s'",kind,shortStr(a.name).c_str(),i,a.strs.size(),b.strs.size(),i<a.strs.size()?shortStr(a.strs[i]).c_str():"-",i<b.strs.size()?shortStr(b.strs[i]).c_str():"-"); }
    if(a.vals.size()!=b.vals.size()) return fmt("%s attribute '%s' value count %zu vs %zu",kind,shortStr(a.name).c_str(),a.vals.size(),b.vals.size());
    if(a.quantNormal){ // (phi,z) pairs of 16 bits
        for(size_t i=0;i+2<a.vals.size();i+=3){ double e[3],g[3]; for(int k=0;k<3;k++){ e[k]=u2f(a.vals[i+k]); g[k]=u2f(b.vals[i+k]); }
            double le=std::sqrt(e[0]*e[0]+e[1]*e[1]+e[2]*e[2]); bool ok;
            if(le==0) ok= g[0]==0&&g[1]==0&&g[2]==0;
            else { double st=1.0/65535; for(double& x:e) x/=le; double re=std::sqrt(e[0]*e[0]+e[1]*e[1]),rg=std::sqrt(g[0]*g[0]+g[1]*g[1]);
                ok= std::fabs(e[2]-g[2])<=1.6*st && std::fabs(g[0]*g[0]+g[1]*g[1]+g[2]*g[2]-1)<1e-4;
                if(ok && re>0.02 && rg>0.01){ double d=std::fabs(std::atan2(e[0],e[1])-std::atan2(g[0],g[1])); d=std::min(d,2*M_PI-d); ok= d<=0.8*2*M_PI*st; } }
            if(!ok) return fmt("normal of particle %zu: expected (%g,%g,%g) got (%g,%g,%g)",i/3,e[0],e[1],e[2],g[0],g[1],g[2]); }
        return ""; }
    for(size_t i=0;i<a.vals.size();i++) if(a.vals[i]!=b.vals[i]){
        if(a.absTol>0 && std::fabs((double)u2f(a.vals[i])-(double)u2f(b.vals[i]))<=a.absTol) continue;
        if(a.isFloat() && c.text && closeText(u2f(a.vals[i]),u2f(b.vals[i]))) continue;
        if(a.isFloat() && c.nanAny && std::isnan(u2f(a.vals[i])) && std::isnan(u2f(b.vals[i]))) continue;
        if(a.isFloat()) return fmt("%s attribute '%s' particle %zu component %zu: expected %.9g (0x%08x) got %.9g (0x%08x)",kind,shortStr(a.name).c_str(),i/std::max(1,a.count),i%std::max(1,a.count),u2f(a.vals[i]),a.vals[i],u2f(b.vals[i]),b.vals[i]);
        return fmt("%s attribute '%s' particle %zu component %zu: expected %d got %d",kind,shortStr(a.name).c_str(),i/std::max(1,a.count),i%std::max(1,a.count),(int)a.vals[i],(int)b.vals[i]);
    }
    (void)n; return "";
}
inline std::string diff(const Table& a,const Table& b,const Cmp& c=Cmp()){
    if(!c.ignoreCount && a.n!=b.n) return fmt("particle count: expected %d got %d",a.n,b.n);
    if(a.attrs.size()!=b.attrs.size()) return fmt("attribute count: expected %zu got %zu (%s vs %s)",a.attrs.size(),b.attrs.size(),describe(a).c_str(),describe(b).c_str());
    for(size_t i=0;i<a.attrs.size();i++){ std::string s=diffAttr(a.attrs[i],b.attrs[i],a.n,c,"particle"); if(!s.empty()) return s; }
    if(a.fixed.size()!=b.fixed.size()) return fmt("fixed attribute count: expected %zu got %zu",a.fixed.size(),b.fixed.size());
    for(size_t i=0;i<a.fixed.size();i++){ std::string s=diffAttr(a.fixed[i],b.fixed[i],1,c,"fixed"); if(!s.empty()) return s; }
    return "";
}

// ---- generation ---------------------------------------------------------------------------
enum ValKind { V_BITS, V_FINITE, V_SMALL, V_NONNAN };
inline uint32_t genFloat(Rng& r,ValKind k){
    switch(r.below(k==V_SMALL?1:8)){
        case 0: case 1: return f2u((float)r.real(-100,100));
        case 2: return f2u((float)r.range(-1000,1000));
        case 3: { static const float sp[]={0.f,-0.f,1.f,-1.f,0.5f,1e-7f,1e7f,123456.f,1234567.f,0.1f,3.4028235e38f,-3.4028235e38f,1.17549435e-38f,16777216.f,16777217.f,999999.5f,9999995.f}; return f2u(sp[r.below(sizeof(sp)/sizeof(*sp))]); }
        case 4: { float f=(float)std::ldexp(r.real(-1,1),r.range(-120,120)); return f2u(f); }
        default: break;
    }
    if(k==V_BITS){ if(r.chance(1,6)){ static const uint32_t sp[]={0x7fc00000u,0x7f800000u,0xff800000u,0x7f800001u,0xffc12345u,1u,0x80000001u,0x007fffffu,0xffffffffu,0x01020304u,0x80000000u}; return sp[r.below(11)]; } return (uint32_t)r.next(); }
    for(;;){ uint32_t u=(uint32_t)r.next(); float f=u2f(u); if(k==V_NONNAN? !std::isnan(f) : std::isfinite(f)) return u; }
}
inline uint32_t genInt(Rng& r){
    switch(r.below(5)){ case 0: return (uint32_t)r.range(-5,5); case 1: return (uint32_t)r.next(); case 2: { static const uint32_t sp[]={0,1,0xffffffffu,0x7fffffffu,0x80000000u,255,256,65535,65536,0x01020304u}; return sp[r.below(10)]; } default: return (uint32_t)r.range(-100000,100000);} }
inline std::string genWord(Rng& r,int lo=1,int hi=12){
    static const char al[]="abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_"; int n=r.range(lo,hi); std::string s; s+=al[r.below(26)]; while((int)s.size()<n) s+=al[r.below(sizeof(al)-1)]; return s; }
enum StrKind { S_ANY, S_TEXT };
inline std::string genString(Rng& r,StrKind k){
    int m=(int)r.below(20);
    if(m==0) return "";
    if(m<8) return genWord(r);
    if(m<10){ static const char* sp[]={"with space","quo\"te","back\\slash","\\","\"","\\\"","trailing\\","  lead","tab\there","new\nline","(paren)","0","1.5","index","[0]",";,:","a\"b\\c\"d"}; return sp[r.below(sizeof(sp)/sizeof(*sp))]; }
    int len= m==10? r.range(200,5000) : m==11? r.range(250,260) : r.range(1,40);
    std::string s; for(int i=0;i<len;i++){ unsigned char c= k==S_TEXT? (unsigned char)r.range(0x20,0x7e) : (unsigned char)r.range(1,255); s+=(char)c; } return s;
}
// rare sets whose particle numbers pass 16-bit limits and the usual growth steps; only for callers that allow 2500 particles and more
inline bool& hugeSets(){ static bool b=true; return b; }
inline int genN(Rng& r,int big=2500){
    if(big>=2500&&r.chance(1,150)&&hugeSets()){ static const int h[]={32767,32768,32769,65535,65536,65537,70001,131073}; count("huge_sets"); return h[r.below(8)]; }
    switch(r.below(12)){ case 0: return 0; case 1: return 1; case 2: return 2; case 3: return r.range(9,11); case 4: return r.range(14,17); case 5: return r.range(3,8); case 6: return r.range(30,300); case 7: return r.chance(1,4)? r.range(300,big): r.range(1,100); default: return r.range(1,40);} }
inline void genVals(Rng& r,Attr& a,int n,ValKind k){
    a.vals.resize((size_t)n*a.count);
    for(auto& v:a.vals) v= a.isFloat()? genFloat(r,k) : a.type==T_STR? (a.strs.empty()? 0u : (uint32_t)r.below(a.strs.size())) : genInt(r);
    if(a.vals.size()>1&&r.chance(1,8)) for(size_t i=1;i<a.vals.size();i++) if(r.chance(1,2)) a.vals[i]=a.vals[i-1]; // neighbouring values that are equal
}
inline void genStrs(Rng& r,Attr& a,StrKind k,int maxN=12){
    if(maxN==12&&hugeSets()&&r.chance(1,500)){ static const int h[]={255,256,257,300,1000,4000,32769,65537,66000}; int n=h[r.chance(1,3)?r.below(9):r.below(6)]; std::string p=genWord(r,0,3); for(int i=0;i<n;i++) a.strs.push_back(p+std::to_string(i)); return; }
    int n=r.chance(1,20)? r.range(100,400) : r.range(0,maxN); std::set<std::string> seen;
    for(int i=0;i<n;i++){ std::string s=genString(r,k); if(i>50) s+=std::to_string(i); if(seen.insert(s).second) a.strs.push_back(s); }
}
inline std::string uniqueName(Rng& r,const std::vector<Attr>& have,const std::function<std::string(Rng&)>& g){
    for(int tries=0;;tries++){ std::string s=g(r); if(tries>20) s+=std::to_string(tries); bool dup=false; for(auto& a:have) if(a.name==s) dup=true; if(!dup) return s; } }
inline std::string commonName(Rng& r){ static const char* n[]={"id","normal","radius","velocity","life","color","Cd","mass","v","pscale","name","path","P2","type","age"}; return r.chance(1,2)? std::string(n[r.below(15)]) : genWord(r); }

struct GenOpt { ValKind vals=V_BITS; StrKind strs=S_ANY; bool position=true; bool strAttrs=true; bool fixed=true; int maxAttrs=6; int maxCount=9; bool anyNames=true; int bigN=2500; int n=-1; bool vecOnly3=false; };
inline Table genTable(Rng& r,const GenOpt& o){
    Table t; t.n= o.n>=0? o.n : genN(r,o.bigN);
    int na=r.chance(1,15)? r.range(10,40) : r.range(0,o.maxAttrs);
    if(na>=10) t.n=std::min(t.n,60); if(t.n>5000) na=std::min(na,2);
    bool vast=o.n<0&&o.maxAttrs>=6&&o.bigN>=2500&&hugeSets()&&t.n<=60; bool many=vast&&r.chance(1,400),wide=(vast||(o.n<0&&o.maxAttrs>=6&&o.bigN>=600&&hugeSets()&&t.n<=60))&&!many&&r.chance(1,300); if(many){ na=r.chance(1,2)?r.range(250,300):r.range(40,250); t.n=std::min(t.n,12); count("many_attributes"); }
    auto nameFn=[&](Rng& q){ if(o.anyNames && q.chance(1,8)){ std::string s=genString(q,o.strs); if(!s.empty() && s!="position") return s; } return commonName(q); };
    auto one=[&](std::vector<Attr>& have,int n,bool fixed){
        Attr a; a.name=uniqueName(r,have,nameFn); int k=(int)r.below(o.strAttrs?5:4);
        a.type= k==0?T_VECTOR: k==1?T_INT: k==2||k==3?T_FLOAT: T_STR;
        if(a.type==T_VECTOR) a.count= (o.vecOnly3||r.chance(4,5))?3:r.range(1,o.maxCount);
        else if(a.type==T_STR) a.count= r.chance(3,4)?1: o.maxCount>3&&r.chance(1,8)? (t.n<=60&&r.chance(1,12)? r.range(250,300): r.range(4,20)): r.range(1,3);
        else if(wide&&r.chance(1,2)) a.count=r.chance(1,3)?r.range(250,260):r.chance(1,6)?r.range(4000,33000):r.range(40,2000);
        else a.count= r.chance(1,2)?1: r.chance(1,20)? r.range(10,40): r.chance(1,12)? r.range(15,17): r.range(1,o.maxCount);
        if(a.type==T_STR) genStrs(r,a,o.strs);
        genVals(r,a,n,o.vals); (void)fixed; have.push_back(a); };
    if(o.position){ Attr a; a.name="position"; a.type=T_VECTOR; a.count=3; genVals(r,a,t.n,o.vals); t.attrs.push_back(a); }
    for(int i=0;i<na;i++) one(t.attrs,t.n,false);
    if(o.position && r.chance(1,2)) std::swap(t.attrs[0],t.attrs[r.below(t.attrs.size())]);
    if(o.fixed){ int nf=r.chance(1,3)?0: r.chance(1,20)? r.range(15,18): r.range(0,5); if(vast&&r.chance(1,400)){ nf=r.chance(1,2)?r.range(250,300):r.range(20,250); count("many_fixed_attributes"); } if(wide) { t.n=std::min(t.n,5); for(auto& a:t.attrs) a.vals.resize((size_t)t.n*a.count); count("wide_attributes"); } for(int i=0;i<nf;i++) one(t.fixed,1,true); }
    return t;
}
} // namespace vf
