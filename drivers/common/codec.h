// Independent encoders/decoders of the particle formats.  Shares no code with Partio: written from the
// formats' layouts.  encode*() makes a conforming file and says what it contains; decode*() parses bytes
// strictly (everything must be consumed) and returns an error text or "".
#pragma once
#include "model.h"
#include <zlib.h>

namespace vf {

struct W {           // byte writer
    std::string b;
    void raw(const void* p,size_t n){ b.append((const char*)p,n); }
    void str(const std::string& s){ b+=s; }
    void u8(unsigned v){ b+=(char)v; }
    template<class X> void le(X v){ for(size_t i=0;i<sizeof(X);i++) b+=(char)((uint64_t)v>>(8*i)); }
    template<class X> void be(X v){ for(size_t i=sizeof(X);i-->0;) b+=(char)((uint64_t)v>>(8*i)); }
    void leF(float f){ le<uint32_t>(f2u(f)); } void beF(float f){ be<uint32_t>(f2u(f)); }
    void leD(double d){ uint64_t u; memcpy(&u,&d,8); le<uint64_t>(u); } void beD(double d){ uint64_t u; memcpy(&u,&d,8); be<uint64_t>(u); }
    void zeros(size_t n){ b.append(n,'\0'); }
    void junk(Rng& r,size_t n){ while(n--) b+=(char)r.below(256); }
};
struct R {           // byte reader
    const std::string& b; size_t p=0; bool ok=true;
    explicit R(const std::string& s):b(s){}
    bool need(size_t n){ if(!ok||p+n>b.size()||p+n<p){ ok=false; return false;} return true; }
    std::string str(size_t n){ if(!need(n)) return ""; std::string s=b.substr(p,n); p+=n; return s; }
    template<class X> X le(){ if(!need(sizeof(X))) return 0; uint64_t v=0; for(size_t i=0;i<sizeof(X);i++) v|=(uint64_t)(unsigned char)b[p+i]<<(8*i); p+=sizeof(X); return (X)v; }
    template<class X> X be(){ if(!need(sizeof(X))) return 0; uint64_t v=0; for(size_t i=0;i<sizeof(X);i++) v=v<<8|(unsigned char)b[p+i]; p+=sizeof(X); return (X)v; }
    double leD(){ uint64_t u=le<uint64_t>(); double d; memcpy(&d,&u,8); return d; }
    double beD(){ uint64_t u=be<uint64_t>(); double d; memcpy(&d,&u,8); return d; }
    std::string zstr(){ std::string s; while(need(1)){ char c=b[p++]; if(!c) return s; s+=c; } return s; }
    bool end() const { return ok && p==b.size(); }
};

// ------------------------------------------------------------------------------- formats ----
struct Format { const char* ext; const char* base; bool rd,wr,gz; };
inline const std::vector<Format>& formats(){
    static const std::vector<Format> f={
        {"bgeo","bgeo",1,1,1},{"bhclassic","bgeo",1,1,1},{"itbl","bgeo",1,1,1},{"atbl","bgeo",1,1,1},
        {"geo","geo",1,1,1},{"hclassic","geo",1,1,1},
        {"pdb","pdb",1,1,1},{"pdb32","pdb",1,1,1},{"pdb64","pdb",1,1,1},
        {"pda","pda",1,1,1},{"ptc","ptc",1,1,1},{"ptf","ptc",1,1,1},{"pdc","pdc",1,1,1},
        {"prt","prt",1,1,0},{"bin","bin",1,1,0},{"mc","mc",1,0,1},{"pts","pts",1,0,1},{"rib","rib",0,1,1}};
    return f; }
inline const Format& format(const std::string& ext){ for(auto& f:formats()) if(ext==f.ext) return f; throw std::runtime_error("no format "+ext); }
inline std::vector<std::string> extsOf(const std::function<bool(const Format&)>& p){ std::vector<std::string> v; for(auto& f:formats()) if(p(f)) v.push_back(f.ext); return v; }

inline float halfToFloat(uint16_t h){
    int s=h>>15,e=(h>>10)&31,m=h&1023; double v;
    if(e==31) return m? std::numeric_limits<float>::quiet_NaN() : (s?-INFINITY:INFINITY);
    v= e==0? std::ldexp((double)m,-24) : std::ldexp(1.0+m/1024.0,e-15);
    return (float)(s?-v:v);
}

// ------------------------------------------- data sets a format can represent, for writing --
inline std::string plainName(Rng& r){ return commonName(r); }
inline void addAttr(Table& t,Rng& r,const std::string& name,int type,int count,ValKind k){ Attr a; a.name=name; a.type=type; a.count=count; genVals(r,a,t.n,k); t.attrs.push_back(a); }
// text formats: now and then more particles than 16 bits count
inline void hugeText(Rng& r,Table& t){ if(!hugeSets()||!r.chance(1,700)) return; static const int h[]={32767,32768,32769,65535,65536,65537,70001}; t.n=h[r.below(7)]; while(t.attrs.size()>2||(t.attrs.size()==2&&t.attrs[0].name!="position"&&t.attrs[1].name!="position"&&t.attrs[0].name!="P"&&t.attrs[1].name!="P")){ size_t i=0; while(t.attrs[i].name=="position"||t.attrs[i].name=="P") i++; t.attrs.erase(t.attrs.begin()+i); } for(auto& a:t.attrs){ if(a.count>4){ a.count=a.name=="position"?3:2; } genVals(r,a,t.n,V_FINITE); } count("huge_text_sets"); }
inline Table genWritable(const std::string& base,Rng& r,int fixedN=-1){
    Table t;
    if(base=="bgeo"){ GenOpt o; o.n=fixedN; return genTable(r,o); }
    if(base=="rib"){ GenOpt o; o.n=fixedN; o.vals=V_FINITE; o.strAttrs=false; o.fixed=false; o.anyNames=false; o.bigN=300;
        t=genTable(r,o); if(fixedN<0) hugeText(r,t); if(r.chance(1,3)) t.find("position")->name="P"; return t; }
    if(base=="geo"){ GenOpt o; o.n=fixedN; o.vals=V_FINITE; o.anyNames=false; o.fixed=false; o.bigN=600; t=genTable(r,o);
        bool wide=r.chance(1,2); for(auto& a:t.attrs) if(a.type==T_STR && a.count!=1 && !wide){ a.count=1; a.vals.resize(t.n); } if(fixedN<0) hugeText(r,t); return t; }
    t.n= fixedN>=0? fixedN : genN(r, base=="pda"?600:2500);
    if(base=="pdb"){ GenOpt o; o.n=t.n; o.fixed=false; o.vecOnly3=true; o.anyNames=r.chance(1,3); o.position=r.chance(9,10);
        t=genTable(r,o); for(size_t i=0;i<t.attrs.size();) if(t.attrs[i].name.empty()) t.attrs.erase(t.attrs.begin()+i); else i++;
        if(t.attrs.empty()) addAttr(t,r,"position",T_VECTOR,3,V_BITS); return t; }
    if(base=="bin"){
        if(fixedN<0 && r.chance(1,2)) t.n=r.range(1,30);
        struct D{const char*n;int t,c;} d[]={{"position",T_VECTOR,3},{"velocity",T_VECTOR,3},{"force",T_VECTOR,3},{"vorticity",T_VECTOR,3},{"normal",T_VECTOR,3},{"neighbors",T_INT,1},{"uvw",T_VECTOR,3},{"age",T_FLOAT,1},{"isolationTime",T_FLOAT,1},{"viscosity",T_FLOAT,1},{"density",T_FLOAT,1},{"pressure",T_FLOAT,1},{"mass",T_FLOAT,1},{"temperature",T_FLOAT,1},{"id",T_INT,1}};
        std::vector<int> idx; int keep=r.range(1,10); for(int i=0;i<15;i++) if(i==0? r.chance(9,10) : (int)r.below(10)<keep) idx.push_back(i);
        r.shuffle(idx); for(int i:idx) addAttr(t,r,d[i].n,d[i].t,d[i].c,V_BITS); return t; }
    std::vector<Attr> none;
    int na=r.chance(1,12)? r.range(8,25): r.range(0,6); if(fixedN<0&&hugeSets()&&r.chance(1,400)){ na=r.chance(1,2)?r.range(250,300):r.range(25,250); count("many_attributes"); } if(na>8) t.n=std::min(t.n,60); if(t.n>5000) na=std::min(na,3);
    bool pos=r.chance(9,10)||base=="ptc"; int posAt=pos? r.range(0,na):-1;
    for(int i=0;i<=na;i++){
        if(i==posAt) addAttr(t,r,"position",T_VECTOR,3,base=="ptc"?V_NONNAN:base=="pda"?V_FINITE:V_NONNAN);
        if(i==na) break;
        std::string nm=uniqueName(r,t.attrs,[&](Rng& q){ return plainName(q); });
        if(nm=="position") continue;
        if(base=="pda"){ int k=(int)r.below(3); if(nm=="TYPES") continue; addAttr(t,r,nm,k==0?T_VECTOR:k==1?T_FLOAT:T_INT,k==0?3:1,V_FINITE); }
        else if(base=="pdc"){ int k=(int)r.below(2); addAttr(t,r,nm,k==0?T_VECTOR:T_FLOAT,k==0?3:1,V_NONNAN); }
        else if(base=="prt"){ nm=nm.substr(0,31); bool dup=false; nm[0]=(char)tolower(nm[0]); for(auto& a:t.attrs) dup|=a.name==nm; if(dup) continue;
            int k=(int)r.below(3); int c= k==0?3: r.chance(1,2)?1:r.range(1,9); if(k==1&&c==3) c=2; addAttr(t,r,nm,k==0?T_VECTOR:k==1?T_FLOAT:T_INT,c,V_BITS); }
        else if(base=="ptc"){
            if(nm=="normal"||nm=="radius") continue;
            static const int cs[]={1,3,16}; int c=cs[r.below(3)]; int ty= c==3&&r.chance(1,2)?T_VECTOR:T_FLOAT; addAttr(t,r,nm,ty,c,V_BITS); }
    }
    if(base=="pda"&&fixedN<0) hugeText(r,t);
    if(base=="pda"){ // a second text-keyword-free name set is guaranteed by commonName
    }
    if(base=="prt"){ if(t.n==0) { t.n=1; for(auto& a:t.attrs){ genVals(r,a,1,V_BITS);} } if(t.attrs.empty()) addAttr(t,r,"position",T_VECTOR,3,V_BITS); }
    if(base=="pda"||base=="pdc") if(t.attrs.empty()) addAttr(t,r,"position",T_VECTOR,3,V_FINITE);
    if(base=="ptc"){
        if(r.chance(3,4)){ Attr a; a.name="normal"; a.type=T_VECTOR; a.count=3; a.vals.resize(3*t.n);
            for(int i=0;i<t.n;i++){ float v[3]={0,0,0};
                if(r.chance(1,10)) {} else if(r.chance(1,5)){ v[r.below(3)]=r.chance(1,2)?1.f:-1.f; }
                else { double x,y,z,l; do{ x=r.real(-1,1);y=r.real(-1,1);z=r.real(-1,1); l=std::sqrt(x*x+y*y+z*z);}while(l<1e-3||l>1); v[0]=(float)(x/l);v[1]=(float)(y/l);v[2]=(float)(z/l);} 
                for(int k=0;k<3;k++) a.vals[3*i+k]=f2u(v[k]); }
            t.attrs.insert(t.attrs.begin()+r.below(t.attrs.size()+1),a); }
        if(r.chance(3,4)){ Attr a; a.name="radius"; a.type=T_FLOAT; a.count=1; genVals(r,a,t.n,V_BITS); t.attrs.insert(t.attrs.begin()+r.below(t.attrs.size()+1),a); }
    }
    return t;
}

// what reading the written file must return
inline Table expectRead(const std::string& ext,const Table& w){
    std::string base=format(ext).base; Table t=w;
    if(base!="bgeo") t.fixed.clear();
    auto posFirst=[&]{ for(size_t i=0;i<t.attrs.size();i++) if(t.attrs[i].name=="position"){ Attr a=t.attrs[i]; t.attrs.erase(t.attrs.begin()+i); t.attrs.insert(t.attrs.begin(),a); break; } };
    if(base=="bgeo"||base=="geo") posFirst();
    if(base=="pdb"||base=="pda") for(auto& a:t.attrs) if(a.type==T_STR){ a.type=T_INT; a.strs.clear(); }
    if(base=="ptc"){
        Table o; o.n=t.n; o.attrs.push_back(*t.find("position"));
        if(t.find("normal")) o.attrs.push_back(*t.find("normal")); else { Attr a; a.name="normal"; a.type=T_VECTOR; a.count=3; a.vals.assign(3*t.n,0); o.attrs.push_back(a); }
        o.attrs.back().quantNormal=true;
        if(t.find("radius")) o.attrs.push_back(*t.find("radius")); else { Attr a; a.name="radius"; a.type=T_FLOAT; a.count=1; a.vals.assign(t.n,f2u(1.f)); o.attrs.push_back(a); }
        for(auto& a:t.attrs) if(a.name!="position"&&a.name!="normal"&&a.name!="radius"){ o.attrs.push_back(a); o.attrs.back().type=T_FLOAT; }
        return o; }
    if(base=="bin"){
        Table o; o.n=t.n;
        auto put=[&](const char* n,int ty,int c,float dflt){ if(const Attr* a=t.find(n)){ o.attrs.push_back(*a); return;} Attr a; a.name=n; a.type=ty; a.count=c; a.vals.assign((size_t)c*t.n, ty==T_INT?0u:f2u(dflt)); if(std::string(n)=="id") for(int i=0;i<t.n;i++) a.vals[i]=i; o.attrs.push_back(a); };
        put("position",T_VECTOR,3,0);put("velocity",T_VECTOR,3,0);put("force",T_VECTOR,3,0);put("vorticity",T_VECTOR,3,0);put("normal",T_VECTOR,3,0);put("neighbors",T_INT,1,0);put("uvw",T_VECTOR,3,0);
        put("age",T_FLOAT,1,0);put("isolationTime",T_FLOAT,1,1);put("viscosity",T_FLOAT,1,1);put("density",T_FLOAT,1,1);put("pressure",T_FLOAT,1,1);put("mass",T_FLOAT,1,1);put("temperature",T_FLOAT,1,1);put("id",T_INT,1,0);
        return o; }
    return t;
}
inline Cmp cmpFor(const std::string& ext){ Cmp c; std::string b=format(ext).base; c.text= b=="geo"||b=="pda"; return c; }

// ---------------------------------------------------------------------------- encoders ------
inline std::string gnum(Rng& r,float f){ char b[64]; switch(r.below(3)){case 0: snprintf(b,64,"%.9g",f);break;case 1: snprintf(b,64,"%.8e",f);break;default: if(std::fabs(f)<1e6&&std::fabs(f)>1e-3) snprintf(b,64,"%.12f",f); else snprintf(b,64,"%.9g",f);} return b; }
inline std::string ws(Rng& r,bool nl=true){ static const char* s[]={" "," "," ","  ","\t","\n"," \n "}; return s[r.below(nl?7:5)]; }

inline void bgeoStr(W& w,const std::string& s){ w.be<uint16_t>((uint16_t)s.size()); w.str(s); }
inline std::string encBGEO(Rng& r,Table& t){
    GenOpt o; o.fixed=true; bool big=r.chance(1,40); if(big) o.n=r.chance(5,6)? r.range(65535,65537): r.range(65530,70000);
    t=genTable(r,o); if(t.n>60000) while(t.attrs.size()>1) { if(t.attrs.back().name=="position") std::swap(t.attrs[0],t.attrs.back()); t.attrs.pop_back(); }
    if(big&&t.fixed.empty()){ Attr a; a.name=genWord(r)+"_f"; a.type=r.chance(1,2)?T_INT:T_FLOAT; a.count=r.range(1,4); genVals(r,a,1,V_BITS); t.fixed.push_back(a); }
    t=expectRead("bgeo",t);
    bool prims= t.n>60000 || r.chance(1,2); int nPrim=prims? r.range(t.n>60000?1:0,4):0; int nPA=prims? r.range(0,3):0;
    W w; w.str("Bgeo"); w.u8('V'); w.be<int>(5); w.be<int>(t.n); w.be<int>(nPrim); w.be<int>(0); w.be<int>(0); w.be<int>((int)t.attrs.size()-1); w.be<int>(0); w.be<int>(nPA); w.be<int>((int)t.fixed.size());
    auto desc=[&](const Attr& a){ bgeoStr(w,a.name); w.be<uint16_t>((uint16_t)a.count);
        if(a.type==T_STR){ w.be<int>(4); w.be<int>((int)a.strs.size()); for(auto& s:a.strs) bgeoStr(w,s); }
        else { w.be<int>(a.type==T_FLOAT?0:a.type==T_INT?1:5); for(int i=0;i<a.count;i++) w.be<uint32_t>((uint32_t)r.next()); } };
    for(size_t i=1;i<t.attrs.size();i++) desc(t.attrs[i]);
    for(int i=0;i<t.n;i++){ for(int k=0;k<3;k++) w.be<uint32_t>(t.attrs[0].vals[3*i+k]); w.beF(r.chance(1,2)?1.f:(float)r.real(0,2));
        for(size_t a=1;a<t.attrs.size();a++) for(int k=0;k<t.attrs[a].count;k++) w.be<uint32_t>(t.attrs[a].vals[(size_t)i*t.attrs[a].count+k]); }
    int primWords=0; for(int i=0;i<nPA;i++){ Attr a; a.name=genWord(r); int k=(int)r.below(4); a.type=k==0?T_FLOAT:k==1?T_INT:k==2?T_VECTOR:T_STR; a.count=a.type==T_VECTOR?3:r.range(1,3); if(a.type==T_STR) genStrs(r,a,S_ANY,4); desc(a); primWords+=a.count; }
    for(int i=0;i<nPrim;i++){ w.be<uint32_t>(0x8000); int sz=r.range(t.n>2000?1:0,t.n>2000?10:2*t.n+3); w.be<int>(sz); for(int k=0;k<sz;k++){ if(t.n>=65536) w.be<uint32_t>((uint32_t)r.below(t.n)); else w.be<uint16_t>((uint16_t)r.below(t.n?t.n:1)); } for(int k=0;k<primWords;k++) w.be<uint32_t>((uint32_t)r.next()); }
    for(auto& a:t.fixed) desc(a);
    for(auto& a:t.fixed) for(auto v:a.vals) w.be<uint32_t>(v);
    w.u8(0); w.u8(0xff); return w.b;
}
inline std::string geoQuote(Rng& r,const std::string& s){
    bool bare=!s.empty(); for(unsigned char c:s) if(isspace(c)||c=='"'||c=='\\'||c>=0x80) bare=false;
    if(bare && r.chance(1,2)) return s;
    std::string o="\""; for(char c:s){ if(c=='"'||c=='\\') o+='\\'; o+=c; } return o+"\""; }
inline std::string encGEO(Rng& r,Table& t){
    t=expectRead("geo",genWritable("geo",r));
    for(auto& a:t.attrs) for(auto& s:a.strs) for(auto& c:s) if(c=='\r') c='r';
    for(auto& a:t.attrs){ std::set<std::string> seen; for(auto& s:a.strs) while(!seen.insert(s).second) s+="x"; }
    std::string o="PGEOMETRY V5\n"; o+=fmt("NPoints %d NPrims %d\n",t.n,1); o+="NPointGroups 0 NPrimGroups 0\n";
    o+=fmt("NPointAttrib %d NVertexAttrib 0 NPrimAttrib 1 NAttrib 0\n",(int)t.attrs.size()-1);
    if(t.attrs.size()>1){ o+="PointAttrib\n"; for(size_t i=1;i<t.attrs.size();i++){ auto& a=t.attrs[i]; o+=a.name+ws(r,0)+std::to_string(a.count)+ws(r,0)+(a.type==T_STR?"index":a.type==T_INT?"int":a.type==T_FLOAT?"float":"vector");
        if(a.type==T_STR){ o+=ws(r,0)+std::to_string(a.strs.size()); for(auto& s:a.strs) o+=ws(r)+geoQuote(r,s); }
        else for(int k=0;k<a.count;k++) o+=ws(r,0)+(a.type==T_INT?std::to_string(r.range(-9,9)):gnum(r,(float)r.real(-2,2)));
        o+="\n"; } }
    for(int i=0;i<t.n;i++){ for(int k=0;k<3;k++) o+=gnum(r,u2f(t.attrs[0].vals[3*i+k]))+ws(r,0); o+=r.chance(3,4)?"1":"0.5";
        if(t.attrs.size()>1){ o+=ws(r)+"("; if(r.chance(1,4)) o+=ws(r); for(size_t a=1;a<t.attrs.size();a++){ auto& A=t.attrs[a]; if(a>1) o+=ws(r); for(int k=0;k<A.count;k++){ uint32_t v=A.vals[(size_t)i*A.count+k]; if(k) o+=ws(r); o+=A.isFloat()?gnum(r,u2f(v)):std::to_string((int)v); } } if(r.chance(1,4)) o+=ws(r); o+=")"; }
        o+="\n"; }
    o+="PrimitiveAttrib\ngenerator 1 index 1 papi\nPart "+std::to_string(t.n); for(int i=0;i<t.n;i++) o+=" "+std::to_string(i); o+=" [0]\nbeginExtra\nendExtra\n";
    return o;
}
inline std::string encPDB(Rng& r,Table& t,int bits,bool autodetect){
    t=genWritable("pdb",r); t=expectRead("pdb",t);
    if(t.n>400) { t.n=400; for(auto& a:t.attrs) a.vals.resize(400*a.count); }
    W w; auto ptr=[&](bool junk){ uint64_t v= junk? r.next():0; if(bits==32) w.le<uint32_t>((uint32_t)v); else w.le<uint64_t>(v); };
    // struct layouts with natural alignment
    std::vector<int> extra; for(size_t i=0;i<=t.attrs.size();i++) extra.push_back(r.chance(1,6)&&!(autodetect&&i==0)?1:0);
    int nch=(int)t.attrs.size(); for(int e:extra) nch+=e;
    w.le<int>(670); w.le<uint16_t>(1); w.le<uint16_t>(0); w.leF(1.f); w.leF((float)r.range(0,100)); w.le<uint32_t>(t.n); w.le<uint32_t>(nch); if(autodetect) w.zeros(32); else w.junk(r,32); 
    if(bits==64) w.le<uint64_t>(autodetect?0:r.next()); else w.le<uint32_t>(autodetect?0:(uint32_t)r.next());
    bool junk=!autodetect;
    auto channel=[&](const std::string& name,int type,int datasize,const std::function<void()>& body){
        w.u8(0); w.u8(0); w.le<uint16_t>(1); w.u8(0); w.u8(0);                  // io header: magic pad swap encoding type
        ptr(junk); w.le<int>(type); w.le<uint32_t>(0); w.le<uint32_t>(0); w.le<uint32_t>(t.n?t.n-1:0); w.u8(0); w.u8(0);
        if(bits==64){ w.zeros(6); } else { w.zeros(2); }
        ptr(junk); ptr(junk); ptr(junk);
        w.str(name); w.u8(0);
        w.le<int>(type); w.le<uint32_t>(datasize); w.le<uint32_t>(t.n); w.le<int>(1); ptr(junk);
        body(); };
    for(size_t i=0;i<=t.attrs.size();i++){
        if(extra[i]){ int ds=r.range(1,12); channel(genWord(r),r.chance(1,2)?4:5,ds,[&]{ w.junk(r,(size_t)ds*t.n); }); }
        if(i<t.attrs.size()){ auto& a=t.attrs[i]; channel(a.name,a.type==T_VECTOR?1:a.type==T_FLOAT?2:3,a.count*4,[&]{ for(auto v:a.vals) w.le<uint32_t>(v); }); }
    }
    return w.b;
}
inline std::string encPDA(Rng& r,Table& t){
    t=genWritable("pda",r); std::string o="ATTRIBUTES\n"; for(auto& a:t.attrs) o+=ws(r)+a.name; o+="\nTYPES\n"; for(auto& a:t.attrs) o+=ws(r)+(a.type==T_VECTOR?"V":a.type==T_FLOAT?"R":"I");
    o+="\nNUMBER_OF_PARTICLES: "+std::to_string(t.n)+"\nBEGIN DATA\n";
    for(int i=0;i<t.n;i++){ for(auto& a:t.attrs) for(int k=0;k<a.count;k++){ uint32_t v=a.vals[(size_t)i*a.count+k]; o+=ws(r)+(a.isFloat()?gnum(r,u2f(v)):std::to_string((int)v)); } o+="\n"; }
    return o;
}
inline std::string encPTC(Rng& r,Table& t){
    int version=r.range(0,2); t=Table(); t.n=genN(r,600);
    addAttr(t,r,"position",T_VECTOR,3,V_BITS); Attr nrm; nrm.name="normal"; nrm.type=T_VECTOR; nrm.count=3; nrm.vals.resize(3*t.n); nrm.absTol=2e-6;
    std::vector<std::pair<int,int>> enc; for(int i=0;i<t.n;i++){ int phi=(int)r.below(65536),z=(int)r.below(65536); switch(r.below(12)){case 0: phi=z=65535;break;case 1: z=65535;break;case 2: z=0;break;case 3: phi=65535;break;case 4: phi=0;break;}
        enc.push_back({phi,z}); double n[3]={0,0,0}; if(!(phi==65535&&z==65535)){ n[2]=2.0*z/65535.0-1.0; double a=2*M_PI*(phi/65535.0-0.5),rr=std::sqrt(std::max(0.0,1-n[2]*n[2])); n[0]=rr*std::sin(a); n[1]=rr*std::cos(a);} for(int k=0;k<3;k++) nrm.vals[3*i+k]=f2u((float)n[k]); }
    nrm.absTol=1e-3; t.attrs.push_back(nrm); addAttr(t,r,"radius",T_FLOAT,1,V_BITS);
    bool many=r.chance(1,25); int nv=many?r.range(10,60):r.range(0,6); if(many&&t.n>60){ t.n=60; for(auto& a:t.attrs) a.vals.resize((size_t)60*a.count); } bool alike=many&&r.chance(1,2); struct V{std::string ty,nm;int c;}; std::vector<V> vars; int ds=0;
    static const char* tys[]={"float","point","vector","normal","color","matrix"}; static const int tc[]={1,3,3,3,3,16};
    for(int i=0;i<nv;i++){ int k=(int)r.below(6); std::string nm= r.chance(1,6)? std::string(r.chance(1,2)?"normal":"position") : (i&&(alike||r.chance(1,6)))? vars[alike?0:r.below(vars.size())].nm : genWord(r); vars.push_back({tys[k],nm,tc[k]}); ds+=tc[k];
        std::string eff=nm; int u=1; while(t.find(eff)) eff=nm+std::to_string(u++); addAttr(t,r,eff,(k>=1&&k<=3)?T_VECTOR:T_FLOAT,tc[k],V_BITS); }
    W w; w.le<int>(('c'<<24)|('t'<<16)|('p'<<8)|'p'); w.le<int>(version); w.leD(t.n); for(int i=0;i<6;i++) w.leF((float)r.real(-10,10));
    if(version>=1) for(int i=0;i<4;i++) w.leF((float)r.real(0,1));
    if(version>=2){ w.leF(1.f); for(int i=0;i<32;i++) w.le<uint32_t>(0xdeadbeefu); }
    for(int i=0;i<32;i++) w.leF((float)r.real(-1,1)); w.leF(640);w.leF(480);w.leF(1); w.le<int>(nv); w.le<int>(ds);
    for(auto& v:vars){ w.str(v.ty+(r.chance(1,6)?"  ":" ")+v.nm+"\n"); }
    if(version>=1) for(int i=0;i<2;i++) w.leF(0);
    for(int i=0;i<t.n;i++){ for(int k=0;k<3;k++) w.le<uint32_t>(t.attrs[0].vals[3*i+k]); w.le<uint16_t>((uint16_t)enc[i].first); w.le<uint16_t>((uint16_t)enc[i].second); w.le<uint32_t>(t.attrs[2].vals[i]);
        for(size_t a=3;a<t.attrs.size();a++) for(int k=0;k<t.attrs[a].count;k++) w.le<uint32_t>(t.attrs[a].vals[(size_t)i*t.attrs[a].count+k]); }
    return w.b;
}
inline std::string encPDC(Rng& r,Table& t){
    t=genWritable("pdc",r); W w; w.str("PDC "); w.be<int>(1); w.be<int>(1); w.be<int>((int)r.next()); w.be<int>((int)r.next()); w.be<int>(t.n); w.be<int>((int)t.attrs.size());
    for(auto& a:t.attrs){ w.be<int>((int)a.name.size()); w.str(a.name); w.be<int>(a.type==T_VECTOR?5:3); for(auto v:a.vals) w.beD((double)u2f(v)); }
    return w.b;
}
inline std::string zdeflate(const std::string& in,int level){ uLongf n=compressBound(in.size()); std::string o(n,0); if(compress2((Bytef*)&o[0],&n,(const Bytef*)in.data(),in.size(),level)!=Z_OK) throw std::runtime_error("compress2"); o.resize(n); return o; }
inline std::string encPRT(Rng& r,Table& t){
    t=Table(); t.n=genN(r,600); int na=r.range(1,7); struct C{int ty,ar;unsigned off;std::string nm;}; std::vector<C> cs; static const int sz[]={2,4,8,2,4,8,2,4,8,1,1};
    for(int i=0;i<na;i++){ C c; c.ty=(int)r.below(11); c.ar=r.chance(1,2)?1:r.chance(1,2)?3:r.range(1,5); std::string nm=uniqueName(r,t.attrs,[&](Rng& q){ return genWord(q,1,q.chance(1,5)?31:12); });
        if(i==0&&r.chance(3,4)){ nm="position"; c.ty=r.range(3,5); c.ar=3; }
        c.nm=nm; if(r.chance(1,2)&&nm[0]>='a'&&nm[0]<='z') c.nm[0]=(char)(nm[0]-32);
        Attr a; a.name=nm; if(a.name[0]>='A'&&a.name[0]<='Z') a.name[0]=(char)(a.name[0]+32); if(t.find(a.name)){ continue; }
        a.count=c.ar; a.type=(c.ty>=3&&c.ty<=5)?(c.ar==3?T_VECTOR:T_FLOAT):T_INT; t.attrs.push_back(a); cs.push_back(c); }
    int sweep=-1; if(r.chance(1,80)){ sweep=(int)r.below(65536); t=Table(); cs.clear(); t.n=16384; C c; c.ty=3; c.ar=4; c.nm="halves"; cs.push_back(c); Attr a; a.name=c.nm; a.type=T_FLOAT; a.count=4; t.attrs.push_back(a); } // every 16-bit float
    // offsets: any order, optional gaps
    std::vector<int> ord; for(size_t i=0;i<cs.size();i++) ord.push_back((int)i); if(r.chance(1,2)) r.shuffle(ord); unsigned off=0; 
    for(int i:ord){ if(r.chance(1,5)) off+=(unsigned)r.range(1,8); cs[i].off=off; off+=sz[cs[i].ty]*cs[i].ar; } unsigned psz=off;
    std::string body; for(int i=0;i<t.n;i++){ std::string rec(psz,(char)0xaa); for(size_t c=0;c<cs.size();c++) for(int k=0;k<cs[c].ar;k++){ W w; uint32_t v=0; switch(cs[c].ty){
            case 0:{ int16_t x=(int16_t)r.next(); w.le(x); v=(uint32_t)(int)x; }break; case 1:{ v=genInt(r); w.le<uint32_t>(v);}break; case 2:{ v=genInt(r); w.le<int64_t>((int64_t)(int32_t)v);}break;
            case 3:{ uint16_t h=sweep>=0?(uint16_t)sweep++:(uint16_t)r.next(); w.le(h); v=f2u(halfToFloat(h)); }break; case 4:{ v=genFloat(r,V_BITS); w.le<uint32_t>(v);}break; case 5:{ v=genFloat(r,V_NONNAN); w.leD((double)u2f(v)); }break;
            case 6:{ uint16_t x=(uint16_t)r.next(); w.le(x); v=x; }break; case 7:{ v=genInt(r)&0x7fffffffu; w.le<uint32_t>(v);}break; case 8:{ v=genInt(r)&0x7fffffffu; w.le<uint64_t>(v);}break;
            case 9:{ int8_t x=(int8_t)r.next(); w.u8((unsigned char)x); v=(uint32_t)(int)x; }break; case 10:{ uint8_t x=(uint8_t)r.next(); w.u8(x); v=x; }break; }
            memcpy(&rec[cs[c].off+k*sz[cs[c].ty]],w.b.data(),w.b.size()); t.attrs[c].vals.push_back(v); }
        body+=rec; }
    int hdr=56+(r.chance(1,4)?r.range(1,5)*4:0), chs=44+(r.chance(1,4)?r.range(1,4)*4:0);
    W w; w.str(std::string("\xc0PRT\r\n\x1a\n",8)); w.le<uint32_t>(hdr); w.str("Extensible Particle Format"); w.zeros(6); w.le<uint32_t>(1); w.le<uint64_t>(t.n); w.zeros(hdr-56);
    w.le<int>(4); w.le<int>((int)cs.size()); w.le<int>(chs); for(auto& c:cs){ w.str(c.nm); w.zeros(32-c.nm.size()); w.le<int>(c.ty); w.le<int>(c.ar); w.le<int>(c.off); w.junk(r,chs-44); }
    w.str(zdeflate(body,r.range(0,9))); return w.b;
}
inline std::string encBIN(Rng& r,Table& t){
    int ver=r.range(2,13); t=Table(); t.n=genN(r,600); W w; w.le<int>(0xFABADA); std::string fn=genWord(r,1,40); w.str(fn); w.zeros(250-fn.size()); w.le<int16_t>((int16_t)ver); w.leF(1); w.le<int>(9); w.leF(.1f); w.le<int>(3); w.le<int>(24); w.le<int>(t.n); w.leF(.1f); for(int i=0;i<9;i++) w.leF((float)r.real(0,9)); if(ver>=7) for(int i=0;i<9;i++) w.leF((float)r.real(0,9));
    auto A=[&](const char* n,int ty,int c){ addAttr(t,r,n,ty,c,V_BITS); };
    A("position",T_VECTOR,3);A("velocity",T_VECTOR,3);A("force",T_VECTOR,3); if(ver>=9) A("vorticity",T_VECTOR,3); if(ver>=3) A("normal",T_VECTOR,3); if(ver>=4) A("neighbors",T_INT,1); if(ver>=5) A("uvw",T_VECTOR,3);
    for(const char* n:{"age","isolationTime","viscosity","density","pressure","mass","temperature"}) A(n,T_FLOAT,1); A("id",T_INT,1);
    for(int i=0;i<t.n;i++) for(auto& a:t.attrs){ if(a.name=="age"&&ver>=5) w.le<uint16_t>((uint16_t)r.next()); for(int k=0;k<a.count;k++){ uint32_t v=a.vals[(size_t)i*a.count+k]; if(a.name=="id"&&ver>=12) w.le<uint64_t>(v); else w.le<uint32_t>(v); } }
    w.le<int>(0); w.u8(0); w.u8(0); return w.b;
}
inline std::string encMC(Rng& r,Table& t){
    t=Table(); t.n=r.chance(1,10)?0:std::max(2,genN(r,600)); W body; body.str("MYCH");
    auto blk=[&](const std::string& nm,const char* ty,const std::string& d,int n){ std::string full="nParticleShape1_"+nm; uint32_t len=(uint32_t)full.size()+1; body.str("CHNM"); body.be<uint32_t>(len); body.str(full); body.zeros((len+3)/4*4-full.size()); body.str("SIZE"); body.be<int>(4); body.be<uint32_t>(n); body.str(ty); body.be<uint32_t>((uint32_t)d.size()); body.str(d); };
    int na=r.range(0,6); int idAt=r.range(0,na);
    for(int i=0;i<=na;i++){
        if(i==idAt){ Attr a; a.name="id"; a.type=T_INT; a.count=1; W d; for(int k=0;k<t.n;k++){ int v=(int)genInt(r); a.vals.push_back((uint32_t)v); d.beD(v);} t.attrs.push_back(a); blk("id","DBLA",d.b,t.n); if(r.chance(1,2)){ W c; c.beD(t.n); blk("count","DBLA",c.b,1);} }
        if(i==na) break;
        bool vec=r.chance(1,2); std::string nm=uniqueName(r,t.attrs,[&](Rng& q){ return i==0?std::string("position"):genWord(q); }); if(nm=="id"||nm=="count") continue; if(nm=="position") vec=true;
        addAttr(t,r,nm,vec?T_VECTOR:T_FLOAT,vec?3:1,vec?V_BITS:V_NONNAN); W d; for(auto v:t.attrs.back().vals) if(vec) d.be<uint32_t>(v); else d.beD((double)u2f(v)); blk(nm,vec?"FVCA":"DBLA",d.b,t.n);
    }
    W w; w.str("FOR4"); w.be<int>(40); for(int i=0;i<10;i++) w.be<uint32_t>((uint32_t)r.next()); w.str("FOR4"); w.be<uint32_t>((uint32_t)body.b.size()); w.str(body.b); return w.b;
}
inline std::string encPTS(Rng& r,Table& t){
    static const int cols[]={3,4,6,7,8}; int c=cols[r.below(5)]; t=Table(); int n=std::max(1,genN(r,600)); Attr id,pos,rem,q,col; id.name="id";id.type=T_INT; pos.name="position";pos.type=T_VECTOR;pos.count=3; rem.name="remission"; q.name="quality"; q.type=T_INT; col.name="pointColor"; col.type=T_VECTOR; col.count=3; col.absTol=1e-6;
    std::string o= r.chance(1,2)? std::to_string(n)+"\n" : std::string("0\n");
    for(int i=0;i<n;i++){
        if(i>0&&r.chance(1,20)){ o+= r.chance(1,3)?"\n": r.chance(1,2)? "1 2\n":"# note\n"; if(o.size()>=2) continue; }
        std::vector<std::string> tk; float p[3]; for(int k=0;k<3;k++){ p[k]=(float)r.real(-1000,1000); char b[40]; snprintf(b,40,"%.9g",p[k]); tk.push_back(b); }
        id.vals.push_back(t.n); pos.vals.push_back(f2u(p[0]));pos.vals.push_back(f2u(p[2]));pos.vals.push_back(f2u(p[1]));
        if(c==4||c>=7){ float v=(float)r.range(-2000,2000); rem.vals.push_back(f2u(v)); tk.push_back(std::to_string((int)v)); }
        if(c==8){ int v=r.range(-100,100); q.vals.push_back(v); tk.push_back(std::to_string(v)); }
        if(c>=6) for(int k=0;k<3;k++){ int v=r.range(0,255); tk.push_back(std::to_string(v)); col.vals.push_back(f2u(v/255.f)); }
        for(size_t k=0;k<tk.size();k++) o+=(k?(r.chance(1,6)?"\t":" "):"")+tk[k]; o+="\n"; t.n++;
    }
    t.attrs={id,pos}; if(c==4||c>=7) t.attrs.push_back(rem); if(c==8) t.attrs.push_back(q); if(c>=6) t.attrs.push_back(col); return o;
}
// a conforming file for `ext`, and what it holds
inline std::string encode(const std::string& ext,Rng& r,Table& t){
    std::string b=format(ext).base;
    if(b=="bgeo") return encBGEO(r,t); if(b=="geo") return encGEO(r,t); if(b=="pda") return encPDA(r,t); if(b=="ptc") return encPTC(r,t); if(b=="pdc") return encPDC(r,t); if(b=="prt") return encPRT(r,t); if(b=="bin") return encBIN(r,t); if(b=="mc") return encMC(r,t); if(b=="pts") return encPTS(r,t);
    if(ext=="pdb32") return encPDB(r,t,32,false); if(ext=="pdb64") return encPDB(r,t,64,false); if(ext=="pdb") return encPDB(r,t,r.chance(1,2)?32:64,true);
    throw std::runtime_error("encode "+ext);
}

// ---------------------------------------------------------------------------- decoders ------
#define VF_D(c,...) do{ if(!(c)) return fmt(__VA_ARGS__); }while(0)
inline std::string decBGEO(const std::string& b,Table& t){
    R r(b); VF_D(r.str(4)=="Bgeo","magic"); VF_D(r.str(1)=="V","version char"); VF_D(r.be<int>()==5,"version"); t.n=r.be<int>(); int np=r.be<int>(),npg=r.be<int>(),nprg=r.be<int>(),npa=r.be<int>(),nva=r.be<int>(),npra=r.be<int>(),nd=r.be<int>();
    VF_D(r.ok&&t.n>=0&&npa>=0&&nd>=0,"header counts"); VF_D(np==0&&npg==0&&nprg==0&&nva==0&&npra==0,"unexpected primitives/groups");
    auto desc=[&](std::vector<Attr>& v,int n)->std::string{ for(int i=0;i<n;i++){ Attr a; a.name=r.str(r.be<uint16_t>()); a.count=r.be<uint16_t>(); int ht=r.be<int>(); VF_D(r.ok,"attribute table truncated"); if(ht==4){ a.type=T_STR; int k=r.be<int>(); VF_D(r.ok&&k>=0,"index count"); for(int j=0;j<k&&r.ok;j++) a.strs.push_back(r.str(r.be<uint16_t>())); } else { VF_D(ht==0||ht==1||ht==5,"attribute type %d",ht); a.type=ht==0?T_FLOAT:ht==1?T_INT:T_VECTOR; for(int j=0;j<a.count;j++) r.be<int>(); } v.push_back(a);} return r.ok?"":"attribute table truncated"; };
    Attr pos; pos.name="position"; pos.type=T_VECTOR; pos.count=3; t.attrs.push_back(pos); std::string e=desc(t.attrs,npa); if(!e.empty()) return e;
    for(int i=0;i<t.n&&r.ok;i++){ for(int k=0;k<3;k++) t.attrs[0].vals.push_back(r.be<uint32_t>()); uint32_t w=r.be<uint32_t>(); VF_D(w==0x3f800000u,"homogeneous coordinate of point %d is 0x%08x",i,w); for(size_t a=1;a<t.attrs.size();a++) for(int k=0;k<t.attrs[a].count;k++) t.attrs[a].vals.push_back(r.be<uint32_t>()); }
    e=desc(t.fixed,nd); if(!e.empty()) return e; for(auto& a:t.fixed) for(int k=0;k<a.count;k++) a.vals.push_back(r.be<uint32_t>());
    VF_D(r.str(1)==std::string(1,'\0'),"beginExtra byte"); VF_D(r.str(1)=="\xff","endExtra byte"); VF_D(r.end(),"%zu bytes, consumed %zu",b.size(),r.p); return "";
}
struct Tok { const std::string& b; size_t p=0; explicit Tok(const std::string& s):b(s){}
    void skip(){ while(p<b.size()&&(b[p]==' '||b[p]=='\n'||b[p]=='\t')) p++; }
    std::string word(){ skip(); size_t q=p; while(p<b.size()&&!(b[p]==' '||b[p]=='\n'||b[p]=='\t'||b[p]==')'||(b[p]=='('&&p>q))) { p++; if(b[p-1]=='(') break; } if(q==p&&p<b.size()) p++; return b.substr(q,p-q); }
    std::string rawword(){ skip(); size_t q=p; while(p<b.size()&&!(b[p]==' '||b[p]=='\n'||b[p]=='\t')) p++; return b.substr(q,p-q); }
    bool expect(const char* w){ return rawword()==w; }
    bool integer(long& v){ std::string s=word(); char* e; v=strtol(s.c_str(),&e,10); return !s.empty()&&!*e; }
    bool number(float& v){ std::string s=word(); if(s.empty()) return false; for(char c:s) if(c==',') return false; char* e; v=strtof(s.c_str(),&e); return !*e; }
    bool quoted(std::string& s){ skip(); s.clear(); if(p>=b.size()||b[p]!='"') return false; p++; while(p<b.size()){ char c=b[p++]; if(c=='\\'){ if(p<b.size()) s+=b[p++]; } else if(c=='"') return true; else s+=c; } return false; }
    bool end(){ skip(); return p==b.size(); } };
inline std::string decGEO(const std::string& b,Table& t){
    Tok k(b); long n,na,x; VF_D(k.expect("PGEOMETRY")&&k.expect("V5"),"magic line"); VF_D(k.expect("NPoints")&&k.integer(n)&&k.expect("NPrims")&&k.integer(x)&&x==1,"NPoints line"); VF_D(k.expect("NPointGroups")&&k.integer(x)&&x==0&&k.expect("NPrimGroups")&&k.integer(x)&&x==0,"groups line");
    VF_D(k.expect("NPointAttrib")&&k.integer(na)&&k.expect("NVertexAttrib")&&k.integer(x)&&x==0&&k.expect("NPrimAttrib")&&k.integer(x)&&x==1&&k.expect("NAttrib")&&k.integer(x)&&x==0,"attrib line"); t.n=(int)n;
    Attr pos; pos.name="position"; pos.type=T_VECTOR; pos.count=3; t.attrs.push_back(pos);
    if(na>0){ VF_D(k.expect("PointAttrib"),"PointAttrib"); for(long i=0;i<na;i++){ Attr a; a.name=k.rawword(); VF_D(k.integer(x)&&x>=0,"attr width of '%s'",a.name.c_str()); a.count=(int)x; std::string ty=k.rawword(); if(ty=="index"){ a.type=T_STR; VF_D(k.integer(x)&&x>=0,"string count"); for(long j=0;j<x;j++){ std::string s; VF_D(k.quoted(s),"string %ld of '%s'",j,a.name.c_str()); a.strs.push_back(s);} } else { VF_D(ty=="float"||ty=="int"||ty=="vector","attr type '%s'",ty.c_str()); a.type=ty=="float"?T_FLOAT:ty=="int"?T_INT:T_VECTOR; for(int j=0;j<a.count;j++){ float f; VF_D(k.number(f),"default"); } } t.attrs.push_back(a);} }
    for(long i=0;i<n;i++){ for(int c=0;c<3;c++){ float f; VF_D(k.number(f),"point %ld coordinate",i); t.attrs[0].vals.push_back(f2u(f)); } float w; VF_D(k.number(w)&&w==1.f,"w of point %ld",i); if(na>0){ VF_D(k.word()=="(","'(' of point %ld",i); for(size_t a=1;a<t.attrs.size();a++) for(int c=0;c<t.attrs[a].count;c++){ if(t.attrs[a].isFloat()){ float f; VF_D(k.number(f),"value point %ld",i); t.attrs[a].vals.push_back(f2u(f)); } else { VF_D(k.integer(x),"int value point %ld",i); t.attrs[a].vals.push_back((uint32_t)x);} } VF_D(k.word()==")","')' of point %ld",i); } }
    VF_D(k.expect("PrimitiveAttrib")&&k.expect("generator")&&k.integer(x)&&k.expect("index")&&k.integer(x)&&k.expect("papi"),"primitive attrib"); VF_D(k.expect("Part")&&k.integer(x)&&x==n,"Part count"); for(long i=0;i<n;i++) VF_D(k.integer(x)&&x==i,"Part index %ld",i); VF_D(k.expect("[0]")&&k.expect("beginExtra")&&k.expect("endExtra")&&k.end(),"trailer"); return "";
}
inline std::string decPDB(const std::string& b,Table& t,int bits){
    R r(b); VF_D(r.le<int>()==670,"magic"); VF_D(r.le<uint16_t>()==1,"swap"); r.le<uint16_t>(); VF_D(r.le<uint32_t>()==0x3f800000u,"version"); r.le<uint32_t>(); t.n=(int)r.le<uint32_t>(); int nc=(int)r.le<uint32_t>(); r.str(32); size_t ps=bits/8; r.str(ps);
    for(int i=0;i<nc&&r.ok;i++){ r.str(1); r.str(1); VF_D(r.le<uint16_t>()==1,"channel swap"); VF_D(r.str(2)==std::string(2,'\0'),"encoding/type"); r.str(ps); int ty=r.le<int>(); VF_D(ty>=1&&ty<=3,"channel type %d",ty); r.le<uint32_t>(); VF_D(r.le<uint32_t>()==0,"active_start"); VF_D((int)r.le<uint32_t>()==t.n-1,"active_end"); r.str(2); r.str(bits==64?6:2); r.str(3*ps); Attr a; a.name=r.zstr(); VF_D(r.le<int>()==ty,"data type"); unsigned ds=r.le<uint32_t>(); VF_D((int)r.le<uint32_t>()==t.n,"blocksize"); VF_D(r.le<int>()==1,"num_blocks"); r.str(ps); VF_D(r.ok&&ds%4==0,"channel truncated"); a.type=ty==1?T_VECTOR:ty==2?T_FLOAT:T_INT; a.count=(int)ds/4; VF_D(r.need((size_t)ds*t.n),"data truncated"); for(size_t k=0;k<(size_t)a.count*t.n;k++) a.vals.push_back(r.le<uint32_t>()); t.attrs.push_back(a); }
    VF_D(r.end(),"%zu bytes, consumed %zu",b.size(),r.p); return "";
}
inline std::string decPDA(const std::string& b,Table& t){
    Tok k(b); VF_D(k.expect("ATTRIBUTES"),"ATTRIBUTES"); std::vector<std::string> names,types; std::string w; while((w=k.rawword())!="TYPES"){ VF_D(!w.empty(),"no TYPES"); names.push_back(w);} while((w=k.rawword())!="NUMBER_OF_PARTICLES:"){ VF_D(!w.empty(),"no count"); types.push_back(w);} VF_D(names.size()==types.size(),"%zu names, %zu types",names.size(),types.size()); long n; VF_D(k.integer(n),"count"); t.n=(int)n; VF_D(k.expect("BEGIN")&&k.expect("DATA"),"BEGIN DATA");
    for(size_t i=0;i<names.size();i++){ Attr a; a.name=names[i]; VF_D(types[i]=="V"||types[i]=="R"||types[i]=="I","type"); a.type=types[i]=="V"?T_VECTOR:types[i]=="R"?T_FLOAT:T_INT; a.count=types[i]=="V"?3:1; t.attrs.push_back(a);} 
    for(long i=0;i<n;i++) for(auto& a:t.attrs) for(int c=0;c<a.count;c++){ if(a.isFloat()){ float f; VF_D(k.number(f),"value"); a.vals.push_back(f2u(f)); } else { long x; VF_D(k.integer(x),"int"); a.vals.push_back((uint32_t)x);} } VF_D(k.end(),"trailing data"); return "";
}
inline std::string decPTC(const std::string& b,Table& t){
    R r(b); VF_D(r.str(4)=="pptc","magic"); int ver=r.le<int>(); VF_D(ver==0,"version %d",ver); double n=r.leD(); t.n=(int)n; VF_D(n==t.n&&n>=0,"count"); float box[6]; for(auto& f:box) f=u2f(r.le<uint32_t>()); r.str(4*32); for(int i=0;i<3;i++) r.le<uint32_t>(); int nv=r.le<int>(),ds=r.le<int>(); VF_D(r.ok&&nv>=0,"header");
    Attr p,no,ra; p.name="position";p.type=T_VECTOR;p.count=3; no.name="normal";no.type=T_VECTOR;no.count=3; ra.name="radius"; t.attrs={p,no,ra}; int s=0; for(int i=0;i<nv;i++){ std::string l; while(r.ok){ std::string c=r.str(1); if(c=="\n") break; l+=c; } size_t sp=l.find(' '); VF_D(sp!=std::string::npos,"spec '%s'",l.c_str()); std::string ty=l.substr(0,sp); Attr a; a.name=l.substr(sp+1); VF_D(ty=="float"||ty=="color"||ty=="matrix","spec type '%s'",ty.c_str()); a.count=ty=="float"?1:ty=="color"?3:16; s+=a.count; t.attrs.push_back(a);} VF_D(s==ds,"data size %d, specs sum to %d",ds,s);
    float mn[3]={INFINITY,INFINITY,INFINITY},mx[3]={-INFINITY,-INFINITY,-INFINITY};
    for(int i=0;i<t.n&&r.ok;i++){ for(int k=0;k<3;k++){ uint32_t v=r.le<uint32_t>(); t.attrs[0].vals.push_back(v); mn[k]=std::min(mn[k],u2f(v)); mx[k]=std::max(mx[k],u2f(v)); } int phi=r.le<uint16_t>(),z=r.le<uint16_t>(); double nn[3]={0,0,0}; if(!(phi==65535&&z==65535)){ nn[2]=2.0*z/65535.0-1.0; double a=2*M_PI*(phi/65535.0-0.5),rr=std::sqrt(std::max(0.0,1-nn[2]*nn[2])); nn[0]=rr*std::sin(a); nn[1]=rr*std::cos(a);} for(double d:nn) t.attrs[1].vals.push_back(f2u((float)d)); t.attrs[2].vals.push_back(r.le<uint32_t>()); for(size_t a=3;a<t.attrs.size();a++) for(int k=0;k<t.attrs[a].count;k++) t.attrs[a].vals.push_back(r.le<uint32_t>()); }
    VF_D(r.end(),"%zu bytes, consumed %zu",b.size(),r.p); bool finite=true; for(int k=0;k<3;k++) finite&=std::isfinite(mn[k])&&std::isfinite(mx[k]);
    if(t.n>0&&finite) for(int k=0;k<3;k++) VF_D(box[k]==mn[k]&&box[3+k]==mx[k],"bounding box axis %d is [%g,%g], points span [%g,%g]",k,box[k],box[3+k],mn[k],mx[k]); return "";
}
inline std::string decPDC(const std::string& b,Table& t){
    R r(b); VF_D(r.str(4)=="PDC ","magic"); VF_D(r.be<int>()==1,"version"); VF_D(r.be<int>()==1,"bit order"); r.be<int>(); r.be<int>(); t.n=r.be<int>(); int na=r.be<int>(); VF_D(r.ok&&t.n>=0&&na>=0,"header"); for(int i=0;i<na&&r.ok;i++){ Attr a; int l=r.be<int>(); VF_D(l>=0,"name length"); a.name=r.str(l); int ty=r.be<int>(); VF_D(ty==3||ty==5,"type %d",ty); a.type=ty==5?T_VECTOR:T_FLOAT; a.count=ty==5?3:1; VF_D(r.need((size_t)8*a.count*t.n),"truncated"); for(int k=0;k<a.count*t.n;k++) a.vals.push_back(f2u((float)r.beD())); t.attrs.push_back(a);} VF_D(r.end(),"%zu bytes, consumed %zu",b.size(),r.p); return "";
}
inline std::string decPRT(const std::string& b,Table& t){
    static const int sz[]={2,4,8,2,4,8,2,4,8,1,1};
    R r(b); VF_D(r.str(8)==std::string("\xc0PRT\r\n\x1a\n",8),"magic"); VF_D(r.le<int>()==56,"header size"); VF_D(r.str(32)==std::string("Extensible Particle Format\0\0\0\0\0\0",32),"signature"); VF_D(r.le<int>()==1,"version"); t.n=(int)r.le<uint64_t>(); VF_D(r.le<int>()==4,"attribute table marker"); int nc=r.le<int>(),cs=r.le<int>(); VF_D(cs==44,"channel size %d",cs); std::vector<unsigned> off; std::vector<int> tys; size_t psz=0;
    for(int i=0;i<nc&&r.ok;i++){ std::string nm=r.str(32); VF_D(nm.find('\0')!=std::string::npos,"channel name not terminated"); Attr a; a.name=nm.c_str(); VF_D(!a.name.empty(),"empty channel name"); VF_D(!(a.name[0]>='a'&&a.name[0]<='z'),"channel name '%s' not capitalised",a.name.c_str()); if(a.name[0]>='A'&&a.name[0]<='Z') a.name[0]=(char)(a.name[0]+32); int ty=r.le<int>(); a.count=r.le<int>(); unsigned o=r.le<uint32_t>(); VF_D(ty==1||ty==4,"channel type %d",ty); a.type=ty==1?T_INT:a.count==3?T_VECTOR:T_FLOAT; VF_D(o==psz,"channel '%s' offset %u, expected %zu",a.name.c_str(),o,psz); psz+=(size_t)sz[ty]*a.count; off.push_back(o); tys.push_back(ty); t.attrs.push_back(a);} VF_D(r.ok,"channel table truncated");
    std::string body(psz*t.n+64,0); z_stream z; memset(&z,0,sizeof z); inflateInit(&z); z.next_in=(Bytef*)b.data()+r.p; z.avail_in=(uInt)(b.size()-r.p); z.next_out=(Bytef*)&body[0]; z.avail_out=(uInt)body.size(); int e=inflate(&z,Z_FINISH); size_t got=body.size()-z.avail_out,left=z.avail_in; inflateEnd(&z); VF_D(e==Z_STREAM_END,"zlib stream error %d",e); VF_D(got==psz*t.n,"particle data is %zu bytes, expected %zu",got,psz*t.n); VF_D(left==0,"%zu bytes after the stream",left);
    for(int i=0;i<t.n;i++) for(size_t a=0;a<t.attrs.size();a++) for(int k=0;k<t.attrs[a].count;k++){ uint32_t v; memcpy(&v,&body[psz*i+off[a]+4*k],4); t.attrs[a].vals.push_back(v);} return "";
}
inline std::string decBIN(const std::string& b,Table& t){
    R r(b); VF_D(r.le<int>()==0xFABADA,"magic"); std::string fn=r.str(250); VF_D(fn.find('\0')!=std::string::npos,"fluid name"); int ver=r.le<int16_t>(); VF_D(ver==11,"version %d",ver); r.le<uint32_t>();r.le<int>();r.le<uint32_t>();r.le<int>();r.le<int>(); t.n=r.le<int>(); r.le<uint32_t>(); for(int i=0;i<18;i++) r.le<uint32_t>(); VF_D(r.ok&&t.n>=0,"header");
    auto A=[&](const char* n,int ty,int c){ Attr a; a.name=n;a.type=ty;a.count=c; t.attrs.push_back(a); }; for(const char* n:{"position","velocity","force","vorticity","normal"}) A(n,T_VECTOR,3); A("neighbors",T_INT,1); A("uvw",T_VECTOR,3); for(const char* n:{"age","isolationTime","viscosity","density","pressure","mass","temperature"}) A(n,T_FLOAT,1); A("id",T_INT,1);
    for(int i=0;i<t.n&&r.ok;i++) for(auto& a:t.attrs){ if(a.name=="age") r.le<uint16_t>(); for(int k=0;k<a.count;k++) a.vals.push_back(r.le<uint32_t>()); } VF_D(r.le<int>()==0&&r.str(2)==std::string(2,'\0')&&r.end(),"trailer: %zu bytes, consumed %zu",b.size(),r.p); return "";
}
// RIB: tables as printed; returns per pass the printed parameters
inline std::string decRIB(const std::string& b,const Table& w){
    Tok k(b); bool P2=w.find("position2")||w.find("P2"); bool width=w.find("radius")||w.find("width")||w.find("radiusPP"); std::string s;
    VF_D(k.expect("version")&&k.expect("3.04"),"version"); if(P2) VF_D(k.expect("GeometricApproximation")&&k.quoted(s)&&s=="motionfactor"&&k.expect("1.0"),"motionfactor"); VF_D(k.expect("AttributeBegin")&&k.expect("ResourceBegin")&&k.expect("Attribute")&&k.quoted(s)&&s=="identifier"&&k.quoted(s)&&s=="name","attribute block"); k.rawword(); if(P2) VF_D(k.expect("MotionBegin")&&k.expect("[0.0")&&k.expect("1.0]"),"motion block");
    for(int pass=0;pass<(P2?2:1);pass++){ VF_D(k.expect("Points"),"Points"); for(auto& a:w.attrs){ bool isP=a.name=="P"||a.name=="position",isP2=a.name=="P2"||a.name=="position2"; if((pass==0&&isP2)||(pass==1&&isP)) continue; std::string nm= isP||isP2?"P":a.name=="radius"?"width":a.name; VF_D(k.quoted(s)&&s==nm,"parameter '%s', expected '%s'",s.c_str(),nm.c_str()); VF_D(k.expect("["),"'[' of %s",nm.c_str()); for(size_t i=0;i<a.vals.size();i++){ if(a.isFloat()){ float f; VF_D(k.number(f)&&closeText(u2f(a.vals[i]),f),"value %zu of '%s' (%.9g)",i,nm.c_str(),u2f(a.vals[i])); } else { long x; VF_D(k.integer(x)&&x==(int)a.vals[i],"value %zu of '%s'",i,nm.c_str()); } } VF_D(k.expect("]"),"']' of %s",nm.c_str()); }
        if(!width) VF_D(k.quoted(s)&&s=="constantwidth"&&k.expect("[1.0]"),"constantwidth"); }
    if(P2) VF_D(k.expect("MotionEnd"),"MotionEnd"); VF_D(k.expect("ResourceEnd")&&k.expect("AttributeEnd")&&k.end(),"trailer"); return "";
}
// decode a file Partio wrote; pdbBits decides the header width of .pdb
inline std::string decode(const std::string& ext,const std::string& b,Table& t){
    std::string s=format(ext).base;
    if(s=="bgeo") return decBGEO(b,t); if(s=="geo") return decGEO(b,t); if(s=="pda") return decPDA(b,t); if(s=="ptc") return decPTC(b,t); if(s=="pdc") return decPDC(b,t); if(s=="prt") return decPRT(b,t); if(s=="bin") return decBIN(b,t);
    if(s=="pdb") return decPDB(b,t,ext=="pdb64"?64:32); return "no decoder"; }
// what a decoder must find in the written file
inline Table expectDecoded(const std::string& ext,const Table& w){ Table t=expectRead(ext,w); return t; }

// ---------------------------------------------------------------------------- gzip ----------
// strict parser: exactly one member, whole file
inline std::string gunzipStrict(const std::string& b,std::string& out){
    R r(b); VF_D(r.str(2)=="\x1f\x8b","gzip magic"); VF_D(r.str(1)=="\x08","method"); unsigned fl=r.le<uint8_t>(); VF_D((fl&0xe0)==0,"reserved flag bits"); r.str(6); if(fl&4) r.str(r.le<uint16_t>()); if(fl&8) r.zstr(); if(fl&16) r.zstr(); if(fl&2) r.str(2); VF_D(r.ok,"header truncated");
    out.clear(); z_stream z; memset(&z,0,sizeof z); inflateInit2(&z,-15); z.next_in=(Bytef*)b.data()+r.p; z.avail_in=(uInt)(b.size()-r.p); char buf[65536]; int e; do{ z.next_out=(Bytef*)buf; z.avail_out=sizeof buf; e=inflate(&z,Z_NO_FLUSH); out.append(buf,sizeof(buf)-z.avail_out); }while(e==Z_OK); size_t left=z.avail_in; inflateEnd(&z); VF_D(e==Z_STREAM_END,"deflate data error %d",e); VF_D(left==8,"%zu bytes after the deflate data (8 expected)",left);
    r.p=b.size()-8; uint32_t crc=r.le<uint32_t>(),len=r.le<uint32_t>(); VF_D(crc==(uint32_t)crc32(0,(const Bytef*)out.data(),(uInt)out.size()),"CRC mismatch"); VF_D(len==(uint32_t)out.size(),"ISIZE %u, length %zu",len,out.size()); return "";
}
// foreign gzip encoder
inline std::string gzipForeign(Rng& r,const std::string& in,unsigned flags=~0u){
    unsigned fl= flags==~0u? (r.chance(1,2)?0: (unsigned)(r.below(16)<<1) | (r.chance(1,4)?1:0)) : flags; // FTEXT=1 FHCRC=2 FEXTRA=4 FNAME=8 FCOMMENT=16
    W w; w.u8(0x1f);w.u8(0x8b);w.u8(8);w.u8(fl); w.le<uint32_t>(r.chance(1,2)?0:(uint32_t)r.next()); w.u8(r.chance(1,2)?0:2); w.u8(r.chance(1,2)?3:255);
    if(fl&4){ int n=r.range(0,r.chance(1,4)?600:20); w.le<uint16_t>((uint16_t)n); w.junk(r,n); } if(fl&8){ w.str(genWord(r,1,r.chance(1,4)?600:20)); w.u8(0);} if(fl&16){ w.str(genWord(r,1,20)+" note"); w.u8(0);} if(fl&2){ uint32_t c=(uint32_t)crc32(0,(const Bytef*)w.b.data(),(uInt)w.b.size()); w.le<uint16_t>((uint16_t)c);} 
    int level=r.range(0,9); static const int strat[]={Z_DEFAULT_STRATEGY,Z_DEFAULT_STRATEGY,Z_FIXED,Z_HUFFMAN_ONLY,Z_RLE,Z_FILTERED}; z_stream z; memset(&z,0,sizeof z); deflateInit2(&z,level,Z_DEFLATED,-r.range(9,15),r.range(1,9),strat[r.below(6)]); std::string o(deflateBound(&z,in.size())+1024,0); z.next_in=(Bytef*)in.data(); z.avail_in=(uInt)in.size(); z.next_out=(Bytef*)&o[0]; z.avail_out=(uInt)o.size();
    int e=deflate(&z,Z_FINISH); size_t n=o.size()-z.avail_out; deflateEnd(&z); if(e!=Z_STREAM_END) throw std::runtime_error("deflate"); o.resize(n); w.str(o); w.le<uint32_t>((uint32_t)crc32(0,(const Bytef*)in.data(),(uInt)in.size())); w.le<uint32_t>((uint32_t)in.size()); return w.b;
}
} // namespace vf
