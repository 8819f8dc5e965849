// P31: any data set whatsoever through every writer.  P32: the textual listing.
#include "codec.h"
using namespace vf;

static const char* badShape(Rng& r,Attr& a){ // another type or width for an attribute writers look up by name
    static const int types[]={T_VECTOR,T_FLOAT,T_INT,T_STR}; a.type=types[r.below(4)]; a.count=r.chance(1,4)?0:r.range(1,5); return "shape"; }
static Table anySet(Rng& r,const std::string& base){
    Table t; int m=(int)r.below(20); t.n= m==0?0: m==1? r.range(200,900): m<6? r.range(1,3): r.range(1,40);
    bool text= base=="geo"||base=="pda"||base=="rib"; int na=r.chance(1,10)?r.range(8,24):r.range(0,6);
    static const char* special[]={"normal","radius","P","P2","position2","width","radiusPP","velocity","force","vorticity","neighbors","uvw","age","isolationTime","viscosity","density","pressure","mass","temperature","id"};
    auto one=[&](std::vector<Attr>& have,const std::string& nm,int n){ Attr a; a.name=nm; badShape(r,a); int c=(int)r.below(12); if(c==0) a.count=r.range(15,17); else if(c==1) a.count=r.range(10,300); else if(c<5) a.count= a.type==T_VECTOR?3:1; else if(c==5) a.count=3; if(a.type==T_STR) genStrs(r,a,text?S_TEXT:S_ANY); genVals(r,a,n,text?V_FINITE:V_BITS); 
        if(a.type==T_STR&&r.chance(1,10)) for(auto& v:a.vals) if(r.chance(1,3)) v=genInt(r); have.push_back(a); };
    if(r.chance(1,8)) {} else if(r.chance(1,3)) one(t.attrs,"position",t.n);
    else { Attr a; a.name="position"; a.type=r.chance(1,5)?T_FLOAT:T_VECTOR; a.count=3; genVals(r,a,t.n,text?V_FINITE:V_BITS); t.attrs.push_back(a); }
    auto name=[&](Rng& q){ if(q.chance(1,3)) return std::string(special[q.below(20)]); if(!text&&base!="ptc"&&q.chance(1,10)){ std::string s=genString(q,S_ANY); return s; } return q.chance(1,2)?commonName(q):genWord(q,1,base=="prt"&&q.chance(1,4)?60:20); };
    for(int i=0;i<na;i++) one(t.attrs,uniqueName(r,t.attrs,name),t.n);
    r.shuffle(t.attrs); int nf=r.chance(1,2)?0:r.range(1,5); for(int i=0;i<nf;i++) one(t.fixed,uniqueName(r,t.fixed,name),1);
    if(r.chance(1,60)&&!text){ Attr a; a.name="long"; a.type=T_STR; a.count=1; static const int ls[]={65534,65535,65536,65537,70000,131072}; std::string s(ls[r.below(6)],'s'); a.strs={"a",s,"b"}; genVals(r,a,t.n,V_BITS); t.attrs.push_back(a); }
    if(r.chance(1,150)&&!text){ Attr a; a.name="wide"; a.type=T_FLOAT; static const int ws_[]={65535,65536,65537,70000}; a.count=ws_[r.below(4)]; if(t.n>2){ t.n=2; for(auto& x:t.attrs) x.vals.resize((size_t)2*x.count); } genVals(r,a,t.n,V_BITS); t.attrs.push_back(a); }
    if(r.chance(1,100)&&!text){ Attr a; a.name=std::string(r.range(65530,65540),'n'); a.type=T_INT; genVals(r,a,t.n,V_BITS); (r.chance(1,2)?t.attrs:t.fixed).push_back(a); if(&a&&t.fixed.size()&&t.fixed.back().name==a.name) t.fixed.back().vals.resize(1); }
    return t; }
static bool floaty(const Attr& a){ return a.type==T_FLOAT||a.type==T_VECTOR; }
// c.nanAny: PDC widens to double can hold the attribute; `as` is what reading must return then
static bool holds(const std::string& base,const Attr& a,Attr& as){
    as=a; bool tokens=true; if(a.type==T_STR) for(auto v:a.vals) tokens&= v<a.strs.size();
    if(base=="bgeo") return a.count<=65535;
    if(base=="geo") return tokens;
    if(base=="pdb"){ if(a.type==T_STR){ as.type=T_INT; as.strs.clear(); } return !a.name.empty()||true; }
    if(base=="pda"){ if(a.type==T_STR){ as.type=T_INT; as.strs.clear(); } return a.count==(a.type==T_VECTOR?3:1); }
    if(base=="pdc") return (a.type==T_FLOAT&&a.count==1)||(a.type==T_VECTOR&&a.count==3);
    if(base=="prt"){ if(a.type==T_STR||a.count==0||a.name.empty()||a.name.size()>31||!islower((unsigned char)a.name[0])) return false; if(floaty(a)) as.type=a.count==3?T_VECTOR:T_FLOAT; return true; }
    if(base=="ptc"){ if(a.name=="normal") return false; if(a.name=="radius") { as.type=T_FLOAT; return floaty(a)&&a.count==1; } if(a.name=="position"){ as.type=T_VECTOR; return true; } as.type=T_FLOAT; return floaty(a)&&(a.count==1||a.count==3||a.count==16); }
    if(base=="bin"){ static const std::map<std::string,std::pair<int,int>> m={{"position",{T_VECTOR,3}},{"velocity",{T_VECTOR,3}},{"force",{T_VECTOR,3}},{"vorticity",{T_VECTOR,3}},{"normal",{T_VECTOR,3}},{"neighbors",{T_INT,1}},{"uvw",{T_VECTOR,3}},{"age",{T_FLOAT,1}},{"isolationTime",{T_FLOAT,1}},{"viscosity",{T_FLOAT,1}},{"density",{T_FLOAT,1}},{"pressure",{T_FLOAT,1}},{"mass",{T_FLOAT,1}},{"temperature",{T_FLOAT,1}},{"id",{T_INT,1}}}; auto it=m.find(a.name); return it!=m.end()&&a.type==it->second.first&&a.count==it->second.second; }
    return false; }
// PRT folds the case of a name's first letter: of the attributes that share a folded name the file can hold only one
static bool shared(const std::string& base,const std::vector<Attr>& all,const Attr& a){ if(base!="prt"||a.name.empty()) return false;
    auto fold=[](std::string s){ s=s.substr(0,31); if(!s.empty()) s[0]=(char)tolower((unsigned char)s[0]); return s; };
    for(auto& o:all) if(&o!=&a&&fold(o.name)==fold(a.name)) return true; return false; }

static Reg r31("P31",[](Rng& r,long k){
    static auto e=extsOf([](const Format& f){return f.wr;}); std::string ext=e[k%e.size()]; const Format& f=format(ext); std::string base=f.base;
    Table t=anySet(r,base); bool il=r.chance(1,4),gz=f.gz&&r.chance(1,6); PM p(make(t,&r,il?0:r.range(0,3),il)); std::string fn=tmpFile("any."+ext+(gz?".gz":"")); std::ostringstream es; Partio::write(fn.c_str(),*p,f.gz&&r.chance(1,10),true,es);
    evaluated(); distinct(hashTable(t,hashStr(ext,il))); count("format."+ext+(gz?".gz":"")); if(k<3) sample(ext+" "+describe(t));
    std::string d=diff(t,snapshot(*p)); VF_CHECK(d.empty(),"P31.source","writing %s as %s changed the data set: %s",describe(t).c_str(),ext.c_str(),d.c_str());
    bool file=exists(fn); std::string bytes=file?slurp(fn):""; bool empty31=base=="prt"&&t.n==0;
    if(!file){ VF_CHECK(empty31||!es.str().empty(),"P31.silent."+base,"writing %s as %s created no file and gave no diagnostic",describe(t).c_str(),ext.c_str()); count("refused"); return; }
    struct U { std::string f; ~U(){ unlink(f.c_str()); } } u{fn};
    if(!f.rd){ count("written_only"); std::string err; bool ok=t.find("position")||t.find("P"); VF_CHECK(ok||!es.str().empty(),"P31.silent."+base,"writing %s as %s is refused without a diagnostic",describe(t).c_str(),ext.c_str()); return; }
    std::ostringstream es2; PM q(Partio::read(fn.c_str(),true,es2));
    if(!q){ VF_CHECK(!es.str().empty(),"P31.silent."+base,"%s written as %s (%zu bytes) cannot be read back (%s), but writing gave no diagnostic",describe(t).c_str(),ext.c_str(),bytes.size(),es2.str().c_str()); count("refused"); return; }
    const Attr* pos=t.find("position"); bool mustHave= base=="bgeo"||base=="geo"||base=="ptc"; 
    if(mustHave&&(!pos||!floaty(*pos)||pos->count!=3)){ VF_CHECK(!es.str().empty(),"P31.silent."+base,"writing %s as %s without a usable position gave no diagnostic",describe(t).c_str(),ext.c_str()); count("refused"); return; }
    if(base=="pda"){ for(auto& a:t.attrs){ Attr x; if(!holds(base,a,x)){ count("pda_other_shapes"); VF_CHECK(!es.str().empty(),"P31.silent.pda","writing %s as %s: '%s' cannot be stored, but there is no diagnostic",describe(t).c_str(),ext.c_str(),a.name.c_str()); } } }
    count("accepted"); Table got=snapshot(*q); VF_CHECK(got.n==t.n,"P31.count."+base,"%s written as %s has %d particles when read back",describe(t).c_str(),ext.c_str(),got.n);
    Cmp c=cmpFor(ext); c.nanAny= base=="pdc"; auto all=[&](const std::vector<Attr>& want,const std::vector<Attr>& have,const char* kind){
        for(auto& a:want){ Attr as; if(!holds(base,a,as)) { count("attributes_left_out"); continue; } if(shared(base,want,a)) { count("names_shared"); continue; } if(a.name=="position"&&(base=="bgeo"||base=="geo")) as.type=T_VECTOR;
            const Attr* g=nullptr; for(auto& x:have) if(x.name==as.name&&(!g)) g=&x; VF_CHECK(g,"P31.lost."+base,"%s written as %s: %s attribute '%s' %s[%d] is missing when read back; diagnostics: %s",describe(t).c_str(),ext.c_str(),kind,shortStr(a.name).c_str(),typeName(a.type),a.count,es.str().substr(0,300).c_str());
            std::string d=diffAttr(as,*g,t.n,c,kind); VF_CHECK(d.empty(),"P31.content."+base,"%s written as %s: %s",describe(t).c_str(),ext.c_str(),d.c_str()); count("attributes_compared"); } };
    all(t.attrs,got.attrs,"particle"); if(base=="bgeo") all(t.fixed,got.fixed,"fixed"); });

// P32: the textual listing
struct Capture { std::ostringstream o,e; std::streambuf *so,*se; std::ostream& dummy=std::cout; Capture(){ so=std::cout.rdbuf(o.rdbuf()); se=std::cerr.rdbuf(e.rdbuf()); } ~Capture(){ std::cout.rdbuf(so); std::cerr.rdbuf(se); } };
static bool sameNumber(const Attr& a,uint32_t want,const std::string& tok){
    if(!floaty(a)){ char* end; long long v=strtoll(tok.c_str(),&end,10); return !*end&&!tok.empty()&&v==(int32_t)want; }
    float w=u2f(want); char* end; double g=strtod(tok.c_str(),&end); if(*end||tok.empty()) return false; if(std::isnan(w)) return std::isnan(g); char b[64]; snprintf(b,64,"%.6g",(double)w); return strtod(b,nullptr)==g; }
static Reg r32("P32",[](Rng& r,long k){
    GenOpt o; o.vals=r.chance(1,3)?V_BITS:V_FINITE; o.anyNames=false; o.strs=S_TEXT; int m=(int)r.below(20); o.n= m==0?0: m<12? r.range(1,9): m<16? r.range(9,12): m==16&&r.chance(1,4)? r.range(1000,5000) : r.range(1,60); Table t=genTable(r,o);
    if(r.chance(1,6)){ Attr a; a.name="wide"; a.type=r.chance(1,2)?T_FLOAT:T_INT; a.count=r.range(5,r.chance(1,4)?400:40); genVals(r,a,t.n,o.vals); t.attrs.push_back(a); }
    if(r.chance(1,12)){ Attr a; a.name="none"; a.type=T_FLOAT; a.count=0; t.attrs.push_back(a); }
    if(r.chance(1,12)) for(int i=r.range(10,40);i-->0;){ Attr a; a.name=fmt("many%d",i); a.type=r.chance(1,2)?T_INT:T_FLOAT; a.count=r.range(1,2); genVals(r,a,t.n,o.vals); t.attrs.push_back(a); }
    r.shuffle(t.attrs); bool il=r.chance(1,3); PM p(make(t,&r,il?0:r.range(0,3),il)); Table before=snapshot(*p); bool sorted=false; { const Attr* q=t.find("position"); if(q&&q->type==T_VECTOR&&q->count==3&&t.n&&r.chance(1,3)){ bool fin=true; for(auto v:q->vals) fin&=std::isfinite(u2f(v)); if(fin){ p->sort(); sorted=true; } } }
    std::string out,err; { Capture c; Partio::print(p.get()); out=c.o.str(); err=c.e.str(); }
    evaluated(); distinct(hashTable(t,il)); count(il?"interleaved":"simple"); if(sorted) count("sorted"); if(k<3) sample(describe(t)+" -> "+out.substr(0,120));
    std::string d=diff(before,snapshot(*p)); VF_CHECK(d.empty(),"P32.mutated","printing changed the data set: %s",d.c_str()); VF_CHECK(err.empty(),"P32.stderr","printing wrote '%s' to the error stream",err.c_str());
    std::vector<std::string> tok; std::string cur; for(char ch:out){ if(strchr(" ,()\t\n",ch)){ if(!cur.empty()) tok.push_back(cur); cur.clear(); } else { cur+=ch; if(ch=='='){ tok.push_back(cur); cur.clear(); } } } if(!cur.empty()) tok.push_back(cur);
    size_t at=0; auto want=[&](const std::string& w,const char* what){ VF_CHECK(at<tok.size()&&tok[at]==w,"P32.text","%s of %s: '%s' expected, '%s' printed (token %zu)",what,describe(t).c_str(),w.c_str(),at<tok.size()?tok[at].c_str():"<end>",at); at++; };
    want("Particle","particle count"); want("count","particle count"); want(fmt("%d",t.n),"particle count"); want("Attribute","attribute count"); want("count","attribute count"); want(fmt("%zu",t.attrs.size()),"attribute count");
    for(auto& a:t.attrs){ want("attribute","attribute list"); want(a.name,"attribute name"); want("type=","attribute type"); want(typeName(a.type),"attribute type"); want("count=","attribute width"); want(fmt("%d",a.count),"attribute width"); count("attributes_listed"); }
    int show=std::min(10,t.n); want("num","number of particles listed"); want("to","number of particles listed"); want("print","number of particles listed"); want(fmt("%d",show),"number of particles listed");
    for(int i=0;i<show;i++){ want(fmt("%d:",i),"particle index"); for(auto& a:t.attrs){ want(a.name+"=","attribute of a particle"); for(int c=0;c<a.count;c++){ uint32_t v=a.vals[(size_t)i*a.count+c]; VF_CHECK(at<tok.size()&&sameNumber(a,v,tok[at]),"P32.value","particle %d of %s, '%s'[%d]: '%s' printed for %08x",i,describe(t).c_str(),a.name.c_str(),c,at<tok.size()?tok[at].c_str():"<end>",v); at++; count("values_compared"); } } }
    VF_CHECK(at==tok.size(),"P32.text","'%s' printed behind the last particle",at<tok.size()?tok[at].c_str():""); });

int main(int argc,char** argv){ return runMain(argc,argv); }
