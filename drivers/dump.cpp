// Plain C++ client of the library: the other side of the comparison for the Python workloads.  Commands come on stdin (tab separated), answers end with a line "."
#include <Partio.h>
#include <cstdio>
#include <cstring>
#include <cmath>
#include <iostream>
#include <sstream>
#include <vector>
#include <map>
#include <string>
#include <memory>
using namespace Partio;
static void hex(std::ostream& o,const std::string& s){ static const char* d="0123456789abcdef"; o<<'"'; for(unsigned char c:s) o<<d[c>>4]<<d[c&15]; o<<'"'; }
static void num(std::ostream& o,ParticleAttributeType t,const void* p,int k){ unsigned u; memcpy(&u,(const char*)p+4*k,4); if(t==VECTOR||t==FLOAT){ if((u&0x7f800000)==0x7f800000&&(u&0x7fffff)) o<<" nan"; else { char b[16]; snprintf(b,16," %08x",u); o<<b; } } else o<<' '<<(int)u; }
static void schema(std::ostream& o,const ParticlesInfo& p){ o<<"n "<<p.numParticles()<<"\n"; for(int i=0;i<p.numAttributes();i++){ ParticleAttribute a; p.attributeInfo(i,a); o<<"a "; hex(o,a.name); o<<' '<<(int)a.type<<' '<<a.count<<"\n"; } for(int i=0;i<p.numFixedAttributes();i++){ FixedAttribute a; p.fixedAttributeInfo(i,a); o<<"f "; hex(o,a.name); o<<' '<<(int)a.type<<' '<<a.count<<"\n"; } }
static void canon(std::ostream& o,const ParticlesData& p){ schema(o,p); std::vector<ParticleAttribute> as(p.numAttributes()); for(int i=0;i<p.numAttributes();i++){ p.attributeInfo(i,as[i]); if(as[i].type==INDEXEDSTR){ o<<"s"; for(auto& s:p.indexedStrs(as[i])){ o<<' '; hex(o,s); } o<<"\n"; } }
    for(int i=0;i<p.numFixedAttributes();i++){ FixedAttribute a; p.fixedAttributeInfo(i,a); if(a.type==INDEXEDSTR){ o<<"t"; for(auto& s:p.fixedIndexedStrs(a)){ o<<' '; hex(o,s); } o<<"\n"; } o<<"v"; for(int k=0;k<a.count;k++) num(o,a.type,p.fixedData<char>(a),k); o<<"\n"; }
    for(int i=0;i<p.numParticles();i++){ o<<"p"; for(auto& a:as) for(int k=0;k<a.count;k++) num(o,a.type,p.data<char>(a,i),k); o<<"\n"; } }
struct Rel { void operator()(ParticlesInfo* p)const{ if(p) p->release(); } };
typedef std::unique_ptr<ParticlesDataMutable,Rel> PM;
int main(){ std::string line; std::ostringstream err; while(std::getline(std::cin,line)){
    std::vector<std::string> a; size_t b=0; for(;;){ size_t e=line.find('\t',b); a.push_back(line.substr(b,e==std::string::npos?e:e-b)); if(e==std::string::npos) break; b=e+1; }
    std::ostringstream o; std::ostringstream es; auto f=[&](int i){ return strtof(a[i].c_str(),nullptr); }; auto d=[&](int i){ return strtod(a[i].c_str(),nullptr); }; auto n=[&](int i){ return atoi(a[i].c_str()); };
    std::streambuf* old=std::cout.rdbuf(err.rdbuf()); std::streambuf* olde=std::cerr.rdbuf(err.rdbuf());
    try {
    if(a[0]=="headers"){ std::unique_ptr<ParticlesInfo,Rel> p(readHeaders(a[1].c_str(),false,es)); if(p) schema(o,*p); else o<<"null\n"; }
    else { PM p(read(a[1].c_str(),false,es)); if(!p) o<<"null\n"; else if(a[0]=="dump") canon(o,*p);
    else if(a[0]=="rewrite"){ write(a[2].c_str(),*p,n(3),false,es); o<<"ok\n"; }
    else if(a[0]=="clone"){ std::map<std::string,std::string> m; for(size_t i=3;i+1<a.size();i+=2) m[a[i]]=a[i+1]; PM c(clone(*p,n(2),m.empty()?nullptr:&m)); canon(o,*c); }
    else if(a[0]=="cloneSchema"){ std::map<std::string,std::string> m; for(size_t i=2;i+1<a.size();i+=2) m[a[i]]=a[i+1]; PM c(cloneSchema(*p,m.empty()?nullptr:&m)); canon(o,*c); }
    else if(a[0]=="merge"){ PM q(read(a[2].c_str(),false,es)); merge(*p,*q,a[3],a[4]); canon(o,*p); }
    else if(a[0]=="cluster"){ PM c(computeClustering(p.get(),n(2),d(3),d(4),n(5),d(6))); if(c) canon(o,*c); else o<<"null\n"; }
    else if(a[0]=="box"){ p->sort(); float lo[3]={f(2),f(3),f(4)},hi[3]={f(5),f(6),f(7)}; std::vector<ParticleIndex> r; p->findPoints(lo,hi,r); for(auto i:r) o<<i<<"\n"; }
    else if(a[0]=="near"){ p->sort(); float c[3]={f(2),f(3),f(4)}; std::vector<ParticleIndex> r; std::vector<float> q; p->findNPoints(c,n(5),f(6),r,q); for(size_t i=0;i<r.size();i++){ o<<r[i]; num(o,FLOAT,q.data(),i); o<<"\n"; } } }
    } catch(const std::exception& e){ o.str(std::string("exception ")+e.what()+"\n"); }
    std::cout.rdbuf(old); std::cerr.rdbuf(olde); err.str(""); std::cout<<o.str()<<"."<<std::endl; } }
