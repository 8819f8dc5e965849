// Runtime shared by all drivers: deterministic PRNG, case runner, violation/statistics reporting.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <climits>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <unordered_set>
#include <functional>
#include <iostream>
#include <sstream>
#include <fstream>
#include <stdexcept>
#include <algorithm>
#include <memory>
#include <new>
#include <cmath>
#include <limits>
#include <fcntl.h>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <dirent.h>
#include <sys/prctl.h>
#include <signal.h>

namespace vf {

inline uint64_t mix(uint64_t x){ x+=0x9e3779b97f4a7c15ULL; x=(x^(x>>30))*0xbf58476d1ce4e5b9ULL; x=(x^(x>>27))*0x94d049bb133111ebULL; return x^(x>>31); }
inline uint64_t hashBytes(const void* p,size_t n,uint64_t h=0x1234567){
    const unsigned char* c=(const unsigned char*)p;
    while(n>=8){ uint64_t v; memcpy(&v,c,8); h=mix(h^v); c+=8; n-=8; }
    uint64_t v=0; if(n) memcpy(&v,c,n); return mix(h^v^(uint64_t(n)<<56));
}
inline uint64_t hashStr(const std::string& s,uint64_t h=7){ return hashBytes(s.data(),s.size(),h); }

struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed=1):s(mix(seed)){}
    uint64_t next(){ s+=0x9e3779b97f4a7c15ULL; uint64_t x=s; x=(x^(x>>30))*0xbf58476d1ce4e5b9ULL; x=(x^(x>>27))*0x94d049bb133111ebULL; return x^(x>>31); }
    uint64_t below(uint64_t n){ return n? next()%n : 0; }
    int range(int lo,int hi){ return lo+(int)below((uint64_t)(hi-lo)+1); } // inclusive
    bool chance(int num,int den){ return (int)below(den)<num; }
    double unit(){ return (next()>>11)*(1.0/9007199254740992.0); }
    double real(double lo,double hi){ return lo+(hi-lo)*unit(); }
    template<class T> const T& pick(const std::vector<T>& v){ return v[below(v.size())]; }
    template<class T> void shuffle(std::vector<T>& v){ for(size_t i=v.size();i>1;--i) std::swap(v[i-1],v[below(i)]); }
};

struct Violation { std::string key,msg; };

inline std::string fmt(const char* f,...) __attribute__((format(printf,1,2)));
inline std::string fmt(const char* f,...){
    va_list ap; va_start(ap,f); char buf[2048]; int n=vsnprintf(buf,sizeof buf,f,ap); va_end(ap);
    if(n<0) return "?"; return std::string(buf,std::min<size_t>(n,sizeof(buf)-1));
}
[[noreturn]] inline void fail(const std::string& key,const std::string& msg){ throw Violation{key,msg}; }
#define VF_CHECK(cond,key,...) do{ if(!(cond)) ::vf::fail(key,::vf::fmt(__VA_ARGS__)); }while(0)

inline std::string jsonStr(const std::string& s){
    std::string o="\"";
    for(unsigned char c: s){
        if(c=='"'||c=='\\'){o+='\\';o+=c;}
        else if(c<0x20||c>=0x7f){char b[8];snprintf(b,8,"\\u%04x",c);o+=b;}
        else o+=c;
    }
    return o+"\"";
}

// ---- run context -------------------------------------------------------------------------
struct Ctx {
    int pathStyle=0; std::string prop,tier="quick",tmp=".",out;
    uint64_t seed=1; long from=0,to=0;
    bool replay=false;
    long curCase=-1;
    std::map<std::string,uint64_t> counters;
    std::unordered_set<uint64_t> distinct;
    std::vector<std::string> samples;
    uint64_t evaluations=0;
    int violations=0;
    FILE* outf=nullptr;
    volatile long* progress=nullptr;
};
inline Ctx& ctx(){ static Ctx c; return c; }
inline void count(const std::string& k,uint64_t n=1){ ctx().counters[k]+=n; }
inline void distinct(uint64_t h){ if(ctx().distinct.size()<4000000) ctx().distinct.insert(h); }
inline void evaluated(uint64_t n=1){ ctx().evaluations+=n; }
inline void sample(const std::string& s){ if(ctx().samples.size()<4) ctx().samples.push_back(s.substr(0,600)); }
inline bool thorough(){ return ctx().tier=="thorough"; }

inline void reportViolation(const Violation& v){
    Ctx& c=ctx(); c.violations++;
    fprintf(c.outf,"{\"t\":\"viol\",\"case\":%ld,\"key\":%s,\"msg\":%s}\n",c.curCase,jsonStr(v.key).c_str(),jsonStr(v.msg).c_str());
    fflush(c.outf);
}

// A place where a diagnostic stream swallows the library's chatter.
struct NullBuf: std::streambuf { int overflow(int ch) override { return traits_type::not_eof(ch);} std::streamsize xsputn(const char*,std::streamsize n) override {return n;} };

typedef std::function<void(Rng&,long)> CaseFn;

// case function registry:   static vf::Reg r("P01",fn)
struct Reg { static std::map<std::string,CaseFn>& table(){ static std::map<std::string,CaseFn> t; return t; }
    Reg(const char* id,CaseFn fn){ table()[id]=fn; } };
// optional end-of-run hook
inline std::vector<std::function<void()>>& atEnd(){ static std::vector<std::function<void()>> v; return v; }

inline void rmTree(const std::string& d){
    // only ever called with paths created by this process below ctx().tmp
    DIR* dir=opendir(d.c_str()); if(!dir) return;
    while(dirent* e=readdir(dir)){ std::string n=e->d_name; if(n=="."||n=="..") continue; std::string p=d+"/"+n; struct stat st; if(lstat(p.c_str(),&st)==0 && S_ISDIR(st.st_mode)) rmTree(p); else unlink(p.c_str()); }
    closedir(dir); rmdir(d.c_str());
}

inline int runMain(int argc,char** argv,bool quietStreams=true){
    prctl(PR_SET_PDEATHSIG,SIGKILL);
    Ctx& c=ctx(); std::string progressPath;
    for(int i=1;i+1<argc;i+=2){
        std::string a=argv[i],v=argv[i+1];
        if(a=="--prop") c.prop=v; else if(a=="--seed") c.seed=strtoull(v.c_str(),0,10);
        else if(a=="--from") c.from=atol(v.c_str()); else if(a=="--to") c.to=atol(v.c_str());
        else if(a=="--tier") c.tier=v; else if(a=="--out") c.out=v; else if(a=="--progress") progressPath=v;
        else if(a=="--tmp") c.tmp=v; else if(a=="--replay") c.replay=v=="1";
        else { fprintf(stderr,"unknown option %s\n",a.c_str()); return 3; }
    }
    auto it=Reg::table().find(c.prop);
    if(it==Reg::table().end()){ fprintf(stderr,"no such property in this driver: %s\n",c.prop.c_str()); return 3; }
    c.outf=c.out.empty()?stdout:fopen(c.out.c_str(),"a");
    if(!c.outf){ perror("out"); return 3; }
    if(!progressPath.empty()){
        int fd=open(progressPath.c_str(),O_RDWR|O_CREAT,0600); if(fd<0||ftruncate(fd,64)!=0){perror("progress");return 3;}
        c.progress=(volatile long*)mmap(0,64,PROT_READ|PROT_WRITE,MAP_SHARED,fd,0); close(fd);
        if(c.progress==MAP_FAILED){perror("mmap");return 3;}
    }
    static NullBuf nb;
    std::streambuf* oc=nullptr,*oe=nullptr,*ol=nullptr;
    if(quietStreams && !c.replay){ oc=std::cout.rdbuf(&nb); oe=std::cerr.rdbuf(&nb); ol=std::clog.rdbuf(&nb); }
    const bool inTmp=!c.tmp.empty()&&c.tmp[0]=='/'&&c.tmp.back()!='/'&&chdir(c.tmp.c_str())==0;
    for(long k=c.from;k<c.to;k++){
        c.curCase=k; c.pathStyle=inTmp&&c.prop!="P28"?(int)(mix(mix(c.seed)+(uint64_t)k*7)%6):0; if(c.progress) c.progress[0]=k;
        Rng rng(mix(c.seed)*31+mix((uint64_t)k)+hashStr(c.prop));
        try { it->second(rng,k); }
        catch(const Violation& v){ reportViolation(v); }
        catch(const std::bad_alloc&){ count("inconclusive_out_of_memory"); }
        catch(const std::exception& e){ reportViolation({"exception",std::string("unexpected exception: ")+e.what()}); }
        if(c.violations>=12) break;
    }
    if(c.progress) c.progress[0]=-2;
    for(auto& f: atEnd()) f();
    if(oc){ std::cout.rdbuf(oc); std::cerr.rdbuf(oe); std::clog.rdbuf(ol); }
    std::string s="{\"t\":\"stats\",\"evaluations\":"+std::to_string(c.evaluations)+",\"distinct\":"+std::to_string(c.distinct.size())+",\"counters\":{";
    bool first=true; for(auto& kv:c.counters){ s+=(first?"":",")+jsonStr(kv.first)+":"+std::to_string(kv.second); first=false; }
    s+="},\"samples\":["; first=true; for(auto& x:c.samples){ s+=(first?"":",")+jsonStr(x); first=false; }
    s+="]}\n"; fputs(s.c_str(),c.outf); fflush(c.outf);
    if(!c.out.empty() && !c.distinct.empty()){ FILE* d=fopen((c.out+".distinct").c_str(),"wb"); if(d){ for(uint64_t h: c.distinct) fwrite(&h,8,1,d); fclose(d);} }
    if(!c.out.empty()) fclose(c.outf);
    return c.violations?1:0;
}

// ---- small file helpers -------------------------------------------------------------------
inline std::string slurp(const std::string& f){ std::ifstream i(f.c_str(),std::ios::binary); std::stringstream ss; ss.imbue(std::locale::classic()); ss<<i.rdbuf(); return ss.str(); }
inline void spit(const std::string& f,const std::string& b){ FILE* o=fopen(f.c_str(),"wb"); if(!o) throw std::runtime_error("cannot write "+f); size_t n=fwrite(b.data(),1,b.size(),o); fclose(o); if(n!=b.size()) throw std::runtime_error("short write "+f); }
inline bool exists(const std::string& f){ struct stat st; return stat(f.c_str(),&st)==0; }
// a name below the scratch directory, which is the working directory: absolute or relative, one style per case
inline std::string tmpFile(const std::string& name){ switch(ctx().pathStyle){ case 3: return name; case 4: return "./"+name; case 5: return "../"+ctx().tmp.substr(ctx().tmp.rfind('/')+1)+"/"+name; default: return ctx().tmp+"/"+name; } }

} // namespace vf
