// P18, P19: spatial queries against brute force.
#include "codec.h"
using namespace vf;

struct Cloud { std::vector<float> p; int n=0; std::string kind; };
static float coord(Rng& r,int style){ switch(style){ case 0: return (float)r.real(-1,1); case 1: return (float)r.range(-3,3); case 2: return (float)(r.real(-1,1)*1e6); case 3: return (float)std::ldexp(r.real(-1,1),r.range(-30,30)); case 5: return (float)std::ldexp(r.real(-1,1),r.range(40,60)); case 6: return r.chance(1,2)?-0.0f:(r.chance(1,2)?0.0f:(float)r.range(-1,1)); case 7: return u2f((uint32_t)r.below(0x00900000)|(r.chance(1,2)?0x80000000u:0)); case 8: return r.chance(1,6)?(r.chance(1,2)?3.4e38f:-3.4e38f):(float)std::ldexp(r.real(-1,1),r.range(-20,127)); default: return (float)r.range(0,1); } }
static Cloud genCloud(Rng& r,int maxN,int styles=8){
    Cloud c; switch(r.below(8)){ case 0: c.n=r.range(1,4); break; case 1: c.n=r.range(5,20); break; case 2: { int k=r.range(1,10); c.n=(1<<k)+r.range(-1,1); if(c.n<1) c.n=1; break; } case 3: c.n=r.range(100,maxN); break; default: c.n=r.range(1,200); }
    if(r.chance(1,40)) c.n=0;
    if(r.chance(1,400)){ static const int h[]={32767,32768,32769,65535,65536,65537,70001,131071,131073,140000}; c.n=h[r.below(10)]; count("huge_clouds"); }
    int kind=(int)r.below(8),style=(int)(r.chance(1,3)?r.below(styles+1):r.below(5)); c.p.resize(3*(size_t)c.n); static const char* names[]={"random","clustered","duplicates","collinear","plane","grid","identical","axis ties"}; c.kind=names[kind]; float cen[8][3]; for(auto& x:cen) for(float& y:x) y=coord(r,2);
    int axis=(int)r.below(3); float dir[3]={coord(r,0),coord(r,0),coord(r,0)}; int side=1; while(side*side*side<c.n) side++; float org[3]={coord(r,style),coord(r,style),coord(r,style)};
    for(int i=0;i<c.n;i++){ float* q=&c.p[3*(size_t)i]; switch(kind){
        case 0: for(int a=0;a<3;a++) q[a]=coord(r,style); break;
        case 1: { int g=(int)r.below(8); for(int a=0;a<3;a++) q[a]=cen[g][a]+(float)r.real(-1,1); break; }
        case 2: if(i&&r.chance(1,2)) memcpy(q,&c.p[3*r.below(i)],12); else for(int a=0;a<3;a++) q[a]=coord(r,style); break;
        case 3: { float t=coord(r,style); for(int a=0;a<3;a++) q[a]=dir[a]*t; break; }
        case 4: for(int a=0;a<3;a++) q[a]=a==axis?0.5f:coord(r,style); break;
        case 5: q[0]=(float)(i%side); q[1]=(float)(i/side%side); q[2]=(float)(i/side/side); break;
        case 6: memcpy(q,org,12); break;
        default: for(int a=0;a<3;a++) q[a]=a==axis?coord(r,0):(float)r.range(0,2); } }
    return c; }
// a set that holds the cloud, with other attributes around it
struct Set { PM p; ParticleAttribute pos; Table before; bool il; };
static Set build(Rng& r,const Cloud& c){
    Set s; s.il=r.chance(1,4); s.p.reset(s.il?Partio::createInterleave():Partio::create()); ParticleAttribute other; bool o=r.chance(1,2),first=r.chance(1,2);
    if(o&&first) other=s.p->addAttribute("mass",Partio::FLOAT,r.range(1,4)); s.pos=s.p->addAttribute("position",Partio::VECTOR,3); if(o&&!first) other=s.p->addAttribute("id",Partio::INT,1);
    if(r.chance(1,2)) s.p->addParticles(c.n); else for(int i=0;i<c.n;i++) s.p->addParticle();
    for(int i=0;i<c.n;i++){ s.p->set<float>(s.pos,i,&c.p[3*(size_t)i]); if(o){ uint32_t v[4]={(uint32_t)i,2,3,4}; s.p->set<uint32_t>(other,i,v); } }
    s.before=snapshot(*s.p); s.p->sort(); if(r.chance(1,8)) s.p->sort(); return s; }
static void checkBox(Set& s,const Cloud& c,const float a[3],const float b[3],Rng& r,const char* what){
    float lo[3],hi[3]; for(int i=0;i<3;i++){ lo[i]=std::min(a[i],b[i]); hi[i]=std::max(a[i],b[i]); }
    std::vector<ParticleIndex> want; for(int i=0;i<c.n;i++){ const float* q=&c.p[3*(size_t)i]; bool in=true; for(int k=0;k<3;k++) in&= q[k]>=lo[k]&&q[k]<=hi[k]; if(in) want.push_back(i); }
    std::vector<ParticleIndex> got,pre; int np=r.chance(1,2)?r.range(1,5):0; for(int i=0;i<np;i++) pre.push_back(r.chance(1,2)?r.next():r.below(c.n+1)); got=pre;
    const ParticlesData& p=*s.p; p.findPoints(a,b,got);
    VF_CHECK(got.size()>=pre.size()&&std::equal(pre.begin(),pre.end(),got.begin()),"P18.prefix","earlier entries of the result list were changed by a box query (%s)",what);
    std::vector<ParticleIndex> g(got.begin()+pre.size(),got.end()); std::sort(g.begin(),g.end());
    if(g!=want){ std::string m; for(size_t i=0;i<g.size();i++) if(i&&g[i]==g[i-1]) m=fmt("index %llu is reported twice",(unsigned long long)g[i]); for(auto x:want) if(m.empty()&&!std::binary_search(g.begin(),g.end(),x)) m=fmt("particle %llu at (%.9g,%.9g,%.9g) is missing",(unsigned long long)x,c.p[3*x],c.p[3*x+1],c.p[3*x+2]); for(auto x:g) if(m.empty()&&!std::binary_search(want.begin(),want.end(),x)) m= x>=(ParticleIndex)c.n?fmt("index %llu does not exist",(unsigned long long)x):fmt("particle %llu at (%.9g,%.9g,%.9g) is outside",(unsigned long long)x,c.p[3*x],c.p[3*x+1],c.p[3*x+2]);
        fail("P18.box",fmt("%s cloud of %d, box (%.9g,%.9g,%.9g)-(%.9g,%.9g,%.9g) (%s): %zu found, %zu expected; %s",c.kind.c_str(),c.n,a[0],a[1],a[2],b[0],b[1],b[2],what,g.size(),want.size(),m.c_str())); }
    count("box_queries"); count("points_returned",g.size()); if(want.empty()) count("empty_results"); if((int)want.size()==c.n) count("full_results"); }
static Reg r18("P18",[](Rng& r,long k){
    Cloud c=genCloud(r,thorough()?4000:1500,9); Set s=build(r,c); evaluated(); distinct(hashBytes(c.p.data(),c.p.size()*4,s.il)); count("cloud."+c.kind); if(k<2) sample(fmt("%s cloud of %d points",c.kind.c_str(),c.n));
    for(int phase=0;phase<2;phase++){
        for(int q=0,nq=c.n>20000?8:24;q<nq;q++){ float a[3],b[3]; const char* what; int m=(int)r.below(9); auto pt=[&]{ static float z[3]={0,0,0}; return c.n?&c.p[3*r.below(c.n)]:z; };
            switch(m){ case 0: { memcpy(a,pt(),12); memcpy(b,pt(),12); what="corners at particles"; break; }
                case 1: { memcpy(a,pt(),12); memcpy(b,a,12); what="a single point"; break; }
                case 2: { float* x=pt(); float d=(float)std::ldexp(r.unit(),r.range(-3,3)); for(int i=0;i<3;i++){ a[i]=x[i]-d; b[i]=x[i]+d; } what="around a particle"; break; }
                case 3: for(int i=0;i<3;i++){ a[i]=-3e38f; b[i]=3e38f; } what="everything"; break;
                case 4: for(int i=0;i<3;i++){ a[i]=1e30f; b[i]=2e30f; } what="nothing"; break;
                case 5: { float* x=pt(),*y=pt(); for(int i=0;i<3;i++){ a[i]=r.chance(1,2)?x[i]:-1e30f; b[i]=r.chance(1,2)?y[i]:1e30f; } what="half spaces through particles"; break; }
                case 6: { float* x=pt(); for(int i=0;i<3;i++){ a[i]=r.chance(1,2)?std::nextafterf(x[i],1e38f):x[i]; b[i]=1e30f; } what="just beside a particle"; break; }
                default: for(int i=0;i<3;i++){ a[i]=(float)r.real(-4,4); b[i]=(float)r.real(-4,4); } what="random corners"; }
            if(m==8){ float* x=pt(); what="unbounded"; for(int i=0;i<3;i++){ a[i]=r.chance(1,2)?-INFINITY:x[i]; b[i]=r.chance(1,2)?INFINITY:a[i]==x[i]?x[i]+1:x[i]; } }
            if(r.chance(1,3)) for(int i=0;i<3;i++) if(r.chance(1,2)) std::swap(a[i],b[i]);
            checkBox(s,c,a,b,r,what); }
        std::string d=diff(s.before,snapshot(*s.p)); VF_CHECK(d.empty(),"P18.mutated","sorting or querying changed the set: %s",d.c_str());
        if(phase==0){ if(r.chance(1,2)) break; // move and add particles, sort again
            int add=r.range(0,60); s.p->addParticles(add); for(int i=0;i<add;i++) for(int a=0;a<3;a++) c.p.push_back(coord(r,1)); c.n+=add; for(int i=0;i<c.n;i++) if(i>=c.n-add||r.chance(1,10)){ for(int a=0;a<3;a++) c.p[3*(size_t)i+a]=coord(r,1); s.p->set<float>(s.pos,i,&c.p[3*(size_t)i]); }
            for(int i=0;i<s.p->numAttributes();i++){ ParticleAttribute pa; s.p->attributeInfo(i,pa); if(pa.name!="position") for(int j=c.n-add;j<c.n;j++){ uint32_t v[4]={9,8,7,6}; s.p->set<uint32_t>(pa,j,v); } }
            s.before=snapshot(*s.p); s.p->sort(); count("resorted"); } }
});

static Reg r19("P19",[](Rng& r,long k){
    Cloud c=genCloud(r,thorough()?4000:1500,7); Set s=build(r,c); const ParticlesData& p=*s.p; evaluated(); distinct(hashBytes(c.p.data(),c.p.size()*4,s.il)); count("cloud."+c.kind); if(k<2) sample(fmt("%s cloud of %d points",c.kind.c_str(),c.n));
    float ext=1; for(float x:c.p) ext=std::max(ext,std::fabs(x));
    for(int q=0,nq=c.n>20000?6:24;q<nq;q++){
        float ctr[3]; if(c.n&&r.chance(2,3)){ memcpy(ctr,&c.p[3*r.below(c.n)],12); if(r.chance(1,2)) for(float& x:ctr) x+=(float)r.real(-0.5,0.5); } else for(float& x:ctr) x=(float)r.real(-1.5,1.5)*ext;
        float rad; switch(r.below(8)){ case 7: rad=r.chance(1,2)?INFINITY:3e38f; break; case 0: rad=0; break; case 1: rad=ext*8; break; case 2: rad=(float)r.real(0,2); break; case 3: rad=(float)r.range(1,4); break; case 4: rad=ext*(float)r.unit(); break; case 5: rad=1e15f; break; default: rad=(float)std::ldexp(r.unit(),r.range(-10,10)); }
        int N; switch(r.below(7)){ case 0: N=0; break; case 1: N=1; break; case 2: N=2; break; case 3: N=r.range(3,12); break; case 4: N=c.n; break; case 5: N=c.n+r.range(1,30); break; default: N=r.range(1,std::max(1,c.n)); }
        if(r.chance(1,40)) N=-r.range(1,5);
        std::vector<double> dist(c.n); for(int i=0;i<c.n;i++){ double d=0; for(int a=0;a<3;a++){ double t=(double)c.p[3*(size_t)i+a]-ctr[a]; d+=t*t; } dist[i]=d; }
        double R2=(double)rad*rad,E=1.2e-6; long lo=0,hi=0; for(double d:dist){ if(d<R2*(1-E)-1e-40) lo++; if(d<=R2*(1+E)+1e-40) hi++; }
        long wantLo=std::max(0L,std::min((long)N,lo)),wantHi=std::max(0L,std::min((long)N,hi)); std::vector<double> sorted=dist; std::sort(sorted.begin(),sorted.end());
        auto judge=[&](const char* how,const std::vector<ParticleIndex>& ids,const std::vector<float>& ds){
            std::string ctxs=fmt("%s cloud of %d, %d nearest within %.9g of (%.9g,%.9g,%.9g), %s",c.kind.c_str(),c.n,N,rad,ctr[0],ctr[1],ctr[2],how);
            VF_CHECK(ids.size()==ds.size(),"P19.sizes","%s: %zu points but %zu distances",ctxs.c_str(),ids.size(),ds.size());
            VF_CHECK((long)ids.size()>=wantLo&&(long)ids.size()<=wantHi,"P19.count","%s: %zu found, expected %ld",ctxs.c_str(),ids.size(),wantLo);
            std::set<ParticleIndex> seen; double worst=0; for(size_t i=0;i<ids.size();i++){ VF_CHECK(ids[i]<(ParticleIndex)c.n,"P19.index","%s: index %llu does not exist",ctxs.c_str(),(unsigned long long)ids[i]); VF_CHECK(seen.insert(ids[i]).second,"P19.twice","%s: particle %llu is reported twice",ctxs.c_str(),(unsigned long long)ids[i]); double e=dist[ids[i]]; VF_CHECK(std::fabs(ds[i]-e)<=E*e+1e-40,"P19.distance","%s: particle %llu has squared distance %.9g, reported %.9g",ctxs.c_str(),(unsigned long long)ids[i],e,ds[i]); worst=std::max(worst,e); }
            for(int i=0;i<c.n;i++) if(!ids.empty()&&(long)ids.size()==N&&!seen.count(i)&&dist[i]<worst*(1-E)-1e-40) fail("P19.nearest",fmt("%s: particle %d at squared distance %.9g was left out although one at %.9g was returned",ctxs.c_str(),i,dist[i],worst)); };
        std::vector<ParticleIndex> ids; std::vector<float> ds; if(r.chance(1,2)){ ids.assign(r.range(0,9),77); ds.assign(r.range(0,9),-5); } p.findNPoints(ctr,N,rad,ids,ds); judge("vector interface",ids,ds);
        size_t cap=N>0?N:0; std::unique_ptr<ParticleIndex[]> ai(new ParticleIndex[cap?cap:1]); std::unique_ptr<float[]> ad(new float[cap?cap:1]); float fr=-1; for(size_t i=0;i<cap;i++){ ai[i]=0xdeadbeefcafeull; ad[i]=-3; }
        int f=p.findNPoints(ctr,N,rad,ai.get(),ad.get(),&fr); VF_CHECK(f>=0&&f<=(int)cap,"P19.pod","the array interface found %d of at most %d",f,N);
        std::vector<ParticleIndex> bi(ai.get(),ai.get()+f); std::vector<float> bd(ad.get(),ad.get()+f); judge("array interface",bi,bd);
        std::vector<float> x=ds,y=bd; std::sort(x.begin(),x.end()); std::sort(y.begin(),y.end()); VF_CHECK(x==y,"P19.agree","the two interfaces disagree: %zu and %zu points",x.size(),y.size());
        if(c.n>0&&N>=1){ double e= f==N? *std::max_element(bd.begin(),bd.end()) : R2; if(e>3.4e38) e=INFINITY; VF_CHECK(fr==e||std::fabs(fr-e)<=E*e+1e-40,"P19.final","%s cloud of %d, N=%d radius %.9g: %d found, final squared radius %.9g, expected %.9g",c.kind.c_str(),c.n,N,rad,f,fr,e); }
        count("queries"); count(f==0?"none_found":f==N?"N_found":"fewer_found"); }
    std::string d=diff(s.before,snapshot(*s.p)); VF_CHECK(d.empty(),"P19.mutated","queries changed the set: %s",d.c_str());
});
int main(int argc,char** argv){ return runMain(argc,argv); }
