// P20-P22: clone, merge, clustering.
#include "codec.h"
using namespace vf;

static Table genSet(Rng& r,int bigN,ValKind vk){ GenOpt o; o.position=r.chance(2,3); o.bigN=bigN; o.vals=vk; o.maxAttrs=6; Table t=genTable(r,o); return t; }
// any modification of a data set
static void modify(ParticlesDataMutable& p,Rng& r){
    int ops=r.range(1,12); for(int o=0;o<ops;o++){ int na=p.numAttributes(),nf=p.numFixedAttributes(),n=p.numParticles(); ParticleAttribute a; FixedAttribute f; if(na) p.attributeInfo((int)r.below(na),a); if(nf) p.fixedAttributeInfo((int)r.below(nf),f);
        std::vector<uint32_t> v(128); for(auto& x:v) x=(uint32_t)r.next();
        switch(r.below(9)){ case 0: p.addParticle(); { int i=n; for(int k=0;k<p.numAttributes();k++){ p.attributeInfo(k,a); if(a.count<=128) p.set<uint32_t>(a,i,v.data()); } } break;
            case 1: { int c=r.range(1,30); p.addParticles(c); for(int i=n;i<n+c;i++) for(int k=0;k<p.numAttributes();k++){ p.attributeInfo(k,a); if(a.count<=128) p.set<uint32_t>(a,i,v.data()); } break; }
            case 2: case 3: if(na&&n&&a.count<=128) for(int q=0;q<4;q++) p.set<uint32_t>(a,(int)r.below(n),v.data()); break;
            case 4: if(nf&&f.count<=128) p.setFixed<uint32_t>(f,v.data()); break;
            case 5: if(na&&a.type==Partio::INDEXEDSTR){ p.registerIndexedStr(a,genWord(r).c_str()); p.setIndexedStr(a,(int)r.below(4),("renamed"+genWord(r)).c_str()); } break;
            case 6: if(nf&&f.type==Partio::INDEXEDSTR){ p.registerFixedIndexedStr(f,genWord(r).c_str()); p.setFixedIndexedStr(f,(int)r.below(4),("renamed"+genWord(r)).c_str()); } break;
            case 7: { ParticleAttribute x=p.addAttribute(("new"+genWord(r)).c_str(),Partio::INT,r.range(1,4)); for(int i=0;i<n&&x.count;i++) p.set<uint32_t>(x,i,v.data()); break; }
            default: { FixedAttribute x=p.addFixedAttribute(("newf"+genWord(r)).c_str(),Partio::FLOAT,r.range(1,4)); if(x.count) p.setFixed<uint32_t>(x,v.data()); } } } }

static Reg r20("P20",[](Rng& r,long k){
    Table t=genSet(r,1200,V_BITS); bool il=r.chance(1,3); PM p(make(t,&r,r.range(0,3),il)); if(r.chance(1,4)){ bool fin=t.find("position")!=nullptr; if(fin){ for(auto v:t.find("position")->vals) fin&=std::isfinite(u2f(v)); if(fin) p->sort(); } }
    std::map<std::string,std::string> ren; const std::map<std::string,std::string>* rp=nullptr; Table w=t;
    if(r.chance(2,3)){ rp=&ren; std::set<std::string> used; for(auto& a:t.attrs) used.insert(a.name); for(auto& a:t.fixed) used.insert(a.name); std::vector<std::string> names(used.begin(),used.end()); r.shuffle(names);
        int m=(int)names.size(); int nr=m?r.range(0,std::min(m,6)):0; if(nr>=2&&r.chance(1,2)){ for(int i=0;i<nr;i++) ren[names[i]]=names[(i+1)%nr]; count("permuted_names"); } else for(int i=0;i<nr;i++){ std::string n; do n=genString(r,S_ANY); while(n.empty()||used.count(n)); if(r.chance(1,12)&&!used.count("")){ n.clear(); count("renamed_to_nothing"); } else if(r.chance(1,20)) n=names[i]; used.insert(n); ren[names[i]]=n; }
        for(int i=r.range(0,2);i>0;i--){ std::string n="absent"+genWord(r); if(!used.count(n)) ren[n]="never"+genWord(r); }
        auto map=[&](std::vector<Attr>& v){ for(auto& a:v){ auto it=ren.find(a.name); if(it!=ren.end()) a.name=it->second; } }; map(w.attrs); map(w.fixed); count("renamed_attributes",nr); }
    evaluated(); distinct(hashTable(t,mix(ren.size()*2+il))); count(il?"interleaved":"default"); if(k<2) sample(describe(t)+fmt(" %zu renames",ren.size()));
    Table wf=w; wf.n=0; wf.attrs.clear(); Table ws=w; ws.n=0; for(auto& a:ws.attrs){ a.vals.clear(); a.strs.clear(); } for(auto& a:ws.fixed){ a.strs.clear(); }
    PM full(Partio::clone(*p,true,rp)),fix(Partio::clone(*p,false,rp)),sch(Partio::cloneSchema(*p,rp)); VF_CHECK(full&&fix&&sch,"P20.null","clone returned null");
    std::string d=diff(w,snapshot(*full)); VF_CHECK(d.empty(),"P20.clone","clone of %s (%s, %zu renames): %s",describe(t).c_str(),il?"interleaved":"default",ren.size(),d.c_str());
    for(auto& a:w.attrs){ ParticleAttribute x; VF_CHECK(full->attributeInfo(a.name.c_str(),x),"P20.lookup","the clone cannot look up '%s'",shortStr(a.name).c_str()); for(size_t i=0;i<a.strs.size()&&i<20;i++) VF_CHECK(full->lookupIndexedStr(x,a.strs[i].c_str())==(int)i,"P20.lookup","the clone looks up token %zu of '%s' wrongly",i,shortStr(a.name).c_str()); }
    for(auto& kv:ren){ ParticleAttribute x; FixedAttribute y; VF_CHECK(full->attributeInfo(kv.first.c_str(),x)==(w.find(kv.first)!=nullptr)&&full->fixedAttributeInfo(kv.first.c_str(),y)==(w.findFixed(kv.first)!=nullptr),"P20.oldname","old name '%s' is still in use",shortStr(kv.first).c_str()); }
    { Table g=snapshot(*fix); VF_CHECK(g.n==0,"P20.noparticles","clone without particles has %d",g.n); g.attrs.clear(); d=diff(wf,g); VF_CHECK(d.empty(),"P20.fixed","clone without particles: %s",d.c_str()); }
    { Table g=schemaOf(*sch); Cmp c; c.schemaOnly=true; d=diff(ws,g,c); VF_CHECK(d.empty(),"P20.schema","cloneSchema: %s",d.c_str()); }
    d=diff(t,snapshot(*p)); VF_CHECK(d.empty(),"P20.source","cloning changed the source: %s",d.c_str());
    // independence, both ways, and after the other one is gone
    bool modSource=r.chance(1,2); if(modSource){ modify(*p,r); d=diff(w,snapshot(*full)); VF_CHECK(d.empty(),"P20.shared","a change of the source shows in the clone: %s",d.c_str()); { Table g=snapshot(*fix); g.attrs.clear(); d=diff(wf,g); VF_CHECK(d.empty(),"P20.shared","a change of the source shows in the clone of the fixed attributes: %s",d.c_str()); } if(r.chance(1,2)){ p.reset(); d=diff(w,snapshot(*full)); VF_CHECK(d.empty(),"P20.shared","releasing the source changed the clone: %s",d.c_str()); modify(*full,r); count("source_released"); } }
    else { modify(*full,r); modify(*fix,r); modify(*sch,r); d=diff(t,snapshot(*p)); VF_CHECK(d.empty(),"P20.shared","a change of a clone shows in the source: %s",d.c_str()); full.reset(); fix.reset(); sch.reset(); d=diff(t,snapshot(*p)); VF_CHECK(d.empty(),"P20.shared","releasing the clone changed the source: %s",d.c_str()); PM again(Partio::clone(*p)); d=diff(t,snapshot(*again)); VF_CHECK(d.empty(),"P20.again","a second clone: %s",d.c_str()); }
    // names that collide must at least be harmless
    if(t.attrs.size()+t.fixed.size()>1&&r.chance(1,5)&&p){ Table now=schemaOf(*p); std::map<std::string,std::string> c; for(auto& a:now.attrs) if(r.chance(1,2)) c[a.name]="same"; for(auto& a:now.fixed) if(r.chance(1,2)) c[a.name]="same"; PM x(Partio::clone(*p,true,&c)); PM y(Partio::cloneSchema(*p,&c)); snapshot(*x); count("colliding_names"); }
});

// ---- merge ----------------------------------------------------------------------------------
// values as seen by a user: strings instead of tokens
struct Cell { std::string s; uint32_t v; bool str; bool operator==(const Cell& o) const { return str==o.str&&(str?s==o.s:v==o.v); } };
static Cell cell(const Attr& a,uint32_t v){ if(a.type==T_STR&&v<a.strs.size()) return {a.strs[v],0,true}; return {"",v,false}; }
typedef std::vector<Cell> Row;    // one attribute of one particle
static Row rowOf(const Attr& a,int i){ Row x; for(int c=0;c<a.count;c++) x.push_back(cell(a,a.vals[(size_t)i*a.count+c])); return x; }
static Reg r21("P21",[](Rng& r,long k){
    GenOpt o; o.anyNames=r.chance(1,3); o.bigN=r.chance(1,3)?2500:400; o.position=r.chance(2,3); o.maxAttrs=5; Table B=genTable(r,o);
    if(r.chance(1,10)) o.n=0; o.position=r.chance(2,3); Table D=genTable(r,o);
    // common attributes agree in type and width; identifiers are single integers
    auto agree=[&](std::vector<Attr>& bs,std::vector<Attr>& ds,int n){ if(r.chance(2,3)) for(auto& b:bs) if(r.chance(1,2)){ bool have=false; for(auto& d:ds) have|=d.name==b.name; if(!have){ Attr a; a.name=b.name; a.type=b.type; a.count=b.count; if(a.type==T_STR) genStrs(r,a,S_ANY); ds.push_back(a); } }
        for(auto& d:ds) for(auto& b:bs) if(d.name==b.name){ bool reshape=d.type!=b.type||d.count!=b.count; d.type=b.type; d.count=b.count; if(d.type==T_STR){ if(reshape||d.strs.empty()){ d.strs.clear(); genStrs(r,d,S_ANY); } for(auto& s:b.strs) if(r.chance(1,2)&&std::find(d.strs.begin(),d.strs.end(),s)==d.strs.end()) d.strs.insert(d.strs.begin()+r.below(d.strs.size()+1),s); } else d.strs.clear(); genVals(r,d,n,V_BITS); }
        for(auto* v:{&bs,&ds}) for(auto& a:*v) if(a.type==T_STR&&a.strs.empty()&&r.chance(9,10)) a.strs.push_back(genWord(r)); r.shuffle(ds); };
    agree(B.attrs,D.attrs,D.n); agree(B.fixed,D.fixed,1);
    std::string id0,id1; int mode=(int)r.below(8); auto strip=[](Table& t,const std::string& n){ t.attrs.erase(std::remove_if(t.attrs.begin(),t.attrs.end(),[&](const Attr& a){return a.name==n;}),t.attrs.end()); };
    int idw[2]={1,1}; for(int& w:idw) if(r.chance(1,6)) w=r.range(2,4);   // only the first component identifies
    auto idAttr=[&](Table& t,const std::string& n,int type){ strip(t,n); Attr a; a.name=n; a.type=type; a.count=idw[n==id1]; genVals(r,a,t.n,V_BITS); if(type==T_STR){ a.strs={"a","b"}; genVals(r,a,t.n,V_BITS); } t.attrs.insert(t.attrs.begin()+r.below(t.attrs.size()+1),a); };
    bool use0=mode>=1,use1=mode>=4; int keyed=0;   // keyed: bit 0/1
    if(use0) id0=r.chance(1,3)?"mergeKey":"id"; if(use1) id1="sourceIndex"; if(mode==7){ std::swap(id0,id1); if(r.chance(1,2)) id0=""; }
    bool b0=false,d0=false,b1=false,d1=false; int typ[]={T_INT,T_INT,T_INT,T_INT,T_INT,T_INT,T_FLOAT,T_STR};
    auto setup=[&](const std::string& id,bool& hb,bool& hd){ if(id.empty()) return; bool inB=r.chance(9,10),inD=r.chance(9,10); int tb=typ[r.below(8)],td=r.chance(5,6)?tb:T_INT; strip(B,id); strip(D,id); if(tb!=td&&inB&&inD) td=tb; if(inB) idAttr(B,id,tb); if(inD) idAttr(D,id,td); hb=inB&&tb==T_INT; hd=inD&&td==T_INT; };
    setup(id0,b0,d0); setup(id1,b1,d1); bool key=((b0&&d0)||(b1&&d1))&&b0==d0&&b1==d1; (void)keyed;
    if(b0&&d0&&!id0.empty()) {} 
    // identifier values: unique in the base, arbitrary in the delta
    { std::set<std::pair<int,int>> used; int span=r.chance(1,3)?3:std::max(2,B.n); std::vector<std::pair<int,int>> ids; long sh=r.chance(1,2)?0:(int)r.next(); 
      auto draw=[&]{ int a=(int)(r.range(-span,span)*(r.chance(1,2)?1:1)+(int)(sh&0xffffff)),b=r.range(0,b0&&d0?2:std::max(2,2*span)); if(r.chance(1,30)) a=r.chance(1,2)?INT_MAX:INT_MIN; return std::make_pair(b0?a:0,b1?b:0); };
      if(b0||b1) for(int i=0;i<B.n;i++){ std::pair<int,int> p=draw(); int tries=0; while(used.count(p)){ p=draw(); if(++tries>50){ if(b0) p.first=100000000+i; else p.second=100000000+i; } } used.insert(p); ids.push_back(p); if(b0) B.find(id0)->vals[(size_t)i*idw[0]]=(uint32_t)p.first; if(b1) B.find(id1)->vals[(size_t)i*idw[1]]=(uint32_t)p.second; }
      for(int i=0;i<D.n;i++){ std::pair<int,int> p=(!ids.empty()&&r.chance(1,2))?ids[r.below(ids.size())]:draw(); if(r.chance(1,8)) std::swap(p.first,p.second); if(d0) D.find(id0)->vals[(size_t)i*idw[0]]=(uint32_t)p.first; if(d1) D.find(id1)->vals[(size_t)i*idw[1]]=(uint32_t)p.second; } }
    for(auto* t:{&B,&D}) for(auto& n:{id0,id1}) if(!n.empty()) if(Attr* a=t->find(n)) if(a->type!=T_INT) genVals(r,*a,t->n,V_BITS);
    bool ib=r.chance(1,4),idl=r.chance(1,4),self=r.chance(1,15); if(self){ D=B; d0=b0; d1=b1; key=b0||b1; idl=ib; count("self_merges"); }
    PM base(make(B,&r,r.range(0,2),ib)),delta(self?nullptr:make(D,&r,r.range(0,2),idl));
    // ---- reference
    std::map<std::pair<int,int>,int> where; auto keyOf=[&](const Table& t,int i){ const Attr* a=b0?t.find(id0):nullptr,*b=b1?t.find(id1):nullptr; return std::make_pair(a?(int)a->vals[(size_t)i*a->count]:0,b?(int)b->vals[(size_t)i*b->count]:0); };
    if(key) for(int i=0;i<B.n;i++) where[keyOf(B,i)]=i;
    std::vector<std::pair<int,int>> rows; for(int i=0;i<B.n;i++) rows.push_back({i,-1}); int matched=0;   // (base particle or -1, delta particle or -1)
    for(int i=0;i<D.n;i++){ auto it=key?where.find(keyOf(D,i)):where.end(); if(key&&it!=where.end()){ rows[it->second].second=i; matched++; } else rows.push_back({-1,i}); }
    if(id1.empty()&&!id0.empty()&&r.chance(1,8)){ id1=id0; count("same_identifier_twice"); }
    Partio::merge(*base,self?*base:*delta,id0,id1); Table G=snapshot(*base);
    std::string cs=fmt("merge of %s into %s%s%s, identifiers '%s' '%s'%s",describe(D).c_str(),describe(B).c_str(),ib?" (interleaved)":"",idl?" (delta interleaved)":"",id0.c_str(),id1.c_str(),key?"":" (append)");
    evaluated(); distinct(hashTable(B,hashTable(D,mode))); count(fmt("mode.%d",mode)); count(key?"keyed":"appended"); count("matched",matched); count("particles",G.n); if(k<2) sample(cs);
    VF_CHECK(G.n==(int)rows.size(),"P21.count","%s: %d particles, expected %zu",cs.c_str(),G.n,rows.size());
    std::vector<const Attr*> order; for(auto& a:B.attrs) order.push_back(&a); for(auto& a:D.attrs) if(!B.find(a.name)) order.push_back(&a);
    VF_CHECK(G.attrs.size()==order.size(),"P21.schema","%s: %zu attributes, expected %zu",cs.c_str(),G.attrs.size(),order.size());
    for(size_t x=0;x<order.size();x++){ const Attr& g=G.attrs[x]; const Attr& e=*order[x]; VF_CHECK(g.name==e.name&&g.type==e.type&&g.count==e.count,"P21.schema","%s: attribute %zu is '%s' %s[%d], expected '%s' %s[%d]",cs.c_str(),x,shortStr(g.name).c_str(),typeName(g.type),g.count,shortStr(e.name).c_str(),typeName(e.type),e.count);
        const Attr* b=B.find(e.name),*d=D.find(e.name);
        if(g.type==T_STR){ std::set<std::string> all; if(b){ VF_CHECK(g.strs.size()>=b->strs.size()&&std::equal(b->strs.begin(),b->strs.end(),g.strs.begin()),"P21.tokens","%s: the tokens of the base's '%s' changed their meaning",cs.c_str(),shortStr(e.name).c_str()); } if(d) for(auto& s:d->strs) all.insert(s); for(size_t q=b?b->strs.size():0;q<g.strs.size();q++) VF_CHECK(all.count(g.strs[q]),"P21.tokens","%s: '%s' got a string that neither set has",cs.c_str(),shortStr(e.name).c_str()); std::set<std::string> uniq(g.strs.begin(),g.strs.end()); VF_CHECK(uniq.size()==g.strs.size(),"P21.tokens","%s: '%s' has a string twice",cs.c_str(),shortStr(e.name).c_str()); }
        for(int i=0;i<G.n;i++){ int bi=rows[i].first,di=rows[i].second; Row got=rowOf(g,i),want; bool zero=false;
            if(di>=0&&d) want=rowOf(*d,di); else if(bi>=0&&b) want=rowOf(*b,bi); else zero=true;
            if(zero){ for(int c=0;c<g.count;c++) VF_CHECK(g.vals[(size_t)i*g.count+c]==0,"P21.zero","%s: particle %d has no value of '%s' yet but 0x%08x",cs.c_str(),i,shortStr(g.name).c_str(),g.vals[(size_t)i*g.count+c]); continue; }
            bool skip=false; for(auto& c:want) if(g.type==T_STR&&!c.str) skip=true; if(skip&&di>=0&&d) continue; // a token without a string
            if(g.type==T_STR&&!(di>=0&&d)){ for(int c=0;c<g.count;c++) VF_CHECK(g.vals[(size_t)i*g.count+c]==b->vals[(size_t)bi*g.count+c],"P21.value","%s: token of an untouched particle changed",cs.c_str()); continue; }
            VF_CHECK(got==want,"P21.value","%s: particle %d ('%s' %s[%d], base %d, delta %d) has 0x%08x '%s', expected 0x%08x '%s'",cs.c_str(),i,shortStr(g.name).c_str(),typeName(g.type),g.count,bi,di,g.vals[(size_t)i*g.count],got.empty()?"":shortStr(got[0].s).c_str(),want.empty()?0:want[0].v,want.empty()?"":shortStr(want[0].s).c_str()); } }
    std::vector<const Attr*> fo; for(auto& a:B.fixed) fo.push_back(&a); for(auto& a:D.fixed) if(!B.findFixed(a.name)) fo.push_back(&a);
    VF_CHECK(G.fixed.size()==fo.size(),"P21.fixed","%s: %zu fixed attributes, expected %zu",cs.c_str(),G.fixed.size(),fo.size());
    for(size_t x=0;x<fo.size();x++){ const Attr& g=G.fixed[x]; const Attr& e=*fo[x]; VF_CHECK(g.name==e.name&&g.type==e.type&&g.count==e.count,"P21.fixed","%s: fixed attribute %zu is '%s', expected '%s'",cs.c_str(),x,shortStr(g.name).c_str(),shortStr(e.name).c_str()); const Attr* d=D.findFixed(e.name),*b=B.findFixed(e.name); Row want=rowOf(d?*d:*b,0); bool skip=false; if(g.type==T_STR) for(auto& c:want) if(!c.str) skip=true; if(!skip) VF_CHECK(rowOf(g,0)==want,"P21.fixedvalue","%s: fixed '%s' has another value",cs.c_str(),shortStr(g.name).c_str()); if(g.type==T_STR&&b) VF_CHECK(g.strs.size()>=b->strs.size()&&std::equal(b->strs.begin(),b->strs.end(),g.strs.begin()),"P21.fixedtokens","%s: tokens of fixed '%s' changed their meaning",cs.c_str(),shortStr(e.name).c_str()); }
    if(self) return;
    std::string d=diff(D,snapshot(*delta)); VF_CHECK(d.empty(),"P21.delta","merging changed the delta: %s",d.c_str());
    delta.reset(); d=diff(G,snapshot(*base)); VF_CHECK(d.empty(),"P21.shared","releasing the delta changed the result: %s",d.c_str());
});

// ---- clustering -----------------------------------------------------------------------------
static Reg r22("P22",[](Rng& r,long k){
    Table t; bool large=r.chance(1,150); t.n=r.chance(1,20)?0:large?r.range(256,1500):r.range(1,r.chance(1,6)?150:40); if(large) count("large_sets"); auto add=[&](const std::string& n,int ty,int c){ Attr a; a.name=n; a.type=ty; a.count=c; if(ty==T_STR) genStrs(r,a,S_ANY); genVals(r,a,t.n,V_SMALL); for(auto& v:a.vals) if(a.isFloat()) v=f2u((float)r.real(-10,10)); t.attrs.push_back(a); };
    add("position",r.chance(9,10)?T_VECTOR:T_FLOAT,3); add("id",T_INT,1); int ne=r.range(0,4); for(int i=0;i<ne;i++){ int k2=(int)r.below(4); add(fmt("x%d",i),k2==0?T_INT:k2==1?T_STR:k2==2?T_VECTOR:T_FLOAT,k2==2?3:r.chance(1,12)?r.range(5,40):r.range(1,4)); } if(r.chance(1,12)) add("clusterId",r.chance(1,2)?T_INT:T_FLOAT,r.range(1,2)); r.shuffle(t.attrs);
    bool hasFixed=r.chance(1,4); if(hasFixed){ Attr a; a.name="scale"; a.type=T_FLOAT; a.count=2; genVals(r,a,1,V_SMALL); t.fixed.push_back(a); }
    Attr& pos=*t.find("position"); Attr& id=*t.find("id"); int layout=(int)r.below(4); float scale=(float)std::ldexp(1,r.range(-2,3)); int base=r.range(-50,50);
    for(int i=0;i<t.n;i++){ for(int a=0;a<3;a++){ float v; switch(layout){ case 0: v=(float)r.real(-1,1)*scale; break; case 1: v=(float)r.range(-2,2)*scale; break; case 2: v=i&&r.chance(1,3)?u2f(pos.vals[3*(size_t)(r.below(i))+a]):(float)r.real(-1,1)*scale; break; default: v= a==0?(float)i*scale*0.25f:1.f; } pos.vals[3*(size_t)i+a]=f2u(v); } id.vals[i]=(uint32_t)(r.chance(1,20)?(int)genInt(r):base+i); if(r.chance(1,30)&&i) id.vals[i]=id.vals[r.below(i)]; }
    if(t.n&&r.chance(1,10)) for(int a=0;a<3;a++) pos.vals[a]=f2u(1000.f*scale);  // an isolated particle
    if(t.n>2&&r.chance(1,6)) for(auto& a:t.attrs) for(int c=0;c<a.count;c++) if(a.name!="id") a.vals[a.count+c]=a.vals[c]; // exact duplicate
    // unsuitable sets are refused
    if(r.chance(1,10)){ Table u=t; int w=(int)r.below(6); auto drop=[&](const char* n){ u.attrs.erase(std::remove_if(u.attrs.begin(),u.attrs.end(),[&](const Attr& a){return a.name==n;}),u.attrs.end()); }; Attr* a; switch(w){ case 0: drop("position"); break; case 1: drop("id"); break; case 2: a=u.find("id"); a->type=T_FLOAT; break; case 3: a=u.find("id"); a->count=2; genVals(r,*a,u.n,V_SMALL); break; case 4: a=u.find("position"); a->type=T_INT; break; default: a=u.find("position"); a->count=r.chance(1,2)?2:4; a->type=r.chance(1,2)?T_VECTOR:T_FLOAT; genVals(r,*a,u.n,V_SMALL); }
        PM p(make(u)); PM c(Partio::computeClustering(p.get(),5,1.0,50,3,5)); VF_CHECK(!c,"P22.refuse","a set without suitable position and id (%s) was clustered",describe(u).c_str()); std::string d=diff(u,snapshot(*p)); VF_CHECK(d.empty(),"P22.source","refusing changed the source: %s",d.c_str()); count("refused"); evaluated(); distinct(hashTable(u,w)); return; }
    bool il=r.chance(1,5); PM p(make(t,&r,0,il)); int nn=r.chance(1,8)?r.range(-1,1):r.range(1,20); double rs=scale*r.real(0.05,4); double ri=r.chance(1,5)?(r.chance(1,2)?0:100):r.chance(1,8)?r.real(-50,200):r.real(0,100); int conn=r.chance(1,8)?r.range(-1,0):r.range(1,12); double den=r.real(0,8)/scale; if(r.chance(1,10)) den=0; if(r.chance(1,25)){ nn=r.range(20,t.n+20); count("many_neighbours"); } if(r.chance(1,25)) conn=r.range(12,300); if(!large&&t.n<=12&&r.chance(1,12)){ den=r.real(8,120)/scale; count("dense"); } if(t.n<=4&&t.n>1&&r.chance(1,10)){ den=r.real(100,1500)/scale; count("very_dense"); } if(large){ den=std::min(den,60000./t.n/std::max(1,std::min(conn,nn))/rs); if(nn>60&&t.n>600) nn=60; }
    auto run=[&]{ return PM(Partio::computeClustering(p.get(),nn,rs,ri,conn,den)); }; PM c=run(); VF_CHECK(c,"P22.null","clustering a suitable set gave null"); Table G=snapshot(*c);
    std::string cs=fmt("%s, %d neighbours, radius %g, inside %g, %d connections, density %g",describe(t).c_str(),nn,rs,ri,conn,den); evaluated(); distinct(hashTable(t,mix(nn*1000+conn))); if(k<2) sample(cs);
    Table want; for(auto& a:t.attrs) if(a.name!="clusterId") want.attrs.push_back(a); { Attr a; a.name="clusterId"; a.type=T_INT; a.count=1; want.attrs.push_back(a); }
    Cmp sc; sc.schemaOnly=true; sc.ignoreCount=true; Table gs=G; gs.fixed.clear(); std::string d=diff(want,gs,sc); VF_CHECK(d.empty(),"P22.schema","%s: %s",cs.c_str(),d.c_str()); for(size_t i=0;i<want.attrs.size();i++) VF_CHECK(G.attrs[i].strs==want.attrs[i].strs,"P22.strings","%s: string table of '%s' differs",cs.c_str(),want.attrs[i].name.c_str());
    const Attr& cid=G.attrs.back(); int src=-1; size_t na=want.attrs.size()-1; std::vector<int> nbrs; std::set<int> cand; int runs=0,last=0; long gen=0; bool connected=false; (void)connected; double kth=0;
    const double EPS=1e-6;
    // the points every connection must get: neighbours by ascending id, each with floor(density*length) points within the inner radius, fading out towards the search radius
    std::vector<int> plan; bool planned=false; size_t planAt=0;
    auto makePlan=[&](int s){ plan.clear(); planAt=0; planned=false; if(pos.type!=T_VECTOR) return; struct N{ double d; int j; }; std::vector<N> v; double big=0; for(int j=0;j<t.n;j++){ double q=0; for(int a=0;a<3;a++){ double z=(double)u2f(pos.vals[3*(size_t)j+a])-(double)u2f(pos.vals[3*(size_t)s+a]); q+=z*z; big=std::max(big,std::fabs((double)u2f(pos.vals[3*(size_t)j+a]))); } q=std::sqrt(q); if(std::fabs(q-rs)<=1e-5*rs+1e-6*q) return; if(q<rs) v.push_back({q,j}); }
        std::sort(v.begin(),v.end(),[](const N& a,const N& b){ return a.d<b.d; }); int kk=std::max(0,nn); if((int)v.size()>kk){ if(kk&&v[kk].d-v[kk-1].d<=1e-5*v[kk].d+1e-12) return; v.resize(kk); }
        std::vector<N> w; for(auto& x:v) if(id.vals[x.j]!=id.vals[s]) w.push_back(x); std::sort(w.begin(),w.end(),[&](const N& a,const N& b){ return (int)id.vals[a.j]<(int)id.vals[b.j]; }); for(size_t i=1;i<w.size();i++) if(id.vals[w[i].j]==id.vals[w[i-1].j]) return;
        double inner=0.01*std::min(100.,std::max(0.,ri))*rs; int m=std::min((int)w.size(),std::max(0,conn));
        for(int i=0;i<m;i++){ double l=w[i].d,f; if(l<inner) f=1; else { double x=1-(l-inner)/(rs-inner); if(!(inner<rs)) return; f= x>0? x*x*(3-2*x): 0; } if(std::fabs(l-inner)<1e-5*rs) { if(inner<rs*0.999) {} else return; } double q=den*l*f,tol=1e-4*q+1e-5*den*big+1e-9; if(inner>0.9*rs&&l>=inner*(1-1e-5)) return; if(std::floor(q-tol)!=std::floor(q+tol)) return; for(int c=(int)std::floor(q);c>0;c--) plan.push_back(w[i].j); }
        planned=true; };
    // the points of one connection are scattered along it
    std::vector<double> spread; int spreadTo=-1;
    auto checkSpread=[&]{ if(spread.size()>=60&&spread.size()<=5000){ std::sort(spread.begin(),spread.end()); size_t distinct=1,half=0; for(size_t i=0;i<spread.size();i++){ if(i&&spread[i]-spread[i-1]>4e-6) distinct++; half+=spread[i]<0.5; }
        VF_CHECK(distinct>=0.95*spread.size(),"P22.scatter","%s: the %zu points from particle %d to %d have %zu positions only",cs.c_str(),spread.size(),src,spreadTo,distinct); VF_CHECK(half>=spread.size()/10&&half<=spread.size()*9/10,"P22.scatter","%s: %zu of the %zu points from particle %d to %d are in the first half of the way",cs.c_str(),half,spread.size(),src,spreadTo); count("scattered_connections"); } spread.clear(); spreadTo=-1; };
    auto P=[&](int i,int a){ return (double)u2f(pos.vals[3*(size_t)i+a]); };
    for(int g=0;g<G.n;g++){ int ci=(int)cid.vals[g];
        if(ci==0){ checkSpread(); src++; VF_CHECK(src<t.n,"P22.extra","%s: more originals than the %d source particles",cs.c_str(),t.n); for(size_t a=0;a<na;a++){ const Attr& s=want.attrs[a]; VF_CHECK(!memcmp(&G.attrs[a].vals[(size_t)g*s.count],&s.vals[(size_t)src*s.count],4*s.count),"P22.original","%s: source particle %d does not appear with its exact '%s'",cs.c_str(),src,s.name.c_str()); }
            nbrs.clear(); std::vector<double> ds; for(int j=0;j<t.n;j++){ double q=0; for(int a=0;a<3;a++){ double z=P(j,a)-P(src,a); q+=z*z; } q=std::sqrt(q); ds.push_back(q); if(j!=src&&q<=rs*(1+EPS)) nbrs.push_back(j); } std::sort(ds.begin(),ds.end()); kth= nn<1?-1: nn<=t.n?ds[nn-1]:1e300; std::vector<int> keep; for(int j:nbrs){ double q=0; for(int a=0;a<3;a++){ double z=P(j,a)-P(src,a); q+=z*z; } if(std::sqrt(q)<=kth*(1+EPS)+1e-30) keep.push_back(j); } nbrs=keep;
            VF_CHECK(!planned||planAt==plan.size(),"P22.few","%s: source particle %d has %zu points, expected %zu",cs.c_str(),src-1,planAt,plan.size()); makePlan(src); if(planned){ count("planned_particles"); count("planned_points",plan.size()); } cand.clear(); runs=0; last=0; continue; }
        VF_CHECK(src>=0,"P22.order","%s: the result does not start with a source particle",cs.c_str()); VF_CHECK(ci==last+1,"P22.number","%s: point %d of source particle %d is numbered %d, expected %d",cs.c_str(),g,src,ci,last+1); last=ci; gen++;
        std::set<int> ok; for(int j:nbrs){ // which neighbours explain this point?
            double tb=-1,terr=1e300; for(size_t a=0;a<na;a++){ const Attr& s=want.attrs[a]; if(!s.isFloat()) continue; for(int q=0;q<s.count;q++){ double x=u2f(s.vals[(size_t)src*s.count+q]),y=u2f(s.vals[(size_t)j*s.count+q]),v=u2f(G.attrs[a].vals[(size_t)g*s.count+q]); if(x==y) continue; double e=EPS*(std::fabs(x)+std::fabs(y))/std::fabs(y-x); if(e<terr){ terr=e; tb=(v-x)/(y-x); } } }
            bool good=true; if(terr>1e299){ tb=0; terr=0; } else if(!(tb>=-terr&&tb<=1+terr)) good=false;
            for(size_t a=0;a<na&&good;a++){ const Attr& s=want.attrs[a]; for(int q=0;q<s.count&&good;q++){ uint32_t xs=s.vals[(size_t)src*s.count+q],gs2=G.attrs[a].vals[(size_t)g*s.count+q]; if(!s.isFloat()){ good= xs==gs2; continue; } double x=u2f(xs),y=u2f(s.vals[(size_t)j*s.count+q]),v=u2f(gs2); if(!(std::fabs(x+tb*(y-x)-v)<=EPS*(std::fabs(x)+std::fabs(y))+terr*std::fabs(y-x))) good=false; } }
            if(good) ok.insert(j);
            if(good&&planned&&planAt<plan.size()&&plan[planAt]==j&&terr<2e-6){ if(j!=spreadTo){ checkSpread(); spreadTo=j; } spread.push_back(tb); } }
        VF_CHECK(!ok.empty(),"P22.segment","%s: point %d (numbered %d) of source particle %d does not lie between it and any of its %zu neighbours with all attributes interpolated alike",cs.c_str(),g,ci,src,nbrs.size());
        if(planned){ VF_CHECK(planAt<plan.size(),"P22.many","%s: source particle %d has more than the expected %zu points",cs.c_str(),src,plan.size()); VF_CHECK(ok.count(plan[planAt]),"P22.neighbour","%s: point %d (numbered %d) of source particle %d does not lie on the way to particle %d",cs.c_str(),g,ci,src,plan[planAt]); planAt++; }
        std::set<int> both; for(int j:ok) if(cand.count(j)) both.insert(j); if(both.empty()){ runs++; cand=ok; } else cand=both;
        VF_CHECK(runs<=conn,"P22.connections","%s: source particle %d is connected to more than %d neighbours",cs.c_str(),src,conn); VF_CHECK(runs<=nn,"P22.connections","%s: source particle %d is connected to more neighbours than asked for",cs.c_str(),src); }
    checkSpread(); VF_CHECK(!planned||planAt==plan.size(),"P22.few","%s: the last source particle has %zu points, expected %zu",cs.c_str(),planAt,plan.size()); VF_CHECK(src==t.n-1,"P22.missing","%s: only %d of %d source particles appear",cs.c_str(),src+1,t.n);
    count("generated_points",gen); if(gen) count("runs_with_points"); count(il?"interleaved":"default");
    { PM c2=run(); d=diff(G,snapshot(*c2)); VF_CHECK(d.empty(),"P22.deterministic","%s: a second run differs: %s",cs.c_str(),d.c_str()); PM p2(make(t,nullptr,1,!il)); PM c3(Partio::computeClustering(p2.get(),nn,rs,ri,conn,den)); Table g3=snapshot(*c3); d=diff(G,g3); VF_CHECK(d.empty(),"P22.deterministic","%s: a run on an equal set differs: %s",cs.c_str(),d.c_str()); }
    d=diff(t,snapshot(*p)); VF_CHECK(d.empty(),"P22.source","clustering changed the source: %s",d.c_str());
});
int main(int argc,char** argv){ return runMain(argc,argv); }
