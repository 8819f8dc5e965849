// P29: ZIP archives.  The library's writer and reader against each other, against a strict parser, and against Python's zipfile.
#include "codec.h"
#include "ZIP.h"
#include <sys/wait.h>
using namespace vf;

typedef std::vector<std::pair<std::string,std::string>> Entries;
static std::string blob(Rng& r){ std::string s; size_t n; switch(r.below(9)){ case 0: n=0; break; case 1: n=1; break; case 2: n=r.range(500,520); break; case 3: n=r.range(1010,1030); break; case 4: n=r.range(1,40); break; case 5: n=r.range(1,5000); break; case 6: n=508*r.range(1,5); break; case 7: n=r.range(20000,70000); if(!r.chance(1,4)) n=r.range(1,3000); break; default: n=r.range(1,600); } s.resize(n);
    switch(r.below(4)){ case 0: for(auto& c:s) c=(char)r.below(256); break; case 1: for(auto& c:s) c="abcdefgh \n"[r.below(10)]; break; case 2: { char c=(char)r.below(256); for(auto& x:s) x=c; break; } default: { size_t i=0; for(auto& c:s) c=(char)(i++%(1+n/7)); } }
    if(r.chance(1,10)&&n>60){ static const char* sig[]={"PK\5\6","PK\1\2","PK\3\4","PK\7\10","PK\5\6\0\0\0\0\1\0\1\0"}; const char* g=sig[r.below(5)]; size_t at=r.below(n-20); memcpy(&s[at],g,g==sig[4]?12:4); } return s; }
static std::string entryName(Rng& r){ static const char* n[]={"a","data.bin","dir/file.txt","x.bgeo","README","deep/er/and/deeper/file","with space","dots..in.name","UPPER","-dash"}; switch(r.below(5)){ case 0: return n[r.below(10)]; case 1: return genWord(r)+"."+genWord(r,1,4); case 2: return genWord(r)+"/"+genWord(r); case 3: if(r.chance(1,6)) return std::string(r.range(100,900),'n')+genWord(r); return genWord(r); default: { std::string s=genWord(r); if(r.chance(1,4)) s+="\xc3\xa9"; return s; } } }
static Entries genEntries(Rng& r){ Entries e; int n= r.chance(1,15)? 0 : r.chance(1,20)? r.range(60,200) : r.chance(1,60)? r.range(250,1300) : r.chance(1,1200)? r.range(32760,33000) : r.range(1,12); if(n>1000&&!r.chance(1,3)) n=r.range(250,270); std::set<std::string> seen; while((int)e.size()<n){ std::string s=entryName(r); while(!seen.insert(s).second) s+=genWord(r,1,3); e.push_back({s,n>5000?std::string(r.below(5),'q'):n>50?blob(r).substr(0,200):blob(r)}); } return e; }

static uint32_t crcOf(const std::string& s){ return (uint32_t)::crc32(0,(const Bytef*)s.data(),s.size()); }
// strict parser; returns a description of what is wrong
static std::string parseZip(const std::string& b,const Entries& want){
    if(b.size()<22) return "shorter than an end record"; R e(b); e.p=b.size()-22; if(e.le<uint32_t>()!=0x06054b50) return "no end record at the end"; e.le<uint16_t>(); e.le<uint16_t>(); uint16_t n1=e.le<uint16_t>(),n2=e.le<uint16_t>(); uint32_t csz=e.le<uint32_t>(),coff=e.le<uint32_t>(); uint16_t cl=e.le<uint16_t>();
    if(n1!=want.size()||n2!=n1) return fmt("end record counts %d and %d entries instead of %zu",n1,n2,want.size()); if(cl) return "comment length"; if((uint64_t)coff+csz!=b.size()-22) return "central directory does not end at the end record";
    R c(b); c.p=coff; size_t pos=0; for(size_t i=0;i<want.size();i++){
        if(c.le<uint32_t>()!=0x02014b50) return fmt("central entry %zu has no signature",i); c.le<uint16_t>(); uint16_t ver=c.le<uint16_t>(),fl=c.le<uint16_t>(),m=c.le<uint16_t>(); c.le<uint16_t>(); c.le<uint16_t>(); uint32_t crc=c.le<uint32_t>(),cs=c.le<uint32_t>(),us=c.le<uint32_t>(); uint16_t nl=c.le<uint16_t>(),xl=c.le<uint16_t>(),ol=c.le<uint16_t>(),dk=c.le<uint16_t>(); c.le<uint16_t>(); c.le<uint32_t>(); uint32_t off=c.le<uint32_t>(); std::string nm=c.str(nl); c.str(xl); c.str(ol); if(dk) return "disk number";
        if(nm!=want[i].first) return fmt("central entry %zu is called '%s' instead of '%s'",i,nm.c_str(),want[i].first.c_str()); if(off!=pos) return fmt("entry %zu starts at %u according to the directory and at %zu in fact",i,off,pos);
        R l(b); l.p=off; if(l.le<uint32_t>()!=0x04034b50) return fmt("local entry %zu has no signature",i); uint16_t lv=l.le<uint16_t>(),lf=l.le<uint16_t>(),lm=l.le<uint16_t>(); l.le<uint16_t>(); l.le<uint16_t>(); uint32_t lcrc=l.le<uint32_t>(),lcs=l.le<uint32_t>(),lus=l.le<uint32_t>(); uint16_t lnl=l.le<uint16_t>(),lxl=l.le<uint16_t>(); std::string ln=l.str(lnl); l.str(lxl);
        if(lv!=ver||lf!=fl||lm!=m||lcrc!=crc||lcs!=cs||lus!=us||ln!=nm) return fmt("local and central header of '%s' differ",nm.c_str()); if(fl&~0x0802) return fmt("flags %x",fl); if(l.p+cs>coff) return "entry reaches into the directory";
        std::string raw=b.substr(l.p,cs),out; if(m==0) out=raw; else if(m==8){ z_stream z; memset(&z,0,sizeof z); if(inflateInit2(&z,-15)!=Z_OK) return "inflateInit"; out.resize(want[i].second.size()+1); z.next_in=(Bytef*)raw.data(); z.avail_in=raw.size(); z.next_out=(Bytef*)&out[0]; z.avail_out=out.size(); int ret=inflate(&z,Z_FINISH); uInt left=z.avail_in; out.resize(z.total_out); inflateEnd(&z); if(ret!=Z_STREAM_END) return fmt("deflated data of '%s' does not end",nm.c_str()); if(left) return fmt("'%s': %u bytes behind the deflated data",nm.c_str(),left); } else return fmt("method %d",m);
        if(out!=want[i].second) return fmt("content of '%s' differs",nm.c_str()); if(us!=out.size()) return fmt("size of '%s': %u instead of %zu",nm.c_str(),us,out.size()); if(crc!=crcOf(out)) return fmt("checksum of '%s'",nm.c_str()); pos=l.p+cs; }
    if(pos!=coff||c.p!=b.size()-22) return "gap before or in the directory"; return ""; }

// an archive made elsewhere
static std::string makeZip(Rng& r,const Entries& e,std::string& desc){
    struct Rec { size_t off; uint32_t crc,cs,us; uint16_t m,fl; std::string nm; }; std::vector<Rec> recs; W w; bool desc3=r.chance(1,4),extra=r.chance(1,3); size_t n=0; std::vector<size_t> order; for(size_t i=0;i<e.size();i++) order.push_back(i); if(r.chance(1,3)) r.shuffle(order); if(r.chance(1,10)) { w.str(std::string(r.range(1,50),'#')); desc+="prefix "; }
    for(size_t i:order){ Rec q; const std::string& d=e[i].second; q.nm=e[i].first; q.off=w.b.size(); q.m=r.chance(1,3)?0:8; q.us=d.size(); q.crc=crcOf(d); std::string raw; if(q.m){ z_stream z; memset(&z,0,sizeof z); deflateInit2(&z,r.range(0,9),Z_DEFLATED,-15,r.range(1,9),r.range(0,4)); raw.resize(deflateBound(&z,d.size())+20); z.next_in=(Bytef*)d.data(); z.avail_in=d.size(); z.next_out=(Bytef*)&raw[0]; z.avail_out=raw.size(); if(deflate(&z,Z_FINISH)!=Z_STREAM_END) throw std::runtime_error("deflate"); raw.resize(z.total_out); deflateEnd(&z); } else raw=d; q.cs=raw.size(); bool dd=desc3&&q.m==8; q.fl= dd?8:0; if(r.chance(1,5)) q.fl|=0x800; std::string x= extra&&r.chance(1,2)? std::string("UT\5\0\3abcd",9) : "";
        w.le<uint32_t>(0x04034b50); w.le<uint16_t>(20); w.le<uint16_t>(q.fl); w.le<uint16_t>(q.m); w.le<uint16_t>((uint16_t)r.next()); w.le<uint16_t>((uint16_t)r.next()); w.le<uint32_t>(dd?0:q.crc); w.le<uint32_t>(dd?0:q.cs); w.le<uint32_t>(dd?0:q.us); w.le<uint16_t>(q.nm.size()); w.le<uint16_t>(x.size()); w.str(q.nm); w.str(x); w.str(raw); if(dd){ if(r.chance(3,4)) w.le<uint32_t>(0x08074b50); w.le<uint32_t>(q.crc); w.le<uint32_t>(q.cs); w.le<uint32_t>(q.us); } recs.push_back(q); if(r.chance(1,20)) w.str("gap"); }
    if(r.chance(1,3)) r.shuffle(recs); size_t coff=w.b.size(); for(auto& q:recs){ std::string x= extra&&r.chance(1,2)? std::string("ux\xb\0\1\4\0\0\0\0\4\0\0\0\0",15):"",cm= r.chance(1,6)? "entry comment":""; w.le<uint32_t>(0x02014b50); w.le<uint16_t>(0x031e); w.le<uint16_t>(20); w.le<uint16_t>(q.fl); w.le<uint16_t>(q.m); w.le<uint16_t>(1); w.le<uint16_t>(0x21); w.le<uint32_t>(q.crc); w.le<uint32_t>(q.cs); w.le<uint32_t>(q.us); w.le<uint16_t>(q.nm.size()); w.le<uint16_t>(x.size()); w.le<uint16_t>(cm.size()); w.le<uint16_t>(0); w.le<uint16_t>(0); w.le<uint32_t>(0x81a40000); w.le<uint32_t>(q.off); w.str(q.nm); w.str(x); w.str(cm); n++; }
    size_t cend=w.b.size(); std::string cm= r.chance(1,4)? std::string(r.chance(1,5)?r.range(1000,65535):r.range(1,80),'c') : ""; w.le<uint32_t>(0x06054b50); w.le<uint16_t>(0); w.le<uint16_t>(0); w.le<uint16_t>(n); w.le<uint16_t>(n); w.le<uint32_t>(cend-coff); w.le<uint32_t>(coff); w.le<uint16_t>(cm.size()); w.str(cm); desc+=fmt("%zu entries, descriptors %d, extra %d, comment %zu",n,desc3,extra,cm.size()); return w.b; }

static void writeWith(Rng& r,const std::string& f,const Entries& e){ Partio::ZipFileWriter z(f); for(auto& x:e){ std::unique_ptr<std::ostream> o(z.Add_File(x.first,r.chance(1,2))); VF_CHECK(o&&*o,"P29.add","Add_File gives no usable stream"); const std::string& d=x.second; size_t p=0; int how=(int)r.below(4); while(p<d.size()){ size_t n= how==0? d.size()-p : how==1? 1+r.below(2000) : how==2? 1+r.below(30) : 1; n=std::min(n,d.size()-p); if(how==3&&d.size()<3000) o->put(d[p]); else { if(how==3) n=std::min<size_t>(d.size()-p,700); o->write(d.data()+p,n); } p+=n; if(r.chance(1,60)) o->flush(); } VF_CHECK(*o,"P29.add","writing %zu bytes failed",d.size()); } }
static std::string readAll(Rng& r,std::istream& i,size_t limit,int& how){ std::string s; how=(int)r.below(4); if(how==0){ std::stringstream ss; ss<<i.rdbuf(); return ss.str(); } if(how==1){ int c; while((c=i.get())!=EOF){ s+=(char)c; if(s.size()>limit) break; if(r.chance(1,40)&&s.size()){ i.unget(); if(i) s.pop_back(); else { i.clear(); } } } return s; } char buf[4096]; while(i){ size_t n=how==2? 1+r.below(40) : 1+r.below(sizeof buf); i.read(buf,n); s.append(buf,i.gcount()); if(s.size()>limit) break; } return s; }
static void readCheck(Rng& r,const std::string& f,const Entries& e,const char* who){
    std::unique_ptr<Partio::ZipFileReader> z(new Partio::ZipFileReader(f)); std::vector<std::string> got,want; if(r.chance(1,2)) got.push_back("stale"); z->Get_File_List(got); for(auto& x:e) want.push_back(x.first); std::sort(want.begin(),want.end()); std::sort(got.begin(),got.end()); VF_CHECK(got==want,"P29.list","%s: %zu entries listed, %zu in the archive",who,got.size(),want.size());
    std::vector<size_t> order; for(size_t i=0;i<e.size();i++) order.push_back(i); r.shuffle(order); if(e.size()) for(int i=0;i<3;i++) order.push_back(r.below(e.size())); bool partial=r.chance(1,3);
    for(size_t i:order){ if(partial&&r.chance(1,3)){ const auto& x=e[r.below(e.size())]; std::unique_ptr<std::istream> s(z->Get_File(x.first)); VF_CHECK(s,"P29.null","%s: no stream for '%s'",who,x.first.c_str()); char b[700]; size_t n=r.below(700); s->read(b,n); VF_CHECK((size_t)s->gcount()==std::min(n,x.second.size())&&!memcmp(b,x.second.data(),s->gcount()),"P29.content","%s: the first bytes of '%s' differ",who,x.first.c_str()); count("partial_reads"); }
        if(r.chance(1,8)){ std::string no=entryName(r)+"?"; VF_CHECK(!z->Get_File(no),"P29.absent","%s: a stream for an absent entry",who); if(e.size()){ no=e[0].first; no[0]^=1; bool is=false; for(auto& x:e) is|=x.first==no; if(!is) VF_CHECK(!z->Get_File(no),"P29.absent","%s: a stream for an absent entry",who); } count("absent_lookups"); }
        std::unique_ptr<std::istream> s(z->Get_File(e[i].first,r.chance(1,2))); VF_CHECK(s,"P29.null","%s: no stream for '%s'",who,e[i].first.c_str()); int how=-1; std::string d=readAll(r,*s,e[i].second.size()+5000,how); VF_CHECK(d==e[i].second,"P29.content","%s: '%s' reads back (way %d) as %zu bytes, %zu were stored%s",who,e[i].first.c_str(),how,d.size(),e[i].second.size(),d.size()==e[i].second.size()?" (other content)":""); evaluated(); count("entries_read"); } }
static void dump(const std::string& dir,const Entries& e){ mkdir(dir.c_str(),0700); std::string list; for(size_t i=0;i<e.size();i++){ spit(dir+fmt("/%zu",i),e[i].second); for(unsigned char c:e[i].first) list+=fmt("%02x",c); list+="\n"; } spit(dir+"/names",list); }
static const char* PYCHECK="import sys,zipfile\nd,z=sys.argv[1:3]\nwant={}\nfor i,l in enumerate(open(d+'/names')):\n  want[bytes.fromhex(l.strip())]=open(d+'/%d'%i,'rb').read()\nf=zipfile.ZipFile(z)\nif f.testzip() is not None: sys.exit('testzip: '+repr(f.testzip()))\ngot={}\nfor i in f.infolist():\n  n=i.filename.encode('utf-8' if i.flag_bits&0x800 else 'cp437')\n  got[n]=f.read(i)\n  if i.file_size!=len(got[n]): sys.exit('size')\nif got!=want: sys.exit('entries differ: %d got, %d expected'%(len(got),len(want)))\n";
static const char* PYMAKE="import sys,zipfile,random\nd,z,s=sys.argv[1:4]\nr=random.Random(int(s))\nf=zipfile.ZipFile(z,'w')\nfor i,l in enumerate(open(d+'/names')):\n  n=bytes.fromhex(l.strip()).decode('utf-8')\n  b=open(d+'/%d'%i,'rb').read()\n  m=r.choice([zipfile.ZIP_STORED,zipfile.ZIP_DEFLATED])\n  if r.random()<.5: f.writestr(zipfile.ZipInfo(n,(2000,1,1,0,0,0)),b,m)\n  else:\n    zi=zipfile.ZipInfo(n,(2020,5,5,1,2,4)); zi.compress_type=m\n    with f.open(zi,'w') as o: o.write(b)\nif r.random()<.4: f.comment=b'made by python'\nf.close()\n";
static int python(const std::string& script,const std::vector<std::string>& args,std::string& err){ std::string sf=tmpFile("s.py"),ef=tmpFile("err"); spit(sf,script); std::vector<char*> av; std::string py="/usr/bin/python3.12"; av.push_back(&py[0]); std::string I="-I"; av.push_back(&I[0]); av.push_back(const_cast<char*>(sf.c_str())); for(auto& a:args) av.push_back(const_cast<char*>(a.c_str())); av.push_back(nullptr); pid_t p=fork(); if(p==0){ int fd=open(ef.c_str(),O_CREAT|O_TRUNC|O_WRONLY,0600); dup2(fd,1); dup2(fd,2); execv(av[0],av.data()); _exit(99); } int st=0; waitpid(p,&st,0); err=slurp(ef); if(err.size()>400) err=err.substr(err.size()-400); return WIFEXITED(st)?WEXITSTATUS(st):-1; }

static Reg r29("P29",[](Rng& r,long k){
    std::string dir=tmpFile("z"); mkdir(dir.c_str(),0700); struct RM { std::string d; ~RM(){ rmTree(d); } } rm{dir}; Entries e=genEntries(r); std::string f=dir+"/a.zip"; uint64_t h=e.size(); for(auto& x:e) h=hashStr(x.second,hashStr(x.first,h)); distinct(mix(h+k%3)); std::string err;
    if(k%3!=1){ // written by the library
        if(r.chance(1,3)) spit(f,std::string(100000,'x')); // an old file is replaced
        writeWith(r,f,e); count("archives_written"); std::string b=slurp(f),w=parseZip(b,e); VF_CHECK(w.empty(),"P29.format","an archive with %zu entries written by the library: %s",e.size(),w.c_str()); readCheck(r,f,e,"written by the library"); evaluated(e.size()+1);
        if(k%24==0){ dump(dir+"/d",e); int rc=python(PYCHECK,{dir+"/d",f},err); if(rc==99) count("no_python"); else { VF_CHECK(rc==0,"P29.python","Python's zipfile rejects an archive written by the library: %s",err.c_str()); count("python_reads"); } } }
    else { std::string desc; if(k%24==1){ dump(dir+"/d",e); int rc=python(PYMAKE,{dir+"/d",f,std::to_string(r.below(1<<30))},err); if(rc!=0){ count("no_python"); return; } desc="made by Python"; count("python_writes"); } else { spit(f,makeZip(r,e,desc)); count("foreign_archives"); } readCheck(r,f,e,desc.c_str()); evaluated(); }
    if(k<3) sample(fmt("%zu entries, first '%s' with %zu bytes",e.size(),e.empty()?"":e[0].first.substr(0,40).c_str(),e.empty()?(size_t)0:e[0].second.size()));
    if(k%10==5){ bool threw=false; try { Partio::ZipFileReader z(dir+"/none.zip"); } catch(const std::runtime_error&){ threw=true; } VF_CHECK(threw,"P29.missing","opening a missing archive raises nothing"); threw=false; try { Partio::ZipFileWriter z(dir+"/no/dir.zip"); } catch(const std::runtime_error&){ threw=true; } VF_CHECK(threw,"P29.missing","an archive that cannot be created raises nothing"); } });

int main(int argc,char** argv){ return runMain(argc,argv); }
