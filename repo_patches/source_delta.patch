From e6b1e0fd7a2edf2b2837e0e9dcd0791aadf67c3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:30 +0000
Subject: [PATCH 01/79] fix: decode the optional fields of gzip headers by
 their RFC 1952 flag bits

FEXTRA is bit 2, FNAME bit 3, FCOMMENT bit 4 and FHCRC bit 1; with the bits
mixed up, files that carry an extra field, a comment, a header checksum or
the text flag could not be read.
---
 src/lib/io/ZIP.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/lib/io/ZIP.cpp b/src/lib/io/ZIP.cpp
index 5792b23..9d52fc9 100644
--- a/src/lib/io/ZIP.cpp
+++ b/src/lib/io/ZIP.cpp
@@ -92,7 +92,7 @@ struct GZipFileHeader
     unsigned int crc32;
 
     GZipFileHeader()
-        :magic0(0),magic1(0),flags(0),modtime(0),flags2(0),os(0),crc16(0),crc32(0)
+        :magic0(0),magic1(0),cm(0),flags(0),modtime(0),flags2(0),os(0),crc16(0),crc32(0)
     {}
 
     bool Read(std::istream& istream)
@@ -112,15 +112,15 @@ struct GZipFileHeader
     Read_Primitive(istream,os);
     unsigned char dummyByte;
     // read flags if necessary
-    if(flags&2){
-        unsigned short flgExtraLen;
+    if(flags&4){
+        unsigned short flgExtraLen=0;
         Read_Primitive(istream,flgExtraLen);
         for(int k=0;k<flgExtraLen;k++) Read_Primitive(istream,dummyByte);}
     // read filename/comment if present
-    int stringsToRead=((flags&8)?1:0) + ((flags&4)?1:0);
+    int stringsToRead=((flags&8)?1:0) + ((flags&16)?1:0);
     for(int i=0;i<stringsToRead;i++) 
         do{Read_Primitive(istream,dummyByte);}while(dummyByte!=0 && istream);
-    if(flags&1) Read_Primitive(istream,crc16);
+    if(flags&2) Read_Primitive(istream,crc16);
     if(!istream) {std::cerr<<"gzip: got to end of file after only reading gzip header"<<std::endl;return false;}
     return true;}
 
-- 
2.43.0


From 163bc4c4ebf4c6e66823c3f1e74c5baed1ad8c97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:30 +0000
Subject: [PATCH 02/79] fix: reading a truncated compressed stream no longer
 loops forever

---
 src/lib/io/ZIP.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lib/io/ZIP.cpp b/src/lib/io/ZIP.cpp
index 9d52fc9..11d33ec 100644
--- a/src/lib/io/ZIP.cpp
+++ b/src/lib/io/ZIP.cpp
@@ -283,7 +283,8 @@ public:
                 istream.read((char*)in,part_of_zip_file?std::min((unsigned int)buffer_size,header.compressed_size-total_read):(unsigned int)buffer_size);
                 strm.avail_in=static_cast<uInt>(istream.gcount());
                 total_read+=strm.avail_in;
-                strm.next_in=(Bytef*)in;}
+                strm.next_in=(Bytef*)in;
+                if(strm.avail_in==0) break;} // no more input: the compressed data is truncated
             int ret=inflate(&strm,Z_NO_FLUSH); // decompress
             switch(ret){
                 case Z_STREAM_ERROR: 
-- 
2.43.0


From bef700da00846fe5add975cda5aff5f6e2e6a9df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:30 +0000
Subject: [PATCH 03/79] fix: release the inflate state and keep the get area
 sane after corrupt compressed data

---
 src/lib/io/ZIP.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/lib/io/ZIP.cpp b/src/lib/io/ZIP.cpp
index 11d33ec..1a32ac0 100644
--- a/src/lib/io/ZIP.cpp
+++ b/src/lib/io/ZIP.cpp
@@ -244,12 +244,13 @@ class ZipStreambufDecompress:public std::streambuf
     bool own_istream;
     bool valid;
     bool compressed_data;
+    bool inflate_initialized;
 
     static const unsigned short DEFLATE=8;
     static const unsigned short UNCOMPRESSED=0;
 public:
     ZipStreambufDecompress(std::istream& stream,bool part_of_zip_file_input)
-        :istream(stream),total_read(0),total_uncompressed(0),part_of_zip_file(part_of_zip_file_input),valid(true)
+        :istream(stream),total_read(0),total_uncompressed(0),part_of_zip_file(part_of_zip_file_input),valid(true),inflate_initialized(false)
     {
         strm.zalloc=Z_NULL;strm.zfree=Z_NULL;strm.opaque=Z_NULL;strm.avail_in=0;strm.next_in=Z_NULL;
         setg((char*)in,(char*)in,(char*)in);
@@ -266,11 +267,12 @@ public:
         // initialize the inflate
         if(compressed_data && valid){
             int result=inflateInit2(&strm,-MAX_WBITS);
-            if(result!=Z_OK){std::cerr<<"gzip: inflateInit2 did not return Z_OK"<<std::endl;valid=false;}}
+            if(result!=Z_OK){std::cerr<<"gzip: inflateInit2 did not return Z_OK"<<std::endl;valid=false;}
+            else inflate_initialized=true;}
     }
 
     virtual ~ZipStreambufDecompress()
-    {if(compressed_data && valid) inflateEnd(&strm);
+    {if(inflate_initialized) inflateEnd(&strm);
     if(!part_of_zip_file) delete &istream;}
 
     int process()
@@ -312,7 +314,7 @@ public:
     if(put_back_count>4) put_back_count=4;
     std::memmove(out+(4-put_back_count),gptr()-put_back_count,put_back_count);
     int num=process();
-    setg((char*)(out+4-put_back_count),(char*)(out+4),(char*)(out+4+num));
+    setg((char*)(out+4-put_back_count),(char*)(out+4),(char*)(out+4+(num>0?num:0)));
     if(num<=0) return EOF;
     return traits_type::to_int_type(*gptr());}
 
-- 
2.43.0


From ade98be8ebcd2d539df4b1c95a86c66d15acdf26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:30 +0000
Subject: [PATCH 04/79] fix: Gzip_Out reports a file that cannot be opened to
 its caller

The failure of the underlying file was hidden by the compressing stream, so
no writer noticed it and no diagnostic was given.
---
 src/lib/io/ZIP.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/lib/io/ZIP.cpp b/src/lib/io/ZIP.cpp
index 1a32ac0..1643947 100644
--- a/src/lib/io/ZIP.cpp
+++ b/src/lib/io/ZIP.cpp
@@ -598,7 +598,10 @@ std::ostream*
 Gzip_Out(const std::string& filename,std::ios::openmode mode)
 {
     std::ofstream* outfile=new std::ofstream(filename.c_str(),mode);
-    return new ZIP_FILE_OSTREAM(0,*outfile);
+    const bool opened=outfile->good();
+    std::ostream* stream=new ZIP_FILE_OSTREAM(0,*outfile);
+    if(!opened) stream->setstate(std::ios::failbit); // let the caller see that the file could not be opened
+    return stream;
 }
 //#####################################################################
 
-- 
2.43.0


From 0a08facec28bf6b242cdca518bcd79a3d00f4b40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:30 +0000
Subject: [PATCH 05/79] fix: opening a missing file for reading no longer
 prints to std::cerr

Gzip_In tried to read a gzip header from the unopened file and complained on
std::cerr even when the caller asked for silence.
---
 src/lib/io/ZIP.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lib/io/ZIP.cpp b/src/lib/io/ZIP.cpp
index 1643947..8c0116e 100644
--- a/src/lib/io/ZIP.cpp
+++ b/src/lib/io/ZIP.cpp
@@ -585,6 +585,7 @@ std::istream*
 Gzip_In(const std::string& filename,std::ios::openmode mode)
 {
     std::ifstream* infile=new std::ifstream(filename.c_str(),mode | std::ios::binary);
+    if(!*infile) return infile; // the caller reports it
     GZipFileHeader header;
     bool zipped=header.Read(*infile);
     infile->seekg(0);
@@ -614,6 +615,7 @@ std::istream*
 Gzip_In(const std::string& filename,std::ios::openmode mode)
 {
     std::ifstream* infile=new std::ifstream(filename.c_str(),mode | std::ios::binary);
+    if(!*infile) return infile; // the caller reports it
     GZipFileHeader header;
     bool zipped=header.Read(*infile);
     
-- 
2.43.0


From c51adde4973c5cdac5fad545fab933f0729a00c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:01 +0000
Subject: [PATCH 06/79] fix: binary values read past the end of a file are zero
 instead of indeterminate

---
 src/lib/io/PartioEndian.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/io/PartioEndian.h b/src/lib/io/PartioEndian.h
index 9d039d3..8cb3c5f 100644
--- a/src/lib/io/PartioEndian.h
+++ b/src/lib/io/PartioEndian.h
@@ -79,7 +79,7 @@ struct LITEND {
 template<class E,class T> inline void
 read(std::istream& input,T& d)
 {
-    input.read((char*)&d,sizeof(T));
+    if(!input.read((char*)&d,sizeof(T))) d=T(); // nothing indeterminate after the end of the file
     E::swap(d);
 }
 
-- 
2.43.0


From 3344c6f8793d243fd4de4234a9be714aef834200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:01 +0000
Subject: [PATCH 07/79] fix: BGEO reader stops at broken attribute definitions

The result of getAttributes was ignored although it had released the particle
set (use after free), and it released a null set for primitive attributes.
---
 src/lib/io/BGEO.cpp | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/src/lib/io/BGEO.cpp b/src/lib/io/BGEO.cpp
index e3406d3..04f960c 100644
--- a/src/lib/io/BGEO.cpp
+++ b/src/lib/io/BGEO.cpp
@@ -112,7 +112,7 @@ bool getAttributes(int& particleSize, vector<int>& attrOffsets, vector<TAttribut
             attrOffsets.push_back(particleSize);
             int numIndices=0;
             read<BIGEND>(*input,numIndices);
-            for(int ii=0;ii<numIndices;ii++){
+            for(int ii=0;ii<numIndices && *input;ii++){
                 unsigned short indexNameLength;
                 read<BIGEND>(*input,indexNameLength);
                 char* indexName=new char[indexNameLength+1];;
@@ -130,15 +130,17 @@ bool getAttributes(int& particleSize, vector<int>& attrOffsets, vector<TAttribut
         }else if(houdiniType==2){
             if(errorStream) *errorStream <<"Partio: found attr of type 'string', aborting"<<endl;
             delete [] name;
-            simple->release();
-            return 0;
+            return false;
         }else{
             if(errorStream) *errorStream <<"Partio: unknown attribute "<<houdiniType<<" type... aborting"<<endl;
             delete [] name;
-            simple->release();
-            return 0;
+            return false;
         }
         delete[] name;
+        if(!*input){
+            if(errorStream) *errorStream <<"Partio: unexpected end of file in attribute definitions"<<endl;
+            return false;
+        }
     }
 
     return true;
@@ -163,7 +165,7 @@ bool skipPrimitives(int nPoints, int nPrims, int nPrimAttrib, istream* input,std
     vector<int> primAttrOffsets; // offsets in # of 32 bit offsets
     vector<DummyAttribute> primAttrHandles;
     vector<DummyAccessor> primAccessors;
-    getAttributes(particleSize, primAttrOffsets, primAttrHandles, primAccessors, nPrimAttrib, input, 0, true, errorStream);
+    if(!getAttributes(particleSize, primAttrOffsets, primAttrHandles, primAccessors, nPrimAttrib, input, 0, true, errorStream)) return false;
 
     for(int i=0;i<nPrims;i++) {
         int primType;
@@ -242,7 +244,10 @@ ParticlesDataMutable* readBGEO(const char* filename,const bool headersOnly,std::
     attrOffsets.push_back(0); // pull values from byte offset
     attrHandles.push_back(simple->addAttribute("position",VECTOR,3)); // we always have one
     accessors.push_back(ParticleAccessor(attrHandles[0]));
-    getAttributes(particleSize, attrOffsets, attrHandles, accessors, nPointAttrib, input.get(), simple, headersOnly, errorStream);
+    if(!getAttributes(particleSize, attrOffsets, attrHandles, accessors, nPointAttrib, input.get(), simple, headersOnly, errorStream)){
+        simple->release();
+        return 0;
+    }
 
     if(headersOnly) {
         skip(input.get(),nPoints*particleSize*sizeof(int));
@@ -277,7 +282,10 @@ ParticlesDataMutable* readBGEO(const char* filename,const bool headersOnly,std::
     vector<int> fixedAttrOffsets; // offsets in # of 32 bit offsets
     vector<FixedAttribute> fixedAttrHandles;
     vector<DummyAccessor> fixedAccessors;
-    getAttributes(particleSize, fixedAttrOffsets, fixedAttrHandles, fixedAccessors, nAttrib, input.get(), simple, headersOnly, errorStream);
+    if(!getAttributes(particleSize, fixedAttrOffsets, fixedAttrHandles, fixedAccessors, nAttrib, input.get(), simple, headersOnly, errorStream)){
+        simple->release();
+        return 0;
+    }
 
     if (headersOnly) return simple;
 
-- 
2.43.0


From f11d3136eb4de8fc82d8f323f5cf56b57508c665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:01 +0000
Subject: [PATCH 08/79] fix: BGEO skipping is bounded by the file, overflow
 free and thread safe

The skip buffer was shared by all threads, a negative or huge count kept it
reading after the end of the file, and the point data size overflowed int.
---
 src/lib/io/BGEO.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/lib/io/BGEO.cpp b/src/lib/io/BGEO.cpp
index 04f960c..16ff5c0 100644
--- a/src/lib/io/BGEO.cpp
+++ b/src/lib/io/BGEO.cpp
@@ -150,8 +150,8 @@ bool getAttributes(int& particleSize, vector<int>& attrOffsets, vector<TAttribut
 void skip(istream *input, size_t numChars)
 {
     static const size_t bufferSize = 4096;
-    static char buffer[bufferSize];
-    while (numChars>0) {
+    char buffer[bufferSize];
+    while (numChars>0 && *input) {
         int toRead=std::min(numChars,bufferSize);
         input->read(buffer,toRead);
         numChars-=toRead;
@@ -250,7 +250,7 @@ ParticlesDataMutable* readBGEO(const char* filename,const bool headersOnly,std::
     }
 
     if(headersOnly) {
-        skip(input.get(),nPoints*particleSize*sizeof(int));
+        skip(input.get(),(size_t)nPoints*particleSize*sizeof(int));
     } else {
         // Read the points
         int *buffer=new int[particleSize];
-- 
2.43.0


From 889fb0cbee953b10a75aec4b6adfac844e5e6127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:01 +0000
Subject: [PATCH 09/79] fix: BGEO files with a negative point count or
 truncated data are refused

They produced sets with a negative size or with uninitialized values.
---
 src/lib/io/BGEO.cpp | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/lib/io/BGEO.cpp b/src/lib/io/BGEO.cpp
index 16ff5c0..3f4d124 100644
--- a/src/lib/io/BGEO.cpp
+++ b/src/lib/io/BGEO.cpp
@@ -228,6 +228,11 @@ ParticlesDataMutable* readBGEO(const char* filename,const bool headersOnly,std::
         return 0;
     }
 
+    if(nPoints<0){
+        if(errorStream) *errorStream<<"Partio: BGEO has an invalid number of points "<<nPoints<<endl;
+        return 0;
+    }
+
     // Allocate a simple particle with the appropriate number of points
     ParticlesDataMutable* simple=0;
     if(headersOnly) simple=new ParticleHeaders;
@@ -260,7 +265,12 @@ ParticlesDataMutable* readBGEO(const char* filename,const bool headersOnly,std::
         for(size_t i=0;i<accessors.size();i++) iterator.addAccessor(accessors[i]);
 
         for(ParticlesDataMutable::iterator end=simple->end();iterator!=end;++iterator){
-            input->read((char*)buffer,particleSize*sizeof(int));
+            if(!input->read((char*)buffer,particleSize*sizeof(int))){
+                if(errorStream) *errorStream<<"Partio: unexpected end of file in point data of "<<filename<<endl;
+                delete [] buffer;
+                simple->release();
+                return 0;
+            }
             for(unsigned int attrIndex=0;attrIndex<attrHandles.size();attrIndex++){
                 ParticleAttribute& handle=attrHandles[attrIndex];
                 ParticleAccessor& accessor=accessors[attrIndex];
@@ -291,7 +301,12 @@ ParticlesDataMutable* readBGEO(const char* filename,const bool headersOnly,std::
 
     // Read the points
     int *fixedBuffer=new int[particleSize];
-    input->read((char*)fixedBuffer,particleSize*sizeof(int));
+    if(!input->read((char*)fixedBuffer,particleSize*sizeof(int))){
+        if(errorStream) *errorStream<<"Partio: unexpected end of file in detail attributes of "<<filename<<endl;
+        delete [] fixedBuffer;
+        simple->release();
+        return 0;
+    }
     for(unsigned int attrIndex=0;attrIndex<fixedAttrHandles.size();attrIndex++){
         FixedAttribute& handle=fixedAttrHandles[attrIndex];
         // TODO: this violates strict aliasing, we could just go to char* and make
-- 
2.43.0


From e6dd51650888e0c2e247355ed76c557aecb5bb28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:01 +0000
Subject: [PATCH 10/79] fix: BGEO diagnostics leave the format flags of the
 caller's stream alone

---
 src/lib/io/BGEO.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/lib/io/BGEO.cpp b/src/lib/io/BGEO.cpp
index 3f4d124..4cbee6f 100644
--- a/src/lib/io/BGEO.cpp
+++ b/src/lib/io/BGEO.cpp
@@ -179,7 +179,11 @@ bool skipPrimitives(int nPoints, int nPrims, int nPrimAttrib, istream* input,std
                 skip(input,size*sizeof(unsigned short));
             skip(input,particleSize*sizeof(int));
         } else {
-            if(errorStream) *errorStream << "Partio: Unrecognized Primitive Type: 0x" << std::hex << primType << " - Cannot process detail attributes" << std::endl;
+            if(errorStream){
+                std::ios::fmtflags flags=errorStream->flags();
+                *errorStream << "Partio: Unrecognized Primitive Type: 0x" << std::hex << primType << " - Cannot process detail attributes" << std::endl;
+                errorStream->flags(flags);
+            }
             return false;
         }
     }
-- 
2.43.0


From d683a71238cf5c64fbeb3fc19cad181f43e2e0c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:05 +0000
Subject: [PATCH 11/79] fix: GEO strings longer than 4095 characters overflowed
 a stack buffer

---
 src/lib/io/GEO.cpp | 34 +++++++++++++---------------------
 1 file changed, 13 insertions(+), 21 deletions(-)

diff --git a/src/lib/io/GEO.cpp b/src/lib/io/GEO.cpp
index f08a8b6..083e50a 100644
--- a/src/lib/io/GEO.cpp
+++ b/src/lib/io/GEO.cpp
@@ -65,38 +65,30 @@ void writeString(std::ostream& output,const char* s){
 
 string scanString(istream& input)
 {
-    // TODO: this code does not check for buf overrun
-    // TODO: this code doesn't properly check for FEOF condition
-    char buf[4096];
-    char *ptr=buf;
-    char c;
-    while(input.good()){
-        input.get(c);
-        if(!isspace(c)) break;
+    string s;
+    char c=0;
+    while(input.get(c)){
+        if(!isspace((unsigned char)c)) break;
     }
-    if(!input.good()) return "";
+    if(!input.good()) return s;
 
     if(c!='"'){
-        while(input.good()){
-            *ptr++=c;
-            input.get(c);
-            if(isspace(c)) break;
-        }
+        do{
+            s+=c;
+        }while(input.get(c) && !isspace((unsigned char)c));
     }else{
-        while(input.good()){
-            input.get(c);
+        while(input.get(c)){
             if(c=='\\'){
-                input.get(c);
-                *ptr++=c;
+                if(!input.get(c)) break;
+                s+=c;
             }else if(c=='"'){
                 break;
             }else{
-                *ptr++=c;
+                s+=c;
             }
         }
     }
-    *ptr++=0;
-    return string(buf);
+    return s;
 }
 
 ParticlesDataMutable* readGEO(const char* filename,const bool headersOnly,std::ostream* errorStream)
-- 
2.43.0


From 2fb972328fe0e4b5ae6b67fd74c91a4be6dd9b1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:05 +0000
Subject: [PATCH 12/79] fix: GEO files that only have positions lost their
 particles

Such a file has neither a PointAttrib section nor parentheses after the
points; the reader skipped to its end looking for the former.
---
 src/lib/io/GEO.cpp | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/lib/io/GEO.cpp b/src/lib/io/GEO.cpp
index 083e50a..47742e1 100644
--- a/src/lib/io/GEO.cpp
+++ b/src/lib/io/GEO.cpp
@@ -111,10 +111,18 @@ ParticlesDataMutable* readGEO(const char* filename,const bool headersOnly,std::o
         if(word=="NPoints") *input>>NPoints;
         else if(word=="NPointAttrib"){*input>>NPointAttrib;break;}
     }
-    // skip until PointAttrib
-    while(input->good()){
-        *input>>word;
-        if(word=="PointAttrib") break;
+    if(NPointAttrib>0){
+        // skip until PointAttrib
+        while(input->good()){
+            *input>>word;
+            if(word=="PointAttrib") break;
+        }
+    }else{
+        // there is no PointAttrib section, the points follow the header
+        while(input->good()){
+            *input>>word;
+            if(word=="NAttrib"){int NAttrib;*input>>NAttrib;break;}
+        }
     }
     // read attribute descriptions
     int attrInfoRead = 0;
@@ -185,6 +193,8 @@ ParticlesDataMutable* readGEO(const char* filename,const bool headersOnly,std::o
         *input>>fval;
         //cout<<"saw "<<posInternal[0]<<" "<<posInternal[1]<<" "<<posInternal[2]<<endl;
         
+        if(attrs.empty()) continue; // only positions, no parentheses
+        
         // skip open paren
         char paren = 0;
         *input>> paren;
-- 
2.43.0


From 1d3d47939a14f3afd79ffe6b3de4ad9b34a1db60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:05 +0000
Subject: [PATCH 13/79] fix: GEO reader refuses malformed headers and truncated
 points

Negative counts, attributes of unknown type and duplicate names led to
assertions and wild writes, missing data to uninitialized values.
---
 src/lib/io/GEO.cpp | 29 ++++++++++++++++++++++++-----
 1 file changed, 24 insertions(+), 5 deletions(-)

diff --git a/src/lib/io/GEO.cpp b/src/lib/io/GEO.cpp
index 47742e1..ac26399 100644
--- a/src/lib/io/GEO.cpp
+++ b/src/lib/io/GEO.cpp
@@ -99,6 +99,7 @@ ParticlesDataMutable* readGEO(const char* filename,const bool headersOnly,std::o
         return 0;
     }
     int NPoints=0, NPointAttrib=0;
+    bool valid=true;
 
     ParticlesDataMutable* simple=0;
     if(headersOnly) simple=new ParticleHeaders;
@@ -142,7 +143,8 @@ ParticlesDataMutable* readGEO(const char* filename,const bool headersOnly,std::o
             *input>>nIndices;
             ParticleAttribute attribute=simple->addAttribute(attrName.c_str(),INDEXEDSTR,1);
             attrs.push_back(attribute);
-            for(int j=0;j<nIndices;j++){
+            valid=valid && attribute.attributeIndex>=0;
+            for(int j=0;valid && j<nIndices && input->good();j++){
                 string indexName;
                 //*input>>indexName;
                 indexName=scanString(*input);
@@ -157,7 +159,7 @@ ParticlesDataMutable* readGEO(const char* filename,const bool headersOnly,std::o
             attrInfoRead++;
             
         }else{
-            for (int i=0;i<nvals;i++) {
+            for (int i=0;i<nvals && input->good();i++) {
                 float defval;
                 *input>>defval;
             }
@@ -170,12 +172,23 @@ ParticlesDataMutable* readGEO(const char* filename,const bool headersOnly,std::o
                 if(errorStream) *errorStream<<"Partio: unknown attribute "<<attrType<<" type... aborting"<<endl;
                 type=NONE;
             }
+            if(type==NONE || nvals<0 || !*input){ // every default value must be there, so nvals is sane
+                valid=false;
+                break;
+            }
             attrs.push_back(simple->addAttribute(attrName.c_str(),type,nvals));
+            valid=valid && attrs.back().attributeIndex>=0;
             accessors.push_back(ParticleAccessor(attrs.back()));
             attrInfoRead++;
         }
     }
 
+    if(!valid || NPoints<0 || attrInfoRead<NPointAttrib){
+        if(errorStream) *errorStream<<"Partio: invalid header in '"<<filename<<"'"<<endl;
+        simple->release();
+        return 0;
+    }
+
     simple->addParticles(NPoints);
 
     ParticlesDataMutable::iterator iterator=simple->begin();
@@ -187,18 +200,19 @@ ParticlesDataMutable* readGEO(const char* filename,const bool headersOnly,std::o
     
     float fval;
     // TODO: fix
-    for(ParticlesDataMutable::iterator end=simple->end();iterator!=end  && input->good();++iterator){
+    for(ParticlesDataMutable::iterator end=simple->end();iterator!=end;++iterator){
         float* posInternal=positionAccessor.raw<float>(iterator); 
         for(int i=0;i<3;i++) *input>>posInternal[i];
         *input>>fval;
         //cout<<"saw "<<posInternal[0]<<" "<<posInternal[1]<<" "<<posInternal[2]<<endl;
         
+        if(!*input){valid=false;break;}
         if(attrs.empty()) continue; // only positions, no parentheses
         
         // skip open paren
         char paren = 0;
         *input>> paren;
-        if (paren != '(') break;
+        if (paren != '('){valid=false;break;}
         
         // read additional attribute values
         for (unsigned int i=0;i<attrs.size();i++){
@@ -212,7 +226,12 @@ ParticlesDataMutable* readGEO(const char* filename,const bool headersOnly,std::o
         }
         // skip closing parenthes
         *input >> paren;
-        if (paren != ')') break;
+        if (paren != ')'){valid=false;break;}
+    }
+    if(!valid){
+        if(errorStream) *errorStream<<"Partio: truncated or invalid point data in '"<<filename<<"'"<<endl;
+        simple->release();
+        return 0;
     }
     return simple;
 }
-- 
2.43.0


From 0da47d5091d2493584f320138bdd00f550c677f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:05 +0000
Subject: [PATCH 14/79] fix: GEO writer reports a file it cannot open

---
 src/lib/io/GEO.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/lib/io/GEO.cpp b/src/lib/io/GEO.cpp
index ac26399..ed3d5dc 100644
--- a/src/lib/io/GEO.cpp
+++ b/src/lib/io/GEO.cpp
@@ -251,6 +251,10 @@ void writeType(ostream& output,const ParticlesData&,const ParticleAttribute& att
 bool writeGEO(const char* filename,const ParticlesData& p,const bool compressed,std::ostream* errorStream)
 {
     unique_ptr<ostream> output(io::write(filename, compressed));
+    if(!*output){
+        if(errorStream) *errorStream<<"Partio: Unable to open file "<<filename<<endl;
+        return false;
+    }
     *output<<"PGEOMETRY V5"<<endl;
     *output<<"NPoints "<<p.numParticles()<<" NPrims "<<1<<endl;
     *output<<"NPointGroups "<<0<<" NPrimGroups "<<0<<endl;
-- 
2.43.0


From eaf4175abf45ec48fe5051918a0c79626c129023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:30 +0000
Subject: [PATCH 15/79] fix: zero-width attributes were freed twice and failed
 allocations overrun when particles were added

---
 src/lib/core/ParticleSimple.cpp | 29 ++++++++++++++++++++---------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/src/lib/core/ParticleSimple.cpp b/src/lib/core/ParticleSimple.cpp
index 4fa23e6..d0fb3ba 100644
--- a/src/lib/core/ParticleSimple.cpp
+++ b/src/lib/core/ParticleSimple.cpp
@@ -43,12 +43,24 @@ OF THIS SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGES.
 #include <algorithm>
 #include <cassert>
 #include <iostream>
+#include <new>
 
 #include "KdTree.h"
 
 
 using namespace Partio;
 
+namespace
+{
+// Never returns null, not even for zero bytes
+char* allocate(char* old,const size_t bytes)
+{
+    char* memory=(char*)realloc(old,std::max(bytes,size_t(1)));
+    if(!memory) throw std::bad_alloc();
+    return memory;
+}
+}
+
 ParticlesSimple::
 ParticlesSimple()
     :particleCount(0),allocatedCount(0),kdtree(nullptr)
@@ -225,7 +237,7 @@ addAttribute(const char* attribute,ParticleAttributeType type,const int count)
 
     int stride=TypeSize(type)*count;
     attributeStrides.push_back(stride);
-    char* dataPointer=(char*)malloc((size_t)allocatedCount*(size_t)stride);
+    char* dataPointer=allocate(nullptr,(size_t)allocatedCount*(size_t)stride);
     attributeData.push_back(dataPointer);
     attributeOffsets.push_back(dataPointer-(char*)0);
     attributeIndexedStrs.push_back(IndexedStrTable());
@@ -250,7 +262,7 @@ addFixedAttribute(const char* attribute,ParticleAttributeType type,const int cou
     nameToFixedAttribute[attribute]=fixedAttributes.size()-1;
 
     int stride=TypeSize(type)*count;
-    char* dataPointer=(char*)malloc(stride);
+    char* dataPointer=allocate(nullptr,stride);
     fixedAttributeData.push_back(dataPointer);
     fixedAttributeIndexedStrs.push_back(IndexedStrTable());
 
@@ -261,13 +273,11 @@ ParticleIndex ParticlesSimple::
 addParticle()
 {
     if(allocatedCount==particleCount){
-        allocatedCount=std::max(10,std::max(allocatedCount*3/2,particleCount));
+        const int newCount=std::max(10,std::max(allocatedCount*3/2,particleCount));
         for(unsigned int i=0;i<attributes.size();i++) {
-            char *memory = (char*)realloc(attributeData[i],(size_t)attributeStrides[i]*(size_t)allocatedCount);
-            if(memory){
-                attributeData[i]=memory;
-            }
+            attributeData[i]=allocate(attributeData[i],(size_t)attributeStrides[i]*(size_t)newCount);
         }
+        allocatedCount=newCount;
     }
     ParticleIndex index=particleCount;
     particleCount++;
@@ -279,11 +289,12 @@ addParticles(const int countToAdd)
 {
     if(particleCount+countToAdd>allocatedCount){
         // TODO: this should follow 2/3 rule
-        allocatedCount=allocatedCount+countToAdd;
+        const int newCount=allocatedCount+countToAdd;
         for(unsigned int i=0;i<attributes.size();i++){
-            attributeData[i]=(char*)realloc(attributeData[i],(size_t)attributeStrides[i]*(size_t)allocatedCount);
+            attributeData[i]=allocate(attributeData[i],(size_t)attributeStrides[i]*(size_t)newCount);
             attributeOffsets[i]=attributeData[i]-(char*)0;
         }
+        allocatedCount=newCount;
     }
     int offset=particleCount;
     particleCount+=countToAdd;
-- 
2.43.0


From e0b4e0e9404a0485629aeb3d4f23ddbbebb8b623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:30 +0000
Subject: [PATCH 16/79] fix: renaming indexed strings to a string in use no
 longer erases past the end of the table

---
 src/lib/core/ParticleSimple.cpp           | 8 ++++++--
 src/lib/core/ParticleSimpleInterleave.cpp | 8 ++++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/lib/core/ParticleSimple.cpp b/src/lib/core/ParticleSimple.cpp
index d0fb3ba..df4ba00 100644
--- a/src/lib/core/ParticleSimple.cpp
+++ b/src/lib/core/ParticleSimple.cpp
@@ -448,7 +448,9 @@ fixedIndexedStrs(const FixedAttribute& attr) const
 void ParticlesSimple::setIndexedStr(const ParticleAttribute& attribute,int indexedStringToken,const char* str){
     IndexedStrTable& table=attributeIndexedStrs[attribute.attributeIndex];
     if(indexedStringToken >= int(table.strings.size()) || indexedStringToken < 0) return;
-    table.stringToIndex.erase(table.stringToIndex.find(table.strings[indexedStringToken]));
+    std::map<std::string,int>::iterator it=table.stringToIndex.find(table.strings[indexedStringToken]);
+    // a string that several tokens were renamed to may belong to another token
+    if(it!=table.stringToIndex.end() && it->second==indexedStringToken) table.stringToIndex.erase(it);
     table.strings[indexedStringToken] = str;
     table.stringToIndex[str]=indexedStringToken;
 }
@@ -456,7 +458,9 @@ void ParticlesSimple::setIndexedStr(const ParticleAttribute& attribute,int index
 void ParticlesSimple::setFixedIndexedStr(const FixedAttribute& attribute,int indexedStringToken,const char* str){
     IndexedStrTable& table=fixedAttributeIndexedStrs[attribute.attributeIndex];
     if(indexedStringToken >= int(table.strings.size()) || indexedStringToken < 0) return;
-    table.stringToIndex.erase(table.stringToIndex.find(table.strings[indexedStringToken]));
+    std::map<std::string,int>::iterator it=table.stringToIndex.find(table.strings[indexedStringToken]);
+    // a string that several tokens were renamed to may belong to another token
+    if(it!=table.stringToIndex.end() && it->second==indexedStringToken) table.stringToIndex.erase(it);
     table.strings[indexedStringToken] = str;
     table.stringToIndex[str]=indexedStringToken;
 }
diff --git a/src/lib/core/ParticleSimpleInterleave.cpp b/src/lib/core/ParticleSimpleInterleave.cpp
index 573998a..ee6ef85 100644
--- a/src/lib/core/ParticleSimpleInterleave.cpp
+++ b/src/lib/core/ParticleSimpleInterleave.cpp
@@ -440,7 +440,9 @@ fixedIndexedStrs(const FixedAttribute& attr) const
 void ParticlesSimpleInterleave::setIndexedStr(const ParticleAttribute& attribute,int indexedStringToken,const char* str){
     IndexedStrTable& table=attributeIndexedStrs[attribute.attributeIndex];
     if(indexedStringToken >= int(table.strings.size()) || indexedStringToken < 0) return;
-    table.stringToIndex.erase(table.stringToIndex.find(table.strings[indexedStringToken]));
+    std::map<std::string,int>::iterator it=table.stringToIndex.find(table.strings[indexedStringToken]);
+    // a string that several tokens were renamed to may belong to another token
+    if(it!=table.stringToIndex.end() && it->second==indexedStringToken) table.stringToIndex.erase(it);
     table.strings[indexedStringToken] = str;
     table.stringToIndex[str]=indexedStringToken;
 }
@@ -448,7 +450,9 @@ void ParticlesSimpleInterleave::setIndexedStr(const ParticleAttribute& attribute
 void ParticlesSimpleInterleave::setFixedIndexedStr(const FixedAttribute& attribute,int indexedStringToken,const char* str){
     IndexedStrTable& table=fixedAttributeIndexedStrs[attribute.attributeIndex];
     if(indexedStringToken >= int(table.strings.size()) || indexedStringToken < 0) return;
-    table.stringToIndex.erase(table.stringToIndex.find(table.strings[indexedStringToken]));
+    std::map<std::string,int>::iterator it=table.stringToIndex.find(table.strings[indexedStringToken]);
+    // a string that several tokens were renamed to may belong to another token
+    if(it!=table.stringToIndex.end() && it->second==indexedStringToken) table.stringToIndex.erase(it);
     table.strings[indexedStringToken] = str;
     table.stringToIndex[str]=indexedStringToken;
 }
-- 
2.43.0


From 980c2a470e978e97d5b6942a431bbbdf3dc1b1d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:30 +0000
Subject: [PATCH 17/79] fix: reading headers refuses duplicate attribute names
 like reading the whole file

---
 src/lib/core/ParticleHeaders.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/lib/core/ParticleHeaders.cpp b/src/lib/core/ParticleHeaders.cpp
index 08ba1e6..711e008 100644
--- a/src/lib/core/ParticleHeaders.cpp
+++ b/src/lib/core/ParticleHeaders.cpp
@@ -188,6 +188,10 @@ findNPoints(const float[3],int,const float, ParticleIndex *,
 ParticleAttribute ParticleHeaders::
 addAttribute(const char* attribute,ParticleAttributeType type,const int count)
 {
+    if(nameToAttribute.find(attribute) != nameToAttribute.end()){
+        std::cerr<<"Partio: addAttribute failed because attr '"<<attribute<<"'"<<" already exists"<<std::endl;
+        return ParticleAttribute();
+    }
     // TODO: check if attribute already exists and if so what data type
     ParticleAttribute attr;
     attr.name=attribute;
@@ -202,6 +206,10 @@ addAttribute(const char* attribute,ParticleAttributeType type,const int count)
 FixedAttribute ParticleHeaders::
 addFixedAttribute(const char* attribute,ParticleAttributeType type,const int count)
 {
+    if(nameToFixedAttribute.find(attribute) != nameToFixedAttribute.end()){
+        std::cerr<<"Partio: addFixedAttribute failed because attr '"<<attribute<<"'"<<" already exists"<<std::endl;
+        return FixedAttribute();
+    }
     // TODO: check if attribute already exists and if so what data type
     FixedAttribute attr;
     attr.name=attribute;
-- 
2.43.0


From 24dec82916ddde1b180a5f33de32c9511ef5e201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:14 +0000
Subject: [PATCH 18/79] fix: renaming an indexed string to one in use keeps the
 lookup of the other tokens

---
 src/lib/core/ParticleSimple.cpp           | 12 ++----------
 src/lib/core/ParticleSimple.h             | 14 ++++++++++++++
 src/lib/core/ParticleSimpleInterleave.cpp | 12 ++----------
 src/lib/core/ParticleSimpleInterleave.h   | 14 ++++++++++++++
 4 files changed, 32 insertions(+), 20 deletions(-)

diff --git a/src/lib/core/ParticleSimple.cpp b/src/lib/core/ParticleSimple.cpp
index df4ba00..f6b44b6 100644
--- a/src/lib/core/ParticleSimple.cpp
+++ b/src/lib/core/ParticleSimple.cpp
@@ -448,19 +448,11 @@ fixedIndexedStrs(const FixedAttribute& attr) const
 void ParticlesSimple::setIndexedStr(const ParticleAttribute& attribute,int indexedStringToken,const char* str){
     IndexedStrTable& table=attributeIndexedStrs[attribute.attributeIndex];
     if(indexedStringToken >= int(table.strings.size()) || indexedStringToken < 0) return;
-    std::map<std::string,int>::iterator it=table.stringToIndex.find(table.strings[indexedStringToken]);
-    // a string that several tokens were renamed to may belong to another token
-    if(it!=table.stringToIndex.end() && it->second==indexedStringToken) table.stringToIndex.erase(it);
-    table.strings[indexedStringToken] = str;
-    table.stringToIndex[str]=indexedStringToken;
+    table.rename(indexedStringToken,str);
 }
 
 void ParticlesSimple::setFixedIndexedStr(const FixedAttribute& attribute,int indexedStringToken,const char* str){
     IndexedStrTable& table=fixedAttributeIndexedStrs[attribute.attributeIndex];
     if(indexedStringToken >= int(table.strings.size()) || indexedStringToken < 0) return;
-    std::map<std::string,int>::iterator it=table.stringToIndex.find(table.strings[indexedStringToken]);
-    // a string that several tokens were renamed to may belong to another token
-    if(it!=table.stringToIndex.end() && it->second==indexedStringToken) table.stringToIndex.erase(it);
-    table.strings[indexedStringToken] = str;
-    table.stringToIndex[str]=indexedStringToken;
+    table.rename(indexedStringToken,str);
 }
diff --git a/src/lib/core/ParticleSimple.h b/src/lib/core/ParticleSimple.h
index 86247e8..5fc4f75 100644
--- a/src/lib/core/ParticleSimple.h
+++ b/src/lib/core/ParticleSimple.h
@@ -107,6 +107,20 @@ private:
     struct IndexedStrTable{
         std::map<std::string,int> stringToIndex; // TODO: this should be a hash table unordered_map
         std::vector<std::string> strings;
+
+        void rename(const int token,const char* str)
+        {
+            std::map<std::string,int>::iterator it=stringToIndex.find(strings[token]);
+            if(it!=stringToIndex.end() && it->second==token){
+                // another token may have been renamed to the same string
+                const std::string old=it->first;
+                stringToIndex.erase(it);
+                strings[token]=str;
+                for(size_t i=0;i<strings.size();i++)
+                    if(strings[i]==old){stringToIndex[old]=static_cast<int>(i);break;}
+            }else strings[token]=str;
+            stringToIndex.insert(std::make_pair(strings[token],token));
+        }
     };
     std::vector<IndexedStrTable> attributeIndexedStrs;
     std::vector<ParticleAttribute> attributes;
diff --git a/src/lib/core/ParticleSimpleInterleave.cpp b/src/lib/core/ParticleSimpleInterleave.cpp
index ee6ef85..e762623 100644
--- a/src/lib/core/ParticleSimpleInterleave.cpp
+++ b/src/lib/core/ParticleSimpleInterleave.cpp
@@ -440,19 +440,11 @@ fixedIndexedStrs(const FixedAttribute& attr) const
 void ParticlesSimpleInterleave::setIndexedStr(const ParticleAttribute& attribute,int indexedStringToken,const char* str){
     IndexedStrTable& table=attributeIndexedStrs[attribute.attributeIndex];
     if(indexedStringToken >= int(table.strings.size()) || indexedStringToken < 0) return;
-    std::map<std::string,int>::iterator it=table.stringToIndex.find(table.strings[indexedStringToken]);
-    // a string that several tokens were renamed to may belong to another token
-    if(it!=table.stringToIndex.end() && it->second==indexedStringToken) table.stringToIndex.erase(it);
-    table.strings[indexedStringToken] = str;
-    table.stringToIndex[str]=indexedStringToken;
+    table.rename(indexedStringToken,str);
 }
 
 void ParticlesSimpleInterleave::setFixedIndexedStr(const FixedAttribute& attribute,int indexedStringToken,const char* str){
     IndexedStrTable& table=fixedAttributeIndexedStrs[attribute.attributeIndex];
     if(indexedStringToken >= int(table.strings.size()) || indexedStringToken < 0) return;
-    std::map<std::string,int>::iterator it=table.stringToIndex.find(table.strings[indexedStringToken]);
-    // a string that several tokens were renamed to may belong to another token
-    if(it!=table.stringToIndex.end() && it->second==indexedStringToken) table.stringToIndex.erase(it);
-    table.strings[indexedStringToken] = str;
-    table.stringToIndex[str]=indexedStringToken;
+    table.rename(indexedStringToken,str);
 }
diff --git a/src/lib/core/ParticleSimpleInterleave.h b/src/lib/core/ParticleSimpleInterleave.h
index bd40e01..ee95040 100644
--- a/src/lib/core/ParticleSimpleInterleave.h
+++ b/src/lib/core/ParticleSimpleInterleave.h
@@ -113,6 +113,20 @@ private:
     struct IndexedStrTable{
         std::map<std::string,int> stringToIndex; // TODO: this should be a hash table unordered_map
         std::vector<std::string> strings;
+
+        void rename(const int token,const char* str)
+        {
+            std::map<std::string,int>::iterator it=stringToIndex.find(strings[token]);
+            if(it!=stringToIndex.end() && it->second==token){
+                // another token may have been renamed to the same string
+                const std::string old=it->first;
+                stringToIndex.erase(it);
+                strings[token]=str;
+                for(size_t i=0;i<strings.size();i++)
+                    if(strings[i]==old){stringToIndex[old]=static_cast<int>(i);break;}
+            }else strings[token]=str;
+            stringToIndex.insert(std::make_pair(strings[token],token));
+        }
     };
     std::vector<IndexedStrTable> attributeIndexedStrs;
     std::vector<size_t> attributeOffsets; // Inside is data of appropriate type
-- 
2.43.0


From 8109c7e604bd002d4fe1edf6315f017df1467f7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:14 +0000
Subject: [PATCH 19/79] fix: sorting empty sets and nearest neighbour queries
 for no points are well defined

---
 src/lib/core/KdTree.h           | 15 +++++++++++----
 src/lib/core/ParticleSimple.cpp |  2 +-
 2 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/lib/core/KdTree.h b/src/lib/core/KdTree.h
index 7b73b86..3a413b8 100644
--- a/src/lib/core/KdTree.h
+++ b/src/lib/core/KdTree.h
@@ -279,7 +279,7 @@ void KdTree<k>::setPoints(const float* p, int n)
 {
     // copy points
     _points.resize(n);
-    memcpy(&_points[0], p, sizeof(Point)*n);
+    if (n) memcpy(&_points[0], p, sizeof(Point)*n);
 
     // compute bbox
     if (n) {
@@ -351,12 +351,19 @@ template <int k>
 float KdTree<k>::findNPoints(std::vector<uint64_t>& result,
     std::vector<float>& distanceSquared,const float p[k],int nPoints,float maxRadius) const
 {
+    // there are never more points than the tree holds
+    if (nPoints > size()) nPoints = size();
+    if (nPoints < 1) {
+        result.clear();
+        distanceSquared.clear();
+        return maxRadius;
+    }
     result.resize(nPoints);
     distanceSquared.resize (nPoints);
     float finalRadius2 = maxRadius;
-    int size = findNPoints (&result[0], &distanceSquared[0], &finalRadius2, p, nPoints, maxRadius);
-    result.resize(size);
-    distanceSquared.resize(size);
+    int found = findNPoints (&result[0], &distanceSquared[0], &finalRadius2, p, nPoints, maxRadius);
+    result.resize(found);
+    distanceSquared.resize(found);
     return maxRadius;
 }
 
diff --git a/src/lib/core/ParticleSimple.cpp b/src/lib/core/ParticleSimple.cpp
index f6b44b6..f8420e4 100644
--- a/src/lib/core/ParticleSimple.cpp
+++ b/src/lib/core/ParticleSimple.cpp
@@ -151,7 +151,7 @@ sort()
     }
 
     const ParticleIndex baseParticleIndex=0;
-    const float* data=this->data<float>(attr,baseParticleIndex); // contiguous assumption used here
+    const float* data=numParticles() ? this->data<float>(attr,baseParticleIndex) : nullptr; // contiguous assumption used here
     KdTree<3>* kdtree_temp=new KdTree<3>();
     kdtree_temp->setPoints(data,numParticles());
     kdtree_temp->sort();
-- 
2.43.0


From b5ef72d09b152848d428a47625832e16bba4ca89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:14 +0000
Subject: [PATCH 20/79] fix: fixed attributes of interleaved data sets have
 their own storage

---
 src/lib/core/ParticleSimpleInterleave.cpp | 22 +++++++---------------
 src/lib/core/ParticleSimpleInterleave.h   |  1 +
 2 files changed, 8 insertions(+), 15 deletions(-)

diff --git a/src/lib/core/ParticleSimpleInterleave.cpp b/src/lib/core/ParticleSimpleInterleave.cpp
index e762623..ecfd8a3 100644
--- a/src/lib/core/ParticleSimpleInterleave.cpp
+++ b/src/lib/core/ParticleSimpleInterleave.cpp
@@ -50,7 +50,7 @@ using namespace Partio;
 
 ParticlesSimpleInterleave::
 ParticlesSimpleInterleave()
-    :particleCount(0),allocatedCount(0),data(nullptr),fixedData(nullptr),stride(0),kdtree(nullptr)
+    :particleCount(0),allocatedCount(0),data(nullptr),fixedData(nullptr),stride(0),fixedStride(0),kdtree(nullptr)
 {
 }
 
@@ -246,27 +246,19 @@ addFixedAttribute(const char* attribute,ParticleAttributeType type,const int cou
     FixedAttribute attr;
     attr.name=attribute;
     attr.type=type;
-    attr.attributeIndex=attributes.size(); //  all arrays separate so we don't use this here!
+    attr.attributeIndex=fixedAttributes.size(); //  all arrays separate so we don't use this here!
     attr.count=count;
     fixedAttributes.push_back(attr);
     nameToFixedAttribute[attribute]=fixedAttributes.size()-1;
 
     // repackage data for new attribute
-    int oldStride=stride;
-    int newStride=stride+TypeSize(type)*count;
+    int oldStride=fixedStride;
+    int newStride=fixedStride+TypeSize(type)*count;
     char* newData=(char*)malloc((size_t)newStride);
-    if(fixedData){
-        char* ptrNew=newData;
-        char* ptrOld=fixedData;
-        for(int i=0;i<particleCount;i++){
-            memcpy(ptrNew,ptrOld,oldStride);
-            ptrNew+=newStride;
-            ptrOld+=oldStride;
-        }
-    }
+    if(fixedData) memcpy(newData,fixedData,oldStride);
     free(fixedData);
     fixedData=newData;
-    stride=newStride;
+    fixedStride=newStride;
     fixedAttributeOffsets.push_back(oldStride);
     fixedAttributeIndexedStrs.push_back(IndexedStrTable());
 
@@ -346,7 +338,7 @@ dataInternal(const ParticleAttribute& attribute,const ParticleIndex particleInde
 void* ParticlesSimpleInterleave::
 fixedDataInternal(const FixedAttribute& attribute) const
 {
-    return data+allocatedCount*stride+fixedAttributeOffsets[attribute.attributeIndex];
+    return fixedData+fixedAttributeOffsets[attribute.attributeIndex];
 }
 
 void ParticlesSimpleInterleave::
diff --git a/src/lib/core/ParticleSimpleInterleave.h b/src/lib/core/ParticleSimpleInterleave.h
index ee95040..9fc5c0c 100644
--- a/src/lib/core/ParticleSimpleInterleave.h
+++ b/src/lib/core/ParticleSimpleInterleave.h
@@ -110,6 +110,7 @@ private:
     char* data;
     char* fixedData;
     int stride;
+    int fixedStride;
     struct IndexedStrTable{
         std::map<std::string,int> stringToIndex; // TODO: this should be a hash table unordered_map
         std::vector<std::string> strings;
-- 
2.43.0


From 6cb3f7b122d6d778952ed546851e1700a2c42204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:14 +0000
Subject: [PATCH 21/79] fix: gathering attributes of interleaved data sets
 fills the values

---
 src/lib/core/ParticleSimpleInterleave.cpp | 27 +++++++++++------------
 1 file changed, 13 insertions(+), 14 deletions(-)

diff --git a/src/lib/core/ParticleSimpleInterleave.cpp b/src/lib/core/ParticleSimpleInterleave.cpp
index ecfd8a3..794466a 100644
--- a/src/lib/core/ParticleSimpleInterleave.cpp
+++ b/src/lib/core/ParticleSimpleInterleave.cpp
@@ -342,33 +342,32 @@ fixedDataInternal(const FixedAttribute& attribute) const
 }
 
 void ParticlesSimpleInterleave::
-dataInternalMultiple(const ParticleAttribute&,const int,const ParticleIndex*,const bool,char*) const
+dataInternalMultiple(const ParticleAttribute& attribute,const int indexCount,
+    const ParticleIndex* particleIndices,const bool,char* values) const
 {
-#if 0
     assert(attribute.attributeIndex>=0 && attribute.attributeIndex<(int)attributes.size());
 
-    char* base=attributeData[attribute.attributeIndex];
-    int bytes=attributeStrides[attribute.attributeIndex];
+    const char* base=data+attributeOffsets[attribute.attributeIndex];
+    size_t bytes=TypeSize(attribute.type)*attribute.count;
     for(int i=0;i<indexCount;i++)
-        memcpy(values+bytes*i,base+particleIndices[i]*bytes,bytes);
-#endif
+        memcpy(values+bytes*i,base+particleIndices[i]*stride,bytes);
 }
 
 void ParticlesSimpleInterleave::
-dataAsFloat(const ParticleAttribute&,const int,
-    const ParticleIndex*,const bool,float*) const
+dataAsFloat(const ParticleAttribute& attribute,const int indexCount,
+    const ParticleIndex* particleIndices,const bool sorted,float* values) const
 {
-#if 0
     assert(attribute.attributeIndex>=0 && attribute.attributeIndex<(int)attributes.size());
 
     if(attribute.type==FLOAT || attribute.type==VECTOR) dataInternalMultiple(attribute,indexCount,particleIndices,sorted,(char*)values);
-    else if(attribute.type==INT){
-        char* attrrawbase=attributeData[attribute.attributeIndex];
-        int* attrbase=(int*)attrrawbase;
+    else if(attribute.type==INT || attribute.type==INDEXEDSTR){
+        const char* base=data+attributeOffsets[attribute.attributeIndex];
         int count=attribute.count;
-        for(int i=0;i<indexCount;i++) for(int k=0;k<count;k++) values[i*count+k]=(int)attrbase[particleIndices[i]*count+k];
+        for(int i=0;i<indexCount;i++){
+            const int* ints=(const int*)(base+particleIndices[i]*stride);
+            for(int k=0;k<count;k++) values[i*count+k]=static_cast<float>(ints[k]);
+        }
     }
-#endif
 }
 
 
-- 
2.43.0


From 3c173e1800e3396f5d32785e2bfaf9fafb80cf07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:52 +0000
Subject: [PATCH 22/79] fix: interleaved data sets can be sorted and answer
 spatial queries

---
 src/lib/core/ParticleSimpleInterleave.cpp | 33 ++++++++++++-----------
 1 file changed, 17 insertions(+), 16 deletions(-)

diff --git a/src/lib/core/ParticleSimpleInterleave.cpp b/src/lib/core/ParticleSimpleInterleave.cpp
index 794466a..47fea21 100644
--- a/src/lib/core/ParticleSimpleInterleave.cpp
+++ b/src/lib/core/ParticleSimpleInterleave.cpp
@@ -128,7 +128,6 @@ fixedAttributeInfo(const char* attributeName,FixedAttribute& attribute) const
 void ParticlesSimpleInterleave::
 sort()
 {
-#if 0
     ParticleAttribute attr;
     bool foundPosition=attributeInfo("position",attr);
     if(!foundPosition){
@@ -139,9 +138,11 @@ sort()
         return;
     }
 
-    const float* data=this->data<float>(attr,0); // contiguous assumption used here
+    // the tree needs contiguous positions
+    std::vector<float> positions((size_t)particleCount*3);
+    for(int i=0;i<particleCount;i++) memcpy(&positions[(size_t)i*3],dataInternal(attr,i),3*sizeof(float));
     KdTree<3>* kdtree_temp=new KdTree<3>();
-    kdtree_temp->setPoints(data,numParticles());
+    kdtree_temp->setPoints(positions.data(),numParticles());
     kdtree_temp->sort();
 
     kdtree_mutex.lock();
@@ -149,13 +150,11 @@ sort()
     if(kdtree) delete kdtree;
     kdtree=kdtree_temp;
     kdtree_mutex.unlock();
-#endif
 }
 
 void ParticlesSimpleInterleave::
-findPoints(const float[3],const float[3],std::vector<ParticleIndex>&) const
+findPoints(const float bboxMin[3],const float bboxMax[3],std::vector<ParticleIndex>& points) const
 {
-#if 0
     if(!kdtree){
         std::cerr<<"Partio: findPoints without first calling sort()"<<std::endl;
         return;
@@ -167,14 +166,12 @@ findPoints(const float[3],const float[3],std::vector<ParticleIndex>&) const
     kdtree->findPoints(points,box);
     // remap points found in findPoints to original index spac
     for(unsigned int i=startIndex;i<points.size();i++) points[i]=kdtree->id(points[i]);
-#endif
 }
 
 float ParticlesSimpleInterleave::
-findNPoints(const float[3],const int,const float,std::vector<ParticleIndex>&,
-    std::vector<float>&) const
+findNPoints(const float center[3],const int nPoints,const float maxRadius,std::vector<ParticleIndex>& points,
+    std::vector<float>& pointDistancesSquared) const
 {
-#if 0
     if(!kdtree){
         std::cerr<<"Partio: findNPoints without first calling sort()"<<std::endl;
         return 0;
@@ -184,16 +181,20 @@ findNPoints(const float[3],const int,const float,std::vector<ParticleIndex>&,
     // remap all points since findNPoints clears array
     for(unsigned int i=0;i<points.size();i++) points[i]=kdtree->id(points[i]);
     return maxDistance;
-#endif
-    return 0;
 }
 
 int ParticlesSimpleInterleave::
-findNPoints(const float[3], int, const float, ParticleIndex *,
-    float *, float *) const
+findNPoints(const float center[3],int nPoints,const float maxRadius, ParticleIndex *points,
+    float *pointDistancesSquared, float *finalRadius2) const
 {
-    // TODO: I guess they don't support this lookup here
-    return 0;
+    if(!kdtree){
+        std::cerr<<"Partio: findNPoints without first calling sort()"<<std::endl;
+        return 0;
+    }
+
+    int count=kdtree->findNPoints(points,pointDistancesSquared,finalRadius2,center,nPoints,maxRadius);
+    for(int i=0;i<count;i++) points[i]=kdtree->id(points[i]);
+    return count;
 }
 
 
-- 
2.43.0


From 761859fb161c65aeffacd269b9b0698f3d7cb4ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:52 +0000
Subject: [PATCH 23/79] fix: clone with a rename map that produces a name twice
 no longer writes through an invalid attribute

---
 src/lib/core/Particle.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lib/core/Particle.cpp b/src/lib/core/Particle.cpp
index b3c81ff..9e9e31a 100644
--- a/src/lib/core/Particle.cpp
+++ b/src/lib/core/Particle.cpp
@@ -115,6 +115,7 @@ clone(const ParticlesData& other, bool particles, const std::map<std::string, st
 
         dstFixedAttr = p->addFixedAttribute(
             getMappedName(srcFixedAttr.name, attrNameMap).c_str(), srcFixedAttr.type, srcFixedAttr.count);
+        if (dstFixedAttr.attributeIndex < 0) continue; // renamed to a name in use
         assert(srcFixedAttr.type == dstFixedAttr.type);
         assert(srcFixedAttr.count == dstFixedAttr.count);
         // Register indexed strings
@@ -145,6 +146,7 @@ clone(const ParticlesData& other, bool particles, const std::map<std::string, st
     for (int i = 0; i < numAttributes; ++i) {
         other.attributeInfo(i, srcAttr);
         dstAttr = p->addAttribute(getMappedName(srcAttr.name, attrNameMap).c_str(), srcAttr.type, srcAttr.count);
+        if (dstAttr.attributeIndex < 0) continue; // renamed to a name in use
         // Register indexed strings
         if (srcAttr.type == Partio::INDEXEDSTR) {
             const std::vector<std::string>& values = other.indexedStrs(srcAttr);
-- 
2.43.0


From a21f3ae4b625fbbb3a5203f92a9989e069e0e87c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:52 +0000
Subject: [PATCH 24/79] fix: merge initialises attributes of any width missing
 from the base

---
 src/lib/core/Particle.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/lib/core/Particle.cpp b/src/lib/core/Particle.cpp
index 9e9e31a..c53a467 100644
--- a/src/lib/core/Particle.cpp
+++ b/src/lib/core/Particle.cpp
@@ -507,18 +507,18 @@ void merge(ParticlesDataMutable& base, const ParticlesData& delta, const std::st
     }
 
     // Identify the attributes to be added (in delta, not present in base)
-    double empty[16]{0};
     for (int i=0; i<delta.numAttributes(); ++i) {
         ParticleAttribute baseAttr, deltaAttr;
         delta.attributeInfo(i, deltaAttr);
         if (!base.attributeInfo(deltaAttr.name.c_str(), baseAttr)) {
             baseAttr = base.addAttribute(deltaAttr.name.c_str(), deltaAttr.type, deltaAttr.count);
-            attrs.emplace_back(AttributePair<ParticleAttribute>({std::move(baseAttr), std::move(deltaAttr)}));
 
             // Set the attribute to a default value in the base particle set
+            const std::vector<char> empty(TypeSize(baseAttr.type) * baseAttr.count, 0);
             for (int p=0; p<base.numParticles(); ++p) {
-                base.set(baseAttr, p, empty);
+                base.set(baseAttr, p, static_cast<const void*>(empty.data()));
             }
+            attrs.emplace_back(AttributePair<ParticleAttribute>({std::move(baseAttr), std::move(deltaAttr)}));
         }
     }
 
-- 
2.43.0


From 5ead345726ef738c4f62e42e5915f853661d1d43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:52 +0000
Subject: [PATCH 25/79] fix: merge keeps the strings of indexed string
 attributes the base lacks and of fixed attributes

---
 src/lib/core/Particle.cpp | 29 +++++++++++++++++++++++++----
 1 file changed, 25 insertions(+), 4 deletions(-)

diff --git a/src/lib/core/Particle.cpp b/src/lib/core/Particle.cpp
index c53a467..de3a15c 100644
--- a/src/lib/core/Particle.cpp
+++ b/src/lib/core/Particle.cpp
@@ -462,6 +462,26 @@ struct IntPairHash {
     }
 };
 
+// Copies the value of a fixed attribute. Indexed strings are registered and re-indexed in the base.
+static void mergeFixed(ParticlesDataMutable& base, const FixedAttribute& baseAttr,
+                       const ParticlesData& delta, const FixedAttribute& deltaAttr)
+{
+    if (baseAttr.type != INDEXEDSTR || deltaAttr.type != INDEXEDSTR) {
+        base.setFixed(baseAttr, delta.fixedData<void>(deltaAttr));
+        return;
+    }
+    std::vector<int> baseIndices;
+    for (const std::string& str : delta.fixedIndexedStrs(deltaAttr)) {
+        baseIndices.push_back(base.registerFixedIndexedStr(baseAttr, str.c_str()));
+    }
+    const int* src = delta.fixedData<int>(deltaAttr);
+    int* dst = base.fixedDataWrite<int>(baseAttr);
+    for (int i=0; i<std::min(baseAttr.count, deltaAttr.count); ++i) {
+        bool valid = src[i] >= 0 && src[i] < static_cast<int>(baseIndices.size());
+        dst[i] = valid ? baseIndices[src[i]] : src[i];
+    }
+}
+
 // merge two particle sets.  if no identifiers are specified, the particle sets will be aggregated together.
 // if one or more identifiers are specified, the particle will be overwritten if the identifier(s) match.
 // if the identifier only exists in one particle set, the particle sets will be aggregated together.
@@ -512,6 +532,9 @@ void merge(ParticlesDataMutable& base, const ParticlesData& delta, const std::st
         delta.attributeInfo(i, deltaAttr);
         if (!base.attributeInfo(deltaAttr.name.c_str(), baseAttr)) {
             baseAttr = base.addAttribute(deltaAttr.name.c_str(), deltaAttr.type, deltaAttr.count);
+            if (baseAttr.type == INDEXEDSTR) {
+                indexStrAttrs.push_back(attrs.size());
+            }
 
             // Set the attribute to a default value in the base particle set
             const std::vector<char> empty(TypeSize(baseAttr.type) * baseAttr.count, 0);
@@ -527,8 +550,7 @@ void merge(ParticlesDataMutable& base, const ParticlesData& delta, const std::st
         FixedAttribute baseAttr, deltaAttr;
         base.fixedAttributeInfo(i, baseAttr);
         if (delta.fixedAttributeInfo(baseAttr.name.c_str(), deltaAttr)) {
-            const void *src = delta.fixedData<void>(deltaAttr);
-            base.setFixed(baseAttr, src);
+            mergeFixed(base, baseAttr, delta, deltaAttr);
         }
     }
 
@@ -538,8 +560,7 @@ void merge(ParticlesDataMutable& base, const ParticlesData& delta, const std::st
         delta.fixedAttributeInfo(i, deltaAttr);
         if (!base.fixedAttributeInfo(deltaAttr.name.c_str(), baseAttr)) {
             baseAttr = base.addFixedAttribute(deltaAttr.name.c_str(), deltaAttr.type, deltaAttr.count);
-            const void *src = delta.fixedData<void>(deltaAttr);
-            base.setFixed(baseAttr, src);
+            mergeFixed(base, baseAttr, delta, deltaAttr);
         }
     }
 
-- 
2.43.0


From 7ed5b41b330b1d1c25a8dc3117d6d61b34772475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:05 +0000
Subject: [PATCH 26/79] fix: hashing negative particle ids no longer converts a
 negative double to unsigned

---
 src/lib/core/Particle.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/core/Particle.cpp b/src/lib/core/Particle.cpp
index de3a15c..063d9a9 100644
--- a/src/lib/core/Particle.cpp
+++ b/src/lib/core/Particle.cpp
@@ -248,7 +248,7 @@ double hash(int n, double* args)
         // make irrational to generate fraction and combine xor into 32 bits
         int exp=0;
         double frac = std::frexp(args[i] * double(M_E*M_PI), &exp);
-        uint32_t s = (uint32_t) (frac * UINT32_MAX) ^ (uint32_t) exp;
+        uint32_t s = (uint32_t) (int64_t) (frac * UINT32_MAX) ^ (uint32_t) exp;
 
         // blend with seed (constants from Numerical Recipes, attrib. from Knuth)
         static const uint32_t M = 1664525, C = 1013904223;
-- 
2.43.0


From f6fe848541c85694f79a6536eb781d9d54c138d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:05 +0000
Subject: [PATCH 27/79] fix: clustering a set that already has a clusterId no
 longer writes through an invalid attribute

---
 src/lib/core/Particle.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lib/core/Particle.cpp b/src/lib/core/Particle.cpp
index 063d9a9..2d91124 100644
--- a/src/lib/core/Particle.cpp
+++ b/src/lib/core/Particle.cpp
@@ -351,8 +351,9 @@ computeClustering(ParticlesDataMutable* particles, const int numNeighbors,const
         ParticleAttribute attr;
         if (particles->attributeInfo(i,attr)) {
             if (attr.type == Partio::NONE) continue;
+            if (attr.name == "clusterId") continue; // replaced by that of the new clusters
             attributes.push_back(attr);
-            clusterAttributes.push_back(cluster->addAttribute(attributes[i].name.c_str(),attributes[i].type,attributes[i].count));
+            clusterAttributes.push_back(cluster->addAttribute(attr.name.c_str(),attr.type,attr.count));
             if (attr.type == Partio::INDEXEDSTR) {
                 const std::vector<std::string>& strings = particles->indexedStrs(attr);
                 for (size_t j=0; j<strings.size(); j++) {
-- 
2.43.0


From e4c314fd217f174135c3ebc1eaf7b6e4fd4fb6a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:05 +0000
Subject: [PATCH 28/79] fix: readCached sorts sets that were first cached
 unsorted and reports errors on the caller's stream

---
 src/lib/core/ParticleCaching.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/lib/core/ParticleCaching.cpp b/src/lib/core/ParticleCaching.cpp
index 0d3e69e..b588e9b 100644
--- a/src/lib/core/ParticleCaching.cpp
+++ b/src/lib/core/ParticleCaching.cpp
@@ -47,6 +47,8 @@ namespace
     
 // cached read write
 std::map<ParticlesData*,int> cachedParticlesCount;
+// true for sorted sets
+std::map<ParticlesData*,bool> cachedParticlesSorted;
 std::map<std::string,ParticlesData*> cachedParticles;
 
 ParticlesData* readCached(const char* filename,const bool sort,const bool verbose,std::ostream& error)
@@ -58,13 +60,18 @@ ParticlesData* readCached(const char* filename,const bool sort,const bool verbos
     if(i!=cachedParticles.end()){
         p=i->second;
         cachedParticlesCount[p]++;
+        if(sort && !cachedParticlesSorted[p]){
+            static_cast<ParticlesDataMutable*>(p)->sort(); // only mutable sets are cached
+            cachedParticlesSorted[p]=true;
+        }
     }else{
-        ParticlesDataMutable* p_rw=read(filename,verbose);
+        ParticlesDataMutable* p_rw=read(filename,verbose,error);
         if(p_rw){
             if(sort) p_rw->sort();
             p=p_rw;
             cachedParticles[filename]=p;
             cachedParticlesCount[p]=1;
+            cachedParticlesSorted[p]=sort;
         }
     }
     mutex.unlock();
@@ -85,6 +92,7 @@ void freeCached(ParticlesData* particles)
         if(i->second==0){ // ref count is now zero, remove from structure
             delete particles;
             cachedParticlesCount.erase(i);
+            cachedParticlesSorted.erase(particles);
             for(std::map<std::string,ParticlesData*>::iterator i2=cachedParticles.begin();
                 i2!=cachedParticles.end();++i2){
                 if(i2->second==particles){
-- 
2.43.0


From 7b0c0dc8af53d8ddc45771796a699751b16e866a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:15 +0000
Subject: [PATCH 29/79] fix: the tables of readers and writers are initialised
 under the lock

---
 src/lib/io/ParticleIO.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/lib/io/ParticleIO.cpp b/src/lib/io/ParticleIO.cpp
index ba4698f..de4bc42 100644
--- a/src/lib/io/ParticleIO.cpp
+++ b/src/lib/io/ParticleIO.cpp
@@ -52,8 +52,8 @@ readers()
 {
     static map<string,READER_FUNCTION> data;
     static bool initialized=false;
+    initializationMutex.lock();
     if(!initialized){
-	initializationMutex.lock();
         data["bgeo"]=readBGEO;
         data["bhclassic"]=readBGEO;
         data["geo"]=readGEO;
@@ -72,8 +72,8 @@ readers()
         data["itbl"]=readBGEO;
         data["atbl"]=readBGEO;
 	initialized=true;
-	initializationMutex.unlock();
     }
+    initializationMutex.unlock();
     return data;
 }
 
@@ -82,8 +82,8 @@ writers()
 {
     static map<string,WRITER_FUNCTION> data;
     static bool initialized=false;
+    initializationMutex.lock();
     if(!initialized){
-	initializationMutex.lock();
         data["bgeo"]=writeBGEO;
         data["bhclassic"]=writeBGEO;
         data["geo"]=writeGEO;
@@ -101,8 +101,8 @@ writers()
         data["itbl"]=writeBGEO;
         data["atbl"]=writeBGEO;
 	initialized=true;
-	initializationMutex.unlock();
     }
+    initializationMutex.unlock();
     return data;
 }
 
-- 
2.43.0


From 5177025f6400736ee7cb4443f9d7465530d75abd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:38 +0000
Subject: [PATCH 30/79] fix: PDB reader refuses truncated files and bad counts
 and skips data it cannot store

---
 src/lib/io/PDB.cpp | 48 ++++++++++++++++++++++++----------------------
 src/lib/io/io.h    | 12 ++++++++++++
 2 files changed, 37 insertions(+), 23 deletions(-)

diff --git a/src/lib/io/PDB.cpp b/src/lib/io/PDB.cpp
index a296535..3eea0e1 100644
--- a/src/lib/io/PDB.cpp
+++ b/src/lib/io/PDB.cpp
@@ -36,6 +36,7 @@ This code is partially based on the Gifts/readpdb directory of Autodesk Maya
 */
 
 #include "../core/ParticleHeaders.h"
+#include <climits>
 namespace PDB{
 #include "pdb.h"
 }
@@ -97,12 +98,17 @@ template<int bits> ParticlesDataMutable* readPDBHelper(const char* filename,cons
     // Read header and add as many particles as found
     typename PDB_POLICY<bits>::HEADER header;
 
-    input->read((char*)&header,sizeof(typename PDB_POLICY<bits>::HEADER));
-    if(header.magic != PDB_MAGIC){
+    if(!input->read((char*)&header,sizeof(typename PDB_POLICY<bits>::HEADER)) || header.magic != PDB_MAGIC){
         if(errorStream) *errorStream<<"Partio: failed to get PDB magic"<<endl;
+        simple->release();
         return 0;
     }
 
+    if(header.data_size > (unsigned int)INT_MAX){
+        if(errorStream) *errorStream<<"Partio: invalid number of particles in PDB file "<<filename<<endl;
+        simple->release();
+        return 0;
+    }
     simple->addParticles(header.data_size);
     
     for(unsigned int i=0;i<header.num_data;i++){
@@ -112,15 +118,13 @@ template<int bits> ParticlesDataMutable* readPDBHelper(const char* filename,cons
         input->read((char*)&channelHeader,sizeof(channelHeader));
         bool error;
         string name=GetString(*input,error);
-        if(error){
+        typename PDB_POLICY<bits>::CHANNEL_DATA channelData;
+        if(error || !input->read((char*)&channelData,sizeof(channelData))){
+            if(errorStream) *errorStream<<"Partio: unexpected end of PDB file "<<filename<<endl;
             simple->release();
             return 0;
         }
 
-        typename PDB_POLICY<bits>::CHANNEL_DATA channelData;
-        input->read((char*)&channelData,sizeof(channelData));
-
-        
         ParticleAttributeType type;
         switch(channelHeader.type){
             case PDB_VECTOR: type=VECTOR;break;
@@ -128,37 +132,35 @@ template<int bits> ParticlesDataMutable* readPDBHelper(const char* filename,cons
             case PDB_LONG: type=INT;break;
             default: type=NONE;break;
         }
-        int size=header.data_size*channelData.datasize;
+        const unsigned long long size=(unsigned long long)header.data_size*channelData.datasize;
+        // the data of a particle must be a whole number of components
+        if(channelData.datasize > (unsigned int)INT_MAX || channelData.datasize % sizeof(float)) type=NONE;
 
         // Read data or skip if we haven't found appropriate type handle
+        bool complete=true;
         if(type==NONE){
-            char buf[1024];
-            int toSkip=size;
-            while(toSkip>0){
-                input->read(buf,min(toSkip,1024));
-                toSkip-=1024;
-            }
+            complete=io::skip(*input,size);
             if(errorStream) *errorStream<<"Partio: Attribute '"<<name<<"' cannot map type"<<endl;
         }else{
             int count=channelData.datasize/TypeSize(type);
             ParticleAttribute attrHandle=simple->addAttribute(name.c_str(),type,count);
-            if(headersOnly){
-                char buf[1024];
-                int toSkip=size;
-                while(toSkip>0){
-                    input->read(buf,min(toSkip,1024));
-                    toSkip-=1024;
-                }
+            if(headersOnly || attrHandle.attributeIndex<0){ // not wanted or the name was already used
+                complete=io::skip(*input,size);
             }else{
                 Partio::ParticlesDataMutable::iterator it=simple->begin();
                 Partio::ParticleAccessor accessor(attrHandle);
                 it.addAccessor(accessor);
 
-                for(Partio::ParticlesDataMutable::iterator end=simple->end();it!=end;++it){
-                    input->read(accessor.raw<char>(it),sizeof(float)*attrHandle.count);
+                for(Partio::ParticlesDataMutable::iterator end=simple->end();complete && it!=end;++it){
+                    complete=(bool)input->read(accessor.raw<char>(it),sizeof(float)*attrHandle.count);
                 }
             }
         }
+        if(!complete){
+            if(errorStream) *errorStream<<"Partio: unexpected end of PDB file "<<filename<<endl;
+            simple->release();
+            return 0;
+        }
     }
     return simple;
 }
diff --git a/src/lib/io/io.h b/src/lib/io/io.h
index e2d1874..7bd9ae0 100644
--- a/src/lib/io/io.h
+++ b/src/lib/io/io.h
@@ -25,6 +25,18 @@ inline std::unique_ptr<std::istream> unzip(const std::string& filename)
     return input;
 }
 
+//! Skips bytes of seekable and compressed streams alike, false if there are less
+inline bool skip(std::istream& input, unsigned long long bytes)
+{
+    while (bytes > 0) {
+        const std::streamsize chunk = bytes < (1u << 30)
+            ? static_cast<std::streamsize>(bytes) : (1u << 30);
+        if (!input.ignore(chunk) || input.gcount() != chunk) return false;
+        bytes -= chunk;
+    }
+    return true;
+}
+
 inline std::unique_ptr<std::istream> read(const std::string& filename)
 {
     std::unique_ptr<std::istream> input(
-- 
2.43.0


From 99855eeb9fc0e750701c02b91e86d3b1e505f21b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:38 +0000
Subject: [PATCH 31/79] fix: PDB reader tells 32-bit from 64-bit files by their
 whole first channel

---
 src/lib/io/PDB.cpp | 52 ++++++++++++++++++++++++++++------------------
 1 file changed, 32 insertions(+), 20 deletions(-)

diff --git a/src/lib/io/PDB.cpp b/src/lib/io/PDB.cpp
index 3eea0e1..6168e1b 100644
--- a/src/lib/io/PDB.cpp
+++ b/src/lib/io/PDB.cpp
@@ -252,30 +252,42 @@ bool writePDB32(const char* filename,const ParticlesData& p,const bool compresse
 bool writePDB64(const char* filename,const ParticlesData& p,const bool compressed,std::ostream* errorStream)
 {return writePDBHelper<64>(filename,p,compressed,errorStream);}
 
-ParticlesDataMutable* readPDB(const char* filename,const bool headersOnly,std::ostream* errorStream)
+// Tells whether the file makes sense with the given structure sizes, looking either
+// at the first channel only or at all of them up to the end of the file.
+template<int bits> bool plausiblePDB(const char* filename,const bool wholeFile)
 {
     unique_ptr<istream> input(io::unzip(filename));
-    if(!*input){
-        if(errorStream) *errorStream <<"Partio: Unable to open file "<<filename<<endl;
-        return 0;
-    }
-    // Read header and add as many particles as found
-    PDB_POLICY<64>::HEADER header;
-    input->read((char*)&header,sizeof(header));
-    if(header.magic != PDB_MAGIC){
-        if(errorStream) *errorStream <<"Partio: failed to get PDB magic"<<endl;
-        return 0;
+    typename PDB_POLICY<bits>::HEADER header;
+    if(!input->read((char*)&header,sizeof(header)) || header.magic != PDB_MAGIC) return false;
+    for(unsigned int i=0;i<header.num_data;i++){
+        typename PDB_POLICY<bits>::CHANNEL_IO channelIOHeader;
+        typename PDB_POLICY<bits>::CHANNEL channelHeader;
+        typename PDB_POLICY<bits>::CHANNEL_DATA channelData;
+        bool error;
+        if(!input->read((char*)&channelIOHeader,sizeof(channelIOHeader))) return false;
+        if(channelIOHeader.type > 5 || channelIOHeader.type < 0 || channelIOHeader.swap > 1) return false;
+        if(!input->read((char*)&channelHeader,sizeof(channelHeader))) return false;
+        if(channelHeader.type < PDB_VECTOR || channelHeader.type > PDB_POINTERT) return false;
+        GetString(*input,error);
+        if(error || !input->read((char*)&channelData,sizeof(channelData))) return false;
+        if(channelData.type < PDB_VECTOR || channelData.type > PDB_POINTERT) return false;
+        if(!wholeFile) return true;
+        if(!io::skip(*input,(unsigned long long)header.data_size*channelData.datasize)) return false;
     }
-    // Now read a channel io ... and see if the the swap is zero or one and encoding is zero. If so then we probably god a good thing
-    // if not, then we assume 64 bit.
-    PDB_POLICY<64>::CHANNEL_IO channelIOHeader;
-    input->read((char*)&channelIOHeader,sizeof(channelIOHeader));
-    //cout<<"we got channel io as "<<int(channelIOHeader.type)<<" swap is "<<channelIOHeader.swap<<endl;
-    if(channelIOHeader.type > 5  || channelIOHeader.type < 0 || (channelIOHeader.swap != 1 && channelIOHeader.swap != 0)){
-        return readPDBHelper<32>(filename,headersOnly,errorStream);
-    }else{
-        return readPDBHelper<64>(filename,headersOnly,errorStream);
+    return input->peek()==char_traits<char>::eof();
+}
+
+ParticlesDataMutable* readPDB(const char* filename,const bool headersOnly,std::ostream* errorStream)
+{
+    // The structures were dumped by 32-bit or 64-bit programs. The first channel usually tells
+    // which, else the one that fits the whole file is right.
+    bool fits32=plausiblePDB<32>(filename,false),fits64=plausiblePDB<64>(filename,false);
+    if(fits32 && fits64){
+        fits64=plausiblePDB<64>(filename,true);
+        fits32=plausiblePDB<32>(filename,true);
     }
+    if(fits64 && !fits32) return readPDBHelper<64>(filename,headersOnly,errorStream);
+    return readPDBHelper<32>(filename,headersOnly,errorStream);
 }
 
 bool writePDB(const char* filename,const ParticlesData& p,const bool compressed,std::ostream* errorStream)
-- 
2.43.0


From 7272ae4e337a69c44cd89520cafca2fc9784a8a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:38 +0000
Subject: [PATCH 32/79] fix: PDA reader refuses malformed headers and truncated
 data, writer reports files it cannot open

---
 src/lib/io/PDA.cpp | 48 ++++++++++++++++++++++++++++++----------------
 1 file changed, 32 insertions(+), 16 deletions(-)

diff --git a/src/lib/io/PDA.cpp b/src/lib/io/PDA.cpp
index 33edab8..5b41148 100644
--- a/src/lib/io/PDA.cpp
+++ b/src/lib/io/PDA.cpp
@@ -63,7 +63,8 @@ ParticlesDataMutable* readPDA(const char* filename,const bool headersOnly,std::o
     }
 
     vector<string> attrNames;
-    vector<ParticleAttribute> attrs;
+    vector<ParticleAttribute> attrs; // negative index if the name was already used
+    vector<pair<ParticleAttributeType,int> > columns;
 
     while(input->good()){
         *input>>word;
@@ -79,22 +80,27 @@ ParticlesDataMutable* readPDA(const char* filename,const bool headersOnly,std::o
         if(index>=attrNames.size()) continue;
 
         if(word=="V"){
-            attrs.push_back(simple->addAttribute(attrNames[index].c_str(),Partio::VECTOR,3));
+            columns.push_back(make_pair(Partio::VECTOR,3));
         }else if(word=="R"){
-            attrs.push_back(simple->addAttribute(attrNames[index].c_str(),Partio::FLOAT,1));
+            columns.push_back(make_pair(Partio::FLOAT,1));
         }else if(word=="I"){
-            attrs.push_back(simple->addAttribute(attrNames[index].c_str(),Partio::INT,1));
+            columns.push_back(make_pair(Partio::INT,1));
+        }else{
+            if(errorStream) *errorStream<<"Partio: unknown type '"<<word<<"' in PDA file "<<filename<<endl;
+            simple->release();
+            return 0;
         }
+        attrs.push_back(simple->addAttribute(attrNames[index].c_str(),columns.back().first,columns.back().second));
 
         index++;
     }
 
-    unsigned int num=0;
-    if(input->good()){
-        *input>>num;
+    int num=0;
+    if(input->good() && *input>>num && num>=0){
         simple->addParticles(num);
         if(headersOnly) return simple; // escape before we try to touch data
     }else{
+        if(errorStream) *errorStream<<"Partio: malformed header in PDA file "<<filename<<endl;
         simple->release();
         return 0;
     }
@@ -111,25 +117,31 @@ ParticlesDataMutable* readPDA(const char* filename,const bool headersOnly,std::o
 
     // Read actual particle data
     if(!input->good()){simple->release();return 0;}
-    for(unsigned int particleIndex=0;input->good() && particleIndex<num; particleIndex++) {
+    for(int particleIndex=0;*input && particleIndex<num; particleIndex++) {
         for(unsigned int attrIndex=0;attrIndex<attrs.size();attrIndex++){
-            if(attrs[attrIndex].type==Partio::INT){
-                int* data=simple->dataWrite<int>(attrs[attrIndex],particleIndex);
-                for(int count=0;count<attrs[attrIndex].count;count++){
+            const bool store=attrs[attrIndex].attributeIndex>=0;
+            if(columns[attrIndex].first==Partio::INT){
+                int* data=store ? simple->dataWrite<int>(attrs[attrIndex],particleIndex) : 0;
+                for(int count=0;count<columns[attrIndex].second;count++){
                     int ival;
                     *input>>ival;
-                    data[count]=ival;
+                    if(data) data[count]=ival;
                 }
-            }else if(attrs[attrIndex].type==Partio::FLOAT || attrs[attrIndex].type==Partio::VECTOR){
-                float* data=simple->dataWrite<float>(attrs[attrIndex],particleIndex);
-                for(int count=0;count<attrs[attrIndex].count;count++){
+            }else{
+                float* data=store ? simple->dataWrite<float>(attrs[attrIndex],particleIndex) : 0;
+                for(int count=0;count<columns[attrIndex].second;count++){
                     float fval;
                     *input>>fval;
-                    data[count]=fval;
+                    if(data) data[count]=fval;
                 }
             }
         }
     }
+    if(!*input){
+        if(errorStream) *errorStream<<"Partio: truncated or malformed data in PDA file "<<filename<<endl;
+        simple->release();
+        return 0;
+    }
     
     return simple;
 }
@@ -137,6 +149,10 @@ ParticlesDataMutable* readPDA(const char* filename,const bool headersOnly,std::o
 bool writePDA(const char* filename,const ParticlesData& p,const bool compressed,std::ostream* errorStream)
 {
     unique_ptr<ostream> output(io::write(filename, compressed));
+    if(!*output){
+        if(errorStream) *errorStream<<"Partio Unable to open file "<<filename<<endl;
+        return false;
+    }
     *output<<"ATTRIBUTES"<<endl;
 
     vector<ParticleAttribute> attrs;
-- 
2.43.0


From 233c9e2b1209a867e02a3b2550ab16795ef1bfc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:38 +0000
Subject: [PATCH 33/79] fix: PDC reader refuses malformed or truncated files
 and skips data of compressed files, writer stays within vectors

---
 src/lib/io/PDC.cpp | 56 +++++++++++++++++++++++++++++++++-------------
 1 file changed, 41 insertions(+), 15 deletions(-)

diff --git a/src/lib/io/PDC.cpp b/src/lib/io/PDC.cpp
index baf466c..c8d0b3b 100644
--- a/src/lib/io/PDC.cpp
+++ b/src/lib/io/PDC.cpp
@@ -41,6 +41,7 @@ Modifications from: github user: redpawfx (redpawFX@gmail.com)  and Luma Picture
 #include "../core/ParticleHeaders.h"
 #include "PartioEndian.h"
 #include "io.h"
+#include <cstring>
 
 namespace Partio{
 
@@ -58,14 +59,20 @@ typedef struct{
     int numAttrs;
 } PDC_HEADER;
 
-string readName(istream& input){
+bool readName(istream& input, string& result){
     int nameLen = 0;
     read<BIGEND>(input, nameLen);
-    char* name = new char[nameLen];
-    input.read(name, nameLen);
-    string result(name, name+nameLen);
-    delete [] name;
-    return result;
+    if(!input || nameLen < 0) return false;
+    // grow as the file provides characters, the length may be bogus
+    result.clear();
+    char name[256];
+    while(nameLen > 0){
+        int length = min(nameLen, (int)sizeof(name));
+        if(!input.read(name, length)) return false;
+        result.append(name, length);
+        nameLen -= length;
+    }
+    return true;
 }
 
 ParticlesDataMutable* readPDC(const char* filename, const bool headersOnly,std::ostream* errorStream){
@@ -77,6 +84,7 @@ ParticlesDataMutable* readPDC(const char* filename, const bool headersOnly,std::
     }
 
     PDC_HEADER header;
+    memset(&header, 0, sizeof(header));
     input->read((char*)&header, sizeof(header));
     if(PDC_MAGIC != header.magic){
         if(errorStream) *errorStream << "Partio: Magic number '" << header.magic << "' of '" << filename << "' doesn't match pdc magic '" << PDC_MAGIC << "'" << std::endl;
@@ -85,6 +93,10 @@ ParticlesDataMutable* readPDC(const char* filename, const bool headersOnly,std::
 
     BIGEND::swap(header.numParticles);
     BIGEND::swap(header.numAttrs);
+    if(!*input || header.numParticles < 0 || header.numAttrs < 0){
+        if(errorStream) *errorStream << "Partio: malformed header in pdc file " << filename << std::endl;
+        return 0;
+    }
 
     ParticlesDataMutable* simple = headersOnly ? new ParticleHeaders: create();
     simple->addParticles(header.numParticles);
@@ -92,30 +104,44 @@ ParticlesDataMutable* readPDC(const char* filename, const bool headersOnly,std::
     for(int attrIndex = 0; attrIndex < header.numAttrs; attrIndex++){
         // add attribute
         ParticleAttribute attr;
-        string attrName = readName(*input);
-        int type;
-        read<BIGEND>(*input, type);
+        string attrName;
+        int type = 0;
+        int count = 0;
+        if(readName(*input, attrName)) read<BIGEND>(*input, type);
         if(type == 3){
+            count = 1;
             attr = simple->addAttribute(attrName.c_str(), FLOAT, 1);
         }
         else if(type == 5){
+            count = 3;
             attr = simple->addAttribute(attrName.c_str(), VECTOR, 3);
         }
+        if(!*input || !count){
+            if(errorStream) *errorStream << "Partio: malformed attribute in pdc file " << filename << std::endl;
+            simple->release();
+            return 0;
+        }
 
-        // if headersOnly, skip
-        if(headersOnly){
-            input->seekg((int)input->tellg() + header.numParticles*sizeof(double)*attr.count);
-            continue;
+        // skip if headersOnly or the name was already used
+        bool complete = true;
+        if(headersOnly || attr.attributeIndex < 0){
+            complete = io::skip(*input, (unsigned long long)header.numParticles*sizeof(double)*count);
         }
         else{
             double tmp[3];
-            for(int partIndex = 0; partIndex < simple->numParticles(); partIndex++){
+            for(int partIndex = 0; complete && partIndex < simple->numParticles(); partIndex++){
                 for(int dim = 0; dim < attr.count; dim++){
                     read<BIGEND>(*input, tmp[dim]);
                     simple->dataWrite<float>(attr, partIndex)[dim] = (float)tmp[dim];
                 }
+                complete = (bool)*input;
             }
         }
+        if(!complete){
+            if(errorStream) *errorStream << "Partio: unexpected end of pdc file " << filename << std::endl;
+            simple->release();
+            return 0;
+        }
     }
 
     return simple;
@@ -147,7 +173,7 @@ bool writePDC(const char* filename,const ParticlesData& p,const bool compressed,
 
         // write type
         int count = 1; // FLOAT
-        if(attr.type == VECTOR){
+        if(attr.type == VECTOR && attr.count == 3){
             count = 3;
         }
         write<BIGEND>(*output, (int)(count+2));
-- 
2.43.0


From 97dbc6496fb9b1b636aefade0e4f4c387848b713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:41 +0000
Subject: [PATCH 34/79] fix: PRT reader sizes particles by channel width, reads
 unaligned data and refuses damaged files

---
 src/lib/io/PRT.cpp | 90 ++++++++++++++++++++++++++++++++--------------
 1 file changed, 63 insertions(+), 27 deletions(-)

diff --git a/src/lib/io/PRT.cpp b/src/lib/io/PRT.cpp
index cde7e1f..9856b8c 100644
--- a/src/lib/io/PRT.cpp
+++ b/src/lib/io/PRT.cpp
@@ -54,6 +54,8 @@ Modifications from: github user: redpawfx (redpawFX@gmail.com)  and Luma Picture
 #endif
 
 #include <zlib.h>
+#include <climits>
+#include <cstring>
 #endif
 namespace Partio{
 
@@ -93,6 +95,17 @@ static f_ui half2float[65536] = {
 };
 #endif
 
+//! Gives element i of a packed array, which need not be aligned
+template<class T> static T load(const char* data, const int i) {
+    T value;
+    memcpy(&value, data + i * sizeof(T), sizeof(T));
+    return value;
+}
+
+static const char* zlib_message(const z_stream& z) {
+    return z.msg ? z.msg : "unexpected end of data";
+}
+
 static bool read_buffer(std::istream& is, z_stream& z, char* in_buf, void* p, size_t size, std::ostream* errorStream) {
     z.next_out=(Bytef*)p;
     z.avail_out=(uInt)size;
@@ -111,11 +124,11 @@ static bool read_buffer(std::istream& is, z_stream& z, char* in_buf, void* p, si
         }
         int ret = inflate( &z, Z_BLOCK  );
         if ( ret != Z_OK && ret != Z_STREAM_END ) {
-            if(errorStream) *errorStream<<"Zlib error "<<z.msg<<std::endl;;
+            if(errorStream) *errorStream<<"Zlib error "<<zlib_message(z)<<std::endl;;
             return false;
         }
         if (ret == Z_STREAM_END && z.avail_out > 0) {
-            std::cerr<<"Truncated prt file  "<<std::endl;;
+            if(errorStream) *errorStream<<"Truncated prt file  "<<std::endl;;
             return false;
         }
     }
@@ -130,7 +143,7 @@ static bool write_buffer(std::ostream& os, z_stream& z, char* out_buf, void* p,
 	z.avail_out = OUT_BUFSIZE;
 	int ret=deflate(&z,flush?Z_FINISH:Z_NO_FLUSH);
 	if (!(ret!=Z_BUF_ERROR && ret!=Z_STREAM_ERROR)) {
-            if(errorStream) *errorStream<<"Zlib error "<<z.msg<<std::endl;;
+            if(errorStream) *errorStream<<"Zlib error "<<zlib_message(z)<<std::endl;;
             return false;
         }
         int	generated_output=(int)(z.next_out-(Bytef*)out_buf);
@@ -156,10 +169,14 @@ ParticlesDataMutable* readPRT(const char* filename,const bool headersOnly,std::o
     else simple=create();
 
     FileHeadder header;
-    input->read((char*)&header,sizeof(FileHeadder));
-
-    if (memcmp(header.magic, magic, sizeof(magic))) {
+    if (!input->read((char*)&header,sizeof(FileHeadder)) || memcmp(header.magic, magic, sizeof(magic))) {
         if(errorStream) *errorStream<<"Partio: failed to get PRT magic"<<std::endl;
+        simple->release();
+        return 0;
+    }
+    if (header.numParticles > (unsigned long long)INT_MAX) {
+        if(errorStream) *errorStream<<"Partio: invalid number of particles in PRT file "<<filename<<std::endl;
+        simple->release();
         return 0;
     }
     
@@ -183,7 +200,19 @@ ParticlesDataMutable* readPRT(const char* filename,const bool headersOnly,std::o
     
     for (int i=0; i<channels; i++) {
         Channel ch;
-        input->read((char*)&ch, sizeof(Channel));
+        if (!input->read((char*)&ch, sizeof(Channel))) {
+            if(errorStream) *errorStream<<"Partio: unexpected end of PRT file "<<filename<<std::endl;
+            simple->release();
+            return 0;
+        }
+        // A particle has to fit into a reasonable buffer
+        const unsigned long long channelEnd = ch.type < 11
+            ? ch.offset + (unsigned long long)sizes[ch.type] * ch.arity : 0;
+        if (ch.type >= 11 || ch.arity > (unsigned)INT_MAX / 8 || channelEnd > (unsigned long long)INT_MAX) {
+            if(errorStream) *errorStream<<"Partio: invalid channel in PRT file "<<filename<<std::endl;
+            simple->release();
+            return 0;
+        }
         ParticleAttributeType type=NONE;
         switch (ch.type) {
         case 0:	// int16
@@ -215,14 +244,16 @@ ParticlesDataMutable* readPRT(const char* filename,const bool headersOnly,std::o
                 ch.name[0] += 0x20;
             }
 #endif
-            std::string name((char*)ch.name);
+            std::string name((char*)ch.name, strnlen((char*)ch.name, sizeof(ch.name)));
             ParticleAttribute attrHandle=simple->addAttribute(name.c_str(),type,ch.arity);
-            chans.push_back(ch);
-            attrs.push_back(attrHandle);
+            if (attrHandle.attributeIndex >= 0) { // else the name was already used
+                chans.push_back(ch);
+                attrs.push_back(attrHandle);
+            }
         }
         
         // The size of the particle is determined from the channel with largest offset. The channels are not required to be listed in order.
-        particleSize = (std::max)( particleSize, chans.back().offset + sizes[ch.type] );
+        particleSize = (std::max)( particleSize, (unsigned)channelEnd );
         
         // The channel entry might have more data in other PRT versions.
         if ((unsigned)channelsize > sizeof(Channel))
@@ -233,8 +264,10 @@ ParticlesDataMutable* readPRT(const char* filename,const bool headersOnly,std::o
 
     z_stream z;
     z.zalloc = Z_NULL;z.zfree = Z_NULL;z.opaque = Z_NULL;
+    z.next_in = Z_NULL;z.avail_in = 0;
     if (inflateInit( &z ) != Z_OK) {
         if(errorStream) *errorStream<<"Zlib inflateInit error"<<std::endl;
+        simple->release();
         return 0;
     }
 
@@ -242,11 +275,15 @@ ParticlesDataMutable* readPRT(const char* filename,const bool headersOnly,std::o
     z.next_in = 0;
     z.avail_in = 0;
     
-    char* prt_buf = new char[particleSize];
+    std::vector<char> prt_buf(particleSize);
 
     for (unsigned int particleIndex=0;particleIndex<(unsigned int )simple->numParticles();particleIndex++) {
         // Read the particle from the file, and decompress it into a single particle-sized buffer.
-        read_buffer(*input, z, (char*)in_buf, prt_buf, particleSize, errorStream);
+        if (!read_buffer(*input, z, (char*)in_buf, prt_buf.data(), particleSize, errorStream)) {
+            inflateEnd( &z );
+            simple->release();
+            return 0;
+        }
         
         for (unsigned int attrIndex=0;attrIndex<attrs.size();attrIndex++) {
             if (attrs[attrIndex].type==Partio::INT) {
@@ -256,42 +293,42 @@ ParticlesDataMutable* readPRT(const char* filename,const bool headersOnly,std::o
                     switch (chans[attrIndex].type) {
                     case 0:	// int16
                         {
-                            ival = (int)*reinterpret_cast<short*>( &prt_buf[ chans[attrIndex].offset + count * sizeof(short) ] );
+                            ival = (int)load<short>( prt_buf.data() + chans[attrIndex].offset, count );
                         }
                         break;
                     case 1:	// int32
                         {
-                            ival = (int)*reinterpret_cast<int*>( &prt_buf[ chans[attrIndex].offset + count * sizeof(int) ] );
+                            ival = (int)load<int>( prt_buf.data() + chans[attrIndex].offset, count );
                         }
                         break;
                     case 2:	// int64
                         {
-                            ival = (int)*reinterpret_cast<long long*>( &prt_buf[ chans[attrIndex].offset + count * sizeof(long long) ] );
+                            ival = (int)load<long long>( prt_buf.data() + chans[attrIndex].offset, count );
                         }
                         break;
                     case 6:	// uint16
                         {
-                            ival = (int)*reinterpret_cast<unsigned short*>( &prt_buf[ chans[attrIndex].offset + count * sizeof(unsigned short) ] );
+                            ival = (int)load<unsigned short>( prt_buf.data() + chans[attrIndex].offset, count );
                         }
                         break;
                     case 7:	// uint32
                         {
-                            ival = (int)*reinterpret_cast<unsigned int*>( &prt_buf[ chans[attrIndex].offset +  + count * sizeof(unsigned int) ] );
+                            ival = (int)load<unsigned int>( prt_buf.data() + chans[attrIndex].offset, count );
                         }
                         break;
                     case 8:	// uint64
                         {
-                            ival = (int)*reinterpret_cast<unsigned long long*>( &prt_buf[ chans[attrIndex].offset + count * sizeof(unsigned long long) ] );
+                            ival = (int)load<unsigned long long>( prt_buf.data() + chans[attrIndex].offset, count );
                         }
                         break;
                     case 9:	// int8
                         {
-                            ival = (int)prt_buf[ chans[attrIndex].offset + count ];
+                            ival = (int)load<signed char>( prt_buf.data() + chans[attrIndex].offset, count );
                         }
                         break;
                     case 10:// uint8
                         {
-                            ival = (int)*reinterpret_cast<unsigned char*>( &prt_buf[ chans[attrIndex].offset + count * sizeof(unsigned char) ] );
+                            ival = (int)load<unsigned char>( prt_buf.data() + chans[attrIndex].offset, count );
                         }
                         break;
                     }
@@ -305,21 +342,21 @@ ParticlesDataMutable* readPRT(const char* filename,const bool headersOnly,std::o
                     case 3:	// float16
                         {
 #ifdef USE_ILMHALF
-                            fval = (float)*reinterpret_cast<half*>( &prt_buf[ chans[attrIndex].offset + count * sizeof(half) ] );
+                            fval = (float)load<half>( prt_buf.data() + chans[attrIndex].offset, count );
 #else
-                            unsigned short val = *reinterpret_cast<unsigned short*>( &prt_buf[ chans[attrIndex].offset + count * sizeof(unsigned short) ] );
+                            unsigned short val = load<unsigned short>( prt_buf.data() + chans[attrIndex].offset, count );
                             fval = half2float[val].f;
 #endif
                         }
                         break;
                     case 4:	// float32
                         {
-                            fval = (float)*reinterpret_cast<float*>( &prt_buf[ chans[attrIndex].offset + count * sizeof(float) ] );
+                            fval = (float)load<float>( prt_buf.data() + chans[attrIndex].offset, count );
                         }
                         break;
                     case 5:	// float64
                         {
-                            fval = (float)*reinterpret_cast<double*>( &prt_buf[ chans[attrIndex].offset + count * sizeof(double) ] );
+                            fval = (float)load<double>( prt_buf.data() + chans[attrIndex].offset, count );
                         }
                         break;
                     }
@@ -329,10 +366,9 @@ ParticlesDataMutable* readPRT(const char* filename,const bool headersOnly,std::o
 		}
 	}
     
-    delete[] prt_buf;
-    
     if (inflateEnd( &z ) != Z_OK) {
         if(errorStream) *errorStream<<"Zlib inflateEnd error"<<std::endl;
+        simple->release();
         return 0;
     }
 
-- 
2.43.0


From 754eea90c77977a0d2a8286f7d7b7203797c2c4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:41 +0000
Subject: [PATCH 35/79] fix: PRT writer counts only the channels it writes and
 keeps long names within bounds

---
 src/lib/io/PRT.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/lib/io/PRT.cpp b/src/lib/io/PRT.cpp
index 9856b8c..6c64855 100644
--- a/src/lib/io/PRT.cpp
+++ b/src/lib/io/PRT.cpp
@@ -54,6 +54,7 @@ Modifications from: github user: redpawfx (redpawFX@gmail.com)  and Luma Picture
 #endif
 
 #include <zlib.h>
+#include <algorithm>
 #include <climits>
 #include <cstring>
 #endif
@@ -399,7 +400,13 @@ bool writePRT(const char* filename,const ParticlesData& p,const bool /*compresse
         int reserve = 4;
         output->write((char*)&header,sizeof(FileHeadder));
         write<LITEND>(*output, reserve);
-        write<LITEND>(*output, (int)p.numAttributes());
+        int numChannels = 0;
+        for (int i=0;i<p.numAttributes();i++) {
+            ParticleAttribute attr;
+            p.attributeInfo(i,attr);
+            if (attr.count && (attr.type==FLOAT || attr.type==INT || attr.type==VECTOR)) numChannels++;
+        }
+        write<LITEND>(*output, numChannels);
             reserve = 0x2c;
         write<LITEND>(*output, reserve);
 
@@ -410,7 +417,7 @@ bool writePRT(const char* filename,const ParticlesData& p,const bool /*compresse
             p.attributeInfo(i,attr);
             Channel ch;
             memset(&ch, 0, sizeof(Channel));
-                    memcpy((char*)ch.name, attr.name.c_str(), attr.name.size());
+                    memcpy((char*)ch.name, attr.name.c_str(), std::min(attr.name.size(), sizeof(ch.name) - 1));
             ch.offset = offset;
             switch (attr.type) {
             case FLOAT: ch.type=4; ch.arity=attr.count; offset += sizeof(float)*attr.count; break;
-- 
2.43.0


From 5d4e4abcd35445e5c777f5af5f7ab0618228d48a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:52 +0000
Subject: [PATCH 36/79] fix: PTC reader refuses malformed specs, bad point
 counts and truncated files

---
 src/lib/io/PTC.cpp | 28 ++++++++++++++++++++++------
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/src/lib/io/PTC.cpp b/src/lib/io/PTC.cpp
index 3448d6f..e868037 100644
--- a/src/lib/io/PTC.cpp
+++ b/src/lib/io/PTC.cpp
@@ -41,6 +41,7 @@ OF THIS SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGES.
 
 #include <cmath>
 #include <cfloat>
+#include <climits>
 #include <sstream>
 
 namespace Partio
@@ -69,10 +70,10 @@ bool ParseSpec(const string& spec,string& typeName,string& name)
     // TODO: make more robust
     const char* s=spec.c_str();
     typeName="";name="";
-    while(*s!=' ') typeName+=*s++;
+    while(*s && *s!=' ') typeName+=*s++;
     while(*s==' ') s++;
-    while(*s!='\n') name+=*s++;
-    return true;
+    while(*s && *s!='\n') name+=*s++;
+    return *s=='\n';
 }
 
 ParticlesDataMutable* readPTC(const char* filename,const bool headersOnly,std::ostream* errorStream)
@@ -125,11 +126,17 @@ ParticlesDataMutable* readPTC(const char* filename,const bool headersOnly,std::o
     int nVars,dataSize;
     read<LITEND>(*input,nVars,dataSize);
 
+    if(!*input || !(nPoints>=0 && nPoints<=INT_MAX)){
+        if(errorStream) *errorStream <<"Partio: malformed header in ptc file "<<filename<<endl;
+        return 0;
+    }
+    const int numPoints=(int)nPoints;
+
     // Allocate a simple particle with the appropriate number of points
     ParticlesDataMutable* simple=0;
     if(headersOnly) simple=new ParticleHeaders;
     else simple=create();
-    simple->addParticles((int)nPoints);
+    simple->addParticles(numPoints);
 
     // PTC files always have something for these items, so allocate the data
     vector<ParticleAttribute> attrHandles;
@@ -141,7 +148,11 @@ ParticlesDataMutable* readPTC(const char* filename,const bool headersOnly,std::o
     // data types are "float", "point", "vector", "normal", "color", or "matrix"
     int parsedSize=0;
     for(int chanNum=0;chanNum<nVars;chanNum++){
-        ParseSpec(GetString(*input,'\n'),typeName,name);
+        if(!ParseSpec(GetString(*input,'\n'),typeName,name)){
+            if(errorStream) *errorStream <<"Partio: malformed attribute spec in ptc file "<<filename<<endl;
+            simple->release();
+            return 0;
+        }
 
         int dataSize=0;
         ParticleAttributeType dataType;
@@ -191,7 +202,7 @@ ParticlesDataMutable* readPTC(const char* filename,const bool headersOnly,std::o
     // more weird input attributes
     if(version>=1) for(int i=0;i<2;i++) read<LITEND>(*input,dummy);
 
-    for(int pointIndex=0;pointIndex<nPoints;pointIndex++){
+    for(int pointIndex=0;pointIndex<numPoints;pointIndex++){
         float* pos=simple->dataWrite<float>(positionHandle,pointIndex);
         read<LITEND>(*input,pos[0],pos[1],pos[2]);
 
@@ -224,6 +235,11 @@ ParticlesDataMutable* readPTC(const char* filename,const bool headersOnly,std::o
                 read<LITEND>(*input,data[j]);
         }
 
+        if(!*input){
+            if(errorStream) *errorStream <<"Partio: unexpected end of ptc file "<<filename<<endl;
+            simple->release();
+            return 0;
+        }
     }
 
     return simple;
-- 
2.43.0


From 88cccfd517a3d7ee94e738e00082e599ce1dd16a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:52 +0000
Subject: [PATCH 37/79] fix: PTC writer does not read beyond unsuitable normals
 and radii nor convert NaN to integers

---
 src/lib/io/PTC.cpp | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/lib/io/PTC.cpp b/src/lib/io/PTC.cpp
index e868037..41b2e15 100644
--- a/src/lib/io/PTC.cpp
+++ b/src/lib/io/PTC.cpp
@@ -245,6 +245,13 @@ ParticlesDataMutable* readPTC(const char* filename,const bool headersOnly,std::o
     return simple;
 }
 
+//! Gives the 16 bit integer below a value, zero for NaN
+static int quantize(const double value)
+{
+    if(!(value>=0)) return 0;
+    return value<65535 ? int(value) : 65535;
+}
+
 bool writePTC(const char* filename,const ParticlesData& p,const bool compressed,std::ostream* errorStream)
 {
     unique_ptr<ostream> output(io::write(filename, compressed));
@@ -270,6 +277,13 @@ bool writePTC(const char* filename,const ParticlesData& p,const bool compressed,
         if(errorStream) *errorStream <<"Partio: failed to find attr 'position' for PTC output"<<endl;
         return false;
     }
+    if(positionHandle.count!=3 || (positionHandle.type!=VECTOR && positionHandle.type!=FLOAT)){
+        if(errorStream) *errorStream <<"Partio: attr 'position' is not a vector of size 3 for PTC output"<<endl;
+        return false;
+    }
+    // use the defaults for attributes that do not hold what the format stores
+    if(normalHandle.count!=3 || (normalHandle.type!=VECTOR && normalHandle.type!=FLOAT)) foundNormal=false;
+    if(radiusHandle.count!=1 || (radiusHandle.type!=VECTOR && radiusHandle.type!=FLOAT)) foundRadius=false;
     if(!foundNormal) if(errorStream) *errorStream <<"Partio: failed to find attr 'normal' for PTC output, using 0,0,0"<<endl;
     if(!foundRadius) if(errorStream) *errorStream <<"Partio: failed to find attr 'radius' for PTC output, using 1"<<endl;
 
@@ -349,8 +363,8 @@ bool writePTC(const char* filename,const ParticlesData& p,const bool compressed,
 	if (n[0] == 0 && n[1] == 0 && n[2] == 0) phi = z = 65535;
 	else {
             float mag_squared=n[0]*n[0]+n[1]*n[1]+n[2]*n[2];
-	    phi = int((atan2(n[0], n[1]) * (1/(2*M_PI)) + 0.5) * 65535 + 0.5);
-	    z = std::min(int((n[2]/sqrt(mag_squared)+1)/2 * 65535 + 0.5), 65535);
+	    phi = quantize((atan2(n[0], n[1]) * (1/(2*M_PI)) + 0.5) * 65535 + 0.5);
+	    z = quantize((n[2]/sqrt(mag_squared)+1)/2 * 65535 + 0.5);
             // phi is redundent when z == 65535; avoid the special value.
             if (phi == 65535 && z == 65535)
                 phi = 0;
-- 
2.43.0


From 6a64578cb77994a82cc0e6c0420315b117df0ba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:52 +0000
Subject: [PATCH 38/79] fix: BIN reader refuses truncated files and bad counts
 and reports on the caller's stream

---
 src/lib/io/BIN.cpp | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/src/lib/io/BIN.cpp b/src/lib/io/BIN.cpp
index 326e6dc..153c378 100644
--- a/src/lib/io/BIN.cpp
+++ b/src/lib/io/BIN.cpp
@@ -39,6 +39,8 @@ Modifications from: github user: redpawfx (redpawFX@gmail.com)  and Luma Picture
 */
 #include "../core/ParticleHeaders.h"
 #include "io.h"
+#include <cstring>
+#include <sstream>
 
 namespace Partio{
 
@@ -91,8 +93,18 @@ ParticlesDataMutable* readBIN(const char* filename, const bool headersOnly,std::
     }
 
     BIN_HEADER header;
+    memset(&header, 0, sizeof(header));
     input->read((char*)&header, sizeof(BIN_HEADERV6));
 
+    if(!*input || BIN_MAGIC != header.verificationCode){
+        if(errorStream) {
+            ostringstream message; // leaves the format of the caller's stream alone
+            message << hex << "Partio: Magic number '" << header.verificationCode << "' of '" << filename << "' doesn't match BIN magic '" << BIN_MAGIC << "'";
+            *errorStream << message.str() << endl;
+        }
+        return 0;
+    }
+
     // According to the NextLimit bin_particles_file_format.pdf file
     if (header.version >= 7)
     {
@@ -103,16 +115,15 @@ ParticlesDataMutable* readBIN(const char* filename, const bool headersOnly,std::
 
     // After version 13, we don't know what to do
     if(header.version > 13){
-        cerr << "Partio: Unknown .bin version : " << header.version << endl;
+        if(errorStream) *errorStream << "Partio: Unknown .bin version : " << header.version << endl;
         return 0;
     }
 
-    if(BIN_MAGIC != header.verificationCode){
-        if(errorStream) *errorStream<< "Partio: Magic number '" << hex<<  header.verificationCode << "' of '" << filename << "' doesn't match BIN magic '" << BIN_MAGIC << "'" << endl;
+    if(!*input || header.numParticles < 0){
+        if(errorStream) *errorStream << "Partio: malformed header in .bin file " << filename << endl;
         return 0;
     }
 
-
     ParticlesDataMutable* simple = headersOnly ? new ParticleHeaders: create();
     simple->addParticles(header.numParticles);
 
@@ -260,6 +271,13 @@ ParticlesDataMutable* readBIN(const char* filename, const bool headersOnly,std::
                 pid = (int)pid64;
             }
             simple->dataWrite<int>(pidAttr, partIndex)[0] = (int)pid;
+
+            if (!*input)
+            {
+                if(errorStream) *errorStream << "Partio: unexpected end of .bin file " << filename << endl;
+                simple->release();
+                return 0;
+            }
         }
     }
 
-- 
2.43.0


From ec39d250ec7cc26ee33332486c33877cd9deac7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:52 +0000
Subject: [PATCH 39/79] fix: BIN writer does not read beyond attributes of
 another width or type

---
 src/lib/io/BIN.cpp | 37 ++++++++++++++++++++++---------------
 1 file changed, 22 insertions(+), 15 deletions(-)

diff --git a/src/lib/io/BIN.cpp b/src/lib/io/BIN.cpp
index 153c378..ee05318 100644
--- a/src/lib/io/BIN.cpp
+++ b/src/lib/io/BIN.cpp
@@ -284,6 +284,13 @@ ParticlesDataMutable* readBIN(const char* filename, const bool headersOnly,std::
     return simple;
 }
 
+// Tells whether an attribute has at least count components of a type
+static bool holds(const ParticleAttribute& attr, const ParticleAttributeType type, const int count){
+    if(attr.count < count) return false;
+    if(type == FLOAT) return attr.type == FLOAT || attr.type == VECTOR;
+    return attr.type == INT || attr.type == INDEXEDSTR;
+}
+
 bool writeBIN(const char* filename,const ParticlesData& p,const bool /*compressed*/,std::ostream* errorStream)
 {
     unique_ptr<ostream> output(io::write(filename));
@@ -384,7 +391,7 @@ bool writeBIN(const char* filename,const ParticlesData& p,const bool /*compresse
             p.attributeInfo(attrIndex,attr);
 
             //cout << attr.name << endl;
-            if (attr.name ==  "position")
+            if (attr.name == "position" && holds(attr, FLOAT, 3))
             {
                 const float* data = p.data<float>(attr, particles);
                 position[0] = data[0];
@@ -392,82 +399,82 @@ bool writeBIN(const char* filename,const ParticlesData& p,const bool /*compresse
                 position[2] = data[2];
             }
 
-            else if (attr.name == "velocity")
+            else if (attr.name == "velocity" && holds(attr, FLOAT, 3))
             {
                 const float* data = p.data<float>(attr, particles);
                 velocity[0] = data[0];
                 velocity[1] = data[1];
                 velocity[2] = data[2];
             }
-            else if (attr.name == "force")
+            else if (attr.name == "force" && holds(attr, FLOAT, 3))
             {
                 const float* data = p.data<float>(attr, particles);
                 force[0] = data[0];
                 force[1] = data[1];
                 force[2] = data[2];
             }
-            else if (attr.name == "vorticity")
+            else if (attr.name == "vorticity" && holds(attr, FLOAT, 3))
             {
                 const float* data = p.data<float>(attr, particles);
                 vorticity[0] = data[0];
                 vorticity[1] = data[1];
                 vorticity[2] = data[2];
             }
-            else if (attr.name == "normal")
+            else if (attr.name == "normal" && holds(attr, FLOAT, 3))
             {
                 const float* data = p.data<float>(attr, particles);
                 normal[0] = data[0];
                 normal[1] = data[1];
                 normal[2] = data[2];
             }
-            else if (attr.name == "neighbors")
+            else if (attr.name == "neighbors" && holds(attr, INT, 1))
             {
                 const int* data = p.data<int>(attr, particles);
                 neighbors= data[0];
             }
-            else if (attr.name == "uvw")
+            else if (attr.name == "uvw" && holds(attr, FLOAT, 3))
             {
                 const float* data = p.data<float>(attr, particles);
                 uvw[0] = data[0];
                 uvw[1] = data[1];
                 uvw[2] = data[2];
             }
-            else if (attr.name == "age")
+            else if (attr.name == "age" && holds(attr, FLOAT, 1))
             {
                 const float* data = p.data<float>(attr, particles);
                 age= data[0];
             }
-            else if (attr.name == "isolationTime")
+            else if (attr.name == "isolationTime" && holds(attr, FLOAT, 1))
             {
                 const float* data = p.data<float>(attr, particles);
                 isolationTime= data[0];
             }
-            else if (attr.name == "viscosity")
+            else if (attr.name == "viscosity" && holds(attr, FLOAT, 1))
             {
                 const float* data = p.data<float>(attr, particles);
                 viscosity= data[0];
             }
-            else if (attr.name == "density")
+            else if (attr.name == "density" && holds(attr, FLOAT, 1))
             {
                 const float* data = p.data<float>(attr, particles);
                 density= data[0];
             }
-            else if (attr.name == "pressure")
+            else if (attr.name == "pressure" && holds(attr, FLOAT, 1))
             {
                 const float* data = p.data<float>(attr, particles);
                 pressure= data[0];
             }
-            else if (attr.name == "mass")
+            else if (attr.name == "mass" && holds(attr, FLOAT, 1))
             {
                 const float* data = p.data<float>(attr, particles);
                 mass= data[0];
             }
-            else if (attr.name == "temperature")
+            else if (attr.name == "temperature" && holds(attr, FLOAT, 1))
             {
                 const float* data = p.data<float>(attr, particles);
                 temperature= data[0];
             }
-            else if (attr.name == "id")
+            else if (attr.name == "id" && holds(attr, INT, 1))
             {
                 const int* data = p.data<int>(attr, particles);
                 pid= data[0];
-- 
2.43.0


From 78ad21bf610da2c51bdf7ba0ae6f479de8f36fb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:52 +0000
Subject: [PATCH 40/79] fix: PTS reader takes lines of any length, compressed
 files and the color from its own columns

---
 src/lib/io/PTS.cpp | 103 +++++++++++++++++----------------------------
 1 file changed, 39 insertions(+), 64 deletions(-)

diff --git a/src/lib/io/PTS.cpp b/src/lib/io/PTS.cpp
index 6c437de..a657bec 100644
--- a/src/lib/io/PTS.cpp
+++ b/src/lib/io/PTS.cpp
@@ -39,6 +39,7 @@ Some code for this format  was helped along  by referring to an implementation b
 #include "../core/ParticleHeaders.h"
 #include "io.h"
 
+#include <cmath>
 #include <sstream>
 
 namespace Partio
@@ -48,6 +49,17 @@ using namespace std;
 
 // TODO: convert this to use iterators like the rest of the readers/writers
 
+// Gives the space separated words of a line
+static vector<string> splitLine(const string& line)
+{
+    istringstream words(line);
+    words.imbue(locale::classic());
+    vector<string> result;
+    string word;
+    while (words >> word) result.push_back(word);
+    return result;
+}
+
 ParticlesDataMutable* readPTS(const char* filename,const bool headersOnly,std::ostream* errorStream)
 {
     unique_ptr<istream> input(io::unzip(filename));
@@ -73,34 +85,13 @@ ParticlesDataMutable* readPTS(const char* filename,const bool headersOnly,std::o
     /// FORMAT  is  up to 8 elements  space delimited { posX posY posZ  remission quality  red green blue }
     // since there's no header data to parse we're just going to hard code this
 
-    /* Start from the beginning */
-	input->seekg(0,ios::beg);
+    /* Jump over first line, a garbage count at top of file. */
+    string line;
+    getline(*input, line);
 
     /* Determine amount of values per line */
-    char line[1024];
-    /* Jump over first line. */
-	input->getline(line,1024);
-    input->getline(line,1024);
-    int valcount = 0;
-#ifdef PARTIO_WIN32
-	char * nextLine = NULL;
-    char * pch = strtok_s( line, "\t ", &nextLine );
-#else
-	char * pch = strtok( line, "\t " );
-#endif
-    while ( pch )
-    {
-        if ( *pch != 0 && *pch != '\n' )
-		{
-            valcount++;
-        }
-#ifdef PARTIO_WIN32
-        pch = strtok_s( NULL, "\t ", &nextLine );
-#else
-		pch = strtok( NULL, "\t " );
-#endif
-    }
-
+    getline(*input, line);
+    const int valcount = (int)splitLine(line).size();
 
     switch ( valcount )
 	{
@@ -150,54 +141,38 @@ ParticlesDataMutable* readPTS(const char* filename,const bool headersOnly,std::o
 		break;
 		default:
 		{
+			if(errorStream) *errorStream<<"Partio: unexpected number of values per line in PTS file "<<filename<<endl;
+			simple->release();
 			return 0;
 		}
 		break;
 
     }
 
-    input->seekg(0,ios::beg);
-
     unsigned int num=0;
     simple->addParticles(num);
     if (headersOnly) return simple; // escape before we try to touch data
 
-    if (input->good())
-    { // garbage count at top of  file
-		char junk[1024];
-        input->getline(junk,1024);
-    }
-
-    // Read actual particle data
-    if (!input->good()) {
-        simple->release();
-        return 0;
-    }
-
     // we have to read line by line, because data is not  clean and consistent so we skip any lines that dont' conform
 
-    for (unsigned int particleIndex=0;input->good();)
+    // the color is in the last three columns
+    const int color = valcount-3;
+    unsigned int particleIndex=0;
+    do
     {
-        string token = "";
-        char line[1024];
-        input->getline(line, 1024);
-
-        stringstream ss(line);
-
-        float lineData[8];
-        int i = 0;
-
-        while (ss >> token)
+        const vector<string> tokens = splitLine(line);
+        if ((int)tokens.size() == valcount)
         {
-            stringstream foo(token);
-            float x;
-            foo >> x;
-			lineData[i] = x;
-            i++;
-        }
+            float lineData[8];
+            for (int i = 0; i < valcount; i++)
+            {
+                istringstream foo(tokens[i]);
+                foo.imbue(locale::classic());
+                float x = 0;
+                foo >> x;
+                lineData[i] = x;
+            }
 
-        if (i == valcount)
-        {
             simple->addParticle();
             for (unsigned int attrIndex=0;attrIndex<attrs.size();attrIndex++)
             {
@@ -210,7 +185,7 @@ ParticlesDataMutable* readPTS(const char* filename,const bool headersOnly,std::o
 					}
 					else
 					{
-						data[0] = (int)lineData[4];
+						data[0] = fabs(lineData[4]) < 2147483648.f ? (int)lineData[4] : 0;
 					}
 
 
@@ -222,9 +197,9 @@ ParticlesDataMutable* readPTS(const char* filename,const bool headersOnly,std::o
 					if (attrs[attrIndex].name == "pointColor")
 					{
 						// 8 bit color  conversion
-						data[0]=lineData[4]/255;
-						data[1]=lineData[5]/255;
-						data[2]=lineData[6]/255;
+						data[0]=lineData[color]/255;
+						data[1]=lineData[color+1]/255;
+						data[2]=lineData[color+2]/255;
 					}
 					else if (attrs[attrIndex].name == "position")
 					{
@@ -242,7 +217,7 @@ ParticlesDataMutable* readPTS(const char* filename,const bool headersOnly,std::o
             }
             particleIndex++;
         }
-    }
+    } while (getline(*input, line));
     return simple;
 }
 
-- 
2.43.0


From d3be461417ad38348434bbd2c8f81897ebca8cd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:32 +0000
Subject: [PATCH 41/79] fix: MC reader bounds names, reads compressed files and
 refuses truncated ones

---
 src/lib/io/MC.cpp | 180 +++++++++++++++++++++++-----------------------
 1 file changed, 92 insertions(+), 88 deletions(-)

diff --git a/src/lib/io/MC.cpp b/src/lib/io/MC.cpp
index 82b5278..0072b60 100644
--- a/src/lib/io/MC.cpp
+++ b/src/lib/io/MC.cpp
@@ -40,6 +40,8 @@ Modifications from: github user: redpawfx (redpawFX@gmail.com)  and Luma Picture
 #include "../core/ParticleHeaders.h"
 #include "PartioEndian.h" // read/write big-endian file
 #include "io.h"
+#include <algorithm>
+#include <climits>
 
 namespace Partio
 {
@@ -49,18 +51,17 @@ using namespace std;
 
 // TODO: convert this to use iterators like the rest of the readers/writers
 
+// Reads size characters and gives them up to the first NUL
 std::string GetString(std::istream& input, unsigned int size){
-    char* tmp = new char [size];
-    input.read(tmp, size);
-    std::string result(tmp);
-
-    // fix read tag error (ex: DBLA --> DBLAi, why !!)
-    if(result.size() > size){
-        result.resize(size);
+    std::string result;
+    char tmp[256];
+    while(size > 0){ // grow as the file provides characters, the size may be bogus
+        unsigned int length = std::min(size, (unsigned int)sizeof(tmp));
+        if(!input.read(tmp, length)) break;
+        result.append(tmp, length);
+        size -= length;
     }
-
-    delete [] tmp;
-    return result;
+    return result.substr(0, result.find('\0'));
 }
 
 typedef struct{
@@ -71,12 +72,14 @@ typedef struct{
 } Attribute_Header;
 
 
-bool ReadAttrHeader(std::istream& input, Attribute_Header& attribute){
+// Reads the header of a channel and adds its size to pos
+bool ReadAttrHeader(std::istream& input, Attribute_Header& attribute, long long& pos){
     char tag[4];
     input.read(tag, 4); // CHNM
 
     int chnmSize;
     read<BIGEND>(input, chnmSize);
+    if(!input || chnmSize < 0 || chnmSize > INT_MAX - 4) return false;
     if(chnmSize%4 > 0){
         chnmSize = chnmSize - chnmSize%4 + 4;
     }
@@ -93,7 +96,8 @@ bool ReadAttrHeader(std::istream& input, Attribute_Header& attribute){
 
     read<BIGEND>(input, attribute.blocksize);
 
-    return true;
+    pos += 28 + chnmSize;
+    return (bool)input;
 }
 
 int CharArrayLen(char** charArray){
@@ -122,35 +126,54 @@ bool IsStringInCharArray(std::string target, char** list){
 static const int MC_MAGIC = ((((('F'<<8)|'O')<<8)|'R')<<8)|'4';
 static const int HEADER_SIZE = 56;
 
-ParticlesDataMutable* readMC(const char* filename, const bool headersOnly,std::ostream* errorStream){
-
-    std::unique_ptr<std::istream> input(io::unzip(filename));
-    if(!*input){
-        if(errorStream) *errorStream << "Partio: Unable to open file " << filename << std::endl;
-        return 0;
-    }
-
+static bool ReadHeader(std::istream& input, const char* filename, int& blockSize, long long& pos, std::ostream* errorStream){
     int magic;
-    read<BIGEND>(*input, magic);
+    read<BIGEND>(input, magic);
     if(MC_MAGIC != magic){
         if(errorStream) *errorStream  << "Partio: Magic number '" << magic << "' of '" << filename << "' doesn't match mc magic '" << MC_MAGIC << "'" << std::endl;
-        return 0;
+        return false;
     }
 
     int headerSize;
-    read<BIGEND>(*input, headerSize);
+    read<BIGEND>(input, headerSize);
 
     int dummy; // tmp1, tmp2, num1, tmp3, tmp4, num2, num3, tmp5, num4, num5, blockTag
     for(int i = 0; i < 10; i++){
-        read<BIGEND>(*input, dummy);
+        read<BIGEND>(input, dummy);
         //std::cout << dummy << std::endl;
     }
 
     char tag[4];
-    input->read(tag, 4); // FOR4
+    input.read(tag, 4); // FOR4
+
+    read<BIGEND>(input, blockSize);
 
-    int blockSize;
-    read<BIGEND>(*input, blockSize);
+    input.read(tag, 4); // MYCH
+    pos = 4;
+    if(!input){
+        if(errorStream) *errorStream << "Partio: unexpected end of mc file " << filename << std::endl;
+        return false;
+    }
+    return true;
+}
+
+static ParticlesDataMutable* Damaged(ParticlesDataMutable* particles, const char* filename, std::ostream* errorStream){
+    if(errorStream) *errorStream << "Partio: truncated or malformed mc file " << filename << std::endl;
+    particles->release();
+    return 0;
+}
+
+ParticlesDataMutable* readMC(const char* filename, const bool headersOnly,std::ostream* errorStream){
+
+    std::unique_ptr<std::istream> input(io::unzip(filename));
+    if(!*input){
+        if(errorStream) *errorStream << "Partio: Unable to open file " << filename << std::endl;
+        return 0;
+    }
+
+    int blockSize = 0;
+    long long pos = 0; // in the block
+    if(!ReadHeader(*input, filename, blockSize, pos, errorStream)) return 0;
 
     // Allocate a simple particle with the appropriate number of points
     ParticlesDataMutable* simple=0;
@@ -162,32 +185,31 @@ ParticlesDataMutable* readMC(const char* filename, const bool headersOnly,std::o
     }
 
     int numParticles = 0;
-    input->read(tag, 4); // MYCH
-    while(((int)input->tellg()-HEADER_SIZE) < blockSize){
+    while(pos < blockSize){
         Attribute_Header attrHeader;
-        ReadAttrHeader(*input, attrHeader);
+        if(!ReadAttrHeader(*input, attrHeader, pos)) return Damaged(simple, filename, errorStream);
 
         if(attrHeader.name == std::string("id")){
+            if(attrHeader.numParticles > (unsigned int)INT_MAX) return Damaged(simple, filename, errorStream);
             numParticles = attrHeader.numParticles;
         }
 
+        if(!io::skip(*input, attrHeader.blocksize)) return Damaged(simple, filename, errorStream);
+        pos += attrHeader.blocksize;
+
         if(attrHeader.blocksize/sizeof(double) == 1){ // for who ?
-            input->seekg((int)input->tellg() + attrHeader.blocksize);
             continue;
         }
 #if 0 // TODO: if we ever put back attributes re-enable this
         if(attributes && (IsStringInCharArray(attrHeader.name, attributes)==false)){
-            input->seekg((int)input->tellg() + attrHeader.blocksize);
             continue;
         }
 #endif
 
         if(attrHeader.type == std::string("FVCA")){
-            input->seekg((int)input->tellg() + attrHeader.blocksize);
             simple->addAttribute(attrHeader.name.c_str(), VECTOR, 3);
         }
         else if(attrHeader.type == std::string("DBLA")){
-			input->seekg((int)input->tellg() + attrHeader.blocksize);
 			if(attrHeader.name == "id"){
 				simple->addAttribute(attrHeader.name.c_str(), INT, 1);
 			}
@@ -197,7 +219,6 @@ ParticlesDataMutable* readMC(const char* filename, const bool headersOnly,std::o
         }
         else
 		{
-            input->seekg((int)input->tellg() + attrHeader.blocksize);
             if(errorStream) *errorStream << "Partio: Attribute '" << attrHeader.name << " " << attrHeader.type << "' cannot map type" << std::endl;
         }
     }
@@ -208,72 +229,55 @@ ParticlesDataMutable* readMC(const char* filename, const bool headersOnly,std::o
         return simple;
     }
     //cout << "==============================================================" << endl;
-    input->seekg(HEADER_SIZE);
-    input->read(tag, 4); // MYCH
-    while((int)input->tellg()-HEADER_SIZE < blockSize){
+    input = io::unzip(filename);
+    if(!*input || !ReadHeader(*input, filename, blockSize, pos, errorStream)){
+        return Damaged(simple, filename, errorStream);
+    }
+    std::vector<bool> filled(simple->numAttributes(), false);
+    while(pos < blockSize){
         Attribute_Header attrHeader;
-        ReadAttrHeader(*input, attrHeader);
+        if(!ReadAttrHeader(*input, attrHeader, pos)) return Damaged(simple, filename, errorStream);
+        pos += attrHeader.blocksize;
 
-        if(attrHeader.blocksize/sizeof(double) == 1){ // for who ?
-            input->seekg((int)input->tellg() + attrHeader.blocksize);
-            continue;
-        }
+        // what a channel of this type is stored as
+        const bool isVector = attrHeader.type == std::string("FVCA");
+        const bool isDouble = attrHeader.type == std::string("DBLA");
+        const ParticleAttributeType type = isVector ? VECTOR : attrHeader.name == "id" ? INT : FLOAT;
 
         ParticleAttribute attrHandle;
-        if(simple->attributeInfo(attrHeader.name.c_str(), attrHandle) == false){
-            input->seekg((int)input->tellg() + attrHeader.blocksize);
+        if(attrHeader.blocksize/sizeof(double) == 1 // for who ?
+            || (!isVector && !isDouble)
+            || simple->attributeInfo(attrHeader.name.c_str(), attrHandle) == false
+            || attrHandle.type != type || filled[attrHandle.attributeIndex]){
+            if(!io::skip(*input, attrHeader.blocksize)) return Damaged(simple, filename, errorStream);
             continue;
         }
 
-        Partio::ParticlesDataMutable::iterator it = simple->begin();
-        Partio::ParticleAccessor accessor(attrHandle);
-        it.addAccessor(accessor);
+        const unsigned long long size = (isVector ? 3*sizeof(float) : sizeof(double))*(unsigned long long)numParticles;
+        if(attrHeader.blocksize < size) return Damaged(simple, filename, errorStream);
+        filled[attrHandle.attributeIndex] = true;
 
-		//std::cout << attrHeader.name << std::endl;
-        if (attrHeader.type == std::string("DBLA")){
-			if  (attrHeader.name == "id")
-			{
-				for (int i = 0; i < simple->numParticles(); i++)
-				{
+        for(int i = 0; i < numParticles && *input; i++){
+            if(isVector){
+                float* data = simple->dataWrite<float>(attrHandle, i);
+                for(int k = 0; k < 3; k++) read<BIGEND>(*input, data[k]);
+            }
+            else{
                 double tmp;
                 read<BIGEND>(*input, tmp);
-                int* data = simple->dataWrite<int>(attrHandle, i);
-                data[0] = (int)tmp;
-				}
-			}
-			else{
-				for (int i = 0; i < simple->numParticles(); i++){
-					double tmp;
-					read<BIGEND>(*input, tmp);
-					float* data = simple->dataWrite<float>(attrHandle, i);
-					data[0] = (float)tmp;
-				}
-			}
-        }
-        else if(attrHeader.type == std::string("FVCA")){
-            for(Partio::ParticlesDataMutable::iterator end = simple->end(); it != end; ++it){
-                input->read(accessor.raw<char>(it), sizeof(float)*attrHandle.count);
-            }
-            it = simple->begin();
-            for(Partio::ParticlesDataMutable::iterator end = simple->end(); it != end; ++it){
-                float* data = accessor.raw<float>(it);
-                for(int i = 0; i < attrHandle.count; i++){
-                    BIGEND::swap(data[i]);
-                    //data[k]=buffer[attrOffsets[attrIndex]+k];
-                    //data[i] = endianSwap<float>(data[i]);
+                if(type == INT){
+                    int* data = simple->dataWrite<int>(attrHandle, i);
+                    data[0] = tmp >= INT_MIN && tmp <= INT_MAX ? (int)tmp : 0;
+                }
+                else{
+                    float* data = simple->dataWrite<float>(attrHandle, i);
+                    data[0] = (float)tmp;
                 }
             }
-
-
         }
-        /*
-        if(0){
-            std::cout << typeName << std::endl;
-            std::cerr << "Partio: " << filename << " had unknown attribute spec " << typeName << " " << name << std::endl;
-            simple->release();
-            return 0;
-        }*/
-
+        if(!*input || !io::skip(*input, attrHeader.blocksize - size)){
+            return Damaged(simple, filename, errorStream);
+        }
     }
     return simple;
 
-- 
2.43.0


From d222b65eb550fa8fec825c4371f846d0a0f368d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:43 +0000
Subject: [PATCH 42/79] fix: files shorter than a gzip header are opened like
 any other

---
 src/lib/io/ZIP.cpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/lib/io/ZIP.cpp b/src/lib/io/ZIP.cpp
index 8c0116e..f89e010 100644
--- a/src/lib/io/ZIP.cpp
+++ b/src/lib/io/ZIP.cpp
@@ -97,10 +97,7 @@ struct GZipFileHeader
 
     bool Read(std::istream& istream)
     {Read_Primitive(istream,magic0);
-    if (istream.eof() || istream.fail() || istream.bad()) {
-        std::cerr << "Bad file attempting to read header" << std::endl;
-        return false;
-    }
+    if(!istream) return false; // not even a byte, the caller reports it
     Read_Primitive(istream,magic1);
     if(magic0 != 0x1f || magic1 != 0x8b){//std::cerr<<"gzip: did not find gzip magic 0x1f 0x8b"<<std::endl;
         return false;}
@@ -588,6 +585,7 @@ Gzip_In(const std::string& filename,std::ios::openmode mode)
     if(!*infile) return infile; // the caller reports it
     GZipFileHeader header;
     bool zipped=header.Read(*infile);
+    if(!infile->bad()) infile->clear(); // the file may be shorter than a gzip header
     infile->seekg(0);
     if(!zipped) return infile;
     else return new ZIP_FILE_ISTREAM(*infile,false);
@@ -618,7 +616,7 @@ Gzip_In(const std::string& filename,std::ios::openmode mode)
     if(!*infile) return infile; // the caller reports it
     GZipFileHeader header;
     bool zipped=header.Read(*infile);
-    
+    if(!infile->bad()) infile->clear(); // the file may be shorter than a gzip header
     infile->seekg(0);
     if(!zipped) return infile;
     
-- 
2.43.0


From 556168345936e67a6328417f0c933d1ea0d2ccfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:43 +0000
Subject: [PATCH 43/79] fix: ZIP reader finds the end of the archive from
 behind, reads entries whose sizes follow the data and frees its headers

---
 src/lib/io/ZIP.cpp | 36 +++++++++++++++++++++++-------------
 1 file changed, 23 insertions(+), 13 deletions(-)

diff --git a/src/lib/io/ZIP.cpp b/src/lib/io/ZIP.cpp
index f89e010..0ccd715 100644
--- a/src/lib/io/ZIP.cpp
+++ b/src/lib/io/ZIP.cpp
@@ -151,6 +151,8 @@ struct ZipFileHeader
     unsigned int header_offset; // local header offset
 
     ZipFileHeader()
+        :version(20),flags(0),compression_type(0),stamp_date(0),stamp_time(0),crc(0),
+        compressed_size(0),uncompressed_size(0),header_offset(0)
     {}
 
     ZipFileHeader(const std::string& filename_input)
@@ -159,8 +161,7 @@ struct ZipFileHeader
     {}
 
     bool Read(std::istream& istream,const bool global)
-    {unsigned int sig;
-    unsigned short version,flags;
+    {unsigned int sig=0;
     // read and check for local/global magic
     if(global){
         Read_Primitive(istream,sig);
@@ -178,7 +179,7 @@ struct ZipFileHeader
     Read_Primitive(istream,crc);
     Read_Primitive(istream,compressed_size);
     Read_Primitive(istream,uncompressed_size);
-    unsigned short filename_length,extra_length;
+    unsigned short filename_length=0,extra_length=0;
     Read_Primitive(istream,filename_length);
     Read_Primitive(istream,extra_length);
     unsigned short comment_length=0;
@@ -197,7 +198,7 @@ struct ZipFileHeader
     istream.read(buf,extra_length);
     if(global) istream.read(buf,comment_length);
     delete [] buf;
-    return true;}
+    return !istream.fail();}
 
     void Write(std::ostream& ostream,const bool global) const
     {if(global){
@@ -246,7 +247,7 @@ class ZipStreambufDecompress:public std::streambuf
     static const unsigned short DEFLATE=8;
     static const unsigned short UNCOMPRESSED=0;
 public:
-    ZipStreambufDecompress(std::istream& stream,bool part_of_zip_file_input)
+    ZipStreambufDecompress(std::istream& stream,bool part_of_zip_file_input,const ZipFileHeader* central_header=0)
         :istream(stream),total_read(0),total_uncompressed(0),part_of_zip_file(part_of_zip_file_input),valid(true),inflate_initialized(false)
     {
         strm.zalloc=Z_NULL;strm.zfree=Z_NULL;strm.opaque=Z_NULL;strm.avail_in=0;strm.next_in=Z_NULL;
@@ -255,6 +256,10 @@ public:
         // skip the header
         if(part_of_zip_file){
             valid=header.Read(istream,false);
+            // the sizes of the local header are zero if they follow the data
+            if(central_header){
+                header.compressed_size=central_header->compressed_size;
+                header.uncompressed_size=central_header->uncompressed_size;}
             if(header.compression_type==DEFLATE) compressed_data=true;
             else if(header.compression_type==UNCOMPRESSED) compressed_data=false;
             else{
@@ -422,8 +427,8 @@ class ZIP_FILE_ISTREAM:public std::istream
 {
     ZipStreambufDecompress buf;
 public:
-    ZIP_FILE_ISTREAM(std::istream& istream,bool part_of_zip_file)
-        :std::istream(&buf),buf(istream,part_of_zip_file)
+    ZIP_FILE_ISTREAM(std::istream& istream,bool part_of_zip_file,const ZipFileHeader* central_header=0)
+        :std::istream(&buf),buf(istream,part_of_zip_file,central_header)
     {}
 
     virtual ~ZIP_FILE_ISTREAM()
@@ -525,14 +530,15 @@ Find_And_Read_Central_Header()
     char *buf=new char[static_cast<unsigned int>(read_start)];
     istream.read(buf,read_start);
     int found=-1;
-    for(unsigned int i=0;i<read_start-3;i++){
+    // search backwards, the files in the archive may contain the signature
+    for(int i=static_cast<int>(read_start)-static_cast<int>(read_size_before_comment);i>=0;i--){
         if(buf[i]==0x50 && buf[i+1]==0x4b && buf[i+2]==0x05 && buf[i+3]==0x06){found=i;break;}}
     delete [] buf;
     if(found==-1){std::cerr<<"ZIP: Failed to find zip header"<<std::endl;return false;}
     // seek to end of central header and read
     istream.seekg(end_position-(read_start-found));
-    unsigned int word;
-    unsigned short disk_number1,disk_number2,num_files,num_files_this_disk;
+    unsigned int word=0;
+    unsigned short disk_number1=0,disk_number2=0,num_files=0,num_files_this_disk=0;
     Read_Primitive(istream,word); // end of central
     Read_Primitive(istream,disk_number1); // this disk number
     Read_Primitive(istream,disk_number2); // this disk number
@@ -542,7 +548,7 @@ Find_And_Read_Central_Header()
     Read_Primitive(istream,num_files_this_disk); // one entry in center 
     if(num_files != num_files_this_disk){
         std::cerr<<"ZIP: multi disk zip files are not supported"<<std::endl;return false;}
-    unsigned int size_of_header,header_offset;
+    unsigned int size_of_header=0,header_offset=0;
     Read_Primitive(istream,size_of_header); // size of header
     Read_Primitive(istream,header_offset); // offset to header
     // go to header and read all file headers
@@ -550,7 +556,10 @@ Find_And_Read_Central_Header()
     for(int i=0;i<num_files;i++){
         ZipFileHeader* header=new ZipFileHeader;
         bool valid=header->Read(istream,true);
-        if(valid) filename_to_header[header->filename]=header;}
+        if(!valid){delete header;break;}
+        ZipFileHeader*& entry=filename_to_header[header->filename];
+        delete entry;
+        entry=header;}
     return true;
 }
 //#####################################################################
@@ -561,7 +570,8 @@ std::istream* ZipFileReader::Get_File(const std::string& filename,const bool)
     std::map<std::string,ZipFileHeader*>::iterator i=filename_to_header.find(filename);
     if(i!=filename_to_header.end()){
         ZipFileHeader* header=i->second;
-        istream.seekg((*header).header_offset);return new ZIP_FILE_ISTREAM(istream,true);
+        istream.clear(); // an earlier file may have been the last thing in the archive
+        istream.seekg((*header).header_offset);return new ZIP_FILE_ISTREAM(istream,true,header);
     }
     return 0;
 }
-- 
2.43.0


From 8650dd8032a6bb4073cf9583cb822830a29ce121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:37 +0000
Subject: [PATCH 44/79] fix: merge only copies attributes that align with those
 of the base

---
 src/lib/core/Particle.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/lib/core/Particle.cpp b/src/lib/core/Particle.cpp
index 2d91124..86108b8 100644
--- a/src/lib/core/Particle.cpp
+++ b/src/lib/core/Particle.cpp
@@ -463,6 +463,13 @@ struct IntPairHash {
     }
 };
 
+// Whether values of one attribute can be copied to the other
+template<typename T>
+static bool aligned(const T& base, const T& delta)
+{
+    return base.count == delta.count && (base.type == INDEXEDSTR) == (delta.type == INDEXEDSTR);
+}
+
 // Copies the value of a fixed attribute. Indexed strings are registered and re-indexed in the base.
 static void mergeFixed(ParticlesDataMutable& base, const FixedAttribute& baseAttr,
                        const ParticlesData& delta, const FixedAttribute& deltaAttr)
@@ -519,7 +526,7 @@ void merge(ParticlesDataMutable& base, const ParticlesData& delta, const std::st
     for (int i=0; i<base.numAttributes(); ++i) {
         ParticleAttribute baseAttr, deltaAttr;
         base.attributeInfo(i, baseAttr);
-        if (delta.attributeInfo(baseAttr.name.c_str(), deltaAttr)) {
+        if (delta.attributeInfo(baseAttr.name.c_str(), deltaAttr) && aligned(baseAttr, deltaAttr)) {
             if (baseAttr.type == INDEXEDSTR) {
                 indexStrAttrs.push_back(attrs.size());
             }
@@ -550,7 +557,7 @@ void merge(ParticlesDataMutable& base, const ParticlesData& delta, const std::st
     for (int i=0; i<base.numFixedAttributes(); ++i) {
         FixedAttribute baseAttr, deltaAttr;
         base.fixedAttributeInfo(i, baseAttr);
-        if (delta.fixedAttributeInfo(baseAttr.name.c_str(), deltaAttr)) {
+        if (delta.fixedAttributeInfo(baseAttr.name.c_str(), deltaAttr) && aligned(baseAttr, deltaAttr)) {
             mergeFixed(base, baseAttr, delta, deltaAttr);
         }
     }
-- 
2.43.0


From 728d87a94b6b91a59450871986ddd1d07c4cf009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:37 +0000
Subject: [PATCH 45/79] fix: particles appended by merge have zero for
 attributes that only the base has

---
 src/lib/core/Particle.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/lib/core/Particle.cpp b/src/lib/core/Particle.cpp
index 86108b8..7adffb4 100644
--- a/src/lib/core/Particle.cpp
+++ b/src/lib/core/Particle.cpp
@@ -522,6 +522,7 @@ void merge(ParticlesDataMutable& base, const ParticlesData& delta, const std::st
 
     // Identify the attributes to be copied (base present in delta)
     std::vector<AttributePair<ParticleAttribute>> attrs;
+    std::vector<ParticleAttribute> baseOnlyAttrs; /* appended particles have no value for these */
     std::vector<size_t> indexStrAttrs; /* indexes into attrs */
     for (int i=0; i<base.numAttributes(); ++i) {
         ParticleAttribute baseAttr, deltaAttr;
@@ -531,6 +532,8 @@ void merge(ParticlesDataMutable& base, const ParticlesData& delta, const std::st
                 indexStrAttrs.push_back(attrs.size());
             }
             attrs.emplace_back(AttributePair<ParticleAttribute>({std::move(baseAttr), std::move(deltaAttr)}));
+        } else {
+            baseOnlyAttrs.push_back(std::move(baseAttr));
         }
     }
 
@@ -623,6 +626,9 @@ void merge(ParticlesDataMutable& base, const ParticlesData& delta, const std::st
         }
         if (index == -1) {
             index = base.addParticle();
+            for (const ParticleAttribute& attr : baseOnlyAttrs) {
+                std::memset(base.dataWrite<void>(attr, index), 0, TypeSize(attr.type) * attr.count);
+            }
         }
 
         // Copy the attributes to the new/overridden particle
-- 
2.43.0


From b4f0e720b675785786028471e20cd064dbf2ed8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:15 +0000
Subject: [PATCH 46/79] fix: iterators reach the end when they are incremented
 with the postfix operator

---
 src/lib/PartioIterator.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/PartioIterator.h b/src/lib/PartioIterator.h
index e0ce86c..b42e7de 100644
--- a/src/lib/PartioIterator.h
+++ b/src/lib/PartioIterator.h
@@ -179,7 +179,7 @@ public:
     ParticleIterator operator++(int)
     {
         ParticleIterator newIt(*this);
-        index++;
+        ++(*this);
         return newIt;
     }
 
-- 
2.43.0


From 6018dc38749efb4480ac92e1ea20b2f31547732c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:15 +0000
Subject: [PATCH 47/79] fix: an iterator set up behind the last particle is at
 the end

---
 src/lib/core/ParticleSimple.cpp           | 4 ++--
 src/lib/core/ParticleSimpleInterleave.cpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/lib/core/ParticleSimple.cpp b/src/lib/core/ParticleSimple.cpp
index f8420e4..9c13cdc 100644
--- a/src/lib/core/ParticleSimple.cpp
+++ b/src/lib/core/ParticleSimple.cpp
@@ -304,14 +304,14 @@ addParticles(const int countToAdd)
 ParticlesDataMutable::iterator ParticlesSimple::
 setupIterator(const int index)
 {
-    if(numParticles()==0) return ParticlesDataMutable::iterator();
+    if(index>=numParticles()) return ParticlesDataMutable::iterator();
     return ParticlesDataMutable::iterator(this,index,numParticles()-1);
 }
 
 ParticlesData::const_iterator ParticlesSimple::
 setupConstIterator(const int index) const
 {
-    if(numParticles()==0) return ParticlesDataMutable::const_iterator();
+    if(index>=numParticles()) return ParticlesDataMutable::const_iterator();
     return ParticlesData::const_iterator(this,index,numParticles()-1);
 }
 
diff --git a/src/lib/core/ParticleSimpleInterleave.cpp b/src/lib/core/ParticleSimpleInterleave.cpp
index 47fea21..21b96fa 100644
--- a/src/lib/core/ParticleSimpleInterleave.cpp
+++ b/src/lib/core/ParticleSimpleInterleave.cpp
@@ -292,14 +292,14 @@ addParticles(const int countToAdd)
 ParticlesDataMutable::iterator ParticlesSimpleInterleave::
 setupIterator(const int index)
 {
-    if(numParticles()==0) return ParticlesDataMutable::iterator();
+    if(index>=numParticles()) return ParticlesDataMutable::iterator();
     return ParticlesDataMutable::iterator(this,index,numParticles()-1);
 }
 
 ParticlesData::const_iterator ParticlesSimpleInterleave::
 setupConstIterator(const int index) const
 {
-    if(numParticles()==0) return ParticlesDataMutable::const_iterator();
+    if(index>=numParticles()) return ParticlesDataMutable::const_iterator();
     return ParticlesData::const_iterator(this,index,numParticles()-1);
 }
 
-- 
2.43.0


From ac021a1435ca42d226826794d1e3ec2e18eb5013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:47 +0000
Subject: [PATCH 48/79] fix: clustering clamps the inner radius and converts no
 NaN or infinite number of points

---
 src/lib/core/Particle.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/lib/core/Particle.cpp b/src/lib/core/Particle.cpp
index 7adffb4..940c159 100644
--- a/src/lib/core/Particle.cpp
+++ b/src/lib/core/Particle.cpp
@@ -384,7 +384,7 @@ computeClustering(ParticlesDataMutable* particles, const int numNeighbors,const
         Vec3 position(center[0], center[1], center[2]);
         int id = particles->data<int>(idAttr,index)[0];
         double radius = std::max(0., radiusInside);
-        radius = std::min(100., radiusInside);
+        radius = std::min(100., radius);
         double innerRadius = .01 * radius * radiusSearch;
         double invRadius = 1 / (radiusSearch - innerRadius);
 
@@ -424,7 +424,9 @@ computeClustering(ParticlesDataMutable* particles, const int numNeighbors,const
             if (len < innerRadius) {
                 numInstances = density * len;
             } else {
-                numInstances = density * len * smoothstep(1.-(len-innerRadius)*invRadius);
+                // the inner radius can be all of the search radius, where invRadius is infinite
+                double falloff = 1.-(len-innerRadius)*invRadius;
+                if (falloff > 0) numInstances = density * len * smoothstep(falloff);
             }
             std::vector<std::pair<ParticleIndex,float> > indexAndInterp;
             for (int j = 0; j < numInstances; j++) {
-- 
2.43.0


From 4627dad929003e02e8cc84dd988c69c9a35ef725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:55 +0000
Subject: [PATCH 49/79] fix: reading a damaged file through the cache no longer
 deadlocks and a failed allocation does not leave the cache locked

---
 src/lib/core/ParticleCaching.cpp | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/src/lib/core/ParticleCaching.cpp b/src/lib/core/ParticleCaching.cpp
index b588e9b..8f3cf52 100644
--- a/src/lib/core/ParticleCaching.cpp
+++ b/src/lib/core/ParticleCaching.cpp
@@ -34,6 +34,7 @@ OF THIS SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGES.
 */
 #include <iostream>
 #include <cassert>
+#include <mutex>
 #include "Mutex.h"
 #include "../Partio.h"
 
@@ -43,6 +44,7 @@ namespace Partio{
 namespace
 {
     static PartioMutex mutex;
+    static PartioMutex loadMutex;
 }
     
 // cached read write
@@ -53,28 +55,34 @@ std::map<std::string,ParticlesData*> cachedParticles;
 
 ParticlesData* readCached(const char* filename,const bool sort,const bool verbose,std::ostream& error)
 {
-    mutex.lock();
-    std::map<std::string,ParticlesData*>::iterator i=cachedParticles.find(filename);
+    // Loading has a mutex of its own because readers release the sets they give up on
+    std::lock_guard<PartioMutex> loading(loadMutex);
 
     ParticlesData* p=0;
-    if(i!=cachedParticles.end()){
-        p=i->second;
-        cachedParticlesCount[p]++;
-        if(sort && !cachedParticlesSorted[p]){
-            static_cast<ParticlesDataMutable*>(p)->sort(); // only mutable sets are cached
-            cachedParticlesSorted[p]=true;
+    bool needsSort=false;
+    {
+        std::lock_guard<PartioMutex> lock(mutex);
+        std::map<std::string,ParticlesData*>::iterator i=cachedParticles.find(filename);
+        if(i!=cachedParticles.end()){
+            p=i->second;
+            cachedParticlesCount[p]++;
+            needsSort=sort && !cachedParticlesSorted[p];
+            if(needsSort) cachedParticlesSorted[p]=true;
         }
+    }
+    if(p){
+        if(needsSort) static_cast<ParticlesDataMutable*>(p)->sort(); // only mutable sets are cached
     }else{
         ParticlesDataMutable* p_rw=read(filename,verbose,error);
         if(p_rw){
             if(sort) p_rw->sort();
             p=p_rw;
+            std::lock_guard<PartioMutex> lock(mutex);
             cachedParticles[filename]=p;
             cachedParticlesCount[p]=1;
             cachedParticlesSorted[p]=sort;
         }
     }
-    mutex.unlock();
     return p;
 }
 
-- 
2.43.0


From ecd4eb254099cdfec603c6318ac28f58d7c4201b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:45 +0000
Subject: [PATCH 50/79] fix: BGEO files that repeat an attribute name are read
 without the repetition

---
 src/lib/io/BGEO.cpp | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/src/lib/io/BGEO.cpp b/src/lib/io/BGEO.cpp
index 4cbee6f..4e573e0 100644
--- a/src/lib/io/BGEO.cpp
+++ b/src/lib/io/BGEO.cpp
@@ -79,6 +79,10 @@ struct DummyAccessor{
     DummyAccessor(const T& /*attr*/){}
 };
 
+// attributes that were refused because their name is taken have no index
+template<class TAttribute> bool isValid(const TAttribute& attribute) {return attribute.attributeIndex>=0;}
+bool isValid(const DummyAttribute&) {return true;}
+
 template<class TAttribute, class TAccessor>
 bool getAttributes(int& particleSize, vector<int>& attrOffsets, vector<TAttribute>& attrHandles, vector<TAccessor>& accessors, int nAttrib, istream* input, ParticlesDataMutable* simple, bool headersOnly, std::ostream* errorStream)
 {
@@ -101,15 +105,21 @@ bool getAttributes(int& particleSize, vector<int>& attrOffsets, vector<TAttribut
             if(houdiniType==0) type=FLOAT;
             else if(houdiniType==1) type=INT;
             else if(houdiniType==5) type=VECTOR;
-            attrHandles.push_back(helper.addAttribute(simple,name,type,size));
-            accessors.push_back(TAccessor(attrHandles.back()));
-            attrOffsets.push_back(particleSize);
+            TAttribute attribute=helper.addAttribute(simple,name,type,size);
+            if(isValid(attribute)){ // the values of a repeated name are skipped
+                attrHandles.push_back(attribute);
+                accessors.push_back(TAccessor(attrHandles.back()));
+                attrOffsets.push_back(particleSize);
+            }
             particleSize+=size;
         }else if(houdiniType==4){
             TAttribute attribute=helper.addAttribute(simple,name,INDEXEDSTR,size);
-            attrHandles.push_back(attribute);
-            accessors.push_back(TAccessor(attrHandles.back()));
-            attrOffsets.push_back(particleSize);
+            const bool valid=isValid(attribute);
+            if(valid){ // the values of a repeated name are skipped
+                attrHandles.push_back(attribute);
+                accessors.push_back(TAccessor(attrHandles.back()));
+                attrOffsets.push_back(particleSize);
+            }
             int numIndices=0;
             read<BIGEND>(*input,numIndices);
             for(int ii=0;ii<numIndices && *input;ii++){
@@ -118,7 +128,7 @@ bool getAttributes(int& particleSize, vector<int>& attrOffsets, vector<TAttribut
                 char* indexName=new char[indexNameLength+1];;
                 input->read(indexName,indexNameLength);
                 indexName[indexNameLength]=0;
-                if (!headersOnly) {
+                if (!headersOnly && valid) {
                     int id=helper.registerIndexedStr(simple,attribute,indexName);
                     if(id != ii){
                         if(errorStream) *errorStream <<"Partio: error on read, expected registerIndexStr to return index "<<ii<<" but got "<<id<<" for string "<<indexName<<std::endl;
-- 
2.43.0


From 1c0ecac08333be0988b5a3513105e21ad6e2c586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:02 +0000
Subject: [PATCH 51/79] fix: growing sets of hundreds of millions of particles
 no longer overflows and failed growth keeps the set intact

---
 src/lib/core/ParticleSimple.cpp           |  7 ++++--
 src/lib/core/ParticleSimpleInterleave.cpp | 30 +++++++++++++++++++----
 2 files changed, 30 insertions(+), 7 deletions(-)

diff --git a/src/lib/core/ParticleSimple.cpp b/src/lib/core/ParticleSimple.cpp
index 9c13cdc..160d9e6 100644
--- a/src/lib/core/ParticleSimple.cpp
+++ b/src/lib/core/ParticleSimple.cpp
@@ -42,6 +42,7 @@ OF THIS SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGES.
 #include <map>
 #include <algorithm>
 #include <cassert>
+#include <climits>
 #include <iostream>
 #include <new>
 
@@ -273,7 +274,8 @@ ParticleIndex ParticlesSimple::
 addParticle()
 {
     if(allocatedCount==particleCount){
-        const int newCount=std::max(10,std::max(allocatedCount*3/2,particleCount));
+        if(particleCount==INT_MAX) throw std::bad_alloc();
+        const int newCount=std::max(10,static_cast<int>(std::min<long long>(allocatedCount*3LL/2,INT_MAX)));
         for(unsigned int i=0;i<attributes.size();i++) {
             attributeData[i]=allocate(attributeData[i],(size_t)attributeStrides[i]*(size_t)newCount);
         }
@@ -287,9 +289,10 @@ addParticle()
 ParticlesDataMutable::iterator ParticlesSimple::
 addParticles(const int countToAdd)
 {
+    if(countToAdd>INT_MAX-particleCount) throw std::bad_alloc();
     if(particleCount+countToAdd>allocatedCount){
         // TODO: this should follow 2/3 rule
-        const int newCount=allocatedCount+countToAdd;
+        const int newCount=static_cast<int>(std::min<long long>((long long)allocatedCount+countToAdd,INT_MAX));
         for(unsigned int i=0;i<attributes.size();i++){
             attributeData[i]=allocate(attributeData[i],(size_t)attributeStrides[i]*(size_t)newCount);
             attributeOffsets[i]=attributeData[i]-(char*)0;
diff --git a/src/lib/core/ParticleSimpleInterleave.cpp b/src/lib/core/ParticleSimpleInterleave.cpp
index 21b96fa..da616de 100644
--- a/src/lib/core/ParticleSimpleInterleave.cpp
+++ b/src/lib/core/ParticleSimpleInterleave.cpp
@@ -41,13 +41,24 @@ OF THIS SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGES.
 #include <map>
 #include <algorithm>
 #include <cassert>
+#include <climits>
 #include <iostream>
+#include <new>
 
 #include "KdTree.h"
 
 
 using namespace Partio;
 
+namespace
+{
+// allocation size to grow to
+int grown(const int allocated)
+{
+    return static_cast<int>(std::min<long long>(allocated*3LL/2,INT_MAX));
+}
+}
+
 ParticlesSimpleInterleave::
 ParticlesSimpleInterleave()
     :particleCount(0),allocatedCount(0),data(nullptr),fixedData(nullptr),stride(0),fixedStride(0),kdtree(nullptr)
@@ -269,9 +280,13 @@ addFixedAttribute(const char* attribute,ParticleAttributeType type,const int cou
 ParticleIndex ParticlesSimpleInterleave::
 addParticle()
 {
+    if(particleCount==INT_MAX) throw std::bad_alloc();
     if(allocatedCount==particleCount){
-        allocatedCount=std::max(10,std::max(allocatedCount*3/2,particleCount));
-        data=(char*)realloc(data,(size_t)stride*(size_t)allocatedCount);
+        const int newCount=std::max(10,std::max(grown(allocatedCount),particleCount));
+        char* newData=(char*)realloc(data,(size_t)stride*(size_t)newCount);
+        if(!newData && stride>0) throw std::bad_alloc();
+        data=newData;
+        allocatedCount=newCount;
     }
     return particleCount++;
 }
@@ -279,10 +294,15 @@ addParticle()
 ParticlesDataMutable::iterator ParticlesSimpleInterleave::
 addParticles(const int countToAdd)
 {
+    if(countToAdd>INT_MAX-particleCount) throw std::bad_alloc();
     if(particleCount+countToAdd>allocatedCount){
-        while(allocatedCount<particleCount+countToAdd)
-            allocatedCount=std::max(10,std::max(allocatedCount*3/2,particleCount));
-        data=(char*)realloc(data,(size_t)stride*(size_t)allocatedCount);
+        int newCount=allocatedCount;
+        while(newCount<particleCount+countToAdd)
+            newCount=std::max(10,std::max(grown(newCount),particleCount));
+        char* newData=(char*)realloc(data,(size_t)stride*(size_t)newCount);
+        if(!newData && stride>0) throw std::bad_alloc();
+        data=newData;
+        allocatedCount=newCount;
     }
     int offset=particleCount;
     particleCount+=countToAdd;
-- 
2.43.0


From 1fc1c8fa64a55f0afa3b7ed8699c5c6a2bfe1b5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:46 +0000
Subject: [PATCH 52/79] fix: merging a set into itself terminates

---
 src/lib/core/Particle.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/lib/core/Particle.cpp b/src/lib/core/Particle.cpp
index 940c159..f6f31b4 100644
--- a/src/lib/core/Particle.cpp
+++ b/src/lib/core/Particle.cpp
@@ -497,6 +497,13 @@ static void mergeFixed(ParticlesDataMutable& base, const FixedAttribute& baseAtt
 // if the identifier only exists in one particle set, the particle sets will be aggregated together.
 void merge(ParticlesDataMutable& base, const ParticlesData& delta, const std::string& identifier0, const std::string& identifier1)
 {
+    if (&base == &delta) { // the base grows while the delta is read
+        ParticlesDataMutable* copy = clone(delta);
+        merge(base, *copy, identifier0, identifier1);
+        copy->release();
+        return;
+    }
+
     // Build a map from the identifier value to the particle index
     // and locate the identifier attribute in the base.
     // This assumes unique identifiers per particle.
-- 
2.43.0


From 8a773a0b0a7277839bc99f4846648934c4056016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:00 +0000
Subject: [PATCH 53/79] fix: RIB writer reports a file it cannot open

---
 src/lib/io/RIB.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/lib/io/RIB.cpp b/src/lib/io/RIB.cpp
index 5d5da08..5b43c5f 100644
--- a/src/lib/io/RIB.cpp
+++ b/src/lib/io/RIB.cpp
@@ -33,6 +33,12 @@ using namespace std;
 bool writeRIB(const char* filename, const ParticlesData& p, const bool compressed,std::ostream* errorStream)
 {
     unique_ptr<ostream> output(io::write(filename, compressed));
+    if (!*output)
+    {
+        if(errorStream) *errorStream << "Partio Unable to open file " << filename << endl;
+        return false;
+    }
+
     ParticleAttribute dummy;
     bool foundP     = p.attributeInfo("position",  dummy) || p.attributeInfo("P",     dummy);
     bool foundP2    = p.attributeInfo("position2", dummy) || p.attributeInfo("P2",    dummy);
-- 
2.43.0


From a7f5242326656edf1dbe59a82a5bd3eb8c2d0bec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:22 +0000
Subject: [PATCH 54/79] fix: PDB reader does not iterate over the particles of
 channels without components

---
 src/lib/io/PDB.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/io/PDB.cpp b/src/lib/io/PDB.cpp
index 6168e1b..765e66d 100644
--- a/src/lib/io/PDB.cpp
+++ b/src/lib/io/PDB.cpp
@@ -146,7 +146,7 @@ template<int bits> ParticlesDataMutable* readPDBHelper(const char* filename,cons
             ParticleAttribute attrHandle=simple->addAttribute(name.c_str(),type,count);
             if(headersOnly || attrHandle.attributeIndex<0){ // not wanted or the name was already used
                 complete=io::skip(*input,size);
-            }else{
+            }else if(count>0){ // there is nothing to read for channels without components, however many particles there are
                 Partio::ParticlesDataMutable::iterator it=simple->begin();
                 Partio::ParticleAccessor accessor(attrHandle);
                 it.addAccessor(accessor);
-- 
2.43.0


From c92d6e8106cae560294a2b455dad3ece6290d698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:27 +0000
Subject: [PATCH 55/79] fix: all decompressed data is delivered when the input
 ends before the output does

---
 src/lib/io/ZIP.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/lib/io/ZIP.cpp b/src/lib/io/ZIP.cpp
index 0ccd715..b7420e5 100644
--- a/src/lib/io/ZIP.cpp
+++ b/src/lib/io/ZIP.cpp
@@ -287,9 +287,9 @@ public:
                 istream.read((char*)in,part_of_zip_file?std::min((unsigned int)buffer_size,header.compressed_size-total_read):(unsigned int)buffer_size);
                 strm.avail_in=static_cast<uInt>(istream.gcount());
                 total_read+=strm.avail_in;
-                strm.next_in=(Bytef*)in;
-                if(strm.avail_in==0) break;} // no more input: the compressed data is truncated
-            int ret=inflate(&strm,Z_NO_FLUSH); // decompress
+                strm.next_in=(Bytef*)in;}
+            int ret=inflate(&strm,Z_NO_FLUSH); // decompress, there may be output left even if all input is consumed
+            if(ret==Z_BUF_ERROR) break; // no progress without more input: the compressed data is truncated
             switch(ret){
                 case Z_STREAM_ERROR: 
                     std::cerr<<"libz error Z_STREAM_ERROR"<<std::endl;
-- 
2.43.0


From e74ff50c211f0908214404bd15b41daa1f448d3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:34 +0000
Subject: [PATCH 56/79] fix: clone and cloneSchema of the Python module work
 without a rename map and with one of bytes

---
 src/py/partio.i | 32 ++++++++++++++++++++------------
 1 file changed, 20 insertions(+), 12 deletions(-)

diff --git a/src/py/partio.i b/src/py/partio.i
index 0835111..d7f7bc6 100644
--- a/src/py/partio.i
+++ b/src/py/partio.i
@@ -604,6 +604,11 @@ void merge(ParticlesDataMutable& base, const ParticlesData& delta, const std::st
  */
 %template() std::map<std::string, std::string>;
 
+/* which arguments the typemap below takes, None included: it stands for the default of the generated Python functions */
+%typemap(typecheck,precedence=SWIG_TYPECHECK_POINTER) const std::map<std::string, std::string> * attrNameMap {
+    $1 = PyDict_Check($input) || $input == Py_None;
+}
+
 /* typemap to convert Python arguments into an attrNameMap std::map pointer. */
 %typemap(in) const std::map<std::string, std::string> * attrNameMap (std::map<std::string, std::string> temp) {
     PyObject *key = nullptr;
@@ -612,19 +617,22 @@ void merge(ParticlesDataMutable& base, const ParticlesData& delta, const std::st
 
     if (PyDict_Check($input)) {
         while (PyDict_Next($input, &pos, &key, &value)) {
-            std::string key_str;
-            if (PyBytes_Check(key))
-                key_str = PyBytes_AsString(key);
-            else if (PyUnicode_Check(key))
-                key_str = PyBytes_AsString(PyUnicode_AsUTF8String(key));
-            if (key_str.empty())
+            std::string pair[2];
+            PyObject *objects[2] = {key, value};
+            for (int i = 0; i < 2; i++) {
+                if (PyBytes_Check(objects[i])) {
+                    pair[i] = PyBytes_AsString(objects[i]);
+                } else if (PyUnicode_Check(objects[i])) {
+                    PyObject *utf8 = PyUnicode_AsUTF8String(objects[i]);
+                    if (!utf8)
+                        SWIG_fail;
+                    pair[i] = PyBytes_AsString(utf8);
+                    Py_DECREF(utf8);
+                }
+            }
+            if (pair[0].empty())
                 continue;
-            std::string value_str;
-            if (PyBytes_Check(value))
-                key_str = PyBytes_AsString(value);
-            else if (PyUnicode_Check(value))
-                value_str = PyBytes_AsString(PyUnicode_AsUTF8String(value));
-            temp[std::move(key_str)] = std::move(value_str);
+            temp[std::move(pair[0])] = std::move(pair[1]);
         }
         $1 = &temp;
     } else {
-- 
2.43.0


From 64cd217c83c8a1cbbe9457953e234325a1a53779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:34 +0000
Subject: [PATCH 57/79] fix: query points of the Python module are checked for
 their length and refused with an exception

---
 src/py/partio.i | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/py/partio.i b/src/py/partio.i
index d7f7bc6..8e87a9e 100644
--- a/src/py/partio.i
+++ b/src/py/partio.i
@@ -124,17 +124,24 @@ public:
         PyErr_SetString(PyExc_TypeError,"Expecting a sequence");
         return NULL;
     }
-    int size=PyObject_Length($input);
-    $1.count=size;
+    Py_ssize_t size=PySequence_Size($input);
+    if(size<0) return NULL;
+    if(size>(Py_ssize_t)(sizeof($1.f)/sizeof($1.f[0]))){
+        PyErr_SetString(PyExc_ValueError,"Sequence is too long");
+        return NULL;
+    }
+    $1.count=(int)size;
     for(i=0;i<size;i++){
         PyObject* o=PySequence_GetItem($input,i);
-        if(!PyFloat_Check(o)){
+        if(!o) return NULL;
+        if(!PyFloat_Check(o) && !PyInt_Check(o)){
             Py_XDECREF(o);
             PyErr_SetString(PyExc_ValueError,"Expecting a sequence of floats");
             return NULL;
         }
         $1.f[i]=PyFloat_AsDouble(o);
         Py_DECREF(o);
+        if(PyErr_Occurred()) return NULL;
     } 
 }
 
@@ -253,7 +260,7 @@ public:
     {
         // make sure we are close
         if(center.count!=3){
-            fprintf(stderr,"Need center to be a 3 tuple of floats\n");
+            PyErr_SetString(PyExc_ValueError,"Need center to be a 3 tuple of floats");
             return NULL;
         }
         // find nearest neighbors
@@ -264,7 +271,7 @@ public:
         // build the python return type
         PyObject* list=PyList_New(points.size());
         for(unsigned int i=0;i<points.size();i++){
-            PyObject* tuple=Py_BuildValue("(if)",points[i],pointDistancesSquared[i]);
+            PyObject* tuple=Py_BuildValue("(Kf)",(unsigned long long)points[i],pointDistancesSquared[i]);
             PyList_SetItem(list,i,tuple); // tuple reference is stolen, so no decref needed
         }
         return list;
@@ -277,7 +284,7 @@ public:
     {    
         // make sure we are close
         if(bboxMin.count!=3 || bboxMax.count!=3){
-            fprintf(stderr,"Need bboxMin and bboxMax to be a 3 tuple of floats\n");
+            PyErr_SetString(PyExc_ValueError,"Need bboxMin and bboxMax to be a 3 tuple of floats");
             return NULL;
         }
         // find nearest neighbors
-- 
2.43.0


From d4eaad2f7311a343d574d9d01f0c6c4b89d8d5ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:04 +0000
Subject: [PATCH 58/79] fix: the Python module checks attribute handles and
 particle indices before it uses them

---
 src/py/partio.i | 33 +++++++++++++++++++++++++++++++++
 1 file changed, 33 insertions(+)

diff --git a/src/py/partio.i b/src/py/partio.i
index 8e87a9e..4c90b15 100644
--- a/src/py/partio.i
+++ b/src/py/partio.i
@@ -56,6 +56,24 @@ typedef uint64_t ParticleIndex;
 using namespace Partio;
 
 
+// Handles come from the caller: accept those that describe an attribute of the particle set they are used with
+template<class T> bool checkHandle(bool found,const T& own,const T& handle)
+{
+    if(found && own.type==handle.type && own.count==handle.count) return true;
+    PyErr_SetString(PyExc_ValueError,"No such attribute in the particle set");
+    return false;
+}
+static bool checkAttribute(const ParticlesInfo& particles,const ParticleAttribute& attribute)
+{
+    ParticleAttribute own;
+    return checkHandle(particles.attributeInfo(attribute.attributeIndex,own),own,attribute);
+}
+static bool checkAttribute(const ParticlesInfo& particles,const FixedAttribute& attribute)
+{
+    FixedAttribute own;
+    return checkHandle(particles.fixedAttributeInfo(attribute.attributeIndex,own),own,attribute);
+}
+
 // This is for passing fixed sized arrays
 struct fixedFloatArray
 {
@@ -108,6 +126,11 @@ public:
 };
 
 
+// functions that take a handle without an %extend method of their own
+%typemap(check) const ParticleAttribute& attribute, const FixedAttribute& attribute {
+    if (arg1 && !checkAttribute(*arg1, *$1)) SWIG_fail;
+}
+
 %typemap(in) uint64_t {
 	$1 = (uint64_t) PyLong_AsLong($input);
 }
@@ -303,6 +326,11 @@ public:
     %feature("docstring","Gets attribute data for particleIndex'th particle");
     PyObject* get(const ParticleAttribute& attr,const ParticleIndex particleIndex)
     {
+        if(!checkAttribute(*$self,attr)) return NULL;
+        if(particleIndex>=(ParticleIndex)$self->numParticles()){
+            PyErr_SetString(PyExc_IndexError,"Invalid particle index");
+            return NULL;
+        }
         PyObject* tuple=PyTuple_New(attr.count);
         if(attr.type==Partio::INT || attr.type==Partio::INDEXEDSTR){
             const int* p=$self->data<int>(attr,particleIndex);
@@ -322,6 +350,7 @@ public:
     %feature("docstring","Gets fixed attribute data");
     PyObject* getFixed(const FixedAttribute& attr)
     {
+        if(!checkAttribute(*$self,attr)) return NULL;
         PyObject* tuple=PyTuple_New(attr.count);
         if(attr.type==Partio::INT || attr.type==Partio::INDEXEDSTR){
             const int* p=$self->fixedData<int>(attr);
@@ -341,6 +370,7 @@ public:
     %feature("docstring","Gets a list of all indexed strings for the given attribute handle");
     PyObject* indexedStrs(const ParticleAttribute& attr) const
     {
+        if(!checkAttribute(*$self,attr)) return NULL;
         const std::vector<std::string>& indexes=self->indexedStrs(attr);
         PyObject* list=PyList_New(indexes.size());
         for(size_t k=0;k<indexes.size();k++) PyList_SetItem(list,k,PyString_FromString(indexes[k].c_str()));
@@ -351,6 +381,7 @@ public:
     %feature("docstring","Gets a list of all indexed strings for the given fixed attribute handle");
     PyObject* fixedIndexedStrs(const FixedAttribute& attr) const
     {
+        if(!checkAttribute(*$self,attr)) return NULL;
         const std::vector<std::string>& indexes=self->fixedIndexedStrs(attr);
         PyObject* list=PyList_New(indexes.size());
         for(size_t k=0;k<indexes.size();k++) PyList_SetItem(list,k,PyString_FromString(indexes[k].c_str()));
@@ -365,6 +396,7 @@ public:
         "Data must be specified as tuple.");
     PyObject* set(const ParticleAttribute& attr,const uint64_t particleIndex,PyObject* tuple)
     {
+        if(!checkAttribute(*$self,attr)) return NULL;
         if(!PySequence_Check(tuple)){
             PyErr_SetString(PyExc_TypeError,"Expecting a sequence");
             return NULL;
@@ -422,6 +454,7 @@ public:
         "Data must be specified as tuple.");
     PyObject* setFixed(const FixedAttribute& attr,PyObject* tuple)
     {
+        if(!checkAttribute(*$self,attr)) return NULL;
         if(!PySequence_Check(tuple)){
             PyErr_SetString(PyExc_TypeError,"Expecting a sequence");
             return NULL;
-- 
2.43.0


From c0123c365971adf1c3818d8df1518755f9551582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:04 +0000
Subject: [PATCH 59/79] fix: particle indices that are no index raise an
 exception in the Python module

---
 src/py/partio.i | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/py/partio.i b/src/py/partio.i
index 4c90b15..c195f73 100644
--- a/src/py/partio.i
+++ b/src/py/partio.i
@@ -132,7 +132,11 @@ public:
 }
 
 %typemap(in) uint64_t {
-	$1 = (uint64_t) PyLong_AsLong($input);
+	PyObject* index = PyNumber_Index($input);
+	if (!index) SWIG_fail;
+	$1 = (uint64_t) PyLong_AsUnsignedLongLong(index);
+	Py_DECREF(index);
+	if (PyErr_Occurred()) SWIG_fail;
 }
 %typemap(out) uint64_t {
 	$result = PyLong_FromLong(
-- 
2.43.0


From ebd7d520b39e74ccc501f039ff2218c33ca82c5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:04 +0000
Subject: [PATCH 60/79] fix: set and setFixed of the Python module store
 nothing when a value is refused

---
 src/py/partio.i | 116 ++++++++++++++++++++++++------------------------
 1 file changed, 58 insertions(+), 58 deletions(-)

diff --git a/src/py/partio.i b/src/py/partio.i
index c195f73..492bf8f 100644
--- a/src/py/partio.i
+++ b/src/py/partio.i
@@ -49,6 +49,9 @@ OF THIS SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGES.
 #include <PartioIterator.h>
 #include <PartioAttribute.h>
 #include <sstream>
+#include <vector>
+#include <algorithm>
+#include <climits>
 namespace Partio{
 typedef uint64_t ParticleIndex;
 }
@@ -74,6 +77,45 @@ static bool checkAttribute(const ParticlesInfo& particles,const FixedAttribute&
     return checkHandle(particles.fixedAttributeInfo(attribute.attributeIndex,own),own,attribute);
 }
 
+// Values are converted before any is stored: a refused call changes nothing
+static bool convertInts(PyObject* sequence,Py_ssize_t size,std::vector<int>& values)
+{
+    for(Py_ssize_t i=0;i<size;i++){
+        PyObject* o=PySequence_GetItem(sequence,i);
+        if(!o) return false;
+        if(!PyInt_Check(o)){
+            Py_DECREF(o);
+            PyErr_SetString(PyExc_ValueError,"Expecting a sequence of ints");
+            return false;
+        }
+        long value=PyInt_AsLong(o);
+        Py_DECREF(o);
+        if(value==-1 && PyErr_Occurred()) return false;
+        if(value<INT_MIN || value>INT_MAX){
+            PyErr_SetString(PyExc_OverflowError,"Value does not fit an attribute of type INT");
+            return false;
+        }
+        values.push_back((int)value);
+    }
+    return true;
+}
+static bool convertFloats(PyObject* sequence,Py_ssize_t size,std::vector<float>& values)
+{
+    for(Py_ssize_t i=0;i<size;i++){
+        PyObject* o=PySequence_GetItem(sequence,i);
+        if(!o) return false;
+        if(!PyFloat_Check(o) && !PyInt_Check(o)){
+            Py_DECREF(o);
+            PyErr_SetString(PyExc_ValueError,"Expecting a sequence of floats or ints");
+            return false;
+        }
+        values.push_back((float)PyFloat_AsDouble(o));
+        Py_DECREF(o);
+        if(PyErr_Occurred()) return false;
+    }
+    return true;
+}
+
 // This is for passing fixed sized arrays
 struct fixedFloatArray
 {
@@ -405,45 +447,23 @@ public:
             PyErr_SetString(PyExc_TypeError,"Expecting a sequence");
             return NULL;
         }
-        int size=PyObject_Length(tuple);
+        Py_ssize_t size=PySequence_Size(tuple);
+        if(size<0) return NULL;
         if(size!=attr.count){
             PyErr_SetString(PyExc_ValueError,"Invalid number of parameters");
             return NULL;
         }
         
         if(attr.type==Partio::INT || attr.type==Partio::INDEXEDSTR){
+            std::vector<int> values;
+            if(!convertInts(tuple,size,values)) return NULL;
             int* p=$self->dataWrite<int>(attr,particleIndex);
-            if (p) {
-                for(int i=0;i<size;i++){
-                    PyObject* o=PySequence_GetItem(tuple,i);
-                    if(PyInt_Check(o)){
-                        p[i]=PyInt_AsLong(o);
-                    }else{
-                        Py_XDECREF(o);
-                        PyErr_SetString(PyExc_ValueError,"Expecting a sequence of ints");
-                        return NULL;
-                    }
-                    Py_XDECREF(o);
-                }
-            }
+            if (p) std::copy(values.begin(),values.end(),p);
         }else if(attr.type==Partio::FLOAT || attr.type==Partio::VECTOR){
+            std::vector<float> values;
+            if(!convertFloats(tuple,size,values)) return NULL;
             float* p=$self->dataWrite<float>(attr,particleIndex);
-            if (p) {
-                for(int i=0;i<size;i++){
-                    PyObject* o=PySequence_GetItem(tuple,i);
-                    //fprintf(stderr,"checking %d\n",i);
-                    if(PyFloat_Check(o)){
-                        p[i]=PyFloat_AsDouble(o);
-                    }else if(PyInt_Check(o)){
-                        p[i]=(float)PyInt_AsLong(o);
-                    }else{
-                        Py_XDECREF(o);
-                        PyErr_SetString(PyExc_ValueError,"Expecting a sequence of floats or ints");
-                        return NULL;
-                    }
-                    Py_XDECREF(o);
-                }
-            }
+            if (p) std::copy(values.begin(),values.end(),p);
         }else{
             PyErr_SetString(PyExc_ValueError,"Internal error: invalid attribute type");
             return NULL;
@@ -463,41 +483,21 @@ public:
             PyErr_SetString(PyExc_TypeError,"Expecting a sequence");
             return NULL;
         }
-        int size=PyObject_Length(tuple);
+        Py_ssize_t size=PySequence_Size(tuple);
+        if(size<0) return NULL;
         if(size!=attr.count){
             PyErr_SetString(PyExc_ValueError,"Invalid number of parameters");
             return NULL;
         }
 
         if(attr.type==Partio::INT || attr.type==Partio::INDEXEDSTR){
-            int* p=$self->fixedDataWrite<int>(attr);
-            for(int i=0;i<size;i++){
-                PyObject* o=PySequence_GetItem(tuple,i);
-                if(PyInt_Check(o)){
-                    p[i]=PyInt_AsLong(o);
-                }else{
-                    Py_XDECREF(o);
-                    PyErr_SetString(PyExc_ValueError,"Expecting a sequence of ints");
-                    return NULL;
-                }
-                Py_XDECREF(o);
-            }
+            std::vector<int> values;
+            if(!convertInts(tuple,size,values)) return NULL;
+            std::copy(values.begin(),values.end(),$self->fixedDataWrite<int>(attr));
         }else if(attr.type==Partio::FLOAT || attr.type==Partio::VECTOR){
-            float* p=$self->fixedDataWrite<float>(attr);
-            for(int i=0;i<size;i++){
-                PyObject* o=PySequence_GetItem(tuple,i);
-                //fprintf(stderr,"checking %d\n",i);
-                if(PyFloat_Check(o)){
-                    p[i]=PyFloat_AsDouble(o);
-                }else if(PyInt_Check(o)){
-                    p[i]=(float)PyInt_AsLong(o);
-                }else{
-                    Py_XDECREF(o);
-                    PyErr_SetString(PyExc_ValueError,"Expecting a sequence of floats or ints");
-                    return NULL;
-                }
-                Py_XDECREF(o);
-            }
+            std::vector<float> values;
+            if(!convertFloats(tuple,size,values)) return NULL;
+            std::copy(values.begin(),values.end(),$self->fixedDataWrite<float>(attr));
         }else{
             PyErr_SetString(PyExc_ValueError,"Internal error: invalid attribute type");
             return NULL;
-- 
2.43.0


From 077bb311ef6c8b60c698f664c1d53b746c4784fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:23 +0000
Subject: [PATCH 61/79] fix: the Python module turns None, negative counts and
 library exceptions into Python exceptions

---
 src/py/partio.i | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/src/py/partio.i b/src/py/partio.i
index 492bf8f..1aa9fbf 100644
--- a/src/py/partio.i
+++ b/src/py/partio.i
@@ -44,6 +44,32 @@ OF THIS SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGES.
 %include "std_string.i"
 %include "std_map.i"
 
+// Errors become Python exceptions: those thrown by the library and those a wrapped function has set
+%exception {
+    try {
+        $action
+    } catch (const std::exception& e) {
+        SWIG_Error(SWIG_RuntimeError, e.what());
+    }
+    if (PyErr_Occurred()) SWIG_fail;
+}
+
+// None converts to a null pointer, which no function of this module takes
+%typemap(check) const char*, SWIGTYPE* self, const ParticlesData* particles, ParticlesDataMutable* particles {
+    if (!$1) {
+        PyErr_SetString(PyExc_TypeError, "None is not a valid value for argument $argnum of $symname");
+        SWIG_fail;
+    }
+}
+
+// Numbers of components and of particles
+%typemap(check) const int count {
+    if ($1 < 0) {
+        PyErr_SetString(PyExc_ValueError, "Expecting a count that is not negative");
+        SWIG_fail;
+    }
+}
+
 %{
 #include <Partio.h>
 #include <PartioIterator.h>
-- 
2.43.0


From 43c45b878f913e371407594110da9e8e02e4d9d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:23 +0000
Subject: [PATCH 62/79] fix: BGEO and GEO writers refuse a position attribute
 that is not a vector of size 3

---
 src/lib/io/BGEO.cpp | 4 ++++
 src/lib/io/GEO.cpp  | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/lib/io/BGEO.cpp b/src/lib/io/BGEO.cpp
index 4e573e0..f0ec994 100644
--- a/src/lib/io/BGEO.cpp
+++ b/src/lib/io/BGEO.cpp
@@ -368,6 +368,10 @@ bool writeBGEO(const char* filename,const ParticlesData& p,const bool compressed
         ParticleAttribute attr;
         p.attributeInfo(i,attr);
         if(attr.name=="position"){
+            if(attr.count!=3 || (attr.type!=VECTOR && attr.type!=FLOAT)){
+                if(errorStream) *errorStream <<"Partio: attr 'position' is not a vector of size 3 while trying to write GEO"<<endl;
+                return false;
+            }
             attrOffsets.push_back(0);
             foundPosition=true;
         }else{
diff --git a/src/lib/io/GEO.cpp b/src/lib/io/GEO.cpp
index ed3d5dc..d3655ac 100644
--- a/src/lib/io/GEO.cpp
+++ b/src/lib/io/GEO.cpp
@@ -303,6 +303,10 @@ bool writeGEO(const char* filename,const ParticlesData& p,const bool compressed,
         if(errorStream) *errorStream<<"Partio: didn't find attr 'position' while trying to write GEO"<<endl;
         return false;
     }
+    if(positionHandle.count!=3 || (positionHandle.type!=VECTOR && positionHandle.type!=FLOAT)){
+        if(errorStream) *errorStream<<"Partio: attr 'position' is not a vector of size 3 while trying to write GEO"<<endl;
+        return false;
+    }
 
     ParticlesData::const_iterator iterator=p.begin();
     iterator.addAccessor(positionAccessor);
-- 
2.43.0


From 94514cf07a47d11fb35926d857d242d92c1cb6dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:23 +0000
Subject: [PATCH 63/79] fix: readHeadersVerbose of the Python module returns
 headers, not a data set without data

---
 src/py/partio.i | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/py/partio.i b/src/py/partio.i
index 1aa9fbf..a066f13 100644
--- a/src/py/partio.i
+++ b/src/py/partio.i
@@ -604,9 +604,9 @@ ParticlesDataMutable* create();
 ParticlesDataMutable* read(const char* filename,bool verbose=true,std::ostream& error=std::cerr);
 
 %inline %{
-    template<class T> PyObject* readHelper(T* ptr,std::stringstream& ss){
+    template<class T> PyObject* readHelper(T* ptr,std::stringstream& ss,swig_type_info* type=SWIGTYPE_p_ParticlesDataMutable){
         PyObject* tuple=PyTuple_New(2);
-        PyObject* instance = SWIG_NewPointerObj(SWIG_as_voidptr(ptr), SWIGTYPE_p_ParticlesDataMutable, SWIG_POINTER_OWN);
+        PyObject* instance = SWIG_NewPointerObj(SWIG_as_voidptr(ptr), type, SWIG_POINTER_OWN);
         PyTuple_SetItem(tuple,0,instance);
         PyTuple_SetItem(tuple,1,PyString_FromString(ss.str().c_str()));
         return tuple;
@@ -625,7 +625,7 @@ ParticlesDataMutable* read(const char* filename,bool verbose=true,std::ostream&
     PyObject* readHeadersVerbose(const char* filename){
         std::stringstream ss;
         ParticlesInfo* ptr=readHeaders(filename,true,ss); 
-        return readHelper(ptr,ss);
+        return readHelper(ptr,ss,SWIGTYPE_p_ParticlesInfo); // there is no data to access
     }
 %}
 %feature("docstring","Reads the header/attribute information from disk and returns the tuple particleObject,errorMsg");
-- 
2.43.0


From 1463ac9a70e343a0b7ef601c40dd5aaa1ed0d78a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:48 +0000
Subject: [PATCH 64/79] fix: the Python module returns strings that are not
 UTF-8 instead of broken lists

---
 src/py/partio.i | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/py/partio.i b/src/py/partio.i
index a066f13..2ceb786 100644
--- a/src/py/partio.i
+++ b/src/py/partio.i
@@ -44,6 +44,8 @@ OF THIS SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGES.
 %include "std_string.i"
 %include "std_map.i"
 
+%fragment("SWIG_From_std_string"); // used below
+
 // Errors become Python exceptions: those thrown by the library and those a wrapped function has set
 %exception {
     try {
@@ -445,7 +447,7 @@ public:
         if(!checkAttribute(*$self,attr)) return NULL;
         const std::vector<std::string>& indexes=self->indexedStrs(attr);
         PyObject* list=PyList_New(indexes.size());
-        for(size_t k=0;k<indexes.size();k++) PyList_SetItem(list,k,PyString_FromString(indexes[k].c_str()));
+        for(size_t k=0;k<indexes.size();k++) PyList_SetItem(list,k,SWIG_From_std_string(indexes[k]));
         return list;
     }
 
@@ -456,7 +458,7 @@ public:
         if(!checkAttribute(*$self,attr)) return NULL;
         const std::vector<std::string>& indexes=self->fixedIndexedStrs(attr);
         PyObject* list=PyList_New(indexes.size());
-        for(size_t k=0;k<indexes.size();k++) PyList_SetItem(list,k,PyString_FromString(indexes[k].c_str()));
+        for(size_t k=0;k<indexes.size();k++) PyList_SetItem(list,k,SWIG_From_std_string(indexes[k]));
         return list;
     }
 }
@@ -608,7 +610,7 @@ ParticlesDataMutable* read(const char* filename,bool verbose=true,std::ostream&
         PyObject* tuple=PyTuple_New(2);
         PyObject* instance = SWIG_NewPointerObj(SWIG_as_voidptr(ptr), type, SWIG_POINTER_OWN);
         PyTuple_SetItem(tuple,0,instance);
-        PyTuple_SetItem(tuple,1,PyString_FromString(ss.str().c_str()));
+        PyTuple_SetItem(tuple,1,SWIG_From_std_string(ss.str()));
         return tuple;
     }
 %}
-- 
2.43.0


From 3206475ca5b3dc5a31ccfd966f732472587e4d9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:54 +0000
Subject: [PATCH 65/79] fix: the Python module releases data sets made by
 clone, cloneSchema and computeClustering

---
 src/py/partio.i | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/py/partio.i b/src/py/partio.i
index 2ceb786..76e6dc9 100644
--- a/src/py/partio.i
+++ b/src/py/partio.i
@@ -654,6 +654,7 @@ void print(const ParticlesData* particles);
 
 %feature("autodoc");
 %feature("docstring","Creates a clustered particle set");
+%newobject computeClustering;
 ParticlesDataMutable* computeClustering(ParticlesDataMutable* particles,const int numNeighbors,const double radiusSearch,const double radiusInside,const int connections,const double density)=0;
 
 %feature("autodoc");
@@ -714,10 +715,12 @@ void merge(ParticlesDataMutable& base, const ParticlesData& delta, const std::st
 
 %feature("autodoc");
 %feature("docstring","Clone a particle set's attribute schema");
+%newobject cloneSchema;
 ParticlesDataMutable* cloneSchema(const ParticlesData& other, const std::map<std::string, std::string>* attrNameMap=nullptr);
 
 %feature("autodoc");
 %feature("docstring","Clone a particle set");
+%newobject clone;
 ParticlesDataMutable* clone(const ParticlesData& other, bool particles, const std::map<std::string, std::string>* attrNameMap=nullptr);
 
 %feature("autodoc");
-- 
2.43.0


From d9f20d0718ebcef73a486b7db34ddf58885a5167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:08 +0000
Subject: [PATCH 66/79] fix: partinfo without a file name prints its usage

---
 src/tools/partinfo.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/tools/partinfo.cpp b/src/tools/partinfo.cpp
index ee667c1..7a4d002 100644
--- a/src/tools/partinfo.cpp
+++ b/src/tools/partinfo.cpp
@@ -111,6 +111,10 @@ int main(int argc, char* argv[])
             particleIndices.insert(atoi(argv[i]));
         }
     }
+    if (!filename) {
+        help();
+        return 1;
+    }
     Partio::ParticlesDataMutable* p = Partio::read(filename);
     if (!p) {
         std::cerr << "Unable to read \"" << filename << "\"\n";
-- 
2.43.0


From 5e60928e7eb3dd6861bae2617625fc8266d66f53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:08 +0000
Subject: [PATCH 67/79] fix: partattr reports attributes that the file does not
 have

---
 src/tools/partattr.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/tools/partattr.cpp b/src/tools/partattr.cpp
index b8997f6..f8eac66 100644
--- a/src/tools/partattr.cpp
+++ b/src/tools/partattr.cpp
@@ -56,7 +56,11 @@ int main(int argc,char *argv[])
     }
 
     Partio::ParticleAttribute attrhandle;
-    p->attributeInfo(attrName.c_str(), attrhandle);
+    if (!p->attributeInfo(attrName.c_str(), attrhandle)) {
+        std::cerr << "No attribute " << attrName << " in " << argv[1] << std::endl;
+        p->release();
+        return 1;
+    }
     maxParticles = std::min(maxParticles, p->numParticles());
 
     if (attrhandle.type == Partio::INT) {
-- 
2.43.0


From 5161b6d626865a647aac46df16b7add72effdef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:08 +0000
Subject: [PATCH 68/79] fix: partattr prints every component of int and string
 attributes and tells tokens without a string

---
 src/tools/partattr.cpp | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/tools/partattr.cpp b/src/tools/partattr.cpp
index f8eac66..022bc03 100644
--- a/src/tools/partattr.cpp
+++ b/src/tools/partattr.cpp
@@ -66,14 +66,25 @@ int main(int argc,char *argv[])
     if (attrhandle.type == Partio::INT) {
         for(int i = 0; i < maxParticles; i++){
             const int* data = p->data<int>(attrhandle,i);
-            std::cout << attrName << "[" << i << "]=" << data[0] << std::endl;
+            std::cout << attrName << "[" << i << "]=" << (attrhandle.count != 1 ? "(" : "");
+            for(int j = 0; j < attrhandle.count; j++) {
+                if (j) std::cout << ",";
+                std::cout << data[j];
+            }
+            std::cout << (attrhandle.count != 1 ? ")" : "") << std::endl;
         }
     }
     else if (attrhandle.type == Partio::INDEXEDSTR){
         const std::vector<std::string>& indexedStrs = p->indexedStrs(attrhandle);
         for(int i = 0; i < std::min(maxParticles, p->numParticles());i++){
-            const int index = p->data<int>(attrhandle,i)[0];
-            std::cout << attrName << "[" << i << "]='" << indexedStrs[index]<<"'\n";
+            const int* data = p->data<int>(attrhandle,i);
+            std::cout << attrName << "[" << i << "]=" << (attrhandle.count != 1 ? "(" : "");
+            for(int j = 0; j < attrhandle.count; j++) {
+                if (j) std::cout << ",";
+                if (data[j] < 0 || data[j] >= (int)indexedStrs.size()) std::cout << "<out-of-bounds>";
+                else std::cout << "'" << indexedStrs[data[j]] << "'";
+            }
+            std::cout << (attrhandle.count != 1 ? ")\n" : "\n");
        }
     }
     else {
-- 
2.43.0


From 302e98bf2ec4d6fac5c705b6286a68b91826e25e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:53 +0000
Subject: [PATCH 69/79] fix: PDC writer leaves out attributes that have no
 components

---
 src/lib/io/PDC.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/lib/io/PDC.cpp b/src/lib/io/PDC.cpp
index c8d0b3b..59d07ab 100644
--- a/src/lib/io/PDC.cpp
+++ b/src/lib/io/PDC.cpp
@@ -161,11 +161,19 @@ bool writePDC(const char* filename,const ParticlesData& p,const bool compressed,
     write<BIGEND>(*output, (int)0); // tmp1
     write<BIGEND>(*output, (int)0); // tmp2
     write<BIGEND>(*output, (int)p.numParticles());
-    write<BIGEND>(*output, (int)p.numAttributes());
+    int numAttributes = 0; // attributes without components are left out
+    for(int attrIndex = 0; attrIndex < p.numAttributes(); attrIndex++){
+        ParticleAttribute attr;
+        p.attributeInfo(attrIndex,attr);
+        if(attr.count > 0) numAttributes++;
+        else if(errorStream) *errorStream << "Partio: Unable to write attribute '" << attr.name << "' without components to a pdc file" << endl;
+    }
+    write<BIGEND>(*output, numAttributes);
 
     for(int attrIndex = 0; attrIndex < p.numAttributes(); attrIndex++){
         ParticleAttribute attr;
         p.attributeInfo(attrIndex,attr);
+        if(attr.count <= 0) continue;
 
         // write attribute name
         write<BIGEND>(*output, (int)attr.name.length());
-- 
2.43.0


From 0576ed4322807ea412f58024ea9e7aba0c2ffdb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:53 +0000
Subject: [PATCH 70/79] fix: GEO reader keeps the width of indexed string
 attributes

---
 src/lib/io/GEO.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib/io/GEO.cpp b/src/lib/io/GEO.cpp
index d3655ac..b431344 100644
--- a/src/lib/io/GEO.cpp
+++ b/src/lib/io/GEO.cpp
@@ -141,9 +141,9 @@ ParticlesDataMutable* readGEO(const char* filename,const bool headersOnly,std::o
             if(errorStream) *errorStream<<"Partio: attr '"<<attrName<<"' of type index (string) found, treating as integer"<<endl;
             int nIndices=0;
             *input>>nIndices;
-            ParticleAttribute attribute=simple->addAttribute(attrName.c_str(),INDEXEDSTR,1);
+            ParticleAttribute attribute=simple->addAttribute(attrName.c_str(),INDEXEDSTR,max(0,min(nvals,65535)));
             attrs.push_back(attribute);
-            valid=valid && attribute.attributeIndex>=0;
+            valid=valid && attribute.attributeIndex>=0 && attribute.count==nvals;
             for(int j=0;valid && j<nIndices && input->good();j++){
                 string indexName;
                 //*input>>indexName;
-- 
2.43.0


From d6431bcf05283587e529c301101a29933fdeef09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:53 +0000
Subject: [PATCH 71/79] fix: PDA writer leaves out attributes whose width the
 format cannot hold

---
 src/lib/io/PDA.cpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/lib/io/PDA.cpp b/src/lib/io/PDA.cpp
index 5b41148..91b6bf3 100644
--- a/src/lib/io/PDA.cpp
+++ b/src/lib/io/PDA.cpp
@@ -157,15 +157,19 @@ bool writePDA(const char* filename,const ParticlesData& p,const bool compressed,
 
     vector<ParticleAttribute> attrs;
     for (int aIndex=0;aIndex<p.numAttributes();aIndex++){
-        attrs.push_back(ParticleAttribute());
-        p.attributeInfo(aIndex,attrs[aIndex]);
-        *output<<" "<<attrs[aIndex].name;
+        ParticleAttribute attr;
+        p.attributeInfo(aIndex,attr);
+        if(attr.count!=(attr.type==VECTOR?3:1)){ // the format only has scalars and vectors of size 3
+            if(errorStream) *errorStream<<"Partio: Unable to write data type "<<TypeName(attr.type)<<"["<<attr.count<<"] to a pda file"<<endl;
+            continue;
+        }
+        attrs.push_back(attr);
+        *output<<" "<<attr.name;
     }
     *output<<endl;
 
-    // TODO: assert right count
     *output<<"TYPES"<<endl;
-    for (int aIndex=0;aIndex<p.numAttributes();aIndex++){
+    for (unsigned int aIndex=0;aIndex<attrs.size();aIndex++){
         switch(attrs[aIndex].type){
             case FLOAT: *output<<" R";break;
             case VECTOR: *output<<" V";break;
-- 
2.43.0


From bbfac90a63bb58f199ef7c375dbef4292fcc2268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:11 +0000
Subject: [PATCH 72/79] fix: BGEO writer refuses names, strings and widths that
 do not fit the format

---
 src/lib/io/BGEO.cpp | 31 +++++++++++++++++++++++++++++++
 1 file changed, 31 insertions(+)

diff --git a/src/lib/io/BGEO.cpp b/src/lib/io/BGEO.cpp
index f0ec994..ad66d22 100644
--- a/src/lib/io/BGEO.cpp
+++ b/src/lib/io/BGEO.cpp
@@ -336,6 +336,36 @@ ParticlesDataMutable* readBGEO(const char* filename,const bool headersOnly,std::
     return simple;
 }
 
+// names, strings and widths are stored with 16 bits
+static bool fitsBGEO(const string& name,int count,const vector<string>& strings)
+{
+    bool fits=name.size()<=0xffff && count<=0xffff;
+    for(size_t i=0;i<strings.size();i++) fits=fits && strings[i].size()<=0xffff;
+    return fits;
+}
+
+static bool fitsBGEO(const ParticlesData& p,std::ostream* errorStream)
+{
+    const vector<string> none;
+    for(int i=0;i<p.numAttributes();i++){
+        ParticleAttribute attr;
+        p.attributeInfo(i,attr);
+        if(!fitsBGEO(attr.name,attr.count,attr.type==INDEXEDSTR?p.indexedStrs(attr):none)){
+            if(errorStream) *errorStream <<"Partio: attr '"<<attr.name<<"' or one of its strings is too long for GEO"<<endl;
+            return false;
+        }
+    }
+    for(int i=0;i<p.numFixedAttributes();i++){
+        FixedAttribute attr;
+        p.fixedAttributeInfo(i,attr);
+        if(!fitsBGEO(attr.name,attr.count,attr.type==INDEXEDSTR?p.fixedIndexedStrs(attr):none)){
+            if(errorStream) *errorStream <<"Partio: fixed attr '"<<attr.name<<"' or one of its strings is too long for GEO"<<endl;
+            return false;
+        }
+    }
+    return true;
+}
+
 bool writeBGEO(const char* filename,const ParticlesData& p,const bool compressed,std::ostream* errorStream)
 {
     unique_ptr<ostream> output(io::write(filename, compressed));
@@ -343,6 +373,7 @@ bool writeBGEO(const char* filename,const ParticlesData& p,const bool compressed
         if(errorStream) *errorStream <<"Partio Unable to open file "<<filename<<endl;
         return false;
     }
+    if(!fitsBGEO(p,errorStream)) return false;
 
     int magic=((((('B'<<8)|'g')<<8)|'e')<<8)|'o';
     char versionChar='V';
-- 
2.43.0


From 6ee77e9daa8ca2f49a1293560295fb577acf431b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:00:58 +0000
Subject: [PATCH 73/79] fix: PTC reader numbers repeated attribute names the
 same in every locale

---
 src/lib/io/PTC.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lib/io/PTC.cpp b/src/lib/io/PTC.cpp
index 41b2e15..65c193e 100644
--- a/src/lib/io/PTC.cpp
+++ b/src/lib/io/PTC.cpp
@@ -180,6 +180,7 @@ ParticlesDataMutable* readPTC(const char* filename,const bool headersOnly,std::o
         ParticleAttribute info;
         while(simple->attributeInfo(effectiveName.c_str(),info)){
             ostringstream ss;
+            ss.imbue(locale::classic());
             ss<<name<<unique++;
             effectiveName=ss.str();
         }
-- 
2.43.0


From eb33c5cda856bbe6990ff003aba7ff082673d19c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:09:55 +0000
Subject: [PATCH 74/79] fix: partedit removes attributes under Python 3 and
 keeps the values of all the others

---
 src/tools/partedit.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/tools/partedit.py b/src/tools/partedit.py
index 0c7774e..756b95e 100644
--- a/src/tools/partedit.py
+++ b/src/tools/partedit.py
@@ -94,7 +94,7 @@ def copyParticles(src, dst):
     srcAttrs = {attr.name:attr for attr in srcAttrs}
     dstAttrs = {attr.name:attr for attr in dstAttrs}
     attrs = {'src':[], 'dst':[]}
-    for name, srcAttr in srcAttrs.iteritems():
+    for name, srcAttr in srcAttrs.items():
         if name in dstAttrs:
             attrs['src'].append(srcAttr)
             attrs['dst'].append(dstAttrs[name])
@@ -102,8 +102,8 @@ def copyParticles(src, dst):
     numParticles = src.numParticles()
     dst.addParticles(numParticles)
     for pnum in range(numParticles):
-        for anum in range(len(attrs)):
-            dst.set(attrs['dst'][anum], pnum, src.get(attrs['src'][anum], pnum))
+        for srcAttr, dstAttr in zip(attrs['src'], attrs['dst']):
+            dst.set(dstAttr, pnum, src.get(srcAttr, pnum))
 
 #------------------------------------------------------------------------------
 #------------------------------------------------------------------------------
-- 
2.43.0


From bf8e3bff9cac776c92baf7c738bc61517f369662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:09:55 +0000
Subject: [PATCH 75/79] fix: partedit keeps the indexed strings of what it
 copies, removes from and saves as a delta

---
 src/tools/partedit.py | 50 +++++++++++++++++++++++++------------------
 1 file changed, 29 insertions(+), 21 deletions(-)

diff --git a/src/tools/partedit.py b/src/tools/partedit.py
index 756b95e..59d6214 100644
--- a/src/tools/partedit.py
+++ b/src/tools/partedit.py
@@ -45,18 +45,29 @@ _attrTypes = [partio.NONE, partio.VECTOR, partio.FLOAT, partio.INT, partio.INDEX
 def copy(srcData):
     """ Creates a copy of the given partio data set """
 
-    dstData = partio.create()
-    srcAttrs = []
-    dstAttrs = []
-    for anum in range(srcData.numAttributes()):
-        attr = srcData.attributeInfo(anum)
-        srcAttrs.append(attr)
-        dstAttrs.append(dstData.addAttribute(attr.name, attr.type, attr.count))
-    dstData.addParticles(srcData.numParticles())
-    for pnum in range(srcData.numParticles()):
-        for anum, srcAttr in enumerate(srcAttrs):
-            dstData.set(dstAttrs[anum], pnum, srcData.get(srcAttr, pnum))
-    return dstData
+    return partio.clone(srcData, True)
+
+#------------------------------------------------------------------------------
+def addAttributeLike(src, attr, dst):
+    """ Adds an attribute of src to dst, with its indexed strings.
+        Returns a handle to the new attribute.
+    """
+
+    newAttr = dst.addAttribute(attr.name, attr.type, attr.count)
+    if attr.type == partio.INDEXEDSTR:
+        for string in src.indexedStrs(attr):
+            dst.registerIndexedStr(newAttr, string)
+    return newAttr
+
+#------------------------------------------------------------------------------
+def copyFixedAttribute(src, attr, dst):
+    """ Copies a fixed attribute of src to dst, with its indexed strings. """
+
+    newAttr = dst.addFixedAttribute(attr.name, attr.type, attr.count)
+    if attr.type == partio.INDEXEDSTR:
+        for string in src.fixedIndexedStrs(attr):
+            dst.registerFixedIndexedStr(newAttr, string)
+    dst.setFixed(newAttr, src.getFixed(attr))
 
 #--------------------------------------------------------------------------
 def getAttrs(numAttributesFunc, attributeInfoFunc, sort=False):
@@ -257,7 +268,7 @@ class ParticleData(QObject):
         for anum in range(numAttrs):
             attr = self.data.attributeInfo(anum)
             oldAttrs.append(attr)
-            newAttr = data.addAttribute(attr.name, attr.type, attr.count)
+            newAttr = addAttributeLike(self.data, attr, data)
             newAttrs.append(newAttr)
 
         data.addParticles(len(modifiedHashes))
@@ -313,7 +324,7 @@ class ParticleData(QObject):
         want = [pnum for pnum in range(self.data.numParticles()) if pnum not in indices ]
         newData = partio.clone(self.data, False)
         for attr in attributes:
-            newData.addAttribute(attr.name, attr.type, attr.count)
+            addAttributeLike(self.data, attr, newData)
         newData.addParticles(len(want))
         for i, idx in enumerate(want):
             for attr in attributes:
@@ -354,16 +365,14 @@ class ParticleData(QObject):
         for anum in range(self.numAttributes()):
             attr = self.attributeInfo(anum)
             if attr.name not in names:
-                newData.addAttribute(attr.name, attr.type, attr.count)
+                addAttributeLike(self.data, attr, newData)
 
         # Copy particle data with new attributes
         copyParticles(src=self.data, dst=newData)
 
         # Copy fixed attributes
         for anum in range(self.data.numFixedAttributes()):
-            oldAttr = self.data.fixedAttributeInfo(anum)
-            newAttr = newData.addFixedAttribute(oldAttr.name, oldAttr.type, oldAttr.count)
-            newData.setFixed(newAttr, self.data.getFixed(oldAttr))
+            copyFixedAttribute(self.data, self.data.fixedAttributeInfo(anum), newData)
 
         self.setData(newData)
         self.setDirty(True)
@@ -381,15 +390,14 @@ class ParticleData(QObject):
         # Copy the regular (non-fixed) attributes and particles
         for anum in range(self.data.numAttributes()):
             attr = self.attributeInfo(anum)
-            newData.addAttribute(attr.name, attr.type, attr.count)
+            addAttributeLike(self.data, attr, newData)
         copyParticles(src=self.data, dst=newData)
 
         # Create new fixed attributes
         for anum in range(self.data.numFixedAttributes()):
             srcAttr = self.fixedAttributeInfo(anum)
             if srcAttr.name not in names:
-                dstAttr = newData.addFixedAttribute(srcAttr.name, srcAttr.type, srcAttr.count)
-                newData.setFixed(dstAttr, self.data.getFixed(srcAttr))
+                copyFixedAttribute(self.data, srcAttr, newData)
 
         self.setData(newData)
         self.setDirty(True)
-- 
2.43.0


From e85f01c5e08c00330385d76e50b005eb5a63b87c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:09:55 +0000
Subject: [PATCH 76/79] fix: partedit keeps edits made before a removal in the
 deltas it saves

---
 src/tools/partedit.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/tools/partedit.py b/src/tools/partedit.py
index 59d6214..8070834 100644
--- a/src/tools/partedit.py
+++ b/src/tools/partedit.py
@@ -146,8 +146,15 @@ class ParticleData(QObject):
         """ Sets the data, linking class methods to partio methods and
             notifying all observers that the data set has changed.
         """
-        self.data = data
         self.originalData = copy(data)
+        self.replaceData(data)
+
+    #--------------------------------------------------------------------------
+    def replaceData(self, data):
+        """ Replaces the data with an edited version of it, which leaves
+            the original that deltas are taken from alone.
+        """
+        self.data = data
         self.facade()
         self.dataReset.emit()
 
@@ -330,7 +337,7 @@ class ParticleData(QObject):
             for attr in attributes:
                 newData.set(attr, i, self.data.get(attr, idx))
 
-        self.setData(newData)
+        self.replaceData(newData)
         self.setDirty(True)
 
     #--------------------------------------------------------------------------
@@ -374,7 +381,7 @@ class ParticleData(QObject):
         for anum in range(self.data.numFixedAttributes()):
             copyFixedAttribute(self.data, self.data.fixedAttributeInfo(anum), newData)
 
-        self.setData(newData)
+        self.replaceData(newData)
         self.setDirty(True)
 
 
@@ -399,7 +406,7 @@ class ParticleData(QObject):
             if srcAttr.name not in names:
                 copyFixedAttribute(self.data, srcAttr, newData)
 
-        self.setData(newData)
+        self.replaceData(newData)
         self.setDirty(True)
 
 #------------------------------------------------------------------------------
-- 
2.43.0


From 7018191b9754795e045b1213cb4fdb351f9682be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:14:10 +0000
Subject: [PATCH 77/79] fix: partedit adds particles to sets that have none

---
 src/tools/partedit.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/tools/partedit.py b/src/tools/partedit.py
index 8070834..9d89b36 100644
--- a/src/tools/partedit.py
+++ b/src/tools/partedit.py
@@ -304,14 +304,16 @@ class ParticleData(QObject):
 
         idAttr = self.attributeInfo('id')
         if idAttr:
-            newId = max(self.data.get(idAttr, pnum)[0] for pnum in range(numParticles)) + 1
+            newId = max([self.data.get(idAttr, pnum)[0] for pnum in range(numParticles)], default=-1) + 1
 
         for anum in range(numAttr):
             attr = self.attributeInfo(anum)
             if idAttr and attr.name == 'id':
                 value = (newId,)
-            else:
+            elif numParticles:
                 value = self.get(attr, numParticles-1)
+            else: # there is no particle to copy
+                value = (0,) * attr.count
             self.set(attr, numParticles, value)
 
         self.particleAdded.emit(index)
-- 
2.43.0


From 3d62f1eec71d97cf88a0f68e985dbce2f7027766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:14:10 +0000
Subject: [PATCH 78/79] fix: partedit's deltas hold all particles when an
 attribute took the place of another one

---
 src/tools/partedit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools/partedit.py b/src/tools/partedit.py
index 9d89b36..b6902f3 100644
--- a/src/tools/partedit.py
+++ b/src/tools/partedit.py
@@ -247,7 +247,7 @@ class ParticleData(QObject):
                 item = []
                 for anum in range(numAttrs):
                     attr = data.attributeInfo(anum)
-                    item.append(data.get(attr, pnum))
+                    item.append((attr.name, data.get(attr, pnum)))
                 items[hash(str(item))] = pnum
             return items
 
-- 
2.43.0


From 09170eb5c0cd534952c171320cc97e378dfbf504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:15:04 +0000
Subject: [PATCH 79/79] fix: partedit stores values that are set back to what
 the cell showed first

---
 src/tools/partedit.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/tools/partedit.py b/src/tools/partedit.py
index b6902f3..1084309 100644
--- a/src/tools/partedit.py
+++ b/src/tools/partedit.py
@@ -496,6 +496,7 @@ class AttrWidget(QFrame): # pylint:disable=R0903
             item.clearFocus()
         if changed:
             self.value = tuple(newValue)
+            self.textValues = [item.text() for item in self.items]
             if self.particleNum >= 0:
                 self.data.set(self.attr, self.particleNum, self.value)
             else:
-- 
2.43.0

