From 892be3f19be250b8817b71db85715bd34bb4cb6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:44 +0000
Subject: [PATCH 01/95] fix: QDClock::Sync rejected equal times because of
 floating point rounding

---
 src/tools/QDClock.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/tools/QDClock.cpp b/src/tools/QDClock.cpp
index 9c6aa42..4a2c96a 100644
--- a/src/tools/QDClock.cpp
+++ b/src/tools/QDClock.cpp
@@ -120,10 +120,12 @@ namespace QDLIB
    void QDClock::Sync(const QDClock &master)
    {
       double step = master.Time() / _dt;
+      double n = round(step);
 
-      if ( (step - round(step)) != 0)
+      /* allow for the rounding error of the products step * dt */
+      if ( !(fabs(step - n) <= 1e-9 * (1 + fabs(n))) )
          throw (EParamProblem("Clock sync error: non integer step"));
 
-      _step = int(step);
+      _step = int(n);
    }
 }
-- 
2.43.0


From 439101b9114dfccfd0e30af4be6c94cd1da12467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:12 +0000
Subject: [PATCH 02/95] fix: Getopt ignored unknown options and missing values,
 and looked options up by side effect

---
 src/tools/Getopt.cpp | 29 +++++++++++++++++++----------
 src/tools/Getopt.h   |  1 +
 2 files changed, 20 insertions(+), 10 deletions(-)

diff --git a/src/tools/Getopt.cpp b/src/tools/Getopt.cpp
index df1d0bc..566be8a 100644
--- a/src/tools/Getopt.cpp
+++ b/src/tools/Getopt.cpp
@@ -18,7 +18,7 @@ namespace QDLIB {
    /**
    * Constructor.
    */
-   Getopt::Getopt()
+   Getopt::Getopt() : _argc(0), _parse_error(false), _argv(NULL)
    {
       SetHelp('h', "Show this help");
    }
@@ -34,7 +34,7 @@ namespace QDLIB {
    * \param optdef define the possible options \see manpage getopt.3
    * 
    */
-   Getopt::Getopt(int argc, char **argv, char *optdef)
+   Getopt::Getopt(int argc, char **argv, char *optdef) : _parse_error(false)
    {
    ParseArgs(argc, argv, optdef);
    }
@@ -51,6 +51,7 @@ namespace QDLIB {
    basename = argv[0];
       while ( (i = getopt(argc, argv, optdef)) != -1){
       char a = (char) i;
+      if ( a == '?' ) _parse_error = true; /* unknown option or missing value */
       if ( a != '?' && optarg != NULL) {
 	 value_map[a] = optarg;
       } else if (a != '?' && optarg == NULL){
@@ -181,8 +182,15 @@ namespace QDLIB {
 	    return false;
       }
       
+      if (_parse_error)
+      {
+	    cerr << "\t>> Unknown option or missing option value!" << endl;
+	    ShowHelp();
+	    return false;
+      }
+
       for (map<char, string>::iterator it = help_map.begin(); it != help_map.end(); it++){
-	 if ( ! parameter_map[(*it).first].empty() && req_map[(*it).first] && value_map[(*it).first].empty() ){
+	 if ( ! parameter_map[(*it).first].empty() && req_map[(*it).first] && !GetOption((*it).first) ){
 	    cerr << "\t>> Parameter -" << (*it).first << " is missing!" << endl;
 	    ShowHelp();
 	    return false;
@@ -216,7 +224,7 @@ namespace QDLIB {
    */
    void Getopt::GetOption(char letter, char &value)
    {
-      if (!value_map[letter].empty())
+      if (GetOption(letter))
 	 value = value_map[letter][0];
       else 
 	 value = default_map[letter][0];;
@@ -229,7 +237,7 @@ namespace QDLIB {
    */
    void Getopt::GetOption(char letter, int &value)
    {
-      if (!value_map[letter].empty())
+      if (GetOption(letter))
 	 sscanf( value_map[letter].c_str(), "%d", &value);
       else 
 	 sscanf( default_map[letter].c_str(), "%d", &value);
@@ -242,7 +250,7 @@ namespace QDLIB {
    */
    void Getopt::GetOption(char letter, double &value)
    {
-      if (!value_map[letter].empty())
+      if (GetOption(letter))
 	 sscanf( value_map[letter].c_str(), "%lf", &value);
       else
 	 sscanf( default_map[letter].c_str(), "%lf", &value);
@@ -255,7 +263,7 @@ namespace QDLIB {
    */
    void Getopt::GetOption(char letter, string &value)
    {
-      if (!value_map[letter].empty())
+      if (GetOption(letter))
 	 value = value_map[letter];
       else
 	 value = default_map[letter];
@@ -274,8 +282,9 @@ namespace QDLIB {
    */
    bool QDLIB::Getopt::GetNonOption(int number, char *value, int len)
    {
-      if (((unsigned int) optind + number) < _argc ){
-	 strncpy(value, _argv[value_map.size() + 1 + number], len);
+      if (number >= 0 && ((unsigned int) optind + number) < _argc ){
+	 strncpy(value, _argv[optind + number], len);
+	 if (len > 0) value[len-1] = '\0';
 	 return true;
       } else return false;
       
@@ -291,7 +300,7 @@ namespace QDLIB {
    */
    bool QDLIB::Getopt::GetNonOption(int number, string &value)
    {
-      if (((unsigned int) optind + number) < _argc ){
+      if (number >= 0 && ((unsigned int) optind + number) < _argc ){
 	 value = _argv[optind + number];
 	 return true;
       } else return false;
diff --git a/src/tools/Getopt.h b/src/tools/Getopt.h
index bc2d852..c7b7c73 100644
--- a/src/tools/Getopt.h
+++ b/src/tools/Getopt.h
@@ -55,6 +55,7 @@ namespace QDLIB {
        map<char, bool> req_map;
        string basename;
        unsigned int _argc;
+       bool _parse_error;
        char **_argv;
        string _description;
        
-- 
2.43.0


From bcddac3f4b2fbcd5c4c1c7466e6b767a7575fdc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:05 +0000
Subject: [PATCH 03/95] fix: temporary files kept a stale size and leaked after
 errors

---
 src/tools/TmpFile.h | 63 ++++++++++++++++++++++-----------------------
 1 file changed, 31 insertions(+), 32 deletions(-)

diff --git a/src/tools/TmpFile.h b/src/tools/TmpFile.h
index 83eb651..01fe2dc 100644
--- a/src/tools/TmpFile.h
+++ b/src/tools/TmpFile.h
@@ -74,19 +74,18 @@ namespace QDLIB {
    template<typename T>
    void TmpFile<T>::_Upsize(size_t size)
    {  
-      int res = lseek(_fd, size*sizeof(T)-1, SEEK_SET);
+      off_t res = lseek(_fd, size*sizeof(T)-1, SEEK_SET);
       if (res == -1){
-         close(_fd);
-         _open = false;
+         Close();
          throw(EIOError("Seek error"));
       }
       
       res = write(_fd, "", 1); /* Make a dummy write force the OS to enlarge the file */
       if (res == -1){
-         close(_fd);
-         _open = false;
-         FS::Remove(_fname);
-         throw(EIOError(errno, _fname));
+         int err = errno;
+         string name = _fname;
+         Close();
+         throw(EIOError(err, name));
       }         
             
       _size = size;
@@ -110,7 +109,6 @@ namespace QDLIB {
       if (_open) Close();
      
       _size = size;
-      _mmap = memmap;
       
       /* Look for the tmp path */
       if (gp.isPresent("tmpdir")){
@@ -143,14 +141,15 @@ namespace QDLIB {
       if (size > 0) _Upsize(size);
     
       /* Create memory mapping */
-      if (_mmap) {
+      if (memmap) {
          _mapbase = mmap(NULL, size*sizeof(T), PROT_WRITE|PROT_READ, MAP_SHARED, _fd, 0);
          
-         if (_mapbase == NULL){
-            close(_fd);
-            _open = false;
-	    FS::Remove(_fname);
-            throw(EIOError(errno, _fname));
+         if (_mapbase == MAP_FAILED){
+            int err = errno;
+            string name = _fname;
+            _mapbase = NULL;
+            Close();
+            throw(EIOError(err, name));
          }
          _mmap = true;
          return (T*) _mapbase;
@@ -173,24 +172,27 @@ namespace QDLIB {
       /* Resize */
       int res = ftruncate(_fd, size*sizeof(T));
       if (res != 0){
-         close(_fd);
-         _open = false;
-	 FS::Remove(_fname);
-         throw (EIOError(errno, _fname));
+         int err = errno;
+         string name = _fname;
+         Close();
+         throw (EIOError(err, name));
       }
+      _size = size;
 
        
       /* Remap memory */
       if (_mmap) {
          msync(_mapbase, oldsize*sizeof(T), MS_SYNC);
-       _mapbase = mremap(_mapbase, oldsize*sizeof(T), size*sizeof(T), MREMAP_MAYMOVE);
-        
-        if (_mapbase == MAP_FAILED){
-           close(_fd);
-           _open = false;
-	   FS::Remove(_fname);
-           throw(EIOError(errno, _fname));
+         void *newbase = mremap(_mapbase, oldsize*sizeof(T), size*sizeof(T), MREMAP_MAYMOVE);
+
+        if (newbase == MAP_FAILED){
+           int err = errno;
+           string name = _fname;
+           _size = oldsize; /* still the mapped range */
+           Close();
+           throw(EIOError(err, name));
         }
+        _mapbase = newbase;
         
         _mmap = true;
         return (T*) _mapbase;
@@ -246,10 +248,9 @@ namespace QDLIB {
    template<typename T>
    void TmpFile<T>::Seek(size_t pos)
    {
-      int res = lseek(_fd, pos*sizeof(T), SEEK_SET);
+      off_t res = lseek(_fd, pos*sizeof(T), SEEK_SET);
       if (res == -1){
-         close(_fd);
-         _open = false;
+         Close();
          throw(EIOError("Seek error"));
       }
    }
@@ -262,8 +263,7 @@ namespace QDLIB {
    {
       ssize_t res = read(_fd, (T*) buf, sizeof(T) * count);
       if (res == -1 || (size_t) res != count * sizeof(T) ){
-         close(_fd);
-         _open = false;
+         Close();
          throw(EIOError("Read error"));
       }
       return (size_t) res;
@@ -277,8 +277,7 @@ namespace QDLIB {
    {
       ssize_t res = write(_fd, (T*) buf, sizeof(T) * count);
       if (res == -1 || (size_t) res != count * sizeof(T) ){
-         close(_fd);
-         _open = false;
+         Close();
          throw(EIOError("Write error"));
       }
    }
-- 
2.43.0


From f2a071cd9fcaa975ce4d4823b55dcb267e4d9e0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:05 +0000
Subject: [PATCH 04/95] fix: memory limit could underflow, ignored block
 rounding and idle slots; malformed limits

---
 src/tools/Memory.cpp | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/tools/Memory.cpp b/src/tools/Memory.cpp
index 6a5f8e2..09f7dda 100644
--- a/src/tools/Memory.cpp
+++ b/src/tools/Memory.cpp
@@ -85,7 +85,7 @@ namespace QDLIB
      */
     size_t Memory::CurrentSizeAvail() const
     {
-       return _MaxMem - _used;
+       return (_MaxMem > _used) ? _MaxMem - _used : 0; /* the limit can be lowered below the usage */
     }
 
     /**
@@ -108,9 +108,12 @@ namespace QDLIB
        size_t factor;
        string s = value;
 
-       if (s[s.length()-1] == 'B')
+       if (!s.empty() && s[s.length()-1] == 'B')
           s.erase(s.length()-1, 1); /* Remove suffix B */
 
+       if (s.empty())
+          throw( EParamProblem ("Wrong format for memory type number") );
+
        /* Search for unit suffix K, M or G and convert to factor */
        char suffix = s[s.length()-1];
        switch(suffix){
@@ -148,7 +151,7 @@ namespace QDLIB
 
        /* Check validity */
        size_t found=s.find_first_not_of("0123456789");
-       if (found!=string::npos)
+       if (s.empty() || found!=string::npos)
           throw( EParamProblem ("Wrong format for memory type number") );
 
        /* Convert to number */
@@ -204,10 +207,6 @@ namespace QDLIB
      */
     void Memory::Align(void **p, size_t size)
     {
-       /* Check if we have enough free space */
-       if ( CurrentSizeAvail() < size)
-          throw(EMemory());
-
        // calc amounts of blocks needed
        size_t nb = size / QDMEM_BLOCK_SIZE;
        if (size % QDMEM_BLOCK_SIZE > 0) nb++;
@@ -217,6 +216,13 @@ namespace QDLIB
        //cout << nb << " "<< slot_map.size() << " " << free_map.size() << " " << CurrentSizeAvail() <<endl;
 
        if (fit == free_map.end()){
+          /* Check if we have enough free space, unused slots can be given up for it */
+          if ( CurrentSizeAvail() / QDMEM_BLOCK_SIZE < nb) {
+             Cleanup();
+             if ( CurrentSizeAvail() / QDMEM_BLOCK_SIZE < nb)
+                throw(EMemory());
+          }
+
           // Create a new entry
           int ret = ::posix_memalign( p, QDLIB_DATA_ALIGNMENT, nb * QDMEM_BLOCK_SIZE);
           if (ret != 0) throw(EMemory());
-- 
2.43.0


From 398c0f93f0c872b9aa59c07ba152408a18cadb10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:21 +0000
Subject: [PATCH 05/95] fix: parameter sets lost precision and types in their
 text form, hung on long lines and returned garbage for malformed numbers

---
 src/tools/ParamContainer.cpp | 85 +++++++++++++++++++++++-------------
 src/tools/helpers.cpp        | 25 +++--------
 2 files changed, 61 insertions(+), 49 deletions(-)

diff --git a/src/tools/ParamContainer.cpp b/src/tools/ParamContainer.cpp
index 18e9b2a..27705ff 100644
--- a/src/tools/ParamContainer.cpp
+++ b/src/tools/ParamContainer.cpp
@@ -7,12 +7,28 @@
 #include <fstream>
 #include <string.h>
 #include <stdio.h>
+#include <stdlib.h>
 #include "ParamContainer.h"
 #include "tools/helpers.h"
 
 
 namespace QDLIB {
 
+   /**
+    * Shortest text (at least default precision) which reads back as the same value.
+    */
+   static string Double2String(double value)
+   {
+      for (int digits = 6; ; digits++) {
+         stringstream ss;
+
+         ss.precision(digits);
+         ss << value;
+         if (digits >= 17 || strtod(ss.str().c_str(), NULL) == value || value != value)
+            return ss.str();
+      }
+   }
+
    /**
     * Translate a enum into textual representation.
     */
@@ -94,6 +110,8 @@ namespace QDLIB {
    void ParamContainer::Params(const string_map params)
    {
          _param_map = params;
+         _type_map.clear();
+         _it = _param_map.begin();
    }
 
    /**
@@ -149,7 +167,8 @@ namespace QDLIB {
    bool ParamContainer::GetValue(const string name, int &value)
    {
       if ( _param_map.find(name) != _param_map.end()){
-         sscanf( _param_map[name].c_str(), "%d", &value);
+         if (sscanf( _param_map[name].c_str(), "%d", &value) != 1)
+            throw (EParamProblem("Not a valid number", name));
          return true;
       }
       else {
@@ -167,7 +186,8 @@ namespace QDLIB {
    bool ParamContainer::GetValue(const string name, unsigned int &value)
    {
       if ( _param_map.find(name) != _param_map.end()){
-         sscanf( _param_map[name].c_str(), "%u", &value);
+         if (sscanf( _param_map[name].c_str(), "%u", &value) != 1)
+            throw (EParamProblem("Not a valid number", name));
          return true;
       }
       else {
@@ -186,7 +206,8 @@ namespace QDLIB {
    bool ParamContainer::GetValue(const string name, long int &value)
    {
       if ( _param_map.find(name) != _param_map.end()){
-         sscanf( _param_map[name].c_str(), "%ld", &value);
+         if (sscanf( _param_map[name].c_str(), "%ld", &value) != 1)
+            throw (EParamProblem("Not a valid number", name));
          return true;
       }
       else {
@@ -204,7 +225,8 @@ namespace QDLIB {
    bool ParamContainer::GetValue(const string name, size_t &value)
    {
       if ( _param_map.find(name) != _param_map.end()){
-         sscanf( _param_map[name].c_str(), "%lu", &value);
+         if (sscanf( _param_map[name].c_str(), "%lu", &value) != 1)
+            throw (EParamProblem("Not a valid number", name));
          return true;
       }
       else {
@@ -223,7 +245,8 @@ namespace QDLIB {
    bool ParamContainer::GetValue(const string name, double &value)
    {
       if ( _param_map.find(name) != _param_map.end()){
-         sscanf( _param_map[name].c_str(), "%lf", &value);
+         if (sscanf( _param_map[name].c_str(), "%lf", &value) != 1)
+            throw (EParamProblem("Not a valid number", name));
          return true;
       }
       else {
@@ -281,12 +304,14 @@ namespace QDLIB {
       vector<string> vbuf;
 
       if (! GetValue(name, buf) ) return false;
+      if (buf.empty()) return true; /* no elements */
 
       split(buf, vbuf);
 
       for (size_t i=0; i < vbuf.size(); i++){
          double value;
-         sscanf( vbuf[i].c_str(), "%lf", &value);
+         if (sscanf( vbuf[i].c_str(), "%lf", &value) != 1)
+            throw (EParamProblem("Not a valid number", name));
          array.push_back(value);
       }
 
@@ -303,12 +328,14 @@ namespace QDLIB {
       vector<string> vbuf;
 
       if (! GetValue(name, buf) ) return false;
+      if (buf.empty()) return true; /* no elements */
 
       split(buf, vbuf);
 
       for (size_t i=0; i < vbuf.size(); i++){
          int value;
-         sscanf( vbuf[i].c_str(), "%d", &value);
+         if (sscanf( vbuf[i].c_str(), "%d", &value) != 1)
+            throw (EParamProblem("Not a valid number", name));
          array.push_back(value);
       }
 
@@ -325,12 +352,14 @@ namespace QDLIB {
       vector<string> vbuf;
 
       if (! GetValue(name, buf) ) return false;
+      if (buf.empty()) return true; /* no elements */
 
       split(buf, vbuf);
 
       for (size_t i=0; i < vbuf.size(); i++){
          unsigned int value;
-         sscanf( vbuf[i].c_str(), "%u", &value);
+         if (sscanf( vbuf[i].c_str(), "%u", &value) != 1)
+            throw (EParamProblem("Not a valid number", name));
          array.push_back(value);
       }
 
@@ -347,6 +376,7 @@ namespace QDLIB {
       vector<string> vbuf;
 
       if (! GetValue(name, buf) ) return false;
+      if (buf.empty()) return true; /* no elements */
 
       split(buf, vbuf);
 
@@ -367,6 +397,7 @@ namespace QDLIB {
       vector<string> vbuf;
 
       if (! GetValue(name, buf) ) return false;
+      if (buf.empty()) return true; /* no elements */
 
       split(buf, vbuf);
 
@@ -579,14 +610,11 @@ namespace QDLIB {
     * \param name  Name of parameter
     * \param value Referenze to value
     *
-    * TODO: check for number of digits (formating)
+    * The number of digits is chosen such that reading it back yields the same value.
     */
    void ParamContainer::SetValue(const string name, const double &value)
    {
-     stringstream ss;
-
-     ss << value;
-     ss >> _param_map[name];
+     _param_map[name] = Double2String(value);
 
      _type_map[name] = t_double;
    }
@@ -616,7 +644,7 @@ namespace QDLIB {
       stringstream cat;
 
       for (size_t i=0; i < n; i++){
-         cat << values[i];
+         cat << Double2String(values[i]);
          if (i != n-1) cat << ",";
       }
 
@@ -731,16 +759,10 @@ namespace QDLIB {
    void ParamContainer::Parse(istream &stream, const char* eof)
    {
       string s;
-      char line[MAX_LINE_LENGTH];
       size_t pos;
 
       clear();
-      while (!stream.eof()) { // Reading loop
-         stream.getline(line, MAX_LINE_LENGTH);
-         //if (file.fail()) return false;
-
-         s.assign(line);
-
+      while (getline(stream, s)) { // Reading loop
          if (eof != NULL)
             if (s == eof) break;
 
@@ -754,6 +776,9 @@ namespace QDLIB {
             trim(key); // remove whitespaces
             trim(val);
 
+            /* Lines begining with "#" are treated as comment */
+            if (key.find("#") == 0) continue;
+
             /* look for type definition */
             ParamContainer::datatype type = ParamContainer::t_undef;
             size_t tpos1 = key.find("[");
@@ -761,8 +786,8 @@ namespace QDLIB {
 
             if (tpos1 != key.npos) { /* extract typedef */
                string stype;
-               if (tpos2 != key.npos)
-                  stype = key.substr(tpos1+1, tpos1);
+               if (tpos2 != key.npos && tpos2 > tpos1)
+                  stype = key.substr(tpos1+1, tpos2-tpos1-1);
                else
                   stype = key.substr(tpos1+1);
 
@@ -772,10 +797,8 @@ namespace QDLIB {
                trim(key);
             }
 
-            /*  At least the key has to contain something
-             * Lines begining with "#" are treated as comment
-             */
-            if (!key.empty() && key.find("#") != 0) {
+            /*  At least the key has to contain something */
+            if (!key.empty()) {
                SetValue(key, val, type);
             }
          }
@@ -784,14 +807,14 @@ namespace QDLIB {
 
    bool ParamContainer::ReadFromFile(const string& name)
    {
-      fstream file;
+      ifstream file;
 
       file.open(name.c_str());           // Open file
       if (file.fail()) return false;
 
       Parse(file);
 
-      return true;
+      return !file.bad();
 
    }
 
@@ -846,12 +869,12 @@ namespace QDLIB {
       ofstream file;
 
       file.open(name.c_str(),  ios_base::out);
-      if( file.bad() ) return false;
+      if( file.fail() ) return false;
 
       Write(file, with_types);
 
       file.close();
-      if( file.bad() ) return false;
+      if( file.fail() ) return false;
 
       return true;
    }
diff --git a/src/tools/helpers.cpp b/src/tools/helpers.cpp
index 64f69f0..5b43979 100644
--- a/src/tools/helpers.cpp
+++ b/src/tools/helpers.cpp
@@ -9,27 +9,16 @@ namespace QDLIB {
    std::string& trim(std::string &s)
    {
       size_t pos;
-	    
-      pos = s.find_first_of(" \t");          // trim from left      
-      if (pos == 0){
-	 pos = s.find_first_not_of(" \t");
-	 if (pos != s.npos) {
-	    s.erase(0,pos);
-	 }
-      }
-	 
-      pos = s.find_last_of(" \t");          // trim from right
-      if (pos == 0){                        // only whitespaces
+
+      pos = s.find_last_not_of(" \t");      // trim from right
+      if (pos == s.npos) {                  // only whitespaces
 	 s.clear();
 	 return s;
       }
-      if (pos == s.size()-1) {
-	 pos = s.find_last_not_of(" \t");
-	 if (pos != s.npos) {
-	    s.erase(pos+1);
-	 }
-      }
-	 
+      s.erase(pos+1);
+
+      s.erase(0, s.find_first_not_of(" \t")); // trim from left
+
       return s;
    }
 
-- 
2.43.0


From e7c2e8e9088cdca1ad63b8f6c06e21cb92453b26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:05 +0000
Subject: [PATCH 06/95] fix: idle memory slots were handed out beyond a lowered
 limit

---
 src/tools/Memory.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/tools/Memory.cpp b/src/tools/Memory.cpp
index 09f7dda..55242c3 100644
--- a/src/tools/Memory.cpp
+++ b/src/tools/Memory.cpp
@@ -211,6 +211,9 @@ namespace QDLIB
        size_t nb = size / QDMEM_BLOCK_SIZE;
        if (size % QDMEM_BLOCK_SIZE > 0) nb++;
 
+       /* Idle slots may not be handed out beyond the limit */
+       if (_used > _MaxMem) Cleanup();
+
        /* look for a free slot in the index */
        multimap<size_t, map<void*, SlotEntry>::iterator>::iterator fit = free_map.find(nb);
        //cout << nb << " "<< slot_map.size() << " " << free_map.size() << " " << CurrentSizeAvail() <<endl;
-- 
2.43.0


From 03e911df596ac11a4733470fd06ae983e7921130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:08 +0000
Subject: [PATCH 07/95] fix: truncated files were accepted, failed writes went
 unnoticed and incompressible data could not be stored

---
 src/tools/FileSingle.h | 365 +++++++++++++++++++++++++++--------------
 1 file changed, 240 insertions(+), 125 deletions(-)

diff --git a/src/tools/FileSingle.h b/src/tools/FileSingle.h
index dc56c4a..313e013 100644
--- a/src/tools/FileSingle.h
+++ b/src/tools/FileSingle.h
@@ -260,6 +260,7 @@ namespace QDLIB
 
 
          compMethod_t _compMethod; /* Compression method */
+         compMethod_t _payloadMethod; /* Compression method used for the prepared raw data */
 
          void BuildMetaFileName(string &name);
          void BuildDataFileName(string &name);
@@ -269,12 +270,15 @@ namespace QDLIB
          void WriteIntroToStream();
          void PrepareStreamPayload(C *data, stringstream& buffer);
          void WriteDataToStream(const string &data_buf);
+         void CheckOutStream();
          void FinalizeOutStream();
-
+         void AbortOutStream();
 
          void OpenINStream();
+         void CloseINStream();
          void CheckIntroFromStream();
          const FileSingleHeaderPm& ReadMetaFromStream();
+         void ReadBytesFromStream(string& buf, size_t size);
 
          void ReadDataFromStream(C *data);
 
@@ -287,6 +291,8 @@ namespace QDLIB
 
          /* General */
          void PrepareData(C *data);
+         void PrepareData(C *data, compMethod_t method);
+         void ReleaseBuffer();
          void InitDataStorage(C* data);
          const FileSingleHeaderPm& ReadMeta();
 
@@ -417,14 +423,28 @@ namespace QDLIB
      _counter(0), _increment(1), _sin(NULL), _our_in_stream(false), _intro_read(false),
      _sout(NULL), _our_out_stream(false), _intro_written(false),
      _buffer(NULL), _buffer_size(0),
-     _drop_meta(false), _counter_last(0),  _fsize(0), _freadsize(0), _compMethod(UNCOMPRESSED)
+     _drop_meta(false), _counter_last(0),  _fsize(0), _freadsize(0), _compMethod(UNCOMPRESSED),
+     _payloadMethod(UNCOMPRESSED)
    {
    }
 
    template<class C>
    FileSingle<C>::~FileSingle()
    {
-     if (_buffer != NULL) Memory::Instance().Free(_buffer);
+     ReleaseBuffer();
+     CloseINStream();
+     AbortOutStream();
+   }
+
+   /**
+    * Free the buffer for the prepared raw data.
+    */
+   template<class C>
+   void FileSingle<C>::ReleaseBuffer()
+   {
+      if (_buffer != NULL) Memory::Instance().Free(_buffer);
+      _buffer = NULL;
+      _buffer_size = 0;
    }
 
    /**
@@ -605,7 +625,8 @@ namespace QDLIB
       if (deflateInit(&strm, 4) != Z_OK) /* Init stream */
          throw(EIOError("libz init failed"));
 
-      _buffer_size = data->sizeBytes();
+      ReleaseBuffer();
+      _buffer_size = deflateBound(&strm, data->sizeBytes());  /* data may be incompressible */
       Memory::Instance().Align((void**) &_buffer, _buffer_size);
 
       /* input buffer */
@@ -616,8 +637,10 @@ namespace QDLIB
       strm.next_out = reinterpret_cast<Bytef*>(_buffer);
       strm.avail_out = _buffer_size;
 
-      if (deflate(&strm, Z_FINISH) != Z_STREAM_END)
+      if (deflate(&strm, Z_FINISH) != Z_STREAM_END){
+         deflateEnd(&strm);
          throw (EIOError("zlib deflate failed"));
+      }
 
       /* This is what we have */
       _buffer_size = _buffer_size - strm.avail_out;
@@ -649,6 +672,7 @@ namespace QDLIB
 
       if ((size_t) in->gcount() != size || in->bad()){
          Memory::Instance().Free(buffer);
+         inflateEnd(&strm);
          throw(EIOError("Can't read zlib compressed data"));
       }
 
@@ -659,9 +683,10 @@ namespace QDLIB
       strm.next_out = reinterpret_cast<Bytef*>(data->begin(0));
       strm.avail_out = data->sizeBytes();
 
-      if (inflate(&strm, Z_FINISH) != Z_STREAM_END)
+      if (inflate(&strm, Z_FINISH) != Z_STREAM_END || strm.avail_out != 0)
       { /* Compression */
          Memory::Instance().Free(buffer);
+         inflateEnd(&strm);
          throw(EIOError("zlib decompression failed"));
       }
 
@@ -690,7 +715,8 @@ namespace QDLIB
       if (BZ2_bzCompressInit(&strm, 4, 0, 0) != BZ_OK) /* Init stream */
          throw(EIOError("libz init failed"));
 
-      _buffer_size = data->sizeBytes();
+      ReleaseBuffer();
+      _buffer_size = data->sizeBytes() + data->sizeBytes() / 100 + 600;  /* data may be incompressible */
       Memory::Instance().Align((void**) &_buffer, _buffer_size);
 
       /* input buffer */
@@ -701,8 +727,10 @@ namespace QDLIB
       strm.next_out = _buffer;
       strm.avail_out = _buffer_size;
 
-      if (BZ2_bzCompress(&strm, BZ_FINISH) != BZ_STREAM_END)
+      if (BZ2_bzCompress(&strm, BZ_FINISH) != BZ_STREAM_END){
+         BZ2_bzCompressEnd(&strm);
          throw (EIOError("bzip2 compress failed"));
+      }
 
       /* This is what we have */
       _buffer_size = _buffer_size - strm.avail_out;
@@ -736,6 +764,7 @@ namespace QDLIB
 
       if ((size_t) in->gcount() != size || in->bad()){
          Memory::Instance().Free(buffer);
+         BZ2_bzDecompressEnd(&strm);
          throw(EIOError("Can't read bzip compressed data"));
       }
 
@@ -746,9 +775,10 @@ namespace QDLIB
       strm.next_out = reinterpret_cast<char*>(data->begin(0));
       strm.avail_out = data->sizeBytes();
 
-      if (BZ2_bzDecompress(&strm) != BZ_STREAM_END)
+      if (BZ2_bzDecompress(&strm) != BZ_STREAM_END || strm.avail_out != 0)
       { /* Compression */
          Memory::Instance().Free(buffer);
+         BZ2_bzDecompressEnd(&strm);
          throw(EIOError("zlib decompression failed"));
       }
 
@@ -776,15 +806,16 @@ namespace QDLIB
 
       file.open(name.c_str());
 
-      if (!file.is_open())
-           throw(EIOError("Can not open binary file for reading", name));
+      if (!file.is_open()) {
+           /* Containers of several states have only a meta file */
+           MetaData.header.set_compression(FileSingleHeader_Compression_UNCOMPRESSED);
+           return MetaData.header.compression();
+      }
 
       /* Let's check if we find a compression tag */
       char lastbytes[ZLIB_MLEN];
 
-      file.seekg(0, ios::end);
-      size_t len = file.tellg();
-      file.seekg(len-ZLIB_MLEN);
+      file.seekg(-ZLIB_MLEN, ios::end);
 
       file.read(reinterpret_cast<char*>(lastbytes), ZLIB_MLEN);
 
@@ -810,7 +841,7 @@ namespace QDLIB
       if (!_drop_meta || _counter != _counter_last) {
 
          if (!p.WriteToFile(_name + METAFILE_SUFFIX))
-            EIOError("Can not write meta file");
+            throw(EIOError("Can not write meta file", _name + METAFILE_SUFFIX));
       }
    }
 
@@ -863,13 +894,28 @@ namespace QDLIB
     */
    template<class C>
    void FileSingle<C>::PrepareData(C *data)
+   {
+      PrepareData(data, _compMethod);
+
+      /* Compression doesn't pay off => store as it is. A compressed file is always smaller
+       * than the data, so that it can't be mistaken for uncompressed data if it is truncated. */
+      if (_payloadMethod != UNCOMPRESSED && _buffer_size + ZLIB_MLEN >= data->sizeBytes())
+         PrepareData(data, UNCOMPRESSED);
+   }
+
+   /**
+    * Prepare content data for writing with the given compression method.
+    */
+   template<class C>
+   void FileSingle<C>::PrepareData(C *data, compMethod_t method)
    {
       Memory& mem = Memory::Instance();
 
-      switch (_compMethod) {
+      _payloadMethod = method;
+      switch (method) {
          case UNCOMPRESSED: /* just copy to buffer */
 
-            if (_buffer != NULL) mem.Free(_buffer);
+            ReleaseBuffer();
 
             mem.Align((void**) &_buffer, data->sizeBytes());
             mem.Copy(_buffer, (char*) data->begin(0), data->sizeBytes());
@@ -952,14 +998,13 @@ namespace QDLIB
       /* Create file if needed */
       if (_sout == NULL){
          ofstream* out = new ofstream(); // TODO: Fix this. don't go via an ofstream
-         _our_out_stream = true;
 
          string name;
          BuildDataFileName(name);
          out->open(name.c_str(), ios_base::binary);
 
          if (! out->is_open() ){
-            FinalizeOutStream();
+            delete out;
             throw(EIOError("Can not open binary stream for writing", name));
          }
          _sout = out;
@@ -980,6 +1025,17 @@ namespace QDLIB
    void FileSingle<C>::WriteDataToStream(const string &data_buf)
    {
       _sout->write(reinterpret_cast<const char*>(data_buf.data()), data_buf.size());
+      CheckOutStream();
+   }
+
+   /**
+    * Report write errors.
+    */
+   template<class C>
+   void FileSingle<C>::CheckOutStream()
+   {
+      if (_sout != NULL && !_sout->good())
+         throw(EIOError("Writing to stream failed", _name));
    }
 
    /**
@@ -987,9 +1043,30 @@ namespace QDLIB
     */
    template<class C>
    void FileSingle<C>::FinalizeOutStream()
+   {
+      bool failed = false;
+
+      if (_sout != NULL){
+         if (_our_out_stream)
+            dynamic_cast<ofstream*>(_sout)->close();
+         else
+            _sout->flush();
+         failed = !_sout->good();
+      }
+
+      AbortOutStream();
+
+      if (failed)
+         throw(EIOError("Writing to stream failed", _name));
+   }
+
+   /**
+    * Close the stream without looking for errors.
+    */
+   template<class C>
+   void FileSingle<C>::AbortOutStream()
    {
       if (_our_out_stream){
-         dynamic_cast<ofstream*>(_sout)->close();
          delete _sout;
          _sout = NULL;
          _our_out_stream = false;
@@ -1004,19 +1081,24 @@ namespace QDLIB
    template<class C>
    void FileSingle<C>::WriteSingleFileToStream(C *data)
    {
-      WriteIntroToStream();     // Header
-
-      // Get raw data (payload) from class (subheader + data), compress if requested
-      stringstream payload;
-      PrepareStreamPayload(data, payload);
-
-      // put payload size in header and write header to stream
-      WriteMetaToStream(data, payload.str().size());
-
-      // write payload to stream
-      const string& s = payload.str();
-      WriteDataToStream( s );
-      FinalizeOutStream();      // close stream
+      try {
+         WriteIntroToStream();     // Header
+
+         // Get raw data (payload) from class (subheader + data), compress if requested
+         stringstream payload;
+         PrepareStreamPayload(data, payload);
+
+         // put payload size in header and write header to stream
+         WriteMetaToStream(data, payload.str().size());
+
+         // write payload to stream
+         const string& s = payload.str();
+         WriteDataToStream( s );
+         FinalizeOutStream();      // close stream
+      } catch (...) {
+         AbortOutStream();
+         throw;
+      }
       if (_sequence) _counter += _increment;
    }
 
@@ -1034,6 +1116,7 @@ namespace QDLIB
          in->open(name.c_str(), ios_base::binary);
 
          if (! in->is_open() ){
+            delete in;
             throw(EIOError("Can not open binary stream file for reading", name));
          }
 
@@ -1044,6 +1127,21 @@ namespace QDLIB
 
    }
 
+   /**
+    * Close our own input stream.
+    */
+   template<class C>
+   void FileSingle<C>::CloseINStream()
+   {
+      if (_our_in_stream){
+         delete _sin;
+         _sin = NULL;
+         _our_in_stream = false;
+      }
+
+      _intro_read = false;
+   }
+
    /**
     * Check for a correct header.
     */
@@ -1059,7 +1157,7 @@ namespace QDLIB
 
       _sin->read(reinterpret_cast<char*>(&intro), sizeof(PbufHeader));
 
-      if (string(intro.magic) != PBUF_MAGIC)
+      if (_sin->gcount() != sizeof(PbufHeader) || memcmp(intro.magic, PBUF_MAGIC, sizeof(PBUF_MAGIC)) != 0)
          throw(EIOError("Malformated stream. No stream magic found."));
 
       if ((unsigned int) intro.version != PBUF_VERSION)
@@ -1076,24 +1174,43 @@ namespace QDLIB
    {
       uint32_t mlen=0;
 
+      MetaData.ClearAll();
+
       /* message/meta data length */
       _sin->read(reinterpret_cast<char*>(&mlen), sizeof(uint32_t));
+      if (_sin->gcount() != sizeof(uint32_t))
+         throw(EIOError("Error reading meta data from stream"));
 
-      char* buf = new char[mlen];
-      _sin->read(reinterpret_cast<char*>(buf), mlen);
+      string buf;
+      ReadBytesFromStream(buf, mlen);
 
       // Parse header
-      MetaData.ClearAll();
-      if (!MetaData.header.ParseFromArray(reinterpret_cast<const void*>(buf), mlen)){
-         delete[] buf;
+      if (!MetaData.header.ParseFromArray(reinterpret_cast<const void*>(buf.data()), mlen))
          throw(EIOError("Error reading meta data from stream"));
-      }
-
-      delete[] buf;
 
       return MetaData;
    }
 
+   /**
+    * Read exactly size bytes from the input stream.
+    */
+   template<class C>
+   void FileSingle<C>::ReadBytesFromStream(string& buf, size_t size)
+   {
+      const size_t chunk = 1 << 20;
+
+      buf.clear();
+      while (buf.size() < size){
+         size_t have = buf.size();
+         size_t n = (size - have < chunk) ? size - have : chunk;
+
+         buf.resize(have + n);
+         _sin->read(&buf[have], n);
+         if ((size_t) _sin->gcount() != n)
+            throw(EIOError("Reading from stream failed"));
+      }
+   }
+
    /**
     * Init data storage in data to prepare for reading.
     */
@@ -1119,21 +1236,12 @@ namespace QDLIB
          return;
       }
 
-      OpenINStream();
-
       try {
+         OpenINStream();
          CheckIntroFromStream();
          _type = stream;
       } catch (EIOError& e) { /* to fail means it must be _something else_ */
-         if (_our_in_stream) {
-            dynamic_cast<ifstream*>(_sin)->close();
-            delete _sin;
-            _sin = NULL;
-         }
-
-         _intro_read = false;
-         _our_in_stream = false;
-
+         CloseINStream();
          _type = binary;
       }
 
@@ -1156,14 +1264,10 @@ namespace QDLIB
                break;
             case FileSingleHeader_Compression_BZIP:
             case FileSingleHeader_Compression_ZLIB:
-               char* inbuf = new char[MetaData.header.payload_size()];
-
-               _sin->read(inbuf, MetaData.header.payload_size());
+               string inbuf;
+               ReadBytesFromStream(inbuf, MetaData.header.payload_size());
 
-               if ( (size_t) _sin->gcount() != MetaData.header.payload_size() )
-                  throw(EIOError("Reading from stream failed"));
-
-               ArrayInputStream arrin(inbuf, MetaData.header.payload_size());
+               ArrayInputStream arrin(inbuf.data(), inbuf.size());
                GzipInputStream gzip(&arrin);
                stringstream outbuf;
 
@@ -1176,23 +1280,15 @@ namespace QDLIB
 
                outbuf.seekg(0);
                data->DeSerialize(outbuf);
-
-               delete[] inbuf;
                break;
          }
-      }
 
-      if (! MetaData.header.more_files_follow()) {
-         _intro_read = false;
-
-         /* Close */
-         if (_our_in_stream ){
-            dynamic_cast<ifstream*>(_sin)->close(); // We know here that it must be an ifstream.
-            delete _sin;
-            _sin = NULL;
-            _our_in_stream = false;
-         }
+         if (_sin->fail())
+            throw(EIOError("Reading from stream failed"));
       }
+
+      if (! MetaData.header.more_files_follow())
+         CloseINStream();
    }
 
 
@@ -1202,9 +1298,14 @@ namespace QDLIB
    template<class C>
    void FileSingle<C>::ReadSingleFileFromStream(C *data)
    {
-      CheckIntroFromStream();
-      ReadMetaFromStream();
-      ReadDataFromStream(data);
+      try {
+         CheckIntroFromStream();
+         ReadMetaFromStream();
+         ReadDataFromStream(data);
+      } catch (...) {
+         CloseINStream();
+         throw;
+      }
 
       if (_sequence) _counter += _increment;
    }
@@ -1218,19 +1319,28 @@ namespace QDLIB
    {
       string name;
       BuildMetaFileName(name);
+      MetaData.ClearAll();
       ParamContainer pm;
+      string name_read = name;
       if (!pm.ReadFromFile(name)){
          // Retry stripping by stripping a sequence index
          if (name.rfind('_') != string::npos) {
-            name = name.substr(0,name.rfind('_')) + METAFILE_SUFFIX;
+            name_read = name.substr(0,name.rfind('_')) + METAFILE_SUFFIX;
 
-            if ( !pm.ReadFromFile(name) )
+            if ( !pm.ReadFromFile(name_read) )
                throw( EIOError("Can not read meta file", name + " or " + _name) );
          } else {
             throw( EIOError("Can not read meta file", name + " or " + _name) );
          }
       }
 
+      /* An unterminated last line has been cut off */
+      ifstream file(name_read.c_str(), ios_base::binary);
+      char last = 0;
+      file.seekg(-1, ios::end);
+      if (!file.get(last) || last != '\n')
+         throw( EIOError("Meta file is truncated", name_read) );
+
       MetaData.set_params(pm);
    }
 
@@ -1310,7 +1420,8 @@ namespace QDLIB
       MetaData.header.set_class_(data->Name());
 
       pm.SetValue("CLASS", data->Name());
-      pm.WriteToFile(_name + METAFILE_SUFFIX);
+      if (!pm.WriteToFile(_name + METAFILE_SUFFIX))
+         throw(EIOError("Can not write meta file", _name + METAFILE_SUFFIX));
    }
 
    /**
@@ -1330,39 +1441,28 @@ namespace QDLIB
          throw(EIOError("Can not open binary file for writing", name));
 
       file.write((char*) _buffer, _buffer_size);
-      if (file.bad())
-         throw(EIOError("Can not write binary file", name));
-
-      Memory::Instance().Free(_buffer);
-      _buffer = NULL;
-      _buffer_size  = 0;
 
-      if (file.bad())
-         throw(EIOError("Can not write binary file", name));
+      ReleaseBuffer();
 
       string magic;
-      switch(_compMethod){
+      switch(_payloadMethod){
          case ZLIB:
             /* Append magic bytes */
             magic = ZLIB_MAGIC;
             file.write((char*) magic.c_str(), magic.size()+1);
-            if (file.bad())
-               throw(EIOError("Can not write binary file", name));
-
             break;
          case BZIP:
             /* Append magic bytes */
             magic = BZIP_MAGIC;
             file.write((char*) magic.c_str(), magic.size()+1);
-            if (file.bad())
-               throw(EIOError("Can not write binary file", name));
-
             break;
          default:
             break;
       }
 
       file.close();
+      if (file.fail())
+         throw(EIOError("Can not write binary file", name));
    }
 
    /**
@@ -1420,18 +1520,23 @@ namespace QDLIB
    {
       if (autodetect) DetectFormat();
 
-      switch (_type){
-         case stream:
-               CheckIntroFromStream();
-               ReadMetaFromStream();
-            break;
-         case binary:
-               ReadMetaFromRaw();
-               DetectCompressionInPayload();
-            break;
-         default:
-            throw (EIOError("Failed to get meta data (format not determined)."));
-            break;
+      try {
+         switch (_type){
+            case stream:
+                  CheckIntroFromStream();
+                  ReadMetaFromStream();
+               break;
+            case binary:
+                  ReadMetaFromRaw();
+                  DetectCompressionInPayload();
+               break;
+            default:
+               throw (EIOError("Failed to get meta data (format not determined)."));
+               break;
+         }
+      } catch (...) {
+         CloseINStream();
+         throw;
       }
 
       return MetaData;
@@ -1445,17 +1550,22 @@ namespace QDLIB
    template<class C>
    void FileSingle<C>::ReadData(C* data)
    {
-      switch (_type){
-         case stream:
-            ReadDataFromStream(data);
-            break;
-         case binary:
-            InitDataStorage(data);
-            ReadDataFromRaw(data);
-            break;
-         default:
-            throw (EIOError("Failed to read data file (format not determined)."));
-            break;
+      try {
+         switch (_type){
+            case stream:
+               ReadDataFromStream(data);
+               break;
+            case binary:
+               InitDataStorage(data);
+               ReadDataFromRaw(data);
+               break;
+            default:
+               throw (EIOError("Failed to read data file (format not determined)."));
+               break;
+         }
+      } catch (...) {
+         CloseINStream();
+         throw;
       }
 
       if (_sequence)_counter += _increment;
@@ -1470,18 +1580,23 @@ namespace QDLIB
       switch (_type_out){
          case stream:
          {
-            WriteIntroToStream();
+            try {
+               WriteIntroToStream();
 
-            stringstream payload;
-            PrepareStreamPayload(data, payload);
+               stringstream payload;
+               PrepareStreamPayload(data, payload);
 
-            // put payload size in header and write header to stream
-            WriteMetaToStream(data, payload.str().size(), more_files_follow, ingore_data);
+               // put payload size in header and write header to stream
+               WriteMetaToStream(data, payload.str().size(), more_files_follow, ingore_data);
 
-            // write payload to stream
-            WriteDataToStream(payload.str());
+               // write payload to stream
+               WriteDataToStream(payload.str());
 
-            if (!MetaData.header.more_files_follow()) FinalizeOutStream();
+               if (!MetaData.header.more_files_follow()) FinalizeOutStream();
+            } catch (...) {
+               AbortOutStream();
+               throw;
+            }
             break;
          }
          case binary:
-- 
2.43.0


From 0a84ec5539f154876eea0db5f915cacd7863ed3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:08 +0000
Subject: [PATCH 08/95] fix: wave function files: reader state after errors,
 state count checks, stale container data, compression fallback

---
 src/qdlib/FileWF.cpp | 361 ++++++++++++++++++++++++-------------------
 1 file changed, 202 insertions(+), 159 deletions(-)

diff --git a/src/qdlib/FileWF.cpp b/src/qdlib/FileWF.cpp
index 95dc772..de1d603 100644
--- a/src/qdlib/FileWF.cpp
+++ b/src/qdlib/FileWF.cpp
@@ -9,6 +9,7 @@
 #include "tools/Logger.h"
 #include "tools/helpers.h"
 #include "config.h"
+#include <cstdio>
 
 
 namespace QDLIB {
@@ -78,76 +79,82 @@ namespace QDLIB {
    WaveFunction * FileWF::LoadWaveFunctionByMeta()
    {
       string basename = Name();
-      WaveFunction *wf;
-
-      FileSingleHeaderPm meta = ReadMeta();
-      ParamContainer p = meta.params();
-      string classname = meta.header.class_();
-
-      if (classname.size() <= 1)
-         throw (EParamProblem("No CLASS information found. LoadWaveFunctionByMeta failed."));
-
-      if (classname == "WFMultistate"){ /* Explicit Multistate handling */
-         WFMultistate *wfm = new WFMultistate();
-         /** \todo register WF with collector? */
-
-         if (Format() == binary){
-
-            int states;
-            p.GetValue("states", states); /* Grab the states from params. wfm->Init() must be executed after wfm->Add() ! */
-            if (states < 1)
-               throw ( EParamProblem("Init from meta file: Invalid number of states", wfm->States()) );
-
-            int counter = Counter();
-   #ifdef HAVE_MPI
-            int rank =  MPI::COMM_WORLD.Get_rank();
-            int msize = MPI::COMM_WORLD.Get_size();
-   #else
-            int rank = 0; int msize = 1;
-   #endif
-            for (int i=rank; i < states; i +=msize ){/* Loop over states */
-               Counter(counter);    /* Every ReadFile() increases counter => restore it when using it diff. states */
-               stringstream ss;
-               ss << "-" << i;
-               Name(basename + ss.str());
-               wfm->Add( LoadWaveFunctionByMeta(), i ); /* Load module */
+      int counter = Counter();
+      WaveFunction *wf = NULL;
+      WaveFunction *tmp_data = NULL;
+
+      try {
+         FileSingleHeaderPm meta = ReadMeta();
+         ParamContainer p = meta.params();
+         string classname = meta.header.class_();
+
+         if (classname.size() <= 1)
+            throw (EParamProblem("No CLASS information found. LoadWaveFunctionByMeta failed."));
+
+         if (classname == "WFMultistate"){ /* Explicit Multistate handling */
+            WFMultistate *wfm = new WFMultistate();
+            wf = wfm;
+            /** \todo register WF with collector? */
+
+            if (Format() == binary){
+
+               int states;
+               p.GetValue("states", states); /* Grab the states from params. wfm->Init() must be executed after wfm->Add() ! */
+               if (states < 1)
+                  throw ( EParamProblem("Init from meta file: Invalid number of states", wfm->States()) );
+
+      #ifdef HAVE_MPI
+               int rank =  MPI::COMM_WORLD.Get_rank();
+               int msize = MPI::COMM_WORLD.Get_size();
+      #else
+               int rank = 0; int msize = 1;
+      #endif
+               for (int i=rank; i < states; i +=msize ){/* Loop over states */
+                  Counter(counter);    /* Every ReadFile() increases counter => restore it when using it diff. states */
+                  stringstream ss;
+                  ss << "-" << i;
+                  Name(basename + ss.str());
+                  wfm->Add( LoadWaveFunctionByMeta(), i ); /* Load module */
+               }
+               //cout << "rank : " << rank << endl << *wf<< endl;
+               wfm->SyncStrides();
+               wfm->Init(p);
+            } else if (Format() == stream) { /* Read packed format from stream */
+               ReadDataFromStream(wfm);  // Do a dummy read
+
+               unsigned int i=0;
+               while (GetMeta().header.more_files_follow()) { /* Try to get all WFs in list */
+                  Counter(counter);
+                  wfm->Add( LoadWaveFunctionByMeta(), i);
+                  i++;
+               }
+
+               wfm->Init(i);
             }
-            //cout << "rank : " << rank << endl << *wf<< endl;
-            wfm->SyncStrides();
-            wfm->Init(p);
-         } else if (Format() == stream) { /* Read packed format from stream */
-            ReadDataFromStream(wfm);  // Do a dummy read
-
-            int counter = Counter();
-
-            unsigned int i=0;
-            while (GetMeta().header.more_files_follow()) { /* Try to get all WFs in list */
-               Counter(counter);
-               wfm->Add( LoadWaveFunctionByMeta(), i);
-               i++;
-            }
-
-            wfm->Init(i);
-         }
-
-
-         wf = wfm;
-      } else { /* handling for Single state WFs */
-         wf = ModuleLoader<WaveFunction>::Instance()->Load(classname);
-
-         WaveFunction* tmp_data = wf;
-
-         FileSingleHeader_Compression compress = meta.header.compression();
-         if (compress != FileSingleHeader_Compression_UNCOMPRESSED){
-            tmp_data = ModuleLoader<WaveFunction>::Instance()->Load(classname);
-         }
-
-         ReadData(tmp_data);
-
-         if (compress != FileSingleHeader_Compression_UNCOMPRESSED){
-            wf->Restore(tmp_data);
-            DELETE_WF(tmp_data);
+         } else { /* handling for Single state WFs */
+            wf = ModuleLoader<WaveFunction>::Instance()->Load(classname);
+
+            if (wf == NULL)
+               throw (EParamProblem("Can't load wave function module", classname));
+
+            FileSingleHeader_Compression compress = meta.header.compression();
+            if (compress != FileSingleHeader_Compression_UNCOMPRESSED){
+               tmp_data = ModuleLoader<WaveFunction>::Instance()->Load(classname);
+               ReadData(tmp_data);
+               wf->Restore(tmp_data);
+               wf->Params() = tmp_data->Params();
+               DELETE_WF(tmp_data);
+               tmp_data = NULL;
+            } else
+               ReadData(wf);
          }
+      } catch (...) { /* Leave the reader as it was */
+         if (tmp_data != NULL) DELETE_WF(tmp_data);
+         if (wf != NULL) DELETE_WF(wf);
+         CloseINStream();
+         Name(basename);
+         Counter(counter);
+         throw;
       }
 
       Name(basename); /* We modfied the name => switch back to original */
@@ -164,65 +171,83 @@ namespace QDLIB {
     */
    void FileWF::ReadWaveFunction(WaveFunction * data)
    {
+      string basename = Name();
+      int counter = Counter();
+      WaveFunction* tmp_data = NULL;
       WFMultistate *wfm;
 
       wfm = dynamic_cast<WFMultistate*>(data);
 
-      if (wfm != NULL){ /* Load Multistate set */
-         string basename = Name();
-
-         if (wfm->States() < 1)
-            throw ( EParamProblem("Reading WaveFunction: Invalid number of states", wfm->States()) );
+      try {
+         if (wfm != NULL){ /* Load Multistate set */
+            if (wfm->States() < 1)
+               throw ( EParamProblem("Reading WaveFunction: Invalid number of states", wfm->States()) );
 
-         // Detect format;
-         FileSingleHeaderPm meta;
-         meta = ReadMeta();
-         ParamContainer pmt = meta.params();
+            // Detect format;
+            FileSingleHeaderPm meta;
+            meta = ReadMeta();
+            ParamContainer p = meta.params();
 
-         int counter = Counter();
+            if (meta.header.class_() != data->Name())
+               throw ( EIncompatible("Reading WaveFunction: File does not contain a", data->Name()) );
 
-         if (Format() == binary){ /* The old way of storing files. */
-            for (int i=wfm->MPIrank(); i < wfm->States(); i += wfm->MPIsize()){ /* Loop over States */
-               Counter(counter);    /* Every ReadFile() increases counter => restore it when using it diff. states */
-               stringstream ss;
-               ss << "-" << i;
-               Name(basename + ss.str());
-               ReadWaveFunction(wfm->State(i)); /* Load data */
-            }
+            if (Format() == binary){ /* The old way of storing files. */
+               int states;
+               p.GetValue("states", states);
+               if (states != wfm->States())
+                  throw ( EIncompatible("Reading WaveFunction: File differs in number of states") );
 
-            Name(basename); /* We modified the name => switch back to original */
+               for (int i=wfm->MPIrank(); i < wfm->States(); i += wfm->MPIsize()){ /* Loop over States */
+                  Counter(counter);    /* Every ReadFile() increases counter => restore it when using it diff. states */
+                  stringstream ss;
+                  ss << "-" << i;
+                  Name(basename + ss.str());
+                  ReadWaveFunction(wfm->State(i)); /* Load data */
+               }
 
-            ParamContainer p = meta.params();
-            wfm->Init(p);
+               Name(basename); /* We modified the name => switch back to original */
 
-         } else if (Format() == stream) { /* Read packed format from stream */
-            ReadDataFromStream(data);  // Do a dummy read
+               wfm->Init(p);
 
-            unsigned int i=0;
-            while (GetMeta().header.more_files_follow()) {
-               Counter(counter);
-               ReadWaveFunction(wfm->State(i));
-               i++;
-            }
+            } else if (Format() == stream) { /* Read packed format from stream */
+               ReadDataFromStream(data);  // Do a dummy read
 
-            wfm->Init(i);
-         }
+               int i=0;
+               while (GetMeta().header.more_files_follow() && i < wfm->States()) {
+                  Counter(counter);
+                  ReadWaveFunction(wfm->State(i));
+                  i++;
+               }
 
-         wfm->SyncStrides();
-      } else { /* Load Single WaveFunction */
-         WaveFunction* tmp_data = data;
+               if (GetMeta().header.more_files_follow() || i != wfm->States())
+                  throw ( EIncompatible("Reading WaveFunction: File differs in number of states") );
 
-         FileSingleHeader_Compression compress = ReadMeta().header.compression();
-         if (compress != FileSingleHeader_Compression_UNCOMPRESSED){
-            tmp_data = data->NewInstance();
-         }
-
-         ReadData(tmp_data);
+               wfm->Init(i);
+            }
 
-         if (compress != FileSingleHeader_Compression_UNCOMPRESSED){
-            data->Restore(tmp_data);
-            DELETE_WF(tmp_data);
+            wfm->SyncStrides();
+         } else { /* Load Single WaveFunction */
+            FileSingleHeader_Compression compress = ReadMeta().header.compression();
+
+            if (GetMeta().header.class_() == "WFMultistate")
+               throw ( EIncompatible("Reading WaveFunction: File does not contain a", data->Name()) );
+
+            if (compress != FileSingleHeader_Compression_UNCOMPRESSED){
+               tmp_data = data->NewInstance();
+               ReadData(tmp_data);
+               data->Restore(tmp_data);
+               data->Params() = tmp_data->Params();
+               DELETE_WF(tmp_data);
+               tmp_data = NULL;
+            } else
+               ReadData(data);
          }
+      } catch (...) { /* Leave the reader as it was */
+         if (tmp_data != NULL) DELETE_WF(tmp_data);
+         CloseINStream();
+         Name(basename);
+         Counter(counter);
+         throw;
       }
 
    }
@@ -235,65 +260,83 @@ namespace QDLIB {
     */
    void FileWF::WriteWaveFunction(WaveFunction * data, bool more_files_follow)
    {
+      string basename = Name();
+      int counter = Counter();
+      WaveFunction* tmp_data = NULL;
       WFMultistate *wfm;
 
       wfm = dynamic_cast<WFMultistate*>(data);
 
-      if (wfm != NULL){ /* Write Multistate set */
-         if (wfm->States() < 1)
-            throw ( EParamProblem("Writing WaveFunction: Invalid number of states", wfm->States()) );
-
-         if (FormatOut() == autodetect)   /* We have to take this decision. */
-            FormatOut(stream);
-
-         int counter = Counter();
-         if (FormatOut() == binary) {
-            string basename = Name();
-
-            for (int i=wfm->MPIrank(); i < wfm->States(); i+=wfm->MPIsize()){
-               Counter(counter);    /* Every WriteFile() increases counter => restore it when using it diff. states */
-               stringstream ss;
-               ss << "-" << i;
-               Name(basename + ss.str());
-               WriteWaveFunction(wfm->State(i));
-            }
-
-            Name(basename); /* We modfied the name => switch back to original */
+      try {
+         if (wfm != NULL){ /* Write Multistate set */
+            if (wfm->States() < 1)
+               throw ( EParamProblem("Writing WaveFunction: Invalid number of states", wfm->States()) );
+
+            if (FormatOut() == autodetect)   /* We have to take this decision. */
+               FormatOut(stream);
+
+            if (FormatOut() == binary) {
+               /* There is no data file for the container itself. Don't leave an old one behind. */
+               string dataname;
+               BuildDataFileName(dataname);
+               if (wfm->MPIrank() == 0) remove(dataname.c_str());
+
+               for (int i=wfm->MPIrank(); i < wfm->States(); i+=wfm->MPIsize()){
+                  Counter(counter);    /* Every WriteFile() increases counter => restore it when using it diff. states */
+                  stringstream ss;
+                  ss << "-" << i;
+                  Name(basename + ss.str());
+                  WriteWaveFunction(wfm->State(i));
+               }
+
+               Name(basename); /* We modfied the name => switch back to original */
+
+               /* Write meta file for Multistate container */
+               if (wfm->MPIrank() == 0){
+                  ParamContainer p;
+                  p = wfm->Params();
+                  p.SetValue("states", wfm->States() );
+                  p.SetValue("CLASS", wfm->Name() );
+                  WriteMeta(p);
+               }
+            } else if (FormatOut() == stream){
+
+               WriteMeta(data, true, false); /* This is the Multistate header */
+
+               for (int i=0; i < wfm->States(); i++){
+                  Counter(counter);
+                  if (i == wfm->States()-1 && more_files_follow == false)
+                     WriteWaveFunction(wfm->State(i), false);
+                  else
+                     WriteWaveFunction(wfm->State(i), true);
+               }
 
-            /* Write meta file for Multistate container */
-            if (wfm->MPIrank() == 0){
-               ParamContainer p;
-               p = wfm->Params();
-               p.SetValue("CLASS", wfm->Name() );
-               WriteMeta(p);
             }
-         } else if (FormatOut() == stream){
-
-            WriteMeta(data, true, false); /* This is the Multistate header */
-
-            for (int i=0; i < wfm->States(); i++){
-               Counter(counter);
-               if (i == wfm->States()-1 && more_files_follow == false)
-                  WriteWaveFunction(wfm->State(i), false);
-               else
-                  WriteWaveFunction(wfm->State(i), true);
-            }
-
-         }
-      } else { /* Write single file */
-         WaveFunction* tmp_data = data;
-         if (_compMethod != UNCOMPRESSED) {
+         } else { /* Write single file */
             if (_compMethod == INVALID)
                throw( EParamProblem("Invalid file compression method given") );
-            else
+
+            if (_compMethod != UNCOMPRESSED) {
                tmp_data = data->Reduce(_compTolerance);
-         }
 
-         WriteMeta(tmp_data, more_files_follow);
-         WriteData(tmp_data);
+               WriteMeta(tmp_data, more_files_follow);
+               if (FormatOut() == binary && _payloadMethod == UNCOMPRESSED)
+                  PrepareData(data, UNCOMPRESSED); /* Compression doesn't pay off */
+               WriteData(tmp_data);
 
-         if (_compMethod != UNCOMPRESSED)
-            DELETE_WF(tmp_data);
+               DELETE_WF(tmp_data);
+               tmp_data = NULL;
+            } else {
+               WriteMeta(data, more_files_follow);
+               WriteData(data);
+            }
+         }
+      } catch (...) { /* Leave the writer as it was */
+         if (tmp_data != NULL) DELETE_WF(tmp_data);
+         AbortOutStream();
+         Name(basename);
+         Counter(counter);
+         throw;
       }
    }
 
-- 
2.43.0


From 3eb93d71131753d25c3322ac575ce9ce8f6e76e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:08 +0000
Subject: [PATCH 09/95] fix: objects read back from short streams were
 accepted, lossy compression dropped negative elements

---
 src/qdlib/Laser.cpp            | 14 +++++++++-----
 src/qdlib/OGridsystem.cpp      | 15 +++++++++------
 src/qdlib/OHermitianMatrix.cpp |  7 +++++++
 src/qdlib/WFGridSystem.cpp     | 13 ++++++++-----
 src/qdlib/WFLevel.cpp          | 17 ++++++++++++-----
 src/qdlib/WFMultistate.cpp     |  2 ++
 6 files changed, 47 insertions(+), 21 deletions(-)

diff --git a/src/qdlib/Laser.cpp b/src/qdlib/Laser.cpp
index 49a2cbc..1f0a177 100644
--- a/src/qdlib/Laser.cpp
+++ b/src/qdlib/Laser.cpp
@@ -208,8 +208,6 @@ namespace QDLIB {
       // Keep format simple
       uint64_t size = dVec::size();
 
-      if (size == 0) return;
-
       os.write(reinterpret_cast<char*>(&size), sizeof(size));
       os.write(reinterpret_cast<char*>(&_dt), sizeof(_dt));
 
@@ -221,6 +219,8 @@ namespace QDLIB {
       uint64_t size;
 
       is.read(reinterpret_cast<char*>(&size), sizeof(size));
+      if (is.fail())
+         throw(EIOError("Can't read laser field"));
 
       if (size == 0)
          throw(EParamProblem("Laser field has zero size"));
@@ -228,14 +228,18 @@ namespace QDLIB {
       double dt;
       is.read(reinterpret_cast<char*>(&dt), sizeof(dt));
 
+      if (is.fail())
+         throw(EIOError("Can't read laser field"));
+
       if (dt <= 0)
          throw(EParamProblem("Laser field got a non-sense dt: ", dt));
 
-      _dt = dt;
-
-      newsize(size);
+      Dt(dt);
+      Nt(size);
 
       is.read(reinterpret_cast<char*>(begin(0)), sizeBytes());
+      if (is.fail())
+         throw(EIOError("Can't read laser field: data is incomplete"));
    }
    
 }
diff --git a/src/qdlib/OGridsystem.cpp b/src/qdlib/OGridsystem.cpp
index 08b7bb7..34e1328 100644
--- a/src/qdlib/OGridsystem.cpp
+++ b/src/qdlib/OGridsystem.cpp
@@ -81,18 +81,21 @@ namespace QDLIB {
       uint32_t size;
 
       is.read(reinterpret_cast<char*>(&size), sizeof(uint32_t));
+      if (is.fail() || size > GRID_HEADER_MAX_SIZE)
+         throw(EIOError("Can't read operator from stream"));
 
-      char* buf = new char[size];
-      is.read(buf, size);
-      if (! grid_sys.header.ParseFromArray(buf, size) )
-         throw(EIOError("Can't read WF from stream"));
-
-      delete[] buf;
+      string buf(size, 0);
+      is.read(&buf[0], size);
+      if (is.fail() || ! grid_sys.header.ParseFromArray(buf.data(), size) )
+         throw(EIOError("Can't read operator from stream"));
 
       newsize(GridSystem::Size());
       grid_sys.header.set_data_size(GridSystem::Size() * sizeof(*begin(0)));
+      grid_sys.DumpParams(_params);
 
       is.read(reinterpret_cast<char*>(begin(0)), sizeBytes());
+      if (is.fail())
+         throw(EIOError("Can't read operator from stream: data is incomplete"));
    }
 
 } /* namespace QDLIB */
diff --git a/src/qdlib/OHermitianMatrix.cpp b/src/qdlib/OHermitianMatrix.cpp
index 5193b6b..60abb94 100644
--- a/src/qdlib/OHermitianMatrix.cpp
+++ b/src/qdlib/OHermitianMatrix.cpp
@@ -296,9 +296,16 @@ namespace QDLIB {
       is.read(reinterpret_cast<char*>(&size), sizeof(uint32_t));
       is.read(reinterpret_cast<char*>(&size), sizeof(uint32_t));
 
+      if (is.fail() || size == 0)
+         throw( EIOError("Can't read matrix") );
+
       newsize(size, size);
+      _params.SetValue("size", (int) size);
+      _valid = false;
 
       is.read(reinterpret_cast<char*>(begin()), sizeBytes());
+      if (is.fail())
+         throw( EIOError("Can't read matrix: data is incomplete") );
    }
 
 } /* namespace QDLIB */
diff --git a/src/qdlib/WFGridSystem.cpp b/src/qdlib/WFGridSystem.cpp
index 58e999d..48654c3 100644
--- a/src/qdlib/WFGridSystem.cpp
+++ b/src/qdlib/WFGridSystem.cpp
@@ -161,19 +161,22 @@ namespace QDLIB {
       uint32_t size;
 
       is.read(reinterpret_cast<char*>(&size), sizeof(uint32_t));
-
-      char* buf = new char[size];
-      is.read(buf, size);
-      if (! grid_sys.header.ParseFromArray(buf, size) )
+      if (is.fail() || size > GRID_HEADER_MAX_SIZE)
          throw(EIOError("Can't read WF from stream"));
 
-      delete[] buf;
+      string buf(size, 0);
+      is.read(&buf[0], size);
+      if (is.fail() || ! grid_sys.header.ParseFromArray(buf.data(), size) )
+         throw(EIOError("Can't read WF from stream"));
 
       // Read data
       newsize(GridSystem::Size());
       grid_sys.header.set_data_size(GridSystem::Size() * sizeof(*begin(0)));
+      grid_sys.DumpParams(_params);
 
       is.read(reinterpret_cast<char*>(begin(0)), sizeBytes());
+      if (is.fail())
+         throw(EIOError("Can't read WF from stream: data is incomplete"));
    }
 
 } /* namespace QDLIB */
diff --git a/src/qdlib/WFLevel.cpp b/src/qdlib/WFLevel.cpp
index fab87a5..9eb883a 100644
--- a/src/qdlib/WFLevel.cpp
+++ b/src/qdlib/WFLevel.cpp
@@ -13,12 +13,17 @@ namespace QDLIB {
    WaveFunction* WFLevel::NewInstance()
    {
       WFLevel* p = new WFLevel(size());
+      p->_params = _params;
+      p->_params.SetValue("size", (int) size());
       return p;
    }
    
    WFLevel::WFLevel(): _name("WFLevel")   {}
    
-   WFLevel::WFLevel(size_t size) : WaveFunction(size), _name("WFLevel")   {}
+   WFLevel::WFLevel(size_t size) : WaveFunction(size), _name("WFLevel")
+   {
+      _params.SetValue("size", (int) size);
+   }
 
    WFLevel::~WFLevel() {}
    
@@ -109,12 +114,12 @@ namespace QDLIB {
       
       for (int i=0; i <  size; i++){
          /* treat real & imag seperately */
-         if ( (*this)[i].real() < norm )
+         if ( fabs((*this)[i].real()) < norm )
             (*out)[i]._real = 0;
          else
             (*out)[i]._real = (*this)[i].real();
          
-         if ( (*this)[i].imag() < norm )
+         if ( fabs((*this)[i].imag()) < norm )
             (*out)[i]._imag = 0;
          else
             (*out)[i]._imag = (*this)[i].imag();
@@ -152,12 +157,14 @@ namespace QDLIB {
       is.read(reinterpret_cast<char*>(&sizee), sizeof(sizee));
       is.read(reinterpret_cast<char*>(&sizeb), sizeof(sizeb));
 
-      if (sizee * sizeof(dcomplex) != sizeb)
+      if (!is.good() || sizee * sizeof(dcomplex) != sizeb)
          throw( EIOError("Can't read WFLevel: wrong header") );
 
-      newsize(sizee);
+      Size(sizee);
 
       is.read(reinterpret_cast<char*>(begin(0)), sizeb);
+      if (is.fail())
+         throw( EIOError("Can't read WFLevel: data is incomplete") );
    }
 } /* namespace QDLIB */
 
diff --git a/src/qdlib/WFMultistate.cpp b/src/qdlib/WFMultistate.cpp
index 1831c5c..9a9d08e 100644
--- a/src/qdlib/WFMultistate.cpp
+++ b/src/qdlib/WFMultistate.cpp
@@ -290,6 +290,8 @@ namespace QDLIB
       // The info here is useless right now. Ignore it.
       uint32_t states = 0;
       is.read(reinterpret_cast<char*>(&states), sizeof(uint32_t));
+      if (is.fail())
+         throw( EIOError("Can't read multistate wave function") );
    }
 
 }
-- 
2.43.0


From b47d969986fbc1e58ee090e22d98c620216f220e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:08 +0000
Subject: [PATCH 10/95] fix: incomplete grid descriptions were accepted

---
 src/qdlib/GridSystem.cpp     | 11 ++++++++++-
 src/qdlib/GridSystem.h       |  3 +++
 src/qdlib/OGridPotential.cpp |  9 ++++++++-
 3 files changed, 21 insertions(+), 2 deletions(-)

diff --git a/src/qdlib/GridSystem.cpp b/src/qdlib/GridSystem.cpp
index a4c8c20..0e011d4 100644
--- a/src/qdlib/GridSystem.cpp
+++ b/src/qdlib/GridSystem.cpp
@@ -20,8 +20,8 @@ namespace QDLIB {
       int dims;
       pm.GetValue( "dims", dims);
 
-      header.set_dims(dims);
       if ( dims <= 0 ) throw ( EParamProblem("Zero number of dimension defined") );
+      if ( dims > MAX_DIMS ) throw ( EParamProblem("Number of dimensions exceeds MAX_DIMS") );
 
       int i = 0;
       int n = 0;
@@ -40,6 +40,9 @@ namespace QDLIB {
 
          dimd->set_size(n);
 
+         if (!pm.isPresent(string("xmin") + string(c)) || !pm.isPresent(string("xmax") + string(c)))
+            throw(EParamProblem("Grid limits missing for dimension", i));
+
          pm.GetValue(string("xmin") + string(c), d);
          dimd->set_xmin(d);
 
@@ -51,7 +54,13 @@ namespace QDLIB {
 
          i++;
          sprintf(c, "%d", i);
+         s = string("N") + string(c);
       }
+
+      if (i < dims)
+         throw(EParamProblem("Number of grid points missing for dimension", i));
+
+      header.set_dims(dims);
    }
 
    void GridSystemHeaderPm::DumpParams(ParamContainer& pm)
diff --git a/src/qdlib/GridSystem.h b/src/qdlib/GridSystem.h
index f9774b2..38d1267 100644
--- a/src/qdlib/GridSystem.h
+++ b/src/qdlib/GridSystem.h
@@ -9,6 +9,9 @@
 #include "qdlib/GridSystem.pb.h"
 #include "tools/ParamContainer.h"
 
+/** Upper limit for the size of a serialized grid description */
+#define GRID_HEADER_MAX_SIZE 65536
+
 namespace QDLIB
 {
 
diff --git a/src/qdlib/OGridPotential.cpp b/src/qdlib/OGridPotential.cpp
index 2c1975a..c2f8cce 100644
--- a/src/qdlib/OGridPotential.cpp
+++ b/src/qdlib/OGridPotential.cpp
@@ -93,6 +93,9 @@ namespace QDLIB
 	 if ( n < 1 )
 	    throw ( EParamProblem("Zero points grid defined") );
 	 GridSystem::DimSize(i, n);
+
+	 if (!_params.isPresent(string("xmin") + string(c)) || !_params.isPresent(string("xmax") + string(c)))
+	    throw ( EParamProblem("Grid limits missing for dimension", i) );
 	 
 	 _params.GetValue( string("xmin") + string(c), d);
 	 GridSystem::Xmin(i, d);
@@ -103,8 +106,12 @@ namespace QDLIB
 
 	 i++;
 	 sprintf (c, "%d", i);
+	 s = string("N") + string(c);
       }
-      
+
+      if (i < GridSystem::Dim())
+	 throw ( EParamProblem("Number of grid points missing for dimension", i) );
+
       dVec::newsize(GridSystem::Size());
    }
 	 
-- 
2.43.0


From eeb0faa9bc08f9ae9e17b177e1efdaba71383a47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:29 +0000
Subject: [PATCH 11/95] fix: WFBuffer: keep elements valid and unchanged when
 they are moved to disk, check indices and file operations

---
 src/qdlib/WFBuffer.cpp | 322 ++++++++++++++++++++++++++++-------------
 src/qdlib/WFBuffer.h   |  13 +-
 2 files changed, 229 insertions(+), 106 deletions(-)

diff --git a/src/qdlib/WFBuffer.cpp b/src/qdlib/WFBuffer.cpp
index c7389d6..90b8db9 100644
--- a/src/qdlib/WFBuffer.cpp
+++ b/src/qdlib/WFBuffer.cpp
@@ -5,6 +5,7 @@
 #include "WFBuffer.h"
 #include "tools/GlobalParams.h"
 #include "qdlib/FileWF.h"
+#include "qdlib/WFMultistate.h"
 
 #include <typeinfo>
 #include <unistd.h>
@@ -13,8 +14,45 @@
 
 namespace QDLIB {
 
+   /**
+    * Write a wave function with all its states.
+    */
+   static void DumpWF(WaveFunction* Psi, ostream& os)
+   {
+      WFMultistate* wfm = dynamic_cast<WFMultistate*>(Psi);
+
+      os.put(Psi->IsKspace() ? 1 : 0);
+      Psi->Serialize(os);
+
+      if (wfm != NULL)
+         for (lint i=0; i < wfm->States(); i++)
+            DumpWF(wfm->State(i), os);
+   }
+
+   /**
+    * Read a wave function with all its states.
+    */
+   static void LoadWF(WaveFunction* Psi, istream& is)
+   {
+      WFMultistate* wfm = dynamic_cast<WFMultistate*>(Psi);
+      bool kspace = (is.get() == 1);
+
+      if (wfm != NULL)
+         wfm->IsKspace(kspace);
+      else
+         Psi->IsKspace(kspace);
+
+      Psi->DeSerialize(is);
+
+      if (wfm != NULL) {
+         for (lint i=0; i < wfm->States(); i++)
+            LoadWF(wfm->State(i), is);
+         wfm->SyncStrides();
+      }
+   }
+
    WFBuffer::WFBuffer() : _LastLocks(WFBUFFER_LOCK_LAST),
-                       _locked(0), _ondisk(0), _MaxBuf(DEFAULT_BUFFER_SIZE)
+                       _locked(0), _ondisk(0), _MaxBuf(DEFAULT_BUFFER_SIZE), _spare(NULL)
    {
       ParamContainer& gp = GlobalParams::Instance();
             
@@ -59,7 +97,7 @@ namespace QDLIB {
       close(fd);
 
       char hex[9];
-      sprintf(hex, "%X", num);
+      sprintf(hex, "%08X", num); /* fixed length, the position is appended to it */
 
       _fname += hex;
    }
@@ -100,62 +138,128 @@ namespace QDLIB {
       return NULL;
    }   
    
+   /**
+    * Get an instance for a new element in memory.
+    */
+   WaveFunction* WFBuffer::_NewEntry(WaveFunction* proto)
+   {
+      if (_spare != NULL) {
+         WaveFunction* wf = _spare;
+
+         _spare = NULL;
+         return wf;
+      }
+
+      if (proto == NULL) proto = _ValidEntry();
+      if (proto == NULL)
+         throw (EIncompatible("Tried to read from an empty WFBuffer"));
+
+      return proto->NewInstance();
+   }
+
+   /**
+    * Check if an element has to stay in memory.
+    */
    bool WFBuffer::_IsLocked(size_t mempos)
    {
       for (size_t i=0; i < _LastAccess.size(); i++){
          if ( _LastAccess[i] == mempos) return true;
       }
 
-      for (size_t i=0; i < _buf.size(); i++){
-         if (_buf[i].Locked) return true;
-      }
-
-      return false;
+      return _buf[mempos].Locked;
    }
-   
+
    /**
     * Copy a membuf element into the disk buffer.
     */
-   void WFBuffer::_MoveToDisk()
+   void WFBuffer::_MoveToDisk(size_t pos)
    {
-      for (size_t i = _buf.size()-1; i > 0; i--){ /* walk through membuf - backwards */
-         if (_buf[i].Psi != NULL && !_buf[i].Locked){ /* This is an Element in memory */
-
-            // Dump to file
-            ofstream file;
-            file.open(_GetFileName(i).c_str(), ios_base::trunc);
-            _buf[i].Psi->Serialize(file); // TODO: Error checking!!
-            file.close();
-
-            // Book keeping
-            _ondisk++;
-
-            _buf[i].ondisk = true;
-            DELETE_WF(_buf[i].Psi);
-            _buf[i].Psi = NULL;
-            return;
-         }
+      WaveFunction* Psi = _buf[pos].Psi;
+
+      // Dump to file
+      ofstream file;
+      file.open(_GetFileName(pos).c_str(), ios_base::trunc);
+      _buf[pos].hasfile = true;
+      DumpWF(Psi, file);
+      file.close();
+      if (file.fail())
+         throw (EIOError("WFBuffer: Can't write", _GetFileName(pos)));
+
+      // Book keeping
+      _ondisk++;
+
+      _buf[pos].ondisk = true;
+      _buf[pos].Psi = NULL;
+      if (_ValidEntry() == NULL && _spare == NULL)
+         _spare = Psi;   /* reused for the next element in memory */
+      else
+         DELETE_WF(Psi);
+   }
+
+   /**
+    * Move elements which are not locked to disk, until the memory limit is kept.
+    *
+    * \param keep   This element stays in memory.
+    */
+   void WFBuffer::_ReduceMem(size_t keep)
+   {
+      for (size_t i = _buf.size(); i > 0 && _BytesInMem() >= _MaxBuf; i--){ /* walk through membuf - backwards */
+         if (_buf[i-1].Psi != NULL && i-1 != keep && !_IsLocked(i-1)) /* This is an Element in memory */
+            _MoveToDisk(i-1);
       }
    }
-   
+
    /**
     * Move an element from diskspace to mem.
     * \param pos the pos in memory.
     */
    void WFBuffer::_MoveToMem(size_t pos)
    {
-      /* Initialize buffer position */
-      if (_buf[pos].Psi == NULL)
-         _buf[pos].Psi = _ValidEntry()->NewInstance();
+      WaveFunction* Psi = _NewEntry();
 
-      ifstream file;
-      file.open(_GetFileName(pos).c_str());
-      _buf[pos].Psi->DeSerialize(file); // TODO: Error checking!!
-      file.close();
-      
+      try {
+         ifstream file;
+         file.open(_GetFileName(pos).c_str());
+         if (file.fail())
+            throw (EIOError("WFBuffer: Can't read", _GetFileName(pos)));
+
+         LoadWF(Psi, file);
+         file.close();
+      } catch (...) {
+         if (_ValidEntry() == NULL)
+            _spare = Psi;
+         else
+            DELETE_WF(Psi);
+         throw;
+      }
+
+      _buf[pos].Psi = Psi;
+      _buf[pos].ondisk = false;
       _ondisk--;
    }
 
+   /**
+    * Remove the last element.
+    */
+   void WFBuffer::_RemoveLast()
+   {
+      size_t pos = _buf.size()-1;
+      WaveFunction* Psi = _buf[pos].Psi;
+
+      if (_buf[pos].hasfile) FS::Remove(_GetFileName(pos));
+      if (_buf[pos].ondisk) _ondisk--;
+      if (_buf[pos].Locked) _locked--;
+
+      _buf.pop_back();
+
+      if (Psi != NULL) {
+         if (_ondisk > 0 && _ValidEntry() == NULL && _spare == NULL)
+            _spare = Psi;
+         else
+            DELETE_WF(Psi);
+      }
+   }
+
    /**
     * Set the maximum number buffer slots needed.
     */
@@ -164,22 +268,13 @@ namespace QDLIB {
       size_t oldsize = _buf.size();
 
       if (oldsize > size) { /* Reduce size */
-         for (size_t i=oldsize-1; i >= size; i--){
-            if (_buf[i].Psi != NULL){ /* Remove wf from memory */
-               DELETE_WF(_buf[i].Psi);
-            }
+         while (_buf.size() > size) _RemoveLast();
 
-            if (_buf[i].ondisk) { /* Remove wf from disk buf */
-               FS::Remove(_GetFileName(i));
-               _ondisk--;
-            }
-
-            _buf.pop_back(); /* remove last element */
-         }
-
-         /* Clear all locks */
-         _LastAccess.clear();
-         _locked = 0;
+         /* Forget about the elements which don't exist anymore */
+         deque<size_t> last;
+         for (size_t i=0; i < _LastAccess.size(); i++)
+            if (_LastAccess[i] < size) last.push_back(_LastAccess[i]);
+         _LastAccess = last;
       } else if (oldsize < size) { /* Enlarge */
          _buf.resize(size);
       }
@@ -205,7 +300,7 @@ namespace QDLIB {
          WaveFunction* wf = _ValidEntry();
 
          if (wf != NULL){
-            if (typeid(Psi) != typeid(wf))
+            if (typeid(*Psi) != typeid(*wf))
                throw (EIncompatible("WFBuffer: Incompatible types"));
 
             if (Psi->size() != wf->size())
@@ -228,27 +323,27 @@ namespace QDLIB {
          _buf.resize(pos+1);
       }
 
-      /* Ensure we have some space */
-      if (_BytesInMem() >= _MaxBuf){/* Move an element to disk storage */
-         _MoveToDisk();
-      }
-            
       if (_buf[pos].Psi == NULL) { /* Create in mem element*/
-         _buf[pos].Psi = Psi->NewInstance();
+         /* Ensure we have some space */
+         _ReduceMem(pos); /* Move elements to disk storage */
+
+         _buf[pos].Psi = _NewEntry(Psi);
+
+         /* The content on disk is not needed anymore */
+         if (_buf[pos].ondisk) _ondisk--;
+         _buf[pos].ondisk = false;
       }
-      
+
       *(_buf[pos].Psi) = Psi;
 
       /* Make sure we're not to large */
-      if (_BytesInMem() >= _MaxBuf){/* Move an element to disk storage */
-         _MoveToDisk();
-      }
+      _ReduceMem(_buf.size());
 
       if (_BytesInMem() > _MaxBuf){
          throw(EMemError("WFBuffer: buffer space execeeded. Increase MaxBufferSize."));
       }
    }
-   
+
    void WFBuffer::Add(WaveFunction *Psi)
    {
       Set(_buf.size(), Psi);
@@ -259,36 +354,32 @@ namespace QDLIB {
       if (pos >= _buf.size())
          throw (EIncompatible("Tried to read invalid WFBuffer element"));
 
-      _buf[pos].Locked = true;
-      
-      if (_LastLocks > 0 ) _LastAccess.push_front(pos);
-      if (_LastAccess.size() > _LastLocks) {
-         _buf[_LastAccess.back()].Locked = false;
-         _LastAccess.pop_back();
-      }
-
       if (_buf[pos].Psi == NULL){
-         if (_BytesInMem() >= _MaxBuf) {/* Move an element to disk storage */
-            _MoveToDisk();
-         }
+         _ReduceMem(pos); /* Move elements to disk storage */
 
-         if (!_buf[pos].ondisk){ /* This might happen if we request a postion which haven't been written before */
-            _buf[pos].Psi = _ValidEntry()->NewInstance();
-         } else
+         if (!_buf[pos].ondisk) /* This might happen if we request a postion which haven't been written before */
+            _buf[pos].Psi = _NewEntry();
+         else
             _MoveToMem(pos);
+      }
 
-         if (_BytesInMem() >= _MaxBuf) {/* Move an element to disk storage */
-            _MoveToDisk();
-         }
+      /* Only the latest accesses are kept in memory */
+      deque<size_t> last = _LastAccess;
 
-         if (_BytesInMem() > _MaxBuf){
-            throw(EMemError("WFBuffer: buffer space execeeded. Increase MaxBufferSize."));
-         }
+      _LastAccess.push_front(pos);
+      if (_LastAccess.size() > _LastLocks) _LastAccess.resize(_LastLocks);
+
+      _ReduceMem(pos);
+
+      if (_BytesInMem() > _MaxBuf){
+         _LastAccess = last;
+         if (!_IsLocked(pos)) _MoveToDisk(pos);
+         throw(EMemError("WFBuffer: buffer space execeeded. Increase MaxBufferSize."));
       }
 
       return _buf[pos].Psi;
    }
-  
+
    /**
     * Saves the temporary buffer to a series of files.
     */
@@ -325,17 +416,30 @@ namespace QDLIB {
 
       Clear(); /* clear the buffer */
 
-      Add(psi);
+      try {
+         Add(psi);
+
+         int counter = 1;
 
-      int counter = 1;
+         while (counter < num || num == -1){ /* Run loop until there is no next file => must be the end of the wf-series */
+            if (num == -1) {
+               stringstream next;
+
+               next << "_" << wfile.Counter() << BINARY_WF_SUFFIX;
+               if (access((name + next.str()).c_str(), F_OK) != 0 &&
+                   access((name + "-0" + next.str()).c_str(), F_OK) != 0) break; /* states in separate files */
+            }
 
-      try {
-         while (counter < num || num == -1){ /* Run loop until something fails => must be the end of the wf-series (this is dirty) */
             wfile >> psi;
             Add(psi);
             counter++;
          }
-      } catch (EIOError& e) {}
+      } catch (...) {
+         DELETE_WF(psi);
+         throw;
+      }
+
+      DELETE_WF(psi);
    }
   
   
@@ -345,18 +449,29 @@ namespace QDLIB {
     */
    void WFBuffer::Lock(size_t pos)
    {
-      /* try to reduce the size */
-      if (_BytesInMem() >= _MaxBuf){
-         bool locked = _buf[pos].Locked;
-         _buf[pos].Locked = true;
-         _MoveToDisk();
-         _buf[pos].Locked = locked;
+      if (pos >= _buf.size())
+         throw (EIncompatible("Tried to lock invalid WFBuffer element"));
+
+      if (_buf[pos].Locked) return;
+
+      if (_buf[pos].Psi == NULL) {
+         _ReduceMem(pos);
+
+         if (_buf[pos].ondisk)
+            _MoveToMem(pos);
+         else
+            _buf[pos].Psi = _NewEntry();
       }
 
-      if (_BytesInMem() > _MaxBuf)
+      /* try to reduce the size */
+      _ReduceMem(pos);
+
+      if (_BytesInMem() > _MaxBuf) {
+         if (_buf[pos].Psi != NULL && !_IsLocked(pos)) _MoveToDisk(pos);
          throw (EMemError("Can't lock another wave function to memory. Increase MaxBufferSize"));
+      }
 
-      if (!_buf[pos].Locked) _locked++;
+      _locked++;
       _buf[pos].Locked = true;
 
    }
@@ -366,6 +481,9 @@ namespace QDLIB {
     */
    void WFBuffer::UnLock(size_t pos)
    {
+      if (pos >= _buf.size())
+         throw (EIncompatible("Tried to unlock invalid WFBuffer element"));
+
       if (_buf[pos].Locked) _locked--;
       _buf[pos].Locked = false;
    }
@@ -378,6 +496,7 @@ namespace QDLIB {
    void WFBuffer::AutoLock(size_t LastLocks)
    {
       _LastLocks = LastLocks;
+      if (_LastAccess.size() > _LastLocks) _LastAccess.resize(_LastLocks);
    }
    
    /**
@@ -386,12 +505,11 @@ namespace QDLIB {
    void WFBuffer::Clear()
    {
 
-      while (! _buf.empty() ){
-         DELETE_WF(_buf.back().Psi);
-         if (_buf.back().ondisk) FS::Remove(_GetFileName(_buf.size()-1));
-         _buf.pop_back();
-      }
-      
+      while (! _buf.empty() ) _RemoveLast();
+
+      if (_spare != NULL) DELETE_WF(_spare);
+      _spare = NULL;
+
       _LastAccess.clear();
       _ondisk = 0;
       _locked = 0;
diff --git a/src/qdlib/WFBuffer.h b/src/qdlib/WFBuffer.h
index 82193db..10cf40d 100644
--- a/src/qdlib/WFBuffer.h
+++ b/src/qdlib/WFBuffer.h
@@ -34,9 +34,10 @@ namespace QDLIB {
       private:
          struct BufMap {
             WaveFunction* Psi;
-            bool Locked;
-            bool ondisk;
-            BufMap() : Psi(NULL), Locked(false), ondisk(false) {}
+            bool Locked;     /* Explicit lock */
+            bool ondisk;     /* The content is on disk (and not in memory) */
+            bool hasfile;    /* A file has been created for this element */
+            BufMap() : Psi(NULL), Locked(false), ondisk(false), hasfile(false) {}
          };
          
          size_t _LastLocks;      /* How much of the last access to keep valid */
@@ -47,15 +48,19 @@ namespace QDLIB {
          size_t _MaxBuf;        /* Maximum mem size in bytes */
 
          deque<size_t> _LastAccess; /* Lately accessed positions */
+         WaveFunction* _spare;      /* Keeps the type if there is no element left in memory */
          
          vector<BufMap>  _buf;
          
          string _fname;      /* The base name */
 
          WaveFunction* _ValidEntry();
+         WaveFunction* _NewEntry(WaveFunction* proto = NULL);
          bool _IsLocked(size_t mempos);
-         void _MoveToDisk();
+         void _MoveToDisk(size_t pos);
+         void _ReduceMem(size_t keep);
          void _MoveToMem(size_t pos);
+         void _RemoveLast();
          string _GetFileName(size_t pos);
          size_t _BytesInMem();
       public:
-- 
2.43.0


From 18a8d9137cb0abc909b9c83f678c222e11fecb4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:03 +0000
Subject: [PATCH 12/95] fix: Vector: check stride indices, keep references and
 their storage consistent on swap, reacquire and resize

---
 src/math/Vector.h        | 1818 +++++++++++++++++++-------------------
 src/qdlib/WaveFunction.h |    2 +-
 2 files changed, 912 insertions(+), 908 deletions(-)

diff --git a/src/math/Vector.h b/src/math/Vector.h
index b3821e0..3a798fa 100644
--- a/src/math/Vector.h
+++ b/src/math/Vector.h
@@ -1,915 +1,919 @@
-/*
-*
-* Template Numerical Toolkit (TNT)
-*
-* Mathematical and Computational Sciences Division
-* National Institute of Technology,
-* Gaithersburg, MD USA
-*
-*
-* This software was developed at the National Institute of Standards and
-* Technology (NIST) by employees of the Federal Government in the course
-* of their official duties. Pursuant to title 17 Section 105 of the
-* United States Code, this software is not subject to copyright protection
-* and is in the public domain. NIST assumes no responsibility whatsoever for
-* its use by other parties, and makes no guarantees, expressed or implied,
-* about its quality, reliability, or any other characteristic.
-*
-*/
-
-
-
-#ifndef QDLIBVECTOR_H
-#define QDLIBVECTOR_H
-
-#include <cstdlib>
-#include <cassert>
-#include <iostream>
-#include <sstream>
-#include <cmath>
-#include <string.h>
-
-
-#ifdef HAVE_MPI
-#include "mpi.h"
-#endif
-
-#include "tools/Memory.h"
-
-using namespace std;
-
-namespace QDLIB
-{
-
-//namespace Linear_Algebra
-// {
-
-
-/**
- * Linear algebra vector. 
- * 
- * Supports strided vectors which are discontinous in memory.
- */
-template <class T>
-class Vector 
-{
-
-
-  public:
-
-    typedef lint   size_type;
-    typedef         T   value_type;
-    typedef         T   element_type;
-    typedef         T*  pointer;
-    typedef         T*  iterator;
-    typedef         T&  reference;
-    typedef const   T*  const_iterator;
-    typedef const   T&  const_reference;
-
-    lint lbound() const { return 1;}
- 
-    
-  private:
-    T** v_;
-    lint n_;
-
-    Vector<T> **_StrideRefObj; /** If a stride is just reference, the pointer to master instance is here */
-    lint *_SourceStride;       /** Stride Ref source */
-    bool _StorageLocked;       /** Storage can not be retired */
-
-    size_type nstrides_;
-    size_type stride_size_;
-
-    bool isRef_;
-
-    int _mpirank;
-    int _mpisize;
-
-#ifdef HAVE_MPI
-    MPI::Intracomm *_comm;
-#endif
-    
-    
-    /**
-     * Initialize/allocate memory for the vector.
-     * 
-     * \param N       size of the vector.
-     * \param strides number of strides.
-     */
-    void initialize(lint N, lint strides)
-    {
-#ifdef HAVE_MPI
-       if (_comm != NULL){
-          _mpirank = _comm->Get_rank();
-          _mpisize = _comm->Get_size();
-       }
-#endif
-      nstrides_ = strides;
-      stride_size_ = N / strides;
-      n_ = N;
-      
-      v_ = new T*[strides];
-      _StrideRefObj = new Vector<T>*[strides];
-      _SourceStride = new lint[strides];
-      
-      isRef_ = false;
-      _StorageLocked = false;
-      
-      for (lint i=0; i < nstrides_; i++){
-         if (stride_size_ == 0)
-            v_[i] = NULL;
-         else {
-            Memory& mem = Memory::Instance();
-            mem.Align((void**) &(v_[i]), sizeof(T)*stride_size_);
-         }
-         _StrideRefObj[i] = NULL;
-         _SourceStride[i] = -1;
-      }
-    }
-   
-    /** copy only part out of the strides. */
-    void copy(T* const *v, lint begin, lint n)
-    {
-       for (lint s=0; s < nstrides_; s++)
-          for (lint i=0; i< n; i++)
-             v_[s][i] = v[s][begin+i];
-    }
-       
-    void copy(T* const *v)
-    {
-	for (lint s=0; s < nstrides_; s++){
-           lint i;
-#ifdef _OPENMP
-#pragma omp parallel for schedule(static) default(shared) private(i)
-#endif
-	   for (i=0; i< stride_size_; i++)
-            v_[s][i] = v[s][i];
-        }
-    }
-
-    void copy(const T *v)
-    {
-       for (lint s=0; s < nstrides_; s++){
-          lint i;
-#ifdef _OPENMP
-#pragma omp parallel for schedule(static) default(shared) private(i)
-#endif
-	  for (i=0; i< stride_size_; i++)
-	     v_[s][i] = v[i];
-       }
-    }
-
-    
-    void set(const T& val)
-    {
-       for (lint s=0; s < nstrides_; s++){
-          lint i;
-#ifdef _OPENMP
-#pragma omp parallel for schedule(static) default(shared) private(i)
-#endif
-	  for (i=0; i< stride_size_; i++){
-	     v_[s][i] = val;
-	  }
-       }
-	     
-
-    }
-    
-
-
-    void destroy()
-    {     
-        /* do nothing, if no memory has been previously allocated */
-       if (v_ != NULL && !isRef_){  /* Only destroy data if it's our own*/
-         for (lint s=0; s < nstrides_; s++){
-            if(v_[s] != NULL){
-               Memory::Instance().Free(v_[s]);
-               v_[s] = NULL;
-            }
-         }
-       }
-       if (v_ != NULL) { /* This pointer is always our own. */
-          delete[] v_;
-          v_ = NULL;
-       }
-       if (_StrideRefObj != NULL) {
-          delete[] _StrideRefObj;
-          delete[] _SourceStride;
-          _StrideRefObj = NULL;
-          _SourceStride = NULL;
-       }
-    }
-
-
-    protected:
-       /**
-        * Inject the pointer of a vector into a stride.
-        * 
-        * Use with extreme care. 
-        * If you destroy the original instance data in the strides
-        * it will be no longer valid!
-        * 
-        * \param vec    The vector to inject
-        * \param source The source stride in vec
-        * \param dest   The destination stride (Number must be larger!!!)
-        */
-       bool StrideRef(Vector<T> &vec, lint source, lint dest = 0)
-         {
-            if (isRef_ && vec.stride_size_ != stride_size_)
-               return false;
-
-            if (!isRef_) {
-               if (dest >= nstrides_)
-                  return false;
-               if (stride_size_ > 0)
-                  destroy();
-
-               initialize(0, nstrides_);
-
-               stride_size_ = vec.stride_size_;
-               isRef_ = true;
-            }
-            if (nstrides_ <= dest + 1)
-               nstrides_ = dest + 1;
-
-            n_ = nstrides_ * stride_size_;
-            v_[dest] = vec.v_[source];
-            _StrideRefObj[dest] = &vec;
-            _SourceStride[dest] = source;
-
-            return true;
-         }
-        
-       /**
-        * Reduce the size of the vector.
-        * 
-        * This is an irreversibel action.
-        */
-       void downsize(int N)
-       {
-          if (N <= n_) n_ = N;
-       }
-       
-  public:
-
-       /**
+/*
+*
+* Template Numerical Toolkit (TNT)
+*
+* Mathematical and Computational Sciences Division
+* National Institute of Technology,
+* Gaithersburg, MD USA
+*
+*
+* This software was developed at the National Institute of Standards and
+* Technology (NIST) by employees of the Federal Government in the course
+* of their official duties. Pursuant to title 17 Section 105 of the
+* United States Code, this software is not subject to copyright protection
+* and is in the public domain. NIST assumes no responsibility whatsoever for
+* its use by other parties, and makes no guarantees, expressed or implied,
+* about its quality, reliability, or any other characteristic.
+*
+*/
+
+
+
+#ifndef QDLIBVECTOR_H
+#define QDLIBVECTOR_H
+
+#include <cstdlib>
+#include <cassert>
+#include <iostream>
+#include <sstream>
+#include <cmath>
+#include <string.h>
+#include <utility>
+
+
+#ifdef HAVE_MPI
+#include "mpi.h"
+#endif
+
+#include "tools/Memory.h"
+
+using namespace std;
+
+namespace QDLIB
+{
+
+//namespace Linear_Algebra
+// {
+
+
+/**
+ * Linear algebra vector. 
+ * 
+ * Supports strided vectors which are discontinous in memory.
+ */
+template <class T>
+class Vector 
+{
+
+
+  public:
+
+    typedef lint   size_type;
+    typedef         T   value_type;
+    typedef         T   element_type;
+    typedef         T*  pointer;
+    typedef         T*  iterator;
+    typedef         T&  reference;
+    typedef const   T*  const_iterator;
+    typedef const   T&  const_reference;
+
+    lint lbound() const { return 1;}
+ 
+    
+  private:
+    T** v_;
+    lint n_;
+
+    Vector<T> **_StrideRefObj; /** If a stride is just reference, the pointer to master instance is here */
+    lint *_SourceStride;       /** Stride Ref source */
+    bool _StorageLocked;       /** Storage can not be retired */
+
+    size_type nstrides_;
+    size_type stride_size_;
+
+    bool isRef_;
+
+    int _mpirank;
+    int _mpisize;
+
+#ifdef HAVE_MPI
+    MPI::Intracomm *_comm;
+#endif
+    
+    
+    /**
+     * Initialize/allocate memory for the vector.
+     * 
+     * \param N       size of the vector.
+     * \param strides number of strides.
+     */
+    void initialize(lint N, lint strides)
+    {
+#ifdef HAVE_MPI
+       if (_comm != NULL){
+          _mpirank = _comm->Get_rank();
+          _mpisize = _comm->Get_size();
+       }
+#endif
+      nstrides_ = strides;
+      stride_size_ = N / strides;
+      n_ = N;
+      
+      v_ = new T*[strides];
+      _StrideRefObj = new Vector<T>*[strides];
+      _SourceStride = new lint[strides];
+      
+      isRef_ = false;
+      _StorageLocked = false;
+      
+      for (lint i=0; i < nstrides_; i++){
+         if (stride_size_ == 0)
+            v_[i] = NULL;
+         else {
+            Memory& mem = Memory::Instance();
+            mem.Align((void**) &(v_[i]), sizeof(T)*stride_size_);
+         }
+         _StrideRefObj[i] = NULL;
+         _SourceStride[i] = -1;
+      }
+    }
+   
+    /** copy only part out of the strides. */
+    void copy(T* const *v, lint begin, lint n)
+    {
+       for (lint s=0; s < nstrides_; s++)
+          for (lint i=0; i< n; i++)
+             v_[s][i] = v[s][begin+i];
+    }
+       
+    void copy(T* const *v)
+    {
+	for (lint s=0; s < nstrides_; s++){
+           lint i;
+#ifdef _OPENMP
+#pragma omp parallel for schedule(static) default(shared) private(i)
+#endif
+	   for (i=0; i< stride_size_; i++)
+            v_[s][i] = v[s][i];
+        }
+    }
+
+    void copy(const T *v)
+    {
+       for (lint s=0; s < nstrides_; s++){
+          lint i;
+#ifdef _OPENMP
+#pragma omp parallel for schedule(static) default(shared) private(i)
+#endif
+	  for (i=0; i< stride_size_; i++)
+	     v_[s][i] = v[i];
+       }
+    }
+
+    
+    void set(const T& val)
+    {
+       for (lint s=0; s < nstrides_; s++){
+          lint i;
+#ifdef _OPENMP
+#pragma omp parallel for schedule(static) default(shared) private(i)
+#endif
+	  for (i=0; i< stride_size_; i++){
+	     v_[s][i] = val;
+	  }
+       }
+	     
+
+    }
+    
+
+
+    void destroy()
+    {     
+        /* do nothing, if no memory has been previously allocated */
+       if (v_ != NULL && !isRef_){  /* Only destroy data if it's our own*/
+         for (lint s=0; s < nstrides_; s++){
+            if(v_[s] != NULL){
+               Memory::Instance().Free(v_[s]);
+               v_[s] = NULL;
+            }
+         }
+       }
+       if (v_ != NULL) { /* This pointer is always our own. */
+          delete[] v_;
+          v_ = NULL;
+       }
+       if (_StrideRefObj != NULL) {
+          delete[] _StrideRefObj;
+          delete[] _SourceStride;
+          _StrideRefObj = NULL;
+          _SourceStride = NULL;
+       }
+    }
+
+
+    protected:
+       /**
+        * Inject the pointer of a vector into a stride.
+        * 
+        * Use with extreme care. 
+        * If you destroy the original instance data in the strides
+        * it will be no longer valid!
+        * 
+        * \param vec    The vector to inject
+        * \param source The source stride in vec
+        * \param dest   The destination stride (must be smaller than the number of strides)
+        */
+       bool StrideRef(Vector<T> &vec, lint source, lint dest = 0)
+         {
+            if (&vec == this || source < 0 || source >= vec.nstrides_ ||
+                dest < 0 || dest >= nstrides_)
+               return false;
+
+            if (isRef_ && vec.stride_size_ != stride_size_)
+               return false;
+
+            if (!isRef_) {
+               lint strides = nstrides_;
+
+               destroy();
+               initialize(0, strides);
+
+               stride_size_ = vec.stride_size_;
+               isRef_ = true;
+            }
+
+            n_ = nstrides_ * stride_size_;
+            v_[dest] = vec.v_[source];
+            _StrideRefObj[dest] = &vec;
+            _SourceStride[dest] = source;
+
+            return true;
+         }
+        
+       /**
+        * Reduce the size of the vector.
+        * 
+        * This is an irreversibel action.
+        */
+       void downsize(int N)
+       {
+          if (N <= n_) n_ = N;
+       }
+       
+  public:
+
+       /**
         * Lock the internal storage against retirement.
-        */
-       void LockStorage() { _StorageLocked = true; }
-       void UnLockStorage() { _StorageLocked = false; }
-
-       /**
-        * Frees the data storage but not the properties.
-        *
-        * Use this feature to save memory. Advantegous if
-        * the object is used as temporary buffer.
-        */
-       void RetireStorage()
-       {
-          if (_StorageLocked)  return;
-          for (int s=0; s < nstrides_; s++){
-             if (_StrideRefObj[s] == NULL)
-                Memory::Instance().Free(v_[s]);
-             else
-                _StrideRefObj[s]->RetireStorage();
-
-             v_[s] = NULL; /* Invalidate pointer */
-          }
-       }
-
-       /**
+        */
+       void LockStorage() { _StorageLocked = true; }
+       void UnLockStorage() { _StorageLocked = false; }
+
+       /**
+        * Frees the data storage but not the properties.
+        *
+        * Use this feature to save memory. Advantegous if
+        * the object is used as temporary buffer.
+        */
+       void RetireStorage()
+       {
+          if (_StorageLocked)  return;
+          for (int s=0; s < nstrides_; s++){
+             if (_StrideRefObj[s] == NULL)
+                Memory::Instance().Free(v_[s]);
+             else
+                _StrideRefObj[s]->RetireStorage();
+
+             v_[s] = NULL; /* Invalidate pointer */
+          }
+       }
+
+       /**
         * Get back storage freed with RetireStorage.
-        */
-       void ReaquireStorage()
-       {
-          if (_StorageLocked)  return;
-          for (int s=0; s < nstrides_; s++){
-             if (v_[s] == NULL){ /* Check if reaquire is needed*/
-                if ( _StrideRefObj[s] == NULL )
-                   Memory::Instance().Align((void**) &(v_[s]), sizeof(T)*stride_size_);
-                else {
-                   _StrideRefObj[s]->ReaquireStorage();
-                   v_[s] = _StrideRefObj[s]->v_[_SourceStride[s]];  /* Re-link the stride */
-                }
-             }
-          }
-
-       }
-
-       /**
+        */
+       void ReaquireStorage()
+       {
+          if (_StorageLocked)  return;
+          for (int s=0; s < nstrides_; s++){
+             if ( _StrideRefObj[s] != NULL ) {
+                /* Re-link the stride. The master might have new storage. */
+                _StrideRefObj[s]->ReaquireStorage();
+                v_[s] = _StrideRefObj[s]->v_[_SourceStride[s]];
+             } else if (v_[s] == NULL && !isRef_) /* Check if reaquire is needed*/
+                Memory::Instance().Align((void**) &(v_[s]), sizeof(T)*stride_size_);
+          }
+
+       }
+
+       /**
         * Returns the rank in the stride distribution.
-        */
-       int MPIrank()
-       {
-          return _mpirank;
-       }
-
-       /**
+        */
+       int MPIrank()
+       {
+          return _mpirank;
+       }
+
+       /**
         * Returns the number of procs over which the strides are distributed.
-        */
-       int MPIsize()
-       {
-          return _mpisize;
-       }
-
-#ifdef HAVE_MPI
-       /**
-        * Returns the communicator over which the strides are spread.
-        *
+        */
+       int MPIsize()
+       {
+          return _mpisize;
+       }
+
+#ifdef HAVE_MPI
+       /**
+        * Returns the communicator over which the strides are spread.
+        *
         * \return NULL the vector is pure local.
-        */
-       MPI::Intracomm* GetComm()
-       {
-          return _comm;
-       }
-#endif
-       /**
-        * Sync Strides between processes.
-        *
-        * The strides of the local rank are broadcasted to all other ranks.
+        */
+       MPI::Intracomm* GetComm()
+       {
+          return _comm;
+       }
+#endif
+       /**
+        * Sync Strides between processes.
+        *
+        * The strides of the local rank are broadcasted to all other ranks.
         * Function is empty if mpi is not used.
-        */
-       void SyncStrides()
-       {
-#ifdef HAVE_MPI
-          if (_mpisize > 1 && _comm != NULL)
-             for (int s=0; s < nstrides_; s++)
-                _comm->Bcast( (void*) v_[s], sizeof(T) * stride_size_, MPI_BYTE, s % _mpisize);
-#endif
-       }
-    
-   /**
-    * Return a pointer to the local stride.
-    */
-    inline T* begin(lint stride) const { return v_[stride];}
-    
-    /**
-     * Return a pointer to the stride set.
-     * 
-     * This is a 2D array with sizes [strides][stride_size]
-     */
-    T** begin() const { return v_;}
-    
-    /**
-     * Get Size of a stride in bytes.
-     */
-    size_t sizeBytes() const { return stride_size_ * sizeof(T); }
-    
-    /**
-     * Swap the content of two vectors.
-     * 
-     * Only the pointers to the data will exchanged.
-     * Works only if both have the same size.
-     */
-    bool swap(Vector<T> &A)
-    {
-       T *p;
-       
-       if (n_ != A.n_) return false;
-       
-       for (lint s=0; s < nstrides_; s++){
-	 p = v_[s];
-	 v_[s] = A.v_[s];
-	 A.v_[s] = p;
-       }
-       return true;
-    }
-    
-   void FastCopy(Vector<T> &A)
-   {
-      if (n_ == A.n_ && nstrides_ == A.nstrides_) {
-         /* no need to re-alloc */
-         lint s;
+        */
+       void SyncStrides()
+       {
+#ifdef HAVE_MPI
+          if (_mpisize > 1 && _comm != NULL)
+             for (int s=0; s < nstrides_; s++)
+                _comm->Bcast( (void*) v_[s], sizeof(T) * stride_size_, MPI_BYTE, s % _mpisize);
+#endif
+       }
+    
+   /**
+    * Return a pointer to the local stride.
+    */
+    inline T* begin(lint stride) const { return v_[stride];}
+    
+    /**
+     * Return a pointer to the stride set.
+     * 
+     * This is a 2D array with sizes [strides][stride_size]
+     */
+    T** begin() const { return v_;}
+    
+    /**
+     * Get Size of a stride in bytes.
+     */
+    size_t sizeBytes() const { return stride_size_ * sizeof(T); }
+    
+    /**
+     * Swap the content of two vectors.
+     * 
+     * Only the pointers to the data will exchanged.
+     * Works only if both have the same shape, and both or none
+     * of them is a reference.
+     */
+    bool swap(Vector<T> &A)
+    {
+       if (n_ != A.n_ || nstrides_ != A.nstrides_ || isRef_ != A.isRef_) return false;
+       
+       for (lint s=0; s < nstrides_; s++){
+          std::swap(v_[s], A.v_[s]);
+          std::swap(_StrideRefObj[s], A._StrideRefObj[s]);
+          std::swap(_SourceStride[s], A._SourceStride[s]);
+       }
+       return true;
+    }
+    
+   void FastCopy(Vector<T> &A)
+   {
+      if (n_ == A.n_ && nstrides_ == A.nstrides_) {
+         /* no need to re-alloc */
+         lint s;
 #ifdef _OPENMP  
 #pragma omp parallel for schedule(static) default(shared) private(s)
-#endif
-         for (s = _mpirank; s < nstrides_; s += _mpisize) {
-            Memory::Copy( (char*) v_[s], (char*) A.v_[s], sizeof(T) * stride_size_);
-
-         }
-      } else {
-         if (!isRef_)
-            destroy();
-
-#ifdef HAVE_MPI
-         _comm = A._comm;
-#endif
-         initialize(A.n_, A.nstrides_);
-         for (lint s = 0; s < nstrides_; s++)
-            Memory::Copy((char*) v_[s], (char*) A.v_[s], sizeof(T) * stride_size_);
-      }
-   }
-    
-    // destructor
-    ~Vector() 
-    {
-      destroy();
-    }
-
-    // constructors
-
-    Vector() : n_(0),
-               nstrides_(1),
-               stride_size_(0),
-               isRef_(false),
-               _mpirank(0),
-               _mpisize(1)
-#ifdef HAVE_MPI
-              ,_comm(NULL)
-#endif
-    {
-       initialize(n_, nstrides_);
-    }
-
-    
-    Vector(const Vector<T> &A) : n_(0),
-                                 nstrides_(1),
-                                 stride_size_(0),
-                                 isRef_(false),
-                                 _mpirank(0),
-                                 _mpisize(1)
-#ifdef HAVE_MPI
-                                 , _comm(NULL)
-#endif
-    {
-       initialize(A.n_, A.nstrides_);
-        copy(A.v_);
-    }
-   
-    Vector(lint N) : n_(0),
-                     nstrides_(1),
-                     stride_size_(0),
-                     isRef_(false),
-                     _mpirank(0),
-                     _mpisize(1)
-#ifdef HAVE_MPI
-                    ,_comm(NULL)
-#endif
-    {
-       initialize(N, nstrides_);
-    }
-    
-    Vector(lint N, lint strides) : n_(0),
-                                   nstrides_(0),
-                                   stride_size_(0),
-                                   isRef_(false),
-                                   _mpirank(0),
-                                   _mpisize(1)
-#ifdef HAVE_MPI
-                                   ,_comm(NULL)
-#endif
-    {
-       initialize(N, strides);
-    }
-    
-#ifdef HAVE_MPI
-    Vector(lint N, lint strides, MPI::Intracomm& comm) : n_(0),
-             nstrides_(0),
-             stride_size_(0),
-             isRef_(false),
-             _mpirank(0),
-             _mpisize(1),
-             _comm(&comm)
-    {
-       initialize(N, strides);
-    }
-#endif
-
-    Vector(lint N, const T& value) : n_(0),
-                                     nstrides_(1),
-                                     stride_size_(0),
-                                     isRef_(false),
-                                     _mpirank(0),
-                                     _mpisize(1)
-#ifdef HAVE_MPI
-                                     ,_comm(NULL)
-#endif
-    {
-        initialize(N, nstrides_);
-        set(value);
-    }
-
-    Vector(lint N, lint strides, const T** v) :  n_(N),
-                                                 nstrides_(strides),
-                                                 stride_size_(0),
-                                                 isRef_(false),
-                                                 _mpirank(0),
-                                                 _mpisize(1)
-#ifdef HAVE_MPI
-                                                 ,_comm(NULL)
-#endif
-    {
-        initialize(N, strides);
-        copy(v);
-    }
-
-    Vector(lint N, const T* v) :  n_(0),
-                                  nstrides_(1),
-                                  stride_size_(0),
-                                  isRef_(false),
-                                  _mpirank(0),
-                                  _mpisize(1)
-#ifdef HAVE_MPI
-                                  ,_comm(NULL)
-#endif
-    {
-       initialize(N, nstrides_);
-       copy(v);
-    }
-    
-    /**
-     * Resize the vector.
-     */
-    Vector<T>& newsize(lint N)
-    {
-        if (n_ == N) return *this;
-
-        if (!isRef_) destroy();
-        initialize(N, 1);
-
-        return *this;
-    }
-
-    /**
-     * Resize the vector with multiple strides.
-     * 
-     * \param N   Total size
-     * \param s   Number of strides
-     * \param comm Intracommunicator for stride split.
-     */
-#ifdef HAVE_MPI
-    Vector<T>& newsize(lint N, lint s, MPI::Intracomm* comm = NULL)
-    {
-       _comm = comm;
-#else
-    Vector<T>& newsize(lint N, lint s)
-    {
-#endif
-
-       if (n_ == N && nstrides_ == s) return *this;
-
-       destroy();
-       initialize(N, s);
-
-       return *this;
-    }
-    
-
-    void operator *=(const T &scalar)
-    {
-       for (lint s=0; s < nstrides_; s++){
-	  lint i;
-#ifdef _OPENMP    
-#pragma omp parallel for schedule(static) default(shared) private(i)
-#endif	  
-          for (i=0; i< stride_size_; i++){
-             v_[s][i] *= scalar;
-          }
-       }
-    }
-    
-    // assignments
-    //
-    Vector<T>& operator=(const Vector<T> &A)
-    {
-        if (v_ == A.v_)
-            return *this;
-
-	
-        if (n_ == A.n_ && nstrides_ == A.nstrides_){
-	   /* no need to re-alloc */
-            copy(A.v_);
-	} else {
-            if (!isRef_) destroy();
-            initialize(A.n_, A.nstrides_);
-            copy(A.v_);
-        }
-        return *this;
-    }
-        
-    Vector<T>& operator=(const T& scalar)
-    { 
-        set(scalar);
-        return *this;
-    }
-
-    /**
-     * Copy a vector into a single stride.
-     *
-     * \param vec    The vector to inject
-     * \param source The source stride in vec
-     * \param dest   The destination stride
-     */
-    bool StrideCopy(Vector<T> &vec, lint source, lint dest = 0)
-    {
-       if ( dest > nstrides_ || vec.stride_size_ != stride_size_ || source > vec.strides() )
-	  return false;
-	
-       for (lint i=0; i < stride_size_; i++)
-         v_[dest][i] = vec.v_[source][i];
-       
-       return true;
-    }
-    
-    /**
-     */
-    Vector<T>& CopySub(Vector<T> &A, lint begin, lint end)
-    {
-       if (v_ == A.v_)
-          return *this;
-
-       lint rsize = abs(end-begin)+1;
-       
-       if ( abs(rsize) > A.n_) return *this;
-	
-       if (n_ >= rsize  && nstrides_ == A.nstrides_){
-          /* no need to re-alloc */
-          copy(A.v_, begin, rsize);
-       } else {
-          if (!isRef_) destroy();
-          initialize(rsize, A.nstrides_);
-          copy(A.v_, begin, rsize);
-       }
-       return *this;
-    }
-    
-    inline lint size() const
-    {
-        return  n_;
-    }
-
-    /**
-     * Gives the local size of the actual stride.
-     * 
-     * We need this later for vectors which are strided by over multiple processes (e.g. MPI);
-     */
-    inline lint lsize() const
-    {
-       return  stride_size_;
-    }
-
-    /**
-     * Returns the number of strides.
-     */
-    inline lint strides() const 
-    {
-       return  nstrides_;
-    }
-
-    /**
-     * Gives the global start index of the actual stride.
-     * 
-     * We need this later for vectors which are strided by over multiple processes (e.g. MPI);
-     */
-    inline lint start() const 
-    {
-       return  0;
-    }
-
-    /**
-     * Gives the global end index+1 of the actual stride.
-     * 
-     * We need this later for vectors which are strided by over multiple processes (e.g. MPI);
-     */
-    inline lint stop() const 
-    {
-       return  n_;
-    }
-
-
-    inline reference operator[](lint i)
-    { 
-	lint s = i / stride_size_;
-	lint j = i % stride_size_;
-        return v_[s][j];
-    }
-
-    inline const_reference operator[](lint i) const
-    {
-	lint s = i / stride_size_;
-	lint j = i % stride_size_;
-        return v_[s][j];
-    }
-
-
-    inline T Norm() const
-    {
-       T sum=0;
-       for (lint i=0; i < n_; i++)
-          sum += conj((*this)[i]) * (*this)[i];
-
-       return sqrt(sum);
-    }
-};
-
-
-/* ***************************  I/O  ********************************/
-
-template <class T>
-std::ostream& operator<<(std::ostream &s, const Vector<T> &A)
-{
-    lint N=A.size();
-
-    s <<  N << "\n";
-
-    for (lint i=0; i<N; i++)
-        s   << A[i] << " " << "\n";
-    s << "\n";
-
-    return s;
-}
-
-template <class T>
-std::istream & operator>>(std::istream &s, Vector<T> &A)
-{
-
-    lint N;
-
-    s >> N;
-
-    if ( !(N == A.size() ))
-    {
-        A.newsize(N);
-    }
-
-
-    for (lint i=0; i<N; i++)
-            s >>  A[i];
-
-
-    return s;
-}
-
-// *******************[ basic matrix algorithms ]***************************
-
-template <class T>
-void operator+=(Vector<T> &A, const T val)
-{
-   lint N = A.size();
-
-   for (int i=0; i<N; i++)
-      A[i] += val;
-}
-
-template <class T>
-void operator-=(Vector<T> &A, const T val)
-{
-   lint N = A.size();
-
-   for (int i=0; i<N; i++)
-      A[i] -= val;
-}
-
-
-template <class T>
-Vector<T> operator+(const Vector<T> &A, 
-    const Vector<T> &B)
-{
-    lint N = A.size();
-
-    assert(N==B.size());
-
-    Vector<T> tmp(N);
-    lint i;
-
-    for (i=0; i<N; i++)
-            tmp[i] = A[i] + B[i];
-
-    return tmp;
-}
-
-template <class T>
-Vector<T> operator+=(Vector<T> &A, 
-    const Vector<T> &B)
-{
-   lint N = A.size();
-
-   assert(N==B.size());
-
-    lint i;
-
-    for (i=0; i<N; i++)
-            A[i] += B[i];
-
-    return A;
-}
-
-template <class T>
-Vector<T> operator-(const Vector<T> &A, 
-    const Vector<T> &B)
-{
-   lint N = A.size();
-
-   assert(N==B.size());
-
-    Vector<T> tmp(N);
-    lint i;
-
-    for (i=0; i<N; i++)
-            tmp[i] = A[i] - B[i];
-
-    return tmp;
-}
-
-template <class T>
-Vector<T> operator-=(Vector<T> &A, 
-    const Vector<T> &B)
-{
-   lint N = A.size();
-
-   assert(N==B.size());
-
-    lint i;
-
-    for (i=0; i<N; i++)
-            A[i] -= B[i];
-
-    return A;
-}
-
-
-
-
-template <class T>
-Vector<T> elementwise_mult(const Vector<T> &A, const Vector<T> &B)
-{
-   lint N = A.size();
-
-   assert(N==B.size());
-
-    Vector<T> tmp(N);
-    lint i;
-
-    for (i=0; i<N; i++)
-            tmp[i] = A[i] * B[i];
-
-    return tmp;
-}
-
-
-template <class T>
-double norm(const Vector<T> &A)
-{
-	lint N = A.size();
-
-	double sum = 0.0;
-	for (int i=0; i<N; i++)
-		sum +=  abs(A[i])*abs(A[i]);
-	return sqrt(sum);
-}
-
-
-
-template <class T>
-inline T dot_prod(const Vector<T> &A, const Vector<T> &B)
-{
-    lint N = A.size();
-    assert(N == B.size());
-
-    lint i;
-    T sum = 0;
-
-    for (i=0; i<N; i++)
-        sum += A[i] * B[i];
-    return sum;
-}
-
-template <class T>
-inline T dot_product(const Vector<T> &A, const Vector<T> &B)
-{
-	return dot_prod(A, B);
-}
-
-
-template <class T>
-inline T operator*(const Vector<T> &A, 
-    const Vector<T> &B)
-{
-    return dot_prod(A,B);
-}
-
-
-template <class T>
-Vector<T> operator*(const T &a, const Vector<T> &A)
-{
-   lint N = A.size();
-	Vector<T> r(N);
-
-	for (int i=0; i<N; i++)
-		r[i] = A[i] * a;
-
-	return r;
-}
-
-template <class T>
-inline Vector<T> operator*(const Vector<T> &A, const T& a)
-{
-	return a * A;
-}
-
-
-}   /* namespace QDLIB */
-
-
-#endif
-
+#endif
+         for (s = _mpirank; s < nstrides_; s += _mpisize) {
+            Memory::Copy( (char*) v_[s], (char*) A.v_[s], sizeof(T) * stride_size_);
+
+         }
+      } else {
+         destroy();
+
+#ifdef HAVE_MPI
+         _comm = A._comm;
+#endif
+         initialize(A.n_, A.nstrides_);
+         for (lint s = 0; s < nstrides_; s++)
+            Memory::Copy((char*) v_[s], (char*) A.v_[s], sizeof(T) * stride_size_);
+      }
+   }
+    
+    // destructor
+    ~Vector() 
+    {
+      destroy();
+    }
+
+    // constructors
+
+    Vector() : n_(0),
+               nstrides_(1),
+               stride_size_(0),
+               isRef_(false),
+               _mpirank(0),
+               _mpisize(1)
+#ifdef HAVE_MPI
+              ,_comm(NULL)
+#endif
+    {
+       initialize(n_, nstrides_);
+    }
+
+    
+    Vector(const Vector<T> &A) : n_(0),
+                                 nstrides_(1),
+                                 stride_size_(0),
+                                 isRef_(false),
+                                 _mpirank(0),
+                                 _mpisize(1)
+#ifdef HAVE_MPI
+                                 , _comm(NULL)
+#endif
+    {
+       initialize(A.n_, A.nstrides_);
+        copy(A.v_);
+    }
+   
+    Vector(lint N) : n_(0),
+                     nstrides_(1),
+                     stride_size_(0),
+                     isRef_(false),
+                     _mpirank(0),
+                     _mpisize(1)
+#ifdef HAVE_MPI
+                    ,_comm(NULL)
+#endif
+    {
+       initialize(N, nstrides_);
+    }
+    
+    Vector(lint N, lint strides) : n_(0),
+                                   nstrides_(0),
+                                   stride_size_(0),
+                                   isRef_(false),
+                                   _mpirank(0),
+                                   _mpisize(1)
+#ifdef HAVE_MPI
+                                   ,_comm(NULL)
+#endif
+    {
+       initialize(N, strides);
+    }
+    
+#ifdef HAVE_MPI
+    Vector(lint N, lint strides, MPI::Intracomm& comm) : n_(0),
+             nstrides_(0),
+             stride_size_(0),
+             isRef_(false),
+             _mpirank(0),
+             _mpisize(1),
+             _comm(&comm)
+    {
+       initialize(N, strides);
+    }
+#endif
+
+    Vector(lint N, const T& value) : n_(0),
+                                     nstrides_(1),
+                                     stride_size_(0),
+                                     isRef_(false),
+                                     _mpirank(0),
+                                     _mpisize(1)
+#ifdef HAVE_MPI
+                                     ,_comm(NULL)
+#endif
+    {
+        initialize(N, nstrides_);
+        set(value);
+    }
+
+    Vector(lint N, lint strides, const T** v) :  n_(N),
+                                                 nstrides_(strides),
+                                                 stride_size_(0),
+                                                 isRef_(false),
+                                                 _mpirank(0),
+                                                 _mpisize(1)
+#ifdef HAVE_MPI
+                                                 ,_comm(NULL)
+#endif
+    {
+        initialize(N, strides);
+        copy(v);
+    }
+
+    Vector(lint N, const T* v) :  n_(0),
+                                  nstrides_(1),
+                                  stride_size_(0),
+                                  isRef_(false),
+                                  _mpirank(0),
+                                  _mpisize(1)
+#ifdef HAVE_MPI
+                                  ,_comm(NULL)
+#endif
+    {
+       initialize(N, nstrides_);
+       copy(v);
+    }
+    
+    /**
+     * Resize the vector.
+     */
+    Vector<T>& newsize(lint N)
+    {
+        if (n_ == N) return *this;
+
+        destroy();
+        initialize(N, 1);
+
+        return *this;
+    }
+
+    /**
+     * Resize the vector with multiple strides.
+     * 
+     * \param N   Total size
+     * \param s   Number of strides
+     * \param comm Intracommunicator for stride split.
+     */
+#ifdef HAVE_MPI
+    Vector<T>& newsize(lint N, lint s, MPI::Intracomm* comm = NULL)
+    {
+       _comm = comm;
+#else
+    Vector<T>& newsize(lint N, lint s)
+    {
+#endif
+
+       if (n_ == N && nstrides_ == s) return *this;
+
+       destroy();
+       initialize(N, s);
+
+       return *this;
+    }
+    
+
+    void operator *=(const T &scalar)
+    {
+       for (lint s=0; s < nstrides_; s++){
+	  lint i;
+#ifdef _OPENMP    
+#pragma omp parallel for schedule(static) default(shared) private(i)
+#endif	  
+          for (i=0; i< stride_size_; i++){
+             v_[s][i] *= scalar;
+          }
+       }
+    }
+    
+    // assignments
+    //
+    Vector<T>& operator=(const Vector<T> &A)
+    {
+        if (v_ == A.v_)
+            return *this;
+
+	
+        if (n_ == A.n_ && nstrides_ == A.nstrides_){
+	   /* no need to re-alloc */
+            copy(A.v_);
+	} else {
+            destroy();
+            initialize(A.n_, A.nstrides_);
+            copy(A.v_);
+        }
+        return *this;
+    }
+        
+    Vector<T>& operator=(const T& scalar)
+    { 
+        set(scalar);
+        return *this;
+    }
+
+    /**
+     * Copy a vector into a single stride.
+     *
+     * \param vec    The vector to inject
+     * \param source The source stride in vec
+     * \param dest   The destination stride
+     */
+    bool StrideCopy(Vector<T> &vec, lint source, lint dest = 0)
+    {
+       if ( dest < 0 || dest >= nstrides_ || vec.stride_size_ != stride_size_ ||
+            source < 0 || source >= vec.strides() )
+	  return false;
+	
+       for (lint i=0; i < stride_size_; i++)
+         v_[dest][i] = vec.v_[source][i];
+       
+       return true;
+    }
+    
+    /**
+     * Copy the elements from begin to end of every stride.
+     *
+     * Nothing is copied if A doesn't have these elements.
+     */
+    Vector<T>& CopySub(Vector<T> &A, lint begin, lint end)
+    {
+       if (v_ == A.v_)
+          return *this;
+
+       lint first = (begin < end) ? begin : end;
+       lint last = (begin < end) ? end : begin;
+       
+       if (first < 0 || last >= A.stride_size_) return *this;
+
+       lint rsize = last - first + 1;
+	
+       if (stride_size_ >= rsize && nstrides_ == A.nstrides_){
+          /* no need to re-alloc */
+          copy(A.v_, first, rsize);
+       } else {
+          destroy();
+          initialize(rsize * A.nstrides_, A.nstrides_);
+          copy(A.v_, first, rsize);
+       }
+       return *this;
+    }
+    
+    inline lint size() const
+    {
+        return  n_;
+    }
+
+    /**
+     * Gives the local size of the actual stride.
+     * 
+     * We need this later for vectors which are strided by over multiple processes (e.g. MPI);
+     */
+    inline lint lsize() const
+    {
+       return  stride_size_;
+    }
+
+    /**
+     * Returns the number of strides.
+     */
+    inline lint strides() const 
+    {
+       return  nstrides_;
+    }
+
+    /**
+     * Gives the global start index of the actual stride.
+     * 
+     * We need this later for vectors which are strided by over multiple processes (e.g. MPI);
+     */
+    inline lint start() const 
+    {
+       return  0;
+    }
+
+    /**
+     * Gives the global end index+1 of the actual stride.
+     * 
+     * We need this later for vectors which are strided by over multiple processes (e.g. MPI);
+     */
+    inline lint stop() const 
+    {
+       return  n_;
+    }
+
+
+    inline reference operator[](lint i)
+    { 
+	lint s = i / stride_size_;
+	lint j = i % stride_size_;
+        return v_[s][j];
+    }
+
+    inline const_reference operator[](lint i) const
+    {
+	lint s = i / stride_size_;
+	lint j = i % stride_size_;
+        return v_[s][j];
+    }
+
+
+    inline T Norm() const
+    {
+       T sum=0;
+       for (lint i=0; i < n_; i++)
+          sum += conj((*this)[i]) * (*this)[i];
+
+       return sqrt(sum);
+    }
+};
+
+
+/* ***************************  I/O  ********************************/
+
+template <class T>
+std::ostream& operator<<(std::ostream &s, const Vector<T> &A)
+{
+    lint N=A.size();
+
+    s <<  N << "\n";
+
+    for (lint i=0; i<N; i++)
+        s   << A[i] << " " << "\n";
+    s << "\n";
+
+    return s;
+}
+
+template <class T>
+std::istream & operator>>(std::istream &s, Vector<T> &A)
+{
+
+    lint N;
+
+    s >> N;
+
+    if ( !(N == A.size() ))
+    {
+        A.newsize(N);
+    }
+
+
+    for (lint i=0; i<N; i++)
+            s >>  A[i];
+
+
+    return s;
+}
+
+// *******************[ basic matrix algorithms ]***************************
+
+template <class T>
+void operator+=(Vector<T> &A, const T val)
+{
+   lint N = A.size();
+
+   for (int i=0; i<N; i++)
+      A[i] += val;
+}
+
+template <class T>
+void operator-=(Vector<T> &A, const T val)
+{
+   lint N = A.size();
+
+   for (int i=0; i<N; i++)
+      A[i] -= val;
+}
+
+
+template <class T>
+Vector<T> operator+(const Vector<T> &A, 
+    const Vector<T> &B)
+{
+    lint N = A.size();
+
+    assert(N==B.size());
+
+    Vector<T> tmp(N);
+    lint i;
+
+    for (i=0; i<N; i++)
+            tmp[i] = A[i] + B[i];
+
+    return tmp;
+}
+
+template <class T>
+Vector<T> operator+=(Vector<T> &A, 
+    const Vector<T> &B)
+{
+   lint N = A.size();
+
+   assert(N==B.size());
+
+    lint i;
+
+    for (i=0; i<N; i++)
+            A[i] += B[i];
+
+    return A;
+}
+
+template <class T>
+Vector<T> operator-(const Vector<T> &A, 
+    const Vector<T> &B)
+{
+   lint N = A.size();
+
+   assert(N==B.size());
+
+    Vector<T> tmp(N);
+    lint i;
+
+    for (i=0; i<N; i++)
+            tmp[i] = A[i] - B[i];
+
+    return tmp;
+}
+
+template <class T>
+Vector<T> operator-=(Vector<T> &A, 
+    const Vector<T> &B)
+{
+   lint N = A.size();
+
+   assert(N==B.size());
+
+    lint i;
+
+    for (i=0; i<N; i++)
+            A[i] -= B[i];
+
+    return A;
+}
+
+
+
+
+template <class T>
+Vector<T> elementwise_mult(const Vector<T> &A, const Vector<T> &B)
+{
+   lint N = A.size();
+
+   assert(N==B.size());
+
+    Vector<T> tmp(N);
+    lint i;
+
+    for (i=0; i<N; i++)
+            tmp[i] = A[i] * B[i];
+
+    return tmp;
+}
+
+
+template <class T>
+double norm(const Vector<T> &A)
+{
+	lint N = A.size();
+
+	double sum = 0.0;
+	for (int i=0; i<N; i++)
+		sum +=  abs(A[i])*abs(A[i]);
+	return sqrt(sum);
+}
+
+
+
+template <class T>
+inline T dot_prod(const Vector<T> &A, const Vector<T> &B)
+{
+    lint N = A.size();
+    assert(N == B.size());
+
+    lint i;
+    T sum = 0;
+
+    for (i=0; i<N; i++)
+        sum += A[i] * B[i];
+    return sum;
+}
+
+template <class T>
+inline T dot_product(const Vector<T> &A, const Vector<T> &B)
+{
+	return dot_prod(A, B);
+}
+
+
+template <class T>
+inline T operator*(const Vector<T> &A, 
+    const Vector<T> &B)
+{
+    return dot_prod(A,B);
+}
+
+
+template <class T>
+Vector<T> operator*(const T &a, const Vector<T> &A)
+{
+   lint N = A.size();
+	Vector<T> r(N);
+
+	for (int i=0; i<N; i++)
+		r[i] = A[i] * a;
+
+	return r;
+}
+
+template <class T>
+inline Vector<T> operator*(const Vector<T> &A, const T& a)
+{
+	return a * A;
+}
+
+
+}   /* namespace QDLIB */
+
+
+#endif
+
diff --git a/src/qdlib/WaveFunction.h b/src/qdlib/WaveFunction.h
index 706af0b..517e8d5 100644
--- a/src/qdlib/WaveFunction.h
+++ b/src/qdlib/WaveFunction.h
@@ -115,7 +115,7 @@ namespace QDLIB {
           * 
           * This also switches the buffer space.
           */
-         void IsKspace(bool is)
+         virtual void IsKspace(bool is)
          {  
             if ( _spacebuffer == NULL) GetSpaceBuffer();
             if ( _spacebuffer->size() != size() || _spacebuffer->strides() != strides())
-- 
2.43.0


From b91b6b2a3af62d3fc555b79c9994ada2d3b6793d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:31 +0000
Subject: [PATCH 13/95] fix: matrix products of non square matrices, complex
 powers of negative order and SSE imaginary part

---
 src/math/Matrix.h   | 22 +++++++++++++---------
 src/math/dcomplex.h |  5 ++++-
 src/math/m128dc.h   |  8 +++-----
 3 files changed, 20 insertions(+), 15 deletions(-)

diff --git a/src/math/Matrix.h b/src/math/Matrix.h
index 3633b9f..57f76f1 100644
--- a/src/math/Matrix.h
+++ b/src/math/Matrix.h
@@ -205,7 +205,7 @@ namespace QDLIB {
    template <class T>
    void Matrix<T>::diag(Vector<T>* diagvec)
    {
-      if (_m != _n || _m < diagvec->size() ) return;
+      if (_m != _n || _m != diagvec->size() ) return;
       
       for(int i=0; i < _m; i++)
       {
@@ -310,31 +310,35 @@ namespace QDLIB {
       if (cols != A->size() && !transpose) return;
       if (rows != A->size() && transpose) return;
       
-      if (B->size() != A->size())
-         B->newsize(A->size());
+      /* The result has the size of the other side of the matrix */
+      int size = transpose ? cols : rows;
+      int sum = transpose ? rows : cols;
+
+      if (B->size() != size)
+         B->newsize(size);
       
       T *b = B->begin(0);
       T *a = A->begin(0);
       
       if (transpose && !adjoint){
-	 for(int i=0; i < rows; i++){
+	 for(int i=0; i < size; i++){
             b[i] = T(0);
-	    for(int j=0; j < cols; j++){
+	    for(int j=0; j < sum; j++){
 	       b[i] += (*M)(j,i) * a[j];
 	    }
 	 }
       } else if (transpose && adjoint){
-         for(int i=0; i < rows; i++){
+         for(int i=0; i < size; i++){
             b[i] = T(0);
-            for(int j=0; j < cols; j++){
+            for(int j=0; j < sum; j++){
                b[i] += conj((*M)(j,i)) * a[j];
             }
          }         
       }
       else {
-	 for(int i=0; i < rows; i++){
+	 for(int i=0; i < size; i++){
 	    b[i] = T(0);
-	    for(int j=0; j < cols; j++){
+	    for(int j=0; j < sum; j++){
                b[i] += (*M)(i,j) * a[j];
 	    }
 	 }
diff --git a/src/math/dcomplex.h b/src/math/dcomplex.h
index 84bc17b..27b91c2 100644
--- a/src/math/dcomplex.h
+++ b/src/math/dcomplex.h
@@ -380,12 +380,13 @@ namespace QDLIB {
   inline dcomplex cpow(Imaginary i, int n)
   {
      int rem = n % 4;
+     if (rem < 0) rem += 4; /* negative powers */
 
      switch (rem){
         case 0: return dcomplex(1);
         case 1: return dcomplex(0,1);
         case 2: return dcomplex(-1);
-        case 3: return dcomplex(0,-1);
+        default: return dcomplex(0,-1);
      }
   }
 
@@ -395,6 +396,8 @@ namespace QDLIB {
   inline dcomplex csqrt(dcomplex c)
   {
      double r  = cabs(c);
+     if (r == 0) return dcomplex(0); /* Zero has no phase */
+
      double phi = phase(c);
 
      return sqrt(r) * cexpI(phi/2);
diff --git a/src/math/m128dc.h b/src/math/m128dc.h
index e3d37e6..6604491 100644
--- a/src/math/m128dc.h
+++ b/src/math/m128dc.h
@@ -133,10 +133,8 @@ namespace QDLIB
 
       inline m128dc imag()
       {
-         static const __m128d IMAGMASK128 =
-                       _mm_castsi128_pd(_mm_set_epi32(0xFFFFFFFF,0xFFFFFFFF,0,0));
-
-         return m128dc( _mm_and_pd(v, IMAGMASK128) );
+         /* The imaginary part is a real number */
+         return m128dc( _mm_unpackhi_pd(v, _mm_setzero_pd()) );
       }
 
       inline m128dc real()
@@ -152,7 +150,7 @@ namespace QDLIB
       inline double imags()
       {
          double res;
-        _mm_store_sd( (double*) &res, v);
+        _mm_storeh_pd( (double*) &res, v);
         return res;
       }
 
-- 
2.43.0


From d59967980f00ad05b6defd1457b4638619ce86e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:57 +0000
Subject: [PATCH 14/95] fix: FFT planning destroyed wave functions in momentum
 space, stale plans after reshaping, successive single dimension transforms

---
 src/fft/fft.cpp            | 69 +++++++++++++++++++++++++++-----------
 src/fft/fft.h              |  6 +++-
 src/qdlib/TransformFFT.cpp | 21 ++++++++++++
 src/qdlib/WFGridSystem.cpp | 15 +++++----
 4 files changed, 84 insertions(+), 27 deletions(-)

diff --git a/src/fft/fft.cpp b/src/fft/fft.cpp
index 41b45b7..bb95db4 100644
--- a/src/fft/fft.cpp
+++ b/src/fft/fft.cpp
@@ -4,6 +4,7 @@
 
 #include "fft.h"
 #include <stdio.h>
+#include <string.h>
 
 #ifdef _OPENMP
  #include <omp.h>
@@ -45,6 +46,36 @@ namespace QDLIB {
       }
    }
 
+   /**
+    * Save the contents of both buffers. Planning may overwrite them.
+    */
+   void FFT::_SaveBuffers(cVec &in, cVec &out) const
+   {
+      in.newsize(_size);
+      out.newsize(_size);
+      memcpy((void*) in.begin(0), (void*) _cin, _size * sizeof(dcomplex));
+      memcpy((void*) out.begin(0), (void*) _cout, _size * sizeof(dcomplex));
+   }
+
+   void FFT::_RestoreBuffers(const cVec &in, const cVec &out)
+   {
+      memcpy((void*) _cin, (void*) in.begin(0), _size * sizeof(dcomplex));
+      memcpy((void*) _cout, (void*) out.begin(0), _size * sizeof(dcomplex));
+   }
+
+   /**
+    * Check if the plans were made for the grid and the buffers.
+    */
+   bool FFT::Match(const GridSystem &grid, const cVec &in, const cVec &out) const
+   {
+      if (_ndims != grid.Dim() || _cin != in.begin(0) || _cout != out.begin(0)) return false;
+
+      for (int i = 0; i < _ndims; i++)
+         if (_dims[i] != grid.DimSize(i)) return false;
+
+      return true;
+   }
+
    /**
    * 1D complex-to-complex FFT.
    * 
@@ -55,18 +86,18 @@ namespace QDLIB {
    * \param oneway If true only the forward plan will be created
    */
    FFT::FFT(cVec &in, cVec &out, bool oneway) :
-            _dims(NULL), _rdims(NULL), _ndims(1), _oneway(oneway), _in(&in),
+            _dims(NULL), _rdims(NULL), _ndims(1), _oneway(oneway), _size(in.size()),
             _type(c2c), _cin(in.begin(0)), _din(NULL), _cout(out.begin(0)), _dout(NULL)
    {
-      cVec inbuf = in;
+      cVec inbuf, outbuf;
+      _SaveBuffers(inbuf, outbuf);
       _initplans();
       
       _planf[0] = fftw_plan_dft_1d(in.size(), (fftw_complex*) _cin, (fftw_complex*) _cout, FFTW_FORWARD, FFTW_MEASURE);
       if (!(_oneway = oneway)){
          _planb[0] = fftw_plan_dft_1d(in.size(), (fftw_complex*) _cout, (fftw_complex*) _cin, FFTW_BACKWARD, FFTW_MEASURE);
       }
-      in = inbuf;
-      
+      _RestoreBuffers(inbuf, outbuf);
    }
    
    /**
@@ -76,11 +107,11 @@ namespace QDLIB {
    * 
    * \param grid   GridSystem description
    * \param in     input
-   * \param out    output (content maybe destroyed)
+   * \param out    output (content is preserved)
    * \param oneway If true only the forward plan will be created
    */
    FFT::FFT(GridSystem &grid, cVec &in, cVec &out, bool oneway) :
-            _ndims(grid.Dim()), _oneway(oneway), _in(&in),
+            _ndims(grid.Dim()), _oneway(oneway), _size(grid.Size()),
             _type(c2c), _cin(in.begin(0)), _din(NULL), _cout(out.begin(0)), _dout(NULL)
    {
 
@@ -99,12 +130,12 @@ namespace QDLIB {
                FFTW_FORWARD, optflag | FFTW_PRESERVE_INPUT | FFTW_WISDOM_ONLY);
 
       if (_planf[0] == NULL){ /* Create fresh, optimized plan */
-         cVec inbuf;
-         inbuf = in; /* Save for planning */
+         cVec inbuf, outbuf;
+         _SaveBuffers(inbuf, outbuf); /* Save for planning */
          _planf[0] = fftw_plan_dft(grid.Dim(), _rdims, (fftw_complex*) _cin, (fftw_complex*) _cout,
                   FFTW_FORWARD, optflag);
 
-         in = inbuf;
+         _RestoreBuffers(inbuf, outbuf);
       }
 
       /* backward plan */
@@ -112,11 +143,11 @@ namespace QDLIB {
          _planb[0] = fftw_plan_dft(grid.Dim(), _rdims, (fftw_complex*) _cout, (fftw_complex*) _cin,
                   FFTW_BACKWARD, optflag | FFTW_PRESERVE_INPUT | FFTW_WISDOM_ONLY);
          if (_planb[0] == NULL){
-            cVec inbuf;
-            inbuf = in; /* Save for planning */
+            cVec inbuf, outbuf;
+            _SaveBuffers(inbuf, outbuf); /* Save for planning */
             _planb[0] = fftw_plan_dft(grid.Dim(), _rdims, (fftw_complex*) _cout, (fftw_complex*) _cin,
                      FFTW_BACKWARD, optflag);
-            in = inbuf;
+            _RestoreBuffers(inbuf, outbuf);
          }
       }
    }
@@ -130,7 +161,7 @@ namespace QDLIB {
    * \param oneway If true only the forward plan will be created.
    */
    FFT::FFT(dVec &in, cVec &out, bool oneway) :
-            _dims(NULL), _rdims(NULL), _ndims(1), _oneway(oneway), _in(NULL),
+            _dims(NULL), _rdims(NULL), _ndims(1), _oneway(oneway), _size(in.size()),
             _type(r2c), _cin(NULL), _din(in.begin(0)), _cout(out.begin(0)), _dout(NULL)
    {
       _initplans();
@@ -191,13 +222,13 @@ namespace QDLIB {
 
 
       if (_planf[dim+1] == NULL){ /* Create fresh, optimized plan */
-         cVec inbuf;
-         inbuf = *_in; /* Save for planning */
+         cVec inbuf, outbuf;
+         _SaveBuffers(inbuf, outbuf); /* Save for planning */
          _planf[dim+1] = fftw_plan_guru_dft(1, &datadim, _ndims - 1, loopdim,
                                           (fftw_complex*) _cin,
                                           (fftw_complex*) _cout,
                                           FFTW_FORWARD, optflag);
-         *_in = inbuf;
+         _RestoreBuffers(inbuf, outbuf);
       }
 
 
@@ -210,13 +241,13 @@ namespace QDLIB {
                                           FFTW_BACKWARD, FFTW_PATIENT | FFTW_PRESERVE_INPUT | FFTW_WISDOM_ONLY);
 
          if (_planb[dim+1] == NULL){ /* Create fresh, optimized plan */
-            cVec inbuf;
-            inbuf = *_in; /* Save for planning */
+            cVec inbuf, outbuf;
+            _SaveBuffers(inbuf, outbuf); /* Save for planning */
             _planb[dim+1] = fftw_plan_guru_dft(1, &datadim, _ndims - 1, loopdim,
                                              (fftw_complex*) _cout,
                                              (fftw_complex*) _cin,
                                              FFTW_BACKWARD, optflag);
-           *_in = inbuf;
+            _RestoreBuffers(inbuf, outbuf);
          }
 
       }
diff --git a/src/fft/fft.h b/src/fft/fft.h
index bfacd8f..39971d1 100644
--- a/src/fft/fft.h
+++ b/src/fft/fft.h
@@ -34,7 +34,7 @@ namespace QDLIB {
          int *_rdims; /* Dim sizes. reveresed, C-Order*/
          int _ndims; /* number of dims */
          bool _oneway;
-         cVec *_in;
+         int _size;  /* Total number of points */
          enum {c2c, r2c, r2r} _type;
          dcomplex *_cin;
          double *_din;
@@ -44,6 +44,8 @@ namespace QDLIB {
 
          void _initplans();
          void _CreatePlanDim(int dim);
+         void _SaveBuffers(cVec &in, cVec &out) const;
+         void _RestoreBuffers(const cVec &in, const cVec &out);
          int _lothers(int dim) const;
          int _uothers(int cdim) const;
       public:
@@ -53,6 +55,8 @@ namespace QDLIB {
 
          ~FFT();
 
+         bool Match(const GridSystem &grid, const cVec &in, const cVec &out) const;
+
          void ReplaceBuffers(cVec *in, cVec *out);
          void ReplaceBuffers(dVec *in, cVec *out);
 
diff --git a/src/qdlib/TransformFFT.cpp b/src/qdlib/TransformFFT.cpp
index e8f42c6..3d759ec 100644
--- a/src/qdlib/TransformFFT.cpp
+++ b/src/qdlib/TransformFFT.cpp
@@ -48,16 +48,37 @@ namespace QDLIB
       psi->IsKspace(false);
    }
 
+   /**
+    * Transform a single dimension into momentum space.
+    *
+    * Dimensions which are transformed successively add up.
+    */
    void TransformFFT::Forward(WaveFunction *Psi, int dim)
    {
       WFGridSystem* psi=dynamic_cast<WFGridSystem*>(Psi);
+
+      if (!psi) throw( EIncompatible("FFT can't transform", Psi->Name()) );
+
+      /* Already in k-space: the input is expected in the other buffer */
+      if (psi->IsKspace()) psi->GetSpaceBuffer()->FastCopy(*psi);
+
       psi->fft().forward(dim);
       psi->IsKspace(true);
    }
 
+   /**
+    * Transform a single dimension into position space.
+    *
+    * Dimensions which are transformed successively add up.
+    */
    void TransformFFT::Backward(WaveFunction *Psi, int dim)
    {
       WFGridSystem* psi=dynamic_cast<WFGridSystem*>(Psi);
+
+      if (!psi) throw( EIncompatible("FFT can't transform", Psi->Name()) );
+
+      if (!psi->IsKspace()) psi->GetSpaceBuffer()->FastCopy(*psi);
+
       psi->fft().backward(dim);
       psi->IsKspace(false);
    }
diff --git a/src/qdlib/WFGridSystem.cpp b/src/qdlib/WFGridSystem.cpp
index 48654c3..6abc72e 100644
--- a/src/qdlib/WFGridSystem.cpp
+++ b/src/qdlib/WFGridSystem.cpp
@@ -27,13 +27,14 @@ namespace QDLIB {
 
    void WFGridSystem::CheckFFT()
    {
-      /* Make sure the space buffer has the right size */
-      GetSpaceBuffer();
-
-      if ( _spacebuffer->size() != size() || _spacebuffer->strides() != strides()){
-         _spacebuffer->newsize(size(), strides());
-         delete _fft;
-         _fft = NULL;
+      /* Grid or buffers may have changed since the plans were made. Take care - the buffers are switched in k-space! */
+      if (_fft != NULL) {
+         cVec *in = this, *out = GetSpaceBuffer();
+         if (IsKspace()) std::swap(in, out);
+         if (! _fft->Match(*((GridSystem*) this), *in, *out)) {
+            delete _fft;
+            _fft = NULL;
+         }
       }
 
       if (_fft == NULL){
-- 
2.43.0


From 7d0b66a482931e6e905f41581870b3b62724c77f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:57 +0000
Subject: [PATCH 15/95] fix: representation flag and links of multistate and
 level wave functions after copies

---
 src/qdlib/WFLevel.cpp      |  2 ++
 src/qdlib/WFMultistate.cpp | 39 +++++++++++++++++++++++++++-----------
 src/qdlib/WFMultistate.h   |  1 +
 src/qdlib/WaveFunction.h   |  6 +++---
 4 files changed, 34 insertions(+), 14 deletions(-)

diff --git a/src/qdlib/WFLevel.cpp b/src/qdlib/WFLevel.cpp
index 9eb883a..b948c51 100644
--- a/src/qdlib/WFLevel.cpp
+++ b/src/qdlib/WFLevel.cpp
@@ -60,6 +60,7 @@ namespace QDLIB {
       
       if (!psi) throw ( EIncompatible("WFLevel can't copy from", Psi->Name()) );
       
+      IsKspace(Psi->IsKspace());
       (*(cVec*) this) = (cVec) *Psi;
       _params =  Psi->Params();
       
@@ -68,6 +69,7 @@ namespace QDLIB {
    
    WFLevel& WFLevel::operator=(WFLevel &Psi)
    {
+      IsKspace(Psi.IsKspace());
       *(cVec*) this = (cVec) Psi;
       _params =  Psi.Params();
       
diff --git a/src/qdlib/WFMultistate.cpp b/src/qdlib/WFMultistate.cpp
index 9a9d08e..090edf4 100644
--- a/src/qdlib/WFMultistate.cpp
+++ b/src/qdlib/WFMultistate.cpp
@@ -33,6 +33,22 @@ namespace QDLIB
       _nstates = 0;
    }
 
+   /**
+    * Link the states into our vector space.
+    */
+   void WFMultistate::_Link()
+   {
+#ifdef HAVE_MPI
+      cVec::newsize(0, _nstates, GetComm());
+#else
+      cVec::newsize(0, _nstates);
+#endif
+      for (int i=0; i < _nstates; i++){
+         if (! cVec::StrideRef(*((cVec*) (_states[i])), 0, i))
+            throw(Exception("Stride Failure"));
+      }
+   }
+
    /**
     * Add a WaveFunction to the multistate container.
     * 
@@ -75,13 +91,11 @@ namespace QDLIB
       r->_nstates = _nstates;
 #ifdef HAVE_MPI
       r->newsize(0, _nstates, GetComm());
-#else
-      r->newsize(0, _nstates);
 #endif
       for (int i = 0; i < _nstates; i++) {
          r->_states[i] = _states[i]->NewInstance();
-         r->StrideRef(*(r->_states[i]), 0, i);
       }
+      r->_Link();
       r->_params = _params;
       return r;
    }
@@ -124,17 +138,10 @@ namespace QDLIB
       }
       
       /* Link states into our vector space */
-
 #ifdef HAVE_MPI
       cVec::newsize(0, _nstates, &MPI::COMM_WORLD);
-#else
-      cVec::newsize(0,_nstates);
 #endif
-      for (int i=0; i < _nstates; i++){
-         if (! cVec::StrideRef(*((cVec*) (_states[i])), 0, i))
-         throw(Exception("Stride Failure"));
-      }
-      
+      _Link();
       SyncStrides();
    }
 
@@ -196,6 +203,16 @@ namespace QDLIB
 	 *(_states[i]) = psi->_states[i];
       }
       _params = psi->_params;
+
+      /* The states may have got new storage */
+      for(lint i=0; i < _nstates; i++){
+         if (strides() != _nstates || begin(i) != _states[i]->begin(0) || lsize() != _states[i]->lsize()) {
+            _Link();
+            break;
+         }
+      }
+      _IsKspace = psi->_IsKspace;
+
       return this;
    }
 
diff --git a/src/qdlib/WFMultistate.h b/src/qdlib/WFMultistate.h
index c3f11f2..a3ddccb 100644
--- a/src/qdlib/WFMultistate.h
+++ b/src/qdlib/WFMultistate.h
@@ -25,6 +25,7 @@ namespace QDLIB
 	 WaveFunction* _states[QD_MAX_STATES];
 
 	 void _destroy();
+	 void _Link();
       public:
          WFMultistate();
          ~WFMultistate();
diff --git a/src/qdlib/WaveFunction.h b/src/qdlib/WaveFunction.h
index 517e8d5..dc515a7 100644
--- a/src/qdlib/WaveFunction.h
+++ b/src/qdlib/WaveFunction.h
@@ -117,9 +117,7 @@ namespace QDLIB {
           */
          virtual void IsKspace(bool is)
          {  
-            if ( _spacebuffer == NULL) GetSpaceBuffer();
-            if ( _spacebuffer->size() != size() || _spacebuffer->strides() != strides())
-               _spacebuffer->newsize(size(), strides());
+            GetSpaceBuffer();
 
             if (_IsKspace != is){
                cVec::swap(*_spacebuffer);
@@ -135,6 +133,8 @@ namespace QDLIB {
          cVec* GetSpaceBuffer()
          {
             if (!_spacebuffer) _spacebuffer = new cVec(size(),strides());
+            if ( _spacebuffer->size() != size() || _spacebuffer->strides() != strides())
+               _spacebuffer->newsize(size(), strides());
             return _spacebuffer;
          }
 
-- 
2.43.0


From 6964c733616d5bebf7c7817276d30cb658ebbdc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:16 +0000
Subject: [PATCH 16/95] fix: grid index maps were only valid after assignment,
 views kept the replica count of another dimension

---
 src/math/VectorView.h    | 18 ++++++++-------
 src/qdlib/GridSystem.cpp | 47 +++++++++++++++++++++++++---------------
 src/qdlib/GridSystem.h   |  8 ++++---
 3 files changed, 45 insertions(+), 28 deletions(-)

diff --git a/src/math/VectorView.h b/src/math/VectorView.h
index 18c25d8..f2a4238 100644
--- a/src/math/VectorView.h
+++ b/src/math/VectorView.h
@@ -53,6 +53,7 @@ namespace QDLIB
 	 cout << "!!!WARNING: VectorView doesn't work with strided vectors!!!" << endl;
 	 _ndims = 0;
 	 _dims = 0;
+	 _view = 0;
 	 return;
       }
       _v = vec.begin(0);
@@ -94,8 +95,14 @@ namespace QDLIB
       
       _adim = dim;
       
+      /* Determine how many times one x_i value is present */
+      _nothers = 1;
+      for(int i=0; i < _ndims; i++)
+      {
+         if (i != dim) _nothers *= _dims[i];
+      }
+
       if (_view[dim] == NULL){
-	 _nothers = 1;
 	 int lothers = 1;
 	 
 	 /* Determine how many values in the lower dims are  present */
@@ -105,12 +112,6 @@ namespace QDLIB
 	       lothers *= _dims[i];
 	 }
 	 
-	 /* Determine how many times one x_i value is present */
-	 for(int i=0; i < _ndims; i++)
-	 {
-	    if (i != dim) _nothers *= _dims[i];
-	 }
-	 
 	 /* Reserve space for active dimension*/
 	 _view[dim] = new T**[_dims[dim]];
 	 /* Set the pointer array */
@@ -143,7 +144,7 @@ namespace QDLIB
    {
       Vector<T> *r;
       r = new Vector<T>(_nothers);
-      *r = 0;
+      *r = T(0);
       
       for (int i=0; i < _dims[_adim]; i++){ /* Loop over points in dim */
 	 for (int j=0; j < _nothers; j++) /* Loop over other dim */
@@ -151,6 +152,7 @@ namespace QDLIB
 	    (*r)[j] += *(_view[_adim][i][j]);
 	 }
       }
+      return r;
    }
    
    /**
diff --git a/src/qdlib/GridSystem.cpp b/src/qdlib/GridSystem.cpp
index 0e011d4..383c36d 100644
--- a/src/qdlib/GridSystem.cpp
+++ b/src/qdlib/GridSystem.cpp
@@ -278,27 +278,40 @@ namespace QDLIB {
       else return true;
    }
 
+   /**
+    * Number of points in the dimensions lower than dim.
+    */
+   int GridSystem::_LowOthers(int dim) const
+   {
+      int lothers = 1;
+
+      for(int i=0; i < dim; i++)
+         lothers *= grid_sys.header.dim(i).size();
+
+      return lothers;
+   }
+
+   /**
+    * Number of points in all dimensions other than dim.
+    */
+   int GridSystem::_NumOthers(int dim) const
+   {
+      int nothers = 1;
+
+      for(int i=0; i < Dim(); i++)
+         if (i != dim) nothers *= grid_sys.header.dim(i).size();
+
+      return nothers;
+   }
+
    /**
     * Create Stripe informations.
     */
    void GridSystem::_BuildInfo()
    {
-      for (size_t dim=0; dim < grid_sys.header.dims(); dim++){
-         _lothers[dim] = 1;
-         _nothers[dim] = 1;
-
-         /* Determine how many values in the lower dims are  present */
-         if (dim>0)
-         {
-            for(size_t i=0; i < dim; i++)
-               _lothers[dim] *= grid_sys.header.dim(i).size();
-         }
-
-         /* Determine how many times one x_i value is present */
-         for(size_t i=0; i < grid_sys.header.dims(); i++)
-         {
-            if (i != dim) _nothers[dim] *= grid_sys.header.dim(i).size();
-         }
+      for (int dim=0; dim < Dim(); dim++){
+         _lothers[dim] = _LowOthers(dim);
+         _nothers[dim] = _NumOthers(dim);
       }
    }
 
@@ -322,7 +335,7 @@ namespace QDLIB {
 
       for(size_t i=0; i < grid_sys.header.dims(); i++){
          int ltmp = 1;
-         if (i != dim1 || i != dim2) {
+         if (i != dim1 && i != dim2) {
             for(size_t j=0; j < i ; j++)
                ltmp *= grid_sys.header.dim(j).size();
          }
diff --git a/src/qdlib/GridSystem.h b/src/qdlib/GridSystem.h
index 38d1267..bbbda25 100644
--- a/src/qdlib/GridSystem.h
+++ b/src/qdlib/GridSystem.h
@@ -41,6 +41,8 @@ namespace QDLIB
          int _numactive;
 
          void _BuildInfo();
+         int _LowOthers(int dim) const;
+         int _NumOthers(int dim) const;
 
       protected:
          GridSystemHeaderPm grid_sys;
@@ -81,18 +83,18 @@ namespace QDLIB
          /**
           *  Activate a dimension for index mapping.
           */
-         void ActiveDim(int dim) { _active = dim;  _numactive = grid_sys.header.dim(dim).size(); }
+         void ActiveDim(int dim) { _BuildInfo(); _active = dim;  _numactive = grid_sys.header.dim(dim).size(); }
 
          /**
           * Number of replica points for one index in activated dimension.
           *
           */
          int NumOthers() const { return _nothers[_active]; }
-         int NumOthers(int dim) const { return _nothers[dim]; }
+         int NumOthers(int dim) const { return _NumOthers(dim); }
          int NumOthers(size_t dim1, size_t dim2) const;
 
          int LowOthers() const { return _lothers[_active]; }
-         int LowOthers(int dim) const { return _lothers[dim]; }
+         int LowOthers(int dim) const { return _LowOthers(dim); }
          int LowOthers(size_t dim1, size_t dim2) const;
 
          /**
-- 
2.43.0


From 77dcc6f8da415ffb3d9ce013be832d224d699903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:17 +0000
Subject: [PATCH 17/95] fix: OGridSum adds up all its operators (the loop body
 lacked its braces)

---
 src/qdlib/OGridSum.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/qdlib/OGridSum.cpp b/src/qdlib/OGridSum.cpp
index 622cef0..15729f6 100644
--- a/src/qdlib/OGridSum.cpp
+++ b/src/qdlib/OGridSum.cpp
@@ -35,10 +35,11 @@ namespace QDLIB {
       
       int k;
       if (_size > 1) {
-	 for (k=1; k < _size; k++)             /* Loop over operators */
+	 for (k=1; k < _size; k++) {           /* Loop over operators */
 	    _O[k]->UpdateTime();
 	    for (int i=0; i < dVec::size(); i++)   /* Loop over grid points */
 	       (*this)[i] += (*(_O[k]))[i];
+	 }
       }
       _isUpTodate = true;
       
-- 
2.43.0


From f665109e186f5b07fbbe5755e30e1ca5ad10976a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:17 +0000
Subject: [PATCH 18/95] fix: grid based G-matrix without kinetic coupling does
 not need off-diagonal elements

---
 src/qdlib/OGridGMat.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qdlib/OGridGMat.cpp b/src/qdlib/OGridGMat.cpp
index 750c8be..1c16117 100644
--- a/src/qdlib/OGridGMat.cpp
+++ b/src/qdlib/OGridGMat.cpp
@@ -67,7 +67,7 @@ namespace QDLIB {
       /* Check compatibility of gridsystems */
       for (int i=0; i < Dim(); i++){
          for (int j=0; j <= i ; j++){
-            if (_src(i,j) == grd)
+            if (_src(i,j) == grd && _Gmat[i][j] != NULL)
                if (*((GridSystem*) _Gmat[i][j]) != *((GridSystem*) psi))
                   throw(EIncompatible("Gmatrix element is incompatible with wave function"));
          }
-- 
2.43.0


From 4c6452e00a25ce98fc163d07afb1d9de2dcbeda1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:17 +0000
Subject: [PATCH 19/95] fix: the finite difference operator uses the mass of
 each dimension

---
 src/qdlib/OGridHOFD.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qdlib/OGridHOFD.cpp b/src/qdlib/OGridHOFD.cpp
index dcaf1c6..467bf2f 100644
--- a/src/qdlib/OGridHOFD.cpp
+++ b/src/qdlib/OGridHOFD.cpp
@@ -84,7 +84,7 @@ namespace QDLIB {
                throw(EParamProblem("Zero mass defined"));
             if (_mass[i] > -1) eff = true;
 
-            factor = -1./ (2 * _mass[i]);
+            factor[i] = -1./ (2 * _mass[i]);
          }
 
          _hofd->SetFactor(factor);
-- 
2.43.0


From 5db816a9c756d5456ab3640379efe6e1c49b3e9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:17 +0000
Subject: [PATCH 20/95] fix: Butterworth filters centred on the first grid
 point are not NaN

---
 src/math/math_functions.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/math/math_functions.h b/src/math/math_functions.h
index 3fb6b85..831f405 100644
--- a/src/math/math_functions.h
+++ b/src/math/math_functions.h
@@ -43,7 +43,8 @@ namespace QDLIB {
       int size = vec.size();
       
       for (int i=0; i < size; i++){
-         vec[i] = 1 / (1 + pow( center / double(i) , 2 * k) );
+         if (double(i) == center) vec[i] = 0.5; /* also defined at grid point 0 */
+         else vec[i] = 1 / (1 + pow( center / double(i) , 2 * k) );
       }
       
    }
@@ -63,7 +64,8 @@ namespace QDLIB {
       int size = vec.size();
       
       for (int i=0; i < size; i++){
-         vec[i] = 1 / (1 + pow(  double(i) / center, 2 * k) );
+         if (double(i) == center) vec[i] = 0.5; /* also defined at grid point 0 */
+         else vec[i] = 1 / (1 + pow(  double(i) / center, 2 * k) );
       }
       
    }
-- 
2.43.0


From 511d9dbf62684f4d5f5c01f57ad2ff22059f33e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:17 +0000
Subject: [PATCH 21/95] fix: the left edge of a negative imaginary potential is
 not lost

---
 src/qdlib/OGobbler.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/qdlib/OGobbler.cpp b/src/qdlib/OGobbler.cpp
index 7abad9c..d445a10 100644
--- a/src/qdlib/OGobbler.cpp
+++ b/src/qdlib/OGobbler.cpp
@@ -56,7 +56,11 @@ namespace QDLIB {
 	    FunctionGenerator<dVec>::BwLowpass(filter, x, _order);
 	
 	    view.ActiveDim(i);
-	    view *= filter;
+
+	    if (_nip)
+	       view += filter;
+	    else
+	       view *= filter;
 	 }
 	 if (_rp[i]){
 	    x = (_rpx[i] - GridSystem::Xmin(i)) / GridSystem::Dx(i);
-- 
2.43.0


From 55799a9b1ed50ef97a713dc7a706dca79f648ad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:26 +0000
Subject: [PATCH 22/95] fix: finite differences of all dimensions mixed up the
 dimensions and read outside the grid

---
 src/qdlib/HOFD.h | 44 +++++++++++++++++++++++++-------------------
 1 file changed, 25 insertions(+), 19 deletions(-)

diff --git a/src/qdlib/HOFD.h b/src/qdlib/HOFD.h
index edeedf1..d802986 100644
--- a/src/qdlib/HOFD.h
+++ b/src/qdlib/HOFD.h
@@ -43,6 +43,8 @@ namespace QDLIB
 
            void _CheckSetup();
 
+           void _CheckDim(int dim);
+
            void _DiffBlock2DDxDy(T *out, T *buf, T *in, int order2, int point,
                     int N, int lo1, int lo2,  int bs1, int bs2,
                     double* cf, double df, double h1, double h2 ,bool acc);
@@ -92,6 +94,16 @@ namespace QDLIB
          throw(EParamProblem("Invalid FD derivative", _deriv));
    }
 
+   /**
+    * The stencil must fit into the grid.
+    */
+   template<class T>
+   void HOFD<T>::_CheckDim(int dim)
+   {
+      if (_grid.DimSize(dim) < _order)
+         throw(EParamProblem("FD order is larger than the number of grid points", _order));
+   }
+
    /**
     * The derivative and the order of finite diference scheme must be given at construction.
     */
@@ -136,6 +148,7 @@ namespace QDLIB
 
       /* Build pre factors */
       for (int dim=0; dim < _grid.Dim(); dim++){ /* Loop over all dims */
+         _CheckDim(dim);
          h[dim] = 1./pow(_grid.Dx(dim), _deriv) * _pfac1 * _pfac[dim];
       }
 
@@ -147,28 +160,20 @@ namespace QDLIB
          for (int dim=0; dim < _grid.Dim(); dim++){ /* Loop over all dims */
             int lo = _grid.LowOthers(dim);
             int N = _grid.DimSize(dim);
-            int step=lo;
+            int x = (i / lo) % N;        /* coordinate in the active dim */
+            T* line = &(psi[i - x * lo]); /* begin of the line through the point */
             T d = cf[order2] * psi[i];
 
-            int lrep = i / N; /* local replica */
+            for (int s=1; s <= order2; s++){ /* coeffs */
+               if (x + s < N)
+                  d += df * cf[order2-s] * line[(x+s)*lo];
+               else if (_pbc)
+                  d += df * cf[order2-s] * line[(x+s-N)*lo]; /* wrap around indices for PBC */
 
-            if (_pbc){
-               for (int j=order2-1; j >= 0 ; j--){ /* coeffs */
-                  d += df * cf[j] * psi[(i+step)%N]; /* wrap around indices for PBC */
-                  d += cf[j] * psi[(N+i-step)%N];
-                  step += lo;
-               }
-            } else {
-               step = i+lo;
-               for (int j=order2-1; j >= 0 && (step)/N == lrep ; j--){
-                  d += df * cf[j] * psi[step];
-                  step += lo;
-               }
-               step = i-lo;
-               for (int j=order2-1; j >= 0 && (N+i-step)/N == lrep+1; j--){
-                  d += cf[j] * psi[(N+step)%N];
-                  step -= lo;
-               }
+               if (x - s >= 0)
+                  d += cf[order2-s] * line[(x-s)*lo];
+               else              /* the lower edge is always treated as periodic */
+                  d += cf[order2-s] * line[(x-s+N)*lo];
             }
             Dpsi[i] += h[dim] * d;
          }
@@ -190,6 +195,7 @@ namespace QDLIB
          double h = 1./pow(_grid.Dx(dim), _deriv) * _pfac1 * _pfac[dim];
          int order2 = _order/2;
 
+         _CheckDim(dim);
          _grid.ActiveDim(dim); /* Use index mapping scheme */
          int Nx = _grid.NumActive();
 
-- 
2.43.0


From cc8a1d6ed06e1d82bcdea57f5cebe5dc01f8e37b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:29 +0000
Subject: [PATCH 23/95] fix: the scalar operator defaults to one, is only
 Hermitian if real, and can be used before initialisation

---
 src/qdlib/OScalar.cpp | 17 ++++++++++-------
 src/qdlib/OScalar.h   |  3 +++
 2 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/qdlib/OScalar.cpp b/src/qdlib/OScalar.cpp
index 927569e..2f3693f 100644
--- a/src/qdlib/OScalar.cpp
+++ b/src/qdlib/OScalar.cpp
@@ -23,10 +23,14 @@ namespace QDLIB {
    {
       _params = params;
       
-      _params.GetValue("value",_value._real);
+      _value = dcomplex(1, 0);
+      if (_params.isPresent("value"))
+         _params.GetValue("value",_value._real);
 
       if (_params.isPresent("im"))
 	  _params.GetValue("im",_value._imag);
+
+      _hermitian = (_value._imag == 0);
    }
    
    void OScalar::Init(WaveFunction * Psi)
@@ -41,20 +45,18 @@ namespace QDLIB {
 
    dcomplex OScalar::MatrixElement(WaveFunction * PsiBra, WaveFunction * PsiKet)
    {
-      *_buf = PsiKet;
-      MultElements((cVec*) _buf, _value);
-      return *PsiBra * _buf;
+      return _Value() * (*PsiBra * PsiKet);
    }
    
    void OScalar::Apply(WaveFunction * destPsi, WaveFunction * sourcePsi)
    {
-      MultElementsCopy((cVec*) destPsi, (cVec*) sourcePsi, _value);
+      MultElementsCopy((cVec*) destPsi, (cVec*) sourcePsi, _Value());
    }
 
    
    void OScalar::Apply(WaveFunction * Psi)
    {
-      MultElements((cVec*) Psi, _value);
+      MultElements((cVec*) Psi, _Value());
    }
 
    Operator * OScalar::operator =(Operator * O)
@@ -72,6 +74,7 @@ namespace QDLIB {
          throw ( EIncompatible("Not of type scalar", O->Name() ) );
       
       _value = o->_value;
+      _hermitian = o->_hermitian;
       if (o->_buf != NULL)
          _buf = o->_buf->NewInstance();
       
@@ -81,7 +84,7 @@ namespace QDLIB {
    bool OScalar::Valid(WaveFunction * Psi)
    {
       if ( Psi == NULL ) return false;
-      if ( Psi->size() != _buf->size() ) return false;
+      if ( _buf != NULL && Psi->size() != _buf->size() ) return false;
       
       return true;
    }
diff --git a/src/qdlib/OScalar.h b/src/qdlib/OScalar.h
index c82a012..c0b48b0 100644
--- a/src/qdlib/OScalar.h
+++ b/src/qdlib/OScalar.h
@@ -25,6 +25,9 @@ namespace QDLIB {
          string _name;
          WaveFunction* _buf;
          dcomplex _value;
+
+         /* The value to apply, respects the complex conjugate switch */
+         dcomplex _Value() const { return _conj ? _value.conj() : _value; }
          
       public:
          OScalar();
-- 
2.43.0


From 4ed4ed5a416fa1b8410c26fd827c97dc40033ba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:57 +0000
Subject: [PATCH 24/95] fix: the derivative is not Hermitian, the adjoint of
 the momentum operator is the momentum operator

---
 src/qdlib/OGridNabla.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/qdlib/OGridNabla.cpp b/src/qdlib/OGridNabla.cpp
index 99ed516..146dfb7 100644
--- a/src/qdlib/OGridNabla.cpp
+++ b/src/qdlib/OGridNabla.cpp
@@ -12,21 +12,25 @@ namespace QDLIB {
    
    OGridNabla::OGridNabla() : ODSpaceCplx(), GridSystem(), _name("OGridNabla"), _fac(1), _kspace(NULL),  _momentum(false), _dim(-1)
    {
+      _hermitian = false;
    }
 
    OGridNabla::OGridNabla(int dim) : ODSpaceCplx(), GridSystem(), _name("OGridNabla"), _fac(1), _kspace(NULL),  _momentum(false), _dim(dim)
    {
+      _hermitian = false;
    }
 
 
    OGridNabla::OGridNabla(bool momentum) :
          ODSpaceCplx(), GridSystem(),_name("OGridNabla"), _fac(1), _kspace(NULL), _momentum(momentum), _dim(-1)
    {
+      _hermitian = momentum;
    }
 
    OGridNabla::OGridNabla(bool momentum, int dim) :
          ODSpaceCplx(), GridSystem(),_name("OGridNabla"), _fac(1), _kspace(NULL), _momentum(momentum), _dim(dim)
    {
+      _hermitian = momentum;
    }
 
 
@@ -81,7 +85,7 @@ namespace QDLIB {
       opPsi = dynamic_cast<WFGridSystem*>(destPsi);
 
       double sgn = 1;
-      if (_conj) sgn = -1; /* Switch sign for complex conjugate */
+      if (_conj && !_momentum) sgn = -1; /* The derivative is anti-Hermitian, the momentum is not changed */
 
       _FFT.Forward(ket);
       opPsi->IsKspace(true);
@@ -102,7 +106,7 @@ namespace QDLIB {
       opPsi = dynamic_cast<WFGridSystem*>(Psi);
 
       double sgn = 1;
-      if (_conj) sgn = -1; /* Switch sign for complex conjugate */
+      if (_conj && !_momentum) sgn = -1; /* The derivative is anti-Hermitian, the momentum is not changed */
 
       _FFT.Forward(opPsi);
       if (_momentum)
@@ -129,6 +133,7 @@ namespace QDLIB {
       _params = o->_params;
       _fac = o->_fac;
       _momentum = o->_momentum;
+      _hermitian = o->_hermitian;
 
       *((GridSystem*) this) = *((GridSystem*) o);
 
-- 
2.43.0


From 3fb02acf9e450c361161689b701ed47fa5c6d381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:22 +0000
Subject: [PATCH 25/95] fix: the momentum kick is not Hermitian and can be
 switched to its adjoint

---
 src/qdlib/OGridKick.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/qdlib/OGridKick.cpp b/src/qdlib/OGridKick.cpp
index 82fb545..b52017c 100644
--- a/src/qdlib/OGridKick.cpp
+++ b/src/qdlib/OGridKick.cpp
@@ -10,6 +10,7 @@ namespace QDLIB {
    OGridKick::OGridKick()
    : Operator(), GridSystem(), _name("OGridKick"), _exp(NULL)
    {
+      _hermitian = false; /* unitary */
    }
    
    
@@ -143,12 +144,18 @@ namespace QDLIB {
    
    void OGridKick::Apply(WaveFunction * destPsi, WaveFunction * sourcePsi)
    {
-      MultElementsCopy((cVec*) destPsi, (cVec*) sourcePsi, _exp);
+      if (_conj)
+         MultElementsConjugate((cVec*) destPsi, _exp, (cVec*) sourcePsi, 1.);
+      else
+         MultElementsCopy((cVec*) destPsi, (cVec*) sourcePsi, _exp);
    }
 
    void OGridKick::Apply(WaveFunction * Psi)
    {
-      MultElements( (cVec*) Psi, _exp);
+      if (_conj)
+         MultElementsConjugate((cVec*) Psi, _exp, (cVec*) Psi, 1.);
+      else
+         MultElements( (cVec*) Psi, _exp);
    }
    
    bool OGridKick::Valid(WaveFunction * Psi)
-- 
2.43.0


From b22e2db146430b2d740bac3e1ef1bb22652e990f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:22 +0000
Subject: [PATCH 26/95] fix: the first finite difference derivative is not
 Hermitian and can be switched to its adjoint

---
 src/qdlib/OGridHOFD.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/qdlib/OGridHOFD.cpp b/src/qdlib/OGridHOFD.cpp
index 467bf2f..0455ff9 100644
--- a/src/qdlib/OGridHOFD.cpp
+++ b/src/qdlib/OGridHOFD.cpp
@@ -37,6 +37,8 @@ namespace QDLIB {
 
       _params.GetValue("order", _order);
 
+      _hermitian = (_deriv != 1); /* the first derivative is anti-Hermitian */
+
       bool pbc;
       _params.GetValue("pbc", pbc, false);
 
@@ -119,6 +121,9 @@ namespace QDLIB {
 
    void OGridHOFD::Apply(WaveFunction* destPsi, WaveFunction* sourcePsi)
    {
+      /* Sign of the adjoint: the first derivative is anti-Hermitian */
+      _hofd->SetFactor( (_conj && _deriv == 1) ? -_pfac : _pfac );
+
       if (_dim == -1){
          _hofd->Diff((cVec*) destPsi, (cVec*) sourcePsi, 0);
          for (int dim=1; dim < Dim(); dim++){
@@ -142,6 +147,7 @@ namespace QDLIB {
       _deriv = o->_deriv;
       _order = o->_order;
       _dim = o->_dim;
+      _hermitian = o->_hermitian;
 
       OGridSystem::Copy(O);
 
-- 
2.43.0


From 6bf2664b4106cccf5aea87ad840ee43f15b1a681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:22 +0000
Subject: [PATCH 27/95] fix: the adjoint of the perfectly matched layer applies
 its factors in reversed order

---
 src/qdlib/OGridPML.cpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/qdlib/OGridPML.cpp b/src/qdlib/OGridPML.cpp
index 73e27f7..fd3fb95 100644
--- a/src/qdlib/OGridPML.cpp
+++ b/src/qdlib/OGridPML.cpp
@@ -115,10 +115,18 @@ namespace QDLIB
 
       *destPsi = 0.0;
       for (int i=0; i < GridSystem::Dim(); i++){
-         DnDxn(_buf1, sourcePsi, i);
-         _pml[i].ApplyTransform(_buf1, _conj);
-         DnDxn(_buf2, _buf1, i, -1./2./_mass[i]);
-         _pml[i].ApplyTransform(_buf2, _conj);
+         if (_conj) { /* adjoint: reversed order */
+            *_buf2 = sourcePsi;
+            _pml[i].ApplyTransform(_buf2, true);
+            DnDxn(_buf1, _buf2, i);
+            _pml[i].ApplyTransform(_buf1, true);
+            DnDxn(_buf2, _buf1, i, -1./2./_mass[i]);
+         } else {
+            DnDxn(_buf1, sourcePsi, i);
+            _pml[i].ApplyTransform(_buf1, false);
+            DnDxn(_buf2, _buf1, i, -1./2./_mass[i]);
+            _pml[i].ApplyTransform(_buf2, false);
+         }
          *destPsi += _buf2;
       }
       _buf1->Retire();
-- 
2.43.0


From 7363025fa6f16a582697d59635fd6556d87b7813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:22 +0000
Subject: [PATCH 28/95] fix: the non-adiabatic coupling released its buffer
 without unregistering it

---
 src/qdlib/OGridNAC.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qdlib/OGridNAC.cpp b/src/qdlib/OGridNAC.cpp
index c7cfd72..f001b8d 100644
--- a/src/qdlib/OGridNAC.cpp
+++ b/src/qdlib/OGridNAC.cpp
@@ -161,7 +161,7 @@ namespace QDLIB {
       Apply(opPsi, Psi);
       *Psi = opPsi;
       
-      delete opPsi;
+      DELETE_WF(opPsi);
    }
 
    Operator * OGridNAC::operator =(Operator * O)
-- 
2.43.0


From e106c51a5623017c228b21c756a0479e0c6b2f7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:22 +0000
Subject: [PATCH 29/95] fix: the non-adiabatic coupling can be switched to its
 adjoint

---
 src/qdlib/OGridNAC.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/qdlib/OGridNAC.cpp b/src/qdlib/OGridNAC.cpp
index f001b8d..248aebb 100644
--- a/src/qdlib/OGridNAC.cpp
+++ b/src/qdlib/OGridNAC.cpp
@@ -132,9 +132,11 @@ namespace QDLIB {
    {
       _buf->Reaquire();
 
+      double sign = _conj ? -_sign : _sign; /* the coupling is anti-Hermitian */
+
       for (int i=0; i < Dim(); i++ ){
          /* 1/2 f del psi*/
-         _Nabla[i].PreFactor(0.5 * _sign / _mass);
+         _Nabla[i].PreFactor(0.5 * sign / _mass);
          _Nabla[i].Apply(_buf, sourcePsi);
          _NACME[i].Apply(_buf);
          
@@ -144,7 +146,7 @@ namespace QDLIB {
             *destPsi += _buf;
          
          /* 1/2 del f psi*/
-         _Nabla[i].PreFactor(0.5 * _sign / _mass);
+         _Nabla[i].PreFactor(0.5 * sign / _mass);
          _NACME[i].Apply(_buf, sourcePsi);
          _Nabla[i].Apply(_buf);
    
-- 
2.43.0


From 35db92ebab5f243b5cea5ab81e3e047ebbec3fcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:34 +0000
Subject: [PATCH 30/95] fix: replacing an element of an operator list updates
 its time dependence and hermiticity

---
 src/qdlib/OList.cpp | 26 ++++++++++++++++++--------
 src/qdlib/OList.h   |  2 ++
 2 files changed, 20 insertions(+), 8 deletions(-)

diff --git a/src/qdlib/OList.cpp b/src/qdlib/OList.cpp
index 3003f7e..2ed9ded 100644
--- a/src/qdlib/OList.cpp
+++ b/src/qdlib/OList.cpp
@@ -46,7 +46,7 @@ namespace QDLIB {
     */
    Operator * OList::Get(int index)
    {
-      if (index >= _size)
+      if (index >= _size || index < 0)
          throw( EIncompatible("Access to empty element") );
       return _O[index];
    }
@@ -82,19 +82,31 @@ namespace QDLIB {
     */
    void OList::Set(int index, Operator *O)
    {
-      if (index >= _size)
+      if (index >= _size || index < 0)
          throw( EIncompatible("Access to empty element") );
       
       _O[index] = O;
       _O[index]->Conj(_conj);
+      _UpdateFlags();
    }
    
    void OList::Set(const string& name, Operator *O)
    {
-      int index = GetIndex(name);
+      Set(GetIndex(name), O);
+   }
 
-      _O[index] = O;
-      _O[index]->Conj(_conj);
+   /**
+    * Time dependence and hermiticity follow from the elements.
+    */
+   void OList::_UpdateFlags()
+   {
+      _isTimedependent = false;
+      _hermitian = true;
+
+      for(int i=0; i < _size; i++){
+         if (_O[i]->isTimeDep()) _isTimedependent = true;
+         if (! _O[i]->Hermitian() ) _hermitian = false;
+      }
    }
 
    /**
@@ -119,14 +131,12 @@ namespace QDLIB {
          throw ( EIncompatible("Operator not initialized") );
       }
       
-      if (O->isTimeDep()) _isTimedependent = true;
-     
       _O[_size] = O;
 
       _O[_size]->Conj(_conj);
-      if (! O->Hermitian() ) _hermitian = false;
 
       _size++;
+      _UpdateFlags();
    }
 
 
diff --git a/src/qdlib/OList.h b/src/qdlib/OList.h
index aa7da64..41b14da 100644
--- a/src/qdlib/OList.h
+++ b/src/qdlib/OList.h
@@ -22,6 +22,8 @@ namespace QDLIB {
 
          Operator* _O[MAX_OPS];
          map<string,uint> _NamedEntries; /* holds name<->index mapping*/
+      protected:
+         virtual void _UpdateFlags();
       public:
          OList();
          ~OList();
-- 
2.43.0


From b6541bd4187418fc7fe3e6ddedf90ee28d9beacc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:54 +0000
Subject: [PATCH 31/95] fix: the adjoint of a product reverses the order of its
 factors, only commuting or mirrored products are Hermitian

---
 src/qdlib/OProduct.cpp | 76 +++++++++++++++++++++++++++++++++++++-----
 src/qdlib/OProduct.h   |  4 +++
 2 files changed, 72 insertions(+), 8 deletions(-)

diff --git a/src/qdlib/OProduct.cpp b/src/qdlib/OProduct.cpp
index b26e51d..87b5809 100644
--- a/src/qdlib/OProduct.cpp
+++ b/src/qdlib/OProduct.cpp
@@ -3,6 +3,13 @@
 // SPDX-License-Identifier: gpl-3-only
 
 #include "OProduct.h"
+#include "OScalar.h"
+#include "OGridPotential.h"
+#include "OGridPosition.h"
+#include "OGobbler.h"
+#include "OGridSum.h"
+#include "OGridNabla.h"
+#include "OGridNablaSq.h"
 
 namespace QDLIB {
 
@@ -51,28 +58,81 @@ namespace QDLIB {
        return val;
     }
 
+    /**
+     * Factors in order of application.
+     *
+     * The last operator in the container is the first one to be applied,
+     * for the adjoint it is the other way round.
+     */
+    Operator* OProduct::_Factor(int i)
+    {
+       if (_conj) return Get(i);
+
+       return Get(Size()-1 - i);
+    }
+
+    /**
+     * A product of Hermitian operators is only Hermitian if they commute
+     * or if it reads the same from both sides.
+     */
+    void OProduct::_UpdateFlags()
+    {
+       OList::_UpdateFlags();
+
+       bool local=true, fourier=true, mirror=true;
+       vector<Operator*> ops;
+
+       for (int i=0; i < Size(); i++) /* Constants don't matter */
+          if (dynamic_cast<OScalar*>(Get(i)) == NULL) ops.push_back(Get(i));
+
+       for (size_t i=0; i < ops.size(); i++) {
+          Operator* O = ops[i];
+
+          /* Real valued functions of the coordinates */
+          if ( dynamic_cast<OGridPotential*>(O) == NULL && dynamic_cast<OGridPosition*>(O) == NULL &&
+               dynamic_cast<OGobbler*>(O) == NULL && dynamic_cast<OGridSum*>(O) == NULL)
+             local = false;
+
+          /* Functions of the momentum */
+          if ( dynamic_cast<OGridNabla*>(O) == NULL &&
+               (dynamic_cast<OGridNablaSq*>(O) == NULL || O->Params().isPresent("method")) )
+             fourier = false;
+
+          if (O != ops[ops.size()-1 - i]) mirror = false;
+       }
+
+       if (ops.size() > 1 && !local && !fourier && !mirror) _hermitian = false;
+    }
+
     void OProduct::Apply(WaveFunction * destPsi, WaveFunction * sourcePsi)
     {
-       Get(Size()-1)->Apply(destPsi, sourcePsi);
+       _Factor(0)->Apply(destPsi, sourcePsi);
        
-       for (int i=Size()-2; i >= 0; i--)
-          Get(i)->Apply(destPsi);
+       for (int i=1; i < Size(); i++)
+          _Factor(i)->Apply(destPsi);
 
     }
 
     void OProduct::Apply(WaveFunction * Psi)
     {
-       for (int i=Size()-1; i >= 0; i--)
-          Get(i)->Apply(Psi);
+       for (int i=0; i < Size(); i++)
+          _Factor(i)->Apply(Psi);
     }
 
     void QDLIB::OProduct::ApplyParent(WaveFunction * destPsi, WaveFunction * sourcePsi)
     {
-       Get(Size()-1)->ApplyParent(destPsi, sourcePsi);
+       WaveFunction *buf = NULL;
+
+       _Factor(0)->ApplyParent(destPsi, sourcePsi);
        
-       for (int i=Size()-2; i >= 0; i--)
-          Get(i)->ApplyParent(destPsi, destPsi);
+       for (int i=1; i < Size(); i++) {
+          if (buf == NULL) buf = sourcePsi->NewInstance();
+
+          *buf = destPsi;
+          _Factor(i)->ApplyParent(destPsi, buf);
+       }
 
+       DELETE_WF(buf);
     }
     
     void OProduct::Apply(Operator * destOp, Operator * sourceOp)
diff --git a/src/qdlib/OProduct.h b/src/qdlib/OProduct.h
index b6abdff..f7f6229 100644
--- a/src/qdlib/OProduct.h
+++ b/src/qdlib/OProduct.h
@@ -20,6 +20,10 @@ namespace QDLIB {
    {
       private:
          string _name;
+
+         Operator* _Factor(int i);
+      protected:
+         virtual void _UpdateFlags();
       public:
          OProduct();
       
-- 
2.43.0


From 5a3e2c7d140af33c1c5fa49770411e264fd2cb18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:54 +0000
Subject: [PATCH 32/95] fix: a G-matrix with a perfectly matched layer is not
 Hermitian and can be switched to its adjoint

---
 src/qdlib/OGridGMat.cpp | 33 +++++++++++++++++++++++++++++++--
 src/qdlib/OGridGMat.h   |  2 ++
 2 files changed, 33 insertions(+), 2 deletions(-)

diff --git a/src/qdlib/OGridGMat.cpp b/src/qdlib/OGridGMat.cpp
index 1c16117..fb8b73e 100644
--- a/src/qdlib/OGridGMat.cpp
+++ b/src/qdlib/OGridGMat.cpp
@@ -172,6 +172,10 @@ namespace QDLIB {
 
       _params.GetValue("coup", _KinCoup, true);
 
+      bool pml;
+      _params.GetValue("pml", pml, false);
+      if (pml) _hermitian = false;
+
       OGridSystem::FileOGrid file;
       file.Suffix(BINARY_O_SUFFIX);
 
@@ -310,6 +314,29 @@ namespace QDLIB {
       OGridGMat::ApplyAdd(destPsi, sourcePsi);
    }
 
+   /**
+    * Apply the adjoint in the presence of a PML and add to destPsi.
+    */
+   void OGridGMat::_ApplyAdjointPML(WaveFunction * destPsi, WaveFunction * sourcePsi)
+   {
+      for (lint i = 0; i < _size; i++){
+         for (lint j = 0; j < _size; j++){
+            if ( (i != j && !_KinCoup) || _src(i,j) == none ) continue;
+
+            *((WaveFunction*) buf) = sourcePsi;
+            if (_src(i,j) == cnst) _pml[i].ApplyTransform(buf, true);
+            _pml[j].ApplyTransform(buf, true);
+
+            _diff.DnDxn(_wfbuf[i], buf, j, (_src(i,j) == cnst) ? -0.5 * _GmatC(i,j) : -0.5);
+            if (_src(i,j) == grd)
+               MultElements((cVec*) _wfbuf[i], (dVec*) _Gmat[i][j]);
+
+            _diff.DnDxn(buf1, _wfbuf[i], i);
+            *destPsi += buf1;
+         }
+      }
+   }
+
    void OGridGMat::ApplyAdd(WaveFunction * destPsi, WaveFunction * sourcePsi)
    {
       /* Make a copy from Psi */
@@ -321,8 +348,10 @@ namespace QDLIB {
       buf->Reaquire();
       buf1->Reaquire();
 
-      lint i;
-      for (i = 0; i < _size; i++){ /* Loop over dims*/
+      if (_conj && _pml != NULL)
+         _ApplyAdjointPML(destPsi, sourcePsi);
+      else
+      for (lint i = 0; i < _size; i++){ /* Loop over dims*/
          /* d/dx from WF */
          _diff.DnDxn(_wfbuf[i], sourcePsi, i);
 
diff --git a/src/qdlib/OGridGMat.h b/src/qdlib/OGridGMat.h
index 971598e..6bfbcc4 100644
--- a/src/qdlib/OGridGMat.h
+++ b/src/qdlib/OGridGMat.h
@@ -50,6 +50,8 @@ namespace QDLIB {
 
          bool _KinCoup;
          bool _ChainRule;  /* Re-arange derivatives by chain rule */
+
+         void _ApplyAdjointPML(WaveFunction *destPsi, WaveFunction *sourcePsi);
       public:
          OGridGMat();
 
-- 
2.43.0


From 43e32808ff35c8984a7803c613c22809fe96b58a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:02 +0000
Subject: [PATCH 33/95] fix: missing blocks of a multi-state operator act as
 the adjoint of the given ones, the adjoint switch transposes, and blocks
 given on one side are never dropped

---
 src/qdlib/OMultistate.cpp | 133 +++++++++++++++++++++++---------------
 src/qdlib/OMultistate.h   |   9 ++-
 2 files changed, 90 insertions(+), 52 deletions(-)

diff --git a/src/qdlib/OMultistate.cpp b/src/qdlib/OMultistate.cpp
index 77c993d..d273f60 100644
--- a/src/qdlib/OMultistate.cpp
+++ b/src/qdlib/OMultistate.cpp
@@ -17,6 +17,7 @@ namespace QDLIB
       for(int i=0; i< QD_MAX_STATES; i++){
 	 for(int j=0; j< QD_MAX_STATES; j++){
             _matrix[i][j] = NULL;
+            _mirrored[i][j] = false;
 	 }
       }
    }
@@ -33,7 +34,7 @@ namespace QDLIB
     */
    void OMultistate::Add(Operator *O, int row, int col)
    {
-      if (row >= QD_MAX_STATES || col >= QD_MAX_STATES)
+      if (row >= QD_MAX_STATES || col >= QD_MAX_STATES || row < 0 || col < 0)
 	 throw (EOverflow("Multistate: More than QD_MAX_STATES not possible"));
       
       if (row+1 > _nstates)
@@ -49,8 +50,7 @@ namespace QDLIB
       if (O->isTimeDep()) _isTimedependent = true;
       if (!O->Hermitian()) Operator::_hermitian = false;
       
-      if ( (_matrix[row][col] != NULL && _matrix[col][row] != NULL) && row != col )
-	_hermitian = false;
+      O->Conj(_conj);
    }
    
    /**
@@ -83,6 +83,7 @@ namespace QDLIB
       _params.GetValue( "nonhermitian", _hermitian);
       /* Invert since NON Hermitian is given */
       _hermitian = !_hermitian;
+      if (!_hermitian) Operator::_hermitian = false;
       
       /* Not needed but good for spare operators (e.g. filters) */
       if (_params.isPresent("states")){
@@ -119,43 +120,65 @@ namespace QDLIB
       _buf2 = dynamic_cast<WFMultistate*>(Psi->NewInstance());
       _buf2->Retire();
       
-      if (_hermitian){
+      if (_subinit){
 	 for(int i=0; i< _nstates; i++){
-	    for(int j=0; j<= i; j++){
-	       if (i != j && _matrix[j][i] != NULL) _matrix[i][j] = _matrix[j][i]; /* Copy pointer only */
-	       if (_matrix[i][j] != NULL){
-                  if (_subinit)
-		    _matrix[i][j]->Init(psi->State(j));
-		  if (i != j) _matrix[j][i] = _matrix[i][j]; /* Copy pointer only */
-	       }
+	    for(int j=0; j< _nstates; j++){
+	       if (_matrix[i][j] != NULL)
+		  _matrix[i][j]->Init(psi->State(j));
 	    }
 	 }
-      } else {
+      }
+
+      if (_hermitian){ /* Missing off-diagonals are the adjoint of the given ones */
 	 for(int i=0; i< _nstates; i++){
-	    for(int j=0; j<= _nstates; j++){
-	       if (_matrix[i][j] != NULL)
-                  if (_subinit)
-		    _matrix[i][j]->Init(psi->State(j));
+	    for(int j=0; j< i; j++){
+	       if (_matrix[i][j] == NULL && _matrix[j][i] != NULL){
+                  _matrix[i][j] = _matrix[j][i]; /* Copy pointer only */
+                  _mirrored[i][j] = true;
+	       } else if (_matrix[j][i] == NULL && _matrix[i][j] != NULL){
+                  _matrix[j][i] = _matrix[i][j];
+                  _mirrored[j][i] = true;
+	       }
 	    }
 	 }
       }
    }
 
-   void OMultistate::UpdateTime()
+   /**
+    * The adjoint needs transposed indices and the adjoint elements.
+    */
+   void OMultistate::Conj(bool conj)
    {
-      if (_hermitian){
-	 for(int i=0; i< _nstates; i++){
-	    for(int j=0; j<= i; j++){
-	       if (_matrix[i][j] != NULL)
-		  _matrix[i][j]->UpdateTime();
-	    }
+      for(int i=0; i < _nstates; i++){
+	 for(int j=0;  j < _nstates; j++){
+	    if (_matrix[i][j] != NULL)
+	       _matrix[i][j]->Conj(conj);
 	 }
-      } else {
-	 for(int i=0; i< _nstates; i++){
-	    for(int j=0; j<= _nstates; j++){
-	       if (_matrix[i][j] != NULL)
-		  _matrix[i][j]->UpdateTime();
-	    }
+      }
+
+      _conj = conj;
+   }
+
+   /**
+    * Element to apply for row i and column j.
+    *
+    * \param conj Indicates if the adjoint of the element must be applied
+    */
+   Operator* OMultistate::_Element(int i, int j, bool &conj)
+   {
+      int row = _conj ? j : i;
+      int col = _conj ? i : j;
+
+      conj = (_conj != _mirrored[row][col]);
+      return _matrix[row][col];
+   }
+
+   void OMultistate::UpdateTime()
+   {
+      for(int i=0; i< _nstates; i++){
+	 for(int j=0; j< _nstates; j++){
+	    if (_matrix[i][j] != NULL && !_mirrored[i][j])
+	       _matrix[i][j]->UpdateTime();
 	 }
       }
    }
@@ -220,8 +243,13 @@ namespace QDLIB
       for (int i = rank; i < _nstates; i += msize) {
          *(dPsi->State(i)) = 0.;
          for (int j = 0; j < _nstates; j++) {
-            if (_matrix[i][j] != NULL) {
-               _matrix[i][j]->ApplyAdd(dPsi->State(i), psi->State(j));
+            bool conj;
+            Operator *O = _Element(i, j, conj);
+
+            if (O != NULL) {
+               if (conj != _conj) O->Conj(conj);
+               O->ApplyAdd(dPsi->State(i), psi->State(j));
+               if (conj != _conj) O->Conj(_conj);
             } else if (i == j && _unity) { /* Diagonal without operator means 1 */
                AddElements((cVec*) (dPsi->State(i)), (cVec*) (psi->State(j)));
             }
@@ -256,8 +284,13 @@ namespace QDLIB
       int msize = sourcePsi->MPIsize();
       for (int i = rank; i < _nstates; i += msize) {
          for(int j=0; j< _nstates; j++){
-            if (_matrix[i][j] != NULL){
-               _matrix[i][j]->ApplyParent(_buf1->State(i), psi->State(j));
+            bool conj;
+            Operator *O = _Element(i, j, conj);
+
+            if (O != NULL){
+               if (conj != _conj) O->Conj(conj);
+               O->ApplyParent(_buf1->State(i), psi->State(j));
+               if (conj != _conj) O->Conj(_conj);
                AddElements((cVec*) (dPsi->State(i)), (cVec*) (_buf1->State(i)));
             } else if (i==j && _unity) { /* Diagonal without operator means 1 */
                AddElements((cVec*) (dPsi->State(i)), (cVec*) (psi->State(j)));
@@ -295,27 +328,25 @@ namespace QDLIB
       _buf2->Retire();
 
       
-      if (_hermitian){
-	 for(int i=0; i< _nstates; i++){
-	    for(int j=0; j<= i; j++){
-	       if (o->_matrix[i][j] != NULL){
-		  _matrix[i][j] = o->_matrix[i][j]->NewInstance();
-		  *(_matrix[i][j]) = o->_matrix[i][j];
-		  if (i !=j)
-		     _matrix[j][i] = _matrix[i][j];
-	       }
-	    }
-	 }
-      } else {
-	 for(int i=0; i< _nstates; i++){
-	    for(int j=0; j< _nstates; j++){
-	       if (o->_matrix[i][j] != NULL){
-		  _matrix[i][j] = o->_matrix[i][j]->NewInstance();
-		  *(_matrix[i][j]) = o->_matrix[i][j];
-	       }
+      Operator::_hermitian = o->Operator::_hermitian;
+      _isTimedependent = o->_isTimedependent;
+      _unity = o->_unity;
+      _subinit = o->_subinit;
+
+      for(int i=0; i< _nstates; i++){
+	 for(int j=0; j< _nstates; j++){
+	    _mirrored[i][j] = o->_mirrored[i][j];
+	    if (o->_matrix[i][j] != NULL && !_mirrored[i][j]){
+	       _matrix[i][j] = o->_matrix[i][j]->NewInstance();
+	       *(_matrix[i][j]) = o->_matrix[i][j];
 	    }
 	 }
       }
+
+      for(int i=0; i< _nstates; i++){
+	 for(int j=0; j< _nstates; j++)
+	    if (_mirrored[i][j]) _matrix[i][j] = _matrix[j][i];
+      }
       return this;
    }
    
diff --git a/src/qdlib/OMultistate.h b/src/qdlib/OMultistate.h
index 23b1ff5..dde7397 100644
--- a/src/qdlib/OMultistate.h
+++ b/src/qdlib/OMultistate.h
@@ -34,6 +34,9 @@ namespace QDLIB
          bool _subinit;    /* Initial content ops */
 	 
 	 Operator* _matrix[QD_MAX_STATES][QD_MAX_STATES];
+         bool _mirrored[QD_MAX_STATES][QD_MAX_STATES]; /* Element acts as adjoint of the transposed element */
+
+         Operator* _Element(int i, int j, bool &conj);
 	 
 	 WFMultistate *_buf1, *_buf2;
 	 
@@ -46,7 +49,7 @@ namespace QDLIB
           * 
 	  * The default is to act as symmetric operator if only one diag. element is used.
 	  */
-	 void Hermitian(bool hermit) {_hermitian = hermit;}
+	 void Hermitian(bool hermit) {_hermitian = hermit; if (!hermit) Operator::_hermitian = false;}
 	 
 	 bool Hermitian() {return _hermitian & Operator::_hermitian;}
 	 
@@ -80,6 +83,10 @@ namespace QDLIB
 	 
 	 Operator* State(int i, int j);
 	 
+         virtual void Conj(bool conj);
+
+         using Operator::Conj;
+
 	 /* Overide Clock setter */
 	 virtual void Clock (QDClock *cl);
 	 
-- 
2.43.0


From ca6720f5888d8f65eb689c8c9e6ef8d64af89824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:27 +0000
Subject: [PATCH 34/95] fix: the Raman coupling was added without its fields,
 its exponential lacked the factor 1/2

---
 src/qdlib/OGridRaman.cpp | 7 ++++++-
 src/qdlib/OGridRaman.h   | 2 ++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/qdlib/OGridRaman.cpp b/src/qdlib/OGridRaman.cpp
index 6d92ed3..44a892f 100644
--- a/src/qdlib/OGridRaman.cpp
+++ b/src/qdlib/OGridRaman.cpp
@@ -53,6 +53,11 @@ namespace QDLIB {
       MultElements((cVec*) Psi, (dVec*) this, (-.5) * GetLaser(0)->Get() * GetLaser(1)->Get());
    }
 
+   void OGridRaman::ApplyAdd(WaveFunction *destPsi, WaveFunction *sourcePsi)
+   {
+      MultElementsAdd((cVec*) destPsi, (cVec*) sourcePsi, (dVec*) this, (-.5) * GetLaser(0)->Get() * GetLaser(1)->Get());
+   }
+
    Operator * OGridRaman::operator =(Operator * O)
    {
       Copy(O);
@@ -78,7 +83,7 @@ namespace QDLIB {
    void OGridRaman::InitExponential (cVec *exp, dcomplex c)
    {
       if (_dspace == NULL) InitDspace();
-      ExpElements(exp, _dspace, -1 * c * GetLaser(0)->Get() * GetLaser(1)->Get());
+      ExpElements(exp, _dspace, -.5 * c * GetLaser(0)->Get() * GetLaser(1)->Get());
    }
 
 }
diff --git a/src/qdlib/OGridRaman.h b/src/qdlib/OGridRaman.h
index 586a5f9..12f22f2 100644
--- a/src/qdlib/OGridRaman.h
+++ b/src/qdlib/OGridRaman.h
@@ -45,6 +45,8 @@ namespace QDLIB
 
          virtual void Apply(WaveFunction *Psi);
 
+         virtual void ApplyAdd(WaveFunction *destPsi, WaveFunction *sourcePsi);
+
          virtual Operator* operator=(Operator* O);
 
          virtual Operator* Copy(Operator* O);
-- 
2.43.0


From 2953c8e9e7932b4ef1296cf6ae6db18ddd0958bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:27 +0000
Subject: [PATCH 35/95] fix: projectors on added states lacked their buffer

---
 src/qdlib/OProjection.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/qdlib/OProjection.cpp b/src/qdlib/OProjection.cpp
index 52a1613..2ccedff 100644
--- a/src/qdlib/OProjection.cpp
+++ b/src/qdlib/OProjection.cpp
@@ -32,12 +32,14 @@ namespace QDLIB {
       if (Psi == NULL)
          throw(EIncompatible("Projector got a void wave function"));
 
+      if (_buf == NULL) {
+         _buf = Psi->NewInstance();
+         _buf->Retire();
+      }
+
       if (Size() > 0)
          return;
 
-      _buf = Psi->NewInstance();
-      _buf->Retire();
-
       /* Read a WF sequence from disk (Has to be here because we need to know the WF type) */
       if (_params.isPresent("files")) {
          string files;
-- 
2.43.0


From 8392d6d3f99df2f9dc9421b2234580812a67e32e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:19 +0000
Subject: [PATCH 36/95] fix: sums on the grid lacked their grid description and
 ignored the field of laser couplings

---
 src/qdlib/OGridSum.cpp | 50 +++++++++++++++++++++++++++++++++++++++++-
 src/qdlib/OGridSum.h   |  9 ++++++++
 2 files changed, 58 insertions(+), 1 deletion(-)

diff --git a/src/qdlib/OGridSum.cpp b/src/qdlib/OGridSum.cpp
index 15729f6..de16596 100644
--- a/src/qdlib/OGridSum.cpp
+++ b/src/qdlib/OGridSum.cpp
@@ -58,6 +58,13 @@ namespace QDLIB {
 	 throw ( EIncompatible("Operator and WF differ in size") );
    }
 
+   void OGridSum::Clock( QDClock * cl )
+   {
+      clock = cl;
+      for (int i=0; i < _size; i++)
+	 _O[i]->Clock(cl);
+   }
+
    void OGridSum::UpdateTime( )
    {
       if (_size > 0) _Update();
@@ -112,6 +119,13 @@ namespace QDLIB {
    
    void OGridSum::Apply(WaveFunction *destPsi, WaveFunction *sourcePsi)
    {   
+      if (_isTimedependent) { /* The values on the grid don't know about the time */
+	 _O[0]->Apply(destPsi, sourcePsi);
+	 for (int i=1; i < _size; i++)
+	    _O[i]->ApplyAdd(destPsi, sourcePsi);
+	 return;
+      }
+
       if(! _isUpTodate) _Update( );
         
       MultElements( (cVec*) destPsi, (cVec*) sourcePsi, (dVec*) this);
@@ -119,6 +133,11 @@ namespace QDLIB {
 
    void OGridSum::Apply( WaveFunction * Psi )
    {   
+      if (_isTimedependent) {
+	 Operator::Apply(Psi);
+	 return;
+      }
+
       if(! _isUpTodate) _Update( );
       
       MultElements( (cVec*) Psi, (dVec*) this);
@@ -183,7 +202,10 @@ namespace QDLIB {
 	 throw ( EIncompatible("Operator not initialized") );
       }
       
-      if (dVec::size() == 0) newsize(O->size());
+      if (dVec::size() == 0) {
+	 newsize(O->size());
+	 *((GridSystem*) this) = *((GridSystem*) O);
+      }
       
       if ( O->size() != dVec::size() )
 	 throw ( EParamProblem("Sum Operator can only take operators with same grid size") );
@@ -195,6 +217,32 @@ namespace QDLIB {
       _size++;
       _isUpTodate = false;
    }
+
+   void OGridSum::InitDspace()
+   {
+      if(! _isUpTodate) _Update( );
+      OGridSystem::InitDspace();
+   }
+
+   /**
+    * The exponential of a sum of commuting operators is the product of their exponentials.
+    */
+   void OGridSum::InitExponential( cVec *exp, dcomplex c )
+   {
+      if (! _isTimedependent) {
+	 if(! _isUpTodate) _Update( );
+	 OGridSystem::InitExponential(exp, c);
+	 return;
+      }
+
+      cVec buf(dVec::size());
+
+      _O[0]->InitExponential(exp, c);
+      for (int k=1; k < _size; k++) {
+	 _O[k]->InitExponential(&buf, c);
+	 MultElements(exp, &buf);
+      }
+   }
    
 
 }
diff --git a/src/qdlib/OGridSum.h b/src/qdlib/OGridSum.h
index 7cbaaa5..825fd9a 100644
--- a/src/qdlib/OGridSum.h
+++ b/src/qdlib/OGridSum.h
@@ -50,6 +50,10 @@ namespace QDLIB {
 	 
 	 virtual const string& Name();
 	 
+	 virtual void Clock(QDClock *cl);
+
+	 using Operator::Clock;
+
 	 virtual void UpdateTime();
 	 
 	 virtual dcomplex MatrixElement(WaveFunction *PsiBra, WaveFunction *PsiKet);
@@ -67,6 +71,11 @@ namespace QDLIB {
          virtual Operator* operator=(Operator* O);
 	 
 	 virtual Operator* Copy(Operator* O);
+
+	 /* DSpace interface */
+	 virtual void InitDspace();
+
+	 virtual void InitExponential(cVec *exp, dcomplex c);
    };
 
 }
-- 
2.43.0


From 505146c7607dc7ff2ecee3e47d8c1c888e49326a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:31 +0000
Subject: [PATCH 37/95] fix: the laser field was read and written outside of
 the pulse

---
 src/qdlib/Laser.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/qdlib/Laser.cpp b/src/qdlib/Laser.cpp
index 1f0a177..fac26d5 100644
--- a/src/qdlib/Laser.cpp
+++ b/src/qdlib/Laser.cpp
@@ -120,10 +120,16 @@ namespace QDLIB {
    }
 
    /**
-    * Get laser value at actual timestep
+    * Get laser value at actual timestep.
+    *
+    * There is no field before and after the pulse.
     */
    double Laser::Get()
    {
+      int step = _clock->TimeStep();
+
+      if (step < 0 || step >= dVec::size()) return 0;
+
       return (*this)[_clock->TimeStep()] * _scale;
    }
    
@@ -132,6 +138,9 @@ namespace QDLIB {
     */
    void Laser::Set(double value)
    {
+      if (_clock->TimeStep() < 0 || _clock->TimeStep() >= dVec::size())
+	 throw ( EParamProblem("Time step is outside of the laser field") );
+
       (*this)[_clock->TimeStep()] = value;
    }
    
@@ -144,7 +153,7 @@ namespace QDLIB {
    {
       double sum=0;
 
-      for (int t=0; t < _clock->TimeStep(); t++){
+      for (int t=0; t < _clock->TimeStep() && t < dVec::size(); t++){
          sum += (*this)[t];
       }
 
-- 
2.43.0


From 4ac3f519dced801fc337a6bd4ded6a29542db4e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:31 +0000
Subject: [PATCH 38/95] fix: copies of a laser field keep its scaling factor

---
 src/qdlib/Laser.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/qdlib/Laser.cpp b/src/qdlib/Laser.cpp
index fac26d5..1933a0c 100644
--- a/src/qdlib/Laser.cpp
+++ b/src/qdlib/Laser.cpp
@@ -166,6 +166,7 @@ namespace QDLIB {
       _clock = laser._clock;
        _params = laser._params;
       _dt = laser._dt;
+      _scale = laser._scale;
       if (_spectrum != NULL){
          delete _spectrum;
          _spectrum = NULL;
-- 
2.43.0


From 21ba971d3b98b3de1f24c82591db80ed555da739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:41 +0000
Subject: [PATCH 39/95] fix: the scale factor of grid based laser couplings was
 applied more than once

---
 src/qdlib/OGridDipole.cpp | 1 +
 src/qdlib/OGridRaman.cpp  | 1 +
 src/qdlib/OLaser.cpp      | 6 +++---
 src/qdlib/OLaser.h        | 3 +++
 4 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/qdlib/OGridDipole.cpp b/src/qdlib/OGridDipole.cpp
index 3eec97f..ac49a7f 100644
--- a/src/qdlib/OGridDipole.cpp
+++ b/src/qdlib/OGridDipole.cpp
@@ -13,6 +13,7 @@ namespace QDLIB {
    OGridDipole::OGridDipole() : OGridPotential(), _name("OGridDipole"), _init(false)
    {
       _isTimedependent = true;
+      ScaleField(false); /* The dipole is scaled like a potential */
    }
 
    void OGridDipole::Init(ParamContainer &params)
diff --git a/src/qdlib/OGridRaman.cpp b/src/qdlib/OGridRaman.cpp
index 44a892f..be72cb8 100644
--- a/src/qdlib/OGridRaman.cpp
+++ b/src/qdlib/OGridRaman.cpp
@@ -13,6 +13,7 @@ namespace QDLIB {
    OGridRaman::OGridRaman() : OGridPotential(), OLaser(2), _name("OGridRaman"), _init(false)
    {
       _isTimedependent = true;
+      ScaleField(false); /* The polarizability is scaled like a potential */
    }
 
    void OGridRaman::Init(ParamContainer &params)
diff --git a/src/qdlib/OLaser.cpp b/src/qdlib/OLaser.cpp
index 499f13d..01f0019 100644
--- a/src/qdlib/OLaser.cpp
+++ b/src/qdlib/OLaser.cpp
@@ -6,13 +6,13 @@
 
 namespace QDLIB {
 
-   OLaser::OLaser() : _numlasers(1), _Pol(NULL), _UsePol(false)
+   OLaser::OLaser() : _numlasers(1), _Pol(NULL), _UsePol(false), _scaleField(true)
    {
       _laser = new Laser[1];
       _isTimedependent = true;
    }
    
-   QDLIB::OLaser::OLaser(int num) :  _numlasers(num), _Pol(NULL), _UsePol(false)
+   QDLIB::OLaser::OLaser(int num) :  _numlasers(num), _Pol(NULL), _UsePol(false), _scaleField(true)
    {
       _laser = new Laser[num];
       _isTimedependent = true;
@@ -122,7 +122,7 @@ namespace QDLIB {
       }
 
       /* Set scaling factor */
-      if ( _params.isPresent("scale") ){
+      if ( _scaleField && _params.isPresent("scale") ){
          double s;
          _params.GetValue("scale", s);
          for (int i=0; i < _numlasers; i++)
diff --git a/src/qdlib/OLaser.h b/src/qdlib/OLaser.h
index 29869d1..f35a5c6 100644
--- a/src/qdlib/OLaser.h
+++ b/src/qdlib/OLaser.h
@@ -25,11 +25,14 @@ namespace QDLIB {
 	 Laser* _laser;        /* Laserpointer :) */
 	 dVec* _Pol;           /* Polarisation vectors */
 	 bool _UsePol;         /* Use the polarisation vecotors ? */
+	 bool _scaleField;     /* Apply scale factor to the field ? */
          
          ParamContainer _genParams;
       protected:
 	 void UsePol(bool use);
 	 void NumLaser(int num);
+	 /* Turn off if the parameter scale is already applied elsewhere. */
+	 void ScaleField(bool scale) { _scaleField = scale; }
 	 
       public:
 	 OLaser();
-- 
2.43.0


From a18cc3d84df13f392dca1e412794d9761f421737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:27 +0000
Subject: [PATCH 40/95] fix: the exponent of a propagator follows its
 direction, time mode, clock and time step in any order

---
 src/qdlib/OPropagator.h | 60 ++++++++++++++---------------------------
 1 file changed, 20 insertions(+), 40 deletions(-)

diff --git a/src/qdlib/OPropagator.h b/src/qdlib/OPropagator.h
index f912b84..1afb7c3 100644
--- a/src/qdlib/OPropagator.h
+++ b/src/qdlib/OPropagator.h
@@ -23,7 +23,8 @@ namespace QDLIB {
    class OPropagator : public OList
    {
       private:
-	 dcomplex _c0;
+	 dcomplex _c0;      /* exponent which was set explicitly */
+	 bool _explicit;    /* use the explicit exponent */
       protected:
 	 /** Indicates forward propagation. */
 	 bool forward;
@@ -34,7 +35,7 @@ namespace QDLIB {
           */
          Operator* H;
       public:
-	 OPropagator() : _c0(0,0), forward(true), imaginary_time(false), H(NULL)
+	 OPropagator() : _c0(0,0), _explicit(false), forward(true), imaginary_time(false), H(NULL)
 	 {
 	 }
       
@@ -43,15 +44,8 @@ namespace QDLIB {
 	 
 	 virtual void Clock(QDClock *cl)
 	 {
-	    clock = cl;
-	    _c0 = I*clock->Dt();
-
-	    if (forward)
-	       _c0 *= -1;
-
-	    if (imaginary_time)
-	       _c0 = I * _c0;
-
+	    OList::Clock(cl);
+	    _explicit = false;
 	 }
 	 	 
 	 /**
@@ -61,17 +55,8 @@ namespace QDLIB {
 	  */
 	 void Forward()
 	 {
-	    if (clock == NULL)
-	       throw (EIncompatible("Propagator has no clock"));
-
-	    if (imaginary_time)
-	       _c0 = clock->Dt();
-	    else
-	       _c0 = (-1)*I*clock->Dt();
-
 	    forward = true;
-
-	    _conj = false;
+	    _explicit = false;
 
 	    OList::Conj(false);
 	 }
@@ -81,17 +66,8 @@ namespace QDLIB {
 	  */
 	 void Backward()
 	 {
-       if (clock == NULL)
-          throw (EIncompatible("Propagator has no clock"));
-
-	    if (imaginary_time)
-	       _c0 = -clock->Dt();
-	    else
-	       _c0 = (1)* I *clock->Dt();
-
 	    forward = false;
-
-	    _conj = true;
+	    _explicit = false;
 
 	    OList::Conj(true);
 	 }
@@ -101,11 +77,8 @@ namespace QDLIB {
 	  */
 	 void ImaginaryTime()
 	 {
-	    if (forward)
-	       _c0 = clock->Dt();
-	    else
-	       _c0 = (-1) * clock->Dt();
 	    imaginary_time = true;
+	    _explicit = false;
 	 }
 	 
 	 virtual void Conj(bool conj)
@@ -123,11 +96,8 @@ namespace QDLIB {
 	  */
 	 void RealTime()
 	 {
-	    if (forward)
-	       _c0 =  (-1) * I * clock->Dt();
-	    else
-	       _c0 =  I * clock->Dt();
 	    imaginary_time = false;
+	    _explicit = false;
 	 }
 	 
 	
@@ -139,14 +109,23 @@ namespace QDLIB {
 	 inline void Exponent(dcomplex c)
 	 {
 	    _c0 = c;
+	    _explicit = true;
 	 }
 	 
  	 /**
 	  * Get the exponent.
+	  *
+	  * It follows from the direction, the time mode, and the time step of the clock,
+	  * as long as it has not been set explicitly.
 	  */
 	 inline dcomplex Exponent()
 	 {
-	    return _c0;
+	    if (_explicit || clock == NULL) return _c0;
+
+	    if (imaginary_time)
+	       return dcomplex(forward ? clock->Dt() : -clock->Dt());
+
+	    return dcomplex(0, forward ? -clock->Dt() : clock->Dt());
 	 }
 
 	 /* This doesn't make sense with Propagators => define dummies. */
@@ -159,6 +138,7 @@ namespace QDLIB {
 	    OPropagator *P = dynamic_cast<OPropagator*>(O);
 	    clock = P->clock;
 	    _c0 = P->_c0;
+	    _explicit = P->_explicit;
 	    forward = P->forward;
 	    imaginary_time = P->imaginary_time;
 	   
-- 
2.43.0


From 7c26ac8f46b22aa0d0435916e84401baa4e3abdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:02 +0000
Subject: [PATCH 41/95] fix: the Chebychev series is set up again for another
 time step or time mode, and exists for degenerate Hamiltonians

---
 src/qdlib/OCheby.cpp | 57 +++++++++++++++++++++++++++++++-------------
 src/qdlib/OCheby.h   |  5 ++++
 2 files changed, 45 insertions(+), 17 deletions(-)

diff --git a/src/qdlib/OCheby.cpp b/src/qdlib/OCheby.cpp
index a52cf6a..3b1fc24 100644
--- a/src/qdlib/OCheby.cpp
+++ b/src/qdlib/OCheby.cpp
@@ -20,7 +20,7 @@ namespace QDLIB
    QDNG_OPERATOR_NEW_INSTANCE_FUNCTION(OCheby)
 
    OCheby::OCheby() :
-      OPropagator(), _name("OCheby"), _order(0), _coeff(0), _scaling(1.), _prec(DEFAULT_PREC),
+      OPropagator(), _name("OCheby"), _order(0), _coeff(0), _scaling(1.), _userscaling(0), _maxorder(0), _dt(0), _imaginary(false), _prec(DEFAULT_PREC),
                      _offset(0), ket0(NULL),
                       ket1(NULL), ket2(NULL), buf(NULL)
    {
@@ -54,10 +54,13 @@ namespace QDLIB
    {
       _params = params;
       if (_params.isPresent(string("order"))) {
-         _params.GetValue("order", _order);
-         if (_order < 1)
+         _params.GetValue("order", _maxorder);
+         if (_maxorder < 1)
             throw(EParamProblem("Chebychev recursion order invalid"));
-      } else _order = 0;
+      } else _maxorder = 0;
+
+      if (_params.isPresent("scaling"))
+         _params.GetValue("scaling", _userscaling);
    }
 
 
@@ -305,6 +308,9 @@ namespace QDLIB
 
    void OCheby::Apply(WaveFunction * Psi)
    {
+      if (_dt != clock->Dt() || _imaginary != imaginary_time)
+         InitSeries(); /* The coefficients belong to another time step or time mode */
+
       ket0->Reaquire();
       ket1->Reaquire();
       ket2->Reaquire();
@@ -350,6 +356,11 @@ namespace QDLIB
       _order = P->_order;
       _coeff = P->_coeff;
       _scaling = P->_scaling;
+      _userscaling = P->_userscaling;
+      _maxorder = P->_maxorder;
+      _dt = P->_dt;
+      _imaginary = P->_imaginary;
+      _prec = P->_prec;
       _offset = P->_offset;
 
       return this;
@@ -361,9 +372,6 @@ namespace QDLIB
       H->Clock(Operator::Clock());
       H->Init(Psi);
 
-      if (H == NULL)
-         throw ( EParamProblem("Chebychev Progagator is missing a hamiltonian") );
-
       /* Parent Initalization */
       OPropagator::Init(Psi);
 
@@ -379,6 +387,20 @@ namespace QDLIB
       ket2->Retire();
       buf->Retire();
 
+      /* Check for precision on norm */
+      if (_params.isPresent("prec"))
+         _params.GetValue("prec", _prec);
+
+      _params.SetValue("prec", _prec);
+
+      InitSeries();
+   }
+
+   /**
+    * Setup the series for the current time step and time mode.
+    */
+   void OCheby::InitSeries()
+   {
       dcomplex Emax(H->Emax());
       dcomplex Emin(H->Emin());
       double v;
@@ -415,7 +437,11 @@ namespace QDLIB
       else
          _scaling = cabs(Emax - Emin) / 2;
 
+      if (_scaling == 0)
+         _scaling = 1; /* All eigenvalues are equal to the offset */
+
       /* This is an estimate for the recursion depth */
+      _order = _maxorder;
       if (_order <= 0)
          _order = abs(int(20 * _scaling * clock->Dt()));
 
@@ -427,11 +453,11 @@ namespace QDLIB
       int zeroes = 0;
 
       /* Manual scaling, very dangerous */
-      if (_params.isPresent("scaling"))
-         _params.GetValue("scaling", _scaling);
+      if (_userscaling > 0)
+         _scaling = _userscaling;
       /* Manual choice of recursion depth */
-      if (_params.isPresent("order"))
-         _params.GetValue("order", _order);
+      if (_maxorder > 0)
+         _order = _maxorder;
 
       if (_order < 3)
          throw(EParamProblem("Chebychev recursion must be at least 3"));
@@ -451,7 +477,7 @@ namespace QDLIB
       _order -= zeroes;
 
       /* Check the order which is really needed */
-      if (!_params.isPresent("order")) {
+      if (_maxorder == 0) {
          double precission = BESSEL_DELTA;
          int i = 2;
          /* Check how much is needed for series convergence */
@@ -479,11 +505,8 @@ namespace QDLIB
          _coeff[i] = 2.0 * bessel[i];
       }
 
-      /* Check for precision on norm */
-      if (_params.isPresent("prec"))
-         _params.GetValue("prec", _prec);
-
-      _params.SetValue("prec", _prec);
+      _dt = clock->Dt();
+      _imaginary = imaginary_time;
 
       _exp = OPropagator::Exponent() / clock->Dt();
 
diff --git a/src/qdlib/OCheby.h b/src/qdlib/OCheby.h
index 76093ae..0723611 100644
--- a/src/qdlib/OCheby.h
+++ b/src/qdlib/OCheby.h
@@ -34,10 +34,15 @@ namespace QDLIB
 	 cVec _coeff;         /* Coefficients including the Bessel functions at k'th order */
 	 dcomplex _exp;       /* Scaled exponent:  e.g. -i*dt/Rdelta */
 	 double _scaling;     /* Energy range of the hamiltonian => the Scaling*/
+	 double _userscaling; /* Requested scaling, zero if it is choosen automatically */
+	 int _maxorder;       /* Requested recursion depth, zero if it is choosen automatically */
+	 double _dt;          /* Time step and time mode the coefficients have been made for */
+	 bool _imaginary;
 	 double _prec;        /* Convergence criteria on norm */
 	 dcomplex _offset;    /* Energy offset of the hamiltonian */
          WaveFunction *ket0, *ket1, *ket2, *buf;
 	 
+         void InitSeries();
          double raw_norm(WaveFunction *Psi);
          void real_time_step(WaveFunction *Psi);
          void imag_time_step(WaveFunction *Psi);
-- 
2.43.0


From dc729f05bb765d5d8b6ddb07327d497282d1d9bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:02 +0000
Subject: [PATCH 42/95] fix: out of place steps of the Runge-Kutta propagator
 took the destination for the source

---
 src/qdlib/ORK4.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/qdlib/ORK4.cpp b/src/qdlib/ORK4.cpp
index 8c25996..23714bc 100644
--- a/src/qdlib/ORK4.cpp
+++ b/src/qdlib/ORK4.cpp
@@ -46,8 +46,8 @@ namespace QDLIB
 
    void ORK4::Apply(WaveFunction *destPsi, WaveFunction *sourcePsi)
    {
-      *sourcePsi = destPsi;
-      Apply(sourcePsi);
+      *destPsi = sourcePsi;
+      Apply(destPsi);
    }
 
 
-- 
2.43.0


From f6d7db1a19f9567c822177fd8104fd068753ebc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:02 +0000
Subject: [PATCH 43/95] fix: the split operator propagator accepted no wave
 function at all

---
 src/qdlib/OGSPO.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/qdlib/OGSPO.cpp b/src/qdlib/OGSPO.cpp
index 2fd0f6e..406f532 100644
--- a/src/qdlib/OGSPO.cpp
+++ b/src/qdlib/OGSPO.cpp
@@ -166,14 +166,12 @@ namespace QDLIB
 
    bool OGSPO::Valid(WaveFunction *Psi)
    {
-      bool valid = false;
-
       for (int i = 0; i < _spoLen; i++) {
          if (_ops[i]->Valid(Psi) == false)
             return false;
       }
 
-      return valid;
+      return true;
    }
 
 }
-- 
2.43.0


From 33d446be274f76d507b4c9d9dfd0ecf45e2c8069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:33 +0000
Subject: [PATCH 44/95] fix: the Lanczos propagator failed for states which
 span a small Krylov space and for unnormalized states

---
 src/qdlib/OSIL.cpp | 36 +++++++++++++++++++++++++++++-------
 src/qdlib/OSIL.h   |  2 ++
 2 files changed, 31 insertions(+), 7 deletions(-)

diff --git a/src/qdlib/OSIL.cpp b/src/qdlib/OSIL.cpp
index 325e7e8..80b4f61 100644
--- a/src/qdlib/OSIL.cpp
+++ b/src/qdlib/OSIL.cpp
@@ -11,7 +11,7 @@ namespace QDLIB {
    QDNG_OPERATOR_NEW_INSTANCE_FUNCTION(OSIL)
 	 
     OSIL::OSIL()
-            : OPropagator(), _name("OSIL"), _order(SIL_DEF_ORDER), _convorder(SIL_DEF_ORDER),  _err(SIL_DEF_ERR), buf0(NULL), buf1(NULL), buf2(NULL)
+            : OPropagator(), _name("OSIL"), _order(SIL_DEF_ORDER), _convorder(SIL_DEF_ORDER),  _err(SIL_DEF_ERR), _psinorm(0), buf0(NULL), buf1(NULL), buf2(NULL)
     {
     }
 
@@ -90,9 +90,12 @@ namespace QDLIB {
         _alpha =  0;
         _beta = 0;
 
-        double psinorm = Psi->Norm();
+        _psinorm = Psi->Norm();
 
-        _Lzb.Set(0, Psi);
+        *buf1 = Psi;
+        if (_psinorm != 0)
+           *buf1 *= 1 / _psinorm;
+        _Lzb.Set(0, buf1);               /* The Lanczos vectors are normalized */
         H->Apply(buf0,  _Lzb[0]);           /* H*q_0 */
         H->RecalcInternals(false);  /* Non-linear operator must not re-calculate internal WF specific values until end of recursion */
         _alpha[0] = (*(_Lzb[0]) * buf0).real();     /* a_0 = <q_0 | H | _q0 > */
@@ -103,6 +106,19 @@ namespace QDLIB {
 
         _beta[0] = _Lzb[1]->Norm();
 
+        /* The Krylov space is exhausted if the new vector consists only of numerical noise */
+        double underrun = SIL_UNDERRUN * (fabs(_alpha[0]) + _beta[0]);
+
+        if (_beta[0] <= underrun) {
+           _beta[0] = 0;
+           _convorder = 1;
+           H->RecalcInternals(true);
+
+           buf0->Retire();
+           buf1->Retire();
+           return;
+        }
+
         *(_Lzb[1]) *= 1 / _beta[0];     /* b0 = Norm(q1) = <q1 | H | q0 > */
 
         _convorder = 2;
@@ -116,14 +132,14 @@ namespace QDLIB {
            err = cabs(err);
 
 
-           if (err > psinorm){
+           if (err > 1){
               cout << "Warning: Lanczos expansion becomes unstable: " << err << endl;
               //break;
            }
            _convorder++;
 
            if (it == _order - 1)
-              cout << "Warning: Lanczos expansion is not converged: " << err << " > " << _err * psinorm << endl;
+              cout << "Warning: Lanczos expansion is not converged: " << err << " > " << _err << endl;
 
             /* buf0 = H * q_i-1 */
             H->Apply(_Lzb[it], _Lzb[it-1]);
@@ -137,6 +153,12 @@ namespace QDLIB {
 
             _beta[it-1] = _Lzb[it]->Norm();
 
+            if (_beta[it-1] <= underrun) {
+               _beta[it-1] = 0;
+               _convorder--;
+               break;
+            }
+
             *(_Lzb[it]) *= 1 / _beta[it-1];
 
             /* Check orthogonality of LZB */
@@ -147,7 +169,7 @@ namespace QDLIB {
             }
 
             /* convergence reached */
-            if (err < _err * psinorm) break;
+            if (err < _err) break;
         }
 
         _alpha[it-1] = H->Expec(_Lzb[it-1]);
@@ -180,7 +202,7 @@ namespace QDLIB {
         *Psi *= _vect[0];
 
         for (int i = 1; i < _convorder; i++){
-            AddElements((cVec*) Psi, (cVec*) _Lzb[i], _vect[i]);
+            AddElements((cVec*) Psi, (cVec*) _Lzb[i], _psinorm * _vect[i]);
         }
     }
 
diff --git a/src/qdlib/OSIL.h b/src/qdlib/OSIL.h
index 46cf58d..e561c67 100644
--- a/src/qdlib/OSIL.h
+++ b/src/qdlib/OSIL.h
@@ -10,6 +10,7 @@
 
 #define SIL_DEF_ORDER 20
 #define SIL_DEF_ERR 1e-12
+#define SIL_UNDERRUN 1e-13
 
 namespace QDLIB {
 
@@ -29,6 +30,7 @@ namespace QDLIB {
             int _order;       /* Max. Recursion depth, size of basis */
             int _convorder;    /* Converged order of */
             double _err;       /* Error bound to use */
+            double _psinorm;   /* Norm of the propagated state */
             WFBuffer _Lzb;  /* Buffer for Lanczos basis */
             WaveFunction *buf0, *buf1, *buf2;   /* Buffers */ 
             dVec _alpha;      /* Store alpha coeffs */
-- 
2.43.0


From 29565b11ea8b88dd95cedf4d321c3253f4008665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:33 +0000
Subject: [PATCH 45/95] fix: the Arnoldi propagator failed for eigenstates and
 unnormalized states

---
 src/qdlib/OArnoldi.cpp | 15 ++++++++++-----
 src/qdlib/OArnoldi.h   |  1 +
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/qdlib/OArnoldi.cpp b/src/qdlib/OArnoldi.cpp
index a39e7ff..5b3698b 100644
--- a/src/qdlib/OArnoldi.cpp
+++ b/src/qdlib/OArnoldi.cpp
@@ -12,7 +12,7 @@ namespace QDLIB
    QDNG_OPERATOR_NEW_INSTANCE_FUNCTION(OArnoldi)
 
    OArnoldi::OArnoldi() :
-            OPropagator(), _name("OArnoldi"), _maxorder(ARNOLDI_DEF_ORDER), _order(ARNOLDI_DEF_ORDER), _conv(ARNOLDI_CONV),
+            OPropagator(), _name("OArnoldi"), _maxorder(ARNOLDI_DEF_ORDER), _order(ARNOLDI_DEF_ORDER), _conv(ARNOLDI_CONV), _psinorm(0),
             buf0(NULL), buf1(NULL)
    {
    }
@@ -88,9 +88,14 @@ namespace QDLIB
       buf0->Reaquire();
       buf1->Reaquire();
 
-      double PsiNorm = Psi->Norm();
+      _psinorm = Psi->Norm();
 
+      /* The basis starts from the normalized state */
       *buf1 = Psi;
+      if (_psinorm != 0)
+         *buf1 *= 1 / _psinorm;
+
+      _order = 1;
 
       _Lzb.Set(0, buf1);
 
@@ -121,12 +126,12 @@ namespace QDLIB
          _order = it+1;
 
          /* Estimate the error of the next L-vector */
-         dcomplex err = pow(clock->Dt(), it-2) * _tHA(1,0) * PsiNorm;
+         dcomplex err = pow(clock->Dt(), it-2) * _tHA(1,0);
          for (int i=1; i < it - 2; i++){
             err *=  _tHA(i+1,i) / double(i);
          }
 
-         if (cabs(err) > PsiNorm)
+         if (cabs(err) > 1)
            cout << "Warning: Lanczos expansion becomes unstable: " << cabs(err) << endl;
 
          if (cabs(err) < _conv) break;
@@ -194,7 +199,7 @@ namespace QDLIB
         cout << "Warning: Arnoldi series expansion is not converged: " << last <<  " > " << _conv << endl;
 
       for (int i = 1; i < _order; i++) {
-         AddElements((cVec*) Psi, (cVec*) _Lzb[i], _vect[i]);
+         AddElements((cVec*) Psi, (cVec*) _Lzb[i], _psinorm * _vect[i]);
       }
    }
 
diff --git a/src/qdlib/OArnoldi.h b/src/qdlib/OArnoldi.h
index c074d73..d4e52cd 100644
--- a/src/qdlib/OArnoldi.h
+++ b/src/qdlib/OArnoldi.h
@@ -32,6 +32,7 @@ namespace QDLIB {
             int _maxorder;     /* Max. Recursion depth, size of basis */
             int _order;        /* Converged order of */
             double _conv;      /* Convergence criteria */
+            double _psinorm;   /* Norm of the propagated state */
             WFBuffer _Lzb;     /* Buffer for Lanczos basis */
             WaveFunction *buf0, *buf1;   /* Buffers */
             cVec _evals;      /* Eigenvalues */
-- 
2.43.0


From 9a3f383303ea40a1a10c1498d5456f14f7637592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:01 +0000
Subject: [PATCH 46/95] fix: the spectral range of positions, momenta, scalars
 and kinetic couplings did not enclose the spectrum

---
 src/qdlib/OGridGMat.cpp     |  8 +++-----
 src/qdlib/OGridNAC.cpp      | 16 +++-------------
 src/qdlib/OGridNabla.cpp    | 16 +++++++++++++++-
 src/qdlib/OGridNabla.h      |  2 +-
 src/qdlib/OGridPosition.cpp |  4 ++--
 src/qdlib/OScalar.h         |  2 +-
 6 files changed, 25 insertions(+), 23 deletions(-)

diff --git a/src/qdlib/OGridGMat.cpp b/src/qdlib/OGridGMat.cpp
index fb8b73e..ccf3dac 100644
--- a/src/qdlib/OGridGMat.cpp
+++ b/src/qdlib/OGridGMat.cpp
@@ -267,12 +267,10 @@ namespace QDLIB {
                   max = VecMax(*(_Gmat[i][j])) / (GridSystem::Dx(i) * GridSystem::Dx(j));
                   min = VecMin(*(_Gmat[i][j])) / (GridSystem::Dx(i) * GridSystem::Dx(j));
                } else if (_src(i,j) == cnst) {
-                  max = _GmatC(i, j);
-                  min = _GmatC(i, j);
+                  max = _GmatC(i, j) / (GridSystem::Dx(i) * GridSystem::Dx(j));
+                  min = max;
                }
-               if (min < 0 && fabs(min) > fabs(max))
-                  T += 2 * fabs(min);
-               else T += 2 * max;
+               T += 2 * fmax(fabs(min), fabs(max));
             } else if (i == j){
                if (_src(i,j) == grd)
                   T += VecMax(*(_Gmat[i][j])) / (GridSystem::Dx(i) * GridSystem::Dx(j));
diff --git a/src/qdlib/OGridNAC.cpp b/src/qdlib/OGridNAC.cpp
index 248aebb..911b654 100644
--- a/src/qdlib/OGridNAC.cpp
+++ b/src/qdlib/OGridNAC.cpp
@@ -108,24 +108,14 @@ namespace QDLIB {
       double max = 0;
       
       for (int i=0; i < Dim(); i++ )
-         max += VecMax(_NACME[i]);
+         max += fmax(fabs(VecMax(_NACME[i])), fabs(VecMin(_NACME[i]))) * M_PI / GridSystem::Dx(i);
       
-      max *= M_PI/ _mass / GridSystem::Dx(0);
-      
-      return dcomplex(max);
+      return dcomplex(fabs(_sign) * max / _mass);
    }
    
-   /** \todo extend to N-D */
    dcomplex OGridNAC::Emin()
    {
-      double min = 0;
-      
-      for (int i=0; i < Dim(); i++ )
-         VecMin(_NACME[i]);
-      
-      min *= M_PI/ _mass / GridSystem::Dx(0);
-      
-      return dcomplex(min);
+      return -1 * OGridNAC::Emax();
    }
 
    void OGridNAC::Apply(WaveFunction * destPsi, WaveFunction * sourcePsi)
diff --git a/src/qdlib/OGridNabla.cpp b/src/qdlib/OGridNabla.cpp
index 146dfb7..7d71414 100644
--- a/src/qdlib/OGridNabla.cpp
+++ b/src/qdlib/OGridNabla.cpp
@@ -74,7 +74,21 @@ namespace QDLIB {
    /** \return largest k-value*/
    dcomplex OGridNabla::Emax()
    {
-      return dcomplex( (*_kspace)[GridSystem::Size()/2] );
+      double k = 0;
+
+      for (int i = 0; i < GridSystem::Dim(); i++)
+         if (_dim < 0 || _dim == i)
+            k += M_PI / GridSystem::Dx(i);
+
+      return dcomplex( fabs(_fac) * k );
+   }
+
+   /** \return smallest k-value*/
+   dcomplex OGridNabla::Emin()
+   {
+      if (!_momentum) return dcomplex(0);
+
+      return -1 * OGridNabla::Emax();
    }
 
    void OGridNabla::Apply(WaveFunction * destPsi, WaveFunction * sourcePsi)
diff --git a/src/qdlib/OGridNabla.h b/src/qdlib/OGridNabla.h
index 7de0f2b..8b02f90 100644
--- a/src/qdlib/OGridNabla.h
+++ b/src/qdlib/OGridNabla.h
@@ -76,7 +76,7 @@ namespace QDLIB {
 	 
          virtual dcomplex Emax();
 
-         virtual dcomplex Emin() { return dcomplex(0); }
+         virtual dcomplex Emin();
 	 
          virtual void Apply(WaveFunction *destPsi, WaveFunction *sourcePsi);
 	 
diff --git a/src/qdlib/OGridPosition.cpp b/src/qdlib/OGridPosition.cpp
index f8c630b..4e0f9c3 100644
--- a/src/qdlib/OGridPosition.cpp
+++ b/src/qdlib/OGridPosition.cpp
@@ -85,12 +85,12 @@ namespace QDLIB {
 
    dcomplex OGridPosition::Emax()
    {
-      return(dcomplex(GridSystem::Xmax(_dim)));
+      return dcomplex(VecMax( *((dVec*) this) ));
    }
    
    dcomplex OGridPosition::Emin()
    {
-      return(dcomplex(GridSystem::Xmin(_dim)));
+      return dcomplex(VecMin( *((dVec*) this) ));
    }
 
    
diff --git a/src/qdlib/OScalar.h b/src/qdlib/OScalar.h
index c0b48b0..93fa674 100644
--- a/src/qdlib/OScalar.h
+++ b/src/qdlib/OScalar.h
@@ -41,7 +41,7 @@ namespace QDLIB {
          virtual void UpdateTime() {};
 	 virtual dcomplex MatrixElement(WaveFunction *PsiBra, WaveFunction *PsiKet);
 	 virtual dcomplex Emax() { return dcomplex(_value); }
-	 virtual dcomplex Emin() { return dcomplex(0); }
+	 virtual dcomplex Emin() { return dcomplex(_value); }
 	 virtual void Apply(WaveFunction *destPsi, WaveFunction *sourcePsi);
 	 virtual void Apply(WaveFunction *Psi);
          virtual Operator* operator=(Operator* O);
-- 
2.43.0


From 8bcf8a033853a7090275f5ba55377938896093e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:19 +0000
Subject: [PATCH 47/95] fix: the spectral range of multistate operators ignored
 signs and mixed up bounds of the couplings

---
 src/qdlib/OGridPosition.cpp |  1 +
 src/qdlib/OMultistate.cpp   | 87 +++++++++++++++++++++++--------------
 src/qdlib/OMultistate.h     |  1 +
 3 files changed, 57 insertions(+), 32 deletions(-)

diff --git a/src/qdlib/OGridPosition.cpp b/src/qdlib/OGridPosition.cpp
index 4e0f9c3..5c7b96d 100644
--- a/src/qdlib/OGridPosition.cpp
+++ b/src/qdlib/OGridPosition.cpp
@@ -4,6 +4,7 @@
 
 #include "OGridPosition.h"
 #include "WFGridSystem.h"
+#include "math/math_functions.h"
 
 namespace QDLIB {
 
diff --git a/src/qdlib/OMultistate.cpp b/src/qdlib/OMultistate.cpp
index d273f60..2fadcfc 100644
--- a/src/qdlib/OMultistate.cpp
+++ b/src/qdlib/OMultistate.cpp
@@ -183,46 +183,69 @@ namespace QDLIB
       }
    }
    
-   dcomplex OMultistate::Emax()
+   /**
+    * Setup a matrix which encloses the spectrum of the Hamiltonian.
+    *
+    * The couplings contribute with their absolute value.
+    *
+    * \param M      Matrix to fill
+    * \param upper  Upper or lower bound
+    * \return The complex part of the bound.
+    */
+   double OMultistate::_Bounds(dMat &M, bool upper)
    {
-      dMat Mmax;
-      dVec Evals;
-      
-      Mmax.newsize(_nstates,_nstates);
-      
-      Mmax=0;
-      
+      double imag = 0;
+
+      M.newsize(_nstates,_nstates);
+      M = 0;
+
       for(int i=0; i< _nstates; i++){
          for(int j=0; j < _nstates; j++){
-	    if (_matrix[i][j] != NULL)
-               Mmax(i,j) = cabs(_matrix[i][j]->Emax());
-	 }
+            if (_matrix[i][j] == NULL) {
+               if (i == j && _unity) M(i,i) = 1; /* Missing elements on the diagonal act as 1 */
+               continue;
+            }
+
+            dcomplex Emax = _matrix[i][j]->Emax();
+            dcomplex Emin = _matrix[i][j]->Emin();
+
+            if (i == j) {
+               dcomplex E = upper ? Emax : Emin;
+               M(i,i) = E.real();
+               if (fabs(E.imag()) > fabs(imag)) imag = E.imag();
+            } else {
+               double v = upper ? cabs(Emax) : cabs(Emin);
+               if (v > M(i,j)) {
+                  M(i,j) = v;
+                  M(j,i) = v;
+               }
+            }
+         }
       }
-      
-      LAPACK::FullDiagHermitian(&Mmax, &Evals);
-      
-      return dcomplex(VecMax(Evals));
+
+      return imag;
    }
-	 
+
+   dcomplex OMultistate::Emax()
+   {
+      dMat M;
+      dVec Evals;
+
+      double imag = _Bounds(M, true);
+      LAPACK::FullDiagHermitian(&M, &Evals);
+
+      return dcomplex(VecMax(Evals), imag);
+   }
+
    dcomplex OMultistate::Emin()
    {
-      dMat Mmin;
+      dMat M;
       dVec Evals;
-      
-      Mmin.newsize(_nstates,_nstates);
-      
-      Mmin=0;
-      
-      for(int i=0; i< _nstates; i++){
-         for(int j=0; j < _nstates; j++){
-	    if (_matrix[i][j] != NULL)
-               Mmin(i,j) = cabs(_matrix[i][j]->Emin());
-	 }
-      }
-      
-      LAPACK::FullDiagHermitian(&Mmin, &Evals);
-      
-      return dcomplex(VecMin(Evals));
+
+      double imag = _Bounds(M, false);
+      LAPACK::FullDiagHermitian(&M, &Evals);
+
+      return dcomplex(VecMin(Evals), imag);
    }
 
    
diff --git a/src/qdlib/OMultistate.h b/src/qdlib/OMultistate.h
index dde7397..20b7b1c 100644
--- a/src/qdlib/OMultistate.h
+++ b/src/qdlib/OMultistate.h
@@ -37,6 +37,7 @@ namespace QDLIB
          bool _mirrored[QD_MAX_STATES][QD_MAX_STATES]; /* Element acts as adjoint of the transposed element */
 
          Operator* _Element(int i, int j, bool &conj);
+         double _Bounds(dMat &M, bool upper);
 	 
 	 WFMultistate *_buf1, *_buf2;
 	 
-- 
2.43.0


From 99e0139784657e22f82ebd303c74aeabf8c2b992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:19 +0000
Subject: [PATCH 48/95] fix: the split operator propagator missed the
 normalization of its transformations until they were used elsewhere

---
 src/qdlib/OGSPO.cpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/qdlib/OGSPO.cpp b/src/qdlib/OGSPO.cpp
index 406f532..e228214 100644
--- a/src/qdlib/OGSPO.cpp
+++ b/src/qdlib/OGSPO.cpp
@@ -102,6 +102,19 @@ namespace QDLIB
       OPropagator::Init(Psi);
       H->Init(Psi);
       H->Clock(Operator::Clock());
+
+      /* The normalization factors of the transformations are known after their first use */
+      WaveFunction *buf = Psi->NewInstance();
+      *buf = Psi;
+      for (int i = 0; i < _spoLen; i++) {
+         _ops[i]->InitExponential(&(_exp[i]), 0);
+         if (_ops[i]->Transformation() == NULL) continue;
+
+         _ops[i]->Transformation()->Forward(buf);
+         _ops[i]->Transformation()->Backward(buf);
+         *buf *= _ops[i]->Transformation()->Normalization();
+      }
+      DELETE_WF(buf);
    }
 
    void OGSPO::Apply(WaveFunction *destPsi, WaveFunction *sourcePsi)
-- 
2.43.0


From 480fdad181c29ec468b03858873d2d346914467f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:19 +0000
Subject: [PATCH 49/95] fix: Chebychev steps in imaginary time stopped at terms
 which vanish by symmetry, and the norm was summed up by racing threads

---
 src/qdlib/OCheby.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/qdlib/OCheby.cpp b/src/qdlib/OCheby.cpp
index 3b1fc24..d012d2a 100644
--- a/src/qdlib/OCheby.cpp
+++ b/src/qdlib/OCheby.cpp
@@ -75,7 +75,7 @@ namespace QDLIB
       double norm(0);
 
 #ifdef _OPENMP
-#pragma omp parallel for shared(norm)
+#pragma omp parallel for reduction(+:norm)
 #endif
       for (int s = rank; s < strides; s += msize) {
          double lnorm(0);
@@ -204,6 +204,7 @@ namespace QDLIB
    {
       WaveFunction *swap;
       double norm_last = 0;
+      int nconv = 0; /* Number of successive terms which changed nothing */
 
       _exp = OPropagator::Exponent() / clock->Dt();
 
@@ -286,8 +287,12 @@ namespace QDLIB
 #endif
 
          /* Check for convergence */
-         if (abs(accnorm - norm_last)/norm_last < _prec)
-            break;
+         if (norm_last > 0 && abs(accnorm - norm_last)/norm_last < _prec)
+            nconv++;
+         else
+            nconv = 0;
+
+         if (nconv > 1) break; /* A single term may vanish due to symmetry */
 
          norm_last = accnorm;
 
-- 
2.43.0


From 4b3f0b67b5b1da0c4831a872feaeb606b565ca3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:58 +0000
Subject: [PATCH 50/95] fix: continue a propagation at the time of its first
 written wave function

The start index counts written wave functions, but the clock and the loop
took it as a time step, and the clock was one step ahead even for wcycle=1.
---
 src/ProgPropa.cpp | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/src/ProgPropa.cpp b/src/ProgPropa.cpp
index 8bbb9be..2586744 100644
--- a/src/ProgPropa.cpp
+++ b/src/ProgPropa.cpp
@@ -305,16 +305,15 @@ namespace QDLIB {
          log.FileOutput( _nfile );
       }
 
-      lint start;
-      if (_start == 0)
-	 start=1;
-      else
-	 start = _start;
-      
-      clock->TimeStep(_start);
-      
+      /* The given wave function precedes the first written one: it belongs to the end of the previous write cycle */
+      lint done = 0;
+      if (_start > 0)
+	 done = lint(_start - 1) * _wcycle;
+
+      clock->TimeStep(done);
+
       try {
-      for (lint i=start; i <= clock->Steps(); i++){
+      for (lint i=done+1; i <= clock->Steps(); i++){
 	 if (_usepre) _prefilter.Apply( Psi ); /* Apply pre-filters*/
 	 _reporter.Analyze( Psi );      /* propagation report. */
 	_U->Apply(Psi);                 /* Propagate */
-- 
2.43.0


From 5c6d1644f6c9b954d59aaeceb2e6ea02feea3420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:58 +0000
Subject: [PATCH 51/95] fix: report that the propagation meta file could not be
 written

The exception was created but not thrown.
---
 src/ProgCfun.cpp  | 2 +-
 src/ProgPropa.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ProgCfun.cpp b/src/ProgCfun.cpp
index 0170d32..00a255d 100644
--- a/src/ProgCfun.cpp
+++ b/src/ProgCfun.cpp
@@ -514,7 +514,7 @@ namespace QDLIB
 	  p.SetValue("Wcycle", wcycle_);
 
 	  if (!p.WriteToFile(write_dir_ + "/Propagation" + METAFILE_SUFFIX))
-	     EIOError("Can not write meta file");
+	     throw ( EIOError("Can not write meta file") );
 
 	  wfbuffer.SaveToFiles(write_dir_ + "/WF");
 	}
diff --git a/src/ProgPropa.cpp b/src/ProgPropa.cpp
index 2586744..1f3b8e3 100644
--- a/src/ProgPropa.cpp
+++ b/src/ProgPropa.cpp
@@ -154,7 +154,7 @@ namespace QDLIB {
       p.SetValue("Wcycle", _wcycle);
 
       if (!p.WriteToFile(_dir + "Propagation" + METAFILE_SUFFIX))
-         EIOError("Can not write meta file");
+         throw ( EIOError("Can not write meta file") );
    }
 
    /**
-- 
2.43.0


From 4bfcfa5d29a727ae94f82a542a3a90d9a3896ab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:58 +0000
Subject: [PATCH 52/95] fix: the meta data of an aborted propagation only cover
 the completed steps

---
 src/ProgPropa.cpp | 10 +++++-----
 src/ProgPropa.h   |  4 ++--
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/ProgPropa.cpp b/src/ProgPropa.cpp
index 1f3b8e3..448ee3b 100644
--- a/src/ProgPropa.cpp
+++ b/src/ProgPropa.cpp
@@ -160,7 +160,7 @@ namespace QDLIB {
    /**
     * Close log files und write Propagation.meta
     */
-   void ProgPropa::_Finalize()
+   void ProgPropa::_Finalize(int Nt)
    {
       Logger& log = Logger::InstanceRef();
 
@@ -168,7 +168,7 @@ namespace QDLIB {
          log.FileClose();
 
       _reporter.Finalize();
-      _WriteMeta();
+      _WriteMeta(Nt);
    }
 
 
@@ -313,7 +313,7 @@ namespace QDLIB {
       clock->TimeStep(done);
 
       try {
-      for (lint i=done+1; i <= clock->Steps(); i++){
+      for (lint i=done+1; i <= clock->Steps(); i++, done++){
 	 if (_usepre) _prefilter.Apply( Psi ); /* Apply pre-filters*/
 	 _reporter.Analyze( Psi );      /* propagation report. */
 	_U->Apply(Psi);                 /* Propagate */
@@ -325,12 +325,12 @@ namespace QDLIB {
         }
       }
       } catch (Exception &e) {
-         _Finalize();
+         _Finalize(done);  /* Only promise what was completed */
          DELETE_WF(Psi);
          throw;
       }
 
-      _Finalize();
+      _Finalize(clock->Steps());
       DELETE_WF(Psi);
    }
 
diff --git a/src/ProgPropa.h b/src/ProgPropa.h
index 4441741..8b9dace 100644
--- a/src/ProgPropa.h
+++ b/src/ProgPropa.h
@@ -73,8 +73,8 @@ namespace QDLIB {
 
 	 void _InitParams();
 	 void _InitSumOperator();
-	 void _Finalize();
-	 void _WriteMeta(int Nt = QDGlobalClock::Instance()->Steps());
+	 void _Finalize(int Nt);
+	 void _WriteMeta(int Nt);
 
       public:
 	 ProgPropa(XmlNode &PropaNode);
-- 
2.43.0


From 43b178c7e7487ba18890464743fe9948ec700e53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:55 +0000
Subject: [PATCH 53/95] fix: check the write cycle of a propagation instead of
 the number of steps

wcycle=0 ended in a division by zero.
---
 src/ProgPropa.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ProgPropa.cpp b/src/ProgPropa.cpp
index 448ee3b..57ddcfa 100644
--- a/src/ProgPropa.cpp
+++ b/src/ProgPropa.cpp
@@ -50,7 +50,7 @@ namespace QDLIB {
    
       if (dt == 0)
 	 throw ( EParamProblem("Zero time step defined") );
-      if (steps == 0)
+      if (steps < 1)
 	 throw ( EParamProblem("Zero number of time step defined") );
    
       clock->Dt(dt);
@@ -60,7 +60,7 @@ namespace QDLIB {
       /* Init write cycles */
       if ( attr.isPresent("wcycle") ) {
 	 attr.GetValue("wcycle", _wcycle);
-	 if ( steps < 1)
+	 if ( _wcycle < 1)
 	    throw ( EParamProblem ("Write cycle less than one defined") );
 	 _reporter.WriteCycle(_wcycle);
       }
-- 
2.43.0


From 97cf078971ca3e21ecee65071e59f32a28c08739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:54 +0000
Subject: [PATCH 54/95] fix: linear combinations added every member twice

---
 src/ChainLoader.cpp | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/src/ChainLoader.cpp b/src/ChainLoader.cpp
index cfaa673..f5d5832 100644
--- a/src/ChainLoader.cpp
+++ b/src/ChainLoader.cpp
@@ -261,13 +261,8 @@ namespace QDLIB
       ParamContainer pm_child;
 
       while (WFNode->EndNode()){
-         double coeff=0;
-
          wfadd = LoadWaveFunctionChain( WFNode, seqnum );
 
-         if(coeff != 0)
-            MultElements((cVec*) wfadd, coeff);
-
          if (WF == NULL){
             WF = wfadd->NewInstance();
             *WF = wfadd;
@@ -275,7 +270,6 @@ namespace QDLIB
             *WF += wfadd;
          }
 
-         *WF += wfadd;
          DELETE_WF(wfadd);
          WFNode->NextNode();
       }
-- 
2.43.0


From 4ab39dc0513c6bf91ad4487ac70c54688e53e646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:54 +0000
Subject: [PATCH 55/95] fix: a coefficient of zero in a wave function
 definition was ignored

---
 src/ChainLoader.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ChainLoader.cpp b/src/ChainLoader.cpp
index f5d5832..7c75b70 100644
--- a/src/ChainLoader.cpp
+++ b/src/ChainLoader.cpp
@@ -405,7 +405,7 @@ namespace QDLIB
          *WF *= cexpI(phase * M_PI);
       }
 
-      double coeff=0;
+      double coeff=1;
 
       if (pm.isPresent("coeff")){
          pm.GetValue("coeff", coeff);
@@ -415,7 +415,7 @@ namespace QDLIB
          coeff = sqrt(coeff);
       }
 
-      if(coeff != 0){
+      if (pm.isPresent("coeff") || pm.isPresent("coeff2")){
          log.cout().precision(8);
          log.cout() << fixed << "Coefficient = " << coeff << endl;
          log.cout() << fixed << "Coefficient^2 = " << coeff*coeff << endl;
-- 
2.43.0


From 6f26564d7a9eea9642416ef13b5e3e8d45be076b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:54 +0000
Subject: [PATCH 56/95] fix: Multimap applied the inverse of the state map and
 failed for missing maps and coefficients

---
 src/ChainLoader.cpp | 53 +++++++++++++++++++++++----------------------
 1 file changed, 27 insertions(+), 26 deletions(-)

diff --git a/src/ChainLoader.cpp b/src/ChainLoader.cpp
index 7c75b70..9105530 100644
--- a/src/ChainLoader.cpp
+++ b/src/ChainLoader.cpp
@@ -199,7 +199,8 @@ namespace QDLIB
    {
       Logger& log = Logger::InstanceRef();
 
-      WFMultistate *wfin = dynamic_cast<WFMultistate*>(LoadWaveFunctionChain( WFNode, seqnum ));
+      WaveFunction *wfsub = LoadWaveFunctionChain( WFNode, seqnum );
+      WFMultistate *wfin = dynamic_cast<WFMultistate*>(wfsub);
 
       if (wfin == NULL)
          throw(EIncompatible("Multimap needs a multi state wave function as input"));
@@ -211,6 +212,9 @@ namespace QDLIB
          pm.GetArray("statemap", statemap);
       }
 
+      if (statemap.empty())
+         throw(EParamProblem("Multimap needs a statemap"));
+
       if (statemap.size() > uint(wfin->States()))
 	throw(EParamProblem("More states in statemap than input states available"));
 
@@ -221,37 +225,34 @@ namespace QDLIB
          coeffs.assign(statemap.size(), 1);
       }
 
-      /* Map Multistate to Multistate*/
-      if (statemap.size() > 1) {
-	WFMultistate *wfout = new WFMultistate();
-	for (size_t i=0; i < statemap.size(); i++){
-	   if (statemap[i] >= wfin->States() || statemap[i] < 0)
-	      throw (EParamProblem("Multimap: state index is invalid"));
+      coeffs.resize(statemap.size(), 0); /* States without a coefficient are empty */
 
-	   wfout->Add(wfin->State(i), statemap[i]);
+      for (size_t i=0; i < statemap.size(); i++){
+         if (statemap[i] >= wfin->States() || statemap[i] < 0)
+            throw (EParamProblem("Multimap: state index is invalid"));
+      }
 
-	   if (i >= coeffs.size()) {
-	      *(wfout->State(statemap[i])) *= 0;
-	   } else {
-	      *(wfout->State(statemap[i])) *= coeffs[i];
-	      log.cout() << coeffs[i] << " * " << i << " -> " << statemap[i] << endl;
-	   }
-	}
+      /* State i of the new wave function is a copy of state statemap[i] */
+      vector<WaveFunction*> states;
+      for (size_t i=0; i < statemap.size(); i++){
+         WaveFunction *state = wfin->State(statemap[i])->NewInstance();
+         *state = wfin->State(statemap[i]);
+         *state *= coeffs[i];
+         log.cout() << coeffs[i] << " * " << statemap[i] << " -> " << i << endl;
+         states.push_back(state);
+      }
+      DELETE_WF(wfsub);
 
-	ParamContainer mspm;
-	wfout->Init(mspm);
+      if (states.size() == 1) return states[0]; /* Map Multistate to a single state WF */
 
-	return wfout;
-      } else { /* Map Multistate to a single state WF */
-	   if (statemap[0] >= wfin->States() || statemap[0] < 0)
-	      throw (EParamProblem("Multimap: state index is invalid"));
+      WFMultistate *wfout = new WFMultistate();
+      for (size_t i=0; i < states.size(); i++)
+         wfout->Add(states[i], i);
 
-	  WaveFunction *wfout = wfin->State(statemap[0])->NewInstance();
-	  *wfout = wfin->State(statemap[0]);
-	  *wfout *= coeffs[0];
+      ParamContainer mspm;
+      wfout->Init(mspm);
 
-	  return wfout;
-      }
+      return wfout;
    }
 
    WaveFunction* ChainLoader::LoadWFLC_( XmlNode *WFNode, ParamContainer& pm,  int seqnum)
-- 
2.43.0


From a0e3c90fdd8b9ca284a7cc28071c08bfd6a401ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:54 +0000
Subject: [PATCH 57/95] fix: multistate wave functions accepted negative
 indices and one state less than possible

---
 src/qdlib/WFMultistate.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qdlib/WFMultistate.cpp b/src/qdlib/WFMultistate.cpp
index 090edf4..d2e43ed 100644
--- a/src/qdlib/WFMultistate.cpp
+++ b/src/qdlib/WFMultistate.cpp
@@ -58,7 +58,7 @@ namespace QDLIB
     */
    void WFMultistate::Add( WaveFunction * Psi, lint index)
    {
-      if (index+1 >= QD_MAX_STATES )
+      if (index >= QD_MAX_STATES || index < 0)
 	 throw( EOverflow( "More states requested than possible (QD_MAX_STATES)") );
       
       if (index+1 > _nstates){
-- 
2.43.0


From 20743316b90b9d4add409c0a71d974ab06691d9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:10 +0000
Subject: [PATCH 58/95] fix: diagonalize the Hamiltonian in the eigenstate
 basis including the phases of its elements

---
 src/ProgEigen.cpp         | 6 +++---
 src/linalg/LapackDiag.cpp | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/ProgEigen.cpp b/src/ProgEigen.cpp
index 105a940..5e728f6 100644
--- a/src/ProgEigen.cpp
+++ b/src/ProgEigen.cpp
@@ -97,16 +97,16 @@ namespace QDLIB
 
       log.Header("Diagonalize Hamiltonian", Logger::SubSection);
       /* Create Hamiltonian Matrix */
-      dMat S;
+      cMat S;
       S.newsize(_Nef, _Nef);
       _Energies_diag.newsize(_Nef);
-      S = 0;
+      S = dcomplex(0);
       WaveFunction *bra, *ket;
       for (int i = 0; i < _Nef; i++) {
          bra = _P->Get(i);
          for (int j = 0; j < i; j++) {
             ket = _P->Get(j);
-            S(j, i) = _H->MatrixElement(bra, ket).real();
+            S(j, i) = _H->MatrixElement(bra, ket).conj();
          }
          S(i, i) = _Energies_raw[i];
       }
diff --git a/src/linalg/LapackDiag.cpp b/src/linalg/LapackDiag.cpp
index df0964c..aec73ad 100644
--- a/src/linalg/LapackDiag.cpp
+++ b/src/linalg/LapackDiag.cpp
@@ -64,10 +64,10 @@ namespace LAPACK {
       char uplo = 'U';
       
       double *ws;
-      Memory::Instance().Align( (void**) &ws, ws_size*sizeof(dcomplex));
+      Memory::Instance().Align( (void**) &ws, ws_size*sizeof(double));
 
       dcomplex *wsC;
-      Memory::Instance().Align((void**) &wsC, ws_size*sizeof(double));
+      Memory::Instance().Align((void**) &wsC, ws_size*sizeof(dcomplex));
 
       ZHEEV_F77(&jobz, &uplo, &size, mat->begin(),  &size,
 	     evals->begin(0) , wsC , &ws_size, ws, &info);
-- 
2.43.0


From a184058769454ff80b45c89126e74d2cbb49812e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:53 +0000
Subject: [PATCH 59/95] fix: eigenstates from a stored propagation were
 extracted with the time step and length of the input instead of those of the
 propagation

---
 src/ProgEigen.cpp     | 9 ++++++---
 src/tools/fstools.cpp | 3 +++
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/ProgEigen.cpp b/src/ProgEigen.cpp
index 5e728f6..5177404 100644
--- a/src/ProgEigen.cpp
+++ b/src/ProgEigen.cpp
@@ -471,6 +471,9 @@ namespace QDLIB
 	   string s;
 	   int wcycle;
 
+	   if (_read[_read.length()-1] != '/')
+	      _read += "/";
+
 	   meta.ReadFromFile(_read+"Propagation.meta");
 
 	   meta.GetValue("CLASS", s);
@@ -522,7 +525,7 @@ namespace QDLIB
 	   throw (EIncompatible("The WFs from the propagation are incompatible with the guess"));
 
 	*_PsiInitial =  tbuf[0];
-	autocorr[0] = 1;
+	autocorr[0] = *(tbuf[0]) * _PsiInitial;
 	log.cout() << "Rebuild autocorrelation\n\n"; log.flush();
 	for (int i=1; i < _MaxSteps; i++) { /* Rebuild the autocorrelation */
 	   autocorr[i] = *(tbuf[i]) * _PsiInitial;
@@ -533,7 +536,7 @@ namespace QDLIB
       if (_win)
          FunctionGenerator<cVec>::Hann(autocorr);
 
-      Reporter::WriteSpectrum(autocorr, clock->Dt(), _dir+_spectrum);
+      Reporter::WriteSpectrum(autocorr, _dt, _dir+_spectrum);
 
       /* Make FFT and find eigenvalues */
       FFT AcFFT(autocorr, spectrum, true);
@@ -567,7 +570,7 @@ namespace QDLIB
          index = PFind.NextPeak();
 
          /* Calculate energy */
-         double dw = 2*M_PI / (clock->Dt() * double(clock->Steps()));
+         double dw = 2*M_PI / (_dt * double(_MaxSteps));
 
          if (index < _MaxSteps/2)
             energy = double(index) * dw;
diff --git a/src/tools/fstools.cpp b/src/tools/fstools.cpp
index dd3ac1f..42c7e0a 100644
--- a/src/tools/fstools.cpp
+++ b/src/tools/fstools.cpp
@@ -107,6 +107,9 @@ namespace QDLIB {
       
       ret =  stat(name.c_str(), &statbuf);
       
+      if (ret != 0 && (errno == ENOENT || errno == ENOTDIR))
+         return false;
+
       if (ret != 0)
 	 throw ( EIOError(errno, name) );
       
-- 
2.43.0


From 4deef34fb96ef9a01524ace9de8e1caf0034633a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:53 +0000
Subject: [PATCH 60/95] fix: eigenenergies from an autocorrelation came in the
 wrong order and were lost around zero if some are negative

---
 src/ProgEigen.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/ProgEigen.cpp b/src/ProgEigen.cpp
index 5177404..853eb8d 100644
--- a/src/ProgEigen.cpp
+++ b/src/ProgEigen.cpp
@@ -545,8 +545,11 @@ namespace QDLIB
 
       AcFFT.forward();
 
+      /* Sort by frequency: negative frequencies first */
+      int Nneg = _MaxSteps - _MaxSteps/2;
+
       for (int i=0; i < _MaxSteps; i++)
-         PowerSpectrum[i] = cabs(spectrum[i]);
+         PowerSpectrum[i] = cabs(spectrum[(i + _MaxSteps/2) % _MaxSteps]);
 
       PFind.Tolerance(_tol);
       if (_width > 0) PFind.Find(PowerSpectrum,_width);
@@ -567,15 +570,12 @@ namespace QDLIB
       for (int i=0; i < _Nef; i++){
          double energy;
          int index;
-         index = PFind.NextPeak();
+         index = PFind.NextPeak() - Nneg;
 
          /* Calculate energy */
          double dw = 2*M_PI / (_dt * double(_MaxSteps));
 
-         if (index < _MaxSteps/2)
-            energy = double(index) * dw;
-         else
-            energy = double(index-_MaxSteps) * dw;
+         energy = double(index) * dw;
 
          /* Run time integration */
          *Psi = _PsiInitial;
-- 
2.43.0


From 98a76c11259fe84cc607713a004417257adb67d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:53 +0000
Subject: [PATCH 61/95] fix: Lanczos eigenstates were neither normalized nor in
 order of energy

---
 src/ProgEigen.cpp | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/ProgEigen.cpp b/src/ProgEigen.cpp
index 853eb8d..5d46f54 100644
--- a/src/ProgEigen.cpp
+++ b/src/ProgEigen.cpp
@@ -637,15 +637,26 @@ namespace QDLIB
       log.cout().precision(8);
       log.flush();
 
+      /* Order of the energies */
+      vector<int> order(_Nef);
       for (int i=0; i < _Nef; i++){
+         int k = i;
+         for (; k > 0 && evals[order[k-1]].real() > evals[i].real(); k--)
+            order[k] = order[k-1];
+         order[k] = i;
+      }
+
+      for (int i=0; i < _Nef; i++){
+         int n = order[i];
          *buf = wfs->Get(0);
-         *buf *= evecs(0,i);
+         *buf *= evecs(0,n);
          for (int j=1; j < _Nef; j++){
-            AddElements( (cVec*) buf, (cVec*) wfs->Get(j), evecs(j,i));
+            AddElements( (cVec*) buf, (cVec*) wfs->Get(j), evecs(j,n));
          }
+         buf->Normalize();
          _P->Add(buf);
-         _Energies_raw[i] = evals[i].real();
-         log.cout() << i << "\t" << evals[i] << endl;
+         _Energies_raw[i] = evals[n].real();
+         log.cout() << i << "\t" << evals[n] << endl;
       }
       log.cout() << endl;
       log.flush();
-- 
2.43.0


From 199a6d114bda38215276f637d310bc0434911497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:07 +0000
Subject: [PATCH 62/95] fix: eigenfunctions beyond those the guess contains
 were made up from rounding errors

---
 src/ProgEigen.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/ProgEigen.cpp b/src/ProgEigen.cpp
index 5d46f54..a4461bc 100644
--- a/src/ProgEigen.cpp
+++ b/src/ProgEigen.cpp
@@ -381,6 +381,13 @@ namespace QDLIB
             ++(*clock);                     /* Step the clock */
             s++;
          }
+         /* Nothing but rounding errors is left if the guess contains no further states */
+         if ( i>0 ){
+            _P->Apply(buf, Psi);
+            if (buf->Norm() > 1e-6)
+               throw ( EOverflow("No further eigenfunctions can be obtained from the initial wave function") );
+         }
+
          _P->Set(i, Psi);
          _efile << Psi;
 
-- 
2.43.0


From 90a6ed621cb0e31b63bbc521fd7605703e74215c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:03 +0000
Subject: [PATCH 63/95] fix: propagators destroyed operators which others still
 refer to

A propagator releases its Hamiltonian on destruction without ever having
acquired a reference. A persistent operator used by reference in a
program dangled after the program was finished.
---
 src/qdlib/OArnoldi.cpp  | 2 +-
 src/qdlib/OCheby.cpp    | 4 ++--
 src/qdlib/OGSPO.cpp     | 1 -
 src/qdlib/OPropagator.h | 8 ++++++++
 src/qdlib/ORK4.cpp      | 2 +-
 src/qdlib/OSIL.cpp      | 2 +-
 src/qdlib/OSPO.cpp      | 1 -
 7 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/qdlib/OArnoldi.cpp b/src/qdlib/OArnoldi.cpp
index 5b3698b..aa3a2e5 100644
--- a/src/qdlib/OArnoldi.cpp
+++ b/src/qdlib/OArnoldi.cpp
@@ -65,7 +65,7 @@ namespace QDLIB
       if (buf0 != NULL)
          return; //Avoid init twice
 
-      H = Get("hamiltonian");
+      SetHamiltonian(Get("hamiltonian"));
 
       buf0 = Psi->NewInstance();
       buf1 = Psi->NewInstance();
diff --git a/src/qdlib/OCheby.cpp b/src/qdlib/OCheby.cpp
index d012d2a..958573f 100644
--- a/src/qdlib/OCheby.cpp
+++ b/src/qdlib/OCheby.cpp
@@ -47,7 +47,7 @@ namespace QDLIB
     */
    void OCheby::Hamiltonian(Operator *Op)
    {
-      H = Op;
+      SetHamiltonian(Op);
    }
 
    void OCheby::Init(ParamContainer & params)
@@ -373,7 +373,7 @@ namespace QDLIB
    
    void OCheby::Init( WaveFunction *Psi )
    {
-      H = Get("hamiltonian");
+      SetHamiltonian(Get("hamiltonian"));
       H->Clock(Operator::Clock());
       H->Init(Psi);
 
diff --git a/src/qdlib/OGSPO.cpp b/src/qdlib/OGSPO.cpp
index e228214..2007040 100644
--- a/src/qdlib/OGSPO.cpp
+++ b/src/qdlib/OGSPO.cpp
@@ -19,7 +19,6 @@ namespace QDLIB
 
    OGSPO::~OGSPO()
    {
-      DELETE_OP(H);
    }
 
    /**
diff --git a/src/qdlib/OPropagator.h b/src/qdlib/OPropagator.h
index 1afb7c3..8cae9f4 100644
--- a/src/qdlib/OPropagator.h
+++ b/src/qdlib/OPropagator.h
@@ -40,6 +40,14 @@ namespace QDLIB {
 	 }
       
 	 ~OPropagator() { DELETE_OP(H); }
+
+	 /* H is shared with whoever else refers to it */
+	 void SetHamiltonian(Operator *Op)
+	 {
+	    Collector<Operator>::Instance()->Register(Op);
+	    DELETE_OP(H);
+	    H = Op;
+	 }
 	    
 	 
 	 virtual void Clock(QDClock *cl)
diff --git a/src/qdlib/ORK4.cpp b/src/qdlib/ORK4.cpp
index 23714bc..f2b2c79 100644
--- a/src/qdlib/ORK4.cpp
+++ b/src/qdlib/ORK4.cpp
@@ -34,7 +34,7 @@ namespace QDLIB
 
       if (_buf[0] != NULL) return; // Avoid init twice
       
-      H = Get("hamiltonian");
+      SetHamiltonian(Get("hamiltonian"));
 
       for (int i=0; i < 5; i++){
          _buf[i] = Psi->NewInstance();
diff --git a/src/qdlib/OSIL.cpp b/src/qdlib/OSIL.cpp
index 80b4f61..7611f23 100644
--- a/src/qdlib/OSIL.cpp
+++ b/src/qdlib/OSIL.cpp
@@ -57,7 +57,7 @@ namespace QDLIB {
 
         if (buf0 != NULL) return; //Avoid init twice
 
-        H = Get("hamiltonian");
+        SetHamiltonian(Get("hamiltonian"));
 
         if (! H->Hermitian() )
            throw(EIncompatible("SIL can't handle non-hermitian Hamiltonians use Arnolid instead"));
diff --git a/src/qdlib/OSPO.cpp b/src/qdlib/OSPO.cpp
index 3d779d0..5183577 100644
--- a/src/qdlib/OSPO.cpp
+++ b/src/qdlib/OSPO.cpp
@@ -30,7 +30,6 @@ namespace QDLIB {
       DELETE_WF(_V1);
       DELETE_WF(_buf);
       DELETE_WF(_buf2);
-      DELETE_OP(_H);
    }
 
 
-- 
2.43.0


From cb10976cba55bc9303a85d0390d48de5dc56d05b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:03 +0000
Subject: [PATCH 64/95] fix: OGridSum destroyed members which others still
 refer to

The members are released on destruction, but no reference had been
acquired. This also applied to copies, which share their members.
---
 src/qdlib/OGridSum.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/qdlib/OGridSum.cpp b/src/qdlib/OGridSum.cpp
index de16596..49e7152 100644
--- a/src/qdlib/OGridSum.cpp
+++ b/src/qdlib/OGridSum.cpp
@@ -165,8 +165,11 @@ namespace QDLIB {
             
       /* copy our stuff */
       _size = org->_size;
-      for (int i=0; i< MAX_OPS; i++)
+      for (int i=0; i< MAX_OPS; i++) {
+	 Collector<Operator>::Instance()->Register(org->_O[i]);
+	 if (_O[i] != NULL) DELETE_OP(_O[i]);
 	 _O[i] = org->_O[i];
+      }
       _isUpTodate = org->_isUpTodate;
       
       return this;
@@ -213,6 +216,7 @@ namespace QDLIB {
       if (O->isTimeDep()) _isTimedependent = true;
       O->Clock(clock);
       
+      Collector<Operator>::Instance()->Register(O); /* Shared with the caller */
       _O[_size] = O;
       _size++;
       _isUpTodate = false;
-- 
2.43.0


From 0d612d102c81539ea502526fcaadac4951bb9092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:03 +0000
Subject: [PATCH 65/95] fix: an operator listed twice was destroyed with the
 first entry

GlobalOpList::Clear() destroyed operators which are also registered as
persistent. Internal keys could replace an entry of the same name.
---
 src/GlobalOpList.cpp | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/GlobalOpList.cpp b/src/GlobalOpList.cpp
index 1b26364..dc2bbfd 100644
--- a/src/GlobalOpList.cpp
+++ b/src/GlobalOpList.cpp
@@ -51,12 +51,23 @@ namespace QDLIB {
          throw (EIncompatible("GlobalOpList: Operator is NULL!"));
       
        if (strlen(key.c_str()) < 1) { /* If no key is given, we produce an internal key with a serial number */
-          stringstream ss;
-          ss << OP_LIST_ANONYMOUS_PREFIX << Op->Name() << "#" << OpListAnonKey;
-          key = ss.rdbuf()->str();
-          OpListAnonKey++;
+          do {
+             stringstream ss;
+             ss << OP_LIST_ANONYMOUS_PREFIX << Op->Name() << "#" << OpListAnonKey;
+             key = ss.rdbuf()->str();
+             OpListAnonKey++;
+          } while (_OpStore.find(key) != _OpStore.end());
        }
-      
+
+      /* The first entry takes over the object, further entries share it */
+      map<string, _OpEntry>::iterator it;
+      for (it = _OpStore.begin(); it != _OpStore.end(); it++) {
+         if (((*it).second).Op == Op) {
+            Collector<Operator>::Instance()->Register(Op);
+            break;
+         }
+      }
+
       _OpStore[key].Op = Op;
       _OpStore[key].persist = persist;
    }
-- 
2.43.0


From 05d58984d37fa23c61866ee35b51691590b95b50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:03 +0000
Subject: [PATCH 66/95] fix: replacing a named wave function by itself
 destroyed it

Also, internal keys could replace an entry of the same name.
---
 src/GlobalWFList.cpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/GlobalWFList.cpp b/src/GlobalWFList.cpp
index b100339..e94a2f9 100644
--- a/src/GlobalWFList.cpp
+++ b/src/GlobalWFList.cpp
@@ -50,10 +50,12 @@ namespace QDLIB
          throw (EIncompatible("GlobalWFList: Wave function is NULL!"));
 
        if (strlen(key.c_str()) < 1) { /* If no key is given, we produce an internal key with a serial number */
-          stringstream ss;
-          ss << WF_LIST_ANONYMOUS_PREFIX << wf->Name() << "#" << _WFListAnonKey;
-          nkey = ss.rdbuf()->str();
-          _WFListAnonKey++;
+          do {
+             stringstream ss;
+             ss << WF_LIST_ANONYMOUS_PREFIX << wf->Name() << "#" << _WFListAnonKey;
+             nkey = ss.rdbuf()->str();
+             _WFListAnonKey++;
+          } while (_WFStore.find(nkey) != _WFStore.end());
        }
 
        Collector<WaveFunction>::Instance()->Register(wf);
@@ -96,8 +98,11 @@ namespace QDLIB
       if (_WFStore.find(key) == _WFStore.end())
          Add(key, wf, true);
       else {
+         if (wf == NULL)
+            throw (EIncompatible("GlobalWFList: Wave function is NULL!"));
+
+         Collector<WaveFunction>::Instance()->Register(wf); /* may be the one already stored */
          Collector<WaveFunction>::Instance()->Delete(_WFStore[key].wf);
-         Collector<WaveFunction>::Instance()->Register(wf);
          _WFStore[key].wf = wf;
       }
    }
-- 
2.43.0


From dc625d3489a8f9d0e3f44995606deb84378c957c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:01 +0000
Subject: [PATCH 67/95] fix: grid operators were never released

The address of the allocated memory was registered with the collector.
For all classes which do not start with their Operator part (virtual
base) this is not the address operators are known by: DELETE_OP() had
no effect, and the final clean up called the destructor through a
pointer of the wrong type.
---
 src/qdlib/Operator.h | 48 ++++++++++++++++++++++++++++++++++++++++----
 1 file changed, 44 insertions(+), 4 deletions(-)

diff --git a/src/qdlib/Operator.h b/src/qdlib/Operator.h
index cbc89fd..0057603 100644
--- a/src/qdlib/Operator.h
+++ b/src/qdlib/Operator.h
@@ -61,6 +61,40 @@ namespace QDLIB {
    {
 
       private:
+         /* Memory which has been allocated, but doesn't contain an operator yet */
+         struct _Memory {
+            char *p;
+            size_t size;
+         };
+
+         static std::vector<_Memory>& _Pending()
+         {
+            static std::vector<_Memory> pending;
+            return pending;
+         }
+
+         static int _FindPending(void *ptr)
+         {
+            char *p = (char*) ptr;
+            std::vector<_Memory>& mem = _Pending();
+
+            for (int i = int(mem.size()) - 1; i >= 0; i--)
+               if (p >= mem[i].p && p < mem[i].p + mem[i].size) return i;
+
+            return -1;
+         }
+
+         /* An object doesn't necessarily start with its Operator part, thus the
+          * address of the memory is of no use for the collector */
+         void _Register()
+         {
+            int i = _FindPending(this);
+            if (i < 0) return;
+
+            _Pending().erase(_Pending().begin() + i);
+            Collector<Operator>::Instance()->Register(this);
+         }
+
          bool _recalc; /* Indicates if operator internal should be recalculted or not. */
          WaveFunction *_buf, *_buf1;
       protected:
@@ -104,6 +138,7 @@ namespace QDLIB {
          Operator() : _recalc(true), _buf(NULL), _buf1(NULL), _isTimedependent(false), clock(NULL),
                       _conj(false), _hermitian(true)
 	  {
+	     _Register();
      }
 	  
 	 /**
@@ -111,18 +146,21 @@ namespace QDLIB {
 	  */
 	 Operator(ParamContainer &params):  _params(params), _isTimedependent(false)
 	 {
+	    _Register();
          }
 
 
 	 /**
 	  * Overloaded new Operator.
-	  * Registers the object with the collector.
+	  * The object is registered with the collector as soon as it is constructed.
 	  */
 	 void* operator new(size_t size)
 	 {
-	    Operator* p = (Operator*) malloc(size);
-	    Collector<Operator>::Instance()->Register(p);
-	    return(p);
+	    _Memory mem;
+	    mem.p = (char*) malloc(size);
+	    mem.size = size;
+	    _Pending().push_back(mem);
+	    return(mem.p);
 	 }
 
 	 /**
@@ -130,6 +168,8 @@ namespace QDLIB {
 	  */
 	 void operator delete(void *ptr)
 	 {
+	    int i = _FindPending(ptr);
+	    if (i > -1) _Pending().erase(_Pending().begin() + i);
 	    free(ptr);
 	 }
 
-- 
2.43.0


From f17d9afd749771ecf2b1cb2741e0d584440d8802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:51 +0000
Subject: [PATCH 68/95] fix: qdz without the option -m always failed

---
 src/qdz.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/qdz.cpp b/src/qdz.cpp
index fc8d5f8..59e4c60 100644
--- a/src/qdz.cpp
+++ b/src/qdz.cpp
@@ -36,7 +36,7 @@ void PrepareCmdline(Getopt &cmdline)
                    "compression level (0=no compression, 9=best & slowest)", "4");
 
    cmdline.SetHelp('m', "compression method", false,
-                   "compression method (z=zlib [default], j=bzip2)", "m");
+                   "compression method (z=zlib [default], j=bzip2)", "z");
 
 
 }
-- 
2.43.0


From 957d2ba3f0011f5ac0bf1e104d9bb63005ae521e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:01 +0000
Subject: [PATCH 69/95] fix: qdz -s reported success when a member of the
 series could not be processed, and changed the storage format of the files

---
 src/qdz.cpp | 139 +++++++++++++++++++++-------------------------------
 1 file changed, 56 insertions(+), 83 deletions(-)

diff --git a/src/qdz.cpp b/src/qdz.cpp
index 59e4c60..f6df0b7 100644
--- a/src/qdz.cpp
+++ b/src/qdz.cpp
@@ -11,6 +11,7 @@
 
 #include "tools/Exception.h"
 #include "tools/Getopt.h"
+#include "tools/fstools.h"
 
 #include "qdlib/FileWF.h"
 
@@ -42,61 +43,68 @@ void PrepareCmdline(Getopt &cmdline)
 }
 
 /**
- * Decompress WF files.
- * 
+ * Check for the existence of a member of a series.
+ *
+ * \param fname basename of WF files
+ * \param counter number of the member
+ */
+bool HaveMember(const string &fname, int counter)
+{
+   stringstream ss;
+   ss << "_" << counter << BINARY_WF_SUFFIX;
+
+   /* A multistate WF may be stored in one file per state */
+   return FS::IsFile(fname + ss.str()) || FS::IsFile(fname + "-0" + ss.str());
+}
+
+/**
+ * Read WF files and write them back.
+ *
+ * \param wio file object set up for the output
  * \param fname basename of WF files
  * \param series single file or series?
+ * \param compress compress or decompress?
  */
-void DeCompress(string fname, bool series)
+void Convert(FileWF &wio, const string &fname, bool series, bool compress)
 {
-   FileWF wio;
-   WaveFunction *WF;
-   
-   
    wio.Suffix(BINARY_WF_SUFFIX);
    wio.Name(fname);
-   
-   if (!series) {
-      WF = wio.LoadWaveFunctionByMeta();
-      /* Remove compression flag */
-      ParamContainer &p = WF->Params();
-      p.SetValue("compress", false);
-      wio << WF;
-   } else {
-      int counter;
-      wio.ActivateSequence();
-      
-      counter = wio.Counter();
-      WF = wio.LoadWaveFunctionByMeta();
-      
-      /* Remove compression flag */
-      ParamContainer &p = WF->Params();
-      p.SetValue("compress", false);
-      cout << "inflate " << counter << endl;
-      wio.Counter(counter);
-      wio << WF;
-      
-      /* Loop over rest of series */
+   if (series) wio.ActivateSequence();
+
+   do {
+      int counter = wio.Counter();
+      WaveFunction *WF = wio.LoadWaveFunctionByMeta();
+
       try {
-         while (true){
-            counter = wio.Counter();
-            wio >> WF;
-            
-            cout << "inflate " << counter << endl;
-            /* Remove compression flag */
-            p = WF->Params();
-            p.SetValue("compress", false);
-            
-            wio.Counter(counter);
-            wio << WF;
-         }
-      } catch (Exception e) {
-         /** \todo capture real errors here */
+         /* Remove compression flag */
+         if (!compress) WF->Params().SetValue("compress", false);
+
+         if (series)
+            cout << (compress ? "deflate " : "inflate ") << counter << endl;
+
+         wio.FormatOut(wio.Format()); /* Keep the storage format */
+         wio.Counter(counter);
+         wio << WF;
+      } catch (...) {
+         DELETE_WF(WF);
+         throw;
       }
-         
-   }
-      
-   DELETE_WF(WF);
+
+      DELETE_WF(WF);
+   } while (series && HaveMember(fname, wio.Counter()));
+}
+
+/**
+ * Decompress WF files.
+ * 
+ * \param fname basename of WF files
+ * \param series single file or series?
+ */
+void DeCompress(string fname, bool series)
+{
+   FileWF wio;
+
+   Convert(wio, fname, series, false);
 }
 
 
@@ -111,12 +119,8 @@ void DeCompress(string fname, bool series)
 void Compress(string fname, bool series, double tol, int level, const string &method)
 {
    FileWF wio;
-   WaveFunction *WF;
    
    /* Init */
-   wio.Suffix(BINARY_WF_SUFFIX);
-   wio.Name(fname);
-   
    wio.Compress(true);
    wio.CompressionTolerance(tol);
    wio.CompressionLevel(level);
@@ -124,38 +128,7 @@ void Compress(string fname, bool series, double tol, int level, const string &me
    else if (method == "j") wio.CompressMethod(FileWF::BZIP);
    else wio.CompressMethod(FileWF::INVALID);
    
-   if (!series) {
-      WF = wio.LoadWaveFunctionByMeta();
-      wio << WF;
-   } else {
-      int counter;
-      wio.ActivateSequence();
-      
-      counter = wio.Counter();
-      WF = wio.LoadWaveFunctionByMeta();
-      
-      cout << "deflate " << counter << endl;
-      wio.Counter(counter);
-      wio << WF;
-      
-      /* Loop over rest of series */
-      try {
-         while (true){
-            counter = wio.Counter();
-            wio >> WF;
-            
-            cout << "deflate " << counter << endl;
-            
-            wio.Counter(counter);
-            wio << WF;
-         }
-      } catch (Exception e) {
-         /** \todo capture real errors here */
-      }
-
-   }
-   
-   DELETE_WF(WF);
+   Convert(wio, fname, series, true);
 }
 
 
-- 
2.43.0


From d6b39c7473f5c15ebc6e5d7a8b99ac695ba303de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:28 +0000
Subject: [PATCH 70/95] fix: lists of operators without a match were destroyed
 but stayed registered (crash at the end of an optimal control run)

---
 src/ChainLoader.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/ChainLoader.h b/src/ChainLoader.h
index de09de6..0ce6a90 100644
--- a/src/ChainLoader.h
+++ b/src/ChainLoader.h
@@ -91,7 +91,7 @@ namespace QDLIB
          n = nops;
          delete[] sop;
          if (nops == 0) {
-            delete package;
+            DELETE_OP(package);
             return NULL;
          } else {
             return package;
@@ -122,7 +122,7 @@ namespace QDLIB
                      nops += max;
 		     if (ms->State(i,j) != ms->State(j,i) && ms->State(j,i) != NULL) {
                         cout << "Look for NH counterpart: " << ms->State(i,j) << " " << ms->State(j,i) << endl;
-                        cout << "Label: " << *label << endl;
+                        if (label != NULL) cout << "Label: " << *label << endl;
                         max=n;
                         res = FindOperatorType<C>(ms->State(j,i), sop, max, label, index+nops);
 		        if (res != NULL){
@@ -144,7 +144,7 @@ namespace QDLIB
                      n = nops;
                      delete[] sop;
                      if (nops == 0) {
-                        delete package;
+                        DELETE_OP(package);
                         return NULL;
                      } else {
                         return package;
@@ -156,7 +156,7 @@ namespace QDLIB
          n = nops;
          delete[] sop;
          if (nops == 0) {
-            delete package;
+            DELETE_OP(package);
             return NULL;
          } else {
             return package;
-- 
2.43.0


From ce858afab3e6bd98344b092abe57e548bc880e6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:28 +0000
Subject: [PATCH 71/95] fix: inputs were read beyond their end or refused when
 their size is a multiple of the buffer or the first tag is longer than it

---
 src/qdng.cpp                 | 18 ++++---------
 src/simpleXml/Simple2Xml.cpp | 49 ++++++++++++------------------------
 2 files changed, 21 insertions(+), 46 deletions(-)

diff --git a/src/qdng.cpp b/src/qdng.cpp
index 48b03be..fe87658 100644
--- a/src/qdng.cpp
+++ b/src/qdng.cpp
@@ -49,8 +49,6 @@
 using namespace std;
 using namespace QDLIB;
 
-#define QDNG_INPUT_BUFFER 4096
-
 /**
  * Show the version information.
  */
@@ -118,19 +116,13 @@ void CheckInput(const string &name, string &xml)
       fstream infile;
       infile.open(name.c_str(), fstream::in);
 
-      char* buf = (char*) malloc(QDNG_INPUT_BUFFER);
-      size_t size = 0;
+      if (! infile.is_open())
+         throw(EIOError("Can not open input file", name));
 
       /* Read clean XML input */
-      while (! infile.eof() ){
-         if (size > 0) buf = (char*) realloc(buf, size + QDNG_INPUT_BUFFER);
-
-         infile.read(buf+size, QDNG_INPUT_BUFFER);
-
-         size += infile.gcount();
-      }
-      xml = buf;
-      free(buf);
+      stringstream buf;
+      buf << infile.rdbuf();
+      xml = buf.str();
    }
 
    if (type == QDSXML::UNKNOWN) {
diff --git a/src/simpleXml/Simple2Xml.cpp b/src/simpleXml/Simple2Xml.cpp
index 414491f..3c39c4a 100644
--- a/src/simpleXml/Simple2Xml.cpp
+++ b/src/simpleXml/Simple2Xml.cpp
@@ -28,9 +28,9 @@ namespace QDSXML {
    FileType CheckType(const string & name)
    {
       FILE *file;
-      char buf[CHUNK];
-      char *ind = NULL;
-      size_t size = CHUNK;
+      char chunk[CHUNK];
+      std::string buf;
+      size_t size;
       
       /* Open file */
       file = fopen(name.c_str(), "r");
@@ -38,40 +38,23 @@ namespace QDSXML {
       if (!file)
          throw (QDLIB::EIOError(errno, name) );
       
-      memset( (void*) buf, 0, CHUNK);
-      
-      /* Read a test chunk */
-      size = fread( (void*) buf, 1, CHUNK, file );
-      
-      if ( size == 0 ) {
-         throw (QDLIB::EIOError("Can't read from file: ", name) );
-      }
+      while ( (size = fread( (void*) chunk, 1, CHUNK, file )) > 0 )
+         buf.append(chunk, size);
       
       fclose(file);
+
+      if ( buf.empty() )
+         throw (QDLIB::EIOError("Can't read from file: ", name) );
+
+      /* An XML document starts with a tag */
+      if (buf.compare(0, 3, "\xef\xbb\xbf") == 0) buf.erase(0, 3); /* byte order mark */
+      size_t first = buf.find_first_not_of(" \t\r\n");
       
-      /* Look for file type indications - quick & dirty */
-      bool simple = false;
-      bool xml = false;
-      
-      /* Check for XML */
-//      ind = strstr(buf, "<");
-//      if (ind != NULL) xml = true;
-      ind = strstr(buf, "/>");
-      if (ind != NULL) xml |= true;
-      ind = strstr(buf, "</");
-      if (ind != NULL) xml |= true;
-//      ind = strstr(buf, ">");
-//      if (ind != NULL) xml &= true;
-      
-      if (xml) return XML;
-      
-      /* Check for XML */
-      ind = strstr(buf, "{");
-      if (ind != NULL) simple = true;
-      ind = strstr(buf, "}");
-      if (ind != NULL) simple &= true;
+      if (first != std::string::npos && buf[first] == '<') return XML;
       
-      if (simple) return SIMPLE;
+      /* Check for simpleXML */
+      if (buf.find('{') != std::string::npos && buf.find('}') != std::string::npos)
+         return SIMPLE;
       
       return UNKNOWN;
    }
-- 
2.43.0


From e6b05c73743376c832af819af991c3fdd06c3313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:27 +0000
Subject: [PATCH 72/95] fix: crash at the end of the program when operators
 outlive the memory manager

---
 src/tools/Collector.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/tools/Collector.h b/src/tools/Collector.h
index b020e43..c7c416e 100644
--- a/src/tools/Collector.h
+++ b/src/tools/Collector.h
@@ -8,6 +8,8 @@
 #include <vector>
 #include <cstdlib>
 
+#include "Memory.h"
+
 using namespace std;
 
 namespace QDLIB {
@@ -38,7 +40,10 @@ namespace QDLIB {
 	 bool _BigClean;
 	       
          int find(T* p);
-         Collector() : _BigClean(false) {}
+         Collector() : _BigClean(false)
+         {
+            Memory::Instance(); /* has to outlive the objects which are destroyed at the end of the program */
+         }
          Collector(const Collector&){}
       public:
 	 ~Collector();
-- 
2.43.0


From b755aa58e86322799c2c094e074e22da5153b216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:44 +0000
Subject: [PATCH 73/95] fix: the program was terminated when an energy table or
 spectrum can not be written; incomplete ones went unnoticed

---
 src/ProgEigen.cpp | 56 +++++++++++++++++++++++------------------------
 src/Reporter.cpp  | 41 +++++++++++++++++-----------------
 2 files changed, 48 insertions(+), 49 deletions(-)

diff --git a/src/ProgEigen.cpp b/src/ProgEigen.cpp
index a4461bc..0d9f4af 100644
--- a/src/ProgEigen.cpp
+++ b/src/ProgEigen.cpp
@@ -52,40 +52,38 @@ namespace QDLIB
     */
    void ProgEigen::WriteEnergyFile( )
    {
-      Logger& log = Logger::InstanceRef();
       /* Write energy dat */
       ofstream enfile;
       string sn;
       sn = _dir + _ename;
-      try {
-	 enfile.open(sn.c_str());
-	 if (!enfile.is_open()) throw;
-
-	 for (int i=0; i < _Nef; i++){
-
-            if (_diag) { /* Use diagonalized energies */
-               enfile.precision(8);
-               enfile << i << "\t" << fixed << _Energies_diag[i];
-               enfile.precision(2);
-               enfile << "\t" << _Energies_diag[i]*AU2WAVENUMBERS;
-               enfile << "\t" << (_Energies_diag[i]-_Energies_diag[0])*AU2WAVENUMBERS;
-               if (i>0)
-                  enfile << "\t" << (_Energies_diag[i]-_Energies_diag[i-1])*AU2WAVENUMBERS;
-            } else { /* Raw energies  */
-               enfile.precision(8);
-               enfile << i << "\t" << fixed << _Energies_raw[i];
-               enfile.precision(2);
-               enfile << "\t" << _Energies_raw[i]*AU2WAVENUMBERS;
-               enfile << "\t" << (_Energies_raw[i]-_Energies_raw[0])*AU2WAVENUMBERS;
-               if (i>0)
-                  enfile << "\t" << (_Energies_raw[i]-_Energies_raw[i-1])*AU2WAVENUMBERS;
-            }
-	    enfile << endl;
-	 }
-	 enfile.close();
-      } catch (...){
-	 log.cout() << "!!! Can't write energy file\n\n";
+      enfile.open(sn.c_str());
+      if (!enfile.is_open())
+         throw ( EIOError("Can not write energy file", sn) );
+
+      for (int i=0; i < _Nef; i++){
+
+         if (_diag) { /* Use diagonalized energies */
+            enfile.precision(8);
+            enfile << i << "\t" << fixed << _Energies_diag[i];
+            enfile.precision(2);
+            enfile << "\t" << _Energies_diag[i]*AU2WAVENUMBERS;
+            enfile << "\t" << (_Energies_diag[i]-_Energies_diag[0])*AU2WAVENUMBERS;
+            if (i>0)
+               enfile << "\t" << (_Energies_diag[i]-_Energies_diag[i-1])*AU2WAVENUMBERS;
+         } else { /* Raw energies  */
+            enfile.precision(8);
+            enfile << i << "\t" << fixed << _Energies_raw[i];
+            enfile.precision(2);
+            enfile << "\t" << _Energies_raw[i]*AU2WAVENUMBERS;
+            enfile << "\t" << (_Energies_raw[i]-_Energies_raw[0])*AU2WAVENUMBERS;
+            if (i>0)
+               enfile << "\t" << (_Energies_raw[i]-_Energies_raw[i-1])*AU2WAVENUMBERS;
+         }
+         enfile << endl;
       }
+      enfile.close();
+      if (enfile.fail())
+         throw ( EIOError("Can not write energy file", sn) );
    }
 
    /**
diff --git a/src/Reporter.cpp b/src/Reporter.cpp
index 7e87690..31ba548 100644
--- a/src/Reporter.cpp
+++ b/src/Reporter.cpp
@@ -165,30 +165,31 @@ namespace QDLIB
       ofstream ofile;
       
       /* Autocorellation power spectrum */
-      try {
-       ofile.open(name.c_str());
-       if (!ofile.is_open()) throw;
+      ofile.open(name.c_str());
+      if (!ofile.is_open())
+         throw ( EIOError("Can not write auto correlation spectrum", name) );
        
-       fftw.forward();
+      fftw.forward();
        
-       int N = correllation.size();
-       double dw = 2*M_PI / (dt * N);
+      int N = correllation.size();
+      double dw = 2*M_PI / (dt * N);
                 
-       for (lint i=0; i < N; i++){
-          /* Frequency axis in angualar frequency */
-          if (i < N/2)
-             ofile << i * dw;
-          else
-             ofile << -(N-i) * dw;
+      for (lint i=0; i < N; i++){
+         /* Frequency axis in angualar frequency */
+         if (i < N/2)
+            ofile << i * dw;
+         else
+            ofile << -(N-i) * dw;
           
-          ofile << "\t"<< cabs(spec[i]) / (N/2)  <<
-                   "\t" << spec[i].real() / (N/2) <<
-                   "\t" << spec[i].imag() / (N/2) << endl;
-       }
-       ofile.close();
-       log.cout() << "Autocorellation power spectrum written to file: " << name.c_str() << endl << endl;
-      }  catch (...)
-      {log.cout() << "!!! Can't write auto correlation spectrum\n\n";}
+         ofile << "\t"<< cabs(spec[i]) / (N/2)  <<
+                  "\t" << spec[i].real() / (N/2) <<
+                  "\t" << spec[i].imag() / (N/2) << endl;
+      }
+      ofile.close();
+      if (ofile.fail())
+         throw ( EIOError("Can not write auto correlation spectrum", name) );
+
+      log.cout() << "Autocorellation power spectrum written to file: " << name.c_str() << endl << endl;
    }
    
 
-- 
2.43.0


From faefd24b9251d3f5090cef8733b80138f2c14601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:31 +0000
Subject: [PATCH 74/95] fix: exit status 0 after an invalid command line

---
 src/qdng.cpp              | 5 +++--
 src/qdng_info.cpp         | 3 ++-
 src/qdz.cpp               | 5 +++--
 src/simpleXml/qds2qdi.cpp | 5 +++--
 4 files changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/qdng.cpp b/src/qdng.cpp
index fe87658..17246b1 100644
--- a/src/qdng.cpp
+++ b/src/qdng.cpp
@@ -183,7 +183,8 @@ int main(int argc, char **argv)
 #endif
 
    cmdline.ReadArgs(argc, argv);
-   cmdline.CheckOptions();
+   if (!cmdline.CheckOptions())
+      exit(cmdline.GetOption('h') ? EXIT_SUCCESS : EXIT_FAILURE);
 
    try {
       /*Show the help ?*/
@@ -270,7 +271,7 @@ int main(int argc, char **argv)
       cerr << e.GetMessage() << "\n";
       show_version();
       cmdline.ShowHelp();
-      exit(0);
+      exit(EXIT_FAILURE);
    }
 
    log.Header("QDng - Quantum Dynamics", Logger::Chapter);
diff --git a/src/qdng_info.cpp b/src/qdng_info.cpp
index 5abf936..7a21b29 100644
--- a/src/qdng_info.cpp
+++ b/src/qdng_info.cpp
@@ -33,7 +33,8 @@ int main(int argc, char **argv)
 
    cmdline.SetDescription("Show the meta data from a QDng file in pbuf format");
    cmdline.ReadArgs(argc, argv);
-   cmdline.CheckOptions();
+   if (!cmdline.CheckOptions())
+      exit(cmdline.GetOption('h') ? EXIT_SUCCESS : EXIT_FAILURE);
 
    ifstream file;
 
diff --git a/src/qdz.cpp b/src/qdz.cpp
index f6df0b7..2b47f42 100644
--- a/src/qdz.cpp
+++ b/src/qdz.cpp
@@ -149,7 +149,8 @@ int main (int argc, char **argv)
    
    try {
       cmdline.ReadArgs(argc, argv);
-      cmdline.CheckOptions();
+      if (!cmdline.CheckOptions())
+         exit(cmdline.GetOption('h') ? EXIT_SUCCESS : EXIT_FAILURE);
       
       /*Show the help ?*/
       if ( cmdline.GetOption('h') ) exit(retval);
@@ -161,7 +162,7 @@ int main (int argc, char **argv)
    } catch (Exception e) {
       cerr << e.GetMessage() << "\n";
       cmdline.ShowHelp();
-      exit(0);
+      exit(EXIT_FAILURE);
    }
    
    /* Global try-catch block */
diff --git a/src/simpleXml/qds2qdi.cpp b/src/simpleXml/qds2qdi.cpp
index e2596a4..76ac3f1 100644
--- a/src/simpleXml/qds2qdi.cpp
+++ b/src/simpleXml/qds2qdi.cpp
@@ -40,7 +40,8 @@ int main(int argc, char** argv)
 
    try {
       cmdline.ReadArgs(argc, argv);
-      cmdline.CheckOptions();
+      if (!cmdline.CheckOptions())
+         exit(cmdline.GetOption('h') ? EXIT_SUCCESS : EXIT_FAILURE);
 
       /*Show the help ?*/
       if ( cmdline.GetOption('h') ) exit(retval);
@@ -52,7 +53,7 @@ int main(int argc, char** argv)
    } catch (Exception e) {
       cerr << e.GetMessage() << "\n";
       cmdline.ShowHelp();
-      exit(0);
+      exit(EXIT_FAILURE);
    }
 
    try {
-- 
2.43.0


From 618831c4f0cfc90c40d03f09c640d73117d3f20b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:39 +0000
Subject: [PATCH 75/95] fix: crash on elements without child elements; a table
 of expectation values that can not be written went unnoticed

---
 src/CmdHandler.cpp    |  2 +-
 src/FiltersList.cpp   |  8 +++++++-
 src/tools/XmlNode.cpp | 44 +++++++++++++++++++++++--------------------
 3 files changed, 32 insertions(+), 22 deletions(-)

diff --git a/src/CmdHandler.cpp b/src/CmdHandler.cpp
index 8580ad2..cde997b 100644
--- a/src/CmdHandler.cpp
+++ b/src/CmdHandler.cpp
@@ -98,7 +98,7 @@ namespace QDLIB
          prognodes = rnodes.NextChild();
       } else prognodes = &rnodes;
 
-      if (prognodes == NULL)
+      if (!prognodes->EndNode())
          throw(EParamProblem("Empty parameter file provided"));
 
       /* overide path from command line */
diff --git a/src/FiltersList.cpp b/src/FiltersList.cpp
index 6df5467..b38dc1e 100644
--- a/src/FiltersList.cpp
+++ b/src/FiltersList.cpp
@@ -140,6 +140,8 @@ namespace QDLIB {
          log.cout() << "Filter expectation value file: " << _fname << endl;
          log.flush();
          _ofile.open(_fname.c_str());
+         if (!_ofile.is_open())
+            throw ( EIOError("Can not write file", _fname) );
          _ofile.precision(10);
       }
    }
@@ -335,7 +337,11 @@ namespace QDLIB {
 	 }
       }
       
-      if (_writefile) _ofile << endl;
+      if (_writefile) {
+         _ofile << endl;
+         if (_ofile.fail())
+            throw ( EIOError("Can not write file", _fname) );
+      }
       if (! _initalized) _initalized = true;
    }
    
diff --git a/src/tools/XmlNode.cpp b/src/tools/XmlNode.cpp
index e14efd6..ae20461 100644
--- a/src/tools/XmlNode.cpp
+++ b/src/tools/XmlNode.cpp
@@ -3,10 +3,11 @@
 // SPDX-License-Identifier: gpl-3-only
 
 #include "XmlNode.h"
+#include "Exception.h"
 
 namespace QDLIB {
 
-   XmlNode::XmlNode()
+   XmlNode::XmlNode() : _cur_node(NULL)
    {
    }
    
@@ -38,22 +39,20 @@ namespace QDLIB {
    }
    
    /**
-    * Return the next child node.
+    * Return the first child node.
+    *
+    * If there is no child element, the node returned is at its end (\see EndNode).
     */
    XmlNode* XmlNode::NextChild()
    {
-      if (_cur_node->children != NULL) {
-	 XmlNode *child = new XmlNode();
-	 child->_cur_node = _cur_node->children;
-         while ( child->_cur_node != NULL ){
-            if ( child->_cur_node->type == XML_ELEMENT_NODE ) break;
-            child->_cur_node = child->_cur_node->next;
-         }
-	 _child_stack.push(child);
-	 return child;
-      } else
-	 return NULL;
-      
+      XmlNode *child = new XmlNode();
+      if (_cur_node != NULL) child->_cur_node = _cur_node->children;
+      while ( child->_cur_node != NULL ){
+         if ( child->_cur_node->type == XML_ELEMENT_NODE ) break;
+         child->_cur_node = child->_cur_node->next;
+      }
+      _child_stack.push(child);
+      return child;
    }
    
    /**
@@ -61,7 +60,7 @@ namespace QDLIB {
     */
    bool XmlNode::EndChild()
    {
-      if (_cur_node->children == NULL)
+      if (_cur_node == NULL || _cur_node->children == NULL)
 	 return false;
       else
 	 return true;
@@ -72,6 +71,7 @@ namespace QDLIB {
     */
    void XmlNode::NextNode()
    {
+      if (_cur_node == NULL) return;
       _cur_node = _cur_node->next;
       while ( _cur_node != NULL ){
 	 if ( _cur_node->type == XML_ELEMENT_NODE ) break;
@@ -86,7 +86,7 @@ namespace QDLIB {
     */
    void XmlNode::AdjustElementNode()
    {
-      if ( _cur_node->type != XML_ELEMENT_NODE && _cur_node->next != NULL) NextNode();
+      if ( _cur_node != NULL && _cur_node->type != XML_ELEMENT_NODE && _cur_node->next != NULL) NextNode();
    }   
    
    /**
@@ -109,7 +109,7 @@ namespace QDLIB {
       XmlNode *r = NULL;
       
       while ( buf != NULL ){
-	 if (name == (char*) buf->name ) {
+	 if (buf->type == XML_ELEMENT_NODE && name == (char*) buf->name ) {
 	    r = new XmlNode();
 	    r->_cur_node = buf;
 	    break;
@@ -124,6 +124,9 @@ namespace QDLIB {
     */
    string& XmlNode::Name()
    {
+      if (_cur_node == NULL)
+         throw ( EParamProblem("Missing element in the input") );
+
       string *s = new string((char*) _cur_node->name);
       _name_stack.push(s);
       return *s;
@@ -140,13 +143,14 @@ namespace QDLIB {
       
       _attr_stack.push(p);
       
-      if (_cur_node->properties != NULL){
+      if (_cur_node != NULL && _cur_node->properties != NULL){
 	 attr = _cur_node->properties;
 	 while(attr != NULL){
 	    if (attr->type == XML_ATTRIBUTE_NODE){
 	       if (attr->children != NULL){
-		  p->SetValue(string((char*) attr->name), string((char*) attr->children->content));
-// 		  cout << (char*) attr->name << " = " << (char*) attr->children->content << endl;
+		  xmlChar *value = xmlNodeListGetString(_cur_node->doc, attr->children, 1);
+		  p->SetValue(string((char*) attr->name), value == NULL ? string() : string((char*) value));
+		  xmlFree(value);
 	       } else {
 		  p->SetValue(string((char*) attr->name), "");
 	       }
-- 
2.43.0


From 53c204962317c1bbd950ed88fcbda5563019e40d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:41 +0000
Subject: [PATCH 76/95] fix: optimal control and correlation function runs with
 less than one step were accepted

---
 src/ProgCfun.cpp | 4 ++--
 src/ProgOCT.cpp  | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/ProgCfun.cpp b/src/ProgCfun.cpp
index 00a255d..acf37e7 100644
--- a/src/ProgCfun.cpp
+++ b/src/ProgCfun.cpp
@@ -69,8 +69,8 @@ namespace QDLIB
 
     if (dt == 0)
 	 throw ( EParamProblem("Zero time step defined") );
-    if (steps == 0)
-	 throw ( EParamProblem("Zero number of time step defined") );
+    if (steps < 1)
+	 throw ( EParamProblem("Invalid number of time steps defined") );
 
     if ( attr.isPresent("stepsint") ){
       attr.GetValue("stepsint", stepsint_);
diff --git a/src/ProgOCT.cpp b/src/ProgOCT.cpp
index 60c5f8d..7a7583c 100644
--- a/src/ProgOCT.cpp
+++ b/src/ProgOCT.cpp
@@ -65,8 +65,8 @@ namespace QDLIB
 
       if (dt == 0)
          throw(EParamProblem("Zero time step defined"));
-      if (steps == 0)
-         throw(EParamProblem("Zero number of time step defined"));
+      if (steps < 1)
+         throw(EParamProblem("Invalid number of time steps defined"));
 
       clock->Dt(dt);
       clock->Steps(steps);
-- 
2.43.0


From 8816bc3329668c118763cdf0cbab3ce25d0ab440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:41 +0000
Subject: [PATCH 77/95] fix: correlation functions crashed for a write cycle of
 zero and without a ket or bra definition

---
 src/ProgCfun.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/ProgCfun.cpp b/src/ProgCfun.cpp
index acf37e7..3f38afa 100644
--- a/src/ProgCfun.cpp
+++ b/src/ProgCfun.cpp
@@ -84,6 +84,8 @@ namespace QDLIB
 
     if ( attr.isPresent("wcycle") ) {
 	attr.GetValue("wcycle", wcycle_);
+	if (wcycle_ < 1)
+	    throw ( EParamProblem ("Write cycle less than one defined") );
     }
 
     log.Header("Correlation function parameters", Logger::Section);
@@ -478,10 +480,10 @@ namespace QDLIB
 	    throw (EParamProblem("Last operator in bra definition has to be a propagator"));
     }
 
-    if (ket_.back() == NULL)
-	throw (EParamProblem("Last operator in bra definition has to be the signal mode operator"));
+    if (ket_.empty() || ket_.back() == NULL)
+	throw (EParamProblem("Last operator in ket definition has to be the signal mode operator"));
 
-    if (wfbuffer.Size() > 1 && (ket_[0] != NULL || bra_[0] != NULL))
+    if (wfbuffer.Size() > 1 && (ket_[0] != NULL || (!bra_.empty() && bra_[0] != NULL)))
       throw (EParamProblem("Pre-propagated time series requires a propagator as first element int the ket and bra definitions."));
 
     /* Run initial time series, if not already present */
-- 
2.43.0


From 106ef1831303c7d9423af1e4db8e71ed43ae75b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:41 +0000
Subject: [PATCH 78/95] fix: density matrix filters without or with negative
 states crashed

---
 src/FiltersList.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/FiltersList.cpp b/src/FiltersList.cpp
index b38dc1e..152d5fe 100644
--- a/src/FiltersList.cpp
+++ b/src/FiltersList.cpp
@@ -117,7 +117,12 @@ namespace QDLIB {
          throw EParamProblem(errormsg.c_str());
       }
 
+      if (action == "rho" && states.empty())
+         throw(EParamProblem("Filter rho needs the states it refers to (ms)"));
+
       if (states.size() == 2){
+         if (states[0] < 0 || states[1] < 0)
+            throw(EParamProblem("Invalid state number in 'states' directive in filter defined."));
 	  _filter[_size].ms[0] = states[0];
 	  _filter[_size].ms[1] = states[1];
       } else if (states.size() == 1 || states.size() > 2) {
-- 
2.43.0


From c3932d3b3a0a5b1c171d154614e3aa128665708f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:02 +0000
Subject: [PATCH 79/95] fix: elements of multi state wave functions and
 operators whose names are no indices were taken for element 0; crash for
 empty linear combinations

---
 src/ChainLoader.cpp | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/src/ChainLoader.cpp b/src/ChainLoader.cpp
index 9105530..911665e 100644
--- a/src/ChainLoader.cpp
+++ b/src/ChainLoader.cpp
@@ -22,6 +22,15 @@
 namespace QDLIB
 {
 
+   /** Read an index, the text must not contain anything else. */
+   static bool ReadIndex_(const string& text, int& index)
+   {
+      if (text.empty() || text.find_first_not_of("0123456789") != string::npos) return false;
+
+      stringstream ss(text);
+      return bool(ss >> index);
+   }
+
    /**
     * Recursive method to load an operator chain.
     *
@@ -95,14 +104,12 @@ namespace QDLIB
 	 matrix->Init(pm);
 	 while (child->EndNode()){
 	    string name;
-	    stringstream ss_row, ss_col;
 	    int row, col;
 
 	    name = child->Name();
-	    ss_row << name.substr(1, name.find('.')-1);
-	    ss_col << name.substr(name.find('.')+1);
-	    ss_row >> row;
-	    ss_col >> col;
+	    size_t dot = name.find('.');
+	    if (dot == string::npos || dot < 2 || ! ReadIndex_(name.substr(1, dot-1), row) || ! ReadIndex_(name.substr(dot+1), col))
+	       throw ( EParamProblem("Elements of a multi state operator have to be named m<row>.<column>, got", name) );
 
 	    log.cout() << "H(" << row << "," << col << ")\n";
 
@@ -176,12 +183,11 @@ namespace QDLIB
       WFMultistate *multi = new WFMultistate();
       while (WFNode->EndNode()){
          string name;
-         stringstream ss;
          int state;
 
          name = WFNode->Name();
-         ss << name.substr(2);
-         ss >> state;
+         if (name.length() < 3 || ! ReadIndex_(name.substr(2), state))
+            throw ( EParamProblem("States of a multi state wave function have to be named wf<number>, got", name) );
          log.cout() << "-State " << state << endl;
 
          wfsub = LoadWaveFunctionChain( WFNode, seqnum );
@@ -275,6 +281,9 @@ namespace QDLIB
          WFNode->NextNode();
       }
 
+      if (WF == NULL)
+         throw ( EParamProblem("Linear combination without wave functions") );
+
       return WF;
    }
 
-- 
2.43.0


From 79934dc4314322368794727cec46988ce8ecc09c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:13 +0000
Subject: [PATCH 80/95] fix: a grid potential with neither a file nor a grid
 was accepted and crashed later

---
 src/qdlib/OGridPotential.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/qdlib/OGridPotential.cpp b/src/qdlib/OGridPotential.cpp
index c2f8cce..41e5215 100644
--- a/src/qdlib/OGridPotential.cpp
+++ b/src/qdlib/OGridPotential.cpp
@@ -80,7 +80,9 @@ namespace QDLIB
 	 return;
       }
       
-      
+      if (n <= 0)
+	 throw ( EParamProblem("Neither a file nor a grid is defined for the potential") );
+
       GridSystem::Dim(n);
       
       /* Get all the params from the ParamContainer */
-- 
2.43.0


From 2332d9c08526621a082951003e11472bf56e7939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:16 +0000
Subject: [PATCH 81/95] fix: more states than possible requested for a multi
 state wave function were written beyond its end

---
 src/qdlib/WFMultistate.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/qdlib/WFMultistate.cpp b/src/qdlib/WFMultistate.cpp
index d2e43ed..d01d002 100644
--- a/src/qdlib/WFMultistate.cpp
+++ b/src/qdlib/WFMultistate.cpp
@@ -127,6 +127,9 @@ namespace QDLIB
 
       if (wflast == NULL)
        throw (EParamProblem("Empty multi state wave function"));
+
+      if (reqsize > QD_MAX_STATES)
+       throw (EOverflow("More than QD_MAX_STATES not possible"));
       
       /* resize if needed */
       if (_nstates < reqsize){
-- 
2.43.0


From b7810a84d012b1c28c69e5cbd298eb3c307c1a41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:02 +0000
Subject: [PATCH 82/95] fix: the destructor of optimal control runs used an
 uninitialised pointer and an unchecked number of targets

---
 src/ProgOCT.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ProgOCT.cpp b/src/ProgOCT.cpp
index 7a7583c..4be2ae4 100644
--- a/src/ProgOCT.cpp
+++ b/src/ProgOCT.cpp
@@ -21,7 +21,7 @@ namespace QDLIB
       _octNode(OCTNode), _ContentNodes(NULL), _fname(DEFAULT_BASENAME_LASER), _dir(""),
                _iterations(DEFAULT_ITERATIONS), _convergence(DEFAULT_CONVERGENCE), _writel(false),
                _method(krotov), _coupling(dipole), _ttype(ov), _phase(false),
-               _ntargets(1), _mv(false), _alpha(1), _Gobbler(NULL), _opwf(NULL)
+               _ntargets(1), _mv(false), _alpha(1), _Coup(NULL), _Gobbler(NULL), _opwf(NULL)
    {
       for (int i = 0; i < MAX_TARGETS; i++) {
          PsiI[i] = NULL;
@@ -35,7 +35,7 @@ namespace QDLIB
       GlobalOpList::Instance().Clear();
       //DELETE_ALL_WF();
       DELETE_WF(_opwf);
-      for (int i=0; i < _ntargets; i++){
+      for (int i=0; i < MAX_TARGETS; i++){
          DELETE_WF(PsiI[i]);
          DELETE_WF(PsiT[i]);
       }
-- 
2.43.0


From e4c64dd0e540682d2551f5df62a26d64be6fc2ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:02 +0000
Subject: [PATCH 83/95] fix: integers out of range were read as other numbers

---
 src/tools/ParamContainer.cpp | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/tools/ParamContainer.cpp b/src/tools/ParamContainer.cpp
index 27705ff..4848697 100644
--- a/src/tools/ParamContainer.cpp
+++ b/src/tools/ParamContainer.cpp
@@ -8,6 +8,8 @@
 #include <string.h>
 #include <stdio.h>
 #include <stdlib.h>
+#include <errno.h>
+#include <limits.h>
 #include "ParamContainer.h"
 #include "tools/helpers.h"
 
@@ -167,8 +169,14 @@ namespace QDLIB {
    bool ParamContainer::GetValue(const string name, int &value)
    {
       if ( _param_map.find(name) != _param_map.end()){
-         if (sscanf( _param_map[name].c_str(), "%d", &value) != 1)
+         const char* text = _param_map[name].c_str();
+         char* end;
+
+         errno = 0;
+         long int number = strtol(text, &end, 10);
+         if (end == text || errno == ERANGE || number < INT_MIN || number > INT_MAX)
             throw (EParamProblem("Not a valid number", name));
+         value = number;
          return true;
       }
       else {
@@ -206,7 +214,12 @@ namespace QDLIB {
    bool ParamContainer::GetValue(const string name, long int &value)
    {
       if ( _param_map.find(name) != _param_map.end()){
-         if (sscanf( _param_map[name].c_str(), "%ld", &value) != 1)
+         const char* text = _param_map[name].c_str();
+         char* end;
+
+         errno = 0;
+         value = strtol(text, &end, 10);
+         if (end == text || errno == ERANGE)
             throw (EParamProblem("Not a valid number", name));
          return true;
       }
-- 
2.43.0


From 43a4bb54e3e1a64b936b7e52ec9e0433605748a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:33 +0000
Subject: [PATCH 84/95] fix: tables redirected to a file (nfile, yfile) that
 could not be written completely went unnoticed

---
 src/ProgOCT.cpp      |  4 ++--
 src/ProgPropa.cpp    |  6 +++++-
 src/tools/Logger.cpp | 10 ++++++++--
 src/tools/Logger.h   |  2 +-
 4 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/ProgOCT.cpp b/src/ProgOCT.cpp
index 4be2ae4..7346e00 100644
--- a/src/ProgOCT.cpp
+++ b/src/ProgOCT.cpp
@@ -1073,8 +1073,8 @@ namespace QDLIB
          log.flush();
          i++;
       } /* while (i < _iterations && delta > _convergence) */
-      if (_writeyield)
-         log.FileClose();
+      if (_writeyield && !log.FileClose())
+         throw ( EIOError("Can not write file", _yfile) );
 
       if (delta <= _convergence)
          log.cout() << endl << "Convergence reached" << endl;
diff --git a/src/ProgPropa.cpp b/src/ProgPropa.cpp
index 57ddcfa..0212454 100644
--- a/src/ProgPropa.cpp
+++ b/src/ProgPropa.cpp
@@ -164,11 +164,15 @@ namespace QDLIB {
    {
       Logger& log = Logger::InstanceRef();
 
+      bool written = true;
       if (_writenorm)
-         log.FileClose();
+         written = log.FileClose();
 
       _reporter.Finalize();
       _WriteMeta(Nt);
+
+      if (!written)
+         throw ( EIOError("Can not write file", _nfile) );
    }
 
 
diff --git a/src/tools/Logger.cpp b/src/tools/Logger.cpp
index fc44ef0..2c7256b 100644
--- a/src/tools/Logger.cpp
+++ b/src/tools/Logger.cpp
@@ -119,15 +119,21 @@ namespace QDLIB {
 
    /**
     * Close output file and switch back to console output.
+    *
+    * \return false if not everything could be written to the file.
     */
-   void Logger::FileClose()
+   bool Logger::FileClose()
    {
 #ifdef HAVE_MPI
-      if (MPI::COMM_WORLD.Get_rank() != 0) return;
+      if (MPI::COMM_WORLD.Get_rank() != 0) return true;
 #endif
       flush();
       _ofile.close();
+      bool written = !_ofile.fail();
+      _ofile.clear();
       _global_out = &std::cout;
+
+      return written;
    }
    
    
diff --git a/src/tools/Logger.h b/src/tools/Logger.h
index f8fefb7..d17dd2d 100644
--- a/src/tools/Logger.h
+++ b/src/tools/Logger.h
@@ -74,7 +74,7 @@ namespace QDLIB {
    
       void FileOutput (string& filename );
       
-      void FileClose();
+      bool FileClose();
       
       void SetRedirect (ostream &redirect);
       
-- 
2.43.0


From d06316dd13c77be37b1035add6d6273e43a539fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:51 +0000
Subject: [PATCH 85/95] fix: statements of the simple input language were
 mistranslated and errors in it went unnoticed

Assignments and attributes take effect in the order in which they are written,
values are escaped, loops run from begin to end, every input that is not a
complete program is reported and one translation does not influence the next.
---
 src/simpleXml/Simple2Xml.cpp       |  51 +++++--
 src/simpleXml/SyntacticTreeModel.h | 237 +++++++++++++++++++----------
 src/simpleXml/grammar.yy           |  82 +++++-----
 src/simpleXml/simpleXml.ll         |  17 ++-
 4 files changed, 242 insertions(+), 145 deletions(-)

diff --git a/src/simpleXml/Simple2Xml.cpp b/src/simpleXml/Simple2Xml.cpp
index 3c39c4a..0be8626 100644
--- a/src/simpleXml/Simple2Xml.cpp
+++ b/src/simpleXml/Simple2Xml.cpp
@@ -9,14 +9,19 @@
 #include <string.h>
 #include <fstream>
 #include <sstream>
+#include <map>
 #include "tools/Exception.h"
 
 #define CHUNK 1024
 
 int yyparse();
+void yyrestart(FILE* file);
+void ResetParser();
+bool ParserComplete();
 extern FILE* yyin;
 extern FILE* _yyout;
 extern stringstream ss_yy_buf;
+extern map<string, string> varlist;
 
 namespace QDSXML {
 
@@ -64,26 +69,19 @@ namespace QDSXML {
     */
    void Convert(const string & iname, const string & oname)
    {
-      /* Open input file */
-      yyin = fopen(iname.c_str(), "r");
-      
-      if (!yyin)
-         throw (QDLIB::EIOError(errno, iname) );
-      
+      string buf;
+      Parse(iname, buf);
+
       /* Open output file */
       std::ofstream of(oname.c_str(), std::ofstream::trunc);
-      //_yyout = fopen(oname.c_str(), "w");
-      
-      //if (!_yyout)
+
       if (! of.is_open())
          throw (QDLIB::EIOError(errno, oname) );
 
-      
-      yyparse();
-
-      of << ss_yy_buf.str();
-      //fclose(_yyout);
+      of << buf;
       of.close();
+      if (of.fail())
+         throw (QDLIB::EIOError("Can not write file", oname) );
    }
 
    /**
@@ -97,8 +95,29 @@ namespace QDSXML {
       if (!yyin)
          throw (QDLIB::EIOError(errno, iname) );
 
-      yyparse();
+      map<string, string> vars = varlist; /* definitions of the text are only valid there */
+
+      try {
+         ResetParser();
+         yyrestart(yyin);
+
+         if (yyparse() != 0)
+            throw (QDLIB::EParamProblem("Input can not be parsed", iname) );
+         if (ferror(yyin))
+            throw (QDLIB::EIOError("Can't read from file: ", iname) );
+         if (!ParserComplete())
+            throw (QDLIB::EParamProblem("Missing closing brace", iname) );
+
+         buf = ss_yy_buf.str();
+         if (buf.empty())
+            throw (QDLIB::EParamProblem("Input is empty", iname) );
+      } catch (...) {
+         fclose(yyin);
+         varlist = vars;
+         throw;
+      }
 
-      buf = ss_yy_buf.str();
+      fclose(yyin);
+      varlist = vars;
    }
 }
diff --git a/src/simpleXml/SyntacticTreeModel.h b/src/simpleXml/SyntacticTreeModel.h
index aa9da65..303e430 100644
--- a/src/simpleXml/SyntacticTreeModel.h
+++ b/src/simpleXml/SyntacticTreeModel.h
@@ -13,36 +13,41 @@
 #define SYNTACTICTREEMODEL_H_
 
 #include "tools/Exception.h"
-#include <math.h>
-
-#define SIMPLEXML_BUF_SIZE 1024
+#include <cmath>
+#include <errno.h>
+#include <limits.h>
+#include <stdarg.h>
+#include <stdio.h>
+#include <stdlib.h>
+#include <map>
+#include <ostream>
 
 map<string, string> varlist;
 
 
 int Str2Int(const char* s){
-   int val, ret;
-   ret = sscanf(s, "%d", &val);
-   if (ret <= 0)
+   char* end;
+   errno = 0;
+   long int val = strtol(s, &end, 10);
+   if (end == s || *end != 0 || errno == ERANGE || val < INT_MIN || val > INT_MAX)
      throw (QDLIB::EParamProblem("Not an integer number", s));
    return val;
 }
 
-int Str2Int(string& s){
+int Str2Int(const string& s){
    return Str2Int(s.c_str());
 }
 
 double Str2Double(const char* s){
-   double val;
-   int ret;
-   ret = sscanf(s, "%lf", &val);
-   if (ret <= 0)
+   char* end;
+   double val = strtod(s, &end);
+   if (end == s || *end != 0 || !std::isfinite(val))
      throw (QDLIB::EParamProblem("Not an floating point number", s));
    return val;
 }
 
 
-double Str2Double(string& s){
+double Str2Double(const string& s){
    return Str2Double(s.c_str());
 }
 
@@ -86,49 +91,65 @@ class varstring
 
       void AppendVar(const char *s, const char *fmt = "%s")
       {
+         /* The format has to be exactly one conversion */
+         string f(fmt);
+         size_t pos = f.find_first_not_of("0123456789", 1);
+         if (pos != string::npos && f[pos] == '.') pos = f.find_first_not_of("0123456789", pos + 1);
+         if (pos == string::npos || pos + 1 != f.length() || f[pos] == '.')
+            throw (QDLIB::EParamProblem("Invalid format", f));
+
          seqlist.push_back(string(s));
          seqtype.push_back(var);
-         fmtlist.push_back(string(fmt));
+         fmtlist.push_back(f);
       }
 
-      string& GetString()
+      /**
+       * Value of the string with the current values of the variables.
+       */
+      string GetString() const
       {
-         string *s = new string();
+         string res;
          for (size_t i = 0; i < seqlist.size(); i++) {
-            if (seqtype[i] == str)
-               *s += seqlist[i];
-            else
-               *s += varlist[seqlist[i]];
-         }
-         return *s;
-      }
+            if (seqtype[i] == str) {
+               res += seqlist[i];
+               continue;
+            }
 
-      void print()
-      {
-	 char buf[SIMPLEXML_BUF_SIZE];
-         for (size_t i = 0; i < seqlist.size(); i++) {
-            if (seqtype[i] == str)
-               snprintf(buf, SIMPLEXML_BUF_SIZE, fmtlist[i].c_str(), seqlist[i].c_str());
-            else {
-               string& s = fmtlist[i];
-               char& fmt = s[s.length() - 1];
-               switch (fmt) {
-                  case 'd':
-                     snprintf(buf, SIMPLEXML_BUF_SIZE, fmtlist[i].c_str(), Str2Int(varlist[seqlist[i]]));
-                     break;
-                  case 'f':
-                    snprintf(buf, SIMPLEXML_BUF_SIZE, fmtlist[i].c_str(), Str2Double(varlist[seqlist[i]]));
-
-                     break;
-                  case 's':
-                  default:
-                    snprintf(buf, SIMPLEXML_BUF_SIZE, fmtlist[i].c_str(), varlist[seqlist[i]].c_str());
-                     break;
-               }
+            map<string, string>::const_iterator it = varlist.find(seqlist[i]);
+            if (it == varlist.end())
+               throw (QDLIB::EParamProblem("Unknown variable", seqlist[i]));
+
+            const string& fmt = fmtlist[i];
+            switch (fmt[fmt.length() - 1]) {
+               case 'd':
+                  res += Format(fmt.c_str(), Str2Int(it->second));
+                  break;
+               case 'f':
+                  res += Format(fmt.c_str(), Str2Double(it->second));
+                  break;
+               default:
+                  res += Format(fmt.c_str(), it->second.c_str());
+                  break;
             }
-            ss_yy_buf << buf;
          }
+         return res;
+      }
 
+   private:
+      static string Format(const char* fmt, ...)
+      {
+         va_list args;
+         va_start(args, fmt);
+         int len = vsnprintf(NULL, 0, fmt, args);
+         va_end(args);
+         if (len < 0)
+            throw (QDLIB::EParamProblem("Invalid format", fmt));
+
+         vector<char> buf(len + 1);
+         va_start(args, fmt);
+         vsnprintf(&buf[0], len + 1, fmt, args);
+         va_end(args);
+         return string(&buf[0], len);
       }
 };
 
@@ -167,19 +188,24 @@ class block
       /**
        * print an indentation
        */
-      void Indent()
+      void Indent(ostream& out)
       {
          for (int i=0; i < depth; i++)
-           ss_yy_buf << "   ";
+           out << "   ";
       }
 
+      /**
+       * Belongs into the opening tag.
+       */
+      virtual bool isAttribute() { return false; }
+
       /**
        * Execute/Run the translation.
        */
-      virtual void execute()
+      virtual void execute(ostream& out)
       {
          for (uint i = 0; i < children.size(); i++)
-            children[i]->execute();
+            children[i]->execute(out);
       }
 
       virtual ~block()
@@ -190,6 +216,57 @@ class block
 
 };
 
+/**
+ * The definition of a variable.
+ */
+class assignment: public block
+{
+   private:
+      string name;
+      varstring value;
+   public:
+      assignment(const char* s, const varstring& val) : name(s), value(val) {}
+
+      virtual void execute(ostream& out)
+      {
+         varlist[name] = value.GetString();
+      }
+};
+
+/**
+ * An attribute of an xml node.
+ */
+class attribute: public block
+{
+   private:
+      string name;
+      varstring value;
+   public:
+      attribute(const char* s, const varstring& val) : name(s), value(val) {}
+
+      virtual bool isAttribute() { return true; }
+
+      virtual void execute(ostream& out)
+      {
+         string s = value.GetString();
+
+         out << " " << name << "=\"";
+         for (size_t i = 0; i < s.length(); i++) {
+            switch (s[i]) {
+               case '<': out << "&lt;"; break;
+               case '>': out << "&gt;"; break;
+               case '&': out << "&amp;"; break;
+               case '"': out << "&quot;"; break;
+               case '\t': out << "&#9;"; break;
+               case '\n': out << "&#10;"; break;
+               case '\r': out << "&#13;"; break;
+               default: out << s[i];
+            }
+         }
+         out << "\"";
+      }
+};
+
 /**
  * Block representing a for loop.
  */
@@ -236,17 +313,26 @@ class forloop: public block
          loopvar = var;
       }
 
-      virtual void execute()
+      virtual void execute(ostream& out)
       {
-         Indent();
-         ss_yy_buf << "<!-- for " << loopvar << " = " << begin << " " << end << " " << step << " -->\n";
-         double d = begin;
-         for (uint i=0; i <= int(fabs((begin-end)/step)); i++){
+         if (step == 0)
+            throw (QDLIB::EParamProblem("Step of the loop is zero", loopvar));
+
+         /* The number of steps must not suffer from rounding */
+         double steps = floor(fabs((end-begin)/step) * (1 + 1e-12) + 1e-9);
+         if (!(steps < INT_MAX))
+            throw (QDLIB::EParamProblem("Too many steps of the loop", loopvar));
+
+         Indent(out);
+         out << "<!-- for " << loopvar << " = " << begin << " " << end << " " << step << " -->\n";
+         double inc = end < begin ? -fabs(step) : fabs(step);
+         for (int i=0; i <= int(steps); i++){
             char s[64];
-            sprintf(s, "%g", d);
+            double d = begin + i*inc;
+            if (fabs(d) < fabs(inc) * 1e-9) d = 0;
+            snprintf(s, sizeof(s), "%.12g", d);
             varlist[loopvar] = s;
-            block::execute();
-            d += step;
+            block::execute(out);
          }
       }
 };
@@ -257,8 +343,6 @@ class forloop: public block
 class xmlnode: public block
 {
    private:
-      vector<varstring> attributes;
-      vector<varstring> values;
       string name;
    public:
       xmlnode(char *s) :
@@ -269,31 +353,26 @@ class xmlnode: public block
       {
          name = s;
       }
-      void AddAttribute(varstring &attr, varstring &val)
-      {
-         attributes.push_back(attr);
-         values.push_back(val);
-      }
 
-      virtual void execute()
+      virtual void execute(ostream& out)
       {
-         Indent();
-         ss_yy_buf << "<" << name;
-         for (uint i = 0; i < attributes.size(); i++) {
-            ss_yy_buf << " ";
-            attributes[i].print();
-            ss_yy_buf << "=\"";
-            values[i].print();
-            ss_yy_buf << "\"";
+         stringstream content;
+
+         Indent(out);
+         out << "<" << name;
+         for (uint i = 0; i < children.size(); i++) {
+            if (children[i]->isAttribute())
+               children[i]->execute(out);
+            else
+               children[i]->execute(content);
          }
 
-         if (children.size() > 0) {
-            ss_yy_buf << ">\n";
-            block::execute();
-            Indent();
-            ss_yy_buf << "</" << name << ">\n";
+         if (content.str().length() > 0) {
+            out << ">\n" << content.str();
+            Indent(out);
+            out << "</" << name << ">\n";
          } else
-	    ss_yy_buf << "/>\n";
+            out << "/>\n";
       }
 };
 
diff --git a/src/simpleXml/grammar.yy b/src/simpleXml/grammar.yy
index e20c167..f73bb0d 100644
--- a/src/simpleXml/grammar.yy
+++ b/src/simpleXml/grammar.yy
@@ -53,40 +53,6 @@ block *level = NULL;
 varstring *vstr = NULL;
 
 
-char* EscapeString(const char* s)
-{
-	char* es = (char*) malloc(strlen(s)*6+1);
-	char* scpy = es;
- 	for(size_t i=0; i < strlen(s); i++){
- 		switch(s[i]) {
- 		 	case '<':
- 		 	 		 *scpy = '&';scpy++;
- 		 	 		 *scpy = 'l';scpy++;
- 		 	 		 *scpy = 't';scpy++;
- 		 	 		 *scpy = ';';scpy++;
- 		 	 		 break;
- 		 	case '>':
- 		 	 		 *scpy = '&';scpy++;
- 		 	 		 *scpy = 'g';scpy++;
- 		 	 		 *scpy = 't';scpy++;
- 		 	 		 *scpy = ';';scpy++;
- 		 	 		 break;
- 		 	case '&':
- 		 	 		 *scpy = '&';scpy++;
- 		 	 		 *scpy = 'a';scpy++;
- 		 	 		 *scpy = 'm';scpy++;
- 		 	 		 *scpy = 'p';scpy++;
- 		 	 		 *scpy = ';';scpy++;
- 		 	 		 break;
- 		 	default:
-    				*scpy = s[i];	
- 					scpy++;
- 		}
- 	}
- 	*scpy = 0;
- 	return es;
-}
-
 void AppendStr(const char* s)
 {
 	if (vstr == NULL) vstr = new varstring(s);
@@ -99,6 +65,26 @@ void AppendVar(const char* s, const char* fmt = "%s")
 	vstr->AppendVar(s,fmt);
 }
 
+/* Forget everything about previously translated text */
+void ResetParser()
+{
+	delete root;
+	root = NULL;
+	level = NULL;
+	delete vstr;
+	vstr = NULL;
+	indent = 0;
+	line_num = 1;
+	ss_yy_buf.str("");
+	ss_yy_buf.clear();
+}
+
+/* Everything that was opened is closed */
+bool ParserComplete()
+{
+	return level == NULL;
+}
+
 void CheckRoot()
 {
       if (root == NULL) {
@@ -117,7 +103,7 @@ void CheckRoot()
 
 %locations
 %error-verbose
-%token <sval> TOKID QSTRING BEGINSEC ENDSEC EQUAL QUOTE COMMENT VARDEF VAREXP FOR CONCAT FMT
+%token <sval> TOKID QSTRING BEGINSEC ENDSEC EQUAL QUOTE VARDEF VAREXP FOR CONCAT FMT
 %type <sval> strexp 
 %left CONCAT
 
@@ -126,11 +112,14 @@ lines:
 	| lines line
 ;
 line:
-   COMMENT { }
-   |
    VARDEF EQUAL strexp
    {
-      varlist[string($1)] = $3;
+      assignment *node = new assignment($1, *vstr);
+      if (level == NULL) {
+         node->execute(ss_yy_buf);
+         delete node;
+      } else
+         level->AddChild(node);
       delete vstr;
       vstr = NULL;
    }
@@ -184,21 +173,22 @@ line:
          err = ss.str();
          yyerror(err.c_str());
       }
-      varstring attr($1);
-      node->AddAttribute(attr, *vstr);
+      node->AddChild(new attribute($1, *vstr));
       delete vstr;
       vstr = NULL;
    }
    |
 	ENDSEC
 	{        
+             if (level == NULL || level->Parent() == NULL)
+             	throw (QDLIB::EParamProblem("Too many closing braces!"));
              indent--;
              level = level->Parent();
-             if (level == NULL) 
-             	throw (QDLIB::EParamProblem("Too many closing braces!"));
              if (indent == 0){
-                root->execute();
+                root->execute(ss_yy_buf);
                 delete root;
+                root = NULL;
+                level = NULL;
              }
 	}
    | error
@@ -212,9 +202,9 @@ line:
 ;
 strexp:
 	TOKID { AppendStr($1); }
-	| QSTRING { char* es=EscapeString($1); AppendStr(es);  free(es);}
-	| VAREXP { AppendVar(strdup(string($1).c_str())); }	
-	| VAREXP FMT { AppendVar(strdup(string($1).c_str()),$2); }
+	| QSTRING { AppendStr($1); }
+	| VAREXP { AppendVar($1); }	
+	| VAREXP FMT { AppendVar($1,$2); }
 	| strexp CONCAT strexp { }
 ;	
 	
diff --git a/src/simpleXml/simpleXml.ll b/src/simpleXml/simpleXml.ll
index ea3df16..9379a8e 100644
--- a/src/simpleXml/simpleXml.ll
+++ b/src/simpleXml/simpleXml.ll
@@ -1,6 +1,11 @@
 %{
 #include "grammar.hh"
 #include "stdio.h"
+#include <string>
+
+using namespace std;
+
+void yyerror(const char *str);
 
 /* Helper for line numbers */
 #define YY_USER_INIT yylloc.first_line=1;
@@ -8,7 +13,7 @@ extern int line_num;
 %}
 
 %%
-[#].*$                    yylval.sval=strdup(yytext);  return COMMENT;
+[#].*                     ;
 for                       yylval.sval=strdup(yytext);  return FOR;
 $[a-zA-Z0-9_]+            {
 		             yylval.sval=strdup(yytext+1);
@@ -21,8 +26,8 @@ $\([a-zA-Z0-9_]+\)        {
 			     return VAREXP;
 			  }
 \%[0-9.fds]+		  yylval.sval=strdup(yytext); return FMT;
-[a-zA-Z0-9.\-_:]+         yylval.sval=strdup(yytext); return TOKID;
-\"[a-zA-Z0-9\-.,/_+:;#°% \t~\<\>\^\&]+\"	 {  
+[a-zA-Z0-9.\-_:,]+        yylval.sval=strdup(yytext); return TOKID;
+\"[^\"\n\0]*\"	 {  
 		             yylval.sval=strdup(yytext+1);
 		             yylval.sval[yyleng-2] = 0;			 
 			     return QSTRING;
@@ -33,6 +38,10 @@ $\([a-zA-Z0-9_]+\)        {
 \"		return QUOTE;
 \~		return CONCAT;
 \n yylloc.first_line++; line_num++;
-[ \t] ;
+[ \t\r] ;
+.               {
+                   string err = string("Unexpected character: ") + yytext;
+                   yyerror(err.c_str());
+                }
 %%
 
-- 
2.43.0


From a0c9faf93d207c3dd817e5f6b1b424733ccdfb5a Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 03:36:23 +0000
Subject: [PATCH 86/95] fix: energy ranges of products, projections, Raman
 couplings, kicks and second derivatives did not enclose the spectrum

---
 src/qdlib/OGridHOFD.cpp  | 16 ++++++++++++--
 src/qdlib/OGridKick.h    |  4 ++--
 src/qdlib/OGridRaman.cpp |  8 +++++--
 src/qdlib/OProduct.cpp   | 46 +++++++++++++++++++++++++++++-----------
 src/qdlib/OProduct.h     |  2 ++
 src/qdlib/OProjection.h  |  5 +++--
 6 files changed, 61 insertions(+), 20 deletions(-)

diff --git a/src/qdlib/OGridHOFD.cpp b/src/qdlib/OGridHOFD.cpp
index 0455ff9..8072a97 100644
--- a/src/qdlib/OGridHOFD.cpp
+++ b/src/qdlib/OGridHOFD.cpp
@@ -101,6 +101,9 @@ namespace QDLIB {
       if (_deriv == 1)
          return dcomplex(0, _pfac * M_PI/GridSystem::Dx(0) );
       else {
+         if (!_params.isPresent("mass"))
+            return dcomplex(0); /* second derivative */
+
          double T = 0;
          for (int i = 0; i < GridSystem::Dim(); i++)
             if (_mass[i] > 0)
@@ -115,8 +118,17 @@ namespace QDLIB {
    {
       if (_deriv == 1)
          return dcomplex(0, -_pfac * M_PI/GridSystem::Dx(0) );
-      else
-         return dcomplex(0);
+      else {
+         if (_params.isPresent("mass"))
+            return dcomplex(0);
+
+         double d = 0;
+         for (int i = 0; i < GridSystem::Dim(); i++)
+            if (_dim == -1 || _dim == i)
+               d += 1 / (GridSystem::Dx(i) * GridSystem::Dx(i));
+
+         return dcomplex(-d * M_PI * M_PI);
+      }
    }
 
    void OGridHOFD::Apply(WaveFunction* destPsi, WaveFunction* sourcePsi)
diff --git a/src/qdlib/OGridKick.h b/src/qdlib/OGridKick.h
index 363cb9a..dfa7300 100644
--- a/src/qdlib/OGridKick.h
+++ b/src/qdlib/OGridKick.h
@@ -43,9 +43,9 @@ namespace QDLIB {
 
             virtual void UpdateTime(){}
 
-	    virtual dcomplex Emax() {return dcomplex(0);}
+	    virtual dcomplex Emax() {return dcomplex(1);}
 
-	    virtual dcomplex Emin() {return dcomplex(0);}
+	    virtual dcomplex Emin() {return dcomplex(-1);}
 
             virtual void Apply(WaveFunction *destPsi, WaveFunction *sourcePsi);
 
diff --git a/src/qdlib/OGridRaman.cpp b/src/qdlib/OGridRaman.cpp
index be72cb8..1194ca6 100644
--- a/src/qdlib/OGridRaman.cpp
+++ b/src/qdlib/OGridRaman.cpp
@@ -36,12 +36,16 @@ namespace QDLIB {
 
    dcomplex OGridRaman::Emax()
    {
-      return dcomplex(0.5 * VecMax( *((dVec*) this) ) * VecMax( (dVec&) *GetLaser(0) ) * VecMax( (dVec&) *GetLaser(1) ));
+      double alpha = fmax(fabs(VecMin( *((dVec*) this) )), fabs(VecMax( *((dVec*) this) )));
+      double e1 = fmax(fabs(VecMin( (dVec&) *GetLaser(0) )), fabs(VecMax( (dVec&) *GetLaser(0) )));
+      double e2 = fmax(fabs(VecMin( (dVec&) *GetLaser(1) )), fabs(VecMax( (dVec&) *GetLaser(1) )));
+
+      return dcomplex(0.5 * alpha * e1 * e2);
    }
 
    dcomplex OGridRaman::Emin()
    {
-      return dcomplex(0);
+      return -1 * OGridRaman::Emax();
    }
 
    void OGridRaman::Apply(WaveFunction *destPsi, WaveFunction *sourcePsi)
diff --git a/src/qdlib/OProduct.cpp b/src/qdlib/OProduct.cpp
index 87b5809..8baa819 100644
--- a/src/qdlib/OProduct.cpp
+++ b/src/qdlib/OProduct.cpp
@@ -3,6 +3,7 @@
 // SPDX-License-Identifier: gpl-3-only
 
 #include "OProduct.h"
+#include <cmath>
 #include "OScalar.h"
 #include "OGridPotential.h"
 #include "OGridPosition.h"
@@ -38,24 +39,45 @@ namespace QDLIB {
        return d;
     }
 
+    /**
+     * Multiply the energy ranges of the factors.
+     */
+    void OProduct::_Range(dcomplex &min, dcomplex &max)
+    {
+       min = 1;
+       max = 1;
+
+       for (int i=Size()-1; i >= 0; i--) {
+          dcomplex a = Get(i)->Emin();
+          dcomplex b = Get(i)->Emax();
+
+          if (a.imag() == 0 && b.imag() == 0 && min.imag() == 0 && max.imag() == 0) {
+             double p[4] = { min.real() * a.real(), min.real() * b.real(), max.real() * a.real(), max.real() * b.real() };
+             min = dcomplex(fmin(fmin(p[0], p[1]), fmin(p[2], p[3])));
+             max = dcomplex(fmax(fmax(p[0], p[1]), fmax(p[2], p[3])));
+          } else {
+             min *= a;
+             max *= b;
+          }
+       }
+    }
+
     dcomplex OProduct::Emax()
     {
-       dcomplex val(1);
-       
-       for (int i=Size()-1; i >= 0; i--)
-          val *= Get(i)->Emax();
-       
-       return val;
+       dcomplex min, max;
+
+       _Range(min, max);
+
+       return max;
     }
 
     dcomplex OProduct::Emin()
     {
-       dcomplex val(1);
-       
-       for (int i=Size()-1; i >= 0; i--)
-          val *= Get(i)->Emin();
-       
-       return val;
+       dcomplex min, max;
+
+       _Range(min, max);
+
+       return min;
     }
 
     /**
diff --git a/src/qdlib/OProduct.h b/src/qdlib/OProduct.h
index f7f6229..9bd7439 100644
--- a/src/qdlib/OProduct.h
+++ b/src/qdlib/OProduct.h
@@ -22,6 +22,8 @@ namespace QDLIB {
          string _name;
 
          Operator* _Factor(int i);
+
+         void _Range(dcomplex &min, dcomplex &max);
       protected:
          virtual void _UpdateFlags();
       public:
diff --git a/src/qdlib/OProjection.h b/src/qdlib/OProjection.h
index fc3236c..7258970 100644
--- a/src/qdlib/OProjection.h
+++ b/src/qdlib/OProjection.h
@@ -60,9 +60,10 @@ namespace QDLIB {
    
 	 virtual void UpdateTime(){};
 	    
-	 virtual dcomplex Emax() {return 1;}
+         /* The states are expected to be orthonormal */
+	 virtual dcomplex Emax() {return _inv ? fmax(1, 1 - _sign) : fmax(0, _sign);}
 	    
-	 virtual dcomplex Emin() {return 0;}
+	 virtual dcomplex Emin() {return _inv ? fmin(1, 1 - _sign) : fmin(0, _sign);}
 	    
 	 virtual void Apply(WaveFunction *destPsi, WaveFunction *sourcePsi);
 	    
-- 
2.43.0


From 637c4ee0a51ca9c65c0ec0af578444cc0dd50f88 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 03:47:21 +0000
Subject: [PATCH 87/95] fix: correlation functions with an explicit bra were
 one point late, took the operators before the propagation for the signal
 mode, and a stored propagation could not be read

---
 src/ProgCfun.cpp | 179 +++++++++++++++++++++--------------------------
 src/ProgCfun.h   |   6 +-
 2 files changed, 81 insertions(+), 104 deletions(-)

diff --git a/src/ProgCfun.cpp b/src/ProgCfun.cpp
index 3f38afa..edcd682 100644
--- a/src/ProgCfun.cpp
+++ b/src/ProgCfun.cpp
@@ -22,7 +22,7 @@ namespace QDLIB
 
   ProgCfun::ProgCfun (XmlNode& CfunNode) :
       CfunNode_(CfunNode), ContentNodes_(NULL), dir_(""), fname_(QD_CFUN_FNAME),
-      stepsint_(0), U_(NULL), H_(NULL), ket_first_op_(0), bra_first_op_(0), num_u_(0), wcycle_(1)
+      stepsint_(0), U_(NULL), H_(NULL), num_u_(0), wcycle_(1)
   {
   }
 
@@ -102,11 +102,10 @@ namespace QDLIB
     log.IndentDec();
   }
 
-  int ProgCfun::ReadKetBra(const string& name, vector<Operator*>& kb )
+  void ProgCfun::ReadKetBra(const string& name, vector<Operator*>& kb )
   {
     Logger& log = Logger::InstanceRef();
     XmlNode* section = ContentNodes_->FindNode( name );
-    int first_op = -1; int i=0;
 
     if (section != NULL) {
       log.Header( "Read definiton for " + name, Logger::SubSection);
@@ -120,18 +119,36 @@ namespace QDLIB
 	      kb.push_back(NULL);  /* empty defintion means propgator*/
 	      num_u_++;
 	  } else {
-	      if (first_op < 0) first_op = i;
 	      kb.push_back( ChainLoader::LoadOperatorChain( child ) );
 	  }
-	  i++;
 	  child->NextNode();
       }
 
       delete section;
       log.IndentDec();
     }
+  }
+
+  /**
+   * Find the first element after the n-th propagator.
+   */
+  size_t ProgCfun::AfterPropagator(const vector<Operator*>& ops, int n)
+  {
+    size_t pos = 0;
+
+    while (n > 0 && pos < ops.size())
+      if (ops[pos++] == NULL) n--;
 
-    return first_op;
+    return pos;
+  }
+
+  /**
+   * Apply the operators from the given position up to the next propagator.
+   */
+  void ProgCfun::ApplyOperators(const vector<Operator*>& ops, size_t pos, WaveFunction* psi)
+  {
+    for (; pos < ops.size() && ops[pos] != NULL; pos++)
+      ops[pos]->Apply(psi);
   }
 
   void ProgCfun::CreateMetaData(int dims, ParamContainer &pm)
@@ -145,32 +162,10 @@ namespace QDLIB
   WaveFunction* ProgCfun::InitializeKetBra(bool bra)
   {
     WaveFunction* psi_t = Psi0->NewInstance();
-    int first_op = ket_first_op_;
-    vector<Operator*>* ops = &ket_;
-
-    if (bra) {
-      first_op = bra_first_op_;
-      ops = &bra_;
-    }
 
-    if ((*ops)[0] != NULL) {
-      /* apply operator list before propagating */
-      *psi_t = Psi0;
-      for (size_t i=0; i < ops->size(); i++) {
-         if ((*ops)[i] == NULL) {
-             first_op++;
-             break;
-         }
-         (*ops)[i]->Apply(psi_t);
-         first_op++;
-      }
-    } else {
-      *psi_t = Psi0;
-    }
-
-    if (bra) {
-      bra_first_op_ = first_op;
-    }
+    /* apply operator list before propagating */
+    *psi_t = Psi0;
+    ApplyOperators(bra ? bra_ : ket_, 0, psi_t);
 
     return psi_t;
   }
@@ -202,31 +197,31 @@ namespace QDLIB
 	bra = InitializeKetBra(true);
     }
 
+    size_t first_op = AfterPropagator(ket_, 1);
+    if (AfterPropagator(ket_, 2) != ket_.size() || first_op == ket_.size())
+	throw(EParamProblem("Wrong number of propagators in ket/bra definitions!"));
+
     master_clock_.Begin();
     for (int t=0; t < master_clock_.Steps()/wcycle_; t++){
 	WaveFunction* ket = wfbuffer.Get(t);
 	*psi_t = ket;
 
 	master_clock_.TimeStep(t * wcycle_); // make sure time dependent ops are in sync
-	for (uint i=ket_first_op_; i < ket_.size(); i++){
-	    if (ket_[i] != NULL){
-		ket_[i]->Apply(psi_t);
-	    } else
-	      break;
-	}
+	ApplyOperators(ket_, first_op, psi_t);
 
 	if ( bra == NULL) {
 	    cfun[t] = *ket * psi_t;
 	} else {
-	    for (int tb=0; tb < wcycle_; tb++) {
+	    cfun[t] = *bra * psi_t;
+	    for (int tb=0; tb < wcycle_; tb++) { // to the next point in time
 		U_->Apply(bra);
 		++master_clock_;
 	    }
-	    cfun[t] = *bra * psi_t;
 	}
     }
 
     DELETE_WF(psi_t);
+    if (bra != NULL) DELETE_WF(bra);
 
     log.cout() << "Write correlation function\n";
     /* Write correlation function to file */
@@ -234,7 +229,7 @@ namespace QDLIB
     CreateMetaData(1, cfun.Params());
 
     file.Format(FileSingle<Cfunc>::binary);
-    file.Name(dir_ + "Cfun_1");
+    file.Name(dir_ + fname_ + "_1");
     file.Suffix(".cf");
     file.WriteSingleFileToRaw(&cfun);
   }
@@ -274,23 +269,13 @@ namespace QDLIB
     log.flush();
 
 
-    // find the first operators after the first U in ket and bra
-    uint nUket = 0; uint first_ket = 0;
-    for (uint i=0; i < ket_.size(); i++){
-	if ( ket_[i] == NULL ) {
-	    nUket++;
-	} else
-	    if (nUket == 1) first_ket = i;
-    }
+    uint nUket = 0;
+    for (uint i=0; i < ket_.size(); i++)
+	if ( ket_[i] == NULL ) nUket++;
 
-    uint nUbra = 0; uint first_bra = 0;
-    if (bra != NULL)
-	for (uint i=0; i < bra_.size(); i++){
-	    if ( bra_[i] == NULL ) {
-		nUbra++;
-	    } else
-		if (nUbra == 1) first_bra = i;
-	}
+    uint nUbra = 0;
+    for (uint i=0; i < bra_.size(); i++)
+	if ( bra_[i] == NULL ) nUbra++;
 
     // figure out which variant to use
     bool lhsint = false; // case a = true, b = false
@@ -301,40 +286,25 @@ namespace QDLIB
     else
 	throw(EParamProblem("Wrong number of propagators in ket/bra definitions!"));
 
+    // find the first operators after the first U in ket and bra and the signal mode operator
+    size_t first_ket = AfterPropagator(ket_, 1);
+    size_t first_bra = AfterPropagator(bra_, 1);
+    size_t ketsigop = AfterPropagator(ket_, nUket);
+
     master_clock_.Begin();
     for (int t1=0; t1 < Nt; t1++){
 	master_clock_.TimeStep(t1*wcycle_);
 	if (lhsint) {
 	    *psi_t_k = wfbuffer.Get(t1); // U|Psi0>
-	    for (uint i=first_ket; i < ket_.size(); i++){ // O1 U|Psi0>
-		if (ket_[i] != NULL){
-		    ket_[i]->Apply(psi_t_k);
-		} else
-		  break;
-	    }
+	    ApplyOperators(ket_, first_ket, psi_t_k); // O1 U|Psi0>
 	}
 
-	// Propagate independent bra side
-	if (bra != NULL){
-	    int step = master_clock_.TimeStep();
-	    for (int i=0; i < wcycle_; i++) {
-		U_->Apply(bra);
-		++master_clock_;
-	    }
+	if (bra != NULL)
 	    *psi_t_b = bra;
-	    master_clock_.TimeStep(step); // restore time step
-	}
 
-	if (!lhsint) {
-	    for (uint i=first_bra; i < bra_.size(); i++){ //  <Psi0|U+ O1
-		if (bra_[i] != NULL){
-		    bra_[i]->Apply(psi_t_b);
-		} else
-		  break;
-	    }
-	}
+	if (!lhsint)
+	    ApplyOperators(bra_, first_bra, psi_t_b); //  <Psi0|U+ O1
 
-	master_clock_.TimeStep(t1*wcycle_);
 	for (int t2=t1; t2 < Nt; t2++){
 	    if (bra == NULL) {	// Two ops on the ket side, no definition for bra side
 		*psi_t_b = wfbuffer.Get(t2);
@@ -346,16 +316,7 @@ namespace QDLIB
 
 	    // Signal interaction on ket
 	    *psi_t_s = psi_t_k;
-	    int ketsigop = first_ket+2;
-	    if (!lhsint)
-		ketsigop = first_ket;
-
-	    for (uint i=ketsigop; i < ket_.size(); i++){
-		if (ket_[i] != NULL){
-		    ket_[i]->Apply(psi_t_s);
-		} else
-		  break;
-	    }
+	    ApplyOperators(ket_, ketsigop, psi_t_s);
 
 	    if (lhsint)
 		cfun[t1*Nt+t2] = *psi_t_b * psi_t_s;
@@ -372,10 +333,21 @@ namespace QDLIB
 	    ++master_clock_;
 	  }
 	}
+
+	// Propagate independent bra side to the next point in time
+	if (bra != NULL){
+	    master_clock_.TimeStep(t1*wcycle_);
+	    for (int i=0; i < wcycle_; i++) {
+		U_->Apply(bra);
+		++master_clock_;
+	    }
+	}
     }
 
     DELETE_WF(psi_t_k);
+    DELETE_WF(psi_t_s);
     DELETE_WF(psi_t_b);
+    if (bra != NULL) DELETE_WF(bra);
 
     log.cout() << "Write correlation function\n";
     /* Write correlation function to file */
@@ -383,7 +355,7 @@ namespace QDLIB
     CreateMetaData(2, cfun.Params());
 
     file.Format(FileSingle<Cfunc>::binary);
-    file.Name(dir_ + "Cfun_2");
+    file.Name(dir_ + fname_ + "_2");
     file.Suffix(".cf");
     file.WriteSingleFileToRaw(&cfun);
   }
@@ -434,22 +406,27 @@ namespace QDLIB
 
 	int Nt, wcycle;
 	double dt;
+	string name;
 	propagation_meta.GetValue("Nt", Nt);
-	propagation_meta.GetValue("wcycle", wcycle);
+	propagation_meta.GetValue("Wcycle", wcycle);
 	propagation_meta.GetValue("dt", dt);
+	propagation_meta.GetValue("WFBaseName", name);
+
+	if (Nt < 1 || wcycle < 1 || dt == 0)
+	    throw(EParamProblem("Invalid propagation meta file"));
 
 	master_clock_.Dt(dt);
 	master_clock_.Steps(Nt);
 	wcycle_ = wcycle;		/* use wcycle from propagation */
 
 	/* Read propagation */
-	wfbuffer.ReadFromFiles(read_dir_);
+	wfbuffer.ReadFromFiles(read_dir_ + "/" + name);
 
-	if (wfbuffer.Size() < uint(Nt/wcycle) ) master_clock_.Steps(wfbuffer.Size());
-	if (wfbuffer.Size() < 1 )
-	  throw (EParamProblem("Wave function buffer is empty"));
+	if (wfbuffer.Size() < uint(Nt/wcycle) ) master_clock_.Steps(wfbuffer.Size() * wcycle);
 
-	Psi0 = wfbuffer[0];
+	WaveFunction* first = wfbuffer.Get(0);
+	Psi0 = first->NewInstance();
+	*Psi0 = first;
     }
 
     log.IndentDec();
@@ -462,13 +439,13 @@ namespace QDLIB
     H_->UpdateTime();
 
     /* Get defintion for bra */
-    bra_first_op_ = ReadKetBra("bra", bra_);
+    ReadKetBra("bra", bra_);
     for (uint i=0; i < bra_.size(); i++) {
 	if (bra_[i] != NULL) bra_[i]->Init(Psi0);
     }
 
     /* Get defintion for ket */
-    ket_first_op_ = ReadKetBra("ket", ket_);
+    ReadKetBra("ket", ket_);
     for (uint i=0; i < ket_.size(); i++) {
        if (ket_[i] != NULL) ket_[i]->Init(Psi0);
     }
@@ -483,11 +460,11 @@ namespace QDLIB
     if (ket_.empty() || ket_.back() == NULL)
 	throw (EParamProblem("Last operator in ket definition has to be the signal mode operator"));
 
-    if (wfbuffer.Size() > 1 && (ket_[0] != NULL || (!bra_.empty() && bra_[0] != NULL)))
+    if (!read_dir_.empty() && (ket_[0] != NULL || (!bra_.empty() && bra_[0] != NULL)))
       throw (EParamProblem("Pre-propagated time series requires a propagator as first element int the ket and bra definitions."));
 
     /* Run initial time series, if not already present */
-    if (wfbuffer.Size() == 1){
+    if (read_dir_.empty()){
 	log.cout() << "\nRun initial propagation U(t1,0)|psi>\n"; log.flush();
 
 	WaveFunction* psi_t = InitializeKetBra(false);
diff --git a/src/ProgCfun.h b/src/ProgCfun.h
index 39e1eca..ef3022e 100644
--- a/src/ProgCfun.h
+++ b/src/ProgCfun.h
@@ -59,9 +59,7 @@ namespace QDLIB
       Operator* H_;
       WaveFunction* Psi0;
       vector<Operator*> ket_;
-      int ket_first_op_;
       vector<Operator*> bra_;
-      int bra_first_op_;
       int num_u_;
 
       WFBuffer wfbuffer;
@@ -70,8 +68,10 @@ namespace QDLIB
       int wcycle_;
 
       void InitParams_();
-      int ReadKetBra(const string& name, vector<Operator*>& kb );
+      void ReadKetBra(const string& name, vector<Operator*>& kb );
       void CreateMetaData(int dims, ParamContainer &pm);
+      size_t AfterPropagator(const vector<Operator*>& ops, int n);
+      void ApplyOperators(const vector<Operator*>& ops, size_t pos, WaveFunction* psi);
       WaveFunction* InitializeKetBra(bool bra = false);
       void RunC1();
       void RunC2();
-- 
2.43.0


From ddfce553f7d7dbead70f829b0e2e577a6ec2e2aa Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 03:59:55 +0000
Subject: [PATCH 88/95] fix: optimal control: optimize every field of the
 Hamiltonian, not only couplings below the diagonal

---
 src/ChainLoader.h | 106 +++++++++++++---------------------------------
 1 file changed, 29 insertions(+), 77 deletions(-)

diff --git a/src/ChainLoader.h b/src/ChainLoader.h
index 0ce6a90..2bfe556 100644
--- a/src/ChainLoader.h
+++ b/src/ChainLoader.h
@@ -45,14 +45,15 @@ namespace QDLIB
     * \return The whole Operator with packaging (single state or multistate)
     */
    template <class C>
-   Operator* FindOperatorType(Operator *O, C **found, int &n, const string *label = NULL, const int index=0)
+   Operator* FindOperatorType(Operator *O, C **found, int &n, const string *label = NULL)
    {
       C* t;
       Operator* res = NULL;
-      C **sop;
-      int nops=0;
+      const int limit = n;
       int max;
-      
+
+      n = 0;
+
       t = dynamic_cast<C*>(O);
       if (t != NULL){
          /* Check for label */
@@ -60,9 +61,12 @@ namespace QDLIB
                if (! GlobalOpList::Instance().CheckLabel(O, *label))
                   return NULL;
          }
+         if (limit < 1)
+            throw ( EParamProblem("Too many operators of the same type", O->Name()) );
+
          /* return successful result */
          n=1;
-         found[index] = t;
+         found[0] = t;
          return t;
       }
       
@@ -70,32 +74,20 @@ namespace QDLIB
       OList* list;
       list = dynamic_cast<OList*>(O);
       if (list != NULL){
-         sop = new C*[n];
          OList* package = dynamic_cast<OList*>(list->NewInstance());
 	 for(int i=0; i < list->Size(); i++){
-             max=n;
-             res = FindOperatorType<C>((*list)[i], sop, max, label, index+nops);
-	     if (res != NULL){
-                package->Add(res);
-                for (int k=0; k < max; k++){
-                  found[index+nops+k] = sop[index+nops+k];
-                  /* Abort if limit is reached prematurely */
-                  if (nops+k >= n){
-                     delete[] sop;
-                     return res;
-                  }
-                }
-                nops += max;
-	     }
+            max = limit - n;
+            res = FindOperatorType<C>((*list)[i], found + n, max, label);
+            if (res != NULL){
+               package->Add(res);
+               n += max;
+            }
 	 }
-         n = nops;
-         delete[] sop;
-         if (nops == 0) {
+         if (n == 0) {
             DELETE_OP(package);
             return NULL;
-         } else {
-            return package;
          }
+         return package;
       }
       
       /* Crawl trough Multistate operator*/
@@ -103,67 +95,27 @@ namespace QDLIB
       ms = dynamic_cast<OMultistate*>(O);
       if (ms != NULL){
 	 OMultistate* package = new OMultistate();
-         sop = new C*[n];
 	 package->States(ms->States());
+	 package->Unity(false); /* States without the operator don't contribute */
 	 for(int i=0; i < ms->States(); i++){
-            for(int j=0; j < i; j++){
-	       if (ms->State(i,j) != NULL){ 
-                  max=n;
-                  res = FindOperatorType<C>(ms->State(i,j), sop, max, label, index+nops);
-		  if (res != NULL){
-		     package->Add(res, i, j);
-                     for (int k=0; k < max; k++){
-                        found[index+nops+k] = sop[index+nops+k];
-                        if (nops+k >= n){
-                           delete[] sop;
-                           return package;
-                        }
-                     }
-                     nops += max;
-		     if (ms->State(i,j) != ms->State(j,i) && ms->State(j,i) != NULL) {
-                        cout << "Look for NH counterpart: " << ms->State(i,j) << " " << ms->State(j,i) << endl;
-                        if (label != NULL) cout << "Label: " << *label << endl;
-                        max=n;
-                        res = FindOperatorType<C>(ms->State(j,i), sop, max, label, index+nops);
-		        if (res != NULL){
-                           cout << "Found an j,i" << ms->State(j,i)->Name()  << endl;
-		           package->Add(res, j, i);
-                           for (int k=0; k < max; k++){
-                              found[index+nops+k] = sop[index+nops+k];
-                              if (nops+k >= n){
-                                 delete[] sop;
-                                 return package;
-                              }
-                           }
-                           nops += max;
-                        }
-		     }
-		  }
-                  /* Abort if limit is reached prematurely */
-                  if (nops > n){
-                     n = nops;
-                     delete[] sop;
-                     if (nops == 0) {
-                        DELETE_OP(package);
-                        return NULL;
-                     } else {
-                        return package;
-                     }
-                  }
-	       }
+            for(int j=0; j < ms->States(); j++){
+               if (ms->State(i,j) == NULL) continue;
+               if (i < j && ms->State(i,j) == ms->State(j,i)) continue; /* Mirrored element: use the lower one */
+               max = limit - n;
+               res = FindOperatorType<C>(ms->State(i,j), found + n, max, label);
+               if (res != NULL){
+                  package->Add(res, i, j);
+                  n += max;
+               }
 	    }
 	 }
-         n = nops;
-         delete[] sop;
-         if (nops == 0) {
+         if (n == 0) {
             DELETE_OP(package);
             return NULL;
-         } else {
-            return package;
          }
+         return package;
       }
       
-      n = 0;
       return NULL;
    }
 
-- 
2.43.0


From ea6140a1618aa0fc5de66d0297a3d70da930d644 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 04:00:19 +0000
Subject: [PATCH 89/95] fix: Laser: setting a scaled field and its pulse energy
 agree with the field that is applied

---
 src/qdlib/Laser.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/qdlib/Laser.cpp b/src/qdlib/Laser.cpp
index 1933a0c..b7d5e25 100644
--- a/src/qdlib/Laser.cpp
+++ b/src/qdlib/Laser.cpp
@@ -141,7 +141,7 @@ namespace QDLIB {
       if (_clock->TimeStep() < 0 || _clock->TimeStep() >= dVec::size())
 	 throw ( EParamProblem("Time step is outside of the laser field") );
 
-      (*this)[_clock->TimeStep()] = value;
+      (*this)[_clock->TimeStep()] = (_scale == 0) ? value : value / _scale; /* Get applies the scaling factor */
    }
    
    /**
@@ -188,7 +188,7 @@ namespace QDLIB {
       for(int i=0; i < size(); i++){
 	 d += (*this)[i] * (*this)[i];
       }
-      d *= _scale;
+      d *= _scale * _scale;
       return ( 137.0359996  / (4 * M_PI) * d * _dt );
       /*       c0 in au          eps_0 in au             */
    }
-- 
2.43.0


From fe32bdb91f240a751494bf33b729f024bd586d75 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 04:01:02 +0000
Subject: [PATCH 90/95] fix: optimal control: checking the guess does not
 overwrite moving targets

---
 src/ProgOCT.cpp | 10 ++++++----
 src/ProgOCT.h   |  2 +-
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/ProgOCT.cpp b/src/ProgOCT.cpp
index 7346e00..4c74a97 100644
--- a/src/ProgOCT.cpp
+++ b/src/ProgOCT.cpp
@@ -452,12 +452,14 @@ namespace QDLIB
     * 
     * Using the _U and the corresponding Laserfield _laserf
     * membuf[0] => t=0 , membuf[Steps] => t=T
+    *
+    * \param save  Save the time steps to membuf
     */
-   void ProgOCT::PropagateForward(WaveFunction ** wf)
+   void ProgOCT::PropagateForward(WaveFunction ** wf, bool save)
    {
       QDClock *clock = QDGlobalClock::Instance(); /* use the global clock */
 
-      for (int t = 0; t < _ntargets; t++) /* Save t=0 */
+      for (int t = 0; t < _ntargets && save; t++) /* Save t=0 */
          _memwfbuf[t].Set(0, wf[t]);
 
       clock->Begin();
@@ -468,7 +470,7 @@ namespace QDLIB
                _Gobbler->Apply(wf[t]);
                wf[t]->Normalize();
             }
-            _memwfbuf[t].Set(s + 1, wf[t]);
+            if (save) _memwfbuf[t].Set(s + 1, wf[t]);
          }
          ++(*clock);
       }
@@ -1014,7 +1016,7 @@ namespace QDLIB
       _laserobj[0] = 0;
       log.cout() << "Propagating forward to check initial guess\n\n";
       log.flush();
-      PropagateForward(phii);
+      PropagateForward(phii, false); /* Keep the series of a moving target */
       Report(phii, PsiT, 0);
 
       /* Redirection to file */
diff --git a/src/ProgOCT.h b/src/ProgOCT.h
index 3878bc8..4c622a0 100644
--- a/src/ProgOCT.h
+++ b/src/ProgOCT.h
@@ -118,7 +118,7 @@ namespace QDLIB
          double CalcCorr(WaveFunction** wfi, WaveFunction** wft);
          double CalcLaserField(WaveFunction** wfi, WaveFunction** wft);
          double Report(WaveFunction **wfi, WaveFunction** wft, int iteration);
-         void PropagateForward(WaveFunction **wf);
+         void PropagateForward(WaveFunction **wf, bool save = true);
          void PropagateBackward(WaveFunction **wf);
          void SyncTargetOverlap(WaveFunction** phii, WaveFunction** phit, int step);
          void SyncTargetOperator(WaveFunction** phii, WaveFunction** phit, int step);
-- 
2.43.0


From a0dfdc0625b1dab5c500a457911ce20a30434e98 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 04:01:02 +0000
Subject: [PATCH 91/95] fix: optimal control: the feedback field drives the
 backward propagation

---
 src/ProgOCT.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ProgOCT.cpp b/src/ProgOCT.cpp
index 4c74a97..e7a879a 100644
--- a/src/ProgOCT.cpp
+++ b/src/ProgOCT.cpp
@@ -640,7 +640,7 @@ namespace QDLIB
 
 
          for (int l = 0; l < _nlaser; l++)
-            _laserb[l]->Set(laser);
+            _laserf[l]->Set(laser); /* exchanged: this one drives the propagation */
 
          /* Save back steps */
          for (int t=0; t < _ntargets; t++)
-- 
2.43.0


From 4c92c95fb21e3f1cb521299d8b71d06d42854d8a Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 04:01:53 +0000
Subject: [PATCH 92/95] fix: optimal control: operator targets of the feedback
 method are made from the final states

---
 src/ProgOCT.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ProgOCT.cpp b/src/ProgOCT.cpp
index e7a879a..cb9b4e8 100644
--- a/src/ProgOCT.cpp
+++ b/src/ProgOCT.cpp
@@ -617,10 +617,10 @@ namespace QDLIB
       for (int t=0; t < _ntargets; t++)
          *(phii[t]) =  _memwfbuf[t][0];
 
-      /* Create target */
+      /* Create target from the final states of the last iteration */
       if (_ttype == op)
          for (int t = 0; t < _ntargets; t++)
-            _Otarget[t]->Apply(phit[t], phii[t]);
+            _Otarget[t]->Apply(phit[t], _memwfbuf[t][clock->Steps()]);
 
       /* Propagate Target Backward with new field (1) */
       clock->End();
-- 
2.43.0


From 58116b6033b4554cd4fd2cecce0d8127e91e7e31 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 04:06:52 +0000
Subject: [PATCH 93/95] fix: optimal control: the frequency restricted method
 with a gobbler reports the yield for the original targets

---
 src/ProgOCT.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ProgOCT.cpp b/src/ProgOCT.cpp
index cb9b4e8..fa15697 100644
--- a/src/ProgOCT.cpp
+++ b/src/ProgOCT.cpp
@@ -797,6 +797,9 @@ namespace QDLIB
          }
          ++(*clock);
       }
+      /* Back and forth doesn't give the targets again if the gobbler has been at work */
+      for (int t=0; t < _ntargets && _Gobbler; t++)
+         *(phit[t]) = _memwfbuf[t][clock->Steps()];
    }
 
    /**
-- 
2.43.0


From d9bbc77903cb76d0f611757ba318aff95ab49580 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 04:19:51 +0000
Subject: [PATCH 94/95] fix: split operator on several states: states without a
 transformation are propagated, every state has its own normalization

---
 src/qdlib/TransformMSD.cpp | 16 ++++++++++------
 src/qdlib/TransformMSD.h   |  1 -
 2 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/qdlib/TransformMSD.cpp b/src/qdlib/TransformMSD.cpp
index 7af408a..6e294c7 100644
--- a/src/qdlib/TransformMSD.cpp
+++ b/src/qdlib/TransformMSD.cpp
@@ -9,7 +9,7 @@
 namespace QDLIB
 {
 
-   TransformMSD::TransformMSD() : _X(NULL), _T(NULL), _norm(1)
+   TransformMSD::TransformMSD() : _X(NULL), _T(NULL)
    {
 
    }
@@ -21,8 +21,7 @@ namespace QDLIB
 
    double TransformMSD::Normalization()
    {
-      if (_T != NULL) return _T[0]->Normalization();
-      else return _norm;
+      return 1; /* Every state has its own factor, Backward takes care of it */
    }
    
 }
@@ -37,9 +36,11 @@ void QDLIB::TransformMSD::Forward(WaveFunction * Psi)
    
    if (_T != NULL) { /* Use external transform */
       for (int i=0; i < states; i++){
-         if( _T[i] != NULL) {
+         if( _T[i] != NULL)
             _T[i]->Forward(wfm->State(i));
-            _norm = _T[i]->Normalization();
+         else { /* Already diagonal, but the content must be present in the buffer for k-space */
+            wfm->State(i)->GetSpaceBuffer()->FastCopy(*(wfm->State(i)));
+            wfm->State(i)->IsKspace(true);
          }
       }
       wfm->IsKspace(true);
@@ -75,7 +76,10 @@ void QDLIB::TransformMSD::Backward(WaveFunction * Psi)
       for (int i=0; i < states; i++){
          if( _T[i] != NULL) {
             _T[i]->Backward(wfm->State(i));
-            _norm = _T[i]->Normalization();
+            *((cVec*) wfm->State(i)) *= _T[i]->Normalization();
+         } else {
+            wfm->State(i)->GetSpaceBuffer()->FastCopy(*(wfm->State(i)));
+            wfm->State(i)->IsKspace(false);
          }
       }
       wfm->IsKspace(false);
diff --git a/src/qdlib/TransformMSD.h b/src/qdlib/TransformMSD.h
index 2102e6b..ed1fd94 100644
--- a/src/qdlib/TransformMSD.h
+++ b/src/qdlib/TransformMSD.h
@@ -26,7 +26,6 @@ namespace QDLIB
          dMat **_X;        /* Array of Matrices, one per grid point*/
          bool _adjoint;    /* Can we use the adjoint Matrix? */
          Transform **_T;     /* External Transformation, array over states */
-         double _norm;     /* Last normalizationn factor */
       public:
          TransformMSD();
          virtual ~TransformMSD();
-- 
2.43.0


From d206098a11795acee5d23634de1c06adb3d369bb Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 04:19:51 +0000
Subject: [PATCH 95/95] fix: DMultistate: diagonalize the actual values of time
 dependent elements, allow missing diagonal elements

---
 src/qdlib/ODMultistate.cpp | 89 ++++++++++++++++++++++++++------------
 src/qdlib/ODMultistate.h   |  3 ++
 src/qdlib/OMultistate.h    |  2 +-
 3 files changed, 66 insertions(+), 28 deletions(-)

diff --git a/src/qdlib/ODMultistate.cpp b/src/qdlib/ODMultistate.cpp
index 95f87bd..0a8c80e 100644
--- a/src/qdlib/ODMultistate.cpp
+++ b/src/qdlib/ODMultistate.cpp
@@ -9,7 +9,8 @@ namespace QDLIB
 {
 
    ODMultistate::ODMultistate() :  OMultistate(), ODSpace(),
-         _name("ODMultistate"), _X(NULL), _T(NULL),  _state_size(0), _IsFullDiag(true)
+         _name("ODMultistate"), _X(NULL), _T(NULL),  _state_size(0), _IsFullDiag(true),
+         _diagbuf(NULL)
    {
    }
 
@@ -23,6 +24,7 @@ namespace QDLIB
       }
       if (_T != NULL)  delete[] _T;
       if (_dspace != NULL) delete _dspace;
+      DELETE_WF(_diagbuf);
    }
 
    Operator * ODMultistate::NewInstance()
@@ -45,7 +47,7 @@ namespace QDLIB
       
       lint last_size = wfm->State(0)->size();
       for (int i=1; i < States(); i++){
-         if (last_size != wfm->State(0)->size())
+         if (last_size != wfm->State(i)->size())
             throw( EIncompatible("ODMultistate relies on states with same size") );
       }
       _state_size = last_size;
@@ -53,11 +55,16 @@ namespace QDLIB
       bool external=false;
       _IsFullDiag=true;
       _T = new Transform*[States()];
-      
+      for (int i=0; i < States(); i++) _T[i] = NULL;
+
+      _diagbuf = wfm->State(0)->NewInstance();
       
       /* Check for transform type & validty of matrix elements */
       for (int i=0; i < States(); i++){
          for (int j=0; j < States(); j++){
+            if ( (State(i,j) == NULL) != (State(j,i) == NULL) )
+               throw ( EIncompatible ("ODMultistate can only handle hermitian matrices") );
+
             ODSpace *od =  dynamic_cast<ODSpace*>(State(i,j));
             if ( od == NULL && State(i,j) != NULL)
                throw ( EIncompatible ("ODMultistate can only handle DSpace operators") );
@@ -80,6 +87,23 @@ namespace QDLIB
          _T = NULL;
       }
    }
+
+   /**
+    * Get the diagonal of a matrix element, including the actual values of time dependent operators.
+    */
+   void ODMultistate::_Diagonal(dVec &diag, int i, int j)
+   {
+      if (State(i,j) == NULL) { /* Missing diagonals are treated as unity, if desired */
+         diag = (i == j && Unity()) ? 1 : 0;
+         return;
+      }
+
+      cVec *d = _diagbuf;
+      *d = dcomplex(1);
+      State(i,j)->Apply(_diagbuf);
+      for (int k = 0; k < _state_size; k++)
+         diag[k] = (*d)[k].real();
+   }
    
    Operator * ODMultistate::Copy(Operator * O)
    {
@@ -94,9 +118,11 @@ namespace QDLIB
       _state_size = o->_state_size;
       _IsFullDiag = o->_IsFullDiag;
       /* Copy external transformations */ 
+      if (o->_diagbuf != NULL) _diagbuf = o->_diagbuf->NewInstance();
       if (o->_T != NULL) {
          _T = new Transform*[States()];
          for (int i=0; i < States(); i++){
+            _T[i] = NULL;
             for (int j=0; j < States(); j++){
                ODSpace *od =  dynamic_cast<ODSpace*>(State(i,j));
                if (od != NULL)
@@ -107,7 +133,7 @@ namespace QDLIB
          _XT.ExternalTransform(_T);
       }
       
-      if (o->_dspace != NULL) InitDspace();
+      if (o->_dspace != NULL && !isTimeDep()) InitDspace();
       
       return (OMultistate*) this;
    }
@@ -120,13 +146,6 @@ namespace QDLIB
          _dspace = new dVec();
          _dspace->newsize(_state_size * States(), States());
          
-         if (_IsFullDiag){ /* Diagonal H*/
-            for (int k = 0; k < States(); k++) {
-               ODSpace *state = dynamic_cast<ODSpace*>(State(k,k));
-               _dspace->StrideCopy(*(state->Dspace()), 0,k);
-            }
-         }
-         
          if (_T == NULL && ! _IsFullDiag){ /* Init Grid of Matrices */
             _X = new dMat*[_state_size];
             for (int i = 0; i < _state_size; i++) {
@@ -135,20 +154,27 @@ namespace QDLIB
          }
       }
       
+      dVec diag(_state_size);
+
       if (_T == NULL && !_IsFullDiag){ /* Grid Diagonalization - Internal Transform */
          dVec evals(States());
    
-         /* diagonalize at every grid point */
-         for (int i = 0; i < _state_size; i++) { /* Run over Levels _in_ the states */
-            for (int k = 0; k < States(); k++) {   /*  loop over states => create Matrix */
-               for (int l = 0; l < States(); l++) {
-                  if ( State(k,l) != NULL){
-                     ODSpace *state = dynamic_cast<ODSpace*>(State(k,l));
-                     (*(_X[i]))(k,l) = (*(state->Dspace()))[i];  /* get gridpoint */ 
-                  } else
-                     (*(_X[i]))(k,l) = 0;
-               }
+         /* Fill the matrices at every grid point */
+         for (int k = 0; k < States(); k++) {
+            for (int l = 0; l < States(); l++) {
+               _Diagonal(diag, k, l);
+               for (int i = 0; i < _state_size; i++) /* Run over Levels _in_ the states */
+                  (*(_X[i]))(k,l) = diag[i];
             }
+         }
+
+         /* diagonalize at every grid point */
+         for (int i = 0; i < _state_size; i++) {
+            for (int k = 0; k < States(); k++)
+               for (int l = 0; l < k; l++)
+                  if ( (*(_X[i]))(k,l) != (*(_X[i]))(l,k) )
+                     throw ( EIncompatible ("ODMultistate can only handle hermitian matrices") );
+
             LAPACK::FullDiagHermitian(_X[i], &evals);
             
             for (int j = 0; j < States(); j++) {   /* Put Eigenvektor to states */
@@ -157,10 +183,14 @@ namespace QDLIB
             }
          }
          _XT.SetMatrixArray(_X);
-      } else if (_T != NULL) { /* Use external diagonalization, copy dspace */
+      } else { /* Diagonal matrix: copy dspace of the states */
          for (int s=0; s < States(); s++){
-            ODSpace *state = dynamic_cast<ODSpace*>(State(s,s));
-            _dspace->StrideCopy(*(state->Dspace()), 0, s);
+            if (_T != NULL && _T[s] != NULL) /* Use external diagonalization */
+               diag = *(dynamic_cast<ODSpace*>(State(s,s))->Dspace());
+            else
+               _Diagonal(diag, s, s);
+
+            _dspace->StrideCopy(diag, 0, s);
          }
       }
       
@@ -168,13 +198,18 @@ namespace QDLIB
    
    void ODMultistate::InitExponential(cVec * exp, dcomplex c)
    {
-      if (_T == NULL)
+      if (_T == NULL && !_IsFullDiag) {
+         /* Eigenvectors and eigenvalues change with time dependent elements */
+         if (isTimeDep()) InitDspace();
          ODSpace::InitExponential(exp, c);
-      else {
+      } else {
          cVec tmpe(_state_size);
          for (int s=0; s < States(); s++){
             ODSpace *state = dynamic_cast<ODSpace*>(State(s,s));
-            state->InitExponential(&tmpe, c);
+            if (state != NULL)
+               state->InitExponential(&tmpe, c);
+            else
+               tmpe = Unity() ? cexp(c) : dcomplex(1);
             if (!exp->StrideCopy(tmpe, 0, s))
                throw ( EIncompatible ("Stride Error"));
          }
diff --git a/src/qdlib/ODMultistate.h b/src/qdlib/ODMultistate.h
index 3f62ea5..dbff263 100644
--- a/src/qdlib/ODMultistate.h
+++ b/src/qdlib/ODMultistate.h
@@ -30,6 +30,9 @@ namespace QDLIB
          Transform **_T;   /* Storage for external transformation objects */
          int _state_size;  /* Size of a single state */
          bool _IsFullDiag; /* Indicate if transformation is really needed */
+         WaveFunction *_diagbuf; /* Buffer to get the diagonal of the matrix elements */
+
+         void _Diagonal(dVec &diag, int i, int j);
       public:
          ODMultistate();
          virtual ~ODMultistate();
diff --git a/src/qdlib/OMultistate.h b/src/qdlib/OMultistate.h
index 20b7b1c..353a2f5 100644
--- a/src/qdlib/OMultistate.h
+++ b/src/qdlib/OMultistate.h
@@ -23,7 +23,7 @@ namespace QDLIB
     * 
     *	@author Markus Kowalewski <markus.kowalewski@cup.uni-muenchen.de>
     */
-   class OMultistate : public Operator
+   class OMultistate : public virtual Operator
    {
       private:
 	 string _name;
-- 
2.43.0

