From 971ac64b846ff647138b94a9f3966209feac6a88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:56 +0000
Subject: [PATCH 01/31] fix: report failure when a run did not complete

A run whose test body or closing steps threw returned success when the
expected return value was -1 (-R -1), or in EndMeasurement when the body
had already returned.  The result also depended on looking for the input
file again after it was closed, so a baseline that vanished during the run
turned every mismatch into success.  Files stayed open after an exception.
---
 TestingFramework/tfRegressionTest.cpp | 26 +++++++++++++++++++++-----
 TestingFramework/tfRegressionTest.h   |  3 +++
 2 files changed, 24 insertions(+), 5 deletions(-)

diff --git a/TestingFramework/tfRegressionTest.cpp b/TestingFramework/tfRegressionTest.cpp
index 5e95254..6533597 100644
--- a/TestingFramework/tfRegressionTest.cpp
+++ b/TestingFramework/tfRegressionTest.cpp
@@ -181,6 +181,12 @@ const fileutil::PathList &RegressionTest::GetInFileSearchPath(void) const {
     else
       this->ReadXMLInputFree();
 
+    this->CloseFiles();
+    
+    
+  }
+
+  void RegressionTest::CloseFiles(void) {
     if (this->os) {
       delete this->os;
       this->os = 0;
@@ -190,9 +196,6 @@ const fileutil::PathList &RegressionTest::GetInFileSearchPath(void) const {
       delete this->is;
       this->is = 0;
     }
-
-    
-    
   }
 
 
@@ -293,6 +296,8 @@ const fileutil::PathList &RegressionTest::GetInFileSearchPath(void) const {
 	  
 
     int ret = -1; 
+    bool compareMode = false;
+    bool completed = false;
 
     std::set_unexpected(&_UnexpectedHandler);
     std::set_terminate(&_TerminateHandler);
@@ -306,6 +311,8 @@ const fileutil::PathList &RegressionTest::GetInFileSearchPath(void) const {
 
       this->BeginMeasurement();
 
+      // must be decided while the files are open
+      compareMode = this->GetCompareMode();
       
       ret = this->Test(argc, argv);
 
@@ -313,6 +320,8 @@ const fileutil::PathList &RegressionTest::GetInFileSearchPath(void) const {
       this->EndMeasurement();
 
       this->inputUnmatched--;
+
+      completed = true;
     } 
     CATCH_STDEXCEPTION(std::length_error)
       CATCH_STDEXCEPTION(std::domain_error)
@@ -329,11 +338,18 @@ const fileutil::PathList &RegressionTest::GetInFileSearchPath(void) const {
       catch(...) {
 	std::cerr << "unknow exception" << std::endl;
       }
-    if ( ret != this->GetExpectedReturn() )
+
+    if ( !completed )
+      {
+      // an exception skipped closing the files
+      this->CloseFiles();
+      return ret != EXIT_SUCCESS ? ret : EXIT_FAILURE;
+      }
+    else if ( ret != this->GetExpectedReturn() )
       {
       return ret;
       }
-    else if ( this->GetCompareMode() )
+    else if ( compareMode )
       {
       return this->inputUnmatched;
       }
diff --git a/TestingFramework/tfRegressionTest.h b/TestingFramework/tfRegressionTest.h
index 494a4d6..f2e86cb 100644
--- a/TestingFramework/tfRegressionTest.h
+++ b/TestingFramework/tfRegressionTest.h
@@ -211,6 +211,9 @@ namespace testutil {
     /// closes files, called after Test
     virtual void EndMeasurement(void);
 
+    /// closes the files which are open
+    void CloseFiles(void);
+
 
     /// a test measurement did not match the current input
     /// measurement. May pring output
-- 
2.43.0


From 3901e192875fa61c769ef427309a0800f1b5f513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:56 +0000
Subject: [PATCH 02/31] fix: count the unmatched measurements of each run
 separately

Main added the count of earlier runs of the same test object.
---
 TestingFramework/tfRegressionTest.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/TestingFramework/tfRegressionTest.cpp b/TestingFramework/tfRegressionTest.cpp
index 6533597..b3f434b 100644
--- a/TestingFramework/tfRegressionTest.cpp
+++ b/TestingFramework/tfRegressionTest.cpp
@@ -304,7 +304,8 @@ const fileutil::PathList &RegressionTest::GetInFileSearchPath(void) const {
 
 
     try {
-      this->inputUnmatched++;
+      // unmatched until the run has completed
+      this->inputUnmatched = 1;
       
       this->ParseAndRemoveArguments(argc, argv);
       
-- 
2.43.0


From dd708e9003e2eb6d6f0cf6f9ee0a39c7791324a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:56 +0000
Subject: [PATCH 03/31] fix: fail the run when the output could not be written

Errors while writing, flushing or closing the output were ignored and the
run succeeded with a truncated or empty recording.
---
 TestingFramework/tfRegressionTest.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/TestingFramework/tfRegressionTest.cpp b/TestingFramework/tfRegressionTest.cpp
index b3f434b..0a48b28 100644
--- a/TestingFramework/tfRegressionTest.cpp
+++ b/TestingFramework/tfRegressionTest.cpp
@@ -181,6 +181,13 @@ const fileutil::PathList &RegressionTest::GetInFileSearchPath(void) const {
     else
       this->ReadXMLInputFree();
 
+    // the data may only fail to be written when it is flushed or closed
+    this->GetOutStream().flush();
+    if (std::ofstream *ofs = dynamic_cast<std::ofstream*>(this->os))
+      ofs->close();
+    if (!this->GetOutStream())
+      throw std::runtime_error("failure writing output \"" + this->GetOutFileName() + "\"!");
+
     this->CloseFiles();
     
     
-- 
2.43.0


From cf2f0a4c5d47f629fbdb4e4067a914cb24659bbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:56 +0000
Subject: [PATCH 04/31] fix: parse the bytes of the input file which were read

The length of the last block was computed from the size the file had when
it was opened, so a file that grew or shrank meanwhile was parsed with
bytes missing or left over from the previous block.
---
 TestingFramework/tfRegressionTest.cpp | 18 +++---------------
 1 file changed, 3 insertions(+), 15 deletions(-)

diff --git a/TestingFramework/tfRegressionTest.cpp b/TestingFramework/tfRegressionTest.cpp
index 0a48b28..eb3c620 100644
--- a/TestingFramework/tfRegressionTest.cpp
+++ b/TestingFramework/tfRegressionTest.cpp
@@ -750,18 +750,8 @@ namespace {
     static const size_t BUFFSIZE = 1024;
     char *buff;
     XML_Parser parser;
-    std::istream::pos_type l, m, size;
     XMLParseData pd;
 
-    
-   
-    // get the size of the file
-    l = this->GetInStream().tellg();
-    this->GetInStream().seekg(0, std::ios::end);
-    m = this->GetInStream().tellg();
-    size = m-l;
-    this->GetInStream().seekg(0, std::ios::beg);
-
 
     parser = XML_ParserCreate("US-ASCII");
 
@@ -785,13 +775,11 @@ namespace {
       
       this->GetInStream().read(buff, BUFFSIZE);
 
-      if (!this->GetInStream().eof() && !this->GetInStream())
+      if (this->GetInStream().bad() || (!this->GetInStream().eof() && !this->GetInStream()))
 	throw std::runtime_error("XML:read error");
 
-      if ((done = this->GetInStream().eof()))
-	len = size%BUFFSIZE;
-      else 
-	len = BUFFSIZE;
+      done = this->GetInStream().eof();
+      len = static_cast<int>(this->GetInStream().gcount());
       
       if (!XML_ParseBuffer(parser, len, done)) 	{
 	std::cerr <<  "XML:Parse error at line " << XML_GetCurrentLineNumber(parser)
-- 
2.43.0


From 03833982d1f1c31037122df114f2572707bf1751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:38 +0000
Subject: [PATCH 05/31] fix: survive input files which are damaged

Markup inside of a measurement and parse errors in the middle of one hit
assertions and aborted the process.  The parser and the measurements read
so far were leaked.
---
 TestingFramework/tfRegressionTest.cpp | 28 +++++++++++++++++++++------
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/TestingFramework/tfRegressionTest.cpp b/TestingFramework/tfRegressionTest.cpp
index eb3c620..25a26c2 100644
--- a/TestingFramework/tfRegressionTest.cpp
+++ b/TestingFramework/tfRegressionTest.cpp
@@ -633,21 +633,31 @@ namespace {
     
 
     struct XMLParseData {
-      XMLParseData(void) : depth(0), m(0) {}
-      ~XMLParseData(void) { assert(!m);}
+      XMLParseData(void) : depth(0), m(0), error(false) {}
+      // on errors there may be measurements left
+      ~XMLParseData(void) {
+	delete m;
+	for (std::list<Measurement*>::iterator i = measurements.begin(); i != measurements.end(); ++i)
+	  delete *i;
+      }
       int depth;
       std::string data;
       Measurement *m;
+      bool error;
       std::list<Measurement*> measurements;
     };
 
+    // frees the parser when it goes out of scope
+    struct XMLParserHolder {
+      XMLParserHolder(XML_Parser p) : parser(p) {}
+      ~XMLParserHolder(void) { if (parser) XML_ParserFree(parser); }
+      XML_Parser parser;
+    };
+
 
     void start(void *data, const char *el, const char **attr) {  
       XMLParseData &pd = *reinterpret_cast<XMLParseData*>(data);
       
-      assert(!pd.m);
-      assert(pd.data.length() == 0);
-
       if (pd.depth == 0) {
 	if (el && std::string(el) != "output" ) {
 	  // error, expected output
@@ -713,6 +723,9 @@ namespace {
 	}
       } else {	
 	std::cerr << "XML: depth is too deep" << std::endl;
+	// the content of a measurement is only text
+	if (pd.m)
+	  pd.error = true;
       }
 
       ++pd.depth;
@@ -754,6 +767,7 @@ namespace {
 
 
     parser = XML_ParserCreate("US-ASCII");
+    XMLParserHolder parserHolder(parser);
 
     if (!parser)       
       throw std::bad_alloc();
@@ -787,11 +801,13 @@ namespace {
 	throw std::runtime_error("parse error");
       }
 
+      if (pd.error)
+	throw std::runtime_error("invalid measurement");
+
       if (done)
 	break;
     }
 
-    XML_ParserFree(parser);
     this->Input.swap(pd.measurements);
   }
   
-- 
2.43.0


From ca60515893a0bfcdfa070a54b6ec09f824585ff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:38 +0000
Subject: [PATCH 06/31] fix: do not read measurements of unknown types as plain
 text

A baseline measurement without a type crashed, and one of an unknown type
became a text/plain measurement which could match.
---
 TestingFramework/tfRegressionTest.cpp | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/TestingFramework/tfRegressionTest.cpp b/TestingFramework/tfRegressionTest.cpp
index 25a26c2..38f362a 100644
--- a/TestingFramework/tfRegressionTest.cpp
+++ b/TestingFramework/tfRegressionTest.cpp
@@ -655,6 +655,17 @@ namespace {
     };
 
 
+    // keeps the place of a measurement whose type is not known, and
+    // never has the type of a test measurement
+    class UnknownData : public PlainText {
+    public:
+      UnknownData(const std::string &t) : unknownType(t) {}
+      virtual const std::string &GetAttributeType(void) const {return this->unknownType;}
+    private:
+      std::string unknownType;
+    };
+
+
     void start(void *data, const char *el, const char **attr) {  
       XMLParseData &pd = *reinterpret_cast<XMLParseData*>(data);
       
@@ -671,14 +682,17 @@ namespace {
 	  
 	  for (int i = 0; attr[i]; i += 2) {
 	    if (std::string(attr[i]) == "type") {
-	      std::string str = attr[i+1];
 	      dm = CreateDataMeasurement(attr[i+1]);
 	      if (!dm) {
 		std::cerr << "XML: unknow dart measurement type \"" << attr[i+1] << "\"" << std::endl;		
-		dm = new PlainText;
+		dm = new UnknownData(attr[i+1]);
 	      }
 	    }
 	  }
+	  if (!dm) {
+	    std::cerr << "XML: dart measurement without a type" << std::endl;		
+	    dm = new UnknownData("");
+	  }
 	  pd.m = dm;
 		
 	  // get what we know, but we can't really set any of these yet
-- 
2.43.0


From aba6047f21690d989924c1dfdbf5104c570ad24f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:38 +0000
Subject: [PATCH 07/31] fix: write a valid header for every host name and time

A host name with "--" made the recording malformed, a failing gethostname
left it undefined, and a failing ctime broke the output stream.
---
 TestingFramework/tfRegressionTest.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/TestingFramework/tfRegressionTest.cpp b/TestingFramework/tfRegressionTest.cpp
index 38f362a..216c947 100644
--- a/TestingFramework/tfRegressionTest.cpp
+++ b/TestingFramework/tfRegressionTest.cpp
@@ -617,10 +617,17 @@ const fileutil::PathList &RegressionTest::GetInFileSearchPath(void) const {
 #if defined(WIN32)
     strcpy(hostname, "unknow windows host");
 #else
-    gethostname(hostname, 256);
+    if (gethostname(hostname, sizeof(hostname)) != 0)
+      strcpy(hostname, "unknown host");
+    hostname[sizeof(hostname) - 1] = 0;
 #endif
+    // "--" is not allowed in a comment
+    for (char *c = hostname; *c; ++c)
+      if (c[0] == '-' && c[1] == '-')
+	*c = '_';
+    const char *date = ctime(&t);
     this->GetOutStream() << "<?xml version=\"1.0\" encoding=\"US-ASCII\"?>" << std::endl;
-    this->GetOutStream() << "<!-- created on "  << hostname << " at " <<ctime(&t) << " -->" << std::endl;
+    this->GetOutStream() << "<!-- created on "  << hostname << " at " << (date ? date : "unknown time") << " -->" << std::endl;
     this->GetOutStream() << "<output>" << std::endl;
   }
 
-- 
2.43.0


From 25890a24e054ccbec1acb44e99ea395c4522c863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:38 +0000
Subject: [PATCH 08/31] fix: write names and carriage returns so that they can
 be read back

Measurement names with quotes, markup characters or line breaks made the
XML output malformed or changed when read, and carriage returns in the
content became line feeds.
---
 TestingFramework/tfMeasurement.cpp | 40 ++++++++++++++++++++++++------
 TestingFramework/tfMeasurement.h   |  3 ++-
 2 files changed, 34 insertions(+), 9 deletions(-)

diff --git a/TestingFramework/tfMeasurement.cpp b/TestingFramework/tfMeasurement.cpp
index 0211c77..d1768f3 100644
--- a/TestingFramework/tfMeasurement.cpp
+++ b/TestingFramework/tfMeasurement.cpp
@@ -79,6 +79,28 @@ namespace testutil {
     return 0;
   }
   
+  namespace {
+
+    // attribute values are quoted, and their white space is normalized
+    // by XML parsers unless it is written as character references
+    std::string EscapeAttribute(const std::string &str) {
+      std::string result;
+      for (std::string::size_type i = 0; i < str.length(); ++i) {
+	switch (str[i]) {
+	case '&': result.append("&amp;"); break;
+	case '<': result.append("&lt;"); break;
+	case '>': result.append("&gt;"); break;
+	case '"': result.append("&quot;"); break;
+	case '\t': result.append("&#9;"); break;
+	case '\n': result.append("&#10;"); break;
+	case '\r': result.append("&#13;"); break;
+	default: result += str[i];
+	}
+      }
+      return result;
+    }
+  }
+
   Measurement::Measurement(void) : applyEscapeSequences(true) {}
 
   Measurement::~Measurement(void) {}
@@ -120,7 +142,7 @@ namespace testutil {
   std::string Measurement::ApplyEscapeSequences(const std::string &str) const {
       
     std::string::size_type j = 0;
-    std::string::size_type i = str.find_first_of("&<>");
+    std::string::size_type i = str.find_first_of("&<>\r");
     if (i == str.length())
       return str;
     std::string result;
@@ -132,9 +154,11 @@ namespace testutil {
 	result.append("&lt;");
       else if (str[i] == '>')
 	result.append("&gt;"); 
+      else if (str[i] == '\r')
+	result.append("&#13;"); 
 	
       j = i + 1;
-      i = str.find_first_of("&<>", j);
+      i = str.find_first_of("&<>\r", j);
     }      
     result.append(str,j,i-j);
     return result;
@@ -317,8 +341,8 @@ namespace testutil {
 
   void MeasurementFile::PrintStartTag(std::ostream &os) const {
       
-    os << "<" << this->GetElementTypeName() << " name=\"" << this->GetAttributeName() 
-       << "\" type=\"" << this->GetAttributeType() << "\">";
+    os << "<" << this->GetElementTypeName() << " name=\"" << EscapeAttribute(this->GetAttributeName()) 
+       << "\" type=\"" << EscapeAttribute(this->GetAttributeType()) << "\">";
   }
   
   
@@ -485,13 +509,13 @@ namespace testutil {
 
      
   void DataMeasurement::PrintStartTag(std::ostream &os) const {
-    os << "<" << this->GetElementTypeName() << " name=\"" << this->GetAttributeName() 
-       << "\" type=\"" << this->GetAttributeType() << "\"";
+    os << "<" << this->GetElementTypeName() << " name=\"" << EscapeAttribute(this->GetAttributeName()) 
+       << "\" type=\"" << EscapeAttribute(this->GetAttributeType()) << "\"";
 
     if (this->GetAttributeEncoding() != this->GetDefaultAttributeEncoding())
-      os << " encoding=\"" << this->GetAttributeEncoding() << "\"";
+      os << " encoding=\"" << EscapeAttribute(this->GetAttributeEncoding()) << "\"";
     if (this->GetAttributeCompression() != this->GetDefaultAttributeCompression()) {
-      os << " compression=\"" << this->GetAttributeCompression() << "\"";
+      os << " compression=\"" << EscapeAttribute(this->GetAttributeCompression()) << "\"";
     }
     os << ">";
   }
diff --git a/TestingFramework/tfMeasurement.h b/TestingFramework/tfMeasurement.h
index 36fb2ec..e7dfffe 100644
--- a/TestingFramework/tfMeasurement.h
+++ b/TestingFramework/tfMeasurement.h
@@ -96,7 +96,8 @@ namespace testutil {
     
     /// \brief converts all needed charactors to escape sequences
     ///
-    /// any occurence of &<> is replaces with &amp;,&lt;,&gt; respectfully
+    /// any occurence of &<> and carriage return is replaces with
+    /// &amp;,&lt;,&gt; and &#13; respectfully
     virtual std::string ApplyEscapeSequences(const std::string &str) const;
     //virtual std::string ReplaceEscapeSequences(const std::string &str);
     
-- 
2.43.0


From 4de2c871efc68e76df1623c991cf1c39ff47b772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:19 +0000
Subject: [PATCH 09/31] fix: record and compare integers with the full range of
 long

MeasurementNumericInteger takes a long, but only an int was recorded, and
the tolerant comparison overflowed for values far apart.
---
 TestingFramework/tfMeasurement.cpp |  6 +++---
 TestingFramework/tfMeasurement.h   | 17 ++++++++++-------
 2 files changed, 13 insertions(+), 10 deletions(-)

diff --git a/TestingFramework/tfMeasurement.cpp b/TestingFramework/tfMeasurement.cpp
index d1768f3..a5f66d9 100644
--- a/TestingFramework/tfMeasurement.cpp
+++ b/TestingFramework/tfMeasurement.cpp
@@ -560,14 +560,14 @@ namespace testutil {
     visitor.Visit(*this);
   }
  
-  int IntegerNumeric::GetValue(void) const {
+  long IntegerNumeric::GetValue(void) const {
     std::istringstream iss(this->GetContent());
-    int v;
+    long v;
     iss >> v;
     return v;    
   }
 
-  void IntegerNumeric::SetValue(int v) {
+  void IntegerNumeric::SetValue(long v) {
     std::ostringstream oss;
     oss << v;
     this->SetContent(oss.str());
diff --git a/TestingFramework/tfMeasurement.h b/TestingFramework/tfMeasurement.h
index e7dfffe..748bfdd 100644
--- a/TestingFramework/tfMeasurement.h
+++ b/TestingFramework/tfMeasurement.h
@@ -443,11 +443,14 @@ namespace testutil {
     template <class T>
     static bool _IsEqualTolerant(const T &lm, const T &rm, double tol) {
       tol = std::abs(tol);
-      T temp = std::abs(lm - rm);     
-      return  temp <= tol*std::abs(lm) ||
-	temp <= tol*std::abs(rm) || 
-	(std::abs(lm) < std::numeric_limits<T>::epsilon() &&
-	 std::abs(rm) < std::numeric_limits<T>::epsilon());
+      // the difference of two large values does not fit into T
+      const long double l = std::abs(static_cast<long double>(lm));
+      const long double r = std::abs(static_cast<long double>(rm));
+      const long double temp = std::abs(static_cast<long double>(lm) - static_cast<long double>(rm));
+      return  temp <= tol*l ||
+	temp <= tol*r || 
+	(l < std::numeric_limits<T>::epsilon() &&
+	 r < std::numeric_limits<T>::epsilon());
     }
     
   private:
@@ -474,8 +477,8 @@ namespace testutil {
     // see Measurement
     virtual void AcceptVisitor(MeasurementVisitor &visitor);
     
-    int GetValue(void) const;
-    void SetValue(int v); 
+    long GetValue(void) const;
+    void SetValue(long v); 
 
      // see NumericData
     virtual bool IsEqualTolerant(const NumericData &rm, double tol) {
-- 
2.43.0


From 5f5ed7076e12f7002dcf6409fc8d05196c0ea548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:19 +0000
Subject: [PATCH 10/31] fix: compare numbers which are not finite or not
 readable with tolerance

"nan", "inf" and damaged numbers were read as zero, so they were equal
to each other and to zero.  A number that could not be formatted was
recorded as empty text.
---
 TestingFramework/tfMeasurement.cpp |  9 +++++++++
 TestingFramework/tfMeasurement.h   | 29 +++++++++++++++++++++++++----
 2 files changed, 34 insertions(+), 4 deletions(-)

diff --git a/TestingFramework/tfMeasurement.cpp b/TestingFramework/tfMeasurement.cpp
index a5f66d9..c6be2d0 100644
--- a/TestingFramework/tfMeasurement.cpp
+++ b/TestingFramework/tfMeasurement.cpp
@@ -37,6 +37,7 @@
 #include <ios>
 #include <fstream>
 #include <stdexcept>
+#include <new>
 #include <sstream>
 #include <assert.h>
 #include <cstring>
@@ -570,6 +571,8 @@ namespace testutil {
   void IntegerNumeric::SetValue(long v) {
     std::ostringstream oss;
     oss << v;
+    if (!oss)
+      throw std::bad_alloc();
     this->SetContent(oss.str());
   }
 
@@ -588,6 +591,8 @@ namespace testutil {
     std::ostringstream oss;    
     oss.precision(7);
     oss << v;
+    if (!oss)
+      throw std::bad_alloc();
     this->SetContent(oss.str());
   }
 
@@ -606,6 +611,8 @@ namespace testutil {
     std::ostringstream oss;
     oss.precision(16);
     oss << v;
+    if (!oss)
+      throw std::bad_alloc();
     this->SetContent(oss.str());
   }
  
@@ -623,6 +630,8 @@ namespace testutil {
   void BooleanNumeric::SetValue(bool v) {
     std::ostringstream oss;
     oss << v;
+    if (!oss)
+      throw std::bad_alloc();
     this->SetContent(oss.str());
   }
 }
diff --git a/TestingFramework/tfMeasurement.h b/TestingFramework/tfMeasurement.h
index 748bfdd..2e06571 100644
--- a/TestingFramework/tfMeasurement.h
+++ b/TestingFramework/tfMeasurement.h
@@ -42,6 +42,7 @@
 #include <cstdlib>
 #include <numeric>
 #include <limits>
+#include <sstream>
 
 namespace testutil {
   
@@ -452,6 +453,24 @@ namespace testutil {
 	(l < std::numeric_limits<T>::epsilon() &&
 	 r < std::numeric_limits<T>::epsilon());
     }
+
+    /// \brief converts the content to a value, false if it is not one
+    template <class T>
+    static bool _ParseValue(const std::string &content, T &v) {
+      std::istringstream iss(content);
+      return !(iss >> v).fail() && (iss >> std::ws).eof();
+    }
+
+    /// \brief comparison of contents
+    ///
+    /// contents which are not finite numbers are only equal to themselves
+    template <class T>
+    static bool _IsEqualTolerantContent(const std::string &lc, const std::string &rc, double tol) {
+      T l, r;
+      if (lc == rc)
+	return true;
+      return _ParseValue(lc, l) && _ParseValue(rc, r) && _IsEqualTolerant(l, r, tol);
+    }
     
   private:
 
@@ -484,7 +503,7 @@ namespace testutil {
     virtual bool IsEqualTolerant(const NumericData &rm, double tol) {
       const IntegerNumeric *m = dynamic_cast<const IntegerNumeric*>(&rm);
       if (m)
-	return _IsEqualTolerant(this->GetValue(), m->GetValue(), tol);
+	return _IsEqualTolerantContent<long>(this->GetContent(), m->GetContent(), tol);
       else 
 	return false;
     }
@@ -522,7 +541,7 @@ namespace testutil {
     virtual bool IsEqualTolerant(const NumericData &rm, double tol) {
       const FloatNumeric *m = dynamic_cast<const FloatNumeric*>(&rm);
       if (m)
-	return _IsEqualTolerant(this->GetValue(), m->GetValue(), tol);
+	return _IsEqualTolerantContent<float>(this->GetContent(), m->GetContent(), tol);
       else 
 	return false;
     }
@@ -558,7 +577,7 @@ namespace testutil {
      virtual bool IsEqualTolerant(const NumericData &rm, double tol) {
        const DoubleNumeric *m = dynamic_cast<const DoubleNumeric*>(&rm);
        if (m)
-	 return _IsEqualTolerant(this->GetValue(), m->GetValue(), tol);
+	 return _IsEqualTolerantContent<double>(this->GetContent(), m->GetContent(), tol);
        else 
 	return false;
     }
@@ -595,8 +614,10 @@ namespace testutil {
     // see NumericData
     virtual bool IsEqualTolerant(const NumericData &rm, double tol) {
       const BooleanNumeric *m = dynamic_cast<const BooleanNumeric*>(&rm);
+       bool l, r;
        if (m)
-	 return this->GetValue() ==  m->GetValue();
+	 return this->GetContent() == m->GetContent() ||
+	   (_ParseValue(this->GetContent(), l) && _ParseValue(m->GetContent(), r) && l == r);
        else 
 	 return false;
     }
-- 
2.43.0


From fde5a60b9dca43630972586fa3de9a428e8026bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:56 +0000
Subject: [PATCH 11/31] fix: decode base64 content to the bytes it stands for

The number of bytes was overestimated, so encoded baselines never matched
and were compared with memory that was not initialized; padded input could
not be decoded and wrote past the end, and bytes above 127 indexed the
table with a negative value.
---
 TestingFramework/tfBase64.cpp | 44 ++++++++++++++++++-----------------
 1 file changed, 23 insertions(+), 21 deletions(-)

diff --git a/TestingFramework/tfBase64.cpp b/TestingFramework/tfBase64.cpp
index a608417..adab98e 100644
--- a/TestingFramework/tfBase64.cpp
+++ b/TestingFramework/tfBase64.cpp
@@ -132,15 +132,15 @@ namespace testutil {
     size_t i = 0;     // index into encode input
     int byteNumber = 0;  // 0,1,3 indicates how to decode
     size_t bytesRead = 0;
-    char byte;    
+    unsigned char byte;    
     bool padded = false;
 
     while (i < input.length()) {	  
 	  
       byte = input[i++];
-      if (base64bits[ptrdiff_t(byte)] <= 64) {
+      if (base64bits[byte] <= 64) {
 	    
-	if (base64bits[ptrdiff_t(byte)] == PaddingBits) {
+	if (base64bits[byte] == PaddingBits) {
 	  padded = true;	      
 	  byteNumber++;
 	} else if (padded) {
@@ -160,9 +160,9 @@ namespace testutil {
 	}
 	    
 
-      } else if (base64bits[ptrdiff_t(byte)] == WhiteSpaceBits) {
+      } else if (base64bits[byte] == WhiteSpaceBits) {
 	// white space, just ignore
-      } else if (base64bits[ptrdiff_t(byte)] == InvalidBase64Bits) {
+      } else if (base64bits[byte] == InvalidBase64Bits) {
 	if (!this->ignoreInvalids)
 	  return 0;
       } else {
@@ -173,7 +173,12 @@ namespace testutil {
     if (byteNumber != 0)
       return 0;
 
-    return bytesRead;
+    // a single charactor does not hold a byte
+    if (bytesRead%4 == 1)
+      return 0;
+
+    // four charactors hold three bytes
+    return bytesRead*3/4;
   }
       
   size_t Base64::Decode(const std::string &input, void *_output) {
@@ -182,37 +187,36 @@ namespace testutil {
     size_t i = 0; // index into encode input
     size_t j = 0; // index to output
     int byteNumber = 0; // 0,1,3 indicates how to decode
-    size_t bytesRead = 0;
-    char buffer[4];
-    char byte;
+    unsigned char buffer[4];
+    unsigned char byte;
     bool padded = false;
 	
 
     while (i < input.length()) {	  
 	  
       byte = input[i++];
-      if (base64bits[ptrdiff_t(byte)] <= 64) {
+      if (base64bits[byte] <= 64) {
 	    
-	if (base64bits[ptrdiff_t(byte)] == PaddingBits) {
+	if (base64bits[byte] == PaddingBits) {
 	  if (!padded) {
 	    // first pad decode what we have
 	    padded = true;	 
 	    if (byteNumber == 2) {
 	      output[j++] = buffer[0] << 2 | buffer[1] >> 4;
-	      output[j++] = buffer[1] << 4;
 	    } else if (byteNumber == 3) {
 	      output[j++] = buffer[0] << 2 | buffer[1] >> 4;
 	      output[j++] = buffer[1] << 4 | buffer[2] >> 2;
-	      output[j++] = buffer[2] << 6;
 	    } else {
-	      std::runtime_error("invalid base64 string, improper termination");
+	      throw std::runtime_error("invalid base64 string, improper termination");
 	    }
 	  }
 	  byteNumber++;
 	      
 	  // padding finishedm we are done
-	  if (byteNumber == 4)
+	  if (byteNumber == 4) {
+	    byteNumber = 0;
 	    break;
+	  }
 
 	} else if (padded) {
 	  // the input was improperly terminated
@@ -220,8 +224,7 @@ namespace testutil {
 	} else {	    
 	  // have a byte with data..
 	  // look up in inverse table to get the bits
-	  buffer[byteNumber++] = base64bits[ptrdiff_t(byte)];	      
-	  bytesRead++;
+	  buffer[byteNumber++] = base64bits[byte];	      
 
 	  if (byteNumber == 4){
 	    // The basic idea is that the four bytes will get reconstituted
@@ -233,14 +236,13 @@ namespace testutil {
 	    output[j++] = buffer[1] << 4 | buffer[2] >> 2;
 	    output[j++] = buffer[2] << 6 | buffer[3];
 	    byteNumber = 0;
-	    bytesRead--;
 	  }
 	      
 	}
 	     
-      } else if (base64bits[ptrdiff_t(byte)] == WhiteSpaceBits) {
+      } else if (base64bits[byte] == WhiteSpaceBits) {
 	// white space, just ignore
-      } else if (base64bits[ptrdiff_t(byte)] == InvalidBase64Bits) {
+      } else if (base64bits[byte] == InvalidBase64Bits) {
 	if (!this->ignoreInvalids)
 	  throw std::runtime_error("invalid base64 string, invalid char");
       } else {
@@ -253,7 +255,7 @@ namespace testutil {
       throw std::runtime_error("invalid base64 string, unexpected end");
 	  
 
-    return bytesRead;
+    return j;
   }
 
 
-- 
2.43.0


From fbb59daf84ff160d510dbf04b68f2d7ec144973d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:44 +0000
Subject: [PATCH 12/31] fix: stay inside of the arrays when generating a
 difference

Checks for empty ranges came after the accesses they were to protect, the
search for lines with the same hash value ran past the end of the table,
and a difference cut short by lack of memory was reported as complete.
---
 TestingFramework/tfDiff.cpp               | 8 ++++----
 TestingFramework/tfMeasurementVisitor.cpp | 3 +++
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/TestingFramework/tfDiff.cpp b/TestingFramework/tfDiff.cpp
index 88bb8a7..faec11a 100644
--- a/TestingFramework/tfDiff.cpp
+++ b/TestingFramework/tfDiff.cpp
@@ -218,8 +218,8 @@ namespace testutil {
       assert(xend - xbegin != 0 || yend - ybegin != 0); 
       
       // can't begin or end with a 'snake'
-      assert(xvec[xbegin] != yvec[ybegin] || xend - xbegin == 0 || yend - ybegin == 0);
-      assert(xvec[xend-1] != yvec[yend-1] || xend - xbegin == 0 || yend - ybegin == 0);
+      assert(xend - xbegin == 0 || yend - ybegin == 0 || xvec[xbegin] != yvec[ybegin]);
+      assert(xend - xbegin == 0 || yend - ybegin == 0 || xvec[xend-1] != yvec[yend-1]);
 
       
       if (xend - xbegin == 0) {
@@ -241,7 +241,7 @@ namespace testutil {
 
 	  // eat what 'snake we can in the middle
 	  // and get the operations for the two halves
-	  if (xvec[part.xmid-1] == yvec[part.ymid-1] && part.xmid != xbegin && part.ymid != ybegin) {
+	  if (part.xmid != xbegin && part.ymid != ybegin && xvec[part.xmid-1] == yvec[part.ymid-1]) {
 	    l2 = GenerateEditList(part.xmid, xend, part.ymid, yend, data);
 	    // eat it
 	    while(part.xmid != xbegin && part.ymid != ybegin && xvec[part.xmid - 1] == yvec[part.ymid-1])
@@ -433,7 +433,7 @@ namespace testutil {
 	  
 	for (size_t j = hindex; j < 2; ++j) {
 	  hash_table::iterator i = hash[j].begin();
-	  while(!hash[j].empty()  && i->first == v.first) {
+	  while(i != hash[j].end() && i->first == v.first) {
 	    if (!str[hindex]->substr(data.lines[hindex][v.second].lindex, data.lines[hindex][v.second].length).compare(
 		str[j]->substr(data.lines[j][i->second].lindex, data.lines[j][i->second].length))) {	      
 	      data.vec[j][i->second] = id;	
diff --git a/TestingFramework/tfMeasurementVisitor.cpp b/TestingFramework/tfMeasurementVisitor.cpp
index a3f57be..8ac345a 100644
--- a/TestingFramework/tfMeasurementVisitor.cpp
+++ b/TestingFramework/tfMeasurementVisitor.cpp
@@ -35,6 +35,7 @@
 #include "tfMeasurement.h"
 #include "tfDiff.h"
 #include <sstream>
+#include <new>
 
 namespace testutil {
 
@@ -105,6 +106,8 @@ namespace testutil {
     
     std::ostringstream ostr;
     Diff(baseline.GetContent(), m.GetContent(), ostr);
+    if (!ostr)
+      throw std::bad_alloc();
     PlainText diff;
     diff.SetAttributeName(std::string("Difference ")+m.GetAttributeName());
     diff.SetContent(ostr.str());
-- 
2.43.0


From b161b017f4747bfb1a53b268a1bccd5d506378f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:35 +0000
Subject: [PATCH 13/31] fix: SearchPathList returns an empty path when the file
 is not found

It returned the last candidate although it does not exist, so that a
baseline outside of the search path could not be used together with -P.
---
 FileUtilities/PathName.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/FileUtilities/PathName.cpp b/FileUtilities/PathName.cpp
index 457db61..690936a 100644
--- a/FileUtilities/PathName.cpp
+++ b/FileUtilities/PathName.cpp
@@ -294,7 +294,7 @@ namespace fileutil {
       if (fullFileName.IsFile())
 	return fullFileName;
     }
-    return fullFileName;
+    return PathName("");
   }
 
 
-- 
2.43.0


From 1822349b31b369ee3b8afd210bcfe3332d18d6a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:59 +0000
Subject: [PATCH 14/31] fix: fail instead of looping when an option has no
 value

---
 TestingFramework/tfRegressionTest.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/TestingFramework/tfRegressionTest.cpp b/TestingFramework/tfRegressionTest.cpp
index 216c947..2d15656 100644
--- a/TestingFramework/tfRegressionTest.cpp
+++ b/TestingFramework/tfRegressionTest.cpp
@@ -214,6 +214,14 @@ const fileutil::PathList &RegressionTest::GetInFileSearchPath(void) const {
 	
     for (int i = 1; i < argc;) 
       {      
+      // all the options have a value
+      if (i == argc-1 && 
+          (!strcmp("-O", argv[i]) || !strcmp("-I", argv[i]) || 
+           !strcmp("-R", argv[i]) || !strcmp("-P", argv[i]))) 
+        {
+        throw std::runtime_error(std::string("missing value of option \"") + argv[i] + "\"!");
+        }
+
       // output filename option
       if (!strcmp("-O", argv[i])) 
         {
-- 
2.43.0


From 0b6d9b58ec6208766c9cb87230ce6c9634c0e420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:14 +0000
Subject: [PATCH 15/31] fix: compare files by the bytes which were read

A file that could not be opened was taken as empty, so two missing files
were equal.  A file growing while it was read overflowed the buffer, one
that was too short left part of it uninitialized.
---
 TestingFramework/tfMeasurement.cpp | 62 +++++++++---------------------
 1 file changed, 19 insertions(+), 43 deletions(-)

diff --git a/TestingFramework/tfMeasurement.cpp b/TestingFramework/tfMeasurement.cpp
index c6be2d0..02cfd7d 100644
--- a/TestingFramework/tfMeasurement.cpp
+++ b/TestingFramework/tfMeasurement.cpp
@@ -262,39 +262,23 @@ namespace testutil {
       mode |= std::ios::binary;// this actually doesn't matter since we read with read
 
     std::ifstream is(this->GetFileName().c_str(), mode);
-    std::ifstream::pos_type l, m, size;
-    char *buff;
+    std::string buff;
 
+    // a file which can not be read is not equal to any other
     if (!is) {
       std::cerr << "error opening file \"" << this->GetFileName() << "\"." << std::endl;
-      return new PlainText();
+      return 0;
     }
       
+    // the size of the file may change, so read until the end of it
+    char block[4096];
+    do {
+      is.read(block, sizeof(block));
+      buff.append(block, static_cast<size_t>(is.gcount()));
+    } while (is);
 
-    // get the size of the file
-    l = is.tellg();
-    is.seekg(0, std::ios::end);
-    m = is.tellg();
-    size = m-l;
-    is.seekg(0, std::ios::beg);
-
-
-    buff = static_cast<char*>(malloc(size));
-    if (!buff)
-      throw std::bad_alloc();
-
-    if (binary) {
-      is.read(buff, size);
-    } else {
-      assert(sizeof(char) == 1);
-      // slow way to read but need the conversion, and it may be better than rescanning the input for getline
-      char *tbuff = buff;
-      char c;
-      size = 0;
-      while (is.get(c)) {
-	*tbuff++ = c;
-	size += 1;
-      }	
+    if (!is.eof() || is.bad()) {
+      throw std::runtime_error("failure reading file");
     }
 
     DataMeasurement *dm = CreateDataMeasurement(this->GetAttributeType());
@@ -302,24 +286,14 @@ namespace testutil {
       std::cerr << "Unknown measurement type \"" << this->GetAttributeType() << "\"." << std::endl;
       dm = new PlainText();
     }
-    dm->SetContentAsData(buff, size);
-    dm->SetAttributeName(this->GetAttributeName());
-
-
-    char c=0;
-    is.get(c);	// this should cause and EOF
-
-    ios_base::iostate state = is.exceptions();
-    if (state & ios_base::badbit) cerr << "throws for bad";
-    if (state & ios_base::failbit) cerr << "throws for fail";
-    if (state & ios_base::eofbit) cerr << "throws for eof";
-
-    if (!is.eof() || is.bad()) {
-      throw std::runtime_error("failure reading file");
+    try {
+      dm->SetContentAsData(buff.data(), buff.size());
+      dm->SetAttributeName(this->GetAttributeName());
+    } catch (...) {
+      delete dm;
+      throw;
     }
-    
 
-    free(buff);
     return dm;
     
   }
@@ -329,6 +303,8 @@ namespace testutil {
 	this->GetAttributeType() != m.GetAttributeType())
       return false;
     DataMeasurement *dm = Load();
+    if (!dm)
+      return false;
     bool v = (m == *dm); // switch so if the are both file we can do it again
     delete dm;
 
-- 
2.43.0


From ffc09b50582da37b082e6ad264612433f0880fdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:47 +0000
Subject: [PATCH 16/31] fix: do not compare numbers when they could not be
 converted

---
 TestingFramework/tfMeasurement.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/TestingFramework/tfMeasurement.h b/TestingFramework/tfMeasurement.h
index 2e06571..2840af1 100644
--- a/TestingFramework/tfMeasurement.h
+++ b/TestingFramework/tfMeasurement.h
@@ -458,7 +458,10 @@ namespace testutil {
     template <class T>
     static bool _ParseValue(const std::string &content, T &v) {
       std::istringstream iss(content);
-      return !(iss >> v).fail() && (iss >> std::ws).eof();
+      const bool parsed = !(iss >> v).fail() && (iss >> std::ws).eof();
+      if (iss.bad())
+	throw std::runtime_error("can not convert content to a number");
+      return parsed;
     }
 
     /// \brief comparison of contents
-- 
2.43.0


From a84a9665a7652464806e21a9b2d410817bddcda6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:53 +0000
Subject: [PATCH 17/31] fix: SearchDirectory returns no incomplete list and
 closes the directory

---
 FileUtilities/PathName.cpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/FileUtilities/PathName.cpp b/FileUtilities/PathName.cpp
index 690936a..1cfe283 100644
--- a/FileUtilities/PathName.cpp
+++ b/FileUtilities/PathName.cpp
@@ -51,6 +51,7 @@
 
 #include <stdexcept>
 #include <stdlib.h>
+#include <errno.h>
 
 #define MAX_PATH 1024
 
@@ -310,9 +311,17 @@ namespace fileutil {
     DIR *dir;
     struct dirent *dirp;
     if ((dir = opendir(this->GetNativePathName().c_str())) != NULL) {
-      
-      while ((dirp = readdir(dir)) != NULL) {
-	opl.push_back(PathName(dirp->d_name));
+
+      try {
+	while ((errno = 0, dirp = readdir(dir)) != NULL) {
+	  opl.push_back(PathName(dirp->d_name));
+	}
+	// an incomplete list is no list
+	if (errno != 0)
+	  opl.clear();
+      } catch (...) {
+	closedir(dir);
+	throw;
       }
 
       closedir(dir);
-- 
2.43.0


From a2f27a94b68f5d8b2ab6d62120934cc0b46d9cdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:53 +0000
Subject: [PATCH 18/31] fix: GetCurrentDirectory does not return an
 uninitialised name

---
 FileUtilities/FileUtilities.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/FileUtilities/FileUtilities.cpp b/FileUtilities/FileUtilities.cpp
index 85ce031..f57033d 100644
--- a/FileUtilities/FileUtilities.cpp
+++ b/FileUtilities/FileUtilities.cpp
@@ -98,8 +98,8 @@ namespace fileutil {
 
     if (!stat(".", &s)) {
       char currentName[MAX_PATH];
-      getcwd(currentName, MAX_PATH);
-      result = currentName;
+      if (getcwd(currentName, MAX_PATH))
+	result = currentName;
     }
     return PathName(result);
   }
-- 
2.43.0


From 738c7f68f55f087990c6fbf9a99d5426615078a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:11 +0000
Subject: [PATCH 19/31] fix: do not record the standard error of the command as
 its standard output

---
 TestingFramework/tfPipeToXML.cxx | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/TestingFramework/tfPipeToXML.cxx b/TestingFramework/tfPipeToXML.cxx
index 4e7a733..77c9f61 100644
--- a/TestingFramework/tfPipeToXML.cxx
+++ b/TestingFramework/tfPipeToXML.cxx
@@ -47,7 +47,11 @@ protected:
     int p;
     while((p = itksysProcess_WaitForData(kp, &data, &length, 0 )))
       {
-      outputString += std::string( data, length );
+      // only the standard output is measured
+      if (p == itksysProcess_Pipe_STDOUT)
+        outputString.append( data, length );
+      else
+        std::cerr.write( data, length );
       }
   
     itksysProcess_WaitForExit(kp, 0);
-- 
2.43.0


From 9715f5c4335115f96a04b2d5c924486e56ace853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:36 +0000
Subject: [PATCH 20/31] fix: run the difference filter with ITK 5

---
 itktf/itktfDifferenceImageFilter.h   |  9 +++++++--
 itktf/itktfDifferenceImageFilter.txx | 11 +++++++++--
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/itktf/itktfDifferenceImageFilter.h b/itktf/itktfDifferenceImageFilter.h
index f8f550c..e58d991 100644
--- a/itktf/itktfDifferenceImageFilter.h
+++ b/itktf/itktfDifferenceImageFilter.h
@@ -39,7 +39,9 @@ template<typename T>
 itk::VariableLengthVector<T>
 ZeroValue( const itk::VariableLengthVector<T> &v )
 {
-  return  itk::NumericTraits<itk::VariableLengthVector<T> >::Zero(v); 
+  itk::VariableLengthVector<T> zero( v.GetSize() );
+  zero.Fill( itk::NumericTraits<T>::Zero );
+  return zero; 
 }
 
 template<typename TPixelType>
@@ -159,8 +161,11 @@ protected:
    *
    * \sa ImageToImageFilter::ThreadedGenerateData(),
    *     ImageToImageFilter::GenerateData()  */
+#if ITK_VERSION_MAJOR < 4
+  typedef int ThreadIdType;
+#endif
   void ThreadedGenerateData(const OutputImageRegionType& threadRegion,
-                            int threadId);
+                            ThreadIdType threadId);
 
   void BeforeThreadedGenerateData();
   void AfterThreadedGenerateData();
diff --git a/itktf/itktfDifferenceImageFilter.txx b/itktf/itktfDifferenceImageFilter.txx
index 79ecd92..ed82a32 100644
--- a/itktf/itktfDifferenceImageFilter.txx
+++ b/itktf/itktfDifferenceImageFilter.txx
@@ -24,6 +24,8 @@
 #include "itkNeighborhoodAlgorithm.h"
 #include "itkProgressReporter.h"
 #include "itkZeroFluxNeumannBoundaryCondition.h"
+#include <cmath>
+#include <numeric>
 
 namespace itk
 {
@@ -49,6 +51,11 @@ DifferenceImageFilter<TInputImage, TOutputImage>
   m_TotalMagnitude = NumericTraits<ScalarRealType>::Zero;
   m_NumberOfPixelsWithDifferences = 0;
   m_IgnoreBoundaryPixels = false;
+
+#if ITK_VERSION_MAJOR >= 5
+  // the statistics are gathered for each thread
+  this->DynamicMultiThreadingOff();
+#endif
 }
 
 //----------------------------------------------------------------------------
@@ -111,7 +118,7 @@ DifferenceImageFilter<TInputImage, TOutputImage>
 template <class TInputImage, class TOutputImage>
 void
 DifferenceImageFilter<TInputImage, TOutputImage>
-::ThreadedGenerateData(const OutputImageRegionType &threadRegion, int threadId)
+::ThreadedGenerateData(const OutputImageRegionType &threadRegion, ThreadIdType threadId)
 {
   typedef ConstNeighborhoodIterator<InputImageType>   SmartIterator;
   typedef ImageRegionConstIterator<InputImageType>    InputIterator;
@@ -197,7 +204,7 @@ DifferenceImageFilter<TInputImage, TOutputImage>
           // Store the minimum difference value in the output image.
           out.Set( static_cast<OutputPixelType>(minimumDifference) );
           // Update difference image statistics.
-          m_ThreadMagnitudeSum[threadId] += vcl_sqrt( minimumMagnitude2 );
+          m_ThreadMagnitudeSum[threadId] += std::sqrt( minimumMagnitude2 );
           m_ThreadNumberOfPixels[threadId]++;
           }
         else
-- 
2.43.0


From cf1e6de07340c518e296ba7f78520b749fef62dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:36 +0000
Subject: [PATCH 21/31] fix: compare the pixels of images with different
 spacing

---
 itktf/itktfDifferenceImageFilter.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/itktf/itktfDifferenceImageFilter.h b/itktf/itktfDifferenceImageFilter.h
index e58d991..ad9bfea 100644
--- a/itktf/itktfDifferenceImageFilter.h
+++ b/itktf/itktfDifferenceImageFilter.h
@@ -167,6 +167,12 @@ protected:
   void ThreadedGenerateData(const OutputImageRegionType& threadRegion,
                             ThreadIdType threadId);
 
+#if ITK_VERSION_MAJOR >= 5
+  /** The pixels are compared by their index, so images which do not
+   * occupy the same physical space can be compared. */
+  void VerifyInputInformation() ITKv5_CONST {}
+#endif
+
   void BeforeThreadedGenerateData();
   void AfterThreadedGenerateData();
  
-- 
2.43.0


From c546f9d22e52b449e56fe0f3328100fd81aefd98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:36 +0000
Subject: [PATCH 22/31] fix: images with different origins do not match

---
 itktf/itktfCompareVisitor.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/itktf/itktfCompareVisitor.cxx b/itktf/itktfCompareVisitor.cxx
index aca3b0d..6aae6f7 100644
--- a/itktf/itktfCompareVisitor.cxx
+++ b/itktf/itktfCompareVisitor.cxx
@@ -120,7 +120,7 @@ int CompareVisitor::RegressionTestImage (const char *testImageFilename,
   // todo change to some kind of fuzzy a test.
   ImageType::PointType baselineOrigin = baselineReader->GetOutput()->GetOrigin();
   ImageType::PointType testOrigin = testReader->GetOutput()->GetOrigin();
-  if ( baselineOrigin != baselineOrigin )
+  if ( baselineOrigin != testOrigin )
     {
     return 1;
     }
-- 
2.43.0


From 44a593b0ec3a37990a4028346f53e45afb235001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:36 +0000
Subject: [PATCH 23/31] fix: apply the tolerated number of pixels only once

---
 itktf/itktfCompareVisitor.cxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/itktf/itktfCompareVisitor.cxx b/itktf/itktfCompareVisitor.cxx
index 6aae6f7..9b3c6b3 100644
--- a/itktf/itktfCompareVisitor.cxx
+++ b/itktf/itktfCompareVisitor.cxx
@@ -136,7 +136,8 @@ int CompareVisitor::RegressionTestImage (const char *testImageFilename,
                                            radiusTolerance );
   
 
-  return (status > numberOfPixelsTolerance) ? 1 : 0;
+  // the tolerated pixels are not counted
+  return (status > 0) ? 1 : 0;
 }
 
 }
-- 
2.43.0


From 5ba1c59a292436e665e8880a7b4e97a64f2c8bd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:36 +0000
Subject: [PATCH 24/31] fix: write the difference images with ITK 5

---
 itktf/itktfDifferenceVisitor.cxx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/itktf/itktfDifferenceVisitor.cxx b/itktf/itktfDifferenceVisitor.cxx
index 80d378a..844be18 100644
--- a/itktf/itktfDifferenceVisitor.cxx
+++ b/itktf/itktfDifferenceVisitor.cxx
@@ -110,6 +110,9 @@ int ImageThing( typename ImageType::ConstPointer image,
   typename ExtractType::Pointer extract = ExtractType::New();
   extract->SetInput( image );
   extract->SetExtractionRegion( region );
+#if ITK_VERSION_MAJOR >= 4
+  extract->SetDirectionCollapseToIdentity();
+#endif
 
   typename RescaleType::Pointer rescale = RescaleType::New();
   rescale->SetOutputMinimum( itk::NumericTraits<OutputPixelType>::NonpositiveMin() );
-- 
2.43.0


From 3d5216d33c133bb99a7999c37aafe534e376a08f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:58 +0000
Subject: [PATCH 25/31] fix: pixels which are not a number differ from numbers

---
 itktf/itktfDifferenceImageFilter.h   | 17 +++++++++++++++++
 itktf/itktfDifferenceImageFilter.txx | 15 ++++++++++++---
 2 files changed, 29 insertions(+), 3 deletions(-)

diff --git a/itktf/itktfDifferenceImageFilter.h b/itktf/itktfDifferenceImageFilter.h
index ad9bfea..b2b310e 100644
--- a/itktf/itktfDifferenceImageFilter.h
+++ b/itktf/itktfDifferenceImageFilter.h
@@ -28,6 +28,23 @@ namespace itk
 namespace Math
 {
 
+/** Pixels which are the same have no difference, also if they are not finite */
+template <typename TPixelType>
+bool IsSame( const TPixelType &a, const TPixelType &b )
+{
+  return a == b;
+}
+
+inline bool IsSame( const double &a, const double &b )
+{
+  return a == b || ( a != a && b != b );
+}
+
+inline bool IsSame( const float &a, const float &b )
+{
+  return a == b || ( a != a && b != b );
+}
+
 template <typename TPixelType>
 TPixelType ZeroValue( const TPixelType & )
 {
diff --git a/itktf/itktfDifferenceImageFilter.txx b/itktf/itktfDifferenceImageFilter.txx
index ed82a32..2466b6e 100644
--- a/itktf/itktfDifferenceImageFilter.txx
+++ b/itktf/itktfDifferenceImageFilter.txx
@@ -170,9 +170,14 @@ DifferenceImageFilter<TInputImage, TOutputImage>
         RealType minimumDifference = static_cast<RealType>(c) - test.GetCenterPixel();
         
         ScalarRealType minimumMagnitude2 = Math::SquaredTwoNorm( minimumDifference );
+        if ( Math::IsSame( c, test.GetCenterPixel() ) )
+          {
+          minimumMagnitude2 = NumericTraits<ScalarRealType>::Zero;
+          }
 
         // If center pixel isn't good enough, then test the neighborhood
-        if( minimumMagnitude2 > m_MagnitudeThreshold * m_MagnitudeThreshold )
+        // note, a difference which is not a number is above any threshold
+        if( !( minimumMagnitude2 <= m_MagnitudeThreshold * m_MagnitudeThreshold ) )
           {
           unsigned int neighborhoodSize = test.Size();
           // Find the closest-valued pixel in the neighborhood of the test
@@ -183,9 +188,13 @@ DifferenceImageFilter<TInputImage, TOutputImage>
             // sign.
             RealType difference = static_cast<RealType>(c) - test.GetPixel(i);
             ScalarRealType magnitude2 = Math::SquaredTwoNorm( difference );
+            if ( Math::IsSame( c, test.GetPixel(i) ) )
+              {
+              magnitude2 = NumericTraits<ScalarRealType>::Zero;
+              }
             
             // update to the minimum values
-            if ( magnitude2 < minimumMagnitude2 )
+            if ( magnitude2 < minimumMagnitude2 || minimumMagnitude2 != minimumMagnitude2 )
               {
               minimumDifference = difference;
               minimumMagnitude2 = magnitude2;
@@ -199,7 +208,7 @@ DifferenceImageFilter<TInputImage, TOutputImage>
           }
           
         // Check if difference is above threshold.
-        if ( minimumMagnitude2 > m_MagnitudeThreshold * m_MagnitudeThreshold )
+        if ( !( minimumMagnitude2 <= m_MagnitudeThreshold * m_MagnitudeThreshold ) )
           {
           // Store the minimum difference value in the output image.
           out.Set( static_cast<OutputPixelType>(minimumDifference) );
-- 
2.43.0


From 52b2f74ff89c6f6214841659a0ac70b19e28a745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:22 +0000
Subject: [PATCH 26/31] fix: a filter watcher stops watching when it is
 destroyed

---
 itktf/itktfFilterWatcher.h | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/itktf/itktfFilterWatcher.h b/itktf/itktfFilterWatcher.h
index 0976e9a..1b27ec4 100644
--- a/itktf/itktfFilterWatcher.h
+++ b/itktf/itktfFilterWatcher.h
@@ -20,6 +20,7 @@
 #include "itkCommand.h"
 #include "itkProcessObject.h"
 #include <time.h>
+#include <vector>
 
 namespace itk 
 {
@@ -55,14 +56,21 @@ public:
     iterationFilterCommand->SetCallbackFunction(this, &FilterWatcher::ShowIteration);
     abortFilterCommand->SetCallbackFunction(this, &FilterWatcher::ShowAbort);
 
-    m_Process->AddObserver(itk::StartEvent(), startFilterCommand);
-    m_Process->AddObserver(itk::EndEvent(), endFilterCommand);
-    m_Process->AddObserver(itk::ProgressEvent(), progressFilterCommand);
-    m_Process->AddObserver(itk::IterationEvent(), iterationFilterCommand);
-    m_Process->AddObserver(itk::AbortEvent(), abortFilterCommand);
+    m_Tags.push_back( m_Process->AddObserver(itk::StartEvent(), startFilterCommand) );
+    m_Tags.push_back( m_Process->AddObserver(itk::EndEvent(), endFilterCommand) );
+    m_Tags.push_back( m_Process->AddObserver(itk::ProgressEvent(), progressFilterCommand) );
+    m_Tags.push_back( m_Process->AddObserver(itk::IterationEvent(), iterationFilterCommand) );
+    m_Tags.push_back( m_Process->AddObserver(itk::AbortEvent(), abortFilterCommand) );
   }
 
-  virtual ~FilterWatcher() {}
+  virtual ~FilterWatcher()
+  {
+    // the process may live longer than its watcher
+    for ( size_t i = 0; i < m_Tags.size(); ++i )
+      {
+      m_Process->RemoveObserver( m_Tags[i] );
+      }
+  }
 
   virtual void ShowProgress() {}
 
@@ -105,6 +113,10 @@ protected:
 
 private:
   FilterWatcher(); // Purposely not implemented
+  FilterWatcher(const FilterWatcher &); // Purposely not implemented
+  void operator=(const FilterWatcher &); // Purposely not implemented
+
+  std::vector<unsigned long> m_Tags;
 };
 
 }
-- 
2.43.0


From 35952bffd3eca1e907db9839b58b4b2e114a85ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:41 +0000
Subject: [PATCH 27/31] fix: numbers are written and read independent of the
 global locale

---
 TestingFramework/tfMeasurement.cpp        | 8 ++++++++
 TestingFramework/tfMeasurement.h          | 2 ++
 TestingFramework/tfMeasurementVisitor.cpp | 1 +
 3 files changed, 11 insertions(+)

diff --git a/TestingFramework/tfMeasurement.cpp b/TestingFramework/tfMeasurement.cpp
index 02cfd7d..b38023a 100644
--- a/TestingFramework/tfMeasurement.cpp
+++ b/TestingFramework/tfMeasurement.cpp
@@ -539,6 +539,7 @@ namespace testutil {
  
   long IntegerNumeric::GetValue(void) const {
     std::istringstream iss(this->GetContent());
+    iss.imbue(std::locale::classic());
     long v;
     iss >> v;
     return v;    
@@ -546,6 +547,7 @@ namespace testutil {
 
   void IntegerNumeric::SetValue(long v) {
     std::ostringstream oss;
+    oss.imbue(std::locale::classic());
     oss << v;
     if (!oss)
       throw std::bad_alloc();
@@ -558,6 +560,7 @@ namespace testutil {
  
   float FloatNumeric::GetValue(void) const {
     std::istringstream iss(this->GetContent());
+    iss.imbue(std::locale::classic());
     float v;
     iss >> v;
     return v;    
@@ -565,6 +568,7 @@ namespace testutil {
 
   void FloatNumeric::SetValue(float v) {
     std::ostringstream oss;    
+    oss.imbue(std::locale::classic());
     oss.precision(7);
     oss << v;
     if (!oss)
@@ -578,6 +582,7 @@ namespace testutil {
  
   double DoubleNumeric::GetValue(void) const {
     std::istringstream iss(this->GetContent());
+    iss.imbue(std::locale::classic());
     double v;
     iss >> v;
     return v;    
@@ -585,6 +590,7 @@ namespace testutil {
 
   void DoubleNumeric::SetValue(double v) {
     std::ostringstream oss;
+    oss.imbue(std::locale::classic());
     oss.precision(16);
     oss << v;
     if (!oss)
@@ -598,6 +604,7 @@ namespace testutil {
  
   bool BooleanNumeric::GetValue(void) const {
     std::istringstream iss(this->GetContent());
+    iss.imbue(std::locale::classic());
     bool v;
     iss >> v;
     return v;    
@@ -605,6 +612,7 @@ namespace testutil {
 
   void BooleanNumeric::SetValue(bool v) {
     std::ostringstream oss;
+    oss.imbue(std::locale::classic());
     oss << v;
     if (!oss)
       throw std::bad_alloc();
diff --git a/TestingFramework/tfMeasurement.h b/TestingFramework/tfMeasurement.h
index 2840af1..4084c31 100644
--- a/TestingFramework/tfMeasurement.h
+++ b/TestingFramework/tfMeasurement.h
@@ -42,6 +42,7 @@
 #include <cstdlib>
 #include <numeric>
 #include <limits>
+#include <locale>
 #include <sstream>
 
 namespace testutil {
@@ -458,6 +459,7 @@ namespace testutil {
     template <class T>
     static bool _ParseValue(const std::string &content, T &v) {
       std::istringstream iss(content);
+      iss.imbue(std::locale::classic());
       const bool parsed = !(iss >> v).fail() && (iss >> std::ws).eof();
       if (iss.bad())
 	throw std::runtime_error("can not convert content to a number");
diff --git a/TestingFramework/tfMeasurementVisitor.cpp b/TestingFramework/tfMeasurementVisitor.cpp
index 8ac345a..89b00ab 100644
--- a/TestingFramework/tfMeasurementVisitor.cpp
+++ b/TestingFramework/tfMeasurementVisitor.cpp
@@ -105,6 +105,7 @@ namespace testutil {
     Measurement &baseline = *this->_baseline; 
     
     std::ostringstream ostr;
+    ostr.imbue(std::locale::classic());
     Diff(baseline.GetContent(), m.GetContent(), ostr);
     if (!ostr)
       throw std::bad_alloc();
-- 
2.43.0


From e4573c293ea59aa83d6345e1cbfb97dc452e6c60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:34 +0000
Subject: [PATCH 28/31] fix: measurements return 0 when they match, as
 documented

---
 TestingFramework/tfRegressionTest.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/TestingFramework/tfRegressionTest.cpp b/TestingFramework/tfRegressionTest.cpp
index 2d15656..25c2fc0 100644
--- a/TestingFramework/tfRegressionTest.cpp
+++ b/TestingFramework/tfRegressionTest.cpp
@@ -444,13 +444,13 @@ const fileutil::PathList &RegressionTest::GetInFileSearchPath(void) const {
         if ( vis->GetResult() )
           {
           // the results matched
-          ret = 1;
+          ret = 0;
           this->MatchedMeasurement(test);
           }
         else 
           {
           // the results differ
-          ret = 0;
+          ret = 1;
           this->DifferenceMeasurement(test, *baseline);
           }
         
-- 
2.43.0


From f02f2ce0f538c832f3582e3ad787444d57bffc69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:44 +0000
Subject: [PATCH 29/31] fix: write the creation date of a recording from a
 buffer of its own, not from one shared by threads

---
 TestingFramework/tfRegressionTest.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/TestingFramework/tfRegressionTest.cpp b/TestingFramework/tfRegressionTest.cpp
index 25c2fc0..1b3f94c 100644
--- a/TestingFramework/tfRegressionTest.cpp
+++ b/TestingFramework/tfRegressionTest.cpp
@@ -633,7 +633,13 @@ const fileutil::PathList &RegressionTest::GetInFileSearchPath(void) const {
     for (char *c = hostname; *c; ++c)
       if (c[0] == '-' && c[1] == '-')
 	*c = '_';
+#if defined(WIN32)
     const char *date = ctime(&t);
+#else
+    // the buffer of ctime is shared by all threads
+    char dateBuffer[64];
+    const char *date = ctime_r(&t, dateBuffer);
+#endif
     this->GetOutStream() << "<?xml version=\"1.0\" encoding=\"US-ASCII\"?>" << std::endl;
     this->GetOutStream() << "<!-- created on "  << hostname << " at " << (date ? date : "unknown time") << " -->" << std::endl;
     this->GetOutStream() << "<output>" << std::endl;
-- 
2.43.0


From 1e3e79500b4d0dcef6cf1127901d1b431777fed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:29 +0000
Subject: [PATCH 30/31] fix: the names of ITK measurements and of their files
 are not cut when memory is exhausted

---
 itktf/itktfImageCompare.cxx |  2 ++
 itktf/itktfRegression.cxx   |  2 ++
 itktf/itktfRegression.h     | 13 +++++++++++++
 3 files changed, 17 insertions(+)

diff --git a/itktf/itktfImageCompare.cxx b/itktf/itktfImageCompare.cxx
index a74bfa8..2a6fa0a 100644
--- a/itktf/itktfImageCompare.cxx
+++ b/itktf/itktfImageCompare.cxx
@@ -100,6 +100,8 @@ public:
         // create measurement name with sequential numbers
         std::ostringstream oss;
         oss << "ImageFile" << imageNumber++;
+        if ( !oss )
+          throw std::bad_alloc();
         
         this->SetImageInsightTolerance( intensityTolerance,
                                         numberOfPixelTolerance, 
diff --git a/itktf/itktfRegression.cxx b/itktf/itktfRegression.cxx
index e05320f..6c5e7b1 100644
--- a/itktf/itktfRegression.cxx
+++ b/itktf/itktfRegression.cxx
@@ -68,6 +68,8 @@ std::string Regression::GenerateFileName( std::string fileExtension, std::string
 
   std::ostringstream strstream;
   strstream << m_ArgumentList.front() << "_" << std::hex << hash << "_" << ++m_FileNameCount << "." << fileExtension;
+  if ( !strstream )
+    throw std::bad_alloc();
 
 
   if ( rootPath != "" )
diff --git a/itktf/itktfRegression.h b/itktf/itktfRegression.h
index 74d7739..65e076d 100644
--- a/itktf/itktfRegression.h
+++ b/itktf/itktfRegression.h
@@ -11,6 +11,7 @@
 #include "itkExtractImageFilter.h"
 #include "itkImageFileReader.h"
 
+#include <new>
 #include <sstream>
 
 #include "itkSize.h"
@@ -97,6 +98,8 @@ protected:
       {
       std::ostringstream nameWithIndex;
       nameWithIndex << name << "_" << i;
+      if ( !nameWithIndex )
+        throw std::bad_alloc();
       ret += this->MeasurementNumericInteger( size[i], nameWithIndex.str(), tolerant);
       }
     return ret;
@@ -111,6 +114,8 @@ protected:
       {
       std::ostringstream nameWithIndex;
       nameWithIndex << name << "_" << i;
+      if ( !nameWithIndex )
+        throw std::bad_alloc();
       ret += this->MeasurementNumericInteger( index[i], nameWithIndex.str(), tolerant);
       }
     return ret;
@@ -133,6 +138,8 @@ protected:
       {
       std::ostringstream nameWithIndex;
       nameWithIndex << name << "_" << i;
+      if ( !nameWithIndex )
+        throw std::bad_alloc();
       ret += this->MeasurementNumericDouble( point[i], nameWithIndex.str(), tolerant);
       }
     return ret;
@@ -146,6 +153,8 @@ protected:
       {
       std::ostringstream nameWithIndex;
       nameWithIndex << name << "_" << i;
+      if ( !nameWithIndex )
+        throw std::bad_alloc();
       ret += this->MeasurementNumericDouble( vector[i], nameWithIndex.str(), tolerant);
       }
     return ret;
@@ -159,6 +168,8 @@ protected:
       {
       std::ostringstream nameWithIndex;
       nameWithIndex << name << "_" << i;
+      if ( !nameWithIndex )
+        throw std::bad_alloc();
       ret += this->MeasurementNumericDouble( array[i], nameWithIndex.str(), tolerant);
       }
     return ret;
@@ -174,6 +185,8 @@ protected:
         {
         std::ostringstream nameWithIndex;
         nameWithIndex << name << "_" << i << "_" << j;
+        if ( !nameWithIndex )
+          throw std::bad_alloc();
         ret += this->MeasurementNumericDouble( matrix[i][j], nameWithIndex.str(), tolerant);
         }
       }
-- 
2.43.0


From 6facf65a671c9ecc52d301baefa665a459484f91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:42:32 +0000
Subject: [PATCH 31/31] fix: itktfImageCompare rejects negative numbers for its
 unsigned options

---
 itktf/itktfImageCompare.cxx | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/itktf/itktfImageCompare.cxx b/itktf/itktfImageCompare.cxx
index 2a6fa0a..6347218 100644
--- a/itktf/itktfImageCompare.cxx
+++ b/itktf/itktfImageCompare.cxx
@@ -62,7 +62,8 @@ public:
           // try to convert argument to double
           std::istringstream iss( argv[i] );
           iss >> numberOfPixelTolerance;
-          if ( iss.fail() )
+          // a negative number is converted, but it is not unsigned
+          if ( iss.fail() || iss.str().find( '-' ) != std::string::npos )
             {
             std::cerr << "Expected unsigned int to follow " << argvi << " but got \"" << argv[i] << "\"" << std::endl;
             return EXIT_FAILURE;
@@ -80,7 +81,8 @@ public:
           // try to convert argument to double
           std::istringstream iss( argv[i] );
           iss >> radiusTolerance;
-          if ( iss.fail() )
+          // a negative number is converted, but it is not unsigned
+          if ( iss.fail() || iss.str().find( '-' ) != std::string::npos )
             {
             std::cerr << "Expected unsigned int to follow " << argvi << " but got \"" << argv[i] << "\"" << std::endl;
             return EXIT_FAILURE;
-- 
2.43.0

