From f105992c9a40d50d91f212021fceae2d3c5f60b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:18 +0000
Subject: [PATCH 01/56] fix: index the Base64 decode table with an unsigned
 byte

Bytes >= 0x80 are negative in a (signed) char, so IsBase64() and Decode()
read before the start of the table.
---
 TestingFramework/tfBase64.cpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/TestingFramework/tfBase64.cpp b/TestingFramework/tfBase64.cpp
index a608417..1282c2d 100644
--- a/TestingFramework/tfBase64.cpp
+++ b/TestingFramework/tfBase64.cpp
@@ -138,9 +138,9 @@ namespace testutil {
     while (i < input.length()) {	  
 	  
       byte = input[i++];
-      if (base64bits[ptrdiff_t(byte)] <= 64) {
+      if (base64bits[static_cast<unsigned char>(byte)] <= 64) {
 	    
-	if (base64bits[ptrdiff_t(byte)] == PaddingBits) {
+	if (base64bits[static_cast<unsigned char>(byte)] == PaddingBits) {
 	  padded = true;	      
 	  byteNumber++;
 	} else if (padded) {
@@ -160,9 +160,9 @@ namespace testutil {
 	}
 	    
 
-      } else if (base64bits[ptrdiff_t(byte)] == WhiteSpaceBits) {
+      } else if (base64bits[static_cast<unsigned char>(byte)] == WhiteSpaceBits) {
 	// white space, just ignore
-      } else if (base64bits[ptrdiff_t(byte)] == InvalidBase64Bits) {
+      } else if (base64bits[static_cast<unsigned char>(byte)] == InvalidBase64Bits) {
 	if (!this->ignoreInvalids)
 	  return 0;
       } else {
@@ -191,9 +191,9 @@ namespace testutil {
     while (i < input.length()) {	  
 	  
       byte = input[i++];
-      if (base64bits[ptrdiff_t(byte)] <= 64) {
+      if (base64bits[static_cast<unsigned char>(byte)] <= 64) {
 	    
-	if (base64bits[ptrdiff_t(byte)] == PaddingBits) {
+	if (base64bits[static_cast<unsigned char>(byte)] == PaddingBits) {
 	  if (!padded) {
 	    // first pad decode what we have
 	    padded = true;	 
@@ -220,7 +220,7 @@ namespace testutil {
 	} else {	    
 	  // have a byte with data..
 	  // look up in inverse table to get the bits
-	  buffer[byteNumber++] = base64bits[ptrdiff_t(byte)];	      
+	  buffer[byteNumber++] = base64bits[static_cast<unsigned char>(byte)];	      
 	  bytesRead++;
 
 	  if (byteNumber == 4){
@@ -238,9 +238,9 @@ namespace testutil {
 	      
 	}
 	     
-      } else if (base64bits[ptrdiff_t(byte)] == WhiteSpaceBits) {
+      } else if (base64bits[static_cast<unsigned char>(byte)] == WhiteSpaceBits) {
 	// white space, just ignore
-      } else if (base64bits[ptrdiff_t(byte)] == InvalidBase64Bits) {
+      } else if (base64bits[static_cast<unsigned char>(byte)] == InvalidBase64Bits) {
 	if (!this->ignoreInvalids)
 	  throw std::runtime_error("invalid base64 string, invalid char");
       } else {
-- 
2.43.0


From 80c98458e5ca4da075ff346671b5a37baf8eb380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:18 +0000
Subject: [PATCH 02/56] fix: accept a space as white space in base64 input

Line breaks and tabs were skipped, but a space made the input invalid.
---
 TestingFramework/tfBase64.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/TestingFramework/tfBase64.cpp b/TestingFramework/tfBase64.cpp
index 1282c2d..d745dad 100644
--- a/TestingFramework/tfBase64.cpp
+++ b/TestingFramework/tfBase64.cpp
@@ -275,7 +275,7 @@ namespace testutil {
   const unsigned char Base64::base64bits[256] = {
     255,255,255,255,255,255,255,255,254,254,254,254,254,254,255,255, // 16
     255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255, // 32     
-    255,255,255,255,255,255,255,255,255,255,255, 62,255,255,255, 63, // 48
+    254,255,255,255,255,255,255,255,255,255,255, 62,255,255,255, 63, // 48
      52, 53, 54, 55, 56, 57, 58, 59, 60, 61,255,255,255, 64,255,255, // 64
     255,  0,  1,  2,  3,  4,  5,  6,  7,  8,  9, 10, 11, 12, 13, 14, // 80
      15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25,255,255,255,255,255, // 96     
-- 
2.43.0


From dae019cf71444a2d4caf0555c09d3f9574ebce4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:39 +0000
Subject: [PATCH 03/56] fix: break base64 lines every 72 characters and only
 between lines

Only the first line was ever broken, an input of exactly 54 bytes ended
with a new line, and longer encodings ended with NUL characters.
---
 TestingFramework/tfBase64.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/TestingFramework/tfBase64.cpp b/TestingFramework/tfBase64.cpp
index d745dad..100941d 100644
--- a/TestingFramework/tfBase64.cpp
+++ b/TestingFramework/tfBase64.cpp
@@ -83,8 +83,8 @@ namespace testutil {
 
   std::string Base64::Encode(const void *_input, size_t numBytes) {
     std::string::size_type numChars = ((numBytes+2)/3)*4;
-    if (this->addNewLines)	  
-      numChars += numChars/72;
+    if (this->addNewLines && numChars)
+      numChars += (numChars-1)/72;
     std::string output(numChars, '\0');
     const unsigned char *input = static_cast<const unsigned char *>(_input);
 	
@@ -106,10 +106,11 @@ namespace testutil {
       output[i++] = base64chars[(input[j+2] & 0x3f)];
       j += 3;
 	  
-      if (this->addNewLines && !(i%72))
-	output[i++] = '\n';
-	  
       numBytes -= 3;
+
+      // 54 bytes fill a line, but do not end the encoding with a new line
+      if (this->addNewLines && numBytes && !(j%54))
+	output[i++] = '\n';
     }
 	
     // pad the output
-- 
2.43.0


From 28fc1391cf04e01631c1b9a94bed0d6f045fc97a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:39 +0000
Subject: [PATCH 04/56] fix: decode padded base64 and report the number of
 decoded bytes

IsBase64() returned the number of charactors and accepted padding that
cannot be decoded; Decode() wrote one byte too many for a padded group,
then always threw, and never returned the number of bytes written.
---
 TestingFramework/tfBase64.cpp | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/TestingFramework/tfBase64.cpp b/TestingFramework/tfBase64.cpp
index 100941d..218f437 100644
--- a/TestingFramework/tfBase64.cpp
+++ b/TestingFramework/tfBase64.cpp
@@ -142,6 +142,9 @@ namespace testutil {
       if (base64bits[static_cast<unsigned char>(byte)] <= 64) {
 	    
 	if (base64bits[static_cast<unsigned char>(byte)] == PaddingBits) {
+	  // padding can only replace the last one or two charactors
+	  if (byteNumber < 2)
+	    return 0;
 	  padded = true;	      
 	  byteNumber++;
 	} else if (padded) {
@@ -174,7 +177,8 @@ namespace testutil {
     if (byteNumber != 0)
       return 0;
 
-    return bytesRead;
+    // each charactor has 6 bits
+    return bytesRead*3/4;
   }
       
   size_t Base64::Decode(const std::string &input, void *_output) {
@@ -183,7 +187,6 @@ namespace testutil {
     size_t i = 0; // index into encode input
     size_t j = 0; // index to output
     int byteNumber = 0; // 0,1,3 indicates how to decode
-    size_t bytesRead = 0;
     char buffer[4];
     char byte;
     bool padded = false;
@@ -200,20 +203,20 @@ namespace testutil {
 	    padded = true;	 
 	    if (byteNumber == 2) {
 	      output[j++] = buffer[0] << 2 | buffer[1] >> 4;
-	      output[j++] = buffer[1] << 4;
 	    } else if (byteNumber == 3) {
 	      output[j++] = buffer[0] << 2 | buffer[1] >> 4;
 	      output[j++] = buffer[1] << 4 | buffer[2] >> 2;
-	      output[j++] = buffer[2] << 6;
 	    } else {
-	      std::runtime_error("invalid base64 string, improper termination");
+	      throw std::runtime_error("invalid base64 string, improper termination");
 	    }
 	  }
 	  byteNumber++;
 	      
 	  // padding finishedm we are done
-	  if (byteNumber == 4)
+	  if (byteNumber == 4) {
+	    byteNumber = 0;
 	    break;
+	  }
 
 	} else if (padded) {
 	  // the input was improperly terminated
@@ -222,7 +225,6 @@ namespace testutil {
 	  // have a byte with data..
 	  // look up in inverse table to get the bits
 	  buffer[byteNumber++] = base64bits[static_cast<unsigned char>(byte)];	      
-	  bytesRead++;
 
 	  if (byteNumber == 4){
 	    // The basic idea is that the four bytes will get reconstituted
@@ -234,7 +236,6 @@ namespace testutil {
 	    output[j++] = buffer[1] << 4 | buffer[2] >> 2;
 	    output[j++] = buffer[2] << 6 | buffer[3];
 	    byteNumber = 0;
-	    bytesRead--;
 	  }
 	      
 	}
@@ -254,7 +255,7 @@ namespace testutil {
       throw std::runtime_error("invalid base64 string, unexpected end");
 	  
 
-    return bytesRead;
+    return j;
   }
 
 
-- 
2.43.0


From 9dfa01d9d12a1bd4d97e6efade817c8daa960ce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:06 +0000
Subject: [PATCH 05/56] fix: do not read lines outside of the range in Diff

The lines were compared before it was checked that there are any.
---
 TestingFramework/tfDiff.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/TestingFramework/tfDiff.cpp b/TestingFramework/tfDiff.cpp
index 88bb8a7..7527c44 100644
--- a/TestingFramework/tfDiff.cpp
+++ b/TestingFramework/tfDiff.cpp
@@ -218,8 +218,8 @@ namespace testutil {
       assert(xend - xbegin != 0 || yend - ybegin != 0); 
       
       // can't begin or end with a 'snake'
-      assert(xvec[xbegin] != yvec[ybegin] || xend - xbegin == 0 || yend - ybegin == 0);
-      assert(xvec[xend-1] != yvec[yend-1] || xend - xbegin == 0 || yend - ybegin == 0);
+      assert(xend - xbegin == 0 || yend - ybegin == 0 || xvec[xbegin] != yvec[ybegin]);
+      assert(xend - xbegin == 0 || yend - ybegin == 0 || xvec[xend-1] != yvec[yend-1]);
 
       
       if (xend - xbegin == 0) {
@@ -241,7 +241,7 @@ namespace testutil {
 
 	  // eat what 'snake we can in the middle
 	  // and get the operations for the two halves
-	  if (xvec[part.xmid-1] == yvec[part.ymid-1] && part.xmid != xbegin && part.ymid != ybegin) {
+	  if (part.xmid != xbegin && part.ymid != ybegin && xvec[part.xmid-1] == yvec[part.ymid-1]) {
 	    l2 = GenerateEditList(part.xmid, xend, part.ymid, yend, data);
 	    // eat it
 	    while(part.xmid != xbegin && part.ymid != ybegin && xvec[part.xmid - 1] == yvec[part.ymid-1])
-- 
2.43.0


From a2b44214d807d6686d0284a082e4c3f16eade539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:06 +0000
Subject: [PATCH 06/56] fix: stop at the end of the hash table in Diff

Different lines with the same hash are skipped, so the iteration can
reach the end of a table which is not empty.
---
 TestingFramework/tfDiff.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/TestingFramework/tfDiff.cpp b/TestingFramework/tfDiff.cpp
index 7527c44..faec11a 100644
--- a/TestingFramework/tfDiff.cpp
+++ b/TestingFramework/tfDiff.cpp
@@ -433,7 +433,7 @@ namespace testutil {
 	  
 	for (size_t j = hindex; j < 2; ++j) {
 	  hash_table::iterator i = hash[j].begin();
-	  while(!hash[j].empty()  && i->first == v.first) {
+	  while(i != hash[j].end() && i->first == v.first) {
 	    if (!str[hindex]->substr(data.lines[hindex][v.second].lindex, data.lines[hindex][v.second].length).compare(
 		str[j]->substr(data.lines[j][i->second].lindex, data.lines[j][i->second].length))) {	      
 	      data.vec[j][i->second] = id;	
-- 
2.43.0


From 79695c827b52bc009972879e00e8cdeef2bcdb85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:06 +0000
Subject: [PATCH 07/56] fix: keep Diff searching the right diagonals at the
 edge of the edit space

When the forward search reached the last diagonal its bounds stopped
alternating, and the results of the search were overwritten, so that the
edit script found was not always the shortest one.
---
 TestingFramework/tfDiff.cpp | 37 +++++++++++++++----------------------
 1 file changed, 15 insertions(+), 22 deletions(-)

diff --git a/TestingFramework/tfDiff.cpp b/TestingFramework/tfDiff.cpp
index faec11a..9572e61 100644
--- a/TestingFramework/tfDiff.cpp
+++ b/TestingFramework/tfDiff.cpp
@@ -123,15 +123,22 @@ namespace testutil {
  
       fdiag[fmid] = xbegin;
       bdiag[bmid] = xend;
+
+      // the diagonals next to the searched ones have not been reached
+      fdiag[fmid-1] = fdiag[fmid+1] = xbegin - 1;
+      bdiag[bmid-1] = bdiag[bmid+1] = xend + 1;
       
       // length it the length(depth) of the current search
       for (ptrdiff_t length = 0; ; ++length) {
 	
 
-	// foward search of edit space one iteration on valid diagonals 
-	if (fmin >= dmin) fdiag[fmin-1] = xbegin - 1;
-	if (fmax <= dmax) fdiag[fmax+1] = xbegin - 1;
+	// after the end need to make sure we still alternate even and odd
+	if (length > 0) {
+	  if (fmin > dmin) fdiag[--fmin - 1] = xbegin - 1; else ++fmin;
+	  if (fmax < dmax) fdiag[++fmax + 1] = xbegin - 1; else --fmax;
+	}
 
+	// foward search of edit space one iteration on valid diagonals 
 	// k is the diagonal
 	for (ptrdiff_t k = fmax; k >= fmin; k-=2) {
 	  ptrdiff_t x, y;
@@ -155,15 +162,13 @@ namespace testutil {
 	  }	  
 	  
 	}
-	// increment, after the end need to make sure we still
-	// alternate even and odd, but that must be done later
-	if (fmin > dmin) --fmin;
-	if (fmax < dmax) ++fmax;
-	
 	
+	if (length > 0) {
+	  if (bmin > dmin) bdiag[--bmin - 1] = xend + 1; else ++bmin;
+	  if (bmax < dmax) bdiag[++bmax + 1] = xend + 1; else --bmax;
+	}
+
 	// backwards search of edit space one iteration on valid diagonals 
-	if (bmin >= dmin) bdiag[bmin-1] = xend + 1;
-	if (bmax <= dmax) bdiag[bmax+1] = xend + 1;
 	for (ptrdiff_t k = bmax; k >= bmin; k-=2) {
 	  ptrdiff_t x, y;	  
 	  const ptrdiff_t lo = bdiag[k-1], hi = bdiag[k+1];
@@ -187,18 +192,6 @@ namespace testutil {
 	  
 	}
 
-	// after the end need to make sure we still
-	// alternate even and odd, hear only for the 1x1 case
-	if (fmin < dmin) fmin += 2;
-	if (fmax > dmax) fmax -= 2;
-	
-	
-	// increment, after the end need to make sure we still
-	// alternate even and odd
-	bmin > dmin ? --bmin : ++bmin;
-	bmax < dmax ? ++bmax : --bmax;
-
-	
       }
       
     }
-- 
2.43.0


From 35553ba725c837623033642c62ae6d75f3be0ae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:06 +0000
Subject: [PATCH 08/56] fix: free the cached data when a measurement is
 assigned

The cache was dropped without freeing it, or lost by a self assignment.
---
 TestingFramework/tfMeasurement.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/TestingFramework/tfMeasurement.cpp b/TestingFramework/tfMeasurement.cpp
index 0211c77..29b06ae 100644
--- a/TestingFramework/tfMeasurement.cpp
+++ b/TestingFramework/tfMeasurement.cpp
@@ -339,8 +339,7 @@ namespace testutil {
     
   DataMeasurement &DataMeasurement::operator=(const DataMeasurement &m) {
     this->Measurement::operator=(m);
-    this->data = 0;
-    this->dataSize = 0;
+    this->DeleteContentAsData();
     this->encoding = m.encoding;
     this->compression = m.compression;
     return *this;
-- 
2.43.0


From 1cb90477ed6700a357e56b5a6e322bfb563f3d52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:23 +0000
Subject: [PATCH 09/56] fix: keep the content of a measurement in sync with its
 data

SetContentAsData() did not set the content when no encoding was used, so
the data was lost when the measurement was printed or copied, and it read
freed memory when it was passed the data of the measurement itself.
---
 TestingFramework/tfMeasurement.cpp | 15 ++++-----------
 1 file changed, 4 insertions(+), 11 deletions(-)

diff --git a/TestingFramework/tfMeasurement.cpp b/TestingFramework/tfMeasurement.cpp
index 29b06ae..14b4cfa 100644
--- a/TestingFramework/tfMeasurement.cpp
+++ b/TestingFramework/tfMeasurement.cpp
@@ -433,27 +433,20 @@ namespace testutil {
   }
 
   void DataMeasurement::SetContentAsData(const void *_data, size_t size) {
-    this->DeleteContentAsData();
-    this->data = malloc(size);
-
-    if (!this->data) 
-      throw std::bad_alloc();
-    this->dataSize = size;
-
-    memcpy(this->data, _data, size);
+    // a copy, since this may be the data of this object
+    const std::string bytes(static_cast<const char*>(_data), size);
     
     // encode the data to be moved into the content
     if (this->GetAttributeCompression() != "none") {
       std::cerr << "unsupported compression \"" << this->GetAttributeCompression() << "\" used." << std::endl;      
-      this->DeleteContentAsData();
     }
 
     if (this->GetAttributeEncoding() == "none") {
-      
+      this->SetContent(bytes);
     } else if (this->GetAttributeEncoding() == "base64") {
       Base64 encoder;
       
-      this->SetContent(encoder.Encode(this->data, this->dataSize));
+      this->SetContent(encoder.Encode(bytes.data(), bytes.size()));
       
     } else { 
       std::cerr << "unsupported encoding \"" << this->GetAttributeEncoding() << "\" used." << std::endl;
-- 
2.43.0


From 229e3bb2ad823739ea353d6478a12894e03ea2f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:23 +0000
Subject: [PATCH 10/56] fix: drop the cached data when the encoding or
 compression changes

---
 TestingFramework/tfMeasurement.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/TestingFramework/tfMeasurement.cpp b/TestingFramework/tfMeasurement.cpp
index 14b4cfa..9b081b6 100644
--- a/TestingFramework/tfMeasurement.cpp
+++ b/TestingFramework/tfMeasurement.cpp
@@ -352,6 +352,7 @@ namespace testutil {
 
   void DataMeasurement::SetAttributeEncoding(const std::string &_encoding) {
     this->encoding = _encoding;
+    this->DeleteContentAsData();
   }
      
   const std::string &DataMeasurement::GetAttributeEncoding(void) const {
@@ -364,6 +365,7 @@ namespace testutil {
   
   void DataMeasurement::SetAttributeCompression(const std::string &_compression) {
     this->compression = _compression;
+    this->DeleteContentAsData();
   }
      
   const std::string &DataMeasurement::GetAttributeCompression(void)const {
-- 
2.43.0


From 8dbaee16c5da79e3e19fee9ad5adbbde2aa23eab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:44 +0000
Subject: [PATCH 11/56] fix: escape the attributes of a printed measurement

A name with '<', '&' or '"' resulted in output which is not XML, and can
not be read back as a baseline.
---
 TestingFramework/tfMeasurement.cpp | 28 ++++++++++++++++++++++++----
 TestingFramework/tfMeasurement.h   |  6 ++++++
 2 files changed, 30 insertions(+), 4 deletions(-)

diff --git a/TestingFramework/tfMeasurement.cpp b/TestingFramework/tfMeasurement.cpp
index 9b081b6..24ee2c7 100644
--- a/TestingFramework/tfMeasurement.cpp
+++ b/TestingFramework/tfMeasurement.cpp
@@ -158,6 +158,20 @@ namespace testutil {
   }
   
 
+  void Measurement::PrintAttributeValue(std::ostream &os, const std::string &value) const {
+    if (!this->GetApplyEscapeSequences()) {
+      os << value;
+      return;
+    }
+    const std::string escaped = this->ApplyEscapeSequences(value);
+    for (std::string::size_type i = 0; i < escaped.length(); ++i) {
+      if (escaped[i] == '"')
+	os << "&quot;";
+      else
+	os << escaped[i];
+    }
+  }
+
   void Measurement::PrintContent(std::ostream &os) const {
     if (this->GetApplyEscapeSequences()) {
       os << this->ApplyEscapeSequences(this->GetContent());
@@ -317,8 +331,11 @@ namespace testutil {
 
   void MeasurementFile::PrintStartTag(std::ostream &os) const {
       
-    os << "<" << this->GetElementTypeName() << " name=\"" << this->GetAttributeName() 
-       << "\" type=\"" << this->GetAttributeType() << "\">";
+    os << "<" << this->GetElementTypeName() << " name=\"";
+    this->PrintAttributeValue(os, this->GetAttributeName());
+    os << "\" type=\"";
+    this->PrintAttributeValue(os, this->GetAttributeType());
+    os << "\">";
   }
   
   
@@ -479,8 +496,11 @@ namespace testutil {
 
      
   void DataMeasurement::PrintStartTag(std::ostream &os) const {
-    os << "<" << this->GetElementTypeName() << " name=\"" << this->GetAttributeName() 
-       << "\" type=\"" << this->GetAttributeType() << "\"";
+    os << "<" << this->GetElementTypeName() << " name=\"";
+    this->PrintAttributeValue(os, this->GetAttributeName());
+    os << "\" type=\"";
+    this->PrintAttributeValue(os, this->GetAttributeType());
+    os << "\"";
 
     if (this->GetAttributeEncoding() != this->GetDefaultAttributeEncoding())
       os << " encoding=\"" << this->GetAttributeEncoding() << "\"";
diff --git a/TestingFramework/tfMeasurement.h b/TestingFramework/tfMeasurement.h
index 36fb2ec..68b2677 100644
--- a/TestingFramework/tfMeasurement.h
+++ b/TestingFramework/tfMeasurement.h
@@ -132,6 +132,12 @@ namespace testutil {
     /// \brief helper function to print the starting XML tag
     virtual void PrintStartTag(std::ostream &os) const = 0;
 
+    /// \brief helper function to print the value of an attribute
+    ///
+    /// by default this is the value with the escape sequences applied,
+    /// and the quotes escaped too
+    virtual void PrintAttributeValue(std::ostream &os, const std::string &value) const;
+
     /// \brief helper function to print the content of the tag
     ///
     /// by default will print Content which may have the escape
-- 
2.43.0


From 9ec14c3b0884257804b86b86a1b452caf90884ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:44 +0000
Subject: [PATCH 12/56] fix: do not truncate integer measurements to an int

The value measured is a long, so integers which differ by a multiple of
2^32 compared as equal, and the difference of two ints could overflow.
---
 TestingFramework/tfMeasurement.cpp | 6 +++---
 TestingFramework/tfMeasurement.h   | 8 ++++----
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/TestingFramework/tfMeasurement.cpp b/TestingFramework/tfMeasurement.cpp
index 24ee2c7..102c130 100644
--- a/TestingFramework/tfMeasurement.cpp
+++ b/TestingFramework/tfMeasurement.cpp
@@ -550,14 +550,14 @@ namespace testutil {
     visitor.Visit(*this);
   }
  
-  int IntegerNumeric::GetValue(void) const {
+  long IntegerNumeric::GetValue(void) const {
     std::istringstream iss(this->GetContent());
-    int v;
+    long v;
     iss >> v;
     return v;    
   }
 
-  void IntegerNumeric::SetValue(int v) {
+  void IntegerNumeric::SetValue(long v) {
     std::ostringstream oss;
     oss << v;
     this->SetContent(oss.str());
diff --git a/TestingFramework/tfMeasurement.h b/TestingFramework/tfMeasurement.h
index 68b2677..2bb6c68 100644
--- a/TestingFramework/tfMeasurement.h
+++ b/TestingFramework/tfMeasurement.h
@@ -479,14 +479,14 @@ namespace testutil {
     // see Measurement
     virtual void AcceptVisitor(MeasurementVisitor &visitor);
     
-    int GetValue(void) const;
-    void SetValue(int v); 
+    long GetValue(void) const;
+    void SetValue(long v); 
 
      // see NumericData
     virtual bool IsEqualTolerant(const NumericData &rm, double tol) {
       const IntegerNumeric *m = dynamic_cast<const IntegerNumeric*>(&rm);
-      if (m)
-	return _IsEqualTolerant(this->GetValue(), m->GetValue(), tol);
+      if (m) // the difference of two integers may not be an integer
+	return _IsEqualTolerant<long double>(this->GetValue(), m->GetValue(), tol);
       else 
 	return false;
     }
-- 
2.43.0


From b83c2bffe480675c4e0e0dbefcfba543deb54dab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:34 +0000
Subject: [PATCH 13/56] fix: do not compare content which is not a number as 0

"nan", "inf" and text can not be extracted from a stream, which results
in 0, so that such measurements compared as equal to 0 and to each other.
---
 TestingFramework/tfMeasurement.h | 28 ++++++++++++++++++++++++----
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/TestingFramework/tfMeasurement.h b/TestingFramework/tfMeasurement.h
index 2bb6c68..060854b 100644
--- a/TestingFramework/tfMeasurement.h
+++ b/TestingFramework/tfMeasurement.h
@@ -38,6 +38,7 @@
 
 #include <string> 
 #include <iostream>
+#include <sstream>
 #include <cmath>
 #include <cstdlib>
 #include <numeric>
@@ -445,6 +446,17 @@ namespace testutil {
 
   protected:
 
+    /// \brief true if the content is a finite number of type T
+    ///
+    /// Everything else ("nan", "inf", "") has no value to compare with
+    /// a tolerance, only the same content is equal.
+    template <class T>
+    static bool _IsNumber(const NumericData &m) {
+      std::istringstream iss(m.GetContent());
+      T v;
+      return (iss >> v) && (iss >> std::ws).eof();
+    }
+
     template <class T>
     static bool _IsEqualTolerant(const T &lm, const T &rm, double tol) {
       tol = std::abs(tol);
@@ -485,7 +497,9 @@ namespace testutil {
      // see NumericData
     virtual bool IsEqualTolerant(const NumericData &rm, double tol) {
       const IntegerNumeric *m = dynamic_cast<const IntegerNumeric*>(&rm);
-      if (m) // the difference of two integers may not be an integer
+      if (m && (!_IsNumber<long>(*this) || !_IsNumber<long>(*m)))
+        return this->GetContent() == m->GetContent();
+      else if (m) // the difference of two integers may not be an integer
 	return _IsEqualTolerant<long double>(this->GetValue(), m->GetValue(), tol);
       else 
 	return false;
@@ -523,7 +537,9 @@ namespace testutil {
     // see NumericData
     virtual bool IsEqualTolerant(const NumericData &rm, double tol) {
       const FloatNumeric *m = dynamic_cast<const FloatNumeric*>(&rm);
-      if (m)
+      if (m && (!_IsNumber<float>(*this) || !_IsNumber<float>(*m)))
+        return this->GetContent() == m->GetContent();
+      else if (m)
 	return _IsEqualTolerant(this->GetValue(), m->GetValue(), tol);
       else 
 	return false;
@@ -559,7 +575,9 @@ namespace testutil {
      // see NumericData
      virtual bool IsEqualTolerant(const NumericData &rm, double tol) {
        const DoubleNumeric *m = dynamic_cast<const DoubleNumeric*>(&rm);
-       if (m)
+       if (m && (!_IsNumber<double>(*this) || !_IsNumber<double>(*m)))
+         return this->GetContent() == m->GetContent();
+       else if (m)
 	 return _IsEqualTolerant(this->GetValue(), m->GetValue(), tol);
        else 
 	return false;
@@ -597,7 +615,9 @@ namespace testutil {
     // see NumericData
     virtual bool IsEqualTolerant(const NumericData &rm, double tol) {
       const BooleanNumeric *m = dynamic_cast<const BooleanNumeric*>(&rm);
-       if (m)
+       if (m && (!_IsNumber<bool>(*this) || !_IsNumber<bool>(*m)))
+         return this->GetContent() == m->GetContent();
+       else if (m)
 	 return this->GetValue() ==  m->GetValue();
        else 
 	 return false;
-- 
2.43.0


From 9ef992e7cfb402a44cbc19da19c559eb215bc663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:34 +0000
Subject: [PATCH 14/56] fix: a file which can not be opened is not equal to an
 unnamed measurement

---
 TestingFramework/tfMeasurement.cpp | 4 +++-
 TestingFramework/tfMeasurement.h   | 1 +
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/TestingFramework/tfMeasurement.cpp b/TestingFramework/tfMeasurement.cpp
index 102c130..85341a8 100644
--- a/TestingFramework/tfMeasurement.cpp
+++ b/TestingFramework/tfMeasurement.cpp
@@ -256,7 +256,7 @@ namespace testutil {
 
     if (!is) {
       std::cerr << "error opening file \"" << this->GetFileName() << "\"." << std::endl;
-      return new PlainText();
+      return 0;
     }
       
 
@@ -318,6 +318,8 @@ namespace testutil {
 	this->GetAttributeType() != m.GetAttributeType())
       return false;
     DataMeasurement *dm = Load();
+    if (!dm) // a file which can't be read is not equal to anything
+      return false;
     bool v = (m == *dm); // switch so if the are both file we can do it again
     delete dm;
 
diff --git a/TestingFramework/tfMeasurement.h b/TestingFramework/tfMeasurement.h
index 060854b..939b79d 100644
--- a/TestingFramework/tfMeasurement.h
+++ b/TestingFramework/tfMeasurement.h
@@ -221,6 +221,7 @@ namespace testutil {
     /// into the DataMeasurement object. 
     ///
     /// \note the user must delete this object with delete to free the memory.
+    /// \return 0 if the file could not be opened
     DataMeasurement *Load(void);
 
     /// \brief comparison
-- 
2.43.0


From 02de6d00a8e60235554590af496eee8ed389eee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:34 +0000
Subject: [PATCH 15/56] fix: SearchPathList returns "" when the file is not
 found

as documented; it returned the last path tried, so that a file relative to
the current directory was not found if there is any search path.
---
 FileUtilities/PathName.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/FileUtilities/PathName.cpp b/FileUtilities/PathName.cpp
index 457db61..690936a 100644
--- a/FileUtilities/PathName.cpp
+++ b/FileUtilities/PathName.cpp
@@ -294,7 +294,7 @@ namespace fileutil {
       if (fullFileName.IsFile())
 	return fullFileName;
     }
-    return fullFileName;
+    return PathName("");
   }
 
 
-- 
2.43.0


From 84da3784439997edd66da1220a425c2bf4192aeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:34 +0000
Subject: [PATCH 16/56] fix: GetCurrentDirectory of a path longer than 1023
 characters

The failure of getcwd was ignored, and an uninitialised buffer was used.
---
 FileUtilities/FileUtilities.cpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/FileUtilities/FileUtilities.cpp b/FileUtilities/FileUtilities.cpp
index 85ce031..d30ab00 100644
--- a/FileUtilities/FileUtilities.cpp
+++ b/FileUtilities/FileUtilities.cpp
@@ -47,6 +47,8 @@
 
 #include <stdexcept>
 #include <stdlib.h>
+#include <errno.h>
+#include <vector>
 #include <iostream> 
 
 #define MAX_PATH 1024
@@ -97,9 +99,14 @@ namespace fileutil {
     struct stat s;
 
     if (!stat(".", &s)) {
-      char currentName[MAX_PATH];
-      getcwd(currentName, MAX_PATH);
-      result = currentName;
+      // the path may be longer than MAX_PATH
+      std::vector<char> currentName(MAX_PATH);
+      while (!getcwd(&currentName[0], currentName.size())) {
+	if (errno != ERANGE)
+	  return PathName("");
+	currentName.resize(currentName.size()*2);
+      }
+      result = &currentName[0];
     }
     return PathName(result);
   }
-- 
2.43.0


From f8f876a154365eac734a58a6532347b07d165a02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:35 +0000
Subject: [PATCH 17/56] fix: do not loop forever if the last option has no
 value

---
 TestingFramework/tfRegressionTest.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/TestingFramework/tfRegressionTest.cpp b/TestingFramework/tfRegressionTest.cpp
index 5e95254..09097ba 100644
--- a/TestingFramework/tfRegressionTest.cpp
+++ b/TestingFramework/tfRegressionTest.cpp
@@ -204,6 +204,12 @@ const fileutil::PathList &RegressionTest::GetInFileSearchPath(void) const {
 	
     for (int i = 1; i < argc;) 
       {      
+      // all of the options have a value
+      if (i == argc-1 &&
+          (!strcmp("-O", argv[i]) || !strcmp("-I", argv[i]) || !strcmp("-R", argv[i]) || !strcmp("-P", argv[i])))
+        {
+        throw std::runtime_error(std::string("expected a value to follow \"") + argv[i] + "\"!");
+        }
       // output filename option
       if (!strcmp("-O", argv[i])) 
         {
-- 
2.43.0


From ff5cc85fd16b849a726f0f67b0845f674f4b7713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:35 +0000
Subject: [PATCH 18/56] fix: accept an input file which is found in the search
 path

-I required the file to exist relative to the current directory, even
though the input file is searched for in the paths given by -P.
---
 TestingFramework/tfRegressionTest.cpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/TestingFramework/tfRegressionTest.cpp b/TestingFramework/tfRegressionTest.cpp
index 09097ba..96316d5 100644
--- a/TestingFramework/tfRegressionTest.cpp
+++ b/TestingFramework/tfRegressionTest.cpp
@@ -235,12 +235,6 @@ const fileutil::PathList &RegressionTest::GetInFileSearchPath(void) const {
           {
 	  
 	  infname = argv[i+1];	 
-          fileutil::PathName pn(infname);
-	  if (!pn.IsFile() || !pn.IsReadable()) 
-            {	  
-            throw std::runtime_error(std::string("unable to read input file \"") + infname + "\"!");
- 	    infname = 0;
-            } 
 
 	  for (int j = i; j+2 < argc; ++j)
 	    std::swap(argv[j+2], argv[j]);
@@ -290,7 +284,14 @@ const fileutil::PathList &RegressionTest::GetInFileSearchPath(void) const {
       }
 
     if (infname)
+      {
+      // all of the search path is known now
       this->SetInFileName(infname);
+      if (!this->GetCompareMode())
+        {
+        throw std::runtime_error(std::string("unable to read input file \"") + infname + "\"!");
+        }
+      }
     if (outfname)
       this->SetOutFileName(outfname);
   }
-- 
2.43.0


From 5f58c484866d44574e1d3f03a24b59961169188f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:35 +0000
Subject: [PATCH 19/56] fix: report failure if a test ends with an exception
 and -R -1

and if the input file is no longer found after the test, for example since
the test changed the current directory.
---
 TestingFramework/tfRegressionTest.cpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/TestingFramework/tfRegressionTest.cpp b/TestingFramework/tfRegressionTest.cpp
index 96316d5..22c2d7b 100644
--- a/TestingFramework/tfRegressionTest.cpp
+++ b/TestingFramework/tfRegressionTest.cpp
@@ -340,13 +340,11 @@ const fileutil::PathList &RegressionTest::GetInFileSearchPath(void) const {
       {
       return ret;
       }
-    else if ( this->GetCompareMode() )
-      {
-      return this->inputUnmatched;
-      }
     else 
       {
-      return EXIT_SUCCESS;
+      // the number of measurements which did not match, or that the
+      // test was not completed
+      return this->inputUnmatched;
       }
 
   }
-- 
2.43.0


From 0bf83c3da3873183a94d038d3ff0bedb605985a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:35 +0000
Subject: [PATCH 20/56] fix: close the files when a test ends with an exception

The measurements output so far were not flushed, the streams and the
baseline leaked, and the next call of Main used them.
---
 TestingFramework/tfRegressionTest.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/TestingFramework/tfRegressionTest.cpp b/TestingFramework/tfRegressionTest.cpp
index 22c2d7b..8be8539 100644
--- a/TestingFramework/tfRegressionTest.cpp
+++ b/TestingFramework/tfRegressionTest.cpp
@@ -306,7 +306,8 @@ const fileutil::PathList &RegressionTest::GetInFileSearchPath(void) const {
 
 
     try {
-      this->inputUnmatched++;
+      // until the test is completed
+      this->inputUnmatched = 1;
       
       this->ParseAndRemoveArguments(argc, argv);
       
@@ -336,6 +337,14 @@ const fileutil::PathList &RegressionTest::GetInFileSearchPath(void) const {
       catch(...) {
 	std::cerr << "unknow exception" << std::endl;
       }
+
+    // if there was an exception, then these are still open
+    this->ReadXMLInputFree();
+    delete this->os;
+    this->os = 0;
+    delete this->is;
+    this->is = 0;
+
     if ( ret != this->GetExpectedReturn() )
       {
       return ret;
-- 
2.43.0


From b7b7e0a3edd9d751984c272faa21bf7206876619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:35 +0000
Subject: [PATCH 21/56] fix: report failure if the output file can not be
 written

A full disk resulted in a truncated baseline and a successful test.
---
 TestingFramework/tfRegressionTest.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/TestingFramework/tfRegressionTest.cpp b/TestingFramework/tfRegressionTest.cpp
index 8be8539..05b63b3 100644
--- a/TestingFramework/tfRegressionTest.cpp
+++ b/TestingFramework/tfRegressionTest.cpp
@@ -182,6 +182,8 @@ const fileutil::PathList &RegressionTest::GetInFileSearchPath(void) const {
       this->ReadXMLInputFree();
 
     if (this->os) {
+      if (!this->os->flush())
+	throw std::runtime_error("failure writing output file \"" + this->GetOutFileName() + "\"!");
       delete this->os;
       this->os = 0;
     }
-- 
2.43.0


From 07eb74bbcec7dda6dea00aea7aeee6e7caad02e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:35 +0000
Subject: [PATCH 22/56] fix: do not crash on, or leak, an unexpected baseline

A measurement without a type was dereferenced as a null pointer, and a
nested element or the end of the file inside of a measurement aborted.
---
 TestingFramework/tfRegressionTest.cpp | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/TestingFramework/tfRegressionTest.cpp b/TestingFramework/tfRegressionTest.cpp
index 05b63b3..c7addb7 100644
--- a/TestingFramework/tfRegressionTest.cpp
+++ b/TestingFramework/tfRegressionTest.cpp
@@ -626,7 +626,12 @@ namespace {
 
     struct XMLParseData {
       XMLParseData(void) : depth(0), m(0) {}
-      ~XMLParseData(void) { assert(!m);}
+      ~XMLParseData(void) {
+	// whatever is left, if the parsing did not finish
+	delete m;
+	for (std::list<Measurement*>::iterator i = measurements.begin(); i != measurements.end(); ++i)
+	  delete *i;
+      }
       int depth;
       std::string data;
       Measurement *m;
@@ -636,9 +641,6 @@ namespace {
 
     void start(void *data, const char *el, const char **attr) {  
       XMLParseData &pd = *reinterpret_cast<XMLParseData*>(data);
-      
-      assert(!pd.m);
-      assert(pd.data.length() == 0);
 
       if (pd.depth == 0) {
 	if (el && std::string(el) != "output" ) {
@@ -661,6 +663,10 @@ namespace {
 	      }
 	    }
 	  }
+	  if (!dm) {
+	    std::cerr << "XML: expected a type for dart measurement" << std::endl;
+	    dm = new PlainText;
+	  }
 	  pd.m = dm;
 		
 	  // get what we know, but we can't really set any of these yet
@@ -777,8 +783,10 @@ namespace {
       
       this->GetInStream().read(buff, BUFFSIZE);
 
-      if (!this->GetInStream().eof() && !this->GetInStream())
+      if (!this->GetInStream().eof() && !this->GetInStream()) {
+	XML_ParserFree(parser);
 	throw std::runtime_error("XML:read error");
+      }
 
       if ((done = this->GetInStream().eof()))
 	len = size%BUFFSIZE;
@@ -788,6 +796,7 @@ namespace {
       if (!XML_ParseBuffer(parser, len, done)) 	{
 	std::cerr <<  "XML:Parse error at line " << XML_GetCurrentLineNumber(parser)
 		  << ": \"" << XML_ErrorString(XML_GetErrorCode(parser)) << "\"\n";
+	XML_ParserFree(parser);
 	throw std::runtime_error("parse error");
       }
 
-- 
2.43.0


From a3c8b3f81c1ce65c0280b10b3e6be958c76a257a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:35 +0000
Subject: [PATCH 23/56] fix: write a valid comment for every host name

"--", as in xn--name, ends a comment early, and the buffer was not
initialised if the host name is not available.
---
 TestingFramework/tfRegressionTest.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/TestingFramework/tfRegressionTest.cpp b/TestingFramework/tfRegressionTest.cpp
index c7addb7..d8e7a85 100644
--- a/TestingFramework/tfRegressionTest.cpp
+++ b/TestingFramework/tfRegressionTest.cpp
@@ -609,8 +609,13 @@ const fileutil::PathList &RegressionTest::GetInFileSearchPath(void) const {
 #if defined(WIN32)
     strcpy(hostname, "unknow windows host");
 #else
-    gethostname(hostname, 256);
+    if (gethostname(hostname, 256))
+      strcpy(hostname, "unknown host");
+    hostname[255] = '\0';
 #endif
+    // "--" is not allowed in a comment
+    for (char *c = hostname; (c = strstr(c, "--")); ++c)
+      c[1] = '_';
     this->GetOutStream() << "<?xml version=\"1.0\" encoding=\"US-ASCII\"?>" << std::endl;
     this->GetOutStream() << "<!-- created on "  << hostname << " at " <<ctime(&t) << " -->" << std::endl;
     this->GetOutStream() << "<output>" << std::endl;
-- 
2.43.0


From b6fbb8b8ddfdff2853e9bbf6fd1892ec1d0f8222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:35 +0000
Subject: [PATCH 24/56] fix: return 0 from CompareMeasurement if the
 measurements are the same

as documented; 0 and 1 were exchanged.
---
 TestingFramework/tfRegressionTest.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/TestingFramework/tfRegressionTest.cpp b/TestingFramework/tfRegressionTest.cpp
index d8e7a85..ba87b55 100644
--- a/TestingFramework/tfRegressionTest.cpp
+++ b/TestingFramework/tfRegressionTest.cpp
@@ -428,13 +428,13 @@ const fileutil::PathList &RegressionTest::GetInFileSearchPath(void) const {
         if ( vis->GetResult() )
           {
           // the results matched
-          ret = 1;
+          ret = 0;
           this->MatchedMeasurement(test);
           }
         else 
           {
           // the results differ
-          ret = 0;
+          ret = 1;
           this->DifferenceMeasurement(test, *baseline);
           }
         
-- 
2.43.0


From 296163954f27111d11f0e3e5515490c082e23b8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:13 +0000
Subject: [PATCH 25/56] fix: make DifferenceImageFilter work with the installed
 version of ITK

---
 itktf/itktfDifferenceImageFilter.h   | 9 ++++++---
 itktf/itktfDifferenceImageFilter.txx | 9 ++++++---
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/itktf/itktfDifferenceImageFilter.h b/itktf/itktfDifferenceImageFilter.h
index f8f550c..3bef121 100644
--- a/itktf/itktfDifferenceImageFilter.h
+++ b/itktf/itktfDifferenceImageFilter.h
@@ -22,6 +22,8 @@
 #include "itkArray.h"
 #include "itkVariableLengthVector.h"
 
+#include <numeric>
+
 namespace itk
 {
 
@@ -39,7 +41,7 @@ template<typename T>
 itk::VariableLengthVector<T>
 ZeroValue( const itk::VariableLengthVector<T> &v )
 {
-  return  itk::NumericTraits<itk::VariableLengthVector<T> >::Zero(v); 
+  return  itk::NumericTraits<itk::VariableLengthVector<T> >::ZeroValue(v); 
 }
 
 template<typename TPixelType>
@@ -53,7 +55,8 @@ template<typename T, unsigned int D>
 typename NumericTraits< FixedArray<T,D> >::ScalarRealType 
 SquaredTwoNorm( const FixedArray<T,D> &v)
 {
-  return std::inner_product( v.Begin(), v.End(), v.Begin(), v.End(), NumericTraits<T>::Zero );
+  return std::inner_product( v.Begin(), v.End(), v.Begin(),
+                             NumericTraits<typename NumericTraits< FixedArray<T,D> >::ScalarRealType>::Zero );
 }
 
 template<typename T>
@@ -160,7 +163,7 @@ protected:
    * \sa ImageToImageFilter::ThreadedGenerateData(),
    *     ImageToImageFilter::GenerateData()  */
   void ThreadedGenerateData(const OutputImageRegionType& threadRegion,
-                            int threadId);
+                            ThreadIdType threadId);
 
   void BeforeThreadedGenerateData();
   void AfterThreadedGenerateData();
diff --git a/itktf/itktfDifferenceImageFilter.txx b/itktf/itktfDifferenceImageFilter.txx
index 79ecd92..87db994 100644
--- a/itktf/itktfDifferenceImageFilter.txx
+++ b/itktf/itktfDifferenceImageFilter.txx
@@ -37,6 +37,9 @@ DifferenceImageFilter<TInputImage, TOutputImage>
 {
   // We require two inputs to execute.
   this->SetNumberOfRequiredInputs(2);
+
+  // ThreadedGenerateData() uses the thread id
+  this->DynamicMultiThreadingOff();
   
   // Set the default MagnitudeThreshold.
   m_MagnitudeThreshold = NumericTraits<ScalarRealType>::Zero;
@@ -94,7 +97,7 @@ void
 DifferenceImageFilter<TInputImage, TOutputImage>
 ::BeforeThreadedGenerateData()
 {
-  int numberOfThreads = this->GetNumberOfThreads();
+  const unsigned int numberOfThreads = this->GetNumberOfWorkUnits();
   
   // Resize the thread temporaries
   m_ThreadMagnitudeSum.resize(numberOfThreads);
@@ -111,7 +114,7 @@ DifferenceImageFilter<TInputImage, TOutputImage>
 template <class TInputImage, class TOutputImage>
 void
 DifferenceImageFilter<TInputImage, TOutputImage>
-::ThreadedGenerateData(const OutputImageRegionType &threadRegion, int threadId)
+::ThreadedGenerateData(const OutputImageRegionType &threadRegion, ThreadIdType threadId)
 {
   typedef ConstNeighborhoodIterator<InputImageType>   SmartIterator;
   typedef ImageRegionConstIterator<InputImageType>    InputIterator;
@@ -197,7 +200,7 @@ DifferenceImageFilter<TInputImage, TOutputImage>
           // Store the minimum difference value in the output image.
           out.Set( static_cast<OutputPixelType>(minimumDifference) );
           // Update difference image statistics.
-          m_ThreadMagnitudeSum[threadId] += vcl_sqrt( minimumMagnitude2 );
+          m_ThreadMagnitudeSum[threadId] += std::sqrt( minimumMagnitude2 );
           m_ThreadNumberOfPixels[threadId]++;
           }
         else
-- 
2.43.0


From 9a020b5013e17f806f46e3f9b99bd80e696c06a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:19 +0000
Subject: [PATCH 26/56] fix: compare images no matter where they are in
 physical space

---
 itktf/itktfDifferenceImageFilter.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/itktf/itktfDifferenceImageFilter.h b/itktf/itktfDifferenceImageFilter.h
index 3bef121..f3bbf02 100644
--- a/itktf/itktfDifferenceImageFilter.h
+++ b/itktf/itktfDifferenceImageFilter.h
@@ -165,6 +165,10 @@ protected:
   void ThreadedGenerateData(const OutputImageRegionType& threadRegion,
                             ThreadIdType threadId);
 
+  /** The images are compared pixel by pixel, no matter where they are in
+   * physical space. */
+  void VerifyInputInformation() const {}
+
   void BeforeThreadedGenerateData();
   void AfterThreadedGenerateData();
  
-- 
2.43.0


From 73fce9455c1f0c23093013a9a45742e2c21a2e28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:24 +0000
Subject: [PATCH 27/56] fix: compare the origin of the images

---
 itktf/itktfCompareVisitor.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/itktf/itktfCompareVisitor.cxx b/itktf/itktfCompareVisitor.cxx
index aca3b0d..6aae6f7 100644
--- a/itktf/itktfCompareVisitor.cxx
+++ b/itktf/itktfCompareVisitor.cxx
@@ -120,7 +120,7 @@ int CompareVisitor::RegressionTestImage (const char *testImageFilename,
   // todo change to some kind of fuzzy a test.
   ImageType::PointType baselineOrigin = baselineReader->GetOutput()->GetOrigin();
   ImageType::PointType testOrigin = testReader->GetOutput()->GetOrigin();
-  if ( baselineOrigin != baselineOrigin )
+  if ( baselineOrigin != testOrigin )
     {
     return 1;
     }
-- 
2.43.0


From 5556e26cc928c602d4ebb470fa5d39159fe177b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:28 +0000
Subject: [PATCH 28/56] fix: do not subtract the number of pixels tolerance
 twice

---
 itktf/itktfCompareVisitor.cxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/itktf/itktfCompareVisitor.cxx b/itktf/itktfCompareVisitor.cxx
index 6aae6f7..eb66a1d 100644
--- a/itktf/itktfCompareVisitor.cxx
+++ b/itktf/itktfCompareVisitor.cxx
@@ -135,8 +135,8 @@ int CompareVisitor::RegressionTestImage (const char *testImageFilename,
                                            numberOfPixelsTolerance,
                                            radiusTolerance );
   
-
-  return (status > numberOfPixelsTolerance) ? 1 : 0;
+  // the tolerance is already substracted
+  return status ? 1 : 0;
 }
 
 }
-- 
2.43.0


From 4ea02375a579aa541062dc18f912ca9039173b02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:34 +0000
Subject: [PATCH 29/56] fix: only compare the measured region of an image

---
 itktf/itktfRegression.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/itktf/itktfRegression.h b/itktf/itktfRegression.h
index 74d7739..be7d508 100644
--- a/itktf/itktfRegression.h
+++ b/itktf/itktfRegression.h
@@ -272,7 +272,9 @@ public:
       diff->SetTestInput( testImage );
       diff->SetMagnitudeThreshold( intensityTolerance );
       diff->SetToleranceRadius( radiusTolerance );
-      diff->UpdateLargestPossibleRegion();
+      diff->UpdateOutputInformation();
+      diff->GetOutput()->SetRequestedRegion( region );
+      diff->Update();
 
       status = diff->GetNumberOfPixelsWithDifferences();
       }
-- 
2.43.0


From 99457d5a96c25181b15b8b0d2115e2a479cc2a40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:36 +0000
Subject: [PATCH 30/56] fix: do not append the directory of the program to the
 root path

---
 itktf/itktfRegression.cxx | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/itktf/itktfRegression.cxx b/itktf/itktfRegression.cxx
index e05320f..1c4b9d7 100644
--- a/itktf/itktfRegression.cxx
+++ b/itktf/itktfRegression.cxx
@@ -72,8 +72,9 @@ std::string Regression::GenerateFileName( std::string fileExtension, std::string
 
   if ( rootPath != "" )
     {
-    // append the root path to the genereate file name
-    return fileutil::PathName( rootPath ).Append( fileutil::PathName( strstream.str() ) ).GetPathName();
+    // append the generate file name to the root path, with out the
+    // directory of the program
+    return fileutil::PathName( rootPath ).Append( fileutil::PathName( strstream.str() ).Tail() ).GetPathName();
       }
   else 
     {
-- 
2.43.0


From 8c73ac1bf1b068cdf1cbbbb62561850c808b7d98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:36 +0000
Subject: [PATCH 31/56] fix: remove the observers when a FilterWatcher is
 destroyed

---
 itktf/itktfFilterWatcher.h | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/itktf/itktfFilterWatcher.h b/itktf/itktfFilterWatcher.h
index 0976e9a..88de589 100644
--- a/itktf/itktfFilterWatcher.h
+++ b/itktf/itktfFilterWatcher.h
@@ -20,6 +20,7 @@
 #include "itkCommand.h"
 #include "itkProcessObject.h"
 #include <time.h>
+#include <vector>
 
 namespace itk 
 {
@@ -36,7 +37,7 @@ public:
   FilterWatcher(itk::ProcessObject* o, std::ostream &_os = std::cout, const char *comment="")
     : os(_os)
   {
-     m_Process = o; m_Steps = 0; m_Comment = comment;
+     m_Process = o; m_Steps = 0; m_Iterations = 0; m_Comment = comment;
     itk::SimpleMemberCommand<FilterWatcher>::Pointer startFilterCommand;
     itk::SimpleMemberCommand<FilterWatcher>::Pointer endFilterCommand;
     itk::SimpleMemberCommand<FilterWatcher>::Pointer progressFilterCommand;
@@ -55,14 +56,19 @@ public:
     iterationFilterCommand->SetCallbackFunction(this, &FilterWatcher::ShowIteration);
     abortFilterCommand->SetCallbackFunction(this, &FilterWatcher::ShowAbort);
 
-    m_Process->AddObserver(itk::StartEvent(), startFilterCommand);
-    m_Process->AddObserver(itk::EndEvent(), endFilterCommand);
-    m_Process->AddObserver(itk::ProgressEvent(), progressFilterCommand);
-    m_Process->AddObserver(itk::IterationEvent(), iterationFilterCommand);
-    m_Process->AddObserver(itk::AbortEvent(), abortFilterCommand);
+    m_Tags.push_back(m_Process->AddObserver(itk::StartEvent(), startFilterCommand));
+    m_Tags.push_back(m_Process->AddObserver(itk::EndEvent(), endFilterCommand));
+    m_Tags.push_back(m_Process->AddObserver(itk::ProgressEvent(), progressFilterCommand));
+    m_Tags.push_back(m_Process->AddObserver(itk::IterationEvent(), iterationFilterCommand));
+    m_Tags.push_back(m_Process->AddObserver(itk::AbortEvent(), abortFilterCommand));
   }
 
-  virtual ~FilterWatcher() {}
+  virtual ~FilterWatcher()
+  {
+    // the process may be used after this is gone
+    for (size_t i = 0; i < m_Tags.size(); ++i)
+      m_Process->RemoveObserver(m_Tags[i]);
+  }
 
   virtual void ShowProgress() {}
 
@@ -105,6 +111,10 @@ protected:
 
 private:
   FilterWatcher(); // Purposely not implemented
+  FilterWatcher(const FilterWatcher&); // Purposely not implemented
+  void operator=(const FilterWatcher&); // Purposely not implemented
+
+  std::vector<unsigned long> m_Tags; // of the observers
 };
 
 }
-- 
2.43.0


From 02720d5da615e35403f3664dbb9eaec0bbe9353d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:38 +0000
Subject: [PATCH 32/56] fix: itktfImageCompare returns failure for any number
 of differences

---
 itktf/itktfImageCompare.cxx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/itktf/itktfImageCompare.cxx b/itktf/itktfImageCompare.cxx
index a74bfa8..2378adb 100644
--- a/itktf/itktfImageCompare.cxx
+++ b/itktf/itktfImageCompare.cxx
@@ -116,5 +116,6 @@ public:
 int main( int argc, char * argv[] )
 {
   itktfImageCompareRegressionTest test;
-  return test.Main( argc, argv );
+  // only the low 8 bits of the number of differences would be returned
+  return test.Main( argc, argv ) ? EXIT_FAILURE : EXIT_SUCCESS;
 }
-- 
2.43.0


From 1eba130cc7c9d1ba155a021b0b1227a2bce06c5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:39 +0000
Subject: [PATCH 33/56] fix: only capture the standard output in tfPipeToXML

---
 TestingFramework/tfPipeToXML.cxx | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/TestingFramework/tfPipeToXML.cxx b/TestingFramework/tfPipeToXML.cxx
index 4e7a733..3ade1be 100644
--- a/TestingFramework/tfPipeToXML.cxx
+++ b/TestingFramework/tfPipeToXML.cxx
@@ -40,6 +40,10 @@ protected:
     itksysProcess* kp =  itksysProcess_New();
 
     itksysProcess_SetCommand(kp, cmd);
+    delete [] cmd; // is copied
+
+    // only the standard output is the measurement
+    itksysProcess_SetPipeShared(kp, itksysProcess_Pipe_STDERR, 1);
 
   
     itksysProcess_Execute(kp);
-- 
2.43.0


From 2328ae58a3b75257b3db30bf289872abd5390435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:45 +0000
Subject: [PATCH 34/56] fix: a pixel which is not a number is different to one
 which is

---
 itktf/itktfDifferenceImageFilter.h   | 16 ++++++++++++++++
 itktf/itktfDifferenceImageFilter.txx |  4 ++--
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/itktf/itktfDifferenceImageFilter.h b/itktf/itktfDifferenceImageFilter.h
index f3bbf02..3062cee 100644
--- a/itktf/itktfDifferenceImageFilter.h
+++ b/itktf/itktfDifferenceImageFilter.h
@@ -172,6 +172,22 @@ protected:
   void BeforeThreadedGenerateData();
   void AfterThreadedGenerateData();
  
+  /** The squared magnitude of the difference of two pixels. When there is
+   * no difference, since a pixel is not a number or the pixels are infinite,
+   * then the magnitude is 0 if both are, and otherwise infinite. */
+  template <class TPixel>
+  static ScalarRealType SquaredMagnitude(const RealType &difference, const TPixel &p1, const TPixel &p2)
+  {
+    const ScalarRealType magnitude2 = Math::SquaredTwoNorm( difference );
+    if (magnitude2 == magnitude2)
+      return magnitude2;
+
+    const ScalarRealType m1 = Math::SquaredTwoNorm( static_cast<RealType>(p1) );
+    const ScalarRealType m2 = Math::SquaredTwoNorm( static_cast<RealType>(p2) );
+    return (m1 == m1) == (m2 == m2) ? NumericTraits<ScalarRealType>::Zero
+                                    : std::numeric_limits<ScalarRealType>::infinity();
+  }
+
   ScalarRealType m_MagnitudeThreshold;
   ScalarRealType m_MeanMagnitude;
   ScalarRealType m_TotalMagnitude;
diff --git a/itktf/itktfDifferenceImageFilter.txx b/itktf/itktfDifferenceImageFilter.txx
index 87db994..f1e8f32 100644
--- a/itktf/itktfDifferenceImageFilter.txx
+++ b/itktf/itktfDifferenceImageFilter.txx
@@ -165,7 +165,7 @@ DifferenceImageFilter<TInputImage, TOutputImage>
         //  Assume a good match - so test center pixel first, for speed
         RealType minimumDifference = static_cast<RealType>(c) - test.GetCenterPixel();
         
-        ScalarRealType minimumMagnitude2 = Math::SquaredTwoNorm( minimumDifference );
+        ScalarRealType minimumMagnitude2 = this->SquaredMagnitude( minimumDifference, c, test.GetCenterPixel() );
 
         // If center pixel isn't good enough, then test the neighborhood
         if( minimumMagnitude2 > m_MagnitudeThreshold * m_MagnitudeThreshold )
@@ -178,7 +178,7 @@ DifferenceImageFilter<TInputImage, TOutputImage>
             // Use the RealType for the difference to make sure we get the
             // sign.
             RealType difference = static_cast<RealType>(c) - test.GetPixel(i);
-            ScalarRealType magnitude2 = Math::SquaredTwoNorm( difference );
+            ScalarRealType magnitude2 = this->SquaredMagnitude( difference, c, test.GetPixel(i) );
             
             // update to the minimum values
             if ( magnitude2 < minimumMagnitude2 )
-- 
2.43.0


From 72f832708e6b4fe481ddb08866fc6137e3927402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:11 +0000
Subject: [PATCH 35/56] fix: do not double the separator when appending to the
 root directory

---
 FileUtilities/PathName.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/FileUtilities/PathName.cpp b/FileUtilities/PathName.cpp
index 690936a..87e3c91 100644
--- a/FileUtilities/PathName.cpp
+++ b/FileUtilities/PathName.cpp
@@ -146,6 +146,9 @@ namespace fileutil {
       while (i && path[i] == '/')
 	--i;
       path.erase(i + 1, path.length() - i - 1);
+      // the separator of the root directory itself
+      if (path[i] == '/')
+	path.erase(i);
       this->SetPathName(path + '/' + f.GetNativePathName());      
     
 #endif
-- 
2.43.0


From 3d90520f8e9b7022d9962a6d0dcdde28c5b2581f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:49 +0000
Subject: [PATCH 36/56] fix: a nested element in a baseline measurement dropped
 the measurement

---
 TestingFramework/tfRegressionTest.cpp | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/TestingFramework/tfRegressionTest.cpp b/TestingFramework/tfRegressionTest.cpp
index ba87b55..2a83c09 100644
--- a/TestingFramework/tfRegressionTest.cpp
+++ b/TestingFramework/tfRegressionTest.cpp
@@ -724,19 +724,17 @@ namespace {
     void end(void *data, const char *el) { 
       XMLParseData &pd = *reinterpret_cast<XMLParseData*>(data); 
 
-      if (pd.m && pd.depth == 2) {
-	//	pd.data += '\0';
-	pd.m->SetContent(pd.data);	
-	pd.measurements.push_back(pd.m);
-      } else if (pd.m) {
-	// may not be posible, but let's make sure we keep things clean
-	delete pd.m;
+      // nested elements are ignored, a message was printed at their start
+      if (pd.depth == 2) {
+	if (pd.m) {
+	  //	pd.data += '\0';
+	  pd.m->SetContent(pd.data);
+	  pd.measurements.push_back(pd.m);
+	}
+	pd.m = 0;
+	pd.data.resize(0);
       }
 
-      pd.m = 0;
-      
-      pd.data.resize(0);
-
       --pd.depth;
     }
             
-- 
2.43.0


From 429723dbd48a1a1c9e7ecbb2346655d0560db8dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:12 +0000
Subject: [PATCH 37/56] fix: report failure if the output file is not writable

---
 TestingFramework/tfRegressionTest.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/TestingFramework/tfRegressionTest.cpp b/TestingFramework/tfRegressionTest.cpp
index 2a83c09..f7d087f 100644
--- a/TestingFramework/tfRegressionTest.cpp
+++ b/TestingFramework/tfRegressionTest.cpp
@@ -221,8 +221,7 @@ const fileutil::PathList &RegressionTest::GetInFileSearchPath(void) const {
           fileutil::PathName pn(outfname);
 	  if (pn.IsFile() && !pn.IsWritable()) 
             {
-	    std::cerr << "unable to write to file \"" << outfname << "\"!" << std::endl;
-	    outfname = 0;
+	    throw std::runtime_error(std::string("unable to write to file \"") + outfname + "\"!");
             }
 
 	  for (int j = i; j+2 < argc; ++j)
-- 
2.43.0


From 42e8751d995088d75d168b1ec71e523f1a672245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:13 +0000
Subject: [PATCH 38/56] fix: do not get a pixel of an empty face of the image

---
 itktf/itktfDifferenceImageFilter.txx | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/itktf/itktfDifferenceImageFilter.txx b/itktf/itktfDifferenceImageFilter.txx
index f1e8f32..0bb3f3b 100644
--- a/itktf/itktfDifferenceImageFilter.txx
+++ b/itktf/itktfDifferenceImageFilter.txx
@@ -216,12 +216,10 @@ DifferenceImageFilter<TInputImage, TOutputImage>
     else
       {
 
-      valid.GoToBegin();
-      InputPixelType c = valid.Get();
-
-      for(out.GoToBegin(); !out.IsAtEnd(); ++out)
+      // the face may be empty, then there is no pixel to get
+      for(valid.GoToBegin(), out.GoToBegin(); !out.IsAtEnd(); ++valid, ++out)
         {
-        out.Set( Math::ZeroValue(c));
+        out.Set( Math::ZeroValue( valid.Get() ) );
         progress.CompletedPixel();
         }
       }
-- 
2.43.0


From c8d14961779eea61229831ba55b28399e8caa6d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:17 +0000
Subject: [PATCH 39/56] fix: request the neighborhood of the test image in
 DifferenceImageFilter

---
 itktf/itktfDifferenceImageFilter.h   |  4 ++++
 itktf/itktfDifferenceImageFilter.txx | 18 ++++++++++++++++++
 2 files changed, 22 insertions(+)

diff --git a/itktf/itktfDifferenceImageFilter.h b/itktf/itktfDifferenceImageFilter.h
index 3062cee..d09f1d0 100644
--- a/itktf/itktfDifferenceImageFilter.h
+++ b/itktf/itktfDifferenceImageFilter.h
@@ -169,6 +169,10 @@ protected:
    * physical space. */
   void VerifyInputInformation() const {}
 
+  /** The neighborhood of every requested pixel is needed of the test image,
+   * wherever that is in the image. */
+  void GenerateInputRequestedRegion();
+
   void BeforeThreadedGenerateData();
   void AfterThreadedGenerateData();
  
diff --git a/itktf/itktfDifferenceImageFilter.txx b/itktf/itktfDifferenceImageFilter.txx
index 0bb3f3b..4677f45 100644
--- a/itktf/itktfDifferenceImageFilter.txx
+++ b/itktf/itktfDifferenceImageFilter.txx
@@ -91,6 +91,24 @@ DifferenceImageFilter<TInputImage, TOutputImage>
   this->SetInput(1, testImage);
 }
 
+//----------------------------------------------------------------------------
+template<class TInputImage, class TOutputImage>
+void
+DifferenceImageFilter<TInputImage, TOutputImage>
+::GenerateInputRequestedRegion()
+{
+  this->Superclass::GenerateInputRequestedRegion();
+
+  InputImageType* testImage = const_cast<InputImageType*>( this->GetInput(1) );
+  if ( testImage )
+    {
+    typename InputImageType::RegionType region = testImage->GetRequestedRegion();
+    region.PadByRadius( m_ToleranceRadius );
+    region.Crop( testImage->GetLargestPossibleRegion() );
+    testImage->SetRequestedRegion( region );
+    }
+}
+
 //----------------------------------------------------------------------------
 template<class TInputImage, class TOutputImage>
 void
-- 
2.43.0


From 3f3a0c965283ae7599759e28869e2a267652aff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:35 +0000
Subject: [PATCH 40/56] fix: write the images of a difference

With more than two dimensions ExtractImageFilter requires that the
strategy for collapsing the direction is set. It was not, so the images
named in the report of a difference were never written.
---
 itktf/itktfDifferenceVisitor.cxx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/itktf/itktfDifferenceVisitor.cxx b/itktf/itktfDifferenceVisitor.cxx
index 80d378a..f4c08d2 100644
--- a/itktf/itktfDifferenceVisitor.cxx
+++ b/itktf/itktfDifferenceVisitor.cxx
@@ -110,6 +110,8 @@ int ImageThing( typename ImageType::ConstPointer image,
   typename ExtractType::Pointer extract = ExtractType::New();
   extract->SetInput( image );
   extract->SetExtractionRegion( region );
+  // the extracted slice is only looked at, so its orientation does not matter
+  extract->SetDirectionCollapseToIdentity();
 
   typename RescaleType::Pointer rescale = RescaleType::New();
   rescale->SetOutputMinimum( itk::NumericTraits<OutputPixelType>::NonpositiveMin() );
-- 
2.43.0


From 9492189f91febfd65d9fdf9311ec9b140fe5b505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:00 +0000
Subject: [PATCH 41/56] fix: refuse malformed tolerances in itktfImageCompare

"--numberOfPixelTolerance -1" was taken as the largest number, which
accepts every image, and "1,5" as 1.
---
 itktf/itktfImageCompare.cxx | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/itktf/itktfImageCompare.cxx b/itktf/itktfImageCompare.cxx
index 2378adb..bb02b8e 100644
--- a/itktf/itktfImageCompare.cxx
+++ b/itktf/itktfImageCompare.cxx
@@ -1,6 +1,19 @@
 
 #include "itktf/itktfRegression.h"
 
+#include <limits>
+#include <sstream>
+
+// the conversion must succeed and use all of the text
+template< typename T >
+static bool ConvertArgument( const char *arg, T &value )
+{
+  std::istringstream iss( arg );
+  iss >> value;
+  return !iss.fail() && ( iss >> std::ws ).eof() 
+    && ( std::numeric_limits< T >::is_signed || std::string( arg ).find( '-' ) == std::string::npos );
+}
+
 class itktfImageCompareRegressionTest
   : public itk::Regression
 {
@@ -42,9 +55,7 @@ public:
             }
 
           // try to convert argument to double
-          std::istringstream iss( argv[i] );
-          iss >> intensityTolerance;
-          if ( iss.fail() )
+          if ( !ConvertArgument( argv[i], intensityTolerance ) )
             {
             std::cerr << "Expected double to follow " << argvi << " but got \"" << argv[i] << "\"" << std::endl;
             return EXIT_FAILURE;
@@ -60,9 +71,7 @@ public:
             }
 
           // try to convert argument to double
-          std::istringstream iss( argv[i] );
-          iss >> numberOfPixelTolerance;
-          if ( iss.fail() )
+          if ( !ConvertArgument( argv[i], numberOfPixelTolerance ) )
             {
             std::cerr << "Expected unsigned int to follow " << argvi << " but got \"" << argv[i] << "\"" << std::endl;
             return EXIT_FAILURE;
@@ -78,9 +87,7 @@ public:
             }
           
           // try to convert argument to double
-          std::istringstream iss( argv[i] );
-          iss >> radiusTolerance;
-          if ( iss.fail() )
+          if ( !ConvertArgument( argv[i], radiusTolerance ) )
             {
             std::cerr << "Expected unsigned int to follow " << argvi << " but got \"" << argv[i] << "\"" << std::endl;
             return EXIT_FAILURE;
-- 
2.43.0


From c8c2911c23885f4cf1593b8395622cfd17adbcde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:22 +0000
Subject: [PATCH 42/56] fix: measured files whose size is not known before they
 are read

A text file of unknown size (below /proc, or one that grows) was written
past the end of the buffer, and a directory in place of a file ended the
whole test instead of being a mismatch.
---
 TestingFramework/tfMeasurement.cpp | 52 ++++++------------------------
 1 file changed, 10 insertions(+), 42 deletions(-)

diff --git a/TestingFramework/tfMeasurement.cpp b/TestingFramework/tfMeasurement.cpp
index 85341a8..98afb54 100644
--- a/TestingFramework/tfMeasurement.cpp
+++ b/TestingFramework/tfMeasurement.cpp
@@ -251,8 +251,8 @@ namespace testutil {
       mode |= std::ios::binary;// this actually doesn't matter since we read with read
 
     std::ifstream is(this->GetFileName().c_str(), mode);
-    std::ifstream::pos_type l, m, size;
-    char *buff;
+    std::string buff;
+    char c;
 
     if (!is) {
       std::cerr << "error opening file \"" << this->GetFileName() << "\"." << std::endl;
@@ -260,30 +260,13 @@ namespace testutil {
     }
       
 
-    // get the size of the file
-    l = is.tellg();
-    is.seekg(0, std::ios::end);
-    m = is.tellg();
-    size = m-l;
-    is.seekg(0, std::ios::beg);
-
-
-    buff = static_cast<char*>(malloc(size));
-    if (!buff)
-      throw std::bad_alloc();
-
-    if (binary) {
-      is.read(buff, size);
-    } else {
-      assert(sizeof(char) == 1);
-      // slow way to read but need the conversion, and it may be better than rescanning the input for getline
-      char *tbuff = buff;
-      char c;
-      size = 0;
-      while (is.get(c)) {
-	*tbuff++ = c;
-	size += 1;
-      }	
+    // the size of the file is not known before all of it is read
+    while (is.get(c))
+      buff += c;
+
+    if (!is.eof() || is.bad()) {
+      std::cerr << "failure reading file \"" << this->GetFileName() << "\"." << std::endl;
+      return 0;
     }
 
     DataMeasurement *dm = CreateDataMeasurement(this->GetAttributeType());
@@ -291,24 +274,9 @@ namespace testutil {
       std::cerr << "Unknown measurement type \"" << this->GetAttributeType() << "\"." << std::endl;
       dm = new PlainText();
     }
-    dm->SetContentAsData(buff, size);
+    dm->SetContentAsData(buff.data(), buff.size());
     dm->SetAttributeName(this->GetAttributeName());
 
-
-    char c=0;
-    is.get(c);	// this should cause and EOF
-
-    ios_base::iostate state = is.exceptions();
-    if (state & ios_base::badbit) cerr << "throws for bad";
-    if (state & ios_base::failbit) cerr << "throws for fail";
-    if (state & ios_base::eofbit) cerr << "throws for eof";
-
-    if (!is.eof() || is.bad()) {
-      throw std::runtime_error("failure reading file");
-    }
-    
-
-    free(buff);
     return dm;
     
   }
-- 
2.43.0


From 6b2c2efcc1fe002cc4ee2a56d7aefe23172206c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:45 +0000
Subject: [PATCH 43/56] fix: an exception within a comparison leaks the
 baseline and the visitors

---
 TestingFramework/tfRegressionTest.cpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/TestingFramework/tfRegressionTest.cpp b/TestingFramework/tfRegressionTest.cpp
index f7d087f..9ed7c50 100644
--- a/TestingFramework/tfRegressionTest.cpp
+++ b/TestingFramework/tfRegressionTest.cpp
@@ -45,6 +45,7 @@
 #include <assert.h>
 #include <list>
 #include <limits>
+#include <memory>
 #include <cstring>
 #if !defined(WIN32) || !defined(_WIN32)
 #include <unistd.h>
@@ -372,11 +373,10 @@ const fileutil::PathList &RegressionTest::GetInFileSearchPath(void) const {
   void RegressionTest::DifferenceMeasurement(Measurement &test, Measurement &input)  {  
     //    std::cout << "difference measurement \"" << test.GetAttributeName() << "\"." << std::endl;  
     this->inputUnmatched++;
-    DifferenceVisitor *vis = this->CreateDifferenceVisitor();
+    std::unique_ptr<DifferenceVisitor> vis(this->CreateDifferenceVisitor());
     vis->SetOutStream(this->GetOutStream());
     vis->SetBaselineMeasurement(&input);
     test.AcceptVisitor(*vis);
-    delete vis;
   }
       
 
@@ -392,6 +392,7 @@ const fileutil::PathList &RegressionTest::GetInFileSearchPath(void) const {
       
       baseline = this->Input.front();
       this->Input.pop_front();
+      std::unique_ptr<Measurement> baselineOwner(baseline);
       
       if (baseline->GetAttributeName() == test.GetAttributeName() &&
 	  baseline->GetAttributeType() == test.GetAttributeType()) {
@@ -415,6 +416,7 @@ const fileutil::PathList &RegressionTest::GetInFileSearchPath(void) const {
 	
 	 
         CompareVisitor *vis = this->CreateCompareVisitor();
+        std::unique_ptr<CompareVisitor> visOwner(vis);
         vis->SetBaselineMeasurement(baseline);
 
 	if ( tolerant )
@@ -437,11 +439,8 @@ const fileutil::PathList &RegressionTest::GetInFileSearchPath(void) const {
           this->DifferenceMeasurement(test, *baseline);
           }
         
-        delete vis;
-        
       } else 
 	this->UnmatchedMeasurement(test);
-      delete baseline;
     } else 
       this->UnmatchedMeasurement(test);
 
-- 
2.43.0


From ca705afef696ce85e254adf6b86d4a3673f790cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:37 +0000
Subject: [PATCH 44/56] fix: encoding and compression attributes are printed
 without escaping

---
 TestingFramework/tfMeasurement.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/TestingFramework/tfMeasurement.cpp b/TestingFramework/tfMeasurement.cpp
index 98afb54..3aa07e5 100644
--- a/TestingFramework/tfMeasurement.cpp
+++ b/TestingFramework/tfMeasurement.cpp
@@ -472,10 +472,15 @@ namespace testutil {
     this->PrintAttributeValue(os, this->GetAttributeType());
     os << "\"";
 
-    if (this->GetAttributeEncoding() != this->GetDefaultAttributeEncoding())
-      os << " encoding=\"" << this->GetAttributeEncoding() << "\"";
+    if (this->GetAttributeEncoding() != this->GetDefaultAttributeEncoding()) {
+      os << " encoding=\"";
+      this->PrintAttributeValue(os, this->GetAttributeEncoding());
+      os << "\"";
+    }
     if (this->GetAttributeCompression() != this->GetDefaultAttributeCompression()) {
-      os << " compression=\"" << this->GetAttributeCompression() << "\"";
+      os << " compression=\"";
+      this->PrintAttributeValue(os, this->GetAttributeCompression());
+      os << "\"";
     }
     os << ">";
   }
-- 
2.43.0


From 6c013e1985bf0e1659c77b184f561f8f1aee9abd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:06 +0000
Subject: [PATCH 45/56] fix: line differences cut lines off at a zero byte

---
 TestingFramework/tfDiff.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/TestingFramework/tfDiff.cpp b/TestingFramework/tfDiff.cpp
index 9572e61..6d97c1a 100644
--- a/TestingFramework/tfDiff.cpp
+++ b/TestingFramework/tfDiff.cpp
@@ -293,9 +293,9 @@ namespace testutil {
 
     void PrintLines(const string &prefix, int source,  size_t lnum, size_t num, const fumoffu &data, std::ostream &os) {
 		for (; num > 0; ++lnum, --num) {
-			// some reason MSDEV needed conversion??
-	os << prefix.c_str() << data.str[source]->substr(data.lines[source][lnum].lindex, 
-						   data.lines[source][lnum].length).c_str()<< endl;
+			// not as C strings, since a line may contain zeros
+	os << prefix << data.str[source]->substr(data.lines[source][lnum].lindex, 
+						   data.lines[source][lnum].length)<< endl;
 		}
     }
 
-- 
2.43.0


From 04ab8753cd92bfc6152d14d2de57c1c6d1700803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:51 +0000
Subject: [PATCH 46/56] fix: the value of a number without content was never
 set

---
 TestingFramework/tfMeasurement.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/TestingFramework/tfMeasurement.cpp b/TestingFramework/tfMeasurement.cpp
index 3aa07e5..6f8e99e 100644
--- a/TestingFramework/tfMeasurement.cpp
+++ b/TestingFramework/tfMeasurement.cpp
@@ -527,7 +527,7 @@ namespace testutil {
  
   long IntegerNumeric::GetValue(void) const {
     std::istringstream iss(this->GetContent());
-    long v;
+    long v = 0; // not set if the content is empty
     iss >> v;
     return v;    
   }
@@ -544,7 +544,7 @@ namespace testutil {
  
   float FloatNumeric::GetValue(void) const {
     std::istringstream iss(this->GetContent());
-    float v;
+    float v = 0; // not set if the content is empty
     iss >> v;
     return v;    
   }
@@ -562,7 +562,7 @@ namespace testutil {
  
   double DoubleNumeric::GetValue(void) const {
     std::istringstream iss(this->GetContent());
-    double v;
+    double v = 0; // not set if the content is empty
     iss >> v;
     return v;    
   }
@@ -580,7 +580,7 @@ namespace testutil {
  
   bool BooleanNumeric::GetValue(void) const {
     std::istringstream iss(this->GetContent());
-    bool v;
+    bool v = false; // not set if the content is empty
     iss >> v;
     return v;    
   }
-- 
2.43.0


From f8789204a8eb03a8c4148d01b5cb0da5b2744a05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:03 +0000
Subject: [PATCH 47/56] fix: numbers were recorded and read in the global
 locale

With a global C++ locale that has a decimal comma or groups of digits, 3.5
was recorded as "3,5" and 1234567 as "1.234.567", and "3.5" was read as 3
and the line numbers of differences grouped, so that a baseline was only
good in the locale it was recorded in.
---
 TestingFramework/tfMeasurement.cpp        | 9 ++++++++-
 TestingFramework/tfMeasurement.h          | 2 ++
 TestingFramework/tfMeasurementVisitor.cpp | 2 ++
 3 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/TestingFramework/tfMeasurement.cpp b/TestingFramework/tfMeasurement.cpp
index 6f8e99e..0f779a6 100644
--- a/TestingFramework/tfMeasurement.cpp
+++ b/TestingFramework/tfMeasurement.cpp
@@ -35,6 +35,7 @@
 #include "tfMeasurementVisitor.h"
 #include "tfBase64.h"
 #include <ios>
+#include <locale>
 #include <fstream>
 #include <stdexcept>
 #include <sstream>
@@ -527,6 +528,7 @@ namespace testutil {
  
   long IntegerNumeric::GetValue(void) const {
     std::istringstream iss(this->GetContent());
+    iss.imbue(std::locale::classic());
     long v = 0; // not set if the content is empty
     iss >> v;
     return v;    
@@ -534,6 +536,7 @@ namespace testutil {
 
   void IntegerNumeric::SetValue(long v) {
     std::ostringstream oss;
+    oss.imbue(std::locale::classic());
     oss << v;
     this->SetContent(oss.str());
   }
@@ -544,13 +547,15 @@ namespace testutil {
  
   float FloatNumeric::GetValue(void) const {
     std::istringstream iss(this->GetContent());
+    iss.imbue(std::locale::classic());
     float v = 0; // not set if the content is empty
     iss >> v;
     return v;    
   }
 
   void FloatNumeric::SetValue(float v) {
-    std::ostringstream oss;    
+    std::ostringstream oss;
+    oss.imbue(std::locale::classic());    
     oss.precision(7);
     oss << v;
     this->SetContent(oss.str());
@@ -562,6 +567,7 @@ namespace testutil {
  
   double DoubleNumeric::GetValue(void) const {
     std::istringstream iss(this->GetContent());
+    iss.imbue(std::locale::classic());
     double v = 0; // not set if the content is empty
     iss >> v;
     return v;    
@@ -569,6 +575,7 @@ namespace testutil {
 
   void DoubleNumeric::SetValue(double v) {
     std::ostringstream oss;
+    oss.imbue(std::locale::classic());
     oss.precision(16);
     oss << v;
     this->SetContent(oss.str());
diff --git a/TestingFramework/tfMeasurement.h b/TestingFramework/tfMeasurement.h
index 939b79d..f806c7b 100644
--- a/TestingFramework/tfMeasurement.h
+++ b/TestingFramework/tfMeasurement.h
@@ -43,6 +43,7 @@
 #include <cstdlib>
 #include <numeric>
 #include <limits>
+#include <locale>
 
 namespace testutil {
   
@@ -454,6 +455,7 @@ namespace testutil {
     template <class T>
     static bool _IsNumber(const NumericData &m) {
       std::istringstream iss(m.GetContent());
+      iss.imbue(std::locale::classic());
       T v;
       return (iss >> v) && (iss >> std::ws).eof();
     }
diff --git a/TestingFramework/tfMeasurementVisitor.cpp b/TestingFramework/tfMeasurementVisitor.cpp
index a3f57be..21ace39 100644
--- a/TestingFramework/tfMeasurementVisitor.cpp
+++ b/TestingFramework/tfMeasurementVisitor.cpp
@@ -34,6 +34,7 @@
 #include "tfMeasurementVisitor.h"
 #include "tfMeasurement.h"
 #include "tfDiff.h"
+#include <locale>
 #include <sstream>
 
 namespace testutil {
@@ -104,6 +105,7 @@ namespace testutil {
     Measurement &baseline = *this->_baseline; 
     
     std::ostringstream ostr;
+    ostr.imbue(std::locale::classic());
     Diff(baseline.GetContent(), m.GetContent(), ostr);
     PlainText diff;
     diff.SetAttributeName(std::string("Difference ")+m.GetAttributeName());
-- 
2.43.0


From c928475b4c7f75fa4acc9c84aa2eed4eeafcb682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:05 +0000
Subject: [PATCH 48/56] fix: PNG and JPEG files never matched, not even their
 own recording

A file whose type has no data measurement of its own was loaded as
text/plain, and so the type was never that of the other file.
---
 TestingFramework/tfMeasurement.cpp | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/TestingFramework/tfMeasurement.cpp b/TestingFramework/tfMeasurement.cpp
index 0f779a6..660f541 100644
--- a/TestingFramework/tfMeasurement.cpp
+++ b/TestingFramework/tfMeasurement.cpp
@@ -243,6 +243,18 @@ namespace testutil {
 
   
 
+  namespace {
+    /// the content of a file whose type has no measurement of its own, for
+    /// example an image
+    class FileData : public PlainText {
+    public:
+      FileData(const std::string &t) : fileType(t) {}
+      virtual const std::string &GetAttributeType(void) const { return this->fileType; }
+    private:
+      std::string fileType;
+    };
+  }
+
   DataMeasurement *MeasurementFile::Load(void) {
     std::ios::openmode mode = std::ios::in;
     bool binary = this->GetAttributeType().substr(0, 4) != "text";
@@ -271,10 +283,8 @@ namespace testutil {
     }
 
     DataMeasurement *dm = CreateDataMeasurement(this->GetAttributeType());
-    if (!dm) {
-      std::cerr << "Unknown measurement type \"" << this->GetAttributeType() << "\"." << std::endl;
-      dm = new PlainText();
-    }
+    if (!dm)
+      dm = new FileData(this->GetAttributeType());
     dm->SetContentAsData(buff.data(), buff.size());
     dm->SetAttributeName(this->GetAttributeName());
 
-- 
2.43.0


From 544d4efd146c82186da38540e0131318cf9b5863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:48 +0000
Subject: [PATCH 49/56] fix: a number was recorded with missing digits, and as
 a success, when memory ran out

---
 TestingFramework/tfMeasurement.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/TestingFramework/tfMeasurement.cpp b/TestingFramework/tfMeasurement.cpp
index 660f541..cfacdc2 100644
--- a/TestingFramework/tfMeasurement.cpp
+++ b/TestingFramework/tfMeasurement.cpp
@@ -546,6 +546,7 @@ namespace testutil {
 
   void IntegerNumeric::SetValue(long v) {
     std::ostringstream oss;
+    oss.exceptions(std::ios::badbit); // otherwise digits are lost without memory
     oss.imbue(std::locale::classic());
     oss << v;
     this->SetContent(oss.str());
@@ -565,6 +566,7 @@ namespace testutil {
 
   void FloatNumeric::SetValue(float v) {
     std::ostringstream oss;
+    oss.exceptions(std::ios::badbit); // otherwise digits are lost without memory
     oss.imbue(std::locale::classic());    
     oss.precision(7);
     oss << v;
@@ -585,6 +587,7 @@ namespace testutil {
 
   void DoubleNumeric::SetValue(double v) {
     std::ostringstream oss;
+    oss.exceptions(std::ios::badbit); // otherwise digits are lost without memory
     oss.imbue(std::locale::classic());
     oss.precision(16);
     oss << v;
@@ -604,6 +607,7 @@ namespace testutil {
 
   void BooleanNumeric::SetValue(bool v) {
     std::ostringstream oss;
+    oss.exceptions(std::ios::badbit); // otherwise digits are lost without memory
     oss << v;
     this->SetContent(oss.str());
   }
-- 
2.43.0


From c9619645f12af2ecf3d3b157f98c2dfdf4cd4b00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:48 +0000
Subject: [PATCH 50/56] fix: the XML parser and what it read were never freed
 when memory ran out while it read a baseline

---
 TestingFramework/tfRegressionTest.cpp | 37 ++++++++++++++++++++++-----
 1 file changed, 30 insertions(+), 7 deletions(-)

diff --git a/TestingFramework/tfRegressionTest.cpp b/TestingFramework/tfRegressionTest.cpp
index 9ed7c50..d3f8c11 100644
--- a/TestingFramework/tfRegressionTest.cpp
+++ b/TestingFramework/tfRegressionTest.cpp
@@ -628,13 +628,23 @@ namespace {
     
 
     struct XMLParseData {
-      XMLParseData(void) : depth(0), m(0) {}
+      XMLParseData(void) : parser(0), depth(0), m(0) {}
       ~XMLParseData(void) {
+	if (parser)
+	  XML_ParserFree(parser);
 	// whatever is left, if the parsing did not finish
 	delete m;
 	for (std::list<Measurement*>::iterator i = measurements.begin(); i != measurements.end(); ++i)
 	  delete *i;
       }
+      // to be called in the catch clause of a handler, because an
+      // exception must not pass through the parser
+      void Failed(void) {
+	exception = std::current_exception();
+	XML_StopParser(parser, XML_FALSE);
+      }
+      XML_Parser parser;
+      std::exception_ptr exception;
       int depth;
       std::string data;
       Measurement *m;
@@ -642,8 +652,10 @@ namespace {
     };
 
 
-    void start(void *data, const char *el, const char **attr) {  
+    void start(void *data, const char *el, const char **attr) try {  
       XMLParseData &pd = *reinterpret_cast<XMLParseData*>(data);
+      if (pd.exception)
+	return;
 
       if (pd.depth == 0) {
 	if (el && std::string(el) != "output" ) {
@@ -664,6 +676,7 @@ namespace {
 		std::cerr << "XML: unknow dart measurement type \"" << attr[i+1] << "\"" << std::endl;		
 		dm = new PlainText;
 	      }
+	      break;
 	    }
 	  }
 	  if (!dm) {
@@ -717,10 +730,14 @@ namespace {
       }
 
       ++pd.depth;
+    } catch (...) {
+      reinterpret_cast<XMLParseData*>(data)->Failed();
     }
     
-    void end(void *data, const char *el) { 
+    void end(void *data, const char *el) try { 
       XMLParseData &pd = *reinterpret_cast<XMLParseData*>(data); 
+      if (pd.exception)
+	return;
 
       // nested elements are ignored, a message was printed at their start
       if (pd.depth == 2) {
@@ -734,14 +751,20 @@ namespace {
       }
 
       --pd.depth;
+    } catch (...) {
+      reinterpret_cast<XMLParseData*>(data)->Failed();
     }
             
-    void data(void *data, const char *s, int len) {    
+    void data(void *data, const char *s, int len) try {    
       XMLParseData &pd = *reinterpret_cast<XMLParseData*>(data);
+      if (pd.exception)
+	return;
       
       if (pd.depth == 2) 
 	pd.data.append(s, len);
       
+    } catch (...) {
+      reinterpret_cast<XMLParseData*>(data)->Failed();
     }
 }
 
@@ -766,6 +789,7 @@ namespace {
 
     if (!parser)       
       throw std::bad_alloc();
+    pd.parser = parser; // which frees it
     
     XML_SetElementHandler(parser, start, end);
 
@@ -785,7 +809,6 @@ namespace {
       this->GetInStream().read(buff, BUFFSIZE);
 
       if (!this->GetInStream().eof() && !this->GetInStream()) {
-	XML_ParserFree(parser);
 	throw std::runtime_error("XML:read error");
       }
 
@@ -795,9 +818,10 @@ namespace {
 	len = BUFFSIZE;
       
       if (!XML_ParseBuffer(parser, len, done)) 	{
+	if (pd.exception)
+	  std::rethrow_exception(pd.exception);
 	std::cerr <<  "XML:Parse error at line " << XML_GetCurrentLineNumber(parser)
 		  << ": \"" << XML_ErrorString(XML_GetErrorCode(parser)) << "\"\n";
-	XML_ParserFree(parser);
 	throw std::runtime_error("parse error");
       }
 
@@ -805,7 +829,6 @@ namespace {
 	break;
     }
 
-    XML_ParserFree(parser);
     this->Input.swap(pd.measurements);
   }
   
-- 
2.43.0


From 779957007b4753fcfd45f422b883168d6aa35a4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:48 +0000
Subject: [PATCH 51/56] fix: a difference was reported with missing lines when
 memory ran out

---
 TestingFramework/tfMeasurementVisitor.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/TestingFramework/tfMeasurementVisitor.cpp b/TestingFramework/tfMeasurementVisitor.cpp
index 21ace39..9cfdb7d 100644
--- a/TestingFramework/tfMeasurementVisitor.cpp
+++ b/TestingFramework/tfMeasurementVisitor.cpp
@@ -105,6 +105,7 @@ namespace testutil {
     Measurement &baseline = *this->_baseline; 
     
     std::ostringstream ostr;
+    ostr.exceptions(std::ios::badbit); // otherwise lines are lost without memory
     ostr.imbue(std::locale::classic());
     Diff(baseline.GetContent(), m.GetContent(), ostr);
     PlainText diff;
-- 
2.43.0


From 72b3132abbe12e892db580c047921cc04133a3a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:54 +0000
Subject: [PATCH 52/56] fix: the memory of a line difference was not freed when
 it ended with an exception

---
 TestingFramework/tfDiff.cpp | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/TestingFramework/tfDiff.cpp b/TestingFramework/tfDiff.cpp
index 6d97c1a..0547b03 100644
--- a/TestingFramework/tfDiff.cpp
+++ b/TestingFramework/tfDiff.cpp
@@ -58,6 +58,16 @@ namespace testutil {
       id_type *vec[2];       // the uniques of each line, nlines[k]
       // length 
       ptrdiff_t *diagonals;  // used by midpoint
+
+      fumoffu(void) : lines(), vec(), diagonals(0) {}
+      // also when there is an exception
+      ~fumoffu(void) {
+	delete[] diagonals;
+	for (int j = 0; j < 2; ++j) {
+	  delete[] lines[j];
+	  delete[] vec[j];
+	}
+      }
     };
       
 
@@ -488,16 +498,6 @@ namespace testutil {
    
     PrintEditList(l, data, os);
       
-    delete[] data.diagonals;
-
-    // allocate the lines
-    for (int j = 0; j < 2; ++j)
-      delete[] data.lines[j];
-
-    // allocate the unique ids
-    for (int j = 0; j < 2; ++j)
-      delete[] data.vec[j];
-      
   }
    
     
-- 
2.43.0


From 23de43a5c78ab40008d99d10b083941389c68cd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:54 +0000
Subject: [PATCH 53/56] fix: a loaded file was not freed when comparing it
 ended with an exception

---
 TestingFramework/tfMeasurement.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/TestingFramework/tfMeasurement.cpp b/TestingFramework/tfMeasurement.cpp
index cfacdc2..b72d695 100644
--- a/TestingFramework/tfMeasurement.cpp
+++ b/TestingFramework/tfMeasurement.cpp
@@ -34,6 +34,7 @@
 #include "tfMeasurement.h"
 #include "tfMeasurementVisitor.h"
 #include "tfBase64.h"
+#include <memory>
 #include <ios>
 #include <locale>
 #include <fstream>
@@ -282,13 +283,13 @@ namespace testutil {
       return 0;
     }
 
-    DataMeasurement *dm = CreateDataMeasurement(this->GetAttributeType());
+    std::unique_ptr<DataMeasurement> dm(CreateDataMeasurement(this->GetAttributeType()));
     if (!dm)
-      dm = new FileData(this->GetAttributeType());
+      dm.reset(new FileData(this->GetAttributeType()));
     dm->SetContentAsData(buff.data(), buff.size());
     dm->SetAttributeName(this->GetAttributeName());
 
-    return dm;
+    return dm.release();
     
   }
 
@@ -296,11 +297,10 @@ namespace testutil {
     if (this->GetAttributeName() != m.GetAttributeName() ||
 	this->GetAttributeType() != m.GetAttributeType())
       return false;
-    DataMeasurement *dm = Load();
+    std::unique_ptr<DataMeasurement> dm(Load());
     if (!dm) // a file which can't be read is not equal to anything
       return false;
     bool v = (m == *dm); // switch so if the are both file we can do it again
-    delete dm;
 
     // TODO
     //
-- 
2.43.0


From d7cebf6447570bfdf2a9b96d6de8d0116e9789c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:37 +0000
Subject: [PATCH 54/56] fix: a backspace was ignored as white space in base64
 input

Only tab, line feed, vertical tab, form feed and carriage return are
control characters which are white space.
---
 TestingFramework/tfBase64.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/TestingFramework/tfBase64.cpp b/TestingFramework/tfBase64.cpp
index 218f437..e166d10 100644
--- a/TestingFramework/tfBase64.cpp
+++ b/TestingFramework/tfBase64.cpp
@@ -275,7 +275,7 @@ namespace testutil {
       
   // table to convert base64 to 6 bits
   const unsigned char Base64::base64bits[256] = {
-    255,255,255,255,255,255,255,255,254,254,254,254,254,254,255,255, // 16
+    255,255,255,255,255,255,255,255,255,254,254,254,254,254,255,255, // 16
     255,255,255,255,255,255,255,255,255,255,255,255,255,255,255,255, // 32     
     254,255,255,255,255,255,255,255,255,255,255, 62,255,255,255, 63, // 48
      52, 53, 54, 55, 56, 57, 58, 59, 60, 61,255,255,255, 64,255,255, // 64
-- 
2.43.0


From 468cd816279ac142fe8174cebe43edf60fb8f3bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:13 +0000
Subject: [PATCH 55/56] fix: a carriage return in a text was read back as a
 line feed

XML parsers turn every carriage return which is not written as a
character reference into a line feed, so that a text with one did not
match its own recording.
---
 TestingFramework/tfMeasurement.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/TestingFramework/tfMeasurement.cpp b/TestingFramework/tfMeasurement.cpp
index b72d695..eb722ef 100644
--- a/TestingFramework/tfMeasurement.cpp
+++ b/TestingFramework/tfMeasurement.cpp
@@ -122,7 +122,8 @@ namespace testutil {
   std::string Measurement::ApplyEscapeSequences(const std::string &str) const {
       
     std::string::size_type j = 0;
-    std::string::size_type i = str.find_first_of("&<>");
+    // a parser would read a carriage return as a line feed
+    std::string::size_type i = str.find_first_of("&<>\r");
     if (i == str.length())
       return str;
     std::string result;
@@ -134,9 +135,11 @@ namespace testutil {
 	result.append("&lt;");
       else if (str[i] == '>')
 	result.append("&gt;"); 
+      else if (str[i] == '\r')
+	result.append("&#13;");
 	
       j = i + 1;
-      i = str.find_first_of("&<>", j);
+      i = str.find_first_of("&<>\r", j);
     }      
     result.append(str,j,i-j);
     return result;
-- 
2.43.0


From 3b626d27448c2bd3f1eeb503f79457809248ab1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:13 +0000
Subject: [PATCH 56/56] fix: line feeds and tabs in a name were read back as
 spaces

White space in the value of an attribute has to be written as a
character reference, otherwise a measurement with such a name did not
match its own recording.
---
 TestingFramework/tfMeasurement.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/TestingFramework/tfMeasurement.cpp b/TestingFramework/tfMeasurement.cpp
index eb722ef..9c89ab6 100644
--- a/TestingFramework/tfMeasurement.cpp
+++ b/TestingFramework/tfMeasurement.cpp
@@ -172,6 +172,10 @@ namespace testutil {
     for (std::string::size_type i = 0; i < escaped.length(); ++i) {
       if (escaped[i] == '"')
 	os << "&quot;";
+      else if (escaped[i] == '\n') // a parser would read it as a space
+	os << "&#10;";
+      else if (escaped[i] == '\t')
+	os << "&#9;";
       else
 	os << escaped[i];
     }
-- 
2.43.0

