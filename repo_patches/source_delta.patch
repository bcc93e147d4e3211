From 9d739317db0b86ba57a1fe9147d4760c8baf914e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:34 +0000
Subject: [PATCH 01/19] fix: DoubleCounter::max ignored values not larger than
 numeric_limits::min()

---
 src/utils/Counter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils/Counter.cpp b/src/utils/Counter.cpp
index 29e0e1d..6735e81 100755
--- a/src/utils/Counter.cpp
+++ b/src/utils/Counter.cpp
@@ -60,7 +60,7 @@ double DoubleCounter::max() const {
   bool entryFound = false;
 
   for (auto it = begin(); it != end(); it++) {
-    if (it->second > 0 && larger(it->first, max)) {
+    if (it->second > 0 && (!entryFound || larger(it->first, max))) {
       max = it->first;
       entryFound = true;
     }
-- 
2.43.0


From 9ac5f66e012baad7b7241839d23c12b650273949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:27 +0000
Subject: [PATCH 02/19] fix: bounding boxes of elements at negative coordinates
 were not tight (numeric_limits::min as initial maximum)

---
 src/ReadingOrderDetection.cpp          |  4 ++--
 src/TextLinesDetection.cpp             |  7 +++++++
 src/Types.h                            |  4 ++--
 src/WordsDetection.cpp                 |  8 ++++----
 src/utils/PageSegmentationUtils.cpp    | 10 +++++++++-
 src/utils/TextBlocksDetectionUtils.cpp |  7 +++++++
 src/utils/WordsDetectionUtils.cpp      |  7 +++++++
 src/utils/XYCut.cpp                    |  4 ++--
 8 files changed, 40 insertions(+), 11 deletions(-)

diff --git a/src/ReadingOrderDetection.cpp b/src/ReadingOrderDetection.cpp
index a46bef1..685d4ab 100755
--- a/src/ReadingOrderDetection.cpp
+++ b/src/ReadingOrderDetection.cpp
@@ -108,8 +108,8 @@ void ReadingOrderDetection::detectReadingOrder() {
     // Compute the coordinates of the bounding box around the page elements.
     _pageElementsMinX = numeric_limits<double>::max();
     _pageElementsMinY = numeric_limits<double>::max();
-    _pageElementsMaxX = numeric_limits<double>::min();
-    _pageElementsMaxY = numeric_limits<double>::min();
+    _pageElementsMaxX = numeric_limits<double>::lowest();
+    _pageElementsMaxY = numeric_limits<double>::lowest();
     for (const auto* element : pageElements) {
       _pageElementsMinX = minimum(_pageElementsMinX, element->pos->leftX);
       _pageElementsMinY = minimum(_pageElementsMinY, element->pos->upperY);
diff --git a/src/TextLinesDetection.cpp b/src/TextLinesDetection.cpp
index 8e56ad5..3f8fc0a 100755
--- a/src/TextLinesDetection.cpp
+++ b/src/TextLinesDetection.cpp
@@ -8,6 +8,7 @@
 
 #include <algorithm>  // std::sort
 #include <cassert>  // assert
+#include <limits>  // std::numeric_limits
 #include <sstream>  // std::stringstream
 #include <string>
 #include <tuple>
@@ -27,6 +28,7 @@
 
 using std::endl;
 using std::get;
+using std::numeric_limits;
 using std::sort;
 using std::string;
 using std::stringstream;
@@ -365,6 +367,11 @@ PdfTextLine* TextLinesDetection::createTextLine(const vector<PdfWord*>& words,
   // Set the reference to the parent segment.
   line->segment = segment;
 
+  // NOTE: numeric_limits<double>::min() (the default value) is the smallest *positive* value, so it
+  // can't be used for computing the maximum of coordinates that may be negative.
+  line->pos->rightX = numeric_limits<double>::lowest();
+  line->pos->lowerY = numeric_limits<double>::lowest();
+
   // Compute all other layout properties.
   computeTextLineProperties(line);
 
diff --git a/src/Types.h b/src/Types.h
index 078e739..3b22b70 100644
--- a/src/Types.h
+++ b/src/Types.h
@@ -664,8 +664,8 @@ class PdfTextLine : public PdfTextElement {
   // text line that are *not* subscripted or superscripted.
   double baseBBoxLeftX = numeric_limits<double>::max();
   double baseBBoxUpperY = numeric_limits<double>::max();
-  double baseBBoxRightX = numeric_limits<double>::min();
-  double baseBBoxLowerY = numeric_limits<double>::min();
+  double baseBBoxRightX = numeric_limits<double>::lowest();
+  double baseBBoxLowerY = numeric_limits<double>::lowest();
 
   // The maximum font size among the characters in this text line.
   double maxFontSize = 0.0;
diff --git a/src/WordsDetection.cpp b/src/WordsDetection.cpp
index d6e5084..bc4a964 100755
--- a/src/WordsDetection.cpp
+++ b/src/WordsDetection.cpp
@@ -82,8 +82,8 @@ void WordsDetection::detectWords(PdfPage* page) {
   _activeWord.pos->pageNum = page->pageNum;
   _activeWord.pos->leftX = numeric_limits<double>::max();
   _activeWord.pos->upperY = numeric_limits<double>::max();
-  _activeWord.pos->rightX = numeric_limits<double>::min();
-  _activeWord.pos->lowerY = numeric_limits<double>::min();
+  _activeWord.pos->rightX = numeric_limits<double>::lowest();
+  _activeWord.pos->lowerY = numeric_limits<double>::lowest();
   _activeWord.pos->rotation = 0;
   _activeWord.pos->wMode = 0;
   _activeWord.fontSize = 0;
@@ -138,8 +138,8 @@ void WordsDetection::detectWords(PdfPage* page) {
       _activeWord.characters.clear();
       _activeWord.pos->leftX = numeric_limits<double>::max();
       _activeWord.pos->upperY = numeric_limits<double>::max();
-      _activeWord.pos->rightX = numeric_limits<double>::min();
-      _activeWord.pos->lowerY = numeric_limits<double>::min();
+      _activeWord.pos->rightX = numeric_limits<double>::lowest();
+      _activeWord.pos->lowerY = numeric_limits<double>::lowest();
       _activeWord.pos->rotation = 0;
       _activeWord.pos->wMode = 0;
       _activeWord.fontSize = 0;
diff --git a/src/utils/PageSegmentationUtils.cpp b/src/utils/PageSegmentationUtils.cpp
index 27b07eb..8f132e6 100755
--- a/src/utils/PageSegmentationUtils.cpp
+++ b/src/utils/PageSegmentationUtils.cpp
@@ -6,6 +6,7 @@
  * Modified under the Poppler project - http://poppler.freedesktop.org
  */
 
+#include <limits>  // std::numeric_limits
 #include <vector>
 
 #include "./MathUtils.h"
@@ -14,6 +15,7 @@
 #include "../Config.h"
 #include "../Types.h"
 
+using std::numeric_limits;
 using std::vector;
 
 using ppp::config::PageSegmentationConfig;
@@ -46,7 +48,13 @@ PdfPageSegment* PageSegmentationUtils::createPageSegment(
   // Set the page number.
   segment->pos->pageNum = !elements.empty() ? elements[0]->pos->pageNum : -1;
 
-  // Compute and set the coordinates of the bounding box.
+  // Compute and set the coordinates of the bounding box. NOTE: numeric_limits<double>::min() (the
+  // default value) is the smallest *positive* value, so it can't be used for computing the maximum
+  // of coordinates that may be negative.
+  if (!elements.empty()) {
+    segment->pos->rightX = numeric_limits<double>::lowest();
+    segment->pos->lowerY = numeric_limits<double>::lowest();
+  }
   for (const auto* element : elements) {
     segment->pos->leftX = minimum(segment->pos->leftX, element->pos->leftX);
     segment->pos->upperY = minimum(segment->pos->upperY, element->pos->upperY);
diff --git a/src/utils/TextBlocksDetectionUtils.cpp b/src/utils/TextBlocksDetectionUtils.cpp
index 0d7d15a..3cdacb3 100755
--- a/src/utils/TextBlocksDetectionUtils.cpp
+++ b/src/utils/TextBlocksDetectionUtils.cpp
@@ -7,6 +7,7 @@
  */
 
 #include <cassert>  // assert
+#include <limits>  // std::numeric_limits
 #include <regex>
 #include <string>
 #include <unordered_set>
@@ -20,6 +21,7 @@
 #include "./TextUtils.h"
 #include "../Types.h"
 
+using std::numeric_limits;
 using std::pair;
 using std::regex_search;
 using std::smatch;
@@ -699,6 +701,11 @@ void TextBlocksDetectionUtils::createTextBlock(const vector<PdfTextLine*>& lines
   // Set the rank.
   block->rank = blocks->size();
 
+  // NOTE: numeric_limits<double>::min() (the default value) is the smallest *positive* value, so it
+  // can't be used for computing the maximum of coordinates that may be negative.
+  block->pos->rightX = numeric_limits<double>::lowest();
+  block->pos->lowerY = numeric_limits<double>::lowest();
+
   // Compute the bounding box and the trim box and count the different font names and font sizes.
   StringCounter fontNameCounter;
   DoubleCounter fontSizeCounter;
diff --git a/src/utils/WordsDetectionUtils.cpp b/src/utils/WordsDetectionUtils.cpp
index f62a499..c6f19ba 100755
--- a/src/utils/WordsDetectionUtils.cpp
+++ b/src/utils/WordsDetectionUtils.cpp
@@ -7,6 +7,7 @@
  */
 
 #include <cassert>  // assert
+#include <limits>  // std::numeric_limits
 #include <string>
 #include <vector>
 
@@ -16,6 +17,7 @@
 #include "./WordsDetectionUtils.h"
 #include "../Types.h"
 
+using std::numeric_limits;
 using std::string;
 using std::vector;
 
@@ -51,6 +53,11 @@ PdfWord* WordsDetectionUtils::createWord(const vector<PdfCharacter*>& characters
   // Set the page number.
   word->pos->pageNum = characters[0]->pos->pageNum;
 
+  // NOTE: numeric_limits<double>::min() (the default value) is the smallest *positive* value, so it
+  // can't be used for computing the maximum of coordinates that may be negative.
+  word->pos->rightX = numeric_limits<double>::lowest();
+  word->pos->lowerY = numeric_limits<double>::lowest();
+
   // Iterative through the characters and compute the text, the x,y-coordinates of the
   // bounding box, and the font info.
   StringCounter fontNameCounter;
diff --git a/src/utils/XYCut.cpp b/src/utils/XYCut.cpp
index 0306b63..161dbde 100755
--- a/src/utils/XYCut.cpp
+++ b/src/utils/XYCut.cpp
@@ -111,7 +111,7 @@ bool xCut(const vector<PdfElement*>& elements, double minGapWidth, int maxNumOve
 
   // Compute minY and maxY among the elements, needed for computing the y-coordinates of the cuts.
   double elementsMinY = numeric_limits<double>::max();
-  double elementsMaxY = numeric_limits<double>::min();
+  double elementsMaxY = numeric_limits<double>::lowest();
   for (const auto* element : sElements) {
     elementsMinY = minimum(elementsMinY, element->pos->upperY);
     elementsMaxY = maximum(elementsMaxY, element->pos->lowerY);
@@ -242,7 +242,7 @@ bool yCut(const vector<PdfElement*>& elements, double minGapHeight,
 
   // Compute minY and maxY among the elements, needed for computing the x-coordinates of the cuts.
   double elementsMinX = numeric_limits<double>::max();
-  double elementsMaxX = numeric_limits<double>::min();
+  double elementsMaxX = numeric_limits<double>::lowest();
   for (const auto* element : sElements) {
     elementsMinX = minimum(elementsMinX, element->pos->leftX);
     elementsMaxX = maximum(elementsMaxX, element->pos->rightX);
-- 
2.43.0


From e28b544a360181f9d0a591c6b2834e7df0d6f3fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:03 +0000
Subject: [PATCH 03/19] fix: horizontal and vertical gaps of rotated elements
 had the wrong sign

computeHorizontalGap and computeVerticalGap negated the gap for the rotations 2
and 3, although leftX, upperY, rightX and lowerY do not depend on the rotation
(see the documentation of the functions). Words of upside-down text were
therefore never separated by the gap between them, and touching lines of
such text were separated.
---
 src/utils/PdfElementsUtils.cpp | 26 ++++++--------------------
 1 file changed, 6 insertions(+), 20 deletions(-)

diff --git a/src/utils/PdfElementsUtils.cpp b/src/utils/PdfElementsUtils.cpp
index 8ae53df..f428a04 100755
--- a/src/utils/PdfElementsUtils.cpp
+++ b/src/utils/PdfElementsUtils.cpp
@@ -50,16 +50,9 @@ double computeHorizontalGap(const PdfElement* elem1, const PdfElement* elem2) {
     right = elem1;
   }
 
-  // Compute the horizontal gap between the elements, under consideration of the rotation.
-  switch (left->pos->rotation) {
-    case 0:
-    case 1:
-    default:
-      return right->pos->leftX - left->pos->rightX;
-    case 2:
-    case 3:
-      return left->pos->rightX - right->pos->leftX;
-  }
+  // Compute the horizontal gap between the elements. NOTE: leftX and rightX do not depend on the
+  // rotation of the elements (in contrast to rotLeftX and rotRightX), so neither does the gap.
+  return right->pos->leftX - left->pos->rightX;
 }
 
 // _________________________________________________________________________________________________
@@ -78,16 +71,9 @@ double computeVerticalGap(const PdfElement* elem1, const PdfElement* elem2) {
     lower = elem1;
   }
 
-  // Compute the vertical gap between the elements, under consideration of the rotation.
-  switch (upper->pos->rotation) {
-    case 0:
-    case 1:
-    default:
-      return lower->pos->upperY - upper->pos->lowerY;
-    case 2:
-    case 3:
-      return upper->pos->lowerY - lower->pos->upperY;
-  }
+  // Compute the vertical gap between the elements. NOTE: upperY and lowerY do not depend on the
+  // rotation of the elements (in contrast to rotUpperY and rotLowerY), so neither does the gap.
+  return lower->pos->upperY - upper->pos->lowerY;
 }
 
 // _________________________________________________________________________________________________
-- 
2.43.0


From 80cb5dd3cc2f867a9bc7b6c660ae9d8e4e2f9580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:28 +0000
Subject: [PATCH 04/19] fix: strip read beyond the ends of empty and
 whitespace-only strings

---
 src/utils/TextUtils.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/utils/TextUtils.cpp b/src/utils/TextUtils.cpp
index a9e2081..b0966ab 100755
--- a/src/utils/TextUtils.cpp
+++ b/src/utils/TextUtils.cpp
@@ -150,8 +150,8 @@ string strip(const string& str) {
   auto start_it = str.begin();
   auto end_it = str.rbegin();
 
-  while (isspace(*start_it)) { start_it++; }
-  while (isspace(*end_it)) { end_it++; }
+  while (start_it != str.end() && isspace(*start_it)) { start_it++; }
+  while (end_it.base() != start_it && isspace(*end_it)) { end_it++; }
 
   return string(start_it, end_it.base());
 }
-- 
2.43.0


From a9f4e847f1d13d068db593268d4a9e96ec2164f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:28 +0000
Subject: [PATCH 05/19] fix: createRandomString never chose the last character
 and crashed on alphabets of one character

---
 src/utils/TextUtils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils/TextUtils.cpp b/src/utils/TextUtils.cpp
index b0966ab..7fd9edc 100755
--- a/src/utils/TextUtils.cpp
+++ b/src/utils/TextUtils.cpp
@@ -92,7 +92,7 @@ string createRandomString(unsigned int len, const string& prefix, const char* co
   // Append <len>-many random alphanumerical characters.
   int alphabetSize = strlen(alphabet);
   for (unsigned int i = 0; i < len; i++) {
-    str += alphabet[rand() % (alphabetSize - 1)];
+    str += alphabet[rand() % alphabetSize];
   }
 
   return str;
-- 
2.43.0


From ef8a3bf7a495b094b804c40847dd6f65b30f0491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:28 +0000
Subject: [PATCH 06/19] fix: join omitted the separators behind leading empty
 strings

---
 src/utils/TextUtils.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/utils/TextUtils.cpp b/src/utils/TextUtils.cpp
index 7fd9edc..a08e669 100755
--- a/src/utils/TextUtils.cpp
+++ b/src/utils/TextUtils.cpp
@@ -199,11 +199,11 @@ string wrap(const string& str, unsigned int width, unsigned int indent) {
 // _________________________________________________________________________________________________
 string join(const vector<string>& strings, const string& sep) {
   string resultStr = "";
-  for (const auto& s : strings) {
-      if (resultStr.size() > 0) {
-        resultStr += sep;
-      }
-      resultStr += s;
+  for (size_t i = 0; i < strings.size(); i++) {
+    if (i > 0) {
+      resultStr += sep;
+    }
+    resultStr += strings[i];
   }
   return resultStr;
 }
-- 
2.43.0


From e6236437f34aefea30fb42e447cca3dccdbc425c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:52 +0000
Subject: [PATCH 07/19] fix: JSON output was invalid for font names with
 quotes, backslashes or control characters

---
 src/serializers/JsonlSerializer.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/serializers/JsonlSerializer.cpp b/src/serializers/JsonlSerializer.cpp
index f5431c3..1faf5bd 100755
--- a/src/serializers/JsonlSerializer.cpp
+++ b/src/serializers/JsonlSerializer.cpp
@@ -135,7 +135,7 @@ void JsonlSerializer::serializeCharacters(const PdfDocument* doc,
               << "\"maxY\": " << c->pos->lowerY << ", "
               << "\"wMode\": " << c->pos->wMode << ", "
               << "\"rotation\": " << c->pos->rotation << ", "
-              << "\"font\": \"" << c->fontName << "\", "
+              << "\"font\": \"" << escapeJson(c->fontName) << "\", "
               << "\"fontSize\": " << c->fontSize << ", "
               << "\"weight\": " << fontInfo->weight << ", "
               << "\"italic\": " << (fontInfo->isItalic ? "true" : "false") << ", "
@@ -224,7 +224,7 @@ void JsonlSerializer::serializeWords(const PdfDocument* doc,
             << "\"minY\": " << word->pos->upperY << ", "
             << "\"maxX\": " << word->pos->rightX << ", "
             << "\"maxY\": " << word->pos->lowerY << ", "
-            << "\"font\": \"" << word->fontName << "\", "
+            << "\"font\": \"" << escapeJson(word->fontName) << "\", "
             << "\"fontSize\": " << word->fontSize << ", "
             << "\"text\": \"" << escapeJson(word->text) << "\", "
             << "\"block\": \"" << block->id << "\", "
@@ -258,7 +258,7 @@ void JsonlSerializer::serializeTextBlocks(const PdfDocument* doc,
         << "\"minY\": " << block->pos->upperY << ", "
         << "\"maxX\": " << block->pos->rightX << ", "
         << "\"maxY\": " << block->pos->lowerY << ", "
-        << "\"font\": \"" << block->fontName << "\", "
+        << "\"font\": \"" << escapeJson(block->fontName) << "\", "
         << "\"fontSize\": " << block->fontSize << ", "
         << "\"text\": \"" << escapeJson(block->text) << "\", "
         << "\"role\": \"" << getSemanticRoleName(block->role) << "\", "
-- 
2.43.0


From 1d24ae32d967dbcc2488b2a703ffa6ea57e0352a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:04 +0000
Subject: [PATCH 08/19] fix: output paths with spaces or shell characters, or
 directly below the root, could not be written

---
 src/serializers/Serializer.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/serializers/Serializer.cpp b/src/serializers/Serializer.cpp
index 69bd201..1e1ab6d 100644
--- a/src/serializers/Serializer.cpp
+++ b/src/serializers/Serializer.cpp
@@ -6,9 +6,11 @@
  * Modified under the Poppler project - http://poppler.freedesktop.org
  */
 
+#include <filesystem>
 #include <fstream>
 #include <iostream>
 #include <string>
+#include <system_error>
 #include <unordered_set>
 
 #include "./Serializer.h"
@@ -45,11 +47,15 @@ void Serializer::serialize(
   string parentDirPath = ".";
   size_t posLastSlash = targetFilePath.find_last_of("/");
   if (posLastSlash != string::npos) {
-    parentDirPath = targetFilePath.substr(0, posLastSlash);
+    // Keep the slash if the target file is located in the root directory.
+    parentDirPath = targetFilePath.substr(0, posLastSlash > 0 ? posLastSlash : 1);
   }
 
   // Try to create all intermediate directories if the parent directory does not exist.
-  if (system(("mkdir -p " + parentDirPath).c_str())) {
+  // NOTE: Do not pass the path to a shell, since it can contain spaces and special characters.
+  std::error_code error;
+  std::filesystem::create_directories(parentDirPath, error);
+  if (error) {
     cerr << "Could not create directory '" << parentDirPath << "'." << endl;
     return;
   }
-- 
2.43.0


From 30d88267093863bce847cc7a7c3ea8e9168788c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:28 +0000
Subject: [PATCH 09/19] fix: an empty set of roles or units must select all of
 them, as documented, but selected none

---
 src/serializers/JsonlSerializer.cpp             | 15 ++++++++++++---
 src/serializers/PlainTextExtendedSerializer.cpp |  2 +-
 src/serializers/PlainTextSerializer.cpp         |  2 +-
 3 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/serializers/JsonlSerializer.cpp b/src/serializers/JsonlSerializer.cpp
index 1faf5bd..e5054d1 100755
--- a/src/serializers/JsonlSerializer.cpp
+++ b/src/serializers/JsonlSerializer.cpp
@@ -10,6 +10,7 @@
 #include <iostream>
 #include <string>
 #include <unordered_set>
+#include <vector>
 
 #include "./JsonlSerializer.h"
 #include "../utils/MathUtils.h"
@@ -22,6 +23,7 @@ using std::find;
 using std::ostream;
 using std::string;
 using std::unordered_set;
+using std::vector;
 
 using ppp::types::PdfCharacter;
 using ppp::types::PdfDocument;
@@ -33,6 +35,7 @@ using ppp::types::PdfTextBlock;
 using ppp::types::PdfTextLine;
 using ppp::types::PdfWord;
 using ppp::types::SemanticRole;
+using ppp::utils::elements::getPdfElementTypes;
 using ppp::utils::elements::getSemanticRoleName;
 using ppp::utils::math::round;
 using ppp::utils::text::escapeJson;
@@ -53,6 +56,12 @@ JsonlSerializer::~JsonlSerializer() = default;
 void JsonlSerializer::serializeToStream(const PdfDocument* doc,
     const unordered_set<SemanticRole>& roles, const unordered_set<PdfElementType>& units,
     ostream& out) const {
+  // Serialize all units if no units are specified.
+  if (units.empty()) {
+    const vector<PdfElementType> allUnits = getPdfElementTypes();
+    serializeToStream(doc, roles, { allUnits.begin(), allUnits.end() }, out);
+    return;
+  }
 
   for (PdfElementType unit : units) {
     switch (unit) {
@@ -105,7 +114,7 @@ void JsonlSerializer::serializeCharacters(const PdfDocument* doc,
   for (const PdfPage* page : doc->pages) {
     for (const PdfTextBlock* block : page->blocks) {
       // Skip the block if its role is not included in 'roles'.
-      if (find(roles.begin(), roles.end(), block->role) == roles.end()) {
+      if (!roles.empty() && find(roles.begin(), roles.end(), block->role) == roles.end()) {
         continue;
       }
 
@@ -209,7 +218,7 @@ void JsonlSerializer::serializeWords(const PdfDocument* doc,
   for (const PdfPage* page : doc->pages) {
     for (const PdfTextBlock* block : page->blocks) {
       // Skip the block if its role is not included in 'roles'.
-      if (find(roles.begin(), roles.end(), block->role) == roles.end()) {
+      if (!roles.empty() && find(roles.begin(), roles.end(), block->role) == roles.end()) {
         continue;
       }
 
@@ -245,7 +254,7 @@ void JsonlSerializer::serializeTextBlocks(const PdfDocument* doc,
   for (const PdfPage* page : doc->pages) {
     for (const PdfTextBlock* block : page->blocks) {
       // Skip the block if its role is not included in 'roles'.
-      if (find(roles.begin(), roles.end(), block->role) == roles.end()) {
+      if (!roles.empty() && find(roles.begin(), roles.end(), block->role) == roles.end()) {
         continue;
       }
 
diff --git a/src/serializers/PlainTextExtendedSerializer.cpp b/src/serializers/PlainTextExtendedSerializer.cpp
index 9d9df11..5a55d8f 100755
--- a/src/serializers/PlainTextExtendedSerializer.cpp
+++ b/src/serializers/PlainTextExtendedSerializer.cpp
@@ -50,7 +50,7 @@ void PlainTextExtendedSerializer::serializeToStream(const PdfDocument* doc,
   for (auto* page : doc->pages) {
     for (auto* block : page->blocks) {
       // Skip the block if its role is not included in 'roles'.
-      if (find(roles.begin(), roles.end(), block->role) == roles.end()) {
+      if (!roles.empty() && find(roles.begin(), roles.end(), block->role) == roles.end()) {
         continue;
       }
 
diff --git a/src/serializers/PlainTextSerializer.cpp b/src/serializers/PlainTextSerializer.cpp
index 6e18e75..306cb9e 100755
--- a/src/serializers/PlainTextSerializer.cpp
+++ b/src/serializers/PlainTextSerializer.cpp
@@ -44,7 +44,7 @@ void PlainTextSerializer::serializeToStream(const PdfDocument* doc,
   for (auto* page : doc->pages) {
     for (auto* block : page->blocks) {
       // Skip the block if its role is not included in 'roles'.
-      if (find(roles.begin(), roles.end(), block->role) == roles.end()) {
+      if (!roles.empty() && find(roles.begin(), roles.end(), block->role) == roles.end()) {
         continue;
       }
 
-- 
2.43.0


From e5335893a917922460b657bc81caee6dc1240802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:53 +0000
Subject: [PATCH 10/19] fix: the semantic role of text blocks was uninitialized
 when the prediction of roles is skipped

---
 src/Types.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Types.h b/src/Types.h
index 3b22b70..acd36d7 100644
--- a/src/Types.h
+++ b/src/Types.h
@@ -756,7 +756,7 @@ class PdfTextBlock : public PdfTextElement {
   const PdfPageSegment* segment = nullptr;
 
   // The semantic role of this text block.
-  SemanticRole role;
+  SemanticRole role = SemanticRole::OTHER;
 
   // A boolean flag indicating whether or not the text lines in this text block are centered.
   bool isLinesCentered = false;
-- 
2.43.0


From bccebe888838bbdadaa90e2f29ed98cf0ffea33e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:56 +0000
Subject: [PATCH 11/19] fix: xCut(): fill the queue of the largest rightX
 values before evicting elements

An element was only added if its rightX exceeded the smallest rightX in the queue, even when the
queue was not full yet. With maxNumOverlappingElements > 0, cuts overlapping an element that comes
early in the sort order were missed, contrary to the documentation in XYCut.h.
---
 src/utils/XYCut.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/utils/XYCut.cpp b/src/utils/XYCut.cpp
index 161dbde..734d1a9 100755
--- a/src/utils/XYCut.cpp
+++ b/src/utils/XYCut.cpp
@@ -183,8 +183,10 @@ bool xCut(const vector<PdfElement*>& elements, double minGapWidth, int maxNumOve
       overlappingElements.push_back(prevElement);
     }
 
-    // Add the element to the queue if its rightX is larger than the smallest rightX in the queue.
-    if (larger(element->pos->rightX, elementsLargestRightXQueue.top()->pos->rightX)) {
+    // Add the element to the queue if the queue is not full yet, or if its rightX is larger than the
+    // smallest rightX in the queue.
+    if (elementsLargestRightXQueue.size() < static_cast<size_t>(qSize)
+        || larger(element->pos->rightX, elementsLargestRightXQueue.top()->pos->rightX)) {
       elementsLargestRightXQueue.push(element);
     }
   }
-- 
2.43.0


From abce8784f109a111a60c865a6df2dc3e81b5b7f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:14 +0000
Subject: [PATCH 12/19] fix: keep the text of words that are hyphenated more
 than once

A word that is the second part of a hyphenated word and itself ends with a hyphen was merged with the
next word only, so the serializers omitted it together with the text before it.
---
 src/WordsDehyphenation.cpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/WordsDehyphenation.cpp b/src/WordsDehyphenation.cpp
index c7a7a82..d13a9dc 100755
--- a/src/WordsDehyphenation.cpp
+++ b/src/WordsDehyphenation.cpp
@@ -38,6 +38,7 @@ void WordsDehyphenation::process() const {
   assert(_doc);
 
   PdfTextLine* prevLine = nullptr;
+  PdfWord* mergedWord = nullptr;  // The most recently merged word.
   for (const auto* page : _doc->pages) {
     for (const auto* block : page->blocks) {
       for (auto* line : block->lines) {
@@ -60,9 +61,15 @@ void WordsDehyphenation::process() const {
             string currLineFirstWordText = currLineFirstWord->text;
 
             if (isHyphenated) {
-              PdfWord* mergedWord = new PdfWord();
-              mergedWord->doc = _doc;
-              mergedWord->text = prevLineLastWordText.substr(0, prevLineLastWordText.length() - 1);
+              string firstPart = prevLineLastWordText;
+              if (mergedWord && prevLineLastWord->isSecondPartOfHyphenatedWord == mergedWord) {
+                // The word is hyphenated more than once. Extend the word merged so far.
+                firstPart = mergedWord->text;
+              } else {
+                mergedWord = new PdfWord();
+                mergedWord->doc = _doc;
+              }
+              mergedWord->text = firstPart.substr(0, firstPart.length() - 1);
               mergedWord->text += currLineFirstWordText;
 
               prevLineLastWord->isFirstPartOfHyphenatedWord = mergedWord;
-- 
2.43.0


From e333d16fd0acf89e8f4c25827c3225a3efbae943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:36 +0000
Subject: [PATCH 13/19] fix: do not lose diacritic marks when merging several
 marks

A mark that was merged with another mark, or with a base character that has a mark already, was skipped
on serialization, but its text was not part of the text of any base character.
---
 src/DiacriticalMarksMerging.cpp | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/src/DiacriticalMarksMerging.cpp b/src/DiacriticalMarksMerging.cpp
index a1ff54c..eb2719d 100755
--- a/src/DiacriticalMarksMerging.cpp
+++ b/src/DiacriticalMarksMerging.cpp
@@ -123,6 +123,20 @@ void DiacriticalMarksMerging::process() const {
         continue;
       }
 
+      // Skip the character if another diacritic mark was already merged with it. Otherwise, the text
+      // of the other diacritic mark would be lost.
+      if (currChar->isBaseCharOfDiacriticMark) {
+        _log->debug(p) << BOLD << "Skipping character (is a base character)." << OFF << endl;
+        continue;
+      }
+
+      // Skip previous characters that are diacritic marks merged with their base characters.
+      size_t prevIndex = i;
+      while (prevIndex > 0 && page->characters[prevIndex - 1]->isDiacriticMarkOfBaseChar) {
+        prevIndex--;
+      }
+      prevChar = prevIndex > 0 ? page->characters[prevIndex - 1] : nullptr;
+
       // Compute the horizontal overlap with the previous character.
       double prevXOverlapRatio = 0;
       _log->debug(p) << "---------------------------------------" << endl;
@@ -174,16 +188,22 @@ void DiacriticalMarksMerging::process() const {
         _log->debug(p) << BOLD << "Merge diacritic with next character." << OFF << endl;
         base = nextChar;
       }
+      bool isMerged = base->isBaseCharOfDiacriticMark != nullptr;
       mark->isDiacriticMarkOfBaseChar = base;
       base->isBaseCharOfDiacriticMark = mark;
 
       // Compute the text with the base character and the diacritic mark merged to a single
       // character, using the utf8proc library.
       vector<Unicode> unicodesMerged;
-      for (const auto& u : base->unicodes) { unicodesMerged.push_back(u); }
+      vector<uint8_t> bytesMerged;
+      if (isMerged) {
+        // The base character has a diacritic mark already (merged from the other side).
+        for (const auto& ch : base->textWithDiacriticMark) { bytesMerged.push_back(ch & 0xff); }
+      } else {
+        for (const auto& u : base->unicodes) { unicodesMerged.push_back(u); }
+      }
       unicodesMerged.push_back(unicode);
 
-      vector<uint8_t> bytesMerged;
       char buf[8];
       for (const auto& u : unicodesMerged) {
         int len = uMap->mapUnicode(u, buf, sizeof(buf));
-- 
2.43.0


From 67d07d981f2af1992ebe025f64f3c1957b692b6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:51 +0000
Subject: [PATCH 14/19] fix: check the result of utf8proc_map when merging
 diacritic marks

The text of a character is not necessarily valid UTF-8. In this case, utf8proc_map returns an error and no
text, and the program crashed. The returned text was never freed and truncated at null characters.
---
 src/DiacriticalMarksMerging.cpp | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/src/DiacriticalMarksMerging.cpp b/src/DiacriticalMarksMerging.cpp
index eb2719d..63faf4b 100755
--- a/src/DiacriticalMarksMerging.cpp
+++ b/src/DiacriticalMarksMerging.cpp
@@ -10,6 +10,8 @@
 #include <utf8proc.h>
 
 #include <cassert>  // assert
+#include <cstdlib>  // free
+#include <string>
 #include <vector>
 
 #include "./DiacriticalMarksMerging.h"
@@ -19,6 +21,7 @@
 #include "./utils/PdfElementsUtils.h"
 
 using std::endl;
+using std::string;
 using std::vector;
 
 using ppp::config::DiacriticalMarksMergingConfig;
@@ -189,15 +192,12 @@ void DiacriticalMarksMerging::process() const {
         base = nextChar;
       }
       bool isMerged = base->isBaseCharOfDiacriticMark != nullptr;
-      mark->isDiacriticMarkOfBaseChar = base;
-      base->isBaseCharOfDiacriticMark = mark;
-
       // Compute the text with the base character and the diacritic mark merged to a single
       // character, using the utf8proc library.
       vector<Unicode> unicodesMerged;
       vector<uint8_t> bytesMerged;
       if (isMerged) {
-        // The base character has a diacritic mark already (merged from the other side).
+        // The base character was already merged with another diacritic mark.
         for (const auto& ch : base->textWithDiacriticMark) { bytesMerged.push_back(ch & 0xff); }
       } else {
         for (const auto& u : base->unicodes) { unicodesMerged.push_back(u); }
@@ -212,11 +212,22 @@ void DiacriticalMarksMerging::process() const {
         }
       }
 
-      uint8_t* output;
+      uint8_t* output = nullptr;
       int options = UTF8PROC_STABLE | UTF8PROC_COMPOSE;
-      utf8proc_map(&bytesMerged[0], bytesMerged.size(), &output, (utf8proc_option_t) options);
+      utf8proc_ssize_t numBytes = utf8proc_map(&bytesMerged[0], bytesMerged.size(), &output,
+          (utf8proc_option_t) options);
 
-      base->textWithDiacriticMark = reinterpret_cast<char*>(output);
+      // Skip the character if the text can not be computed (because it is not valid UTF-8).
+      if (numBytes < 0) {
+        _log->debug(p) << BOLD << "Skipping character (invalid text)." << OFF << endl;
+        continue;
+      }
+
+      base->textWithDiacriticMark = string(reinterpret_cast<char*>(output), numBytes);
+      free(output);
+
+      mark->isDiacriticMarkOfBaseChar = base;
+      base->isBaseCharOfDiacriticMark = mark;
 
       // Update the bounding box.
       base->pos->leftX = minimum(base->pos->leftX, mark->pos->leftX);
-- 
2.43.0


From 39d11f4b91a394e41856a3c9f862ba93b0fb3434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:55 +0000
Subject: [PATCH 15/19] fix: assign each word to at most one stacked math
 symbol

---
 src/WordsDetection.cpp | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/src/WordsDetection.cpp b/src/WordsDetection.cpp
index bc4a964..57c52e2 100755
--- a/src/WordsDetection.cpp
+++ b/src/WordsDetection.cpp
@@ -307,6 +307,13 @@ void WordsDetection::mergeStackedMathSymbols(const PdfPage* page) const {
       continue;
     }
 
+    // Skip the word if it is already part of another stacked math symbol. Otherwise, the words of
+    // this symbol would be lost, because they are only processed together with their base word.
+    if (word->isPartOfStackedMathSymbol) {
+      _log->debug(p) << BOLD << "Skipping word (part of another stacked symbol)." << OFF << endl;
+      continue;
+    }
+
     // Iterate through the previous words in reversed order (starting at the current word) for
     // checking if they are also part of the stacked math symbol. Consider a word to be part of the
     // stacked math symbol, if the horizontal overlap between the word and the base word is
@@ -324,6 +331,13 @@ void WordsDetection::mergeStackedMathSymbols(const PdfPage* page) const {
       _log->debug(p) << " • prevWord.lowerY: " << prevWord->pos->lowerY << endl;
       _log->debug(p) << " • prevWord.fontSize: " << prevWord->fontSize << endl;
 
+      // The previous word is not a part of the stacked math symbol when it already belongs to another
+      // stacked math symbol. Otherwise, the word would be processed twice.
+      if (prevWord->isPartOfStackedMathSymbol || !prevWord->isBaseOfStackedMathSymbol.empty()) {
+        _log->debug(p) << BOLD << "belongs to another stacked math symbol." << OFF << endl;
+        break;
+      }
+
       // The previous word is not a part of the stacked math symbol when the maximum x-overlap
       // ratio is smaller than a threshold.
       double maxXOverlapRatio = computeMaxXOverlapRatio(word, prevWord);
@@ -366,6 +380,13 @@ void WordsDetection::mergeStackedMathSymbols(const PdfPage* page) const {
       _log->debug(p) << " • nextWord.lowerY: " << nextWord->pos->lowerY << endl;
       _log->debug(p) << " • nextWord.fontSize: " << nextWord->fontSize << endl;
 
+      // The next word is not a part of the stacked math symbol when it already belongs to another
+      // stacked math symbol. Otherwise, the word would be processed twice.
+      if (nextWord->isPartOfStackedMathSymbol || !nextWord->isBaseOfStackedMathSymbol.empty()) {
+        _log->debug(p) << BOLD << "belongs to another stacked math symbol." << OFF << endl;
+        break;
+      }
+
       // The next word is not a part of the stacked math symbol when the maximum x-overlap ratio is
       // smaller than a threshold.
       double maxXOverlapRatio = computeMaxXOverlapRatio(word, nextWord);
-- 
2.43.0


From a0387fec86da92a83849341d76a1cf03bde8d20f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:21 +0000
Subject: [PATCH 16/19] fix: compare distances between lines without truncating
 them to whole points

abs() resolved to int abs(int), so that fractions of distances and offsets
were dropped before they were compared with the (fractional) tolerances.
---
 src/TextBlocksDetection.cpp            | 3 ++-
 src/utils/TextBlocksDetectionUtils.cpp | 9 +++++----
 src/utils/TextLinesDetectionUtils.cpp  | 3 ++-
 3 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/TextBlocksDetection.cpp b/src/TextBlocksDetection.cpp
index 50e40ce..699e03e 100755
--- a/src/TextBlocksDetection.cpp
+++ b/src/TextBlocksDetection.cpp
@@ -7,6 +7,7 @@
  */
 
 #include <cassert>  // assert
+#include <cmath>  // fabs
 #include <string>
 #include <utility>  // std::pair
 #include <vector>
@@ -807,7 +808,7 @@ Trool TextBlocksDetection::startsBlock_indent(const PdfTextLine* line) const {
   bool isCurrIndented = between(currLeftMargin, indentTolLow, indentTolHigh);
   bool isPrevMoreIndented = larger(prevLeftMargin, indentTolHigh);
   bool isCurrMoreIndented = larger(currLeftMargin, indentTolHigh);
-  double absLeftXOffset = abs(computeLeftXOffset(prevLine, line));
+  double absLeftXOffset = fabs(computeLeftXOffset(prevLine, line));
   bool hasPrevLineCapacity = _utils->computeHasPrevLineCapacity(line->prevLine, line);
 
   _log->debug(p) << _q << BLUE <<  "Is the line indented?" << OFF << endl;
diff --git a/src/utils/TextBlocksDetectionUtils.cpp b/src/utils/TextBlocksDetectionUtils.cpp
index 3cdacb3..4feecc4 100755
--- a/src/utils/TextBlocksDetectionUtils.cpp
+++ b/src/utils/TextBlocksDetectionUtils.cpp
@@ -7,6 +7,7 @@
  */
 
 #include <cassert>  // assert
+#include <cmath>  // fabs
 #include <limits>  // std::numeric_limits
 #include <regex>
 #include <string>
@@ -86,8 +87,8 @@ bool TextBlocksDetectionUtils::computeIsCentered(const PdfTextLine* line1,
 
   // The lines are not centered when the leftX-offset and the rightX-offset between the lines
   // are not equal.
-  double absLeftXOffset = abs(computeLeftXOffset(line1, line2));
-  double absRightXOffset = abs(computeRightXOffset(line1, line2));
+  double absLeftXOffset = fabs(computeLeftXOffset(line1, line2));
+  double absRightXOffset = fabs(computeRightXOffset(line1, line2));
 
   double xOffsetTolerance = _config->getCenteringXOffsetEqualTolerance(line1);
   if (!equal(absLeftXOffset, absRightXOffset, xOffsetTolerance)) {
@@ -142,8 +143,8 @@ bool TextBlocksDetectionUtils::computeIsTextLinesCentered(const PdfTextBlock* bl
     bool isFormula = prevLineContainsFormula || currLineContainsFormula;
 
     // Check if the line has a leftX offset (or rightX offset) larger than the threshold.
-    double absLeftXOffset = abs(computeLeftXOffset(prevLine, currLine));
-    double absRightXOffset = abs(computeRightXOffset(prevLine, currLine));
+    double absLeftXOffset = fabs(computeLeftXOffset(prevLine, currLine));
+    double absRightXOffset = fabs(computeRightXOffset(prevLine, currLine));
     double xOffsetThreshold = _config->getCenteringXOffsetEqualTolerance(currLine);
     bool isLargeLeftXOffset = larger(absLeftXOffset, xOffsetThreshold);
     bool isLargeRightXOffset = larger(absRightXOffset, xOffsetThreshold);
diff --git a/src/utils/TextLinesDetectionUtils.cpp b/src/utils/TextLinesDetectionUtils.cpp
index af16c98..570581f 100755
--- a/src/utils/TextLinesDetectionUtils.cpp
+++ b/src/utils/TextLinesDetectionUtils.cpp
@@ -7,6 +7,7 @@
  */
 
 #include <cassert>  // assert
+#include <cmath>  // fabs
 #include <stack>
 #include <tuple>
 #include <utility>  // std::pair
@@ -68,7 +69,7 @@ void TextLinesDetectionUtils::computeTextLineHierarchy(const PdfPage* page) cons
         bool hasSameRotation = prevLine->pos->rotation == line->pos->rotation;
         bool hasSameWMode = prevLine->pos->wMode == line->pos->wMode;
         if (hasSameRotation && hasSameWMode) {
-          double absLineDistance = abs(computeVerticalGap(prevLine, line));
+          double absLineDistance = fabs(computeVerticalGap(prevLine, line));
           if (larger(absLineDistance, _config->lineHierarchyMaxLineDist,
               _config->coordsEqualTolerance)) {
             lineStack = stack<PdfTextLine*>();
-- 
2.43.0


From 323196ca9739151709e97df0b664adf76a6b0492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:16:49 +0000
Subject: [PATCH 17/19] fix: skip the prediction of semantic roles if it is
 disabled

---
 src/ReadingOrderDetection.cpp | 6 ++++++
 src/ReadingOrderDetection.h   | 2 ++
 2 files changed, 8 insertions(+)

diff --git a/src/ReadingOrderDetection.cpp b/src/ReadingOrderDetection.cpp
index 685d4ab..f3227f7 100755
--- a/src/ReadingOrderDetection.cpp
+++ b/src/ReadingOrderDetection.cpp
@@ -53,6 +53,7 @@ ReadingOrderDetection::ReadingOrderDetection(
     const SemanticRolesPredictionConfig* config2) {
   _doc = doc;
   _config = config;
+  _semanticRolesPredictionConfig = config2;
   _semanticRolesPrediction = new SemanticRolesPrediction(config2);
 }
 
@@ -69,6 +70,11 @@ void ReadingOrderDetection::process() {
 
 // _________________________________________________________________________________________________
 void ReadingOrderDetection::detectSemanticRoles() {
+  // Do nothing if the prediction of the semantic roles is disabled.
+  if (_semanticRolesPredictionConfig->disabled) {
+    return;
+  }
+
   _semanticRolesPrediction->predict(_doc);
 }
 
diff --git a/src/ReadingOrderDetection.h b/src/ReadingOrderDetection.h
index a139d84..163af7b 100755
--- a/src/ReadingOrderDetection.h
+++ b/src/ReadingOrderDetection.h
@@ -174,6 +174,8 @@ class ReadingOrderDetection {
   PdfDocument* _doc;
   // The configuration to use.
   const ReadingOrderDetectionConfig* _config;
+  // The configuration to use for predicting the semantic roles.
+  const SemanticRolesPredictionConfig* _semanticRolesPredictionConfig;
 
   double _minXCutGapWidth = 0;
   double _minYCutGapHeight = 0;
-- 
2.43.0


From 8b78b7bfcb038c240c8d918c09ff5323d6676a88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:19:18 +0000
Subject: [PATCH 18/19] fix: ignore paths without a visible point

---
 src/PdfParsing.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/PdfParsing.cpp b/src/PdfParsing.cpp
index a2d8cd5..1121ee1 100755
--- a/src/PdfParsing.cpp
+++ b/src/PdfParsing.cpp
@@ -612,8 +612,9 @@ void PdfParsing::stroke(GfxState* state) {
   double x, y;
   double leftX = numeric_limits<double>::max();
   double upperY = numeric_limits<double>::max();
-  double rightX = numeric_limits<double>::min();
-  double lowerY = numeric_limits<double>::min();
+  double rightX = numeric_limits<double>::lowest();
+  double lowerY = numeric_limits<double>::lowest();
+  bool hasVisiblePoint = false;
   const GfxPath* path = state->getPath();
   for (int i = 0; i < path->getNumSubpaths(); i++) {
     const GfxSubpath* subpath = path->getSubpath(i);
@@ -635,6 +636,7 @@ void PdfParsing::stroke(GfxState* state) {
         continue;
       }
 
+      hasVisiblePoint = true;
       leftX = maximum(minimum(leftX, x), clipLeftX);
       upperY = maximum(minimum(upperY, y), clipUpperY);
       rightX = minimum(maximum(rightX, x), clipRightX);
@@ -642,6 +644,11 @@ void PdfParsing::stroke(GfxState* state) {
     }
   }
 
+  // Ignore the path if none of its points is visible (since there is no bounding box then).
+  if (!hasVisiblePoint) {
+    return;
+  }
+
   // Store the information about the path in form of a `PdfShape`.
   PdfShape* shape = new PdfShape();
   shape->id = createRandomString(_config.idLength, "shape-");
-- 
2.43.0


From 2acbc51c3c89747277552d3dc1d30fa68dbfec05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:27:21 +0000
Subject: [PATCH 19/19] fix: order the sides of the bounding box of a character

---
 src/PdfParsing.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/PdfParsing.cpp b/src/PdfParsing.cpp
index 1121ee1..9da21f8 100755
--- a/src/PdfParsing.cpp
+++ b/src/PdfParsing.cpp
@@ -456,10 +456,11 @@ void PdfParsing::drawChar(GfxState* state, double x, double y, double dx, double
   }
 
   // Round the coordinates of the character's bounding box.
-  ch->pos->leftX = round(posLeftX, _config.coordinatePrecision);
-  ch->pos->upperY = round(posUpperY, _config.coordinatePrecision);
-  ch->pos->rightX = round(posRightX, _config.coordinatePrecision);
-  ch->pos->lowerY = round(posLowerY, _config.coordinatePrecision);
+  // NOTE: The sides may be in reversed order, for example when the text is rotated by 180 degrees.
+  ch->pos->leftX = round(minimum(posLeftX, posRightX), _config.coordinatePrecision);
+  ch->pos->upperY = round(minimum(posUpperY, posLowerY), _config.coordinatePrecision);
+  ch->pos->rightX = round(maximum(posLeftX, posRightX), _config.coordinatePrecision);
+  ch->pos->lowerY = round(maximum(posUpperY, posLowerY), _config.coordinatePrecision);
   ch->base = round(base, _config.coordinatePrecision);
 
   _log->debug(_p) << " • char.leftX:  " << ch->pos->leftX << endl;
-- 
2.43.0

