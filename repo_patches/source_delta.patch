From 8def574766780edb393ac632d898b396373e9954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:25 +0000
Subject: [PATCH 001/124] fix: unset long and double features read as 0, not as
 10

---
 src/cas/uima/lowlevel_fsheap.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cas/uima/lowlevel_fsheap.hpp b/src/cas/uima/lowlevel_fsheap.hpp
index a8eb226..5d25ebc 100644
--- a/src/cas/uima/lowlevel_fsheap.hpp
+++ b/src/cas/uima/lowlevel_fsheap.hpp
@@ -490,7 +490,7 @@ namespace uima {
 
       inline INT64 getFSAsLong(TyFS tyFS) const {
         if (tyFS == 0) {
-          return '\n';
+          return 0;
         }
         assert( iv_clTemporary64BitHeap.debugIsValidHeapCell(tyFS) );
         return (INT64) iv_clTemporary64BitHeap.getHeapValue(tyFS);
@@ -498,7 +498,7 @@ namespace uima {
 
       inline double getFSAsDouble(TyFS tyFS) const {
         if (tyFS == 0) {
-          return '\n';
+          return 0;
         }
         assert( iv_clTemporary64BitHeap.debugIsValidHeapCell(tyFS) );
         INT64 int64Val = iv_clTemporary64BitHeap.getHeapValue(tyFS);
-- 
2.43.0


From 83760f43e9c323dba231a001b5699796e6f79fdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:35 +0000
Subject: [PATCH 002/124] fix: keep the full length of string values that
 contain U+0000

---
 src/cas/cas.cpp                             | 10 +++++-----
 src/cas/featurestructure.cpp                |  2 +-
 src/cas/lowlevel_fsheap.cpp                 | 11 ++++++-----
 src/cas/uima/internal_fsvalue_accessors.hpp |  4 ++--
 src/cas/uima/lowlevel_fsheap.hpp            | 22 ++++++++++++---------
 src/cas/xcasdeserializer_handler.cpp        |  2 +-
 6 files changed, 28 insertions(+), 23 deletions(-)

diff --git a/src/cas/cas.cpp b/src/cas/cas.cpp
index 521cc8f..29357b0 100644
--- a/src/cas/cas.cpp
+++ b/src/cas/cas.cpp
@@ -435,19 +435,19 @@ namespace uima {
   int CAS::addString(UChar const * cpBuffer, size_t uiLength) {
     UnicodeStringRef uls( cpBuffer, uiLength );
     int shoff = iv_heap->addString(uls);
-    return iv_heap->getStringAsFS(shoff);
+    return iv_heap->getStringAsFS(shoff, uls.length());
   }
 
 
   int CAS::addString(icu::UnicodeString const & crString) {
     UnicodeStringRef uls( crString.getBuffer(), crString.length() );
     int shoff = iv_heap->addString(uls);
-    return iv_heap->getStringAsFS(shoff);
+    return iv_heap->getStringAsFS(shoff, uls.length());
   }
 
   int CAS::addString(const UnicodeStringRef & uls) {
     int shoff = iv_heap->addString(uls);
-    return iv_heap->getStringAsFS(shoff);
+    return iv_heap->getStringAsFS(shoff, uls.length());
   }
 
   ArrayFS CAS::createArrayFS(size_t uiLength) {
@@ -744,7 +744,7 @@ namespace uima {
         uima::lowlevel::TyFSFeature langFeat = ts.getFeatureByFullName(CAS::FEATURE_FULL_NAME_LANGUAGE);
         assert( ts.isValidFeature(langFeat) );
         int ref = iv_heap->addString( lang.asUnicodeString() );
-        iv_heap->setStringValue( iv_tyDocumentAnnotation, langFeat, ref);
+        iv_heap->setStringValue( iv_tyDocumentAnnotation, langFeat, ref, lang.asUnicodeString().length());
         iv_heap->setFSValue(iv_tyDocumentAnnotation, internal::gs_tySofaRefFeature,
                             internal::FSPromoter::demoteFS(getSofa()));
       }
@@ -1404,7 +1404,7 @@ namespace uima {
     }
     assert( iv_cas->getHeap()->getTypeSystem().isValidFeature(getCAS().iv_utDocumentLangAsStrFeat) );
     int ref = iv_cas->getHeap()->addString( lang.asUnicodeString() );
-    iv_cas->getHeap()->setStringValue(iv_tyFS, getCAS().iv_utDocumentLangAsStrFeat, ref);
+    iv_cas->getHeap()->setStringValue(iv_tyFS, getCAS().iv_utDocumentLangAsStrFeat, ref, lang.asUnicodeString().length());
   }
 
 
diff --git a/src/cas/featurestructure.cpp b/src/cas/featurestructure.cpp
index c5f167d..fb86864 100644
--- a/src/cas/featurestructure.cpp
+++ b/src/cas/featurestructure.cpp
@@ -484,7 +484,7 @@ namespace uima {
 
 
 
-    iv_cas->getHeap()->setStringValue( iv_tyFS, tyFeat, ulsRef );
+    iv_cas->getHeap()->setStringValue( iv_tyFS, tyFeat, ulsRef, uls.length() );
   }
 
   /* ----------------------------------------------------------------------- */
diff --git a/src/cas/lowlevel_fsheap.cpp b/src/cas/lowlevel_fsheap.cpp
index 212c24a..ab551b6 100644
--- a/src/cas/lowlevel_fsheap.cpp
+++ b/src/cas/lowlevel_fsheap.cpp
@@ -113,7 +113,7 @@ namespace uima {
     }
 
 
-    void FSHeap::setStringValue(TyFS tyFs, TyFSFeature tyFeature, int strRef) {
+    void FSHeap::setStringValue(TyFS tyFs, TyFSFeature tyFeature, int strRef, size_t uiLength) {
       assert( iv_rclTypeSystem.isValidFeature(tyFeature) );
       assert( iv_rclTypeSystem.subsumes(uima::internal::gs_tyStringType, iv_rclTypeSystem.getRangeType(tyFeature)));
 
@@ -124,7 +124,7 @@ namespace uima {
         vector<icu::UnicodeString> const & crStringSet = iv_rclTypeSystem.getStringsForStringSubtype(rangeType);
         vector<icu::UnicodeString>::const_iterator cit;
         bool bStringFound = false;
-        UnicodeStringRef crStringRef(iv_clTemporaryStringHeap.getHeapStart()+strRef);
+        UnicodeStringRef crStringRef(iv_clTemporaryStringHeap.getHeapStart()+strRef, uiLength);
         for (cit = crStringSet.begin(); cit != crStringSet.end(); ++cit) {
           UnicodeStringRef ref(*cit);
           if ( ref == crStringRef ) {
@@ -139,10 +139,10 @@ namespace uima {
       TyFS tyCurrentString = getFeatureInternal( tyFs, tyFeature );
       if (tyCurrentString == 0) {
         // add entry to StringRefHeap and set values there
-        tyCurrentString = getStringAsFS(strRef);
+        tyCurrentString = getStringAsFS(strRef, uiLength);
       } else {
         // reuse entry in StringRefHeap
-        setStringRef(tyCurrentString, strRef);
+        setStringRef(tyCurrentString, strRef, uiLength);
       }
 
       setFeatureInternal(tyFs, tyFeature, tyCurrentString);
@@ -163,7 +163,8 @@ namespace uima {
           // if string value set, create duplicate reference to string in refHeap
           if (strRef != 0) {
             int ref = iv_clTemporaryStringRefHeap.getHeapValue(1 + 2*(strRef-1));
-            iv_clTemporaryHeap.setHeapValue(tyTarget+i, getStringAsFS(ref));
+            size_t length = iv_clTemporaryStringRefHeap.getHeapValue(2 + 2*(strRef-1));
+            iv_clTemporaryHeap.setHeapValue(tyTarget+i, getStringAsFS(ref, length));
           }
         } else {
           iv_clTemporaryHeap.setHeapValue(tyTarget+i, iv_clTemporaryHeap.getHeapValue(tySource+i));
diff --git a/src/cas/uima/internal_fsvalue_accessors.hpp b/src/cas/uima/internal_fsvalue_accessors.hpp
index b2bf1e6..41fe71a 100644
--- a/src/cas/uima/internal_fsvalue_accessors.hpp
+++ b/src/cas/uima/internal_fsvalue_accessors.hpp
@@ -93,7 +93,7 @@ namespace uima {
     }
     inline void setFSValueTempl(uima::CAS * cas, lowlevel::TyFS tyFS, lowlevel::TyFSFeature tyFeat, UnicodeStringRef const & val) {
       int ulsHeap = cas->getHeap()->addString(val);
-      cas->getHeap()->setStringValue(tyFS, tyFeat, ulsHeap );
+      cas->getHeap()->setStringValue(tyFS, tyFeat, ulsHeap, val.length() );
       assert( cas->getHeap()->getStringValue(tyFS, tyFeat) == val );
     }
 
@@ -120,7 +120,7 @@ namespace uima {
         uima::lowlevel::FSHeap & heap,
         lowlevel::TyHeapCell offset) {
       int ulsHeap = heap.addString(s);
-      lowlevel::TyFS tyStringFS = heap.getStringAsFS( ulsHeap );
+      lowlevel::TyFS tyStringFS = heap.getStringAsFS( ulsHeap, s.length() );
       return (lowlevel::TyHeapCell)tyStringFS;
       //  return (lowlevel::TyHeapCell) ulsHeap;
     }
diff --git a/src/cas/uima/lowlevel_fsheap.hpp b/src/cas/uima/lowlevel_fsheap.hpp
index 5d25ebc..2252a25 100644
--- a/src/cas/uima/lowlevel_fsheap.hpp
+++ b/src/cas/uima/lowlevel_fsheap.hpp
@@ -148,7 +148,8 @@ namespace uima {
        * at pointerIntoStringRefHeap to point to s.
        */
       void setStringRef(TyFS offsetIntoStringRefHeap,
-                        TyFS offsetIntoStringHeap);
+                        TyFS offsetIntoStringHeap,
+                        size_t uiLength);
 
       TyFSHeap& getHeap() {
         return iv_clTemporaryHeap;
@@ -566,7 +567,7 @@ namespace uima {
        * This method is non-const since an entry on the string ref heap
        * is created.
        */
-      TyFS getStringAsFS(int crStringRef);
+      TyFS getStringAsFS(int crStringRef, size_t uiLength);
 
       /*@}*/
 
@@ -576,7 +577,11 @@ namespace uima {
        */
       void setIntValue(TyFS, TyFSFeature, int);
       void setFloatValue(TyFS, TyFSFeature, float);
-      void setStringValue(TyFS, TyFSFeature, int strRef);
+      void setStringValue(TyFS, TyFSFeature, int strRef, size_t uiLength);
+      // for strings without U+0000
+      void setStringValue(TyFS tyFs, TyFSFeature tyFeature, int strRef) {
+        setStringValue(tyFs, tyFeature, strRef, u_strlen(iv_clTemporaryStringHeap.getHeapStart()+strRef));
+      }
 
       void setByteValue(TyFS, TyFSFeature, char );
       void setShortValue(TyFS, TyFSFeature, short );
@@ -730,16 +735,15 @@ namespace uima {
       iv_clTemporaryHeap.setHeapValue(tyFs + tyOffset, tyValue);
     }
 
-    inline void FSHeap::setStringRef(TyFS strHeapRef, TyFS strRef) {
+    inline void FSHeap::setStringRef(TyFS strHeapRef, TyFS strRef, size_t uiLength) {
       // convert from logical string offset to absolute offset into refHeap
       strHeapRef = 1 + 2*(strHeapRef-1);
 
       // set offset into StringHeap
       iv_clTemporaryStringRefHeap.setHeapValue(strHeapRef, strRef);
 
-      // set length
-      iv_clTemporaryStringRefHeap.setHeapValue(strHeapRef+1,
-          u_strlen(iv_clTemporaryStringHeap.getHeapStart()+strRef) );
+      // set length (a string may contain U+0000, so it can't be derived from the contents)
+      iv_clTemporaryStringRefHeap.setHeapValue(strHeapRef+1, (TyHeapCell) uiLength);
     }
 
     inline UnicodeStringRef FSHeap::getFSAsString(TyFS tyFS) const {
@@ -754,12 +758,12 @@ namespace uima {
                                (size_t) iv_clTemporaryStringRefHeap.getHeapValue(tyFS+1));
     }
 
-    inline TyFS FSHeap::getStringAsFS(int crStringRef) {
+    inline TyFS FSHeap::getStringAsFS(int crStringRef, size_t uiLength) {
       // increase string ref heap by 2
       TyFS stringRef = iv_clTemporaryStringRefHeap.increaseHeap(2);
       // convert to local string offset
       stringRef = 1 + ((stringRef-1)/2);
-      setStringRef(stringRef, crStringRef);
+      setStringRef(stringRef, crStringRef, uiLength);
       return stringRef;
     }
 
diff --git a/src/cas/xcasdeserializer_handler.cpp b/src/cas/xcasdeserializer_handler.cpp
index 53012d7..505ddeb 100644
--- a/src/cas/xcasdeserializer_handler.cpp
+++ b/src/cas/xcasdeserializer_handler.cpp
@@ -627,7 +627,7 @@ namespace uima {
         //add the string
         int stringoffset = iv_cas->getHeap()->addString(buffer);
         //set the array value in fs heap
-        lowlevel::TyFS  stringref =  iv_cas->getHeap()->getStringAsFS(stringoffset);
+        lowlevel::TyFS  stringref =  iv_cas->getHeap()->getStringAsFS(stringoffset, buffer.length());
         lowlevel::TyHeapCell * fsarray = iv_cas->getHeap()->getCArrayFromFS(currentAddr);
         fsarray[arrayPos] = stringref;
         break;
-- 
2.43.0


From 0c8691b46cb743a4dfebaa441437bceec34aa515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:33 +0000
Subject: [PATCH 003/124] fix: use after free when a string value is copied
 within a CAS and the string heap grows

---
 src/cas/featurestructure.cpp     |  4 ++--
 src/cas/uima/lowlevel_fsheap.hpp | 10 +++++++++-
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/cas/featurestructure.cpp b/src/cas/featurestructure.cpp
index fb86864..ecd38e6 100644
--- a/src/cas/featurestructure.cpp
+++ b/src/cas/featurestructure.cpp
@@ -451,8 +451,6 @@ namespace uima {
     checkValidity(UIMA_MSG_ID_EXCON_SETTING_STRINGVALUE_IN_FS);
     checkRangeIsString(f, UIMA_MSG_ID_EXCON_SETTING_STRINGVALUE_IN_FS);
 
-    //!!! Not supporting External at this time. All strings added to StringHeap.
-    int ulsRef = iv_cas->getHeap()->addString(uls);
     lowlevel::TyFSFeature tyFeat =  internal::FSPromoter::demoteFeature( f );
 
     uima::lowlevel::TypeSystem const & crTypeSystem = iv_cas->getHeap()->getTypeSystem();
@@ -484,6 +482,8 @@ namespace uima {
 
 
 
+    //!!! Not supporting External at this time. All strings added to StringHeap.
+    int ulsRef = iv_cas->getHeap()->addString(uls);
     iv_cas->getHeap()->setStringValue( iv_tyFS, tyFeat, ulsRef, uls.length() );
   }
 
diff --git a/src/cas/uima/lowlevel_fsheap.hpp b/src/cas/uima/lowlevel_fsheap.hpp
index 2252a25..2d4091f 100644
--- a/src/cas/uima/lowlevel_fsheap.hpp
+++ b/src/cas/uima/lowlevel_fsheap.hpp
@@ -365,9 +365,17 @@ namespace uima {
       int addString(UnicodeStringRef const & uls) {
         size_t l = uls.length();
         TyStringHeap & rtyStringHeap = getStringHeap();
+        UChar const * source = uls.getBuffer();
+        // the string may reside on this very heap, which may move when it grows
+        bool bOnHeap = source >= rtyStringHeap.getHeapStart()
+                       && source < rtyStringHeap.getHeapStart() + rtyStringHeap.getTopOfHeap();
+        size_t offset = bOnHeap ? source - rtyStringHeap.getHeapStart() : 0;
         int p = rtyStringHeap.increaseHeap(l + 1);
         assert( (int)(2*l) == uls.getSizeInBytes() );
-        memcpy(rtyStringHeap.getHeapStart()+p, uls.getBuffer(), uls.getSizeInBytes() );
+        if (bOnHeap) {
+          source = rtyStringHeap.getHeapStart() + offset;
+        }
+        memcpy(rtyStringHeap.getHeapStart()+p, source, uls.getSizeInBytes() );
         return p;
       }
 
-- 
2.43.0


From 9191a609993eb1ec776c8ccb95c6b38680ce9ca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:26 +0000
Subject: [PATCH 004/124] fix: refuse feature access that the feature's range
 or owner type does not allow, and clone only common features

---
 src/cas/featurestructure.cpp | 27 ++++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/src/cas/featurestructure.cpp b/src/cas/featurestructure.cpp
index ecd38e6..f3c8b93 100644
--- a/src/cas/featurestructure.cpp
+++ b/src/cas/featurestructure.cpp
@@ -77,6 +77,16 @@ namespace uima {
   /*       Tool Functions Implementation                                     */
   /* ----------------------------------------------------------------------- */
 
+  static bool isPrimitiveType(lowlevel::TyFSType tyType) {
+    return tyType == uima::internal::gs_tyIntegerType
+           || tyType == uima::internal::gs_tyFloatType
+           || tyType == uima::internal::gs_tyBooleanType
+           || tyType == uima::internal::gs_tyByteType
+           || tyType == uima::internal::gs_tyShortType
+           || tyType == uima::internal::gs_tyLongType
+           || tyType == uima::internal::gs_tyDoubleType;
+  }
+
   /**
    * Checks if this FS is valid and throws an appropriate exeption
    * with the passed context if not.
@@ -131,8 +141,7 @@ namespace uima {
     assert(EXISTS(iv_cas));
     lowlevel::TypeSystem const & rTS = iv_cas->getHeap()->getTypeSystem();
     uima::lowlevel::TyFSType rangeType = rTS.getRangeType(internal::FSPromoter::demoteFeature(crFeature));
-    if ( rangeType == uima::internal::gs_tyIntegerType
-         || rangeType == uima::internal::gs_tyFloatType
+    if ( isPrimitiveType(rangeType)
          || rangeType == uima::internal::gs_tyStringType
          || rTS.getParentType(rangeType) == uima::internal::gs_tyStringType ) {
       ErrorMessage msg( UIMA_MSG_ID_EXC_INCOMPATIBLE_RANGE_TYPE);
@@ -176,7 +185,10 @@ namespace uima {
                            ErrorInfo::recoverable
                           );
       }
-    } else if ( !ts.subsumes(ts.getRangeType(internal::FSPromoter::demoteFeature(f)), aType ) ) {
+    } else if ( isPrimitiveType(aType)
+                // primitive values can't stand for structures, although TOP subsumes their types
+                ? aType != ts.getRangeType(internal::FSPromoter::demoteFeature(f))
+                : !ts.subsumes(ts.getRangeType(internal::FSPromoter::demoteFeature(f)), aType ) ) {
       ErrorMessage msg( UIMA_MSG_ID_EXC_INCOMPATIBLE_RANGE_TYPE);
       msg.addParam( ts.getFeatureName(internal::FSPromoter::demoteFeature(f)) );
       msg.addParam( ts.getTypeName(aType) );
@@ -193,7 +205,7 @@ namespace uima {
    * checks if anFS is an appropriate value for f.
    */
   void FeatureStructure::checkAppropFeature(Feature const & f, FeatureStructure const & anFS, TyMessageId tyContext) const {
-    if ( (&iv_cas->getHeap()->getTypeSystem()) != (&anFS.iv_cas->getHeap()->getTypeSystem()) ) {
+    if ( !anFS.isValid() || (&iv_cas->getHeap()->getTypeSystem()) != (&anFS.iv_cas->getHeap()->getTypeSystem()) ) {
       UIMA_EXC_THROW_NEW(InvalidFSObjectException,
                          UIMA_ERR_INVALID_FS_OBJECT,
                          UIMA_MSG_ID_EXC_INVALID_FS_OBJECT,
@@ -256,7 +268,10 @@ namespace uima {
     lowlevel::TyFSType mcst = ts.getMostSpecificCommonSupertype( uima::internal::FSPromoter::demoteType(getType()),
                               uima::internal::FSPromoter::demoteType(t) );
     lowlevel::TyFeatureOffset featNum = ts.getFeatureNumber( mcst );
-    iv_cas->getHeap()->copyFeatures(newFS.iv_tyFS, iv_tyFS, featNum);
+    // 0 would mean all the features of the new structure, which this one need not have
+    if (featNum > 0) {
+      iv_cas->getHeap()->copyFeatures(newFS.iv_tyFS, iv_tyFS, featNum);
+    }
     return newFS;
   }
 
@@ -434,6 +449,7 @@ namespace uima {
 
   UnicodeStringRef  FeatureStructure::getStringValue(Feature const & f) const {
     checkValidity(UIMA_MSG_ID_EXCON_GETTING_STRINGVALUE_FROM_FS);
+    checkFeature(f, UIMA_MSG_ID_EXCON_GETTING_STRINGVALUE_FROM_FS);
     checkRangeIsString(f, UIMA_MSG_ID_EXCON_GETTING_STRINGVALUE_FROM_FS);
     lowlevel::TyFSFeature tyFeat =  internal::FSPromoter::demoteFeature( f );
     lowlevel::TyFS tyStringFS = iv_cas->getHeap()->getFSValue(iv_tyFS, tyFeat);
@@ -449,6 +465,7 @@ namespace uima {
 
   void FeatureStructure::setStringValueExternal(Feature const & f, UnicodeStringRef uls) {
     checkValidity(UIMA_MSG_ID_EXCON_SETTING_STRINGVALUE_IN_FS);
+    checkFeature(f, UIMA_MSG_ID_EXCON_SETTING_STRINGVALUE_IN_FS);
     checkRangeIsString(f, UIMA_MSG_ID_EXCON_SETTING_STRINGVALUE_IN_FS);
 
     lowlevel::TyFSFeature tyFeat =  internal::FSPromoter::demoteFeature( f );
-- 
2.43.0


From 3d4874bc090bc6c18ca007a5c4174d9344cbffd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:07 +0000
Subject: [PATCH 005/124] fix: removing a structure from the indexes is seen by
 later iterators and for types without an index

---
 src/cas/uima/lowlevel_indexrepository.hpp | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/cas/uima/lowlevel_indexrepository.hpp b/src/cas/uima/lowlevel_indexrepository.hpp
index c4b4ea6..60c8694 100644
--- a/src/cas/uima/lowlevel_indexrepository.hpp
+++ b/src/cas/uima/lowlevel_indexrepository.hpp
@@ -39,6 +39,7 @@
 #include "uima/pragmas.hpp"
 
 
+#include <algorithm>
 #include <map>
 #include <list>
 #include "uima/lowlevel_fsheap.hpp"
@@ -270,6 +271,18 @@ namespace uima {
       assert( type < iv_indexes.size() );
       std::vector<internal::SingleIndex*>& typeIndexes = iv_indexes[type];
 
+      // cached iteration orders over this type are out of date now
+      iv_cacheDirtyFlags[type].clear();
+
+      // if there is no index defined for this type
+      if (typeIndexes.size() == 0) {
+        std::vector<TyFS>::iterator itUndef = std::find(iv_undefinedindex.begin(), iv_undefinedindex.end(), fs);
+        if (itUndef != iv_undefinedindex.end()) {
+          iv_undefinedindex.erase(itUndef);
+        }
+        return;
+      }
+
       std::vector<internal::SingleIndex*>::iterator it;
       for (it = typeIndexes.begin(); it != typeIndexes.end(); ++it) {
         assert( (*it)->getType() == type );
@@ -281,12 +294,19 @@ namespace uima {
     inline void IndexRepository::add(TyFS fs, IndexDefinition::TyIndexID const & crID) {
       assert( iv_bIsInitialized );
       internal::SingleIndex* ix = getSingleIndexForFS(fs, crID);
+      TyFSType type = iv_rFSHeap.getType(fs);
+      iv_cacheDirtyFlags[type].clear();
+      if (!iv_isUsed[type]) {
+        iv_isUsed[type] = true;
+        iv_usedIndexes.push_back(type);
+      }
       ix->add(fs);
     }
 
     inline void IndexRepository::remove(TyFS fs, IndexDefinition::TyIndexID const & crID) {
       assert( iv_bIsInitialized );
       internal::SingleIndex* ix = getSingleIndexForFS(fs, crID);
+      iv_cacheDirtyFlags[iv_rFSHeap.getType(fs)].clear();
       ix->remove(fs);
     }
 
-- 
2.43.0


From 61a1367be55301faa9f9009360da1b864f65a564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:44 +0000
Subject: [PATCH 006/124] fix: removing a structure from a sorted or set index
 never removes a different one with the same key

---
 src/cas/lowlevel_internal_indexes.cpp      | 8 ++++++++
 src/cas/uima/lowlevel_internal_indexes.hpp | 9 ++++++++-
 2 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/cas/lowlevel_internal_indexes.cpp b/src/cas/lowlevel_internal_indexes.cpp
index 38d5d14..442e88e 100644
--- a/src/cas/lowlevel_internal_indexes.cpp
+++ b/src/cas/lowlevel_internal_indexes.cpp
@@ -651,6 +651,14 @@ namespace uima {
       void OrderedSingleIndex::remove(TyFS fs) {
         IndexComparatorLess comp(iv_cpComparator, iv_crFSHeap);
         TyStructures::iterator it = lower_bound( iv_tyStructures.begin(), iv_tyStructures.end(), fs, comp);
+        // look for fs itself among the members with the same key
+        while ( it != iv_tyStructures.end() && *it != fs && iv_cpComparator->compare(iv_crFSHeap, fs, *it) == 0 ) {
+          ++it;
+        }
+        if ( it == iv_tyStructures.end() || *it != fs ) {
+          // its key may have been changed since it was added
+          it = std::find( iv_tyStructures.begin(), iv_tyStructures.end(), fs );
+        }
         if ( it != iv_tyStructures.end() ) {
           iv_tyStructures.erase(it);
         }
diff --git a/src/cas/uima/lowlevel_internal_indexes.hpp b/src/cas/uima/lowlevel_internal_indexes.hpp
index 9abe1c2..ae0adaa 100644
--- a/src/cas/uima/lowlevel_internal_indexes.hpp
+++ b/src/cas/uima/lowlevel_internal_indexes.hpp
@@ -206,7 +206,14 @@ namespace uima {
         }
         void remove(TyFS fs) {
           assert( EXISTS(iv_pStructures) );
-          (void) iv_pStructures->erase(fs);
+          TyStructures::iterator it = iv_pStructures->find(fs);
+          // remove fs itself, not another member with the same key
+          if (it == iv_pStructures->end() || *it != fs) {
+            it = std::find(iv_pStructures->begin(), iv_pStructures->end(), fs);
+          }
+          if (it != iv_pStructures->end()) {
+            iv_pStructures->erase(it);
+          }
         }
 
         void reset();
-- 
2.43.0


From e71f14e8dbba01dba0955e046d306e22a22b9da4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:59 +0000
Subject: [PATCH 007/124] fix: list each indexed structure once when it is in
 several indexes

---
 src/cas/lowlevel_indexrepository.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cas/lowlevel_indexrepository.cpp b/src/cas/lowlevel_indexrepository.cpp
index d8a90e1..600bc8f 100644
--- a/src/cas/lowlevel_indexrepository.cpp
+++ b/src/cas/lowlevel_indexrepository.cpp
@@ -197,7 +197,7 @@ namespace uima {
       }
 	  // eliminate duplicates
       sort(fillit.begin(), fillit.end());
-      vector<TyFS>::iterator end = unique(fillit.begin(), fillit.end());
+      fillit.erase(unique(fillit.begin(), fillit.end()), fillit.end());
     }
 
     void IndexRepository::reset() {
-- 
2.43.0


From 43c76aed40948e3b154c3abe02f054c4dd721618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:58 +0000
Subject: [PATCH 008/124] fix: iterators stay well defined when moved past
 either end, to an absent structure, when peeking or when default constructed

---
 src/cas/fsiterator.cpp                | 51 +++++++++++++++++----------
 src/cas/lowlevel_internal_indexes.cpp | 47 ++++++++++++------------
 2 files changed, 56 insertions(+), 42 deletions(-)

diff --git a/src/cas/fsiterator.cpp b/src/cas/fsiterator.cpp
index deb54e5..871adbd 100644
--- a/src/cas/fsiterator.cpp
+++ b/src/cas/fsiterator.cpp
@@ -32,6 +32,7 @@
 /* ----------------------------------------------------------------------- */
 /*       Include dependencies                                              */
 /* ----------------------------------------------------------------------- */
+#include <memory>
 #include "uima/fsiterator.hpp"
 #include "uima/lowlevel_indexiterator.hpp"
 #include "uima/internal_fspromoter.hpp"
@@ -76,7 +77,9 @@ namespace uima {
     }
     iv_pIterator = NULL;
     iv_cas = crOther.iv_cas;
-    iv_pIterator = crOther.iv_pIterator->clone();
+    if (crOther.iv_pIterator != NULL) {
+      iv_pIterator = crOther.iv_pIterator->clone();
+    }
     return *this;
   }
 
@@ -102,27 +105,37 @@ namespace uima {
   }
 
   void FSIterator::moveTo(FeatureStructure fs) {
-    assert( EXISTS(iv_pIterator) );
+    if (iv_pIterator == NULL) {
+      return;
+    }
     iv_pIterator->moveTo(uima::internal::FSPromoter::demoteFS(fs) );
   }
 
   void FSIterator::moveToFirst() {
-    assert( EXISTS(iv_pIterator) );
+    if (iv_pIterator == NULL) {
+      return;
+    }
     iv_pIterator->moveToFirst();
   }
 
   void FSIterator::moveToLast() {
-    assert( EXISTS(iv_pIterator) );
+    if (iv_pIterator == NULL) {
+      return;
+    }
     iv_pIterator->moveToLast();
   }
 
   void FSIterator::moveToNext() {
-    assert( EXISTS(iv_pIterator) );
+    if (iv_pIterator == NULL) {
+      return;
+    }
     iv_pIterator->moveToNext();
   }
 
   void FSIterator::moveToPrevious() {
-    assert( EXISTS(iv_pIterator) );
+    if (iv_pIterator == NULL) {
+      return;
+    }
     iv_pIterator->moveToPrevious();
   }
 
@@ -135,24 +148,26 @@ namespace uima {
 
   FeatureStructure FSIterator::peekNext() const {
     FeatureStructure result;
-    iv_pIterator->moveToNext();
-    if (iv_pIterator->isValid()) {
-      result = uima::internal::FSPromoter::promoteFS( iv_pIterator->get(), *iv_cas );
-      iv_pIterator->moveToPrevious();
-    } else {
-      iv_pIterator->moveToLast();
+    if (! isValid()) {
+      return result;
+    }
+    std::unique_ptr<uima::lowlevel::IndexIterator> apIt( iv_pIterator->clone() );
+    apIt->moveToNext();
+    if (apIt->isValid()) {
+      result = uima::internal::FSPromoter::promoteFS( apIt->get(), *iv_cas );
     }
     return result;
   }
 
   FeatureStructure FSIterator::peekPrevious() const {
     FeatureStructure result;
-    iv_pIterator->moveToPrevious();
-    if (iv_pIterator->isValid()) {
-      result = uima::internal::FSPromoter::promoteFS( iv_pIterator->get(), *iv_cas );
-      iv_pIterator->moveToNext();
-    } else {
-      iv_pIterator->moveToFirst();
+    if (! isValid()) {
+      return result;
+    }
+    std::unique_ptr<uima::lowlevel::IndexIterator> apIt( iv_pIterator->clone() );
+    apIt->moveToPrevious();
+    if (apIt->isValid()) {
+      result = uima::internal::FSPromoter::promoteFS( apIt->get(), *iv_cas );
     }
     return result;
   }
diff --git a/src/cas/lowlevel_internal_indexes.cpp b/src/cas/lowlevel_internal_indexes.cpp
index 442e88e..72664da 100644
--- a/src/cas/lowlevel_internal_indexes.cpp
+++ b/src/cas/lowlevel_internal_indexes.cpp
@@ -129,7 +129,9 @@ namespace uima {
         }
 
         void moveToPrevious() {
-          assert( isValid() );
+          if (! isValid()) {
+            return;
+          }
           if (iv_it == iv_crStructures.begin() ) {
             iv_it = iv_crStructures.end();
           } else {
@@ -152,7 +154,9 @@ namespace uima {
         }
 
         void moveToNext() {
-          assert( isValid() );
+          if (! isValid()) {
+            return;
+          }
           ++iv_it;
         }
 
@@ -161,30 +165,25 @@ namespace uima {
         }
 
         bool moveTo(TyFS fs) {
-          typename T::const_iterator cit;
-
-          if (iv_cpComparator == NULL) {
-            cit = find(iv_crStructures.begin(), iv_crStructures.end(), fs);
-            if (cit != iv_crStructures.end()) {
-              ++cit;
-            }
-          } else {
-            // first try to find the same fs
-            cit = find(iv_crStructures.begin(), iv_crStructures.end(), fs);
-            // if not found, find an equivalent one
-            if (cit == iv_crStructures.end()) {
-              FSIndexCompare comp( iv_cpComparator, iv_heap );
-              cit = lower_bound(iv_crStructures.begin(), iv_crStructures.end(), fs, comp);
+          // first try to find the same fs
+          iv_it = find(iv_crStructures.begin(), iv_crStructures.end(), fs);
+          if (iv_it == iv_crStructures.end() && iv_cpComparator != NULL) {
+            // if not found, find an equivalent one or else the first greater one
+            // (structures need not be stored in the order of the comparator)
+            typename T::const_iterator cit;
+            for (cit = iv_crStructures.begin(); cit != iv_crStructures.end(); ++cit) {
+              int iComp = iv_cpComparator->compare(iv_heap, fs, *cit);
+              if (iComp == 0) {
+                iv_it = cit;
+                break;
+              }
+              if (iComp > 0 && iv_it == iv_crStructures.end()) {
+                iv_it = cit;
+              }
             }
           }
-
-          bool bCanBeSet = ( cit != iv_crStructures.end() );
-          if (bCanBeSet) {
-            iv_it = cit;
-            return true;
-          } else {
-            return false;
-          }
+          // the iterator is invalid if there is no such element
+          return isValid();
         }
 
       };
-- 
2.43.0


From 7539d46fe0fd114f142a96574ca6fa6952b82f87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:11 +0000
Subject: [PATCH 009/124] fix: moving a filtered iterator to a structure never
 stops at one the filter rejects

---
 src/cas/lowlevel_index.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/cas/lowlevel_index.cpp b/src/cas/lowlevel_index.cpp
index d071c5c..2161c8f 100644
--- a/src/cas/lowlevel_index.cpp
+++ b/src/cas/lowlevel_index.cpp
@@ -140,13 +140,11 @@ namespace uima {
       }
 
       void moveToPrevious() {
-        assert(isValid());
         iv_pIterator->moveToPrevious();
         moveToPreviousUnfiltered();
       }
 
       void moveToNext() {
-        assert(isValid());
         iv_pIterator->moveToNext();
         moveToNextUnfiltered();
       }
@@ -172,7 +170,9 @@ namespace uima {
 
       bool moveTo(TyFS fs) {
         assert( EXISTS(iv_pIterator) );
-        return iv_pIterator->moveTo(fs);
+        iv_pIterator->moveTo(fs);
+        moveToNextUnfiltered();
+        return isValid();
       }
 
     };
-- 
2.43.0


From c062897704b8f2a5737eb20216b37fbd491c5459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:28 +0000
Subject: [PATCH 010/124] fix: subiterators do not leave their selection when
 moved backwards or past an end

---
 src/cas/cas.cpp | 54 +++++++++++++++++++++++++++++++++++++++----------
 1 file changed, 43 insertions(+), 11 deletions(-)

diff --git a/src/cas/cas.cpp b/src/cas/cas.cpp
index 29357b0..edb9431 100644
--- a/src/cas/cas.cpp
+++ b/src/cas/cas.cpp
@@ -1416,6 +1416,11 @@ namespace uima {
 
     class SubIterator : public IndexIterator {
     protected:
+      void invalidate() {
+        iv_pIterator->moveToLast();
+        iv_pIterator->moveToNext();
+      }
+
       uima::lowlevel::FSHeap * iv_heap;
       IndexIterator* iv_pIterator;
       size_t iv_uiBegPos;
@@ -1463,7 +1468,9 @@ namespace uima {
 
       void moveToNext() {
         UIMA_TPRINT("lowlevel::SubIterator::moveToNext() entered");
-        assert( isValid() );
+        if (! isValid()) {
+          return;
+        }
         iv_pIterator->moveToNext();
         if (isValid()) {
           if (iv_pIterator->get() == iv_tyMoveToFirstFS) {
@@ -1474,7 +1481,16 @@ namespace uima {
       }
 
       void moveToPrevious() {
-        assert( isValid() );
+        if (! isValid()) {
+          return;
+        }
+        // stop at the first element, annotations before it are not part of the iteration
+        unique_ptr<IndexIterator> apFirst( clone() );
+        apFirst->moveToFirst();
+        if (apFirst->isValid() && apFirst->get() == get()) {
+          invalidate();
+          return;
+        }
         iv_pIterator->moveToPrevious();
         if (isValid()) {
           if (iv_pIterator->get() == iv_tyMoveToFirstFS) {
@@ -1489,7 +1505,6 @@ namespace uima {
         if (!isValid()) {
           return;
         }
-        assert( isValid() );
         uima::lowlevel::TyFS lastValidFS = uima::lowlevel::FSHeap::INVALID_FS;
         while (isValid()) {
           lastValidFS = get();
@@ -1501,12 +1516,6 @@ namespace uima {
         moveTo(lastValidFS);
         assert( isValid() );
 
-        if (isValid()) {
-          if (iv_pIterator->get() == iv_tyMoveToFirstFS) {
-            iv_pIterator->moveToPrevious();
-          }
-        }
-
 
 #ifdef DEBUG_VERBOSE
         UIMA_TPRINT("last FS passed over: ");
@@ -1589,7 +1598,9 @@ namespace uima {
         } while (uiCurrBeginPos < uiLastEndPos);
         */
         assert( EXISTS(iv_heap) );
-        assert( isValid() );
+        if (! isValid()) {
+          return;
+        }
 
         size_t uiLastEndPos = (size_t)iv_heap->getIntValue(iv_pIterator->get(), uima::internal::gs_tyEndPosFeature);
         size_t uiCurrBeginPos;
@@ -1603,6 +1614,25 @@ namespace uima {
 
       }
 
+      void moveToPrevious() {
+        if (! isValid()) {
+          return;
+        }
+        // go to the element from which moveToNext() leads to the current one
+        TyFS fsCurrent = get();
+        moveToFirst();
+        if (get() == fsCurrent) {
+          invalidate();
+          return;
+        }
+        unique_ptr<IndexIterator> apNext( clone() );
+        apNext->moveToNext();
+        while (apNext->isValid() && apNext->get() != fsCurrent) {
+          moveToNext();
+          apNext->moveToNext();
+        }
+      }
+
       IndexIterator* clone() const {
         assert( EXISTS(iv_heap) );
         assert( EXISTS(iv_pIterator) );
@@ -1636,7 +1666,9 @@ namespace uima {
       }
 
       void moveToNext() {
-        assert( isValid() );
+        if (! isValid()) {
+          return;
+        }
         size_t uiLastEndPos = (size_t)iv_heap->getIntValue(iv_pIterator->get(), uima::internal::gs_tyEndPosFeature);
         size_t uiCurrBeginPos;
         do {
-- 
2.43.0


From 77abb8b5706f63387cc450fb6fdd5979f79a95d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:45 +0000
Subject: [PATCH 011/124] fix: moveToBeginPosition does not read beyond the
 last annotation

---
 src/cas/cas.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cas/cas.cpp b/src/cas/cas.cpp
index edb9431..77fb1e2 100644
--- a/src/cas/cas.cpp
+++ b/src/cas/cas.cpp
@@ -879,7 +879,7 @@ namespace uima {
     bool bPosIsValid;
     size_t uiBegPosOfType;
     itOfType.moveToFirst();
-    while (itOfType.get().isValid()) {
+    while (itOfType.isValid()) {
       uiBegPosOfType = itOfType.get().getIntValue(internal::FSPromoter::promoteFeature(internal::gs_tyBeginPosFeature, iv_heap->getTypeSystem() ));
       if (uiBegPosOfType == uiBegPosFromAn) {
         return bPosIsValid = true;
-- 
2.43.0


From 813aa9cbf7937693f7019ceb5cffcc9144bd4ce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:16 +0000
Subject: [PATCH 012/124] fix: asking for an unknown index is refused with an
 exception

---
 src/cas/fsindexrepository.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/cas/fsindexrepository.cpp b/src/cas/fsindexrepository.cpp
index 014c341..4f93ba2 100644
--- a/src/cas/fsindexrepository.cpp
+++ b/src/cas/fsindexrepository.cpp
@@ -113,6 +113,17 @@ namespace uima {
   }
 
   Type FSIndexRepository::getTypeForIndex(icu::UnicodeString const & crLabel) const {
+    if (! isValidIndexID( crLabel ) ) {
+      ErrorMessage msg(UIMA_MSG_ID_EXCON_GETTING_INDEX);
+      msg.addParam(crLabel);
+
+      UIMA_EXC_THROW_NEW(InvalidIndexIDException,
+                         UIMA_ERR_INVALID_INDEX_ID,
+                         UIMA_MSG_ID_EXC_INVALID_INDEX_ID,
+                         msg,
+                         ErrorInfo::recoverable
+                        );
+    }
     uima::lowlevel::TyFSType tyType = getLowlevelIndexRepository().getIndexDefinition().getTypeForIndex(crLabel);
     return uima::internal::FSPromoter::promoteType(tyType, getLowlevelIndexRepository().getFSHeap().getTypeSystem() );
   }
-- 
2.43.0


From c05b87437987107550f9f78a294835b0b4c59e1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:08 +0000
Subject: [PATCH 013/124] fix: a type set iterator over a single type honours
 an empty type set

---
 src/cas/lowlevel_internal_indexes.cpp      | 4 ++++
 src/cas/uima/lowlevel_internal_indexes.hpp | 8 +-------
 2 files changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/cas/lowlevel_internal_indexes.cpp b/src/cas/lowlevel_internal_indexes.cpp
index 72664da..e1d48f2 100644
--- a/src/cas/lowlevel_internal_indexes.cpp
+++ b/src/cas/lowlevel_internal_indexes.cpp
@@ -564,6 +564,10 @@ namespace uima {
                                TyFSType tyType)
           : IndexABase(crIndexRepository, tyType) {}
 
+      IndexIterator* SingleIndex::createTypeSetIterator(set<uima::lowlevel::TyFSType> const & crType) const {
+        return new TypeSetIterator( createIterator(), crType );
+      }
+
       // generic implementation here, may be optimized for subclasses
       bool SingleIndex::contains(TyFS tyFS) const {
         unique_ptr<IndexIterator> it( createIterator() );
diff --git a/src/cas/uima/lowlevel_internal_indexes.hpp b/src/cas/uima/lowlevel_internal_indexes.hpp
index ae0adaa..01742a9 100644
--- a/src/cas/uima/lowlevel_internal_indexes.hpp
+++ b/src/cas/uima/lowlevel_internal_indexes.hpp
@@ -91,13 +91,7 @@ namespace uima {
          */
         virtual bool contains(TyFS) const;
 
-        virtual IndexIterator* createTypeSetIterator(std::set<uima::lowlevel::TyFSType> const & crType) const {
-          assert( crType.size() <= 1 );
-          if (crType.size() == 1) {
-            assert( *(crType.begin()) == getType() );
-          }
-          return createIterator();
-        }
+        virtual IndexIterator* createTypeSetIterator(std::set<uima::lowlevel::TyFSType> const & crType) const;
       };
 
 
-- 
2.43.0


From 98dfd3f417eb1e782e49c99c2892fc9d19ea0049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:08 +0000
Subject: [PATCH 014/124] fix: index keys may be features with an enumerated
 string range

---
 src/cas/lowlevel_indexcomparator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cas/lowlevel_indexcomparator.cpp b/src/cas/lowlevel_indexcomparator.cpp
index bea89cc..8f533ab 100644
--- a/src/cas/lowlevel_indexcomparator.cpp
+++ b/src/cas/lowlevel_indexcomparator.cpp
@@ -96,7 +96,7 @@ namespace uima {
           iv_appropTypes.push_back( BUILTIN_TYPE_INTEGER );
         } else if (tyAppropType == crTypeSystem.getTypeByName( CAS::TYPE_NAME_FLOAT)) {
           iv_appropTypes.push_back( BUILTIN_TYPE_FLOAT );
-        } else if (tyAppropType == crTypeSystem.getTypeByName( CAS::TYPE_NAME_STRING)) {
+        } else if (crTypeSystem.subsumes( crTypeSystem.getTypeByName( CAS::TYPE_NAME_STRING), tyAppropType)) {
           iv_appropTypes.push_back( BUILTIN_TYPE_STRING );
         } else if (tyAppropType == crTypeSystem.getTypeByName( CAS::TYPE_NAME_BOOLEAN)) {
           iv_appropTypes.push_back( BUILTIN_TYPE_BOOLEAN );
-- 
2.43.0


From 0fd899ab92aa3f25075600d2fa012c72bb9a07a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:26 +0000
Subject: [PATCH 015/124] fix: covered text of an annotation without subject or
 outside of the document is refused

---
 src/cas/cas.cpp | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/cas/cas.cpp b/src/cas/cas.cpp
index 77fb1e2..aac00db 100644
--- a/src/cas/cas.cpp
+++ b/src/cas/cas.cpp
@@ -1312,13 +1312,17 @@ namespace uima {
   UnicodeStringRef AnnotationFS::getCoveredText( void ) const {
     if (isValid()) {
       AnnotationFS* grr = const_cast<AnnotationFS*>(this);
-      CAS * myCas = grr->getView();
-      if (myCas->iv_uiDocumentLength > 0) {
-        assert( getEndPosition() <= myCas->iv_uiDocumentLength );
+      lowlevel::TyFS tySofa = iv_cas->getHeap()->getFSValue(iv_tyFS, internal::gs_tySofaRefFeature);
+      CAS * myCas = tySofa == lowlevel::FSHeap::INVALID_FS ? NULL : grr->getView();
+      if (myCas != NULL && myCas->iv_uiDocumentLength > 0) {
         size_t uiBegin = getBeginPosition();
-        UChar const * puc = myCas->iv_cpDocument;
-        puc += uiBegin;
-        return UnicodeStringRef( puc, getEndPosition()-uiBegin );
+        size_t uiEnd = getEndPosition();
+        // never hand out text from outside of the document
+        if (uiBegin <= uiEnd && uiEnd <= myCas->iv_uiDocumentLength) {
+          UChar const * puc = myCas->iv_cpDocument;
+          puc += uiBegin;
+          return UnicodeStringRef( puc, uiEnd-uiBegin );
+        }
       }
     }
 
-- 
2.43.0


From 9b61a6334f46105f16f557a423ecc68d10b267f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:26 +0000
Subject: [PATCH 016/124] fix: createAnnotation refuses a type that is not an
 annotation

---
 src/cas/cas.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/cas/cas.cpp b/src/cas/cas.cpp
index aac00db..8e1b757 100644
--- a/src/cas/cas.cpp
+++ b/src/cas/cas.cpp
@@ -777,8 +777,7 @@ namespace uima {
       return AnnotationFS();
     }
     assert(EXISTS(iv_heap));
-    assert( getTypeSystem().getType(CAS::TYPE_NAME_ANNOTATION).subsumes(type) );
-    if (!type.isValid()) {
+    if (!type.isValid() || !getTypeSystem().getType(CAS::TYPE_NAME_ANNOTATION).subsumes(type)) {
       UIMA_EXC_THROW_NEW(InvalidFSTypeObjectException,
                          UIMA_ERR_INVALID_FSTYPE_OBJECT,
                          UIMA_MSG_ID_EXC_INVALID_FSTYPE_OBJECT,
-- 
2.43.0


From 71d6cc40f0e6aff91c2a18f994ccedfa1ce96a68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:42 +0000
Subject: [PATCH 017/124] fix: array bulk copies refuse ranges outside of the
 array and accept empty ranges

---
 src/cas/arrayfs.cpp | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/cas/arrayfs.cpp b/src/cas/arrayfs.cpp
index fd5a85d..a94895b 100644
--- a/src/cas/arrayfs.cpp
+++ b/src/cas/arrayfs.cpp
@@ -76,9 +76,11 @@ namespace uima {
     }
   }
 
-  void checkArraySize(lowlevel::TyFS tyFS, uima::lowlevel::FSHeap * pFSSystem, size_t n, TyMessageId tyContext) {
+  // check that the half open range [uiStart, uiEnd) lies inside of the array
+  void checkArrayRange(lowlevel::TyFS tyFS, uima::lowlevel::FSHeap * pFSSystem, size_t uiStart, size_t uiEnd, TyMessageId tyContext) {
     size_t uiSize = pFSSystem->getArraySize(tyFS);
-    if (n >= uiSize) {
+    if (uiStart > uiEnd || uiEnd > uiSize) {
+      size_t n = uiStart > uiEnd ? uiStart : uiEnd - 1;
       ErrorMessage err(UIMA_MSG_ID_EXC_ARRAY_OUT_OF_BOUNDS);
       err.addParam(n);
       err.addParam(uiSize);
@@ -91,6 +93,10 @@ namespace uima {
     }
   }
 
+  void checkArraySize(lowlevel::TyFS tyFS, uima::lowlevel::FSHeap * pFSSystem, size_t n, TyMessageId tyContext) {
+    checkArrayRange(tyFS, pFSSystem, n, n + 1, tyContext);
+  }
+
   /* ----------------------------------------------------------------------- */
   /*       BasicArrayFS                                                      */
   /* ----------------------------------------------------------------------- */
@@ -170,7 +176,7 @@ namespace uima {
     T* destArray,
     size_t uiDestOffset) const {
       checkValidity(UIMA_MSG_ID_EXCON_GETTING_FS_FROM_ARRAY);
-      checkArraySize(iv_tyFS, iv_cas->getHeap(), uiEnd - uiStart - 1 , UIMA_MSG_ID_EXCON_GETTING_FS_FROM_ARRAY);
+      checkArrayRange(iv_tyFS, iv_cas->getHeap(), uiStart, uiEnd, UIMA_MSG_ID_EXCON_GETTING_FS_FROM_ARRAY);
       uima::lowlevel::TyFSType typecode = iv_cas->getHeap()->getType(iv_tyFS);
 
 	  size_t srcOffset = uiStart;
@@ -205,12 +211,10 @@ namespace uima {
     size_t uiEnd,
     size_t uiOffset) {
       checkValidity(UIMA_MSG_ID_EXCON_GETTING_FS_FROM_ARRAY);
-      checkArraySize(iv_tyFS, iv_cas->getHeap(), uiEnd - uiStart - 1, UIMA_MSG_ID_EXCON_GETTING_FS_FROM_ARRAY);
-      
 	  size_t srcOffset = uiStart;
 	  size_t numelements = uiEnd-uiStart;
 	  size_t destOffset = uiOffset;
-	  checkArraySize(iv_tyFS, iv_cas->getHeap(), destOffset+numelements-1, UIMA_MSG_ID_EXCON_GETTING_FS_FROM_ARRAY);
+	  checkArrayRange(iv_tyFS, iv_cas->getHeap(), destOffset, destOffset+numelements, UIMA_MSG_ID_EXCON_GETTING_FS_FROM_ARRAY);
       uima::lowlevel::TyFSType typecode = iv_cas->getHeap()->getType(iv_tyFS);
 
 	  if (typecode== uima::internal::gs_tyIntArrayType || 
-- 
2.43.0


From 117b7e10d5d3f3d1beaf0724e466e731fce35d1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:56 +0000
Subject: [PATCH 018/124] fix: createFS refuses simple and array types

---
 src/cas/cas.cpp | 14 ++------------
 1 file changed, 2 insertions(+), 12 deletions(-)

diff --git a/src/cas/cas.cpp b/src/cas/cas.cpp
index 8e1b757..1c73dcf 100644
--- a/src/cas/cas.cpp
+++ b/src/cas/cas.cpp
@@ -401,15 +401,8 @@ namespace uima {
                         );
     }
     uima::lowlevel::TyFSType tyType = internal::FSPromoter::demoteType(crType);
-    switch (tyType) {
-    case uima::internal::gs_tyIntegerType:
-    case uima::internal::gs_tyFloatType:
-    case uima::internal::gs_tyStringType:
-    case uima::internal::gs_tyBooleanType:
-    case uima::internal::gs_tyByteType:
-    case uima::internal::gs_tyShortType:
-    case uima::internal::gs_tyLongType:
-    case uima::internal::gs_tyDoubleType: {
+    // values of simple types are no feature structures, arrays are created with their length
+    if (getTypeSystem().isPrimitive(tyType) || getTypeSystem().isArrayType(tyType)) {
         ErrorMessage errMessage(UIMA_MSG_ID_EXC_COULD_NOT_CREATE_FS_FINAL_TYPE );
         errMessage.addParam( crType.getName() );
         UIMA_EXC_THROW_NEW(CouldNotCreateFSOfFinalTypeException,
@@ -418,9 +411,6 @@ namespace uima {
                            UIMA_MSG_ID_EXCON_CREATING_FS,
                            ErrorInfo::recoverable
                           );
-      }
-    default:
-      ;
     }
 
     // if new FS is annotation type, set the sofa feature
-- 
2.43.0


From efd1be71491d360a8a9ff89e5f026dd508aab2c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:56 +0000
Subject: [PATCH 019/124] fix: copyFromArray refuses a reversed range

---
 src/cas/arrayfs.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/cas/arrayfs.cpp b/src/cas/arrayfs.cpp
index a94895b..b8330ca 100644
--- a/src/cas/arrayfs.cpp
+++ b/src/cas/arrayfs.cpp
@@ -214,6 +214,10 @@ namespace uima {
 	  size_t srcOffset = uiStart;
 	  size_t numelements = uiEnd-uiStart;
 	  size_t destOffset = uiOffset;
+	  if (uiStart > uiEnd) {
+	    // a reversed range is in no array
+	    checkArrayRange(iv_tyFS, iv_cas->getHeap(), uiStart, uiEnd, UIMA_MSG_ID_EXCON_GETTING_FS_FROM_ARRAY);
+	  }
 	  checkArrayRange(iv_tyFS, iv_cas->getHeap(), destOffset, destOffset+numelements, UIMA_MSG_ID_EXCON_GETTING_FS_FROM_ARRAY);
       uima::lowlevel::TyFSType typecode = iv_cas->getHeap()->getType(iv_tyFS);
 
-- 
2.43.0


From 0b3f109d953f152cd97d5279ee8afbd6bd444d6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:56 +0000
Subject: [PATCH 020/124] fix: cloning an array makes an array of the same size
 and elements

---
 src/cas/featurestructure.cpp     |  5 +++++
 src/cas/lowlevel_fsheap.cpp      | 16 ++++++++++++++++
 src/cas/uima/lowlevel_fsheap.hpp |  5 +++++
 3 files changed, 26 insertions(+)

diff --git a/src/cas/featurestructure.cpp b/src/cas/featurestructure.cpp
index f3c8b93..7efead6 100644
--- a/src/cas/featurestructure.cpp
+++ b/src/cas/featurestructure.cpp
@@ -256,6 +256,11 @@ namespace uima {
 
   FeatureStructure FeatureStructure::clone() {
     checkValidity(UIMA_MSG_ID_EXCON_CREATING_FS);
+    uima::lowlevel::FSHeap & rHeap = *iv_cas->getHeap();
+    if (rHeap.getTypeSystem().subsumes(uima::internal::gs_tyArrayBaseType, rHeap.getType(iv_tyFS))) {
+      // an array: create one of the same size and copy its elements
+      return FeatureStructure(rHeap.cloneArrayFS(iv_tyFS), *iv_cas);
+    }
     FeatureStructure newFS = getCAS().createFS(getType());
     iv_cas->getHeap()->copyFeatures(newFS.iv_tyFS, iv_tyFS);
     return newFS;
diff --git a/src/cas/lowlevel_fsheap.cpp b/src/cas/lowlevel_fsheap.cpp
index ab551b6..910ef44 100644
--- a/src/cas/lowlevel_fsheap.cpp
+++ b/src/cas/lowlevel_fsheap.cpp
@@ -173,6 +173,22 @@ namespace uima {
 
     }
 
+    TyFS FSHeap::cloneArrayFS(TyFS tySource) {
+      uima::lowlevel::TyFSType type = getType(tySource);
+      size_t size = getArraySize(tySource);
+      TyFS tyTarget = createArrayFS(type, size);
+      if (type == uima::internal::gs_tyByteArrayType || type == uima::internal::gs_tyBooleanArrayType) {
+        copyFromArray(const_cast<char*>(get8BitArray(tySource)), 0, tyTarget, 0, size);
+      } else if (type == uima::internal::gs_tyShortArrayType) {
+        copyFromArray(const_cast<short*>(get16BitArray(tySource)), 0, tyTarget, 0, size);
+      } else if (type == uima::internal::gs_tyLongArrayType || type == uima::internal::gs_tyDoubleArrayType) {
+        copyFromArray(const_cast<INT64*>(get64BitArray(tySource)), 0, tyTarget, 0, size);
+      } else {
+        copyFromArray(getCArrayFromFS(tySource), 0, tyTarget, 0, size);
+      }
+      return tyTarget;
+    }
+
 
 
 // cout << of a 64bit type causes a warning (conversion to int, loss of data)
diff --git a/src/cas/uima/lowlevel_fsheap.hpp b/src/cas/uima/lowlevel_fsheap.hpp
index 2d4091f..6523171 100644
--- a/src/cas/uima/lowlevel_fsheap.hpp
+++ b/src/cas/uima/lowlevel_fsheap.hpp
@@ -693,6 +693,11 @@ namespace uima {
        */
       void copyFeatures(TyFS tyTarget, TyFS tySource, size_t featNum = 0);
 
+      /**
+       * create an array of the same type, size and elements as the array <code>tySource</code>.
+       */
+      TyFS cloneArrayFS(TyFS tySource);
+
       /**
        * print an FS.
        */
-- 
2.43.0


From 61161725f8b33287fbe2edb0ade127c5361e2d1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:23 +0000
Subject: [PATCH 021/124] fix: Type::isStringSubType refuses an invalid type
 object

---
 src/cas/typesystem.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/cas/typesystem.cpp b/src/cas/typesystem.cpp
index e4e0f63..405a8c6 100644
--- a/src/cas/typesystem.cpp
+++ b/src/cas/typesystem.cpp
@@ -248,6 +248,7 @@ namespace uima {
   }
 
   bool Type::isStringSubType() const {
+    checkValidity();
     return iv_typeSystem->isStringSubType(iv_tyType);
   }
 
-- 
2.43.0


From ee24edd07acd6d7ab1f39971d9a5e4d3bf122fb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:23 +0000
Subject: [PATCH 022/124] fix: the creator of a feature is its creator, not its
 name

---
 src/cas/lowlevel_typesystem.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cas/lowlevel_typesystem.cpp b/src/cas/lowlevel_typesystem.cpp
index cb92f04..3d47ad3 100644
--- a/src/cas/lowlevel_typesystem.cpp
+++ b/src/cas/lowlevel_typesystem.cpp
@@ -273,7 +273,7 @@ namespace uima {
       iv_vecRangeTypes.push_back(tyRange);
       iv_vecMultiRefs.push_back(multiRef);
       iv_vecIntroducedFeatures[tyIntro].push_back(newFeature);
-      iv_vecFeatureCreatorIDs.push_back(crusName);
+      iv_vecFeatureCreatorIDs.push_back(crusCreatorID);
 
       assert( debugIsTreeConsistent() );
       return newFeature;
-- 
2.43.0


From 1f88c9535d7ef028221937fa06cfe72f1b81d5a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:59 +0000
Subject: [PATCH 023/124] fix: descriptions parsed from UTF-16 buffers are not
 read after they are freed

---
 src/framework/engine.cpp              | 10 ++++++----
 src/framework/taespecifierbuilder.cpp |  3 ++-
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/framework/engine.cpp b/src/framework/engine.cpp
index 63b7672..4fb2c71 100644
--- a/src/framework/engine.cpp
+++ b/src/framework/engine.cpp
@@ -488,8 +488,9 @@ namespace uima {
     XMLParser builder;
     AnalysisEngineMetaData * pAe = new AnalysisEngineMetaData();
 	TypeSystemDescription * tsDesc = new TypeSystemDescription();
-    MemBufInputSource memIS((XMLByte const *)usRef.asUTF8().c_str(),
-		                    usRef.asUTF8().length(),
+    std::string strUTF8(usRef.asUTF8());
+    MemBufInputSource memIS((XMLByte const *)strUTF8.c_str(),
+		                    strUTF8.length(),
 							"sysID");
 	builder.parseTypeSystemDescription(*tsDesc,memIS);
     pAe->setTypeSystemDescription(tsDesc);
@@ -576,8 +577,9 @@ namespace uima {
     UnicodeStringRef usRef(cpBuffer, uiLength);
     XMLParser builder;
     TypeSystemDescription * tsDesc = new TypeSystemDescription();
-    MemBufInputSource memIS((XMLByte const *) usRef.asUTF8().c_str(), 
-		                     usRef.asUTF8().length(), "sysID");
+    std::string strUTF8(usRef.asUTF8());
+    MemBufInputSource memIS((XMLByte const *) strUTF8.c_str(),
+		                     strUTF8.length(), "sysID");
 	builder.parseTypeSystemDescription(*tsDesc,memIS);
     return tsDesc;
   }
diff --git a/src/framework/taespecifierbuilder.cpp b/src/framework/taespecifierbuilder.cpp
index f450ae4..25cc42e 100644
--- a/src/framework/taespecifierbuilder.cpp
+++ b/src/framework/taespecifierbuilder.cpp
@@ -2032,7 +2032,8 @@ void XMLParser::buildFSIndexFromImportLocation(AnalysisEngineMetaData& fsDesc,
   void TextAnalysisEngineSpecifierBuilder::buildTaeFromMemory(AnalysisEngineDescription & taeSpec,
       icu::UnicodeString const & xmlString) {
 	UnicodeStringRef uref(xmlString);
-    MemBufInputSource memIS((XMLByte const *) uref.asUTF8().c_str(), uref.asUTF8().length(), "sysID");
+    std::string strUTF8(uref.asUTF8());
+    MemBufInputSource memIS((XMLByte const *) strUTF8.c_str(), strUTF8.length(), "sysID");
     parseAnalysisEngineDescription(taeSpec, memIS);
   }
 
-- 
2.43.0


From b9262da4d17cb694d8f84352972c8c5f439503b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:49 +0000
Subject: [PATCH 024/124] fix: no subtypes or features below simple types,
 string subtypes and array types

---
 src/cas/uima/lowlevel_typesystem.hpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/cas/uima/lowlevel_typesystem.hpp b/src/cas/uima/lowlevel_typesystem.hpp
index 2e30dbf..d1cf1c6 100644
--- a/src/cas/uima/lowlevel_typesystem.hpp
+++ b/src/cas/uima/lowlevel_typesystem.hpp
@@ -297,13 +297,24 @@ namespace uima {
        */
       bool isAllowedToAddSubTypes(TyFSType tyType) const {
         assert( isValidType(tyType) );
-        // Integer, Float, String, ArrayBase, FSArray, IntArray, FloatArray, StringArray
+        // all simple types, string subtypes, and all array types
         return (!isBuiltinType(tyType))
+               && (tyType != uima::internal::gs_tyBooleanType)
+               && (tyType != uima::internal::gs_tyByteType)
+               && (tyType != uima::internal::gs_tyShortType)
+               && (tyType != uima::internal::gs_tyLongType)
+               && (tyType != uima::internal::gs_tyDoubleType)
+               && (iv_stringSubtypeToStringSet.find(tyType) == iv_stringSubtypeToStringSet.end())
                && (tyType != uima::internal::gs_tyArrayBaseType)
                && (tyType != uima::internal::gs_tyFSArrayType)
                && (tyType != uima::internal::gs_tyIntArrayType)
                && (tyType != uima::internal::gs_tyFloatArrayType)
-               && (tyType != uima::internal::gs_tyStringArrayType);
+               && (tyType != uima::internal::gs_tyStringArrayType)
+               && (tyType != uima::internal::gs_tyBooleanArrayType)
+               && (tyType != uima::internal::gs_tyByteArrayType)
+               && (tyType != uima::internal::gs_tyShortArrayType)
+               && (tyType != uima::internal::gs_tyLongArrayType)
+               && (tyType != uima::internal::gs_tyDoubleArrayType);
       }
 
       /**
-- 
2.43.0


From 6805c0bb7f6ef789f8a05125581f1ba152369e5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:49 +0000
Subject: [PATCH 025/124] fix: circular supertypes are refused instead of
 recursing forever

---
 src/framework/casdefinition.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/framework/casdefinition.cpp b/src/framework/casdefinition.cpp
index ad6ea2c..ffc3ad4 100644
--- a/src/framework/casdefinition.cpp
+++ b/src/framework/casdefinition.cpp
@@ -109,14 +109,23 @@ namespace uima {
     uima::lowlevel::TyFSType mergeType(uima::lowlevel::TypeSystem & rTypeSystem,
                                        icu::UnicodeString const & crTypeToBeCreated,
                                        TypeSystemDescription const & crTSDesc,
-                                       icu::UnicodeString const & crCreatorID) {
+                                       icu::UnicodeString const & crCreatorID,
+                                       size_t uiDepth = 0) {
       uima::lowlevel::TyFSType typeToBeCreated = rTypeSystem.getTypeByName(crTypeToBeCreated);
+      // a chain of supertypes longer than the number of described types is circular
+      if (uiDepth > crTSDesc.getTypeDescriptions().size()) {
+        UIMA_EXC_THROW_NEW(IncompatibleParentTypesException,
+                           UIMA_ERR_INCOMPATIBLE_PARENT_TYPES,
+                           ErrorMessage(UIMA_MSG_ID_EXC_WRONG_PARENT_TYPE, crTypeToBeCreated),
+                           ErrorMessage(UIMA_MSG_ID_EXCON_CREATING_TYPESYSTEM_FROM_CONFIG),
+                           ErrorInfo::recoverable);
+      }
       if (crTSDesc.hasTypeDescription(crTypeToBeCreated)) {
         TypeDescription const * cpTypeDesc = crTSDesc.getTypeDescription(crTypeToBeCreated);
         icu::UnicodeString const & crSuperTypeName = cpTypeDesc->getSuperTypeName();
 
         // first merge the parent
-        uima::lowlevel::TyFSType parent = mergeType(rTypeSystem, crSuperTypeName, crTSDesc, crCreatorID);
+        uima::lowlevel::TyFSType parent = mergeType(rTypeSystem, crSuperTypeName, crTSDesc, crCreatorID, uiDepth + 1);
 
         // if string sub type
         if (parent == uima::internal::gs_tyStringType) {
-- 
2.43.0


From ffb03189dbea18267b916f2223a04a55189b5d18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:49 +0000
Subject: [PATCH 026/124] fix: an existing type cannot be declared again as a
 string subtype

---
 src/framework/casdefinition.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/framework/casdefinition.cpp b/src/framework/casdefinition.cpp
index ffc3ad4..3880e08 100644
--- a/src/framework/casdefinition.cpp
+++ b/src/framework/casdefinition.cpp
@@ -140,6 +140,13 @@ namespace uima {
           if (typeToBeCreated == uima::lowlevel::TypeSystem::INVALID_TYPE) {
             // create new string subtype
             return rTypeSystem.createStringSubtype(crTypeToBeCreated, allowedStringValues, crCreatorID);
+          } else if (parent != rTypeSystem.getParentType(typeToBeCreated)) {
+            // the existing type is no string subtype
+            UIMA_EXC_THROW_NEW(IncompatibleParentTypesException,
+                               UIMA_ERR_INCOMPATIBLE_PARENT_TYPES,
+                               ErrorMessage(UIMA_MSG_ID_EXC_WRONG_PARENT_TYPE, crTypeToBeCreated),
+                               ErrorMessage(UIMA_MSG_ID_EXCON_CREATING_TYPESYSTEM_FROM_CONFIG),
+                               ErrorInfo::recoverable);
           } else {
             // check string subtype
             vector<icu::UnicodeString> const & crStringValues = rTypeSystem.getStringsForStringSubtype(typeToBeCreated);
-- 
2.43.0


From 8506cdde60cb6d8138f8aaf5fc8b9f2d331931c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:04 +0000
Subject: [PATCH 027/124] fix: a feature of a type is found whatever the order
 in which it and a subtype are declared

---
 src/framework/casdefinition.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/framework/casdefinition.cpp b/src/framework/casdefinition.cpp
index 3880e08..669ac37 100644
--- a/src/framework/casdefinition.cpp
+++ b/src/framework/casdefinition.cpp
@@ -401,9 +401,14 @@ namespace uima {
         mergeType( rTypeSystem, crTypeName, crTSDesc, crCreatorID );
       }
 
-      // create features
+      // create features, those of supertypes (which have lower numbers) before those of their subtypes
+      multimap<uima::lowlevel::TyFSType, TypeDescription const *> typeDescs;
       for (cit = crTypeDescVector.begin(); cit != crTypeDescVector.end(); ++cit) {
-        TypeDescription const * pTypeDesc = *cit;
+        typeDescs.insert( make_pair(rTypeSystem.getTypeByName( (*cit)->getName() ), *cit) );
+      }
+      multimap<uima::lowlevel::TyFSType, TypeDescription const *>::const_iterator citTypes;
+      for (citTypes = typeDescs.begin(); citTypes != typeDescs.end(); ++citTypes) {
+        TypeDescription const * pTypeDesc = (*citTypes).second;
         uima::lowlevel::TyFSType introType = rTypeSystem.getTypeByName( pTypeDesc->getName() );
         // type must have been merged before
         assert( rTypeSystem.isValidType(introType) );
-- 
2.43.0


From c4dacb82dcc4d76ccdcbbb9d7eaaa979454390c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:04 +0000
Subject: [PATCH 028/124] fix: an empty type priority list does not read beyond
 its end

---
 src/framework/casdefinition.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/framework/casdefinition.cpp b/src/framework/casdefinition.cpp
index 669ac37..a1ef41b 100644
--- a/src/framework/casdefinition.cpp
+++ b/src/framework/casdefinition.cpp
@@ -471,7 +471,7 @@ namespace uima {
         vector<icu::UnicodeString> const & crTypeChain = cpTypePriority->getTypeOrder();
         size_t i;
         // walk along the chain
-        for (i=0; i<crTypeChain.size()-1; ++i) {
+        for (i=0; i+1<crTypeChain.size(); ++i) {
           uima::lowlevel::TyFSType t1 = rTypeSystem.getTypeByName(crTypeChain[i]);
           if (t1 == uima::lowlevel::TypeSystem::INVALID_TYPE) {
             UIMA_EXC_THROW_NEW(UnknownTypeException,
-- 
2.43.0


From bba6f3c76b598b8f8a860bfa726bcfc5ec77660d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:14 +0000
Subject: [PATCH 029/124] fix: the file name given to
 createTypeSystemDescription is not read as UTF-16

---
 src/framework/engine.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/framework/engine.cpp b/src/framework/engine.cpp
index 4fb2c71..ed75947 100644
--- a/src/framework/engine.cpp
+++ b/src/framework/engine.cpp
@@ -587,7 +587,8 @@ namespace uima {
   //read in xml from a file and create a TypeSystemDescription object
   TypeSystemDescription * Framework::createTypeSystemDescription(char const * crFileName) {
     XMLParser builder;
-	LocalFileInputSource fileIS((XMLCh const *)crFileName);
+    icu::UnicodeString ufn(crFileName);
+	LocalFileInputSource fileIS((XMLCh const *)ufn.getTerminatedBuffer());
 	TypeSystemDescription * tsDesc = new TypeSystemDescription();
     builder.parseTypeSystemDescription(*tsDesc,fileIS);
 	return tsDesc;
-- 
2.43.0


From 3a9a03da5d450cd0af027364de17b18008d451e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:48 +0000
Subject: [PATCH 030/124] fix: the types imported by a type system description
 are not dropped

---
 src/framework/casdefinition.cpp              | 5 +++++
 src/framework/engine.cpp                     | 2 ++
 src/framework/uima/typesystemdescription.hpp | 3 +--
 3 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/framework/casdefinition.cpp b/src/framework/casdefinition.cpp
index a1ef41b..411a903 100644
--- a/src/framework/casdefinition.cpp
+++ b/src/framework/casdefinition.cpp
@@ -720,6 +720,11 @@ namespace uima {
 
 
     uima::lowlevel::TypeSystem * CASDefinition::createTypeSystem(AnalysisEngineMetaData const & casSpecifier) {
+      //resolve imports
+      if (casSpecifier.isModifiable() ) {
+        AnalysisEngineMetaData & aeDesc = CONST_CAST(AnalysisEngineMetaData &, casSpecifier);
+        aeDesc.commit();
+      }
 
       uima::lowlevel::TypeSystem * pTypeSystem = new uima::lowlevel::TypeSystem();
       assert( EXISTS(pTypeSystem) );
diff --git a/src/framework/engine.cpp b/src/framework/engine.cpp
index ed75947..54b8a11 100644
--- a/src/framework/engine.cpp
+++ b/src/framework/engine.cpp
@@ -466,6 +466,7 @@ namespace uima {
     
     LocalFileInputSource fileIS((XMLCh const *) arBuffer.get());
 
+    tsDesc->setXmlFileLocation(ufn);
     builder.parseTypeSystemDescription(*tsDesc, fileIS);
     pAe->setTypeSystemDescription(tsDesc);
 
@@ -590,6 +591,7 @@ namespace uima {
     icu::UnicodeString ufn(crFileName);
 	LocalFileInputSource fileIS((XMLCh const *)ufn.getTerminatedBuffer());
 	TypeSystemDescription * tsDesc = new TypeSystemDescription();
+    tsDesc->setXmlFileLocation(ufn);
     builder.parseTypeSystemDescription(*tsDesc,fileIS);
 	return tsDesc;
   }
diff --git a/src/framework/uima/typesystemdescription.hpp b/src/framework/uima/typesystemdescription.hpp
index f97b343..fdfe0be 100644
--- a/src/framework/uima/typesystemdescription.hpp
+++ b/src/framework/uima/typesystemdescription.hpp
@@ -364,10 +364,9 @@ namespace uima {
     }
 
     void commit() {
-      iv_bIsModifiable = false;
-
       std::vector<icu::UnicodeString> alreadyImportedLocations;
       resolveImports(alreadyImportedLocations);
+      iv_bIsModifiable = false;
       size_t i;
       for (i=0; i < iv_vecpTypeDescriptions.size(); i++) {
         iv_vecpTypeDescriptions[i]->commit();
-- 
2.43.0


From 2abe09b2dd40e986eaab0a48177656b01f6d7b60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:21 +0000
Subject: [PATCH 031/124] fix: a feature cannot be added to a type when a
 subtype has one of that name

---
 src/cas/lowlevel_typesystem.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/cas/lowlevel_typesystem.cpp b/src/cas/lowlevel_typesystem.cpp
index 3d47ad3..1cbf964 100644
--- a/src/cas/lowlevel_typesystem.cpp
+++ b/src/cas/lowlevel_typesystem.cpp
@@ -256,7 +256,17 @@ namespace uima {
 
       assert( debugIsTreeConsistent() );
 
-      if ( getFeatureByBaseName( tyIntro, crusName ) != INVALID_FEATURE ) {
+      // neither the type nor one of its subtypes may have a feature of that name
+      bool bFeatureExists = ( getFeatureByBaseName( tyIntro, crusName ) != INVALID_FEATURE );
+      for (TyFSType tySub = 1; !bFeatureExists && tySub < iv_vecTree.size(); ++tySub) {
+        vector<TyFSFeature> const & crIntroduced = iv_vecIntroducedFeatures[tySub];
+        for (size_t i = 0; i < crIntroduced.size(); ++i) {
+          if ( iv_vecFeatureBaseNames[ crIntroduced[i] ] == crusName && findInTree(tyIntro, tySub) ) {
+            bFeatureExists = true;
+          }
+        }
+      }
+      if ( bFeatureExists ) {
         // throw exception
         ErrorMessage errMessage(UIMA_MSG_ID_EXCON_CREATING_FEATURE, crusName);
         errMessage.addParam(getTypeName(tyIntro) );
-- 
2.43.0


From 213424fe57ef26401c04e2fae1db2541753ec1b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:25 +0000
Subject: [PATCH 032/124] fix: the iterator over a whole CAS steps over arrays
 of 8, 16 and 64 bit elements

---
 src/cas/uima/lowlevel_defaultfsiterator.hpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/cas/uima/lowlevel_defaultfsiterator.hpp b/src/cas/uima/lowlevel_defaultfsiterator.hpp
index ba890a7..ef5fb04 100644
--- a/src/cas/uima/lowlevel_defaultfsiterator.hpp
+++ b/src/cas/uima/lowlevel_defaultfsiterator.hpp
@@ -144,8 +144,15 @@ namespace uima {
         if ( !isValid() )
           return;
         if (crTypeSystem.isArrayType(tyType)) {
-          // get array size
-          iv_it += 2 + tyTempHeap.getHeapValue(iv_it+1);
+          // elements of 8, 16 and 64 bits are kept outside of the heap
+          if (tyType == uima::internal::gs_tyByteArrayType || tyType == uima::internal::gs_tyBooleanArrayType
+              || tyType == uima::internal::gs_tyShortArrayType
+              || tyType == uima::internal::gs_tyLongArrayType || tyType == uima::internal::gs_tyDoubleArrayType) {
+            iv_it += 3;
+          } else {
+            // get array size
+            iv_it += 2 + tyTempHeap.getHeapValue(iv_it+1);
+          }
         } else {
           //look up number of features
           uima::lowlevel::TyFeatureOffset tySize = crTypeSystem.getFeatureNumber(tyType);
-- 
2.43.0


From e51cd92ddf7aec17af858a826e86111c8ab138ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:25 +0000
Subject: [PATCH 033/124] fix: sofa data that has been set is not set again

---
 src/cas/cas.cpp                | 33 ++++++++++++++++++++++++++-------
 src/framework/uima/msg.h       |  3 ++-
 src/framework/uima/msgstrtab.h |  4 +++-
 3 files changed, 31 insertions(+), 9 deletions(-)

diff --git a/src/cas/cas.cpp b/src/cas/cas.cpp
index 1c73dcf..c55f336 100644
--- a/src/cas/cas.cpp
+++ b/src/cas/cas.cpp
@@ -666,21 +666,39 @@ namespace uima {
                       );
   }
 
+  // Sofa data is immutable once it has been set
+  static void checkSofaDataNotSet(SofaFS & sofa) {
+    Type type = sofa.getType();
+    if ( !sofa.isUntouchedFSValue(type.getFeatureByBaseName(CAS::FEATURE_BASE_NAME_SOFASTRING))
+         || !sofa.isUntouchedFSValue(type.getFeatureByBaseName(CAS::FEATURE_BASE_NAME_SOFAARRAY))
+         || !sofa.isUntouchedFSValue(type.getFeatureByBaseName(CAS::FEATURE_BASE_NAME_SOFAURI)) ) {
+      ErrorMessage errMessage(UIMA_MSG_ID_EXC_SOFADATA_ALREADY_SET);
+      errMessage.addParam( sofa.getSofaID() );
+      UIMA_EXC_THROW_NEW(CASException,
+                         UIMA_ERR_DUPLICATE_EXISTS,
+                         errMessage,
+                         UIMA_MSG_ID_NO_MESSAGE_AVAILABLE,
+                         ErrorInfo::recoverable
+                        );
+    }
+  }
+
   // deprecated version
   void CAS::setDocumentText(UChar const * cpDocument, size_t uiLength, bool bCopyToCAS ) {
     if (cpDocument == NULL) {
       assert( uiLength == 0 );
     }
+    SofaFS thisSofa = getSofa();
+    if (!thisSofa.isValid()) {
+      thisSofa = createInitialSofa(UnicodeStringRef("text"));
+    }
+    checkSofaDataNotSet(thisSofa);
     if (bCopyToCAS && ( cpDocument != NULL ) ) {
       copyDocumentString(UnicodeStringRef(cpDocument, uiLength));
     } else {
       iv_cpDocument = cpDocument;
       iv_uiDocumentLength = uiLength;
     }
-    SofaFS thisSofa = getSofa();
-    if (!thisSofa.isValid()) {
-      thisSofa = createInitialSofa(UnicodeStringRef("text"));
-    }
     thisSofa.setLocalSofaData(UnicodeStringRef(iv_cpDocument, iv_uiDocumentLength));
   }
 
@@ -692,6 +710,7 @@ namespace uima {
     if (!thisSofa.isValid()) {
       thisSofa = createInitialSofa(UnicodeStringRef("text"));
     }
+    checkSofaDataNotSet(thisSofa);
     copyDocumentString(text);
     thisSofa.setLocalSofaData(text);
   }
@@ -1183,7 +1202,7 @@ namespace uima {
   }
 
   void SofaFS::setLocalSofaData(FeatureStructure aFS) {
-    //TODO NEED TO FAIL THIS IF DATA, STRING, or URI ALREADY SET !!!
+    checkSofaDataNotSet(*this);
     lowlevel::TyFS tySofa = internal::FSPromoter::demoteFS(*this);
     iv_cas->getHeap()->setFSValue(tySofa, internal::gs_tySofaArrayFeature,
                                   internal::FSPromoter::demoteFS(aFS));
@@ -1191,7 +1210,7 @@ namespace uima {
   }
 
   void SofaFS::setLocalSofaData(UnicodeStringRef const aString) {
-    //TODO NEED TO FAIL THIS IF DATA, STRING, or URI ALREADY SET !!!
+    checkSofaDataNotSet(*this);
     this->setStringValue(internal::FSPromoter::promoteFeature(internal::gs_tySofaStringFeature,
                          iv_cas->getHeap()->getTypeSystem()), aString);
     int sofaNum = this->getIntValue(internal::FSPromoter::promoteFeature(internal::gs_tySofaNumFeature,
@@ -1206,7 +1225,7 @@ namespace uima {
   }
 
   void SofaFS::setRemoteSofaURI(icu::UnicodeString const & aString) {
-    //TODO NEED TO FAIL THIS IF DATA, STRING, or URI ALREADY SET !!!
+    checkSofaDataNotSet(*this);
     this->setStringValue(internal::FSPromoter::promoteFeature(internal::gs_tySofaURIFeature, iv_cas->getHeap()->getTypeSystem()), aString);
     return;
   }
diff --git a/src/framework/uima/msg.h b/src/framework/uima/msg.h
index 785154d..52f97b2 100644
--- a/src/framework/uima/msg.h
+++ b/src/framework/uima/msg.h
@@ -365,5 +365,6 @@
 #define UIMA_MSG_ID_EXC_INVALID_BASE_CAS_METHOD 328
 #define UIMA_MSG_ID_EXC_NO_FREE_CAS 329
 #define UIMA_MSG_ID_EXC_INVALID_CALL_TO_NEXT 330
-#define UIMA_MSG_ID_SIGNATURE_END 331
+#define UIMA_MSG_ID_EXC_SOFADATA_ALREADY_SET 331
+#define UIMA_MSG_ID_SIGNATURE_END 332
 #endif
diff --git a/src/framework/uima/msgstrtab.h b/src/framework/uima/msgstrtab.h
index b5854fd..ffd8bfe 100644
--- a/src/framework/uima/msgstrtab.h
+++ b/src/framework/uima/msgstrtab.h
@@ -700,7 +700,9 @@ static const TCHAR * gs_aszMessageStringTable[] = {
       "There are no free CASs in the CASPool. ",
       /*  330 - UIMA_MSG_ID_EXC_INVALID_CALL_TO_NEXT */
       "Invalid call to next(). ",
-      /*  331 - UIMA_MSG_ID_SIGNATURE_END: */
+      /*  331 - UIMA_MSG_ID_EXC_SOFADATA_ALREADY_SET */
+      "The data of Sofa '%1' has already been set.",
+      /*  332 - UIMA_MSG_ID_SIGNATURE_END: */
       "[UIMA-LIBRARY]",
     } ;
 
-- 
2.43.0


From cf28169f53626f30bb1eff87aad99926388d4e86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:25 +0000
Subject: [PATCH 034/124] fix: the mime type given with sofa data is kept when
 the sofa exists already

---
 src/cas/cas.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/cas/cas.cpp b/src/cas/cas.cpp
index c55f336..262b630 100644
--- a/src/cas/cas.cpp
+++ b/src/cas/cas.cpp
@@ -733,6 +733,7 @@ namespace uima {
       thisSofa = createInitialSofa(mimetype);
     }
     setDocumentText(text);
+    thisSofa.setSofaMime(mimetype);
   }
 
   UnicodeStringRef CAS::getDocumentText()const {
@@ -841,7 +842,8 @@ namespace uima {
     if (!thisSofa.isValid()) {
       thisSofa = createInitialSofa(mime);
     }
-    getSofa().setLocalSofaData(array);
+    thisSofa.setLocalSofaData(array);
+    thisSofa.setSofaMime(mime);
   }
 
   FeatureStructure CAS::getSofaDataArray() {
@@ -860,6 +862,7 @@ namespace uima {
       createInitialSofa(mime);
     }
     getSofa().setRemoteSofaURI(uri);
+    getSofa().setSofaMime(mime);
   }
 
   UnicodeStringRef CAS::getSofaDataURI() {
-- 
2.43.0


From 516d98bd697ef38f9a2dbca055251ca7b14e055d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:25 +0000
Subject: [PATCH 035/124] fix: a document that belongs to the caller is not
 deleted with the CAS

---
 src/cas/cas.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/cas/cas.cpp b/src/cas/cas.cpp
index 262b630..593bf8b 100644
--- a/src/cas/cas.cpp
+++ b/src/cas/cas.cpp
@@ -302,9 +302,10 @@ namespace uima {
       delete iv_indexRepository;
       iv_indexRepository = NULL;
 		}
-    if (this->iv_cpDocument != NULL) {
-      delete[] this->iv_cpDocument;
-      this->iv_cpDocument = NULL;
+    // the document itself may belong to the caller of setDocumentText
+    if (this->iv_copyOfDocument != NULL) {
+      delete[] this->iv_copyOfDocument;
+      this->iv_copyOfDocument = NULL;
     }
     //initial call to delete object
     if (this->isbaseCas) {
-- 
2.43.0


From da14feda39ceb3b9693ec0948bdce9fd5f377d45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:25 +0000
Subject: [PATCH 036/124] fix: getView refuses an invalid sofa

---
 src/cas/cas.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/cas/cas.cpp b/src/cas/cas.cpp
index 593bf8b..1bf1f9b 100644
--- a/src/cas/cas.cpp
+++ b/src/cas/cas.cpp
@@ -534,6 +534,14 @@ namespace uima {
 
   CAS* CAS::getView(SofaFS aSofa) {
     CAS* aTcas;
+    if (!aSofa.isValid()) {
+      UIMA_EXC_THROW_NEW(InvalidFSObjectException,
+                         UIMA_ERR_INVALID_FS_OBJECT,
+                         UIMA_MSG_ID_EXC_INVALID_FS_OBJECT,
+                         ErrorMessage(UIMA_MSG_ID_EXCON_UNKNOWN_CONTEXT),
+                         ErrorInfo::recoverable
+                        );
+    }
     int sofaNum = iv_heap->getIntValue(internal::FSPromoter::demoteFS(aSofa), internal::gs_tySofaNumFeature);
     map<int, CAS*>::iterator cit = iv_baseCas->iv_sofa2tcasMap.find(sofaNum);
     if (cit == iv_baseCas->iv_sofa2tcasMap.end()) {
-- 
2.43.0


From c52ea96d63c0e560703517c0b06c4d43af78c132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:25 +0000
Subject: [PATCH 037/124] fix: a sofa created with the name of the initial view
 is the sofa of that view

---
 src/cas/cas.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/cas/cas.cpp b/src/cas/cas.cpp
index 1bf1f9b..04ce4b8 100644
--- a/src/cas/cas.cpp
+++ b/src/cas/cas.cpp
@@ -954,6 +954,10 @@ namespace uima {
                          ErrorInfo::unrecoverable
                         );
     }
+    // the Sofa of that name is the one of the initial view
+    if (0 == sofaName.compare(CAS::NAME_DEFAULT_SOFA)) {
+      return createInitialSofa(mimeType);
+    }
     Type sofaT = getTypeSystem().getType(CAS::TYPE_NAME_SOFA);
     lowlevel::TyFS tySofa = iv_heap->createFS(internal::FSPromoter::demoteType(sofaT));
     SofaFS newSofa = (SofaFS)internal::FSPromoter::promoteFS(tySofa, *this->iv_baseCas);
-- 
2.43.0


From 2caf62d685634a05a39f7fa5cf29bfc33c60204b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:58 +0000
Subject: [PATCH 038/124] fix: the views of a CAS without sofas are found in
 its binary form

---
 src/cas/internal_casdeserializer.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/cas/internal_casdeserializer.cpp b/src/cas/internal_casdeserializer.cpp
index 284bb5c..0c3104d 100644
--- a/src/cas/internal_casdeserializer.cpp
+++ b/src/cas/internal_casdeserializer.cpp
@@ -635,10 +635,11 @@ namespace uima {
       crIndexRep->reset();
 
       // deserialize base CAS
+      ++cit; // skip the size, also if there are no sofas
       if (loopSize > 0) {
         lastSegmentUsed = 0;
-        perLoopIndexedFSs.insert(perLoopIndexedFSs.end(), cit+1, cit+1+loopSize);
-        cit += loopSize + 1;
+        perLoopIndexedFSs.insert(perLoopIndexedFSs.end(), cit, cit+loopSize);
+        cit += loopSize;
 
         for (loopit = perLoopIndexedFSs.begin(); loopit != perLoopIndexedFSs.end(); ++loopit) {
           assert( *loopit < iMaxOffset );
-- 
2.43.0


From 1083afa541906bfb85e88f043eb4a232fa804a6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:27 +0000
Subject: [PATCH 039/124] fix: an array of structures is a value of a feature
 with a general range

---
 src/cas/featurestructure.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cas/featurestructure.cpp b/src/cas/featurestructure.cpp
index 7efead6..f1aff47 100644
--- a/src/cas/featurestructure.cpp
+++ b/src/cas/featurestructure.cpp
@@ -174,7 +174,7 @@ namespace uima {
       Type featType;
       f.getRangeType(featType);
       lowlevel::TyFSType featTypeCode = internal::FSPromoter::demoteType(featType);
-      if (aType != featTypeCode && !ts.subsumes(aType,featTypeCode) ) {
+      if (!ts.subsumes(aType,featTypeCode) && !ts.subsumes(featTypeCode,aType) ) {
         ErrorMessage msg( UIMA_MSG_ID_EXC_INCOMPATIBLE_RANGE_TYPE);
         msg.addParam( ts.getFeatureName(internal::FSPromoter::demoteFeature(f)) );
         msg.addParam( ts.getTypeName(aType) );
-- 
2.43.0


From 93a497229ff79fc7874931cbd0d2433562a9f5c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:26 +0000
Subject: [PATCH 040/124] fix: structures read from a blob are indexed after
 their keys have been read

---
 src/cas/internal_casdeserializer.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/cas/internal_casdeserializer.cpp b/src/cas/internal_casdeserializer.cpp
index 0c3104d..3b5b3d3 100644
--- a/src/cas/internal_casdeserializer.cpp
+++ b/src/cas/internal_casdeserializer.cpp
@@ -899,13 +899,11 @@ namespace uima {
       }
       intPtr += 1 + uiRefHeapLength;
 
-      // create FS indexes
+      // get the indexed FSs
       size_t uiIndexedFSLength = intPtr[0];
       if (uiIndexedFSLength > 0) {
-        uima::CAS * baseCAS = rCAS.getBaseCas();
         iv_vecIndexedFSs.resize(uiIndexedFSLength);
         memcpy(&iv_vecIndexedFSs[0], intPtr+1, 4*uiIndexedFSLength);
-        deserializeIndexedFSs(iv_vecIndexedFSs, *baseCAS);
       }
       intPtr += 1 + uiIndexedFSLength;
 
@@ -940,8 +938,11 @@ namespace uima {
         memcpy(ty64BitHeap.getHeapStart(), intPtr+1, 8*ui64BitHeapLength);
       }
 
-
-
+      // create FS indexes now that the keys can be read from all heaps
+      if (uiIndexedFSLength > 0) {
+        uima::CAS * baseCAS = rCAS.getBaseCas();
+        deserializeIndexedFSs(iv_vecIndexedFSs, *baseCAS);
+      }
     }
 
     void CASDeserializer::deserializeData(uima::internal::SerializedCAS const & crSerializedCAS,
-- 
2.43.0


From 5c6332dbfa2c825b2563daa74f3bbe36f7e6f8f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:31 +0000
Subject: [PATCH 041/124] fix: 64 bit values of the opposite byte order are not
 truncated

---
 src/cas/internal_casdeserializer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cas/internal_casdeserializer.cpp b/src/cas/internal_casdeserializer.cpp
index 3b5b3d3..34fff01 100644
--- a/src/cas/internal_casdeserializer.cpp
+++ b/src/cas/internal_casdeserializer.cpp
@@ -733,7 +733,7 @@ namespace uima {
       output[5] = ((char*)&in)[2];
       output[6] = ((char*)&in)[1];
       output[7] = ((char*)&in)[0];
-      in = *(int*)output;
+      memcpy(&in, output, 8);
       return in;
     }
 
-- 
2.43.0


From df661db04a81936a0a607be453e9e14b85958557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:54 +0000
Subject: [PATCH 042/124] fix: reading a blob replaces the previous content of
 the CAS

---
 src/cas/internal_casdeserializer.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/cas/internal_casdeserializer.cpp b/src/cas/internal_casdeserializer.cpp
index 34fff01..2f0144e 100644
--- a/src/cas/internal_casdeserializer.cpp
+++ b/src/cas/internal_casdeserializer.cpp
@@ -856,6 +856,9 @@ namespace uima {
       CHECK(intPtr[0] == ((int*)key)[0]);
       CHECK(intPtr[1] == 1);
 
+      // drop views, indexes and sofa bookkeeping of the previous content
+      rCAS.getBaseCas()->reset();
+
       // get a heap of references
       uima::internal::CASImpl & crCASImpl = uima::internal::CASImpl::promoteCAS(rCAS);
       uima::lowlevel::FSHeap & crHeap = crCASImpl.getHeap();
-- 
2.43.0


From 3a57dbc0b88307604886f7169f9f5f049c7cb1d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:30 +0000
Subject: [PATCH 043/124] fix: namespace prefixes of an XMI document are
 distinct and contain no line breaks

---
 src/cas/xmiwriter.cpp | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/src/cas/xmiwriter.cpp b/src/cas/xmiwriter.cpp
index c462c8e..fc50d32 100644
--- a/src/cas/xmiwriter.cpp
+++ b/src/cas/xmiwriter.cpp
@@ -164,6 +164,7 @@ namespace uima {
   */
  void XmiWriter::initTypeAndNamespaceMappings() {
    nsUriToPrefixMap[XMI_NS_URI] = XMI_NS_PREFIX;
+   nsPrefixesUsed.insert(XMI_NS_PREFIX);
 
    //Add any namespace prefix mappings used by out of type system data.
    //Need to do this before the in-typesystem namespaces so that the prefix
@@ -251,17 +252,13 @@ namespace uima {
      }
      //cout << "prefix " << prefix << endl;
      // make sure this prefix hasn't already been used for some other namespace
-     set<string>::iterator prefixIte = nsPrefixesUsed.find(prefix);
+     string basePrefix = prefix;
      int num=1;
-     while (prefixIte != nsPrefixesUsed.end()) {
+     while (nsPrefixesUsed.find(prefix) != nsPrefixesUsed.end()) {
        num++;
-       stringstream basePrefix;
-       basePrefix << prefix << num << endl;
-       prefixIte = nsPrefixesUsed.find(basePrefix.str());
-       if (prefixIte == nsPrefixesUsed.end() ) {
-         prefix = basePrefix.str();
-         break;
-       }
+       stringstream numberedPrefix;
+       numberedPrefix << basePrefix << num;
+       prefix = numberedPrefix.str();
      }
      nsPrefixesUsed.insert(prefix);
      nsUriToPrefixMap[nsUri] = prefix;
-- 
2.43.0


From 8bb4029a3ae5621adc11a65c55fcc8656c8b981f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:30 +0000
Subject: [PATCH 044/124] fix: an XMI document holds the exact values of floats
 and doubles

---
 src/cas/xmideserializer_handler.cpp    | 12 ++---------
 src/cas/xmiwriter.cpp                  | 12 +++++------
 src/cas/xmlwriter.cpp                  | 28 ++++++++++++++++++++++++++
 src/framework/uima/caswriter_abase.hpp |  4 ++++
 4 files changed, 39 insertions(+), 17 deletions(-)

diff --git a/src/cas/xmideserializer_handler.cpp b/src/cas/xmideserializer_handler.cpp
index 34fae1d..ffbe4c5 100644
--- a/src/cas/xmideserializer_handler.cpp
+++ b/src/cas/xmideserializer_handler.cpp
@@ -741,11 +741,7 @@ namespace uima {
       }
     case internal::gs_tyDoubleArrayType: {
         DoubleArrayFS doubleFS(fs);
-        stringstream s;
-        s << buffer;
-        long double doubleval;
-        s >> doubleval;
-        doubleFS.set((size_t) arrayPos, doubleval);
+        doubleFS.set((size_t) arrayPos, strtod(buffer.c_str(), NULL));
         break;
       }
     default: {    //array of FSs
@@ -888,11 +884,7 @@ namespace uima {
       case internal::gs_tyDoubleType: {
         if (featVal.length() > 0) {
           string strval = UnicodeStringRef(featVal).asUTF8();
-          long double doubleval;
-          stringstream s;
-          s << strval.c_str();
-          s >> doubleval;
-          fs.setDoubleValue(feat, doubleval );
+          fs.setDoubleValue(feat, strtod(strval.c_str(), NULL) );
         }
         break;
       }	  
diff --git a/src/cas/xmiwriter.cpp b/src/cas/xmiwriter.cpp
index fc50d32..f66874c 100644
--- a/src/cas/xmiwriter.cpp
+++ b/src/cas/xmiwriter.cpp
@@ -361,7 +361,7 @@ namespace uima {
       os << fs.getIntValue(f) << "\"";
     } else if (t == iv_floatType) {
       os << " " << f.getName() << "=\"";
-      os << fs.getFloatValue(f) << "\"";
+      os << toText(fs.getFloatValue(f)) << "\"";
     } else if (t == iv_byteType) {
       os << " " << f.getName() << "=\"";
       int val = fs.getByteValue(f);
@@ -380,9 +380,7 @@ namespace uima {
       os << fs.getLongValue(f) << "\"";
     } else if (t == iv_doubleType) {
       os << " " << f.getName() << "=\"";
-      stringstream s;
-      s << fs.getDoubleValue(f);
-      os << s.str() << "\"";
+      os << toText(fs.getDoubleValue(f)) << "\"";
     } else {
      
       FeatureStructure referencedFS = fs.getFSValue(f);
@@ -442,7 +440,7 @@ namespace uima {
         FloatArrayFS arrayfs(fs);
         size_t n = arrayfs.size();
         for (size_t i=0; i < n;i++) {
-          str << arrayfs.get(i);
+          str << toText(arrayfs.get(i));
           if (i+1 < n) {         
             str << " ";
           }
@@ -503,7 +501,7 @@ namespace uima {
         DoubleArrayFS arrayfs(fs);
         size_t n = arrayfs.size();
         for (size_t i=0; i < n;i++) {
-          str << arrayfs.get(i);
+          str << toText(arrayfs.get(i));
           if (i+1 < n) {         
             str << " ";
           }
@@ -1085,7 +1083,7 @@ void XmiWriter::write(ostream & os) {
     case internal::gs_tyNEFloatListType: {
       FloatListFS curNode(fs);
       while (!curNode.isEmpty()) { 
-        str << curNode.getHead();
+        str << toText(curNode.getHead());
         curNode = curNode.getTail();
         int addr = internal::FSPromoter::demoteFS(curNode);
         if (visited[addr] == addr) {
diff --git a/src/cas/xmlwriter.cpp b/src/cas/xmlwriter.cpp
index cbd305b..1439c6b 100644
--- a/src/cas/xmlwriter.cpp
+++ b/src/cas/xmlwriter.cpp
@@ -44,6 +44,8 @@
 
 #include "uima/resmgr.hpp"
 #include "uima/location.hpp"
+#include <limits>
+#include <sstream>
 #include "xercesc/framework/XMLFormatter.hpp"
 #include "xercesc/framework/MemBufFormatTarget.hpp"
 #include "xercesc/util/XMLString.hpp"
@@ -72,6 +74,32 @@ namespace uima {
 
   XMLWriterABase::~XMLWriterABase() {}
 
+  string XMLWriterABase::toText(float value) {
+    if (value != value)
+      return "NaN";
+    if (value > numeric_limits<float>::max())
+      return "Infinity";
+    if (value < -numeric_limits<float>::max())
+      return "-Infinity";
+    stringstream str;
+    str.precision(9);
+    str << value;
+    return str.str();
+  }
+
+  string XMLWriterABase::toText(double value) {
+    if (value != value)
+      return "NaN";
+    if (value > numeric_limits<double>::max())
+      return "Infinity";
+    if (value < -numeric_limits<double>::max())
+      return "-Infinity";
+    stringstream str;
+    str.precision(17);
+    str << value;
+    return str.str();
+  }
+
   void XMLWriterABase::normalize(UnicodeStringRef const & in, icu::UnicodeString& out)  {
     //cout << "normalize() input " << in << endl;
     static icu::UnicodeString const ustrAMP_ESC("&amp;");
diff --git a/src/framework/uima/caswriter_abase.hpp b/src/framework/uima/caswriter_abase.hpp
index 961b285..d9da8ab 100644
--- a/src/framework/uima/caswriter_abase.hpp
+++ b/src/framework/uima/caswriter_abase.hpp
@@ -83,6 +83,10 @@ namespace uima {
     static void normalize(UnicodeStringRef const & in, icu::UnicodeString& out);
   public:
     XMLWriterABase(CAS const & crCAS, bool bAddDocBuffer);
+
+    /// text from which the same float or double can be read again
+    static std::string toText(float value);
+    static std::string toText(double value);
     virtual ~XMLWriterABase();
 
     virtual void write(std::ostream& os) = 0;
-- 
2.43.0


From b5df2ec6df56bbc2ced08e7a05d9fd6c41a31dd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:14 +0000
Subject: [PATCH 045/124] fix: empty arrays are written to XMI documents

---
 src/cas/xmiwriter.cpp | 74 +++++++++++++++++++++----------------------
 1 file changed, 36 insertions(+), 38 deletions(-)

diff --git a/src/cas/xmiwriter.cpp b/src/cas/xmiwriter.cpp
index f66874c..9b02ad8 100644
--- a/src/cas/xmiwriter.cpp
+++ b/src/cas/xmiwriter.cpp
@@ -580,13 +580,11 @@ namespace uima {
   }
 
   void XmiWriter::writeStringArray(ostream & os, StringArrayFS const & array, char const * tag, int xmiid) {
-    if (array.size() > 0) {
-      //XCAS os << " size=\"" << array.size() << "\">" << endl;
-      os << " <" << tag;
-      os << " " << ID_ATTR_NAME << "=\"" << xmiid << "\">";
-        os << arrayToString(array, "elements").c_str();
-        os << "</" << tag << ">" << endl;
-    } 
+    //XCAS os << " size=\"" << array.size() << "\">" << endl;
+    os << " <" << tag;
+    os << " " << ID_ATTR_NAME << "=\"" << xmiid << "\">";
+    os << arrayToString(array, "elements").c_str();
+    os << "</" << tag << ">" << endl;
   }
 
   void XmiWriter::writeFSFlat(ostream & os,
@@ -603,35 +601,31 @@ namespace uima {
    
     // if array
     if ( iv_arrayType.subsumes(t) ) {
-      const CAS* ccasp = &iv_cas;
-      CAS* casp = const_cast<CAS*> (ccasp);
-        if (casp->getHeap()->getArraySize(internal::FSPromoter::demoteFS(fs)) >0) {
-            if ( t == iv_intArrayType ) {
-                writeArray( os, IntArrayFS(fs), xmlElementName->qualifiedName.c_str(), xmiId);
-            } else if ( t == iv_floatArrayType ) {
-                writeArray( os, FloatArrayFS(fs), xmlElementName->qualifiedName.c_str(), xmiId);
-            } else if ( t == iv_stringArrayType ) {
-                //cout << "got a string array " << endl;
-                writeStringArray( os, StringArrayFS(fs), xmlElementName->qualifiedName.c_str(), xmiId);
-            } else if ( t == iv_byteArrayType ) {
-                writeArray(os, ByteArrayFS(fs), xmlElementName->qualifiedName.c_str(), xmiId);
-            } else if ( t == iv_booleanArrayType ) {
-                writeArray( os, BooleanArrayFS(fs), xmlElementName->qualifiedName.c_str(), xmiId);
-            } else if ( t == iv_shortArrayType ) {
-                writeArray( os, ShortArrayFS(fs),xmlElementName->qualifiedName.c_str(), xmiId );
-            } else if ( t == iv_longArrayType ) {
-                writeArray( os, LongArrayFS(fs), xmlElementName->qualifiedName.c_str(), xmiId);
-            } else if ( t == iv_doubleArrayType ) {
-                writeArray( os, DoubleArrayFS(fs), xmlElementName->qualifiedName.c_str(), xmiId);
-            } else {
-                assert( t == iv_cas.getTypeSystem().getType(uima::CAS::TYPE_NAME_FS_ARRAY) );
-                if (internal::FSPromoter::demoteType(t) == internal::gs_tyFSArrayType) {
-                    writeArray( os, ArrayFS(fs), xmlElementName->qualifiedName.c_str(), xmiId);
-                } else {
-                    cerr << "writeFSFlat unknown array type " << t.getName() << endl;
-                }
-            }
-        }
+      if ( t == iv_intArrayType ) {
+          writeArray( os, IntArrayFS(fs), xmlElementName->qualifiedName.c_str(), xmiId);
+      } else if ( t == iv_floatArrayType ) {
+          writeArray( os, FloatArrayFS(fs), xmlElementName->qualifiedName.c_str(), xmiId);
+      } else if ( t == iv_stringArrayType ) {
+          //cout << "got a string array " << endl;
+          writeStringArray( os, StringArrayFS(fs), xmlElementName->qualifiedName.c_str(), xmiId);
+      } else if ( t == iv_byteArrayType ) {
+          writeArray(os, ByteArrayFS(fs), xmlElementName->qualifiedName.c_str(), xmiId);
+      } else if ( t == iv_booleanArrayType ) {
+          writeArray( os, BooleanArrayFS(fs), xmlElementName->qualifiedName.c_str(), xmiId);
+      } else if ( t == iv_shortArrayType ) {
+          writeArray( os, ShortArrayFS(fs),xmlElementName->qualifiedName.c_str(), xmiId );
+      } else if ( t == iv_longArrayType ) {
+          writeArray( os, LongArrayFS(fs), xmlElementName->qualifiedName.c_str(), xmiId);
+      } else if ( t == iv_doubleArrayType ) {
+          writeArray( os, DoubleArrayFS(fs), xmlElementName->qualifiedName.c_str(), xmiId);
+      } else {
+          assert( t == iv_cas.getTypeSystem().getType(uima::CAS::TYPE_NAME_FS_ARRAY) );
+          if (internal::FSPromoter::demoteType(t) == internal::gs_tyFSArrayType) {
+              writeArray( os, ArrayFS(fs), xmlElementName->qualifiedName.c_str(), xmiId);
+          } else {
+              cerr << "writeFSFlat unknown array type " << t.getName() << endl;
+          }
+      }
     } else {
       vector<Feature> features;
       fs.getType().getAppropriateFeatures(features);
@@ -663,8 +657,12 @@ namespace uima {
             writeFeatureValue(os, fs, f);
           } else {
             StringArrayFS arrayFS = fs.getStringArrayFSValue(f);
-            if (arrayFS.isValid() && arrayFS.size() > 0) {
-              strcontent << arrayToString(arrayFS, f.getName().asUTF8().c_str());
+            if (arrayFS.isValid()) {
+              if (arrayFS.size() > 0) {
+                strcontent << arrayToString(arrayFS, f.getName().asUTF8().c_str());
+              } else {
+                os << " " << f.getName() << "=\"\"";
+              }
             }
           }
           break;                             
-- 
2.43.0


From 0c8bfadf3e1d419a592572f7fea08a0132322329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:14 +0000
Subject: [PATCH 046/124] fix: the elements and the id of an array read from
 XMI are not those of the array before it

---
 src/cas/xmideserializer_handler.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cas/xmideserializer_handler.cpp b/src/cas/xmideserializer_handler.cpp
index ffbe4c5..6e30ee3 100644
--- a/src/cas/xmideserializer_handler.cpp
+++ b/src/cas/xmideserializer_handler.cpp
@@ -466,8 +466,8 @@ namespace uima {
 			} else if (iv_cas->getTypeSystem().isArrayType(internal::FSPromoter::demoteType(type)) ) {
 				
         icu::UnicodeString attrName; 
-				int xmiId=0;
-				icu::UnicodeString elements;
+				currentArrayId = 0;
+				currentArrayElements.remove();
 				for (size_t i = 0; i < attrs.getLength(); i++) {
 						attrName =  attrs.getQName(i);
 						if (attrName.compare(XMI_ID_ATTR_NAME) == 0) {
-- 
2.43.0


From e22a12baca482b8c7dc1a98a82261664174782de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:14 +0000
Subject: [PATCH 047/124] fix: null elements of arrays of structures are
 written to XMI documents

---
 src/cas/xmiwriter.cpp | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/src/cas/xmiwriter.cpp b/src/cas/xmiwriter.cpp
index 9b02ad8..6713f3f 100644
--- a/src/cas/xmiwriter.cpp
+++ b/src/cas/xmiwriter.cpp
@@ -522,18 +522,12 @@ namespace uima {
           if (xmiId == 0) {  //if 0 check if its an Oots FS 
             // However, this null array element might have been a reference to an 
             //out-of-typesystem FS, so check the ootsArrayElementsList
-            if (ootsList != NULL) {
-              while (ootsIndex < ootsList->size()) {
-                XmiArrayElement * arel = ootsList->at(ootsIndex++);
-                if (arel->index == j) {
-                  str << arel->xmiId;
-                  break;
-                }                
-              }
+            if (ootsList != NULL && ootsIndex < ootsList->size()
+                && (size_t) ootsList->at(ootsIndex)->index == j) {
+              xmiId = ootsList->at(ootsIndex++)->xmiId;
             }
-          } else {
-            str << xmiId;
           }
+          str << xmiId;  // 0 represents null
           if (j+1 < size) {         
             str << " ";
           }
-- 
2.43.0


From 9c6cc541605eb9798933b9cb2fa75436506f5345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:14 +0000
Subject: [PATCH 048/124] fix: null elements of lists of structures are written
 to XMI documents with shared data

---
 src/cas/xmiwriter.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/cas/xmiwriter.cpp b/src/cas/xmiwriter.cpp
index 6713f3f..83d9cd4 100644
--- a/src/cas/xmiwriter.cpp
+++ b/src/cas/xmiwriter.cpp
@@ -1115,6 +1115,8 @@ void XmiWriter::write(ostream & os) {
               XmlAttribute *  attr = oed->attributes.at(0);
               assert(attr->name.compare(CAS::FEATURE_BASE_NAME_HEAD)==0);
               str << attr->value;
+            } else {
+              str << head;
             }
           } else {
             str << head;
-- 
2.43.0


From ea7282a0a8d5d06612f3621a3131ae9dc0f1cb91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:14 +0000
Subject: [PATCH 049/124] fix: empty lists of integers, floats and strings can
 be written to XMI documents

---
 src/cas/xmiwriter.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/cas/xmiwriter.cpp b/src/cas/xmiwriter.cpp
index 83d9cd4..b5a7415 100644
--- a/src/cas/xmiwriter.cpp
+++ b/src/cas/xmiwriter.cpp
@@ -709,6 +709,8 @@ namespace uima {
                 string str = listToString(fs.getFSValue(f), f.getName().asUTF8().c_str());          
                 if (listFS.isValid() && str.length() > 0) {
                   strcontent << str;
+                } else {
+                  os << " " << f.getName() << "=\"\"";
                 }
               }
             }
@@ -1090,6 +1092,9 @@ void XmiWriter::write(ostream & os) {
       }
       break;
                                          }
+    case internal::gs_tyEIntListType:
+    case internal::gs_tyEFloatListType:
+    case internal::gs_tyEStringListType:
     case internal::gs_tyEListType: {
       //cout << "listToString() Empty FSList SKIP"  << endl;
       break;
-- 
2.43.0


From 88a5e5cc039ab28722d120ea9d6b425d868bcbd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:14 +0000
Subject: [PATCH 050/124] fix: the tail of a list node in an XMI document is a
 reference

---
 src/cas/lowlevel_typesystem.cpp | 8 ++++----
 src/cas/xmiwriter.cpp           | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/cas/lowlevel_typesystem.cpp b/src/cas/lowlevel_typesystem.cpp
index 1cbf964..cba1f99 100644
--- a/src/cas/lowlevel_typesystem.cpp
+++ b/src/cas/lowlevel_typesystem.cpp
@@ -96,13 +96,13 @@ namespace uima {
     TypeSystem::StFeatureInfo gs_arBuiltinFeatures[] = {
           {
             CAS::FEATURE_BASE_NAME_HEAD, CAS::TYPE_NAME_NON_EMPTY_FS_LIST, CAS::TYPE_NAME_TOP, false, "head"},
-          { CAS::FEATURE_BASE_NAME_TAIL, CAS::TYPE_NAME_NON_EMPTY_FS_LIST, CAS::TYPE_NAME_FS_LIST, false, "tail"},
+          { CAS::FEATURE_BASE_NAME_TAIL, CAS::TYPE_NAME_NON_EMPTY_FS_LIST, CAS::TYPE_NAME_FS_LIST, true, "tail"},
           { CAS::FEATURE_BASE_NAME_HEAD, CAS::TYPE_NAME_NON_EMPTY_FLOAT_LIST, CAS::TYPE_NAME_FLOAT, false, "head of float list"},
-          { CAS::FEATURE_BASE_NAME_TAIL, CAS::TYPE_NAME_NON_EMPTY_FLOAT_LIST, CAS::TYPE_NAME_FLOAT_LIST, false, "tail of float list"},
+          { CAS::FEATURE_BASE_NAME_TAIL, CAS::TYPE_NAME_NON_EMPTY_FLOAT_LIST, CAS::TYPE_NAME_FLOAT_LIST, true, "tail of float list"},
           { CAS::FEATURE_BASE_NAME_HEAD, CAS::TYPE_NAME_NON_EMPTY_INTEGER_LIST, CAS::TYPE_NAME_INTEGER, false, "head of integer list"},
-          { CAS::FEATURE_BASE_NAME_TAIL, CAS::TYPE_NAME_NON_EMPTY_INTEGER_LIST, CAS::TYPE_NAME_INTEGER_LIST, false, "tail of integer list"},
+          { CAS::FEATURE_BASE_NAME_TAIL, CAS::TYPE_NAME_NON_EMPTY_INTEGER_LIST, CAS::TYPE_NAME_INTEGER_LIST, true, "tail of integer list"},
           { CAS::FEATURE_BASE_NAME_HEAD, CAS::TYPE_NAME_NON_EMPTY_STRING_LIST, CAS::TYPE_NAME_STRING, false, "head of string list"},
-          { CAS::FEATURE_BASE_NAME_TAIL, CAS::TYPE_NAME_NON_EMPTY_STRING_LIST, CAS::TYPE_NAME_STRING_LIST, false, "tail of string list"}
+          { CAS::FEATURE_BASE_NAME_TAIL, CAS::TYPE_NAME_NON_EMPTY_STRING_LIST, CAS::TYPE_NAME_STRING_LIST, true, "tail of string list"}
         };
 
     char const * TYPE_NAME_INVALID               = "INVALID_TYPE";
diff --git a/src/cas/xmiwriter.cpp b/src/cas/xmiwriter.cpp
index b5a7415..4a6d575 100644
--- a/src/cas/xmiwriter.cpp
+++ b/src/cas/xmiwriter.cpp
@@ -702,7 +702,7 @@ namespace uima {
         case internal::gs_tyNEStringListType: {
           FeatureStructure listFS = fs.getFSValue(f);
           if (listFS.isValid()) {
-            if (f.isMultipleReferencesAllowed() ) {
+            if (f.isMultipleReferencesAllowed() || insidelist) {
               writeFeatureValue(os, fs, f);
             } else {
               if (fs.getFSValue(f).isValid()) {
-- 
2.43.0


From 397db8bb70714304184fd257dd71f6ed7e9f4908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:14 +0000
Subject: [PATCH 051/124] fix: tabs in attribute values are kept by XML
 serialization

---
 src/cas/xmlwriter.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/cas/xmlwriter.cpp b/src/cas/xmlwriter.cpp
index 1439c6b..08b969d 100644
--- a/src/cas/xmlwriter.cpp
+++ b/src/cas/xmlwriter.cpp
@@ -109,6 +109,7 @@ namespace uima {
     static icu::UnicodeString const ustrQUOT_ESC("&quot;");
     static icu::UnicodeString const ustrCR_ESC("&#13;");
     static icu::UnicodeString const ustrLF_ESC("&#10;");
+    static icu::UnicodeString const ustrTAB_ESC("&#9;");
 
     static UChar const uAMP('&');
     static UChar const uGT('>');
@@ -117,6 +118,7 @@ namespace uima {
     static UChar const uQUOT('"');
     static UChar const uCR('\r');
     static UChar const uLF('\n');
+    static UChar const uTAB('\t');
     
     const UChar * srcPtr = in.getBuffer();
 
@@ -143,6 +145,9 @@ namespace uima {
         case uLF: 
           out.append(ustrLF_ESC);
           break;
+        case uTAB:
+          out.append(ustrTAB_ESC);
+          break;
         default:
           out.append(*srcPtr);
       }
-- 
2.43.0


From b4c740e3d138429e1b9c07dcf148925759df0cc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:00 +0000
Subject: [PATCH 052/124] fix: XMI documents are UTF-8 whatever the default
 code page

---
 src/cas/xmideserializer_handler.cpp |  6 +++---
 src/cas/xmiwriter.cpp               | 22 +++++++++++-----------
 2 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/src/cas/xmideserializer_handler.cpp b/src/cas/xmideserializer_handler.cpp
index 6e30ee3..7271f2e 100644
--- a/src/cas/xmideserializer_handler.cpp
+++ b/src/cas/xmideserializer_handler.cpp
@@ -696,7 +696,7 @@ namespace uima {
     case internal::gs_tyStringArrayType: {
         //add the striug
 				StringArrayFS strFS(fs);
-				icu::UnicodeString strval(buffer.c_str());
+				icu::UnicodeString strval(icu::UnicodeString::fromUTF8(buffer));
 				strFS.set( (size_t) arrayPos,strval);
 				break;
     }
@@ -1038,7 +1038,7 @@ void XmiDeserializerHandler::handleFeature(lowlevel::TyFS addr,
 		   } else {
 			   Type type = internal::FSPromoter::promoteType(rangeTypeCode,
 				   iv_cas->getTypeSystem().getLowlevelTypeSystem());
-				 icu::UnicodeString val(featVals.at(0).c_str());
+				 icu::UnicodeString val(icu::UnicodeString::fromUTF8(featVals.at(0)));
 			   handleFeature(type,		   
 				   addr, featCode,val, true);
 		   }
@@ -1148,7 +1148,7 @@ void XmiDeserializerHandler::handleFeature(lowlevel::TyFS addr,
   int XmiDeserializerHandler::createStringList(vector<string>& stringList)	{   
     StringListFS listFS =   iv_cas->createStringListFS();
     for (size_t i = 0; i < stringList.size(); i++ ) {
-      icu::UnicodeString value(stringList.at(i).c_str()); //use xmiId to look up addr
+      icu::UnicodeString value(icu::UnicodeString::fromUTF8(stringList.at(i))); //use xmiId to look up addr
 	    listFS.addLast(value);
     }
 	  return internal::FSPromoter::demoteFS(listFS);
diff --git a/src/cas/xmiwriter.cpp b/src/cas/xmiwriter.cpp
index 4a6d575..37bf91f 100644
--- a/src/cas/xmiwriter.cpp
+++ b/src/cas/xmiwriter.cpp
@@ -353,7 +353,7 @@ namespace uima {
         icu::UnicodeString us;
         normalize( ref, us );
         os << " " << f.getName() << "=\"";
-        os << us << "\"";
+        os << UnicodeStringRef(us).asUTF8() << "\"";
       }
       }
     } else if (t == iv_integerType) {
@@ -541,7 +541,7 @@ namespace uima {
         for (size_t i=0; i < n;i++) {
           ustr.setTo("");
           normalize( arrayfs.get(i), ustr );
-          str << "<" << tag << ">" << ustr << "</" << tag << ">";
+          str << "<" << tag << ">" << UnicodeStringRef(ustr).asUTF8() << "</" << tag << ">";
          
         }         
         break;
@@ -733,9 +733,9 @@ namespace uima {
       for (size_t a=0; a < oed->attributes.size(); a++) {
         XmlAttribute * attr = oed->attributes.at(a);
         icu::UnicodeString us;
-        icu::UnicodeString av(attr->value.c_str());
+        icu::UnicodeString av(icu::UnicodeString::fromUTF8(attr->value));
         normalize( av, us );
-        os << " " << attr->name << "=\"" << us << "\"";
+        os << " " << attr->name << "=\"" << UnicodeStringRef(us).asUTF8() << "\"";
       }
       //child elements
       map<string,vector<string>*>::iterator ite ;
@@ -744,10 +744,10 @@ namespace uima {
           vector<string> * values = ite->second;
           for (size_t v=0; v < values->size();v++) {
             icu::UnicodeString us;
-            icu::UnicodeString av(values->at(v).c_str());
+            icu::UnicodeString av(icu::UnicodeString::fromUTF8(values->at(v)));
             normalize( av, us );
             strcontent << " <" << ite->first 
-              << ">" << us
+              << ">" << UnicodeStringRef(us).asUTF8()
               << "</" << ite->first << ">";
           }
         }
@@ -1152,7 +1152,7 @@ void XmiWriter::write(ostream & os) {
         ///string head = curNode.getHead().asUTF8();
         ustr.setTo("");
         normalize(curNode.getHead(), ustr);
-        str << "<" << tag << ">" << ustr << "</" << tag << ">";
+        str << "<" << tag << ">" << UnicodeStringRef(ustr).asUTF8() << "</" << tag << ">";
         curNode = curNode.getTail();
         int addr = internal::FSPromoter::demoteFS(curNode);
         if (visited[addr] == addr) {
@@ -1200,9 +1200,9 @@ void XmiWriter::serializeOutOfTypeSystemElements(ostream & os)  {
     for (size_t a=0; a < oed->attributes.size();a++) {
       XmlAttribute * attr = oed->attributes.at(a);
       icu::UnicodeString us;
-      icu::UnicodeString av(attr->value.c_str());
+      icu::UnicodeString av(icu::UnicodeString::fromUTF8(attr->value));
       normalize( av, us );
-      os << " " << attr->name << "=\"" << us << "\"";
+      os << " " << attr->name << "=\"" << UnicodeStringRef(us).asUTF8() << "\"";
     }
     if (oed->childElements.size() > 0) {
       os << ">";
@@ -1212,10 +1212,10 @@ void XmiWriter::serializeOutOfTypeSystemElements(ostream & os)  {
         vector<string> * values = ite->second;
         for (size_t v=0; v < values->size(); v++) {
 	        icu::UnicodeString us;
-			icu::UnicodeString av(values->at(v).c_str());
+			icu::UnicodeString av(icu::UnicodeString::fromUTF8(values->at(v)));
 			normalize( av, us );
           os << " <" << ite->first << ">";
-          os << us;
+          os << UnicodeStringRef(us).asUTF8();
           os << "</" << ite->first << ">";
         }
       }
-- 
2.43.0


From 691afc480865002a6c9d3292a436a9379032cce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:00 +0000
Subject: [PATCH 053/124] fix: elements whose name contains xmi are not skipped
 when XMI is read

---
 src/cas/xmideserializer_handler.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cas/xmideserializer_handler.cpp b/src/cas/xmideserializer_handler.cpp
index 7271f2e..0369732 100644
--- a/src/cas/xmideserializer_handler.cpp
+++ b/src/cas/xmideserializer_handler.cpp
@@ -152,7 +152,7 @@ namespace uima {
 										}
 		case FS_STATE: {
 			// ignore elements with XMI prefix (such as XMI annotations)  
-			if (qualifiedName.indexOf("xmi") > 0) {
+			if (qualifiedName.startsWith("xmi:")) {
 				this->iv_state = IGNORING_XMI_ELEMENTS_STATE;
 				this->ignoreDepth++;
 				return;
-- 
2.43.0


From 6f61d5443c8f6f0d9cfc8fad44c61f970c5d843f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:01 +0000
Subject: [PATCH 054/124] fix: an empty value of an enumerated string feature
 is read from XMI

---
 src/cas/xmideserializer_handler.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/cas/xmideserializer_handler.cpp b/src/cas/xmideserializer_handler.cpp
index 0369732..8b19b6e 100644
--- a/src/cas/xmideserializer_handler.cpp
+++ b/src/cas/xmideserializer_handler.cpp
@@ -944,9 +944,7 @@ namespace uima {
       }
       default: {
         if (rtype.isStringSubType()) {
-          if (featVal.length() > 0) {
-            fs.setStringValue(feat, featVal);
-          }
+          fs.setStringValue(feat, featVal);
         } else if (featVal.length() > 0) {
           lowlevel::TyFS val = (lowlevel::TyFS) atoi(UnicodeStringRef(featVal).asUTF8().c_str());
           iv_casimpl.getHeap().setFeatureInternal(addr, uima::internal::FSPromoter::demoteFeature(feat), val);
-- 
2.43.0


From c3c2d47af29ad3cb9a82a813c9736b96efcbcfe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:46 +0000
Subject: [PATCH 055/124] fix: file names given to the XMI and XCAS
 deserializers as unicode strings may have any length and characters

---
 src/cas/xcasdeserializer.cpp |  7 ++-----
 src/cas/xmideserializer.cpp  | 14 ++++----------
 2 files changed, 6 insertions(+), 15 deletions(-)

diff --git a/src/cas/xcasdeserializer.cpp b/src/cas/xcasdeserializer.cpp
index 2bad3b6..a6f628c 100644
--- a/src/cas/xcasdeserializer.cpp
+++ b/src/cas/xcasdeserializer.cpp
@@ -84,11 +84,8 @@ namespace uima {
   }
 
   void XCASDeserializer::deserialize(icu::UnicodeString & xcasFilename, CAS & cas) {
-    char buff[1024];
-    xcasFilename.extract(0, xcasFilename.length(), buff);
-	XMLCh* native = XMLString::transcode(buff);
-	LocalFileInputSource fileIS (native);
-	XMLString::release(&native);
+    assertWithMsg(sizeof(XMLCh) == sizeof(UChar), "Port required");
+    LocalFileInputSource fileIS ((XMLCh const *) xcasFilename.getTerminatedBuffer());
     XCASDeserializer::deserialize(fileIS, cas);
   }
 
diff --git a/src/cas/xmideserializer.cpp b/src/cas/xmideserializer.cpp
index 846b944..c09691f 100644
--- a/src/cas/xmideserializer.cpp
+++ b/src/cas/xmideserializer.cpp
@@ -84,11 +84,8 @@ namespace uima {
   }
 
   void XmiDeserializer::deserialize(icu::UnicodeString & xmiFilename, CAS & cas, bool lenient) {
-    char buff[1024];
-    xmiFilename.extract(0, xmiFilename.length(), buff);
-    XMLCh* native = XMLString::transcode(buff);
-    LocalFileInputSource fileIS (native);
-	XMLString::release(&native);
+    assertWithMsg(sizeof(XMLCh) == sizeof(UChar), "Port required");
+    LocalFileInputSource fileIS ((XMLCh const *) xmiFilename.getTerminatedBuffer());
     XmiDeserializer::deserialize(fileIS, cas, lenient);
   }
 
@@ -314,11 +311,8 @@ namespace uima {
   void XmiDeserializer::deserialize(icu::UnicodeString & xmiFilename, 
 									CAS & cas,
 									XmiSerializationSharedData & sharedData) {
-    char buff[1024];
-    xmiFilename.extract(0, xmiFilename.length(), buff);
-    XMLCh* native = XMLString::transcode(buff);
-    LocalFileInputSource fileIS (native);
-	XMLString::release(&native);
+    assertWithMsg(sizeof(XMLCh) == sizeof(UChar), "Port required");
+    LocalFileInputSource fileIS ((XMLCh const *) xmiFilename.getTerminatedBuffer());
     XmiDeserializer::deserialize(fileIS, cas, sharedData);
   }
 }
-- 
2.43.0


From 198d8f504d3603cc96bc12e1de7ff4ca48a31bf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:58 +0000
Subject: [PATCH 056/124] fix: features with the range of an empty or non-empty
 list are read from XMI as they are written

---
 src/cas/xmideserializer_handler.cpp | 16 ++++++++++++++++
 src/cas/xmiwriter.cpp               | 10 ++++++++++
 2 files changed, 26 insertions(+)

diff --git a/src/cas/xmideserializer_handler.cpp b/src/cas/xmideserializer_handler.cpp
index 8b19b6e..724b589 100644
--- a/src/cas/xmideserializer_handler.cpp
+++ b/src/cas/xmideserializer_handler.cpp
@@ -922,9 +922,17 @@ namespace uima {
         }
         break;
       }
+      case internal::gs_tyEFloatListType:
+      case internal::gs_tyNEFloatListType:
       case internal::gs_tyFloatListType:
+      case internal::gs_tyEIntListType:
+      case internal::gs_tyNEIntListType:
       case internal::gs_tyIntListType:
+      case internal::gs_tyEStringListType:
+      case internal::gs_tyNEStringListType:
       case internal::gs_tyStringListType: 
+      case internal::gs_tyEListType:
+      case internal::gs_tyNEListType:
       case internal::gs_tyFSListType: {
         //cout << "GOT A LIST FEATURE " << endl;
         if (feat.isMultipleReferencesAllowed()) {
@@ -1008,21 +1016,29 @@ void XmiDeserializerHandler::handleFeature(lowlevel::TyFS addr,
 		   iv_cas->getHeap()->setFSValue(addr,featCode,arrayFS);
 		   break;
 	   }
+	   case internal::gs_tyEIntListType:
+	   case internal::gs_tyNEIntListType:
 	   case internal::gs_tyIntListType: {
 		   int arrayFS = createIntList(featVals);
            iv_cas->getHeap()->setFSValue(addr,featCode,arrayFS);
 		   break;
 	   }
+	   case internal::gs_tyEFloatListType:
+	   case internal::gs_tyNEFloatListType:
 	   case internal::gs_tyFloatListType: {
 		   int arrayFS = createFloatList(featVals);
            iv_cas->getHeap()->setFSValue(addr,featCode,arrayFS);
 		   break;
 	   }
+	   case internal::gs_tyEStringListType:
+	   case internal::gs_tyNEStringListType:
 	   case internal::gs_tyStringListType: {
 		   int arrayFS = createStringList(featVals);
            iv_cas->getHeap()->setFSValue(addr,featCode,arrayFS);
 		   break;
 	   }
+	   case internal::gs_tyEListType:
+	   case internal::gs_tyNEListType:
 	   case internal::gs_tyFSListType: {
 		   int arrayFS = createFSList(featVals);
            iv_cas->getHeap()->setFSValue(addr,featCode,arrayFS);
diff --git a/src/cas/xmiwriter.cpp b/src/cas/xmiwriter.cpp
index 37bf91f..bef0f3d 100644
--- a/src/cas/xmiwriter.cpp
+++ b/src/cas/xmiwriter.cpp
@@ -685,6 +685,8 @@ namespace uima {
         case internal::gs_tyFloatListType:
         case internal::gs_tyEFloatListType:
         case internal::gs_tyNEFloatListType:
+        case internal::gs_tyEListType:
+        case internal::gs_tyNEListType:
         case internal::gs_tyFSListType:  {
           if (f.isMultipleReferencesAllowed() || insidelist) {
             writeFeatureValue(os, fs, f);
@@ -808,6 +810,8 @@ void XmiWriter::findReferencedFSs(FeatureStructure const & fs, bool check) {
                       findReferencedFSs(fs.getFSValue(f));
                       break;
                   }
+          case internal::gs_tyEListType:
+          case internal::gs_tyNEListType:
           case internal::gs_tyFSListType:  {
             // we only enqueue lists as first-class objects if the feature has
             // multipleReferencesAllowed = true
@@ -833,6 +837,12 @@ void XmiWriter::findReferencedFSs(FeatureStructure const & fs, bool check) {
                     }
                       break;
                   }
+                  case internal::gs_tyEIntListType:
+                  case internal::gs_tyNEIntListType:
+                  case internal::gs_tyEFloatListType:
+                  case internal::gs_tyNEFloatListType:
+                  case internal::gs_tyEStringListType:
+                  case internal::gs_tyNEStringListType:
                   case internal::gs_tyIntListType:
                   case internal::gs_tyFloatListType:
                   case internal::gs_tyStringListType:   {
-- 
2.43.0


From 86f561301214f17172267254846ad6346e04d76b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:14 +0000
Subject: [PATCH 057/124] fix: an XCAS document holds the exact values of
 floats and doubles

---
 src/cas/xcasdeserializer_handler.cpp | 12 ++----------
 src/cas/xmlwriter.cpp                | 24 ++++++++++++++++--------
 2 files changed, 18 insertions(+), 18 deletions(-)

diff --git a/src/cas/xcasdeserializer_handler.cpp b/src/cas/xcasdeserializer_handler.cpp
index 505ddeb..ae26d83 100644
--- a/src/cas/xcasdeserializer_handler.cpp
+++ b/src/cas/xcasdeserializer_handler.cpp
@@ -674,11 +674,7 @@ namespace uima {
       }
     case internal::gs_tyDoubleArrayType: {
         DoubleArrayFS doubleFS(fs);
-        stringstream s;
-        s << UnicodeStringRef(buffer).asUTF8();
-        long double doubleval;
-        s >> doubleval;
-        doubleFS.set((size_t) arrayPos, doubleval);
+        doubleFS.set((size_t) arrayPos, strtod(UnicodeStringRef(buffer).asUTF8().c_str(), NULL));
         break;
       }
     default: {    //array of FSs
@@ -809,11 +805,7 @@ namespace uima {
       case internal::gs_tyDoubleType: {
           if (featVal.length() > 0) {
             string strval = UnicodeStringRef(featVal).asUTF8();
-            long double doubleval;
-            stringstream s;
-            s << strval.c_str();
-            s >> doubleval;
-            fs.setDoubleValue(feat, doubleval );
+            fs.setDoubleValue(feat, strtod(strval.c_str(), NULL) );
           }
           break;
         }
diff --git a/src/cas/xmlwriter.cpp b/src/cas/xmlwriter.cpp
index 08b969d..7850e02 100644
--- a/src/cas/xmlwriter.cpp
+++ b/src/cas/xmlwriter.cpp
@@ -470,7 +470,7 @@ namespace uima {
       os << fs.getIntValue(f) << "\"";
     } else if (t == iv_floatType) {
       os << " " << f.getName() << "=\"";
-      os << fs.getFloatValue(f) << "\"";
+      os << toText(fs.getFloatValue(f)) << "\"";
     } else if (t == iv_byteType) {
       os << " " << f.getName() << "=\"";
       int val = fs.getByteValue(f);
@@ -486,9 +486,7 @@ namespace uima {
       os << fs.getLongValue(f) << "\"";
     } else if (t == iv_doubleType) {
       os << " " << f.getName() << "=\"";
-      stringstream s;
-      s << fs.getDoubleValue(f);
-      os << s.str() << "\"";
+      os << toText(fs.getDoubleValue(f)) << "\"";
     } else {
 
       FeatureStructure referencedFS = fs.getFSValue(f);
@@ -564,7 +562,19 @@ namespace uima {
       if ( t == iv_intArrayType ) {
         writeArray( os, IntArrayFS(fs), "i");
       } else if ( t == iv_floatArrayType ) {
-        writeArray( os, FloatArrayFS(fs), "i");
+        FloatArrayFS array(fs);
+        if (array.size() > 0) {
+          os << " size=\"" << array.size() << "\">" << endl;
+          size_t i;
+          for (i=0; i<array.size(); ++i) {
+            os << "  <" << "i" << ">";
+            os << toText(array.get(i));
+            os << "</" << "i" << ">" << endl;
+          }
+          os << " </" << array.getType().getName() << ">" << endl;
+        } else {
+          os << " size=\"0\"/>" << endl;
+        }
       } else if ( t == iv_stringArrayType ) {
         writeStringArray( os, StringArrayFS(fs), "i");
       } else if ( t == iv_byteArrayType ) {
@@ -593,9 +603,7 @@ namespace uima {
           size_t i;
           for (i=0; i<array.size(); ++i) {
             os << "  <" << "i" << ">";
-            stringstream s;
-            s << array.get(i);
-            os << s.str();
+            os << toText(array.get(i));
             os << "</" << "i" << ">" << endl;
           }
           os << " </" << array.getType().getName() << ">" << endl;
-- 
2.43.0


From c4e3087495ce529a0462b28200dd4c750ad63031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:14 +0000
Subject: [PATCH 058/124] fix: an empty byte array is written to XCAS as a
 closed element

---
 src/cas/xmlwriter.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/cas/xmlwriter.cpp b/src/cas/xmlwriter.cpp
index 7850e02..2dbe5e7 100644
--- a/src/cas/xmlwriter.cpp
+++ b/src/cas/xmlwriter.cpp
@@ -589,6 +589,8 @@ namespace uima {
             os << "</" << "i" << ">" << endl;
           }
           os << " </" << array.getType().getName() << ">" << endl;
+        } else {
+          os << " size=\"0\"/>" << endl;
         }
       } else if ( t == iv_booleanArrayType ) {
         writeArray( os, BooleanArrayFS(fs), "i");
-- 
2.43.0


From 2435894df779e9a1c371041c68259830c936cb7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:14 +0000
Subject: [PATCH 059/124] fix: empty strings are read from XCAS as empty
 strings

---
 src/cas/xcasdeserializer_handler.cpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/cas/xcasdeserializer_handler.cpp b/src/cas/xcasdeserializer_handler.cpp
index ae26d83..386ae70 100644
--- a/src/cas/xcasdeserializer_handler.cpp
+++ b/src/cas/xcasdeserializer_handler.cpp
@@ -226,7 +226,8 @@ namespace uima {
       // Set the value of the content feature.
       //if (!isAllWhitespace(buffer))
       //{
-      handleFeature(currentAddr, currentContentFeat, buffer, true);
+      if (buffer.length() > 0)
+        handleFeature(currentAddr, currentContentFeat, buffer, true);
       //}            }
       iv_state = FS_STATE;
       break;
@@ -756,9 +757,7 @@ namespace uima {
           break;
         }
       case internal::gs_tyStringType: {
-          if (featVal.length() > 0) {
-            fs.setStringValue(feat, featVal);
-          }
+          fs.setStringValue(feat, featVal);
           break;
         }
       case internal::gs_tyByteType: {
@@ -811,8 +810,7 @@ namespace uima {
         }
       default: {
         if (rtype.isStringSubType()) {
-          if (featVal.length() > 0)
-            fs.setStringValue(feat, featVal);
+          fs.setStringValue(feat, featVal);
         } else if (featVal.length() > 0) {
           lowlevel::TyFS val = (lowlevel::TyFS) atoi(UnicodeStringRef(featVal).asUTF8().c_str());
           iv_casimpl.getHeap().setFeatureInternal(addr, uima::internal::FSPromoter::demoteFeature(feat), val);
-- 
2.43.0


From 53d94f5d2361fe3df706ef8d64d6ac8403ee19f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:14 +0000
Subject: [PATCH 060/124] fix: XCAS documents are UTF-8 whatever the default
 code page

---
 src/cas/xmlwriter.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cas/xmlwriter.cpp b/src/cas/xmlwriter.cpp
index 2dbe5e7..22da1a8 100644
--- a/src/cas/xmlwriter.cpp
+++ b/src/cas/xmlwriter.cpp
@@ -463,7 +463,7 @@ namespace uima {
         icu::UnicodeString us;
         normalize( ref, us );
         os << " " << f.getName() << "=\"";
-        os << us << "\"";
+        os << UnicodeStringRef(us).asUTF8() << "\"";
       }
     } else if (t == iv_integerType) {
       os << " " << f.getName() << "=\"";
@@ -525,7 +525,7 @@ namespace uima {
         os << "  <" << tag << ">";
         ustr.setTo("");
 				normalize(array.get(i),ustr);
-        os << ustr;
+        os << UnicodeStringRef(ustr).asUTF8();
         os << "</" << tag << ">" << endl;
       }
       os << " </" << array.getType().getName() << ">" << endl;
-- 
2.43.0


From 88ebf81ea7410150d1e98fc1ed86100e0c0fef0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:14 +0000
Subject: [PATCH 061/124] fix: a structure read from XCAS may be indexed in any
 number of views

---
 src/cas/xcasdeserializer_handler.cpp | 22 ++++++++--------------
 1 file changed, 8 insertions(+), 14 deletions(-)

diff --git a/src/cas/xcasdeserializer_handler.cpp b/src/cas/xcasdeserializer_handler.cpp
index 386ae70..bb24adf 100644
--- a/src/cas/xcasdeserializer_handler.cpp
+++ b/src/cas/xcasdeserializer_handler.cpp
@@ -458,13 +458,10 @@ namespace uima {
 //               else if (!attrValue.compare("false") == 0)
 //                 sofaRef = atoi(uniStr2SingleByteStr(attrValue,"UTF-8").c_str());
 //             }
-          char indexes[256];
-          // we have a problem here if number of indexed views is ridiculously big
-          strcpy(indexes, UnicodeStringRef(attrValue).asUTF8().c_str());
-          char* ptr = strtok (indexes," ");
-          while (ptr != NULL) {
-            sofaRef->push_back(atoi(ptr));
-            ptr = strtok (NULL, " ");
+          stringstream indexes(UnicodeStringRef(attrValue).asUTF8());
+          int index;
+          while (indexes >> index) {
+            sofaRef->push_back(index);
           }
         } else {
           handleFeature(type, addr, attrName, attrValue, false);
@@ -530,13 +527,10 @@ namespace uima {
 //                 indexRep = 1;
 //               else if (!attrValue.compare("false") == 0)
 //                 indexRep = atoi(uniStr2SingleByteStr(attrValue,"UTF-8").c_str());
-        char indexes[256];
-        // we have a problem here if number of indexed views is ridiculously big
-        strcpy(indexes, UnicodeStringRef(attrValue).asUTF8().c_str());
-        char* ptr = strtok (indexes," ");
-        while (ptr != NULL) {
-          indexRep->push_back(atoi(ptr));
-          ptr = strtok (NULL, " ");
+        stringstream indexes(UnicodeStringRef(attrValue).asUTF8());
+        int index;
+        while (indexes >> index) {
+          indexRep->push_back(index);
         }
       } else {
         ErrorInfo errInfo;
-- 
2.43.0


From 342f36e47e6024461c62757e99d023eb762cca9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:56 +0000
Subject: [PATCH 062/124] fix: a stream on empty local sofa data is open and at
 its end

---
 src/cas/sofastream.cpp      | 10 ++++++----
 src/cas/uima/sofastream.hpp |  1 +
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/cas/sofastream.cpp b/src/cas/sofastream.cpp
index be3d237..d914508 100644
--- a/src/cas/sofastream.cpp
+++ b/src/cas/sofastream.cpp
@@ -287,7 +287,7 @@ namespace uima {
   //Constructor
   LocalSofaDataStream::LocalSofaDataStream(SofaFS& aSofaFS) : iv_psofafs(NULL),
       iv_psofadata(NULL), iv_pstringsofadata(NULL), iv_size(0),
-      iv_isstring(false), iv_isintarray(false),
+      iv_isopen(false), iv_isstring(false), iv_isintarray(false),
       iv_isfloatarray(false), iv_isbooleanarray(false),
       iv_isbytearray(false),iv_isshortarray(false),
       iv_islongarray(false),iv_isdoublearray(false),
@@ -402,12 +402,13 @@ namespace uima {
                          ErrorInfo::unrecoverable);
     }
 
+    iv_isopen=true;
     return 0;
   }
 
   //getTotalStreamSize
   INT64 LocalSofaDataStream::getTotalStreamSizeInBytes() {
-    if (iv_size==0) {
+    if (!iv_isopen) {
       return SOFASTREAMHANDLER_EOF;
     } else return iv_size;
   }
@@ -421,7 +422,7 @@ namespace uima {
   //read
   int LocalSofaDataStream::read( void * pbuffer, int elementSize, size_t numElements) {
     //check valid sofa data
-    if (iv_psofadata == NULL) {
+    if (!iv_isopen) {
       ErrorMessage errMsg = ErrorMessage(UIMA_MSG_ID_EXC_LOCAL_SOFADATA_NOTSET);
       errMsg.addParam(iv_psofafs->getType().getName());
       UIMA_EXC_THROW_NEW(SofaDataStreamException,
@@ -482,7 +483,7 @@ namespace uima {
 
   //seek
   int LocalSofaDataStream::seek(INT64 offset, int origin) {
-    if (iv_psofadata == NULL) {
+    if (!iv_isopen) {
       ErrorMessage errMsg = ErrorMessage(UIMA_MSG_ID_EXC_LOCAL_SOFADATA_NOTSET);
       errMsg.addParam(iv_psofafs->getType().getName());
       UIMA_EXC_THROW_NEW(SofaDataStreamException,
@@ -522,6 +523,7 @@ namespace uima {
     iv_curpos=0;
     iv_psofadata = NULL;
     iv_size=0;
+    iv_isopen=false;
     iv_isstring=false;
     iv_isintarray=false;
     iv_isfloatarray=false;
diff --git a/src/cas/uima/sofastream.hpp b/src/cas/uima/sofastream.hpp
index a2e7d2c..710fe81 100644
--- a/src/cas/uima/sofastream.hpp
+++ b/src/cas/uima/sofastream.hpp
@@ -212,6 +212,7 @@ namespace uima {
     char * iv_pstringsofadata;    //ptr to UTF 8 string
     INT64 iv_curpos;              //cursor position
     INT32 iv_size;                //total size of stream in bytes
+    bool iv_isopen;               //has the stream been opened
     bool iv_isstring;             //is sofa data stored in a String Feature
     bool iv_isintarray;           //is sofa data stored in a FS array of ints
     bool iv_isfloatarray;         //is sofa data stored in a FS array of floats
-- 
2.43.0


From 76a5fc2890e9e265b62d6d0da7ee98446282c21a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:56 +0000
Subject: [PATCH 063/124] fix: a seek outside of local sofa data is refused

---
 src/cas/sofastream.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/cas/sofastream.cpp b/src/cas/sofastream.cpp
index d914508..97b8271 100644
--- a/src/cas/sofastream.cpp
+++ b/src/cas/sofastream.cpp
@@ -493,15 +493,16 @@ namespace uima {
                          ErrorInfo::unrecoverable);
     }
 
+    INT64 newpos;
     switch (origin) {
     case SEEK_SET:
-      iv_curpos = offset;
+      newpos = offset;
       break ;
     case SEEK_CUR:
-      iv_curpos += offset;
+      newpos = iv_curpos + offset;
       break ;
     case SEEK_END:
-      iv_curpos = getTotalStreamSizeInBytes() - offset;
+      newpos = getTotalStreamSizeInBytes() - offset;
       break ;
     default:
       ErrorMessage errMsg = ErrorMessage(UIMA_MSG_ID_EXC_SOFADATASTREAM_INVALID_SEEK_ORIGIN);
@@ -512,6 +513,11 @@ namespace uima {
                          UIMA_MSG_ID_EXCON_SOFADATASTREAM,
                          ErrorInfo::unrecoverable);
     }
+    //the position stays where it is if the new one is outside of the data
+    if (newpos < 0 || newpos > iv_size) {
+      return SOFASTREAMHANDLER_EOF;
+    }
+    iv_curpos = newpos;
     return 0;
   }
 
-- 
2.43.0


From 31d07586f44c1eda446fdab8ec14feacaab33f9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:56 +0000
Subject: [PATCH 064/124] fix: reading from a local sofa stream returns the
 number of elements

---
 src/cas/sofastream.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cas/sofastream.cpp b/src/cas/sofastream.cpp
index 97b8271..4791be6 100644
--- a/src/cas/sofastream.cpp
+++ b/src/cas/sofastream.cpp
@@ -478,7 +478,7 @@ namespace uima {
     //move current read position
     iv_curpos += numbytesread;
 
-    return numbytesread;
+    return numbytesread/elementSize;        // return number of elements read
   }
 
   //seek
-- 
2.43.0


From 38935c5d812c4acd7286c1779745276ae50fc66f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:56 +0000
Subject: [PATCH 065/124] fix: a local sofa stream follows its array when the
 CAS grows

---
 src/cas/sofastream.cpp      | 32 +++++++++++++++++++++++---------
 src/cas/uima/sofastream.hpp |  2 ++
 2 files changed, 25 insertions(+), 9 deletions(-)

diff --git a/src/cas/sofastream.cpp b/src/cas/sofastream.cpp
index 4791be6..98a3730 100644
--- a/src/cas/sofastream.cpp
+++ b/src/cas/sofastream.cpp
@@ -351,36 +351,28 @@ namespace uima {
       iv_isstring=true;
     } else if ( !iv_psofafs->isUntouchedFSValue(arrayfeat) ) {  //local sofa - data in fs array
 
-      FeatureStructure arrayFS = iv_psofafs->getFSValue(arrayfeat);
-      Type rangeType = arrayFS.getType();
+      Type rangeType = iv_psofafs->getFSValue(arrayfeat).getType();
       UnicodeStringRef rangeTypeName = rangeType.getName();
 
       if (rangeTypeName.compare(CAS::TYPE_NAME_INTEGER_ARRAY) ==0) {
-        iv_psofadata =  (char*) iv_psofafs->getCAS().getHeap()->getCArrayFromFS(arrayFS.iv_tyFS);
         iv_size = iv_psofafs->getIntArrayFSValue(arrayfeat).size()*sizeof(int);
         iv_isintarray = true;
       } else if (rangeTypeName.compare( CAS::TYPE_NAME_FLOAT_ARRAY) ==0) {
-        iv_psofadata =  (char*) iv_psofafs->getCAS().getHeap()->getCArrayFromFS(arrayFS.iv_tyFS);
         iv_size= iv_psofafs->getFloatArrayFSValue(arrayfeat).size()*sizeof(float);
         iv_isfloatarray = true;
       } else if (rangeTypeName.compare( CAS::TYPE_NAME_BOOLEAN_ARRAY) ==0) {
-        iv_psofadata =  (char*) iv_psofafs->getCAS().getHeap()->get8BitArray(arrayFS.iv_tyFS);
         iv_size= iv_psofafs->getBooleanArrayFSValue(arrayfeat).size()*sizeof(char);
         iv_isbooleanarray = true;
       } else if (rangeTypeName.compare( CAS::TYPE_NAME_BYTE_ARRAY) ==0) {
-        iv_psofadata =  (char*) iv_psofafs->getCAS().getHeap()->get8BitArray(arrayFS.iv_tyFS);
         iv_size= iv_psofafs->getByteArrayFSValue(arrayfeat).size()*sizeof(char);
         iv_isbytearray = true;
       } else if (rangeTypeName.compare( CAS::TYPE_NAME_SHORT_ARRAY) ==0) {
-        iv_psofadata =  (char*) iv_psofafs->getCAS().getHeap()->get16BitArray(arrayFS.iv_tyFS);
         iv_size= iv_psofafs->getShortArrayFSValue(arrayfeat).size()*sizeof(short);
         iv_isshortarray = true;
       } else if (rangeTypeName.compare( CAS::TYPE_NAME_LONG_ARRAY) ==0) {
-        iv_psofadata =  (char*) iv_psofafs->getCAS().getHeap()->get64BitArray(arrayFS.iv_tyFS);
         iv_size= iv_psofafs->getLongArrayFSValue(arrayfeat).size()*sizeof(INT64);
         iv_islongarray = true;
       } else if (rangeTypeName.compare( CAS::TYPE_NAME_DOUBLE_ARRAY) ==0) {
-        iv_psofadata =  (char*) iv_psofafs->getCAS().getHeap()->get64BitArray(arrayFS.iv_tyFS);
         iv_size= iv_psofafs->getDoubleArrayFSValue(arrayfeat).size()*sizeof(INT64);
         iv_isdoublearray = true;
       } else {
@@ -392,6 +384,7 @@ namespace uima {
                            UIMA_MSG_ID_EXCON_SOFADATASTREAM,
                            ErrorInfo::unrecoverable);
       }
+      iv_psofadata = getArrayData();
     } else {
       ErrorMessage errMsg = ErrorMessage(UIMA_MSG_ID_EXC_LOCAL_SOFADATA_NOTSET);
       errMsg.addParam(type.getName());
@@ -406,6 +399,21 @@ namespace uima {
     return 0;
   }
 
+  //address of the array, which moves whenever the heap it is in grows
+  const char * LocalSofaDataStream::getArrayData() {
+    Feature arrayfeat = iv_psofafs->getType().getFeatureByBaseName(CAS::FEATURE_BASE_NAME_SOFAARRAY);
+    lowlevel::TyFS tyArray = iv_psofafs->getFSValue(arrayfeat).iv_tyFS;
+    lowlevel::FSHeap * pHeap = iv_psofafs->getCAS().getHeap();
+    if (iv_isbooleanarray || iv_isbytearray) {
+      return pHeap->get8BitArray(tyArray);
+    } else if (iv_isshortarray) {
+      return (const char *) pHeap->get16BitArray(tyArray);
+    } else if (iv_islongarray || iv_isdoublearray) {
+      return (const char *) pHeap->get64BitArray(tyArray);
+    }
+    return (const char *) pHeap->getCArrayFromFS(tyArray);
+  }
+
   //getTotalStreamSize
   INT64 LocalSofaDataStream::getTotalStreamSizeInBytes() {
     if (!iv_isopen) {
@@ -473,6 +481,9 @@ namespace uima {
     }
 
     //read bytes
+    if (!iv_isstring) {
+      iv_psofadata = getArrayData();
+    }
     memcpy(pbuffer,iv_psofadata+iv_curpos,numbytesread);
 
     //move current read position
@@ -539,6 +550,9 @@ namespace uima {
   const TySofaDataPointer LocalSofaDataStream::getDataPointer() {
     TySofaDataPointer dataptr=NULL;
     if (iv_psofadata != NULL) {
+      if (!iv_isstring) {
+        iv_psofadata = getArrayData();
+      }
       dataptr = (TySofaDataPointer) iv_psofadata;
     }
     return dataptr;
diff --git a/src/cas/uima/sofastream.hpp b/src/cas/uima/sofastream.hpp
index 710fe81..07013cf 100644
--- a/src/cas/uima/sofastream.hpp
+++ b/src/cas/uima/sofastream.hpp
@@ -207,6 +207,8 @@ namespace uima {
     const TySofaDataPointer getDataPointer();
 
   private:
+    const char * getArrayData();
+
     SofaFS * iv_psofafs;           //the SofaFS
     const char * iv_psofadata;    //ptr to the sofa data
     char * iv_pstringsofadata;    //ptr to UTF 8 string
-- 
2.43.0


From 35b27171720626a247310bd139ef52851328f893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:37 +0000
Subject: [PATCH 066/124] fix: report unknown features given as XMI attributes
 unless reading leniently

---
 src/cas/xmideserializer_handler.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cas/xmideserializer_handler.cpp b/src/cas/xmideserializer_handler.cpp
index 724b589..9ef4104 100644
--- a/src/cas/xmideserializer_handler.cpp
+++ b/src/cas/xmideserializer_handler.cpp
@@ -628,7 +628,7 @@ namespace uima {
 					}
 					//cout << "readFS calling handleFeature " << attrName << " attrvalue= "
 					//	<< attrValue << endl;
-					handleFeature(addr, attrName, attrValue, true);
+					handleFeature(addr, attrName, attrValue, lenient);
 			}
 		}
 
-- 
2.43.0


From dfbee69f91027db49991e0cdbe133ca531c9189d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:14 +0000
Subject: [PATCH 067/124] fix: bind each namespace of out-of-typesystem XMI
 elements to a prefix of its own

---
 src/cas/xmiwriter.cpp | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/src/cas/xmiwriter.cpp b/src/cas/xmiwriter.cpp
index bef0f3d..a37aee6 100644
--- a/src/cas/xmiwriter.cpp
+++ b/src/cas/xmiwriter.cpp
@@ -175,8 +175,18 @@ namespace uima {
        OotsElementData * oed = ootsElements.at(i);
        string nsUri = oed->elementName->nsUri;
        string qname = oed->elementName->qualifiedName;
-       string localName = oed->elementName->shortName;
-       string prefix = qname.substr(0, oed->elementName->qualifiedName.find_first_of(":"));
+       if (nsUri.empty() || nsUriToPrefixMap.find(nsUri) != nsUriToPrefixMap.end())
+         continue;
+       //keep the prefix of the document if it has one, but never use one
+       //prefix for two namespaces
+       size_t colon = qname.find_first_of(":");
+       string basePrefix = colon == string::npos ? string("ns") : qname.substr(0, colon);
+       string prefix = basePrefix;
+       for (int num = 2; nsPrefixesUsed.find(prefix) != nsPrefixesUsed.end(); num++) {
+         stringstream numberedPrefix;
+         numberedPrefix << basePrefix << num;
+         prefix = numberedPrefix.str();
+       }
        nsUriToPrefixMap[nsUri] = prefix;
        nsPrefixesUsed.insert(prefix);
      }
@@ -923,7 +933,7 @@ void XmiWriter::write(ostream & os) {
   //This is needed to represent nulls in multi-valued references, which 
   //aren't natively supported in Ecore.
   //?? XmlElementName * nullElement = uimaTypeName2XmiElementName("uima.cas.NULL"); //?
-  os << "<cas:NULL xmi:id=\"0\"/>";
+  os << "<" << nsUriToPrefixMap["http:///uima/cas.ecore"] << ":NULL xmi:id=\"0\"/>";
 
   // write out all enqueued FS
   map<int, vector<int>*>::iterator it;
@@ -1204,7 +1214,11 @@ void XmiWriter::serializeOutOfTypeSystemElements(ostream & os)  {
   vector<OotsElementData*> & ootsList = this->sharedData->getOutOfTypeSystemElements();
   for (size_t i=0; i < ootsList.size();i++) {
     OotsElementData * oed = ootsList.at(i);
-    os << " <" << oed->elementName->qualifiedName;
+    //the prefix used here may differ from the one in the incoming document
+    string elementName = oed->elementName->shortName;
+    if (!oed->elementName->nsUri.empty())
+      elementName = nsUriToPrefixMap[oed->elementName->nsUri] + ":" + elementName;
+    os << " <" << elementName;
     os << " " << ID_ATTR_NAME << "=\"" << oed->xmiId << "\"";
     // Add other attributes
     for (size_t a=0; a < oed->attributes.size();a++) {
@@ -1229,7 +1243,7 @@ void XmiWriter::serializeOutOfTypeSystemElements(ostream & os)  {
           os << "</" << ite->first << ">";
         }
       }
-      os << "</" << oed->elementName->qualifiedName << ">";
+      os << "</" << elementName << ">";
     } else {
       os << "/>";
     }
-- 
2.43.0


From dfbf2dbb032817d215569c6acf1130e0ef9c42b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:56 +0000
Subject: [PATCH 068/124] fix: refuse XCAS sofas without name, number or
 identifier

---
 src/cas/xcasdeserializer_handler.cpp | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/src/cas/xcasdeserializer_handler.cpp b/src/cas/xcasdeserializer_handler.cpp
index bb24adf..d2e7c61 100644
--- a/src/cas/xcasdeserializer_handler.cpp
+++ b/src/cas/xcasdeserializer_handler.cpp
@@ -59,6 +59,18 @@ using namespace std;
 
 namespace uima {
 
+  // Reports input that is well-formed XML but not a valid XCAS document.
+  static void throwIllFormedInput(icu::UnicodeString const & what) {
+    ErrorInfo errInfo;
+    errInfo.setErrorId((TyErrorId)UIMA_ERR_RESOURCE_CORRUPTED);
+    ErrorMessage msg(UIMA_MSG_ID_EXC_XML_SAXPARSE_FATALERROR);
+    msg.addParam(what);
+    errInfo.setMessage(msg);
+    errInfo.setSeverity(ErrorInfo::unrecoverable);
+    ExcIllFormedInputError exc(errInfo);
+    throw exc;
+  }
+
 // ---------------------------------------------------------------------------
 //  XCASDeserialiserHandler: Constructors and Destructor
 // ---------------------------------------------------------------------------
@@ -355,6 +367,9 @@ namespace uima {
         cout << "ACK!" << endl;
       }
       const UChar* sofaID = attrs.getValue(ubuff);
+      if (sofaID == NULL) {
+        throwIllFormedInput(CAS::FEATURE_BASE_NAME_SOFAID);
+      }
       if (0==UnicodeStringRef(sofaID).compare(icu::UnicodeString("_DefaultTextSofaName"))) {
         sofaID = ubuff;
       }
@@ -372,11 +387,17 @@ namespace uima {
         cout << "ACK!" << endl;
       }
       const UChar* aString = attrs.getValue(ubuff);
+      if (aString == NULL) {
+        throwIllFormedInput(CAS::FEATURE_BASE_NAME_SOFANUM);
+      }
       int thisSofaNum = atoi(UnicodeStringRef(aString).asUTF8().c_str());
 
       // get the sofa's FeatureStructure id
       icu::UnicodeString(ID_ATTR_NAME).extract(ubuff,256, errorCode);
       aString = attrs.getValue(ubuff);
+      if (aString == NULL) {
+        throwIllFormedInput(ID_ATTR_NAME);
+      }
       int sofaFsId = atoi(UnicodeStringRef(aString).asUTF8().c_str());
 
       // for v1 and v2 formats, create the index map
-- 
2.43.0


From ac7323a77992713f2e26259a2cebc16261aa3452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:56 +0000
Subject: [PATCH 069/124] fix: refuse XCAS annotations that refer to the number
 of a sofa that does not exist

---
 src/cas/uima/xcasdeserializer_handler.hpp |  2 +-
 src/cas/xcasdeserializer_handler.cpp      | 24 +++++++++--------------
 2 files changed, 10 insertions(+), 16 deletions(-)

diff --git a/src/cas/uima/xcasdeserializer_handler.hpp b/src/cas/uima/xcasdeserializer_handler.hpp
index f5f50fa..082187b 100644
--- a/src/cas/uima/xcasdeserializer_handler.hpp
+++ b/src/cas/uima/xcasdeserializer_handler.hpp
@@ -169,7 +169,7 @@ namespace uima {
     std::vector<FSInfo*> idLess;
 
     //maps for deserializing v1.x format XCAS documents
-    std::vector<int> sofaRefMap;
+    std::map<int, int> sofaRefMap;
     std::vector<int> indexMap;
     int nextIndex;
 
diff --git a/src/cas/xcasdeserializer_handler.cpp b/src/cas/xcasdeserializer_handler.cpp
index d2e7c61..981731b 100644
--- a/src/cas/xcasdeserializer_handler.cpp
+++ b/src/cas/xcasdeserializer_handler.cpp
@@ -96,7 +96,7 @@ namespace uima {
     iv_typesystem = &crHeap.getTypeSystem();
 
     // add entry for baseCAS ... point non-compliant annotations at first Sofa
-    sofaRefMap.push_back(1);
+    sofaRefMap[0] = 1;
     // add entry for baseCAS ... _indexed=0 stays in 0
     indexMap.push_back(0);
   }
@@ -271,7 +271,7 @@ namespace uima {
       // and assume the new Sofa is at location 1!
       int addr = 1;
       int id = 1;
-      sofaRefMap.push_back(id);
+      sofaRefMap[id] = id;
 
       // and register the id for this Sofa
       FSInfo * fsInfo = new FSInfo(addr, new vector<int>);
@@ -447,17 +447,7 @@ namespace uima {
       }
 
       // Now update the mapping from annotation int to ref values
-      if (sofaRefMap.size() == thisSofaNum) {
-        // Sofa received in sofaNum order, add new one
-        sofaRefMap.push_back(sofaFsId);
-      } else if ((int)sofaRefMap.size() > thisSofaNum) {
-        // new Sofa has lower sofaNum than last one
-        sofaRefMap[thisSofaNum] =  sofaFsId;
-      } else {
-        // new Sofa has skipped ahead more than 1
-        sofaRefMap.resize(thisSofaNum + 1);
-        sofaRefMap[thisSofaNum] = sofaFsId;
-      }
+      sofaRefMap[thisSofaNum] = sofaFsId;
     }
 
     Type type = uima::internal::FSPromoter::promoteType(heapValue, iv_cas->getTypeSystem().getLowlevelTypeSystem());
@@ -716,14 +706,18 @@ namespace uima {
 
   void XCASDeserializerHandler::handleFeature(Type & type, lowlevel::TyFS addr, icu::UnicodeString & featName, icu::UnicodeString & featVal,
       bool lenient) {
-    char charFeatVal[10];
+    char charFeatVal[16];
 
     // handle v1.x format annotations, mapping int to ref values
     lowlevel::TyFSType fstype = iv_casimpl.getHeap().getType(addr);
     if (0==featName.compare("sofa") &&
         iv_typesystem->subsumes(internal::gs_tyAnnotationBaseType, fstype)) {
       int ifeatval = atoi(UnicodeStringRef(featVal).asUTF8().c_str());
-      sprintf(charFeatVal, "%d", sofaRefMap[ifeatval]);
+      std::map<int, int>::const_iterator sofaRef = sofaRefMap.find(ifeatval);
+      if (sofaRef == sofaRefMap.end()) {
+        throwIllFormedInput(featVal);
+      }
+      sprintf(charFeatVal, "%d", sofaRef->second);
       featVal.setTo(icu::UnicodeString(charFeatVal));
     }
 
-- 
2.43.0


From 46866a7dfb43ec0e1b2c1bf92b8aea5199baa6cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:56 +0000
Subject: [PATCH 070/124] fix: refuse XCAS documents that use the number of a
 view that does not exist

---
 src/cas/xcasdeserializer_handler.cpp | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/cas/xcasdeserializer_handler.cpp b/src/cas/xcasdeserializer_handler.cpp
index 981731b..059f913 100644
--- a/src/cas/xcasdeserializer_handler.cpp
+++ b/src/cas/xcasdeserializer_handler.cpp
@@ -489,6 +489,10 @@ namespace uima {
     if (sofaTypeCode == heapValue) {
       // If a Sofa, create CAS view to get new indexRepository
       SofaFS sofa = (SofaFS) uima::internal::FSPromoter::promoteFS(addr, *iv_cas);
+      // the numbers of the views are consecutive, 1 being the initial view
+      if (sofa.getSofaRef() < 1 || sofa.getSofaRef() > (int)indexRepositories.size()) {
+        throwIllFormedInput(CAS::FEATURE_BASE_NAME_SOFANUM);
+      }
       //also add to indexes so we can retrieve the Sofa later
       iv_cas->getBaseIndexRepository().addFS(sofa);
       CAS * tcas = iv_cas->getView(sofa);
@@ -725,6 +729,9 @@ namespace uima {
     if (0==featName.compare(CAS::FEATURE_BASE_NAME_SOFAID)
         && sofaTypeCode == fstype) {
       int sofaNum = iv_casimpl.getHeap().getIntValue(addr, internal::gs_tySofaNumFeature);
+      if (sofaNum < 0 || sofaNum >= (int)indexMap.size()) {
+        throwIllFormedInput(CAS::FEATURE_BASE_NAME_SOFANUM);
+      }
       iv_casimpl.getHeap().setIntValue(addr, internal::gs_tySofaNumFeature, indexMap[sofaNum]);
     }
 
@@ -839,11 +846,14 @@ namespace uima {
       // Now add FS to all specified index repositories
       for (int i = 0; i < (int)fsInfo.indexRep->size(); i++) {
         lowlevel::IndexRepository *  pIndexRep;
-        if (indexMap.size() == 1) {
-          pIndexRep = indexRepositories[fsInfo.indexRep->at(i)];
-        } else {
-          pIndexRep = indexRepositories[indexMap[fsInfo.indexRep->at(i)]];
+        int index = fsInfo.indexRep->at(i);
+        if (indexMap.size() > 1) {
+          index = index >= 0 && index < (int)indexMap.size() ? indexMap[index] : -1;
+        }
+        if (index < 0 || index >= (int)indexRepositories.size()) {
+          throwIllFormedInput(INDEXED_ATTR_NAME);
         }
+        pIndexRep = indexRepositories[index];
         assert(EXISTS(pIndexRep));
         pIndexRep->add(addr);
       }
-- 
2.43.0


From 277cf95e7b15146bcd6e531138ff960dc1f61821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:56 +0000
Subject: [PATCH 071/124] fix: read XCAS references to structures that do not
 exist as null

---
 src/cas/xcasdeserializer_handler.cpp | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/cas/xcasdeserializer_handler.cpp b/src/cas/xcasdeserializer_handler.cpp
index 059f913..aaa7f0a 100644
--- a/src/cas/xcasdeserializer_handler.cpp
+++ b/src/cas/xcasdeserializer_handler.cpp
@@ -103,8 +103,8 @@ namespace uima {
 
   XCASDeserializerHandler::~XCASDeserializerHandler()   {
     if (DEBUG) std::cout << " XCASDeserializerHandler::destructor " << std::endl;
-    for (size_t i = 0; i < fsTree.size(); i++) {
-      FSInfo * fsinfo = (FSInfo*) fsTree[i];
+    for (std::map<int, FSInfo*>::iterator ite = fsTree.begin(); ite != fsTree.end(); ++ite) {
+      FSInfo * fsinfo = ite->second;
       if (fsinfo != 0) {
         delete fsinfo->indexRep;
         delete fsinfo;
@@ -291,8 +291,8 @@ namespace uima {
     //cout << " XCASDeserializerHandler::endDocument() " << endl;
 
     //update features that are FSs
-    for (size_t i = 0; i < fsTree.size(); i++) {
-      FSInfo * fsinfo = (FSInfo*) fsTree[i];
+    for (std::map<int, FSInfo*>::iterator ite = fsTree.begin(); ite != fsTree.end(); ++ite) {
+      FSInfo * fsinfo = ite->second;
       if (fsinfo != 0)
         finalizeFS(*fsinfo);
     }
@@ -885,13 +885,13 @@ namespace uima {
           //get the current feature value which is the id
           lowlevel::TyFS featVal = iv_casimpl.getHeap().getFeatureInternal(addr, featcode);
           //get the FSInfo object for that id
-          fsValInfo = (FSInfo*) fsTree[featVal];
+          std::map<int, FSInfo*>::const_iterator ite = fsTree.find(featVal);
+          fsValInfo = ite == fsTree.end() ? NULL : ite->second;
           //if there is a FSInfo
           //set the feature value of this feature to the
           //address in FSInfo else set it to NULL;
           if (fsValInfo == NULL) {
-            //nothing to do, reference value already = 0!
-            //iv_casimpl.getHeap().setFSValue(addr, featcode, (lowlevel::TyFS) 0);
+            iv_casimpl.getHeap().setFSValue(addr, featcode, lowlevel::FSHeap::INVALID_FS);
           } else {
             iv_casimpl.getHeap().setFSValue(addr, featcode, fsValInfo->addr);
           }
@@ -914,10 +914,10 @@ namespace uima {
     FSInfo * fsValInfo;
     for (int i=0; i<size; i++) {
       lowlevel::TyFS id = iv_cas->getHeap()->getHeap().getHeapValue(addr + 2 + i);
-      fsValInfo = fsTree[id];
-      if (fsValInfo != NULL) {
-        iv_cas->getHeap()->getHeap().setHeapValue(addr + 2 + i, fsValInfo->addr);
-      }
+      std::map<int, FSInfo*>::const_iterator ite = fsTree.find(id);
+      fsValInfo = ite == fsTree.end() ? NULL : ite->second;
+      iv_cas->getHeap()->getHeap().setHeapValue(addr + 2 + i,
+          fsValInfo == NULL ? lowlevel::FSHeap::INVALID_FS : fsValInfo->addr);
     }
 
   }
-- 
2.43.0


From b952803ac4361df2f7f80ec0ed66bfbe8a97ebf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:56 +0000
Subject: [PATCH 072/124] fix: refuse XCAS documents that use an identifier
 twice

---
 src/cas/xcasdeserializer_handler.cpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/cas/xcasdeserializer_handler.cpp b/src/cas/xcasdeserializer_handler.cpp
index aaa7f0a..5b0a9f5 100644
--- a/src/cas/xcasdeserializer_handler.cpp
+++ b/src/cas/xcasdeserializer_handler.cpp
@@ -268,14 +268,17 @@ namespace uima {
       // Set the document text without creating a documentAnnotation
       cas->setDocTextFromDeserializtion(UnicodeStringRef(buffer.getBuffer(), buffer.length()));
 
-      // and assume the new Sofa is at location 1!
-      int addr = 1;
+      int addr = uima::internal::FSPromoter::demoteFS(newSofa);
       int id = 1;
       sofaRefMap[id] = id;
 
       // and register the id for this Sofa
       FSInfo * fsInfo = new FSInfo(addr, new vector<int>);
 //           FSInfo * fsInfo = new FSInfo(addr, -1); //??? Should be 0 or -1 ???
+      if (fsTree.find(id) != fsTree.end()) {
+        idLess.push_back(fsInfo);
+        throwIllFormedInput(ID_ATTR_NAME);
+      }
       fsTree[id] =  fsInfo;
 
       iv_state = FS_STATE;
@@ -513,6 +516,10 @@ namespace uima {
     if (id < 0) {
       idLess.push_back(fsInfo);
     } else {
+      if (fsTree.find(id) != fsTree.end()) {
+        idLess.push_back(fsInfo);
+        throwIllFormedInput(ID_ATTR_NAME);
+      }
       fsTree[id] =  fsInfo;
     }
     iv_state = CONTENT_STATE;
@@ -572,6 +579,10 @@ namespace uima {
     if (id < 0) {
       idLess.push_back(fsInfo);
     } else {
+      if (fsTree.find(id) != fsTree.end()) {
+        idLess.push_back(fsInfo);
+        throwIllFormedInput(ID_ATTR_NAME);
+      }
       fsTree[id] =  fsInfo;
     }
     iv_state = ARRAY_ELE_STATE;
-- 
2.43.0


From 09cb00da8c52e6bcf5c059b49d4ea3d1e73c599c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:56 +0000
Subject: [PATCH 073/124] fix: refuse XCAS arrays of negative size

---
 src/cas/xcasdeserializer_handler.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/cas/xcasdeserializer_handler.cpp b/src/cas/xcasdeserializer_handler.cpp
index 5b0a9f5..c9c8cdb 100644
--- a/src/cas/xcasdeserializer_handler.cpp
+++ b/src/cas/xcasdeserializer_handler.cpp
@@ -543,6 +543,9 @@ namespace uima {
         id = atoi(UnicodeStringRef(attrValue).asUTF8().c_str());
       } else if (attrName.compare(ARRAY_SIZE_ATTR) == 0) {
         size = atoi(UnicodeStringRef(attrValue).asUTF8().c_str());
+        if (size < 0) {
+          throwIllFormedInput(attrValue);
+        }
       } else if (attrName.compare(INDEXED_ATTR_NAME)== 0) {
 //             // suppress indexing of document annotation if old CAS
 //               if (attrValue.compare(TRUE_VALUE) == 0)
-- 
2.43.0


From 467d637ac17825bbc22ed569eacec77bb45cdf01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:56 +0000
Subject: [PATCH 074/124] fix: do not assign the text of XCAS elements of
 unknown types to another structure

---
 src/cas/xcasdeserializer_handler.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cas/xcasdeserializer_handler.cpp b/src/cas/xcasdeserializer_handler.cpp
index c9c8cdb..049cd0d 100644
--- a/src/cas/xcasdeserializer_handler.cpp
+++ b/src/cas/xcasdeserializer_handler.cpp
@@ -238,7 +238,7 @@ namespace uima {
       // Set the value of the content feature.
       //if (!isAllWhitespace(buffer))
       //{
-      if (buffer.length() > 0)
+      if (buffer.length() > 0 && currentAddr != lowlevel::FSHeap::INVALID_FS)
         handleFeature(currentAddr, currentContentFeat, buffer, true);
       //}            }
       iv_state = FS_STATE;
@@ -333,6 +333,7 @@ namespace uima {
 
     if (!type.isValid() ) {
       cout << "INFO: invalid type " << typeName << endl;
+      currentAddr = lowlevel::FSHeap::INVALID_FS;
       iv_state = CONTENT_STATE;
     } else {
       if (iv_cas->getTypeSystem().isArrayType(typecode)) {
-- 
2.43.0


From 79b418b5e7a4e68cb38d09fe9c45a9344ca2f07d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:56 +0000
Subject: [PATCH 075/124] fix: take the document text of a view that has been
 read from its own sofa

---
 src/cas/cas.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/cas/cas.cpp b/src/cas/cas.cpp
index 04ce4b8..83ff9e0 100644
--- a/src/cas/cas.cpp
+++ b/src/cas/cas.cpp
@@ -1069,9 +1069,13 @@ namespace uima {
     if ( ! ait.isValid() ) {
       return;
     }
+    SofaFS thisSofa = getSofa();
+    if ( ! thisSofa.isValid() ) {
+      return;
+    }
     iv_tyDocumentAnnotation = internal::FSPromoter::demoteFS(ait.get());
     iv_uiDocumentLength = ait.get().getEndPosition();
-    uima::lowlevel::TyFS sofaAddr = iv_heap->getFSValue(iv_tyDocumentAnnotation, internal::gs_tySofaRefFeature);
+    uima::lowlevel::TyFS sofaAddr = internal::FSPromoter::demoteFS(thisSofa);
     UnicodeStringRef pDoc = iv_heap->getStringValue(sofaAddr, internal::gs_tySofaStringFeature);
     copyDocumentString(pDoc);
   }
-- 
2.43.0


From e154b65c2031846f2dd4c17cf70b929f91211712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:48 +0000
Subject: [PATCH 076/124] fix: report descriptors that cannot be decoded as
 ill-formed input

---
 src/framework/taespecifierbuilder.cpp | 39 ++++++++++++++++++++++-----
 1 file changed, 32 insertions(+), 7 deletions(-)

diff --git a/src/framework/taespecifierbuilder.cpp b/src/framework/taespecifierbuilder.cpp
index 25cc42e..af46ea1 100644
--- a/src/framework/taespecifierbuilder.cpp
+++ b/src/framework/taespecifierbuilder.cpp
@@ -73,6 +73,31 @@ namespace uima {
 
   static XMLCh gs_tempXMLChBuffer[ MAXXMLCHBUFF ];
 
+  /**
+   * Parses the input. The parser reports input it cannot read or decode by
+   * exceptions of its own.
+   */
+  static void parseInput(XercesDOMParser & rParser, InputSource const & crInputSource) {
+    ErrorMessage msg(UIMA_MSG_ID_EXC_XML_SAXPARSE_FATALERROR);
+    msg.addParam( (UChar const *) (crInputSource.getSystemId() == NULL ? XMLUni::fgZeroLenString : crInputSource.getSystemId()) );
+    msg.addParam( 0 );
+    msg.addParam( 0 );
+    try {
+      rParser.parse( crInputSource );
+      return;
+    } catch (XMLException const & e) {
+      msg.addParam( (UChar const *) e.getMessage());
+    } catch (DOMException const & e) {
+      msg.addParam( (UChar const *) e.getMessage());
+    }
+    ErrorInfo errInfo;
+    errInfo.setErrorId((TyErrorId)UIMA_ERR_RESOURCE_CORRUPTED);
+    errInfo.setMessage(msg);
+    errInfo.setSeverity(ErrorInfo::unrecoverable);
+    ExcIllFormedInputError exc(errInfo);
+    throw exc;
+  }
+
   XMLParser::XMLParser()
       :iv_pXMLErrorHandler(NULL) {}
 
@@ -150,7 +175,7 @@ namespace uima {
     parser.setErrorHandler(iv_pXMLErrorHandler);
     
     try {
-      parser.parse( crInputSource );
+      parseInput(parser, crInputSource);
     } catch (Exception e){
       if (bHasOwnErrorHandler) {
         delete iv_pXMLErrorHandler;
@@ -191,7 +216,7 @@ namespace uima {
 
     parser.setErrorHandler(iv_pXMLErrorHandler);
     try {
-      parser.parse( crInputSource );
+      parseInput(parser, crInputSource);
     } catch (Exception const & e){
       if (bHasOwnErrorHandler) {
         delete iv_pXMLErrorHandler;
@@ -236,7 +261,7 @@ namespace uima {
     }
     parser.setErrorHandler(iv_pXMLErrorHandler);
     try {
-    parser.parse( crInputSource );
+    parseInput(parser, crInputSource);
     } catch (Exception const & e){
       if (bHasOwnErrorHandler) {
         delete iv_pXMLErrorHandler;
@@ -276,7 +301,7 @@ namespace uima {
 
     parser.setErrorHandler(iv_pXMLErrorHandler);
     try {
-      parser.parse( crInputSource );
+      parseInput(parser, crInputSource);
     } catch (Exception const & e){
       if (bHasOwnErrorHandler) {
         delete iv_pXMLErrorHandler;
@@ -318,7 +343,7 @@ namespace uima {
 
     parser.setErrorHandler(iv_pXMLErrorHandler);
     try {
-    parser.parse( crInputSource );
+    parseInput(parser, crInputSource);
     } catch (Exception const & e){
       if (bHasOwnErrorHandler) {
         delete iv_pXMLErrorHandler;
@@ -1903,7 +1928,7 @@ void XMLParser::buildFSIndexFromImportLocation(AnalysisEngineMetaData& fsDesc,
 
     parser.setErrorHandler(iv_pXMLErrorHandler);
     try {
-      parser.parse( fileIS );
+      parseInput(parser, fileIS);
     } catch (Exception e) {
       if (bHasOwnErrorHandler) {
         delete iv_pXMLErrorHandler;
@@ -1984,7 +2009,7 @@ void XMLParser::buildFSIndexFromImportLocation(AnalysisEngineMetaData& fsDesc,
     }
     parser.setErrorHandler(iv_pXMLErrorHandler);
     try {
-      parser.parse( fileIS );
+      parseInput(parser, fileIS);
     } catch (Exception e) {
       if (bHasOwnErrorHandler) {
         delete iv_pXMLErrorHandler;
-- 
2.43.0


From 27a7baf62bed467108bf0bf27f3cea1084cd3edc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:48 +0000
Subject: [PATCH 077/124] fix: refuse descriptors whose root element is of
 another kind

---
 src/framework/taespecifierbuilder.cpp | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/src/framework/taespecifierbuilder.cpp b/src/framework/taespecifierbuilder.cpp
index af46ea1..a6fb805 100644
--- a/src/framework/taespecifierbuilder.cpp
+++ b/src/framework/taespecifierbuilder.cpp
@@ -73,6 +73,17 @@ namespace uima {
 
   static XMLCh gs_tempXMLChBuffer[ MAXXMLCHBUFF ];
 
+  static void throwInvalidTag(icu::UnicodeString const & crTag) {
+    ErrorMessage errMsg(UIMA_MSG_ID_EXC_UNKNOWN_CONFIG_XML_TAG);
+    errMsg.addParam(crTag);
+    errMsg.addParam(ResourceManager::getInstance().getSchemaInfo());
+    UIMA_EXC_THROW_NEW(InvalidXMLException,
+                       UIMA_ERR_CONFIG_INVALID_XML_TAG,
+                       errMsg,
+                       UIMA_MSG_ID_EXCON_BUILD_TAE_SPEC,
+                       ErrorInfo::unrecoverable);
+  }
+
   /**
    * Parses the input. The parser reports input it cannot read or decode by
    * exceptions of its own.
@@ -233,7 +244,9 @@ namespace uima {
     DOMElement * rootElem = doc->getDocumentElement();
     assert(EXISTS(rootElem));
 
-    assert( XMLString::compareString(rootElem->getNodeName(), convert(TAG_TYPE_SYSTEM_DESC)) == 0);
+    if (XMLString::compareString(rootElem->getNodeName(), convert(TAG_TYPE_SYSTEM_DESC)) != 0) {
+      throwInvalidTag(convert(rootElem->getNodeName()));
+    }
     //TypeSystemDescription * tsSpec = buildTypeSystemDesc(rootElem);
     buildTypeSystemDesc(tsDesc, rootElem);
     if (bHasOwnErrorHandler) {
@@ -370,9 +383,11 @@ namespace uima {
       DOMElement * descElem,
       const icu::UnicodeString & xmlFileLoc) {
     assert(EXISTS(descElem));
-    assert( XMLString::compareString(descElem->getNodeName(), convert(TAG_TAE_DESC)) == 0 ||
-            XMLString::compareString(descElem->getNodeName(), convert(TAG_AE_DESC)) == 0 ||
-            XMLString::compareString(descElem->getNodeName(), convert(TAG_CASCONSUMER_DESC)) == 0 );
+    if ( XMLString::compareString(descElem->getNodeName(), convert(TAG_TAE_DESC)) != 0 &&
+         XMLString::compareString(descElem->getNodeName(), convert(TAG_AE_DESC)) != 0 &&
+         XMLString::compareString(descElem->getNodeName(), convert(TAG_CASCONSUMER_DESC)) != 0 ) {
+      throwInvalidTag(convert(descElem->getNodeName()));
+    }
     //save the root node name
     if (XMLString::compareString(descElem->getNodeName(), convert(TAG_CASCONSUMER_DESC)) == 0) {
       taeSpec.setPrimitive(true);
-- 
2.43.0


From e93ea3f2f2dad20fb20ba559dde3f58ad2bbb6b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:48 +0000
Subject: [PATCH 078/124] fix: refuse engine descriptors without meta data

---
 src/framework/taespecifierbuilder.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/framework/taespecifierbuilder.cpp b/src/framework/taespecifierbuilder.cpp
index a6fb805..a4b170e 100644
--- a/src/framework/taespecifierbuilder.cpp
+++ b/src/framework/taespecifierbuilder.cpp
@@ -520,6 +520,9 @@ namespace uima {
           **/
         }
       }
+      if (! EXISTS(taeSpec.getAnalysisEngineMetaData())) {
+        throwInvalidTag(convert(descElem->getNodeName()));
+      }
     } catch (InvalidXMLException & rclException) {
       rclException.getErrorInfo().addContext(ErrorMessage(UIMA_MSG_ID_EXCON_BUILD_TAE_SPEC_FROM_FILE, xmlFileLoc));
       throw rclException;
-- 
2.43.0


From e1d81b2bfe94d276109587e105e85ae9fab7447d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:48 +0000
Subject: [PATCH 079/124] fix: refuse parameter settings that are arrays
 without elements

---
 src/framework/taespecifierbuilder.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/framework/taespecifierbuilder.cpp b/src/framework/taespecifierbuilder.cpp
index a4b170e..279da41 100644
--- a/src/framework/taespecifierbuilder.cpp
+++ b/src/framework/taespecifierbuilder.cpp
@@ -927,6 +927,9 @@ namespace uima {
         DOMNodeList * arrayEntries = child->getChildNodes();
         assert( EXISTS(arrayEntries) );
         //the type must be the same for all elements in the array
+        if (! EXISTS(findFirstElementNode(arrayEntries))) {
+          throwInvalidTag(childTag);
+        }
         nvPair.define(findTypeForValue(findFirstElementNode(arrayEntries)), ConfigurationParameter::MULTIPLE_VALUES);
         //now iterate over entries, adding the values
         size_t j;
-- 
2.43.0


From d9f5f38d6d2802d1331544fa88a0219f0ee60e4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:48 +0000
Subject: [PATCH 080/124] fix: accept references to environment variables
 without a name

---
 src/framework/taespecifierbuilder.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/framework/taespecifierbuilder.cpp b/src/framework/taespecifierbuilder.cpp
index 279da41..17007b4 100644
--- a/src/framework/taespecifierbuilder.cpp
+++ b/src/framework/taespecifierbuilder.cpp
@@ -2293,7 +2293,7 @@ void XMLParser::buildFSIndexFromImportLocation(AnalysisEngineMetaData& fsDesc,
       } else {
         const icu::UnicodeString & childTag = convert((children->item(i))->getNodeName());
         if (childTag.compare(TAG_ENV_VAR_REF) == 0) {
-          icu::UnicodeString envVarName(convert(children->item(i)->getFirstChild()->getNodeValue()));
+          icu::UnicodeString envVarName(getSpannedText(children->item(i)));
           util::EnvironmentVariableQueryOnly clEnvVar(UnicodeStringRef(envVarName).asUTF8().c_str());
           spannedText.append(clEnvVar.getValue());
         } else {
-- 
2.43.0


From d165137823db8e95d6006c726bd68d78d81ce151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:48 +0000
Subject: [PATCH 081/124] fix: refuse aggregates without flow, or whose flow
 names engines that do not exist

---
 src/framework/annotator_mgr.cpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/framework/annotator_mgr.cpp b/src/framework/annotator_mgr.cpp
index 19aa35c..eae030a 100644
--- a/src/framework/annotator_mgr.cpp
+++ b/src/framework/annotator_mgr.cpp
@@ -157,7 +157,13 @@ namespace uima {
 
       assert( ! crTAESpecifier.isPrimitive() );
       //BSIvector < icu::UnicodeString > const & crVecEngineNames = crTAESpecifier.getAnalysisEngineMetaData()->getFixedFlow()->getNodes();
-      vector < icu::UnicodeString > const & crVecEngineNames = crTAESpecifier.getAnalysisEngineMetaData()->getFlowConstraints()->getNodes();
+      FlowConstraints const * cpFlow = crTAESpecifier.getAnalysisEngineMetaData()->getFlowConstraints();
+      if (cpFlow == NULL) {
+        ErrorInfo errInfo(ErrorMessage(UIMA_MSG_ID_EXCON_VALIDATE_TAE_SPEC), UIMA_ERR_CONFIG_OBJECT_NOT_FOUND, ErrorInfo::unrecoverable);
+        rANC.getLogger().logError(errInfo);
+        return errInfo.getErrorId();
+      }
+      vector < icu::UnicodeString > const & crVecEngineNames = cpFlow->getNodes();
 
       // for all engines in the flow
       size_t ui;
@@ -168,6 +174,11 @@ namespace uima {
 
         AnnotatorContext * pDelegateANC = rANC.getDelegate(crEngineName);
         ErrorInfo errInfo;
+        if (pDelegateANC == NULL) {
+          errInfo = ErrorInfo(ErrorMessage(UIMA_MSG_ID_EXCON_VALIDATE_TAE_SPEC), UIMA_ERR_CONFIG_OBJECT_NOT_FOUND, ErrorInfo::unrecoverable);
+          rANC.getLogger().logError(errInfo);
+          return errInfo.getErrorId();
+        }
         // create a delegate TAE which owns neither the ANC, nor the TAESpecifier, nor the CAS definition
         AnalysisEngine * pEngine = Framework::createAnalysisEngine(*pDelegateANC,
                                        false,
-- 
2.43.0


From 401e7c8c0db3cb12487994ac5874230d1cfb28b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:11 +0000
Subject: [PATCH 082/124] fix: A primitive engine reports the error code its
 annotator returns from process

---
 src/framework/internal_primitive_engine.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/framework/internal_primitive_engine.cpp b/src/framework/internal_primitive_engine.cpp
index aaad5d9..1645c79 100644
--- a/src/framework/internal_primitive_engine.cpp
+++ b/src/framework/internal_primitive_engine.cpp
@@ -203,7 +203,7 @@ namespace uima {
         // link CAS to current component
         cas.setCurrentComponentInfo(&getAnnotatorContext());
         try {
-          iv_pAnnotator->processDocument(cas, crResultSpec);
+          return iv_pAnnotator->processDocument(cas, crResultSpec);
         } catch (Exception e) {
           UIMA_EXC_RETHROW(e,0);
         }
-- 
2.43.0


From a353f1745f3f46100fa0606140cbeb963b3eb694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:11 +0000
Subject: [PATCH 083/124] fix: An aggregate passes batchProcessComplete on as
 batchProcessComplete, not as collectionProcessComplete

---
 src/framework/internal_aggregate_engine.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/framework/internal_aggregate_engine.cpp b/src/framework/internal_aggregate_engine.cpp
index c0ca218..1e6f98b 100644
--- a/src/framework/internal_aggregate_engine.cpp
+++ b/src/framework/internal_aggregate_engine.cpp
@@ -211,7 +211,7 @@ namespace uima {
 
     TyErrorId AggregateEngine::batchProcessCompleteImpl(void) {
       util::Trace             clTrace(util::enTraceDetailMedium, UIMA_TRACE_ORIGIN, UIMA_TRACE_COMPID_ENGINE);
-      return iv_annotatorMgr.launchCollectionProcessComplete();
+      return iv_annotatorMgr.launchBatchProcessComplete();
     }
 
     TyErrorId AggregateEngine::collectionProcessCompleteImpl(void) {
-- 
2.43.0


From 3ff0deb2554dcd9d2a08524901c471af2784920c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:51 +0000
Subject: [PATCH 084/124] fix: Type system initialization of an engine that is
 not initialized is refused instead of dereferencing its missing annotator

---
 src/framework/internal_engine_base.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/framework/internal_engine_base.cpp b/src/framework/internal_engine_base.cpp
index 42f9f58..7ce822d 100644
--- a/src/framework/internal_engine_base.cpp
+++ b/src/framework/internal_engine_base.cpp
@@ -297,6 +297,9 @@ namespace uima {
     TyErrorId EngineBase::reinitTypeSystem() {
       try {
         util::Trace                clTrace(util::enTraceDetailLow, UIMA_TRACE_ORIGIN, UIMA_TRACE_COMPID_ENGINE);
+        if (!checkAndSetCallingSequenceReconfigure()) {
+          return logError(clTrace, UIMA_ERR_ENGINE_INVALID_CALLING_SEQUENCE);
+        }
         TyErrorId utErrorId = reinitTypeSystemImpl();
         if (utErrorId != UIMA_ERR_NONE) {
           destroy();
-- 
2.43.0


From ff74c196db1734239f6a906ed64eae74f6bcd823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:51 +0000
Subject: [PATCH 085/124] fix: A CAS iterator whose engine was destroyed has no
 next CAS instead of dereferencing its missing annotator

---
 src/framework/internal_engine_base.cpp | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/framework/internal_engine_base.cpp b/src/framework/internal_engine_base.cpp
index 7ce822d..4d2a08a 100644
--- a/src/framework/internal_engine_base.cpp
+++ b/src/framework/internal_engine_base.cpp
@@ -425,11 +425,11 @@ namespace uima {
     bool EngineBase::hasNext() {
       try {
         util::Trace                clTrace(util::enTraceDetailLow, UIMA_TRACE_ORIGIN, UIMA_TRACE_COMPID_ENGINE);
-        /** why do this ?? (bi)
+        // an engine that was destroyed has no annotator to ask
         if (!checkAndSetCallingSequenceProcess()) {
-           logError(clTrace, UIMA_ERR_ENGINE_INVALID_CALLING_SEQUENCE);
-           return false;
-        } **/
+          logError(clTrace, UIMA_ERR_ENGINE_INVALID_CALLING_SEQUENCE);
+          return false;
+        }
         return hasNextImpl();
       } catch (Exception & rclException) {
         getAnnotatorContext().getLogger().logError(rclException.getErrorInfo() );
@@ -440,10 +440,15 @@ namespace uima {
     CAS &  EngineBase::next() {
       try {
         util::Trace                clTrace(util::enTraceDetailLow, UIMA_TRACE_ORIGIN, UIMA_TRACE_COMPID_ENGINE);
-        /** why do this (bi)
+        // an engine that was destroyed has no annotator to ask
         if (!checkAndSetCallingSequenceProcess()) {
-           logError(clTrace, UIMA_ERR_ENGINE_INVALID_CALLING_SEQUENCE);
-        } **/
+          logError(clTrace, UIMA_ERR_ENGINE_INVALID_CALLING_SEQUENCE);
+          UIMA_EXC_THROW_NEW(CASIteratorException,
+                             UIMA_ERR_ENGINE_INVALID_CALLING_SEQUENCE,
+                             UIMA_MSG_ID_EXCON_CALLING_ANNOTATOR_FUNCTION,
+                             UIMA_MSG_ID_EXCON_CALLING_ANNOTATOR_FUNCTION,
+                             ErrorInfo::unrecoverable);
+        }
         return nextImpl();
       } catch (Exception & rclException) {
         getAnnotatorContext().getLogger().logError(rclException.getErrorInfo() );
-- 
2.43.0


From eea1f838dd177486864e8723b5d1383c971ff0f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:15 +0000
Subject: [PATCH 086/124] fix: View names the application uses after processing
 are no longer resolved by the mapping of the last component

---
 src/framework/internal_primitive_engine.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/framework/internal_primitive_engine.cpp b/src/framework/internal_primitive_engine.cpp
index 1645c79..aa5a7a1 100644
--- a/src/framework/internal_primitive_engine.cpp
+++ b/src/framework/internal_primitive_engine.cpp
@@ -203,9 +203,16 @@ namespace uima {
         // link CAS to current component
         cas.setCurrentComponentInfo(&getAnnotatorContext());
         try {
-          return iv_pAnnotator->processDocument(cas, crResultSpec);
+          TyErrorId utErrorId = iv_pAnnotator->processDocument(cas, crResultSpec);
+          // view names used by the application are not mapped
+          cas.setCurrentComponentInfo(NULL);
+          return utErrorId;
         } catch (Exception e) {
+          cas.setCurrentComponentInfo(NULL);
           UIMA_EXC_RETHROW(e,0);
+        } catch (...) {
+          cas.setCurrentComponentInfo(NULL);
+          throw;
         }
       }
       // if annotator should not be called is not really an error
-- 
2.43.0


From 2c4d696fa7138097e1e4b14c41f7d3327d61a80c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:15 +0000
Subject: [PATCH 087/124] fix: Sofa mappings of nested aggregates are composed,
 without rewriting the description they come from

---
 src/framework/annotator_context.cpp      | 25 ++----------------------
 src/framework/uima/annotator_context.hpp |  3 ++-
 2 files changed, 4 insertions(+), 24 deletions(-)

diff --git a/src/framework/annotator_context.cpp b/src/framework/annotator_context.cpp
index 8e3dcc6..ed18348 100644
--- a/src/framework/annotator_context.cpp
+++ b/src/framework/annotator_context.cpp
@@ -84,32 +84,11 @@ namespace uima {
           sofamap->setComponentSofaName(ustr);
         }
         SofaID * pSofaid = new SofaID();
-        pSofaid->setSofaId(sofamap->getAggregateSofaName());
+        // the aggregate's own name is itself mapped by the enclosing aggregates
+        pSofaid->setSofaId(parent->mapToSofaID(sofamap->getAggregateSofaName()).getSofaId());
         pSofaid->setComponentSofaName(sofamap->getComponentSofaName());
         icu::UnicodeString astr = sofamap->getComponentSofaName();
         iv_mapSofaMappings[astr] = pSofaid;
-
-        //if this delegate is an aggregate and has sofamapping
-        //check if somponent sofaname is specified as the
-        //aggregate sofa name in this delegate specifier
-        //if so update that aggregate sofa name
-        if (!delegateSpec->isPrimitive()) {
-          AnalysisEngineDescription::TyVecpSofaMappings delegateSofaMappings = delegateSpec->getSofaMappings();
-          if (delegateSofaMappings.size() > 0 ) {
-            AnalysisEngineDescription::TyVecpSofaMappings::const_iterator iter;
-
-            for (iter = delegateSofaMappings.begin(); iter != delegateSofaMappings.end(); ++iter) {
-              SofaMapping  * delsofamap = * iter;
-              if (delsofamap->getAggregateSofaName().compare(astr)==0) {
-                delsofamap->setAggregateSofaName(pSofaid->getSofaId());
-              }
-            }
-
-
-          }
-        }
-
-
       }
 
     }
diff --git a/src/framework/uima/annotator_context.hpp b/src/framework/uima/annotator_context.hpp
index 5b63687..92644cc 100644
--- a/src/framework/uima/annotator_context.hpp
+++ b/src/framework/uima/annotator_context.hpp
@@ -160,7 +160,8 @@ namespace uima {
       } else {
         SofaID * pSofaid = new SofaID();
         pSofaid->setComponentSofaName(componentSofaName);
-        pSofaid->setSofaId(componentSofaName);
+        // a name that is not mapped here is the enclosing aggregate's name
+        pSofaid->setSofaId(iv_pParentAnC != NULL ? iv_pParentAnC->mapToSofaID(componentSofaName).getSofaId() : componentSofaName);
         icu::UnicodeString astr = pSofaid->getComponentSofaName();
         iv_mapSofaMappings[astr] = pSofaid;
         return *pSofaid;
-- 
2.43.0


From a5e4fbb0940bb1b408fd13611232f1706cfa9348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:57 +0000
Subject: [PATCH 088/124] fix: Outputs declared for the unspecified language
 count for every language even when no inputs are declared for it

---
 src/framework/internal_capability_container.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/framework/internal_capability_container.cpp b/src/framework/internal_capability_container.cpp
index 238cdb5..0e99435 100644
--- a/src/framework/internal_capability_container.cpp
+++ b/src/framework/internal_capability_container.cpp
@@ -270,13 +270,17 @@ namespace uima {
             }
           }
         }
+      }
 
-        // Now do the same copying for the output
+      // Now do the same copying for the output
 
-        // if it is in the input it must be in the output too
-        assert(findOutputTOFs(Language(Language::UNSPECIFIED)) != NULL);
-        assert(EXISTS(iv_psetOutputTOFsForUnspecifiedLang));
+      // if it is in the input it must be in the output too
+      assert(findOutputTOFs(Language(Language::UNSPECIFIED)) != NULL);
+      assert(EXISTS(iv_psetOutputTOFsForUnspecifiedLang));
 
+      // the outputs do not depend on whether there are inputs
+      if (iv_psetOutputTOFsForUnspecifiedLang->size() != 0) {
+        TyMapLang2TypeOrFeatures::iterator it;
         for (it = iv_mapLang2OutputTypesOrFeatures.begin(); it != iv_mapLang2OutputTypesOrFeatures.end(); ++it) {
           if (&(*it).second != iv_psetOutputTOFsForUnspecifiedLang) { // don't append onto ourselves
             if ((*it).second.size() > 0) { // don't append to empty
-- 
2.43.0


From 91f6b44e824a82a5093ba4a038725ba508506409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:23 +0000
Subject: [PATCH 089/124] fix: A CAS pool takes back only CASes it has handed
 out, whichever view they are released by

---
 src/framework/caspool.cpp | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/framework/caspool.cpp b/src/framework/caspool.cpp
index 78e966e..957b53f 100644
--- a/src/framework/caspool.cpp
+++ b/src/framework/caspool.cpp
@@ -113,9 +113,19 @@ namespace uima {
 
   void CASPool::releaseCAS(CAS & aCas) {
 
-    aCas.reset();
-    iv_vecFreeInstances.push_back(&aCas);
-    return;
+    // any view stands for its CAS; only a CAS of this pool that is checked out can be checked in
+    for (size_t i=0; i < iv_vecFreeInstances.size(); i++) {
+      if (iv_vecFreeInstances[i]->getBaseCas() == aCas.getBaseCas()) {
+        return;
+      }
+    }
+    for (size_t i=0; i < iv_vecAllInstances.size(); i++) {
+      if (iv_vecAllInstances[i]->getBaseCas() == aCas.getBaseCas()) {
+        iv_vecAllInstances[i]->reset();
+        iv_vecFreeInstances.push_back(iv_vecAllInstances[i]);
+        return;
+      }
+    }
   }
 
 } //namespace
-- 
2.43.0


From c1f15d0265ced75f0d1aedbf501cbc336dc02077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:47 +0000
Subject: [PATCH 090/124] fix: Language codes with an x are valid

---
 src/framework/language.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/framework/language.cpp b/src/framework/language.cpp
index 77bf025..f46fdf0 100644
--- a/src/framework/language.cpp
+++ b/src/framework/language.cpp
@@ -74,7 +74,7 @@ namespace uima {
   Language::init( const char * cpszLanguageCode ) {
     // Check that have 2 chars (a-z) or 2 such pairs separated by - or _
 
-    static const char legalChars[] = "abcdefghijklmnopqrstuvwzyz";
+    static const char legalChars[] = "abcdefghijklmnopqrstuvwxyz";
 
     memset(iv_locale, '\0', 6);                           // Start with all 0's
     memset(iv_lang,   '\0', 3);
-- 
2.43.0


From 92f81ec871d2b8223f38bcc6568010be08d12ca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:47 +0000
Subject: [PATCH 091/124] fix: Language codes with characters outside of ASCII
 or NUL are invalid instead of being cut off there

---
 src/framework/language.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/framework/language.cpp b/src/framework/language.cpp
index f46fdf0..a423759 100644
--- a/src/framework/language.cpp
+++ b/src/framework/language.cpp
@@ -109,7 +109,10 @@ namespace uima {
 
   void
   Language::_initFromString( const string & crstrLanguageCode ) {
-    init(crstrLanguageCode.c_str());
+    if (strlen(crstrLanguageCode.c_str()) != crstrLanguageCode.length())
+      init(INVALID);                                      // Contains a NUL
+    else
+      init(crstrLanguageCode.c_str());
   }
 
   void
@@ -117,8 +120,11 @@ namespace uima {
     size_t const MAX_LEN = 32;
     char buff[MAX_LEN];
     size_t uiLen = min(MAX_LEN-1, (size_t)crustrLanguageCode.length());
-    // this conversion does invariant chars only but it is fast
-    u_UCharsToChars(crustrLanguageCode.getBuffer(), buff, uiLen);
+    for (size_t i = 0; i < uiLen; ++i) {
+      // only ASCII characters are legal
+      UChar uc = crustrLanguageCode.getBuffer()[i];
+      buff[i] = (uc > 0 && uc < 0x80) ? (char) uc : '?';
+    }
     // zero terminate buffer
     buff[uiLen] = char(0);
     init(buff);
-- 
2.43.0


From d3abbc4c5824de4a95bf4958f087618456afd718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:47 +0000
Subject: [PATCH 092/124] fix: Define UnicodeStringRef::countChar32, which was
 only declared

---
 src/framework/unistrref.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/framework/unistrref.cpp b/src/framework/unistrref.cpp
index 32598ae..692f87f 100644
--- a/src/framework/unistrref.cpp
+++ b/src/framework/unistrref.cpp
@@ -261,6 +261,11 @@ namespace uima {
     return -1;
   }
 
+  int32_t UnicodeStringRef::countChar32(int32_t start, int32_t length) const {
+    pinIndices(start, length);
+    return u_countChar32(getBuffer() + start, length);
+  }
+
   int32_t UnicodeStringRef::moveIndex32(int32_t index, int32_t delta) const {
     icu::UnicodeString s((UBool)false, getBuffer(), length());
     return s.moveIndex32(index, delta);
-- 
2.43.0


From 2c106dffab6baa49129a67a43e1e3b0c4b3679dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:36 +0000
Subject: [PATCH 093/124] fix: Pin negative positions and lengths to the text
 of a UnicodeStringRef as well

---
 src/framework/uima/unistrref.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/framework/uima/unistrref.hpp b/src/framework/uima/unistrref.hpp
index dcb6bd6..9ea6892 100644
--- a/src/framework/uima/unistrref.hpp
+++ b/src/framework/uima/unistrref.hpp
@@ -1576,10 +1576,14 @@ namespace uima {
   UnicodeStringRef::pinIndices(int32_t& start,
                                int32_t& length) const {
     // pin indices
-    if (start > iv_uiLength) {
+    if (start < 0) {
+      start = 0;
+    } else if (start > iv_uiLength) {
       start = iv_uiLength;
     }
-    if (length > (iv_uiLength - start)) {
+    if (length < 0) {
+      length = 0;
+    } else if (length > (iv_uiLength - start)) {
       length = (iv_uiLength - start);
     }
   }
-- 
2.43.0


From 225c7ece2df2ee4b5781712593a33b9ac3ae8fed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:36 +0000
Subject: [PATCH 094/124] fix: UnicodeStringRef::operator== compares the text
 after a NUL as well

---
 src/framework/uima/unistrref.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/framework/uima/unistrref.hpp b/src/framework/uima/unistrref.hpp
index 9ea6892..d849e30 100644
--- a/src/framework/uima/unistrref.hpp
+++ b/src/framework/uima/unistrref.hpp
@@ -1554,7 +1554,7 @@ namespace uima {
     if (iv_uiLength != crclRHS.iv_uiLength) {
       return false;
     }
-    return u_strncmp(iv_pUChars, crclRHS.iv_pUChars, iv_uiLength) == 0;
+    return u_memcmp(iv_pUChars, crclRHS.iv_pUChars, iv_uiLength) == 0;
   }
 
   inline int
-- 
2.43.0


From f8a7f60e55627c2d7bebb8bbadbdbe77fbab10b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:36 +0000
Subject: [PATCH 095/124] fix: Compare a UnicodeStringRef without a buffer like
 the empty text it stands for

---
 src/framework/unistrref.cpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/framework/unistrref.cpp b/src/framework/unistrref.cpp
index 692f87f..7d34a57 100644
--- a/src/framework/unistrref.cpp
+++ b/src/framework/unistrref.cpp
@@ -50,14 +50,14 @@ namespace uima {
                                const UChar *srcChars,
                                int32_t srcStart,
                                int32_t srcLength) const {
-    // compare illegal string values
-    if (srcChars==0) {
-      return 1;
-    }
-
     // pin indices to legal values
     pinIndices(start, length);
 
+    // no text is the same as an empty one
+    if (srcChars==0) {
+      return length > 0;
+    }
+
     // get the correct pointer
     const UChar *chars = getBuffer();
 
@@ -119,13 +119,13 @@ namespace uima {
       const UChar *srcChars,
       int32_t srcStart,
       int32_t srcLength) const {
-    if (srcChars==NULL) {
-      return 1;
-    }
-
     // pin indices to legal values
     pinIndices(start, length);
 
+    if (srcChars==NULL) {
+      return length > 0;
+    }
+
     int32_t diff = u_strncmpCodePointOrder(getBuffer() + start, srcChars + srcStart, min(length, srcLength));
     /* translate the 32-bit result into an 8-bit one */
     if (diff!=0) {
-- 
2.43.0


From f0a6f4c91d6a726560d2e4b216a3236386b2f15c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:36 +0000
Subject: [PATCH 096/124] fix: Code point comparison takes the lengths and the
 text after a NUL into account

---
 src/framework/unistrref.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/framework/unistrref.cpp b/src/framework/unistrref.cpp
index 7d34a57..615bd69 100644
--- a/src/framework/unistrref.cpp
+++ b/src/framework/unistrref.cpp
@@ -126,7 +126,7 @@ namespace uima {
       return length > 0;
     }
 
-    int32_t diff = u_strncmpCodePointOrder(getBuffer() + start, srcChars + srcStart, min(length, srcLength));
+    int32_t diff = u_strCompare(getBuffer() + start, length, srcChars + srcStart, srcLength, 1);
     /* translate the 32-bit result into an 8-bit one */
     if (diff!=0) {
       return (int8_t)(diff >> 15 | 1);
-- 
2.43.0


From 17425ef37dfd32f21c65e1ef28b926bc2a740b44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:36 +0000
Subject: [PATCH 097/124] fix: Case comparison and extraction pin the range to
 the text

---
 src/framework/uima/unistrref.hpp | 2 ++
 src/framework/unistrref.cpp      | 3 ++-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/framework/uima/unistrref.hpp b/src/framework/uima/unistrref.hpp
index d849e30..82dbb96 100644
--- a/src/framework/uima/unistrref.hpp
+++ b/src/framework/uima/unistrref.hpp
@@ -2079,6 +2079,7 @@ namespace uima {
   UnicodeStringRef::extract(int32_t start,
                             int32_t length,
                             icu::UnicodeString& target) const {
+    pinIndices(start, length);
     target.replace(0, target.length(), getBuffer(), start, length);
   }
 // Replaces all of target by substring of src
@@ -2182,6 +2183,7 @@ namespace uima {
                                   int32_t srcStart,
                                   int32_t srcLength,
                                   uint32_t options) const {
+    pinIndices(start, length);
     icu::UnicodeString s(iv_pUChars+start, (int32_t)length);
     return s.caseCompare(srcChars + srcStart, (int32_t)srcLength, options);
   }
diff --git a/src/framework/unistrref.cpp b/src/framework/unistrref.cpp
index 615bd69..6e94376 100644
--- a/src/framework/unistrref.cpp
+++ b/src/framework/unistrref.cpp
@@ -300,7 +300,8 @@ namespace uima {
                                     int32_t startLength,
                                     std::string & target,
                                     const char *codepage) const {
-    if (length() == 0) {
+    pinIndices(start, startLength);
+    if (startLength == 0) {
       target.clear();
       return 0;
     }
-- 
2.43.0


From 9dff709a1a5cd54ffbf9402f97f9b9603ec6f6bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:37 +0000
Subject: [PATCH 098/124] fix: Ranges of the text compared with or searched for
 are pinned to that text

---
 src/framework/uima/unistrref.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/framework/uima/unistrref.hpp b/src/framework/uima/unistrref.hpp
index 82dbb96..07395ed 100644
--- a/src/framework/uima/unistrref.hpp
+++ b/src/framework/uima/unistrref.hpp
@@ -1674,6 +1674,7 @@ namespace uima {
                               const UnicodeStringRef& srcText,
                               int32_t srcStart,
                               int32_t srcLength) const {
+    srcText.pinIndices(srcStart, srcLength);
     const UChar *srcChars = srcText.getBuffer();
     return doCompare(start, length, srcChars, srcStart, srcLength);
   }
@@ -1737,6 +1738,7 @@ namespace uima {
       const UnicodeStringRef& srcText,
       int32_t srcStart,
       int32_t srcLength) const {
+    srcText.pinIndices(srcStart, srcLength);
     const UChar *srcChars = srcText.getBuffer();
     return doCompareCodePointOrder(start, length, srcChars, srcStart, srcLength);
   }
@@ -1806,6 +1808,7 @@ namespace uima {
                                   int32_t srcStart,
                                   int32_t srcLength,
                                   uint32_t options) const {
+    srcText.pinIndices(srcStart, srcLength);
     const UChar *srcChars = srcText.getBuffer();
     return doCaseCompare(start, length, srcChars, srcStart, srcLength, options);
   }
@@ -1834,6 +1837,7 @@ namespace uima {
                             int32_t srcLength,
                             int32_t start,
                             int32_t length) const {
+    srcText.pinIndices(srcStart, srcLength);
     return indexOf(srcText.getBuffer(), srcStart, srcLength, start, length);
   }
 
@@ -1933,6 +1937,7 @@ namespace uima {
                                 int32_t srcLength,
                                 int32_t start,
                                 int32_t length) const {
+    srcText.pinIndices(srcStart, srcLength);
     return lastIndexOf(srcText.getBuffer(), srcStart, srcLength, start, length);
   }
 
@@ -2017,6 +2022,7 @@ namespace uima {
   UnicodeStringRef::startsWith(const UnicodeStringRef& srcText,
                                int32_t srcStart,
                                int32_t srcLength) const {
+    srcText.pinIndices(srcStart, srcLength);
     return doCompare(0, srcLength, srcText, srcStart, srcLength) == 0;
   }
 
@@ -2043,6 +2049,7 @@ namespace uima {
   UnicodeStringRef::endsWith(const UnicodeStringRef& srcText,
                              int32_t srcStart,
                              int32_t srcLength) const {
+    srcText.pinIndices(srcStart, srcLength);
     return doCompare(iv_uiLength - srcLength, srcLength,
                      srcText, srcStart, srcLength) == 0;
   }
-- 
2.43.0


From 90c66eff7102e174937752c54e2de0a59d151372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:37 +0000
Subject: [PATCH 099/124] fix: extractUTF8 of text with unpaired surrogates no
 longer uses an unset length

---
 src/framework/unistrref.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/framework/unistrref.cpp b/src/framework/unistrref.cpp
index 6e94376..4f31ca2 100644
--- a/src/framework/unistrref.cpp
+++ b/src/framework/unistrref.cpp
@@ -353,11 +353,12 @@ namespace uima {
     int32_t len;
 
     UErrorCode err = U_ZERO_ERROR;
-    u_strToUTF8(buf, STACK_BUF_SIZE, &len, getBuffer(), length(), &err);
+    // unpaired surrogates have no UTF-8 form
+    u_strToUTF8WithSub(buf, STACK_BUF_SIZE, &len, getBuffer(), length(), 0xFFFD, NULL, &err);
     if ( err == U_BUFFER_OVERFLOW_ERROR || err == U_STRING_NOT_TERMINATED_WARNING ) {
       buf = heapBuf = new char [len+1];
       err = U_ZERO_ERROR;
-      u_strToUTF8(buf, len+1, &len, getBuffer(), length(), &err);
+      u_strToUTF8WithSub(buf, len+1, &len, getBuffer(), length(), 0xFFFD, NULL, &err);
     }
 
     target.assign(buf, len);                   // Copy the result to the string
-- 
2.43.0


From a21793ad9e4dea8d990eb83d156a8ec2585d211b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:37 +0000
Subject: [PATCH 100/124] fix: Trimming a string of white space only no longer
 reads before it

---
 src/framework/uima/strtools.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/framework/uima/strtools.hpp b/src/framework/uima/strtools.hpp
index 4b769ab..f3b4eba 100644
--- a/src/framework/uima/strtools.hpp
+++ b/src/framework/uima/strtools.hpp
@@ -1227,14 +1227,14 @@ namespace uima {
       return s;
     }
     size_t beg = 0;
-    size_t end = s.length()-1;
-    while (end >= beg && isspace_templ(s[end]) ) {
+    size_t end = s.length();
+    while (end > beg && isspace_templ(s[end-1]) ) {
       --end;
     }
     while (beg < end && isspace_templ(s[beg]) ) {
       ++beg;
     }
-    return s.substr(beg, end-beg+1);
+    return s.substr(beg, end-beg);
   }
 
   /*---------------------------------------------------------------------------*/
-- 
2.43.0


From 544b20d7c2932dfd3c5d221eb1f08d48461d6875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:26 +0000
Subject: [PATCH 101/124] fix: Code point comparison of a UnicodeStringRef
 without a buffer takes it as empty text

---
 src/framework/unistrref.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/framework/unistrref.cpp b/src/framework/unistrref.cpp
index 4f31ca2..888908e 100644
--- a/src/framework/unistrref.cpp
+++ b/src/framework/unistrref.cpp
@@ -125,6 +125,9 @@ namespace uima {
     if (srcChars==NULL) {
       return length > 0;
     }
+    if (getBuffer()==NULL) {
+      return srcLength > 0 ? -1 : 0;
+    }
 
     int32_t diff = u_strCompare(getBuffer() + start, length, srcChars + srcStart, srcLength, 1);
     /* translate the 32-bit result into an 8-bit one */
-- 
2.43.0


From a0a5521475b9ff480304dccf2bb3f23719435350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:38 +0000
Subject: [PATCH 102/124] fix: isParameterDefined without a group looks in the
 default group, where the value is read from

---
 src/framework/taespecifier.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/framework/taespecifier.cpp b/src/framework/taespecifier.cpp
index e7d4c62..4e07ff3 100644
--- a/src/framework/taespecifier.cpp
+++ b/src/framework/taespecifier.cpp
@@ -502,6 +502,10 @@ namespace uima {
   **/
   bool AnalysisEngineMetaData::isParameterDefined(const icu::UnicodeString & paramName,
       const icu::UnicodeString & ancKey) const {
+    // as for the values, a name without a group is looked up in the default group
+    if (hasGroups() && hasDefaultGroup()) {
+      return isParameterDefined(getDefaultGroupName(), paramName, ancKey);
+    }
     return isParameterDefined(CONFIG_GROUP_NAME_WHEN_NO_GROUPS, paramName, ancKey);
   }
   /**
-- 
2.43.0


From d43d8444e3cfaa4a1622be9135642f657f57f151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:30 +0000
Subject: [PATCH 103/124] fix: A value is assigned only at an enclosing
 aggregate whose parameter overrides this one

---
 src/framework/annotator_context.cpp      | 20 ++++++++++++++------
 src/framework/uima/annotator_context.hpp |  6 ++++--
 2 files changed, 18 insertions(+), 8 deletions(-)

diff --git a/src/framework/annotator_context.cpp b/src/framework/annotator_context.cpp
index ed18348..eedf8fb 100644
--- a/src/framework/annotator_context.cpp
+++ b/src/framework/annotator_context.cpp
@@ -503,11 +503,15 @@ namespace uima {
     return pValueLocal;
   }
 
-  TyErrorId AnnotatorContext::setNameValuePair(const NameValuePair & nvPair) {
-
+  TyErrorId AnnotatorContext::setNameValuePair(const NameValuePair & nvPair,
+      const icu::UnicodeString & ancKey) {
     TyErrorId errId=UIMA_ERR_CONFIG_INVALID_PARAM_NAME;
+    // the value must be set where findNameValuePair looks for it
+    if (! iv_pTaeSpecifier->getAnalysisEngineMetaData()->isParameterDefined(nvPair.getName(), ancKey)) {
+      return errId;
+    }
     if (EXISTS(iv_pParentAnC)) {
-      errId = iv_pParentAnC->setNameValuePair(nvPair);
+      errId = iv_pParentAnC->setNameValuePair(nvPair, iv_AnCKey);
     }
 
     if (errId != UIMA_ERR_NONE) {//there's either no parent or the nvPair couldn't be set at the parent
@@ -517,11 +521,15 @@ namespace uima {
   }
 
   TyErrorId AnnotatorContext::setNameValuePair(const icu::UnicodeString & groupName,
-      const NameValuePair & nvPair) {
-
+      const NameValuePair & nvPair,
+      const icu::UnicodeString & ancKey) {
     TyErrorId errId=UIMA_ERR_CONFIG_INVALID_PARAM_NAME;
+    // the value must be set where findNameValuePair looks for it
+    if (! iv_pTaeSpecifier->getAnalysisEngineMetaData()->isParameterDefined(groupName, nvPair.getName(), ancKey)) {
+      return errId;
+    }
     if (EXISTS(iv_pParentAnC)) {
-      errId = iv_pParentAnC->setNameValuePair(groupName, nvPair);
+      errId = iv_pParentAnC->setNameValuePair(groupName, nvPair, iv_AnCKey);
     }
 
     if (errId != UIMA_ERR_NONE) {//there's either no parent or the nvPair couldn't be set at the parent
diff --git a/src/framework/uima/annotator_context.hpp b/src/framework/uima/annotator_context.hpp
index 92644cc..35b579e 100644
--- a/src/framework/uima/annotator_context.hpp
+++ b/src/framework/uima/annotator_context.hpp
@@ -421,7 +421,8 @@ namespace uima {
     * If not, it tries to set it in its own AnalysisEngineDescription.
     * @see AnalysisEngineDescription::setNameValuePair
     **/
-    TyErrorId setNameValuePair(const NameValuePair & nvPair);
+    TyErrorId setNameValuePair(const NameValuePair & nvPair,
+                               const icu::UnicodeString & ancKey="");
 
     /**
     * Sets nvPair in group groupName of the parent (or one of its ancestors), if possible.
@@ -429,7 +430,8 @@ namespace uima {
     * @see AnalysisEngineDescription::setNameValuePair
     **/
     TyErrorId setNameValuePair(const icu::UnicodeString & groupName,
-                               const NameValuePair & nvPair);
+                               const NameValuePair & nvPair,
+                               const icu::UnicodeString & ancKey="");
 
     LogFacility * iv_pLogger;
     AnnotatorContext * iv_pParentAnC;
-- 
2.43.0


From e5026a0a4373fba71d86616af7ac0b5ba502079e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:11 +0000
Subject: [PATCH 104/124] fix: A fallback search strategy no longer makes
 parameters without groups unreadable

---
 src/framework/taespecifier.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/framework/taespecifier.cpp b/src/framework/taespecifier.cpp
index 4e07ff3..8e81cd1 100644
--- a/src/framework/taespecifier.cpp
+++ b/src/framework/taespecifier.cpp
@@ -472,6 +472,11 @@ namespace uima {
       vector < icu::UnicodeString> & fallbackGroups) {
     int i;
     bool cutOffPossible;
+
+    // without groups there is nothing to fall back to
+    if (! hasGroups()) {
+      return;
+    }
     switch (strategy) {
     case NONE:
       //nothing to be done
-- 
2.43.0


From 95ff646f1d6ec7c993b645824ea7ac3bfa616292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:13 +0000
Subject: [PATCH 105/124] fix: read the text of CDATA sections in descriptors

---
 src/framework/taespecifierbuilder.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/framework/taespecifierbuilder.cpp b/src/framework/taespecifierbuilder.cpp
index 17007b4..fca1802 100644
--- a/src/framework/taespecifierbuilder.cpp
+++ b/src/framework/taespecifierbuilder.cpp
@@ -2288,7 +2288,8 @@ void XMLParser::buildFSIndexFromImportLocation(AnalysisEngineMetaData& fsDesc,
     icu::UnicodeString spannedText;
     size_t i;
     for (i=0; i < children->getLength(); i++) {
-      if (children->item(i)->getNodeType() == DOMNode::TEXT_NODE) {
+      if (children->item(i)->getNodeType() == DOMNode::TEXT_NODE
+          || children->item(i)->getNodeType() == DOMNode::CDATA_SECTION_NODE) {
         spannedText.append(convert(children->item(i)->getNodeValue()));
       } else {
         const icu::UnicodeString & childTag = convert((children->item(i))->getNodeName());
-- 
2.43.0


From 0ee6f8e89ec65b8645a9fd9cbd6bee88d28c3d29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:13 +0000
Subject: [PATCH 106/124] fix: escape the texts written into descriptors

---
 src/framework/taespecifier.cpp | 93 ++++++++++++++++++----------------
 1 file changed, 50 insertions(+), 43 deletions(-)

diff --git a/src/framework/taespecifier.cpp b/src/framework/taespecifier.cpp
index 8e81cd1..7de660d 100644
--- a/src/framework/taespecifier.cpp
+++ b/src/framework/taespecifier.cpp
@@ -679,6 +679,13 @@ namespace uima {
     }
   }
 
+  // append text as the content of an element or the value of an attribute
+  static void appendText(icu::UnicodeString const & text, icu::UnicodeString & s) {
+    icu::UnicodeString out;
+    XMLWriterABase::normalize(UnicodeStringRef(text), out);
+    s.append(out);
+  }
+
   void appendCapabilities(Capability::TyVecCapabilityTofs const & v, char const * xmlTag, icu::UnicodeString & s) {
     size_t i;
     for (i=0; i<v.size(); ++i) {
@@ -686,7 +693,7 @@ namespace uima {
       s.append(xmlTag);
       s.append(">");
 
-      s.append(v[i]);
+      appendText(v[i], s);
 
       s.append("</");
       s.append(xmlTag);
@@ -701,7 +708,7 @@ namespace uima {
       s.append(xmlTag);
       s.append(">");
 
-      s.append(v[i]);
+      appendText(v[i], s);
 
       s.append("</");
       s.append(xmlTag);
@@ -737,10 +744,10 @@ namespace uima {
       ConfigurationParameter const * confParam = configParams[i];
       s.append("<configurationParameter>");
       s.append("<name>");
-      s.append(confParam->getName());
+      appendText(confParam->getName(), s);
       s.append("</name>");
       s.append("<description>");
-      s.append(confParam->getDescription());
+      appendText(confParam->getDescription(), s);
       s.append("</description>");
       s.append("<type>");
       ConfigurationParameter::EnParameterType paramType = confParam->getType();
@@ -778,7 +785,7 @@ namespace uima {
       NameValuePair const * nvp = nvps[i];
       s.append("<nameValuePair>");
       s.append("<name>");
-      s.append( nvp->getName() );
+      appendText(nvp->getName(), s);
       s.append("</name>");
 
       s.append("<value>");
@@ -819,7 +826,7 @@ namespace uima {
             vector<icu::UnicodeString> const & v = nvp->extractStringValues();
             for (j=0; j<v.size(); ++j) {
               s.append("<string>");
-              s.append(v[j]);
+              appendText(v[j], s);
               s.append("</string>");
             }
             break;
@@ -855,7 +862,7 @@ namespace uima {
         case ConfigurationParameter::STRING: {
             icu::UnicodeString const & v = nvp->extractStringValue();
             s.append("<string>");
-            s.append(v);
+            appendText(v, s);
             s.append("</string>");
             break;
           }
@@ -884,10 +891,10 @@ namespace uima {
       FSIndexDescription const * ixDesc = ixVec[i];
       s.append("<fsIndexDescription>");
       s.append("<label>");
-      s.append(ixDesc->getLabel());
+      appendText(ixDesc->getLabel(), s);
       s.append("</label>");
       s.append("<typeName>");
-      s.append(ixDesc->getTypeName());
+      appendText(ixDesc->getTypeName(), s);
       s.append("</typeName>");
       s.append("<kind>");
       FSIndexDescription::EnIndexKind ixKind = ixDesc->getIndexKind();
@@ -916,7 +923,7 @@ namespace uima {
             s.append("<typePriority/>");
           } else {
               s.append("<featureName>");
-              s.append(ixKeyDesc->getFeatureName());
+              appendText(ixKeyDesc->getFeatureName(), s);
               s.append("</featureName>");
 
               s.append("<comparator>");
@@ -960,7 +967,7 @@ namespace uima {
         for ( j = 0; j < vecTypeOrder.size();  ++j) {
 
           s.append("<type>");
-          s.append(vecTypeOrder[j]);
+          appendText(vecTypeOrder[j], s);
           s.append("</type>");
         }
         s.append("</priorityList>");
@@ -980,15 +987,15 @@ namespace uima {
       for (i=0; i<sofamappingVec.size(); ++i) {
         s.append("<sofaMapping>");
         s.append("<componentKey>");
-        s.append(sofamappingVec[i]->getComponentKey());
+        appendText(sofamappingVec[i]->getComponentKey(), s);
         s.append("</componentKey>");
 
         s.append("<componentSofaName>");
-        s.append(sofamappingVec[i]->getComponentSofaName());
+        appendText(sofamappingVec[i]->getComponentSofaName(), s);
         s.append("</componentSofaName>");
 
         s.append("<aggregateSofaName>");
-        s.append(sofamappingVec[i]->getAggregateSofaName());
+        appendText(sofamappingVec[i]->getAggregateSofaName(), s);
         s.append("</aggregateSofaName>");
 
         s.append("</sofaMapping>");
@@ -1009,7 +1016,7 @@ namespace uima {
 
       if (md.hasDefaultGroup()) {
         s.append(" defaultGroup=\"");
-        s.append( md.iv_defaultGroup );
+        appendText(md.iv_defaultGroup, s);
         s.append("\"");
       }
 
@@ -1039,7 +1046,7 @@ namespace uima {
           s.append("<commonParameters>");
         } else {
           s.append("<configurationGroup names=\"");
-          s.append(confGroupName);
+          appendText(confGroupName, s);
           s.append("\">");
         }
 
@@ -1077,7 +1084,7 @@ namespace uima {
         SettingsForGroup const & settings = (*cit).second;
 
         s.append("<settingsForGroup name=\"");
-        s.append(groupName);
+        appendText(groupName, s);
         s.append("\">");
         appendConfigGroupSettingsToXMLBuffer(settings, s);
         s.append("</settingsForGroup>");
@@ -1129,7 +1136,7 @@ namespace uima {
 
     if (isCasConsumer) {
       s.append("<implementationName>");
-      s.append(getAnnotatorImpName());
+      appendText(getAnnotatorImpName(), s);
       s.append("</implementationName>");
     }
     // primitive
@@ -1142,7 +1149,7 @@ namespace uima {
       if (isPrimitive()) {
         // annotator implementation
         s.append("<annotatorImplementationName>");
-        s.append(getAnnotatorImpName());
+        appendText(getAnnotatorImpName(), s);
         s.append("</annotatorImplementationName>");
       } else {
         // delegates
@@ -1151,7 +1158,7 @@ namespace uima {
         TyMapDelegateSpecs::const_iterator cit;
         for (cit = delegates.begin(); cit != delegates.end(); ++cit) {
           s.append("<delegateAnalysisEngine key=\"");
-          s.append( (*cit).first );
+          appendText((*cit).first, s);
           s.append("\">");
           icu::UnicodeString delBuf;
           (*cit).second->toXMLBufferNoXMLHeader(delBuf);
@@ -1171,15 +1178,15 @@ namespace uima {
         for (i=0; i<sofamappingVec.size(); ++i) {
           s.append("<sofaMapping>");
           s.append("<componentKey>");
-          s.append(sofamappingVec[i]->getComponentKey());
+          appendText(sofamappingVec[i]->getComponentKey(), s);
           s.append("</componentKey>");
 
           s.append("<componentSofaName>");
-          s.append(sofamappingVec[i]->getComponentSofaName());
+          appendText(sofamappingVec[i]->getComponentSofaName(), s);
           s.append("</componentSofaName>");
 
           s.append("<aggregateSofaName>");
-          s.append(sofamappingVec[i]->getAggregateSofaName());
+          appendText(sofamappingVec[i]->getAggregateSofaName(), s);
           s.append("</aggregateSofaName>");
 
           s.append("</sofaMapping>");
@@ -1224,7 +1231,7 @@ namespace uima {
 
     //   version
     s.append("<version>");
-    s.append( md.getVersion() );
+    appendText(md.getVersion(), s);
     s.append("</version>");
 
     //   vendor
@@ -1241,7 +1248,7 @@ namespace uima {
 
       if (md.hasDefaultGroup()) {
         s.append(" defaultGroup=\"");
-        s.append( md.iv_defaultGroup );
+        appendText(md.iv_defaultGroup, s);
         s.append("\"");
       }
 
@@ -1271,7 +1278,7 @@ namespace uima {
           s.append("<commonParameters>");
         } else {
           s.append("<configurationGroup names=\"");
-          s.append(confGroupName);
+          appendText(confGroupName, s);
           s.append("\">");
         }
 
@@ -1309,7 +1316,7 @@ namespace uima {
         SettingsForGroup const & settings = (*cit).second;
 
         s.append("<settingsForGroup name=\"");
-        s.append(groupName);
+        appendText(groupName, s);
         s.append("\">");
         appendConfigGroupSettingsToXMLBuffer(settings, s);
         s.append("</settingsForGroup>");
@@ -1339,7 +1346,7 @@ namespace uima {
       vector<icu::UnicodeString> const & v = flow->getNodes();
       for (i=0; i<v.size(); ++i) {
         s.append("<node>");
-        s.append(v[i]);
+        appendText(v[i], s);
         s.append("</node>");
       }
       if (flow->getFlowConstraintsType() == FlowConstraints::FIXED) {
@@ -1363,7 +1370,7 @@ namespace uima {
         for ( j = 0; j < vecTypeOrder.size();  ++j) {
 
           s.append("<type>");
-          s.append(vecTypeOrder[j]);
+          appendText(vecTypeOrder[j], s);
           s.append("</type>");
         }
         s.append("</priorityList>");
@@ -1382,11 +1389,11 @@ namespace uima {
           ImportDescription const * pImport = importVec[i];
           if ( pImport->getName().length() > 0) {
             s.append("<import name=\"");
-            s.append(pImport->getName());
+            appendText(pImport->getName(), s);
             s.append("\"/>");
           } else {
             s.append("<import location=\"");
-            s.append(pImport->getLocation());
+            appendText(pImport->getLocation(), s);
             s.append("\"/>");
           }
         }
@@ -1397,7 +1404,7 @@ namespace uima {
           TypeDescription const * td = tdVec[i];
           s.append("<typeDescription>");
           s.append("<name>");
-          s.append(td->getName());
+          appendText(td->getName(), s);
           s.append("</name>");
 
           s.append("<description>");
@@ -1407,7 +1414,7 @@ namespace uima {
           s.append("</description>");
 
           s.append("<supertypeName>");
-          s.append(td->getSuperTypeName());
+          appendText(td->getSuperTypeName(), s);
           s.append("</supertypeName>");
 
           TypeDescription::TyVecpFeatureDescriptions const & fdVec = td->getFeatureDescriptions();
@@ -1417,7 +1424,7 @@ namespace uima {
               FeatureDescription const * fs = fdVec[j];
               s.append("<featureDescription>");
               s.append("<name>");
-              s.append(fs->getName());
+              appendText(fs->getName(), s);
               s.append("</name>");
               s.append("<description>");
               out.setTo("");
@@ -1425,11 +1432,11 @@ namespace uima {
               s.append(out);
               s.append("</description>");
               s.append("<rangeTypeName>");
-              s.append(fs->getRangeTypeName());
+              appendText(fs->getRangeTypeName(), s);
               s.append("</rangeTypeName>");
               if (0 < fs->getElementType().length() ) {
                 s.append("<elementType>");
-                s.append(fs->getElementType());
+                appendText(fs->getElementType(), s);
                 s.append("</elementType>");
               }
               if (fs->isMultipleReferencesAllowed() ) {
@@ -1449,7 +1456,7 @@ namespace uima {
               AllowedValue const * value = allowVec[j];
               s.append("<value>");
               s.append("<string>");
-              s.append(value->getName());
+              appendText(value->getName(), s);
               s.append("</string>");
               s.append("<description>");
               out.setTo("");
@@ -1476,11 +1483,11 @@ namespace uima {
         ImportDescription const * pImport = ixImportVec[i];
         if ( pImport->getName().length() > 0) {
           s.append("<import name=\"");
-          s.append(pImport->getName());
+          appendText(pImport->getName(), s);
           s.append("\"/>");
         } else {
           s.append("<import location=\"");
-          s.append(pImport->getLocation());
+          appendText(pImport->getLocation(), s);
           s.append("\"/>");
         }
       }
@@ -1494,10 +1501,10 @@ namespace uima {
       FSIndexDescription const * ixDesc = ixVec[i];
       s.append("<fsIndexDescription>");
       s.append("<label>");
-      s.append(ixDesc->getLabel());
+      appendText(ixDesc->getLabel(), s);
       s.append("</label>");
       s.append("<typeName>");
-      s.append(ixDesc->getTypeName());
+      appendText(ixDesc->getTypeName(), s);
       s.append("</typeName>");
       s.append("<kind>");
       FSIndexDescription::EnIndexKind ixKind = ixDesc->getIndexKind();
@@ -1526,7 +1533,7 @@ namespace uima {
             s.append("<typePriority/>");
           } else {
             s.append("<featureName>");
-            s.append(ixKeyDesc->getFeatureName());
+            appendText(ixKeyDesc->getFeatureName(), s);
             s.append("</featureName>");
 
             s.append("<comparator>");
@@ -1583,7 +1590,7 @@ namespace uima {
       Capability::TyVecCapabilityLanguages const & suppLangVec = cap->getSupportedLanguages();
       for (j=0; j<suppLangVec.size(); ++j) {
         s.append("<language>");
-        s.append(suppLangVec[j]);
+        appendText(suppLangVec[j], s);
         s.append("</language>");
       }
       s.append("</languagesSupported>");
-- 
2.43.0


From 8b8bb93e3539a3c7f79a2952cf52bd4b7a4913c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:50 +0000
Subject: [PATCH 107/124] fix: write the restrictions of parameter overrides
 into descriptors

---
 src/framework/taespecifier.cpp      | 11 +++++++++++
 src/framework/uima/config_param.hpp |  6 +++---
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/framework/taespecifier.cpp b/src/framework/taespecifier.cpp
index 7de660d..0d11dd8 100644
--- a/src/framework/taespecifier.cpp
+++ b/src/framework/taespecifier.cpp
@@ -774,6 +774,17 @@ namespace uima {
       s.append("<mandatory>");
       appendBool(confParam->isMandatory(), s);
       s.append("</mandatory>");
+      vector<icu::UnicodeString> const & restrictions = confParam->getRestrictions();
+      if (restrictions.size() > 0) {
+        s.append("<restrictOverrideTo>");
+        for (size_t j=0; j<restrictions.size(); ++j) {
+          if (j > 0) {
+            s.append(" ");
+          }
+          appendText(restrictions[j], s);
+        }
+        s.append("</restrictOverrideTo>");
+      }
       s.append("</configurationParameter>");
     }
   }
diff --git a/src/framework/uima/config_param.hpp b/src/framework/uima/config_param.hpp
index f552377..5cbef89 100644
--- a/src/framework/uima/config_param.hpp
+++ b/src/framework/uima/config_param.hpp
@@ -153,9 +153,9 @@ namespace uima {
     * setting this parameter. If the vector is empty, all delegates
     * are possibly affected.
     **/
-    /*       const std::vector<icu::UnicodeString> & getRestrictions() const{ */
-    /*          return iv_vecRestrictedToDelegates;                           */
-    /*       }                                                                */
+    const std::vector<icu::UnicodeString> & getRestrictions() const {
+      return iv_vecRestrictedToDelegates;
+    }
 
   private:
     icu::UnicodeString iv_name;
-- 
2.43.0


From ab0e8f067644691fa8b3e3e5722bef5667caa30b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:50 +0000
Subject: [PATCH 108/124] fix: write float settings with their full precision

---
 src/framework/taespecifier.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/framework/taespecifier.cpp b/src/framework/taespecifier.cpp
index 0d11dd8..1130bb4 100644
--- a/src/framework/taespecifier.cpp
+++ b/src/framework/taespecifier.cpp
@@ -726,7 +726,7 @@ namespace uima {
 
   void appendFloat(float f, icu::UnicodeString & s) {
     char c[256];
-    sprintf(c, "%f", f);
+    sprintf(c, "%.9g", f);
     s.append(c);
   }
 
-- 
2.43.0


From f91abc6c093cb501298a8eb8e17d5a118cead40f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:25 +0000
Subject: [PATCH 109/124] fix: write aggregates that have no flow constraints

---
 src/framework/taespecifier.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/framework/taespecifier.cpp b/src/framework/taespecifier.cpp
index 1130bb4..b1f0b68 100644
--- a/src/framework/taespecifier.cpp
+++ b/src/framework/taespecifier.cpp
@@ -1345,9 +1345,9 @@ namespace uima {
     s.append("</configurationParameterSettings>");
 
     // flow constraints
-    if (!isPrimitive()) {
+    FlowConstraints const * pFlow = md.getFlowConstraints();
+    if (!isPrimitive() && pFlow != NULL) {
       s.append("<flowConstraints>");
-      FlowConstraints const * pFlow = md.getFlowConstraints();
       FlowConstraints * flow = CONST_CAST(FlowConstraints *, pFlow);
       if (flow->getFlowConstraintsType() == FlowConstraints::FIXED) {
         s.append("<fixedFlow>");
-- 
2.43.0


From 1d04a992c59fbf033f8853d50d6aac9de41b86c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:33 +0000
Subject: [PATCH 110/124] fix: a component whose groups have no parameters of
 their own has groups

---
 src/framework/taespecifier.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/framework/taespecifier.cpp b/src/framework/taespecifier.cpp
index b1f0b68..18a8b0c 100644
--- a/src/framework/taespecifier.cpp
+++ b/src/framework/taespecifier.cpp
@@ -203,6 +203,7 @@ namespace uima {
     }
     TyConfigGroup::iterator ite = iv_configurationGroups.find(groupName);
     if (ite == iv_configurationGroups.end()) {
+      iv_hasGroups = true;
       iv_configurationGroups [groupName] = ConfigurationGroup();
       return UIMA_ERR_NONE;
     } else {
-- 
2.43.0


From 686528d13152d6df331e41ed10d34f481e2fb6d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:44 +0000
Subject: [PATCH 111/124] fix: looking up an imported file overran the buffer
 for its name

---
 src/framework/resmgr.cpp | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/src/framework/resmgr.cpp b/src/framework/resmgr.cpp
index 111ff0e..8a186ce 100644
--- a/src/framework/resmgr.cpp
+++ b/src/framework/resmgr.cpp
@@ -796,14 +796,16 @@ namespace uima {
   }
 
   icu::UnicodeString ResourceManager::resolveFilename(icu::UnicodeString const & filename, icu::UnicodeString const & lastFilename) {
-    auto_array<char> filename_cstr( new char[filename.length() + 1] );
-    filename.extract(0, filename.length(), filename_cstr.get());
+    // a character may need several bytes
+    std::string filename_str;
+    UnicodeStringRef(filename).extract(filename_str);
+    char const * filename_cstr = filename_str.c_str();
 
-    auto_array<char> lastFilename_cstr( new char[lastFilename.length() + 1] );
-    lastFilename.extract(0, lastFilename.length(), lastFilename_cstr.get());
+    std::string lastFilename_str;
+    UnicodeStringRef(lastFilename).extract(lastFilename_str);
 
     //build the filename
-    util::Filename fileLoc(filename_cstr.get());
+    util::Filename fileLoc(filename_cstr);
 
     // don't try our search mimic for absolute paths
     if (fileLoc.isAbsolute()) {
@@ -816,8 +818,8 @@ namespace uima {
     }
 
     // try in the same directory as lastFilename
-    util::Filename locSameDirAsLast(lastFilename_cstr.get());
-    locSameDirAsLast.setNewName(filename_cstr.get());
+    util::Filename locSameDirAsLast(lastFilename_str.c_str());
+    locSameDirAsLast.setNewName(filename_cstr);
 
     if (locSameDirAsLast.isExistent()) {
       return locSameDirAsLast.getAsCString();
@@ -827,7 +829,7 @@ namespace uima {
     util::Location const & fallbackLoc = ResourceManager::getInstance().getLocationData();
 
     std::string nameInDataDir( fallbackLoc.getAsCString() );
-    nameInDataDir += filename_cstr.get();
+    nameInDataDir += filename_cstr;
     util::Filename fileInDataDir( nameInDataDir.c_str() );
     fileInDataDir.normalizeAbsolute();                // Normalize to native / or \ separators
     if (fileInDataDir.isExistent()) {
@@ -837,7 +839,7 @@ namespace uima {
     nameInDataDir.clear();
     nameInDataDir = fallbackLoc.getAsCString();
     nameInDataDir += "descriptors/";
-    nameInDataDir += filename_cstr.get();
+    nameInDataDir += filename_cstr;
     fileInDataDir.setNew(nameInDataDir.c_str());
     fileInDataDir.normalizeAbsolute();
     if (fileInDataDir.isExistent()) {
@@ -847,7 +849,7 @@ namespace uima {
     nameInDataDir.clear();
     nameInDataDir = fallbackLoc.getAsCString();
     nameInDataDir += "specifiers/";
-    nameInDataDir += filename_cstr.get();
+    nameInDataDir += filename_cstr;
     fileInDataDir.setNew(nameInDataDir.c_str());
     fileInDataDir.normalizeAbsolute();
     if (fileInDataDir.isExistent()) {
-- 
2.43.0


From 01a3df9f73e207ac2157ed1aa934a010c379245f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:19 +0000
Subject: [PATCH 112/124] fix: descriptions importing each other by locations
 like ./b.xml were read over and over

---
 src/framework/resmgr.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/framework/resmgr.cpp b/src/framework/resmgr.cpp
index 8a186ce..2852d78 100644
--- a/src/framework/resmgr.cpp
+++ b/src/framework/resmgr.cpp
@@ -807,14 +807,19 @@ namespace uima {
     //build the filename
     util::Filename fileLoc(filename_cstr);
 
+    // The result is an absolute name without "." and ".." parts, so that the
+    // same file gets the same name however it is referred to.
+
     // don't try our search mimic for absolute paths
     if (fileLoc.isAbsolute()) {
-      return filename;
+      fileLoc.normalizeAbsolute();
+      return icu::UnicodeString(fileLoc.getAsCString());
     }
 
     // relative path to the current directory
     if (fileLoc.isExistent()) {
-      return filename;
+      fileLoc.normalizeAbsolute();
+      return icu::UnicodeString(fileLoc.getAsCString());
     }
 
     // try in the same directory as lastFilename
@@ -822,7 +827,8 @@ namespace uima {
     locSameDirAsLast.setNewName(filename_cstr);
 
     if (locSameDirAsLast.isExistent()) {
-      return locSameDirAsLast.getAsCString();
+      locSameDirAsLast.normalizeAbsolute();
+      return icu::UnicodeString(locSameDirAsLast.getAsCString());
     }
 
     // try in the UIMACPP data directory
-- 
2.43.0


From c9ea03e3100ccd2442384db014731c6ef09b9dc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:05 +0000
Subject: [PATCH 113/124] fix: XCAS writers in different threads do not share
 the current view

---
 src/cas/xmlwriter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cas/xmlwriter.cpp b/src/cas/xmlwriter.cpp
index 22da1a8..2f45174 100644
--- a/src/cas/xmlwriter.cpp
+++ b/src/cas/xmlwriter.cpp
@@ -58,7 +58,6 @@ XERCES_CPP_NAMESPACE_USE
 char const * gs_cpszFSTagName = "fs";
 char const * gs_cpszFeatTagName = "feat";
 char const * gs_cpszXslFileName = "fsdump.xsl";
-int sofa;
 
 /* ----------------------------------------------------------------------- */
 /*       Forward declarations                                              */
@@ -692,6 +691,7 @@ namespace uima {
 //       }
 
     int numViews = casp->getNumViews();
+    int sofa = 0;
     set<FeatureStructure> referencedFSs;
     for (int view=0; view<=numViews; view++) {
       if (view==0) {
-- 
2.43.0


From 12cab5495383e6b068be1487230d41fe5243a9e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:23 +0000
Subject: [PATCH 114/124] fix: descriptors can be parsed in several threads

---
 src/framework/taespecifierbuilder.cpp      | 7 ++-----
 src/framework/uima/taespecifierbuilder.hpp | 3 +++
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/framework/taespecifierbuilder.cpp b/src/framework/taespecifierbuilder.cpp
index fca1802..bfc340c 100644
--- a/src/framework/taespecifierbuilder.cpp
+++ b/src/framework/taespecifierbuilder.cpp
@@ -65,14 +65,11 @@
 #include "uima/envvar.hpp"
 
 #include "uima/msg.h"
-#define MAXXMLCHBUFF 512
 using namespace std;
 namespace uima {
 
   UIMA_EXC_CLASSIMPLEMENT(InvalidXMLException, uima::Exception);
 
-  static XMLCh gs_tempXMLChBuffer[ MAXXMLCHBUFF ];
-
   static void throwInvalidTag(icu::UnicodeString const & crTag) {
     ErrorMessage errMsg(UIMA_MSG_ID_EXC_UNKNOWN_CONFIG_XML_TAG);
     errMsg.addParam(crTag);
@@ -2266,9 +2263,9 @@ void XMLParser::buildFSIndexFromImportLocation(AnalysisEngineMetaData& fsDesc,
   }
 
   XMLCh const * XMLParser::convert(char const * cpBuf) const {
-    bool bTranscodeSuccess = XMLString::transcode( cpBuf, gs_tempXMLChBuffer, MAXXMLCHBUFF -1 );
+    bool bTranscodeSuccess = XMLString::transcode( cpBuf, iv_tempXMLChBuffer, MAXXMLCHBUFF -1 );
     assert( bTranscodeSuccess );
-    return gs_tempXMLChBuffer;
+    return iv_tempXMLChBuffer;
   }
 
   icu::UnicodeString XMLParser::convert( XMLCh const * cpUCBuf ) const {
diff --git a/src/framework/uima/taespecifierbuilder.hpp b/src/framework/uima/taespecifierbuilder.hpp
index 9a6fc20..bb33556 100644
--- a/src/framework/uima/taespecifierbuilder.hpp
+++ b/src/framework/uima/taespecifierbuilder.hpp
@@ -257,6 +257,9 @@ namespace uima {
 
   private:
     ErrorHandler * iv_pXMLErrorHandler;
+    enum { MAXXMLCHBUFF = 512 };
+    // the last constant converted by this parser
+    mutable XMLCh iv_tempXMLChBuffer[ MAXXMLCHBUFF ];
 	bool doSchemaValidation;
 	TCHAR * schemaFileName;
    
-- 
2.43.0


From 50041a63ecdcc91295989fd9061fc467fde4ebdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:01 +0000
Subject: [PATCH 115/124] fix: type systems can be read from XML in several
 threads

---
 src/cas/xmltypesystemreader.cpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/cas/xmltypesystemreader.cpp b/src/cas/xmltypesystemreader.cpp
index ec43b58..6e823d5 100644
--- a/src/cas/xmltypesystemreader.cpp
+++ b/src/cas/xmltypesystemreader.cpp
@@ -95,12 +95,19 @@ namespace uima {
   };
 
 
-  static XMLCh gs_tempXMLChBuffer[ MAXXMLCHBUFF ];
+  // a converted constant, which lives as long as the expression it is used in
+  struct TempXMLCh {
+    XMLCh iv_chars[ MAXXMLCHBUFF ];
+    operator XMLCh const * () const {
+      return iv_chars;
+    }
+  };
 
-  XMLCh const * convert(char const * cpBuf) {
-    bool bTranscodeSuccess = XMLString::transcode( cpBuf, gs_tempXMLChBuffer, MAXXMLCHBUFF -1 );
+  static TempXMLCh convert(char const * cpBuf) {
+    TempXMLCh result;
+    bool bTranscodeSuccess = XMLString::transcode( cpBuf, result.iv_chars, MAXXMLCHBUFF -1 );
     assert( bTranscodeSuccess );
-    return gs_tempXMLChBuffer;
+    return result;
   }
 
   icu::UnicodeString convert( XMLCh const * cpUCBuf ) {
-- 
2.43.0


From ba97175fa5d20d43b34d20b74c26f18eee7b8f92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:52 +0000
Subject: [PATCH 116/124] fix: annotators can be loaded in several threads

---
 src/framework/resmgr.cpp | 29 +++++++++++++++++++++++++++--
 1 file changed, 27 insertions(+), 2 deletions(-)

diff --git a/src/framework/resmgr.cpp b/src/framework/resmgr.cpp
index 2852d78..fbb30c6 100644
--- a/src/framework/resmgr.cpp
+++ b/src/framework/resmgr.cpp
@@ -35,6 +35,8 @@
 //#define DEBUG_VERBOSE
 #include "uima/resmgr.hpp"
 #include "apr.h"
+#include "apr_pools.h"
+#include "apr_thread_mutex.h"
 
 /* ----------------------------------------------------------------------- */
 /*       Implementation dependencies                                       */
@@ -130,6 +132,20 @@ namespace uima {
   /* see docu for class ResourceManagerAutomaticInstanceDestructor above */
   static ResourceManagerAutomaticInstanceDestructor gs_clResourceManagerAutomaticInstanceDestructor;
 
+  // the cached resources are used by one thread at a time
+  static apr_pool_t         * gs_resourcePool = 0;
+  static apr_thread_mutex_t * gs_resourceMutex = 0;
+
+  class ResourceLock {
+  public:
+    ResourceLock() {
+      apr_thread_mutex_lock(gs_resourceMutex);
+    }
+    ~ResourceLock() {
+      apr_thread_mutex_unlock(gs_resourceMutex);
+    }
+  };
+
   /* ----------------------------------------------------------------------- */
   /*       Function declarations                                             */
   /* ----------------------------------------------------------------------- */
@@ -450,7 +466,7 @@ namespace uima {
 //      assertWithMsg(false, "Implement caching functionality");
     icu::UnicodeString const & crKind = crFactory.getKind();
     UIMA_TPRINT("Creating resource with kind " << crKind << " and key " << crKey);
-    // acquire mutex lock
+    ResourceLock lock;
 
     TyResourceList & rResList = iv_resources[crKind];
     ResourceABase * pResource = NULL;
@@ -472,7 +488,6 @@ namespace uima {
       }
       rResList.push_back(pResource);
     }
-    // release mutex lock
     UIMA_TPRINT("...resource created: " << pResource);
     assert( EXISTS( pResource ) );
     return pResource;
@@ -623,6 +638,12 @@ namespace uima {
 
       // First must initialize apr (re-init is OK)
       apr_status_t rv = apr_initialize();
+      if (rv == APR_SUCCESS) {
+        rv = apr_pool_create(&gs_resourcePool, NULL);
+      }
+      if (rv == APR_SUCCESS) {
+        rv = apr_thread_mutex_create(&gs_resourceMutex, APR_THREAD_MUTEX_NESTED, gs_resourcePool);
+      }
       if (rv != APR_SUCCESS) {
         char errBuf[256];
         apr_strerror(rv, errBuf, sizeof(errBuf));
@@ -727,6 +748,10 @@ namespace uima {
       delete cv_pclSingletonInstance;
       cv_pclSingletonInstance = 0;
 
+      apr_pool_destroy(gs_resourcePool);
+      gs_resourcePool = 0;
+      gs_resourceMutex = 0;
+
       // Terminate apr (undo matching apr_initialize)
       apr_terminate();
 //#if !defined( NDEBUG ) && defined(_MSC_VER) && defined(_CRTDBG_MAP_ALLOC)   
-- 
2.43.0


From b4f3a0c061e34f2229b0c1626e75261066555be0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:13 +0000
Subject: [PATCH 117/124] fix: error messages longer than 4096 characters
 overran their buffer

---
 src/framework/exceptions.cpp | 40 +++++++-----------------------------
 1 file changed, 7 insertions(+), 33 deletions(-)

diff --git a/src/framework/exceptions.cpp b/src/framework/exceptions.cpp
index bf6b084..ef731ba 100644
--- a/src/framework/exceptions.cpp
+++ b/src/framework/exceptions.cpp
@@ -198,7 +198,8 @@ namespace uima {
 
     // Check for unknown message id
     if (iv_utMsgId < 0 || iv_utMsgId > UIMA_MSG_ID_SIGNATURE_END) {
-      return string("Unknown message id " + iv_utMsgId);
+      string s;
+      return "Unknown message id " + long2String((long) iv_utMsgId, s);
     }
 
     //parameter substitution
@@ -207,27 +208,15 @@ namespace uima {
     const TCHAR ** messages = gs_aszMessageStringTable;
     const TCHAR * msg = messages[iv_utMsgId];
 
-    TCHAR * buf = new TCHAR[UIMA_MSG_MAX_STR_LEN];
-    memset(buf,'\0',UIMA_MSG_MAX_STR_LEN);
-
-    int numwritten=0;
-
-    TCHAR * trg = buf;
+    string target;
     while (*msg) {
-      if (numwritten > UIMA_MSG_MAX_STR_LEN) {
-        break;
-      }
       if (*msg == UIMA_MSG_REPLACE_CHAR) {
         msg = msg+1;
         if (*msg == UIMA_MSG_REPLACE_CHAR) {
-          *trg = *msg;
-          trg = trg +1;
-          ;
+          target += *msg;
           msg = msg+1;
-          numwritten++;
         } else {  //replace %n with the corresponding param
           unsigned long index;
-          int len;
           string arg;
           // determine the number of the specified argument ...
           index = (unsigned long) atol(msg);
@@ -239,34 +228,19 @@ namespace uima {
             arg = iv_vecParams[index - 1]; // zero-based array!
             //assert(arg.length() > 0);
           }
-          len = arg.length();
           // ... and then copy the argument
-          if (UIMA_MSG_MAX_STR_LEN-numwritten < len) {
-            len = UIMA_MSG_MAX_STR_LEN - numwritten;
-          }
-          if (len > 0) {
-            strncpy(trg, arg.c_str(), len);
-            trg = trg+len;
-          }
+          target += arg;
           msg = msg+1;
           while ( isdigit(*msg) ) { //handle arg number 10 or more
             msg = msg+1;
           }
         }
       } else {
-        *trg = *msg;
-        trg = trg+1;
+        target += *msg;
         msg = msg+1;
       }
     }
-    //cout << buf << endl;
-   string target(buf);
-   delete[] buf ;
-   return target;
-	 //string target;
-	 //target.assign(buf, UIMA_MSG_MAX_STR_LEN);                   // Copy the result to the string
-   //delete buf;
-	 //return target;
+    return target;
   }
 
   ostream &
-- 
2.43.0


From fb4c32a7cee208f9906ff9a80dc32bfb4c8c18c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:13 +0000
Subject: [PATCH 118/124] fix: errors in XML documents reported addresses
 instead of the document and the cause

---
 src/framework/exceptions.cpp      | 8 ++++++++
 src/framework/uima/exceptions.hpp | 4 ++++
 2 files changed, 12 insertions(+)

diff --git a/src/framework/exceptions.cpp b/src/framework/exceptions.cpp
index ef731ba..b38ab2b 100644
--- a/src/framework/exceptions.cpp
+++ b/src/framework/exceptions.cpp
@@ -158,6 +158,14 @@ namespace uima {
     iv_vecParams.push_back(double2String(dParam1, s));
   }
 
+  void ErrorMessage::addParam(const UChar * cpuszParam) {
+    string s;
+    if (cpuszParam != NULL) {
+      UnicodeStringRef(cpuszParam).extract(s);           // Convert to default encoding for platform
+    }
+    iv_vecParams.push_back(s);
+  }
+
 ///Constructor with a full parameter vector
   ErrorMessage::ErrorMessage(
     TyMessageId           utMsgId,
diff --git a/src/framework/uima/exceptions.hpp b/src/framework/uima/exceptions.hpp
index f340113..5d3993f 100644
--- a/src/framework/uima/exceptions.hpp
+++ b/src/framework/uima/exceptions.hpp
@@ -178,6 +178,10 @@ namespace uima {
       message << p;
       iv_vecParams.push_back(message.str());
 	}
+	void addParam(const UChar * cpuszParam);
+	void addParam(UChar * cpuszParam) {
+	  addParam((const UChar *) cpuszParam);
+	}
     /*------------------------- Attributes --------------------------------*/
     ///accessor for the message id
     TyMessageId                   getMessageID() const {
-- 
2.43.0


From 9bbbf34e87dfc6591e10a05532268c8ff7d8271e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:04 +0000
Subject: [PATCH 119/124] fix: large unsigned numbers were reported as negative
 ones

---
 src/framework/exceptions.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/framework/exceptions.cpp b/src/framework/exceptions.cpp
index b38ab2b..564c0e6 100644
--- a/src/framework/exceptions.cpp
+++ b/src/framework/exceptions.cpp
@@ -120,8 +120,7 @@ namespace uima {
   ) :
       iv_utMsgId(utMsgId) {
     assert( iv_utMsgId != 0 );
-    string s;
-    iv_vecParams.push_back(long2String((int) uiParam1, s));
+    addParam(uiParam1);
   }
 
 
@@ -143,8 +142,7 @@ namespace uima {
   ) :
       iv_utMsgId(utMsgId) {
     assert( iv_utMsgId != 0 );
-    string s;
-    iv_vecParams.push_back(long2String((long) ulParam1, s));
+    addParam(ulParam1);
   }
 
 ///Constructor with a single double parameter
-- 
2.43.0


From 0cddddd29d3d9bc072de661ef64979dfcc82fe20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:59 +0000
Subject: [PATCH 120/124] fix: log messages of engines carried no origin

---
 src/framework/log.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/framework/log.cpp b/src/framework/log.cpp
index a408b78..0ada0a4 100644
--- a/src/framework/log.cpp
+++ b/src/framework/log.cpp
@@ -245,11 +245,11 @@ namespace uima {
       iv_logStream(*this, LogStream::EnMessage),
       vecLoggers(ResourceManager::getInstance().getLoggers()),
       iv_logLevel(ResourceManager::getInstance().getLoggingLevel()) {
+   UnicodeStringRef ref(crEngineName);
+   ref.extract(iv_strOrigin, CCSID::getDefaultName()  );
    if (logPool == NULL) {
       apr_status_t rv = apr_pool_create( &logPool,NULL );
       if ( rv == APR_SUCCESS ) {
-        UnicodeStringRef ref(crEngineName);
-        ref.extract(iv_strOrigin, CCSID::getDefaultName()  );
         apr_thread_mutex_create(&logMutex,APR_THREAD_MUTEX_UNNESTED, logPool);
       } else {
         UIMA_EXC_THROW_NEW(ExcOutOfMemory,
@@ -268,11 +268,11 @@ namespace uima {
       vecLoggers(ResourceManager::getInstance().getLoggers()),
       iv_logLevel(crLoggingLevel) {
 
+    UnicodeStringRef ref(crEngineName);
+    ref.extract(iv_strOrigin, CCSID::getDefaultName()  );
     if (logPool == NULL) {
       apr_status_t rv = apr_pool_create( &logPool,NULL );
       if ( rv == APR_SUCCESS ) {
-        UnicodeStringRef ref(crEngineName);
-        ref.extract(iv_strOrigin, CCSID::getDefaultName()  );
         apr_thread_mutex_create(&logMutex,APR_THREAD_MUTEX_UNNESTED, logPool);
       } else {
         UIMA_EXC_THROW_NEW(ExcOutOfMemory,
-- 
2.43.0


From 3c07492660f6aaf860a004fd54431cfbcbd9316a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:59 +0000
Subject: [PATCH 121/124] fix: unflushed text of a log stream was logged twice,
 and as an entry of the next type

---
 src/framework/log.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/framework/log.cpp b/src/framework/log.cpp
index 0ada0a4..97df6ed 100644
--- a/src/framework/log.cpp
+++ b/src/framework/log.cpp
@@ -221,13 +221,12 @@ namespace uima {
   LogStream & LogStream::flush() {
     this->stringstream::flush();
     iv_pLogFacility->flushLogStream();
-    str("");
     return (*this);
   }
 
   LogStream & LogFacility::getLogStream(LogStream::EnEntryType enLogEntryType) {
-    iv_logStream.iv_enLogEntryType = enLogEntryType;
     flushLogStream();
+    iv_logStream.iv_enLogEntryType = enLogEntryType;
     return iv_logStream;
   }
 
@@ -236,6 +235,7 @@ namespace uima {
     if (strMsg.size() == 0) {
       return;
     }
+    iv_logStream.str("");
     log(iv_logStream.iv_enLogEntryType, strMsg.c_str());
   }
 
-- 
2.43.0


From b04d437ffd23e49086e361ec4dbe206538375b7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:59 +0000
Subject: [PATCH 122/124] fix: a logger that throws left the log locked for
 ever

---
 src/framework/log.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/framework/log.cpp b/src/framework/log.cpp
index 97df6ed..ff862e0 100644
--- a/src/framework/log.cpp
+++ b/src/framework/log.cpp
@@ -152,8 +152,13 @@ namespace uima {
     string method="";
     if (isLoggable(enType)) {
       for (int i=0; i < vecLoggers.size(); i++) {
-        vecLoggers.at(i)->log(enType,this->iv_strOrigin,
+        try {
+          vecLoggers.at(i)->log(enType,this->iv_strOrigin,
                                      method,cpszMsg,lUserCode);
+        } catch (...) {
+          apr_thread_mutex_unlock(logMutex);
+          throw;
+        }
       }
     }
     apr_thread_mutex_unlock(logMutex);
-- 
2.43.0


From 04848db5caa53aa750d7bc150cf3f14623d85eb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:59 +0000
Subject: [PATCH 123/124] fix: logging used a destroyed lock after the resource
 manager was deleted and created again

---
 src/framework/log.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/framework/log.cpp b/src/framework/log.cpp
index ff862e0..b921b07 100644
--- a/src/framework/log.cpp
+++ b/src/framework/log.cpp
@@ -51,6 +51,12 @@
 const size_t                  UIMA_LOG_STATIC_CONVERSION_BUFSIZE = 1024;
 static apr_pool_t         * logPool=0;
 static apr_thread_mutex_t * logMutex=0;
+// the pool goes with APR when the ResourceManager is deleted
+static apr_status_t forgetLogPool(void *) {
+  logPool = 0;
+  logMutex = 0;
+  return APR_SUCCESS;
+}
 using namespace std;
 /* ----------------------------------------------------------------------- */
 /*       Forward declarations                                              */
@@ -255,6 +261,7 @@ namespace uima {
    if (logPool == NULL) {
       apr_status_t rv = apr_pool_create( &logPool,NULL );
       if ( rv == APR_SUCCESS ) {
+        apr_pool_cleanup_register(logPool, NULL, forgetLogPool, apr_pool_cleanup_null);
         apr_thread_mutex_create(&logMutex,APR_THREAD_MUTEX_UNNESTED, logPool);
       } else {
         UIMA_EXC_THROW_NEW(ExcOutOfMemory,
@@ -278,6 +285,7 @@ namespace uima {
     if (logPool == NULL) {
       apr_status_t rv = apr_pool_create( &logPool,NULL );
       if ( rv == APR_SUCCESS ) {
+        apr_pool_cleanup_register(logPool, NULL, forgetLogPool, apr_pool_cleanup_null);
         apr_thread_mutex_create(&logMutex,APR_THREAD_MUTEX_UNNESTED, logPool);
       } else {
         UIMA_EXC_THROW_NEW(ExcOutOfMemory,
-- 
2.43.0


From dc2353eb78b3e0d69fd30048d57ac314f9371204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:59 +0000
Subject: [PATCH 124/124] fix: asking for the text of the last error replaced
 that error

---
 src/framework/log.cpp      | 4 ++--
 src/framework/uima/log.hpp | 1 +
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/framework/log.cpp b/src/framework/log.cpp
index b921b07..88e310c 100644
--- a/src/framework/log.cpp
+++ b/src/framework/log.cpp
@@ -308,8 +308,8 @@ namespace uima {
     if (errInfo.getErrorId() == UIMA_ERR_NONE) {
       return (NULL);
     }
-    pclThis->iv_strLastError = getLastError().asString();
-    return(iv_strLastError.c_str());
+    pclThis->iv_strLastErrorAsCStr = errInfo.asString();
+    return(iv_strLastErrorAsCStr.c_str());
   }
 
   ErrorInfo const & LogFacility::getLastError() const {
diff --git a/src/framework/uima/log.hpp b/src/framework/uima/log.hpp
index 4f0e56f..2b27a9e 100644
--- a/src/framework/uima/log.hpp
+++ b/src/framework/uima/log.hpp
@@ -262,6 +262,7 @@ namespace uima {
     /* --- variables --- */
     std::string       iv_strOrigin;
     std::string       iv_strLastError;
+    std::string       iv_strLastErrorAsCStr;
     long              iv_lLastUserCode;
     ErrorInfo         iv_errInfo;
     LogStream         iv_logStream;
-- 
2.43.0

