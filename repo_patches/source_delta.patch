From 4ca409547b13838ffabc09eaecb508a43f7c3a8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:30 +0000
Subject: [PATCH 001/115] fix: SofaFS and AnnotationFS accessors refuse invalid
 handles like FeatureStructure does

---
 src/cas/cas.cpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/cas/cas.cpp b/src/cas/cas.cpp
index 521cc8f..8c7e878 100644
--- a/src/cas/cas.cpp
+++ b/src/cas/cas.cpp
@@ -1188,6 +1188,7 @@ namespace uima {
 
   void SofaFS::setSofaMime(icu::UnicodeString const & aString) {
     //TODO FAIL THIS IF MIME ALREADY SET ???
+    checkValidity(UIMA_MSG_ID_EXCON_SETTING_FEATURE_VALUE);
     lowlevel::TyFS tySofa = internal::FSPromoter::demoteFS(*this);
     this->setStringValue(internal::FSPromoter::promoteFeature(internal::gs_tySofaMimeFeature, iv_cas->getHeap()->getTypeSystem()), aString);
     return;
@@ -1195,6 +1196,7 @@ namespace uima {
 
   void SofaFS::setLocalSofaData(FeatureStructure aFS) {
     //TODO NEED TO FAIL THIS IF DATA, STRING, or URI ALREADY SET !!!
+    checkValidity(UIMA_MSG_ID_EXCON_SETTING_FEATURE_VALUE);
     lowlevel::TyFS tySofa = internal::FSPromoter::demoteFS(*this);
     iv_cas->getHeap()->setFSValue(tySofa, internal::gs_tySofaArrayFeature,
                                   internal::FSPromoter::demoteFS(aFS));
@@ -1203,6 +1205,7 @@ namespace uima {
 
   void SofaFS::setLocalSofaData(UnicodeStringRef const aString) {
     //TODO NEED TO FAIL THIS IF DATA, STRING, or URI ALREADY SET !!!
+    checkValidity(UIMA_MSG_ID_EXCON_SETTING_FEATURE_VALUE);
     this->setStringValue(internal::FSPromoter::promoteFeature(internal::gs_tySofaStringFeature,
                          iv_cas->getHeap()->getTypeSystem()), aString);
     int sofaNum = this->getIntValue(internal::FSPromoter::promoteFeature(internal::gs_tySofaNumFeature,
@@ -1218,31 +1221,38 @@ namespace uima {
 
   void SofaFS::setRemoteSofaURI(icu::UnicodeString const & aString) {
     //TODO NEED TO FAIL THIS IF DATA, STRING, or URI ALREADY SET !!!
+    checkValidity(UIMA_MSG_ID_EXCON_SETTING_FEATURE_VALUE);
     this->setStringValue(internal::FSPromoter::promoteFeature(internal::gs_tySofaURIFeature, iv_cas->getHeap()->getTypeSystem()), aString);
     return;
   }
 
   UnicodeStringRef SofaFS::getSofaMime() {
+    checkValidity(UIMA_MSG_ID_EXCON_GETTING_FEATURE_VALUE);
     return this->getStringValue(internal::FSPromoter::promoteFeature(internal::gs_tySofaMimeFeature, iv_cas->getHeap()->getTypeSystem()));
   }
 
   UnicodeStringRef SofaFS::getSofaID() {
+    checkValidity(UIMA_MSG_ID_EXCON_GETTING_FEATURE_VALUE);
     return this->getStringValue(internal::FSPromoter::promoteFeature(internal::gs_tySofaIDFeature, iv_cas->getHeap()->getTypeSystem()));
   }
 
   UnicodeStringRef SofaFS::getSofaURI() {
+    checkValidity(UIMA_MSG_ID_EXCON_GETTING_FEATURE_VALUE);
     return this->getStringValue(internal::FSPromoter::promoteFeature(internal::gs_tySofaURIFeature, iv_cas->getHeap()->getTypeSystem()));
   }
 
   int SofaFS::getSofaRef() {
+    checkValidity(UIMA_MSG_ID_EXCON_GETTING_FEATURE_VALUE);
     return this->getIntValue(internal::FSPromoter::promoteFeature(internal::gs_tySofaNumFeature, iv_cas->getHeap()->getTypeSystem()));
   }
 
   FeatureStructure SofaFS::getLocalFSData() {
+    checkValidity(UIMA_MSG_ID_EXCON_GETTING_FEATURE_VALUE);
     return this->getFSValue(internal::FSPromoter::promoteFeature(internal::gs_tySofaArrayFeature, iv_cas->getHeap()->getTypeSystem()));
   }
 
   UnicodeStringRef SofaFS::getLocalStringData() {
+    checkValidity(UIMA_MSG_ID_EXCON_GETTING_FEATURE_VALUE);
     return this->getStringValue(internal::FSPromoter::promoteFeature(internal::gs_tySofaStringFeature, iv_cas->getHeap()->getTypeSystem()));
   }
 
@@ -1289,6 +1299,7 @@ namespace uima {
   }
 
   CAS * AnnotationFS::getView() {
+    checkValidity(UIMA_MSG_ID_EXCON_GETTING_FEATURE_VALUE);
     assert(EXISTS(iv_cas));
     lowlevel::TyFS annSofaAddr = iv_cas->getHeap()->getFSValue(iv_tyFS, internal::gs_tySofaRefFeature);
     int annSofaNum = iv_cas->getHeap()->getIntValue(annSofaAddr, internal::gs_tySofaNumFeature);
@@ -1296,6 +1307,7 @@ namespace uima {
   }
 
   size_t AnnotationFS::getBeginPosition( void ) const {
+    checkValidity(UIMA_MSG_ID_EXCON_GETTING_FEATURE_VALUE);
     assert(EXISTS(iv_cas));
     assert(iv_cas->getHeap()->getIntValue(iv_tyFS, uima::internal::gs_tyBeginPosFeature) >= 0);
     return(size_t)iv_cas->getHeap()->getIntValue(iv_tyFS, uima::internal::gs_tyBeginPosFeature);
@@ -1303,6 +1315,7 @@ namespace uima {
 
 
   size_t AnnotationFS::getEndPosition( void ) const {
+    checkValidity(UIMA_MSG_ID_EXCON_GETTING_FEATURE_VALUE);
     assert(EXISTS(iv_cas));
     assert(iv_cas->getHeap()->getIntValue(iv_tyFS, uima::internal::gs_tyEndPosFeature) >= 0);
     return(size_t)iv_cas->getHeap()->getIntValue(iv_tyFS, uima::internal::gs_tyEndPosFeature);
-- 
2.43.0


From 5b386a69caf15350f52b67d06b29e3309e1eeb76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:30 +0000
Subject: [PATCH 002/115] fix: setFSValue refuses a default-constructed value
 instead of dereferencing its null CAS

---
 src/cas/featurestructure.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cas/featurestructure.cpp b/src/cas/featurestructure.cpp
index c5f167d..73c2e45 100644
--- a/src/cas/featurestructure.cpp
+++ b/src/cas/featurestructure.cpp
@@ -193,7 +193,8 @@ namespace uima {
    * checks if anFS is an appropriate value for f.
    */
   void FeatureStructure::checkAppropFeature(Feature const & f, FeatureStructure const & anFS, TyMessageId tyContext) const {
-    if ( (&iv_cas->getHeap()->getTypeSystem()) != (&anFS.iv_cas->getHeap()->getTypeSystem()) ) {
+    if ( ! EXISTS(anFS.iv_cas)
+         || (&iv_cas->getHeap()->getTypeSystem()) != (&anFS.iv_cas->getHeap()->getTypeSystem()) ) {
       UIMA_EXC_THROW_NEW(InvalidFSObjectException,
                          UIMA_ERR_INVALID_FS_OBJECT,
                          UIMA_MSG_ID_EXC_INVALID_FS_OBJECT,
-- 
2.43.0


From 33ec1bc825b8b465e465e3d7f318b5a4c4f0ff0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:30 +0000
Subject: [PATCH 003/115] fix: static list helpers refuse invalid feature
 structures

---
 src/cas/listfs.cpp | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/cas/listfs.cpp b/src/cas/listfs.cpp
index b8b31fe..a5b53f6 100644
--- a/src/cas/listfs.cpp
+++ b/src/cas/listfs.cpp
@@ -552,6 +552,14 @@ namespace uima {
   /*static*/ bool
   BasicListFS<T, LIST_TYPE, ELIST_TYPE, NELIST_TYPE, HEAD_FEATURE, TAIL_FEATURE>::
   hasListElements(FeatureStructure fs, Feature const & f) {
+    if ( ! fs.isValid() ) {
+      UIMA_EXC_THROW_NEW(InvalidFSObjectException,
+                         UIMA_ERR_INVALID_FS_OBJECT,
+                         UIMA_MSG_ID_EXC_INVALID_FS_OBJECT,
+                         ErrorMessage(UIMA_MSG_ID_EXCON_GETTING_LIST_ISEMPTY),
+                         ErrorInfo::recoverable
+                        );
+    }
     // there are several ways a feature can have zero values
     uima::lowlevel::FSHeap const & crHeap = *internal::FSPromoter::getFSHeap(fs);
     lowlevel::TyFSFeature tyFeat =  internal::FSPromoter::demoteFeature( f );
@@ -581,7 +589,14 @@ namespace uima {
   /*static*/ BasicListFS<T, LIST_TYPE, ELIST_TYPE, NELIST_TYPE, HEAD_FEATURE, TAIL_FEATURE>
   BasicListFS<T, LIST_TYPE, ELIST_TYPE, NELIST_TYPE, HEAD_FEATURE, TAIL_FEATURE>::
   getListFSValue( FeatureStructure const & fs, Feature const & f ) {
-    assert(fs.isValid());
+    if ( ! fs.isValid() ) {
+      UIMA_EXC_THROW_NEW(InvalidFSObjectException,
+                         UIMA_ERR_INVALID_FS_OBJECT,
+                         UIMA_MSG_ID_EXC_INVALID_FS_OBJECT,
+                         ErrorMessage(UIMA_MSG_ID_EXCON_GETTING_FIRST_LIST_ELEMENT),
+                         ErrorInfo::recoverable
+                        );
+    }
     uima::CAS & rCas = *internal::FSPromoter::getFSCas(fs);
     uima::lowlevel::FSHeap & rHeap = *internal::FSPromoter::getFSHeap(fs);
     lowlevel::TyFSFeature tyF  =  internal::FSPromoter::demoteFeature( f );
-- 
2.43.0


From 76e1a57b8fa1d02caea27dcb4793ea25eacad54e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:18 +0000
Subject: [PATCH 004/115] fix: DocumentFS language accessors refuse invalid
 handles

---
 src/cas/cas.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/cas/cas.cpp b/src/cas/cas.cpp
index 8c7e878..c33a3eb 100644
--- a/src/cas/cas.cpp
+++ b/src/cas/cas.cpp
@@ -1394,6 +1394,7 @@ namespace uima {
   }
 
   Language DocumentFS::getLanguage() const {
+    checkValidity(UIMA_MSG_ID_EXCON_GETTING_FEATURE_VALUE);
     assert(EXISTS(iv_cas));
     assert( iv_cas->getHeap()->isValid(iv_tyFS) );
 
@@ -1409,6 +1410,7 @@ namespace uima {
   }
 
   void DocumentFS::setLanguage(Language const & lang) {
+    checkValidity(UIMA_MSG_ID_EXCON_SETTING_FEATURE_VALUE);
     assert(EXISTS(iv_cas));
     assert( iv_cas->getHeap()->isValid(iv_tyFS) );
 
-- 
2.43.0


From 8e46a6e2c148525a00e8d6d49494b15f9719ba92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:21 +0000
Subject: [PATCH 005/115] fix: getFSValue refuses features with 8/16/64-bit
 primitive range

---
 src/cas/featurestructure.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/cas/featurestructure.cpp b/src/cas/featurestructure.cpp
index 73c2e45..8e3a4fe 100644
--- a/src/cas/featurestructure.cpp
+++ b/src/cas/featurestructure.cpp
@@ -133,6 +133,11 @@ namespace uima {
     uima::lowlevel::TyFSType rangeType = rTS.getRangeType(internal::FSPromoter::demoteFeature(crFeature));
     if ( rangeType == uima::internal::gs_tyIntegerType
          || rangeType == uima::internal::gs_tyFloatType
+         || rangeType == uima::internal::gs_tyBooleanType
+         || rangeType == uima::internal::gs_tyByteType
+         || rangeType == uima::internal::gs_tyShortType
+         || rangeType == uima::internal::gs_tyLongType
+         || rangeType == uima::internal::gs_tyDoubleType
          || rangeType == uima::internal::gs_tyStringType
          || rTS.getParentType(rangeType) == uima::internal::gs_tyStringType ) {
       ErrorMessage msg( UIMA_MSG_ID_EXC_INCOMPATIBLE_RANGE_TYPE);
-- 
2.43.0


From 80a32be81851763177efe6d227da49ff5d7333df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:21 +0000
Subject: [PATCH 006/115] fix: string accessors check that the feature is valid
 and appropriate for the type

---
 src/cas/featurestructure.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/cas/featurestructure.cpp b/src/cas/featurestructure.cpp
index 8e3a4fe..c6a59c3 100644
--- a/src/cas/featurestructure.cpp
+++ b/src/cas/featurestructure.cpp
@@ -440,6 +440,7 @@ namespace uima {
 
   UnicodeStringRef  FeatureStructure::getStringValue(Feature const & f) const {
     checkValidity(UIMA_MSG_ID_EXCON_GETTING_STRINGVALUE_FROM_FS);
+    checkFeature(f, UIMA_MSG_ID_EXCON_GETTING_STRINGVALUE_FROM_FS);
     checkRangeIsString(f, UIMA_MSG_ID_EXCON_GETTING_STRINGVALUE_FROM_FS);
     lowlevel::TyFSFeature tyFeat =  internal::FSPromoter::demoteFeature( f );
     lowlevel::TyFS tyStringFS = iv_cas->getHeap()->getFSValue(iv_tyFS, tyFeat);
@@ -455,6 +456,7 @@ namespace uima {
 
   void FeatureStructure::setStringValueExternal(Feature const & f, UnicodeStringRef uls) {
     checkValidity(UIMA_MSG_ID_EXCON_SETTING_STRINGVALUE_IN_FS);
+    checkFeature(f, UIMA_MSG_ID_EXCON_SETTING_STRINGVALUE_IN_FS);
     checkRangeIsString(f, UIMA_MSG_ID_EXCON_SETTING_STRINGVALUE_IN_FS);
 
     //!!! Not supporting External at this time. All strings added to StringHeap.
-- 
2.43.0


From 6e3e7cdc7fcaa213d713daf2e6726d1c1f05fd96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:21 +0000
Subject: [PATCH 007/115] fix: array bulk copies check the whole source and
 destination range

---
 src/cas/arrayfs.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/cas/arrayfs.cpp b/src/cas/arrayfs.cpp
index fd5a85d..4e09552 100644
--- a/src/cas/arrayfs.cpp
+++ b/src/cas/arrayfs.cpp
@@ -171,6 +171,8 @@ namespace uima {
     size_t uiDestOffset) const {
       checkValidity(UIMA_MSG_ID_EXCON_GETTING_FS_FROM_ARRAY);
       checkArraySize(iv_tyFS, iv_cas->getHeap(), uiEnd - uiStart - 1 , UIMA_MSG_ID_EXCON_GETTING_FS_FROM_ARRAY);
+      checkArraySize(iv_tyFS, iv_cas->getHeap(), uiStart, UIMA_MSG_ID_EXCON_GETTING_FS_FROM_ARRAY);
+      checkArraySize(iv_tyFS, iv_cas->getHeap(), uiEnd - 1, UIMA_MSG_ID_EXCON_GETTING_FS_FROM_ARRAY);
       uima::lowlevel::TyFSType typecode = iv_cas->getHeap()->getType(iv_tyFS);
 
 	  size_t srcOffset = uiStart;
@@ -210,6 +212,7 @@ namespace uima {
 	  size_t srcOffset = uiStart;
 	  size_t numelements = uiEnd-uiStart;
 	  size_t destOffset = uiOffset;
+	  checkArraySize(iv_tyFS, iv_cas->getHeap(), destOffset, UIMA_MSG_ID_EXCON_GETTING_FS_FROM_ARRAY);
 	  checkArraySize(iv_tyFS, iv_cas->getHeap(), destOffset+numelements-1, UIMA_MSG_ID_EXCON_GETTING_FS_FROM_ARRAY);
       uima::lowlevel::TyFSType typecode = iv_cas->getHeap()->getType(iv_tyFS);
 
-- 
2.43.0


From 18fbf4912bcbc90e50c9bc9ca0a5fd515ecc7a67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:26 +0000
Subject: [PATCH 008/115] fix: unset Long and Double features read as 0

---
 src/cas/uima/lowlevel_fsheap.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cas/uima/lowlevel_fsheap.hpp b/src/cas/uima/lowlevel_fsheap.hpp
index a8eb226..5d25ebc 100644
--- a/src/cas/uima/lowlevel_fsheap.hpp
+++ b/src/cas/uima/lowlevel_fsheap.hpp
@@ -490,7 +490,7 @@ namespace uima {
 
       inline INT64 getFSAsLong(TyFS tyFS) const {
         if (tyFS == 0) {
-          return '\n';
+          return 0;
         }
         assert( iv_clTemporary64BitHeap.debugIsValidHeapCell(tyFS) );
         return (INT64) iv_clTemporary64BitHeap.getHeapValue(tyFS);
@@ -498,7 +498,7 @@ namespace uima {
 
       inline double getFSAsDouble(TyFS tyFS) const {
         if (tyFS == 0) {
-          return '\n';
+          return 0;
         }
         assert( iv_clTemporary64BitHeap.debugIsValidHeapCell(tyFS) );
         INT64 int64Val = iv_clTemporary64BitHeap.getHeapValue(tyFS);
-- 
2.43.0


From 75846cda5d11e63ebd55173a12b504829cd298f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:34 +0000
Subject: [PATCH 009/115] fix: byte-swapping a 64-bit heap value keeps all
 eight bytes

---
 src/cas/internal_casdeserializer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cas/internal_casdeserializer.cpp b/src/cas/internal_casdeserializer.cpp
index 284bb5c..dff0b57 100644
--- a/src/cas/internal_casdeserializer.cpp
+++ b/src/cas/internal_casdeserializer.cpp
@@ -732,7 +732,7 @@ namespace uima {
       output[5] = ((char*)&in)[2];
       output[6] = ((char*)&in)[1];
       output[7] = ((char*)&in)[0];
-      in = *(int*)output;
+      in = *(INT64*)output;
       return in;
     }
 
-- 
2.43.0


From 739768ac418f49b52460d462ddaa05c72b3cb67b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:12 +0000
Subject: [PATCH 010/115] fix: createAnnotation refuses types that are not
 annotation types

---
 src/cas/cas.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cas/cas.cpp b/src/cas/cas.cpp
index c33a3eb..305a0f7 100644
--- a/src/cas/cas.cpp
+++ b/src/cas/cas.cpp
@@ -778,7 +778,8 @@ namespace uima {
     }
     assert(EXISTS(iv_heap));
     assert( getTypeSystem().getType(CAS::TYPE_NAME_ANNOTATION).subsumes(type) );
-    if (!type.isValid()) {
+    if (!type.isValid()
+        || !iv_heap->getTypeSystem().subsumes(internal::gs_tyAnnotationType, internal::FSPromoter::demoteType(type))) {
       UIMA_EXC_THROW_NEW(InvalidFSTypeObjectException,
                          UIMA_ERR_INVALID_FSTYPE_OBJECT,
                          UIMA_MSG_ID_EXC_INVALID_FSTYPE_OBJECT,
-- 
2.43.0


From fa7721bab9bf69c141eadd3e0aef7500bd7af90f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:32 +0000
Subject: [PATCH 011/115] fix: createFS refuses array types and string subtypes

---
 src/cas/cas.cpp | 39 +++++++++++++++++++--------------------
 1 file changed, 19 insertions(+), 20 deletions(-)

diff --git a/src/cas/cas.cpp b/src/cas/cas.cpp
index 305a0f7..c44ef16 100644
--- a/src/cas/cas.cpp
+++ b/src/cas/cas.cpp
@@ -401,26 +401,25 @@ namespace uima {
                         );
     }
     uima::lowlevel::TyFSType tyType = internal::FSPromoter::demoteType(crType);
-    switch (tyType) {
-    case uima::internal::gs_tyIntegerType:
-    case uima::internal::gs_tyFloatType:
-    case uima::internal::gs_tyStringType:
-    case uima::internal::gs_tyBooleanType:
-    case uima::internal::gs_tyByteType:
-    case uima::internal::gs_tyShortType:
-    case uima::internal::gs_tyLongType:
-    case uima::internal::gs_tyDoubleType: {
-        ErrorMessage errMessage(UIMA_MSG_ID_EXC_COULD_NOT_CREATE_FS_FINAL_TYPE );
-        errMessage.addParam( crType.getName() );
-        UIMA_EXC_THROW_NEW(CouldNotCreateFSOfFinalTypeException,
-                           UIMA_ERR_COULD_NOT_CREATE_FS_OF_FINAL_TYPE,
-                           errMessage,
-                           UIMA_MSG_ID_EXCON_CREATING_FS,
-                           ErrorInfo::recoverable
-                          );
-      }
-    default:
-      ;
+    lowlevel::TypeSystem const & crTS = iv_heap->getTypeSystem();
+    // primitives and string subtypes are plain values, arrays need a size (see createXxxArrayFS)
+    if (tyType == uima::internal::gs_tyIntegerType
+        || tyType == uima::internal::gs_tyFloatType
+        || tyType == uima::internal::gs_tyBooleanType
+        || tyType == uima::internal::gs_tyByteType
+        || tyType == uima::internal::gs_tyShortType
+        || tyType == uima::internal::gs_tyLongType
+        || tyType == uima::internal::gs_tyDoubleType
+        || crTS.subsumes(uima::internal::gs_tyStringType, tyType)
+        || crTS.subsumes(uima::internal::gs_tyArrayBaseType, tyType)) {
+      ErrorMessage errMessage(UIMA_MSG_ID_EXC_COULD_NOT_CREATE_FS_FINAL_TYPE );
+      errMessage.addParam( crType.getName() );
+      UIMA_EXC_THROW_NEW(CouldNotCreateFSOfFinalTypeException,
+                         UIMA_ERR_COULD_NOT_CREATE_FS_OF_FINAL_TYPE,
+                         errMessage,
+                         UIMA_MSG_ID_EXCON_CREATING_FS,
+                         ErrorInfo::recoverable
+                        );
     }
 
     // if new FS is annotation type, set the sofa feature
-- 
2.43.0


From 683b116afc42d7cf7f8944ff08842f1ab1b935aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:54 +0000
Subject: [PATCH 012/115] fix: list feature accessors check that the feature is
 valid, appropriate and list-valued

---
 src/cas/listfs.cpp | 50 ++++++++++++++++++++++++++++++++++++----------
 1 file changed, 40 insertions(+), 10 deletions(-)

diff --git a/src/cas/listfs.cpp b/src/cas/listfs.cpp
index a5b53f6..4b782b8 100644
--- a/src/cas/listfs.cpp
+++ b/src/cas/listfs.cpp
@@ -67,6 +67,44 @@ namespace uima {
   /*       Tool Functions Implementation                                     */
   /* ----------------------------------------------------------------------- */
 
+  /**
+   * Checks that the feature is a valid object, that it is defined on the type of the FS
+   * and that its range is a list type.
+   */
+  static void checkListFeature(lowlevel::FSHeap const & crHeap, lowlevel::TyFS tyFS, Feature const & f,
+                               lowlevel::TyFSType tyListType, TyMessageId tyContext) {
+    if ( ! f.isValid() ) {
+      UIMA_EXC_THROW_NEW(InvalidFSFeatureObjectException,
+                         UIMA_ERR_INVALID_FSFEATURE_OBJECT,
+                         UIMA_MSG_ID_EXC_INVALID_FSFEATURE_OBJECT,
+                         ErrorMessage(tyContext),
+                         ErrorInfo::recoverable
+                        );
+    }
+    lowlevel::TypeSystem const & crTS = crHeap.getTypeSystem();
+    lowlevel::TyFSFeature tyF = internal::FSPromoter::demoteFeature( f );
+    lowlevel::TyFSType tyType = crHeap.getType(tyFS);
+    if ( ! crTS.isAppropriateFeature(tyType, tyF) ) {
+      ErrorMessage msg(UIMA_MSG_ID_EXC_FEATURE_NOT_APPROPRIATE);
+      msg.addParam( crTS.getFeatureName(tyF) );
+      msg.addParam( crTS.getTypeName(tyType) );
+      UIMA_EXC_THROW_NEW(FeatureNotAppropriateException,
+                         UIMA_ERR_FEATURE_NOT_APPROPRIATE,
+                         msg,
+                         ErrorMessage(tyContext),
+                         ErrorInfo::recoverable
+                        );
+    }
+    if ( ! crTS.subsumes( tyListType, crTS.getRangeType(tyF) ) ) {
+      UIMA_EXC_THROW_NEW(FSIsNotListException,
+                         UIMA_ERR_FS_IS_NOT_LIST,
+                         UIMA_MSG_ID_EXC_FS_IS_NOT_LIST,
+                         ErrorMessage(tyContext),
+                         ErrorInfo::recoverable
+                        );
+    }
+  }
+
   template< class T,
   const uima::lowlevel::TyFSType LIST_TYPE,
   const uima::lowlevel::TyFSType ELIST_TYPE,
@@ -564,6 +602,7 @@ namespace uima {
     uima::lowlevel::FSHeap const & crHeap = *internal::FSPromoter::getFSHeap(fs);
     lowlevel::TyFSFeature tyFeat =  internal::FSPromoter::demoteFeature( f );
     lowlevel::TyFS        tyFS   =  internal::FSPromoter::demoteFS( fs );
+    checkListFeature(crHeap, tyFS, f, LIST_TYPE, UIMA_MSG_ID_EXCON_GETTING_LIST_ISEMPTY);
     // 1: it is untouched. So we don't touch it either and return false
     if ( crHeap.isUntouchedFSValue(tyFS, tyFeat) ) {
       return false;
@@ -601,16 +640,7 @@ namespace uima {
     uima::lowlevel::FSHeap & rHeap = *internal::FSPromoter::getFSHeap(fs);
     lowlevel::TyFSFeature tyF  =  internal::FSPromoter::demoteFeature( f );
     lowlevel::TyFS        tyFS =  internal::FSPromoter::demoteFS( fs );
-    // check range type
-    lowlevel::TyFSType tyRangeType = rHeap.getTypeSystem().getRangeType(tyF);
-    if ( ! rHeap.getTypeSystem().subsumes( LIST_TYPE, tyRangeType) ) {
-      UIMA_EXC_THROW_NEW(FSIsNotListException,
-                         UIMA_ERR_FS_IS_NOT_LIST,
-                         UIMA_MSG_ID_EXC_FS_IS_NOT_LIST,
-                         ErrorMessage(UIMA_MSG_ID_EXCON_GETTING_FIRST_LIST_ELEMENT),
-                         ErrorInfo::recoverable
-                        );
-    }
+    checkListFeature(rHeap, tyFS, f, LIST_TYPE, UIMA_MSG_ID_EXCON_GETTING_FIRST_LIST_ELEMENT);
 
     // it is untouched. We have to create a proper empty terminated list
     if ( rHeap.isUntouchedFSValue(tyFS, tyF) ) {
-- 
2.43.0


From 35d6504c2f4214f6450d633829a729093edbbe03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:38 +0000
Subject: [PATCH 013/115] fix: clone to a type without common features copies
 nothing instead of all cells

---
 src/cas/featurestructure.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/cas/featurestructure.cpp b/src/cas/featurestructure.cpp
index c6a59c3..12828cf 100644
--- a/src/cas/featurestructure.cpp
+++ b/src/cas/featurestructure.cpp
@@ -262,7 +262,10 @@ namespace uima {
     lowlevel::TyFSType mcst = ts.getMostSpecificCommonSupertype( uima::internal::FSPromoter::demoteType(getType()),
                               uima::internal::FSPromoter::demoteType(t) );
     lowlevel::TyFeatureOffset featNum = ts.getFeatureNumber( mcst );
-    iv_cas->getHeap()->copyFeatures(newFS.iv_tyFS, iv_tyFS, featNum);
+    // 0 would mean "all features": nothing to copy if the types have no feature in common
+    if (featNum > 0) {
+      iv_cas->getHeap()->copyFeatures(newFS.iv_tyFS, iv_tyFS, featNum);
+    }
     return newFS;
   }
 
-- 
2.43.0


From 5973242c4b76bf131f51bbd58e7744ca676fed9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:44 +0000
Subject: [PATCH 014/115] fix: heap growth refuses sizes that cannot be
 addressed and leaves the heap intact when allocation fails

---
 src/cas/uima/lowlevel_fsheap.hpp        |  4 ++++
 src/cas/uima/lowlevel_internal_heap.hpp | 28 +++++++++++++++++--------
 2 files changed, 23 insertions(+), 9 deletions(-)

diff --git a/src/cas/uima/lowlevel_fsheap.hpp b/src/cas/uima/lowlevel_fsheap.hpp
index 5d25ebc..367611d 100644
--- a/src/cas/uima/lowlevel_fsheap.hpp
+++ b/src/cas/uima/lowlevel_fsheap.hpp
@@ -292,6 +292,10 @@ namespace uima {
         assert( iv_rclTypeSystem.isValidType( tyType ) );
         assert( iv_rclTypeSystem.getFeatureNumber(tyType) == 0 );
         assert( iv_rclTypeSystem.subsumes( uima::internal::gs_tyArrayBaseType, tyType ) );
+        // sizes are stored in a heap cell
+        if ( uiSize > (size_t) INT_MAX ) {
+          throw std::bad_alloc();
+        }
         TyFSHeap & rtyHeap = getHeap();
         Ty8BitHeap & rty8BitHeap = get8BitHeap();
         Ty16BitHeap & rty16BitHeap = get16BitHeap();
diff --git a/src/cas/uima/lowlevel_internal_heap.hpp b/src/cas/uima/lowlevel_internal_heap.hpp
index afeb69f..99f7fc6 100644
--- a/src/cas/uima/lowlevel_internal_heap.hpp
+++ b/src/cas/uima/lowlevel_internal_heap.hpp
@@ -42,6 +42,8 @@
 
 #include "uima/macros.h"
 
+#include <limits.h>
+#include <new>
 #include <vector>
 
 #if defined( _MSC_VER )
@@ -130,7 +132,7 @@ namespace uima {
             : iv_pTHeap(NULL),
             iv_pTTopOfHeap(NULL),
             iv_pTLastHeapCell(NULL),
-            iv_uiCellNumber(cells),
+            iv_uiCellNumber(cells > 0 ? cells : 1),
             iv_iDefaultValue(value) {
           iv_pTHeap = new T[iv_uiCellNumber];
           iv_topOfHeap = 1; // leave 0th cell empty
@@ -176,28 +178,36 @@ namespace uima {
         /**
          * reserve n more heap cells; if necessary, increase heap size
          */
-        int increaseHeap(WORD32 n) {
+        int increaseHeap(size_t n) {
           //assert( n > 0 );
+          // cell numbers are ints: refuse what cannot be addressed
+          if ( n > (size_t) INT_MAX - iv_topOfHeap ) {
+            throw std::bad_alloc();
+          }
           int result = iv_topOfHeap;
-          iv_topOfHeap += n;
+          WORD32 uiNewTop = iv_topOfHeap + (WORD32) n;
 
           // usual case, just return
-          if ( iv_topOfHeap < iv_uiCellNumber ) {
+          if ( uiNewTop < iv_uiCellNumber ) {
+            iv_topOfHeap = uiNewTop;
             return result;
           }
 
           // calculate new heap size to be at least double current size
-          if ( n > iv_uiCellNumber ) {
-            iv_uiCellNumber += n;
+          WORD32 uiNewCellNumber = iv_uiCellNumber;
+          if ( n > uiNewCellNumber ) {
+            uiNewCellNumber += (WORD32) n;
           } else {
-            iv_uiCellNumber *= 2;
+            uiNewCellNumber *= 2;
           }
-          T* iv_pTHeapNew = new T[iv_uiCellNumber];
+          T* iv_pTHeapNew = new T[uiNewCellNumber];
           assert( iv_pTHeapNew != NULL );
           memcpy(iv_pTHeapNew, iv_pTHeap, result*sizeof(T));
-          memset(iv_pTHeapNew + result, iv_iDefaultValue, (iv_uiCellNumber - result)*sizeof(T));
+          memset(iv_pTHeapNew + result, iv_iDefaultValue, (uiNewCellNumber - result)*sizeof(T));
           delete[] iv_pTHeap;
           iv_pTHeap = iv_pTHeapNew;
+          iv_uiCellNumber = uiNewCellNumber;
+          iv_topOfHeap = uiNewTop;
           return result;
         }
 
-- 
2.43.0


From 401ae54d2ece386943a03fd74d0271b4c5b70928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:44 +0000
Subject: [PATCH 015/115] fix: storing a string that resides on the string heap
 survives the growth of that heap

---
 src/cas/uima/lowlevel_fsheap.hpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/cas/uima/lowlevel_fsheap.hpp b/src/cas/uima/lowlevel_fsheap.hpp
index 367611d..cdb1dda 100644
--- a/src/cas/uima/lowlevel_fsheap.hpp
+++ b/src/cas/uima/lowlevel_fsheap.hpp
@@ -368,9 +368,18 @@ namespace uima {
       int addString(UnicodeStringRef const & uls) {
         size_t l = uls.length();
         TyStringHeap & rtyStringHeap = getStringHeap();
+        UChar const * cpSource = uls.getBuffer();
+        UChar const * cpHeapStart = rtyStringHeap.getHeapStart();
+        // the string may reside on this heap, which is moved when it grows
+        if (cpSource >= cpHeapStart && cpSource < cpHeapStart + rtyStringHeap.getTopOfHeap()) {
+          size_t uiOffset = cpSource - cpHeapStart;
+          int p = rtyStringHeap.increaseHeap(l + 1);
+          memcpy(rtyStringHeap.getHeapStart()+p, rtyStringHeap.getHeapStart()+uiOffset, uls.getSizeInBytes() );
+          return p;
+        }
         int p = rtyStringHeap.increaseHeap(l + 1);
         assert( (int)(2*l) == uls.getSizeInBytes() );
-        memcpy(rtyStringHeap.getHeapStart()+p, uls.getBuffer(), uls.getSizeInBytes() );
+        memcpy(rtyStringHeap.getHeapStart()+p, cpSource, uls.getSizeInBytes() );
         return p;
       }
 
-- 
2.43.0


From ed7996c7df34d31e204b53ffaca3cccb5abfe7a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:44 +0000
Subject: [PATCH 016/115] fix: strings copied into a SerializedCAS stay valid
 when more strings are added

---
 src/cas/internal_serializedcas.cpp      |  6 ++----
 src/cas/uima/internal_serializedcas.hpp | 14 ++++++--------
 2 files changed, 8 insertions(+), 12 deletions(-)

diff --git a/src/cas/internal_serializedcas.cpp b/src/cas/internal_serializedcas.cpp
index 38e9f1a..01633e4 100644
--- a/src/cas/internal_serializedcas.cpp
+++ b/src/cas/internal_serializedcas.cpp
@@ -54,15 +54,13 @@ using namespace std;
 namespace uima {
   namespace internal {
 
-//!TODO check this default size, particularly for blob-based data serialization
-    SerializedCAS::SerializedCAS()
-        : iv_stringHeap(10000, 0) {}
+    SerializedCAS::SerializedCAS() {}
 
     SerializedCAS::~SerializedCAS() {}
 
 
     void SerializedCAS::reset() {
-      iv_stringHeap.reset();
+      iv_lstStrings.clear();
 
       iv_ulstrDocument = UnicodeStringRef();
 
diff --git a/src/cas/uima/internal_serializedcas.hpp b/src/cas/uima/internal_serializedcas.hpp
index 989bd3c..3672ed6 100644
--- a/src/cas/uima/internal_serializedcas.hpp
+++ b/src/cas/uima/internal_serializedcas.hpp
@@ -37,6 +37,7 @@
 /*       Include dependencies                                              */
 /* ----------------------------------------------------------------------- */
 #include "uima/pragmas.hpp" // must be first file to be included to get pragmas
+#include <list>
 #include <vector>
 #include "uima/types.h"
 #include "uima/unistrref.hpp"
@@ -139,8 +140,8 @@ namespace uima {
       SerializedCAS & operator=(SerializedCAS const &);
       SerializedCAS(SerializedCAS const &);
 
-      typedef uima::lowlevel::internal::Heap<UChar> TyStringHeap;
-      TyStringHeap iv_stringHeap;
+      // copied strings: their buffers stay where they are when more strings are added
+      std::list<icu::UnicodeString> iv_lstStrings;
 
       UnicodeStringRef addString(UnicodeStringRef const & crRef);
 
@@ -299,12 +300,9 @@ namespace uima {
   namespace internal {
 
     inline UnicodeStringRef SerializedCAS::addString(UnicodeStringRef const & crRef) {
-      size_t l = crRef.length();
-      int pOff = iv_stringHeap.increaseHeap(l + 1);
-      UChar* p = iv_stringHeap.getHeapStart() + pOff;
-      assert( (2*l) == crRef.getSizeInBytes() );
-      memcpy(p, crRef.getBuffer(), crRef.getSizeInBytes() );
-      return UnicodeStringRef(p,l);
+      iv_lstStrings.push_back(icu::UnicodeString(crRef.getBuffer(), crRef.length()));
+      icu::UnicodeString const & crString = iv_lstStrings.back();
+      return UnicodeStringRef(crString.getBuffer(), crString.length());
     }
   }
 }
-- 
2.43.0


From 25c00e13c5786c43600b993bb4081aa57e2e1e0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:00 +0000
Subject: [PATCH 017/115] fix: strings with embedded zero characters keep their
 length

---
 src/cas/cas.cpp                             |  6 +++---
 src/cas/featurestructure.cpp                |  2 +-
 src/cas/lowlevel_fsheap.cpp                 |  9 +++++----
 src/cas/uima/internal_fsvalue_accessors.hpp |  4 ++--
 src/cas/uima/lowlevel_fsheap.hpp            | 17 ++++++++++-------
 src/cas/xcasdeserializer_handler.cpp        |  2 +-
 6 files changed, 22 insertions(+), 18 deletions(-)

diff --git a/src/cas/cas.cpp b/src/cas/cas.cpp
index c44ef16..99759ad 100644
--- a/src/cas/cas.cpp
+++ b/src/cas/cas.cpp
@@ -434,19 +434,19 @@ namespace uima {
   int CAS::addString(UChar const * cpBuffer, size_t uiLength) {
     UnicodeStringRef uls( cpBuffer, uiLength );
     int shoff = iv_heap->addString(uls);
-    return iv_heap->getStringAsFS(shoff);
+    return iv_heap->getStringAsFS(shoff, uls.length());
   }
 
 
   int CAS::addString(icu::UnicodeString const & crString) {
     UnicodeStringRef uls( crString.getBuffer(), crString.length() );
     int shoff = iv_heap->addString(uls);
-    return iv_heap->getStringAsFS(shoff);
+    return iv_heap->getStringAsFS(shoff, uls.length());
   }
 
   int CAS::addString(const UnicodeStringRef & uls) {
     int shoff = iv_heap->addString(uls);
-    return iv_heap->getStringAsFS(shoff);
+    return iv_heap->getStringAsFS(shoff, uls.length());
   }
 
   ArrayFS CAS::createArrayFS(size_t uiLength) {
diff --git a/src/cas/featurestructure.cpp b/src/cas/featurestructure.cpp
index 12828cf..05df19f 100644
--- a/src/cas/featurestructure.cpp
+++ b/src/cas/featurestructure.cpp
@@ -495,7 +495,7 @@ namespace uima {
 
 
 
-    iv_cas->getHeap()->setStringValue( iv_tyFS, tyFeat, ulsRef );
+    iv_cas->getHeap()->setStringValue( iv_tyFS, tyFeat, ulsRef, uls.length() );
   }
 
   /* ----------------------------------------------------------------------- */
diff --git a/src/cas/lowlevel_fsheap.cpp b/src/cas/lowlevel_fsheap.cpp
index 212c24a..34aa0a9 100644
--- a/src/cas/lowlevel_fsheap.cpp
+++ b/src/cas/lowlevel_fsheap.cpp
@@ -113,7 +113,7 @@ namespace uima {
     }
 
 
-    void FSHeap::setStringValue(TyFS tyFs, TyFSFeature tyFeature, int strRef) {
+    void FSHeap::setStringValue(TyFS tyFs, TyFSFeature tyFeature, int strRef, int iLength) {
       assert( iv_rclTypeSystem.isValidFeature(tyFeature) );
       assert( iv_rclTypeSystem.subsumes(uima::internal::gs_tyStringType, iv_rclTypeSystem.getRangeType(tyFeature)));
 
@@ -139,10 +139,10 @@ namespace uima {
       TyFS tyCurrentString = getFeatureInternal( tyFs, tyFeature );
       if (tyCurrentString == 0) {
         // add entry to StringRefHeap and set values there
-        tyCurrentString = getStringAsFS(strRef);
+        tyCurrentString = getStringAsFS(strRef, iLength);
       } else {
         // reuse entry in StringRefHeap
-        setStringRef(tyCurrentString, strRef);
+        setStringRef(tyCurrentString, strRef, iLength);
       }
 
       setFeatureInternal(tyFs, tyFeature, tyCurrentString);
@@ -163,7 +163,8 @@ namespace uima {
           // if string value set, create duplicate reference to string in refHeap
           if (strRef != 0) {
             int ref = iv_clTemporaryStringRefHeap.getHeapValue(1 + 2*(strRef-1));
-            iv_clTemporaryHeap.setHeapValue(tyTarget+i, getStringAsFS(ref));
+            int len = iv_clTemporaryStringRefHeap.getHeapValue(2 + 2*(strRef-1));
+            iv_clTemporaryHeap.setHeapValue(tyTarget+i, getStringAsFS(ref, len));
           }
         } else {
           iv_clTemporaryHeap.setHeapValue(tyTarget+i, iv_clTemporaryHeap.getHeapValue(tySource+i));
diff --git a/src/cas/uima/internal_fsvalue_accessors.hpp b/src/cas/uima/internal_fsvalue_accessors.hpp
index b2bf1e6..41fe71a 100644
--- a/src/cas/uima/internal_fsvalue_accessors.hpp
+++ b/src/cas/uima/internal_fsvalue_accessors.hpp
@@ -93,7 +93,7 @@ namespace uima {
     }
     inline void setFSValueTempl(uima::CAS * cas, lowlevel::TyFS tyFS, lowlevel::TyFSFeature tyFeat, UnicodeStringRef const & val) {
       int ulsHeap = cas->getHeap()->addString(val);
-      cas->getHeap()->setStringValue(tyFS, tyFeat, ulsHeap );
+      cas->getHeap()->setStringValue(tyFS, tyFeat, ulsHeap, val.length() );
       assert( cas->getHeap()->getStringValue(tyFS, tyFeat) == val );
     }
 
@@ -120,7 +120,7 @@ namespace uima {
         uima::lowlevel::FSHeap & heap,
         lowlevel::TyHeapCell offset) {
       int ulsHeap = heap.addString(s);
-      lowlevel::TyFS tyStringFS = heap.getStringAsFS( ulsHeap );
+      lowlevel::TyFS tyStringFS = heap.getStringAsFS( ulsHeap, s.length() );
       return (lowlevel::TyHeapCell)tyStringFS;
       //  return (lowlevel::TyHeapCell) ulsHeap;
     }
diff --git a/src/cas/uima/lowlevel_fsheap.hpp b/src/cas/uima/lowlevel_fsheap.hpp
index cdb1dda..bf6ac34 100644
--- a/src/cas/uima/lowlevel_fsheap.hpp
+++ b/src/cas/uima/lowlevel_fsheap.hpp
@@ -146,9 +146,11 @@ namespace uima {
       /**
        * helper function to set the string ref heap entry located
        * at pointerIntoStringRefHeap to point to s.
+       * @param iLength the length of the string, or -1 if the string is zero-terminated
        */
       void setStringRef(TyFS offsetIntoStringRefHeap,
-                        TyFS offsetIntoStringHeap);
+                        TyFS offsetIntoStringHeap,
+                        int iLength = -1);
 
       TyFSHeap& getHeap() {
         return iv_clTemporaryHeap;
@@ -578,8 +580,9 @@ namespace uima {
        * convert a stringRef into an offset into the StringRefHeap.
        * This method is non-const since an entry on the string ref heap
        * is created.
+       * @param iLength the length of the string, or -1 if the string is zero-terminated
        */
-      TyFS getStringAsFS(int crStringRef);
+      TyFS getStringAsFS(int crStringRef, int iLength = -1);
 
       /*@}*/
 
@@ -589,7 +592,7 @@ namespace uima {
        */
       void setIntValue(TyFS, TyFSFeature, int);
       void setFloatValue(TyFS, TyFSFeature, float);
-      void setStringValue(TyFS, TyFSFeature, int strRef);
+      void setStringValue(TyFS, TyFSFeature, int strRef, int iLength = -1);
 
       void setByteValue(TyFS, TyFSFeature, char );
       void setShortValue(TyFS, TyFSFeature, short );
@@ -743,7 +746,7 @@ namespace uima {
       iv_clTemporaryHeap.setHeapValue(tyFs + tyOffset, tyValue);
     }
 
-    inline void FSHeap::setStringRef(TyFS strHeapRef, TyFS strRef) {
+    inline void FSHeap::setStringRef(TyFS strHeapRef, TyFS strRef, int iLength) {
       // convert from logical string offset to absolute offset into refHeap
       strHeapRef = 1 + 2*(strHeapRef-1);
 
@@ -752,7 +755,7 @@ namespace uima {
 
       // set length
       iv_clTemporaryStringRefHeap.setHeapValue(strHeapRef+1,
-          u_strlen(iv_clTemporaryStringHeap.getHeapStart()+strRef) );
+          iLength >= 0 ? iLength : u_strlen(iv_clTemporaryStringHeap.getHeapStart()+strRef) );
     }
 
     inline UnicodeStringRef FSHeap::getFSAsString(TyFS tyFS) const {
@@ -767,12 +770,12 @@ namespace uima {
                                (size_t) iv_clTemporaryStringRefHeap.getHeapValue(tyFS+1));
     }
 
-    inline TyFS FSHeap::getStringAsFS(int crStringRef) {
+    inline TyFS FSHeap::getStringAsFS(int crStringRef, int iLength) {
       // increase string ref heap by 2
       TyFS stringRef = iv_clTemporaryStringRefHeap.increaseHeap(2);
       // convert to local string offset
       stringRef = 1 + ((stringRef-1)/2);
-      setStringRef(stringRef, crStringRef);
+      setStringRef(stringRef, crStringRef, iLength);
       return stringRef;
     }
 
diff --git a/src/cas/xcasdeserializer_handler.cpp b/src/cas/xcasdeserializer_handler.cpp
index 53012d7..505ddeb 100644
--- a/src/cas/xcasdeserializer_handler.cpp
+++ b/src/cas/xcasdeserializer_handler.cpp
@@ -627,7 +627,7 @@ namespace uima {
         //add the string
         int stringoffset = iv_cas->getHeap()->addString(buffer);
         //set the array value in fs heap
-        lowlevel::TyFS  stringref =  iv_cas->getHeap()->getStringAsFS(stringoffset);
+        lowlevel::TyFS  stringref =  iv_cas->getHeap()->getStringAsFS(stringoffset, buffer.length());
         lowlevel::TyHeapCell * fsarray = iv_cas->getHeap()->getCArrayFromFS(currentAddr);
         fsarray[arrayPos] = stringref;
         break;
-- 
2.43.0


From 3fcdbeae00435d6adfa667fcd3c1e7eef1980339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:30 +0000
Subject: [PATCH 018/115] fix: setStringValue compares the value with the
 allowed strings before the string heap can move

---
 src/cas/featurestructure.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/cas/featurestructure.cpp b/src/cas/featurestructure.cpp
index 05df19f..a1a3289 100644
--- a/src/cas/featurestructure.cpp
+++ b/src/cas/featurestructure.cpp
@@ -462,8 +462,6 @@ namespace uima {
     checkFeature(f, UIMA_MSG_ID_EXCON_SETTING_STRINGVALUE_IN_FS);
     checkRangeIsString(f, UIMA_MSG_ID_EXCON_SETTING_STRINGVALUE_IN_FS);
 
-    //!!! Not supporting External at this time. All strings added to StringHeap.
-    int ulsRef = iv_cas->getHeap()->addString(uls);
     lowlevel::TyFSFeature tyFeat =  internal::FSPromoter::demoteFeature( f );
 
     uima::lowlevel::TypeSystem const & crTypeSystem = iv_cas->getHeap()->getTypeSystem();
@@ -493,8 +491,9 @@ namespace uima {
       }
     }
 
-
-
+    //!!! Not supporting External at this time. All strings added to StringHeap.
+    // uls may reside on the string heap itself: do not look at it after the heap has grown
+    int ulsRef = iv_cas->getHeap()->addString(uls);
     iv_cas->getHeap()->setStringValue( iv_tyFS, tyFeat, ulsRef, uls.length() );
   }
 
-- 
2.43.0


From 66fdb1bc6f94d17c414a5976beb4a6ad03124b9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:29 +0000
Subject: [PATCH 019/115] fix: a local sofa data stream reads the array where
 it is now, not where it was when the stream was opened

---
 src/cas/sofastream.cpp      | 51 +++++++++++++++++++++++--------------
 src/cas/uima/sofastream.hpp |  3 ++-
 2 files changed, 34 insertions(+), 20 deletions(-)

diff --git a/src/cas/sofastream.cpp b/src/cas/sofastream.cpp
index be3d237..f2ae7c4 100644
--- a/src/cas/sofastream.cpp
+++ b/src/cas/sofastream.cpp
@@ -286,7 +286,7 @@ namespace uima {
 
   //Constructor
   LocalSofaDataStream::LocalSofaDataStream(SofaFS& aSofaFS) : iv_psofafs(NULL),
-      iv_psofadata(NULL), iv_pstringsofadata(NULL), iv_size(0),
+      iv_sofaarray(lowlevel::FSHeap::INVALID_FS), iv_pstringsofadata(NULL), iv_size(0),
       iv_isstring(false), iv_isintarray(false),
       iv_isfloatarray(false), iv_isbooleanarray(false),
       iv_isbytearray(false),iv_isshortarray(false),
@@ -317,7 +317,7 @@ namespace uima {
       UErrorCode errorcode = U_ZERO_ERROR ;
       iv_size=0;
       int32_t len;
-      iv_psofadata = u_strToUTF8(NULL, 0,
+      u_strToUTF8(NULL, 0,
                                  &len,
                                  iv_psofafs->getStringValue(stringfeat).getBuffer(),
                                  iv_psofafs->getStringValue(stringfeat).length(),
@@ -334,7 +334,7 @@ namespace uima {
       iv_pstringsofadata = new char[len];
       iv_size = len;
       errorcode = U_ZERO_ERROR ;
-      iv_psofadata = u_strToUTF8(iv_pstringsofadata, iv_size,
+      u_strToUTF8(iv_pstringsofadata, iv_size,
                                  &len,
                                  iv_psofafs->getStringValue(stringfeat).getBuffer(),
                                  iv_psofafs->getStringValue(stringfeat).length(),
@@ -354,33 +354,27 @@ namespace uima {
       FeatureStructure arrayFS = iv_psofafs->getFSValue(arrayfeat);
       Type rangeType = arrayFS.getType();
       UnicodeStringRef rangeTypeName = rangeType.getName();
+      iv_sofaarray = arrayFS.iv_tyFS;
 
       if (rangeTypeName.compare(CAS::TYPE_NAME_INTEGER_ARRAY) ==0) {
-        iv_psofadata =  (char*) iv_psofafs->getCAS().getHeap()->getCArrayFromFS(arrayFS.iv_tyFS);
         iv_size = iv_psofafs->getIntArrayFSValue(arrayfeat).size()*sizeof(int);
         iv_isintarray = true;
       } else if (rangeTypeName.compare( CAS::TYPE_NAME_FLOAT_ARRAY) ==0) {
-        iv_psofadata =  (char*) iv_psofafs->getCAS().getHeap()->getCArrayFromFS(arrayFS.iv_tyFS);
         iv_size= iv_psofafs->getFloatArrayFSValue(arrayfeat).size()*sizeof(float);
         iv_isfloatarray = true;
       } else if (rangeTypeName.compare( CAS::TYPE_NAME_BOOLEAN_ARRAY) ==0) {
-        iv_psofadata =  (char*) iv_psofafs->getCAS().getHeap()->get8BitArray(arrayFS.iv_tyFS);
         iv_size= iv_psofafs->getBooleanArrayFSValue(arrayfeat).size()*sizeof(char);
         iv_isbooleanarray = true;
       } else if (rangeTypeName.compare( CAS::TYPE_NAME_BYTE_ARRAY) ==0) {
-        iv_psofadata =  (char*) iv_psofafs->getCAS().getHeap()->get8BitArray(arrayFS.iv_tyFS);
         iv_size= iv_psofafs->getByteArrayFSValue(arrayfeat).size()*sizeof(char);
         iv_isbytearray = true;
       } else if (rangeTypeName.compare( CAS::TYPE_NAME_SHORT_ARRAY) ==0) {
-        iv_psofadata =  (char*) iv_psofafs->getCAS().getHeap()->get16BitArray(arrayFS.iv_tyFS);
         iv_size= iv_psofafs->getShortArrayFSValue(arrayfeat).size()*sizeof(short);
         iv_isshortarray = true;
       } else if (rangeTypeName.compare( CAS::TYPE_NAME_LONG_ARRAY) ==0) {
-        iv_psofadata =  (char*) iv_psofafs->getCAS().getHeap()->get64BitArray(arrayFS.iv_tyFS);
         iv_size= iv_psofafs->getLongArrayFSValue(arrayfeat).size()*sizeof(INT64);
         iv_islongarray = true;
       } else if (rangeTypeName.compare( CAS::TYPE_NAME_DOUBLE_ARRAY) ==0) {
-        iv_psofadata =  (char*) iv_psofafs->getCAS().getHeap()->get64BitArray(arrayFS.iv_tyFS);
         iv_size= iv_psofafs->getDoubleArrayFSValue(arrayfeat).size()*sizeof(INT64);
         iv_isdoublearray = true;
       } else {
@@ -405,6 +399,24 @@ namespace uima {
     return 0;
   }
 
+  //the current address of the data: the heap an array lives on moves when it grows
+  char const * LocalSofaDataStream::getData() const {
+    if (iv_isstring) {
+      return iv_pstringsofadata;
+    }
+    lowlevel::FSHeap const * pHeap = iv_psofafs->getCAS().getHeap();
+    if (iv_isintarray || iv_isfloatarray) {
+      return (char const *) pHeap->getCArrayFromFS(iv_sofaarray);
+    } else if (iv_isbooleanarray || iv_isbytearray) {
+      return pHeap->get8BitArray(iv_sofaarray);
+    } else if (iv_isshortarray) {
+      return (char const *) pHeap->get16BitArray(iv_sofaarray);
+    } else if (iv_islongarray || iv_isdoublearray) {
+      return (char const *) pHeap->get64BitArray(iv_sofaarray);
+    }
+    return NULL;
+  }
+
   //getTotalStreamSize
   INT64 LocalSofaDataStream::getTotalStreamSizeInBytes() {
     if (iv_size==0) {
@@ -421,7 +433,7 @@ namespace uima {
   //read
   int LocalSofaDataStream::read( void * pbuffer, int elementSize, size_t numElements) {
     //check valid sofa data
-    if (iv_psofadata == NULL) {
+    if (getData() == NULL) {
       ErrorMessage errMsg = ErrorMessage(UIMA_MSG_ID_EXC_LOCAL_SOFADATA_NOTSET);
       errMsg.addParam(iv_psofafs->getType().getName());
       UIMA_EXC_THROW_NEW(SofaDataStreamException,
@@ -472,7 +484,7 @@ namespace uima {
     }
 
     //read bytes
-    memcpy(pbuffer,iv_psofadata+iv_curpos,numbytesread);
+    memcpy(pbuffer,getData()+iv_curpos,numbytesread);
 
     //move current read position
     iv_curpos += numbytesread;
@@ -482,7 +494,7 @@ namespace uima {
 
   //seek
   int LocalSofaDataStream::seek(INT64 offset, int origin) {
-    if (iv_psofadata == NULL) {
+    if (getData() == NULL) {
       ErrorMessage errMsg = ErrorMessage(UIMA_MSG_ID_EXC_LOCAL_SOFADATA_NOTSET);
       errMsg.addParam(iv_psofafs->getType().getName());
       UIMA_EXC_THROW_NEW(SofaDataStreamException,
@@ -520,20 +532,21 @@ namespace uima {
       delete[] iv_pstringsofadata;
     iv_pstringsofadata = NULL;
     iv_curpos=0;
-    iv_psofadata = NULL;
+    iv_sofaarray = lowlevel::FSHeap::INVALID_FS;
     iv_size=0;
     iv_isstring=false;
     iv_isintarray=false;
     iv_isfloatarray=false;
+    iv_isbooleanarray=false;
+    iv_isbytearray=false;
+    iv_isshortarray=false;
+    iv_islongarray=false;
+    iv_isdoublearray=false;
   }
 
   //getDataPointer
   const TySofaDataPointer LocalSofaDataStream::getDataPointer() {
-    TySofaDataPointer dataptr=NULL;
-    if (iv_psofadata != NULL) {
-      dataptr = (TySofaDataPointer) iv_psofadata;
-    }
-    return dataptr;
+    return (TySofaDataPointer) getData();
   }
 
 
diff --git a/src/cas/uima/sofastream.hpp b/src/cas/uima/sofastream.hpp
index a2e7d2c..a6ab8f0 100644
--- a/src/cas/uima/sofastream.hpp
+++ b/src/cas/uima/sofastream.hpp
@@ -208,7 +208,8 @@ namespace uima {
 
   private:
     SofaFS * iv_psofafs;           //the SofaFS
-    const char * iv_psofadata;    //ptr to the sofa data
+    char const * getData() const; //current address of the sofa data
+    lowlevel::TyFS iv_sofaarray;  //the array FS holding the sofa data
     char * iv_pstringsofadata;    //ptr to UTF 8 string
     INT64 iv_curpos;              //cursor position
     INT32 iv_size;                //total size of stream in bytes
-- 
2.43.0


From 6eb10650684a54b417a405912137db17b8779278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:14 +0000
Subject: [PATCH 020/115] fix: a local sofa data stream stays inside its data
 and reads whole elements of the right size

---
 src/cas/sofastream.cpp      | 55 +++++++++++++++++++++++++++++++------
 src/cas/uima/sofastream.hpp |  2 +-
 2 files changed, 48 insertions(+), 9 deletions(-)

diff --git a/src/cas/sofastream.cpp b/src/cas/sofastream.cpp
index f2ae7c4..e8ccc2f 100644
--- a/src/cas/sofastream.cpp
+++ b/src/cas/sofastream.cpp
@@ -311,7 +311,7 @@ namespace uima {
     Feature stringfeat = type.getFeatureByBaseName(CAS::FEATURE_BASE_NAME_SOFASTRING);
     Feature arrayfeat = type.getFeatureByBaseName(CAS::FEATURE_BASE_NAME_SOFAARRAY);
 
-    iv_curpos=0;
+    close();
     if  ( !iv_psofafs->isUntouchedFSValue(stringfeat) ) {     //local sofa - data in string
       //convert string to UTF-8
       UErrorCode errorcode = U_ZERO_ERROR ;
@@ -476,12 +476,44 @@ namespace uima {
                          errMsg,
                          UIMA_MSG_ID_EXCON_SOFADATASTREAM,
                          ErrorInfo::unrecoverable);
+    } else if ((iv_isbooleanarray || iv_isbytearray) && elementSize != 1) {
+      ErrorMessage errMsg = ErrorMessage(UIMA_MSG_ID_EXC_LOCAL_SOFADATA_ELEMENTSIZE);
+      errMsg.addParam(elementSize);
+      errMsg.addParam(iv_isbytearray ? CAS::TYPE_NAME_BYTE_ARRAY : CAS::TYPE_NAME_BOOLEAN_ARRAY);
+      UIMA_EXC_THROW_NEW(SofaDataStreamException,
+                         UIMA_ERR_SOFADATASTREAM,
+                         errMsg,
+                         UIMA_MSG_ID_EXCON_SOFADATASTREAM,
+                         ErrorInfo::unrecoverable);
+    } else if (iv_isshortarray && elementSize != sizeof(short)) {
+      ErrorMessage errMsg = ErrorMessage(UIMA_MSG_ID_EXC_LOCAL_SOFADATA_ELEMENTSIZE);
+      errMsg.addParam(elementSize);
+      errMsg.addParam(CAS::TYPE_NAME_SHORT_ARRAY);
+      UIMA_EXC_THROW_NEW(SofaDataStreamException,
+                         UIMA_ERR_SOFADATASTREAM,
+                         errMsg,
+                         UIMA_MSG_ID_EXCON_SOFADATASTREAM,
+                         ErrorInfo::unrecoverable);
+    } else if ((iv_islongarray || iv_isdoublearray) && elementSize != sizeof(INT64)) {
+      ErrorMessage errMsg = ErrorMessage(UIMA_MSG_ID_EXC_LOCAL_SOFADATA_ELEMENTSIZE);
+      errMsg.addParam(elementSize);
+      errMsg.addParam(iv_islongarray ? CAS::TYPE_NAME_LONG_ARRAY : CAS::TYPE_NAME_DOUBLE_ARRAY);
+      UIMA_EXC_THROW_NEW(SofaDataStreamException,
+                         UIMA_ERR_SOFADATASTREAM,
+                         errMsg,
+                         UIMA_MSG_ID_EXCON_SOFADATASTREAM,
+                         ErrorInfo::unrecoverable);
     }
 
-    INT64 numbytesread=elementSize*numElements;
-    if (numbytesread > howManyBytesAvailable() ) {
-      numbytesread= howManyBytesAvailable();
+    //read whole elements, at most what is left
+    size_t available = (size_t) (iv_size - iv_curpos) / elementSize;
+    if (available == 0) {
+      return SOFASTREAMHANDLER_EOF;
     }
+    if (numElements > available) {
+      numElements = available;
+    }
+    INT64 numbytesread = (INT64) (numElements * elementSize);
 
     //read bytes
     memcpy(pbuffer,getData()+iv_curpos,numbytesread);
@@ -489,7 +521,7 @@ namespace uima {
     //move current read position
     iv_curpos += numbytesread;
 
-    return numbytesread;
+    return (int) numElements;
   }
 
   //seek
@@ -504,15 +536,17 @@ namespace uima {
                          ErrorInfo::unrecoverable);
     }
 
+    INT64 newpos = 0;
     switch (origin) {
     case SEEK_SET:
-      iv_curpos = offset;
+      newpos = offset;
       break ;
     case SEEK_CUR:
-      iv_curpos += offset;
+      //compare before adding: the sum could overflow
+      newpos = (offset > iv_size - iv_curpos) ? -1 : iv_curpos + offset;
       break ;
     case SEEK_END:
-      iv_curpos = getTotalStreamSizeInBytes() - offset;
+      newpos = (offset < 0) ? -1 : iv_size - offset;
       break ;
     default:
       ErrorMessage errMsg = ErrorMessage(UIMA_MSG_ID_EXC_SOFADATASTREAM_INVALID_SEEK_ORIGIN);
@@ -523,6 +557,11 @@ namespace uima {
                          UIMA_MSG_ID_EXCON_SOFADATASTREAM,
                          ErrorInfo::unrecoverable);
     }
+    //stay within the data
+    if (newpos < 0 || newpos > iv_size) {
+      return SOFASTREAMHANDLER_EOF;
+    }
+    iv_curpos = newpos;
     return 0;
   }
 
diff --git a/src/cas/uima/sofastream.hpp b/src/cas/uima/sofastream.hpp
index a6ab8f0..d4a93bc 100644
--- a/src/cas/uima/sofastream.hpp
+++ b/src/cas/uima/sofastream.hpp
@@ -212,7 +212,7 @@ namespace uima {
     lowlevel::TyFS iv_sofaarray;  //the array FS holding the sofa data
     char * iv_pstringsofadata;    //ptr to UTF 8 string
     INT64 iv_curpos;              //cursor position
-    INT32 iv_size;                //total size of stream in bytes
+    INT64 iv_size;                //total size of stream in bytes
     bool iv_isstring;             //is sofa data stored in a String Feature
     bool iv_isintarray;           //is sofa data stored in a FS array of ints
     bool iv_isfloatarray;         //is sofa data stored in a FS array of floats
-- 
2.43.0


From a8d9230638ae05bfb9210e8167961b26fc8eb73e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:42 +0000
Subject: [PATCH 021/115] fix: document text, Sofa name and MIME type given as
 references into the CAS survive the growth of its heaps

---
 src/cas/cas.cpp | 59 +++++++++++++++++++++++--------------------------
 1 file changed, 28 insertions(+), 31 deletions(-)

diff --git a/src/cas/cas.cpp b/src/cas/cas.cpp
index 99759ad..ddc09d7 100644
--- a/src/cas/cas.cpp
+++ b/src/cas/cas.cpp
@@ -302,10 +302,9 @@ namespace uima {
       delete iv_indexRepository;
       iv_indexRepository = NULL;
 		}
-    if (this->iv_cpDocument != NULL) {
-      delete[] this->iv_cpDocument;
-      this->iv_cpDocument = NULL;
-    }
+    delete[] this->iv_copyOfDocument;
+    this->iv_copyOfDocument = NULL;
+    this->iv_cpDocument = NULL;
     //initial call to delete object
     if (this->isbaseCas) {
       this->iv_baseCas->isDeletingViews = true;
@@ -680,29 +679,21 @@ namespace uima {
     if (cpDocument == NULL) {
       assert( uiLength == 0 );
     }
-    if (bCopyToCAS && ( cpDocument != NULL ) ) {
-      copyDocumentString(UnicodeStringRef(cpDocument, uiLength));
-    } else {
-      iv_cpDocument = cpDocument;
-      iv_uiDocumentLength = uiLength;
-    }
-    SofaFS thisSofa = getSofa();
-    if (!thisSofa.isValid()) {
-      thisSofa = createInitialSofa(UnicodeStringRef("text"));
-    }
-    thisSofa.setLocalSofaData(UnicodeStringRef(iv_cpDocument, iv_uiDocumentLength));
+    // the view always works on a copy of its own
+    setDocumentText(UnicodeStringRef(cpDocument, uiLength));
   }
 
   void CAS::setDocumentText(UnicodeStringRef const text) {
     if (isbaseCas) {
       invalidBaseCasMethod();
     }
+    // text may reside on the string heap, which moves when the Sofa is created
+    copyDocumentString(text);
     SofaFS thisSofa = getSofa();
     if (!thisSofa.isValid()) {
       thisSofa = createInitialSofa(UnicodeStringRef("text"));
     }
-    copyDocumentString(text);
-    thisSofa.setLocalSofaData(text);
+    thisSofa.setLocalSofaData(UnicodeStringRef(iv_cpDocument, iv_uiDocumentLength));
   }
 
   // internal use only
@@ -711,18 +702,20 @@ namespace uima {
     SofaFS thisSofa = getSofa();
     assert( thisSofa.isValid() );
     thisSofa.setStringValue(internal::FSPromoter::promoteFeature(internal::gs_tySofaStringFeature,
-                            getHeap()->getTypeSystem()), text);
+                            getHeap()->getTypeSystem()), UnicodeStringRef(iv_cpDocument, iv_uiDocumentLength));
   }
 
   void CAS::setSofaDataString(UnicodeStringRef const text, icu::UnicodeString const & mimetype) {
     if (isbaseCas) {
       invalidBaseCasMethod();
     }
+    // text may reside on the string heap, which moves when the Sofa is created
+    copyDocumentString(text);
     SofaFS thisSofa = getSofa();
     if (!thisSofa.isValid()) {
       thisSofa = createInitialSofa(mimetype);
     }
-    setDocumentText(text);
+    thisSofa.setLocalSofaData(UnicodeStringRef(iv_cpDocument, iv_uiDocumentLength));
   }
 
   UnicodeStringRef CAS::getDocumentText()const {
@@ -934,14 +927,16 @@ namespace uima {
                          ErrorInfo::unrecoverable
                         );
     }
+    // mimeType may reside on the string heap, which moves when the name is added
+    icu::UnicodeString const usMimeType(mimeType.getBuffer(), mimeType.length());
     Type sofaT = getTypeSystem().getType(CAS::TYPE_NAME_SOFA);
     lowlevel::TyFS tySofa = iv_heap->createFS(internal::FSPromoter::demoteType(sofaT));
     SofaFS newSofa = (SofaFS)internal::FSPromoter::promoteFS(tySofa, *this->iv_baseCas);
     bumpSofaCount();
     newSofa.setIntValue(internal::FSPromoter::promoteFeature(internal::gs_tySofaNumFeature, iv_heap->getTypeSystem()), iv_baseCas->iv_sofaCount);
     newSofa.setStringValue(internal::FSPromoter::promoteFeature(internal::gs_tySofaIDFeature, iv_heap->getTypeSystem()), sofaName);
-    if (mimeType.length() > 0) {
-      newSofa.setStringValue(internal::FSPromoter::promoteFeature(internal::gs_tySofaMimeFeature, iv_heap->getTypeSystem()), mimeType);
+    if (usMimeType.length() > 0) {
+      newSofa.setStringValue(internal::FSPromoter::promoteFeature(internal::gs_tySofaMimeFeature, iv_heap->getTypeSystem()), usMimeType);
     }
     iv_baseCas->iv_indexRepository->add(tySofa);
     return newSofa;
@@ -1071,16 +1066,17 @@ namespace uima {
   void CAS::copyDocumentString(UnicodeStringRef pDoc) {
     // must have a 2nd copy of the document because the copy in the stringHeap will
     // move when the stringHeap grows, unlike the older segmented heap.
-    if (pDoc.length() == 0) {
-      return;
-    }
-    if (iv_copyOfDocument)
-      delete [] iv_copyOfDocument;
     size_t len = pDoc.length();
-    iv_copyOfDocument = new UChar [len + 1];
-    memcpy(iv_copyOfDocument, pDoc.getBuffer(), 2*len);
-    // The internal document must be 0 terminated!
-    iv_copyOfDocument[len] = 0;
+    UChar * newCopy = NULL;
+    if (len > 0) {
+      newCopy = new UChar [len + 1];
+      memcpy(newCopy, pDoc.getBuffer(), 2*len);
+      // The internal document must be 0 terminated!
+      newCopy[len] = 0;
+    }
+    // pDoc may be (part of) the current document: release that only now
+    delete [] iv_copyOfDocument;
+    iv_copyOfDocument = newCopy;
     iv_cpDocument = iv_copyOfDocument;
     iv_uiDocumentLength = len;
   }
@@ -1135,8 +1131,9 @@ namespace uima {
     lowlevel::TyFS tySofa = iv_heap->createFS(internal::FSPromoter::demoteType(sofaT));
     SofaFS newSofa = (SofaFS)internal::FSPromoter::promoteFS(tySofa, *this->iv_baseCas);
     newSofa.setIntValue(internal::FSPromoter::promoteFeature(internal::gs_tySofaNumFeature, iv_heap->getTypeSystem()), 1);
-    newSofa.setStringValue(internal::FSPromoter::promoteFeature(internal::gs_tySofaIDFeature, iv_heap->getTypeSystem()), NAME_DEFAULT_SOFA);
+    // first, mimeType may reside on the string heap, which moves when it grows
     newSofa.setStringValue(internal::FSPromoter::promoteFeature(internal::gs_tySofaMimeFeature, iv_heap->getTypeSystem()), mimeType);
+    newSofa.setStringValue(internal::FSPromoter::promoteFeature(internal::gs_tySofaIDFeature, iv_heap->getTypeSystem()), NAME_DEFAULT_SOFA);
     iv_baseCas->iv_indexRepository->add(tySofa);
     registerInitialSofa();
     return newSofa;
-- 
2.43.0


From 4c0cf40634dc9ad48b6b1d369dd6d0ddf1e9302e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:41 +0000
Subject: [PATCH 022/115] fix: removing an FS from an index, and adding one to
 a single index, refresh the iterators over its supertypes

---
 src/cas/uima/lowlevel_indexrepository.hpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/cas/uima/lowlevel_indexrepository.hpp b/src/cas/uima/lowlevel_indexrepository.hpp
index c4b4ea6..346416c 100644
--- a/src/cas/uima/lowlevel_indexrepository.hpp
+++ b/src/cas/uima/lowlevel_indexrepository.hpp
@@ -268,6 +268,7 @@ namespace uima {
       TyFSType type = iv_rFSHeap.getType(fs);
       UIMA_TPRINT("Removing fs of type " << iv_rFSHeap.getTypeSystem().getTypeName(type) << ": " << (int) fs);
       assert( type < iv_indexes.size() );
+      iv_cacheDirtyFlags[type].clear();
       std::vector<internal::SingleIndex*>& typeIndexes = iv_indexes[type];
 
       std::vector<internal::SingleIndex*>::iterator it;
@@ -280,13 +281,21 @@ namespace uima {
 
     inline void IndexRepository::add(TyFS fs, IndexDefinition::TyIndexID const & crID) {
       assert( iv_bIsInitialized );
-      internal::SingleIndex* ix = getSingleIndexForFS(fs, crID);
+      TyFSType type = iv_rFSHeap.getType(fs);
+      internal::SingleIndex* ix = getSingleIndexForType(type, crID);
+      iv_cacheDirtyFlags[type].clear();
+      if (!iv_isUsed[type]) {
+        iv_isUsed[type] = true;
+        iv_usedIndexes.push_back(type);
+      }
       ix->add(fs);
     }
 
     inline void IndexRepository::remove(TyFS fs, IndexDefinition::TyIndexID const & crID) {
       assert( iv_bIsInitialized );
-      internal::SingleIndex* ix = getSingleIndexForFS(fs, crID);
+      TyFSType type = iv_rFSHeap.getType(fs);
+      internal::SingleIndex* ix = getSingleIndexForType(type, crID);
+      iv_cacheDirtyFlags[type].clear();
       ix->remove(fs);
     }
 
-- 
2.43.0


From 06e56172485605b400dd85f3b2507b32ea8662ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:41 +0000
Subject: [PATCH 023/115] fix: an FS of a type without index can be removed
 from the index repository again

---
 src/cas/uima/lowlevel_indexrepository.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/cas/uima/lowlevel_indexrepository.hpp b/src/cas/uima/lowlevel_indexrepository.hpp
index 346416c..303be6c 100644
--- a/src/cas/uima/lowlevel_indexrepository.hpp
+++ b/src/cas/uima/lowlevel_indexrepository.hpp
@@ -270,6 +270,14 @@ namespace uima {
       assert( type < iv_indexes.size() );
       iv_cacheDirtyFlags[type].clear();
       std::vector<internal::SingleIndex*>& typeIndexes = iv_indexes[type];
+      //if there is no index defined for this type
+      if (typeIndexes.size() == 0 ) {
+        std::vector<TyFS>::iterator fsIt = std::find(iv_undefinedindex.begin(), iv_undefinedindex.end(), fs);
+        if (fsIt != iv_undefinedindex.end()) {
+          iv_undefinedindex.erase(fsIt);
+        }
+        return;
+      }
 
       std::vector<internal::SingleIndex*>::iterator it;
       for (it = typeIndexes.begin(); it != typeIndexes.end(); ++it) {
-- 
2.43.0


From f565c80e9d35625065851753bdcc68826b737b48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:41 +0000
Subject: [PATCH 024/115] fix: an FS that is in several indexes is listed once
 as member of its view

---
 src/cas/lowlevel_indexrepository.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/cas/lowlevel_indexrepository.cpp b/src/cas/lowlevel_indexrepository.cpp
index d8a90e1..f77c07e 100644
--- a/src/cas/lowlevel_indexrepository.cpp
+++ b/src/cas/lowlevel_indexrepository.cpp
@@ -198,6 +198,7 @@ namespace uima {
 	  // eliminate duplicates
       sort(fillit.begin(), fillit.end());
       vector<TyFS>::iterator end = unique(fillit.begin(), fillit.end());
+      fillit.erase(end, fillit.end());
     }
 
     void IndexRepository::reset() {
-- 
2.43.0


From 7dbd5c0fa72074ad52ca50c68b4f7c9a130c591c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:41 +0000
Subject: [PATCH 025/115] fix: removing an FS from an ordered or set index does
 not remove a different FS with equal keys

---
 src/cas/lowlevel_internal_indexes.cpp      | 6 +++++-
 src/cas/uima/lowlevel_internal_indexes.hpp | 5 ++++-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/cas/lowlevel_internal_indexes.cpp b/src/cas/lowlevel_internal_indexes.cpp
index 38d5d14..1a2cb65 100644
--- a/src/cas/lowlevel_internal_indexes.cpp
+++ b/src/cas/lowlevel_internal_indexes.cpp
@@ -651,7 +651,11 @@ namespace uima {
       void OrderedSingleIndex::remove(TyFS fs) {
         IndexComparatorLess comp(iv_cpComparator, iv_crFSHeap);
         TyStructures::iterator it = lower_bound( iv_tyStructures.begin(), iv_tyStructures.end(), fs, comp);
-        if ( it != iv_tyStructures.end() ) {
+        // among the elements that are equal to fs, find fs itself
+        while ( it != iv_tyStructures.end() && *it != fs && !comp(fs, *it) ) {
+          ++it;
+        }
+        if ( it != iv_tyStructures.end() && *it == fs ) {
           iv_tyStructures.erase(it);
         }
       }
diff --git a/src/cas/uima/lowlevel_internal_indexes.hpp b/src/cas/uima/lowlevel_internal_indexes.hpp
index 9abe1c2..38b23c2 100644
--- a/src/cas/uima/lowlevel_internal_indexes.hpp
+++ b/src/cas/uima/lowlevel_internal_indexes.hpp
@@ -206,7 +206,10 @@ namespace uima {
         }
         void remove(TyFS fs) {
           assert( EXISTS(iv_pStructures) );
-          (void) iv_pStructures->erase(fs);
+          TyStructures::iterator it = iv_pStructures->find(fs);
+          if ( it != iv_pStructures->end() && *it == fs ) {
+            iv_pStructures->erase(it);
+          }
         }
 
         void reset();
-- 
2.43.0


From bfd5ae0839a21020287f402a9555fc707d5c154f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:41 +0000
Subject: [PATCH 026/115] fix: moveTo on a filtered iterator does not stop at a
 filtered element

---
 src/cas/lowlevel_index.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/cas/lowlevel_index.cpp b/src/cas/lowlevel_index.cpp
index d071c5c..73c870f 100644
--- a/src/cas/lowlevel_index.cpp
+++ b/src/cas/lowlevel_index.cpp
@@ -172,7 +172,11 @@ namespace uima {
 
       bool moveTo(TyFS fs) {
         assert( EXISTS(iv_pIterator) );
-        return iv_pIterator->moveTo(fs);
+        if (! iv_pIterator->moveTo(fs) ) {
+          return false;
+        }
+        moveToNextUnfiltered();
+        return isValid();
       }
 
     };
-- 
2.43.0


From b0075687569ab0bf247fe47f87e70c0059c3c61b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:41 +0000
Subject: [PATCH 027/115] fix: moveTo in a FIFO index positions at the FS
 itself, not behind it

---
 src/cas/lowlevel_internal_indexes.cpp | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/cas/lowlevel_internal_indexes.cpp b/src/cas/lowlevel_internal_indexes.cpp
index 1a2cb65..92007bf 100644
--- a/src/cas/lowlevel_internal_indexes.cpp
+++ b/src/cas/lowlevel_internal_indexes.cpp
@@ -165,9 +165,6 @@ namespace uima {
 
           if (iv_cpComparator == NULL) {
             cit = find(iv_crStructures.begin(), iv_crStructures.end(), fs);
-            if (cit != iv_crStructures.end()) {
-              ++cit;
-            }
           } else {
             // first try to find the same fs
             cit = find(iv_crStructures.begin(), iv_crStructures.end(), fs);
-- 
2.43.0


From b8b3ee24f37814c6f7dd8a45ebd83461f5a72d25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:42 +0000
Subject: [PATCH 028/115] fix: copying a default-constructed FSIterator yields
 an invalid iterator instead of a crash

---
 src/cas/fsiterator.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/cas/fsiterator.cpp b/src/cas/fsiterator.cpp
index deb54e5..b8ca987 100644
--- a/src/cas/fsiterator.cpp
+++ b/src/cas/fsiterator.cpp
@@ -76,7 +76,9 @@ namespace uima {
     }
     iv_pIterator = NULL;
     iv_cas = crOther.iv_cas;
-    iv_pIterator = crOther.iv_pIterator->clone();
+    if (crOther.iv_pIterator != NULL) {
+      iv_pIterator = crOther.iv_pIterator->clone();
+    }
     return *this;
   }
 
-- 
2.43.0


From 755afaa0360b067f5bd2d9a2332852b65e9ac514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:42 +0000
Subject: [PATCH 029/115] fix: getIndex with an unknown label throws
 InvalidIndexIDException before it looks up the type

---
 src/cas/fsindexrepository.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/cas/fsindexrepository.cpp b/src/cas/fsindexrepository.cpp
index 014c341..344c1ae 100644
--- a/src/cas/fsindexrepository.cpp
+++ b/src/cas/fsindexrepository.cpp
@@ -63,6 +63,16 @@ namespace uima {
   FSIndexRepository::~FSIndexRepository() {}
 
   FSIndex FSIndexRepository::getIndex(icu::UnicodeString const & crLabel) const {
+    if (! isValidIndexID( crLabel ) ) {
+      ErrorMessage msg(UIMA_MSG_ID_EXCON_GETTING_INDEX);
+      msg.addParam(crLabel);
+      UIMA_EXC_THROW_NEW(InvalidIndexIDException,
+                         UIMA_ERR_INVALID_INDEX_ID,
+                         UIMA_MSG_ID_EXC_INVALID_INDEX_ID,
+                         msg,
+                         ErrorInfo::recoverable
+                        );
+    }
     return getIndex(crLabel, getTypeForIndex(crLabel));
   }
 
-- 
2.43.0


From 9e09a2bda39df9683215a421ad3dd0d30042b9d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:48 +0000
Subject: [PATCH 030/115] fix: keep the key vectors of an index comparator
 parallel when the key is a string subtype

---
 src/cas/lowlevel_indexcomparator.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/cas/lowlevel_indexcomparator.cpp b/src/cas/lowlevel_indexcomparator.cpp
index bea89cc..bedca97 100644
--- a/src/cas/lowlevel_indexcomparator.cpp
+++ b/src/cas/lowlevel_indexcomparator.cpp
@@ -96,7 +96,8 @@ namespace uima {
           iv_appropTypes.push_back( BUILTIN_TYPE_INTEGER );
         } else if (tyAppropType == crTypeSystem.getTypeByName( CAS::TYPE_NAME_FLOAT)) {
           iv_appropTypes.push_back( BUILTIN_TYPE_FLOAT );
-        } else if (tyAppropType == crTypeSystem.getTypeByName( CAS::TYPE_NAME_STRING)) {
+        } else if (crTypeSystem.subsumes( crTypeSystem.getTypeByName( CAS::TYPE_NAME_STRING), tyAppropType )) {
+          // string or one of its subtypes
           iv_appropTypes.push_back( BUILTIN_TYPE_STRING );
         } else if (tyAppropType == crTypeSystem.getTypeByName( CAS::TYPE_NAME_BOOLEAN)) {
           iv_appropTypes.push_back( BUILTIN_TYPE_BOOLEAN );
@@ -111,6 +112,8 @@ namespace uima {
         }
         else {
           assertWithMsg(false, "Type not supported for key features!");
+          // keep the vectors parallel; values of this type are not compared
+          iv_appropTypes.push_back( BUILTIN_TYPE_INVALID );
         }
       }
       iv_comparators.push_back(enComp);
-- 
2.43.0


From d1629c8e488e5656e86ca05aff1415a8ad31cdb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:48 +0000
Subject: [PATCH 031/115] fix: an empty type priority list does not run off its
 end

---
 src/framework/casdefinition.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/framework/casdefinition.cpp b/src/framework/casdefinition.cpp
index ad6ea2c..2e86324 100644
--- a/src/framework/casdefinition.cpp
+++ b/src/framework/casdefinition.cpp
@@ -450,7 +450,7 @@ namespace uima {
         vector<icu::UnicodeString> const & crTypeChain = cpTypePriority->getTypeOrder();
         size_t i;
         // walk along the chain
-        for (i=0; i<crTypeChain.size()-1; ++i) {
+        for (i=0; i+1<crTypeChain.size(); ++i) {
           uima::lowlevel::TyFSType t1 = rTypeSystem.getTypeByName(crTypeChain[i]);
           if (t1 == uima::lowlevel::TypeSystem::INVALID_TYPE) {
             UIMA_EXC_THROW_NEW(UnknownTypeException,
-- 
2.43.0


From 99d9bc892bda8fcf01a6b12947919e1809a3d59b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:57 +0000
Subject: [PATCH 032/115] fix: binary deserialization of a CAS without a Sofa
 keeps the members of its initial view

---
 src/cas/internal_casdeserializer.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cas/internal_casdeserializer.cpp b/src/cas/internal_casdeserializer.cpp
index dff0b57..29f0d47 100644
--- a/src/cas/internal_casdeserializer.cpp
+++ b/src/cas/internal_casdeserializer.cpp
@@ -638,13 +638,14 @@ namespace uima {
       if (loopSize > 0) {
         lastSegmentUsed = 0;
         perLoopIndexedFSs.insert(perLoopIndexedFSs.end(), cit+1, cit+1+loopSize);
-        cit += loopSize + 1;
 
         for (loopit = perLoopIndexedFSs.begin(); loopit != perLoopIndexedFSs.end(); ++loopit) {
           assert( *loopit < iMaxOffset );
           crIndexRep->add( *loopit );
         }
       }
+      // also when there is no Sofa
+      cit += loopSize + 1;
 
       // book keeping for all Sofas
       rCAS.getBaseCas()->iv_sofaCount = 1; // reserve for initial view
-- 
2.43.0


From 5dbc54686b8d87827c0f2b3cc980110f4c6ca804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:57 +0000
Subject: [PATCH 033/115] fix: deserializeBlob indexes FSs only after all heaps
 are there: sorted indexes compare long and double keys

---
 src/cas/internal_casdeserializer.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/cas/internal_casdeserializer.cpp b/src/cas/internal_casdeserializer.cpp
index 29f0d47..f9f40fc 100644
--- a/src/cas/internal_casdeserializer.cpp
+++ b/src/cas/internal_casdeserializer.cpp
@@ -899,13 +899,11 @@ namespace uima {
       }
       intPtr += 1 + uiRefHeapLength;
 
-      // create FS indexes
+      // FS indexes are created last: their keys may be on the heaps that follow
       size_t uiIndexedFSLength = intPtr[0];
       if (uiIndexedFSLength > 0) {
-        uima::CAS * baseCAS = rCAS.getBaseCas();
         iv_vecIndexedFSs.resize(uiIndexedFSLength);
         memcpy(&iv_vecIndexedFSs[0], intPtr+1, 4*uiIndexedFSLength);
-        deserializeIndexedFSs(iv_vecIndexedFSs, *baseCAS);
       }
       intPtr += 1 + uiIndexedFSLength;
 
@@ -940,6 +938,10 @@ namespace uima {
         memcpy(ty64BitHeap.getHeapStart(), intPtr+1, 8*ui64BitHeapLength);
       }
 
+      // create FS indexes
+      if (uiIndexedFSLength > 0) {
+        deserializeIndexedFSs(iv_vecIndexedFSs, *rCAS.getBaseCas());
+      }
 
 
     }
-- 
2.43.0


From 586877f2495d876446329cb67b0662f72a1cf4af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:57 +0000
Subject: [PATCH 034/115] fix: deserializeBlob resets the CAS first: views
 without members kept those of the previous content

---
 src/cas/internal_casdeserializer.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/cas/internal_casdeserializer.cpp b/src/cas/internal_casdeserializer.cpp
index f9f40fc..db8475e 100644
--- a/src/cas/internal_casdeserializer.cpp
+++ b/src/cas/internal_casdeserializer.cpp
@@ -856,6 +856,9 @@ namespace uima {
       CHECK(intPtr[0] == ((int*)key)[0]);
       CHECK(intPtr[1] == 1);
 
+      // nothing of the previous content may stay (views, their indexes and documents)
+      rCAS.getBaseCas()->reset();
+
       // get a heap of references
       uima::internal::CASImpl & crCASImpl = uima::internal::CASImpl::promoteCAS(rCAS);
       uima::lowlevel::FSHeap & crHeap = crCASImpl.getHeap();
-- 
2.43.0


From b58344286866213a1ab5f0685d9839c6161661af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:14 +0000
Subject: [PATCH 035/115] fix: re-merging a string subtype compares the sets of
 allowed values for equality

---
 src/framework/casdefinition.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/framework/casdefinition.cpp b/src/framework/casdefinition.cpp
index 2e86324..f9e41af 100644
--- a/src/framework/casdefinition.cpp
+++ b/src/framework/casdefinition.cpp
@@ -144,7 +144,7 @@ namespace uima {
                 // check that string occurs in the allowed values
                 bool bContainsString = false;
                 for (j=0; j<uiStringNum; ++j) {
-                  if (crString != allowedStringValues[j]) {
+                  if (crString == allowedStringValues[j]) {
                     bContainsString = true;
                     break;
                   }
-- 
2.43.0


From 2940d276d9434c4c841e2b4cff64b361671cab4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:14 +0000
Subject: [PATCH 036/115] fix: redeclaring a type that is no string subtype as
 string subtype is an incompatible parent, not undefined behaviour

---
 src/framework/casdefinition.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/framework/casdefinition.cpp b/src/framework/casdefinition.cpp
index f9e41af..96d6563 100644
--- a/src/framework/casdefinition.cpp
+++ b/src/framework/casdefinition.cpp
@@ -133,6 +133,13 @@ namespace uima {
             return rTypeSystem.createStringSubtype(crTypeToBeCreated, allowedStringValues, crCreatorID);
           } else {
             // check string subtype
+            if (parent != rTypeSystem.getParentType(typeToBeCreated)) {
+              UIMA_EXC_THROW_NEW(IncompatibleParentTypesException,
+                                 UIMA_ERR_INCOMPATIBLE_PARENT_TYPES,
+                                 ErrorMessage(UIMA_MSG_ID_EXC_WRONG_PARENT_TYPE, crTypeToBeCreated),
+                                 ErrorMessage(UIMA_MSG_ID_EXCON_CREATING_TYPESYSTEM_FROM_CONFIG),
+                                 ErrorInfo::recoverable);
+            }
             vector<icu::UnicodeString> const & crStringValues = rTypeSystem.getStringsForStringSubtype(typeToBeCreated);
             bool bAreStringSetsEqual = false;
             if (crStringValues.size() == crAllowedValues.size()) {
-- 
2.43.0


From fcddf85d5b505cb73d5d755780272b30929e72b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:14 +0000
Subject: [PATCH 037/115] fix: a cycle of supertypes in a type system
 description is reported instead of recursing forever

---
 src/framework/casdefinition.cpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/framework/casdefinition.cpp b/src/framework/casdefinition.cpp
index 96d6563..45c81db 100644
--- a/src/framework/casdefinition.cpp
+++ b/src/framework/casdefinition.cpp
@@ -115,6 +115,20 @@ namespace uima {
         TypeDescription const * cpTypeDesc = crTSDesc.getTypeDescription(crTypeToBeCreated);
         icu::UnicodeString const & crSuperTypeName = cpTypeDesc->getSuperTypeName();
 
+        // the chain of supertypes must end: a type cannot be its own ancestor
+        size_t uiChainLength = 0;
+        icu::UnicodeString ancestor = crSuperTypeName;
+        while (crTSDesc.hasTypeDescription(ancestor)) {
+          if (++uiChainLength > crTSDesc.getTypeDescriptions().size()) {
+            UIMA_EXC_THROW_NEW(IncompatibleParentTypesException,
+                               UIMA_ERR_INCOMPATIBLE_PARENT_TYPES,
+                               ErrorMessage(UIMA_MSG_ID_EXC_WRONG_PARENT_TYPE, crTypeToBeCreated),
+                               ErrorMessage(UIMA_MSG_ID_EXCON_CREATING_TYPESYSTEM_FROM_CONFIG),
+                               ErrorInfo::recoverable);
+          }
+          ancestor = crTSDesc.getTypeDescription(ancestor)->getSuperTypeName();
+        }
+
         // first merge the parent
         uima::lowlevel::TyFSType parent = mergeType(rTypeSystem, crSuperTypeName, crTSDesc, crCreatorID);
 
-- 
2.43.0


From 077ad13f6804c748e06904303c7bd0d7377bd56f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:14 +0000
Subject: [PATCH 038/115] fix: a feature records its creator, not its own name,
 as creator ID

---
 src/cas/lowlevel_typesystem.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cas/lowlevel_typesystem.cpp b/src/cas/lowlevel_typesystem.cpp
index cb92f04..3d47ad3 100644
--- a/src/cas/lowlevel_typesystem.cpp
+++ b/src/cas/lowlevel_typesystem.cpp
@@ -273,7 +273,7 @@ namespace uima {
       iv_vecRangeTypes.push_back(tyRange);
       iv_vecMultiRefs.push_back(multiRef);
       iv_vecIntroducedFeatures[tyIntro].push_back(newFeature);
-      iv_vecFeatureCreatorIDs.push_back(crusName);
+      iv_vecFeatureCreatorIDs.push_back(crusCreatorID);
 
       assert( debugIsTreeConsistent() );
       return newFeature;
-- 
2.43.0


From c1adab5be2dd4af7f553ba32a0c2667b5ee100e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:14 +0000
Subject: [PATCH 039/115] fix: the remaining primitive and array types, and
 string subtypes, are final as well

---
 src/cas/uima/lowlevel_typesystem.hpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/cas/uima/lowlevel_typesystem.hpp b/src/cas/uima/lowlevel_typesystem.hpp
index 2e30dbf..534ef17 100644
--- a/src/cas/uima/lowlevel_typesystem.hpp
+++ b/src/cas/uima/lowlevel_typesystem.hpp
@@ -172,7 +172,12 @@ namespace uima {
         assert( isValidType(tyType) );
         return ( tyType == uima::internal::gs_tyIntegerType )
                || ( tyType == uima::internal::gs_tyFloatType )
-               || ( tyType == uima::internal::gs_tyStringType );
+               || ( tyType == uima::internal::gs_tyStringType )
+               || ( tyType == uima::internal::gs_tyBooleanType )
+               || ( tyType == uima::internal::gs_tyByteType )
+               || ( tyType == uima::internal::gs_tyShortType )
+               || ( tyType == uima::internal::gs_tyLongType )
+               || ( tyType == uima::internal::gs_tyDoubleType );
       }
 
       void createPredefinedCASTypes();
@@ -303,7 +308,13 @@ namespace uima {
                && (tyType != uima::internal::gs_tyFSArrayType)
                && (tyType != uima::internal::gs_tyIntArrayType)
                && (tyType != uima::internal::gs_tyFloatArrayType)
-               && (tyType != uima::internal::gs_tyStringArrayType);
+               && (tyType != uima::internal::gs_tyStringArrayType)
+               && (tyType != uima::internal::gs_tyBooleanArrayType)
+               && (tyType != uima::internal::gs_tyByteArrayType)
+               && (tyType != uima::internal::gs_tyShortArrayType)
+               && (tyType != uima::internal::gs_tyLongArrayType)
+               && (tyType != uima::internal::gs_tyDoubleArrayType)
+               && (iv_stringSubtypeToStringSet.find(tyType) == iv_stringSubtypeToStringSet.end());
       }
 
       /**
-- 
2.43.0


From 3cb72decaff672e334d69670bc8d9297b3986432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:35 +0000
Subject: [PATCH 040/115] fix: resetting a type system forgets its string
 subtypes

---
 src/cas/lowlevel_typesystem.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/cas/lowlevel_typesystem.cpp b/src/cas/lowlevel_typesystem.cpp
index 3d47ad3..b704639 100644
--- a/src/cas/lowlevel_typesystem.cpp
+++ b/src/cas/lowlevel_typesystem.cpp
@@ -829,6 +829,8 @@ namespace uima {
       iv_bIsCommitted = false;
       iv_bBuiltinTypesCreated = false;
       iv_customTypePrioritySet = false;
+      iv_enumStrings.clear();
+      iv_stringSubtypeToStringSet.clear();
       createPredefinedCASTypes();
       iv_mapTypePriority.clear();
       iv_typePriorityList.clear();
-- 
2.43.0


From 4bafd2369ce246f652d3ad3ea99f9f3b411a6f3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:41 +0000
Subject: [PATCH 041/115] fix: a long _indexed attribute in XCAS does not
 overrun a 256 byte buffer

---
 src/cas/xcasdeserializer_handler.cpp | 22 ++++++++--------------
 1 file changed, 8 insertions(+), 14 deletions(-)

diff --git a/src/cas/xcasdeserializer_handler.cpp b/src/cas/xcasdeserializer_handler.cpp
index 505ddeb..e090956 100644
--- a/src/cas/xcasdeserializer_handler.cpp
+++ b/src/cas/xcasdeserializer_handler.cpp
@@ -457,13 +457,10 @@ namespace uima {
 //               else if (!attrValue.compare("false") == 0)
 //                 sofaRef = atoi(uniStr2SingleByteStr(attrValue,"UTF-8").c_str());
 //             }
-          char indexes[256];
-          // we have a problem here if number of indexed views is ridiculously big
-          strcpy(indexes, UnicodeStringRef(attrValue).asUTF8().c_str());
-          char* ptr = strtok (indexes," ");
-          while (ptr != NULL) {
-            sofaRef->push_back(atoi(ptr));
-            ptr = strtok (NULL, " ");
+          std::istringstream indexes(UnicodeStringRef(attrValue).asUTF8());
+          std::string index;
+          while (indexes >> index) {
+            sofaRef->push_back(atoi(index.c_str()));
           }
         } else {
           handleFeature(type, addr, attrName, attrValue, false);
@@ -529,13 +526,10 @@ namespace uima {
 //                 indexRep = 1;
 //               else if (!attrValue.compare("false") == 0)
 //                 indexRep = atoi(uniStr2SingleByteStr(attrValue,"UTF-8").c_str());
-        char indexes[256];
-        // we have a problem here if number of indexed views is ridiculously big
-        strcpy(indexes, UnicodeStringRef(attrValue).asUTF8().c_str());
-        char* ptr = strtok (indexes," ");
-        while (ptr != NULL) {
-          indexRep->push_back(atoi(ptr));
-          ptr = strtok (NULL, " ");
+        std::istringstream indexes(UnicodeStringRef(attrValue).asUTF8());
+        std::string index;
+        while (indexes >> index) {
+          indexRep->push_back(atoi(index.c_str()));
         }
       } else {
         ErrorInfo errInfo;
-- 
2.43.0


From 8d780110eca9faa64e5e991d39bd6cd471dcd6ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:41 +0000
Subject: [PATCH 042/115] fix: XCAS Sofa and view numbers are checked before
 they select a view

---
 src/cas/xcasdeserializer_handler.cpp | 41 ++++++++++++++++++++++++----
 1 file changed, 36 insertions(+), 5 deletions(-)

diff --git a/src/cas/xcasdeserializer_handler.cpp b/src/cas/xcasdeserializer_handler.cpp
index e090956..0d3ac5c 100644
--- a/src/cas/xcasdeserializer_handler.cpp
+++ b/src/cas/xcasdeserializer_handler.cpp
@@ -59,6 +59,19 @@ using namespace std;
 
 namespace uima {
 
+  /** report a Sofa or view number of the document that does not exist */
+  static void throwInvalidNumber(char const * cpszWhat, int iNumber) {
+    ErrorInfo errInfo;
+    errInfo.setErrorId((TyErrorId)UIMA_ERR_RESOURCE_CORRUPTED);
+    ErrorMessage msg(UIMA_MSG_ID_EXC_XML_SAXPARSE_FATALERROR);
+    msg.addParam(cpszWhat);
+    msg.addParam(iNumber);
+    errInfo.setMessage(msg);
+    errInfo.setSeverity(ErrorInfo::unrecoverable);
+    ExcIllFormedInputError exc(errInfo);
+    throw exc;
+  }
+
 // ---------------------------------------------------------------------------
 //  XCASDeserialiserHandler: Constructors and Destructor
 // ---------------------------------------------------------------------------
@@ -372,6 +385,9 @@ namespace uima {
       }
       const UChar* aString = attrs.getValue(ubuff);
       int thisSofaNum = atoi(UnicodeStringRef(aString).asUTF8().c_str());
+      if (thisSofaNum < 0) {
+        throwInvalidNumber("sofaNum", thisSofaNum);
+      }
 
       // get the sofa's FeatureStructure id
       icu::UnicodeString(ID_ATTR_NAME).extract(ubuff,256, errorCode);
@@ -477,6 +493,9 @@ namespace uima {
     if (sofaTypeCode == heapValue) {
       // If a Sofa, create CAS view to get new indexRepository
       SofaFS sofa = (SofaFS) uima::internal::FSPromoter::promoteFS(addr, *iv_cas);
+      if (sofa.getSofaRef() < 1) {
+        throwInvalidNumber("sofaNum", sofa.getSofaRef());
+      }
       //also add to indexes so we can retrieve the Sofa later
       iv_cas->getBaseIndexRepository().addFS(sofa);
       CAS * tcas = iv_cas->getView(sofa);
@@ -698,13 +717,16 @@ namespace uima {
 
   void XCASDeserializerHandler::handleFeature(Type & type, lowlevel::TyFS addr, icu::UnicodeString & featName, icu::UnicodeString & featVal,
       bool lenient) {
-    char charFeatVal[10];
+    char charFeatVal[12];
 
     // handle v1.x format annotations, mapping int to ref values
     lowlevel::TyFSType fstype = iv_casimpl.getHeap().getType(addr);
     if (0==featName.compare("sofa") &&
         iv_typesystem->subsumes(internal::gs_tyAnnotationBaseType, fstype)) {
       int ifeatval = atoi(UnicodeStringRef(featVal).asUTF8().c_str());
+      if (ifeatval < 0 || (size_t) ifeatval >= sofaRefMap.size()) {
+        throwInvalidNumber("sofa", ifeatval);
+      }
       sprintf(charFeatVal, "%d", sofaRefMap[ifeatval]);
       featVal.setTo(icu::UnicodeString(charFeatVal));
     }
@@ -713,6 +735,9 @@ namespace uima {
     if (0==featName.compare(CAS::FEATURE_BASE_NAME_SOFAID)
         && sofaTypeCode == fstype) {
       int sofaNum = iv_casimpl.getHeap().getIntValue(addr, internal::gs_tySofaNumFeature);
+      if (sofaNum < 0 || (size_t) sofaNum >= indexMap.size()) {
+        throwInvalidNumber("sofaNum", sofaNum);
+      }
       iv_casimpl.getHeap().setIntValue(addr, internal::gs_tySofaNumFeature, indexMap[sofaNum]);
     }
 
@@ -834,11 +859,17 @@ namespace uima {
       // Now add FS to all specified index repositories
       for (int i = 0; i < (int)fsInfo.indexRep->size(); i++) {
         lowlevel::IndexRepository *  pIndexRep;
-        if (indexMap.size() == 1) {
-          pIndexRep = indexRepositories[fsInfo.indexRep->at(i)];
-        } else {
-          pIndexRep = indexRepositories[indexMap[fsInfo.indexRep->at(i)]];
+        int view = fsInfo.indexRep->at(i);
+        if (indexMap.size() != 1) {
+          if (view < 0 || (size_t) view >= indexMap.size()) {
+            throwInvalidNumber("_indexed", view);
+          }
+          view = indexMap[view];
+        }
+        if (view < 0 || (size_t) view >= indexRepositories.size()) {
+          throwInvalidNumber("_indexed", view);
         }
+        pIndexRep = indexRepositories[view];
         assert(EXISTS(pIndexRep));
         pIndexRep->add(addr);
       }
-- 
2.43.0


From d3a4a8347305c5c68f7c9b5da488ae9f62f65840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:41 +0000
Subject: [PATCH 043/115] fix: an XCAS reference to an FS that is not there
 becomes null instead of a wild address

---
 src/cas/xcasdeserializer_handler.cpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/cas/xcasdeserializer_handler.cpp b/src/cas/xcasdeserializer_handler.cpp
index 0d3ac5c..e44b57a 100644
--- a/src/cas/xcasdeserializer_handler.cpp
+++ b/src/cas/xcasdeserializer_handler.cpp
@@ -906,8 +906,8 @@ namespace uima {
           //set the feature value of this feature to the
           //address in FSInfo else set it to NULL;
           if (fsValInfo == NULL) {
-            //nothing to do, reference value already = 0!
-            //iv_casimpl.getHeap().setFSValue(addr, featcode, (lowlevel::TyFS) 0);
+            // the heap still has the id, which is no address
+            iv_casimpl.getHeap().setFSValue(addr, featcode, (lowlevel::TyFS) 0);
           } else {
             iv_casimpl.getHeap().setFSValue(addr, featcode, fsValInfo->addr);
           }
@@ -931,9 +931,8 @@ namespace uima {
     for (int i=0; i<size; i++) {
       lowlevel::TyFS id = iv_cas->getHeap()->getHeap().getHeapValue(addr + 2 + i);
       fsValInfo = fsTree[id];
-      if (fsValInfo != NULL) {
-        iv_cas->getHeap()->getHeap().setHeapValue(addr + 2 + i, fsValInfo->addr);
-      }
+      // an id without FS becomes a null reference, it is no address
+      iv_cas->getHeap()->getHeap().setHeapValue(addr + 2 + i, fsValInfo != NULL ? fsValInfo->addr : 0);
     }
 
   }
-- 
2.43.0


From 92d7177051aeca942ce9c0e7d651eab15375147d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:41 +0000
Subject: [PATCH 044/115] fix: the content of an XCAS element of unknown type
 is not stored in the FS before it

---
 src/cas/xcasdeserializer_handler.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/cas/xcasdeserializer_handler.cpp b/src/cas/xcasdeserializer_handler.cpp
index e44b57a..4bbf640 100644
--- a/src/cas/xcasdeserializer_handler.cpp
+++ b/src/cas/xcasdeserializer_handler.cpp
@@ -239,7 +239,9 @@ namespace uima {
       // Set the value of the content feature.
       //if (!isAllWhitespace(buffer))
       //{
-      handleFeature(currentAddr, currentContentFeat, buffer, true);
+      if (currentAddr != 0) {
+        handleFeature(currentAddr, currentContentFeat, buffer, true);
+      }
       //}            }
       iv_state = FS_STATE;
       break;
@@ -330,6 +332,8 @@ namespace uima {
 
     if (!type.isValid() ) {
       cout << "INFO: invalid type " << typeName << endl;
+      // there is no FS its content could belong to
+      currentAddr = 0;
       iv_state = CONTENT_STATE;
     } else {
       if (iv_cas->getTypeSystem().isArrayType(typecode)) {
-- 
2.43.0


From 7a0dcd9bda2e0b863574b2d0a44413d2fd3d442a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:40 +0000
Subject: [PATCH 045/115] fix: XMI ignores the elements of the xmi namespace,
 not FSs whose name contains xmi

---
 src/cas/xmideserializer_handler.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cas/xmideserializer_handler.cpp b/src/cas/xmideserializer_handler.cpp
index 34fae1d..c6459e8 100644
--- a/src/cas/xmideserializer_handler.cpp
+++ b/src/cas/xmideserializer_handler.cpp
@@ -152,7 +152,7 @@ namespace uima {
 										}
 		case FS_STATE: {
 			// ignore elements with XMI prefix (such as XMI annotations)  
-			if (qualifiedName.indexOf("xmi") > 0) {
+			if (qualifiedName.indexOf("xmi:") == 0) {
 				this->iv_state = IGNORING_XMI_ELEMENTS_STATE;
 				this->ignoreDepth++;
 				return;
-- 
2.43.0


From 3342af207381125dd0c1a111387e53669fe3cf11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:40 +0000
Subject: [PATCH 046/115] fix: an XMI array does not take over id, elements or
 child elements of the FS before it

---
 src/cas/xmideserializer_handler.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/cas/xmideserializer_handler.cpp b/src/cas/xmideserializer_handler.cpp
index c6459e8..b05804a 100644
--- a/src/cas/xmideserializer_handler.cpp
+++ b/src/cas/xmideserializer_handler.cpp
@@ -468,6 +468,9 @@ namespace uima {
         icu::UnicodeString attrName; 
 				int xmiId=0;
 				icu::UnicodeString elements;
+				// forget id and elements of the array before this one
+				currentArrayId = 0;
+				currentArrayElements.remove();
 				for (size_t i = 0; i < attrs.getLength(); i++) {
 						attrName =  attrs.getQName(i);
 						if (attrName.compare(XMI_ID_ATTR_NAME) == 0) {
@@ -480,7 +483,8 @@ namespace uima {
 
         //cout << "xmiId " << currentArrayId << " type=" << typeName << " elements=" << currentArrayElements << endl;
 				if (internal::FSPromoter::demoteType(type) == internal::gs_tyByteArrayType) {
-					int addr = createByteArray(currentArrayElements, currentArrayId);
+					// child elements belong to this FS, not to the one before
+					currentAddr = createByteArray(currentArrayElements, currentArrayId);
 				} 
 
 			} else {
-- 
2.43.0


From c5627c25a547f5180a4ef46b5a12a27b5be03f9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:15 +0000
Subject: [PATCH 047/115] fix: an XMI reference to a Sofa selects a view only
 if it is a Sofa with a view

---
 src/cas/uima/xmideserializer_handler.hpp |  1 +
 src/cas/xmideserializer_handler.cpp      | 37 +++++++++++++++++++-----
 2 files changed, 30 insertions(+), 8 deletions(-)

diff --git a/src/cas/uima/xmideserializer_handler.hpp b/src/cas/uima/xmideserializer_handler.hpp
index 4911e1e..85cbd04 100644
--- a/src/cas/uima/xmideserializer_handler.hpp
+++ b/src/cas/uima/xmideserializer_handler.hpp
@@ -179,6 +179,7 @@ namespace uima {
 
     void processView(int sofaXmiId, icu::UnicodeString & membersString) ;
 		int getFsAddrForXmiId(int xmiId);
+		int getSofaNumForXmiId(int xmiId);
 		void addToOutOfTypeSystemData(XmlElementName * xmlElementName, const Attributes & attrs);
 		void addOutOfTypeSystemFeature(OotsElementData * ootsElem, 
 					icu::UnicodeString & featName, std::vector<icu::UnicodeString> & featVals);
diff --git a/src/cas/xmideserializer_handler.cpp b/src/cas/xmideserializer_handler.cpp
index b05804a..dcfbc11 100644
--- a/src/cas/xmideserializer_handler.cpp
+++ b/src/cas/xmideserializer_handler.cpp
@@ -516,9 +516,7 @@ namespace uima {
 			if (sofaXmiId != 0) {
 				// translate sofa's xmi:id into its sofanum
 				//cout << __LINE__ << " calling getFsAddrForXmiId " << sofaXmiId << endl;
-				int sofaAddr = getFsAddrForXmiId(sofaXmiId);
-
-				sofaNum = iv_cas->getHeap()->getIntValue(sofaAddr, internal::gs_tySofaNumFeature);
+				sofaNum = getSofaNumForXmiId(sofaXmiId);
 			}
 			lowlevel::IndexRepository * indexRep =  indexRepositories.at(sofaNum);
 
@@ -626,9 +624,7 @@ namespace uima {
 					}
 				} else if (sofaTypeCode == heapValue 
 					&& attrName.compare(icu::UnicodeString(CAS::FEATURE_BASE_NAME_SOFANUM))==0) {
-						stringstream str;
-						str << thisSofaNum << endl;
-						attrValue = icu::UnicodeString(str.str().c_str());
+						continue; // replaced by our own number, see below
 					}
 					//cout << "readFS calling handleFeature " << attrName << " attrvalue= "
 					//	<< attrValue << endl;
@@ -637,6 +633,8 @@ namespace uima {
 		}
 
 		if (sofaTypeCode == heapValue) {
+			// a Sofa has a number, whether or not the document gives one
+			iv_casimpl.getHeap().setIntValue(addr, internal::gs_tySofaNumFeature, thisSofaNum);
 			// If a Sofa, create CAS view to get new indexRepository
 			SofaFS sofa = (SofaFS) uima::internal::FSPromoter::promoteFS(addr, *iv_cas);
 			//also add to indexes so we can retrieve the Sofa later
@@ -826,8 +824,7 @@ namespace uima {
             // it from a sofa reference into a sofa number
             int sofaXmiId = atoi(UnicodeStringRef(featVal).asUTF8().c_str());
             //cout << __LINE__ << " calling getFsAddrForXmiId " << sofaXmiId << endl; 
-            int sofaAddr = getFsAddrForXmiId(sofaXmiId); 
-            int sofaNum = iv_cas->getHeap()->getFSValue(sofaAddr, internal::gs_tySofaNumFeature);
+            int sofaNum = getSofaNumForXmiId(sofaXmiId);
             iv_cas->getHeap()->setFSValue(addr,featCode,sofaNum);
 
           } else {             
@@ -1313,6 +1310,30 @@ void XmiDeserializerHandler::handleFeature(lowlevel::TyFS addr,
 	  }
   }
 
+  /**
+   * Gets the Sofa number of the Sofa with the given ID; an FS that is not a
+   * Sofa, or a Sofa without a view in this CAS, is an error.
+   */
+  int XmiDeserializerHandler::getSofaNumForXmiId(int xmiId) {
+    int sofaAddr = getFsAddrForXmiId(xmiId);
+    if (iv_cas->getHeap()->getType(sofaAddr) == sofaTypeCode) {
+      int sofaNum = iv_cas->getHeap()->getIntValue(sofaAddr, internal::gs_tySofaNumFeature);
+      if (sofaNum >= 1 && sofaNum < (int) indexRepositories.size()) {
+        return sofaNum;
+      }
+    }
+    ErrorInfo errInfo;
+    errInfo.setErrorId((TyErrorId)UIMA_ERR_RESOURCE_CORRUPTED);
+    ErrorMessage msg(UIMA_MSG_ID_EXC_XML_SAXPARSE_FATALERROR);
+    assertWithMsg(sizeof(XMLCh) == sizeof(UChar), "Port required");
+    msg.addParam("getSofaNumForXmiId");
+    msg.addParam(xmiId);
+    errInfo.setMessage(msg);
+    errInfo.setSeverity(ErrorInfo::unrecoverable);
+    ExcIllFormedInputError exc(errInfo);
+    throw exc;
+  }
+
 	/**
    * Adds a feature sturcture to the out-of-typesystem data.  Also sets the
    * this->outOfTypeSystemElement field, which is referred to later if we have to
-- 
2.43.0


From 9cdb11fc7a8cddc377a9d4d74eba036f38d32616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:15 +0000
Subject: [PATCH 048/115] fix: XMI string elements are UTF-8, whatever the
 default code page

---
 src/cas/xmideserializer_handler.cpp | 6 +++---
 src/cas/xmiwriter.cpp               | 8 ++++----
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/cas/xmideserializer_handler.cpp b/src/cas/xmideserializer_handler.cpp
index dcfbc11..0d98336 100644
--- a/src/cas/xmideserializer_handler.cpp
+++ b/src/cas/xmideserializer_handler.cpp
@@ -698,7 +698,7 @@ namespace uima {
     case internal::gs_tyStringArrayType: {
         //add the striug
 				StringArrayFS strFS(fs);
-				icu::UnicodeString strval(buffer.c_str());
+				icu::UnicodeString strval(icu::UnicodeString::fromUTF8(buffer));
 				strFS.set( (size_t) arrayPos,strval);
 				break;
     }
@@ -1047,7 +1047,7 @@ void XmiDeserializerHandler::handleFeature(lowlevel::TyFS addr,
 		   } else {
 			   Type type = internal::FSPromoter::promoteType(rangeTypeCode,
 				   iv_cas->getTypeSystem().getLowlevelTypeSystem());
-				 icu::UnicodeString val(featVals.at(0).c_str());
+				 icu::UnicodeString val(icu::UnicodeString::fromUTF8(featVals.at(0)));
 			   handleFeature(type,		   
 				   addr, featCode,val, true);
 		   }
@@ -1157,7 +1157,7 @@ void XmiDeserializerHandler::handleFeature(lowlevel::TyFS addr,
   int XmiDeserializerHandler::createStringList(vector<string>& stringList)	{   
     StringListFS listFS =   iv_cas->createStringListFS();
     for (size_t i = 0; i < stringList.size(); i++ ) {
-      icu::UnicodeString value(stringList.at(i).c_str()); //use xmiId to look up addr
+      icu::UnicodeString value(icu::UnicodeString::fromUTF8(stringList.at(i))); //use xmiId to look up addr
 	    listFS.addLast(value);
     }
 	  return internal::FSPromoter::demoteFS(listFS);
diff --git a/src/cas/xmiwriter.cpp b/src/cas/xmiwriter.cpp
index c462c8e..3dffcdb 100644
--- a/src/cas/xmiwriter.cpp
+++ b/src/cas/xmiwriter.cpp
@@ -744,7 +744,7 @@ namespace uima {
       for (size_t a=0; a < oed->attributes.size(); a++) {
         XmlAttribute * attr = oed->attributes.at(a);
         icu::UnicodeString us;
-        icu::UnicodeString av(attr->value.c_str());
+        icu::UnicodeString av(icu::UnicodeString::fromUTF8(attr->value));
         normalize( av, us );
         os << " " << attr->name << "=\"" << us << "\"";
       }
@@ -755,7 +755,7 @@ namespace uima {
           vector<string> * values = ite->second;
           for (size_t v=0; v < values->size();v++) {
             icu::UnicodeString us;
-            icu::UnicodeString av(values->at(v).c_str());
+            icu::UnicodeString av(icu::UnicodeString::fromUTF8(values->at(v)));
             normalize( av, us );
             strcontent << " <" << ite->first 
               << ">" << us
@@ -1206,7 +1206,7 @@ void XmiWriter::serializeOutOfTypeSystemElements(ostream & os)  {
     for (size_t a=0; a < oed->attributes.size();a++) {
       XmlAttribute * attr = oed->attributes.at(a);
       icu::UnicodeString us;
-      icu::UnicodeString av(attr->value.c_str());
+      icu::UnicodeString av(icu::UnicodeString::fromUTF8(attr->value));
       normalize( av, us );
       os << " " << attr->name << "=\"" << us << "\"";
     }
@@ -1218,7 +1218,7 @@ void XmiWriter::serializeOutOfTypeSystemElements(ostream & os)  {
         vector<string> * values = ite->second;
         for (size_t v=0; v < values->size(); v++) {
 	        icu::UnicodeString us;
-			icu::UnicodeString av(values->at(v).c_str());
+			icu::UnicodeString av(icu::UnicodeString::fromUTF8(values->at(v)));
 			normalize( av, us );
           os << " <" << ite->first << ">";
           os << us;
-- 
2.43.0


From 98c9df2fd026215da476e8e0d0375cc6128f9df5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:15 +0000
Subject: [PATCH 049/115] fix: an XMI feature allowing multiple references,
 given as child element, is a reference like the attribute

---
 src/cas/xmideserializer_handler.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/cas/xmideserializer_handler.cpp b/src/cas/xmideserializer_handler.cpp
index 0d98336..4047cea 100644
--- a/src/cas/xmideserializer_handler.cpp
+++ b/src/cas/xmideserializer_handler.cpp
@@ -1000,7 +1000,11 @@ void XmiDeserializerHandler::handleFeature(lowlevel::TyFS addr,
 					          lowlevel::TyFSType rangeTypeCode,
 					          vector<string> & featVals)  {
     //cout << "handleFeature array/list  " << featVals.size() << endl;
-	 switch(rangeTypeCode) {
+	 // the single value of a feature that allows multiple references is the ID of
+	 // the array or list, as in an attribute
+	 Feature feat = internal::FSPromoter::promoteFeature(featCode, *iv_typesystem);
+	 bool isReference = feat.isMultipleReferencesAllowed();
+	 switch(isReference ? (lowlevel::TyFSType) lowlevel::TypeSystem::INVALID_TYPE : rangeTypeCode) {
 	   case internal::gs_tyBooleanArrayType:
 	   case internal::gs_tyByteArrayType:
 	   case internal::gs_tyIntArrayType: 
-- 
2.43.0


From a7638e96a1a8dd57b611e6cd27b6bff9284fce13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:15 +0000
Subject: [PATCH 050/115] fix: an out-of-typesystem element without xmi:id has
 no indeterminate ID

---
 src/cas/uima/xmishareddata.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cas/uima/xmishareddata.hpp b/src/cas/uima/xmishareddata.hpp
index 942efb4..a0fabe4 100644
--- a/src/cas/uima/xmishareddata.hpp
+++ b/src/cas/uima/xmishareddata.hpp
@@ -116,7 +116,7 @@ public:
      */
     std::map<std::string, std::vector<std::string>* > childElements;
 
-	OotsElementData() : elementName(0) {}
+	OotsElementData() : xmiId(0), elementName(0) {}
 
 	~OotsElementData() {
 	  if (elementName != NULL) {
-- 
2.43.0


From e505032f72410899abcad444ac5a167853f65116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:20 +0000
Subject: [PATCH 051/115] fix: the tail of a list is a reference: XMI lists
 written as FSs are read back as the same list

---
 src/cas/lowlevel_typesystem.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/cas/lowlevel_typesystem.cpp b/src/cas/lowlevel_typesystem.cpp
index b704639..c314e96 100644
--- a/src/cas/lowlevel_typesystem.cpp
+++ b/src/cas/lowlevel_typesystem.cpp
@@ -96,13 +96,13 @@ namespace uima {
     TypeSystem::StFeatureInfo gs_arBuiltinFeatures[] = {
           {
             CAS::FEATURE_BASE_NAME_HEAD, CAS::TYPE_NAME_NON_EMPTY_FS_LIST, CAS::TYPE_NAME_TOP, false, "head"},
-          { CAS::FEATURE_BASE_NAME_TAIL, CAS::TYPE_NAME_NON_EMPTY_FS_LIST, CAS::TYPE_NAME_FS_LIST, false, "tail"},
+          { CAS::FEATURE_BASE_NAME_TAIL, CAS::TYPE_NAME_NON_EMPTY_FS_LIST, CAS::TYPE_NAME_FS_LIST, true, "tail"},
           { CAS::FEATURE_BASE_NAME_HEAD, CAS::TYPE_NAME_NON_EMPTY_FLOAT_LIST, CAS::TYPE_NAME_FLOAT, false, "head of float list"},
-          { CAS::FEATURE_BASE_NAME_TAIL, CAS::TYPE_NAME_NON_EMPTY_FLOAT_LIST, CAS::TYPE_NAME_FLOAT_LIST, false, "tail of float list"},
+          { CAS::FEATURE_BASE_NAME_TAIL, CAS::TYPE_NAME_NON_EMPTY_FLOAT_LIST, CAS::TYPE_NAME_FLOAT_LIST, true, "tail of float list"},
           { CAS::FEATURE_BASE_NAME_HEAD, CAS::TYPE_NAME_NON_EMPTY_INTEGER_LIST, CAS::TYPE_NAME_INTEGER, false, "head of integer list"},
-          { CAS::FEATURE_BASE_NAME_TAIL, CAS::TYPE_NAME_NON_EMPTY_INTEGER_LIST, CAS::TYPE_NAME_INTEGER_LIST, false, "tail of integer list"},
+          { CAS::FEATURE_BASE_NAME_TAIL, CAS::TYPE_NAME_NON_EMPTY_INTEGER_LIST, CAS::TYPE_NAME_INTEGER_LIST, true, "tail of integer list"},
           { CAS::FEATURE_BASE_NAME_HEAD, CAS::TYPE_NAME_NON_EMPTY_STRING_LIST, CAS::TYPE_NAME_STRING, false, "head of string list"},
-          { CAS::FEATURE_BASE_NAME_TAIL, CAS::TYPE_NAME_NON_EMPTY_STRING_LIST, CAS::TYPE_NAME_STRING_LIST, false, "tail of string list"}
+          { CAS::FEATURE_BASE_NAME_TAIL, CAS::TYPE_NAME_NON_EMPTY_STRING_LIST, CAS::TYPE_NAME_STRING_LIST, true, "tail of string list"}
         };
 
     char const * TYPE_NAME_INVALID               = "INVALID_TYPE";
-- 
2.43.0


From fee2a1b0b30b0fdf60d6053a6b5321b2ed50525b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:20 +0000
Subject: [PATCH 052/115] fix: XMI reads and writes features whose range is an
 empty or non-empty list like those whose range is the list

---
 src/cas/xmideserializer_handler.cpp | 26 +++++++++++++++++++++-----
 src/cas/xmiwriter.cpp               | 22 +++++++++++++++++++---
 2 files changed, 40 insertions(+), 8 deletions(-)

diff --git a/src/cas/xmideserializer_handler.cpp b/src/cas/xmideserializer_handler.cpp
index 4047cea..5290838 100644
--- a/src/cas/xmideserializer_handler.cpp
+++ b/src/cas/xmideserializer_handler.cpp
@@ -932,9 +932,17 @@ namespace uima {
         break;
       }
       case internal::gs_tyFloatListType:
+      case internal::gs_tyEFloatListType:
+      case internal::gs_tyNEFloatListType:
       case internal::gs_tyIntListType:
+      case internal::gs_tyEIntListType:
+      case internal::gs_tyNEIntListType:
       case internal::gs_tyStringListType: 
-      case internal::gs_tyFSListType: {
+      case internal::gs_tyEStringListType:
+      case internal::gs_tyNEStringListType:
+      case internal::gs_tyFSListType:
+      case internal::gs_tyEListType:
+      case internal::gs_tyNEListType: {
         //cout << "GOT A LIST FEATURE " << endl;
         if (feat.isMultipleReferencesAllowed()) {
           // do the usual FS deserialization
@@ -1023,22 +1031,30 @@ void XmiDeserializerHandler::handleFeature(lowlevel::TyFS addr,
 		   iv_cas->getHeap()->setFSValue(addr,featCode,arrayFS);
 		   break;
 	   }
-	   case internal::gs_tyIntListType: {
+	   case internal::gs_tyIntListType:
+	   case internal::gs_tyEIntListType:
+	   case internal::gs_tyNEIntListType: {
 		   int arrayFS = createIntList(featVals);
            iv_cas->getHeap()->setFSValue(addr,featCode,arrayFS);
 		   break;
 	   }
-	   case internal::gs_tyFloatListType: {
+	   case internal::gs_tyFloatListType:
+	   case internal::gs_tyEFloatListType:
+	   case internal::gs_tyNEFloatListType: {
 		   int arrayFS = createFloatList(featVals);
            iv_cas->getHeap()->setFSValue(addr,featCode,arrayFS);
 		   break;
 	   }
-	   case internal::gs_tyStringListType: {
+	   case internal::gs_tyStringListType:
+	   case internal::gs_tyEStringListType:
+	   case internal::gs_tyNEStringListType: {
 		   int arrayFS = createStringList(featVals);
            iv_cas->getHeap()->setFSValue(addr,featCode,arrayFS);
 		   break;
 	   }
-	   case internal::gs_tyFSListType: {
+	   case internal::gs_tyFSListType:
+	   case internal::gs_tyEListType:
+	   case internal::gs_tyNEListType: {
 		   int arrayFS = createFSList(featVals);
            iv_cas->getHeap()->setFSValue(addr,featCode,arrayFS);
 		   break;
diff --git a/src/cas/xmiwriter.cpp b/src/cas/xmiwriter.cpp
index 3dffcdb..60d07b1 100644
--- a/src/cas/xmiwriter.cpp
+++ b/src/cas/xmiwriter.cpp
@@ -698,7 +698,9 @@ namespace uima {
         case internal::gs_tyFloatListType:
         case internal::gs_tyEFloatListType:
         case internal::gs_tyNEFloatListType:
-        case internal::gs_tyFSListType:  {
+        case internal::gs_tyFSListType:
+        case internal::gs_tyEListType:
+        case internal::gs_tyNEListType:  {
           if (f.isMultipleReferencesAllowed() || insidelist) {
             writeFeatureValue(os, fs, f);
           } else {
@@ -819,7 +821,9 @@ void XmiWriter::findReferencedFSs(FeatureStructure const & fs, bool check) {
                       findReferencedFSs(fs.getFSValue(f));
                       break;
                   }
-          case internal::gs_tyFSListType:  {
+          case internal::gs_tyFSListType:
+          case internal::gs_tyEListType:
+          case internal::gs_tyNEListType:  {
             // we only enqueue lists as first-class objects if the feature has
             // multipleReferencesAllowed = true
             // OR if we're already inside a list node (this handles the tail feature correctly)
@@ -845,8 +849,14 @@ void XmiWriter::findReferencedFSs(FeatureStructure const & fs, bool check) {
                       break;
                   }
                   case internal::gs_tyIntListType:
+                  case internal::gs_tyEIntListType:
+                  case internal::gs_tyNEIntListType:
                   case internal::gs_tyFloatListType:
-                  case internal::gs_tyStringListType:   {
+                  case internal::gs_tyEFloatListType:
+                  case internal::gs_tyNEFloatListType:
+                  case internal::gs_tyStringListType:
+                  case internal::gs_tyEStringListType:
+                  case internal::gs_tyNEStringListType:   {
                     if (f.isMultipleReferencesAllowed () || insideListNode) {
                           findReferencedFSs(fs.getFSValue(f));
                     }
@@ -1103,6 +1113,12 @@ void XmiWriter::write(ostream & os) {
       }
       break;
                                          }
+    case internal::gs_tyIntListType:
+    case internal::gs_tyEIntListType:
+    case internal::gs_tyFloatListType:
+    case internal::gs_tyEFloatListType:
+    case internal::gs_tyStringListType:
+    case internal::gs_tyEStringListType:
     case internal::gs_tyEListType: {
       //cout << "listToString() Empty FSList SKIP"  << endl;
       break;
-- 
2.43.0


From 6af9f0f362e9fe47a7ddb11eb96efbbfb1f3046c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:20 +0000
Subject: [PATCH 053/115] fix: an XMI namespace prefix that is already taken
 gets a number, not a number and a newline

---
 src/cas/xmiwriter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cas/xmiwriter.cpp b/src/cas/xmiwriter.cpp
index 60d07b1..c61dff0 100644
--- a/src/cas/xmiwriter.cpp
+++ b/src/cas/xmiwriter.cpp
@@ -256,7 +256,7 @@ namespace uima {
      while (prefixIte != nsPrefixesUsed.end()) {
        num++;
        stringstream basePrefix;
-       basePrefix << prefix << num << endl;
+       basePrefix << prefix << num;
        prefixIte = nsPrefixesUsed.find(basePrefix.str());
        if (prefixIte == nsPrefixesUsed.end() ) {
          prefix = basePrefix.str();
-- 
2.43.0


From e9b885ba760b3b265991398adc97a5ce534f4eb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:40 +0000
Subject: [PATCH 054/115] fix: XCAS and XMI write float and double values with
 all their digits

---
 src/cas/xmiwriter.cpp                  | 12 ++++----
 src/cas/xmlwriter.cpp                  | 38 ++++++++++++++++++++------
 src/framework/uima/caswriter_abase.hpp |  3 ++
 3 files changed, 38 insertions(+), 15 deletions(-)

diff --git a/src/cas/xmiwriter.cpp b/src/cas/xmiwriter.cpp
index c61dff0..046501b 100644
--- a/src/cas/xmiwriter.cpp
+++ b/src/cas/xmiwriter.cpp
@@ -364,7 +364,7 @@ namespace uima {
       os << fs.getIntValue(f) << "\"";
     } else if (t == iv_floatType) {
       os << " " << f.getName() << "=\"";
-      os << fs.getFloatValue(f) << "\"";
+      os << toText(fs.getFloatValue(f)) << "\"";
     } else if (t == iv_byteType) {
       os << " " << f.getName() << "=\"";
       int val = fs.getByteValue(f);
@@ -383,9 +383,7 @@ namespace uima {
       os << fs.getLongValue(f) << "\"";
     } else if (t == iv_doubleType) {
       os << " " << f.getName() << "=\"";
-      stringstream s;
-      s << fs.getDoubleValue(f);
-      os << s.str() << "\"";
+      os << toText(fs.getDoubleValue(f)) << "\"";
     } else {
      
       FeatureStructure referencedFS = fs.getFSValue(f);
@@ -445,7 +443,7 @@ namespace uima {
         FloatArrayFS arrayfs(fs);
         size_t n = arrayfs.size();
         for (size_t i=0; i < n;i++) {
-          str << arrayfs.get(i);
+          str << toText(arrayfs.get(i));
           if (i+1 < n) {         
             str << " ";
           }
@@ -506,7 +504,7 @@ namespace uima {
         DoubleArrayFS arrayfs(fs);
         size_t n = arrayfs.size();
         for (size_t i=0; i < n;i++) {
-          str << arrayfs.get(i);
+          str << toText(arrayfs.get(i));
           if (i+1 < n) {         
             str << " ";
           }
@@ -1098,7 +1096,7 @@ void XmiWriter::write(ostream & os) {
     case internal::gs_tyNEFloatListType: {
       FloatListFS curNode(fs);
       while (!curNode.isEmpty()) { 
-        str << curNode.getHead();
+        str << toText(curNode.getHead());
         curNode = curNode.getTail();
         int addr = internal::FSPromoter::demoteFS(curNode);
         if (visited[addr] == addr) {
diff --git a/src/cas/xmlwriter.cpp b/src/cas/xmlwriter.cpp
index cbd305b..5cef310 100644
--- a/src/cas/xmlwriter.cpp
+++ b/src/cas/xmlwriter.cpp
@@ -72,6 +72,20 @@ namespace uima {
 
   XMLWriterABase::~XMLWriterABase() {}
 
+  std::string XMLWriterABase::toText(float f) {
+    std::stringstream s;
+    s.precision(9);
+    s << f;
+    return s.str();
+  }
+
+  std::string XMLWriterABase::toText(double d) {
+    std::stringstream s;
+    s.precision(17);
+    s << d;
+    return s.str();
+  }
+
   void XMLWriterABase::normalize(UnicodeStringRef const & in, icu::UnicodeString& out)  {
     //cout << "normalize() input " << in << endl;
     static icu::UnicodeString const ustrAMP_ESC("&amp;");
@@ -437,7 +451,7 @@ namespace uima {
       os << fs.getIntValue(f) << "\"";
     } else if (t == iv_floatType) {
       os << " " << f.getName() << "=\"";
-      os << fs.getFloatValue(f) << "\"";
+      os << toText(fs.getFloatValue(f)) << "\"";
     } else if (t == iv_byteType) {
       os << " " << f.getName() << "=\"";
       int val = fs.getByteValue(f);
@@ -453,9 +467,7 @@ namespace uima {
       os << fs.getLongValue(f) << "\"";
     } else if (t == iv_doubleType) {
       os << " " << f.getName() << "=\"";
-      stringstream s;
-      s << fs.getDoubleValue(f);
-      os << s.str() << "\"";
+      os << toText(fs.getDoubleValue(f)) << "\"";
     } else {
 
       FeatureStructure referencedFS = fs.getFSValue(f);
@@ -531,7 +543,19 @@ namespace uima {
       if ( t == iv_intArrayType ) {
         writeArray( os, IntArrayFS(fs), "i");
       } else if ( t == iv_floatArrayType ) {
-        writeArray( os, FloatArrayFS(fs), "i");
+        FloatArrayFS array(fs);
+        if (array.size() > 0) {
+          os << " size=\"" << array.size() << "\">" << endl;
+          size_t i;
+          for (i=0; i<array.size(); ++i) {
+            os << "  <" << "i" << ">";
+            os << toText(array.get(i));
+            os << "</" << "i" << ">" << endl;
+          }
+          os << " </" << array.getType().getName() << ">" << endl;
+        } else {
+          os << " size=\"0\"/>" << endl;
+        }
       } else if ( t == iv_stringArrayType ) {
         writeStringArray( os, StringArrayFS(fs), "i");
       } else if ( t == iv_byteArrayType ) {
@@ -560,9 +584,7 @@ namespace uima {
           size_t i;
           for (i=0; i<array.size(); ++i) {
             os << "  <" << "i" << ">";
-            stringstream s;
-            s << array.get(i);
-            os << s.str();
+            os << toText(array.get(i));
             os << "</" << "i" << ">" << endl;
           }
           os << " </" << array.getType().getName() << ">" << endl;
diff --git a/src/framework/uima/caswriter_abase.hpp b/src/framework/uima/caswriter_abase.hpp
index 961b285..1fb8b1e 100644
--- a/src/framework/uima/caswriter_abase.hpp
+++ b/src/framework/uima/caswriter_abase.hpp
@@ -81,6 +81,9 @@ namespace uima {
   class UIMA_LINK_IMPORTSPEC XMLWriterABase : public CASWriterABase {
   public:
     static void normalize(UnicodeStringRef const & in, icu::UnicodeString& out);
+    /// the text for a number, with as many digits as it takes to read the same number back
+    static std::string toText(float f);
+    static std::string toText(double d);
   public:
     XMLWriterABase(CAS const & crCAS, bool bAddDocBuffer);
     virtual ~XMLWriterABase();
-- 
2.43.0


From 4450fd42bc5813e7fa7e6aea4ec1f309ba2beff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:58 +0000
Subject: [PATCH 055/115] fix: XCAS and XMI read infinite double values

---
 src/cas/xcasdeserializer_handler.cpp | 10 ++--------
 src/cas/xmideserializer_handler.cpp  | 10 ++--------
 2 files changed, 4 insertions(+), 16 deletions(-)

diff --git a/src/cas/xcasdeserializer_handler.cpp b/src/cas/xcasdeserializer_handler.cpp
index 4bbf640..08fe419 100644
--- a/src/cas/xcasdeserializer_handler.cpp
+++ b/src/cas/xcasdeserializer_handler.cpp
@@ -691,10 +691,7 @@ namespace uima {
       }
     case internal::gs_tyDoubleArrayType: {
         DoubleArrayFS doubleFS(fs);
-        stringstream s;
-        s << UnicodeStringRef(buffer).asUTF8();
-        long double doubleval;
-        s >> doubleval;
+        double doubleval = atof(UnicodeStringRef(buffer).asUTF8().c_str());
         doubleFS.set((size_t) arrayPos, doubleval);
         break;
       }
@@ -832,10 +829,7 @@ namespace uima {
       case internal::gs_tyDoubleType: {
           if (featVal.length() > 0) {
             string strval = UnicodeStringRef(featVal).asUTF8();
-            long double doubleval;
-            stringstream s;
-            s << strval.c_str();
-            s >> doubleval;
+            double doubleval = atof(strval.c_str());
             fs.setDoubleValue(feat, doubleval );
           }
           break;
diff --git a/src/cas/xmideserializer_handler.cpp b/src/cas/xmideserializer_handler.cpp
index 5290838..d82c15f 100644
--- a/src/cas/xmideserializer_handler.cpp
+++ b/src/cas/xmideserializer_handler.cpp
@@ -743,10 +743,7 @@ namespace uima {
       }
     case internal::gs_tyDoubleArrayType: {
         DoubleArrayFS doubleFS(fs);
-        stringstream s;
-        s << buffer;
-        long double doubleval;
-        s >> doubleval;
+        double doubleval = atof(buffer.c_str());
         doubleFS.set((size_t) arrayPos, doubleval);
         break;
       }
@@ -889,10 +886,7 @@ namespace uima {
       case internal::gs_tyDoubleType: {
         if (featVal.length() > 0) {
           string strval = UnicodeStringRef(featVal).asUTF8();
-          long double doubleval;
-          stringstream s;
-          s << strval.c_str();
-          s >> doubleval;
+          double doubleval = atof(strval.c_str());
           fs.setDoubleValue(feat, doubleval );
         }
         break;
-- 
2.43.0


From 0e7fffc279fce8f9daeabd20b994c147981332b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:58 +0000
Subject: [PATCH 056/115] fix: the XCAS element of an empty byte array is
 closed

---
 src/cas/xmlwriter.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/cas/xmlwriter.cpp b/src/cas/xmlwriter.cpp
index 5cef310..d465613 100644
--- a/src/cas/xmlwriter.cpp
+++ b/src/cas/xmlwriter.cpp
@@ -570,6 +570,8 @@ namespace uima {
             os << "</" << "i" << ">" << endl;
           }
           os << " </" << array.getType().getName() << ">" << endl;
+        } else {
+          os << " size=\"0\"/>" << endl;
         }
       } else if ( t == iv_booleanArrayType ) {
         writeArray( os, BooleanArrayFS(fs), "i");
-- 
2.43.0


From d9f5bea6ce25e92488e68cd49d8a5caecb2270a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:58 +0000
Subject: [PATCH 057/115] fix: a tab in a string is written so that an XML
 parser does not turn it into a blank

---
 src/cas/xmlwriter.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/cas/xmlwriter.cpp b/src/cas/xmlwriter.cpp
index d465613..d066081 100644
--- a/src/cas/xmlwriter.cpp
+++ b/src/cas/xmlwriter.cpp
@@ -95,6 +95,7 @@ namespace uima {
     static icu::UnicodeString const ustrQUOT_ESC("&quot;");
     static icu::UnicodeString const ustrCR_ESC("&#13;");
     static icu::UnicodeString const ustrLF_ESC("&#10;");
+    static icu::UnicodeString const ustrTAB_ESC("&#9;");
 
     static UChar const uAMP('&');
     static UChar const uGT('>');
@@ -103,6 +104,7 @@ namespace uima {
     static UChar const uQUOT('"');
     static UChar const uCR('\r');
     static UChar const uLF('\n');
+    static UChar const uTAB('\t');
     
     const UChar * srcPtr = in.getBuffer();
 
@@ -129,6 +131,9 @@ namespace uima {
         case uLF: 
           out.append(ustrLF_ESC);
           break;
+        case uTAB: 
+          out.append(ustrTAB_ESC);
+          break;
         default:
           out.append(*srcPtr);
       }
-- 
2.43.0


From 14a56c8b456ebbf6595c2e03d64fccc3c3012e9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:58 +0000
Subject: [PATCH 058/115] fix: XMI writes a null element of an array or list as
 0 instead of leaving it out

---
 src/cas/xmiwriter.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/cas/xmiwriter.cpp b/src/cas/xmiwriter.cpp
index 046501b..15ea836 100644
--- a/src/cas/xmiwriter.cpp
+++ b/src/cas/xmiwriter.cpp
@@ -529,11 +529,12 @@ namespace uima {
               while (ootsIndex < ootsList->size()) {
                 XmiArrayElement * arel = ootsList->at(ootsIndex++);
                 if (arel->index == j) {
-                  str << arel->xmiId;
+                  xmiId = arel->xmiId;
                   break;
                 }                
               }
             }
+            str << xmiId; // 0 for null: the elements after it keep their positions
           } else {
             str << xmiId;
           }
@@ -1142,6 +1143,8 @@ void XmiWriter::write(ostream & os) {
               XmlAttribute *  attr = oed->attributes.at(0);
               assert(attr->name.compare(CAS::FEATURE_BASE_NAME_HEAD)==0);
               str << attr->value;
+            } else {
+              str << head;
             }
           } else {
             str << head;
-- 
2.43.0


From de7a00f7bb394b1b1d499666a042359927a519a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:28 +0000
Subject: [PATCH 059/115] fix: XMI writes empty arrays, so that the references
 to them can be resolved

---
 src/cas/xmiwriter.cpp | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/cas/xmiwriter.cpp b/src/cas/xmiwriter.cpp
index 15ea836..838b88d 100644
--- a/src/cas/xmiwriter.cpp
+++ b/src/cas/xmiwriter.cpp
@@ -584,13 +584,11 @@ namespace uima {
   }
 
   void XmiWriter::writeStringArray(ostream & os, StringArrayFS const & array, char const * tag, int xmiid) {
-    if (array.size() > 0) {
       //XCAS os << " size=\"" << array.size() << "\">" << endl;
       os << " <" << tag;
       os << " " << ID_ATTR_NAME << "=\"" << xmiid << "\">";
         os << arrayToString(array, "elements").c_str();
         os << "</" << tag << ">" << endl;
-    } 
   }
 
   void XmiWriter::writeFSFlat(ostream & os,
@@ -607,9 +605,8 @@ namespace uima {
    
     // if array
     if ( iv_arrayType.subsumes(t) ) {
-      const CAS* ccasp = &iv_cas;
-      CAS* casp = const_cast<CAS*> (ccasp);
-        if (casp->getHeap()->getArraySize(internal::FSPromoter::demoteFS(fs)) >0) {
+        // an empty array is written as well: there may be references to it
+        {
             if ( t == iv_intArrayType ) {
                 writeArray( os, IntArrayFS(fs), xmlElementName->qualifiedName.c_str(), xmiId);
             } else if ( t == iv_floatArrayType ) {
-- 
2.43.0


From 65f9b9e72249b765208a4c6fcb580dd58b40c2bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:59 +0000
Subject: [PATCH 060/115] fix: XCAS IDs do not have to be dense: no work or
 memory for the numbers in between

---
 src/cas/xcasdeserializer_handler.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/cas/xcasdeserializer_handler.cpp b/src/cas/xcasdeserializer_handler.cpp
index 08fe419..11d7b43 100644
--- a/src/cas/xcasdeserializer_handler.cpp
+++ b/src/cas/xcasdeserializer_handler.cpp
@@ -104,8 +104,8 @@ namespace uima {
 
   XCASDeserializerHandler::~XCASDeserializerHandler()   {
     if (DEBUG) std::cout << " XCASDeserializerHandler::destructor " << std::endl;
-    for (size_t i = 0; i < fsTree.size(); i++) {
-      FSInfo * fsinfo = (FSInfo*) fsTree[i];
+    for (map<int, FSInfo*>::iterator it = fsTree.begin(); it != fsTree.end(); ++it) {
+      FSInfo * fsinfo = it->second;
       if (fsinfo != 0) {
         delete fsinfo->indexRep;
         delete fsinfo;
@@ -293,8 +293,8 @@ namespace uima {
     //cout << " XCASDeserializerHandler::endDocument() " << endl;
 
     //update features that are FSs
-    for (size_t i = 0; i < fsTree.size(); i++) {
-      FSInfo * fsinfo = (FSInfo*) fsTree[i];
+    for (map<int, FSInfo*>::iterator it = fsTree.begin(); it != fsTree.end(); ++it) {
+      FSInfo * fsinfo = it->second;
       if (fsinfo != 0)
         finalizeFS(*fsinfo);
     }
-- 
2.43.0


From 59622f966c9b75554ce15b2f14b886f9e5e6f796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:46 +0000
Subject: [PATCH 061/115] fix: XCAS FSs with the same ID are all finalized: no
 ID stays behind as address

---
 src/cas/uima/xcasdeserializer_handler.hpp |  1 +
 src/cas/xcasdeserializer_handler.cpp      | 28 ++++++++++++++---------
 2 files changed, 18 insertions(+), 11 deletions(-)

diff --git a/src/cas/uima/xcasdeserializer_handler.hpp b/src/cas/uima/xcasdeserializer_handler.hpp
index f5f50fa..8975e93 100644
--- a/src/cas/uima/xcasdeserializer_handler.hpp
+++ b/src/cas/uima/xcasdeserializer_handler.hpp
@@ -120,6 +120,7 @@ namespace uima {
 
   private:
 
+    void registerFS(int id, FSInfo * fsInfo);
     void readFS(icu::UnicodeString & qualifiedName, const Attributes & attrs);
     void readFS(lowlevel::TyFS addr, const Attributes  & attrs, bool toIndex);
     void handleFeature(lowlevel::TyFS addr, icu::UnicodeString & featName, icu::UnicodeString & featVal, bool lenient);
diff --git a/src/cas/xcasdeserializer_handler.cpp b/src/cas/xcasdeserializer_handler.cpp
index 11d7b43..d39cabb 100644
--- a/src/cas/xcasdeserializer_handler.cpp
+++ b/src/cas/xcasdeserializer_handler.cpp
@@ -278,7 +278,7 @@ namespace uima {
       // and register the id for this Sofa
       FSInfo * fsInfo = new FSInfo(addr, new vector<int>);
 //           FSInfo * fsInfo = new FSInfo(addr, -1); //??? Should be 0 or -1 ???
-      fsTree[id] =  fsInfo;
+      registerFS(id, fsInfo);
 
       iv_state = FS_STATE;
       break;
@@ -324,6 +324,20 @@ namespace uima {
 
 
 
+// Keep an FS under its id (none: negative) for the end of the document. An FS
+// whose id is used again still has to be finalized there.
+  void XCASDeserializerHandler::registerFS(int id, FSInfo * fsInfo) {
+    if (id < 0) {
+      idLess.push_back(fsInfo);
+      return;
+    }
+    FSInfo *& entry = fsTree[id];
+    if (entry != NULL) {
+      idLess.push_back(entry);
+    }
+    entry = fsInfo;
+  }
+
 // Create a new FS.
   void XCASDeserializerHandler::readFS(icu::UnicodeString & qualifiedName, const Attributes & attrs) {
     icu::UnicodeString typeName(qualifiedName);
@@ -517,11 +531,7 @@ namespace uima {
 
     // sofaRef.size()==0 means not indexed
     FSInfo * fsInfo = new FSInfo(addr, sofaRef);
-    if (id < 0) {
-      idLess.push_back(fsInfo);
-    } else {
-      fsTree[id] =  fsInfo;
-    }
+    registerFS(id, fsInfo);
     iv_state = CONTENT_STATE;
 
   }
@@ -576,11 +586,7 @@ namespace uima {
 
     // indexRep.size()==0 means not indexed
     FSInfo * fsInfo = new FSInfo(currentAddr, indexRep);
-    if (id < 0) {
-      idLess.push_back(fsInfo);
-    } else {
-      fsTree[id] =  fsInfo;
-    }
+    registerFS(id, fsInfo);
     iv_state = ARRAY_ELE_STATE;
 
   }
-- 
2.43.0


From c1563adb06371f74bd8495b5297323a272c6b2a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:46 +0000
Subject: [PATCH 062/115] fix: the XMI handler releases the values of the last
 multi-valued feature

---
 src/cas/xmideserializer_handler.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/cas/xmideserializer_handler.cpp b/src/cas/xmideserializer_handler.cpp
index d82c15f..4b5347c 100644
--- a/src/cas/xmideserializer_handler.cpp
+++ b/src/cas/xmideserializer_handler.cpp
@@ -97,6 +97,10 @@ namespace uima {
 			if (ownsSharedData)  {
 				delete sharedData;
 			}
+			for (map<icu::UnicodeString, vector<icu::UnicodeString>*>::iterator it = multiValuedFeatures.begin();
+				it != multiValuedFeatures.end(); it++) {
+				delete it->second;
+			}
 			//cout << " XmiDeserializerHandler::destructor done " << endl;
 		}
 
-- 
2.43.0


From 6b7571542482bca7deb614e1390564a8fd9fb6d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:57 +0000
Subject: [PATCH 063/115] fix: the XML readers keep empty strings: only null
 strings have no attribute

---
 src/cas/xcasdeserializer_handler.cpp | 8 +++-----
 src/cas/xmideserializer_handler.cpp  | 4 +---
 2 files changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/cas/xcasdeserializer_handler.cpp b/src/cas/xcasdeserializer_handler.cpp
index d39cabb..3bc08ff 100644
--- a/src/cas/xcasdeserializer_handler.cpp
+++ b/src/cas/xcasdeserializer_handler.cpp
@@ -786,9 +786,8 @@ namespace uima {
           break;
         }
       case internal::gs_tyStringType: {
-          if (featVal.length() > 0) {
-            fs.setStringValue(feat, featVal);
-          }
+          // the writer writes no attribute for a null string: this one is empty
+          fs.setStringValue(feat, featVal);
           break;
         }
       case internal::gs_tyByteType: {
@@ -842,8 +841,7 @@ namespace uima {
         }
       default: {
         if (rtype.isStringSubType()) {
-          if (featVal.length() > 0)
-            fs.setStringValue(feat, featVal);
+          fs.setStringValue(feat, featVal);
         } else if (featVal.length() > 0) {
           lowlevel::TyFS val = (lowlevel::TyFS) atoi(UnicodeStringRef(featVal).asUTF8().c_str());
           iv_casimpl.getHeap().setFeatureInternal(addr, uima::internal::FSPromoter::demoteFeature(feat), val);
diff --git a/src/cas/xmideserializer_handler.cpp b/src/cas/xmideserializer_handler.cpp
index 4b5347c..68bce44 100644
--- a/src/cas/xmideserializer_handler.cpp
+++ b/src/cas/xmideserializer_handler.cpp
@@ -959,9 +959,7 @@ namespace uima {
       }
       default: {
         if (rtype.isStringSubType()) {
-          if (featVal.length() > 0) {
-            fs.setStringValue(feat, featVal);
-          }
+          fs.setStringValue(feat, featVal);
         } else if (featVal.length() > 0) {
           lowlevel::TyFS val = (lowlevel::TyFS) atoi(UnicodeStringRef(featVal).asUTF8().c_str());
           iv_casimpl.getHeap().setFeatureInternal(addr, uima::internal::FSPromoter::demoteFeature(feat), val);
-- 
2.43.0


From ed0a300ca8c96e4380444c9443d7182c1bb51120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:46 +0000
Subject: [PATCH 064/115] fix: the prefix xmi is not used for another namespace
 as well

---
 src/cas/xmiwriter.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/cas/xmiwriter.cpp b/src/cas/xmiwriter.cpp
index 838b88d..2fb49db 100644
--- a/src/cas/xmiwriter.cpp
+++ b/src/cas/xmiwriter.cpp
@@ -164,6 +164,7 @@ namespace uima {
   */
  void XmiWriter::initTypeAndNamespaceMappings() {
    nsUriToPrefixMap[XMI_NS_URI] = XMI_NS_PREFIX;
+   nsPrefixesUsed.insert(XMI_NS_PREFIX);
 
    //Add any namespace prefix mappings used by out of type system data.
    //Need to do this before the in-typesystem namespaces so that the prefix
-- 
2.43.0


From 4d157afd29efccc6db731220e83b196c5a0cd24a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:24 +0000
Subject: [PATCH 065/115] fix: descriptors written as XML escape names,
 settings and versions

---
 src/framework/taespecifier.cpp | 93 ++++++++++++++++++----------------
 1 file changed, 50 insertions(+), 43 deletions(-)

diff --git a/src/framework/taespecifier.cpp b/src/framework/taespecifier.cpp
index e7d4c62..a5d88bb 100644
--- a/src/framework/taespecifier.cpp
+++ b/src/framework/taespecifier.cpp
@@ -670,6 +670,13 @@ namespace uima {
     }
   }
 
+  // text between tags or in an attribute value
+  static void appendText(icu::UnicodeString const & text, icu::UnicodeString & s) {
+    icu::UnicodeString out;
+    XMLWriterABase::normalize(UnicodeStringRef(text), out);
+    s.append(out);
+  }
+
   void appendCapabilities(Capability::TyVecCapabilityTofs const & v, char const * xmlTag, icu::UnicodeString & s) {
     size_t i;
     for (i=0; i<v.size(); ++i) {
@@ -677,7 +684,7 @@ namespace uima {
       s.append(xmlTag);
       s.append(">");
 
-      s.append(v[i]);
+      appendText(v[i], s);
 
       s.append("</");
       s.append(xmlTag);
@@ -692,7 +699,7 @@ namespace uima {
       s.append(xmlTag);
       s.append(">");
 
-      s.append(v[i]);
+      appendText(v[i], s);
 
       s.append("</");
       s.append(xmlTag);
@@ -728,10 +735,10 @@ namespace uima {
       ConfigurationParameter const * confParam = configParams[i];
       s.append("<configurationParameter>");
       s.append("<name>");
-      s.append(confParam->getName());
+      appendText(confParam->getName(), s);
       s.append("</name>");
       s.append("<description>");
-      s.append(confParam->getDescription());
+      appendText(confParam->getDescription(), s);
       s.append("</description>");
       s.append("<type>");
       ConfigurationParameter::EnParameterType paramType = confParam->getType();
@@ -769,7 +776,7 @@ namespace uima {
       NameValuePair const * nvp = nvps[i];
       s.append("<nameValuePair>");
       s.append("<name>");
-      s.append( nvp->getName() );
+      appendText(nvp->getName(), s);
       s.append("</name>");
 
       s.append("<value>");
@@ -810,7 +817,7 @@ namespace uima {
             vector<icu::UnicodeString> const & v = nvp->extractStringValues();
             for (j=0; j<v.size(); ++j) {
               s.append("<string>");
-              s.append(v[j]);
+              appendText(v[j], s);
               s.append("</string>");
             }
             break;
@@ -846,7 +853,7 @@ namespace uima {
         case ConfigurationParameter::STRING: {
             icu::UnicodeString const & v = nvp->extractStringValue();
             s.append("<string>");
-            s.append(v);
+            appendText(v, s);
             s.append("</string>");
             break;
           }
@@ -875,10 +882,10 @@ namespace uima {
       FSIndexDescription const * ixDesc = ixVec[i];
       s.append("<fsIndexDescription>");
       s.append("<label>");
-      s.append(ixDesc->getLabel());
+      appendText(ixDesc->getLabel(), s);
       s.append("</label>");
       s.append("<typeName>");
-      s.append(ixDesc->getTypeName());
+      appendText(ixDesc->getTypeName(), s);
       s.append("</typeName>");
       s.append("<kind>");
       FSIndexDescription::EnIndexKind ixKind = ixDesc->getIndexKind();
@@ -907,7 +914,7 @@ namespace uima {
             s.append("<typePriority/>");
           } else {
               s.append("<featureName>");
-              s.append(ixKeyDesc->getFeatureName());
+              appendText(ixKeyDesc->getFeatureName(), s);
               s.append("</featureName>");
 
               s.append("<comparator>");
@@ -951,7 +958,7 @@ namespace uima {
         for ( j = 0; j < vecTypeOrder.size();  ++j) {
 
           s.append("<type>");
-          s.append(vecTypeOrder[j]);
+          appendText(vecTypeOrder[j], s);
           s.append("</type>");
         }
         s.append("</priorityList>");
@@ -971,15 +978,15 @@ namespace uima {
       for (i=0; i<sofamappingVec.size(); ++i) {
         s.append("<sofaMapping>");
         s.append("<componentKey>");
-        s.append(sofamappingVec[i]->getComponentKey());
+        appendText(sofamappingVec[i]->getComponentKey(), s);
         s.append("</componentKey>");
 
         s.append("<componentSofaName>");
-        s.append(sofamappingVec[i]->getComponentSofaName());
+        appendText(sofamappingVec[i]->getComponentSofaName(), s);
         s.append("</componentSofaName>");
 
         s.append("<aggregateSofaName>");
-        s.append(sofamappingVec[i]->getAggregateSofaName());
+        appendText(sofamappingVec[i]->getAggregateSofaName(), s);
         s.append("</aggregateSofaName>");
 
         s.append("</sofaMapping>");
@@ -1000,7 +1007,7 @@ namespace uima {
 
       if (md.hasDefaultGroup()) {
         s.append(" defaultGroup=\"");
-        s.append( md.iv_defaultGroup );
+        appendText(md.iv_defaultGroup, s);
         s.append("\"");
       }
 
@@ -1030,7 +1037,7 @@ namespace uima {
           s.append("<commonParameters>");
         } else {
           s.append("<configurationGroup names=\"");
-          s.append(confGroupName);
+          appendText(confGroupName, s);
           s.append("\">");
         }
 
@@ -1068,7 +1075,7 @@ namespace uima {
         SettingsForGroup const & settings = (*cit).second;
 
         s.append("<settingsForGroup name=\"");
-        s.append(groupName);
+        appendText(groupName, s);
         s.append("\">");
         appendConfigGroupSettingsToXMLBuffer(settings, s);
         s.append("</settingsForGroup>");
@@ -1120,7 +1127,7 @@ namespace uima {
 
     if (isCasConsumer) {
       s.append("<implementationName>");
-      s.append(getAnnotatorImpName());
+      appendText(getAnnotatorImpName(), s);
       s.append("</implementationName>");
     }
     // primitive
@@ -1133,7 +1140,7 @@ namespace uima {
       if (isPrimitive()) {
         // annotator implementation
         s.append("<annotatorImplementationName>");
-        s.append(getAnnotatorImpName());
+        appendText(getAnnotatorImpName(), s);
         s.append("</annotatorImplementationName>");
       } else {
         // delegates
@@ -1142,7 +1149,7 @@ namespace uima {
         TyMapDelegateSpecs::const_iterator cit;
         for (cit = delegates.begin(); cit != delegates.end(); ++cit) {
           s.append("<delegateAnalysisEngine key=\"");
-          s.append( (*cit).first );
+          appendText((*cit).first, s);
           s.append("\">");
           icu::UnicodeString delBuf;
           (*cit).second->toXMLBufferNoXMLHeader(delBuf);
@@ -1162,15 +1169,15 @@ namespace uima {
         for (i=0; i<sofamappingVec.size(); ++i) {
           s.append("<sofaMapping>");
           s.append("<componentKey>");
-          s.append(sofamappingVec[i]->getComponentKey());
+          appendText(sofamappingVec[i]->getComponentKey(), s);
           s.append("</componentKey>");
 
           s.append("<componentSofaName>");
-          s.append(sofamappingVec[i]->getComponentSofaName());
+          appendText(sofamappingVec[i]->getComponentSofaName(), s);
           s.append("</componentSofaName>");
 
           s.append("<aggregateSofaName>");
-          s.append(sofamappingVec[i]->getAggregateSofaName());
+          appendText(sofamappingVec[i]->getAggregateSofaName(), s);
           s.append("</aggregateSofaName>");
 
           s.append("</sofaMapping>");
@@ -1215,7 +1222,7 @@ namespace uima {
 
     //   version
     s.append("<version>");
-    s.append( md.getVersion() );
+    appendText(md.getVersion(), s);
     s.append("</version>");
 
     //   vendor
@@ -1232,7 +1239,7 @@ namespace uima {
 
       if (md.hasDefaultGroup()) {
         s.append(" defaultGroup=\"");
-        s.append( md.iv_defaultGroup );
+        appendText(md.iv_defaultGroup, s);
         s.append("\"");
       }
 
@@ -1262,7 +1269,7 @@ namespace uima {
           s.append("<commonParameters>");
         } else {
           s.append("<configurationGroup names=\"");
-          s.append(confGroupName);
+          appendText(confGroupName, s);
           s.append("\">");
         }
 
@@ -1300,7 +1307,7 @@ namespace uima {
         SettingsForGroup const & settings = (*cit).second;
 
         s.append("<settingsForGroup name=\"");
-        s.append(groupName);
+        appendText(groupName, s);
         s.append("\">");
         appendConfigGroupSettingsToXMLBuffer(settings, s);
         s.append("</settingsForGroup>");
@@ -1330,7 +1337,7 @@ namespace uima {
       vector<icu::UnicodeString> const & v = flow->getNodes();
       for (i=0; i<v.size(); ++i) {
         s.append("<node>");
-        s.append(v[i]);
+        appendText(v[i], s);
         s.append("</node>");
       }
       if (flow->getFlowConstraintsType() == FlowConstraints::FIXED) {
@@ -1354,7 +1361,7 @@ namespace uima {
         for ( j = 0; j < vecTypeOrder.size();  ++j) {
 
           s.append("<type>");
-          s.append(vecTypeOrder[j]);
+          appendText(vecTypeOrder[j], s);
           s.append("</type>");
         }
         s.append("</priorityList>");
@@ -1373,11 +1380,11 @@ namespace uima {
           ImportDescription const * pImport = importVec[i];
           if ( pImport->getName().length() > 0) {
             s.append("<import name=\"");
-            s.append(pImport->getName());
+            appendText(pImport->getName(), s);
             s.append("\"/>");
           } else {
             s.append("<import location=\"");
-            s.append(pImport->getLocation());
+            appendText(pImport->getLocation(), s);
             s.append("\"/>");
           }
         }
@@ -1388,7 +1395,7 @@ namespace uima {
           TypeDescription const * td = tdVec[i];
           s.append("<typeDescription>");
           s.append("<name>");
-          s.append(td->getName());
+          appendText(td->getName(), s);
           s.append("</name>");
 
           s.append("<description>");
@@ -1398,7 +1405,7 @@ namespace uima {
           s.append("</description>");
 
           s.append("<supertypeName>");
-          s.append(td->getSuperTypeName());
+          appendText(td->getSuperTypeName(), s);
           s.append("</supertypeName>");
 
           TypeDescription::TyVecpFeatureDescriptions const & fdVec = td->getFeatureDescriptions();
@@ -1408,7 +1415,7 @@ namespace uima {
               FeatureDescription const * fs = fdVec[j];
               s.append("<featureDescription>");
               s.append("<name>");
-              s.append(fs->getName());
+              appendText(fs->getName(), s);
               s.append("</name>");
               s.append("<description>");
               out.setTo("");
@@ -1416,11 +1423,11 @@ namespace uima {
               s.append(out);
               s.append("</description>");
               s.append("<rangeTypeName>");
-              s.append(fs->getRangeTypeName());
+              appendText(fs->getRangeTypeName(), s);
               s.append("</rangeTypeName>");
               if (0 < fs->getElementType().length() ) {
                 s.append("<elementType>");
-                s.append(fs->getElementType());
+                appendText(fs->getElementType(), s);
                 s.append("</elementType>");
               }
               if (fs->isMultipleReferencesAllowed() ) {
@@ -1440,7 +1447,7 @@ namespace uima {
               AllowedValue const * value = allowVec[j];
               s.append("<value>");
               s.append("<string>");
-              s.append(value->getName());
+              appendText(value->getName(), s);
               s.append("</string>");
               s.append("<description>");
               out.setTo("");
@@ -1467,11 +1474,11 @@ namespace uima {
         ImportDescription const * pImport = ixImportVec[i];
         if ( pImport->getName().length() > 0) {
           s.append("<import name=\"");
-          s.append(pImport->getName());
+          appendText(pImport->getName(), s);
           s.append("\"/>");
         } else {
           s.append("<import location=\"");
-          s.append(pImport->getLocation());
+          appendText(pImport->getLocation(), s);
           s.append("\"/>");
         }
       }
@@ -1485,10 +1492,10 @@ namespace uima {
       FSIndexDescription const * ixDesc = ixVec[i];
       s.append("<fsIndexDescription>");
       s.append("<label>");
-      s.append(ixDesc->getLabel());
+      appendText(ixDesc->getLabel(), s);
       s.append("</label>");
       s.append("<typeName>");
-      s.append(ixDesc->getTypeName());
+      appendText(ixDesc->getTypeName(), s);
       s.append("</typeName>");
       s.append("<kind>");
       FSIndexDescription::EnIndexKind ixKind = ixDesc->getIndexKind();
@@ -1517,7 +1524,7 @@ namespace uima {
             s.append("<typePriority/>");
           } else {
             s.append("<featureName>");
-            s.append(ixKeyDesc->getFeatureName());
+            appendText(ixKeyDesc->getFeatureName(), s);
             s.append("</featureName>");
 
             s.append("<comparator>");
@@ -1574,7 +1581,7 @@ namespace uima {
       Capability::TyVecCapabilityLanguages const & suppLangVec = cap->getSupportedLanguages();
       for (j=0; j<suppLangVec.size(); ++j) {
         s.append("<language>");
-        s.append(suppLangVec[j]);
+        appendText(suppLangVec[j], s);
         s.append("</language>");
       }
       s.append("</languagesSupported>");
-- 
2.43.0


From 20cb64abf40cf2ce5f2e85ab1f0f7eb18e12567e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:35 +0000
Subject: [PATCH 066/115] fix: the XML dump escapes index labels and the end
 mark of its CDATA section

---
 src/cas/xmlwriter.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/cas/xmlwriter.cpp b/src/cas/xmlwriter.cpp
index d066081..8284f02 100644
--- a/src/cas/xmlwriter.cpp
+++ b/src/cas/xmlwriter.cpp
@@ -315,6 +315,11 @@ namespace uima {
       os << "<![CDATA[";
       std::string s;
       ulstrBuffer.extract(s, CCSID::getDefaultSBCSInputCCSID() );
+      // the end mark of the section must not appear in it
+      for (size_t pos = s.find("]]>"); pos != std::string::npos; pos = s.find("]]>", pos)) {
+        s.replace(pos, 3, "]]]]><![CDATA[>");
+        pos += 15;
+      }
       os << s;
       os << "]]>" << endl;
       os << "</doc_buffer>" << endl;
@@ -349,7 +354,9 @@ namespace uima {
 
       icu::UnicodeString const & crTypeName = iv_rTypeSystem.getTypeName( indexDef.getTypeForIndex(crIndexID) );
       UnicodeStringRef ulsTypeName(crTypeName.getBuffer(), crTypeName.length() );
-      os << "<index id=\"" << crIndexID << "\" type=\"" << ulsTypeName << "\">" << endl;
+      icu::UnicodeString indexID;
+      normalize(UnicodeStringRef(crIndexID), indexID);
+      os << "<index id=\"" << indexID << "\" type=\"" << ulsTypeName << "\">" << endl;
 
       uima::lowlevel::TyFSType tyIndexType = indexDef.getTypeForIndex(crIndexID);
       lowlevel::IndexABase const & crIndex = crIxRep.getLowlevelIndex(crIndexID, tyIndexType);
-- 
2.43.0


From 01478a588f9c0c0dfaae50f343c56b6840422f9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:08 +0000
Subject: [PATCH 067/115] fix: a preserved list head is escaped like other
 preserved attributes

---
 src/cas/xmiwriter.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/cas/xmiwriter.cpp b/src/cas/xmiwriter.cpp
index 2fb49db..25c5b73 100644
--- a/src/cas/xmiwriter.cpp
+++ b/src/cas/xmiwriter.cpp
@@ -1140,7 +1140,10 @@ void XmiWriter::write(ostream & os) {
               assert(oed->attributes.size() == 1); //only the head feature can possibly be here
               XmlAttribute *  attr = oed->attributes.at(0);
               assert(attr->name.compare(CAS::FEATURE_BASE_NAME_HEAD)==0);
-              str << attr->value;
+              icu::UnicodeString us;
+              icu::UnicodeString av(icu::UnicodeString::fromUTF8(attr->value));
+              normalize( av, us );
+              str << us;
             } else {
               str << head;
             }
-- 
2.43.0


From d6cea8ab82895164c14918aef4c420df9b206995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:35 +0000
Subject: [PATCH 068/115] fix: an aggregate engine forwards
 batchProcessComplete to its delegates as batchProcessComplete

---
 src/framework/internal_aggregate_engine.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/framework/internal_aggregate_engine.cpp b/src/framework/internal_aggregate_engine.cpp
index c0ca218..1e6f98b 100644
--- a/src/framework/internal_aggregate_engine.cpp
+++ b/src/framework/internal_aggregate_engine.cpp
@@ -211,7 +211,7 @@ namespace uima {
 
     TyErrorId AggregateEngine::batchProcessCompleteImpl(void) {
       util::Trace             clTrace(util::enTraceDetailMedium, UIMA_TRACE_ORIGIN, UIMA_TRACE_COMPID_ENGINE);
-      return iv_annotatorMgr.launchCollectionProcessComplete();
+      return iv_annotatorMgr.launchBatchProcessComplete();
     }
 
     TyErrorId AggregateEngine::collectionProcessCompleteImpl(void) {
-- 
2.43.0


From 8f6debd7992413b21680e3b96f668e8aa1eab01f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:35 +0000
Subject: [PATCH 069/115] fix: a primitive engine returns the error code of its
 annotator's process()

---
 src/framework/internal_primitive_engine.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/framework/internal_primitive_engine.cpp b/src/framework/internal_primitive_engine.cpp
index aaad5d9..1645c79 100644
--- a/src/framework/internal_primitive_engine.cpp
+++ b/src/framework/internal_primitive_engine.cpp
@@ -203,7 +203,7 @@ namespace uima {
         // link CAS to current component
         cas.setCurrentComponentInfo(&getAnnotatorContext());
         try {
-          iv_pAnnotator->processDocument(cas, crResultSpec);
+          return iv_pAnnotator->processDocument(cas, crResultSpec);
         } catch (Exception e) {
           UIMA_EXC_RETHROW(e,0);
         }
-- 
2.43.0


From d72eadbd0d4cf45088d5570fb3d1f8ceb7f6eeb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:35 +0000
Subject: [PATCH 070/115] fix: an engine whose (re)initialization failed does
 not stay ready for processing

---
 src/framework/internal_engine_base.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/framework/internal_engine_base.cpp b/src/framework/internal_engine_base.cpp
index 42f9f58..844d90b 100644
--- a/src/framework/internal_engine_base.cpp
+++ b/src/framework/internal_engine_base.cpp
@@ -283,11 +283,16 @@ namespace uima {
         int numCasRequired =  getCasInstancesRequiredImpl();
         if (numCasRequired > 0) {
           utErrorId = iv_pAnnotatorContext->defineCASPool(numCasRequired);
+          if (utErrorId != UIMA_ERR_NONE) {
+            destroy();
+          }
         }
 
         return utErrorId;
       } catch (Exception & rclException) {
         getAnnotatorContext().getLogger().logError(rclException.getErrorInfo() );
+        // do not leave a half-initialized engine behind that accepts process() calls
+        destroy();
         return rclException.getErrorInfo().getErrorId();
       }
 
@@ -297,6 +302,9 @@ namespace uima {
     TyErrorId EngineBase::reinitTypeSystem() {
       try {
         util::Trace                clTrace(util::enTraceDetailLow, UIMA_TRACE_ORIGIN, UIMA_TRACE_COMPID_ENGINE);
+        if (!checkAndSetCallingSequenceReconfigure()) {
+          return logError(clTrace, UIMA_ERR_ENGINE_INVALID_CALLING_SEQUENCE);
+        }
         TyErrorId utErrorId = reinitTypeSystemImpl();
         if (utErrorId != UIMA_ERR_NONE) {
           destroy();
@@ -313,6 +321,8 @@ namespace uima {
         return utErrorId;
       } catch (Exception & rclException) {
         getAnnotatorContext().getLogger().logError(rclException.getErrorInfo() );
+        // the annotators may not know the new type system: do not process with them
+        destroy();
         return rclException.getErrorInfo().getErrorId();
       }
 
-- 
2.43.0


From 3863f1bffd65f6f2528906e1fef80929c58c70ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:35 +0000
Subject: [PATCH 071/115] fix: hasNext() and next() do not use the annotator of
 an engine that is not initialized

---
 src/framework/internal_engine_base.cpp | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/framework/internal_engine_base.cpp b/src/framework/internal_engine_base.cpp
index 844d90b..b962cee 100644
--- a/src/framework/internal_engine_base.cpp
+++ b/src/framework/internal_engine_base.cpp
@@ -432,11 +432,11 @@ namespace uima {
     bool EngineBase::hasNext() {
       try {
         util::Trace                clTrace(util::enTraceDetailLow, UIMA_TRACE_ORIGIN, UIMA_TRACE_COMPID_ENGINE);
-        /** why do this ?? (bi)
+        // without an initialized annotator there is nothing to ask
         if (!checkAndSetCallingSequenceProcess()) {
-           logError(clTrace, UIMA_ERR_ENGINE_INVALID_CALLING_SEQUENCE);
-           return false;
-        } **/
+          logError(clTrace, UIMA_ERR_ENGINE_INVALID_CALLING_SEQUENCE);
+          return false;
+        }
         return hasNextImpl();
       } catch (Exception & rclException) {
         getAnnotatorContext().getLogger().logError(rclException.getErrorInfo() );
@@ -447,10 +447,15 @@ namespace uima {
     CAS &  EngineBase::next() {
       try {
         util::Trace                clTrace(util::enTraceDetailLow, UIMA_TRACE_ORIGIN, UIMA_TRACE_COMPID_ENGINE);
-        /** why do this (bi)
         if (!checkAndSetCallingSequenceProcess()) {
-           logError(clTrace, UIMA_ERR_ENGINE_INVALID_CALLING_SEQUENCE);
-        } **/
+          logError(clTrace, UIMA_ERR_ENGINE_INVALID_CALLING_SEQUENCE);
+
+          UIMA_EXC_THROW_NEW(CASIteratorException,
+                             UIMA_ERR_ENGINE_INVALID_CALLING_SEQUENCE,
+                             UIMA_MSG_ID_EXCON_CALLING_ANNOTATOR_FUNCTION,
+                             UIMA_MSG_ID_EXCON_CALLING_ANNOTATOR_FUNCTION,
+                             ErrorInfo::unrecoverable);
+        }
         return nextImpl();
       } catch (Exception & rclException) {
         getAnnotatorContext().getLogger().logError(rclException.getErrorInfo() );
-- 
2.43.0


From 6d7955f4b1af622561ae0316b012553bfe7b64e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:35 +0000
Subject: [PATCH 072/115] fix: a delegate whose capabilities cannot be set up
 is still destroyed

---
 src/framework/annotator_mgr.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/framework/annotator_mgr.cpp b/src/framework/annotator_mgr.cpp
index 19aa35c..5ef739d 100644
--- a/src/framework/annotator_mgr.cpp
+++ b/src/framework/annotator_mgr.cpp
@@ -191,6 +191,10 @@ namespace uima {
         assert( EXISTS(pCapContainer) );
         entry.iv_pCapabilityContainer = pCapContainer;
 
+        /* add to set of delegate TAEs as managed by the AnnotatorManager: from now on
+           launchDeInit() destroys the delegate, also if the rest of the set up fails */
+        iv_vecEntries.insert(iv_vecEntries.end(), entry);
+
         vector<Capability*> const & crCapabilities = pDelegateANC->getTaeSpecifier().getAnalysisEngineMetaData()->getCapabilites();
 
         UIMA_TPRINT("-------------------------------------------------");
@@ -227,8 +231,6 @@ namespace uima {
         UIMA_TPRINT("  is like dump ? " << pCapContainer->hasEmptyOutputTypeOrFeatures(uima::Language("en") ));
 #endif
 
-        /* add to set of delegate TAEs as managed by the AnnotatorManager */
-        iv_vecEntries.insert(iv_vecEntries.end(), entry);
       }
 
       UIMA_ANNOTATOR_TIMING(iv_clTimerLaunchInit.stop());
-- 
2.43.0


From 3c50c7caafe12c404feba6d0471b47feaeb79155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:49 +0000
Subject: [PATCH 073/115] fix: a failing capability set up does not leave a
 deleted capability container behind

---
 src/framework/annotator_mgr.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/framework/annotator_mgr.cpp b/src/framework/annotator_mgr.cpp
index 5ef739d..f840da0 100644
--- a/src/framework/annotator_mgr.cpp
+++ b/src/framework/annotator_mgr.cpp
@@ -299,14 +299,14 @@ namespace uima {
         }
         // create new capability containers
         assert( EXISTS(iv_vecEntries[ui].iv_pCapabilityContainer) );
-        delete iv_vecEntries[ui].iv_pCapabilityContainer;
-
-        uima::internal::CapabilityContainer * capContainer = new uima::internal::CapabilityContainer();
-        assert( EXISTS(capContainer) );
+        unique_ptr<uima::internal::CapabilityContainer> capContainer( new uima::internal::CapabilityContainer() );
+        assert( EXISTS(capContainer.get()) );
         capContainer->init( engine.getAnalysisEngineMetaData().getCapabilites(),
                             engine.getCASDefinition().getTypeSystem() );
 
-        iv_vecEntries[ui].iv_pCapabilityContainer = capContainer;
+        // replace the old one only now: init() throws if a capability is invalid
+        delete iv_vecEntries[ui].iv_pCapabilityContainer;
+        iv_vecEntries[ui].iv_pCapabilityContainer = capContainer.release();
 
       }
       return utRetVal;
-- 
2.43.0


From 81d63c4eecfffbd4a6069ae6d8ac3d5a3521558f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:38 +0000
Subject: [PATCH 074/115] fix: typeSystemInitJNI reports a failed type system
 initialization to Java

---
 src/jni/jni.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/jni/jni.cpp b/src/jni/jni.cpp
index ac96190..a15a2f9 100644
--- a/src/jni/jni.cpp
+++ b/src/jni/jni.cpp
@@ -550,7 +550,12 @@ JNIEXPORT void JNICALL JAVA_PREFIX(typeSystemInitJNI) (JNIEnv* jeEnv,
     deSerializer.deserializeDefinitions( rSerCAS, casDef );
     UIMA_TPRINT("   done deserializing definitions");
 
-    engineBase.reinitTypeSystem();
+    uima::TyErrorId tyErrorId = engineBase.reinitTypeSystem();
+    if (tyErrorId != UIMA_ERR_NONE) {
+      UIMA_TPRINT("Error during reinitTypeSystem (code= " << tyErrorId << ")" );
+      JNIUtils::throwNewInternalException(jeEnv, pEngine->getAnnotatorContext().getLogger().getLastError() );
+      return;
+    }
 
     uima::CAS * pCAS = pInstance->getCAS();
     if (pCAS != NULL) {
-- 
2.43.0


From 18c4527267de8349b25f123f06c30e82d36413a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:38 +0000
Subject: [PATCH 075/115] fix: type systems are not parsed from the buffer of a
 destroyed temporary string

---
 src/framework/engine.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/framework/engine.cpp b/src/framework/engine.cpp
index 63b7672..d1253c2 100644
--- a/src/framework/engine.cpp
+++ b/src/framework/engine.cpp
@@ -488,9 +488,9 @@ namespace uima {
     XMLParser builder;
     AnalysisEngineMetaData * pAe = new AnalysisEngineMetaData();
 	TypeSystemDescription * tsDesc = new TypeSystemDescription();
-    MemBufInputSource memIS((XMLByte const *)usRef.asUTF8().c_str(),
-		                    usRef.asUTF8().length(),
-							"sysID");
+    // MemBufInputSource does not copy the buffer
+    std::string xml(usRef.asUTF8());
+    MemBufInputSource memIS((XMLByte const *)xml.c_str(), xml.length(), "sysID");
 	builder.parseTypeSystemDescription(*tsDesc,memIS);
     pAe->setTypeSystemDescription(tsDesc);
 
@@ -576,8 +576,9 @@ namespace uima {
     UnicodeStringRef usRef(cpBuffer, uiLength);
     XMLParser builder;
     TypeSystemDescription * tsDesc = new TypeSystemDescription();
-    MemBufInputSource memIS((XMLByte const *) usRef.asUTF8().c_str(), 
-		                     usRef.asUTF8().length(), "sysID");
+    // MemBufInputSource does not copy the buffer
+    std::string xml(usRef.asUTF8());
+    MemBufInputSource memIS((XMLByte const *)xml.c_str(), xml.length(), "sysID");
 	builder.parseTypeSystemDescription(*tsDesc,memIS);
     return tsDesc;
   }
-- 
2.43.0


From eec859a6014c6e3a78e8e8265108ffb153402cdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:38 +0000
Subject: [PATCH 076/115] fix: createTypeSystemDescription(char const *) does
 not take the file name for UTF-16 text

---
 src/framework/engine.cpp | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/framework/engine.cpp b/src/framework/engine.cpp
index d1253c2..da210f7 100644
--- a/src/framework/engine.cpp
+++ b/src/framework/engine.cpp
@@ -585,11 +585,8 @@ namespace uima {
 
   //read in xml from a file and create a TypeSystemDescription object
   TypeSystemDescription * Framework::createTypeSystemDescription(char const * crFileName) {
-    XMLParser builder;
-	LocalFileInputSource fileIS((XMLCh const *)crFileName);
-	TypeSystemDescription * tsDesc = new TypeSystemDescription();
-    builder.parseTypeSystemDescription(*tsDesc,fileIS);
-	return tsDesc;
+    TextAnalysisEngineSpecifierBuilder builder;
+    return builder.buildTypeSystemSpecifierFromFile(crFileName);
   }
 
 
-- 
2.43.0


From 0faee2358f57a07726a58cc0b1f3d39445ad6b48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:49 +0000
Subject: [PATCH 077/115] fix: a type system description that cannot be parsed
 is not leaked

---
 src/framework/engine.cpp              | 40 ++++++++-------------------
 src/framework/taespecifierbuilder.cpp | 16 +++--------
 2 files changed, 15 insertions(+), 41 deletions(-)

diff --git a/src/framework/engine.cpp b/src/framework/engine.cpp
index da210f7..9c5c370 100644
--- a/src/framework/engine.cpp
+++ b/src/framework/engine.cpp
@@ -454,8 +454,8 @@ namespace uima {
   TypeSystem * Framework::createTypeSystem(char const * crFileName, ErrorInfo& rErrorInfo) {
 
     XMLParser builder;
-    AnalysisEngineMetaData * pAe = new AnalysisEngineMetaData();
-    TypeSystemDescription * tsDesc = new TypeSystemDescription();
+    unique_ptr<AnalysisEngineMetaData> apSpecifier( new AnalysisEngineMetaData() );
+    unique_ptr<TypeSystemDescription> tsDesc( new TypeSystemDescription() );
 	
     icu::UnicodeString ufn(crFileName);
     size_t uiLen = ufn.length();
@@ -467,13 +467,7 @@ namespace uima {
     LocalFileInputSource fileIS((XMLCh const *) arBuffer.get());
 
     builder.parseTypeSystemDescription(*tsDesc, fileIS);
-    pAe->setTypeSystemDescription(tsDesc);
-
-    unique_ptr<AnalysisEngineMetaData> apSpecifier(pAe  );
-    if (apSpecifier.get() == NULL) {
-      rErrorInfo.setErrorId(UIMA_ERR_ENGINE_OUT_OF_MEMORY);
-      return NULL;
-    }
+    apSpecifier->setTypeSystemDescription(tsDesc.release());
 
     uima::TypeSystem * pTs =  uima::internal::CASDefinition::createTypeSystem(*apSpecifier.get());
     return pTs;
@@ -486,19 +480,13 @@ namespace uima {
       ErrorInfo& rErrorInfo) {
     UnicodeStringRef usRef(cpBuffer, uiLength);
     XMLParser builder;
-    AnalysisEngineMetaData * pAe = new AnalysisEngineMetaData();
-	TypeSystemDescription * tsDesc = new TypeSystemDescription();
+    unique_ptr<AnalysisEngineMetaData> apSpecifier( new AnalysisEngineMetaData() );
+    unique_ptr<TypeSystemDescription> tsDesc( new TypeSystemDescription() );
     // MemBufInputSource does not copy the buffer
     std::string xml(usRef.asUTF8());
     MemBufInputSource memIS((XMLByte const *)xml.c_str(), xml.length(), "sysID");
 	builder.parseTypeSystemDescription(*tsDesc,memIS);
-    pAe->setTypeSystemDescription(tsDesc);
-
-    unique_ptr<AnalysisEngineMetaData> apSpecifier(pAe  );
-    if (apSpecifier.get() == NULL) {
-      rErrorInfo.setErrorId(UIMA_ERR_ENGINE_OUT_OF_MEMORY);
-      return NULL;
-    }
+    apSpecifier->setTypeSystemDescription(tsDesc.release());
 
     uima::TypeSystem * pTs =  uima::internal::CASDefinition::createTypeSystem(*apSpecifier.get());
     return pTs;
@@ -509,17 +497,11 @@ namespace uima {
   TypeSystem * Framework::createTypeSystemFromXMLBuffer( char const * cpBuffer,
       ErrorInfo& rErrorInfo) {
     XMLParser builder;
-    AnalysisEngineMetaData * pAe = new AnalysisEngineMetaData();
+    unique_ptr<AnalysisEngineMetaData> apSpecifier( new AnalysisEngineMetaData() );
 	MemBufInputSource memIS((XMLByte const *) cpBuffer, strlen(cpBuffer), "sysID");
-	TypeSystemDescription * tsDesc = new TypeSystemDescription();
+    unique_ptr<TypeSystemDescription> tsDesc( new TypeSystemDescription() );
 	builder.parseTypeSystemDescription(*tsDesc, memIS);
-    pAe->setTypeSystemDescription(tsDesc);
-
-    unique_ptr<AnalysisEngineMetaData> apSpecifier(pAe  );
-    if (apSpecifier.get() == NULL) {
-      rErrorInfo.setErrorId(UIMA_ERR_ENGINE_OUT_OF_MEMORY);
-      return NULL;
-    }
+    apSpecifier->setTypeSystemDescription(tsDesc.release());
 
     uima::TypeSystem * pTs =  uima::internal::CASDefinition::createTypeSystem(*apSpecifier.get());
     return pTs;
@@ -575,12 +557,12 @@ namespace uima {
   TypeSystemDescription * Framework::createTypeSystemDescription(UChar const * cpBuffer, size_t uiLength) {
     UnicodeStringRef usRef(cpBuffer, uiLength);
     XMLParser builder;
-    TypeSystemDescription * tsDesc = new TypeSystemDescription();
+    unique_ptr<TypeSystemDescription> tsDesc( new TypeSystemDescription() );
     // MemBufInputSource does not copy the buffer
     std::string xml(usRef.asUTF8());
     MemBufInputSource memIS((XMLByte const *)xml.c_str(), xml.length(), "sysID");
 	builder.parseTypeSystemDescription(*tsDesc,memIS);
-    return tsDesc;
+    return tsDesc.release();
   }
 
   //read in xml from a file and create a TypeSystemDescription object
diff --git a/src/framework/taespecifierbuilder.cpp b/src/framework/taespecifierbuilder.cpp
index f450ae4..eacc1f9 100644
--- a/src/framework/taespecifierbuilder.cpp
+++ b/src/framework/taespecifierbuilder.cpp
@@ -2086,15 +2086,11 @@ void XMLParser::buildFSIndexFromImportLocation(AnalysisEngineMetaData& fsDesc,
     }
 
     LocalFileInputSource fileIS((XMLCh const *) arBuffer.get() );
-    TypeSystemDescription*  pDesc = new TypeSystemDescription();
-	if ( !(EXISTS(pDesc)) ) {
-		//TODO
-		return NULL;
-	}
+    unique_ptr<TypeSystemDescription> pDesc( new TypeSystemDescription() );
 
     pDesc->setXmlFileLocation(fileName);
     parseTypeSystemDescription(*pDesc, fileIS);
-    return pDesc;
+    return pDesc.release();
   }
 
 
@@ -2107,13 +2103,9 @@ void XMLParser::buildFSIndexFromImportLocation(AnalysisEngineMetaData& fsDesc,
   TypeSystemDescription * TextAnalysisEngineSpecifierBuilder::buildTypeSystemSpecifierFromXMLBuffer(char const * xmlString) {
 
     MemBufInputSource memIS((XMLByte const *) xmlString, strlen(xmlString), "sysID");
-    TypeSystemDescription * tsDesc = new TypeSystemDescription();
-	if (!EXISTS(tsDesc)) {
-		//TODO: log error
-		return NULL;
-	}
+    unique_ptr<TypeSystemDescription> tsDesc( new TypeSystemDescription() );
 	parseTypeSystemDescription(*tsDesc, memIS);
-    return tsDesc;	
+    return tsDesc.release();
   }
 
   
-- 
2.43.0


From 51ba80ab0e486ae30e58c46cb8f9e39c5e0595cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:49 +0000
Subject: [PATCH 078/115] fix: the temporary file of a descriptor buffer is
 removed when parsing it fails

---
 src/framework/engine.cpp | 33 ++++++++++++++++++++++++---------
 1 file changed, 24 insertions(+), 9 deletions(-)

diff --git a/src/framework/engine.cpp b/src/framework/engine.cpp
index 9c5c370..b454073 100644
--- a/src/framework/engine.cpp
+++ b/src/framework/engine.cpp
@@ -289,20 +289,35 @@ namespace uima {
         // Use what appears to be a thread-safe routine on Linux & Windows
 	// Updated to use mkstemp - DG
         /* char* tmpFileName = tempnam(NULL, "TMP"); */
-	char* tmpFileName = strdup("/tmp/TMPXXXXXX");
-	int fd = mkstemp(tmpFileName);
-	close(fd);
+	// removed when parsing is done, also if it fails
+	struct TempFile {
+	  char iv_name[20];
+	  int iv_fd;
+	  TempFile() {
+	    strcpy(iv_name, "/tmp/TMPXXXXXX");
+	    iv_fd = mkstemp(iv_name);
+	    if (iv_fd != -1) {
+	      close(iv_fd);
+	    }
+	  }
+	  ~TempFile() {
+	    if (iv_fd != -1) {
+	      remove(iv_name);
+	    }
+	  }
+	} tmpFile;
+	if (tmpFile.iv_fd == -1) {
+	  rErrorInfo.setErrorId(UIMA_ERR_RESOURCE_CORRUPTED);
+	  return NULL;
+	}
 
-        ofstream ofs(tmpFileName);
+        ofstream ofs(tmpFile.iv_name);
         uima::operator<<(ofs, crString);
         ofs << endl;
         ofs.close();
         UIMA_TPRINT("Wrote descriptor to temp file:");
-        UIMA_TPRINT(tmpFileName);
-        builder.parseAnalysisEngineDescription(* apTAESpecifier.get(), tmpFileName);
-
-        remove(tmpFileName);                // or unlink ??
-        free(tmpFileName);                  // Free storage allocated by tempnam
+        UIMA_TPRINT(tmpFile.iv_name);
+        builder.parseAnalysisEngineDescription(* apTAESpecifier.get(), tmpFile.iv_name);
       }
 
       apTAESpecifier->validate();
-- 
2.43.0


From be0006b95fe462f2cd80a2850226df4a4bf6bb76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:47 +0000
Subject: [PATCH 079/115] fix: the wrapper of a filtered iterator's filter is
 not leaked

---
 src/cas/fsindex.cpp             |  3 ++-
 src/cas/lowlevel_index.cpp      | 17 +++++++++++++++++
 src/cas/uima/lowlevel_index.hpp |  6 ++++++
 3 files changed, 25 insertions(+), 1 deletion(-)

diff --git a/src/cas/fsindex.cpp b/src/cas/fsindex.cpp
index 804b1cb..6f20dfd 100644
--- a/src/cas/fsindex.cpp
+++ b/src/cas/fsindex.cpp
@@ -177,7 +177,8 @@ namespace uima {
 
   FSIterator FSIndex::filteredIterator(uima::FSFilter const * cpFilter) const {
     checkValidity();
-    internal::FSFilterWrapper* pFilterWrapper = new internal::FSFilterWrapper( cpFilter, & iv_indexRepository->getCas() );
+    // the iterator owns the wrapper, the filter itself stays with the caller
+    std::shared_ptr<lowlevel::FSFilter const> pFilterWrapper( new internal::FSFilterWrapper( cpFilter, & iv_indexRepository->getCas() ) );
     lowlevel::IndexIterator* it = iv_pIndex->createFilteredIterator(pFilterWrapper);
     return FSIterator(it, & iv_indexRepository->getCas() );
   }
diff --git a/src/cas/lowlevel_index.cpp b/src/cas/lowlevel_index.cpp
index 73c870f..db88056 100644
--- a/src/cas/lowlevel_index.cpp
+++ b/src/cas/lowlevel_index.cpp
@@ -92,6 +92,7 @@ namespace uima {
      */
     class FilterIndexIterator : public IndexIterator {
     private:
+      std::shared_ptr<FSFilter const> iv_spFilter; // empty if the filter belongs to the caller
       FSFilter const * iv_cpFilter;
       IndexIterator* iv_pIterator;
 
@@ -122,6 +123,11 @@ namespace uima {
           : iv_cpFilter(cpFilter),
           iv_pIterator(pIterator) {}
 
+      FilterIndexIterator(std::shared_ptr<FSFilter const> const & cpFilter, IndexIterator* pIterator)
+          : iv_spFilter(cpFilter),
+          iv_cpFilter(cpFilter.get()),
+          iv_pIterator(pIterator) {}
+
       virtual ~FilterIndexIterator() {
         assert( EXISTS(iv_pIterator) );
         delete iv_pIterator;
@@ -167,6 +173,9 @@ namespace uima {
       }
 
       IndexIterator* clone() const {
+        if (iv_spFilter) {
+          return new FilterIndexIterator(iv_spFilter, iv_pIterator->clone());
+        }
         return new FilterIndexIterator(iv_cpFilter, iv_pIterator->clone());
       }
 
@@ -190,6 +199,14 @@ namespace uima {
       return result;
     }
 
+    IndexIterator* IndexABase::createFilteredIterator(std::shared_ptr<FSFilter const> const & cpFilter) const {
+      IndexIterator* pit = createIterator();
+      assert( EXISTS(pit) );
+      IndexIterator* result = new FilterIndexIterator(cpFilter, pit);
+      assert( EXISTS(result) );
+      return result;
+    }
+
   }
 }
 
diff --git a/src/cas/uima/lowlevel_index.hpp b/src/cas/uima/lowlevel_index.hpp
index 28210d3..3c6a748 100644
--- a/src/cas/uima/lowlevel_index.hpp
+++ b/src/cas/uima/lowlevel_index.hpp
@@ -37,6 +37,7 @@
 /*       Include dependencies                                              */
 /* ----------------------------------------------------------------------- */
 #include "uima/pragmas.hpp" // must be first file to be included to get pragmas
+#include <memory>
 #include <vector>
 #include <algorithm>
 #include <set>
@@ -127,6 +128,11 @@ namespace uima {
        */
       IndexIterator* createFilteredIterator(FSFilter const * cpFilter) const;
 
+      /**
+       * same as above, for a filter that the iterator (and its copies) keep alive.
+       */
+      IndexIterator* createFilteredIterator(std::shared_ptr<FSFilter const> const & cpFilter) const;
+
       /**
        * Advanced use only:
        * Returns a const pointer to an internal vector of feature structures.
-- 
2.43.0


From 3c3dc89d6f01d7c001585b208511781f90060990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:31 +0000
Subject: [PATCH 080/115] fix: the XCAS deserializer frees the parser, the
 handlers and the message when parsing fails

---
 src/cas/xcasdeserializer.cpp | 34 ++++++++++++++--------------------
 1 file changed, 14 insertions(+), 20 deletions(-)

diff --git a/src/cas/xcasdeserializer.cpp b/src/cas/xcasdeserializer.cpp
index 2bad3b6..3ddbb0c 100644
--- a/src/cas/xcasdeserializer.cpp
+++ b/src/cas/xcasdeserializer.cpp
@@ -103,15 +103,15 @@ namespace uima {
 
   void XCASDeserializer::deserialize(InputSource const & crInputSource, CAS & cas) {
     // Create a SAX2 parser object.
-    SAX2XMLReader* parser = XMLReaderFactory::createXMLReader();
+    unique_ptr<SAX2XMLReader> parser(XMLReaderFactory::createXMLReader());
 
     //register content handler
-    XCASDeserializerHandler * contentHandler = new XCASDeserializerHandler(cas, NULL);
-    parser->setContentHandler(contentHandler);
+    unique_ptr<XCASDeserializerHandler> contentHandler(new XCASDeserializerHandler(cas, NULL));
+    parser->setContentHandler(contentHandler.get());
 
     //register error handler
-    XMLErrorHandler* errorHandler = new XMLErrorHandler();
-    parser->setErrorHandler(errorHandler);
+    unique_ptr<XMLErrorHandler> errorHandler(new XMLErrorHandler());
+    parser->setErrorHandler(errorHandler.get());
 
     // Parse the XML document.
     // Document content sent to registered ContentHandler instance.
@@ -121,6 +121,7 @@ namespace uima {
       char* message = XMLString::transcode(e.getMessage());
       cerr << "XMLException message is: \n"
       << message << "\n";
+      XMLString::release(&message);
 
       ErrorInfo errInfo;
       errInfo.setErrorId((TyErrorId)UIMA_ERR_RESOURCE_CORRUPTED);
@@ -138,6 +139,7 @@ namespace uima {
       char* message = XMLString::transcode(e.getMessage());
       cerr << "SaxParseException message is: \n"
       << message << "\n";
+      XMLString::release(&message);
       ErrorInfo errInfo;
       errInfo.setErrorId((TyErrorId)UIMA_ERR_RESOURCE_CORRUPTED);
       ErrorMessage msg(UIMA_MSG_ID_EXC_XML_SAXPARSE_FATALERROR);
@@ -150,24 +152,19 @@ namespace uima {
       ExcIllFormedInputError exc(errInfo);
       throw exc;
     }
-
-    // Delete the parser instance and handlers
-    delete contentHandler;
-    delete errorHandler;
-    delete parser;
   }
 
   void XCASDeserializer::deserialize(InputSource const & crInputSource, CAS & cas, uima::AnnotatorContext  * const ctx) {
     // Create a SAX2 parser object.
-    SAX2XMLReader* parser = XMLReaderFactory::createXMLReader();
+    unique_ptr<SAX2XMLReader> parser(XMLReaderFactory::createXMLReader());
 
     //register content handler
-    XCASDeserializerHandler * contentHandler = new XCASDeserializerHandler(cas, ctx);
-    parser->setContentHandler(contentHandler);
+    unique_ptr<XCASDeserializerHandler> contentHandler(new XCASDeserializerHandler(cas, ctx));
+    parser->setContentHandler(contentHandler.get());
 
     //register error handler
-    XMLErrorHandler* errorHandler = new XMLErrorHandler();
-    parser->setErrorHandler(errorHandler);
+    unique_ptr<XMLErrorHandler> errorHandler(new XMLErrorHandler());
+    parser->setErrorHandler(errorHandler.get());
 
     // Parse the XML document.
     // Document content sent to registered ContentHandler instance.
@@ -177,6 +174,7 @@ namespace uima {
       char* message = XMLString::transcode(e.getMessage());
       cerr << "XMLException message is: \n"
       << message << "\n";
+      XMLString::release(&message);
 
       ErrorInfo errInfo;
       errInfo.setErrorId((TyErrorId)UIMA_ERR_RESOURCE_CORRUPTED);
@@ -194,6 +192,7 @@ namespace uima {
       char* message = XMLString::transcode(e.getMessage());
       cerr << "SaxParseException message is: \n"
       << message << "\n";
+      XMLString::release(&message);
       ErrorInfo errInfo;
       errInfo.setErrorId((TyErrorId)UIMA_ERR_RESOURCE_CORRUPTED);
       ErrorMessage msg(UIMA_MSG_ID_EXC_XML_SAXPARSE_FATALERROR);
@@ -206,11 +205,6 @@ namespace uima {
       ExcIllFormedInputError exc(errInfo);
       throw exc;
     }
-
-    // Delete the parser instance and handlers
-    delete contentHandler;
-    delete errorHandler;
-    delete parser;
   }
 
 
-- 
2.43.0


From d278e1e230a8a05da313f25ef43899d6db14c91e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:31 +0000
Subject: [PATCH 081/115] fix: a message from XMLString::transcode is freed
 with XMLString::release

---
 src/cas/xmideserializer.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/cas/xmideserializer.cpp b/src/cas/xmideserializer.cpp
index 846b944..4fc8f29 100644
--- a/src/cas/xmideserializer.cpp
+++ b/src/cas/xmideserializer.cpp
@@ -112,7 +112,7 @@ namespace uima {
       char* message = XMLString::transcode(e.getMessage());
       cerr << "XMLException message is: \n"
       << message << "\n";
-	  delete message;
+      XMLString::release(&message);
 
       ErrorInfo errInfo;
       errInfo.setErrorId((TyErrorId)UIMA_ERR_RESOURCE_CORRUPTED);
@@ -133,7 +133,7 @@ namespace uima {
       char* message = XMLString::transcode(e.getMessage());
       cerr << "SaxParseException message is: \n"
       << message << "\n";
-	  delete message;
+      XMLString::release(&message);
 
       ErrorInfo errInfo;
       errInfo.setErrorId((TyErrorId)UIMA_ERR_RESOURCE_CORRUPTED);
@@ -217,7 +217,7 @@ namespace uima {
       char* message = XMLString::transcode(e.getMessage());
       cerr << "XMLException message is: \n"
       << message << "\n";
-	  delete message;
+      XMLString::release(&message);
 
       ErrorInfo errInfo;
       errInfo.setErrorId((TyErrorId)UIMA_ERR_RESOURCE_CORRUPTED);
@@ -238,7 +238,7 @@ namespace uima {
       char* message = XMLString::transcode(e.getMessage());
       cerr << "SaxParseException message is: \n"
       << message << "\n";
-	  delete message;
+      XMLString::release(&message);
 
       ErrorInfo errInfo;
       errInfo.setErrorId((TyErrorId)UIMA_ERR_RESOURCE_CORRUPTED);
-- 
2.43.0


From fdecadb5d382b48ac56431423ff7dec5002e0202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:31 +0000
Subject: [PATCH 082/115] fix: the arrays for JNI calls are created with new[],
 so they are freed with delete[]

---
 src/jni/jni_utils.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/jni/jni_utils.cpp b/src/jni/jni_utils.cpp
index 2939c42..d8a084b 100644
--- a/src/jni/jni_utils.cpp
+++ b/src/jni/jni_utils.cpp
@@ -193,7 +193,7 @@ jintArray JNIUtils::createIntArray(JNIEnv* jeEnv, vector<uima::internal::Seriali
 
     jeEnv->SetIntArrayRegion(jiArr, 0, uiLength, pJIntArray);
     ASSERT_NO_JNI_EXCEPTION(jeEnv);
-    delete pJIntArray;
+    delete[] pJIntArray;
   }
 
   return jiArr;
@@ -270,7 +270,7 @@ jbyteArray JNIUtils::createByteArray(JNIEnv* jeEnv, vector<char> const & crVec)
 
     jeEnv->SetByteArrayRegion(jiArr, 0, uiLength, pJByteArray);
     ASSERT_NO_JNI_EXCEPTION(jeEnv);
-    delete pJByteArray;
+    delete[] pJByteArray;
   }
 
   return jiArr;
@@ -306,7 +306,7 @@ jshortArray JNIUtils::createShortArray(JNIEnv* jeEnv, vector<short> const & crVe
 
     jeEnv->SetShortArrayRegion(jiArr, 0, uiLength, pJShortArray);
     ASSERT_NO_JNI_EXCEPTION(jeEnv);
-    delete pJShortArray;
+    delete[] pJShortArray;
   }
 
   return jiArr;
@@ -343,7 +343,7 @@ jlongArray JNIUtils::createLongArray(JNIEnv* jeEnv, vector<INT64> const & crVec)
 
     jeEnv->SetLongArrayRegion(jiArr, 0, uiLength, pJLongArray);
     ASSERT_NO_JNI_EXCEPTION(jeEnv);
-    delete pJLongArray;
+    delete[] pJLongArray;
   }
 
   return jiArr;
-- 
2.43.0


From bcc42de83577f75f90d9b03c9d8fd53876101390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:51 +0000
Subject: [PATCH 083/115] fix: looking up or creating a view does not leak the
 Sofa name when it fails

---
 src/cas/cas.cpp | 21 ++++-----------------
 1 file changed, 4 insertions(+), 17 deletions(-)

diff --git a/src/cas/cas.cpp b/src/cas/cas.cpp
index ddc09d7..c5c0554 100644
--- a/src/cas/cas.cpp
+++ b/src/cas/cas.cpp
@@ -590,22 +590,17 @@ namespace uima {
   }
 
   CAS* CAS::getView(const icu::UnicodeString & localViewName) {
-    SofaID* sid;
-    bool deleteSofaID = false;
+    SofaID ownSofaID;
+    SofaID* sid = &ownSofaID;
     if (0 != iv_baseCas->iv_componentInfo) {
       sid = const_cast<SofaID*> (&iv_baseCas->iv_componentInfo->mapToSofaID(localViewName));
     } else {
-      sid = new SofaID();
-      deleteSofaID = true;
       sid->setSofaId(localViewName);
     }
 
     // if this resolves to the Initial View, return view(1)...
     // ... as the Sofa for this view may not exist yet
     if (0==sid->getSofaId().compare(CAS::NAME_DEFAULT_SOFA)) {
-      if (deleteSofaID) {
-        delete sid;
-      }
       return getInitialView();
     }
 
@@ -620,22 +615,17 @@ namespace uima {
                          ErrorInfo::unrecoverable
                         );
     }
-    if (deleteSofaID) {
-      delete sid;
-    }
     return getView(as);
   }
 
   CAS* CAS::createView(icu::UnicodeString const & localViewName) {
     // map the input name
-    SofaID* sid;
-    bool deleteSofaID = false;
+    SofaID ownSofaID;
+    SofaID* sid = &ownSofaID;
     if (0 != iv_baseCas->iv_componentInfo) {
       sid = const_cast<SofaID*> (&iv_baseCas->iv_componentInfo->mapToSofaID(localViewName));
     } else {
-      sid = new SofaID();
       sid->setSofaId(localViewName);
-      deleteSofaID = true;
     }
     // test if this is the reserved name
     if ( 0 == sid->getSofaId().compare(icu::UnicodeString(CAS::NAME_DEFAULT_SOFA)) ) {
@@ -650,9 +640,6 @@ namespace uima {
     }
 
     SofaFS newSofa = createSofa(sid->getSofaId(), UnicodeStringRef());
-    if (deleteSofaID) {
-      delete sid;
-    }
     return getView(newSofa);
   }
 
-- 
2.43.0


From a6287319f64a46bcc0a1058ae475ef218db87d84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:08 +0000
Subject: [PATCH 084/115] fix: what is built from a descriptor that turns out
 to be invalid is not leaked

---
 src/framework/taespecifierbuilder.cpp | 28 +++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/src/framework/taespecifierbuilder.cpp b/src/framework/taespecifierbuilder.cpp
index eacc1f9..bd521ac 100644
--- a/src/framework/taespecifierbuilder.cpp
+++ b/src/framework/taespecifierbuilder.cpp
@@ -383,7 +383,7 @@ namespace uima {
               DOMElement * delegateAE =  (DOMElement *)node;
               assert(EXISTS(delegateAE));
               icu::UnicodeString key = convert(delegateAE->getAttribute(convert(ATTR_DELEGATE_AE_KEY)));
-              AnalysisEngineDescription * pdelegateTaeSpec = new AnalysisEngineDescription();
+              unique_ptr<AnalysisEngineDescription> pdelegateTaeSpec(new AnalysisEngineDescription());
               DOMNodeList * childNodes = delegateAE->getChildNodes();
 
               DOMElement * delegateSpec = (DOMElement *) findFirst(childNodes, TAG_AE_DESC);
@@ -394,7 +394,7 @@ namespace uima {
 
               if (EXISTS(delegateSpec)) {           //the delegate is explicitly copied into the aggregate xml file
                 buildAnalysisEngineDescription(*pdelegateTaeSpec, delegateSpec, xmlFileLoc);
-                taeSpec.addDelegate(key, pdelegateTaeSpec);
+                taeSpec.addDelegate(key, pdelegateTaeSpec.release());
               } else {
                 //import element
                 delegateSpec = (DOMElement *) findFirst (childNodes, TAG_IMPORT_DESC);
@@ -403,7 +403,7 @@ namespace uima {
 				  icu::UnicodeString fn = ResourceManager::resolveFilename(loc, xmlFileLoc);
 				  if (loc.length() > 0) {			    
 					parseAnalysisEngineDescription(*pdelegateTaeSpec, fn);
-                    taeSpec.addDelegate(key, pdelegateTaeSpec);
+                    taeSpec.addDelegate(key, pdelegateTaeSpec.release());
                   } else {
                     //throw exception when import location attribute is not set.
                     ErrorMessage errMsg = ErrorMessage(UIMA_MSG_ID_EXC_UNKNOWN_CONFIG_XML_TAG);
@@ -424,7 +424,7 @@ namespace uima {
                     icu::UnicodeString newFileName = ResourceManager::resolveFilename(getSpannedText(delegateInc),
                                                      xmlFileLoc);
                     parseAnalysisEngineDescription(*pdelegateTaeSpec, newFileName);
-                    taeSpec.addDelegate(key, pdelegateTaeSpec);
+                    taeSpec.addDelegate(key, pdelegateTaeSpec.release());
 
                   }
                 }  //include
@@ -782,7 +782,7 @@ namespace uima {
             //we can't put the same nvPair into the groups, as they will delete their
             //member in their destructor
             //tbd: build only once, copy the result, pass the copies into 'add'
-            NameValuePair * nvPair = buildNameValuePair((DOMElement *) nvPairsForGroup->item(k));
+            unique_ptr<NameValuePair> nvPair(buildNameValuePair((DOMElement *) nvPairsForGroup->item(k)));
             icu::UnicodeString groupName(groupNames[l].c_str(), "UTF-8");
             //check for duplicate name value pairs
             //as a side effect, this also ensures that all name value pairs are defined
@@ -796,11 +796,11 @@ namespace uima {
                                  UIMA_MSG_ID_EXCON_BUILD_TAE_SPEC,
                                  ErrorInfo::recoverable);
             }
-            aeMetadata.addNameValuePair(groupName, nvPair);
+            aeMetadata.addNameValuePair(groupName, nvPair.release());
           }
         }
       } else if (childTag.compare(TAG_NAME_VALUE_PAIR) == 0) {
-        NameValuePair * nvPair = buildNameValuePair(child);
+        unique_ptr<NameValuePair> nvPair(buildNameValuePair(child));
         //check for duplicate name value pairs
         //as a side effect, this also ensures that all name value pairs are defined
         //as configuration parameters
@@ -813,7 +813,7 @@ namespace uima {
                              UIMA_MSG_ID_EXCON_BUILD_TAE_SPEC,
                              ErrorInfo::recoverable);
         }
-        aeMetadata.addNameValuePair(nvPair);
+        aeMetadata.addNameValuePair(nvPair.release());
       } else {
         /**
         ErrorMessage errMsg(UIMA_MSG_ID_EXC_UNKNOWN_CONFIG_XML_TAG);
@@ -990,7 +990,7 @@ namespace uima {
     assert(EXISTS(descElem));
     assert( XMLString::compareString(descElem->getNodeName(), convert(TAG_IMPORT_DESC)) == 0);
 
-    ImportDescription * importDesc = new ImportDescription();
+    unique_ptr<ImportDescription> importDesc(new ImportDescription());
 
     const XMLCh* location = descElem->getAttribute(convert(ATTR_IMPORT_DESC_LOCATION));
     if (isDefined(location)) {
@@ -1011,7 +1011,7 @@ namespace uima {
       }
     }
 
-    return importDesc;
+    return importDesc.release();
   }
 
   TypeDescription * XMLParser::buildTypeDesc(DOMElement * descElem) {
@@ -1541,7 +1541,7 @@ namespace uima {
     DOMNodeList * children = descElem->getChildNodes();
     assert(EXISTS(children));
 
-    Capability * capability = new Capability();
+    unique_ptr<Capability> capability(new Capability());
     size_t i;
     for (i=0; i < children->getLength(); i++) {
       if ((children->item(i))->getNodeType() != DOMNode::ELEMENT_NODE) {
@@ -1637,7 +1637,7 @@ namespace uima {
         }
       }
     }
-    aeMetaData.addCapability(capability);
+    aeMetaData.addCapability(capability.release());
   }
 
 
@@ -1660,8 +1660,12 @@ namespace uima {
 
 
       if (childTag.compare(TAG_FLOW_FIX) == 0) {
+        delete flow;
+        flow = NULL;
         flow = buildFixedFlow(child);
       } else if (childTag.compare(TAG_FLOW_CAPABILITY_LANG)==0) {
+        delete flow;
+        flow = NULL;
         flow = buildCapabilityLanguageFlow(child);
       } else {
         /**
-- 
2.43.0


From df6794b1bae4137ea78aa48fb9ff26a8475ceaef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:21 +0000
Subject: [PATCH 085/115] fix: an array with an unknown XCAS attribute does not
 leak

---
 src/cas/xcasdeserializer_handler.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/cas/xcasdeserializer_handler.cpp b/src/cas/xcasdeserializer_handler.cpp
index 3bc08ff..dc005a7 100644
--- a/src/cas/xcasdeserializer_handler.cpp
+++ b/src/cas/xcasdeserializer_handler.cpp
@@ -32,6 +32,7 @@
 // ---------------------------------------------------------------------------
 
 #include "uima/pragmas.hpp"
+#include <memory>
 #include <iostream>
 #include <sstream>
 #include <algorithm>
@@ -538,7 +539,7 @@ namespace uima {
 
   void XCASDeserializerHandler::readArray(Type & type, const Attributes  & attrs) {
 
-    vector<int>* indexRep = new vector<int>;
+    unique_ptr<vector<int> > indexRep(new vector<int>);
     int id = -1;
     int size=0;
     icu::UnicodeString attrName;
@@ -585,7 +586,7 @@ namespace uima {
     arrayPos=0;
 
     // indexRep.size()==0 means not indexed
-    FSInfo * fsInfo = new FSInfo(currentAddr, indexRep);
+    FSInfo * fsInfo = new FSInfo(currentAddr, indexRep.release());
     registerFS(id, fsInfo);
     iv_state = ARRAY_ELE_STATE;
 
-- 
2.43.0


From 175fbe890f3c669a4513c6b51ed82bd7169a363f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:37 +0000
Subject: [PATCH 086/115] fix: the JNI constructor does not leak the instance
 when it fails

---
 src/jni/jni.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/jni/jni.cpp b/src/jni/jni.cpp
index a15a2f9..6b096cf 100644
--- a/src/jni/jni.cpp
+++ b/src/jni/jni.cpp
@@ -40,6 +40,7 @@
 
 #include "uima/pragmas.hpp"
 
+#include <memory>
 #include "uima/macros.h"
 #include "uima/location.hpp"
 #include "uima/filename.hpp"
@@ -352,8 +353,8 @@ JNIEXPORT void JNICALL JAVA_PREFIX(constructorJNI) (JNIEnv* jeEnv,
   try {
     UIMA_TPRINT("constructorJNI() entered");
 
-    uima::JNIInstance * pInstance = new uima::JNIInstance();
-    if (pInstance == NULL) {
+    std::unique_ptr<uima::JNIInstance> pInstance(new uima::JNIInstance());
+    if (pInstance.get() == NULL) {
       uima::ErrorInfo errInfo(UIMA_MSG_ID_EXC_OUT_OF_MEMORY,
                               UIMA_ERR_ENGINE_OUT_OF_MEMORY,
                               uima::ErrorInfo::unrecoverable);
@@ -368,7 +369,7 @@ JNIEXPORT void JNICALL JAVA_PREFIX(constructorJNI) (JNIEnv* jeEnv,
     }
 
     // setting engine
-    JNIUtils::setCppInstance(jeEnv, joJTaf, pInstance);
+    JNIUtils::setCppInstance(jeEnv, joJTaf, pInstance.release());
 
     UIMA_TPRINT("constructorJNI() finished");
   } catch (uima::Exception & rException) {
-- 
2.43.0


From f28c718413841e9fa45c678fbc2c135b43c11425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:50 +0000
Subject: [PATCH 087/115] fix: a filter that gave up its operands does not keep
 pointers to them

---
 src/cas/fsfilterbuilder.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/cas/fsfilterbuilder.cpp b/src/cas/fsfilterbuilder.cpp
index afdd989..51aec35 100644
--- a/src/cas/fsfilterbuilder.cpp
+++ b/src/cas/fsfilterbuilder.cpp
@@ -74,6 +74,7 @@ namespace uima {
         assert(EXISTS(iv_pFilter));
         iv_pFilter->deInit();
         delete iv_pFilter;
+        iv_pFilter = NULL;
       }
     };
 
@@ -94,9 +95,11 @@ namespace uima {
         assert(EXISTS(iv_pFilter1));
         iv_pFilter1->deInit();
         delete iv_pFilter1;
+        iv_pFilter1 = NULL;
         assert(EXISTS(iv_pFilter2));
         iv_pFilter2->deInit();
         delete iv_pFilter2;
+        iv_pFilter2 = NULL;
       }
     };
 
@@ -290,6 +293,7 @@ namespace uima {
         assert(EXISTS(iv_pFilter));
         iv_pFilter->deInit();
         delete iv_pFilter;
+        iv_pFilter = NULL;
       }
     };
 
-- 
2.43.0


From c1f43ea6f2ed8166144a282ac3dd441022e82430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:50 +0000
Subject: [PATCH 088/115] fix: the loader of the JVM is not deleted twice when
 destroy is called again

---
 src/framework/internal_jedii_engine.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/framework/internal_jedii_engine.cpp b/src/framework/internal_jedii_engine.cpp
index f7e6958..c024593 100644
--- a/src/framework/internal_jedii_engine.cpp
+++ b/src/framework/internal_jedii_engine.cpp
@@ -510,6 +510,7 @@ namespace uima {
       if (iv_JVMDllLoader != NULL) {
         assert( EXISTS(iv_JVMDllLoader) );
         delete iv_JVMDllLoader;
+        iv_JVMDllLoader = NULL;
         iv_createJavaVMFunc = NULL;
         iv_getCreatedJavaVMsFunc = NULL;
       }
-- 
2.43.0


From df69db22cedb97cdf9f49f15641aa30bbf76130f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:58 +0000
Subject: [PATCH 089/115] fix: an engine description is not parsed from the
 buffer of a destroyed temporary string

---
 src/framework/taespecifierbuilder.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/framework/taespecifierbuilder.cpp b/src/framework/taespecifierbuilder.cpp
index bd521ac..8248d01 100644
--- a/src/framework/taespecifierbuilder.cpp
+++ b/src/framework/taespecifierbuilder.cpp
@@ -2036,7 +2036,9 @@ void XMLParser::buildFSIndexFromImportLocation(AnalysisEngineMetaData& fsDesc,
   void TextAnalysisEngineSpecifierBuilder::buildTaeFromMemory(AnalysisEngineDescription & taeSpec,
       icu::UnicodeString const & xmlString) {
 	UnicodeStringRef uref(xmlString);
-    MemBufInputSource memIS((XMLByte const *) uref.asUTF8().c_str(), uref.asUTF8().length(), "sysID");
+    // MemBufInputSource does not copy the buffer
+    std::string xml(uref.asUTF8());
+    MemBufInputSource memIS((XMLByte const *) xml.c_str(), xml.length(), "sysID");
     parseAnalysisEngineDescription(taeSpec, memIS);
   }
 
-- 
2.43.0


From 990aa441e593002484011b0364f2572f8f28cfea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:50 +0000
Subject: [PATCH 090/115] fix: a remote sofa stream that is opened again
 deletes its previous handler

---
 src/cas/sofastream.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/cas/sofastream.cpp b/src/cas/sofastream.cpp
index e8ccc2f..28fd4c8 100644
--- a/src/cas/sofastream.cpp
+++ b/src/cas/sofastream.cpp
@@ -128,6 +128,15 @@ namespace uima {
                          ErrorInfo::unrecoverable);
     }
 
+    //a stream that is opened again gives up its previous handler
+    if (iv_pHandler != NULL) {
+      iv_pHandler->closeStream();
+      delete iv_pHandler;
+      iv_pHandler = NULL;
+    }
+    delete iv_pHandlerDll;
+    iv_pHandlerDll = NULL;
+
     //load the handler
     iv_pHandlerDll  = new util::DllProcLoaderFile(*pDllFile);
     //assert(EXISTS(iv_pHandlerDll));
-- 
2.43.0


From f8d80d3b95743ed0f9ff3a58fe11d4ebc6eb25b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:51 +0000
Subject: [PATCH 091/115] fix: replacing an owned part of an engine description
 deletes the replaced part

---
 src/framework/uima/taespecifier.hpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/framework/uima/taespecifier.hpp b/src/framework/uima/taespecifier.hpp
index f74945f..ac6e47b 100644
--- a/src/framework/uima/taespecifier.hpp
+++ b/src/framework/uima/taespecifier.hpp
@@ -382,6 +382,9 @@ namespace uima {
       if (! isModifiable()) {
         return UIMA_ERR_CONFIG_OBJECT_COMITTED;
       }
+      if (iv_pFlowConstraints != flow) {
+        delete iv_pFlowConstraints;
+      }
       iv_pFlowConstraints = flow;
       return UIMA_ERR_NONE;
     }
@@ -486,6 +489,9 @@ namespace uima {
       if (! isModifiable()) {
         return UIMA_ERR_CONFIG_OBJECT_COMITTED;
       }
+      if (iv_pTypeSystemDesc != desc) {
+        delete iv_pTypeSystemDesc;
+      }
       iv_pTypeSystemDesc = desc;
       return UIMA_ERR_NONE;
     }
@@ -593,6 +599,9 @@ namespace uima {
       if (! isModifiable()) {
         return UIMA_ERR_CONFIG_OBJECT_COMITTED;
       }
+      if (iv_pFlowConstraints != flow) {
+        delete iv_pFlowConstraints;
+      }
       iv_pFlowConstraints = flow;
       return UIMA_ERR_NONE;
     }
@@ -630,6 +639,9 @@ namespace uima {
     }
 
     void setOperationalProperties(OperationalProperties  * prop) {
+      if (iv_pOperationalProperties != prop) {
+        delete iv_pOperationalProperties;
+      }
       iv_pOperationalProperties = prop;
     }
 
@@ -906,6 +918,9 @@ namespace uima {
       if (! isModifiable()) {
         return UIMA_ERR_CONFIG_OBJECT_COMITTED;
       }
+      if (iv_pAeMetaData != metaData) {
+        delete iv_pAeMetaData;
+      }
       iv_pAeMetaData = metaData;
       return UIMA_ERR_NONE;
     }
-- 
2.43.0


From e88602883251bba2f13dacf58e02f584fde4e6f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:51 +0000
Subject: [PATCH 092/115] fix: defining the CAS pool again deletes the previous
 pool

---
 src/framework/annotator_context.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/framework/annotator_context.cpp b/src/framework/annotator_context.cpp
index 8e3dcc6..877851e 100644
--- a/src/framework/annotator_context.cpp
+++ b/src/framework/annotator_context.cpp
@@ -165,7 +165,9 @@ namespace uima {
   }
 
   TyErrorId AnnotatorContext::defineCASPool(size_t numInstances) {
-    iv_pCasPool = new CASPool(getTaeSpecifier(),numInstances);
+    CASPool * pCasPool = new CASPool(getTaeSpecifier(),numInstances);
+    delete iv_pCasPool;
+    iv_pCasPool = pCasPool;
     if (iv_pCasPool == NULL) {
       return UIMA_ERR_USER_ANNOTATOR_OUT_OF_MEMORY;
     }
-- 
2.43.0


From 7705384f9697a815c54ce85424357135e1c79d27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:33:36 +0000
Subject: [PATCH 093/115] fix: writing XMI again with the same writer deletes
 the element names of the previous write

---
 src/cas/xmiwriter.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/cas/xmiwriter.cpp b/src/cas/xmiwriter.cpp
index 25c5b73..6a41b6f 100644
--- a/src/cas/xmiwriter.cpp
+++ b/src/cas/xmiwriter.cpp
@@ -184,6 +184,11 @@ namespace uima {
 
    vector<Type>  allTypes;
    iv_cas.getTypeSystem().getAllTypes(allTypes);
+   //the names of a previous write are not needed any more
+   for (size_t i = 0; i < xmiTypeNames.size(); i++) {
+     delete xmiTypeNames[i];
+   }
+   xmiTypeNames.clear();
    xmiTypeNames.resize(allTypes.size() + 1);
    //leave out 0th element.
    XmlElementName * invalidType = new XmlElementName("INVALID_TYPE",
-- 
2.43.0


From 19c85c9ab6e04f437dc94ae7eca56dcb83d02a15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:20:51 +0000
Subject: [PATCH 094/115] fix: keep the text of CDATA sections in descriptors

---
 src/framework/taespecifierbuilder.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/framework/taespecifierbuilder.cpp b/src/framework/taespecifierbuilder.cpp
index 8248d01..9c50d54 100644
--- a/src/framework/taespecifierbuilder.cpp
+++ b/src/framework/taespecifierbuilder.cpp
@@ -2239,7 +2239,8 @@ void XMLParser::buildFSIndexFromImportLocation(AnalysisEngineMetaData& fsDesc,
     icu::UnicodeString spannedText;
     size_t i;
     for (i=0; i < children->getLength(); i++) {
-      if (children->item(i)->getNodeType() == DOMNode::TEXT_NODE) {
+      if (children->item(i)->getNodeType() == DOMNode::TEXT_NODE
+          || children->item(i)->getNodeType() == DOMNode::CDATA_SECTION_NODE) {
         spannedText.append(convert(children->item(i)->getNodeValue()));
       } else {
         const icu::UnicodeString & childTag = convert((children->item(i))->getNodeName());
-- 
2.43.0


From d00a80ece147ac18c4288654ab5cc54fcaa6d67c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:20:51 +0000
Subject: [PATCH 095/115] fix: an envVarRef element without a name names no
 variable

---
 src/framework/taespecifierbuilder.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/framework/taespecifierbuilder.cpp b/src/framework/taespecifierbuilder.cpp
index 9c50d54..5d4f7ee 100644
--- a/src/framework/taespecifierbuilder.cpp
+++ b/src/framework/taespecifierbuilder.cpp
@@ -2245,6 +2245,9 @@ void XMLParser::buildFSIndexFromImportLocation(AnalysisEngineMetaData& fsDesc,
       } else {
         const icu::UnicodeString & childTag = convert((children->item(i))->getNodeName());
         if (childTag.compare(TAG_ENV_VAR_REF) == 0) {
+          if (! EXISTS(children->item(i)->getFirstChild())) {
+            continue; // no variable is named
+          }
           icu::UnicodeString envVarName(convert(children->item(i)->getFirstChild()->getNodeValue()));
           util::EnvironmentVariableQueryOnly clEnvVar(UnicodeStringRef(envVarName).asUTF8().c_str());
           spannedText.append(clEnvVar.getValue());
-- 
2.43.0


From d23a063a1a83864ec9ea93c2266b8be05ae94053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:20:51 +0000
Subject: [PATCH 096/115] fix: refuse an array setting without entries instead
 of dereferencing null

---
 src/framework/taespecifierbuilder.cpp | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/framework/taespecifierbuilder.cpp b/src/framework/taespecifierbuilder.cpp
index 5d4f7ee..52217d4 100644
--- a/src/framework/taespecifierbuilder.cpp
+++ b/src/framework/taespecifierbuilder.cpp
@@ -884,7 +884,20 @@ namespace uima {
         DOMNodeList * arrayEntries = child->getChildNodes();
         assert( EXISTS(arrayEntries) );
         //the type must be the same for all elements in the array
-        nvPair.define(findTypeForValue(findFirstElementNode(arrayEntries)), ConfigurationParameter::MULTIPLE_VALUES);
+        DOMElement * firstEntry = findFirstElementNode(arrayEntries);
+        if (! EXISTS(firstEntry)) {
+          // the type of the values is taken from the first entry
+          ErrorMessage errMsg = ErrorMessage(UIMA_MSG_ID_EXC_UNKNOWN_CONFIG_XML_TAG);
+          errMsg.addParam(childTag);
+          errMsg.addParam(ResourceManager::getInstance().getSchemaInfo() );
+
+          UIMA_EXC_THROW_NEW(InvalidXMLException,
+                             UIMA_ERR_CONFIG_INVALID_XML_TAG,
+                             errMsg,
+                             UIMA_MSG_ID_EXCON_BUILD_TAE_SPEC,
+                             ErrorInfo::unrecoverable);
+        }
+        nvPair.define(findTypeForValue(firstEntry), ConfigurationParameter::MULTIPLE_VALUES);
         //now iterate over entries, adding the values
         size_t j;
         for (j=0; j < arrayEntries->getLength(); j++) {
-- 
2.43.0


From db52020c20f9060f1f6ec2f4c9a6c64620105a90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:47:23 +0000
Subject: [PATCH 097/115] fix: committing a type system description adds the
 imported types instead of refusing them

---
 src/framework/casdefinition.cpp              | 5 +++++
 src/framework/uima/typesystemdescription.hpp | 4 ++--
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/framework/casdefinition.cpp b/src/framework/casdefinition.cpp
index 45c81db..b64aea8 100644
--- a/src/framework/casdefinition.cpp
+++ b/src/framework/casdefinition.cpp
@@ -720,6 +720,11 @@ namespace uima {
 
 
     uima::lowlevel::TypeSystem * CASDefinition::createTypeSystem(AnalysisEngineMetaData const & casSpecifier) {
+      //resolve imports
+      if (casSpecifier.isModifiable()) {
+        AnalysisEngineMetaData & ae = CONST_CAST(AnalysisEngineMetaData &, casSpecifier);
+        ae.commit();
+      }
 
       uima::lowlevel::TypeSystem * pTypeSystem = new uima::lowlevel::TypeSystem();
       assert( EXISTS(pTypeSystem) );
diff --git a/src/framework/uima/typesystemdescription.hpp b/src/framework/uima/typesystemdescription.hpp
index f97b343..3d860ee 100644
--- a/src/framework/uima/typesystemdescription.hpp
+++ b/src/framework/uima/typesystemdescription.hpp
@@ -364,10 +364,10 @@ namespace uima {
     }
 
     void commit() {
-      iv_bIsModifiable = false;
-
+      // the imported types are added while this object is still modifiable
       std::vector<icu::UnicodeString> alreadyImportedLocations;
       resolveImports(alreadyImportedLocations);
+      iv_bIsModifiable = false;
       size_t i;
       for (i=0; i < iv_vecpTypeDescriptions.size(); i++) {
         iv_vecpTypeDescriptions[i]->commit();
-- 
2.43.0


From 3abfe61422e2d1801e63c22802a42e66bf331353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:47:23 +0000
Subject: [PATCH 098/115] fix: commit reaches sofa mappings, imports and
 configuration groups

---
 src/framework/taespecifier.cpp               | 9 +++++++++
 src/framework/uima/config_param.hpp          | 1 +
 src/framework/uima/typesystemdescription.hpp | 3 +++
 3 files changed, 13 insertions(+)

diff --git a/src/framework/taespecifier.cpp b/src/framework/taespecifier.cpp
index a5d88bb..835637f 100644
--- a/src/framework/taespecifier.cpp
+++ b/src/framework/taespecifier.cpp
@@ -173,6 +173,12 @@ namespace uima {
     for (i=0; i < iv_vecpTypePriorities.size(); i++) {
       iv_vecpTypePriorities[i]->commit();
     }
+    for (i=0; i < iv_fsindexImportDescs.size(); i++) {
+      iv_fsindexImportDescs[i]->commit();
+    }
+    for (i=0; i < iv_typepriorityImportDescs.size(); i++) {
+      iv_typepriorityImportDescs[i]->commit();
+    }
     if (hasDefaultGroup()) {
       TyConfigGroup::const_iterator ite = iv_configurationGroups.find(iv_defaultGroup);
       if (ite == iv_configurationGroups.end()) {
@@ -611,6 +617,9 @@ namespace uima {
       AnalysisEngineDescription * del = ite->second;
       del->commit();
     }
+    for (size_t i=0; i < iv_SofaMappings.size(); i++) {
+      iv_SofaMappings[i]->commit();
+    }
     iv_bIsModifiable = false;
   }
 
diff --git a/src/framework/uima/config_param.hpp b/src/framework/uima/config_param.hpp
index f552377..54c180a 100644
--- a/src/framework/uima/config_param.hpp
+++ b/src/framework/uima/config_param.hpp
@@ -270,6 +270,7 @@ namespace uima {
       for (entries = iv_configParams.begin(); entries != iv_configParams.end(); entries++) {
         entries->second->commit();
       }
+      iv_bIsModifiable = false;
     }
 
     /**
diff --git a/src/framework/uima/typesystemdescription.hpp b/src/framework/uima/typesystemdescription.hpp
index 3d860ee..22ed7b9 100644
--- a/src/framework/uima/typesystemdescription.hpp
+++ b/src/framework/uima/typesystemdescription.hpp
@@ -372,6 +372,9 @@ namespace uima {
       for (i=0; i < iv_vecpTypeDescriptions.size(); i++) {
         iv_vecpTypeDescriptions[i]->commit();
       }
+      for (i=0; i < iv_vecpImportDescriptions.size(); i++) {
+        iv_vecpImportDescriptions[i]->commit();
+      }
     }
 
     /**
-- 
2.43.0


From 20ea04681585347e19dd2bea1bd76a8689c48fba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:47:23 +0000
Subject: [PATCH 099/115] fix: a new configuration parameter has a type

---
 src/framework/uima/config_param.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/framework/uima/config_param.hpp b/src/framework/uima/config_param.hpp
index 54c180a..46af5ac 100644
--- a/src/framework/uima/config_param.hpp
+++ b/src/framework/uima/config_param.hpp
@@ -61,7 +61,7 @@ namespace uima {
       SINGLE_VALUE = false, MULTIPLE_VALUES = true
     };
     ConfigurationParameter()
-        :MetaDataObject(), iv_name(), iv_description(), iv_enParamAggregation(SINGLE_VALUE),
+        :MetaDataObject(), iv_name(), iv_description(), iv_enParamType(STRING), iv_enParamAggregation(SINGLE_VALUE),
         iv_mandatory(false), iv_vecRestrictedToDelegates() {}
 
 
-- 
2.43.0


From 7202804d4f33bbf9f990d445dd70d04cfc5439fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:10:29 +0000
Subject: [PATCH 100/115] fix: validation reports a duplicate feature and a
 missing index without reading outside its lists

---
 src/framework/taespecifier.cpp          | 2 +-
 src/framework/typesystemdescription.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/framework/taespecifier.cpp b/src/framework/taespecifier.cpp
index 835637f..57ab84a 100644
--- a/src/framework/taespecifier.cpp
+++ b/src/framework/taespecifier.cpp
@@ -97,7 +97,7 @@ namespace uima {
       if ( !(EXISTS(indexDescs[i])) ){
 			UIMA_EXC_THROW_NEW(ValidationException,
                            UIMA_ERR_CONFIG_OBJECT_NOT_FOUND,
-                           ErrorMessage(UIMA_MSG_ID_EXC_INVALID_INDEX_OBJECT, indexLabels[i]),
+                           ErrorMessage(UIMA_MSG_ID_EXC_INVALID_INDEX_OBJECT),
                            UIMA_MSG_ID_EXCON_CHECKING_INDEX_DEFINITION,
                            ErrorInfo::unrecoverable);
 	  }
diff --git a/src/framework/typesystemdescription.cpp b/src/framework/typesystemdescription.cpp
index f69c3ff..6b49d7a 100644
--- a/src/framework/typesystemdescription.cpp
+++ b/src/framework/typesystemdescription.cpp
@@ -401,7 +401,7 @@ namespace uima {
       if (countValues(featureNames.begin(), featureNames.end(), featDescs[i]->getName()) != 0) {
         ErrorMessage errMsg(UIMA_MSG_ID_EXC_DUPLICATE_FEATURE_NAME);
         errMsg.addParam(getName());
-        errMsg.addParam(featureNames[i]);
+        errMsg.addParam(featDescs[i]->getName());
         UIMA_EXC_THROW_NEW(ValidationException,
                            UIMA_ERR_CONFIG_DUPLICATE_FEATURE_NAME,
                            errMsg,
-- 
2.43.0


From 18019d5b00646537593813fd1e496e01a9631871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:10:29 +0000
Subject: [PATCH 101/115] fix: error messages with long parameters overran a
 fixed buffer

---
 src/framework/exceptions.cpp | 57 ++++++++----------------------------
 1 file changed, 12 insertions(+), 45 deletions(-)

diff --git a/src/framework/exceptions.cpp b/src/framework/exceptions.cpp
index bf6b084..048c3a6 100644
--- a/src/framework/exceptions.cpp
+++ b/src/framework/exceptions.cpp
@@ -198,7 +198,8 @@ namespace uima {
 
     // Check for unknown message id
     if (iv_utMsgId < 0 || iv_utMsgId > UIMA_MSG_ID_SIGNATURE_END) {
-      return string("Unknown message id " + iv_utMsgId);
+      string s;
+      return string("Unknown message id ") + long2String(iv_utMsgId, s);
     }
 
     //parameter substitution
@@ -207,66 +208,32 @@ namespace uima {
     const TCHAR ** messages = gs_aszMessageStringTable;
     const TCHAR * msg = messages[iv_utMsgId];
 
-    TCHAR * buf = new TCHAR[UIMA_MSG_MAX_STR_LEN];
-    memset(buf,'\0',UIMA_MSG_MAX_STR_LEN);
-
-    int numwritten=0;
-
-    TCHAR * trg = buf;
+    string target;
     while (*msg) {
-      if (numwritten > UIMA_MSG_MAX_STR_LEN) {
-        break;
-      }
       if (*msg == UIMA_MSG_REPLACE_CHAR) {
         msg = msg+1;
         if (*msg == UIMA_MSG_REPLACE_CHAR) {
-          *trg = *msg;
-          trg = trg +1;
-          ;
+          target += *msg;
           msg = msg+1;
-          numwritten++;
         } else {  //replace %n with the corresponding param
-          unsigned long index;
-          int len;
-          string arg;
           // determine the number of the specified argument ...
-          index = (unsigned long) atol(msg);
-          if (index > numparams)       // param not defined
-          {
-            arg = "???";      // replace it by "dont-know"
+          unsigned long index = (unsigned long) atol(msg);
+          if (index == 0 || index > numparams) {      // param not defined
+            target += "???";      // replace it by "dont-know"
           } else {
-            // ... the indexed argument ...
-            arg = iv_vecParams[index - 1]; // zero-based array!
-            //assert(arg.length() > 0);
+            // ... and copy the indexed argument ...
+            target += iv_vecParams[index - 1]; // zero-based array!
           }
-          len = arg.length();
-          // ... and then copy the argument
-          if (UIMA_MSG_MAX_STR_LEN-numwritten < len) {
-            len = UIMA_MSG_MAX_STR_LEN - numwritten;
-          }
-          if (len > 0) {
-            strncpy(trg, arg.c_str(), len);
-            trg = trg+len;
-          }
-          msg = msg+1;
-          while ( isdigit(*msg) ) { //handle arg number 10 or more
+          while ( isdigit((unsigned char) *msg) ) { //handle arg number 10 or more
             msg = msg+1;
           }
         }
       } else {
-        *trg = *msg;
-        trg = trg+1;
+        target += *msg;
         msg = msg+1;
       }
     }
-    //cout << buf << endl;
-   string target(buf);
-   delete[] buf ;
-   return target;
-	 //string target;
-	 //target.assign(buf, UIMA_MSG_MAX_STR_LEN);                   // Copy the result to the string
-   //delete buf;
-	 //return target;
+    return target;
   }
 
   ostream &
-- 
2.43.0


From e073f17ecb31dd4ed67815bdea9d48566f650f08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:10:29 +0000
Subject: [PATCH 102/115] fix: reading XMI and XCAS from a file with a long
 name overran a buffer

---
 src/cas/xcasdeserializer.cpp |  6 +-----
 src/cas/xmideserializer.cpp  | 12 ++----------
 2 files changed, 3 insertions(+), 15 deletions(-)

diff --git a/src/cas/xcasdeserializer.cpp b/src/cas/xcasdeserializer.cpp
index 3ddbb0c..e7f8552 100644
--- a/src/cas/xcasdeserializer.cpp
+++ b/src/cas/xcasdeserializer.cpp
@@ -84,11 +84,7 @@ namespace uima {
   }
 
   void XCASDeserializer::deserialize(icu::UnicodeString & xcasFilename, CAS & cas) {
-    char buff[1024];
-    xcasFilename.extract(0, xcasFilename.length(), buff);
-	XMLCh* native = XMLString::transcode(buff);
-	LocalFileInputSource fileIS (native);
-	XMLString::release(&native);
+    LocalFileInputSource fileIS((XMLCh const *) xcasFilename.getTerminatedBuffer());
     XCASDeserializer::deserialize(fileIS, cas);
   }
 
diff --git a/src/cas/xmideserializer.cpp b/src/cas/xmideserializer.cpp
index 4fc8f29..99e0abc 100644
--- a/src/cas/xmideserializer.cpp
+++ b/src/cas/xmideserializer.cpp
@@ -84,11 +84,7 @@ namespace uima {
   }
 
   void XmiDeserializer::deserialize(icu::UnicodeString & xmiFilename, CAS & cas, bool lenient) {
-    char buff[1024];
-    xmiFilename.extract(0, xmiFilename.length(), buff);
-    XMLCh* native = XMLString::transcode(buff);
-    LocalFileInputSource fileIS (native);
-	XMLString::release(&native);
+    LocalFileInputSource fileIS((XMLCh const *) xmiFilename.getTerminatedBuffer());
     XmiDeserializer::deserialize(fileIS, cas, lenient);
   }
 
@@ -314,11 +310,7 @@ namespace uima {
   void XmiDeserializer::deserialize(icu::UnicodeString & xmiFilename, 
 									CAS & cas,
 									XmiSerializationSharedData & sharedData) {
-    char buff[1024];
-    xmiFilename.extract(0, xmiFilename.length(), buff);
-    XMLCh* native = XMLString::transcode(buff);
-    LocalFileInputSource fileIS (native);
-	XMLString::release(&native);
+    LocalFileInputSource fileIS((XMLCh const *) xmiFilename.getTerminatedBuffer());
     XmiDeserializer::deserialize(fileIS, cas, sharedData);
   }
 }
-- 
2.43.0


From b28f26e54272aee06e478e6e74d5bfa56d4633cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:10:29 +0000
Subject: [PATCH 103/115] fix: file names with characters outside ASCII overran
 their buffers

---
 src/framework/res_abase.cpp     | 22 +++++++++-------------
 src/framework/res_annotator.cpp |  8 +++-----
 src/framework/resmgr.cpp        | 20 ++++++++++----------
 3 files changed, 22 insertions(+), 28 deletions(-)

diff --git a/src/framework/res_abase.cpp b/src/framework/res_abase.cpp
index eb1307b..b3311d1 100644
--- a/src/framework/res_abase.cpp
+++ b/src/framework/res_abase.cpp
@@ -75,10 +75,9 @@ namespace uima {
     file.append(".");
     file.append(getKind());
 
-    char c[2056];
-    int32_t len = file.extract(0, file.length(), c);
-    assert( len == file.length());
-    iv_fileName.setNew( c );   // set filename from extracted C-string
+    std::string c;
+    UnicodeStringRef(file).extract(c);
+    iv_fileName.setNew( c.c_str() );   // set filename from extracted string
   }
 
   ////////////////////////////////////////////////////////////////
@@ -104,20 +103,17 @@ namespace uima {
 
 
   void LanguageKindFileResource::resolveFilename() {
-    const size_t bufLen = 2056;
-    char buf[bufLen];
-    icu::UnicodeString const & crKey = getKey();
-    int32_t iConvLen = crKey.extract(0, crKey.length(), buf);
-    assert( iConvLen < bufLen );
-    uima::Language lang(buf);
+    std::string key;
+    UnicodeStringRef(getKey()).extract(key);
+    uima::Language lang(key.c_str());
 
     icu::UnicodeString crExt(".");
     crExt.append(getKind());
-    iConvLen = crExt.extract(0, crExt.length(), buf);
-    assert( iConvLen < bufLen );
+    std::string ext;
+    UnicodeStringRef(crExt).extract(ext);
 
     ResourceManager::createFilenameForLanguage(lang,
-        buf,
+        ext.c_str(),
         iv_bTryAlternativeTerritories,
         ResourceManager::getInstance().getLocationData(),
         iv_fileName);
diff --git a/src/framework/res_annotator.cpp b/src/framework/res_annotator.cpp
index fe89f18..47f3900 100644
--- a/src/framework/res_annotator.cpp
+++ b/src/framework/res_annotator.cpp
@@ -65,11 +65,9 @@ namespace uima {
       icu::UnicodeString const & crAnnotatorFileName = getKey();
 
       // first we must convert our unicode filename to single byte
-      size_t nameLen = crAnnotatorFileName.length();
-      char* buf = new char[1+nameLen];
-      crAnnotatorFileName.extract(0, nameLen, buf);
-      util::Filename filename(buf);
-      delete[] buf;
+      std::string strFileName;
+      UnicodeStringRef(crAnnotatorFileName).extract(strFileName);
+      util::Filename filename(strFileName.c_str());
 
       /* No longer optionally remove the path before loading, or add "itu" prefix.
          Now load only what we're given, i.e. a full filename with path,
diff --git a/src/framework/resmgr.cpp b/src/framework/resmgr.cpp
index 111ff0e..3667299 100644
--- a/src/framework/resmgr.cpp
+++ b/src/framework/resmgr.cpp
@@ -796,14 +796,14 @@ namespace uima {
   }
 
   icu::UnicodeString ResourceManager::resolveFilename(icu::UnicodeString const & filename, icu::UnicodeString const & lastFilename) {
-    auto_array<char> filename_cstr( new char[filename.length() + 1] );
-    filename.extract(0, filename.length(), filename_cstr.get());
+    std::string filename_cstr;
+    UnicodeStringRef(filename).extract(filename_cstr);
 
-    auto_array<char> lastFilename_cstr( new char[lastFilename.length() + 1] );
-    lastFilename.extract(0, lastFilename.length(), lastFilename_cstr.get());
+    std::string lastFilename_cstr;
+    UnicodeStringRef(lastFilename).extract(lastFilename_cstr);
 
     //build the filename
-    util::Filename fileLoc(filename_cstr.get());
+    util::Filename fileLoc(filename_cstr.c_str());
 
     // don't try our search mimic for absolute paths
     if (fileLoc.isAbsolute()) {
@@ -816,8 +816,8 @@ namespace uima {
     }
 
     // try in the same directory as lastFilename
-    util::Filename locSameDirAsLast(lastFilename_cstr.get());
-    locSameDirAsLast.setNewName(filename_cstr.get());
+    util::Filename locSameDirAsLast(lastFilename_cstr.c_str());
+    locSameDirAsLast.setNewName(filename_cstr.c_str());
 
     if (locSameDirAsLast.isExistent()) {
       return locSameDirAsLast.getAsCString();
@@ -827,7 +827,7 @@ namespace uima {
     util::Location const & fallbackLoc = ResourceManager::getInstance().getLocationData();
 
     std::string nameInDataDir( fallbackLoc.getAsCString() );
-    nameInDataDir += filename_cstr.get();
+    nameInDataDir += filename_cstr.c_str();
     util::Filename fileInDataDir( nameInDataDir.c_str() );
     fileInDataDir.normalizeAbsolute();                // Normalize to native / or \ separators
     if (fileInDataDir.isExistent()) {
@@ -837,7 +837,7 @@ namespace uima {
     nameInDataDir.clear();
     nameInDataDir = fallbackLoc.getAsCString();
     nameInDataDir += "descriptors/";
-    nameInDataDir += filename_cstr.get();
+    nameInDataDir += filename_cstr.c_str();
     fileInDataDir.setNew(nameInDataDir.c_str());
     fileInDataDir.normalizeAbsolute();
     if (fileInDataDir.isExistent()) {
@@ -847,7 +847,7 @@ namespace uima {
     nameInDataDir.clear();
     nameInDataDir = fallbackLoc.getAsCString();
     nameInDataDir += "specifiers/";
-    nameInDataDir += filename_cstr.get();
+    nameInDataDir += filename_cstr.c_str();
     fileInDataDir.setNew(nameInDataDir.c_str());
     fileInDataDir.normalizeAbsolute();
     if (fileInDataDir.isExistent()) {
-- 
2.43.0


From a9b9d426ee1bb7619742d262b7078436f12ff353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:10:29 +0000
Subject: [PATCH 104/115] fix: a long language in a capability overran a buffer

---
 src/framework/internal_capability_container.cpp | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/src/framework/internal_capability_container.cpp b/src/framework/internal_capability_container.cpp
index 238cdb5..2dd1821 100644
--- a/src/framework/internal_capability_container.cpp
+++ b/src/framework/internal_capability_container.cpp
@@ -62,29 +62,24 @@ namespace uima {
       Capability::TyVecCapabilityTofs const & vecTofs,
       Capability::TyVecCapabilityLanguages const & vecLangs,
       TypeSystem const & typeSystem) {
-      const int BUF_SIZE = 0x100;
-      char  cBuf[BUF_SIZE];
       Capability::TyVecCapabilityLanguages::const_iterator itLang;
       for (itLang = vecLangs.begin(); itLang != vecLangs.end(); ++itLang) {
         // convert unicode lang string to single-byte lang string
-        assert((*itLang).length() < BUF_SIZE);
-        // Note: this conversion can be used only for invariant characters
-        u_UCharsToChars((*itLang).getBuffer(), cBuf, (*itLang).length());
-        // zero terminate single-byte buffer
-        cBuf[(*itLang).length()] = '\0';
+        std::string strLang;
+        UnicodeStringRef(*itLang).extractUTF8(strLang);
         // Special workaround code for the new way to specify the unspecified language
-        if (strcasecmp(cBuf, "x-unspecified") == 0) {
-          strcpy(cBuf, Language::UNSPECIFIED);
+        if (strcasecmp(strLang.c_str(), "x-unspecified") == 0) {
+          strLang = Language::UNSPECIFIED;
         }
         // create a language object based on single-byte lang string
-        Language lang(cBuf);
+        Language lang(strLang.c_str());
         if (!lang.isValid()) {
           /* taph 06.02.2003: once we have more detailed information about
           the origin of the error we need to replace "unknown configuration file"
           with the filename of the XML file (and maybe line number?) */
           UIMA_EXC_THROW_NEW(uima::CapabilityException,          // exc-type
                              UIMA_ERR_ENGINE_LANGUAGE_INVALID,   // error code
-                             ErrorMessage(UIMA_MSG_ID_EXC_INVALID_LANGUAGE, cBuf), // error message
+                             ErrorMessage(UIMA_MSG_ID_EXC_INVALID_LANGUAGE, strLang.c_str()), // error message
                              ErrorMessage(UIMA_MSG_ID_EXCON_CHECKING_CAPABILITY_SPEC,"unknown configuration file"),  // error context message
                              ErrorInfo::recoverable);
         }
-- 
2.43.0


From bfaac0ff80c6be8883f53a4a9376b528e5c166e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:10:29 +0000
Subject: [PATCH 105/115] fix: a long schema path or a stream handler without a
 library corrupted memory

---
 src/framework/resmgr.cpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/framework/resmgr.cpp b/src/framework/resmgr.cpp
index 3667299..28faaea 100644
--- a/src/framework/resmgr.cpp
+++ b/src/framework/resmgr.cpp
@@ -187,10 +187,14 @@ namespace uima {
       if (bIsSchemaAvailable) {
         icu::UnicodeString schemaPath(schemaFilename.getAsCString());
         schemaPath.findAndReplace(" ", "%20");
-        int len = strlen(UIMA_XML_NAMESPACE);
-        memcpy(schemaInfo, UIMA_XML_NAMESPACE, len);
-        schemaInfo[len] = ' ';
-        schemaPath.extract(0, schemaPath.length(), schemaInfo+len+1, "UTF-8");
+        string schemaLocation(UIMA_XML_NAMESPACE);
+        schemaLocation += ' ';
+        schemaLocation += UnicodeStringRef(schemaPath).asUTF8();
+        if (schemaLocation.length() < sizeof(schemaInfo)) {
+          strcpy(schemaInfo, schemaLocation.c_str());
+        } else {
+          bIsSchemaAvailable = false;
+        }
       }
     } else {
       bIsSchemaAvailable = false;
@@ -270,6 +274,8 @@ namespace uima {
         while (*curptr == ' ')
           ++curptr;
         chptr = strchr(curptr, ':');
+        if (chptr == NULL)                                 // no more pairs
+          break;
 
         int len = chptr - curptr;
         if (len > 0) {
-- 
2.43.0


From ff6225110505918db54b4f0673af89939169b13d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:10:29 +0000
Subject: [PATCH 106/115] fix: large numbers overran the buffer they are
 printed into

---
 src/framework/uima/strconvert.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/framework/uima/strconvert.hpp b/src/framework/uima/strconvert.hpp
index ce3959e..14a2ff0 100644
--- a/src/framework/uima/strconvert.hpp
+++ b/src/framework/uima/strconvert.hpp
@@ -180,11 +180,11 @@ namespace uima {
 //    if (d <= DBL_MIN) {
 //       return BASIC_STRING_TEMPLATE("0");
 //    }
-    const int MAXDIGITS = 50;
-    CharT buff[MAXDIGITS];
     assertWithMsg(sizeof(CharT) == sizeof(char), "Double check the use of sprintf() with wchar.");//lint !e506: Constant value Boolean
-    sprintf(buff, "%0#.*f", uiDigitsAfterPeriod, d); //lint !e567 !e557 unrecognized format
-    s = BASIC_STRING_TEMPLATE(buff);
+    int iLength = snprintf(NULL, 0, "%0#.*f", (int)uiDigitsAfterPeriod, d); //lint !e567 !e557 unrecognized format
+    s.assign(iLength + 1, CharT(0));
+    snprintf(&s[0], iLength + 1, "%0#.*f", (int)uiDigitsAfterPeriod, d); //lint !e567 !e557 unrecognized format
+    s.resize(iLength);
     return s;
   }
 
-- 
2.43.0


From b0a862de00b218480b1ba3bc051a27117db88234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:10:29 +0000
Subject: [PATCH 107/115] fix: the message for a Java VM that cannot be
 destroyed is not limited to 2056 bytes

---
 src/framework/internal_jedii_engine.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/framework/internal_jedii_engine.cpp b/src/framework/internal_jedii_engine.cpp
index c024593..a9c30f1 100644
--- a/src/framework/internal_jedii_engine.cpp
+++ b/src/framework/internal_jedii_engine.cpp
@@ -978,10 +978,9 @@ namespace uima {
         jint destroyRC = iv_vm->DestroyJavaVM();
         checkForUnexpectedJNIException();
         if (destroyRC != JNI_OK) {
-          char c[2056];
-          icu::UnicodeString us = javaErrorToString(destroyRC);
-          us.extract(0, us.length(), c);
-          clTrace.dump("Java VM could not be destroyed, return code: ", c);
+          std::string c;
+          UnicodeStringRef(javaErrorToString(destroyRC)).extract(c);
+          clTrace.dump("Java VM could not be destroyed, return code: ", c.c_str());
 #ifndef NDEBUG
           cerr << __FILE__ << __LINE__ << ": Java VM could not be destroyed (return code: " << javaErrorToString(destroyRC) << ")" << endl;
 #endif
-- 
2.43.0


From a54d7734a542cc19a92741f8046376105316130e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:35:53 +0000
Subject: [PATCH 108/115] fix: more than 19 help flags or several options in
 one argument overran a buffer

---
 src/framework/consoleui.cpp | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/framework/consoleui.cpp b/src/framework/consoleui.cpp
index 3212b5e..6a679ec 100644
--- a/src/framework/consoleui.cpp
+++ b/src/framework/consoleui.cpp
@@ -162,8 +162,7 @@ namespace uima {
 
       int j = 0;
       const char * opt, * str;
-      int k = 0;
-      char helpChars[20];
+      std::string helpChars;
 
       for ( i = 0; i < opts.size(); ++i ) {
         opt = opts[i];
@@ -175,7 +174,7 @@ namespace uima {
           iv_pOpts[j].has_arg = (*str == '=' || (*str == ' ' && *(str+1) == '<'));
           iv_pOpts[j].optch = j+1;                  // Use 1-based index as "short" option
           if (i < nHelpFlags)
-            helpChars[k++] = j+1;
+            helpChars += (char)(j+1);
           ++j;
         }
       }
@@ -189,11 +188,10 @@ namespace uima {
           iv_pOpts[j].name = NULL;
           iv_pOpts[j++].has_arg = (opt[1] == ' ' && opt[2] != '|' );
           if (i < nHelpFlags)
-            helpChars[k++] = *opt;
+            helpChars += *opt;
         }
       }
       iv_pOpts[j].optch = 0;                        // Mark end of list
-      helpChars[k] = '\0';
 
 #ifndef NDEBUG
       // Dump all legal options when called with just 1 arg of "--"
@@ -205,8 +203,11 @@ namespace uima {
       apr_getopt_init(&iv_hGetopt, consPool, iv_argc, iv_argv);
       iv_hGetopt->interleave = 1;
 
-      // Can't have more options than args!
-      iv_pFoundOpts = (found_opt_t *)apr_palloc(consPool, iv_argc * sizeof(found_opt_t));
+      // One arg can hold several short options, but each takes at least 1 character
+      size_t nMaxOpts = 0;
+      for ( int n = 1; n < iv_argc; ++n )
+        nMaxOpts += strlen(iv_argv[n]);
+      iv_pFoundOpts = (found_opt_t *)apr_palloc(consPool, (nMaxOpts+1) * sizeof(found_opt_t));
       iv_nFoundOpts = 0;
 
       // Check that provided options are valid and save them.
@@ -217,7 +218,7 @@ namespace uima {
       while ((rv = apr_getopt_long(iv_hGetopt, iv_pOpts, &index, &optarg)) == APR_SUCCESS) {
         iv_pFoundOpts[iv_nFoundOpts].index = index;
         iv_pFoundOpts[iv_nFoundOpts++].value = optarg;
-        if (strchr(helpChars,index) != NULL)
+        if (strchr(helpChars.c_str(),index) != NULL)
           needHelp = true;
       }
 
-- 
2.43.0


From 35b1825b73657ba78892d7c7d0f1386258ecd36e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:15:21 +0000
Subject: [PATCH 109/115] fix: the XCAS writer kept the current view in a
 variable all threads share

---
 src/cas/xmlwriter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cas/xmlwriter.cpp b/src/cas/xmlwriter.cpp
index 8284f02..740d7ac 100644
--- a/src/cas/xmlwriter.cpp
+++ b/src/cas/xmlwriter.cpp
@@ -56,7 +56,6 @@ XERCES_CPP_NAMESPACE_USE
 char const * gs_cpszFSTagName = "fs";
 char const * gs_cpszFeatTagName = "feat";
 char const * gs_cpszXslFileName = "fsdump.xsl";
-int sofa;
 
 /* ----------------------------------------------------------------------- */
 /*       Forward declarations                                              */
@@ -686,6 +685,7 @@ namespace uima {
 
     int numViews = casp->getNumViews();
     set<FeatureStructure> referencedFSs;
+    int sofa;
     for (int view=0; view<=numViews; view++) {
       if (view==0) {
         // First time through is for base CAS
-- 
2.43.0


From f6c578dcc0474e6fe623858968f20f2a9ea9e803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:15:21 +0000
Subject: [PATCH 110/115] fix: descriptor parsers in different threads shared a
 conversion buffer

---
 src/cas/xmltypesystemreader.cpp       | 2 +-
 src/framework/taespecifierbuilder.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cas/xmltypesystemreader.cpp b/src/cas/xmltypesystemreader.cpp
index ec43b58..213deec 100644
--- a/src/cas/xmltypesystemreader.cpp
+++ b/src/cas/xmltypesystemreader.cpp
@@ -95,7 +95,7 @@ namespace uima {
   };
 
 
-  static XMLCh gs_tempXMLChBuffer[ MAXXMLCHBUFF ];
+  static thread_local XMLCh gs_tempXMLChBuffer[ MAXXMLCHBUFF ];
 
   XMLCh const * convert(char const * cpBuf) {
     bool bTranscodeSuccess = XMLString::transcode( cpBuf, gs_tempXMLChBuffer, MAXXMLCHBUFF -1 );
diff --git a/src/framework/taespecifierbuilder.cpp b/src/framework/taespecifierbuilder.cpp
index 52217d4..fe93db4 100644
--- a/src/framework/taespecifierbuilder.cpp
+++ b/src/framework/taespecifierbuilder.cpp
@@ -71,7 +71,7 @@ namespace uima {
 
   UIMA_EXC_CLASSIMPLEMENT(InvalidXMLException, uima::Exception);
 
-  static XMLCh gs_tempXMLChBuffer[ MAXXMLCHBUFF ];
+  static thread_local XMLCh gs_tempXMLChBuffer[ MAXXMLCHBUFF ];
 
   XMLParser::XMLParser()
       :iv_pXMLErrorHandler(NULL) {}
-- 
2.43.0


From 11871bd987ac27411abd3dcfb9609dfd58f1f42b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:15:21 +0000
Subject: [PATCH 111/115] fix: the resource cache was changed without its lock
 when engines are created in several threads

---
 src/framework/resmgr.cpp      | 3 +--
 src/framework/uima/resmgr.hpp | 3 +++
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/framework/resmgr.cpp b/src/framework/resmgr.cpp
index 28faaea..3dbd7f8 100644
--- a/src/framework/resmgr.cpp
+++ b/src/framework/resmgr.cpp
@@ -456,7 +456,7 @@ namespace uima {
 //      assertWithMsg(false, "Implement caching functionality");
     icu::UnicodeString const & crKind = crFactory.getKind();
     UIMA_TPRINT("Creating resource with kind " << crKind << " and key " << crKey);
-    // acquire mutex lock
+    std::lock_guard<std::recursive_mutex> lock(iv_resourcesMutex);
 
     TyResourceList & rResList = iv_resources[crKind];
     ResourceABase * pResource = NULL;
@@ -478,7 +478,6 @@ namespace uima {
       }
       rResList.push_back(pResource);
     }
-    // release mutex lock
     UIMA_TPRINT("...resource created: " << pResource);
     assert( EXISTS( pResource ) );
     return pResource;
diff --git a/src/framework/uima/resmgr.hpp b/src/framework/uima/resmgr.hpp
index 79699a2..082a250 100644
--- a/src/framework/uima/resmgr.hpp
+++ b/src/framework/uima/resmgr.hpp
@@ -47,6 +47,7 @@
 
 #include <vector>
 #include <map>
+#include <mutex>
 
 #include "unicode/unistr.h"
 
@@ -265,6 +266,8 @@ namespace uima {
     typedef std::vector<ResourceABase *> TyResourceList;
     typedef std::map<icu::UnicodeString, TyResourceList > TyResources;
     TyResources iv_resources;
+    // guards iv_resources: engines may be created in several threads
+    std::recursive_mutex iv_resourcesMutex;
 
     typedef std::map<icu::UnicodeString, ResourceFactoryABase *> TyResourceFactories;
     TyResourceFactories iv_resourceFactories;
-- 
2.43.0


From d03fff84a864c58457c2f525152efc4eb16f2f0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:15:21 +0000
Subject: [PATCH 112/115] fix: only the first log facility of a process
 recorded its engine's name

---
 src/framework/log.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/framework/log.cpp b/src/framework/log.cpp
index a408b78..0ada0a4 100644
--- a/src/framework/log.cpp
+++ b/src/framework/log.cpp
@@ -245,11 +245,11 @@ namespace uima {
       iv_logStream(*this, LogStream::EnMessage),
       vecLoggers(ResourceManager::getInstance().getLoggers()),
       iv_logLevel(ResourceManager::getInstance().getLoggingLevel()) {
+   UnicodeStringRef ref(crEngineName);
+   ref.extract(iv_strOrigin, CCSID::getDefaultName()  );
    if (logPool == NULL) {
       apr_status_t rv = apr_pool_create( &logPool,NULL );
       if ( rv == APR_SUCCESS ) {
-        UnicodeStringRef ref(crEngineName);
-        ref.extract(iv_strOrigin, CCSID::getDefaultName()  );
         apr_thread_mutex_create(&logMutex,APR_THREAD_MUTEX_UNNESTED, logPool);
       } else {
         UIMA_EXC_THROW_NEW(ExcOutOfMemory,
@@ -268,11 +268,11 @@ namespace uima {
       vecLoggers(ResourceManager::getInstance().getLoggers()),
       iv_logLevel(crLoggingLevel) {
 
+    UnicodeStringRef ref(crEngineName);
+    ref.extract(iv_strOrigin, CCSID::getDefaultName()  );
     if (logPool == NULL) {
       apr_status_t rv = apr_pool_create( &logPool,NULL );
       if ( rv == APR_SUCCESS ) {
-        UnicodeStringRef ref(crEngineName);
-        ref.extract(iv_strOrigin, CCSID::getDefaultName()  );
         apr_thread_mutex_create(&logMutex,APR_THREAD_MUTEX_UNNESTED, logPool);
       } else {
         UIMA_EXC_THROW_NEW(ExcOutOfMemory,
-- 
2.43.0


From 684a842536ecdfd1094fa87ffc663f1eaccab94c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:15:21 +0000
Subject: [PATCH 113/115] fix: a logger that throws left the log locked for
 ever

---
 src/framework/log.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/framework/log.cpp b/src/framework/log.cpp
index 0ada0a4..a4ecab2 100644
--- a/src/framework/log.cpp
+++ b/src/framework/log.cpp
@@ -51,6 +51,17 @@
 const size_t                  UIMA_LOG_STATIC_CONVERSION_BUFSIZE = 1024;
 static apr_pool_t         * logPool=0;
 static apr_thread_mutex_t * logMutex=0;
+
+/** holds the log's lock as long as it lives, also when a logger throws */
+class LogLock {
+public:
+  LogLock() {
+    apr_thread_mutex_lock(logMutex);
+  }
+  ~LogLock() {
+    apr_thread_mutex_unlock(logMutex);
+  }
+};
 using namespace std;
 /* ----------------------------------------------------------------------- */
 /*       Forward declarations                                              */
@@ -148,7 +159,7 @@ namespace uima {
   void LogFacility::doLog(LogStream::EnEntryType enType, const TCHAR * cpszMsg, long lUserCode) const
   /* ----------------------------------------------------------------------- */
   {
-    apr_thread_mutex_lock(logMutex);
+    LogLock lock;
     string method="";
     if (isLoggable(enType)) {
       for (int i=0; i < vecLoggers.size(); i++) {
@@ -156,7 +167,6 @@ namespace uima {
                                      method,cpszMsg,lUserCode);
       }
     }
-    apr_thread_mutex_unlock(logMutex);
   }
 
   bool LogFacility::isLoggable(LogStream::EnEntryType enType) const {
-- 
2.43.0


From 542709222417371b2fe254309011ed13e15ef6ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:15:21 +0000
Subject: [PATCH 114/115] fix: times were formatted in static memory all
 threads share

---
 src/framework/dottypesystemwriter.cpp | 10 ++++++----
 src/framework/log.cpp                 |  7 +++----
 src/framework/uima/timedatetools.hpp  |  7 ++++---
 3 files changed, 13 insertions(+), 11 deletions(-)

diff --git a/src/framework/dottypesystemwriter.cpp b/src/framework/dottypesystemwriter.cpp
index 7615e93..896de3e 100644
--- a/src/framework/dottypesystemwriter.cpp
+++ b/src/framework/dottypesystemwriter.cpp
@@ -41,7 +41,7 @@
 #include "uima/unistrref.hpp"
 #include "uima/typesystem.hpp"
 #include "uima/cas.hpp"
-#include <time.h>
+#include "apr_time.h"
 #ifdef _MSC_VER
 #include <minmax.h> // for min
 #endif
@@ -66,11 +66,13 @@ namespace uima {
 
   std::string
   currDateString() {
-    time_t ltime;
-    (void)time(&ltime);   //get time, ignore return value
     const size_t uiMAXSTR = 64;
     char pszDate[uiMAXSTR];
-    strftime(pszDate, uiMAXSTR, "%x", localtime(&ltime));
+    apr_time_exp_t ltime;
+    apr_size_t uiLen = 0;
+    apr_time_exp_lt(&ltime, apr_time_now());
+    apr_strftime(pszDate, &uiLen, uiMAXSTR, "%x", &ltime);
+    if (uiLen == 0) pszDate[0] = '\0';
     string t(pszDate);
     return t; //time string
   }
diff --git a/src/framework/log.cpp b/src/framework/log.cpp
index a4ecab2..0eedec7 100644
--- a/src/framework/log.cpp
+++ b/src/framework/log.cpp
@@ -111,12 +111,11 @@ namespace uima {
                                   const string & cpszMsg, 
                                   long lUserCode)  {
     
-    time_t rawtime;
-    time ( &rawtime );
-    string currts = ctime(&rawtime);
+    char currts[APR_CTIME_LEN];
+    apr_ctime(currts, apr_time_now());
 
     stringstream str;
-    str << currts.substr(0,currts.length()-1);
+    str << currts;
 
     //map enType to string
     switch (enType) {
diff --git a/src/framework/uima/timedatetools.hpp b/src/framework/uima/timedatetools.hpp
index d954394..120ec23 100644
--- a/src/framework/uima/timedatetools.hpp
+++ b/src/framework/uima/timedatetools.hpp
@@ -31,6 +31,7 @@
 
 #include "uima/pragmas.hpp" // must be first file to be included to get pragmas
 #include <time.h>
+#include "apr_time.h"
 #include <limits.h>
 #include <float.h>
 #include <string>
@@ -68,9 +69,9 @@ namespace uima {
    */
   inline std::string
   tafCurrTimeDateString() {
-    time_t ltime;
-    (void)time(&ltime);   //get time, ignore return value
-    return asctime(localtime(&ltime)); //time string
+    char acTime[APR_CTIME_LEN];
+    apr_ctime(acTime, apr_time_now());
+    return std::string(acTime) + "\n"; //time string
   }
 
 
-- 
2.43.0


From 17891faf24eb84949564fde6edd17a7c5ead252e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:15:21 +0000
Subject: [PATCH 115/115] fix: threads logging to the framework's log changed
 its last error without a lock

---
 src/framework/log.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/framework/log.cpp b/src/framework/log.cpp
index 0eedec7..81ae20f 100644
--- a/src/framework/log.cpp
+++ b/src/framework/log.cpp
@@ -189,6 +189,7 @@ namespace uima {
     if (enType == LogStream::EnError) {
       LogFacility * pclThis = CONST_CAST(LogFacility *, this);
       assert(pclThis == this);
+      LogLock lock;      // the framework's own facility is used by all threads
       //remember last error as string/number
       pclThis->iv_lLastUserCode = lUserCode;
       pclThis->iv_strLastError  = string(cpszMsg);
@@ -205,6 +206,7 @@ namespace uima {
 
     LogFacility * pclThis = CONST_CAST(LogFacility *, this);
     assert(pclThis == this);
+    LogLock lock;        // the framework's own facility is used by all threads
     //remember last error as error info object
     pclThis->iv_errInfo = errInfo;
     //reset string/number
-- 
2.43.0

