BUGS=[
dict(id="c01-reset-keeps-last-cell", property="C01", needs="a structure whose last feature was set to a nonzero value at the end of the storage, then CAS::reset, then creating a structure at the same place",
 breaks="an unset feature of a new structure reads as the value of a structure of the previous document",
 edits=[("src/cas/uima/lowlevel_internal_heap.hpp","memset(iv_pTHeap, iv_iDefaultValue, iv_topOfHeap * sizeof(T) );","memset(iv_pTHeap, iv_iDefaultValue, (iv_topOfHeap - 1) * sizeof(T) );")],
 demo='''static void body() { TypeSystem* ts = mkts(T("m.A", "uima.cas.TOP", {{"x", "uima.cas.Integer"}, {"y", "uima.cas.Integer"}})); CAS* c = mkcas(*ts); Type t = ts->getType("m.A"); Feature y = t.getFeatureByBaseName("y");
  FeatureStructure f = c->createFS(t); f.setIntValue(y, 7); c->getBaseCas()->reset(); c = c->getBaseCas()->getView(CAS::NAME_DEFAULT_SOFA); for (int i = 0; i < 3; ++i) { FeatureStructure g = c->createFS(t); WANT(g.getIntValue(y) == 0); } }'''),
dict(id="c01-clone-drops-null-string", property="C01", needs="copying a structure over features where the target already has a string and the source has an empty one",
 breaks="copying a structure loses the empty string",
 edits=[("src/cas/lowlevel_fsheap.cpp","""          // if string value set, create duplicate reference to string in refHeap
          if (strRef != 0) {
            int ref = iv_clTemporaryStringRefHeap.getHeapValue(1 + 2*(strRef-1));
            size_t length = iv_clTemporaryStringRefHeap.getHeapValue(2 + 2*(strRef-1));""","""          // if string value set, create duplicate reference to string in refHeap
          size_t length = 0;
          if (strRef != 0) {
            length = iv_clTemporaryStringRefHeap.getHeapValue(2 + 2*(strRef-1));
          }
          if (length != 0) {
            int ref = iv_clTemporaryStringRefHeap.getHeapValue(1 + 2*(strRef-1));""")],
 demo='''static void body() { TypeSystem* ts = mkts(T("m.A", "uima.cas.TOP", {{"s", "uima.cas.String"}})); CAS* c = mkcas(*ts); Type t = ts->getType("m.A"); Feature s = t.getFeatureByBaseName("s");
  FeatureStructure f = c->createFS(t); f.setStringValue(s, icu::UnicodeString("")); WANT(f.getStringValue(s).getBuffer() != 0); FeatureStructure g = f.clone(); WANT(!g.isUntouchedFSValue(s)); }'''),
dict(id="c02-list-length-of-shared-tail", property="C02", needs="inserting an element as the first of a list twice", breaks="the list",
 edits=[("src/cas/listfs.cpp","""      if ( rHeap.getType(tyNextList) != NELIST_TYPE ) {
        assert( rHeap.getType(tyNextList) == ELIST_TYPE );
        break;""","""      if ( rHeap.getType(tyNextList) != NELIST_TYPE || tyNextList < tyCurrentList && rOutSize > 1 ) {
        break;""")],
 demo='''static void body() { TypeSystem* ts = mkts(T("m.A", "uima.cas.TOP")); CAS* c = mkcas(*ts); IntListFS l = c->createIntListFS(); 
  for (int i = 0; i < 4; ++i) l.addFirst(i); WANT(l.getLength() == 4); l.addLast(9); WANT(l.getLength() == 5); }'''),
dict(id="c03-indexed-structures-of-first-index", property="C03", needs="a structure that is a member of the second of two indexes over its type but not of the first, which is a set holding an equal structure",
 breaks="the structure is missing from the list of all indexed structures, and so from serialized forms",
 edits=[("src/cas/lowlevel_indexrepository.cpp","""          for (size_t j=0; j<crSingleIndexes.size(); ++j) {
            unique_ptr<""","""          for (size_t j=0; j<crSingleIndexes.size() && j<1; ++j) {
            unique_ptr<""")],
 demo='''#include "uima/lowlevel_indexrepository.hpp"
static void body() { TypeSystem* ts; CAS* c = mkixcas(T("m.A", "uima.cas.TOP", {{"k", "uima.cas.Integer"}}), ixd("a", "m.A", "set", {{"k", false}}) + ixd("b", "m.A", "sorted", {{"k", false}}), "", &ts); Type t = ts->getType("m.A"); FSIndexRepository& r = c->getIndexRepository();
  r.addFS(c->createFS(t)); r.addFS(c->createFS(t)); int n = 0; FSIterator i = r.getIndex("b").iterator(); for (i.moveToFirst(); i.isValid(); i.moveToNext()) ++n; WANT(n == 2);
  std::vector<lowlevel::TyFS> v; dynamic_cast<lowlevel::IndexRepository&>(r).getIndexedFSs(v); WANT(v.size() == 2); }'''),
dict(id="c06-string-filter-keeps-callers-buffer", property="C06", needs="the caller's buffer changing after a string filter has been built from it",
 breaks="the filter compares with whatever is in the buffer later",
 edits=[("src/cas/fsfilterbuilder.cpp","UnicodeStringRef up(iv_string.getBuffer(), iv_string.length() );","UnicodeStringRef up(cpUTFBuffer, uiLength );")],
 demo='''#include "uima/fsfilterbuilder.hpp"
static void body() { TypeSystem* ts = mkts(T("m.A", "uima.cas.TOP", {{"s", "uima.cas.String"}})); CAS* c = mkcas(*ts); Type t = ts->getType("m.A"); Feature s = t.getFeatureByBaseName("s"); FeatureStructure f = c->createFS(t); f.setStringValue(s, icu::UnicodeString("abc"));
  std::vector<Feature> p = {s}; UChar b[3] = {'a', 'b', 'c'}; FSFilter* g = c->getFSFilterBuilder().createStringFeatureFilter(p, b, 3); WANT(g->isFiltered(f)); b[0] = 'z'; WANT(g->isFiltered(f)); }'''),
dict(id="c06-float-filter-whole-numbers", property="C06", needs="a float comparison between values that differ by less than one millionth", breaks="the comparison takes them as equal",
 edits=[("src/cas/fsfilterbuilder.cpp","""      int getFeature(FeatureStructure const & crFS, Feature const & crFeat) const {
        return crFS.getIntValue(crFeat);""","""      int getFeature(FeatureStructure const & crFS, Feature const & crFeat) const {
        return (int) (float) crFS.getIntValue(crFeat);""")],
 demo='''#include "uima/fsfilterbuilder.hpp"
static void body() { TypeSystem* ts = mkts(T("m.A", "uima.cas.TOP", {{"x", "uima.cas.Integer"}})); CAS* c = mkcas(*ts); Type t = ts->getType("m.A"); Feature x = t.getFeatureByBaseName("x"); FeatureStructure f = c->createFS(t); f.setIntValue(x, 16777217);
  std::vector<Feature> p = {x}; WANT(c->getFSFilterBuilder().createIntFeatureFilter(p, FSFilterBuilder::EQUALS, 16777217)->isFiltered(f)); WANT(!c->getFSFilterBuilder().createIntFeatureFilter(p, FSFilterBuilder::EQUALS, 16777216)->isFiltered(f)); }'''),
dict(id="c07-common-supertype-of-deep-types", property="C07", needs="two types whose nearest common supertype is two levels above one of them", breaks="the most specific common supertype is too general",
 edits=[("src/cas/lowlevel_typesystem.cpp","""      t1 = getParentType(t1);
      return getMostSpecificCommonSupertype(t1, t2);""","""      t1 = getParentType(t1);
      t2 = getParentType(t2);
      return getMostSpecificCommonSupertype(t1, t2);""")],
 demo='''#include "uima/lowlevel_typesystem.hpp"
static void body() { TypeSystem* ts = mkts(T("m.A", "uima.cas.TOP") + T("m.B", "m.A") + T("m.C", "m.B") + T("m.D", "m.A") + T("m.E", "m.C")); lowlevel::TypeSystem& l = dynamic_cast<lowlevel::TypeSystem&>(*ts);
  auto n = [&](const char* s) { return l.getTypeByName(s); }; WANT(l.getMostSpecificCommonSupertype(n("m.E"), n("m.D")) == n("m.A")); WANT(l.getMostSpecificCommonSupertype(n("m.D"), n("m.E")) == n("m.A")); }'''),
dict(id="c07-feature-with-colon-name", property="C07", needs="asking for a feature of a type by the qualified name where the feature is introduced by a supertype of the supertype", breaks="inherited features are not found by their qualified name",
 edits=[("src/cas/lowlevel_typesystem.cpp","""      crusFeatureName.extractBetween(iIndex + 1, crusFeatureName.length(), featureBaseName);
      return getFeatureByBaseName( typeName, featureBaseName );""","""      crusFeatureName.extractBetween(iIndex + 1, crusFeatureName.length(), featureBaseName);
      TyFSFeature tyFeat = getFeatureByBaseName( typeName, featureBaseName );
      if (tyFeat != INVALID_FEATURE && getIntroType(tyFeat) != getTypeByName(typeName) && getIntroType(tyFeat) != getParentType(getTypeByName(typeName)))
        return INVALID_FEATURE;
      return tyFeat;""")],
 demo='''static void body() { TypeSystem* ts = mkts(T("m.A", "uima.cas.TOP", {{"x", "uima.cas.Integer"}}) + T("m.B", "m.A") + T("m.C", "m.B")); WANT(ts->getFeatureByFullName("m.B:x").isValid()); WANT(ts->getFeatureByFullName("m.C:x").isValid()); }'''),
]
