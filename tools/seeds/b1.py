LI="src/cas/lowlevel_indexrepository.cpp"
BUGS=[
dict(id="c01-heap-growth-last-cell", property="C01", needs="the storage of the CAS grows while the last cell in use (the last feature of the most recently created structure) holds a value",
 breaks="a feature value is lost when the heap is enlarged",
 edits=[("src/cas/uima/lowlevel_internal_heap.hpp","memcpy(iv_pTHeapNew, iv_pTHeap, result*sizeof(T));\n          memset(iv_pTHeapNew + result, iv_iDefaultValue, (iv_uiCellNumber - result)*sizeof(T));",
  "WORD32 uiUsed = result - 1;\n          memcpy(iv_pTHeapNew, iv_pTHeap, uiUsed*sizeof(T));\n          memset(iv_pTHeapNew + uiUsed, iv_iDefaultValue, (iv_uiCellNumber - uiUsed)*sizeof(T));")],
 demo='''static void body() { TypeSystem* ts = mkts(T("m.A", "uima.cas.TOP", {{"x", "uima.cas.Integer"}, {"y", "uima.cas.Integer"}})); CAS* c = mkcas(*ts); Type t = ts->getType("m.A"); Feature y = t.getFeatureByBaseName("y");
  std::vector<FeatureStructure> v; for (int i = 0; i < 40000; ++i) { FeatureStructure f = c->createFS(t); f.setIntValue(y, i + 1); v.push_back(f); }
  for (int i = 0; i < 40000; ++i) WANT(v[i].getIntValue(y) == i + 1); }'''),
dict(id="c03-stale-cache-of-subtypes", property="C03", needs="an iterator over a type with subtypes, then adding a structure of a subtype, then a new iterator over the supertype",
 breaks="structures of subtypes added after the first iteration over the supertype are missing from later iterations",
 edits=[(LI,"""        set<IndexABase const *> const & crIndexSet = iv_cacheDirtyFlags[*cit];
        if ( crIndexSet.find(index) == crIndexSet.end() ) {
          return true;
        }
""","""        set<IndexABase const *> const & crIndexSet = iv_cacheDirtyFlags[*cit];
        bool bUsed = iv_isUsed[*cit] && (cit == types.begin() || cit + 1 == types.end() || types.size() < 4);
        if ( crIndexSet.find(index) == crIndexSet.end() && (bUsed || crIndexSet.empty() && cit == types.begin()) ) {
          return true;
        }
""")],
 demo='''static int n(CAS* c, Type t) { ANIterator i = c->getAnnotationIndex(t).iterator(); int k = 0; for (i.moveToFirst(); i.isValid(); i.moveToNext()) ++k; return k; }
static void body() { TypeSystem* ts = mkts(T("m.A", "uima.tcas.Annotation") + T("m.B", "m.A") + T("m.C", "m.A") + T("m.D", "m.A")); CAS* c = mkcas(*ts); c->setDocumentText(U("hello").getTerminatedBuffer(), 5, true);
  Type a = ts->getType("m.A"), s = ts->getType("m.C"); FSIndexRepository& r = c->getIndexRepository(); r.addFS(c->createAnnotation(a, 0, 1)); WANT(n(c, a) == 1); r.addFS(c->createAnnotation(s, 0, 2)); WANT(n(c, a) == 2); r.addFS(c->createAnnotation(s, 0, 3)); WANT(n(c, a) == 3); }'''),
dict(id="c04-long-key-difference", property="C04", needs="an index over a long feature holding two values further apart than the largest long",
 breaks="such an index is not iterated in key order",
 edits=[("src/cas/lowlevel_indexcomparator.cpp","""            INT64 f2 = heap.getFSAsLong(val2);
            isLess = (f1 < f2);
            isGreater = (f1 > f2);""","""            INT64 f2 = heap.getFSAsLong(val2);
            INT64 diff = (INT64) ((WORD64) f1 - (WORD64) f2);
            isLess = (diff < 0);
            isGreater = (diff > 0);""")],
 demo='''static void body() { TypeSystem* ts; CAS* c = mkixcas(T("m.A", "uima.cas.TOP", {{"k", "uima.cas.Long"}}), ixd("ix", "m.A", "sorted", {{"k", false}}), "", &ts);
  Type t = ts->getType("m.A"); Feature f = t.getFeatureByBaseName("k"); INT64 v[] = {5, -9223372036854775807LL, 9223372036854775807LL, 0, -7}; for (INT64 x : v) { FeatureStructure s = c->createFS(t); s.setLongValue(f, x); c->getIndexRepository().addFS(s); }
  FSIterator i = c->getIndexRepository().getIndex("ix").iterator(); INT64 last = -9223372036854775807LL - 1; int n = 0; for (i.moveToFirst(); i.isValid(); i.moveToNext(), ++n) { WANT(i.get().getLongValue(f) >= last); last = i.get().getLongValue(f); } WANT(n == 5); }'''),
dict(id="c05-unambiguous-extends-end", property="C05", needs="an unambiguous subiterator over three annotations of which the second overlaps the first and the third overlaps only the second",
 breaks="the third annotation is skipped although it does not overlap the last one delivered",
 edits=[("src/cas/cas.cpp","""            return;
          }
          uiCurrBeginPos = iv_heap->getIntValue(iv_pIterator->get(), uima::internal::gs_tyBeginPosFeature);
        } while (uiCurrBeginPos < uiLastEndPos);

      }
""","""            return;
          }
          uiCurrBeginPos = iv_heap->getIntValue(iv_pIterator->get(), uima::internal::gs_tyBeginPosFeature);
          size_t uiCurrEndPos = iv_heap->getIntValue(iv_pIterator->get(), uima::internal::gs_tyEndPosFeature);
          if (uiCurrBeginPos < uiLastEndPos && uiCurrEndPos > uiLastEndPos) {
            uiLastEndPos = uiCurrEndPos;
          }
        } while (uiCurrBeginPos < uiLastEndPos);

      }
""")],
 demo='''static void body() { TypeSystem* ts = mkts(T("m.A", "uima.tcas.Annotation") + T("m.S", "uima.tcas.Annotation")); CAS* c = mkcas(*ts); c->setDocumentText(U("0123456789").getTerminatedBuffer(), 10, true); Type a = ts->getType("m.A"), s = ts->getType("m.S"); FSIndexRepository& r = c->getIndexRepository();
  AnnotationFS b = c->createAnnotation(s, 0, 10); r.addFS(b); int p[][2] = {{0, 3}, {2, 5}, {4, 6}}; for (auto& x : p) r.addFS(c->createAnnotation(a, x[0], x[1])); ANIndex ix = c->getAnnotationIndex(a); ANIterator i = ix.subIterator(b, enUnambiguous); std::vector<int> g; for (i.moveToFirst(); i.isValid(); i.moveToNext()) g.push_back(i.get().getBeginPosition()); WANT(g.size() == 2 && g[0] == 0 && g[1] == 4); }''' ),
dict(id="c06-and-evaluates-both", property="C06", needs="an AND filter whose second operand cannot be evaluated (unset reference) on a structure the first operand already decides",
 breaks="evaluating the filter throws instead of giving the first operand's answer",
 edits=[("src/cas/fsfilterbuilder.cpp","""        bool bResult1 = iv_pFilter1->isFiltered(fs);
        if (!bResult1) {
          return false;
        }
        //""","""        bool bResult1 = iv_pFilter1->isFiltered(fs);
        bool bResult2 = iv_pFilter2->isFiltered(fs);
        if (!bResult1 || !bResult2) {
          return false;
        }
        //""")],
 demo='''#include "uima/fsfilterbuilder.hpp"
static void body() { TypeSystem* ts = mkts(T("m.A", "uima.cas.TOP", {{"r", "m.A"}, {"x", "uima.cas.Integer"}})); CAS* c = mkcas(*ts); Type t = ts->getType("m.A"); Feature r = t.getFeatureByBaseName("r"), x = t.getFeatureByBaseName("x"); FeatureStructure f = c->createFS(t); f.setIntValue(x, 1); FSFilterBuilder const& b = c->getFSFilterBuilder();
  std::vector<Feature> p1 = {x}, p2 = {r, x}; FSFilter* g = b.createANDFilter(b.createIntFeatureFilter(p1, FSFilterBuilder::EQUALS, 2), b.createIntFeatureFilter(p2, FSFilterBuilder::EQUALS, 1)); WANT(!g->isFiltered(f)); }'''),
dict(id="c07-features-of-second-level", property="C07", needs="a type whose grandparent introduces a feature and whose parent introduces none",
 breaks="features inherited over a type without own features are not found by name",
 edits=[("src/cas/lowlevel_typesystem.cpp","""      if (tyT1 == tyT2)
        return true;
      if (tyT2 >= iv_vecTree.size() || tyT2 < 1)
        return false;
""","""      if (tyT1 == tyT2)
        return true;
      if (tyT2 >= iv_vecTree.size() || tyT2 < 1)
        return false;
      // a type without subtypes subsumes only itself
      if (tyT1 != iv_tyTop && iv_bIsCommitted && tyT1 < iv_vecTree.size() && iv_vecTree[tyT1].size() == 1 && iv_vecTree[tyT1][0] != tyT2)
        return false;
""")],
 demo='''static void body() { TypeSystem* ts = mkts(T("m.A", "uima.cas.TOP") + T("m.B", "m.A") + T("m.C", "m.B")); WANT(ts->getType("m.A").subsumes(ts->getType("m.B"))); WANT(ts->getType("m.A").subsumes(ts->getType("m.C"))); }'''),
dict(id="c08-inherited-range-conflict", property="C08", needs="a type declaring a feature its supertype already has, with another range",
 breaks="the contradictory declaration is accepted",
 edits=[("src/framework/casdefinition.cpp","if (actualRangeType != rangeType) {","if (actualRangeType != rangeType && rTypeSystem.getIntroType(feat) == introType) {")],
 demo='''static void body() { std::string x = tsx(T("m.A", "uima.cas.TOP", {{"x", "uima.cas.Integer"}}) + T("m.B", "m.A", {{"x", "uima.cas.String"}})); ErrorInfo e; WANT(thrown([&]{ Framework::createTypeSystemFromXMLBuffer(x.c_str(), e); })); }'''),
]
BUGS[5]["breaks"]="a type with a single direct subtype no longer subsumes its more distant subtypes"; BUGS[5]["needs"]="a chain of three types, each with a single subtype"; BUGS[5]["id"]="c07-subsumes-single-chain"
