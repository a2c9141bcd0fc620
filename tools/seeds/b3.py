# engine demonstrations: AG() builds an aggregate of primitives that all run libann1.so in the current directory
AG = r'''
#include "xercesc/framework/MemBufInputSource.hpp"
#include <unistd.h>
static std::string cap(const std::string& outs, const std::string& langs = "") { return "<capability><inputs/><outputs>" + outs + "</outputs><languagesSupported>" + langs + "</languagesSupported></capability>"; }
static std::string AE(const std::string& name, const std::string& body, const std::string& caps, const std::string& meta, const std::string& flow, const std::string& types, bool ns = false) {
  bool agg = !flow.empty(); char b[4096]; std::string dir = getcwd(b, sizeof b);
  return std::string("<analysisEngineDescription") + (ns ? " xmlns=\"http://uima.apache.org/resourceSpecifier\"" : "") + "><frameworkImplementation>org.apache.uima.cpp</frameworkImplementation><primitive>" + (agg ? "false" : "true") + "</primitive>" +
   (agg ? "<delegateAnalysisEngineSpecifiers>" + body + "</delegateAnalysisEngineSpecifiers>" : "<annotatorImplementationName>" + dir + "/libann1.so</annotatorImplementationName>") + "<analysisEngineMetaData><name>" + name + "</name><description/><version>1</version><vendor/>" +
   (meta.empty() ? "<configurationParameters/><configurationParameterSettings/>" : meta) + (agg ? "<flowConstraints>" + flow + "</flowConstraints>" : "") + "<typeSystemDescription><types>" + types + "</types></typeSystemDescription><capabilities>" + caps + "</capabilities></analysisEngineMetaData></analysisEngineDescription>"; }
static std::string DEL(const std::string& key, const std::string& ae) { return "<delegateAnalysisEngine key=\"" + key + "\">" + ae + "</delegateAnalysisEngine>"; }
static AnalysisEngine* MK(const std::string& x0) { std::string x = "<?xml version=\"1.0\" encoding=\"UTF-8\"?>" + x0; AnalysisEngineDescription* d = new AnalysisEngineDescription(); XMLParser p; xercesc::MemBufInputSource is((XMLByte const*)x.data(), x.size(), "sys"); p.parseAnalysisEngineDescription(*d, is); d->validate(); d->commit(); ErrorInfo e; AnalysisEngine* a = Framework::createAnalysisEngine(*d, e); if (!a) { std::cout << e << std::endl; exit(2); } return a; }
'''
ANN = r'''
#include "uima/api.hpp"
#include <string>
using namespace uima;
extern "C" void demoCall(const char* what, AnnotatorContext& c, CAS* cas, TyErrorId* rc);
class A : public Annotator {
  TyErrorId c(const char* w, CAS* cas = 0) { TyErrorId r = UIMA_ERR_NONE; demoCall(w, getAnnotatorContext(), cas, &r); return r; }
public:
  TyErrorId initialize(AnnotatorContext&) { return UIMA_ERR_NONE; }
  TyErrorId destroy() { return c("destroy"); }
  TyErrorId reconfigure() { return c("reconfigure"); }
  TyErrorId typeSystemInit(TypeSystem const&) { return UIMA_ERR_NONE; }
  TyErrorId process(CAS& t, ResultSpecification const&) { return c("process", &t); }
  TyErrorId batchProcessComplete() { return c("batch"); }
  TyErrorId collectionProcessComplete() { return c("collection"); }
};
MAKE_AE(A);
'''
BUGS=[
dict(id="s01-third-namespace-prefix", property="S01", needs="three namespaces whose last components are the same", breaks="types of the second and third namespace are written with one prefix and cannot be read back",
 edits=[("src/cas/xmiwriter.cpp","""     nsPrefixesUsed.insert(prefix);
     nsUriToPrefixMap[nsUri] = prefix;""","""     nsPrefixesUsed.insert(basePrefix);
     nsUriToPrefixMap[nsUri] = prefix;""")],
 demo='''#include "uima/xmiwriter.hpp"
#include "uima/xmideserializer.hpp"
#include "xercesc/framework/MemBufInputSource.hpp"
static void body() { TypeSystem* ts = mkts(T("a.m.X", "uima.tcas.Annotation") + T("b.m.X", "uima.tcas.Annotation") + T("c.m.X", "uima.tcas.Annotation")); CAS* c = mkcas(*ts); c->setDocumentText(U("abc"));
  const char* n[] = {"a.m.X", "b.m.X", "c.m.X"}; for (int i = 0; i < 3; ++i) c->getIndexRepository().addFS(c->createAnnotation(ts->getType(n[i]), i, i + 1));
  std::stringstream s; XmiWriter w(*c, true); w.write(s); std::string x = s.str(); CAS* d = mkcas(*ts); XmiDeserializer z; xercesc::MemBufInputSource is((XMLByte const*)x.data(), x.size(), "sys"); XmiDeserializer::deserialize(is, *d);
  CAS* v = d->getView(CAS::NAME_DEFAULT_SOFA); for (int i = 0; i < 3; ++i) { ANIterator it = v->getAnnotationIndex(ts->getType(n[i])).iterator(); it.moveToFirst(); WANT(it.isValid()); WANT(it.get().getBeginPosition() == i); } }'''),
dict(id="s02-tab-in-attribute", property="S02", needs="a string value that has a tab in it", breaks="the tab is read back as a blank",
 edits=[("src/cas/xmlwriter.cpp","static icu::UnicodeString const ustrTAB_ESC(\"&#9;\");","static icu::UnicodeString const ustrTAB_ESC(\"\\t\");")],
 demo='''#include "uima/xmlwriter.hpp"
#include "uima/xcasdeserializer.hpp"
#include "xercesc/framework/MemBufInputSource.hpp"
static void body() { TypeSystem* ts = mkts(T("m.A", "uima.tcas.Annotation", {{"s", "uima.cas.String"}})); CAS* c = mkcas(*ts); c->setDocumentText(U("abc")); Type t = ts->getType("m.A"); Feature f = t.getFeatureByBaseName("s");
  AnnotationFS a = c->createAnnotation(t, 0, 1); a.setStringValue(f, U("x\\ty")); c->getIndexRepository().addFS(a); std::stringstream s; XCASWriter w(*c, true); w.write(s); std::string x = s.str();
  CAS* d = mkcas(*ts); xercesc::MemBufInputSource is((XMLByte const*)x.data(), x.size(), "sys"); XCASDeserializer::deserialize(is, *d); ANIterator it = d->getView(CAS::NAME_DEFAULT_SOFA)->getAnnotationIndex(t).iterator(); it.moveToFirst(); WANT(it.isValid()); WANT(S(it.get().getStringValue(f)) == "x\\ty"); }'''),
dict(id="e02-completion-stops-at-failure", property="E02", needs="a delegate that fails to complete a batch, with other delegates after it in the flow", breaks="the delegates after it are not told that the batch is complete",
 edits=[("src/framework/annotator_mgr.cpp","""          clTrace.dump(_TEXT("Error in launchBatchProcessComplete()"), (long) utErrorId);
          utRetVal = utErrorId;                        /* I know, this overwrites a previous error */
""","""          clTrace.dump(_TEXT("Error in launchBatchProcessComplete()"), (long) utErrorId);
          return utErrorId;
""")],
 files={"ann1.cpp": ANN},
 demo=AG+'''static std::string log_; extern "C" void demoCall(const char* w, AnnotatorContext& c, CAS*, TyErrorId* rc) { std::string n = S(c.getTaeSpecifier().getAnalysisEngineMetaData()->getName()); log_ += n + ":" + w + " "; if (n == "p" && std::string(w) == "batch") *rc = (TyErrorId)1234; }
static void body() { std::string f = "<fixedFlow><node>a</node><node>b</node></fixedFlow>"; AnalysisEngine* e = MK(AE("agg", DEL("a", AE("p", "", cap(""), "", "", "")) + DEL("b", AE("q", "", cap(""), "", "", "")), cap(""), "", f, "", true));
  TyErrorId r = e->batchProcessComplete(); WANT(r == 1234); WANT(log_ == "p:batch q:batch "); }'''),
dict(id="e03-second-territory", property="E03", needs="a delegate that declares two territories of one language with different outputs, asked for the outputs of the second one on a document that has no territory", breaks="the delegate is not called",
 edits=[("src/framework/internal_capability_container.cpp","""          // MSV6 compile error:       rMap[langWithoutTerritory].insert( rSet.begin(), rSet.end() );
          TySetTypeOrFeatures::const_iterator setit;""","""          // MSV6 compile error:       rMap[langWithoutTerritory].insert( rSet.begin(), rSet.end() );
          if (!rMap[langWithoutTerritory].empty()) {
            continue;
          }
          TySetTypeOrFeatures::const_iterator setit;""")],
 files={"ann1.cpp": ANN},
 demo=AG+'''static std::string log_; extern "C" void demoCall(const char* w, AnnotatorContext& c, CAS*, TyErrorId* rc) { if (std::string(w) == "process") log_ += S(c.getTaeSpecifier().getAnalysisEngineMetaData()->getName()) + " "; }
static void body() { std::string f = "<capabilityLanguageFlow><node>a</node></capabilityLanguageFlow>", ty = T("m.A", "uima.tcas.Annotation") + T("m.B", "uima.tcas.Annotation");
  AnalysisEngine* e = MK(AE("agg", DEL("a", AE("p", "", cap("<type>m.A</type>", "<language>en-gb</language>") + cap("<type>m.B</type>", "<language>en-us</language>"), "", "", ty)), cap("<type>m.A</type><type>m.B</type>"), "", f, ty, true));
  const char* t[] = {"m.A", "m.B"}; for (int i = 0; i < 2; ++i) { CAS* c = e->newCAS(); c->setDocumentText(U("x")); c->getDocumentAnnotation().setLanguage("en"); ResultSpecification s; s.add(c->getTypeSystem().getType(t[i])); log_ = ""; WANT(e->process(*c, s) == 0); WANT(log_ == "p "); } }'''),
dict(id="s04-members-of-lower-view", property="S04", needs="a document that lists the view with the larger sofa id first, both views having members of unknown types", breaks="the unknown members of the one view are written as members of the other",
 edits=[("src/cas/uima/xmishareddata.hpp","ite = this->ootsViewMembers.find(sofaXmiId);\n    if (ite == ootsViewMembers.end() ) {\n      memberList = new","ite = this->ootsViewMembers.lower_bound(sofaXmiId);\n    if (ite == ootsViewMembers.end() ) {\n      memberList = new")],
 demo='''#include "uima/xmideserializer.hpp"
#include "uima/xmiwriter.hpp"
#include "uima/xmishareddata.hpp"
#include "xercesc/framework/MemBufInputSource.hpp"
#include <sstream>
static void body() { TypeSystem* ts = mkts(T("m.A", "uima.cas.TOP")); CAS* d = mkcas(*ts); XmiSerializationSharedData sh;
  std::string x = "<?xml version=\\"1.0\\" encoding=\\"UTF-8\\"?><xmi:XMI xmi:version=\\"2.0\\" xmlns:xmi=\\"http://www.omg.org/XMI\\" xmlns:cas=\\"http:///uima/cas.ecore\\" xmlns:m=\\"http:///m.ecore\\" xmlns:u=\\"http:///u.ecore\\"><cas:NULL xmi:id=\\"0\\"/><cas:Sofa xmi:id=\\"1\\" sofaNum=\\"2\\" sofaID=\\"a\\"/><cas:Sofa xmi:id=\\"2\\" sofaNum=\\"3\\" sofaID=\\"b\\"/><u:X xmi:id=\\"20\\"/><u:X xmi:id=\\"21\\"/><cas:View sofa=\\"2\\" members=\\"21\\"/><cas:View sofa=\\"1\\" members=\\"20\\"/></xmi:XMI>";
  xercesc::MemBufInputSource is((XMLByte const*)x.data(), x.size(), "sys"); XmiDeserializer::deserialize(is, *d, sh); std::ostringstream o; XmiWriter w(*d, false, &sh); w.write(o); std::string r = o.str();
  for (int v = 1; v <= 2; ++v) { size_t n = 0; std::string want(v == 1 ? "20" : "21"); for (size_t i = r.find("<cas:View"); i != std::string::npos; i = r.find("<cas:View", i + 1)) { std::string e = r.substr(i, r.find('>', i) - i); if (e.find(std::string("sofa=\\"") + char('0' + v)) != std::string::npos) { ++n; WANT(e.find("members=\\"" + want + "\\"") != std::string::npos); } } WANT(n == 1); } }'''),
dict(id="s05-dangling-list-head", property="S05", needs="an XMI document in which the head of a list node refers to an element that is not there, read strictly", breaks="the document is accepted instead of refused",
 edits=[("src/cas/xmideserializer_handler.cpp","""			  if (!lenient) {
			    throw e;
			  } else {
				  stringstream str;""","""			  if (!lenient && !ownsSharedData) {
			    throw e;
			  } else {
				  stringstream str;""")],
 demo='''#include "uima/xmideserializer.hpp"
#include "xercesc/framework/MemBufInputSource.hpp"
static void body() { TypeSystem* ts = mkts(T("m.A", "uima.cas.TOP", {{"f", "uima.cas.FSList"}})); CAS* d = mkcas(*ts); 
  std::string x = "<?xml version=\\"1.0\\" encoding=\\"UTF-8\\"?><xmi:XMI xmi:version=\\"2.0\\" xmlns:xmi=\\"http://www.omg.org/XMI\\" xmlns:cas=\\"http:///uima/cas.ecore\\" xmlns:m=\\"http:///m.ecore\\"><cas:NULL xmi:id=\\"0\\"/><m:A xmi:id=\\"3\\" f=\\"3 77\\"/><cas:View members=\\"3\\"/></xmi:XMI>";
  WANT(thrown([&] { xercesc::MemBufInputSource is((XMLByte const*)x.data(), x.size(), "sys"); XmiDeserializer::deserialize(is, *d); })); }'''),
dict(id="u01-search-skips-after-first-char", property="U01", needs="a search in which the first character of the pattern occurs twice in a row before the match", breaks="the match is not found",
 edits=[("src/framework/unistrref.cpp","""        return start;
      }
    } while (++start < limit);

    return -1;
  }

  int32_t UnicodeStringRef::lastIndexOf(UChar const *srcChars,""","""        return start;
      }
      if (srcLength != 0 && array[start] == ch) {
        ++start;
      }
    } while (++start < limit);

    return -1;
  }

  int32_t UnicodeStringRef::lastIndexOf(UChar const *srcChars,""")],
 demo='''static void body() { icu::UnicodeString t("xaaby"), p("ab"); UnicodeStringRef r(t); WANT(r.indexOf(UnicodeStringRef(p)) == 2); }'''),
dict(id="u02-overlong-names", property="U02", needs="a name longer than a language code whose first characters are one, given as a string reference", breaks="the name is taken as a valid language",
 edits=[("src/framework/language.cpp","size_t const MAX_LEN = 32;","size_t const MAX_LEN = 6;")],
 demo='''static void body() { icu::UnicodeString a("en-usa"), b("en-us"); WANT(Language(UnicodeStringRef(b)).isValid()); WANT(!Language(UnicodeStringRef(a)).isValid()); }'''),
dict(id="c09-index-survives-reset", property="C09", needs="a view whose data is a URI (no text) with indexed structures, then a reset", breaks="the view's index still has its members after the reset",
 edits=[("src/cas/cas.cpp","        tcas->iv_uiDocumentLength = 0;\n        tcas->iv_indexRepository->reset();","        if (tcas->iv_uiDocumentLength != 0 || mIter->first == 1)\n          tcas->iv_indexRepository->reset();\n        tcas->iv_uiDocumentLength = 0;")],
 demo='''static void body() { TypeSystem* ts = mkts(T("m.A", "uima.tcas.Annotation")); CAS* c = mkcas(*ts); CAS* b = c->getBaseCas(); CAS* v = b->createView(U("v")); v->setSofaDataURI(U("x:y"), U("m")); AnnotationFS a = v->createAnnotation(ts->getType("m.A"), 0, 0); v->getIndexRepository().addFS(a); WANT(v->getAnnotationIndex(ts->getType("m.A")).getSize() == 1); b->reset(); v = b->createView(U("v")); WANT(v->getAnnotationIndex(ts->getType("m.A")).getSize() == 0); }'''),
dict(id="c10-long-elements-not-swapped", property="C10", needs="reading elements of eight bytes from a remote stream", breaks="the elements are not converted and the count is wrong",
 edits=[("src/cas/sofastream.cpp","if ( elementSize==2 || elementSize==4 || elementSize == 8) {","if ( elementSize > 1 && elementSize < 8 ) {")],
 files={"ann1.cpp": r'''
#include <uima/api.hpp>
#include <uima/sofastreamhandler.hpp>
#include <cstring>
using namespace uima;
class M : public SofaStreamHandler { INT64 pos; public: M() : pos(0) {} void openStream(const char*) { pos = 0; } void openStream(const char*, size_t) { pos = 0; } INT64 getTotalStreamSize() { return 16; } size_t getBufferSize() { return 1; } INT64 howManyAvailable() { return 16 - pos; }
  INT64 getNext(size_t n, void* p) { if (pos == 16) return -1; if ((INT64)n > 16 - pos) n = 16 - pos; for (size_t i = 0; i < n; ++i) ((char*)p)[i] = (char)(pos + i + 1); pos += n; return n; } int seek(INT64, int) { return -1; } void closeStream() {} void* getDataPointer() { return 0; } };
MAKE_HANDLER(M)
'''},
 demo='''#include <unistd.h>
static int x = [] { char b[4096]; std::string m = std::string("dm:") + getcwd(b, sizeof b) + "/libann1.so"; return setenv("UIMACPP_STREAMHANDLERS", m.c_str(), 1); }();
static void body() { TypeSystem* ts = mkts(T("m.A", "uima.cas.TOP")); CAS* c = mkcas(*ts); CAS* v = c->createView("v"); v->setSofaDataURI(U("dm:x"), U("bin")); SofaDataStream* s = v->getSofaDataStream(); s->open(); INT64 d[2] = {0, 0}; WANT(s->read(d, 8, 2) == 2); WANT(d[0] == 0x0102030405060708LL); WANT(d[1] == 0x090a0b0c0d0e0f10LL); }'''),
dict(id="d01-element-type-dropped", property="D01", needs="a feature that declares an element type but not that it may be referenced more than once", breaks="the element type is lost when the description is written",
 edits=[("src/framework/taespecifier.cpp","if (0 < fs->getElementType().length() ) {","if (0 < fs->getElementType().length() && fs->isMultipleReferencesAllowed() ) {")],
 demo='''#include "xercesc/framework/MemBufInputSource.hpp"
static void body() { std::string ty = "<typeDescription><name>m.A</name><description/><supertypeName>uima.cas.TOP</supertypeName><features><featureDescription><name>f</name><description/><rangeTypeName>uima.cas.FSArray</rangeTypeName><elementType>m.A</elementType></featureDescription></features></typeDescription>";
  std::string x = aex(ty, ""); AnalysisEngineDescription d, e; XMLParser p; xercesc::MemBufInputSource is((XMLByte const*)x.data(), x.size(), "sys"); p.parseAnalysisEngineDescription(d, is); icu::UnicodeString o; d.toXMLBuffer(o); std::string y = S(o);
  XMLParser q; xercesc::MemBufInputSource is2((XMLByte const*)y.data(), y.size(), "sys2"); q.parseAnalysisEngineDescription(e, is2); auto& v = e.getAnalysisEngineMetaData()->getTypeSystemDescription()->getTypeDescriptions(); WANT(v.size() == 1); WANT(S(v[0]->getFeatureDescriptions()[0]->getElementType()) == "m.A"); }'''),
dict(id="e01-failed-reconfigure-forgotten", property="E01", needs="an aggregate in which an earlier delegate fails to reconfigure and a later one succeeds", breaks="the error is not reported",
 edits=[("src/framework/annotator_mgr.cpp","""        utErrorId = pEngine->reconfigure();
        if (utErrorId != UIMA_ERR_NONE) {
          clTrace.dump(_TEXT("Error"), (long) utErrorId);
          utRetVal = utErrorId;                        /* I know, this overwrites a previous error */
        }""","""        utErrorId = pEngine->reconfigure();
        if (utErrorId != UIMA_ERR_NONE) {
          clTrace.dump(_TEXT("Error"), (long) utErrorId);
        }
        utRetVal = utErrorId;                        /* I know, this overwrites a previous error */""")],
 files={"ann1.cpp": ANN},
 demo=AG+'''extern "C" void demoCall(const char* w, AnnotatorContext& c, CAS*, TyErrorId* rc) { if (S(c.getTaeSpecifier().getAnalysisEngineMetaData()->getName()) == "p" && std::string(w) == "reconfigure") *rc = (TyErrorId)1234; }
static void body() { std::string f = "<fixedFlow><node>a</node><node>b</node></fixedFlow>"; AnalysisEngine* e = MK(AE("agg", DEL("a", AE("p", "", cap(""), "", "", "")) + DEL("b", AE("q", "", cap(""), "", "", "")), cap(""), "", f, "", true));
  WANT(e->reconfigure() == 1234); }'''),
]
