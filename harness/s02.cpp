// S02: XCAS
#include "ser.hpp"
#include "uima/xmlwriter.hpp"
#include "uima/xcasdeserializer.hpp"
#include "xercesc/sax2/SAX2XMLReader.hpp"
#include "xercesc/sax2/XMLReaderFactory.hpp"
#include "xercesc/sax2/DefaultHandler.hpp"
#include "xercesc/sax/SAXParseException.hpp"
#include "xercesc/util/XMLUniDefs.hpp"
#include <sys/stat.h>
#include <fstream>
using namespace ser; namespace xe = XERCES_CPP_NAMESPACE;
void mc_init() { ser::init(); }
struct Strict : xe::DefaultHandler { std::string err; void error(const xe::SAXParseException& e) { note(e); } void fatalError(const xe::SAXParseException& e) { note(e); } void note(const xe::SAXParseException& e) { char* m = xe::XMLString::transcode(e.getMessage()); if (err.empty()) err = mc::fmt("line %d column %d: %s", (int)e.getLineNumber(), (int)e.getColumnNumber(), m); xe::XMLString::release(&m); } };
static xe::SAX2XMLReader* RD; static Strict ST;
static void wellFormed(const std::string& x) {
  if (!RD) { RD = xe::XMLReaderFactory::createXMLReader(); RD->setContentHandler(&ST); RD->setErrorHandler(&ST); RD->setFeature(xe::XMLUni::fgSAX2CoreNameSpaces, true); }
  ST.err.clear(); xe::MemBufInputSource in((const XMLByte*)x.data(), x.size(), "mem"); RD->parse(in); MC_CHECK(ST.err.empty(), "the document is not well-formed: %s\n%s", ST.err.c_str(), x.substr(0, 3000).c_str()); }
static std::string write(CAS* c, bool addDoc) { std::ostringstream o; XCASWriter w(*c, addDoc); w.write(o); return o.str(); }
static void read(const std::string& x, CAS* c, int how, bool ctx) {
  xe::MemBufInputSource in((const XMLByte*)x.data(), x.size(), "mem");
  if (how == 0) { mc::cover("memory"); if (ctx) XCASDeserializer::deserialize(in, *c, nullptr); else XCASDeserializer::deserialize(in, *c); return; }
  std::string d = mc::fmt("%s/%d", mc::X().scratch.c_str(), (int)getpid()); mkdir(d.c_str(), 0755); std::string f = d;
  if (how == 3) { mc::cover("long name"); for (int i = 0; i < 6; ++i) { f += "/" + std::string(200, 'a' + i); mkdir(f.c_str(), 0755); } }
  f += how == 4 ? "/\xC3\xA9t\xC3\xA9 \xE6\x97\xA5.xcas" : "/in.xcas";
  { std::ofstream o(f); o << x; }
  mc::step("file %d", how); icu::UnicodeString u = U(f); mc::cover("file");
  if (how == 1) { if (ctx) XCASDeserializer::deserialize(f.c_str(), *c, nullptr); else XCASDeserializer::deserialize(f.c_str(), *c); }
  else { mc::cover("unicode file name"); XCASDeserializer::deserialize(u, *c); }
}
void mc_body() {
  Claims cl; Opt o; o.nullStr = false;
  int sc = mc::choose(NSCEN), tgt, how = 0, via = 0, cp = 0; bool ctx, addDoc;
  bool all = mc::thorough() || sc == 9;
  if (all) { tgt = mc::choose(2); ctx = mc::flip(); addDoc = mc::flip(); via = mc::choose(3); } else { int m = sc == 4 ? 0 : sc == 5 ? 1 : mc::choose(2); tgt = m; ctx = m; addDoc = !m; via = m ? 2 : 0; }
  if (sc == 9) how = mc::choose(5); if (sc == 1 || sc == 9) cp = mc::choose(3);
  static const char* CP[] = {"UTF-8", "ISO-8859-1", "US-ASCII"}; ucnv_setDefaultName(CP[cp]); struct R { ~R() { ucnv_setDefaultName("UTF-8"); } } restore; if (cp) mc::cover("code page");
  CAS* src = populate(sc, cl); CasHolder hs(src); std::string want = dump(src, o); mc::state(want); mc::outcome(want);
  CAS* dst = W->cas(); CasHolder hd(dst); if (tgt) { dirty(dst); dst->getBaseCas()->reset(); mc::cover("used target"); } int save = NEXT;
  CAS* s = via == 1 ? src->getBaseCas() : via == 2 ? src->getBaseCas()->getView(U("_InitialView")) : src; CAS* d = via == 1 ? dst->getBaseCas() : dst;
  mc::step("scenario %s target %d ctx %d via %d code page %s", SCEN[sc], tgt, ctx, via, CP[cp]);
  std::string x = write(s, addDoc); wellFormed(x);
  read(x, d, how, ctx); same(want, dump(dst, o), "read back"); same(want, dump(src, o), "source after writing");
  std::string x2 = write(d, !addDoc); wellFormed(x2);
  { CAS* t = W->cas(); CasHolder ht(t); read(x2, t, 0, false); same(want, dump(t, o), "written again and read back"); }
  NEXT = save; usable(dst, o); same(want, dump(src, o), "source after using the copy");
}
int main(int c, char** v) { return mc::run(c, v); }
