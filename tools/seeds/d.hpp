// small helpers for the demonstrations
#include "uima/api.hpp"
#include "uima/taespecifierbuilder.hpp"
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <iostream>
#include <memory>
#include <sstream>
#include <string>
#include <vector>
using namespace uima;
static std::string S(const icu::UnicodeString& u) { std::string s; u.toUTF8String(s); return s; }
static std::string S(const UnicodeStringRef& r) { return S(icu::UnicodeString(r.getBuffer(), r.length())); }
static icu::UnicodeString U(const std::string& s) { return icu::UnicodeString::fromUTF8(s); }
static std::string T(const std::string& name, const std::string& super, std::vector<std::pair<std::string, std::string>> f = {}) {
  std::string s = "<typeDescription><name>" + name + "</name><description/><supertypeName>" + super + "</supertypeName><features>";
  for (auto& x : f) s += "<featureDescription><name>" + x.first + "</name><description/><rangeTypeName>" + x.second + "</rangeTypeName></featureDescription>";
  return s + "</features></typeDescription>";
}
static std::string tsx(const std::string& types) { return "<?xml version=\"1.0\" encoding=\"UTF-8\"?><typeSystemDescription xmlns=\"http://uima.apache.org/resourceSpecifier\"><name>t</name><types>" + types + "</types></typeSystemDescription>"; }
static TypeSystem* mkts(const std::string& types) { ErrorInfo e; std::string x = tsx(types); TypeSystem* t = Framework::createTypeSystemFromXMLBuffer(x.c_str(), e); if (!t) { printf("no type system\n"); exit(2); } return t; }
static CAS* mkcas(TypeSystem& t) { ErrorInfo e; CAS* c = Framework::createCAS(t, e); if (!c) { printf("no CAS\n"); exit(2); } return c; }
#define WANT(c) do { if (!(c)) { printf("FAILED line %d: %s\n", __LINE__, #c); exit(1); } } while (0)
template<class F> static bool thrown(F f) { try { f(); return false; } catch (uima::Exception&) { return true; } }
static void body();
int main() { ResourceManager::createInstance("DEMO"); try { body(); } catch (uima::Exception& e) { std::cout << "exception: "; e.getErrorInfo().getMessage().asString(); std::cout << e.getErrorInfo().getMessage().asString() << std::endl; return 3; } catch (std::exception& e) { printf("exception %s\n", e.what()); return 3; } printf("ok\n"); return 0; }
struct K { std::string feat; bool rev; };   // feat "" = type priority
static std::string ixd(const std::string& label, const std::string& type, const std::string& kind, std::vector<K> ks) {
  std::string s = "<fsIndexDescription><label>" + label + "</label><typeName>" + type + "</typeName><kind>" + kind + "</kind><keys>";
  for (auto& k : ks) s += k.feat.empty() ? std::string("<fsIndexKey><typePriority/></fsIndexKey>") : "<fsIndexKey><featureName>" + k.feat + "</featureName><comparator>" + (k.rev ? "reverse" : "standard") + "</comparator></fsIndexKey>";
  return s + "</keys></fsIndexDescription>";
}
// primitive engine description with a type system, index definitions and priority lists
static std::string aex(const std::string& types, const std::string& ix, const std::string& prios = "", const std::string& ann = "none", const std::string& params = "<configurationParameters/>", const std::string& settings = "<configurationParameterSettings/>") {
  return "<?xml version=\"1.0\" encoding=\"UTF-8\"?><analysisEngineDescription xmlns=\"http://uima.apache.org/resourceSpecifier\"><frameworkImplementation>org.apache.uima.cpp</frameworkImplementation><primitive>true</primitive><annotatorImplementationName>" + ann +
   "</annotatorImplementationName><analysisEngineMetaData><name>t</name><description/><version>1</version><vendor/>" + params + settings + "<typeSystemDescription><types>" + types + "</types></typeSystemDescription><typePriorities>" + prios +
   "</typePriorities><fsIndexCollection><fsIndexes>" + ix + "</fsIndexes></fsIndexCollection><capabilities/></analysisEngineMetaData></analysisEngineDescription>";
}
#include "xercesc/framework/MemBufInputSource.hpp"
static CAS* mkixcas(const std::string& types, const std::string& ix, const std::string& prios = "", TypeSystem** out = 0) {
  std::string x = aex(types, ix, prios); AnalysisEngineDescription* d = new AnalysisEngineDescription(); XMLParser p; xercesc::MemBufInputSource is((XMLByte const*)x.data(), x.size(), "sys");
  p.parseAnalysisEngineDescription(*d, is); d->commit(); ErrorInfo e; TypeSystem* ts = Framework::createTypeSystem(*d->getAnalysisEngineMetaData(), e); if (!ts) { printf("no type system\n"); exit(2); } if (out) *out = ts;
  CAS* c = Framework::createCAS(*ts, *d->getAnalysisEngineMetaData(), e); if (!c) { printf("no CAS\n"); exit(2); } return c;
}
