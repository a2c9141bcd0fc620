// shared helpers for harnesses over the uimacpp public API
#ifndef UH_HPP
#define UH_HPP
#include "mc.hpp"
#include "uima/api.hpp"
#include <memory>
#include <sstream>
using namespace uima;

inline std::string toS(const icu::UnicodeString& u) { std::string s; u.toUTF8String(s); return s; }
inline std::string toS(const UnicodeStringRef& r) { icu::UnicodeString u(r.getBuffer(), r.length()); return toS(u); }
inline icu::UnicodeString U(const char* c) { return icu::UnicodeString::fromUTF8(c); }
inline icu::UnicodeString U(const std::string& c) { return icu::UnicodeString::fromUTF8(c); }

std::string mc_exception_text() {
  try { throw; }
  catch (uima::Exception& e) { std::ostringstream o; o << typeid(e).name() << " " << e.getErrorInfo().getErrorId() << " " << e.getErrorInfo().getMessage().asString(); return o.str(); }
  catch (uima::ErrorInfo& e) { std::ostringstream o; o << "ErrorInfo " << e.getErrorId(); return o.str(); }
  catch (std::exception& e) { return std::string(typeid(e).name()) + " " + e.what(); }
  catch (...) { return "unknown"; }
}

inline void uhInit() { ResourceManager::createInstance("VERIF"); }

// a library call expected to throw a uima exception
template<class F> inline bool throwsUima(F f) {
  try { f(); return false; }
  catch (uima::Exception&) { return true; }
}

inline TypeSystem* makeTS(const std::string& xml) {
  ErrorInfo e; TypeSystem* ts = Framework::createTypeSystemFromXMLBuffer(xml.c_str(), e);
  if (!ts) { fprintf(stderr, "harness: cannot create type system: %s\n", e.getMessage().asString().c_str()); mc::fail("valid type system rejected: %s", e.getMessage().asString().c_str()); }
  return ts;
}

inline std::string typeXML(const std::string& name, const std::string& super,
                           const std::vector<std::pair<std::string, std::string>>& feats = {}) {
  std::string s = "<typeDescription><name>" + name + "</name><description/><supertypeName>" + super + "</supertypeName>";
  if (!feats.empty()) {
    s += "<features>";
    for (auto& f : feats) s += "<featureDescription><name>" + f.first + "</name><description/><rangeTypeName>" + f.second + "</rangeTypeName></featureDescription>";
    s += "</features>";
  }
  return s + "</typeDescription>";
}
inline std::string enumXML(const std::string& name, const std::vector<std::string>& vals) {
  std::string s = "<typeDescription><name>" + name + "</name><description/><supertypeName>uima.cas.String</supertypeName><allowedValues>";
  for (auto& v : vals) s += "<value><string>" + v + "</string><description/></value>";
  return s + "</allowedValues></typeDescription>";
}
inline std::string tsXML(const std::string& types) {
  return "<?xml version=\"1.0\" encoding=\"UTF-8\"?><typeSystemDescription xmlns=\"http://uima.apache.org/resourceSpecifier\"><name>t</name><types>" + types + "</types></typeSystemDescription>";
}
#endif
