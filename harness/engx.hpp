// descriptors of engines and engines made from them, for the harnesses
#ifndef ENGX_HPP
#define ENGX_HPP
#include "uh.hpp"
#include "eng.hpp"
#include <unistd.h>
#include "xercesc/framework/MemBufInputSource.hpp"
RecHook* recHook = nullptr;
inline std::string exeDir() { char b[4096]; ssize_t n = readlink("/proc/self/exe", b, sizeof b); std::string s(b, n); return s.substr(0, s.rfind('/')); }
struct Cap { std::vector<std::string> outTypes, outFeats, langs, inSofas, outSofas, inTypes, inFeats; };
inline std::string langsXML(const std::vector<std::string>& v) { std::string s; for (auto& l : v) s += "<language>" + l + "</language>"; return s; }
inline std::string capXML(const std::vector<Cap>& caps) {
  std::string s;
  for (auto& c : caps) {
    s += "<capability><inputs>"; for (auto& t : c.inTypes) s += "<type>" + t + "</type>"; for (auto& f : c.inFeats) s += "<feature>" + f + "</feature>";
    s += "</inputs><outputs>"; for (auto& t : c.outTypes) s += "<type>" + t + "</type>"; for (auto& f : c.outFeats) s += "<feature>" + f + "</feature>"; s += "</outputs>";
    if (!c.inSofas.empty()) { s += "<inputSofas>"; for (auto& n : c.inSofas) s += "<sofaName>" + n + "</sofaName>"; s += "</inputSofas>"; }
    if (!c.outSofas.empty()) { s += "<outputSofas>"; for (auto& n : c.outSofas) s += "<sofaName>" + n + "</sofaName>"; s += "</outputSofas>"; }
    s += "<languagesSupported>" + langsXML(c.langs) + "</languagesSupported></capability>";
  }
  return "<capabilities>" + s + "</capabilities>";
}
struct ED {
  std::string name; std::string types; std::string params, settings; std::vector<Cap> caps = {Cap()}; std::string flowXML; std::vector<std::pair<std::string, ED>> delegates; std::vector<std::string> flow; bool capFlow = false; std::string mappings; std::string impl; bool multiple = false;
};
// the element only
inline std::string edXML(const ED& d, bool ns = false) {
  bool agg = !d.delegates.empty();
  std::string s = std::string("<analysisEngineDescription") + (ns ? " xmlns=\"http://uima.apache.org/resourceSpecifier\"" : "") + "><frameworkImplementation>org.apache.uima.cpp</frameworkImplementation><primitive>" + (agg ? "false" : "true") + "</primitive>";
  if (!agg) s += "<annotatorImplementationName>" + (d.impl.empty() ? exeDir() + "/librec.so" : d.impl) + "</annotatorImplementationName>";
  else { s += "<delegateAnalysisEngineSpecifiers>"; for (auto& p : d.delegates) s += "<delegateAnalysisEngine key=\"" + p.first + "\">" + edXML(p.second) + "</delegateAnalysisEngine>"; s += "</delegateAnalysisEngineSpecifiers>"; }
  s += "<analysisEngineMetaData><name>" + d.name + "</name><description/><version>1</version><vendor/>" + (d.params.empty() ? "<configurationParameters/>" : d.params) + (d.settings.empty() ? "<configurationParameterSettings/>" : d.settings);
  if (agg || !d.flow.empty()) { std::string f = d.capFlow ? "capabilityLanguageFlow" : "fixedFlow"; s += "<flowConstraints><" + f + ">"; for (auto& n : d.flow) s += "<node>" + n + "</node>"; s += "</" + f + "></flowConstraints>"; }
  s += "<typeSystemDescription><types>" + d.types + "</types></typeSystemDescription>" + capXML(d.caps) + "</analysisEngineMetaData>" + (d.mappings.empty() ? "" : "<sofaMappings>" + d.mappings + "</sofaMappings>") + "</analysisEngineDescription>";
  return s;
}
struct Eng {
  std::unique_ptr<AnalysisEngineDescription> desc; AnalysisEngine* e = nullptr; ErrorInfo err;
  explicit Eng(const ED& d) {
    std::string x = "<?xml version=\"1.0\" encoding=\"UTF-8\"?>" + edXML(d, true); desc.reset(new AnalysisEngineDescription());
    XMLParser p; xercesc::MemBufInputSource is((XMLByte const*)x.data(), x.size(), "sys"); p.parseAnalysisEngineDescription(*desc, is); desc->validate(); desc->commit();
  }
  void create() { e = Framework::createAnalysisEngine(*desc, err); }
  void drop() { delete e; e = nullptr; }
  ~Eng() { delete e; }
};
#endif
