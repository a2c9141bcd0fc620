// a type system, index definitions and type priorities given as an XML component descriptor
#ifndef IX_HPP
#define IX_HPP
#include "uh.hpp"
#include "uima/taespecifierbuilder.hpp"
#include "uima/lowlevel_indexrepository.hpp"
#include "uima/lowlevel_index.hpp"
#include "uima/lowlevel_indexiterator.hpp"
#include "uima/internal_fspromoter.hpp"
#include "xercesc/framework/MemBufInputSource.hpp"
struct IxKey { std::string feat; bool rev; };          // feat "" = type priority
struct IxDef { std::string label, type, kind; std::vector<IxKey> keys; };
inline std::string aeXML(const std::string& types, const std::vector<IxDef>& ix, const std::vector<std::vector<std::string>>& prios) {
  std::string s = "<?xml version=\"1.0\" encoding=\"UTF-8\"?><analysisEngineDescription xmlns=\"http://uima.apache.org/resourceSpecifier\">"
    "<frameworkImplementation>org.apache.uima.cpp</frameworkImplementation><primitive>true</primitive><annotatorImplementationName>none</annotatorImplementationName>"
    "<analysisEngineMetaData><name>t</name><description/><version>1</version><vendor/><configurationParameters/><configurationParameterSettings/>"
    "<typeSystemDescription><types>" + types + "</types></typeSystemDescription><typePriorities>";
  for (auto& p : prios) { s += "<priorityList>"; for (auto& t : p) s += "<type>" + t + "</type>"; s += "</priorityList>"; }
  s += "</typePriorities><fsIndexCollection><fsIndexes>";
  for (auto& d : ix) {
    s += "<fsIndexDescription><label>" + d.label + "</label><typeName>" + d.type + "</typeName><kind>" + d.kind + "</kind><keys>";
    for (auto& k : d.keys) s += k.feat.empty() ? std::string("<fsIndexKey><typePriority/></fsIndexKey>") : "<fsIndexKey><featureName>" + k.feat + "</featureName><comparator>" + (k.rev ? "reverse" : "standard") + "</comparator></fsIndexKey>";
    s += "</keys></fsIndexDescription>";
  }
  return s + "</fsIndexes></fsIndexCollection><capabilities/></analysisEngineMetaData></analysisEngineDescription>";
}
struct IxWorld {
  AnalysisEngineDescription* d = nullptr; TypeSystem* ts = nullptr;
  IxWorld(const std::string& types, const std::vector<IxDef>& ix, const std::vector<std::vector<std::string>>& prios = {}) {
    std::string x = aeXML(types, ix, prios);
    d = new AnalysisEngineDescription(); XMLParser p; xercesc::MemBufInputSource is((XMLByte const*)x.data(), x.size(), "sys");
    p.parseAnalysisEngineDescription(*d, is); d->commit();
    ErrorInfo e; ts = Framework::createTypeSystem(*d->getAnalysisEngineMetaData(), e);
    if (!ts) mc::fail("type system refused: %s", e.getMessage().asString().c_str());
  }
  ~IxWorld() { delete ts; delete d; }
  CAS* cas() { ErrorInfo e; CAS* c = Framework::createCAS(*ts, *d->getAnalysisEngineMetaData(), e); MC_CHECK(c, "createCAS failed"); return c; }
};
inline lowlevel::IndexRepository& lowIR(CAS* c) { return dynamic_cast<lowlevel::IndexRepository&>(c->getIndexRepository()); }
inline lowlevel::TyFS addr(FeatureStructure const& f) { return uima::internal::FSPromoter::demoteFS(f); }
struct CasHolder { CAS* c; CasHolder(CAS* x) : c(x) {} ~CasHolder() { delete c->getBaseCas(); } CAS* operator->() { return c; } };
#endif
