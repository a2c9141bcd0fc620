// an annotator that hands every callback to the harness
#include <string>
#include "eng.hpp"
using namespace uima;
class Rec : public Annotator {
  int serial; std::string name; AnnotatorContext* ctx;
  int on(const char* cb, CAS* c = 0, const ResultSpecification* r = 0, const TypeSystem* t = 0) { return recHook->call(serial, name, cb, ctx, c, r, t); }
public:
  static int last;
  Rec() : serial(++last), ctx(0) { recHook->made(serial); }
  ~Rec() { recHook->gone(serial); }
  TyErrorId initialize(AnnotatorContext& c) { ctx = &c; c.getTaeSpecifier().getAnalysisEngineMetaData()->getName().toUTF8String(name); return on("initialize"); }
  TyErrorId typeSystemInit(TypeSystem const& t) { return on("typeSystemInit", 0, 0, &t); }
  TyErrorId destroy() { return on("destroy"); }
  TyErrorId reconfigure() { return on("reconfigure"); }
  TyErrorId process(CAS& c, ResultSpecification const& r) { return on("process", &c, &r); }
  TyErrorId batchProcessComplete() { return on("batchProcessComplete"); }
  TyErrorId collectionProcessComplete() { return on("collectionProcessComplete"); }
  bool hasNext() { return on("hasNext") != 0; }
  CAS& next() { return *recHook->next(serial, name, ctx); }
  int getCasInstancesRequired() { return on("getCasInstancesRequired"); }
};
int Rec::last = 0;
extern "C" Annotator* makeAE() { return recHook->make() ? new Rec : 0; }
