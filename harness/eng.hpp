// engines over an annotator whose callbacks are decided by the harness
#ifndef ENG_HPP
#define ENG_HPP
#include "uima/api.hpp"
struct RecHook {
  virtual ~RecHook() {}
  // a: the instance (serial number from 1); returns the callback's result, or throws
  virtual bool make() = 0;
  virtual void made(int serial) = 0;
  virtual void gone(int serial) = 0;
  virtual int call(int serial, const std::string& name, const char* cb, uima::AnnotatorContext* ctx, uima::CAS* cas, const uima::ResultSpecification* rs, const uima::TypeSystem* ts) = 0;
  virtual uima::CAS* next(int serial, const std::string& name, uima::AnnotatorContext* ctx) = 0;
};
extern "C" RecHook* recHook;
#endif
