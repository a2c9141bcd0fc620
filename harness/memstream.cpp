// a stream handler of the scheme "mem": the bytes are the hex digits of the URI
#include <uima/api.hpp>
#include <uima/sofastreamhandler.hpp>
#include <string>
#include <cstring>
#include <cstdio>
using namespace uima;
class MemStream : public SofaStreamHandler {
  std::string d; INT64 pos; size_t buf; bool isOpen;
public:
  MemStream() : pos(0), buf(0), isOpen(false) {}
  void openStream(const char* u) { openStream(u, 77); }
  void openStream(const char* u, size_t m) { d.clear(); pos = 0; buf = m; isOpen = true; const char* p = strchr(u, ':') + 1; unsigned x; while (sscanf(p, "%2x", &x) == 1) { d += (char)x; p += 2; } }
  INT64 getTotalStreamSize() { return d.size(); }
  size_t getBufferSize() { return buf; }
  INT64 howManyAvailable() { return (INT64)d.size() - pos; }
  INT64 getNext(size_t n, void* p) { if (!isOpen) return -5; if (pos == (INT64)d.size()) return -1; if ((INT64)n > (INT64)d.size() - pos) n = d.size() - pos; memcpy(p, d.data() + pos, n); pos += n; return n; }
  int seek(INT64 o, int w) { INT64 q = w == SEEK_SET ? o : w == SEEK_CUR ? pos + o : w == SEEK_END ? (INT64)d.size() + o : -1; if (q < 0 || q > (INT64)d.size()) return -1; pos = q; return 0; }
  void closeStream() { d.clear(); pos = 0; isOpen = false; }
  void* getDataPointer() { return d.size() ? &d[0] : nullptr; }
};
MAKE_HANDLER(MemStream)
