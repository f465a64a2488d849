// Native implementation of the symbolic API: replays one counterexample against the real build.
// Input file ($PSX_INPUT): one line per sym_make call, "name hexbytes".
#include "psx.h"
#include <cstdio>
#include <cstdlib>
#include <vector>
#include <string>
#include <fstream>
#include <exception>
static std::vector<std::pair<std::string, std::string> > in_; static size_t pos_; static bool loaded_;
static void load_() {
  loaded_ = true; const char* f = getenv("PSX_INPUT"); if (!f) return; std::ifstream is(f); std::string n, h, line;
  while (std::getline(is, line)) { if (!line.empty() && line[0] == '#') continue; size_t p = line.rfind(' '); if (p == std::string::npos) continue; in_.push_back(std::make_pair(line.substr(0, p), line.substr(p + 1))); }
}
extern "C" {
void sym_make(void* p, size_t n, const char* name) {
  if (!loaded_) load_();
  if (pos_ >= in_.size()) { if (!getenv("PSX_ZERO")) { fprintf(stderr, "PSX-DIVERGED: no input for %s\n", name); _Exit(0); } memset(p, 0, n); return; }
  const std::string& h = in_[pos_].second;
  if (in_[pos_].first != name || h.size() != 2 * n) { fprintf(stderr, "PSX-DIVERGED: expected %s[%zu], have %s[%zu]\n", name, n, in_[pos_].first.c_str(), h.size() / 2); _Exit(0); }
  for (size_t i = 0; i < n; i++) ((unsigned char*)p)[i] = (unsigned char)strtol(h.substr(2 * i, 2).c_str(), 0, 16);
  if (getenv("PSX_VERBOSE")) fprintf(stderr, "  %s = %s\n", name, h.c_str());
  pos_++;
}
void sym_assume_(int c) { if (!c) { fprintf(stderr, "PSX-ASSUME-FAILED\n"); _Exit(0); } }
void sym_assert_(int c, const char* msg) { if (!c) { fprintf(stderr, "PSX-ASSERT-FAILED: %s\n", msg); fflush(stderr); _Exit(77); } }
void sym_reach(const char* id) { if (getenv("PSX_VERBOSE")) fprintf(stderr, "  reach %s\n", id); }
uint64_t sym_concretize(uint64_t v) { return v; }
int sym_eqmem(const void* a, const void* b, size_t n) { return memcmp(a, b, n) == 0; }
uint64_t sym_ite(int c, uint64_t a, uint64_t b) { return c ? a : b; }
void sym_print(const char* n, uint64_t v) { fprintf(stderr, "  %s = 0x%llx\n", n, (unsigned long long)v); }
void sym_done(void) { fprintf(stderr, "PSX-DONE\n"); _Exit(0); }
void sym_bound(const char*) { _Exit(0); }
int sym_engine(void) { return 0; }
int sym_forkptr(int) { return 0; }
}
#include <dlfcn.h>
// usage: <exe> entry     (inputs from $PSX_INPUT)
int main(int argc, char** argv) {
  void (*entry)() = argc > 1 ? (void (*)())dlsym(RTLD_DEFAULT, argv[1]) : 0;
  if (!entry) { fprintf(stderr, "PSX-NOENTRY\n"); return 0; }
  try { entry(); }
  catch (const std::exception& e) { fprintf(stderr, "PSX-UNCAUGHT: %s\n", e.what()); return 78; }
  catch (...) { fprintf(stderr, "PSX-UNCAUGHT\n"); return 78; }
  fprintf(stderr, "PSX-COMPLETED\n"); return 0;
}
