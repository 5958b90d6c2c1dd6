// Native side of the harness intrinsics: runs a harness of the real code on concrete inputs and prints what it did.
// usage: prog CASES OUT      CASES: text, one case per block; OUT: one block per case
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <new>
#include <map>
#include <string>
#include <vector>
#include <exception>
#include <stdexcept>
#include <dlfcn.h>
#if defined(__has_feature)
#if __has_feature(memory_sanitizer)
#include <sanitizer/msan_interface.h>
#define MSAN 1
#endif
#endif

using bytes = std::vector<unsigned char>;
static std::size_t g_max_alloc;
static bool g_track;

void* operator new(std::size_t n) {
  if(g_track && n > g_max_alloc) g_max_alloc = n;
  if(n > (std::size_t(1) << 28)) throw std::bad_alloc();
  void* p = std::malloc(n ? n : 1);
  if(!p) throw std::bad_alloc();
  if(!g_track) return p;
#ifndef MSAN
  std::memset(p, 0xA7, n);
#endif
  return p;
}
void operator delete(void* p) noexcept { std::free(p); }
void operator delete(void* p, std::size_t) noexcept { std::free(p); }

struct assume_failed {};
namespace {
bytes in, out;
unsigned long inlen, pos, cap;
bool in_ok, out_ok;
unsigned long in_after, out_after;
std::map<unsigned, unsigned long> syms;
std::map<unsigned, bytes> hvs;
FILE* fo;

void hex(const unsigned char* p, std::size_t n) {
  for(std::size_t i = 0; i < n; ++i) std::fprintf(fo, "%02x", p[i]);
}
}
struct untrack { bool old = g_track; untrack() { g_track = false; } ~untrack() { g_track = old; } };

extern "C" {
bool __vf_read(char* d, unsigned long n) {
  if(!in_ok) { in_after = 1; return false; }
  if(n > inlen - pos) { in_ok = false; return false; }
  for(unsigned long i = 0; i < n; ++i) d[i] = pos + i < in.size() ? (char)in[pos + i] : 0;
  pos += n;
  return true;
}
bool __vf_write(const char* s, unsigned long n) {
  untrack u;
  if(!out_ok) { out_after = 1; return false; }
  if(n > cap - out.size()) { out_ok = false; return false; }
#ifdef MSAN
  __msan_check_mem_is_initialized(s, n);
#endif
  out.insert(out.end(), s, s + n);
  return true;
}
unsigned long __vf_sym(unsigned tag, unsigned bits) {
  auto it = syms.find(tag);
  unsigned long v = it == syms.end() ? 0 : it->second;
  return bits < 64 ? v & ((1ul << bits) - 1) : v;
}
void __vf_havoc(void* p, unsigned long n, unsigned tag) {
  auto it = hvs.find(tag);
  for(unsigned long i = 0; i < n; ++i) ((unsigned char*)p)[i] = it != hvs.end() && i < it->second.size() ? it->second[i] : 0;
}
void __vf_obs(unsigned tag, unsigned long v) { std::fprintf(fo, "obs %u %lu\n", tag, v); }
void __vf_obs_buf(unsigned tag, const void* p, unsigned long count, unsigned long el) {
  std::fprintf(fo, "buf %u %lu %lu ", tag, count, el);
  if(count * el > (1ul << 22)) std::fprintf(fo, "toolong");
  else hex((const unsigned char*)p, count * el);
  std::fprintf(fo, "\n");
}
void __vf_assume(bool c) { if(!c) throw assume_failed{}; }
void __vf_rewind() { untrack u; in = out; inlen = out.size(); pos = 0; in_ok = true; }
void __vf_mark(unsigned k) {
  std::fprintf(fo, "mark %u %lu %lu %d %lu\n", k, pos, (unsigned long)out.size(), (int)out_ok, (unsigned long)g_max_alloc);
  if(k == 1) g_track = false;
}
}

static bytes unhex(const char* s) {
  bytes b;
  for(; s[0] && s[1] && s[0] != '\n'; s += 2) { unsigned v; std::sscanf(s, "%2x", &v); b.push_back((unsigned char)v); }
  return b;
}

int main(int, char** argv) {
  FILE* fi = std::fopen(argv[1], "r");
  fo = std::fopen(argv[2], "w");
  if(!fi || !fo) return 3;
  std::vector<char> line(64 << 20);
  std::string h;
  while(std::fgets(line.data(), (int)line.size(), fi)) {
    char* l = line.data();
    char key[32]; int off = 0;
    if(std::sscanf(l, "%31s %n", key, &off) < 1) continue;
    char* a = l + off;
    if(!std::strcmp(key, "case")) {
      in.clear(); out.clear(); syms.clear(); hvs.clear(); h.clear();
      inlen = pos = cap = 0; in_ok = out_ok = true; in_after = out_after = 0;
      std::fprintf(fo, "case %s", a);
    } else if(!std::strcmp(key, "harness")) { h = a; while(!h.empty() && h.back() == '\n') h.pop_back(); }
    else if(!std::strcmp(key, "inlen")) inlen = std::strtoul(a, nullptr, 10);
    else if(!std::strcmp(key, "cap")) cap = std::strtoul(a, nullptr, 10);
    else if(!std::strcmp(key, "in")) in = unhex(a);
    else if(!std::strcmp(key, "sym")) { char* e; unsigned t = std::strtoul(a, &e, 10); syms[t] = std::strtoul(e, nullptr, 10); }
    else if(!std::strcmp(key, "hv")) { char* e; unsigned t = std::strtoul(a, &e, 10); while(*e == ' ') ++e; hvs[t] = unhex(e); }
    else if(!std::strcmp(key, "end")) {
      auto f = (void(*)())dlsym(RTLD_DEFAULT, h.c_str());
      if(!f) { std::fprintf(fo, "noharness\n"); std::fflush(fo); continue; }
      std::fflush(fo);
      g_max_alloc = 0;
      const char* st = "done";
      std::string ex;
      try { g_track = true; f(); }
      catch(const assume_failed&) { st = "assume"; }
      catch(const std::bad_alloc&) { st = "badalloc"; }
      catch(const std::exception& e) { st = "throw"; ex = e.what(); }
      catch(...) { st = "throw"; }
      g_track = false;
      std::fprintf(fo, "fin %lu %lu %lu %d %lu ", pos, in_after, (unsigned long)out.size(), (int)out_ok, out_after);
      if(out.size() > (1ul << 22)) std::fprintf(fo, "toolong"); else hex(out.data(), out.size());
      std::fprintf(fo, "\n%s %lu %s\n", st, (unsigned long)g_max_alloc, ex.c_str());
      std::fflush(fo);
    }
  }
  return 0;
}
