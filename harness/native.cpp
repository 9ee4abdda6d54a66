// Native back end of sx.h: runs one entry of a harness with the inputs of a replay file
//   ./replay <entry> <name=value ...>
// Exit 0: ran to completion, prints "OBS <hash>".  Exit 77: an assertion failed, prints
// "FAIL <what>".  Memory errors end the process through AddressSanitizer.
#include "sx.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <string>
#include <vector>
#include <exception>
#include <new>
#include <sys/mman.h>
#include <unistd.h>
#include <signal.h>
static std::vector<std::string> in; static size_t pos = 0; static u64 h = 1469598103934665603ull; static long live = 0;
static bool protecting = false; static const char* state_ = "";
static u64 next(const char* name) {
  if (pos >= in.size()) { printf("DIVERGED: input %s requested beyond the recorded path\n", name); fflush(stdout); _exit(78); }
  const std::string& s = in[pos++]; size_t q = s.find('=');
  if (s.compare(0, q, name)) { printf("DIVERGED: expected input %s, replay has %s\n", name, s.c_str()); fflush(stdout); _exit(78); }
  return strtoull(s.c_str() + q + 1, nullptr, 10);
}
extern "C" {
u64 sx_sym(int, const char* n) { return next(n); }
u64 sx_range(u64 n, const char* nm) { return n <= 1 ? 0 : next(nm); }
u64 sx_choose(u64 n, const char* nm) { return n <= 1 ? 0 : next(nm); }
void sx_assume(bool c) { if (!c) { printf("ASSUME false\n"); fflush(stdout); _exit(79); } }
void sx_assert(bool c, const char* w) { if (!c) { printf("FAIL %s\n", w); fflush(stdout); _exit(77); } }
void sx_observe(u64 v) { h ^= v; h *= 1099511628211ull; }
void sx_reach(const char*) {}
u64 sx_live_heap() { return (u64)live; }
}
// all C++ heap memory comes from here; while protected, existing blocks are unreadable for writes
#ifdef ARENA
static char* arena = nullptr; static size_t used = 0; static const size_t SZ = 64 << 20; static char* prot_end = nullptr;
static void* get(size_t n, size_t al) { if (!arena) arena = (char*)mmap(nullptr, SZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); if (n > SZ / 4) throw std::bad_alloc(); if (al < 16) al = 16; used = (used + al - 1) / al * al; void* p = arena + used; used += n + 32; live++; return p; }
static void put(void* p) { if (p) { live--; if ((char*)p < prot_end) { printf("FAIL a const operation frees memory of the collection\n"); fflush(stdout); _exit(77); } } }
// statics of the library: the writable data of the program is compared before and after
#include <link.h>
struct Snap { char* p; size_t n; char* copy; }; static Snap snap[8]; static int nsnap = 0;
static int take(dl_phdr_info* i, size_t, void*) { if (i->dlpi_name && i->dlpi_name[0]) return 0; for (int k = 0; k < i->dlpi_phnum; k++) if (i->dlpi_phdr[k].p_type == PT_LOAD && (i->dlpi_phdr[k].p_flags & PF_W) && nsnap < 8) { Snap& s = snap[nsnap++]; s.p = (char*)(i->dlpi_addr + i->dlpi_phdr[k].p_vaddr); s.n = i->dlpi_phdr[k].p_memsz; s.copy = (char*)mmap(nullptr, s.n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); memcpy(s.copy, s.p, s.n); } return 0; }
static void compare() {
  for (int k = 0; k < nsnap; k++) { Snap& s = snap[k]; for (size_t i = 0; i < s.n; i++) if (s.p[i] != s.copy[i]) { Dl_info d; if (!dladdr(s.p + i, &d) || !d.dli_sname) continue; std::string n = d.dli_sname; size_t q = n.compare(0, 3, "_ZZ") == 0 ? 3 : n.compare(0, 2, "_Z") == 0 ? 2 : 0;
      if (q && (n.compare(q, 24, "N5boost15poly_collection") == 0 || n.compare(q, 25, "NK5boost15poly_collection") == 0) && !dlsym(RTLD_DEFAULT, ("_ZGV" + n.substr(2)).c_str())) { printf("FAIL a const operation writes to an unsynchronised static variable of the library\n"); fflush(stdout); _exit(77); } } munmap(s.copy, s.n); }
  nsnap = 0;
}
extern "C" void sx_protect(int on) { if (on) { nsnap = 0; dl_iterate_phdr(take, nullptr); used = (used + 4095) / 4096 * 4096; prot_end = arena + used; if (used) mprotect(arena, used, PROT_READ); } else if (prot_end) { compare(); mprotect(arena, prot_end - arena, PROT_READ | PROT_WRITE); prot_end = nullptr; } }
static void segv(int) { if (prot_end) { static const char m[] = "FAIL a const operation writes to memory of the collection\n"; (void)!write(1, m, sizeof m - 1); _exit(77); } _exit(139); }
#else
extern "C" void sx_protect(int) {}
static void* get(size_t n, size_t al) { if (n > (1ull << 32)) throw std::bad_alloc(); void* p; if (al <= 16) p = malloc(n); else if (posix_memalign(&p, al, n)) p = nullptr; if (!p) throw std::bad_alloc(); live++; return p; }
static void put(void* p) { if (p) { live--; free(p); } }
#endif
struct H { size_t n; }; 
void* operator new(size_t n) { return get(n, 16); }
void* operator new[](size_t n) { return get(n, 16); }
void* operator new(size_t n, std::align_val_t a) { return get(n, (size_t)a); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return get(n, 16); }
void operator delete(void* p) noexcept { put(p); }
void operator delete[](void* p) noexcept { put(p); }
void operator delete(void* p, size_t) noexcept { put(p); }
void operator delete(void* p, std::align_val_t) noexcept { put(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { put(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { put(p); }
int main(int argc, char** argv) {
  if (argc < 2) return 2;
  std::vector<std::string> v; 
  { std::vector<std::string> tmp; for (int i = 2; i < argc; i++) { // "name=value"; names may contain no blanks
      tmp.push_back(argv[i]); } in.swap(tmp); }
#ifdef ARENA
  signal(SIGSEGV, segv); signal(SIGBUS, segv);
#endif
  void (*f)() = (void (*)())dlsym(RTLD_DEFAULT, argv[1]); if (!f) { printf("no entry %s\n", argv[1]); return 2; }
  std::set_terminate([] { printf("FAIL std::terminate called (exception escaped)\n"); fflush(stdout); _exit(77); });
  alarm(20); signal(SIGALRM, [](int) { static const char m[] = "FAIL does not terminate\n"; (void)!write(1, m, sizeof m - 1); _exit(77); });
  live = 0; f();
  if (pos != in.size()) { printf("DIVERGED: %zu of %zu inputs used\n", pos, in.size()); fflush(stdout); _exit(78); }
  printf("OBS %016llx\n", (unsigned long long)h); fflush(stdout); _exit(0);
}
