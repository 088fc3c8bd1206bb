// Native replayer: runs a harness on recorded inputs.
#define SYM_NATIVE 1
#include "../harness/sym.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <map>
#include <new>
#include <string>
#include <sys/wait.h>
#include <unistd.h>
#include <vector>

static std::map<std::string, void (*)()>& table()
{
  static std::map<std::string, void (*)()> t;
  return t;
}
sym_reg::sym_reg(const char* n, void (*f)())
{
  table()[n] = f;
}

struct Item {
  bool choice;
  uint64_t v;
  std::vector<unsigned char> b;
};
static std::vector<Item> IN;
static size_t POS;
static uint64_t HASH, PARAM, THOROUGH;
static bool QUIET;
static uint64_t LIVE;
static const char* CURLINE = "";
// mode "extend": inputs beyond the recorded ones are made up and recorded
static int FILL = -1;
static uint64_t RNG = 88172645463325252ull;
static std::string MADE;
static uint64_t rnd()
{
  RNG ^= RNG << 13;
  RNG ^= RNG >> 7;
  RNG ^= RNG << 17;
  return RNG;
}
static std::string show(const Item& it)
{
  char b[32];
  if (it.choice) {
    snprintf(b, 32, "c%llu", (unsigned long long) it.v);
    return b;
  }
  std::string r = "b";
  for (unsigned char c : it.b) {
    snprintf(b, 32, "%02x", c);
    r += b;
  }
  return r;
}
static void made(const Item& it)
{
  IN.push_back(it);
  MADE.clear();
  for (auto& i : IN) MADE += (MADE.empty() ? "" : " ") + show(i);
  CURLINE = MADE.c_str();
}

static void die(int code, const char* what, const char* m)
{
  printf("NATIVE %s: %s [input %s]\n", what, m, CURLINE);
  fflush(stdout);
  _exit(code);
}

void* operator new(size_t n)
{
  void* p = malloc(n ? n : 1);
  if (!p)
    throw std::bad_alloc();
  ++LIVE;
  return p;
}
void operator delete(void* p) noexcept
{
  if (p)
    --LIVE;
  free(p);
}
void operator delete(void* p, size_t) noexcept { operator delete(p); }
void* operator new[](size_t n) { return operator new(n); }
void operator delete[](void* p) noexcept { operator delete(p); }
void operator delete[](void* p, size_t) noexcept { operator delete(p); }

extern "C" {
void sym_bytes(void* p, size_t n)
{
  if (FILL >= 0 && POS == IN.size()) {
    static const unsigned char F[] = { 0, 'a', '1', 0xff };
    Item it {};
    for (size_t i = 0; i < n; ++i)
      it.b.push_back(FILL < 4 ? F[FILL] : (unsigned char) (FILL & 1 ? rnd() : 32 + rnd() % 95));
    made(it);
  }
  if (POS >= IN.size() || IN[POS].choice || IN[POS].b.size() != n)
    die(43, "INPUT", "input does not match the harness");
  if (n)
    memcpy(p, IN[POS].b.data(), n);
  ++POS;
}
uint64_t sym_choice(uint64_t n)
{
  if (FILL >= 0 && POS == IN.size()) {
    Item it {};
    it.choice = true;
    it.v = n ? (FILL < 2 ? 0 : FILL < 4 ? n - 1 : rnd() % n) : 0;
    made(it);
  }
  if (POS >= IN.size() || !IN[POS].choice)
    die(43, "INPUT", "input does not match the harness");
  return IN[POS++].v;
}
void sym_assume(bool c)
{
  if (!c)
    die(44, "ASSUME", "assumption does not hold");
}
void sym_assert(bool c, const char* m)
{
  if (!c)
    die(42, "ASSERT", m);
}
void sym_fail(const char* m)
{
  die(42, "ASSERT", m);
  abort();
}
void sym_observe(uint64_t v)
{
  for (int i = 0; i < 8; ++i) {
    HASH ^= (v >> (8 * i)) & 0xff;
    HASH *= 1099511628211ull;
  }
}
void sym_observe_bytes(const void* p, size_t n)
{
  for (size_t i = 0; i < n; ++i)
    sym_observe(((const unsigned char*) p)[i]);
}
void sym_cover(const char*) { }
uint64_t sym_live_heap() { return LIVE; }
uint64_t sym_param() { return PARAM; }
uint64_t sym_thorough() { return THOROUGH; }
uint64_t sym_is_symbolic() { return 0; }
uint64_t sym_concretize(uint64_t v) { return v; }
void sym_dbg(uint64_t v) { printf("dbg: %llu\n", (unsigned long long) v); }
void sym_trace() { }
}

static void parse(const std::string& t)
{
  IN.clear();
  POS = 0;
  size_t i = 0;
  while (i < t.size()) {
    size_t j = t.find(' ', i);
    if (j == std::string::npos)
      j = t.size();
    Item it {};
    if (t[i] == 'c') {
      it.choice = true;
      it.v = strtoull(t.c_str() + i + 1, nullptr, 10);
    } else {
      it.choice = false;
      for (size_t k = i + 1; k + 1 < j; k += 2)
        it.b.push_back(
            (unsigned char) strtoul(t.substr(k, 2).c_str(), nullptr, 16));
    }
    IN.push_back(it);
    i = j + 1;
  }
}

int main(int argc, char** argv)
{
  if (argc < 5)
    return 3;
  std::string mode = argv[1], entry = argv[2];
  PARAM = strtoull(argv[3], nullptr, 0);
  THOROUGH = getenv("SYM_THOROUGH") != nullptr;
  auto it = table().find(entry);
  if (it == table().end()) {
    printf("no such harness\n");
    return 3;
  }
  if (mode == "one") {
    std::string t = argv[4];
    CURLINE = argv[4];
    parse(t);
    HASH = 1469598103934665603ull;
    it->second();
    printf("NATIVE OK %016llx\n", (unsigned long long) HASH);
    fflush(stdout);
    _exit(0);
  }
  std::ifstream f(argv[4]);
  std::string line;
  if (mode == "extend") {
    // a path the executor cannot finish: its inputs so far and made up ones
    while (std::getline(f, line))
      for (int k = 0; k < 12; ++k) {
        fflush(stdout);
        pid_t c = fork();
        if (c == 0) {
          alarm(20);
          CURLINE = line.c_str();
          parse(line);
          FILL = k;
          RNG += 7919 * k;
          HASH = 1469598103934665603ull;
          it->second();
          _exit(0);
        }
        int st = 0;
        waitpid(c, &st, 0);
        int rc = WIFEXITED(st) ? WEXITSTATUS(st) : 128 + WTERMSIG(st);
        if (rc == 42) {
          printf("NATIVE EXTENDED FAIL\n");
          fflush(stdout);
          _exit(0);
        }
      }
    printf("NATIVE EXTENDED\n");
    fflush(stdout);
    _exit(0);
  }
  size_t n = 0;
  while (std::getline(f, line)) {
    size_t b = line.rfind('|');
    if (b == std::string::npos)
      continue;
    std::string t = line.substr(0, b), h = line.substr(b + 1);
    std::string keep = t;
    CURLINE = keep.c_str();
    {
      parse(t);
      HASH = 1469598103934665603ull;
      it->second();
    }
    char q[32];
    snprintf(q, 32, "%016llx", (unsigned long long) HASH);
    if (h != q) {
      printf("NATIVE MISMATCH: expected %s got %s [input %s]\n", h.c_str(), q,
             CURLINE);
      fflush(stdout);
      _exit(45);
    }
    ++n;
  }
  printf("NATIVE BATCH %zu\n", n);
  fflush(stdout);
  _exit(0);
}

#include <ctime>
extern "C" void sym_tz(long east)
{
  long w = -east;
  char b[64];
  snprintf(b, sizeof b, "XXX%s%ld:%02ld:%02ld", w < 0 ? "-" : "", labs(w) / 3600, labs(w) / 60 % 60, labs(w) % 60);
  setenv("TZ", b, 1);
  tzset();
}

extern "C" void sym_env(const char* k, const char* v)
{
  if (v) setenv(k, v, 1);
  else unsetenv(k);
}
