#include "zh.h"
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <signal.h>
#include <time.h>
namespace zh {
struct S { const char *n; Fn f; const char *c; };
static std::vector<S> &all() { static std::vector<S> v; return v; }
Reg::Reg(const char *n, Fn f, const char *c) { all().push_back({n, f, c}); }
static char *shm; // current case
static const int CUR = 4000;
static FILE *rep;
void Ctx::cur(const char *f, ...) { va_list a; va_start(a, f); vsnprintf(shm, CUR, f, a); va_end(a); cases++; alarm(60); }
void Ctx::fail(const char *f, ...) {
  char b[6000]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a);
  for (char *p = b; *p; p++) if (*p == '\n') *p = ' ';
  std::string s(shm); for (char &ch : s) if (ch == '\n') ch = ' ';
  ++*(long *)(shm + 4104); fprintf(rep, "FAIL %s: %s  [case: %s]\n", sec, b, s.c_str()); fflush(rep);
  if (++fails >= 5) { fflush(rep); _exit(1); }
}
std::string strf(const char *f, ...) { char b[4000]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); return b; }
}
int zh::child(const std::function<void()> &f, int secs) {
  fflush(0); pid_t p = fork();
  if (!p) { int dn = fileno(fopen("/dev/null", "w")); dup2(dn, 1); dup2(dn, 2); alarm(secs); f(); _exit(200); }
  int st = 0; waitpid(p, &st, 0); return WIFEXITED(st) ? WEXITSTATUS(st) : -1;
}
using namespace zh;
int main(int argc, char **argv) {
  uint64_t seed = 1; std::string tier = "quick", dir = ".", only;
  for (int i = 1; i + 1 < argc; i += 2) {
    std::string k = argv[i];
    if (k == "--seed") seed = strtoull(argv[i + 1], 0, 10);
    else if (k == "--tier") tier = argv[i + 1];
    else if (k == "--dir") dir = argv[i + 1];
    else if (k == "--only") only = argv[i + 1];
  }
  rep = fdopen(dup(1), "w");
  shm = (char *)mmap(0, 8192, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  const char *data = getenv("ZH_DATA");
  int bad = 0;
  struct Run { size_t k; pid_t pid; int fd; std::string out; char *cur; };
  for (size_t k = 0; k < all().size(); k++) {
    S &s = all()[k];
    if (!only.empty() && (";" + only + ";").find(std::string(";") + s.n + ";") == std::string::npos) continue;
    fflush(0); shm[0] = 0;
    long *cnt = (long *)(shm + 4096); *cnt = 0; *(long *)(shm + 4104) = 0;
    pid_t p = fork();
    if (!p) {
      int dn = fileno(fopen("/dev/null", "w")); dup2(dn, 1); 
      if (!getenv("ZH_VERBOSE")) dup2(dn, 2);
      Ctx c; c.g = Rng(seed * 1000003 + std::hash<std::string>()(s.n) % 1000); c.seed = seed; c.thorough = tier == "thorough"; c.dir = dir; c.data = data ? data : "."; c.cases = 0; c.fails = 0; c.sec = s.n;
      alarm(60);
      s.f(c);
      *cnt = c.cases; fflush(rep);
      _exit(c.fails ? 1 : 0);
    }
    int st = 0; waitpid(p, &st, 0);
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0) { fprintf(rep, "OK %s cases=%ld covers=%s\n", s.n, *cnt, s.c); }
    else if (WIFEXITED(st) && WEXITSTATUS(st) == 1 && *(long *)(shm + 4104)) { bad = 1; }
    else {
      bad = 1;
      std::string cs(shm); for (char &ch : cs) if (ch == '\n') ch = ' ';
      const char *why = WIFSIGNALED(st) ? (WTERMSIG(st) == SIGALRM ? "does not return within 60 s" : WTERMSIG(st) == SIGABRT ? "assertion failure" : "crash") : WEXITSTATUS(st) == 99 ? "memory error (address sanitizer)" : "unexpected exit";
      fprintf(rep, "FAIL %s: %s (signal %d, exit %d)  [case: %s]\n", s.n, why, WIFSIGNALED(st) ? WTERMSIG(st) : 0, WIFEXITED(st) ? WEXITSTATUS(st) : 0, cs.c_str());
    }
    fflush(rep);
  }
  return bad;
}
