// xmon <property> <seed> <first> <count> [cpu seconds per case]
#include "xmon.hpp"
#include "user_kernel.hpp"
#include <malloc.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <fcntl.h>
#include <unistd.h>
thread_local jmp_buf EXIT_JMP; thread_local int EXIT_ARMED; int LSAN_OFF;
extern "C" int __lsan_is_turned_off() { return LSAN_OFF; }  // after a longjmp out of the library what it held is gone
extern "C" { void *__real_malloc(size_t); void *__real_calloc(size_t, size_t); void *__real_realloc(void *, size_t);
thread_local long AL_N, AL_FAIL; thread_local bool AL_ON;
static bool al_fail() { return AL_ON && ++AL_N == AL_FAIL; }
void *__wrap_malloc(size_t n) { return al_fail() ? nullptr : __real_malloc(n); }
void *__wrap_calloc(size_t a, size_t b) { return al_fail() ? nullptr : __real_calloc(a, b); }
void *__wrap_realloc(void *p, size_t n) { return al_fail() ? nullptr : __real_realloc(p, n); } }
extern "C" void __real_exit(int) __attribute__((noreturn));
extern "C" void __wrap_exit(int c) { if (EXIT_ARMED) longjmp(EXIT_JMP, 1); __real_exit(c); }
static void on_cpu(int) { char b[64]; int n = snprintf(b, sizeof b, "T %ld\n", R().k); if (write(1, b, n) < 0) {} _exit(97); }
// run the probes of a property, each in a process of its own
static int probes(const std::string &id) {
  int n = 0;
  for (auto &p : ProbeReg::tab()) {
    if ((" " + p.ids + " ").find(" " + id + " ") == std::string::npos) continue;
    ++n; R().k = -n; fflush(stdout); int fd[2]; if (pipe(fd)) return 2;
    pid_t pid = fork(); if (pid < 0) return 2;
    if (!pid) { close(fd[0]); int nul = open("/dev/null", O_WRONLY); dup2(nul, 1); dup2(nul, 2); alarm(120); std::string m = p.f(); if (m.size() && write(fd[1], m.data(), m.size()) < 0) {} _exit(m.empty() ? 50 : 51); }
    close(fd[1]); std::string m; char b[4096]; ssize_t k; while ((k = read(fd[0], b, sizeof b)) > 0) m.append(b, k); close(fd[0]);
    int st = 0; waitpid(pid, &st, 0); R().evals++;
    if (WIFSIGNALED(st)) m = sf("the process died with signal %d", WTERMSIG(st)); else if (WEXITSTATUS(st) != 50 && WEXITSTATUS(st) != 51) m = sf("the library ended the process with exit status %d", WEXITSTATUS(st));
    seen("probe", p.name); count("probes_run");
    if (m.size()) viol("probe." + p.name, m);
  }
  finish(); printf("D\n"); return 0;
}
int main(int argc, char **argv) {
  if (argc == 3 && !strcmp(argv[2], "--probes")) return probes(argv[1]);
  if (argc < 5) { for (auto &e : Reg::tab()) printf("%s\n", e.first.c_str()); return 2; }
  auto it = Reg::tab().find(argv[1]); if (it == Reg::tab().end()) { fprintf(stderr, "unknown property\n"); return 2; }
  uint64_t seed = strtoull(argv[2], 0, 10), h = 1469598103934665603ull; for (const char *p = argv[1]; *p; ++p) h = (h ^ (uint64_t)*p) * 1099511628211ull;
  long first = atol(argv[3]), cnt = atol(argv[4]); double cpu = argc > 5 ? atof(argv[5]) : it->second.second;
  signal(SIGPROF, on_cpu);
  setvbuf(stdout, 0, _IOLBF, 1 << 16);
  for (long k = first; k < first + cnt; ++k) {
    R().k = k; printf("S %ld\n", k);
    struct itimerval tv = {{0, 0}, {(time_t)cpu, 0}}; setitimer(ITIMER_PROF, &tv, 0);
    Rng r(h ^ (seed * 0x9E3779B97F4A7C15ull + (uint64_t)k * 0xD1B54A32D192ED03ull));
    try { it->second.first(r, k); }
    catch (const LibExit &e) { R().evals++; LSAN_OFF = 1;
      // eigenvectors of degenerate eigenvalues (vector, derivatives): recorded as a finding of its own (C37)
      if (e.degenerate && strcmp(argv[1], "C37")) skip("library_exit_degenerate_eigenvalues"); else viol(e.what, "the library ended the process while it computed a solution"); }
  }
  struct itimerval z = {{0, 0}, {0, 0}}; setitimer(ITIMER_PROF, &z, 0);
  finish();
  printf("D\n");
  return 0;
}
