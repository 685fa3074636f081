// Native side of the harness: runs the compiled real code under the recorded inputs and schedule.
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <cstdarg>
#include <string>
#include <vector>
#include <deque>
#include <fstream>
#include <sstream>
#include <atomic>
#include <csignal>
#include <pthread.h>
#include <dlfcn.h>
#include <unistd.h>
#include <errno.h>
#include <time.h>
#include <sys/syscall.h>

struct Ev { char kind; int t; uint32_t k; int to; };
struct In { uint32_t tag; unsigned w; uint64_t v; };
static std::deque<Ev> evs;
static std::deque<In> ins;
enum { RUN, FUTEX, WAIT, QUIESCE, DONE };
struct Th { uint32_t points = 0; int st = RUN; const std::atomic<uint32_t> *flag = nullptr; const void *fut = nullptr; pthread_cond_t cv = PTHREAD_COND_INITIALIZER; };
static Th *ths[64]; static int nth = 1;
static int cur = 0;
static pthread_mutex_t mx = PTHREAD_MUTEX_INITIALIZER;
static thread_local int me = 0;

[[noreturn]] static void fin(const char *s) { printf("%s\n", s); fflush(stdout); _exit(0); }
[[noreturn]] static void diverge(const char *w) { char b[128]; snprintf(b, sizeof b, "diverged %s t%d k%u events_left %zu", w, me, ths[me]->points, evs.size()); fin(b); }
static void passTo(int to) {
  pthread_mutex_lock(&mx);
  cur = to;
  pthread_cond_signal(&ths[to]->cv);
  while (cur != me) pthread_cond_wait(&ths[me]->cv, &mx);
  pthread_mutex_unlock(&mx);
}
static void mustSwitch(char kind) {
  if (evs.empty()) fin("fail deadlock 0");
  Ev e = evs.front();
  if (e.kind != kind || e.t != me || e.k != ths[me]->points) diverge("switch");
  evs.pop_front();
  ths[e.to]->st = RUN;
  if (e.to != me) passTo(e.to);
}
static long futexWait(const void *a, uint32_t val) {
  if (*(volatile uint32_t *)a != val) { errno = EAGAIN; return -1; }
  ths[me]->st = FUTEX; ths[me]->fut = a;
  mustSwitch('b');
  return 0;
}
extern "C" {
long vx_syscall(long n, ...) {
  va_list ap; va_start(ap, n);
  long a[6]; for (int i = 0; i < 6; i++) a[i] = va_arg(ap, long);
  va_end(ap);
  if (n == SYS_futex) {
    int op = a[1] & 127;
    if (op == 0 || op == 9) return futexWait((void *)a[0], (uint32_t)a[2]);
    long c = 0;
    for (int t = 0; t < nth; t++) if (ths[t]->st == FUTEX && ths[t]->fut == (void *)a[0]) { ths[t]->st = RUN; c++; }
    return c;
  }
  if (n == SYS_getrandom) { memset((void *)a[0], 0, a[1]); return a[1]; }
  return syscall(n, a[0], a[1], a[2], a[3], a[4], a[5]);
}
void vx_sched_point() {
  Th *T = ths[me]; T->points++;
  if (!evs.empty()) { Ev &e = evs.front(); if (e.kind == 'p' && e.t == me && e.k == T->points) { int to = e.to; evs.pop_front(); ths[to]->st = RUN; passTo(to); } }
}
void vx_spin() {
  Th *T = ths[me]; T->points++;
  static unsigned long idle = 0;
  if (!evs.empty()) { Ev &e = evs.front(); if (e.kind == 'y' && e.t == me && e.k == T->points) { int to = e.to; evs.pop_front(); ths[to]->st = RUN; idle = 0; passTo(to); return; } }
  if (++idle > 3000000) fin("fail deadlock 0");
}
static uint64_t in(uint32_t tag, unsigned w) {
  if (ins.empty() || ins.front().tag != tag || ins.front().w != w) diverge("input");
  uint64_t v = ins.front().v; ins.pop_front(); return v;
}
int vx_clock_gettime(int, struct timespec *t) {
  static uint64_t n = 0; static bool days;
  if (!n) days = in(0xC10C, 32);
  n++;
  t->tv_sec = 1000000 + (days ? 86400 * n : 0); t->tv_nsec = days ? 0 : 1000 * n;
  return 0;
}
uint8_t vx_u8(uint32_t t) { return in(t, 8); }
uint32_t vx_u32(uint32_t t) { return in(t, 32); }
uint64_t vx_u64(uint32_t t) { return in(t, 64); }
uint32_t vx_choose(uint32_t t, uint32_t) { return in(t, 32); }
void vx_assume(bool c) { if (!c) diverge("assume"); }
static std::vector<std::pair<uint32_t, uint32_t>> codes;
static bool decides(uint32_t c) { if (codes.empty()) return true; for (auto &p : codes) if (c >= p.first && c <= p.second) return true; return false; }
void vx_assert(bool c, uint32_t code) { if (!c && decides(code)) { char b[64]; snprintf(b, sizeof b, "fail assert %u", code); fin(b); } }
void vx_cover(uint32_t c) { printf("cover %u\n", c); }
void vx_note(uint32_t tag, uint64_t v) { printf("note %u %llu\n", tag, (unsigned long long)v); }
uint64_t vx_fix(uint64_t v) { return v; }
uint32_t vx_tid() { return me; }
uint32_t vx_status(uint32_t t) { return ths[t]->st == DONE; }
struct Sp { void (*f)(void *); void *d; int id; };
static void *tmain(void *p) {
  Sp *s = (Sp *)p; me = s->id;
  pthread_mutex_lock(&mx);
  while (cur != me) pthread_cond_wait(&ths[me]->cv, &mx);
  pthread_mutex_unlock(&mx);
  try { s->f(s->d); } catch (...) { fin("fail panic 0"); }
  ths[me]->st = DONE;
  mustSwitch('x');
  for (;;) pause();
}
uint32_t vx_spawn(void (*f)(void *), void *d) {
  Sp *s = new Sp{f, d, nth}; ths[nth] = new Th(); nth++;
  pthread_t th; pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, 4 << 20);
  if (pthread_create(&th, &at, tmain, s)) fin("diverged pthread_create");
  return s->id;
}
void vx_quiesce() {
  bool others = false;
  for (int t = 1; t < nth; t++) if (ths[t]->st != DONE && !(ths[t]->st == WAIT && ths[t]->flag->load() == 0)) others = true;
  if (!others) return;
  ths[0]->st = QUIESCE;
  mustSwitch('q');
}
void vx_wait(const std::atomic<uint32_t> *f) {
  while (f->load() == 0) { ths[me]->st = WAIT; ths[me]->flag = f; mustSwitch('w'); }
}
}
static void onsig(int s) { char b[64]; snprintf(b, sizeof b, s == SIGABRT ? "fail abort 0\n" : s == SIGALRM ? "fail nontermination 0\n" : "fail memory 0\n"); if (write(1, b, strlen(b))) {} _exit(0); }
int main(int argc, char **argv) {
  if (argc < 2) return 2;
  std::ifstream f(argv[1]); std::string line, harness;
  while (std::getline(f, line)) {
    std::istringstream s(line); std::string k; s >> k;
    if (k == "harness") s >> harness;
    else if (k == "input") { In i; s >> i.tag >> i.w >> i.v; ins.push_back(i); }
    else if (k == "codes") { uint32_t a, b; s >> a >> b; codes.push_back({a, b}); }
    else if (k == "event") { Ev e; s >> e.kind >> e.t >> e.k >> e.to; evs.push_back(e); }
  }
  setvbuf(stdout, nullptr, _IOLBF, 0);
  for (int s : {SIGABRT, SIGSEGV, SIGBUS, SIGILL, SIGFPE, SIGALRM}) signal(s, onsig);
  alarm(argc > 2 ? atoi(argv[2]) : 20);
  ths[0] = new Th();
  auto h = (void (*)())dlsym(RTLD_DEFAULT, harness.c_str());
  if (!h) fin("diverged no-harness");
  try { h(); } catch (...) { fin("fail panic 0"); }
  if (!evs.empty()) diverge("end");
  if (!ins.empty()) diverge("inputs");
  fin("end ok");
}
