#include "detsched.h"
#include <dlfcn.h>
#include <errno.h>
#include <pthread.h>
#include <sched.h>
#include <semaphore.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <map>
#include <new>

namespace {

// ---------------------------------------------------------------- real calls
template <typename F> F real(const char* name) {
  void* p = dlsym(RTLD_NEXT, name);
  if (!p) { fprintf(stderr, "no symbol %s\n", name); _exit(97); }
  return (F)p;
}

// ---------------------------------------------------------------- shared page
const size_t kLogMax = 4 << 20;
const size_t kChoiceMax = 1 << 16;
struct Shared {
  volatile int outcome;
  size_t log_len;
  size_t n_choices;
  uint8_t taken[kChoiceMax], options[kChoiceMax];
  char log[kLogMax];
};
Shared* g_sh = nullptr;

// ---------------------------------------------------------------- run state
enum State { READY, WANT_MUTEX, COND_WAIT, JOINING, FINISHED, SLEEPY };
struct Th {
  State st = READY;
  void* obj = nullptr;      // mutex / cond waited for
  void* mtx = nullptr;      // mutex to re-acquire after a wait
  int join = -1;
  bool timed = false, timed_out = false;
  sem_t sem;
  pthread_t real;
  void* (*fn)(void*) = nullptr;
  void* arg = nullptr;
};
bool g_active = false;
std::vector<Th*>* g_th = nullptr;
std::map<void*, int>* g_owner = nullptr;  // mutex -> owner thread, absent = free
thread_local int t_self = -1;
int g_cur = 0;
vs::Config g_cfg;
int g_preempt_left, g_spur_left;
long g_steps;
const uint8_t* g_prefix; size_t g_prefix_len;
bool g_random; uint64_t g_rng;

uint64_t Rnd() { g_rng ^= g_rng << 13; g_rng ^= g_rng >> 7; g_rng ^= g_rng << 17; return g_rng; }

[[noreturn]] void Die(int outcome) {
  g_sh->outcome = outcome;
  _exit(0);
}

int Choose(int n) {
  if (n <= 1) return 0;
  if (n > 250) n = 250;
  size_t k = g_sh->n_choices;
  int c;
  if (k < g_prefix_len) c = g_prefix[k] < n ? g_prefix[k] : 0;
  else if (g_random) c = (int)(Rnd() % n);
  else c = 0;
  if (k < kChoiceMax) { g_sh->taken[k] = (uint8_t)c; g_sh->options[k] = (uint8_t)n; g_sh->n_choices++; }
  return c;
}

bool Enabled(int i) {
  Th* t = (*g_th)[i];
  switch (t->st) {
    case READY: case SLEEPY: return true;
    case WANT_MUTEX: return g_owner->find(t->obj) == g_owner->end();
    case JOINING: return (*g_th)[t->join]->st == FINISHED;
    default: return false;
  }
}

// Picks the next thread and hands the baton over; returns when this thread is picked.
void Schedule() {
  if (++g_steps > g_cfg.max_steps) Die(vs::kLivelock);
  int self = t_self;
  for (;;) {
    std::vector<int> opt;   // >=0: run thread; <0: spurious wake of -(i+1)
    bool cur_ok = Enabled(self) && (*g_th)[self]->st != SLEEPY;
    if (cur_ok) opt.push_back(self);
    if (!cur_ok || g_preempt_left != 0) {
      for (size_t i = 0; i < g_th->size(); ++i)
        if ((int)i != self && Enabled((int)i)) opt.push_back((int)i);
    }
    if ((*g_th)[self]->st == SLEEPY) opt.push_back(self);
    if (g_spur_left > 0)
      for (size_t i = 0; i < g_th->size(); ++i)
        if ((*g_th)[i]->st == COND_WAIT) opt.push_back(-(int)i - 1);
    if (opt.empty()) {
      // only timed waiters can make progress now
      for (size_t i = 0; i < g_th->size(); ++i)
        if ((*g_th)[i]->st == COND_WAIT && (*g_th)[i]->timed) {
          Th* t = (*g_th)[i];
          t->timed_out = true; t->st = WANT_MUTEX; t->obj = t->mtx;
          opt.push_back(-1000);
          break;
        }
      if (opt.empty()) Die(vs::kDeadlock);
      continue;
    }
    int c;
    if (g_random && g_sh->n_choices >= g_prefix_len && cur_ok && opt.size() > 1 && g_preempt_left > 0) {
      // random tail: mostly continue, so that the few preemptions spread over the run
      c = opt[0];
      size_t k = g_sh->n_choices;
      uint8_t pick = 0;
      if (Rnd() % 6 == 0) pick = (uint8_t)(Rnd() % opt.size());
      c = opt[pick];
      if (k < kChoiceMax) { g_sh->taken[k] = pick; g_sh->options[k] = (uint8_t)opt.size(); g_sh->n_choices++; }
    } else {
      c = opt[Choose((int)opt.size())];
    }
    if (c < 0) {
      Th* t = (*g_th)[-c - 1];
      --g_spur_left;
      t->st = WANT_MUTEX; t->obj = t->mtx;
      continue;
    }
    if (c != self && cur_ok && g_preempt_left > 0) --g_preempt_left;
    g_cur = c;
    if (c != self) {
      Th* me = (*g_th)[self];
      bool fin = me->st == FINISHED;
      sem_post(&(*g_th)[c]->sem);
      if (fin) return;
      while (sem_wait(&me->sem) != 0) {}
    }
    return;
  }
}

void Acquire(void* m) {      // pre: this thread was scheduled with WANT_MUTEX on m
  (*g_owner)[m] = t_self;
  (*g_th)[t_self]->st = READY;
}
void LockMutex(void* m) {
  Th* me = (*g_th)[t_self];
  me->st = WANT_MUTEX; me->obj = m;
  Schedule();
  Acquire(m);
}

bool On() { return g_active && t_self >= 0; }

void* ThreadMain(void* p) {
  intptr_t id = (intptr_t)p;
  t_self = (int)id;
  Th* me = (*g_th)[id];
  while (sem_wait(&me->sem) != 0) {}
  void* r = me->fn(me->arg);
  me->st = FINISHED;
  Schedule();
  return r;
}

int CondWait(void* c, void* m, bool timed) {
  Th* me = (*g_th)[t_self];
  auto it = g_owner->find(m);
  if (it == g_owner->end() || it->second != t_self) { vs::Log("{\"e\":\"misuse\",\"what\":\"wait without lock\"}"); }
  g_owner->erase(m);
  me->st = COND_WAIT; me->obj = c; me->mtx = m; me->timed = timed; me->timed_out = false;
  Schedule();
  Acquire(m);
  return me->timed_out ? ETIMEDOUT : 0;
}
void CondSignal(void* c, bool all) {
  std::vector<int> w;
  for (size_t i = 0; i < g_th->size(); ++i)
    if ((*g_th)[i]->st == COND_WAIT && (*g_th)[i]->obj == c) w.push_back((int)i);
  if (w.empty()) return;
  if (all) { for (int i : w) { (*g_th)[i]->st = WANT_MUTEX; (*g_th)[i]->obj = (*g_th)[i]->mtx; } }
  else { int i = w[Choose((int)w.size())]; (*g_th)[i]->st = WANT_MUTEX; (*g_th)[i]->obj = (*g_th)[i]->mtx; }
}
}  // namespace

// -------------------------------------------------------------- interposition
extern "C" {
int pthread_mutex_lock(pthread_mutex_t* m) {
  if (On()) { LockMutex(m); return 0; }
  static auto f = real<int (*)(pthread_mutex_t*)>("pthread_mutex_lock");
  return f(m);
}
int pthread_mutex_trylock(pthread_mutex_t* m) {
  if (On()) {
    (*g_th)[t_self]->st = READY; Schedule();
    if (g_owner->find(m) != g_owner->end()) return EBUSY;
    Acquire(m); return 0;
  }
  static auto f = real<int (*)(pthread_mutex_t*)>("pthread_mutex_trylock");
  return f(m);
}
int pthread_mutex_unlock(pthread_mutex_t* m) {
  if (On()) {
    auto it = g_owner->find(m);
    if (it == g_owner->end() || it->second != t_self) vs::Log("{\"e\":\"misuse\",\"what\":\"unlock without lock\"}");
    g_owner->erase(m);
    (*g_th)[t_self]->st = READY;
    Schedule();
    return 0;
  }
  static auto f = real<int (*)(pthread_mutex_t*)>("pthread_mutex_unlock");
  return f(m);
}
int pthread_mutex_destroy(pthread_mutex_t* m) {
  if (On()) { g_owner->erase(m); return 0; }
  static auto f = real<int (*)(pthread_mutex_t*)>("pthread_mutex_destroy");
  return f(m);
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
  if (On()) return CondWait(c, m, false);
  static auto f = real<int (*)(pthread_cond_t*, pthread_mutex_t*)>("pthread_cond_wait");
  return f(c, m);
}
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* ts) {
  if (On()) return CondWait(c, m, true);
  static auto f = real<int (*)(pthread_cond_t*, pthread_mutex_t*, const struct timespec*)>("pthread_cond_timedwait");
  return f(c, m, ts);
}
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const struct timespec* ts) {
  if (On()) return CondWait(c, m, true);
  static auto f = real<int (*)(pthread_cond_t*, pthread_mutex_t*, clockid_t, const struct timespec*)>("pthread_cond_clockwait");
  return f(c, m, k, ts);
}
int pthread_cond_signal(pthread_cond_t* c) {
  if (On()) { CondSignal(c, false); return 0; }
  static auto f = real<int (*)(pthread_cond_t*)>("pthread_cond_signal");
  return f(c);
}
int pthread_cond_broadcast(pthread_cond_t* c) {
  if (On()) { CondSignal(c, true); return 0; }
  static auto f = real<int (*)(pthread_cond_t*)>("pthread_cond_broadcast");
  return f(c);
}
int pthread_cond_destroy(pthread_cond_t* c) {
  if (On()) return 0;
  static auto f = real<int (*)(pthread_cond_t*)>("pthread_cond_destroy");
  return f(c);
}
int pthread_create(pthread_t* th, const pthread_attr_t* at, void* (*fn)(void*), void* arg) {
  static auto f = real<int (*)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*)>("pthread_create");
  if (!On()) return f(th, at, fn, arg);
  Th* t = new (malloc(sizeof(Th))) Th();
  sem_init(&t->sem, 0, 0);
  t->fn = fn; t->arg = arg; t->st = READY;
  g_th->push_back(t);
  int rc = f(&t->real, at, ThreadMain, (void*)(intptr_t)(g_th->size() - 1));
  if (rc != 0) { g_th->pop_back(); return rc; }
  *th = t->real;
  (*g_th)[t_self]->st = READY;
  Schedule();
  return 0;
}
int pthread_join(pthread_t th, void** ret) {
  static auto f = real<int (*)(pthread_t, void**)>("pthread_join");
  if (!On()) return f(th, ret);
  for (size_t i = 0; i < g_th->size(); ++i)
    if ((int)i != 0 && pthread_equal((*g_th)[i]->real, th)) {
      Th* me = (*g_th)[t_self];
      me->st = JOINING; me->join = (int)i;
      Schedule();
      me->st = READY;
      return f(th, ret);
    }
  vs::Log("{\"e\":\"misuse\",\"what\":\"join of unknown thread\"}");
  return ESRCH;
}
static void Sleepy() { (*g_th)[t_self]->st = SLEEPY; Schedule(); (*g_th)[t_self]->st = READY; }
int sched_yield(void) { if (On()) Sleepy(); return 0; }
int usleep(useconds_t) { if (On()) Sleepy(); return 0; }
int nanosleep(const struct timespec* a, struct timespec* b) {
  if (On()) { Sleepy(); return 0; }
  static auto f = real<int (*)(const struct timespec*, struct timespec*)>("nanosleep");
  return f(a, b);
}
int clock_nanosleep(clockid_t k, int fl, const struct timespec* a, struct timespec* b) {
  if (On()) { Sleepy(); return 0; }
  static auto f = real<int (*)(clockid_t, int, const struct timespec*, struct timespec*)>("clock_nanosleep");
  return f(k, fl, a, b);
}
}  // extern "C"

// -------------------------------------------------------- allocation tracking
static long g_live = 0, g_bad = 0;
static bool g_track = false;
static const uint64_t kMagic = 0x5ca1ab1ec0ffee11ull, kDead = 0xdeadbeefdeadbeefull;
static void* Alloc(size_t n) {
  char* p = (char*)malloc(n + 16);
  if (!p) throw std::bad_alloc();
  ((uint64_t*)p)[0] = kMagic; ((uint64_t*)p)[1] = n;
  __atomic_add_fetch(&g_live, 1, __ATOMIC_SEQ_CST);
  return p + 16;
}
static void Free(void* q) {
  if (!q) return;
  char* p = (char*)q - 16;
  if (((uint64_t*)p)[0] != kMagic) { __atomic_add_fetch(&g_bad, 1, __ATOMIC_SEQ_CST); return; }
  ((uint64_t*)p)[0] = kDead;
  __atomic_sub_fetch(&g_live, 1, __ATOMIC_SEQ_CST);
  if (g_track) { memset(q, 0xDD, ((uint64_t*)p)[1]); return; }  // quarantined: never reused in a run
  free(p);
}
void* operator new(size_t n) { return Alloc(n); }
void* operator new[](size_t n) { return Alloc(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return Alloc(n); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return Alloc(n); }
void operator delete(void* p) noexcept { Free(p); }
void operator delete[](void* p) noexcept { Free(p); }
void operator delete(void* p, size_t) noexcept { Free(p); }
void operator delete[](void* p, size_t) noexcept { Free(p); }

// ----------------------------------------------------------------- public API
namespace vs {
void Log(const char* fmt, ...) {
  long keep = g_live;
  char buf[8192];
  va_list ap; va_start(ap, fmt);
  int n = vsnprintf(buf, sizeof buf - 1, fmt, ap);
  va_end(ap);
  if (n < 0) return;
  if (n > (int)sizeof buf - 2) n = sizeof buf - 2;
  buf[n++] = '\n';
  if (g_sh->log_len + n < kLogMax) { memcpy(g_sh->log + g_sh->log_len, buf, n); g_sh->log_len += n; }
  (void)keep;
}
void Yield() { if (On()) { (*g_th)[t_self]->st = READY; Schedule(); } }
int Self() { return t_self; }
int UnfinishedThreads() {
  int n = 0;
  for (size_t i = 0; i < g_th->size(); ++i)
    if ((int)i != t_self && (*g_th)[i]->st != FINISHED) ++n;
  return n;
}
long LiveAllocs() { return g_live; }
long BadFrees() { return g_bad; }

struct SpawnArg { std::function<void()> f; pthread_t th; };
static void* SpawnMain(void* p) { ((SpawnArg*)p)->f(); return nullptr; }
void Spawn(const std::function<void()>& f, void** h) {
  SpawnArg* a = new SpawnArg{f, pthread_t()};
  pthread_create(&a->th, nullptr, SpawnMain, a);
  *h = a;
}
void JoinSpawned(void* h) { SpawnArg* a = (SpawnArg*)h; pthread_join(a->th, nullptr); delete a; }

RunResult RunOnce(const Config& cfg, const std::vector<uint8_t>& prefix, bool random_tail,
                  uint64_t seed, const std::function<void()>& body) {
  if (!g_sh) {
    g_sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (g_sh == MAP_FAILED) { perror("mmap"); _exit(97); }
  }
  g_sh->outcome = -1; g_sh->log_len = 0; g_sh->n_choices = 0;
  fflush(stdout); fflush(stderr);
  pid_t pid = fork();
  if (pid == 0) {
    alarm(cfg.timeout_s);
    FILE* dn = freopen("/dev/null", "w", stderr); (void)dn;
    dn = freopen("/dev/null", "w", stdout);
    g_cfg = cfg;
    g_preempt_left = cfg.preemptions; g_spur_left = cfg.spurious;
    g_steps = 0;
    g_prefix = prefix.data(); g_prefix_len = prefix.size();
    g_random = random_tail; g_rng = seed * 0x9E3779B97F4A7C15ull + 0x1234567;
    if (!g_rng) g_rng = 1;
    g_th = new std::vector<Th*>(); g_th->reserve(64);
    g_owner = new std::map<void*, int>();
    Th* t = new Th(); sem_init(&t->sem, 0, 0); t->real = pthread_self();
    g_th->push_back(t);
    t_self = 0;
    g_track = true;
    g_active = true;
    try { body(); }
    catch (std::exception& e) { Log("{\"e\":\"exception\",\"what\":\"std\"}"); Die(kCrash); }
    g_active = false;
    Die(kFinished);
  }
  int st = 0;
  while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
  RunResult r;
  r.signal = 0;
  if (g_sh->outcome >= 0) r.outcome = (Outcome)g_sh->outcome;
  else if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM) r.outcome = kTimeout;
  else { r.outcome = kCrash; r.signal = WIFSIGNALED(st) ? WTERMSIG(st) : -1; }
  r.log.assign(g_sh->log, g_sh->log_len);
  for (size_t i = 0; i < g_sh->n_choices; ++i) r.choices.push_back({g_sh->taken[i], g_sh->options[i]});
  return r;
}

Stats Explore(const Config& cfg, long max_dfs, long max_random, uint64_t seed,
              const std::function<void()>& body, const std::function<bool(const RunResult&)>& visit) {
  Stats s;
  std::vector<uint8_t> prefix;
  for (long n = 0; n < max_dfs; ++n) {
    RunResult r = RunOnce(cfg, prefix, false, seed, body);
    ++s.runs;
    if (!visit(r)) return s;
    size_t k = r.choices.size();
    while (k > 0 && r.choices[k - 1].first + 1 >= r.choices[k - 1].second) --k;
    if (k == 0) { s.exhausted = true; return s; }
    prefix.assign(k, 0);
    for (size_t i = 0; i < k; ++i) prefix[i] = r.choices[i].first;
    prefix[k - 1]++;
  }
  Config rc = cfg;
  for (long n = 0; n < max_random; ++n) {
    rc.preemptions = (n % 3 == 0) ? -1 : 4 + (int)(n % 5);
    RunResult r = RunOnce(rc, {}, true, seed * 1000003 + n + 1, body);
    ++s.runs;
    if (!visit(r)) return s;
  }
  return s;
}
}  // namespace vs
