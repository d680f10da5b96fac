// Replay of a schedule with real threads: each thread does its own turns; the order in which they get to their
// mutexes, start and end is that of the schedule (VS_SCHEDULE, lines "thread S|A": a synchronising step, or a
// stretch of accesses up to the next one). Nothing here is visible to the thread sanitizer. Once the schedule has
// been followed all threads run freely: then the accesses that race are next.
#include <vsym.h>
#include <pthread.h>
#include <sched.h>
#include <signal.h>
#include <unistd.h>
#include <time.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#define HIDDEN __attribute__((no_sanitize("thread"), noinline))
extern "C" { int __real_pthread_mutex_lock(pthread_mutex_t *); int __real_pthread_mutex_unlock(pthread_mutex_t *); }
void vs_body(int id);                 // the body of a thread, by the harness

static const int MAX = 1 << 16;
static int n, head, who[MAX], started;
static char kind[MAX];
static pthread_t handle[8];
static bool active;
static thread_local int me = -1;
HIDDEN static int at() { return __atomic_load_n(&head, __ATOMIC_RELAXED); }
HIDDEN static void stuck(int)
{
  const char * m = at() >= n ? "DEADLOCK\n" : "schedule not followed\n";
  if (write(1, m, strlen(m))) {}
  _exit(at() >= n ? 95 : 78);
}
HIDDEN static int next_of(int t, int from) { for (int i = from; i < n; ++i) if (who[i] == t) return i; return n; }
HIDDEN static bool more_steps(int t, int from) { for (int i = from; i < n; ++i) if (who[i] == t && kind[i] == 'S') return true; return false; }
HIDDEN static void pop() { __atomic_store_n(&head, at() + 1, __ATOMIC_RELAXED); }
HIDDEN static void pause_here(int t)
{
  static thread_local time_t since = 0;
  static thread_local int last = -1;
  if (at() != last) { last = at(); since = time(nullptr); }
  if (time(nullptr) - since > 5)
  {
    char b[100];
    const int k = snprintf(b, sizeof b, "schedule not followed: at %d of %d (thread %d %c), thread %d\n", at(), n, who[at()], kind[at()], t);
    if (write(1, b, k)) {}
    _exit(78);
  }
  sched_yield();
}
HIDDEN static void wait_turn(int t) { while (at() < n && who[at()] != t) pause_here(t); }
HIDDEN static void wait_end(int t) { while (at() < n) pause_here(t); }
static thread_local bool took = false, was_free = false;
// Before a synchronising step
HIDDEN static void arrive()
{
  if (me < 0 || !active) return;
  const int t = me;
  took = false;
  while (at() < n)
  {
    if (next_of(t, at()) == n) { wait_end(t); break; }
    wait_turn(t);
    if (at() >= n) break;
    if (kind[at()] == 'S') { took = true; return; }
    pop();
  }
  // on to the next synchronising step only after the others had time for what is next for them
  if (!was_free) { was_free = true; usleep(200000); }
}
// After it, and at the start of a thread
HIDDEN static void go_on()
{
  if (me < 0 || !active) return;
  const int t = me;
  if (took) { took = false; pop(); }
  while (at() < n)
  {
    const int i = next_of(t, at());
    if (i == n) { wait_end(t); return; }
    if (kind[i] == 'S') return;
    wait_turn(t);
    if (at() >= n || more_steps(t, at())) return;
    pop();
  }
}
HIDDEN static void * run(void * p)
{
  me = static_cast<int>(reinterpret_cast<intptr_t>(p));
  const int t = me;
  go_on();
  vs_body(t);
  me = -1;
  return nullptr;
}
extern "C" {
HIDDEN bool vs_scheduled(void)
{
  static bool first = true;
  if (first)
  {
    first = false;
    if (const char * f = getenv("VS_SCHEDULE"))
      if (FILE * h = fopen(f, "r"))
      {
        int t; char k;
        while (n < MAX && fscanf(h, "%d %c", &t, &k) == 2) { who[n] = t; kind[n++] = k; }
        fclose(h);
        active = true;
        signal(SIGALRM, stuck);
        alarm(10);
      }
  }
  return active;
}
HIDDEN void vs_thread(int t) { const int o = me; me = t < 0 ? -1 : t; if (o < 0 && t >= 0) {} }
HIDDEN int vs_quiet(void) { const int t = me; me = -1; return t; }
HIDDEN void vs_mark(const char * name)
{
  if (me < 0 || !active) return;
  arrive();
  if (!strcmp(name, "spawn")) { ++started; pthread_create(&handle[started], nullptr, run, reinterpret_cast<void *>(static_cast<intptr_t>(started))); }
  else if (!strncmp(name, "join", 4)) pthread_join(handle[atoi(name + 4)], nullptr);
  go_on();
}
HIDDEN int __wrap_pthread_mutex_lock(pthread_mutex_t * m) { arrive(); const int r = __real_pthread_mutex_lock(m); go_on(); return r; }
HIDDEN int __wrap_pthread_mutex_unlock(pthread_mutex_t * m) { arrive(); const int r = __real_pthread_mutex_unlock(m); go_on(); return r; }
}
