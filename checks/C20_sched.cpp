// controlled scheduler for C20 (not instrumented): pthread interposition, happens-before state caching, race detector
#include "mc.h"
#include "ctl_sched.h"
#include <dlfcn.h>
#include <errno.h>
#include <malloc.h>
#include <pthread.h>
#include <sched.h>
#include <semaphore.h>
#include <time.h>
#include <unistd.h>
#include <deque>
#include <map>
#include <new>
#include <vector>
#include <algorithm>

namespace {
enum { MAXT = 10, CAP = 4000, HARD = 60000 };
struct VC { uint32_t c[MAXT]; void join(const VC& o) { for (int i = 0; i < MAXT; i++) if (o.c[i] > c[i]) c[i] = o.c[i]; } };
enum Kind { K_START, K_LOCK, K_TRY, K_UNLOCK, K_CREATE, K_JOIN, K_ATOMIC, K_ROLE, K_COND, K_SIGNAL, K_AWAIT, K_SET, K_YIELD, K_EXIT, K_DETACH, K_TIMED };
const char* kname[] = {"start", "lock", "trylock", "unlock", "create", "join", "atomic", "call", "cond_wait", "cond_signal", "await", "set", "yield", "exit", "detach", "timed_lock"};
struct Thread { int id; sem_t sem; pthread_t real; void* (*fn)(void*); void* arg; bool used, finished, joined, detached; uint64_t hist; VC vc; int pk; void* po; void* pm; bool signaled, timed; };
struct Obj { uint64_t ver; VC vc; int owner; int count; bool recursive; }; // owner -1: free
Thread th[MAXT]; int nthreads; int cur = -1; bool active, free_run, capped; int steps, rr; 
std::map<void*, Obj>* objs; int inside[64]; const char* inside_what[64];
thread_local Thread* me = nullptr;

template <class F> F real(const char* n) { return (F)dlsym(RTLD_NEXT, n); }
bool ctl() { return me && active; }
Obj& obj(void* p) { auto it = objs->find(p); if (it == objs->end()) { Obj o; memset(&o, 0, sizeof o); o.owner = -1; it = objs->insert({p, o}).first; } return it->second; }
bool enabled(const Thread& t) {
    if (!t.used || t.finished) return false;
    switch (t.pk) {
    case K_LOCK: { Obj& o = obj(t.po); return o.owner < 0 || (o.owner == t.id && o.recursive); }
    case K_JOIN: return ((Thread*)t.po)->finished;
    case K_COND: { Obj& m = obj(t.pm); return (t.signaled || t.timed) && m.owner < 0; }
    case K_AWAIT: return *(volatile int*)t.po != 0;
    default: return true; }
}
void event(Thread& t, int k, void* o, uint64_t extra = 0) { // executes one visible operation: happens-before fingerprints
    Obj* ob = o ? &obj(o) : 0; mc::H h; h(t.hist)(k)((uint64_t)(uintptr_t)o)(ob ? ob->ver : 0)(extra); t.hist = h; if (ob) ob->ver = t.hist; mc::op(); steps++;
}
void acquire(Thread& t, void* o) { t.vc.join(obj(o).vc); }
void release(Thread& t, void* o) { obj(o).vc.join(t.vc); t.vc.c[t.id]++; }
[[noreturn]] void stuck() {
    std::string s; for (int i = 0; i < nthreads; i++) if (!th[i].finished) s += " thread " + std::to_string(i) + " waits in " + kname[th[i].pk] + ";";
    mc::fail("deadlock: nobody can continue:%s", s.c_str());
}
int pick(bool me_can) { // next thread to run
    int e[MAXT], n = 0; if (me_can && cur >= 0 && enabled(th[cur])) e[n++] = cur; for (int i = 0; i < nthreads; i++) if (i != cur && enabled(th[i])) e[n++] = i;
    if (!n) stuck();
    if (steps > HARD) mc::fail("livelock: no progress within %d operations under fair scheduling", (int)HARD);
    if (!free_run && steps > CAP) { free_run = true; capped = true; }
    if (capped) { std::sort(e, e + n); for (int i = 0; i < n; i++) if (e[i] > cur) return e[i]; return e[0]; }
    if (free_run || n == 1) return e[0];
    mc::H h; h(nthreads); for (int i = 0; i < nthreads; i++) h(th[i].hist)(th[i].finished)(th[i].pk); mc::state(h);
    if (mc::seen(h)) { free_run = true; return e[0]; }
    return e[mc::choose(n)];
}
void transfer(int to, bool wait) { int from = cur; cur = to; if (to == from) return; sem_post(&th[to].sem); if (wait) { while (sem_wait(&th[from].sem) && errno == EINTR) {} } }
void sched_point(int k, void* o, void* m = 0) { // announces the next operation of this thread and waits until it may execute
    me->pk = k; me->po = o; me->pm = m; int t = pick(true); if (mc::tracing() && t != cur) mc::trace("  -> thread %d", t); transfer(t, true); if (mc::tracing() && k != K_ATOMIC) mc::trace("thread %d: %s", me->id, kname[k]);
}
// ---- race detector
struct Rec { uint8_t t, mask, w; uint32_t clk; };
struct Cell { uintptr_t g; uint32_t gen; uint8_t n; Rec r[12]; };
enum { NC = 1 << 16 }; Cell* cells; uint32_t gen = 1; int live = 1;
Cell* cell(uintptr_t g, bool make) { uint64_t i = mc::mix(g) & (NC - 1); for (int k = 0; k < 4096; k++, i = (i + 1) & (NC - 1)) { Cell& c = cells[i]; if (c.gen != gen) { if (!make) return 0; c.gen = gen; c.g = g; c.n = 0; return &c; } if (c.g == g) return &c; } return 0; }
void access(uintptr_t a, size_t n, bool w) {
    if (live <= 1) return; Thread& t = *me;
    while (n) { uintptr_t g = a >> 3; int off = a & 7; size_t k = std::min(n, (size_t)(8 - off)); uint8_t mask = (uint8_t)(((1u << k) - 1) << off); Cell* c = cell(g, true);
        if (c) { int j = 0; for (int i = 0; i < c->n; i++) { Rec& r = c->r[i]; if ((r.mask & mask) && (r.w || w) && r.t != t.id && r.clk > t.vc.c[r.t]) mc::fail("data race: thread %d %s memory that thread %d %s without synchronisation", t.id, w ? "writes" : "reads", (int)r.t, r.w ? "wrote" : "read"); if (r.t == t.id && !(r.mask & ~mask) && (w || !r.w)) continue; c->r[j++] = r; } c->n = j; if (c->n < 12) { Rec r; r.t = t.id; r.mask = mask; r.w = w; r.clk = t.vc.c[t.id]; c->r[c->n++] = r; } }
        a += k; n -= k; }
}
void forget(void* p, size_t n) { if (!p || !active || live <= 1) return; for (uintptr_t g = (uintptr_t)p >> 3; g <= ((uintptr_t)p + n - 1) >> 3; g++) if (Cell* c = cell(g, false)) c->n = 0; }
void init_thread(Thread& t, int id) { t.id = id; t.used = true; t.finished = t.joined = t.detached = t.signaled = t.timed = false; t.hist = mc::hash(id, 99); memset(&t.vc, 0, sizeof t.vc); t.vc.c[id] = 1; t.pk = K_START; t.po = t.pm = 0; }
void* trampoline(void* p) {
    Thread* t = (Thread*)p; while (sem_wait(&t->sem) && errno == EINTR) {} me = t; event(*t, K_START, 0); void* r = t->fn(t->arg);
    event(*t, K_EXIT, t); release(*t, t); t->finished = true; me = nullptr; // hand over and leave
    int n = pick(false); transfer(n, false); return r;
}
} // namespace

namespace sched {
void run(const std::function<void()>& body) {
    static bool once = false; if (!once) { once = true; for (int i = 0; i < MAXT; i++) sem_init(&th[i].sem, 0, 0); cells = (Cell*)calloc(NC, sizeof(Cell)); }
    std::map<void*, Obj> o; objs = &o; nthreads = 1; cur = 0; free_run = capped = false; steps = 0; live = 1; gen++; memset(inside, 0, sizeof inside);
    init_thread(th[0], 0); me = &th[0]; active = true; body(); active = false; me = nullptr; objs = nullptr;
    for (int i = 1; i < nthreads; i++) { if (!th[i].finished) mc::fail("the call returned while thread %d is still running", i); if (!th[i].joined) mc::fail("thread %d was never joined", i); }
    if (capped) mc::cut();
}
void enter(int role, const char* what) { if (!ctl()) return; void* o = (void*)(uintptr_t)(ROLE_BASE + role); if (inside[role]) mc::fail("thread %d calls %s while another thread is inside %s", me->id, what, inside_what[role]); inside[role]++; inside_what[role] = what; sched_point(K_ROLE, o); if (mc::tracing()) mc::trace("thread %d: %s", me->id, what); event(*me, K_ROLE, o); }
void point(int role) { if (!ctl()) return; void* o = (void*)(uintptr_t)(ROLE_BASE + role); sched_point(K_ROLE, o); event(*me, K_ROLE, o); }
void leave(int role) { if (ctl()) inside[role]--; }
void await(volatile int* f) { if (!ctl()) return; sched_point(K_AWAIT, (void*)f); event(*me, K_AWAIT, (void*)f); }
void set(volatile int* f) { if (!ctl()) { *f = 1; return; } sched_point(K_SET, (void*)f); *f = 1; event(*me, K_SET, (void*)f); }
int self() { return me ? me->id : -1; }
int created() { return nthreads - 1; }
bool was_cut() { return capped; }
}

extern "C" {
int pthread_create(pthread_t* p, const pthread_attr_t* a, void* (*fn)(void*), void* arg) {
    typedef int (*F_pthread_create)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*); static F_pthread_create r_pthread_create; if (!r_pthread_create) r_pthread_create = real<F_pthread_create>("pthread_create"); F_pthread_create r = r_pthread_create; if (!ctl()) return r(p, a, fn, arg);
    if (nthreads >= MAXT) mc::fail("too many threads are created"); sched_point(K_CREATE, 0); Thread& t = th[nthreads]; init_thread(t, nthreads); t.fn = fn; t.arg = arg; event(*me, K_CREATE, &t); release(*me, &t); acquire(t, &t); t.hist = mc::hash(t.hist, me->hist); live++;
    int e = r(p, a, trampoline, &t); if (e) { mc::fail("internal: pthread_create failed"); } t.real = *p; nthreads++; return 0;
}
static Thread* find_thread(pthread_t p) { for (int i = nthreads - 1; i > 0; i--) if (!th[i].joined && pthread_equal(th[i].real, p)) return &th[i]; return 0; }
int pthread_join(pthread_t p, void** res) {
    typedef int (*F_pthread_join)(pthread_t, void**); static F_pthread_join r_pthread_join; if (!r_pthread_join) r_pthread_join = real<F_pthread_join>("pthread_join"); F_pthread_join r = r_pthread_join; if (!ctl()) return r(p, res); Thread* t = find_thread(p); if (!t) return r(p, res); if (t == me) mc::fail("a thread joins itself");
    sched_point(K_JOIN, t); event(*me, K_JOIN, t); acquire(*me, t); t->joined = true; live--; return r(p, res);
}
int pthread_detach(pthread_t p) { typedef int (*F_pthread_detach)(pthread_t); static F_pthread_detach r_pthread_detach; if (!r_pthread_detach) r_pthread_detach = real<F_pthread_detach>("pthread_detach"); F_pthread_detach r = r_pthread_detach; if (ctl()) { Thread* t = find_thread(p); if (t) { event(*me, K_DETACH, t); t->detached = true; } } return r(p); }
int pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t* a) { typedef int (*F_pthread_mutex_init)(pthread_mutex_t*, const pthread_mutexattr_t*); static F_pthread_mutex_init r_pthread_mutex_init; if (!r_pthread_mutex_init) r_pthread_mutex_init = real<F_pthread_mutex_init>("pthread_mutex_init"); F_pthread_mutex_init r = r_pthread_mutex_init; if (ctl()) { objs->erase(m); int ty = 0; if (a) pthread_mutexattr_gettype(a, &ty); obj(m).recursive = ty == PTHREAD_MUTEX_RECURSIVE; } return r(m, a); }
int pthread_mutex_destroy(pthread_mutex_t* m) { typedef int (*F_pthread_mutex_destroy)(pthread_mutex_t*); static F_pthread_mutex_destroy r_pthread_mutex_destroy; if (!r_pthread_mutex_destroy) r_pthread_mutex_destroy = real<F_pthread_mutex_destroy>("pthread_mutex_destroy"); F_pthread_mutex_destroy r = r_pthread_mutex_destroy; if (ctl()) { auto it = objs->find(m); if (it != objs->end()) { if (it->second.owner >= 0) mc::fail("a locked mutex is destroyed"); objs->erase(it); } } return r(m); }
int pthread_mutex_lock(pthread_mutex_t* m) {
    typedef int (*F_pthread_mutex_lock)(pthread_mutex_t*); static F_pthread_mutex_lock r_pthread_mutex_lock; if (!r_pthread_mutex_lock) r_pthread_mutex_lock = real<F_pthread_mutex_lock>("pthread_mutex_lock"); F_pthread_mutex_lock r = r_pthread_mutex_lock; if (!ctl()) return r(m); sched_point(K_LOCK, m); Obj& o = obj(m); o.owner = me->id; o.count++; event(*me, K_LOCK, m); acquire(*me, m); return 0; }
int pthread_mutex_trylock(pthread_mutex_t* m) {
    typedef int (*F_pthread_mutex_trylock)(pthread_mutex_t*); static F_pthread_mutex_trylock r_pthread_mutex_trylock; if (!r_pthread_mutex_trylock) r_pthread_mutex_trylock = real<F_pthread_mutex_trylock>("pthread_mutex_trylock"); F_pthread_mutex_trylock r = r_pthread_mutex_trylock; if (!ctl()) return r(m); sched_point(K_TRY, m); Obj& o = obj(m); bool ok = o.owner < 0 || (o.owner == me->id && o.recursive); event(*me, K_TRY, m, ok); if (!ok) return EBUSY; o.owner = me->id; o.count++; acquire(*me, m); return 0; }
int pthread_mutex_timedlock(pthread_mutex_t* m, const timespec*) { return pthread_mutex_lock(m); }
int pthread_mutex_unlock(pthread_mutex_t* m) {
    typedef int (*F_pthread_mutex_unlock)(pthread_mutex_t*); static F_pthread_mutex_unlock r_pthread_mutex_unlock; if (!r_pthread_mutex_unlock) r_pthread_mutex_unlock = real<F_pthread_mutex_unlock>("pthread_mutex_unlock"); F_pthread_mutex_unlock r = r_pthread_mutex_unlock; if (!ctl()) return r(m); Obj& o = obj(m); if (o.owner != me->id) mc::fail("thread %d unlocks a mutex it does not hold", me->id); if (--o.count == 0) o.owner = -1; event(*me, K_UNLOCK, m); release(*me, m); return 0; }
static int cond_wait(pthread_cond_t* c, pthread_mutex_t* m, bool timed) {
    Obj& o = obj(m); if (o.owner != me->id) mc::fail("condition wait without holding the mutex"); int cnt = o.count; o.count = 0; o.owner = -1; event(*me, K_COND, m); release(*me, m); me->signaled = false; me->timed = timed; event(*me, K_COND, c);
    sched_point(K_COND, c, m); Obj& q = obj(m); q.owner = me->id; q.count = cnt; event(*me, K_LOCK, m, me->signaled); acquire(*me, m); if (me->signaled) { event(*me, K_COND, c); acquire(*me, c); } bool to = timed && !me->signaled; me->timed = false; return to ? ETIMEDOUT : 0; }
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { typedef int (*F_pthread_cond_wait)(pthread_cond_t*, pthread_mutex_t*); static F_pthread_cond_wait r_pthread_cond_wait; if (!r_pthread_cond_wait) r_pthread_cond_wait = real<F_pthread_cond_wait>("pthread_cond_wait"); F_pthread_cond_wait r = r_pthread_cond_wait; if (!ctl()) return r(c, m); return cond_wait(c, m, false); }
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const timespec* t) { typedef int (*F_pthread_cond_timedwait)(pthread_cond_t*, pthread_mutex_t*, const timespec*); static F_pthread_cond_timedwait r_pthread_cond_timedwait; if (!r_pthread_cond_timedwait) r_pthread_cond_timedwait = real<F_pthread_cond_timedwait>("pthread_cond_timedwait"); F_pthread_cond_timedwait r = r_pthread_cond_timedwait; if (!ctl()) return r(c, m, t); return cond_wait(c, m, true); }
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const timespec* t) { typedef int (*F_pthread_cond_clockwait)(pthread_cond_t*, pthread_mutex_t*, clockid_t, const timespec*); static F_pthread_cond_clockwait r_pthread_cond_clockwait; if (!r_pthread_cond_clockwait) r_pthread_cond_clockwait = real<F_pthread_cond_clockwait>("pthread_cond_clockwait"); F_pthread_cond_clockwait r = r_pthread_cond_clockwait; if (!ctl()) return r(c, m, k, t); return cond_wait(c, m, true); }
static int wake(pthread_cond_t* c, bool all) { sched_point(K_SIGNAL, c); std::vector<Thread*> w; for (int i = 0; i < nthreads; i++) if (th[i].used && !th[i].finished && th[i].pk == K_COND && th[i].po == c && !th[i].signaled) w.push_back(&th[i]); int k = -1; if (!all && w.size() > 1) k = free_run ? 0 : mc::choose((int)w.size()); event(*me, K_SIGNAL, c, k + 1); release(*me, c); for (size_t i = 0; i < w.size(); i++) if (all || k < 0 || (int)i == k) { w[i]->signaled = true; w[i]->hist = mc::hash(w[i]->hist, me->hist); if (!all) break; } return 0; }
int pthread_cond_signal(pthread_cond_t* c) { typedef int (*F_pthread_cond_signal)(pthread_cond_t*); static F_pthread_cond_signal r_pthread_cond_signal; if (!r_pthread_cond_signal) r_pthread_cond_signal = real<F_pthread_cond_signal>("pthread_cond_signal"); F_pthread_cond_signal r = r_pthread_cond_signal; if (!ctl()) return r(c); return wake(c, false); }
int pthread_cond_broadcast(pthread_cond_t* c) { typedef int (*F_pthread_cond_broadcast)(pthread_cond_t*); static F_pthread_cond_broadcast r_pthread_cond_broadcast; if (!r_pthread_cond_broadcast) r_pthread_cond_broadcast = real<F_pthread_cond_broadcast>("pthread_cond_broadcast"); F_pthread_cond_broadcast r = r_pthread_cond_broadcast; if (!ctl()) return r(c); return wake(c, true); }
int sched_yield() { if (!ctl()) return 0; sched_point(K_YIELD, 0); event(*me, K_YIELD, 0); return 0; }
int nanosleep(const timespec* a, timespec* b) { typedef int (*F_nanosleep)(const timespec*, timespec*); static F_nanosleep r_nanosleep; if (!r_nanosleep) r_nanosleep = real<F_nanosleep>("nanosleep"); F_nanosleep r = r_nanosleep; if (!ctl()) return r(a, b); return sched_yield(); }
int clock_nanosleep(clockid_t c, int f, const timespec* a, timespec* b) { typedef int (*F_clock_nanosleep)(clockid_t, int, const timespec*, timespec*); static F_clock_nanosleep r_clock_nanosleep; if (!r_clock_nanosleep) r_clock_nanosleep = real<F_clock_nanosleep>("clock_nanosleep"); F_clock_nanosleep r = r_clock_nanosleep; if (!ctl()) return r(c, f, a, b); return sched_yield(); }
int usleep(useconds_t) { if (ctl()) sched_yield(); return 0; }

// ---- instrumentation callbacks of clang -fsanitize=thread (compile-time only)
void __tsan_init() {} void __tsan_func_entry(void*) {} void __tsan_func_exit() {} void __tsan_ignore_thread_begin() {} void __tsan_ignore_thread_end() {}
#define RW(n) void __tsan_read##n(void* p) { if (ctl()) access((uintptr_t)p, n, false); } void __tsan_write##n(void* p) { if (ctl()) access((uintptr_t)p, n, true); } \
    void __tsan_unaligned_read##n(void* p) { if (ctl()) access((uintptr_t)p, n, false); } void __tsan_unaligned_write##n(void* p) { if (ctl()) access((uintptr_t)p, n, true); } \
    void __tsan_read_write##n(void* p) { if (ctl()) access((uintptr_t)p, n, true); } void __tsan_unaligned_read_write##n(void* p) { if (ctl()) access((uintptr_t)p, n, true); } \
    void __tsan_volatile_read##n(void* p) { if (ctl()) access((uintptr_t)p, n, false); } void __tsan_volatile_write##n(void* p) { if (ctl()) access((uintptr_t)p, n, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_vptr_update(void** p, void*) { if (ctl()) access((uintptr_t)p, 8, true); } void __tsan_vptr_read(void** p) { if (ctl()) access((uintptr_t)p, 8, false); }
void __tsan_read_range(void* p, size_t n) { if (ctl()) access((uintptr_t)p, n, false); } void __tsan_write_range(void* p, size_t n) { if (ctl()) access((uintptr_t)p, n, true); }
void* __tsan_memcpy(void* d, const void* s, size_t n) { if (ctl() && n) { access((uintptr_t)s, n, false); access((uintptr_t)d, n, true); } return memcpy(d, s, n); }
void* __tsan_memmove(void* d, const void* s, size_t n) { if (ctl() && n) { access((uintptr_t)s, n, false); access((uintptr_t)d, n, true); } return memmove(d, s, n); }
void* __tsan_memset(void* d, int c, size_t n) { if (ctl() && n) access((uintptr_t)d, n, true); return memset(d, c, n); }
static void at_begin(volatile void* p) { if (ctl()) { sched_point(K_ATOMIC, (void*)p); acquire(*me, (void*)p); } }
static void at_end(volatile void* p, uint64_t v) { if (ctl()) { event(*me, K_ATOMIC, (void*)p, v); release(*me, (void*)p); } }
#define AT(n, T) \
    T __tsan_atomic##n##_load(const volatile T* p, int) { at_begin((volatile void*)p); T v = __atomic_load_n(p, 5); at_end((volatile void*)p, (uint64_t)v); return v; } \
    void __tsan_atomic##n##_store(volatile T* p, T v, int) { at_begin(p); __atomic_store_n(p, v, 5); at_end(p, (uint64_t)v); } \
    T __tsan_atomic##n##_exchange(volatile T* p, T v, int) { at_begin(p); v = __atomic_exchange_n(p, v, 5); at_end(p, (uint64_t)v); return v; } \
    T __tsan_atomic##n##_fetch_add(volatile T* p, T v, int) { at_begin(p); v = __atomic_fetch_add(p, v, 5); at_end(p, (uint64_t)v); return v; } \
    T __tsan_atomic##n##_fetch_sub(volatile T* p, T v, int) { at_begin(p); v = __atomic_fetch_sub(p, v, 5); at_end(p, (uint64_t)v); return v; } \
    T __tsan_atomic##n##_fetch_and(volatile T* p, T v, int) { at_begin(p); v = __atomic_fetch_and(p, v, 5); at_end(p, (uint64_t)v); return v; } \
    T __tsan_atomic##n##_fetch_or(volatile T* p, T v, int) { at_begin(p); v = __atomic_fetch_or(p, v, 5); at_end(p, (uint64_t)v); return v; } \
    T __tsan_atomic##n##_fetch_xor(volatile T* p, T v, int) { at_begin(p); v = __atomic_fetch_xor(p, v, 5); at_end(p, (uint64_t)v); return v; } \
    int __tsan_atomic##n##_compare_exchange_strong(volatile T* p, T* e, T v, int, int) { at_begin(p); int r = __atomic_compare_exchange_n(p, e, v, 0, 5, 5); at_end(p, (uint64_t)*e * 2 + r); return r; } \
    int __tsan_atomic##n##_compare_exchange_weak(volatile T* p, T* e, T v, int, int) { at_begin(p); int r = __atomic_compare_exchange_n(p, e, v, 0, 5, 5); at_end(p, (uint64_t)*e * 2 + r); return r; } \
    T __tsan_atomic##n##_compare_exchange_val(volatile T* p, T e, T v, int, int) { at_begin(p); __atomic_compare_exchange_n(p, &e, v, 0, 5, 5); at_end(p, (uint64_t)e); return e; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int) {} void __tsan_atomic_signal_fence(int) {}
}
void* operator new(size_t n) { void* p = malloc(n ? n : 1); if (!p) abort(); forget(p, malloc_usable_size(p)); return p; }
void* operator new[](size_t n) { return operator new(n); }
void operator delete(void* p) noexcept { free(p); } void operator delete[](void* p) noexcept { free(p); } void operator delete(void* p, size_t) noexcept { free(p); } void operator delete[](void* p, size_t) noexcept { free(p); }
