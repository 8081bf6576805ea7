// C20 parallel execution under every interleaving of its worker threads, and the range job provider.
// MC_SAN: none
// MC_FLAGS: -fsanitize=thread
// MC_LD: -ldl
// MC_REPO_SRC: no
// MC_BOUNDS: the real parallel_execute with 0..3 threads and 0..3 jobs (thorough: 4 threads, 4 jobs): ALL interleavings (no preemption bound) at every mutex/condition operation, atomic access, thread creation/start/exit/join and at points inside every call of the job provider, worker provider, workers and result collector; executions with the same happens-before fingerprint are merged; jobs that wait for each other (need two threads at once), providers that produce further jobs from results, the library's own range provider and accumulating collector; every plain memory access of the instrumented code feeds a vector-clock race detector. Range provider: every (begin, end, len) in small boxes for 8-, 32- and 64-bit signed and unsigned types, including the ends of the type
// MC_ASSUME: atomics are explored sequentially consistent (no weak-memory reorderings); merging by happens-before fingerprint is sound because data races are reported as violations
// MC_DESIGN: lib/ctl_sched.h + checks/C20_sched.cpp interpose pthread_* and supply the callbacks of clang's -fsanitize=thread instrumentation, so the unmodified header runs on real threads, one at a time, in the order the explorer chooses; monitors: mutual exclusion per collaborator, exactly-once processing and collection, one worker per thread, deadlock, livelock, leaked threads, destroyed locked mutexes, data races
#include "mc.h"
#include "ctl_sched.h"
#include "altruct/concurrency/concurrency.h"
#include <map>
#include <memory>
#include <set>
using namespace altruct::concurrency;
#define MONITOR __attribute__((no_sanitize("thread"))) static
enum { JP = 0, WP = 1, RC = 2, WK = 8 };
// ---- bookkeeping (not part of the program under test)
struct Book { int produced, executed[8], collected[8], executing_by[8]; int created; int worker_thread[16]; int worker_busy[16]; int pending_take; int njobs; volatile int started[8]; };
static Book bk;
MONITOR void bk_reset() { memset((void*)&bk, 0, sizeof bk); for (int& w : bk.worker_thread) w = -1; bk.pending_take = -1; }
MONITOR void bk_has(bool r) { bk.pending_take = r ? sched::self() : -1; }
MONITOR void bk_next() { if (bk.pending_take != sched::self()) mc::fail("thread %d takes a job although the provider did not just tell it that there is one", sched::self()); bk.pending_take = -1; bk.produced++; }
MONITOR int bk_create() { return bk.created++; }
MONITOR void bk_exec(int w, int job) { int t = sched::self(); if (job < 0 || job >= 8 || bk.executed[job]++) mc::fail("job %d is executed twice or does not exist", job); if (bk.worker_busy[w]++) mc::fail("worker %d is used by two threads at once", w); if (bk.worker_thread[w] < 0) { for (int i = 0; i < 16; i++) if (bk.worker_thread[i] == t) mc::fail("thread %d uses two workers", t); bk.worker_thread[w] = t; } else if (bk.worker_thread[w] != t) mc::fail("worker %d is used by threads %d and %d", w, bk.worker_thread[w], t); bk.executing_by[job] = t + 1; }
MONITOR void bk_exec_end(int w) { bk.worker_busy[w]--; }
MONITOR void bk_collect(int result, int job) { if (job < 0 || job >= 8 || !bk.executed[job]) mc::fail("result of a job that was not executed is collected"); if (result != job * 7 + 3) mc::fail("job %d is collected with result %d", job, result); if (bk.collected[job]++) mc::fail("result of job %d is collected twice", job); }
MONITOR void bk_done(int total, int threads) { for (int j = 0; j < total; j++) if (bk.executed[j] != 1 || bk.collected[j] != 1) mc::fail("job %d was executed %d times and collected %d times", j, bk.executed[j], bk.collected[j]); if (bk.produced != total) mc::fail("%d jobs were taken, %d expected", bk.produced, total); if (bk.created != (threads > 1 ? threads : 1)) mc::fail("%d workers were created for %d threads", bk.created, threads); }
struct In { int r; In(int r, const char* w) : r(r) { sched::enter(r, w); } ~In() { sched::leave(r); } };
// ---- collaborators: deliberately not thread safe
struct Job { int id; std::unique_ptr<int> payload; explicit Job(int id) : id(id), payload(new int(id)) {} }; // move-only
struct Provider { int next, total; bool fine; bool has_next_job() { In in(JP, "has_next_job"); if (fine) sched::point(JP); bool r = next < total; bk_has(r); return r; } Job next_job() { In in(JP, "next_job"); int j = next; sched::point(JP); bk_next(); next = j + 1; return Job(j); } };
struct Worker { int id; int uses; int mode; Worker(int id, int mode) : id(id), uses(0), mode(mode) {}
    int execute_job(const Job& j) { bk_exec(id, j.id); uses++; if (mode == 1) { sched::set(&bk.started[j.id]); sched::await(&bk.started[j.id ^ 1]); } else sched::point(WK + id); uses++; bk_exec_end(id); return *j.payload * 7 + 3; } };
struct Workers { int made; int mode; Worker create_worker() { In in(WP, "create_worker"); int k = made; sched::point(WP); made = k + 1; return Worker(bk_create(), mode); } };
struct Collector { int sum; void collect_result(int r, const Job& j) { In in(RC, "collect_result"); int s = sum; sched::point(RC); bk_collect(r, j.id); sum = s + r; } };
static void warm_up() { static bool done = false; if (done) return; done = true; int x = 0; std::mutex m; std::condition_variable c; for (int i = 0; i < 3; i++) { std::thread t([&] { std::unique_lock<std::mutex> l(m); x++; c.notify_all(); }); t.join(); } } // one-time initialisation inside libc++ happens outside of the controlled runs
static void execute(int threads, int jobs, int mode, bool fine) {
    bk_reset(); Provider p; p.next = 0; p.total = jobs; p.fine = fine; Workers w; w.made = 0; w.mode = mode; Collector c; c.sum = 0;
    warm_up(); sched::run([&] { parallel_execute(c, p, w, threads); });
    int s = 0; for (int j = 0; j < jobs; j++) s += j * 7 + 3; MC_CHECK(c.sum == s, "collected sum %d expected %d", c.sum, s); MC_CHECK(w.made == (threads > 1 ? threads : 1), "%d workers made", w.made); bk_done(jobs, threads);
    if (threads > 1) MC_CHECK(sched::created() <= threads, "%d threads were created for %d requested", sched::created(), threads);
}
// jobs produced by results: a binary splitting of work; the provider and the collector share a to-do list that only the
// provider's and collector's own calls touch in the harness-level model (one object per role, guarded by harness design)
struct Chunk { int id; };
struct DynProvider { std::vector<int> todo; int given; bool has_next_job() { In in(JP, "has_next_job"); bool r = !todo.empty(); bk_has(r); return r; } Chunk next_job() { In in(JP, "next_job"); Chunk c{todo.back()}; todo.pop_back(); sched::point(JP); bk_next(); if (c.id == 0) { todo.push_back(1); todo.push_back(2); } given++; return c; } };
struct DynWorker { int id; int execute_job(const Chunk& c) { bk_exec(id, c.id); sched::point(WK + id); bk_exec_end(id); return c.id * 7 + 3; } };
struct DynWorkers { int made; DynWorker create_worker() { In in(WP, "create_worker"); made++; return DynWorker{bk_create()}; } };
struct DynCollector { std::vector<int> ids; void collect_result(int r, const Chunk& j) { In in(RC, "collect_result"); sched::point(RC); bk_collect(r, j.id); ids.push_back(j.id); } };
static void dynamic(int threads) { bk_reset(); DynProvider p; p.todo = {0}; p.given = 0; DynWorkers w; w.made = 0; DynCollector c; warm_up(); sched::run([&] { parallel_execute(c, p, w, threads); }); bk_done(3, threads); MC_CHECK(c.ids.size() == 3 && p.given == 3, "dynamic jobs"); }
// the library's own provider and collector
struct RW { int id; std::vector<int> buf; int execute_job(const std::pair<int, int>& j) { if (j.second - j.first > 2 || j.first >= j.second) mc::fail("chunk [%d,%d)", j.first, j.second); buf.resize(2); int s = 0; for (int i = j.first; i < j.second; i++) { if (i < 0 || i >= 5) mc::fail("element %d is outside of the range", i); sched::point(WK + id); buf[i - j.first] = i; s += 1 << (4 * i); } return s; } };
struct RWs { int made; RW create_worker() { In in(WP, "create_worker"); sched::point(WP); return RW{made++}; } };
static void library(int threads) { bk_reset(); range_job_provider<int> jp(0, 5, 2); add_result_collector<int> rc; RWs w; w.made = 0; warm_up(); sched::run([&] { parallel_execute(rc, jp, w, threads); }); MC_CHECK(rc.result == 0x11111, "elements are processed as %x", rc.result); }
static void lock_macro(int threads, int rounds) { std::mutex m; int counter = 0; warm_up(); sched::run([&] { std::vector<std::thread> t; for (int i = 0; i < threads; i++) t.emplace_back([&] { for (int r = 0; r < rounds; r++) { int runs = 0; LOCK(m) { In in(RC, "locked block"); int c = counter; sched::point(RC); counter = c + 1; runs++; } if (runs != 1) mc::fail("the locked block ran %d times", runs); } }); for (auto& x : t) x.join(); }); MC_CHECK(counter == threads * rounds, "%d increments under the lock, expected %d", counter, threads * rounds); }
// ---- range job provider
template <class I> static void range_check(I b, I e, I len) { range_job_provider<I> p(b, e, len); I at = b; int n = 0; mc::op(); while (p.has_next_job()) { MC_CHECK(at < e, "more jobs than the range [%lld,%lld) has", (long long)b, (long long)e); auto j = p.next_job(); MC_CHECK(j.first == at && j.second > j.first && j.second <= e && (unsigned long long)j.second - (unsigned long long)j.first <= (unsigned long long)len, "job [%lld,%lld) at %lld of range [%lld,%lld) in steps of %lld", (long long)j.first, (long long)j.second, (long long)at, (long long)b, (long long)e, (long long)len); MC_CHECK(j.second == e || (unsigned long long)j.second - (unsigned long long)j.first == (unsigned long long)len, "job [%lld,%lld) is short", (long long)j.first, (long long)j.second); at = j.second; if (++n > 100000) mc::fail("too many jobs"); } MC_CHECK(!(at < e), "range [%lld,%lld) ends at %lld", (long long)b, (long long)e, (long long)at); }
template <class I> static void edges() { typedef std::numeric_limits<I> L; int which = mc::choose(3); int a = mc::choose(12), n = mc::choose(13); I len = mc::choose(2) ? (I)(1 + mc::choose(12)) : (I)(L::max() - mc::choose(3)); mc::state(mc::H()(sizeof(I))(L::is_signed)(which)(a)(n)(len)); I b = which == 0 ? (I)(L::min() + a) : which == 1 ? (I)(L::max() - a - n) : (I)(L::is_signed ? a - 6 : a), e = (I)(b + n); range_check<I>(b, e, len); if (n > 0) range_check<I>(e, b, len); if (which == 2) { if ((unsigned long long)len > 1000000) { range_check<I>(b, L::max(), len); range_check<I>(L::min(), e, len); } } }
static void range_bytes() { int b = mc::choose(256) - 128; for (int e = -128; e < 128; e++) for (int len = 1; len < 128; len += len < 20 ? 1 : 9) range_check<signed char>((signed char)b, (signed char)e, (signed char)len); mc::state(mc::H()(1)(b)); }
MC_SETUP(all) {
    for (int t = 0; t <= mc::tier(3, 4); t++) for (int j = 0; j <= mc::tier(3, 4); j++) { std::string n = std::to_string(t) + "x" + std::to_string(j); if (t * j > mc::tier(9, 12)) continue; mc::add("execute_" + n, [=] { execute(t, j, 0, t * j <= 4); }); }
    if (!mc::thorough()) mc::add("execute_2x4", [] { execute(2, 4, 0, false); });
    for (int t = 2; t <= 3; t++) mc::add("rendezvous_" + std::to_string(t), [t] { execute(t, 2, 1, false); }); mc::add("rendezvous_2x4", [] { execute(2, 4, 1, false); });
    for (int t = 1; t <= 3; t++) mc::add("dynamic_" + std::to_string(t), [t] { dynamic(t); }); for (int t = 0; t <= 3; t++) mc::add("library_" + std::to_string(t), [t] { library(t); });
    mc::add("execute_negative_threads", [] { execute(-1, 2, 0, true); });
    mc::add("lock_2x2", [] { lock_macro(2, 2); }); mc::add("lock_3x1", [] { lock_macro(3, 1); }); mc::add("lock_3x2", [] { lock_macro(3, 2); });
    mc::add("range_i32", edges<int>, 4); mc::add("range_u32", edges<unsigned>, 4); mc::add("range_i64", edges<long long>, 4); mc::add("range_u64", edges<unsigned long long>, 4); mc::add("range_i8", range_bytes, 4);
}
