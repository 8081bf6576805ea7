#include "mc.h"
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <signal.h>
#include <unistd.h>
#include <fcntl.h>
#include <errno.h>
#include <time.h>
#include <atomic>
#include <algorithm>
#include <fstream>
#include <map>
#include <set>
#include <sstream>

#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#define MC_ASAN 1
#endif
#endif
#ifdef MC_ASAN
extern "C" const char* __asan_default_options() { return "detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=1:hard_rss_limit_mb=3500:detect_stack_use_after_return=0:handle_abort=1:max_allocation_size_mb=3000:print_suppressions=0:symbolize=1:new_delete_type_mismatch=0:alloc_dealloc_mismatch=0"; }
extern "C" const char* __ubsan_default_options() { return "print_stacktrace=0:halt_on_error=1:exitcode=78"; }
#endif

namespace mc {

struct Scenario { std::string name; std::function<void()> fn; int shards; int hang_s; };
static std::vector<Scenario>& scenarios() { static std::vector<Scenario> v; return v; }
static std::vector<void (*)()>& setups() { static std::vector<void (*)()> v; return v; }
Reg::Reg(const char* name, void (*fn)(), int shards, int hang_s) { scenarios().push_back({name, fn, shards, hang_s}); }
Setup::Setup(void (*fn)()) { setups().push_back(fn); }
void add(const std::string& name, std::function<void()> fn, int shards, int hang_s) { scenarios().push_back({name, fn, shards, hang_s}); }

struct Slot { // one per worker process, in shared memory
    std::atomic<uint64_t> beat;
    volatile int len;              // choices taken so far in this execution
    int ch[MAX_TRACE], nn[MAX_TRACE];
    volatile int failed;           // 1 violation
    char msg[4096];
    uint64_t exec_no;
};
struct Totals {
    std::atomic<uint64_t> execs, ops, states, states_capped, cut, pruned, max_len;
    std::atomic<int> stop;
    char known[64][256]; char known_msg[64][512]; std::atomic<uint64_t> known_n[64]; std::atomic<int> nknown; std::atomic_flag lock;
    char samples[8][1024]; std::atomic<int> nsamples;
};
static Totals* T; static Slot* S; // S: this process' slot
static std::atomic<uint64_t>* state_tab; static uint64_t state_cap;
static std::atomic<uint64_t>* seen_tab; static uint64_t seen_cap;
static int n_slots = 8;
static Slot* slots;
static bool g_thorough = false;
static std::set<std::string> g_known_keys;
static int shard_k = 0, shard_n = 1; static uint64_t scen_salt;
static std::vector<int> plan; // choices to replay (DFS prefix)
static bool strict_plan = false;
static bool g_replay = false, g_tracing = false; static std::string g_trace;
static double g_deadline = 0;

static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static void* shm(size_t n) { void* p = mmap(0, n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (p == MAP_FAILED) { perror("mmap"); exit(2); } return p; }

bool thorough() { return g_thorough; }
int tier(int a, int b) { return g_thorough ? b : a; }
bool tracing() { return g_tracing; }
bool fresh() { return S->len >= (int)plan.size(); }
void trace(const char* fmt, ...) {
    if (!g_tracing) return;
    char b[1024]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    if (g_replay) { printf("%s\n", b); fflush(stdout); return; }
    if (g_trace.size() < 60000) { g_trace += b; g_trace += "\n"; }
}
static void local_flush();
static void vfailf(const char* fmt, va_list ap) { vsnprintf(S->msg, sizeof S->msg, fmt, ap); }
static bool flag_failed = false;
void fail(const char* fmt, ...) {
    va_list ap; va_start(ap, fmt); vfailf(fmt, ap); va_end(ap);
    S->failed = 1; local_flush();
    if (g_tracing) { fprintf(stdout, "%s", g_trace.c_str()); fprintf(stdout, "VIOLATED: %s\n", S->msg); fflush(stdout); }
    _exit(3);
}
void known(const std::string& key, const char* fmt, ...) {
    char b[512]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    if (!g_known_keys.count(key)) fail("%s (key=%s)", b, key.c_str());
    while (T->lock.test_and_set()) {}
    int n = T->nknown, i = 0; for (; i < n; i++) if (key == T->known[i]) break;
    if (i == n && n < 64) { snprintf(T->known[i], 256, "%s", key.c_str()); snprintf(T->known_msg[i], 512, "%s", b); T->nknown = n + 1; }
    if (i < 64) T->known_n[i]++;
    T->lock.clear();
    throw Skip();
}
void cut() { T->cut++; throw Skip(); }

int choose(int n) {
    if (n <= 0) { fail("internal: choose(%d)", n); }
    int d = S->len, c;
    if (d >= MAX_TRACE - 1) fail("internal: execution exceeded the horizon of %d choices", (int)MAX_TRACE);
    if (d < (int)plan.size()) {
        c = plan[d];
        if (c >= n || (strict_plan && S->nn[d] && S->nn[d] != n)) { fail("internal: divergence while replaying choice %d (%d of %d, was %d)", d, c, n, S->nn[d]); }
    } else c = 0;
    S->nn[d] = n; S->ch[d] = c; S->len = d + 1;
    S->beat.fetch_add(1, std::memory_order_relaxed);
    if (shard_n > 1 && d == 1) { // ownership by the first two choices
        if ((int)(hash(S->ch[0], S->ch[1]) % shard_n) != shard_k) throw Skip();
    }
    return c;
}
static uint64_t l_ops = 0, l_states = 0, l_execs = 0;
static void local_flush() { T->ops += l_ops; l_ops = 0; T->states += l_states; l_states = 0; T->execs += l_execs; l_execs = 0; }
void op(uint64_t k) { l_ops += k; S->beat.fetch_add(1, std::memory_order_relaxed); }
static int insert(std::atomic<uint64_t>* tab, uint64_t cap, uint64_t h) { // 1 new, 0 present, -1 full
    if (!h) h = 1;
    uint64_t i = mix(h) & (cap - 1);
    for (int probe = 0; probe < 512; probe++, i = (i + 1) & (cap - 1)) {
        uint64_t v = tab[i].load(std::memory_order_relaxed);
        if (v == h) return 0;
        if (v == 0) { if (tab[i].compare_exchange_strong(v, h)) return 1; if (v == h) return 0; }
    }
    return -1;
}
bool state(uint64_t h) {
    int r = insert(state_tab, state_cap, hash(h, scen_salt));
    if (r == 1) l_states++;
    if (r == -1) T->states_capped++;
    return r == 1;
}
bool seen(uint64_t h) {
    if (S->len < (int)plan.size()) return false;   // replayed prefix: its nodes are being explored right now
    if (shard_n > 1 && S->len < 2) return false;    // node shared by several shards: nobody owns its whole subtree
    int r = insert(seen_tab, seen_cap, hash(h, scen_salt, 77));
    if (r == 0) { T->pruned++; return true; }
    return false;
}

// runs one execution; returns false if it was abandoned
static bool run_once(const Scenario& sc) {
    S->len = 0;
    try { sc.fn(); return true; } catch (const Skip&) { return false; }
}
static bool owned() { // executions with fewer than two choices are owned by shard of their (padded) prefix
    if (shard_n <= 1 || S->len >= 2) return true;
    int a = S->len > 0 ? S->ch[0] : 0;
    return (int)(hash(a, 0) % shard_n) == shard_k;
}
static void explore(const Scenario& sc, int k) {
    shard_k = k; shard_n = sc.shards; scen_salt = H().str(sc.name);
    plan.clear(); strict_plan = true; memset(S->nn, 0, sizeof S->nn);
    uint64_t cnt = 0;
    for (;;) {
        S->exec_no = cnt;
        // sample executions are traced: first and 101st of the first shards
        g_tracing = (k == 0 && cnt == 0) || (k == 1 % sc.shards && cnt == 100); g_trace.clear();
        bool full = run_once(sc);
        bool mine = full && owned();
        if (mine) { l_execs++; if ((uint64_t)S->len > T->max_len) T->max_len = S->len; }
        if (g_tracing && mine && !g_trace.empty()) {
            int i = T->nsamples.fetch_add(1);
            if (i < 8) snprintf(T->samples[i], sizeof T->samples[i], "%s: %s", sc.name.c_str(), g_trace.c_str());
        }
        g_tracing = false;
        cnt++;
        if ((cnt & 255) == 0) { local_flush(); if (T->stop) break; }
        // next choice sequence
        int len = S->len; 
        while (len > 0 && S->ch[len - 1] + 1 >= S->nn[len - 1]) { S->nn[len - 1] = 0; len--; }
        if (len == 0) break;
        plan.assign(S->ch, S->ch + len); plan[len - 1]++;
    }
    local_flush();
}

} // namespace mc
using namespace mc;

static std::string jesc(const std::string& s) {
    std::string r; char b[8];
    for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c == '\n') r += "\\n"; else if (c < 32 || c > 126) { snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; }
    return r;
}
static const Scenario* find(const std::string& n) { for (auto& s : scenarios()) if (s.name == n) return &s; return 0; }
static void limits() {
#ifndef MC_ASAN
    rlimit r{(rlim_t)4 << 30, (rlim_t)4 << 30}; setrlimit(RLIMIT_AS, &r);
#endif
    rlimit c{0, 0}; setrlimit(RLIMIT_CORE, &c);
}

int main(int argc, char** argv) {
    std::string out, replay, known_file, viol = "violation.txt", only, errdir = "."; int jobs = 8; double budget = 700; int hang = 45;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i]; auto nx = [&]() { return std::string(argv[++i]); };
        if (a == "--out") out = nx(); else if (a == "--replay") replay = nx(); else if (a == "--known") known_file = nx();
        else if (a == "--viol") viol = nx(); else if (a == "--jobs") jobs = atoi(nx().c_str()); else if (a == "--budget") budget = atof(nx().c_str());
        else if (a == "--thorough") g_thorough = true; else if (a == "--only") only = nx(); else if (a == "--hang") hang = atoi(nx().c_str());
        else if (a == "--errdir") errdir = nx();
        else { fprintf(stderr, "bad arg %s\n", a.c_str()); return 2; }
    }
    if (!known_file.empty()) { std::ifstream f(known_file); std::string l; while (std::getline(f, l)) if (!l.empty()) g_known_keys.insert(l); }
    std::ifstream rf; std::string r_scen, r_mode = "trace"; int r_shard = 0; std::vector<int> r_plan;
    if (!replay.empty()) {
        rf.open(replay); if (!rf) { fprintf(stderr, "cannot open %s\n", replay.c_str()); return 2; }
        std::string l;
        while (std::getline(rf, l)) {
            std::istringstream is(l); std::string k; is >> k;
            if (k == "scenario") is >> r_scen; else if (k == "mode") is >> r_mode; else if (k == "shard") is >> r_shard;
            else if (k == "tier") { std::string t; is >> t; g_thorough = t == "thorough"; }
            else if (k == "choices") { int c; while (is >> c) r_plan.push_back(c); }
        }
    }
    T = (Totals*)shm(sizeof(Totals)); slots = (Slot*)shm(sizeof(Slot) * 64); n_slots = jobs;
    state_cap = 1ull << 26; seen_cap = 1ull << 26;
    state_tab = (std::atomic<uint64_t>*)shm(state_cap * 8); seen_tab = (std::atomic<uint64_t>*)shm(seen_cap * 8);
    S = &slots[63];
    for (auto f : setups()) f();
    limits();

    if (!replay.empty()) {
        const Scenario* sc = find(r_scen); if (!sc) { fprintf(stderr, "no scenario %s\n", r_scen.c_str()); return 2; }
        pid_t pid = fork();
        if (pid == 0) {
            S = &slots[0];
            if (r_mode == "shard") { explore(*sc, r_shard); _exit(0); }
            plan = r_plan; g_tracing = g_replay = true; shard_n = 1; scen_salt = H().str(sc->name);
            run_once(*sc); printf("%sno violation on this trace\n", g_trace.c_str()); fflush(stdout); _exit(0);
        }
        double t0 = now(), lastt = t0; uint64_t last = 0; int st = 0;
        double lim = r_mode == "shard" ? 1e9 : 150;
        for (;;) {
            pid_t w = waitpid(pid, &st, WNOHANG);
            if (w == pid) break;
            uint64_t b = slots[0].beat; if (b != last) { last = b; lastt = now(); }
            if (now() - lastt > 100 || now() - t0 > lim) { kill(pid, SIGKILL); waitpid(pid, &st, 0); printf("VIOLATED: hang (no progress for 100 s, or over 150 s for a single execution)\n"); return 1; }
            usleep(2000);
        }
        if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return 0;
        if (!slots[0].failed) printf("VIOLATED: crash (wait status %d) after choices", st); else printf("reproduced: %s\nchoices", slots[0].msg);
        for (int i = 0; i < slots[0].len; i++) printf(" %d", slots[0].ch[i]);
        printf("\n"); fflush(stdout);
        return strncmp(slots[0].msg, "internal:", 9) == 0 ? 2 : 1;
    }

    struct Task { int sc, k; };
    std::vector<Task> tasks;
    for (int s = 0; s < (int)scenarios().size(); s++) if (only.empty() || scenarios()[s].name.find(only) != std::string::npos)
        for (int k = 0; k < scenarios()[s].shards; k++) tasks.push_back({s, k});
    std::vector<int> undone(scenarios().size(), 0);
    for (auto& t : tasks) undone[t.sc]++;
    // interleave so that long scenarios spread; stable order
    struct Run { pid_t pid; int task; double lastt; uint64_t last; double start; };
    std::map<int, Run> run; size_t nxt = 0; double t0 = now(); bool capped = false, bad = false;
    auto write_violation = [&](int slot, const Task& t, const std::string& msg) {
        std::ofstream f(viol);
        f << "scenario " << scenarios()[t.sc].name << "\nmode trace\nshard " << t.k << "\ntier " << (g_thorough ? "thorough" : "quick") << "\nchoices";
        for (int i = 0; i < slots[slot].len; i++) f << ' ' << slots[slot].ch[i];
        f << "\nmessage " << msg << "\n";
    };
    std::vector<double> sc_time(scenarios().size(), 0);
    while (!bad && (nxt < tasks.size() || !run.empty())) {
        for (int s = 0; s < n_slots && nxt < tasks.size(); s++) if (!run.count(s)) {
            if (now() - t0 > budget) { capped = true; nxt = tasks.size(); break; }
            int ti = nxt++;
            memset((void*)&slots[s], 0, sizeof(Slot));
            pid_t pid = fork();
            if (pid == 0) {
                S = &slots[s];
                std::string e = errdir + "/err." + std::to_string(s); int fd = open(e.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644); if (fd >= 0) { dup2(fd, 2); close(fd); }
                explore(scenarios()[tasks[ti].sc], tasks[ti].k); _exit(0);
            }
            run[s] = {pid, ti, now(), 0, now()};
        }
        bool any = false;
        for (auto it = run.begin(); it != run.end();) {
            int s = it->first; Run& r = it->second; int st;
            pid_t w = waitpid(r.pid, &st, WNOHANG);
            const Task& t = tasks[r.task];
            if (w == r.pid) {
                any = true;
                if (WIFEXITED(st) && WEXITSTATUS(st) == 0) { if (!T->stop) undone[t.sc]--; sc_time[t.sc] += now() - r.start; it = run.erase(it); continue; }
                std::string msg = slots[s].failed ? slots[s].msg : ("crash, wait status " + std::to_string(st) + " (see err." + std::to_string(s) + ")");
                if (!slots[s].failed) { std::ifstream f(errdir + "/err." + std::to_string(s)); std::string l; while (std::getline(f, l)) if (l.find("ERROR:") != std::string::npos || l.find("SUMMARY") != std::string::npos || l.find("runtime error") != std::string::npos || l.find("terminat") != std::string::npos) { msg += " | " + l.substr(0, 300); } }
                write_violation(s, t, msg); printf("FOUND %s: %s\n", scenarios()[t.sc].name.c_str(), msg.c_str()); bad = true; it = run.erase(it); break;
            }
            uint64_t b = slots[s].beat; double tn = now();
            if (b != r.last) { r.last = b; r.lastt = tn; }
            else if (tn - r.lastt > (scenarios()[t.sc].hang_s ? scenarios()[t.sc].hang_s : hang)) {
                kill(r.pid, SIGKILL); waitpid(r.pid, &st, 0);
                write_violation(s, t, "hang: no progress"); printf("FOUND %s: hang\n", scenarios()[t.sc].name.c_str()); bad = true; it = run.erase(it); break;
            }
            ++it;
        }
        if (now() - t0 > budget && !T->stop) { T->stop = 1; capped = true; }
        if (!any) usleep(500);
    }
    for (auto& r : run) { kill(r.second.pid, SIGKILL); int st; waitpid(r.second.pid, &st, 0); }
    if (!out.empty()) {
        std::ofstream f(out);
        f << "{\"executions\":" << T->execs << ",\"transitions\":" << T->ops << ",\"states\":" << T->states << ",\"pruned\":" << T->pruned << ",\"cut\":" << T->cut << ",\"max_choices\":" << T->max_len << ",\"states_table_overflow\":" << T->states_capped << ",\"capped\":" << (capped ? "true" : "false");
        f << ",\"scenarios\":["; bool first = true;
        for (size_t i = 0; i < scenarios().size(); i++) { if (!only.empty() && scenarios()[i].name.find(only) == std::string::npos) continue; f << (first ? "" : ",") << "{\"name\":\"" << jesc(scenarios()[i].name) << "\",\"complete\":" << (undone[i] == 0 ? "true" : "false") << ",\"cpu_s\":" << int(sc_time[i] * 10) / 10.0 << "}"; first = false; }
        f << "],\"samples\":["; int ns = std::min(8, (int)T->nsamples); for (int i = 0; i < ns; i++) f << (i ? "," : "") << "\"" << jesc(T->samples[i]) << "\"";
        f << "],\"known\":["; for (int i = 0; i < T->nknown; i++) f << (i ? "," : "") << "{\"key\":\"" << jesc(T->known[i]) << "\",\"msg\":\"" << jesc(T->known_msg[i]) << "\",\"n\":" << T->known_n[i] << "}";
        f << "]}\n";
    }
    printf("%s: executions=%llu transitions=%llu states=%llu pruned=%llu cut=%llu %s %.1fs\n", bad ? "VIOLATION" : "ok", (unsigned long long)T->execs, (unsigned long long)T->ops, (unsigned long long)T->states, (unsigned long long)T->pruned, (unsigned long long)T->cut, capped ? "CAPPED" : "complete", now() - t0);
    return bad ? 1 : 0;
}
