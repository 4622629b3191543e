#include "host.hpp"

#include <atomic>
#include <cmath>
#include <cstring>
#include <mutex>
#include <pthread.h>
#include <sys/time.h>
#include <unistd.h>

namespace host {

std::function<void(LockEvent)> lock_hook;
std::function<bool(size_t)> fail_hook;
bool check_large_locked = false;
long large_allocs, large_frees;

static pthread_mutex_t g_lock;
static bool g_lock_ready;
static thread_local int t_depth;
static thread_local bool t_in_hook;
static std::atomic<long> g_locks;
static std::string g_lock_error, g_reset_error;
static pthread_mutex_t g_err_mutex = PTHREAD_MUTEX_INITIALIZER;

static void lock_problem(const char* m) {
    pthread_mutex_lock(&g_err_mutex);
    if (g_lock_error.empty()) g_lock_error = m;
    pthread_mutex_unlock(&g_err_mutex);
}
static void init_lock() {
    pthread_mutexattr_t a;
    pthread_mutexattr_init(&a);
    pthread_mutexattr_settype(&a, PTHREAD_MUTEX_ERRORCHECK);
    pthread_mutex_init(&g_lock, &a);
    g_lock_ready = true;
}
static void call_hook(LockEvent e) {
    if (!lock_hook || t_in_hook) return;
    t_in_hook = true;
    lock_hook(e);
    t_in_hook = false;
}
int lock_depth() { return t_depth; }
void set_lock_depth_error(const char* m) { lock_problem(m); }
long lock_count() { return g_locks; }
const std::string& lock_error() { return g_lock_error.empty() ? g_reset_error : g_lock_error; }
void clear_lock_state() { t_depth = 0; g_lock_error.clear(); g_locks = 0; t_in_hook = false; init_lock(); }

static void do_lock() {
    if (!g_lock_ready) init_lock();
    g_locks++;
    call_hook(BEFORE_LOCK);
    if (t_depth > 0) lock_problem("the host lock was requested while already held by the same thread");
    else {
        struct timespec ts;
        clock_gettime(CLOCK_REALTIME, &ts);
        ts.tv_sec += 5;
        if (pthread_mutex_timedlock(&g_lock, &ts)) lock_problem("the host lock was never released");
    }
    t_depth++;
    call_hook(AFTER_LOCK);
}
static void do_unlock() {
    call_hook(BEFORE_UNLOCK);
    if (t_depth <= 0) { lock_problem("the host lock was released without being held"); return; }
    t_depth--;
    if (t_depth == 0) pthread_mutex_unlock(&g_lock);
    call_hook(AFTER_UNLOCK);
}

// ---- tracking allocator: the library's objects call these instead of malloc & co.
namespace {
struct Entry { void* p; size_t n; };
struct Table {
    std::vector<Entry> t = std::vector<Entry>(1 << 14, Entry{nullptr, 0});
    size_t used = 0, count = 0, bytes = 0, large = 0;
    static size_t h(void* p) { return (size_t) (((uintptr_t) p >> 4) * 0x9e3779b97f4a7c15ull >> 20); }
    static constexpr uintptr_t kGone = 1;
    void add(void* p, size_t n) {
        if (used * 2 > t.size()) rehash();
        size_t i = h(p) & (t.size() - 1);
        while (t[i].p && (uintptr_t) t[i].p != kGone) i = (i + 1) & (t.size() - 1);
        if (!t[i].p) used++;
        t[i] = {p, n};
        count++; bytes += n; large += n >= kLarge;
    }
    bool del(void* p, size_t* n) {
        size_t i = h(p) & (t.size() - 1);
        while (t[i].p) {
            if (t[i].p == p) {
                *n = t[i].n;
                count--; bytes -= t[i].n; large -= t[i].n >= kLarge;
                t[i] = {(void*) kGone, 0};
                return true;
            }
            i = (i + 1) & (t.size() - 1);
        }
        return false;
    }
    void rehash() {
        std::vector<Entry> o;
        o.swap(t);
        t.assign(count * 4 > o.size() ? o.size() * 2 : o.size(), Entry{nullptr, 0});
        used = count = bytes = large = 0;
        for (auto& e : o) if ((uintptr_t) e.p > kGone) add(e.p, e.n);
    }
};
Table& table() { static Table* t = new Table; return *t; }
pthread_mutex_t g_alloc = PTHREAD_MUTEX_INITIALIZER;

bool large_may_pass(size_t n) {
    if (n < kLarge) return true;
    if (check_large_locked && t_depth == 0) lock_problem("storage was obtained while the host lock was not held");
    call_hook(BEFORE_ALLOC);
    if (fail_hook && fail_hook(n)) return false;
    large_allocs++;
    return true;
}
void* track(void* p, size_t n) {
    if (!p) return p;
    pthread_mutex_lock(&g_alloc);
    table().add(p, n);
    pthread_mutex_unlock(&g_alloc);
    if (n >= kLarge) call_hook(AFTER_ALLOC);
    return p;
}
void untrack(void* p) {
    if (!p) return;
    size_t n = 0;
    pthread_mutex_lock(&g_alloc);
    bool known = table().del(p, &n);
    pthread_mutex_unlock(&g_alloc);
    if (known && n >= kLarge) {
        large_frees++;
        call_hook(BEFORE_FREE);
        if (check_large_locked && t_depth == 0) lock_problem("storage was released while the host lock was not held");
    }
}
}  // namespace

AllocStats live() { return {(long) table().count, table().bytes}; }
size_t large_live() { return table().large; }

void child_init() { init_lock(); }

void reset_library_state() {
    lock_hook = nullptr;
    fail_hook = nullptr;
    check_large_locked = false;
    clear_lock_state();
    projectm_eval_memory_global_destroy();
    projectm_eval_context* c = projectm_eval_context_create(nullptr, nullptr);
    for (int i = 0; i < 100; i++) {
        char b[8];
        snprintf(b, sizeof b, "reg%02d", i);
        *projectm_eval_context_register_variable(c, b) = 0;
    }
    projectm_eval_context_destroy(c);
    projectm_eval_memory_global_destroy();
    // what went wrong with the lock in here counts, too
    if (g_reset_error.empty()) g_reset_error = t_depth ? "the host lock was not released" : g_lock_error;
    clear_lock_state();
    large_allocs = large_frees = 0;
}

std::string g17(double v) {
    char b[64];
    snprintf(b, sizeof b, "%.17g", v);
    return b;
}

Ctx::Ctx(projectm_eval_mem_buffer g, double (*regs)[100]) : c(projectm_eval_context_create(g, regs)) {}
Ctx::~Ctx() {
    for (int i = 0; i < 2; i++) {
        if (rd_[i]) projectm_eval_code_destroy(rd_[i]);
        if (wr_[i]) projectm_eval_code_destroy(wr_[i]);
    }
    projectm_eval_context_destroy(c);
}
projectm_eval_code* Ctx::compile(const std::string& t) {
    char* b = (char*) malloc(t.size() + 1);
    memcpy(b, t.c_str(), t.size() + 1);
    projectm_eval_code* h = projectm_eval_code_compile(c, b);
    free(b);
    return h;
}
std::string Ctx::error(int* line, int* col) {
    const char* e = projectm_eval_get_error(c, line, col);
    return e ? e : "";
}
void Ctx::prepare() {
    if (pi_) return;
    pi_ = var("vc_index");
    pv_ = var("vc_value");
    rd_[0] = compile("megabuf(vc_index)");
    rd_[1] = compile("gmegabuf(vc_index)");
    wr_[0] = compile("assign(megabuf(vc_index),vc_value)");
    wr_[1] = compile("assign(gmegabuf(vc_index),vc_value)");
}
double Ctx::peek(bool global, double index) {
    prepare();
    *pi_ = index;
    return projectm_eval_code_execute(rd_[global]);
}
void Ctx::poke(bool global, double index, double v) {
    prepare();
    *pi_ = index;
    *pv_ = v;
    projectm_eval_code_execute(wr_[global]);
}

void load_state(Ctx& c, const model::State& s) {
    for (auto& v : s.vars) *c.var(v.first) = v.second;
    for (int i = 0; i < 100; i++) {
        char b[8];
        snprintf(b, sizeof b, "reg%02d", i);
        if (s.reg[i] != 0) *c.var(b) = s.reg[i];
    }
    for (int g = 0; g < 2; g++) {
        const model::Memory& m = g ? s.global : s.local;
        for (int p : m.pages())
            for (int k = 0; k < 4096; k++) {
                double v = m.get(p * 4096 + k);
                if (v != 0) c.poke(g, p * 4096 + k, v);
            }
    }
}

std::string diff_state(Ctx& c, const model::State& s, double tol, eng::Case& k, bool local, bool global) {
    char b[400];
    for (auto& v : s.vars) {
        double x = *c.var(v.first);
        if (!model::close(x, v.second, tol)) {
            snprintf(b, sizeof b, "variable %s is %.17g, expected %.17g", v.first.c_str(), x, v.second);
            return b;
        }
    }
    for (int i = 0; i < 100; i++) {
        char n[8];
        snprintf(n, sizeof n, "reg%02d", i);
        double x = *c.var(n);
        if (!model::close(x, s.reg[i], tol)) {
            snprintf(b, sizeof b, "%s is %.17g, expected %.17g", n, x, s.reg[i]);
            return b;
        }
    }
    for (int g = 0; g < 2; g++) {
        if (g ? !global : !local) continue;
        const model::Memory& m = g ? s.global : s.local;
        auto chk = [&](int i) {
            double x = c.peek(g, i);
            if (!model::close(x, m.get(i), tol)) {
                snprintf(b, sizeof b, "%s[%d] is %.17g, expected %.17g", g ? "gmegabuf" : "megabuf", i, x, m.get(i));
                return false;
            }
            return true;
        };
        std::vector<int> touched;
        for (int p : m.pages()) {
            // Every slot near a non-zero one, and a sample of the others
            int stride = 1 + (int) (eng::mix(k.index + (uint64_t) p) % 37);
            for (int q = 0; q < 4096; q++) {
                int i = p * 4096 + q;
                bool near = false;
                for (int d = -2; d <= 2 && !near; d++) near = i + d >= 0 && i + d < model::kMemItems && m.get(i + d) != 0;
                if (!near && q % stride && q > 16 && q < 4090) continue;
                if (!chk(i)) return b;
                if (m.get(i) != 0 && touched.size() < 6) touched.push_back(i);
            }
        }
        static const int ends[] = {0, 1, 65535, 65536, model::kMemItems - 1};
        if (!m.pages().empty()) for (int i : ends) if (!chk(i)) return b;
        for (int i : touched) {
            if (i + 65536 < model::kMemItems && !chk(i + 65536)) return b;
            if (i >= 65536 && !chk(i - 65536)) return b;
        }
    }
    return "";
}

}  // namespace host

extern "C" {
#ifdef VC_SHIM
void NSEEL_HOSTSTUB_EnterMutex() { host::do_lock(); }
void NSEEL_HOSTSTUB_LeaveMutex() { host::do_unlock(); }
#else
void projectm_eval_memory_host_lock_mutex() { host::do_lock(); }
void projectm_eval_memory_host_unlock_mutex() { host::do_unlock(); }
#endif

void* vc_malloc(size_t n) { return host::large_may_pass(n) ? host::track(malloc(n), n) : nullptr; }
void* vc_calloc(size_t a, size_t b) { return host::large_may_pass(a * b) ? host::track(calloc(a, b), a * b) : nullptr; }
void* vc_realloc(void* p, size_t n) {
    if (!host::large_may_pass(n)) return nullptr;
    host::untrack(p);
    return host::track(realloc(p, n), n);
}
void vc_free(void* p) { host::untrack(p); free(p); }
char* vc_strdup(const char* s) { size_t n = strlen(s) + 1; char* r = (char*) malloc(n); memcpy(r, s, n); host::track(r, n); return r; }
char* vc_strndup(const char* s, size_t m) {
    size_t n = strnlen(s, m);
    char* r = (char*) malloc(n + 1);
    memcpy(r, s, n);
    r[n] = 0;
    host::track(r, n + 1);
    return r;
}
void* vc_aligned_alloc(size_t a, size_t n) { return host::large_may_pass(n) ? host::track(aligned_alloc(a, n), n) : nullptr; }
int vc_posix_memalign(void** p, size_t a, size_t n) {
    if (!host::large_may_pass(n)) return 12;
    int r = posix_memalign(p, a, n);
    if (!r) host::track(*p, n);
    return r;
}
void* vc_reallocarray(void* p, size_t a, size_t b) { return vc_realloc(p, a * b); }
}
