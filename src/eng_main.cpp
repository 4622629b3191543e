// Runner: forks worker processes over the case indices, attributes failures, shrinks, writes evidence.
#include "eng.hpp"
#include "json.hpp"

#include <algorithm>
#include <dirent.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include "host.hpp"

extern "C" const char* __asan_default_options() {
    return "detect_leaks=0:exitcode=77:allocator_may_return_null=1:abort_on_error=0:handle_abort=1:"
           "print_summary=1:malloc_context_size=8:max_allocation_size_mb=4000:max_malloc_fill_size=1048576:malloc_fill_byte=190:symbolize=0";
}
extern "C" const char* __ubsan_default_options() { return "halt_on_error=1:exitcode=77:print_stacktrace=0:symbolize=0"; }

namespace eng {

void finding(const char* id, const char* key, const char* what) {
    std::string start = std::string("finding: property=") + id + " " + key + ":", line;
    bool listed = false;
    if (FILE* f = fopen((g_verif_dir + "/known-findings.txt").c_str(), "r")) {
        for (int c; (c = fgetc(f)) != EOF;) {
            if (c != '\n') { line += (char) c; continue; }
            listed |= line.compare(0, start.size(), start) == 0;
            line.clear();
        }
        fclose(f);
    }
    if (listed) { printf("KNOWN-FINDING: property=%s %s: %s\n", id, key, what); return; }
    mkdir((g_verif_dir + "/replays").c_str(), 0755);
    std::string path = g_verif_dir + "/replays/" + id + "-" + key + ".txt";
    if (FILE* f = fopen(path.c_str(), "w")) { fprintf(f, "%s\n", what); fclose(f); }
    printf("VIOLATION property=%s replay=%s\n", id, path.c_str());
    fflush(stdout);
    _exit(1);
}

std::vector<Prop>& registry() { static std::vector<Prop> r; return r; }
std::string g_verif_dir, g_build_dir, g_tmp_dir;
bool g_in_fuzzer = false;

static double now() {
    struct timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return t.tv_sec + t.tv_nsec * 1e-9;
}

static Slot* new_slot() {
    void* p = mmap(nullptr, sizeof(Slot), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (p == MAP_FAILED) { perror("mmap"); exit(1); }
    return (Slot*) p;
}

long stdout_bytes() { fflush(stdout); struct stat st; return fstat(1, &st) == 0 ? (long) st.st_size : 0; }
long stderr_bytes() { if (g_in_fuzzer) return 0; fflush(stderr); struct stat st; return fstat(2, &st) == 0 ? (long) st.st_size : 0; }
std::string captured(int fd) {
    std::string s(4096, 0);
    ssize_t n = pread(fd, &s[0], s.size(), 0);
    s.resize(n > 0 ? (size_t) n : 0);
    return s;
}

static Slot* g_slot;
static void on_cpu_limit(int) {
    g_slot->failed = 2;
    _exit(78);
}
static int g_cpu_limit = 20;  // seconds of CPU time for one case

static void arm_timer() {
    if (g_in_fuzzer) return;
    struct itimerval it;
    memset(&it, 0, sizeof it);
    it.it_value.tv_sec = g_cpu_limit;
    setitimer(ITIMER_PROF, &it, nullptr);
    // Backstop for a case that waits forever
    memset(&it, 0, sizeof it);
    it.it_value.tv_sec = 8 * g_cpu_limit;
    setitimer(ITIMER_REAL, &it, nullptr);
}

static uint64_t hash_str(const char* s, size_t n) {
    uint64_t h = 1469598103934665603ull;
    for (size_t i = 0; i < n; i++) { h ^= (unsigned char) s[i]; h *= 1099511628211ull; }
    return h;
}

struct Outcome {
    bool failed = false;
    bool hang = false;
    std::string msg, desc;
    std::vector<uint32_t> choices;
    uint64_t cur = 0;
};

static void redirect_output(const std::string& base) {
    int o = open((base + ".out").c_str(), O_RDWR | O_CREAT | O_TRUNC | O_APPEND, 0600);
    int e = open((base + ".err").c_str(), O_RDWR | O_CREAT | O_TRUNC | O_APPEND, 0600);
    if (o >= 0) { dup2(o, 1); close(o); }
    if (e >= 0) { dup2(e, 2); close(e); }
}

static bool run_one(const Prop& p, Case& c, Slot* s) {
    arm_timer();
    if (p.untouched) host::clear_lock_state(); else host::reset_library_state();
    bool ok = true;
    try {
        p.run(c);
        s->evals++;
        if (c.is_nontrivial) {
            s->nontrivial++;
            if (s->nhashes < (uint32_t) kMaxHashes) s->hashes[s->nhashes++] = hash_str(s->desc, s->ndesc);
            if (s->nsamples < (uint32_t) kMaxSamples && (s->nontrivial % 37) == 1)
                snprintf(s->samples[s->nsamples++], kSampleLen, "%s", s->desc);
        }
    } catch (const Skip& k) {
        s->skipped++;
        char b[64];
        snprintf(b, sizeof b, "skipped: %s", k.why);
        c.label(b);
    } catch (const Fail& f) {
        snprintf(s->msg, sizeof s->msg, "%s", f.msg.c_str());
        s->failed = 1;
        ok = false;
    }
    return ok;
}

static void child_setup(Slot* s, const std::string& base) {
    g_slot = s;
    redirect_output(base);
    signal(SIGPROF, on_cpu_limit);
    signal(SIGALRM, on_cpu_limit);
    host::child_init();
}

static Outcome collect(Slot* s, int status, const std::string& base) {
    Outcome o;
    bool clean = WIFEXITED(status) && WEXITSTATUS(status) == 0 && s->finished && !s->failed;
    if (clean) return o;
    o.failed = true;
    o.cur = s->cur;
    o.choices.assign(s->choices, s->choices + s->nchoices);
    o.desc.assign(s->desc, s->ndesc);
    if (s->failed == 1) o.msg = s->msg;
    else if (s->failed == 2) { o.hang = true; o.msg = "the case did not finish within its CPU time limit"; }
    else {
        char b[128];
        if (WIFSIGNALED(status)) snprintf(b, sizeof b, "the process was killed by signal %d", WTERMSIG(status));
        else snprintf(b, sizeof b, "the process exited with status %d", WIFEXITED(status) ? WEXITSTATUS(status) : -1);
        o.msg = b;
        FILE* f = fopen((base + ".err").c_str(), "r");
        if (f) {
            char buf[3000];
            size_t n = fread(buf, 1, sizeof buf - 1, f);
            buf[n] = 0;
            fclose(f);
            o.msg += "; stderr: ";
            o.msg += buf;
        }
    }
    return o;
}

static std::string tmp_base(int slot) { return g_tmp_dir + "/w" + std::to_string(getpid()) + "." + std::to_string(slot); }

#ifndef VC_FUZZ
// Executes the given choice sequences in one fresh process.
static Outcome run_choices(const Prop& p, const std::vector<std::vector<uint32_t>>& cases, bool thorough) {
    static Slot* s = new_slot();
    memset((void*) s, 0, sizeof(Slot));
    std::string base = tmp_base(99);
    fflush(stdout); fflush(stderr);
    pid_t pid = fork();
    if (pid == 0) {
        child_setup(s, base);
        for (size_t i = 0; i < cases.size(); i++) {
            Case c;
            c.thorough = thorough;
            c.start_replay(s, cases[i], i);
            if (!run_one(p, c, s)) break;
        }
        s->finished = 1;
        _exit(0);
    }
    int status = 0;
    waitpid(pid, &status, 0);
    return collect(s, status, base);
}

static bool is_flaky_kind(const Outcome& o) { return o.hang; }

struct Failure {
    std::vector<std::vector<uint32_t>> cases;
    Outcome last;
    bool reproduced = false;
};

static Failure shrink(const Prop& p, uint64_t seed, bool thorough, const Outcome& first, uint64_t batch_start) {
    Failure f;
    f.last = first;
    auto repro = [&](const std::vector<std::vector<uint32_t>>& cs, int times) {
        for (int i = 0; i < times; i++)
            if (!run_choices(p, cs, thorough).failed) return false;
        return true;
    };
    f.cases = {first.choices};
    double t0 = now();
    if (!repro(f.cases, 3)) {
        // State carried over from earlier cases of the same process: rebuild the history.
        std::vector<std::vector<uint32_t>> hist;
        static Slot* tmp = new_slot();
        (void) seed;
        for (uint64_t i = batch_start; i < first.cur; i++) {
            // Regenerate by running the case freshly in a scratch process and reading its choices.
            memset((void*) tmp, 0, sizeof(Slot));
            const std::string base98 = tmp_base(98);
            fflush(stdout); fflush(stderr);
            pid_t pid = fork();
            if (pid == 0) {
                child_setup(tmp, base98);
                Case c; c.thorough = thorough;
                c.start_fresh(tmp, seed ^ mix(hash_str(p.id, strlen(p.id))), i);
                run_one(p, c, tmp);
                _exit(0);
            }
            int st; waitpid(pid, &st, 0);
            hist.emplace_back(tmp->choices, tmp->choices + tmp->nchoices);
        }
        hist.push_back(first.choices);
        if (!repro(hist, 3)) {
            // Not deterministic (e.g. depends on uninitialised memory or real threads): accept two more sightings.
            int seen = 0;
            for (int i = 0; i < 12 && seen < 2; i++) seen += run_choices(p, i % 2 ? hist : f.cases, thorough).failed;
            if (seen < 2) return f;
            Outcome o = run_choices(p, hist, thorough);
            f.cases = hist;
            f.last = o.failed ? o : first;
            f.reproduced = true;
            return f;
        }
        // Drop earlier cases in chunks while it still fails.
        for (size_t chunk = hist.size() / 2; chunk >= 1; chunk /= 2) {
            for (size_t i = 0; i + 1 < hist.size() && now() - t0 < 60;) {
                std::vector<std::vector<uint32_t>> h2;
                size_t end = std::min(i + chunk, hist.size() - 1);
                for (size_t k = 0; k < hist.size(); k++) if (k < i || k >= end) h2.push_back(hist[k]);
                if (h2.size() < hist.size() && run_choices(p, h2, thorough).failed) hist = h2;
                else i += chunk;
            }
        }
        f.cases = hist;
    }
    f.reproduced = true;
    const std::vector<std::vector<uint32_t>> whole = f.cases;
    if (is_flaky_kind(first)) { f.last = run_choices(p, f.cases, thorough); return f; }

    int attempts = 0;
    std::vector<uint32_t>& best = f.cases.back();
    auto tryit = [&](const std::vector<uint32_t>& cand) {
        if (attempts >= 2500 || now() - t0 > 75) return false;
        attempts++;
        auto cs = f.cases;
        cs.back() = cand;
        Outcome o = run_choices(p, cs, thorough);
        if (!o.failed || o.hang) return false;
        // Keep what was really consumed.
        std::vector<uint32_t> used = o.choices.size() <= cand.size() ? o.choices : cand;
        best = used;
        f.last = o;
        return true;
    };
    bool improved = true;
    while (improved && attempts < 2500 && now() - t0 < 75) {
        improved = false;
        for (size_t chunk = std::max<size_t>(1, best.size() / 2); chunk >= 1; chunk /= 2) {
            for (size_t i = 0; i < best.size();) {
                std::vector<uint32_t> cand(best.begin(), best.begin() + i);
                if (i + chunk < best.size()) cand.insert(cand.end(), best.begin() + i + chunk, best.end());
                if (tryit(cand)) improved = true; else i += chunk;
                if (attempts >= 2500 || now() - t0 > 75) break;
            }
            if (chunk == 1) break;
        }
        for (size_t chunk = 8; chunk >= 1; chunk /= 2) {
            for (size_t i = 0; i < best.size(); i += chunk) {
                std::vector<uint32_t> cand = best;
                bool any = false;
                for (size_t k = i; k < std::min(i + chunk, cand.size()); k++) if (cand[k]) { cand[k] = 0; any = true; }
                if (any && tryit(cand)) improved = true;
                if (attempts >= 2500 || now() - t0 > 75) break;
            }
        }
        for (size_t i = 0; i < best.size(); i++) {
            for (int k = 0; k < 4 && i < best.size() && best[i] > 0; k++) {
                std::vector<uint32_t> cand = best;
                cand[i] = k == 0 ? cand[i] / 2 : cand[i] - 1;
                if (tryit(cand)) improved = true; else if (k) break;
            }
            if (attempts >= 2500 || now() - t0 > 75) break;
        }
    }
    f.last = run_choices(p, f.cases, thorough);
    if (!f.last.failed || !repro(f.cases, 2)) {   // reduced until it only fails sometimes: report what always failed
        f.cases = whole;
        f.last = first;
    }
    return f;
}

static void write_replay(const std::string& path, const Prop& p, const Failure& f, bool thorough) {
    FILE* o = fopen(path.c_str(), "w");
    if (!o) return;
    fprintf(o, "property=%s\ntier=%s\n", p.id, thorough ? "thorough" : "quick");
    for (auto& c : f.cases) {
        fprintf(o, "case=");
        for (size_t i = 0; i < c.size(); i++) fprintf(o, "%s%u", i ? "," : "", c[i]);
        fprintf(o, "\n");
    }
    fprintf(o, "# what failed: %s\n", f.last.msg.c_str());
    fprintf(o, "# the case:\n%s\n", f.last.desc.c_str());
    fclose(o);
}

static int replay_file(const std::string& path) {
    FILE* f = fopen(path.c_str(), "r");
    if (!f) { fprintf(stderr, "cannot open %s\n", path.c_str()); return 1; }
    std::string id;
    bool thorough = false;
    std::vector<std::vector<uint32_t>> cases;
    char* line = nullptr;
    size_t cap = 0;
    ssize_t n;
    while ((n = getline(&line, &cap, f)) > 0) {
        std::string s(line, n);
        while (!s.empty() && (s.back() == '\n' || s.back() == '\r')) s.pop_back();
        if (!s.empty() && s[0] == '#') break;
        if (s.rfind("property=", 0) == 0) id = s.substr(9);
        if (s.rfind("tier=", 0) == 0) thorough = s.substr(5) == "thorough";
        if (s.rfind("case=", 0) == 0) {
            std::vector<uint32_t> v;
            const char* q = s.c_str() + 5;
            while (*q) { v.push_back((uint32_t) strtoul(q, (char**) &q, 10)); if (*q == ',') q++; else break; }
            cases.push_back(v);
        }
    }
    free(line);
    fclose(f);
    for (auto& p : registry())
        if (id == p.id) {
            Outcome o = run_choices(p, cases, thorough);
            printf("%s\n%s\n", o.desc.c_str(), o.failed ? o.msg.c_str() : "the case passes");
            if (o.failed) { printf("VIOLATION property=%s replay=%s\n", id.c_str(), path.c_str()); return 1; }
            return 0;
        }
    fprintf(stderr, "unknown property in %s\n", path.c_str());
    return 1;
}

static std::string tail_of(const std::string& path, size_t max) {
    std::string r;
    FILE* f = fopen(path.c_str(), "r");
    if (!f) return r;
    fseek(f, 0, SEEK_END);
    long n = ftell(f);
    fseek(f, n > (long) max ? n - (long) max : 0, SEEK_SET);
    r.resize(max);
    r.resize(fread(&r[0], 1, max, f));
    fclose(f);
    return r;
}
static void remove_dir(const std::string& d) {
    DIR* h = opendir(d.c_str());
    if (!h) return;
    while (struct dirent* e = readdir(h))
        if (strcmp(e->d_name, ".") && strcmp(e->d_name, "..")) unlink((d + "/" + e->d_name).c_str());
    closedir(h);
    rmdir(d.c_str());
}
struct FuzzResult {
    uint64_t execs = 0, corpus = 0, cov = 0, noise = 0;
    int procs = 0;
    std::vector<std::string> artifacts;   // contents
    double wall = 0;
};
// Runs the coverage-guided stage in `procs` processes.
static FuzzResult run_fuzz(const Prop& p, uint64_t seed, bool thorough, int runs, int procs, double max_secs) {
    FuzzResult r;
    double t0 = now();
    const char* bin = getenv("VC_BIN");
    if (!bin) return r;
    std::string exe = std::string(bin) + "/fuzz";
    if (access(exe.c_str(), X_OK)) return r;
    std::vector<pid_t> pids;
    std::vector<std::string> dirs;
    std::vector<std::string> seeds = p.fuzz_seeds ? p.fuzz_seeds() : std::vector<std::string>();
    for (int i = 0; i < procs; i++) {
        std::string d = g_tmp_dir + "/fz" + std::to_string(i);
        mkdir(d.c_str(), 0700);
        mkdir((d + "/c").c_str(), 0700);
        auto put = [&](int n, const std::string& s) {
            FILE* f = fopen((d + "/c/s" + std::to_string(n)).c_str(), "w");
            if (f) { fwrite(s.data(), 1, s.size(), f); fclose(f); }
        };
        int n = 0;
        for (auto& s : seeds) put(n++, s);
        uint64_t x = mix(seed * 1000 + (uint64_t) i);
        for (int k = 0; k < 40; k++) {
            std::string s;
            size_t len = 20 + (x = mix(x)) % 600;
            for (size_t q = 0; q < len; q++) s += (char) ((x = mix(x)) >> 13);
            put(n++, s);
        }
        dirs.push_back(d);
        fflush(stdout); fflush(stderr);
        pid_t pid = fork();
        if (pid == 0) {
            redirect_output(d + "/log");
            setenv("FUZZ_PROP", p.id, 1);
            setenv("FUZZ_TIER", thorough ? "thorough" : "quick", 1);
            char a1[64], a2[64], a3[64];
            snprintf(a1, sizeof a1, "-runs=%d", runs);
            snprintf(a2, sizeof a2, "-seed=%u", (unsigned) (mix(seed + (uint64_t) i * 77) % 0x7fffffff) + 1);
            snprintf(a3, sizeof a3, "-max_total_time=%d", (int) max_secs);
            std::string art = "-artifact_prefix=" + d + "/A-", dict = "-dict=" + g_verif_dir + "/fuzz.dict", corp = d + "/c";
            execl(exe.c_str(), exe.c_str(), a1, a2, a3, art.c_str(), dict.c_str(), "-max_len=4096", "-timeout=60", "-rss_limit_mb=3500",
                  "-print_final_stats=1", "-verbosity=1", "-detect_leaks=0", "-reload=0", corp.c_str(), (char*) nullptr);
            _exit(127);
        }
        pids.push_back(pid);
    }
    for (int i = 0; i < procs; i++) {
        int st;
        waitpid(pids[(size_t) i], &st, 0);
        std::string log = tail_of(dirs[(size_t) i] + "/log.err", 6000);
        size_t q = log.rfind("stat::number_of_executed_units:");
        if (q != std::string::npos) r.execs += strtoull(log.c_str() + q + 31, nullptr, 10);
        q = log.rfind(" ft: ");
        size_t q2 = log.rfind(" cov: ", q);
        if (q != std::string::npos && q2 != std::string::npos) {
            r.cov = std::max<uint64_t>(r.cov, strtoull(log.c_str() + q2 + 6, nullptr, 10));
            q = log.find(" corp: ", q);
            if (q != std::string::npos) r.corpus += strtoull(log.c_str() + q + 7, nullptr, 10);
        }
        r.procs++;
        if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) {
            DIR* h = opendir(dirs[(size_t) i].c_str());
            bool any = false;
            if (h) {
                while (struct dirent* e = readdir(h))
                    if (!strncmp(e->d_name, "A-", 2)) {
                        std::string path = dirs[(size_t) i] + "/" + e->d_name;
                        r.artifacts.push_back(tail_of(path, 1 << 20));
                        any = true;
                    }
                closedir(h);
            }
            if (!any) r.noise++;
        }
        remove_dir(dirs[(size_t) i] + "/c");
        remove_dir(dirs[(size_t) i]);
    }
    r.wall = now() - t0;
    return r;
}
// The choices a byte string stands for, and what the case does in this build.
static Outcome run_bytes(const Prop& p, const std::string& bytes, bool thorough) {
    static Slot* s = new_slot();
    memset((void*) s, 0, sizeof(Slot));
    std::string base = tmp_base(97);
    fflush(stdout); fflush(stderr);
    pid_t pid = fork();
    if (pid == 0) {
        child_setup(s, base);
        Case c;
        c.thorough = thorough;
        c.start_bytes(s, (const uint8_t*) bytes.data(), bytes.size(), 0);
        run_one(p, c, s);
        s->finished = 1;
        _exit(0);
    }
    int status = 0;
    waitpid(pid, &status, 0);
    return collect(s, status, base);
}
#endif

}  // namespace eng

using namespace eng;

#ifdef VC_FUZZ
// Coverage-guided fuzzing of one property's choice stream.
extern "C" int LLVMFuzzerTestOneInput(const uint8_t* d, size_t n) {
    static Slot* s = nullptr;
    static const Prop* prop = nullptr;
    static uint64_t count = 0;
    static bool thorough = false;
    if (!s) {
        g_in_fuzzer = true;
        s = new_slot();
        g_slot = s;
        host::child_init();
        const char* id = getenv("FUZZ_PROP");
        for (auto& p : registry()) if (id && !strcmp(p.id, id)) prop = &p;
        if (!prop) { fprintf(stderr, "FUZZ_PROP is not set\n"); _exit(2); }
        const char* t = getenv("FUZZ_TIER");
        thorough = t && !strcmp(t, "thorough");
    }
    s->failed = 0;
    s->nlabels = 0;
    Case c;
    c.thorough = thorough;
    c.start_bytes(s, d, n, count++);
    uint64_t sk = s->skipped;
    if (!run_one(*prop, c, s)) {
        fprintf(stderr, "%s\n%s\n", s->msg, s->desc);
        abort();
    }
    return s->skipped == sk ? 0 : -1;
}
#else

static std::string getenv_s(const char* n, const char* d) { const char* v = getenv(n); return v && *v ? v : d; }

static void raise_stack(char** argv) {
    struct rlimit rl;
    if (getenv("VC_STACK_SET")) return;
    if (getrlimit(RLIMIT_STACK, &rl) == 0 && rl.rlim_cur != RLIM_INFINITY && rl.rlim_cur < (512ul << 20)) {
        rl.rlim_cur = rl.rlim_max == RLIM_INFINITY ? (512ul << 20) : std::min<rlim_t>(rl.rlim_max, 512ul << 20);
        if (setrlimit(RLIMIT_STACK, &rl) == 0) {
            setenv("VC_STACK_SET", "1", 1);
            execv("/proc/self/exe", argv);
        }
    }
}

int main(int argc, char** argv) {
    raise_stack(argv);
    setvbuf(stdout, nullptr, _IOLBF, 0);
    if (argc < 2) { fprintf(stderr, "usage: vc <property> [--cases N]\n"); return 1; }
    g_verif_dir = getenv_s("VC_VERIF", "/verif");
    g_build_dir = getenv_s("VC_BUILD", "/verif/build");
    {
        std::string t = g_build_dir + "/tmp.XXXXXX";
        std::vector<char> b(t.begin(), t.end());
        b.push_back(0);
        if (!mkdtemp(b.data())) { perror("mkdtemp"); return 1; }
        g_tmp_dir = b.data();
    }
    struct Cleanup {
        pid_t owner = getpid();
        ~Cleanup() {
            if (getpid() != owner) return;
            DIR* d = opendir(g_tmp_dir.c_str());
            if (!d) return;
            while (struct dirent* e = readdir(d))
                if (strcmp(e->d_name, ".") && strcmp(e->d_name, "..")) unlink((g_tmp_dir + "/" + e->d_name).c_str());
            closedir(d);
            rmdir(g_tmp_dir.c_str());
        }
    } cleanup;

    if (!strcmp(argv[1], "replay")) return argc > 2 ? replay_file(argv[2]) : 1;

    const Prop* prop = nullptr;
    for (auto& p : registry()) if (!strcmp(p.id, argv[1])) prop = &p;
    if (!prop) { fprintf(stderr, "unknown property %s\n", argv[1]); return 1; }
    const Prop& p = *prop;
    uint64_t seed = strtoull(getenv_s("VERIF_SEED", "1").c_str(), nullptr, 10);
    bool thorough = getenv_s("VERIF_TIER", "quick") == "thorough";
    uint64_t cases = thorough ? p.thorough_cases : p.quick_cases;
    uint64_t first = 0;
    int jobs = 8;
    bool noshrink = false;
    int fuzz_runs = -1;
    for (int i = 2; i < argc; i++) {
        if (!strcmp(argv[i], "--cases") && i + 1 < argc) cases = strtoull(argv[++i], nullptr, 10);
        else if (!strcmp(argv[i], "--start") && i + 1 < argc) first = strtoull(argv[++i], nullptr, 10);
        else if (!strcmp(argv[i], "--jobs") && i + 1 < argc) jobs = atoi(argv[++i]);
        else if (!strcmp(argv[i], "--fuzz") && i + 1 < argc) fuzz_runs = atoi(argv[++i]);
        else if (!strcmp(argv[i], "--noshrink")) noshrink = true;
    }
    const double deadline = thorough ? 5400 : 600;
    const uint64_t pseed = seed ^ mix(hash_str(p.id, strlen(p.id)));
    double t0 = now();

    if (p.probe) {
        fflush(stdout);
        pid_t pid = fork();
        if (pid == 0) { p.probe(); fflush(stdout); _exit(0); }
        int st; waitpid(pid, &st, 0);
        if (WIFEXITED(st) && WEXITSTATUS(st) == 1) { printf("%s: a recorded case fails that known-findings.txt does not list\n", p.id); return 1; }
    }

    std::vector<Slot*> slots;
    for (int i = 0; i < jobs; i++) slots.push_back(new_slot());
    std::vector<pid_t> pids(jobs, 0);
    std::vector<uint64_t> starts(jobs, 0);

    uint64_t next = first, end = first + cases, evals = 0, skipped = 0;
    std::unordered_set<uint64_t> hashes;
    std::map<std::string, uint64_t> labels;
    std::vector<std::string> samples;
    struct Found { Outcome o; uint64_t start; };
    std::vector<Found> found;
    bool deadline_hit = false;
    int running = 0, unreproduced = 0, memory_errors = 0;
    Failure confirmed;
    bool have_violation = false;

    for (;;) {
        while (running < jobs && next < end && found.empty() && !deadline_hit) {
            if (now() - t0 > deadline) { deadline_hit = true; break; }
            int k = 0;
            while (pids[k]) k++;
            Slot* s = slots[k];
            memset((void*) s, 0, sizeof(Slot));
            uint64_t b0 = next, b1 = std::min<uint64_t>(end, next + p.batch);
            next = b1;
            fflush(stdout); fflush(stderr);
            const std::string base = tmp_base(k);
            pid_t pid = fork();
            if (pid < 0) { perror("fork"); return 1; }
            if (pid == 0) {
                child_setup(s, base);
                for (uint64_t i = b0; i < b1; i++) {
                    Case c;
                    c.thorough = thorough;
                    c.start_fresh(s, pseed, i);
                    if (!run_one(p, c, s)) break;
                }
                s->finished = 1;
                _exit(0);
            }
            pids[k] = pid;
            starts[k] = b0;
            running++;
        }
        if (running == 0) {
            if (unreproduced >= 8) break;
            if (!found.empty()) {
                std::sort(found.begin(), found.end(), [](const Found& a, const Found& b) { return a.o.choices.size() < b.o.choices.size(); });
                std::vector<Found> fs;
                fs.swap(found);
                for (auto& fd : fs) {
                    if (noshrink) { printf("%s\n%s\n", fd.o.desc.c_str(), fd.o.msg.c_str()); }
                    Failure f = shrink(p, seed, thorough, fd.o, fd.start);
                    if (f.reproduced) { confirmed = f; have_violation = true; break; }
                    unreproduced++;
                    fprintf(stderr, "note: a failure did not reproduce: %s\n%s\n", fd.o.msg.c_str(), fd.o.desc.c_str());
                    // An invalid memory access seen by the sanitizer is evidence even where real threads keep it
                    // from happening again on demand: two of them, in different processes, settle it.
                    if (fd.o.msg.find("ERROR: AddressSanitizer: ") != std::string::npos && fd.o.msg.find("out-of-memory") == std::string::npos && ++memory_errors >= 2) {
                        confirmed = f; confirmed.last = fd.o; have_violation = true;
                        break;
                    }
                }
                if (have_violation) break;
                continue;
            }
            if (next >= end || deadline_hit) break;
            continue;
        }
        int status = 0;
        pid_t pid = wait(&status);
        if (pid < 0) break;
        int k = -1;
        for (int i = 0; i < jobs; i++) if (pids[i] == pid) k = i;
        if (k < 0) continue;
        pids[k] = 0;
        running--;
        Slot* s = slots[k];
        evals += s->evals; skipped += s->skipped;
        for (uint32_t i = 0; i < s->nhashes; i++) hashes.insert(s->hashes[i]);
        for (uint32_t i = 0; i < s->nlabels; i++) labels[s->labels[i].name] += s->labels[i].count;
        if (samples.size() < 6) for (uint32_t i = 0; i < s->nsamples && samples.size() < 6; i++) samples.push_back(s->samples[i]);
        Outcome o = collect(s, status, tmp_base(k));
        if (o.failed) found.push_back({o, starts[k]});
    }

    FuzzResult fz;
    int fz_runs = fuzz_runs >= 0 ? fuzz_runs : thorough ? p.fuzz_thorough : p.fuzz_quick;
    if (!have_violation && fz_runs > 0 && !deadline_hit) {
        fz = run_fuzz(p, pseed, thorough, fz_runs, jobs, thorough ? 1800 : 150);
        for (auto& a : fz.artifacts) {
            Outcome o = run_bytes(p, a, thorough);
            if (!o.failed) { unreproduced++; fprintf(stderr, "note: an input found by the fuzzer did not fail in the checker\n"); continue; }
            Failure f = shrink(p, seed, thorough, o, o.cur);
            if (f.reproduced) { confirmed = f; have_violation = true; break; }
            unreproduced++;
        }
    }

    std::string replay_path;
    if (have_violation) {
        mkdir((g_verif_dir + "/replays").c_str(), 0755);
        replay_path = g_verif_dir + "/replays/" + p.id + "-seed" + std::to_string(seed) + ".replay";
        write_replay(replay_path, p, confirmed, thorough);
    }
    double wall = now() - t0;

    std::string extra;
    if (fz.procs) {
        char b[400];
        snprintf(b, sizeof b, "\"coverage_guided\": {\"processes\": %d, \"executions\": %llu, \"corpus_units\": %llu, \"edges_covered\": %llu, \"wall_s\": %.1f, \"crashing_inputs\": %zu}",
                 fz.procs, (unsigned long long) fz.execs, (unsigned long long) fz.corpus, (unsigned long long) fz.cov, fz.wall, fz.artifacts.size());
        extra = b;
        printf("%s: coverage-guided stage: %llu executions, %llu edges, %.1f s, %zu crashing inputs%s\n", p.id, (unsigned long long) fz.execs,
               (unsigned long long) fz.cov, fz.wall, fz.artifacts.size(), fz.noise ? " (some processes ended early)" : "");
    }
    std::string j = "{\n";
    j += " \"property\": " + json::str(p.id) + ",\n \"tier\": " + json::str(thorough ? "thorough" : "quick") + ",\n";
    j += " \"seed\": " + std::to_string((long long) seed) + ",\n \"level\": \"exploration\",\n \"coverage\": {\n";
    j += "  \"evaluations\": " + std::to_string(evals + fz.execs) + ",\n";
    j += "  \"distinct_nontrivial\": " + std::to_string(hashes.size()) + ",\n";
    j += "  \"skipped\": " + std::to_string(skipped) + ",\n";
    j += "  \"rule\": " + json::str(p.rule) + ",\n  \"samples\": [";
    for (size_t i = 0; i < samples.size(); i++) j += std::string(i ? ",\n   " : "\n   ") + json::str(samples[i]);
    j += "],\n  \"distribution\": {";
    bool firstl = true;
    for (auto& l : labels) { j += std::string(firstl ? "" : ", ") + json::str(l.first) + ": " + std::to_string(l.second); firstl = false; }
    j += "},\n  \"unreproduced_failures\": " + std::to_string(unreproduced);
    j += std::string(",\n  \"deadline_reached\": ") + (deadline_hit ? "true" : "false");
    if (!extra.empty()) j += ",\n  " + extra;
    j += "\n },\n \"assumptions\": [" + json::str(p.assumptions) + "],\n";
    char w[64];
    snprintf(w, sizeof w, "%.2f", wall);
    j += std::string(" \"wall_s\": ") + w + ",\n \"violations\": " + (have_violation ? "1" : "0") + "\n}\n";
    mkdir((g_verif_dir + "/evidence").c_str(), 0755);
    FILE* ev = fopen((g_verif_dir + "/evidence/" + p.id + ".json").c_str(), "w");
    if (ev) { fwrite(j.data(), 1, j.size(), ev); fclose(ev); }

    printf("%s: %llu cases, %zu distinct non-trivial, %llu skipped, %.1f s%s\n", p.id, (unsigned long long) evals, hashes.size(),
           (unsigned long long) skipped, wall, deadline_hit ? " (deadline reached)" : "");
    for (auto& l : labels) printf("  %-40s %llu\n", l.first.c_str(), (unsigned long long) l.second);
    if (have_violation) {
        printf("what failed: %s\n%s\n", confirmed.last.msg.c_str(), confirmed.last.desc.c_str());
        printf("VIOLATION property=%s replay=%s\n", p.id, replay_path.c_str());
        return 1;
    }
    return 0;
}
#endif
