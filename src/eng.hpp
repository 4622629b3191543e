// Property-based testing engine: recorded choice stream, case context.
#pragma once
#include <cmath>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>

namespace eng {

struct Fail { std::string msg; };
struct Skip { const char* why; };

constexpr int kMaxChoices = 1 << 16;
constexpr int kMaxDesc = 1 << 16;
constexpr int kMaxHashes = 8192;
constexpr int kMaxLabels = 96;
constexpr int kMaxSamples = 3;
constexpr int kSampleLen = 1500;

// Shared between a worker process and the runner; survives a crash of the worker.
struct Slot {
    volatile int failed;       // 1: oracle failure, 2: hang
    volatile int finished;     // batch completed
    volatile uint64_t cur;     // running case index
    volatile uint32_t nchoices;
    uint32_t choices[kMaxChoices];
    volatile uint32_t ndesc;
    char desc[kMaxDesc];
    char msg[8192];
    uint64_t evals, nontrivial, skipped;
    uint32_t nhashes;
    uint64_t hashes[kMaxHashes];
    uint32_t nlabels;
    struct { char name[48]; uint64_t count; } labels[kMaxLabels];
    uint32_t nsamples;
    char samples[kMaxSamples][kSampleLen];
};

inline uint64_t mix(uint64_t z) {
    z += 0x9e3779b97f4a7c15ull;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}

class Case {
public:
    Slot* slot = nullptr;
    uint64_t index = 0;      // index of the case in this run; ~0 when replaying
    bool thorough = false;
    bool is_nontrivial = false;

    void start_fresh(Slot* s, uint64_t seed, uint64_t idx) {
        slot = s; index = idx; replay_ = false;
        state_ = mix(mix(seed) ^ mix(idx * 0x5851f42d4c957f2dull + 1));
        reset();
    }
    void start_replay(Slot* s, const std::vector<uint32_t>& in, uint64_t idx) {
        slot = s; index = idx; replay_ = true; in_ = in; pos_ = 0;
        reset();
    }

    // Choices taken from a byte string (coverage-guided fuzzing); 0 after its end.
    void start_bytes(Slot* s, const uint8_t* d, size_t n, uint64_t idx) {
        slot = s; index = idx; replay_ = false; bytes_ = d ? d : (const uint8_t*) ""; bsize_ = n; bpos_ = 0;
        reset();
    }

    // Uniform in [0, n). 0 is the simplest choice.
    uint32_t draw(uint32_t n) {
        if (n <= 1) return 0;
        uint32_t v;
        if (slot->nchoices >= (uint32_t) kMaxChoices) return 0;
        if (replay_) {
            v = pos_ < in_.size() ? in_[pos_] % n : 0;
            pos_++;
        } else if (bytes_) {
            uint32_t x = 0;
            for (uint64_t m = 1; m < n && bpos_ < bsize_; m <<= 8) x = x << 8 | bytes_[bpos_++];
            v = x % n;
        } else {
            state_ += 0x9e3779b97f4a7c15ull;
            v = (uint32_t) ((mix(state_) >> 11) % n);
        }
        slot->choices[slot->nchoices] = v;
        slot->nchoices = slot->nchoices + 1;
        return v;
    }
    bool exhausted() const { return slot->nchoices >= (uint32_t) kMaxChoices - 64; }
    int range(int lo, int hi) { return lo + (int) draw((uint32_t) (hi - lo + 1)); }
    // true with probability num/den; false is the simplest choice
    bool chance(int num, int den) { return (int) draw((uint32_t) den) >= den - num; }
    uint64_t bits(int n) {
        uint64_t r = 0;
        while (n > 0) { int k = n > 16 ? 16 : n; r = (r << k) | draw(1u << k); n -= k; }
        return r;
    }
    template <class T> const T& pick(const std::vector<T>& v) { return v[draw((uint32_t) v.size())]; }
    template <class T, size_t N> const T& pick(const T (&v)[N]) { return v[draw((uint32_t) N)]; }
    // index chosen with the given weights
    int weighted(std::initializer_list<int> w) {
        int total = 0;
        for (int x : w) total += x;
        int r = (int) draw((uint32_t) total), i = 0;
        for (int x : w) { if (r < x) return i; r -= x; i++; }
        return 0;
    }
    int weighted(const std::vector<int>& w) {
        int total = 0;
        for (int x : w) total += x;
        int r = (int) draw((uint32_t) total), i = 0;
        for (int x : w) { if (r < x) return i; r -= x; i++; }
        return 0;
    }

    void note(const char* fmt, ...) __attribute__((format(printf, 2, 3))) {
        uint32_t n = slot->ndesc;
        if (n + 2 >= (uint32_t) kMaxDesc) return;
        va_list ap;
        va_start(ap, fmt);
        int k = vsnprintf(slot->desc + n, kMaxDesc - n, fmt, ap);
        va_end(ap);
        if (k < 0) k = 0;
        if (n + k >= (uint32_t) kMaxDesc) k = kMaxDesc - 1 - n;
        slot->ndesc = n + k;
    }
    void note_str(const std::string& s) {
        uint32_t n = slot->ndesc;
        size_t k = s.size();
        if (n + k + 1 >= (size_t) kMaxDesc) k = kMaxDesc - 1 - n;
        memcpy(slot->desc + n, s.data(), k);
        slot->ndesc = n + (uint32_t) k;
        slot->desc[slot->ndesc] = 0;
    }
    void label(const char* name) {
        for (uint32_t i = 0; i < slot->nlabels; i++)
            if (!strcmp(slot->labels[i].name, name)) { slot->labels[i].count++; return; }
        if (slot->nlabels >= (uint32_t) kMaxLabels) return;
        uint32_t i = slot->nlabels;
        snprintf(slot->labels[i].name, sizeof slot->labels[i].name, "%s", name);
        slot->labels[i].count = 1;
        slot->nlabels = i + 1;
    }
    void nontrivial() { is_nontrivial = true; }
    [[noreturn]] void fail(const char* fmt, ...) __attribute__((format(printf, 2, 3))) {
        char buf[6000];
        va_list ap;
        va_start(ap, fmt);
        vsnprintf(buf, sizeof buf, fmt, ap);
        va_end(ap);
        throw Fail{buf};
    }
    [[noreturn]] void skip(const char* why) { throw Skip{why}; }

private:
    void reset() {
        slot->nchoices = 0; slot->ndesc = 0; slot->desc[0] = 0; slot->cur = index;
        is_nontrivial = false;
    }
    bool replay_ = false;
    std::vector<uint32_t> in_;
    size_t pos_ = 0;
    const uint8_t* bytes_ = nullptr;
    size_t bsize_ = 0, bpos_ = 0;
    uint64_t state_ = 0;
};

struct Prop {
    const char* id;
    void (*run)(Case&);
    int quick_cases, thorough_cases;
    int batch;                       // cases per worker process
    const char* rule;
    const char* assumptions;
    // Optional: runs once in a process of its own before the generated cases; prints KNOWN-FINDING lines.
    void (*probe)() = nullptr;
    // Coverage-guided stage (libFuzzer over the choice stream): executions per process in the quick and thorough tiers
    int fuzz_quick = 0, fuzz_thorough = 20000;
    // Seeds for it, as byte strings
    std::vector<std::string> (*fuzz_seeds)() = nullptr;
    // The library is not touched before the cases of a process: they leave no process-wide state behind
    bool untouched = false;
};

// Reports a recorded case that fails: a KNOWN-FINDING line if known-findings.txt lists it, otherwise a violation.
void finding(const char* id, const char* key, const char* what);

std::vector<Prop>& registry();
struct Register { Register(const Prop& p) { registry().push_back(p); } };

extern bool g_in_fuzzer;     // output of the process is not all the library's
extern std::string g_verif_dir, g_build_dir, g_tmp_dir;
// Size of what the running process printed to its (redirected) stdout / stderr so far.
long stdout_bytes();
long stderr_bytes();
std::string captured(int which);

}  // namespace eng
