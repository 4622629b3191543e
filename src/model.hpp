// Reference semantics of the expression language over an explicit state.
#pragma once
#include "lang.hpp"

#include <map>
#include <random>
#include <set>
#include <string>
#include <unordered_map>
#include <vector>

namespace model {

constexpr int kMemItems = 128 * 65536;
constexpr int kMaxLoop = 1048576;

// One megabuf / gmegabuf: 2^23 numbers, stored sparsely. Slot addresses are stable.
class Memory {
public:
    double* slot(int i) {
        auto& b = pages_[i >> 12];
        if (b.empty()) b.assign(4096, 0.0);
        return &b[i & 4095];
    }
    double get(int i) const {
        auto it = pages_.find(i >> 12);
        return it == pages_.end() ? 0.0 : it->second[i & 4095];
    }
    void set(int i, double v) { *slot(i) = v; }
    void fill(int64_t from, int64_t to, double v) { for (int64_t i = from; i < to; i++) set((int) i, v); }
    std::vector<int> pages() const {
        std::vector<int> r;
        for (auto& p : pages_) r.push_back(p.first);
        return r;
    }
    bool equals(const Memory& o, double tol, int* where = nullptr) const;
    void clear() { pages_.clear(); }
private:
    std::map<int, std::vector<double>> pages_;
};

struct State {
    std::map<std::string, double> vars;   // lower-case names; addresses stable
    double reg[100] = {0};
    Memory local, global;
    std::mt19937* rng = nullptr;
    double* var(const std::string& lower_name);
};

enum Policy { LATE, EAGER };   // when an operand that is a reference is read; EAGER also perturbs inexact results

struct Result {
    double value = 0;
    std::string unjudged;      // non-empty: the language does not settle the outcome
    bool out_of_budget = false;
    long steps = 0;
    double max_mag = 0, min_mag = 1e308;  // of non-zero finite intermediate results
    bool saw_nonfinite = false;
    bool rounded = false;      // a result is only defined up to rounding (not the basic operations)
};

struct Options {
    long budget = 200000;
    bool perturb_all = false;  // perturb every inexact operation (for other number types)
    double eps = 1e-14;
    int pert_mode = 0;         // 2: upwards; 3: downwards; others: pseudo-random signs
    long max_mem_ops = 2000000;
    int max_loop = kMaxLoop;
};

Result run(const lang::NodeP& program, State& s, Policy pol, const Options& opt = {});

// |x-y| within tol relative to their size; NaNs equal, infinities equal by sign
bool close(double x, double y, double tol);

// Total steps compile-time folding may take: number of constant loops
int count_loops(const lang::NodeP& n);
void collect_vars(const lang::NodeP& n, std::set<std::string>& out);

// Function value without perturbation, for single calls (shared with C24)
double apply_pure(lang::Fn f, double a, double b, std::string* unjudged);

bool reg_index(const std::string& lower_name, int* idx);

}  // namespace model
