// Small helpers shared by the properties.
#pragma once
#include "gen.hpp"

#include <clocale>

using eng::Case;
using gen::Gen;
using host::Buffer;
using host::Code;
using host::Ctx;
using host::Regs;
using lang::NodeP;

// Switches the process locale for the life of the object; the runner provides compiled locales in LOCPATH.
struct LocaleGuard {
    bool on = false;
    explicit LocaleGuard(const char* name) { if (name && *name) on = setlocale(LC_ALL, name) != nullptr; }
    ~LocaleGuard() { if (on) setlocale(LC_ALL, "C"); }
};

inline bool same_bits(double a, double b) {
    if (a != a && b != b) return true;
    return memcmp(&a, &b, 8) == 0;
}
inline bool same_value(double a, double b) { return a == b || (a != a && b != b); }

// Everything visible in a context, for exact comparison of two contexts that went through the same history.
struct Snapshot {
    std::vector<std::pair<std::string, double>> v;
    std::string diff(const Snapshot& o) const {
        for (size_t i = 0; i < v.size() && i < o.v.size(); i++)
            if (!same_value(v[i].second, o.v[i].second)) {
                char b[300];
                snprintf(b, sizeof b, "%s: %.17g and %.17g", v[i].first.c_str(), v[i].second, o.v[i].second);
                return b;
            }
        return "";
    }
};
inline Snapshot snapshot(Ctx& c, const std::vector<std::string>& vars, const std::vector<int>& mem = {}, bool global = true) {
    Snapshot s;
    for (auto& n : vars) s.v.push_back({n, *c.var(n)});
    for (int i = 0; i < 100; i++) {
        char b[8];
        snprintf(b, sizeof b, "reg%02d", i);
        s.v.push_back({b, *c.var(b)});
    }
    for (int i : mem) {
        s.v.push_back({"megabuf[" + std::to_string(i) + "]", c.peek(false, i)});
        if (global) s.v.push_back({"gmegabuf[" + std::to_string(i) + "]", c.peek(true, i)});
    }
    return s;
}
// Slots generated programs tend to use
inline std::vector<int> usual_slots() {
    std::vector<int> r;
    for (int i = 0; i < 24; i++) r.push_back(i);
    for (int i : {99, 100, 101, 102, 103, 105, 299, 300, 301, 65534, 65535, 65536, 65537, 65538, 131071, 131072, 4194304, 8388606, 8388607}) r.push_back(i);
    return r;
}

inline void note_state(Case& k, const model::State& s) {
    for (auto& v : s.vars) if (v.second != 0) k.note("%s=%.17g ", v.first.c_str(), v.second);
    for (int i = 0; i < 100; i++) if (s.reg[i] != 0) k.note("reg%02d=%.17g ", i, s.reg[i]);
    for (int g = 0; g < 2; g++)
        for (int p : (g ? s.global : s.local).pages())
            for (int q = 0; q < 4096; q++) {
                double v = (g ? s.global : s.local).get(p * 4096 + q);
                if (v != 0) k.note("%s[%d]=%.17g ", g ? "gmegabuf" : "megabuf", p * 4096 + q, v);
            }
    k.note("\n");
}

inline int depth_of(const NodeP& n) {
    int d = 0;
    for (auto& c : n->a) d = std::max(d, depth_of(c));
    return d + 1;
}
inline bool contains(const NodeP& n, bool (*f)(lang::Fn)) {
    if (f(n->fn)) return true;
    for (auto& c : n->a) if (contains(c, f)) return true;
    return false;
}
