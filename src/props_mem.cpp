// C12 C13 C14 C19 C20: memory buffers
#include "common.hpp"

#include <algorithm>
#include <atomic>
#include <cmath>
#include <limits>
#include <sched.h>
#include <thread>

using namespace lang;

namespace {

constexpr int kItems = model::kMemItems;

std::string numtext(double v) {
    char b[64];
    if (v < 0 || (v == 0 && std::signbit(v))) { snprintf(b, sizeof b, "(-%s)", num_text(-v).c_str()); return b; }
    return num_text(v);
}

// ------------------------------------------------------------------------------------------- C12
// Slot addressed by an index: -1 out of range, -2 not settled
long slot_of(double x) {
    if (std::isnan(x)) return -2;
    if (x < 0) return x <= -0.99995 ? -1 : -2;
    double ip = std::floor(x), fr = x - ip;
    if (fr > 0.9998 && fr < 0.99995) return -2;
    if (fr >= 0.99995) ip += 1;
    return ip >= kItems ? -1 : (long) ip;
}
int interesting_slot(Case& k) {
    static const int base[] = {0, 1, 2, 7, 100, 32767, 65534, 65535, 65536, 65537, 131071, 131072, 196607, 1048576, 4194303, 4194304, 8323071, 8323072, 8388606, 8388607};
    switch (k.weighted({4, 2, 2})) {
        case 0: return k.pick(base);
        case 1: return k.range(0, 127) * 65536 + k.range(0, 3) * 21845;
        default: return (int) k.bits(23);
    }
}
double odd_index(Case& k, double i) {
    switch (k.weighted({10, 2, 1, 1, 2})) {
        case 0: return i;
        case 1: return i + k.range(1, 99) / 100.0 * 0.99;
        case 2: return i + 0.99996 + k.range(0, 3) * 1e-5;
        case 3: return i + 1e-9;
        default: {
            static const double out[] = {-1, -2, -1.5, -65536, -8388608, -2147483648.0, -2147483649.0, -4294967296.0, 8388608, 8388609, 8454144, 16777216, 33554432, 2147483647, 2147483648.0,
                                         4294967296.0, 4294967301.0, 8589934592.0, 1e18, -1e18, 9.3e18, 1e300, -1e300, 18446744073709551616.0, 36893488147419103232.0};
            if (k.chance(1, 12)) return std::numeric_limits<double>::infinity() * (k.chance(1, 2) ? -1 : 1);
            return k.pick(out);
        }
    }
}
// Text reading a slot of the given buffer; sets the variable ix/iy it uses
std::string access_text(Case& k, bool g, double i, Ctx& c) {
    char b[200];
    std::string it;
    int how = std::isinf(i) ? 1 : k.weighted({3, 3, 1});
    if (how == 0) it = numtext(i);
    else if (how == 1) { *c.var("ix") = i; it = "ix"; }
    else { *c.var("ix") = i; it = k.chance(1, 2) ? "(ix+0)" : "exec2(7,ix)"; }
    if (g) {
        switch (k.weighted({2, 1, 3})) {
            case 0: return "gmegabuf(" + it + ")";
            case 1: return "_gmem(" + it + ")";
            default: return "gmem[" + it + "]";
        }
    }
    switch (k.weighted({2, 1, 2, 3})) {
        case 0: return "megabuf(" + it + ")";
        case 1: return "_mem(" + it + ")";
        case 2: return (it[0] == '(' || it == "ix" ? it : "(" + it + ")") + "[]";
        default: break;
    }
    // base and offset, adding up exactly
    double off = (double) k.range(0, 3) * 65536 + k.range(0, 5);
    if (k.chance(1, 4)) off = -off;
    double bs = i - off;
    if (bs + off != i || std::isinf(i)) { *c.var("ix") = i; return "ix[0]"; }
    *c.var("ib") = bs;
    *c.var("io") = off;
    switch (k.range(0, 2)) {
        case 0: snprintf(b, sizeof b, "ib[io]"); break;
        case 1: snprintf(b, sizeof b, "%s[io]", numtext(bs).c_str()); break;
        default: snprintf(b, sizeof b, "ib[%s]", numtext(off).c_str()); break;
    }
    return b;
}
double some_value(Case& k) {
    switch (k.weighted({5, 3, 1, 1})) {
        case 0: return k.range(1, 1000);
        case 1: return gen::random_value(k);
        case 2: return 0;
        default: return gen::extreme_value(k);
    }
}
void run_c12(Case& k) {
    bool own = k.chance(1, 2);
    std::unique_ptr<Buffer> buf(own ? new Buffer : nullptr);
    Ctx c(own ? buf->b : nullptr);
    std::map<int, double> m[2];
    int n = k.range(4, 30), writes = 0, reads = 0;
    std::vector<int> pool;
    for (int i = 0; i < 5; i++) pool.push_back(interesting_slot(k));
    for (int i = 0; i < n; i++) {
        bool g = k.chance(2, 5);
        int s = k.chance(2, 3) ? pool[k.draw(5)] : interesting_slot(k);
        if (k.chance(1, 6)) s = std::min(kItems - 1, std::max(0, s + k.range(-1, 1)));
        double ix = odd_index(k, s);
        long t = slot_of(ix);
        std::string acc = access_text(k, g, ix, c);
        if (k.chance(1, 6)) acc = gen::random_case(k, acc);
        double v = some_value(k);
        *c.var("vv") = v;
        int op = k.weighted({10, 4, 2, 2, 10, 1, 1, 1});
        if (op >= 6) { // nothing else changes the contents: freembuf() is documented to do nothing, and neither do these
            static const char* noise[] = {"1", "a=a+1", "megabuf(vv+1)", "gmem[vv+70000]", "memset(vv,5,0)", "memcpy(vv,0,0)", "sin(megabuf(5))", "reg09=vv", "loop(3,megabuf(a)+gmegabuf(a);a+=65536)"};
            std::string t;
            *c.var("vv") = op == 6 ? ix : (double) k.range(0, 200000);
            if (op == 6) t = std::string(k.chance(1, 3) ? "x=3;" : "") + "freembuf(" + (k.chance(1, 3) ? "0" : "vv") + ")";
            else t = k.pick(noise);
            k.note("%s {vv %.17g}\n", t.c_str(), *c.var("vv"));
            if (op == 7 && k.chance(1, 4)) projectm_eval_context_reset_variables(c.c);
            else if (op == 7 && k.chance(1, 6)) { Ctx other(own && k.chance(1, 2) ? buf->b : nullptr); Code h(other, "megabuf(3)=gmem[4];freembuf(0)"); h.run(); if (k.chance(1, 2)) projectm_eval_context_free_memory(other.c); }
            else { Code h(c, t); if (!h) k.fail("refused: %s", c.error().c_str()); h.run(); }
            k.label(op == 6 ? "calls of freembuf" : "unrelated activity");
            continue;
        }
        if (op == 5) { // freed memory reads as zero again
            k.note("free the local memory\n");
            projectm_eval_context_free_memory(c.c);
            m[0].clear();
            continue;
        }
        std::string text;
        switch (op) {
            case 0: text = acc + "=vv"; break;
            case 1: text = "assign(" + acc + ",vv)"; break;
            case 2: text = "if(1," + acc + ",zz)=vv"; break;
            case 3: text = "exec3(1," + acc + "=vv,3)"; break;
            default: text = acc; break;
        }
        k.note("%s {index %.17g, vv %.17g}\n", text.c_str(), ix, v);
        Code h(c, text);
        if (!h) k.fail("refused: %s", c.error().c_str());
        double r = h.run();
        if (t == -2) { // not settled which slot (if any): find out from the buffer
            if (op != 4) k.skip("index not settled");
            continue;
        }
        if (op == 4) {
            double e = t < 0 ? 0 : (m[g].count((int) t) ? m[g][(int) t] : 0);
            if (!same_value(r, e)) k.fail("read %.17g, expected %.17g", r, e);
            reads++;
            k.label(t < 0 ? "reads out of range" : m[g].count((int) t) ? "reads of written slots" : "reads of unwritten slots");
        } else {
            if (t >= 0) m[g][(int) t] = v;
            writes++;
            k.label(t < 0 ? "writes out of range" : ix != std::floor(ix) ? "writes with fractional index" : "writes");
        }
    }
    for (int g = 0; g < 2; g++) {
        auto chk = [&](long i) {
            if (i < 0 || i >= kItems) return;
            double e = m[g].count((int) i) ? m[g][(int) i] : 0, x = c.peek(g, (double) i);
            if (!same_value(x, e)) k.fail("at the end %s[%ld] is %.17g, expected %.17g", g ? "gmegabuf" : "megabuf", i, x, e);
        };
        for (auto& e : m[g]) {
            for (int d = -1; d <= 1; d++) chk(e.first + d);
            chk(e.first ^ 65536); chk(e.first + 65536); chk(e.first - 65536); chk(e.first ^ 1); chk(kItems - 1 - e.first);
            chk(e.first & 65535);
        }
        for (auto& e : m[1 - g]) chk(e.first);
        for (int i : {0, 1, 65535, 65536, kItems - 1}) chk(i);
        chk((long) k.bits(23));
    }
    if (writes && reads) k.nontrivial();
}

// ------------------------------------------------------------------------------------------- C13
struct Area { double lo, hi; };
void run_c13(Case& k) {
    Ctx c;
    model::Memory m;
    // initial contents: dense runs at interesting places and a sparse pattern over some blocks
    int serial = 1;
    static const double special[] = {NAN, INFINITY, -INFINITY, 5e-324, -1e-310, 1e308, -0.0, 1e-300};
    bool odd_values = k.chance(1, 4);
    auto put = [&](int i) { if (i >= 0 && i < kItems) { double v = ++serial; if (odd_values && serial % 5 == 0) v = special[serial / 5 % 8]; m.set(i, v); c.poke(false, i, v); } };
    static const int centers[] = {0, 100, 65536, 131072, 4194304, kItems - 1, 65536 * 3, 327680};
    int center = centers[k.draw(8)];
    int runs = k.range(1, 3);
    for (int r = 0; r < runs; r++) {
        int s = (r ? centers[k.draw(8)] : center) + k.range(-60, 60), len = k.range(1, 200);
        for (int i = 0; i < len; i++) put(s + i);
    }
    bool wide = k.chance(1, 3);
    int wlo = 0, whi = 0;
    if (wide) {
        wlo = std::max(0, center - 140000); whi = std::min(kItems, center + 140000);
        int step = k.range(150, 997);
        for (int i = wlo; i < whi; i += step) put(i);
        // block limits
        for (int b = wlo / 65536 * 65536; b < whi; b += 65536) for (int d = -3; d <= 3; d++) put(b + d);
    }
    for (int i : {0, 5, 65536}) c.poke(true, i, i + 0.5);
    std::set<int> extra;
    auto start = [&]() -> double {
        switch (k.weighted({4, 4, 2, 2, 1})) {
            case 0: return center + k.range(-80, 80);
            case 1: return (wide ? center + k.range(-130000, 130000) : centers[k.draw(8)] + k.range(-70, 70));
            case 2: return -(double) k.range(1, 300);
            case 3: return kItems - k.range(-4, 300);
            default: {
                static const double v[] = {-65536, -8388608, -2147483648.0, -2147483649.0, -4294967296.0, -4294967300.0, 8388608, 8388700, 2147483647, 2147483648.0, 4294967296.0, 4294967400.0, 1e10, -1e10, 1e15, -1e15, 1e18, -1e18, 4.1e18, -4.1e18, 5e18, -5e18, 9.2e18, -9.3e18, 1e19, -1e19, 1.85e19, -1.85e19, 1e30, -1e30, 1e300, -1e300};
                return k.pick(v);
            }
        }
    };
    auto count = [&](double st) -> double {
        switch (k.weighted({5, 3, wide ? 4 : 1, 2, 1, 1})) {
            case 0: return k.range(0, 60);
            case 1: return k.range(0, 300);
            case 2: return (double) k.range(1, 2) * 65536 + k.range(-40, 40);
            case 3: return st < 0 ? -st + k.range(-3, 200) : k.range(60, 3000);
            case 4: return -(double) k.range(0, 100000);
            default: {
                static const double v[] = {-1e10, -2147483648.0, -1e18, 8388608, 2147483647, 2147483648.0, 2147483649.0, 4294967296.0, 4294967296.0 + 50, 1e10, 1e15, 1e18, 9.3e18, 1e19, 1e300, 8388607, -1e300};
                return k.pick(v);
            }
        }
    };
    int ops = k.range(1, 3);
    for (int o = 0; o < ops; o++) {
        bool cpy = k.chance(3, 5);
        double d = start(), s = 0, v = k.chance(1, 6) ? 0 : odd_values && k.chance(1, 2) ? special[k.draw(8)] : k.range(1, 100) + 0.25, n;
        if (cpy) {
            s = start();
            int rel = k.weighted({2, 3, 1, 1});
            if (rel == 3) s = d + k.range(-3, 3) * 65536 + (k.chance(1, 3) ? k.range(-1, 1) : 0);   // whole regions apart
            if (rel == 1) s = d + k.range(-120, 120);          // overlapping
            if (rel == 2 && wide) s = d + k.range(-66000, 66000);
            n = count(std::min(d, s));
        } else n = count(d);
        if (k.chance(1, 12)) { if (d >= 0) d += 0.25; if (s >= 0) s += 0.5; if (n >= 0 && n < 1e15) n += 0.75; }
        // model: integer parts, trimmed
        auto ip = [](double x) -> __int128 { return std::fabs(x) > 8e18 ? (x < 0 ? -(__int128) 8000000000000000000ll : (__int128) 8000000000000000000ll) : (__int128) (long long) std::trunc(x); };
        __int128 D = ip(d), S = cpy ? ip(s) : ip(d), N = ip(n);
        __int128 lo = std::max<__int128>(0, std::max(-D, -S)), hi = std::min<__int128>(N, std::min(kItems - D, kItems - S));
        bool any = hi > lo;
        if ((d < -4e18 || s < -4e18) && n > 4e18) k.skip("start and count both beyond 4e18 (see the known finding)");
        // Both ends huge: what remains depends on differences beyond the precision of numbers
        if (any && (std::fabs(d) > 4e15 || std::fabs(s) > 4e15)) { if (!(n >= 4e18)) k.skip("rounding"); }
        if (any && hi - lo > 1500000 && !k.chance(1, 10)) { n = k.range(0, 3000); N = (long long) n; hi = std::min<__int128>(N, std::min(kItems - D, kItems - S)); any = hi > lo; }
        std::string text = cpy ? "memcpy(" : "memset(";
        bool lits = k.chance(1, 3);
        *c.var("d") = d; *c.var("s") = cpy ? s : v; *c.var("n") = n;
        if (lits && (cpy || (std::isfinite(v) && std::fabs(v) > 1e-200)) && std::fabs(d) < 1e16 && std::fabs(s) < 1e16 && std::fabs(n) < 1e16) text += numtext(d) + "," + numtext(cpy ? s : v) + "," + numtext(n) + ")";
        else {
            // operands may be slots of the buffer, even such that the call changes
            std::string arg[3] = {"d", "s", "n"};
            double val[3] = {d, cpy ? s : v, n};
            if (k.chance(1, 4)) {
                std::set<int> used;
                for (int a = 0; a < 3; a++) {
                    if (!k.chance(1, 2)) continue;
                    long long at = any && k.chance(4, 5) ? (long long) (D + lo) + (long long) (k.bits(40) % (uint64_t) std::min<__int128>(hi - lo, k.chance(1, 2) ? 300 : hi - lo)) : k.range(0, 200000);
                    if (at < 0 || at >= kItems || !used.insert((int) at).second) continue;
                    m.set((int) at, val[a]);
                    c.poke(false, (int) at, val[a]);
                    extra.insert((int) at);
                    arg[a] = "megabuf(" + std::to_string(at) + ")";
                    k.label("operands in the buffer");
                }
            }
            text += arg[0] + "," + arg[1] + "," + arg[2] + ")";
        }
        // a reference taken before the call and written through afterwards
        int held = -1;
        double held_value = 0;
        if (k.chance(1, 5)) {
            held = (int) std::max(0.0, std::min(8388607.0, std::trunc(std::fabs(d) < 1e9 ? d : 0) + k.range(-3, 70)));
            held_value = k.range(1, 900);
            std::string at = k.chance(1, 2) ? "megabuf(" + std::to_string(held) + ")" : std::to_string(held) + "[]", hv = std::to_string((int) held_value);
            text = at + (k.chance(1, 2) ? "=(" + text + ";" + hv + ")" : "=exec2(" + text + "," + hv + ")");
            k.label("a reference held during the call");
        }
        else if (k.chance(1, 5)) text = "0;" + text + ";5";
        k.note("%s {d=%.17g s=%.17g n=%.17g}\n", text.c_str(), d, cpy ? s : v, n);
        std::vector<double> tmp;
        if (any) {
            if (cpy) {
                for (__int128 i = lo; i < hi; i++) tmp.push_back(m.get((int) (S + i)));
                for (__int128 i = lo; i < hi; i++) {
                    double nv = tmp[(size_t) (i - lo)];
                    int t = (int) (D + i);
                    if (nv != 0 || m.get(t) != 0) m.set(t, nv);
                }
            } else m.fill((long long) (D + lo), (long long) (D + hi), v);
        }
        if (held >= 0) { m.set(held, held_value); extra.insert(held); }
        Code h(c, text);
        if (!h) k.fail("refused: %s", c.error().c_str());
        h.run();
        // where to look
        auto mark = [&](__int128 i) { for (int q = -2; q <= 2; q++) if (i + q >= 0 && i + q < kItems) extra.insert((int) (i + q)); };
        for (__int128 a : {D, S}) for (__int128 e : {a, a + N, a + lo, a + hi}) mark(e);
        if (any) for (int q = 0; q < 30; q++) {
            mark(D + lo + (__int128) (k.bits(40) % (uint64_t) (hi - lo)));
            mark(S + lo + (__int128) (k.bits(40) % (uint64_t) (hi - lo)));
        }
        if (any) {
            __int128 b0 = (D + lo) / 65536 * 65536;
            for (__int128 b = b0, q = 0; b <= D + hi && q < 130; b += 65536, q++) mark(b);
        }
        k.label(any ? (cpy ? (std::abs((long long) (D - S)) < hi - lo ? "memcpy overlapping" : "memcpy") : "memset") : "nothing in range");
        if (any) k.nontrivial();
        if (N > 0 && any && (lo > 0 || hi < N)) k.label("trimmed");
    }
    for (int i = 0; i < 20; i++) extra.insert((int) k.bits(23));
    auto chk = [&](int i) {
        double x = c.peek(false, i);
        double want = m.get(i);
        if (x != want && !(std::isnan(x) && std::isnan(want))) k.fail("megabuf[%d] is %.17g, expected %.17g", i, x, want);
    };
    for (int i : extra) chk(i);
    int looked = 0;
    for (int p : m.pages()) {
        bool all = looked < 60;   // whole pages at first, then samples
        looked++;
        for (int q = 0; q < 4096; q += all ? 1 : 61) chk(p * 4096 + q);
    }
    for (int i : {0, 5, 65536}) if (c.peek(true, i) != i + 0.5) k.fail("gmegabuf[%d] was changed to %.17g", i, c.peek(true, i));
    for (int i : extra) if (i != 0 && i != 5 && i != 65536 && c.peek(true, i) != 0) k.fail("gmegabuf[%d] was changed to %.17g", i, c.peek(true, i));
}

// ------------------------------------------------------------------------------------------- C14
struct MCtx {
    std::unique_ptr<Ctx> c;
    int regs, glob;          // 0: default, 1..: own
    std::map<std::string, double> vars;
    std::map<int, double> local;
    std::vector<std::unique_ptr<Code>> codes;
    std::unique_ptr<Code> alt[2];    // reads memory in the other spelling
    bool fresh = false;              // nothing was registered or compiled in it yet
    double other_peek(bool g, int i) {
        if (!alt[g]) alt[g] = std::make_unique<Code>(*c, g ? "gmem[vc_index]" : "vc_index[]");
        *c->var("vc_index") = i;
        return *alt[g] ? alt[g]->run() : -1;
    }
};
void run_c14(Case& k) {
    Buffer bufs[2];
    Regs regs[2];
    std::map<int, double> reg[3], glob[3];
    std::vector<std::unique_ptr<MCtx>> cs;
    static const char* vn[] = {"a", "b", "regs", "reg1", "v"};
    static const int sl[] = {0, 1, 65535, 65536, 131073, 8388607};
    static const int rg[] = {0, 1, 9, 10, 42, 90, 99};
    auto make = [&] {
        auto m = std::make_unique<MCtx>();
        m->regs = k.range(0, 2);
        m->glob = k.range(0, 2);
        k.note("context %zu: registers %s, global buffer %s\n", cs.size(), m->regs ? m->regs == 1 ? "R1" : "R2" : "default", m->glob ? m->glob == 1 ? "B1" : "B2" : "default");
        m->fresh = k.chance(1, 3);
        m->c = std::make_unique<Ctx>(m->glob ? bufs[m->glob - 1].b : nullptr, m->regs ? regs[m->regs - 1].r : nullptr);
        if (!m->fresh && k.chance(1, 8)) {   // with a lot of variables
            int many = gen::boundary(k, 1030);
            for (int q = 0; q < many; q++) m->c->var("w" + std::to_string(q));
            for (int q : {0, many / 2, many - 1}) *m->c->var("w" + std::to_string(q)) = m->vars["w" + std::to_string(q)] = q + 0.5;
            k.note("  it has %d further variables\n", many);
            k.label("contexts with many variables");
        }
        cs.push_back(std::move(m));
    };
    std::vector<std::unique_ptr<Ctx>> others;   // many contexts that only exist
    if (k.chance(1, 60)) {
        int many = gen::boundary(k, k.chance(1, 4) ? 300 : 70);
        for (int q = 0; q < many; q++) others.push_back(k.chance(1, 3) ? std::make_unique<Ctx>(bufs[q % 2].b, regs[q % 2].r) : std::make_unique<Ctx>());
        k.note("(after %d other contexts)\n", many);
        k.label("among many contexts");
    }
    make(); make();
    bool shared_seen = false, reset_seen = false;
    auto check = [&](const char* after) {
        for (size_t i = 0; i < cs.size(); i++) {
            MCtx& m = *cs[i];
            if (m.fresh) continue;
            for (auto& v : m.vars) if (!same_value(*m.c->var(v.first), v.second)) k.fail("after %s: context %zu: %s is %.17g, expected %.17g", after, i, v.first.c_str(), *m.c->var(v.first), v.second);
            for (int r = 0; r < 100; r++) {
                char b[8];
                snprintf(b, sizeof b, "reg%02d", r);
                double e = reg[m.regs].count(r) ? reg[m.regs][r] : 0, x = *m.c->var(b);
                if (!same_value(x, e)) k.fail("after %s: context %zu: %s is %.17g, expected %.17g", after, i, b, x, e);
                if (m.regs && !same_value((*regs[m.regs - 1].r)[r], e)) k.fail("after %s: register array entry %d is %.17g, expected %.17g", after, r, (*regs[m.regs - 1].r)[r], e);
            }
            for (int s : sl) {
                double e = m.local.count(s) ? m.local[s] : 0, x = m.c->peek(false, s);
                if (!same_value(x, e)) k.fail("after %s: context %zu: megabuf[%d] is %.17g, expected %.17g", after, i, s, x, e);
                e = glob[m.glob].count(s) ? glob[m.glob][s] : 0; x = m.c->peek(true, s);
                if (!same_value(x, e)) k.fail("after %s: context %zu: gmegabuf[%d] is %.17g, expected %.17g", after, i, s, x, e);
                x = m.other_peek(true, s);
                if (!same_value(x, e)) k.fail("after %s: context %zu: gmem[%d] is %.17g, expected %.17g", after, i, s, x, e);
                e = m.local.count(s) ? m.local[s] : 0; x = m.other_peek(false, s);
                if (!same_value(x, e)) k.fail("after %s: context %zu: %d[] is %.17g, expected %.17g", after, i, s, x, e);
            }
        }
    };
    int n = k.range(4, 20);
    double val = 1;
    for (int i = 0; i < n; i++) {
        char what[160];
        size_t x = k.draw((uint32_t) cs.size());
        MCtx* m = cs.empty() ? nullptr : cs[x].get();
        int op = k.weighted({3, 3, 3, 3, 2, 1, 1, 1, 1, 1, 1, 1});
        if (!m) op = 6;
        if (op == 11 && !k.chance(1, 3)) continue;
        if (m && op != 4 && op != 5 && op != 6 && op != 7 && op < 9) m->fresh = false;
        val += 1;
        auto exec = [&](const std::string& t) {
            auto h = std::make_unique<Code>(*m->c, t);
            if (!*h) k.fail("refused: %s: %s", t.c_str(), m->c->error().c_str());
            h->run();
            if (k.chance(1, 2)) m->codes.push_back(std::move(h));
        };
        switch (op) {
            case 0: {
                const char* v = vn[k.draw(5)];
                snprintf(what, sizeof what, "%s=%g in context %zu", v, val, x);
                if (k.chance(1, 2)) exec(std::string(v) + "=" + num_text(val)); else *m->c->var(v) = val;
                m->vars[v] = val;
                break;
            }
            case 1: {
                int r = k.pick(rg);
                char b[24];
                snprintf(b, sizeof b, "%s%02d", k.chance(1, 4) ? "REG" : "reg", r);
                snprintf(what, sizeof what, "%s=%g in context %zu", b, val, x);
                if (m->regs && k.chance(1, 4)) (*regs[m->regs - 1].r)[r] = val;
                else if (k.chance(2, 3)) exec(std::string(b) + "=" + num_text(val)); else *m->c->var(b) = val;
                reg[m->regs][r] = val;
                break;
            }
            case 2: case 3: {
                int s = k.pick(sl);
                bool g = op == 3;
                std::string at = std::to_string(s);
                switch (k.range(0, 2)) {
                    case 0: at = (g ? "gmegabuf(" : "megabuf(") + at + ")"; break;
                    case 1: at = g ? "gmem[" + at + "]" : at + "[]"; break;
                    default: at = g ? "GMEM[0+" + at + "]" : "0[" + at + "]"; break;
                }
                snprintf(what, sizeof what, "%s=%g in context %zu", at.c_str(), val, x);
                exec(at + "=" + num_text(val));
                (g ? glob[m->glob] : m->local)[s] = val;
                break;
            }
            case 4: {
                snprintf(what, sizeof what, "free_memory of context %zu", x);
                projectm_eval_context_free_memory(m->c->c);
                m->local.clear();
                reset_seen = true;
                break;
            }
            case 5:
                snprintf(what, sizeof what, "reset_variables of context %zu", x);
                projectm_eval_context_reset_variables(m->c->c);
                for (auto& v : m->vars) v.second = 0;
                reset_seen = true;
                break;
            case 6: if (cs.size() < 5) make(); snprintf(what, sizeof what, "creating a context"); break;
            case 7:
                if (cs.size() < 2 && !k.chance(1, 2)) continue;
                snprintf(what, sizeof what, "destroying context %zu", x);
                m->codes.clear();
                m->alt[0].reset(); m->alt[1].reset();
                cs.erase(cs.begin() + (long) x);
                break;
            case 8: {
                snprintf(what, sizeof what, "memset(65530,%g,20) in context %zu", val, x);
                exec("memset(65530," + num_text(val) + ",20)");
                for (int s = 65530; s < 65550; s++) m->local[s] = val;
                break;
            }
            case 9: {
                // running earlier code again
                if (m->codes.empty()) continue;
                m->codes.pop_back();
                snprintf(what, sizeof what, "destroying a code handle");
                break;
            }
            case 11: // what is shared outlives every context
                snprintf(what, sizeof what, "destroying every context");
                for (auto& y : cs) { y->codes.clear(); y->alt[0].reset(); y->alt[1].reset(); }
                cs.clear();
                k.label("with moments without any context");
                break;
            default: {
                // a fresh context sharing nothing
                Buffer b;
                Regs r;
                Ctx t(b.b, r.r);
                Code h(t, "a=999;b=998;v=997;reg00=1000;reg42=1001;megabuf(0)=1002;gmegabuf(0)=1003;memset(65535,5,5)");
                h.run();
                projectm_eval_context_reset_variables(t.c);
                projectm_eval_context_free_memory(t.c);
                snprintf(what, sizeof what, "using an unrelated context");
                break;
            }
        }
        k.note("%s\n", what);
        check(what);
    }
    for (size_t i = 0; i < cs.size(); i++) for (size_t j = i + 1; j < cs.size(); j++) if (cs[i]->regs == cs[j]->regs || cs[i]->glob == cs[j]->glob) shared_seen = true;
    if (shared_seen) k.label("contexts share something");
    if (reset_seen) k.label("with reset or free");
    k.nontrivial();
    for (auto& m : cs) { m->codes.clear(); m->alt[0].reset(); m->alt[1].reset(); }
    cs.clear();
}

// ------------------------------------------------------------------------------------------- C20
void run_c20(Case& k) {
    std::unique_ptr<Buffer> buf(k.chance(1, 2) ? new Buffer : nullptr);
    Ctx c(buf ? buf->b : nullptr);
    // make the accessors exist before any failure
    c.var("vc_index");
    std::map<int, double> m[2];
    long failures = 0;
    int mode = 0;         // 0: all allocations succeed, 1: all fail, 2: by schedule
    std::vector<bool> sched;
    size_t pos = 0;
    host::fail_hook = [&](size_t) {
        bool f = mode == 1 || (mode == 2 && pos < sched.size() && sched[pos++]);
        if (f) failures++;
        return f;
    };
    auto get = [&](bool g, int i) { auto it = m[g].find(i); return it == m[g].end() ? 0.0 : it->second; };
    auto quiet_peek = [&](bool g, int i) {   // never obtains storage
        int old = mode;
        mode = 1;
        double x = c.peek(g, i);
        mode = old;
        return x;
    };
    static const int sl[] = {0, 1, 65535, 65536, 65537, 131071, 131072, 196608, 262143, 8388607, 8323072, 500000};
    auto checkall = [&](const char* when) {
        for (int g = 0; g < 2; g++) {
            for (auto& e : m[g]) {
                double x = quiet_peek(g, e.first);
                if (!same_value(x, e.second)) k.fail("%s: %s[%d] is %.17g, expected %.17g", when, g ? "gmegabuf" : "megabuf", e.first, x, e.second);
            }
            for (int i : sl) {
                double x = quiet_peek(g, i);
                if (!same_value(x, get(g, i))) k.fail("%s: %s[%d] is %.17g, expected %.17g", when, g ? "gmegabuf" : "megabuf", i, x, get(g, i));
            }
        }
    };
    int n = k.range(3, 20);
    double val = 0;
    int fails_seen = 0;
    for (int i = 0; i < n; i++) {
        mode = k.weighted({2, 2, 3});
        sched.clear();
        pos = 0;
        if (mode == 2) for (int j = 0; j < 6; j++) sched.push_back(k.chance(1, 2));
        bool g = k.chance(2, 5);
        const char* mb = g ? "gmegabuf" : "megabuf";
        int s = k.pick(sl);
        if (k.chance(1, 4)) s = std::min(kItems - 1, std::max(0, s + k.range(-2, 2)));
        val += 1;
        char t[200];
        int op = k.weighted({4, 2, 2, 2, 3, 3, 1, 1});
        long before = failures;
        int s2 = k.pick(sl), cnt = k.chance(1, 3) ? k.range(1, 2) * 65536 + k.range(-3, 3) : k.range(0, 40);
        switch (op) {
            case 0: snprintf(t, sizeof t, "%s(%d)=%g", mb, s, val); break;
            case 1: snprintf(t, sizeof t, "%s(%d)+=%g", mb, s, val); break;
            case 2: case 6: case 7: snprintf(t, sizeof t, "%s(%d)", mb, s); break;
            case 3: snprintf(t, sizeof t, "zz=%s(%d)+1", mb, s); break;
            case 4: snprintf(t, sizeof t, "memset(%d,%g,%d)", s, val, cnt); g = false; break;
            default: snprintf(t, sizeof t, "memcpy(%d,%d,%d)", s, s2, cnt); g = false; break;
        }
        if (op == 6) snprintf(t, sizeof t, "loop(3,%s(%d)=%g;%s(%d)=%g)", mb, s, val, mb, s2, val + 0.5);
        if (op == 7) snprintf(t, sizeof t, "%s(%d)=%s(%d)=%g", mb, s, g ? "megabuf" : "gmegabuf", s2, val);
        k.note("%s {allocations %s", t, mode == 0 ? "succeed" : mode == 1 ? "fail" : "by schedule:");
        if (mode == 2) for (bool b : sched) k.note(" %s", b ? "fail" : "ok");
        k.note("}\n");
        Code h(c, t);
        if (!h) k.fail("refused: %s", c.error().c_str());
        double r = h.run();
        bool failed = failures != before;
        if (failed) { fails_seen++; k.label(op == 4 ? "failure in memset" : op == 5 ? "failure in memcpy" : op == 2 || op == 3 ? "failure in a read" : "failure in a write"); }
        if (host::lock_depth() != 0) k.fail("the host lock is still held after the call");
        if (!host::lock_error().empty()) k.fail("%s", host::lock_error().c_str());
        mode = 1;
        switch (op) {
            case 0: if (!failed) m[g][s] = val; break;
            case 1: if (!failed) m[g][s] = get(g, s) + val; break;
            case 2: if (!same_value(r, get(g, s))) k.fail("read %.17g, expected %.17g", r, get(g, s)); break;
            case 3: if (!same_value(r, get(g, s) + 1)) k.fail("read+1 gave %.17g, expected %.17g", r, get(g, s) + 1); break;
            case 6: {
                // each write either happened or was discarded
                for (int q : {s, s2}) {
                    double x = quiet_peek(g, q);
                    bool ok = q == s2 ? same_value(x, val + 0.5) : same_value(x, val);
                    if (s == s2) ok = same_value(x, val) || same_value(x, val + 0.5);
                    if (!failed && s == s2) ok = same_value(x, val + 0.5);
                    if (failed && same_value(x, get(g, q))) ok = true;
                    if (!ok) k.fail("%s[%d] is %.17g after a write of %g", mb, q, x, q == s2 ? val + 0.5 : val);
                }
                for (int q : {s, s2}) { double x = quiet_peek(g, q); if (x != 0 || m[g].count(q)) m[g][q] = x; }
                break;
            }
            case 7: {
                double x = quiet_peek(g, s), y = quiet_peek(!g, s2);
                if (!failed) { if (x != val || y != val) k.fail("wrote %g twice, found %.17g and %.17g", val, x, y); }
                else {
                    if (x != val && !same_value(x, get(g, s)) && x != 0) k.fail("%s[%d] is %.17g after a write of %g", mb, s, x, val);
                    if (x == 0 && get(g, s) != 0) k.fail("%s[%d]: the stored value %.17g was lost", mb, s, get(g, s));
                    if (y != val && !same_value(y, get(!g, s2))) k.fail("the other buffer's slot %d is %.17g after a write of %g", s2, y, val);
                }
                if (x != 0 || m[g].count(s)) m[g][s] = x;
                if (y != 0 || m[!g].count(s2)) m[!g][s2] = y;
                break;
            }
            case 4: case 5: {
                // destination slots: the old or the new value if something failed, otherwise the new value
                std::map<int, double> nv;
                int lo = 0, hi = cnt;
                if (op == 5) { hi = std::min(hi, std::min(kItems - s, kItems - s2)); lo = std::max(0, std::max(-s, -s2)); }
                else { hi = std::min(hi, kItems - s); lo = std::max(0, -s); }
                if (op == 4) {
                    for (int q = lo; q < hi; q++) {
                        int d = s + q;
                        bool look = hi - lo < 200 || (d % 65536) < 3 || (d % 65536) > 65532 || q - lo < 3 || hi - q < 4 || m[0].count(d) || q % 4099 == 0;
                        if (!look) continue;
                        double x = quiet_peek(false, d);
                        if (x != val && !(failed && same_value(x, get(false, d)))) k.fail("megabuf[%d] is %.17g after the memset of %g, before %.17g", d, x, val, get(false, d));
                        nv[d] = x;
                    }
                } else {
                    std::set<int> look;
                    auto add = [&](int d) { if (d >= s + lo && d < s + hi) look.insert(d); };
                    for (auto& e : m[0]) { add(e.first); add(e.first - s2 + s); }
                    for (int q = lo; q < hi && q < lo + 45; q++) add(s + q);
                    for (int q = lo; q < hi; q += 8191) add(s + q);
                    add(s + hi - 1);
                    for (int d : look) {
                        double x = quiet_peek(false, d), want = get(false, d - s + s2);
                        if (!same_value(x, want) && !(failed && same_value(x, get(false, d)))) k.fail("megabuf[%d] is %.17g after the memcpy, expected %.17g, before %.17g", d, x, want, get(false, d));
                        nv[d] = x;
                    }
                }
                // A long memset leaves values in slots that were not looked at: forget about those again
                if (hi - lo >= 200 && op == 4) {
                    mode = 0;
                    Code z(c, "memset(" + std::to_string(s + 50) + ",0," + std::to_string(hi - 100) + ")");
                    z.run();
                    for (auto it = nv.begin(); it != nv.end();) if (it->first >= s + 50 && it->first < s + 50 + hi - 100) { m[0].erase(it->first); it = nv.erase(it); } else ++it;
                    // what was not looked at near the ends is settled now
                    mode = 1;
                    for (int q = s + lo; q < s + 50; q++) { double x = quiet_peek(false, q); if (x != val && !(failed && same_value(x, get(false, q)))) k.fail("megabuf[%d] is %.17g", q, x); nv[q] = x; }
                    for (int q = s + hi - 50; q < s + hi; q++) { double x = quiet_peek(false, q); if (x != val && !(failed && same_value(x, get(false, q)))) k.fail("megabuf[%d] is %.17g", q, x); nv[q] = x; }
                }
                for (auto& e : nv) if (e.second != 0 || m[0].count(e.first)) m[0][e.first] = e.second;
                break;
            }
            default: break;
        }
        checkall("after the step");
    }
    // memory is available again
    mode = 0;
    for (int g = 0; g < 2; g++) for (int s : sl) {
        if (c.peek(g, s) != get(g, s) ) { double x = c.peek(g, s); if (!same_value(x, get(g, s))) k.fail("once memory is available: slot %d is %.17g, expected %.17g", s, x, get(g, s)); }
        c.poke(g, s, 7000 + s);
        m[g][s] = 7000 + s;
    }
    checkall("at the end");
    if (fails_seen) k.nontrivial();
    host::fail_hook = nullptr;
}

// ------------------------------------------------------------------------------------------- C19
// A second thread that runs one action when told to.
struct Other {
    std::function<void()> action;
    std::atomic<int> state{0};       // 0 waiting for go, 1 running, 2 done
    std::atomic<bool> at_lock{false};
    std::thread th;
    std::thread::id id;
    explicit Other(std::function<void()> a) : action(std::move(a)) {
        th = std::thread([this] {
            while (state.load() == 0) sched_yield();
            action();
            state = 2;
        });
        id = th.get_id();
    }
    // Lets the thread run until it is done or, while we hold the lock, until it waits for the lock.
    void run(bool we_hold_the_lock) {
        int z = 0;
        state.compare_exchange_strong(z, 1);
        while (state.load() != 2 && !(we_hold_the_lock && at_lock.load())) sched_yield();
    }
    ~Other() {
        int z = 0;
        state.compare_exchange_strong(z, 1);
        th.join();
    }
};
const char* event_name(int e) {
    static const char* n[] = {"before lock", "after lock", "before unlock", "after unlock", "before allocation", "after allocation", "before release"};
    return n[e];
}

void c19_discipline(Case& k) {
    // Random API history: the lock protocol around storage
    host::check_large_locked = true;
    std::vector<std::unique_ptr<Buffer>> bufs;
    std::vector<std::unique_ptr<Ctx>> cs;
    auto api_done = [&](const char* what) {
        if (!host::lock_error().empty()) k.fail("%s: %s", what, host::lock_error().c_str());
        if (host::lock_depth() != 0) k.fail("%s: returned with the host lock held", what);
    };
    long locks = host::lock_count(), large = host::large_allocs;
    int n = k.range(3, 16);
    for (int i = 0; i < n; i++) {
        switch (cs.empty() ? 0 : k.weighted({2, 8, 2, 1, 1, 1, 1})) {
            case 0: {
                projectm_eval_mem_buffer b = nullptr;
                if (k.chance(1, 3)) { bufs.emplace_back(new Buffer); b = bufs.back()->b; }
                cs.emplace_back(new Ctx(b));
                k.note("create context (%s global buffer)\n", b ? "own" : "default");
                api_done("context_create");
                break;
            }
            case 1: {
                static const char* t[] = {"megabuf(0)=1", "gmegabuf(70000)=2", "memset(65000,3,2000)", "memcpy(200000,65000,70000)", "gmem[5]+=megabuf(131072)",
                                          "loop(3,megabuf(i)=i;i+=65536)", "megabuf(8388608)=1", "megabuf(-5)", "gmegabuf(0);1", "memset(0,0,8388608)", "freembuf(0)", "if(0,megabuf(1),gmegabuf(1))=4",
                                          "memcpy(0,3000000,10)", "memset(8388600,1,100)"};
                int w = (int) k.draw(14);
                if (w == 9 && !k.chance(1, 12)) w = 2;
                Code h(*cs[k.draw((uint32_t) cs.size())], t[w]);
                api_done("compile");
                uint32_t fails = k.chance(1, 4) ? (uint32_t) k.range(1, 15) : 0;   // bit i: the i-th allocation of storage fails
                k.note("%s", t[w]);
                if (fails) k.note(" {failing allocations: %x}", fails);
                k.note("\n");
                int nth = 0;
                host::fail_hook = [&](size_t) { int i = nth++; return i < 4 ? (fails >> i & 1) != 0 : fails == 15; };
                for (int r = 0; r < 2; r++) { h.run(); api_done(t[w]); }
                host::fail_hook = nullptr;
                break;
            }
            case 2: projectm_eval_context_free_memory(cs[k.draw((uint32_t) cs.size())]->c); k.note("free_memory\n"); api_done("context_free_memory"); break;
            case 3: cs.erase(cs.begin() + (long) k.draw((uint32_t) cs.size())); k.note("destroy context\n"); api_done("context_destroy"); break;
            case 4: { Ctx& c = *cs[k.draw((uint32_t) cs.size())]; Code h(c, "1 +"); k.note("failing compile\n"); api_done("compile"); break; }
            case 5: projectm_eval_context_reset_variables(cs[k.draw((uint32_t) cs.size())]->c); api_done("reset_variables"); break;
            default: { Buffer b; Ctx c(b.b); c.poke(true, 65536 * k.range(0, 127), 1); k.note("buffer life\n"); break; }
        }
    }
    cs.clear();
    api_done("context_destroy");
    bufs.clear();
    api_done("memory_buffer_destroy");
    projectm_eval_memory_global_destroy();
    api_done("memory_global_destroy");
    projectm_eval_memory_buffer_destroy(nullptr);
    api_done("memory_buffer_destroy(NULL)");
    if (host::large_allocs > large) {
        k.nontrivial();
        if (host::lock_count() == locks) k.fail("storage was obtained but the host lock was never used");
    }
    if (host::large_live() != 0) k.fail("%zu blocks of storage still allocated at the end", host::large_live());
    k.label("lock protocol histories");
}

void c19_schedule(Case& k) {
    // Two contexts sharing a global buffer; the other thread runs at a chosen point of this thread's call.
    int kind = k.weighted({5, 2, 2, 1});
    bool own = k.chance(1, 2);
    int when = k.range(0, 5), nth = k.weighted({4, 2, 1, 1});
    const std::thread::id me = std::this_thread::get_id();
    Other* other = nullptr;
    int seen = 0;
    bool ran = false;
    auto install = [&] {
        host::lock_hook = [&](host::LockEvent e) {
            if (std::this_thread::get_id() != me) {
                if (other) { if (e == host::BEFORE_LOCK) other->at_lock = true; else if (e == host::AFTER_LOCK) other->at_lock = false; }
                return;
            }
            if ((int) e == when && other && !ran && seen++ == nth) { ran = true; other->run(host::lock_depth() > 0); }
        };
    };
    if (kind == 0) {
        std::unique_ptr<Buffer> buf(own ? new Buffer : nullptr);
        Ctx c1(own ? buf->b : nullptr), c2(own ? buf->b : nullptr);
        static const int sl[] = {0, 1, 100, 65535, 65536, 131072, 8388607};
        int x = k.pick(sl), y = k.pick(sl);
        if (k.chance(1, 2)) y = x / 65536 * 65536 + k.range(0, 5);
        char t1[80], t2[80];
        snprintf(t1, sizeof t1, "gmegabuf(%d)=11", x);
        int way = k.range(0, 2);
        snprintf(t2, sizeof t2, way == 0 ? "gmegabuf(%d)=22" : way == 1 ? "gmegabuf(%d)+=22" : "zz=gmegabuf(%d);gmegabuf(zq)=22", y);
        *c2.var("zq") = y;
        Code h1(c1, t1), h2(c2, t2);
        k.note("%s, other thread: %s, at the %d. '%s'\n", t1, t2, nth + 1, event_name(when));
        { Other o([&] { h2.run(); }); other = &o; install(); h1.run(); }
        host::lock_hook = nullptr;
        if (!host::lock_error().empty()) k.fail("%s", host::lock_error().c_str());
        if (ran) { k.nontrivial(); k.label(event_name(when)); } else k.label("no such point");
        double a1 = c1.peek(true, x), a2 = c2.peek(true, x), b1 = c1.peek(true, y), b2 = c2.peek(true, y);
        if (a1 != a2 || b1 != b2) k.fail("the contexts see different values: [%d] %g and %g, [%d] %g and %g", x, a1, a2, y, b1, b2);
        if (x != y && (a1 != 11 || b1 != 22)) k.fail("a store was lost: [%d] is %g, expected 11; [%d] is %g, expected 22", x, a1, y, b1);
        if (x == y && a1 != 11 && a1 != 22 && a1 != 33) k.fail("[%d] is %g after stores of 11 and 22", x, a1);
    } else if (kind == 1) {
        // first use of the built-in global buffer by two contexts
        std::unique_ptr<Ctx> c1, c2;
        k.note("two contexts are created, the second one at the %d. '%s' of the first one's creation\n", nth + 1, event_name(when));
        {
            Other o([&] { c2.reset(new Ctx()); Code h(*c2, "gmegabuf(3)=22"); h.run(); });
            other = &o;
            install();
            c1.reset(new Ctx());
        }
        host::lock_hook = nullptr;
        if (!host::lock_error().empty()) k.fail("%s", host::lock_error().c_str());
        if (ran) { k.nontrivial(); k.label("buffer creation"); }
        double v = c1->peek(true, 3);
        if (v != 22) k.fail("the contexts do not share the built-in buffer: slot 3 is %g, expected 22", v);
        c1->poke(true, 4, 5);
        if (c2->peek(true, 4) != 5) k.fail("the contexts do not share the built-in buffer");
        Ctx c3;
        if (c3.peek(true, 3) != 22 || c3.peek(true, 4) != 5) k.fail("a third context does not share the built-in buffer");
    } else if (kind == 3) {
        // another thread touches the memory being freed, at a point where the lock is not held
        when = k.chance(1, 3) ? host::BEFORE_LOCK : host::AFTER_UNLOCK;
        Ctx c1;
        static const int sl[] = {0, 1, 65535, 65536, 131072, 8388607};
        std::set<int> used;
        for (int q = k.range(1, 4); q > 0; q--) used.insert(k.pick(sl));
        for (int x : used) c1.poke(false, x, x + 1);
        int y = k.pick(sl);
        char t[80];
        bool st = k.chance(2, 3);
        snprintf(t, sizeof t, st ? "megabuf(%d)=9" : "zz=megabuf(%d)", y);
        Code h(c1, t);
        k.note("free_memory with %zu used slots, other thread: %s at the %d. '%s'\n", used.size(), t, nth + 1, event_name(when));
        { Other o([&] { h.run(); }); other = &o; install(); projectm_eval_context_free_memory(c1.c); }
        host::lock_hook = nullptr;
        if (!host::lock_error().empty()) k.fail("%s", host::lock_error().c_str());
        if (ran) { k.nontrivial(); k.label("touching memory being freed"); }
        if (!ran) used.insert(y);
        for (int x : used) {
            double v = c1.peek(false, x);
            if (v != 0 && !(st && x == y && v == 9)) k.fail("after the memory was freed slot %d holds %g", x, v);
        }
    } else {
        // freeing or using one context's local memory while another context works
        std::unique_ptr<Buffer> buf(own ? new Buffer : nullptr);
        Ctx c1(own ? buf->b : nullptr), c2(own ? buf->b : nullptr);
        c1.poke(false, 0, 1); c1.poke(false, 70000, 2);
        c2.poke(false, 0, 3);
        c1.poke(true, 9, 4);
        Code h2(c2, "megabuf(0)+=1;megabuf(70000)=8;gmegabuf(9)+=1;gmegabuf(200000)=6");
        Code hm(c1, "memset(60000,7,80000)");
        bool fr = k.chance(1, 2);
        k.note("%s, other thread: megabuf(0)+=1;megabuf(70000)=8;gmegabuf(9)+=1;gmegabuf(200000)=6 at the %d. '%s'\n", fr ? "free_memory" : "memset", nth + 1, event_name(when));
        {
            Other o([&] { h2.run(); });
            other = &o;
            install();
            if (fr) projectm_eval_context_free_memory(c1.c); else hm.run();
        }
        host::lock_hook = nullptr;
        if (!host::lock_error().empty()) k.fail("%s", host::lock_error().c_str());
        if (ran) { k.nontrivial(); k.label(fr ? "during free_memory" : "during memset"); }
        double e0 = fr ? 0 : 1, e7 = fr ? 0 : 7;
        if (c1.peek(false, 0) != e0 || c1.peek(false, 70000) != e7) k.fail("the context's own memory is wrong: %g %g", c1.peek(false, 0), c1.peek(false, 70000));
        if (c2.peek(false, 0) != 4 || c2.peek(false, 70000) != 8 || c2.peek(true, 9) != 5 || c1.peek(true, 200000) != 6) k.fail("a store of the other thread was lost");
    }
    if (host::lock_depth() != 0) k.fail("the host lock is still held");
}

void c19_stress(Case& k) {
    // Real threads released together on fresh storage
    int nt = k.range(2, 4), rounds = 6;
    bool creation = k.chance(1, 4);
    k.note("%d threads, %d rounds of %s\n", nt, rounds, creation ? "creating contexts with the default buffer" : "first stores into one block of a shared buffer");
    for (int r = 0; r < rounds; r++) {
        std::atomic<int> ready{0};
        std::vector<std::thread> th;
        if (creation) {
            projectm_eval_memory_global_destroy();
            std::vector<std::unique_ptr<Ctx>> cs((size_t) nt);
            for (int i = 0; i < nt; i++) th.emplace_back([&, i] {
                ready++;
                while (ready < nt) {}
                cs[(size_t) i].reset(new Ctx());
                cs[(size_t) i]->poke(true, i, i + 1);
            });
            for (auto& t : th) t.join();
            for (int i = 0; i < nt; i++) for (int j = 0; j < nt; j++) if (cs[(size_t) i]->peek(true, j) != j + 1) k.fail("round %d: context %d sees %g in slot %d, expected %d", r, i, cs[(size_t) i]->peek(true, j), j, j + 1);
        } else {
            Buffer b;
            std::vector<std::unique_ptr<Ctx>> cs;
            for (int i = 0; i < nt; i++) { cs.emplace_back(new Ctx(b.b)); *cs.back()->var("vc_index") = 0; }
            std::vector<std::unique_ptr<Code>> hs;
            for (int i = 0; i < nt; i++) hs.emplace_back(new Code(*cs[(size_t) i], "loop(3,gmegabuf(" + std::to_string(i * 9 + 1) + "+j)=" + std::to_string(i + 1) + ";j+=65536)"));
            for (int i = 0; i < nt; i++) th.emplace_back([&, i] {
                ready++;
                while (ready < nt) {}
                hs[(size_t) i]->run();
            });
            for (auto& t : th) t.join();
            for (int j = 0; j < nt; j++) for (int q = 0; q < 3; q++) {
                double x = cs[0]->peek(true, j * 9 + 1 + q * 65536);
                if (x != j + 1) k.fail("round %d: the store of thread %d to slot %d was lost (found %g)", r, j, j * 9 + 1 + q * 65536, x);
            }
        }
        if (!host::lock_error().empty()) k.fail("%s", host::lock_error().c_str());
    }
    k.label("real thread races");
    k.nontrivial();
}

void run_c19(Case& k) {
    switch (k.weighted({4, 8, 1})) {
        case 0: c19_discipline(k); break;
        case 1: c19_schedule(k); break;
        default: c19_stress(k); break;
    }
}

eng::Register r12({"C12", run_c12, 40000, 1500000, 200,
    "a history of 4-30 writes and reads through all access forms (function, alias, index[], base[offset], gmem[], assign, references) with integral, fractional and out-of-range indices on both buffers, compared with an array; then all written slots, their neighbours and their images in other blocks are read; non-trivial: contains a write and a read",
    "an index within 0.0001..0.0002 of the next integer, in (-1,0) or NaN is not judged"});
static void probe_c13() {
    Ctx c;
    Code h(c, "memset(d, 7, n)");
    if (!h) return;
    *c.var("d") = -5e18;
    *c.var("n") = 9.3e18;
    h.run();
    if (c.peek(false, 0) == 0) eng::finding("C13", "both-huge", "memset(-5e18, 7, 9.3e18) fills nothing; the range covers the whole buffer");
}
eng::Register r13({"C13", run_c13, 12000, 400000, 60,
    "1-3 memset/memcpy calls with starts and counts from all ranges (overlaps, block boundaries, negative, beyond the end, up to 1e300) over patterned memory, compared with an array model that copies through a temporary; non-trivial: at least one slot in range",
    "negative fractional starts are not judged", probe_c13});
eng::Register r14({"C14", run_c14, 40000, 1200000, 60,
    "histories of 4-20 stores, resets, frees, creations and destructions over 2-5 contexts with default or explicit register arrays and buffers; after each step every context's variables, registers and slots are compared with a sharing model; every case is non-trivial",
    "none"});
eng::Register r19({"C19", run_c19, 30000, 1000000, 100,
    "API histories, also with failing storage allocations, with checked lock protocol; a second thread run at a chosen point (before/after lock, unlock, allocation) of this thread's first store, buffer creation, free or memset; real threads released together on fresh storage; non-trivial: storage was obtained, or the second thread ran at the chosen point",
    "allocations of 128 KiB or more by the library outside of compilation are buffer storage"});
eng::Register r20({"C20", run_c20, 40000, 1200000, 60,
    "histories of 3-20 reads, writes, memset and memcpy with injected failures of storage allocations (all or by schedule), compared with an array model in which exactly the affected writes are discarded; at the end memory is available again; non-trivial: at least one failure was injected",
    "storage is obtained through malloc/calloc/realloc in allocations of 128 KiB or more"});

}  // namespace
