#include "gen.hpp"

#include <algorithm>
#include <cmath>
#include <limits>

using namespace lang;

namespace gen {

std::string random_case(eng::Case& k, const std::string& s) {
    int mode = k.weighted({3, 1, 1});
    if (mode == 0) return s;
    std::string r = s;
    for (char& c : r) {
        bool up = mode == 1 || k.chance(1, 2);
        if (up && c >= 'a' && c <= 'z') c = (char) (c - 32);
        else if (!up && c >= 'A' && c <= 'Z') c = (char) (c + 32);
    }
    return r;
}

NodeP random_literal(eng::Case& k, bool big) {
    char b[80];
    switch (k.weighted({10, 6, 4, 2, 2, 1, 2, big ? 2 : 0})) {
        case 0: return num(k.range(0, 9));
        case 1: { snprintf(b, sizeof b, "%d.%0*d", k.range(0, 12), k.range(1, 4), k.range(0, 999)); return numlit(literal_value(b), b); }
        case 2: return num(k.range(0, 300));
        case 3: { snprintf(b, sizeof b, ".%d", k.range(0, 99)); return numlit(literal_value(b), b); }
        case 4: { snprintf(b, sizeof b, "%s%x", k.chance(1, 2) ? "$X" : "$x", k.range(0, 0x1ff)); return numlit(literal_value(b), b); }
        case 5: { char c = (char) k.range(33, 126); snprintf(b, sizeof b, "$'%c'", c); return numlit(literal_value(b), b); }
        case 6: {
            static const char* n[] = {"$PI", "$E", "$PHI", "$pi", "$e", "$phi", "$Pi"};
            std::string s = k.pick(n);
            return numlit(literal_value(s), s);
        }
        default: { snprintf(b, sizeof b, "%d%se%s%d", k.range(1, 99), k.chance(1, 2) ? ".5" : "", k.chance(1, 2) ? "-" : "", k.range(0, 12)); return numlit(literal_value(b), b); }
    }
}

double random_value(eng::Case& k) {
    switch (k.weighted({4, 6, 4, 4, 2, 1, 1})) {
        case 0: return 0;
        case 1: return k.range(-5, 9);
        case 2: return k.range(-4000, 4000) / 8.0;
        case 3: return k.range(-100000, 100000) / 997.0;
        case 4: return k.range(0, 300);
        case 5: return k.range(-1000000, 1000000) * 7919.0;
        default: return std::ldexp((double) k.range(1, 1000), k.range(-60, 60));
    }
}

double near_value(eng::Case& k, double v) {
    switch (k.weighted({6, 3, 2, 2, 1, 1, 1})) {
        case 0: return v == 0 ? -v : v;
        case 1: return v;
        case 2: return (double) (float) v;
        case 3: return std::nextafter(v, k.chance(1, 2) ? 1e308 : -1e308);
        case 4: return std::trunc(v);
        case 5: return v + 1e-7;
        default: return -v;
    }
}

double extreme_value(eng::Case& k) {
    static const double v[] = {
        0.0, 1.0, -1.0, 0.5, -0.5, -0.0, 2147483647.0, -2147483648.0, 2147483648.0, -2147483649.0, 4294967295.0, 4294967296.0,
        9223372036854775807.0, -9223372036854775808.0, 1.8446744073709552e19, 1e300, -1e300, 1.7976931348623157e308,
        -1.7976931348623157e308, 5e-324, -5e-324, 2.2250738585072014e-308, 1e-310, 1e-300, 1e-299, 1e-301,
        std::numeric_limits<double>::infinity(), -std::numeric_limits<double>::infinity(), std::numeric_limits<double>::quiet_NaN(),
        8388607.0, 8388608.0, 8388607.9999, 8388607.99995, -1e-5, -0.0001, 65535.0, 65536.0, 8388609.0, -8388608.0, 1048576.0, 1048577.0, 1e10, -1e10, 1e18, -1e18, 4e18, -4e18,
        4611686018427387904.0, -4611686018427387904.0, 9.3e18, 3.5, 1e5, 1e-5, 1.00001e-5, 0.99999, 536870912.0, 268435456.0, -65536.0, 2147483583.0, 2147418112.0, 2139095039.0};
    switch (k.weighted({6, 1, 1, 1})) {
        case 0: return v[k.draw(sizeof v / sizeof v[0])];
        case 1: return random_value(k);
        case 2: { double b = v[k.draw(sizeof v / sizeof v[0])]; return std::nextafter(b, k.chance(1, 2) ? 1e308 : -1e308); }
        default: { uint64_t b = k.bits(64); double d; memcpy(&d, &b, 8); return d; }
    }
}

static const int kIndexPool[] = {0, 1, 2, 3, 5, 7, 100, 65535, 65536, 65537, 131071, 4194304, 8388606, 8388607};

void random_state(eng::Case& k, const Opt& o, model::State& s) {
    for (auto& v : o.vars) s.vars[v] = random_value(k);
    for (auto& r : o.regs) *s.var(r) = random_value(k);
    if (o.vars.size() > 1 && k.chance(1, 5)) {   // values that differ by hardly anything
        const std::string &a = k.pick(o.vars), &b = k.pick(o.vars);
        s.vars[a] = k.chance(1, 2) ? near_value(k, s.vars[b]) : s.vars[b] * (1 + k.range(-9, 9) * std::pow(10, -k.range(6, 16)));
    }
    int n = (o.mem || o.gmem) ? k.range(0, 4) : 0;
    for (int i = 0; i < n; i++) {
        bool g = o.gmem && (!o.mem || k.chance(1, 2));
        (g ? s.global : s.local).set(kIndexPool[k.draw(10)], random_value(k));
    }
}

NodeP Gen::literal() {
    nodes++;
    NodeP n = random_literal(k, o.big_literals);
    return n;
}
NodeP Gen::variable() {
    nodes++;
    if (!o.regs.empty() && k.chance(1, 6)) return var(o.regs[k.draw((uint32_t) o.regs.size())]);
    return var(o.vars[k.draw((uint32_t) o.vars.size())]);
}
NodeP Gen::index(int d) {
    switch (k.weighted({6, 3, d > 0 ? 2 : 0, o.oob ? 2 : 0})) {
        case 0: nodes++; return num(kIndexPool[k.draw(6)]);
        case 1: nodes++; return num(kIndexPool[k.draw(sizeof kIndexPool / sizeof *kIndexPool)]);
        case 2: return expr(d - 1);
        default: {
            static const double odd[] = {8388608, 2.5, 3.9999999, 8388607.5, 1e9, 4294967296.0, 6.99, 2147483648.0};
            nodes++;
            double v = k.pick(odd);
            if (k.chance(1, 4)) return mk(NEG, {num(k.range(1, 70000))});
            return num(v);
        }
    }
}
NodeP Gen::memref(int d) {
    nodes++;
    bool g = o.gmem && (!o.mem || k.chance(1, 3));
    NodeP i = index(d);
    if (!g && d > 0 && k.chance(1, 3)) { nodes++; i = mk(ADD, {i, index(d - 1)}); }
    return mk(g ? GMEM : MEM, {i});
}
NodeP Gen::leaf() {
    if (o.constants_only) return literal();
    switch (k.weighted({o.const_weight, 4, (o.mem || o.gmem) ? 1 : 0})) {
        case 0: return literal();
        case 1: return variable();
        default: return memref(0);
    }
}
NodeP Gen::list_of(int d, int n) {
    std::vector<NodeP> v;
    for (int i = 0; i + 1 < n; i++) v.push_back(stmt(d));
    v.push_back(expr(d));
    if (v.size() == 1) return v[0];
    nodes++;
    return list(v);
}
// A condition that changes from one evaluation to the next
NodeP Gen::toggle() {
    nodes += 4;
    NodeP v = variable();
    switch (k.weighted({3, 2, 1})) {
        case 0: return mk(k.chance(1, 2) ? LT : EQ, {mk(ADDOP, {v, num(1)}), num(k.range(1, 4))});
        case 1: return mk(SET, {v, mk(NOT, {clone(v)})});
        default: return mk(MOD, {mk(ADDOP, {v, num(1)}), num(k.range(2, 3))});
    }
}
NodeP Gen::cond(int d) {
    nodes++;
    static const Fn c[] = {LT, GT, LE, GE, EQ, NE};
    if (o.assigns && !o.constants_only && k.chance(1, 8)) return toggle();
    if (o.oob && (o.mem || o.gmem) && !o.constants_only && d > 0 && k.chance(1, 10)) {
        // an access outside of memory next to something that leaves a value behind
        nodes += 4;
        NodeP out = mk(o.gmem && (!o.mem || k.chance(1, 3)) ? GMEM : MEM, {k.chance(1, 2) ? mk(NEG, {num(k.range(1, 70000))}) : num(8388608 + k.range(0, 70000))});
        NodeP v = k.chance(1, 2) ? mk(ADD, {variable(), num(k.range(1, 5))}) : expr(d - 1);
        NodeP which = o.assigns && k.chance(1, 2) ? toggle() : mk(k.chance(1, 2) ? NOT : LT, {variable()});
        if (which->fn == LT && which->a.size() == 1) which->a.push_back(num(k.range(0, 4)));
        return k.chance(1, 2) ? mk(IF, {which, v, out}) : k.chance(1, 2) ? mk(IF, {which, out, v}) : mk(EXEC2, {stmt(d - 1), mk(IF, {which, v, out})});
    }
    switch (k.weighted({4, 1, 1, 1})) {
        case 0: return mk(k.pick(c), {expr(d - 1), expr(d - 1)});
        case 1: return expr(d);
        case 2: return mk(NOT, {expr(d - 1)});
        default: return mk(k.chance(1, 2) ? AND : OR, {expr(d - 1), expr(d - 1)});
    }
}
NodeP Gen::lvalue(int d) {
    if (d <= 0 || full()) return (o.mem || o.gmem) && k.chance(1, 4) ? memref(0) : variable();
    switch (k.weighted({10, 4, 2, 1, 1, 1, o.lists ? 1 : 0, o.value_lvalues ? 1 : 0, o.loops && o.assigns && loop_nest < 2 ? 1 : 0})) {
        case 8: if (k.chance(1, 2)) { // a while loop yields the reference its body yielded last
                    nodes += 4;
                    loop_nest++;
                    char c[16];
                    snprintf(c, sizeof c, "w%d", counters++);
                    NodeP init = mk(SET, {var(c), num(k.range(1, 3))}), step = mk(SUBOP, {var(c), num(1)}), body;
                    if (k.chance(1, 2)) body = k.chance(1, 2) ? step : list({stmt(d - 1), step});
                    else body = mk(IF, {mk(GT, {step, num(0)}), num(k.range(1, 2)), mk(k.chance(1, 2) ? SET : MULOP, {lvalue(d - 1), num(0)})});
                    loop_nest--;
                    return mk(EXEC2, {init, mk(WHILE, {body})});
                } else { nodes += 2; loop_nest++; NodeP l = mk(LOOP, {num(k.range(1, 3)), lvalue(d - 1)}); loop_nest--; return l; }
        case 0: return variable();
        case 1: return (o.mem || o.gmem) ? memref(d - 1) : variable();
        case 2: nodes++; return mk(IF, {cond(d - 1), lvalue(d - 1), lvalue(d - 1)});
        case 3: nodes++; return mk(EXEC2, {stmt(d - 1), lvalue(d - 1)});
        case 4: nodes++; return mk(EXEC3, {stmt(d - 1), stmt(d - 1), lvalue(d - 1)});
        case 5: nodes++; return mk(SET, {lvalue(d - 1), expr(d - 1)});
        case 6: { nodes++; NodeP s = stmt(d - 1); return list({s, lvalue(d - 1)}); }
        default: return expr(d - 1);
    }
}
NodeP Gen::assign(int d) {
    nodes++;
    static const Fn ops[] = {SET, ADDOP, SUBOP, MULOP, DIVOP, MODOP, OROP, ANDOP, POWOP};
    Fn f = k.chance(2, 5) ? ops[k.draw(9)] : SET;
    NodeP l = lvalue(d - 1);
    return mk(f, {l, expr(d - 1)});
}
NodeP Gen::loop_expr(int d) {
    nodes += 2;
    loop_nest++;
    NodeP r;
    if (k.chance(2, 5)) {
        char c[16];
        snprintf(c, sizeof c, "w%d", counters++);
        NodeP init = mk(SET, {var(c), num(k.range(1, 4))});
        NodeP step = mk(SUBOP, {var(c), num(1)});
        if (k.chance(1, 2)) step = mk(GT, {step, num(0)});
        NodeP body = k.chance(1, 4) ? step : list({stmt(d - 1), step});
        if (k.chance(1, 6)) body = mk(IF, {step->fn == GT ? step : mk(GT, {step, num(0)}), lvalue(d - 1), num(0)});
        NodeP w = mk(WHILE, {body});
        r = k.chance(1, 2) ? mk(EXEC2, {init, w}) : list({init, w});
    } else {
        NodeP c;
        switch (k.weighted({5, 2, 1, 1})) {
            case 0: c = num(k.range(0, 5)); break;
            case 1: c = numlit(0, ""); c->num = k.range(0, 40) / 8.0; break;
            case 2: c = mk(MIN, {variable(), num(k.range(1, 4))}); break;
            default: c = mk(NEG, {num(k.range(0, 3))}); break;
        }
        if (o.assigns && !o.constants_only && k.chance(1, 4)) r = mk(LOOP, {c, mk(IF, {toggle(), k.chance(3, 4) ? lvalue(d - 1) : expr(d - 1), expr(d - 1)})});
        else r = mk(LOOP, {c, list_of(d - 1, o.lists ? 1 + k.weighted({3, 2, 1}) : 1)});
    }
    loop_nest--;
    return r;
}
NodeP Gen::stmt(int d) {
    if (o.assigns && !full()) {
        switch (k.weighted({6, d > 1 && o.loops && loop_nest < 3 ? 1 : 0, d > 0 && o.memops && o.mem ? 1 : 0, 1})) {
            case 0: return assign(d);
            case 1: return loop_expr(d);
            case 2: {
                nodes++;
                static const int len[] = {0, 1, 2, 3, 5, 17, 300};
                if (k.chance(1, 6)) return mk(FREEMBUF, {index(d - 1)});
                if (k.chance(1, 2)) return mk(MEMSET, {index(d - 1), expr(d - 1), num(k.pick(len))});
                return mk(MEMCPY, {index(d - 1), index(d - 1), num(k.pick(len))});
            }
            default: break;
        }
    }
    return expr(d);
}
NodeP Gen::expr(int d) {
    if (d <= 0 || full() || k.exhausted()) return leaf();
    nodes++;
    static const Fn arith[] = {ADD, SUB, MUL, DIV};
    static const Fn bit[] = {MOD, BITAND, BITOR};
    static const Fn cmp[] = {LT, GT, LE, GE, EQ, NE};
    static const Fn u1[] = {NEG, ABS, FLOOR, CEIL, SIGN, SQR, INT};
    static const Fn u2[] = {SIN, COS, TAN, ATAN, SQRT, EXP, LOG, LOG10, ASIN, ACOS};
    static const Fn b2[] = {MIN, MAX, BAND, BOR, ATAN2, POW, SIGMOID};
    switch (k.weighted({4, 8, 3, 3, 3, 3, o.transcendental ? 2 : 0, 3, 3, o.assigns ? 3 : 0, 2, o.lists ? 1 : 0,
                        o.loops && loop_nest < 3 ? 1 : 0, (o.mem || o.gmem) && !o.constants_only ? 2 : 0})) {
        case 0: nodes--; return leaf();
        case 1: return mk(k.pick(arith), {expr(d - 1), expr(d - 1)});
        case 2: return mk(k.pick(bit), {expr(d - 1), expr(d - 1)});
        case 3: return mk(k.pick(cmp), {expr(d - 1), expr(d - 1)});
        case 4: return mk(k.chance(1, 2) ? AND : OR, {expr(d - 1), expr(d - 1)});
        case 5: return mk(k.chance(1, 3) ? NOT : k.pick(u1), {expr(d - 1)});
        case 6: return mk(k.pick(u2), {expr(d - 1)});
        case 7: {
            Fn f = k.pick(b2);
            if (!o.transcendental && (f == ATAN2 || f == POW || f == SIGMOID)) f = MIN;
            return mk(f, {expr(d - 1), expr(d - 1)});
        }
        case 8: return mk(IF, {cond(d - 1), expr(d - 1), expr(d - 1)});
        case 9: nodes--; return assign(d);
        case 10: return k.chance(1, 2) ? mk(EXEC2, {stmt(d - 1), expr(d - 1)}) : mk(EXEC3, {stmt(d - 1), stmt(d - 1), expr(d - 1)});
        case 11: nodes--; return list_of(d - 1, k.range(2, 3));
        case 12: nodes--; return loop_expr(d);
        default: nodes--; return memref(d - 1);
    }
}
NodeP Gen::program() {
    int n = 1 + k.weighted({2, 3, 3, 2, 1, 1});
    if (n > o.max_stmts) n = o.max_stmts;
    if (o.wide) n = o.wide;
    std::vector<NodeP> v;
    for (int i = 0; i < n; i++) v.push_back(i + 1 < n ? stmt(o.max_depth) : expr(o.max_depth));
    NodeP p = v.size() == 1 ? v[0] : list(v);
    if (o.styles) decorate(p);
    return p;
}
void Gen::decorate(const NodeP& n) {
    if (n->fn == VARREF) {
        if (k.chance(1, 8)) n->name = random_case(k, n->name);
        if (k.chance(1, 30)) n->paren = true;
        return;
    }
    if (n->fn != NUMLIT && n->fn != LIST) {
        size_t al = fn_aliases(n->fn).size();
        if (al && k.chance(1, 4)) n->style = 1 + (int) k.draw((uint32_t) al);
        if (k.chance(1, 12)) n->paren = true;
    }
    for (auto& c : n->a) decorate(c);
}

Judged judge(const NodeP& p, model::State& s, const model::Options& opt) {
    Judged j;
    const model::State init = s;
    j.r = model::run(p, s, model::LATE, opt);
    if (j.r.out_of_budget) { j.why = "too long"; return j; }
    if (!j.r.unjudged.empty()) { j.why = "not settled by the language"; return j; }
    double tol = opt.perturb_all ? 1e-3 : kTol;
    for (int mode = 0; mode < (opt.perturb_all ? 12 : 1); mode++) {
        model::State e = init;
        e.rng = nullptr;
        model::Options o = opt;
        o.pert_mode = mode;
        model::Result re = model::run(p, e, model::EAGER, o);
        if (re.out_of_budget) { j.why = "too long"; return j; }
        if (!re.unjudged.empty()) { j.why = "not settled by the language"; return j; }
        j.why = "depends on operand reading or rounding";
        if (!model::close(j.r.value, re.value, tol)) return j;
        for (auto& v : s.vars) {
            auto it = e.vars.find(v.first);
            if (it == e.vars.end() || !model::close(v.second, it->second, tol)) return j;
        }
        if (s.vars.size() != e.vars.size()) return j;
        for (int i = 0; i < 100; i++) if (!model::close(s.reg[i], e.reg[i], tol)) return j;
        if (!s.local.equals(e.local, tol) || !s.global.equals(e.global, tol)) return j;
    }
    j.ok = true;
    j.why = "";
    return j;
}

static bool constant(const NodeP& n) {
    if (n->fn == VARREF || n->fn == MEM || n->fn == GMEM || n->fn == RAND || is_assign(n->fn) || n->fn == MEMSET || n->fn == MEMCPY || n->fn == FREEMBUF) return false;
    for (auto& c : n->a) if (!constant(c)) return false;
    return true;
}
static double loop_cost(const NodeP& n) {
    double c = 1;
    for (auto& a : n->a) c += loop_cost(a);
    if (n->fn == WHILE) return constant(n) ? c * 1048576 : c;
    if (n->fn == LOOP) {
        if (!constant(n)) return c;
        if (n->a[0]->fn == NUMLIT) return c * std::max(1.0, std::min(1048576.0, n->a[0]->num));
        return c * 1048576;
    }
    return c;
}
bool heavy_constant_loops(const NodeP& n) { return n && loop_cost(n) > 5e6; }

std::string random_layout(eng::Case& k, const std::vector<std::string>& toks, bool comments) {
    static const char* ws[] = {" ", "\n", "\t", "  ", "\r\n", " \n ", "\v", "\f"};
    static const char* inner[] = {"", "x", " a = 1; ", "*", "**", "/", "//", "/*", " $ # @ ", "\"", "'", "sin(", "\xc3\xa4", ";", "(((", "a\tb"};
    std::string s;
    auto gap = [&](bool must, bool maybe) {
        bool any = false;
        int n = maybe ? k.weighted({6, 3, 1, 1}) : 0;
        for (int i = 0; i < n || (must && !any); i++) {
            switch (k.weighted({6, comments ? 2 : 0, comments ? 1 : 0})) {
                case 0: s += ws[k.draw(8)]; break;
                case 1: {
                    std::string b = inner[k.draw(16)];
                    if (k.chance(1, 4)) b += "\n" + std::string(inner[k.draw(16)]);
                    if (k.chance(1, 6)) b += std::string((size_t) k.range(1, 40), '*');
                    // the comment must end where we end it
                    size_t p;
                    while ((p = b.find("*/")) != std::string::npos) b.replace(p, 2, "* /");
                    s += "/*" + b + "*/";
                    break;
                }
                default: s += "//" + std::string(inner[k.draw(16)]) + "\n"; break;
            }
            any = true;
        }
    };
    gap(false, true);
    for (size_t i = 0; i < toks.size(); i++) {
        if (i) {
            // "/" directly followed by a comment would read as something else
            bool must = need_space(toks[i - 1], toks[i]);
            size_t before = s.size();
            gap(must, true);
            if (s.size() > before && toks[i - 1].back() == '/' && (s[before] == '/' || s[before] == '*')) s.insert(before, " ");
            if (s.size() > before && !toks[i].empty()) { /* a gap never ends in '/' except after a comment, which is complete */ }
        }
        s += toks[i];
    }
    if (!toks.empty()) {
        size_t before = s.size();
        gap(false, true);
        if (s.size() > before && toks.back().back() == '/' && s[before] == '/') s.insert(before, " ");
    }
    return s;
}

int boundary(eng::Case& k, int max) {
    int top = 3;
    while ((2 << top) <= max && top < 24) top++;
    for (int i = 0; i < 8; i++) {
        int v;
        if (k.chance(1, 8)) { v = 10; for (int e = k.range(0, 4); e > 0; e--) v *= 10; }
        else v = 1 << k.range(3, top);
        static const int off[] = {0, 1, -1, 2, -2, 3, -3, 5};
        v += k.pick(off);
        if (v <= max) return v;
    }
    return max;
}
bool widen(eng::Case& k, Opt& o, int one_in) {
    if (!k.chance(1, one_in)) return false;
    o.wide = boundary(k, k.chance(1, 3) ? 1100 : 140);
    o.max_depth = std::min(o.max_depth, o.wide > 140 ? 1 : 2);
    o.max_nodes = 6 * o.wide;
    o.transcendental = false;
    int n = k.chance(1, 2) ? boundary(k, 270) : 0;
    for (int i = 0; i < n; i++) o.vars.push_back("v" + std::to_string(i));
    return true;
}
std::string similar_name(eng::Case& k, const std::string& name) {
    static const char ch[] = "abzxyAQZ019_";
    for (int t = 0; t < 6; t++) {
        std::string s = name;
        size_t p = k.chance(1, 2) ? s.size() - 1 - k.draw((uint32_t) std::min<size_t>(s.size(), 3)) : k.draw((uint32_t) s.size()), q = k.draw((uint32_t) s.size());
        switch (k.range(0, 6)) {
            case 0: std::swap(s[p], s[q]); break;
            case 1: if (p + 1 < s.size()) std::swap(s[p], s[p + 1]); break;
            case 2: s[p] = ch[k.draw(sizeof ch - 1)]; break;
            case 3: s.insert(p, 1, ch[k.draw(sizeof ch - 1)]); break;
            case 4: s.erase(p, 1); break;
            case 5: s += ch[k.draw(sizeof ch - 1)]; break;
            default: if (s[p] != s[q]) { // same sum of characters
                char& c = s[p]; char& d = s[q];
                if ((isalpha((unsigned char) c) && c != 'z' && c != 'Z' && isalpha((unsigned char) d) && d != 'a' && d != 'A')) { c++; d--; }
            }
        }
        if (s.empty() || isdigit((unsigned char) s[0]) || s[0] == '$' || lower(s) == lower(name) || s == "_") continue;
        if (find_function(s) || lower(s) == "gmem") continue;
        if (s.size() == 5 && lower(s).compare(0, 3, "reg") == 0 && isdigit((unsigned char) s[3]) && isdigit((unsigned char) s[4])) continue;   // a register
        std::vector<Tok> toks = lex(s).toks;
        if (toks.size() != 2 || toks[0].kind != T_VAR) continue;
        return s;
    }
    return name;
}
static std::string broken_line(eng::Case& k) {
    static const char* part[] = {"a", "b=1", "reg05", "3", "sin(a)", "(a;b)", "a[2]", "gmem[b]", "if(a,b,c)", "-d", "a?b:c", "(1;2)", "megabuf(1)=a", "exec3(a,b;c,d)", "1+2*3", "loop(2,a)", "!a&&b", "a+=b=c", "()", "[]"};
    auto piece = [&] { return std::string(part[k.draw(18)]); };
    auto many = [&](const char* sep, int n) { std::string s = piece(); for (int i = 1; i < n; i++) s += sep + piece(); return s; };
    int n = k.chance(1, 3) ? boundary(k, 140) : k.range(1, 12);
    const char* fn = kFunctions[k.draw((uint32_t) kFunctionCount)].name;
    static const char* end[] = {")", ",", "a b", "1 2", "=", "(", "[", "]", "+", "if", "sin", "?", ":", "$", "%", "nofunction(a)", "sin(a,b)", "pow(a)", "1=", "while()"};
    switch (k.range(0, 6)) {
        case 0: return std::string(fn) + "(" + many(",", std::max(n, 4)) + ")" + (k.chance(1, 2) ? ";a" : "");
        case 1: return many(";", n) + ";" + k.pick(end) + ";";
        case 2: return "nofunction" + std::to_string(n) + "(" + many(",", n) + ")";
        case 3: { std::string s; for (int i = 0; i < n; i++) s += k.chance(1, 2) ? "(" : "sin("; return s + many(";", k.range(1, 5)) + std::string((size_t) (n - 1), ')'); }
        case 4: { std::string s = "a"; for (int i = 0; i < n; i++) s += "[" + piece(); return s + std::string((size_t) n, ']') + "]"; }
        case 5: return std::string(fn) + "(" + many(",", n) + k.pick(end);
        default: return many(k.chance(1, 2) ? "+" : ";", n) + " " + many(",", n);   // a list or a second expression without a separator
    }
}
std::string broken(eng::Case& k) {
    std::string s = broken_line(k);
    if (!k.chance(1, 3)) return s;
    // over several lines
    std::string t;
    int lines = k.range(1, 6);
    for (char c : s) {
        t += c;
        if ((c == ';' || c == ',' || c == '(' || c == '+') && lines > 0 && k.chance(1, 2)) { t += k.pick({"\n", "\n\n\n", "\r\n", " // x\n", "/*\n\n*/"}); lines--; }
    }
    return t;
}
std::string filler(eng::Case& k, int n) {
    std::string s;
    auto rep = [&](const std::string& unit) { while ((int) s.size() + (int) unit.size() <= n || s.empty()) s += unit; };
    switch (k.range(0, 9)) {
        case 0: rep("\n"); break;
        case 1: rep(" "); break;
        case 2: rep("\t"); break;
        case 3: rep("\r\n"); break;
        case 4: s = "/*" + std::string((size_t) n, '*') + "*/"; break;
        case 5: s = "/*" + std::string((size_t) n, '\n') + "*/"; break;
        case 6: s = "//" + std::string((size_t) n, 'x') + "\n"; break;
        case 7: rep(" //\n"); break;
        case 8: rep("/**/"); break;
        default: s = "/*"; for (int i = 0; i < n; i++) s += "x y\n/"[i % 5]; s += " */"; break;
    }
    return s;
}

static const char* kSoup[] = {"a", "b", "reg01", "1", "2.5", ".5", "$x1F", "$PI", "$'c'", "(", ")", "(", ")", "[", "]", ",", ";", "?", ":", "=", "+=", "-=", "*=",
                       "/=", "%=", "^=", "|=", "&=", "==", "!=", "<", ">", "<=", ">=", "+", "-", "*", "/", "%", "^", "!", "||", "&&", "|", "&", "gmem",
                       "sin", "pow", "if", "exec3", "min", "loop", "while", "megabuf", "assign", "_and", "band", "memset", "rand", "()", ";;", "gmem[]", "gmem[1]",
                       "a[]", "sin(1)", "if(1,2,3)", "pow(1,2)"};
static const char* kBad[] = {"#", "@", "\\", "\"", "'", "~", "`", "{", "}", ".", "..", "$", "$x", "$'", "$'ab'", "$''", "$q", "1.5.2", "1e", "1e+", "0x1F", "1..2", "3a", "\x01", "\x80", "\xc3\xa4",
                      "=<", "<>", "**", "++", "--", "===", "!", "->", "&&&", "|||", "a.b", "5 5", "a b", "/*/", "*/", "$PHIx", "$pix", "_", "__", "bitor", "bitand", "const", "list", "var", "$xG", "$x1G", "1E5x", "\xff",
                      "sine", "si", "gmemx", "gmem1", "sin1", "_sin", "assignx"};

std::string strange_name(eng::Case& k) {
    // names which are functions, constants or keywords elsewhere, and near misses of the functions there are
    static const char* elsewhere[] = {"fmod", "mod", "rem", "trunc", "round", "rint", "frac", "fabs", "log2", "ln", "exp2", "exp10", "cbrt", "hypot", "sinh", "cosh", "tanh", "asinh", "acosh", "atanh",
        "sec", "cot", "clamp", "lerp", "mix", "step", "avg", "sum", "not", "and", "or", "xor", "bnot", "band2", "shl", "shr", "bitor", "bitand", "bitxor", "neg", "add", "sub", "mul", "div",
        "set", "equals", "noteq", "notequal", "beleq", "aboeq", "beloweq", "aboveeq", "above_", "less", "greater", "exec", "exec1", "exec4", "exec5", "list", "const", "var", "repeat", "do", "for",
        "else", "then", "end", "return", "break", "continue", "function", "local", "global", "instance", "this", "mem", "gmem", "_gmem", "megabuffer", "gmegabuf2", "freegbuf", "memcmp", "memmove",
        "mem_get_values", "mem_set_values", "stack_push", "stack_pop", "stack_peek", "stack_exch", "fft", "ifft", "convolve_c", "srand", "random", "randint", "time", "time_precise", "pi", "e", "phi", "inf", "nan", "true", "false",
        "null", "degrees", "radians", "deg", "rad", "square", "invsqr", "rsqrt", "isnan", "isinf", "printf", "sprintf", "strlen", "match", "atomic_set", "sigm", "sgn", "signum", "iff", "select", "case", "switch",
        "_if2", "_and2", "_mem2", "_loop", "_while", "_assign", "_min", "_max", "_sin", "_pow", "_addop2", "_shl", "_shr", "_xor", "_xorop", "_shlop", "_gmegabuf", "_megabuf", "_rand", "_floor", "_exec2", "_equals", "_below2", "_list", "_const", "_var"};
    if (k.chance(3, 5)) return k.pick(elsewhere);
    std::string n = lang::kFunctions[k.draw((uint32_t) lang::kFunctionCount)].name;
    switch (k.range(0, 6)) {
        case 0: return "_" + n;
        case 1: return n + "_";
        case 2: return n + std::to_string(k.range(0, 9));
        case 3: return n[0] == '_' ? n.substr(1) : n + "f";
        case 4: return n.size() > 1 && n.substr(0, n.size() - 1) != "_" ? n.substr(0, n.size() - 1) : n;
        case 5: return n + "op";
        default: return n + n.back();
    }
}
const char* soup_token(eng::Case& k) { return kSoup[k.draw(sizeof kSoup / sizeof *kSoup)]; }
const char* bad_token(eng::Case& k) { return kBad[k.draw(sizeof kBad / sizeof *kBad)]; }
void mutate_tokens(eng::Case& k, std::vector<std::string>& t, int muts) {
    for (int m = 0; m < muts && !t.empty(); m++) {
        size_t i = k.draw((uint32_t) t.size());
        switch (k.weighted({4, 4, 3, 1, 1, 1})) {
            case 0: t.erase(t.begin() + (long) i); break;
            case 1: t.insert(t.begin() + (long) i, k.chance(1, 4) ? bad_token(k) : soup_token(k)); break;
            case 2: t[i] = k.chance(1, 6) ? bad_token(k) : soup_token(k); break;
            case 3: t.insert(t.begin() + (long) i, t[i]); break;
            case 4: std::swap(t[i], t[k.draw((uint32_t) t.size())]); break;
            default: t.resize(i); break;
        }
    }
}
int loop_words(const std::string& text) {
    int n = 0;
    std::string l = lang::lower(text);
    for (const char* w : {"loop", "while"})
        for (size_t p = l.find(w); p != std::string::npos; p = l.find(w, p + 1)) n++;
    return n;
}
bool may_loop_long(const std::string& text) {
    int n = loop_words(text);
    if (n <= 1) return false;
    auto lx = lang::lex(text);
    lang::ParseResult pr = lang::parse(lx.toks);
    return !pr.ok || !pr.ast || heavy_constant_loops(pr.ast);
}

}  // namespace gen
