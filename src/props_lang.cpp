// C03 C04 C05 C06 C08 C09 C10 C11: the expression language
#include "common.hpp"

#include <algorithm>
#include <cmath>
#include <limits>

using namespace lang;

namespace {

// Compiles and repeatedly runs a program next to the model. Skips if the language does not settle the outcome.
struct ModelRun {
    Case& k;
    bool own_regs, own_global;
    model::State s;
    std::unique_ptr<Regs> regs;
    std::unique_ptr<Buffer> buf;
    std::unique_ptr<Ctx> ctx;
    ModelRun(Case& kk) : k(kk), own_regs(kk.chance(1, 2)), own_global(kk.chance(1, 2)) {}
    void open() {
        if (own_regs) regs.reset(new Regs);
        if (own_global) buf.reset(new Buffer);
        ctx.reset(new Ctx(buf ? buf->b : nullptr, regs ? regs->r : nullptr));
    }
    // returns the number of judged runs
    int check(const NodeP& prog, const std::string& text, int reps, const model::Options& opt = {}) {
        k.note("state: ");
        note_state(k, s);
        k.note("program: ");
        k.note_str(text);
        k.note("\n");
        if (gen::heavy_constant_loops(prog)) k.skip("long constant loops");
        model::State init = s;
        gen::Judged j = gen::judge(prog, s, opt);
        if (!j.ok) k.skip(j.why);
        open();
        host::load_state(*ctx, init);
        Code code(*ctx, text);
        if (!code) {
            int l = 0, c = 0;
            std::string e = ctx->error(&l, &c);
            k.fail("the valid program was refused: %s (line %d, column %d)", e.c_str(), l, c);
        }
        for (int r = 0;; r++) {
            double v = code.run();
            if (!model::close(v, j.r.value, gen::tolerance(j))) k.fail("run %d returned %.17g, expected %.17g", r + 1, v, j.r.value);
            std::string d = host::diff_state(*ctx, s, gen::tolerance(j), k);
            if (!d.empty()) k.fail("after run %d: %s", r + 1, d.c_str());
            if (r + 1 >= reps) return r + 1;
            // continue from exactly the model's state (the library's values may differ from it within the tolerance)
            host::load_state(*ctx, s);
            j = gen::judge(prog, s, opt);
            if (!j.ok) return r + 1;
        }
    }
};

// ------------------------------------------------------------------------------------------- C03
// Encloses an expression in many levels that pass its value (and what it refers to) on
NodeP deepen(Case& k, NodeP p, int levels, bool values = false) {
    int only = k.chance(1, 2) ? k.range(0, 4) : -1;   // often all levels alike
    for (int q = 0; q < levels; q++)
        switch (only >= 0 ? only : k.weighted({4, 2, 3, 2, 2, values ? 1 : 0})) {
            case 0: p = mk(EXEC2, {k.chance(1, 3) ? mk(ADDOP, {var("dp"), num(1)}) : num(1), p}); break;
            case 1: p = mk(EXEC3, {var("dp"), mk(ADDOP, {var("dp"), num(1)}), p}); break;
            case 2: p = mk(IF, {mk(NOT, {var("zz")}), p, num(3)}); break;
            case 3: p = mk(IF, {var("zz"), num(3), p}); break;
            case 4: p = list({mk(ADDOP, {var("dp"), num(1)}), p}); break;
            default: p = mk(k.chance(1, 2) ? MUL : ADD, {p, num(1)}); break;
        }
    return p;
}

void run_c03(Case& k) {
    gen::Opt o;
    o.max_depth = k.range(1, 6);
    o.max_nodes = k.weighted({3, 2, 1}) == 2 ? 150 : k.chance(1, 2) ? 60 : 20;
    o.const_weight = 1 + k.weighted({2, 1, 1, 0, 1});
    o.loops = k.chance(2, 3);
    o.memops = k.chance(1, 2);
    o.transcendental = k.chance(2, 3);
    bool wide = gen::widen(k, o, 60);
    ModelRun m(k);
    gen::random_state(k, o, m.s);
    Gen g(k, o);
    NodeP p = g.program();
    if (k.chance(1, 60)) { // very deep, or of very many statements
        m.s.vars["dp"] = m.s.vars["zz"] = 0;
        if (k.chance(2, 3)) {
            p = deepen(k, p, gen::boundary(k, 280), k.chance(1, 2));
            if (k.chance(1, 2)) p = list({mk(SET, {deepen(k, var("a"), gen::boundary(k, 140)), num(k.range(2, 9))}), p});
            k.label("very deep programs");
        } else {
            std::vector<NodeP> st;
            for (int q = gen::boundary(k, 5000); q > 0; q--) st.push_back(mk(ADDOP, {var("dp"), num(1)}));
            st.push_back(p);
            if (k.chance(1, 2)) st.push_back(var("dp"));
            p = list(st);
            k.label("programs of very many statements");
        }
    }
    std::string text = k.chance(1, 4) ? gen::random_layout(k, to_tokens(p)) : print(p);
    int n = m.check(p, text, 1 + k.weighted({1, 2, 1}));
    if (count_nodes(p) >= 6) k.nontrivial();
    char b[40];
    snprintf(b, sizeof b, "nodes %s", count_nodes(p) < 6 ? "<6" : count_nodes(p) < 20 ? "6-19" : count_nodes(p) < 60 ? "20-59" : "60+");
    k.label(b);
    snprintf(b, sizeof b, "judged runs %d", n);
    k.label(b);
    if (contains(p, [](Fn f) { return f == LOOP || f == WHILE; })) k.label("has loops");
    if (contains(p, [](Fn f) { return f == MEM || f == GMEM; })) k.label("has memory access");
    if (contains(p, is_assign)) k.label("has assignments");
    if (wide) k.label("very long programs");
}

// ------------------------------------------------------------------------------------------- C04
void run_c04(Case& k) {
    static const char* ops[] = {"=", "+=", "-=", "*=", "/=", "%=", "^=", "|=", "&=", "?", "||", "&&", "|", "&", "==", "!=",
                                ">", ">=", "<", "<=", "+", "-", "*", "/", "%", "^"};
    static const char* vars[] = {"a", "b", "c", "d", "e", "f", "g", "h"};
    static const char* nums[] = {"1", "2", "3", "0", "0.5", "1.5", "7", "13"};
    std::vector<std::string> t;
    int n = k.range(2, 8), pending = 0, nops = 0;
    bool few = k.chance(1, 2);   // concentrate on few operators so that pairs meet often
    std::vector<const char*> sel;
    for (int i = 0; i < 3; i++) sel.push_back(ops[k.draw(26)]);
    auto operand = [&] {
        while (k.chance(1, 4)) t.push_back(k.chance(1, 3) ? "!" : k.chance(2, 3) ? "-" : "+");
        switch (k.weighted({8, 4, 1, 1, 1})) {
            case 0: t.push_back(vars[k.draw(8)]); break;
            case 1: t.push_back(nums[k.draw(8)]); break;
            case 2: t.push_back(vars[k.draw(8)]); t.push_back("["); if (k.chance(1, 2)) t.push_back(nums[k.draw(4)]); t.push_back("]"); break;
            case 3: t.push_back("gmem"); t.push_back("["); t.push_back(nums[k.draw(4)]); t.push_back("]"); break;
            default: t.push_back("("); t.push_back(vars[k.draw(8)]); t.push_back(")"); break;
        }
    };
    operand();
    for (int i = 0; i < n; i++) {
        std::string op = few ? sel[k.draw(3)] : ops[k.draw(26)];
        if (pending && k.chance(1, 3)) { op = ":"; pending--; }
        if (op == "?") { if (pending >= 3) op = "+"; else pending++; }
        t.push_back(op);
        nops++;
        operand();
    }
    while (pending--) { t.push_back(":"); operand(); }
    std::string text = join(t);
    auto lx = lex(text);
    ParseResult pr = parse(lx.toks);
    if (!pr.ok) k.fail("internal: own parser refuses %s", text.c_str());
    std::string full = join(to_tokens_full(pr.ast));
    k.note("text: "); k.note_str(text); k.note("\nfully parenthesised: "); k.note_str(full); k.note("\n");

    Buffer b1, b2;
    Regs r1, r2;
    Ctx c1(b1.b, r1.r), c2(b2.b, r2.r);
    std::vector<std::string> vn(vars, vars + 8);
    Code h1(c1, text), h2(c2, full);
    if (!h2) k.fail("the fully parenthesised form was refused: %s", c2.error().c_str());
    if (!h1) k.fail("the program was refused: %s", c1.error().c_str());
    std::vector<int> slots;
    for (int i = 0; i < 12; i++) slots.push_back(i);
    bool judged = false, follow = true;
    model::State s;
    for (int round = 0; round < 4; round++) {
        for (auto& v : vn) s.vars[v] = k.weighted({1, 4, 2}) == 0 ? 0 : k.chance(1, 2) ? k.range(1, 9) : k.range(-40, 60) / 4.0;
        for (int i = 0; i < 12; i++) { s.local.set(i, i % 3 ? i * 1.5 : 0); s.global.set(i, i * 2.25 - 3); }
        for (Ctx* c : {&c1, &c2}) {
            for (auto& v : s.vars) *c->var(v.first) = v.second;
            for (int i = 0; i < 12; i++) { c->poke(false, i, s.local.get(i)); c->poke(true, i, s.global.get(i)); }
        }
        model::State init = s;
        double x = h1.run(), y = h2.run();
        if (!same_value(x, y)) { note_state(k, init); k.fail("result %.17g, but %.17g for the fully parenthesised form", x, y); }
        std::string d = snapshot(c1, vn, slots).diff(snapshot(c2, vn, slots));
        if (!d.empty()) { note_state(k, init); k.fail("effects differ from those of the fully parenthesised form: %s", d.c_str()); }
        if (!follow) continue;
        gen::Judged j = gen::judge(pr.ast, s);
        if (!j.ok) follow = false;
        else {
            judged = true;
            if (!model::close(x, j.r.value, gen::tolerance(j))) { note_state(k, init); k.fail("result %.17g, expected %.17g", x, j.r.value); }
            d = host::diff_state(c1, s, gen::tolerance(j), k);
            if (!d.empty()) { note_state(k, init); k.fail("%s", d.c_str()); }
        }
    }
    k.label(judged ? "also judged by the model" : "compared with the parenthesised form only");
    if (nops >= 2) k.nontrivial();
}

// ------------------------------------------------------------------------------------------- C05
void one_c05(Case& k, const std::string& text, Ctx& ctx, const std::vector<std::string>& vn, const std::vector<int>& slots, int* acc, int* rej) {
    auto lx = lex(text);
    if (lx.unterminated_comment) return;
    ParseResult pr = parse(lx.toks);
    if (pr.max_depth > 1500) return;
    if (pr.ok && gen::heavy_constant_loops(pr.ast)) return;
    if (!pr.ok && !pr.arity) {
        // the compiler may have to evaluate loops before the offending token
        int loops = 0;
        for (auto& t : lx.toks) { std::string l = lower(t.text); if (l == "loop" || l == "while") loops++; }
        if (loops > 1) return;
    }
    k.note("text: "); k.note_str(escape(text)); k.note("\n");
    Snapshot before = snapshot(ctx, vn, slots);
    projectm_eval_code* h = ctx.compile(text);
    bool got = h != nullptr;
    if (h) projectm_eval_code_destroy(h);
    if (got != pr.ok) {
        if (got) k.fail("a text outside of the documented syntax was accepted (offending token %d '%s')", pr.err_tok,
                        pr.err_tok >= 0 ? escape(lx.toks[pr.err_tok].text).c_str() : "");
        k.fail("a text of the documented syntax was refused: %s", ctx.error().c_str());
    }
    std::string d = snapshot(ctx, vn, slots).diff(before);
    if (!d.empty()) k.fail("compiling changed state: %s", d.c_str());
    (pr.ok ? *acc : *rej)++;
}

void run_c05(Case& k) {
    Ctx ctx;
    std::vector<std::string> vn = {"a", "b", "c", "x1", "q_2", "_t"};
    for (size_t i = 0; i < vn.size(); i++) *ctx.var(vn[i]) = (double) i + 1;
    std::vector<int> slots = {0, 1, 2, 5, 65536};
    for (int i : slots) { ctx.poke(false, i, i + 0.5); ctx.poke(true, i, i + 0.25); }
    int acc = 0, rej = 0;
    int mode = k.weighted({3, 4, 2});
    int n = mode == 0 ? 20 : 4;
    for (int r = 0; r < n; r++) {
        std::vector<std::string> t;
        if (mode == 0) {
            int len = k.range(1, 7);
            for (int i = 0; i < len; i++) t.push_back(k.chance(1, 25) ? gen::bad_token(k) : gen::soup_token(k));
        } else {
            gen::Opt o;
            o.max_depth = k.range(1, 4);
            o.max_nodes = 30;
            Gen g(k, o);
            NodeP p = g.program();
            t = to_tokens(p);
            int muts = mode == 1 ? k.weighted({1, 6, 2, 1}) : 0;
            gen::mutate_tokens(k, t, muts);
            if (mode == 2) {
                // calls with a wrong number of arguments, function names as variables
                std::vector<size_t> f;
                for (size_t i = 0; i < t.size(); i++) if (find_function(t[i])) f.push_back(i);
                if (!f.empty()) {
                    size_t i = f[k.draw((uint32_t) f.size())];
                    switch (k.range(0, 3)) {
                        case 0: t[i] = kFunctions[k.draw((uint32_t) kFunctionCount)].name; break;
                        case 1: { // a call with any number of arguments
                            std::vector<std::string> u = {"("};
                            for (int q = k.range(0, 5), z = 0; z < q; z++) {
                                if (z) u.push_back(",");
                                for (int y = k.weighted({6, 2, 1}), x = 0; x <= y; x++) { if (x) u.push_back(k.pick({";", "=", "+"})); u.push_back(k.pick({"a", "b", "1", "2.5"})); }
                            }
                            u.push_back(")");
                            const FnName& fn = kFunctions[k.draw((uint32_t) kFunctionCount)];
                            if (fn.fn == LOOP || fn.fn == WHILE) break;
                            u.insert(u.begin(), fn.name);
                            if (k.chance(1, 2)) t = u; else { u.push_back(k.pick({";", "+", "="})); t.insert(t.begin(), u.begin(), u.end()); }
                            break;
                        }
                        case 2: t.insert(t.begin() + (long) i + 2, {"a", ","}); break;
                        default: t.erase(t.begin() + (long) i + 1); break;
                    }
                } else t.push_back(kFunctions[k.draw((uint32_t) kFunctionCount)].name);
            }
        }
        if (r == 0 && k.chance(1, 16)) {
            // far too many arguments, very long lists, names and literals
            size_t many = (size_t) gen::boundary(k, k.chance(1, 6) ? 66000 : 1100);
            std::vector<std::string> u;
            std::string f = kFunctions[k.draw((uint32_t) kFunctionCount)].name;
            while (lower(f) == "loop" || lower(f) == "while") f = kFunctions[k.draw((uint32_t) kFunctionCount)].name;
            static const char* av[] = {"a", "1", "a=b", "(1;a)"};
            std::string arg = k.pick(av);
            switch (k.weighted({6, 2, 1, 1, 1, 1})) {
                case 0: u = {f, "("}; for (size_t i = 0; i < many; i++) { if (i) u.push_back(","); u.push_back(arg); } u.push_back(")"); break;
                case 1: u = {"x", "="}; for (size_t i = 0; i < many; i++) { u.push_back("("); u.push_back(")"); u.push_back(";"); } u.push_back("a"); break;
                case 2: u = {std::string(many, 'q'), "=", "1"}; break;
                case 3: u = {"a", "=", std::string(many, '7')}; break;
                case 4: u = {f, "(", "a"}; for (size_t i = 0; i < many && i < 1100; i++) { u.push_back(";"); u.push_back("b"); } u.push_back(")"); break;
                default: for (size_t i = 0; i < many && i < 1100; i++) { u.push_back("a"); u.push_back("="); u.push_back("b"); u.push_back(";"); } break;
            }
            if (k.chance(1, 3)) { u.push_back(";"); u.insert(u.end(), t.begin(), t.end()); }
            t = u;
            k.label("very long texts");
        }
        if (k.chance(1, 5)) {
            // names that might be taken for functions, or functions that might be taken for names
            std::string n = gen::strange_name(k);
            std::vector<std::string> u;
            switch (k.weighted({3, 2, 2, 1, 1})) {
                case 0: u = {n, "=", "a", "+", "1"}; break;
                case 1: u = {"a", "=", "b", "*", n}; break;
                case 2: u = {n, "("}; for (int q = k.range(0, 3), z = 0; z < q; z++) { if (z) u.push_back(","); u.push_back(k.pick({"a", "1", "0"})); } u.push_back(")"); break;
                case 3: u = {n, "[", "1", "]"}; break;
                default: u = {"sin", "(", n, ")", "-", n}; break;
            }
            if (k.chance(1, 3)) { u.push_back(";"); u.push_back("c"); u.push_back("="); u.push_back(n); }
            t = u;
            k.label("names of functions elsewhere");
        }
        if (t.size() <= 4000 && k.chance(1, 3))   // letter case never decides what is accepted
            for (auto& w : t) if (!(w.size() > 1 && w[0] == '$' && w[1] == '\'') && k.chance(2, 3)) w = gen::random_case(k, w);
        std::string text;
        int lay = t.size() > 4000 ? 0 : k.weighted({3, 1, 1});
        if (lay == 0) text = join(t);
        else if (lay == 1) text = gen::random_layout(k, t);
        else for (auto& w : t) text += w + (k.chance(1, 3) ? "" : " ");
        one_c05(k, text, ctx, vn, slots, &acc, &rej);
    }
    for (int i = 0; i < acc; i++) k.label("texts accepted");
    for (int i = 0; i < rej; i++) k.label("texts refused");
    if (acc + rej) k.nontrivial();
}

// ------------------------------------------------------------------------------------------- C06
std::string recase_token(Case& k, const std::string& t) {
    if (t.size() > 1 && t[0] == '$' && t[1] == '\'') return t;
    return gen::random_case(k, t);
}
void run_c06(Case& k) {
    gen::Opt o;
    o.max_depth = k.range(1, 4);
    o.max_nodes = 40;
    Gen g(k, o);
    NodeP p = g.program();
    std::vector<std::string> t = to_tokens(p);
    bool broken = k.chance(1, 5);
    if (broken && !t.empty()) {
        size_t i = k.draw((uint32_t) t.size());
        if (k.chance(1, 2)) t.erase(t.begin() + (long) i); else t.insert(t.begin() + (long) i, gen::soup_token(k));
    }
    std::string base = join(t);
    auto lx = lex(base);
    if (lx.unterminated_comment) k.skip("comment");
    ParseResult pr = parse(lx.toks);
    if (pr.ok && gen::heavy_constant_loops(pr.ast)) k.skip("long constant loops");
    if (!pr.ok) {
        int loops = 0;
        for (auto& x : lx.toks) { std::string l = lower(x.text); if (l == "loop" || l == "while") loops++; }
        if (loops > 2) k.skip("long constant loops");
    }
    t.clear();
    for (auto& x : lx.toks) if (x.kind != T_END) t.push_back(x.text);
    // variant
    std::vector<std::string> v;
    bool recase = k.chance(1, 2), empties = pr.ok && k.chance(1, 2), parens = k.chance(1, 2);
    bool wrap = pr.ok && pr.ast && parens && k.chance(1, 3);
    if (wrap) v.push_back("(");
    for (size_t i = 0; i < t.size(); i++) {
        TokKind kind = lx.toks[i].kind;
        if (empties && kind == T_OP && (t[i] == ")" || t[i] == ",") && k.chance(1, 4) && v.back() != "(" && v.back() != ",") {
            v.push_back(";");
            if (k.chance(1, 4)) { v.push_back("("); v.push_back(")"); if (k.chance(1, 2)) v.push_back(";"); }
        }
        std::string w = recase && kind != T_OP ? recase_token(k, t[i]) : t[i];
        if (parens && (kind == T_NUM || kind == T_VAR) && !(i && lx.toks[i - 1].kind == T_FUNC) && k.chance(1, 3)) {
            int n = k.range(1, 2);
            for (int j = 0; j < n; j++) v.push_back("(");
            v.push_back(w);
            for (int j = 0; j < n; j++) v.push_back(")");
        } else v.push_back(w);
        if (empties && kind == T_OP && t[i] == ";") {
            int n = k.weighted({3, 2, 1});
            for (int j = 0; j < n; j++) {
                if (k.chance(1, 3)) { v.push_back("("); v.push_back(")"); }
                v.push_back(";");
            }
        }
    }
    if (empties && !t.empty() && k.chance(1, 2)) { v.push_back(";"); if (k.chance(1, 3)) { v.push_back("("); v.push_back(")"); } }
    if (wrap) v.push_back(")");
    std::string text = gen::random_layout(k, v);
    static const char* locs[] = {"", "", "", "tr_TR.UTF-8", "de_DE.UTF-8"};
    const char* loc = locs[k.draw(5)];
    k.note("base: "); k.note_str(escape(base)); k.note("\nvariant: "); k.note_str(escape(text)); k.note("\nlocale: %s\n", loc);

    model::State s;
    gen::random_state(k, o, s);
    for (int i = 0; i < 8; i++) s.vars["w" + std::to_string(i)] = 0;
    if (pr.ok && pr.ast) {
        model::State tmp = s;
        model::Result r = model::run(pr.ast, tmp, model::LATE);
        if (r.out_of_budget) k.skip("too long");
    }
    Buffer b1, b2;
    Regs r1, r2;
    Ctx c1(b1.b, r1.r), c2(b2.b, r2.r);
    host::load_state(c1, s);
    host::load_state(c2, s);
    Code h1(c1, base);
    projectm_eval_code* hv;
    { LocaleGuard lg(loc); hv = c2.compile(text); }
    Code h2(hv);
    if (h1.h && !h2.h) k.fail("the variant is refused (%s), the base text is accepted", c2.error().c_str());
    if (!h1.h && h2.h) k.fail("the variant is accepted, the base text is refused (%s)", c1.error().c_str());
    k.label(h1.h ? "accepted" : "refused");
    // the pseudo-random sequence is one per process: two executions of a program drawing from it differ
    bool draws = false;
    for (auto& x : t) draws |= lower(x) == "rand";
    if (h1.h && !draws) {
        std::vector<std::string> vn = o.vars;
        for (int i = 0; i < 8; i++) vn.push_back("w" + std::to_string(i));
        for (int r = 0; r < 2; r++) {
            double x = h1.run(), y;
            { LocaleGuard lg(loc); y = h2.run(); }
            if (!same_value(x, y)) k.fail("results differ: %.17g and %.17g for the variant", x, y);
            std::string d = snapshot(c1, vn, usual_slots()).diff(snapshot(c2, vn, usual_slots()));
            if (!d.empty()) k.fail("effects differ (base and variant): %s", d.c_str());
        }
    }
    if (text != base) k.nontrivial();
}

// ------------------------------------------------------------------------------------------- C08
struct Unfold {
    Case& k;
    std::vector<double> consts;
    int mode;    // probability (of 4) of replacing a constant
    bool keep_discarded;
    NodeP conv(const NodeP& n) {
        if (n->fn == NUMLIT) {
            if (mode < 4 && !k.chance(mode, 4)) return n;
            consts.push_back(n->num);
            NodeP r = mk(ADD, {var("vk" + std::to_string(consts.size() - 1)), num(0)});
            return r;
        }
        NodeP m = std::make_shared<Node>(*n);
        for (size_t i = 0; i < m->a.size(); i++) {
            m->a[i] = conv(n->a[i]);
            bool discarded = (n->fn == LIST && i + 1 < n->a.size()) || ((n->fn == EXEC2 || n->fn == EXEC3) && i + 1 < n->a.size());
            if (discarded && keep_discarded) m->a[i] = mk(SET, {var("vdisc"), m->a[i]});
        }
        return m;
    }
};
void run_c08(Case& k) {
    gen::Opt o;
    o.max_depth = k.range(1, 5);
    o.max_nodes = k.chance(1, 2) ? 60 : 25;
    o.const_weight = k.chance(1, 2) ? 12 : 4;
    o.vars = {"a", "b", "c"};
    if (gen::widen(k, o, 100)) k.label("very long programs");
    Gen g(k, o);
    NodeP p = g.program();
    // more discarded statements of all kinds
    if (k.chance(1, 2)) {
        std::vector<NodeP> v;
        int n = k.range(1, 4);
        for (int i = 0; i < n; i++) v.push_back(k.chance(1, 2) ? g.expr(k.range(0, 3)) : g.stmt(k.range(0, 3)));
        v.push_back(p);
        if (k.chance(1, 3)) v.push_back(g.expr(1));
        p = list(v);
    }
    if (gen::heavy_constant_loops(p)) k.skip("long constant loops");
    Unfold u{k, {}, k.chance(1, 2) ? 4 : k.range(0, 3), k.chance(2, 3)};
    NodeP q = u.conv(p);
    std::string t1 = print(p), t2 = print(q);
    k.note("program: "); k.note_str(t1); k.note("\nvariant: "); k.note_str(t2); k.note("\n");
    Buffer b1, b2;
    Regs r1, r2;
    Ctx c1(b1.b, r1.r), c2(b2.b, r2.r);
    std::vector<std::string> vn = o.vars;
    for (int i = 0; i < 8; i++) vn.push_back("w" + std::to_string(i));
    model::State s0;
    gen::random_state(k, o, s0);
    {
        model::State tmp = s0;
        if (model::run(p, tmp, model::LATE).out_of_budget) k.skip("too long");
    }
    host::load_state(c1, s0);
    host::load_state(c2, s0);
    Code h1(c1, t1), h2(c2, t2);
    if (!h1) k.fail("the program was refused: %s", c1.error().c_str());
    if (!h2) k.fail("the variant was refused: %s", c2.error().c_str());
    // compiling must not have had any effect
    std::string d = snapshot(c1, vn, usual_slots()).diff(snapshot(c2, vn, usual_slots()));
    if (!d.empty()) k.fail("after compiling (program and variant): %s", d.c_str());
    for (size_t i = 0; i < u.consts.size(); i++) *c2.var("vk" + std::to_string(i)) = u.consts[i];
    model::State s = s0;
    bool judged = true, rounded = false;
    for (int r = 0; r < 3; r++) {
        note_state(k, s);
        double x = h1.run(), y = h2.run();
        if (!same_value(x, y)) k.fail("run %d: result %.17g, unfoldable variant %.17g", r + 1, x, y);
        d = snapshot(c1, vn, usual_slots()).diff(snapshot(c2, vn, usual_slots()));
        if (!d.empty()) k.fail("run %d (program and variant): %s", r + 1, d.c_str());
        if (judged) {
            gen::Judged j = gen::judge(p, s);
            judged = j.ok;
            j.r.rounded = rounded = rounded || j.r.rounded;
            if (judged && !model::close(x, j.r.value, gen::tolerance(j))) k.fail("run %d: result %.17g, expected %.17g", r + 1, x, j.r.value);
            if (judged) {
                d = host::diff_state(c1, s, gen::tolerance(j), k);
                if (!d.empty()) k.fail("run %d: %s", r + 1, d.c_str());
            }
        }
        // change the visible state before the next run
        model::State ch;
        gen::random_state(k, o, ch);
        host::load_state(c1, ch);
        host::load_state(c2, ch);
        if (judged) {
            for (auto& v : ch.vars) s.vars[v.first] = v.second;
            for (int i = 0; i < 100; i++) if (ch.reg[i] != 0) s.reg[i] = ch.reg[i];
            for (int gl = 0; gl < 2; gl++)
                for (int pg : (gl ? ch.global : ch.local).pages())
                    for (int i = 0; i < 4096; i++) {
                        double v = (gl ? ch.global : ch.local).get(pg * 4096 + i);
                        if (v != 0) (gl ? s.global : s.local).set(pg * 4096 + i, v);
                    }
            model::State tmp = s;
            if (model::run(p, tmp, model::LATE).out_of_budget) break;
        } else {
            // without the model's state the run time can't be predicted: loops only have small counts by construction
        }
    }
    if (!u.consts.empty()) k.nontrivial();
    k.label(judged ? "also judged by the model" : "compared with the variant only");
}

// ------------------------------------------------------------------------------------------- C09
struct Tracer {
    Case& k;
    int id = 0, nodes = 0;
    bool lazy = false;
    NodeP traced(NodeP e) {
        NodeP log = mk(SET, {mk(GMEM, {var("tn")}), num(++id)});
        NodeP inc = mk(ADDOP, {var("tn"), num(1)});
        return k.chance(1, 4) ? list({log, inc, e}) : mk(EXEC3, {log, inc, e});
    }
    NodeP leaf() {
        static const double v[] = {0, 1, 0, 2, 0.5, 0.001, 5};
        switch (k.weighted({3, 3, 1})) {
            case 0: return num(k.pick(v));
            case 1: { static const char* n[] = {"z0", "o1", "h5", "neg", "big"}; return var(k.pick(n)); }
            default: return mk(MEM, {num(k.range(0, 3))});
        }
    }
    NodeP gen(int d) {
        nodes++;
        if (d <= 0 || nodes > 40) return traced(leaf());
        static const Fn b2[] = {ADD, SUB, MUL, DIV, MOD, BITAND, BITOR, EQ, NE, LT, GT, LE, GE, MIN, MAX, BAND, BOR, ATAN2, POW, SIGMOID};
        static const Fn u1[] = {NEG, NOT, ABS, SIGN, FLOOR, CEIL, SIN, COS, SQR, SQRT, ATAN, EXP};
        static const Fn as[] = {SET, ADDOP, SUBOP, MULOP, DIVOP, MODOP, OROP, ANDOP, POWOP};
        NodeP r;
        switch (k.weighted({4, 3, 3, 4, 1, 1, 1, 2, 1, 1, 1})) {
            case 0: r = mk(IF, {gen(d - 1), gen(d - 1), gen(d - 1)}); lazy = true; break;
            case 1: r = mk(AND, {gen(d - 1), gen(d - 1)}); lazy = true; break;
            case 2: r = mk(OR, {gen(d - 1), gen(d - 1)}); lazy = true; break;
            case 3: r = mk(k.pick(b2), {gen(d - 1), gen(d - 1)}); break;
            case 4: r = mk(k.pick(u1), {gen(d - 1)}); break;
            case 5: r = mk(EXEC2, {gen(d - 1), gen(d - 1)}); break;
            case 6: r = mk(EXEC3, {gen(d - 1), gen(d - 1), gen(d - 1)}); break;
            case 7: {
                // assignment: the target is traced as well
                static const char* n[] = {"t1", "t2"};
                NodeP l = k.chance(1, 3) ? mk(IF, {gen(d - 1), traced(var("t1")), traced(var("t2"))}) : traced(var(k.pick(n)));
                if (k.chance(1, 3)) l = mk(MEM, {mk(MIN, {mk(ABS, {gen(d - 1)}), num(4)})});
                r = mk(k.pick(as), {l, gen(d - 1)});
                break;
            }
            case 8: r = mk(MEM, {mk(ABS, {gen(d - 1)})}); break;
            case 9: {
                NodeP a = mk(MIN, {gen(d - 1), num(4)}), b = mk(MIN, {gen(d - 1), num(4)}), c = mk(MIN, {gen(d - 1), num(3)});
                r = k.chance(1, 2) ? mk(MEMSET, {mk(ABS, {a}), b, c}) : mk(MEMCPY, {mk(ABS, {a}), mk(ABS, {b}), c});
                break;
            }
            default: r = list({gen(d - 1), gen(d - 1)}); break;
        }
        if (k.chance(1, 3) && !fn_aliases(r->fn).empty()) r->style = 1 + (int) k.draw((uint32_t) fn_aliases(r->fn).size());
        return r->fn == LIST ? r : (k.chance(1, 2) ? traced(r) : r);
    }
};
void run_c09(Case& k) {
    Tracer t{k};
    NodeP e = t.gen(k.range(1, 4));
    if (k.chance(1, 40)) { // many levels
        for (int q = gen::boundary(k, 140); q > 0; q--)
            switch (k.range(0, 5)) {
                case 0: e = mk(IF, {t.traced(var("o1")), e, t.traced(num(2))}); break;
                case 1: e = mk(IF, {t.traced(var("z0")), t.traced(num(2)), e}); break;
                case 2: e = mk(AND, {t.traced(var("o1")), e}); break;
                case 3: e = mk(OR, {t.traced(var("z0")), e}); break;
                case 4: e = mk(EXEC2, {t.traced(var("o1")), e}); break;
                default: e = mk(k.chance(1, 2) ? MIN : ADD, {t.traced(var("o1")), e}); break;
            }
        k.label("many levels");
    }
    NodeP p = k.chance(1, 2) ? list({t.gen(k.range(0, 2)), e}) : e;
    model::State s;
    s.vars = {{"z0", 0}, {"o1", 1}, {"h5", 0.5}, {"neg", -2.5}, {"big", 1e7}, {"t1", k.range(0, 3)}, {"t2", k.range(-2, 2)}, {"tn", 0}};
    for (int i = 0; i < 4; i++) s.local.set(i, k.range(0, 1) * 1.5);
    std::string text = print(p);
    k.note("program: "); k.note_str(text); k.note("\n");
    // The log does not depend on what the language leaves open about values, so the two readings of the model only
    // have to agree about the log.
    model::State a = s, b = s;
    model::Result ra = model::run(p, a, model::LATE), rb = model::run(p, b, model::EAGER);
    if (ra.out_of_budget || rb.out_of_budget) k.skip("too long");
    auto log_of = [](model::State& m) {
        std::vector<int> v;
        int n = (int) m.vars["tn"];
        for (int i = 0; i < n; i++) v.push_back((int) m.global.get(i));
        return v;
    };
    std::vector<int> la = log_of(a), lb = log_of(b);
    if (la != lb) k.skip("depends on operand reading or rounding");
    if (ra.unjudged.find("condition") != std::string::npos || ra.unjudged.find("zero") != std::string::npos ||
        rb.unjudged.find("condition") != std::string::npos || rb.unjudged.find("zero") != std::string::npos) k.skip("not settled by the language");
    if (!ra.unjudged.empty()) {
        // an unsettled value may have decided a branch
        if (t.lazy) k.skip("not settled by the language");
    }
    Buffer buf;
    Ctx c(buf.b);
    host::load_state(c, s);
    Code h(c, text);
    if (!h) k.fail("the program was refused: %s", c.error().c_str());
    h.run();
    int n = (int) *c.var("tn");
    std::vector<int> got;
    for (int i = 0; i < n && i < 5000; i++) got.push_back((int) c.peek(true, i));
    if (got != la) {
        std::string x, y;
        for (int i : got) x += " " + std::to_string(i);
        for (int i : la) y += " " + std::to_string(i);
        k.fail("operands were evaluated in the order%s, expected%s", x.c_str(), y.c_str());
    }
    if (t.lazy && (int) la.size() < t.id) { k.nontrivial(); k.label("some operands not evaluated"); }
    else if (la.size() >= 2) { k.nontrivial(); k.label("all operands evaluated"); }
}

// ------------------------------------------------------------------------------------------- C10
void run_c10(Case& k) {
    model::State s;
    s.vars = {{"n", k.range(0, 3)}, {"a", gen::random_value(k)}, {"b", gen::random_value(k)}, {"m", k.range(0, 5)}, {"c", 0}, {"i", 0}, {"j", 0}};
    for (int i = 0; i < 12; i++) s.local.set(i, k.chance(1, 3) ? 0 : k.range(-3, 9) / 2.0);
    NodeP p;
    bool capped = false;
    static const double counts[] = {0, 1, 2, 3, 7, 0.5, 0.999, 1.5, 2.9999, -1, -0.5, -3, 100, 5.9999999};
    static const double huge[] = {1048575, 1048576, 1048577, 1048576.5, 2147483647, 2147483648.0, 4294967296.0, 4294967299.0, 1e10, 1e18, 9.3e18, 1e300, 3e6};
    auto body = [&](int d) -> NodeP {
        switch (k.weighted({4, 2, 2, 2, 1, 1, d > 0 ? 1 : 0, 4})) {
            case 0: return mk(ADDOP, {var("n"), num(1)});
            case 7: { // sometimes yields a reference and sometimes a value
                gen::Opt o;
                o.vars = {"a", "b"};
                o.regs = {"reg00"};
                o.max_nodes = 12;
                o.loops = false;
                Gen g(k, o);
                NodeP t = mk(k.chance(2, 3) ? LT : EQ, {mk(ADDOP, {var("n"), num(1)}), num(k.range(1, 5))});
                NodeP x = k.chance(2, 3) ? g.lvalue(1) : g.expr(2), y = g.expr(2);
                if (k.chance(1, 4)) std::swap(x, y);
                if (k.chance(1, 5)) return mk(EXEC2, {mk(ADDOP, {var("j"), num(1)}), mk(IF, {t, x, y})});
                return mk(IF, {t, x, y});
            }
            case 1: return list({mk(ADDOP, {var("n"), num(1)}), mk(SET, {mk(MEM, {var("n")}), mk(ADD, {var("a"), var("n")})})});
            case 2: return list({mk(SET, {var("c"), mk(ADD, {var("n"), num(2)})}), mk(SET, {var("n"), mk(SUB, {var("c"), num(1)})}), var("b")});
            case 3: return mk(IF, {mk(LT, {var("n"), var("m")}), mk(ADDOP, {var("n"), num(1)}), mk(SET, {var("n"), mk(ADD, {var("n"), num(2)})})});
            case 4: return mk(EXEC2, {mk(ADDOP, {var("n"), num(1)}), mk(MEM, {var("n")})});
            case 5: return mk(SET, {mk(MEM, {mk(ADDOP, {var("n"), num(1)})}), num(k.range(0, 5))});
            default: return list({mk(ADDOP, {var("n"), num(1)}), mk(LOOP, {num(k.range(0, 3)), mk(ADDOP, {var("j"), num(1)})})});
        }
    };
    auto lengthen = [&](NodeP b) { // bodies of very many expressions
        if (capped || !k.chance(1, 20)) return b;
        std::vector<NodeP> v;
        for (int q = gen::boundary(k, 1100); q-- > 0;) v.push_back(mk(ADDOP, {var("j"), num(1)}));
        if (v.empty()) return b;
        v.insert(k.chance(1, 2) ? v.begin() : v.end(), b);
        if (k.chance(1, 4)) v.push_back(var("a"));
        k.label("long bodies");
        return list(v);
    };
    if (k.chance(1, 2)) {
        // loop
        double cnt;
        bool big = k.chance(1, 14);
        if (big) { cnt = k.pick(huge); capped = true; }
        else if (k.chance(1, 30)) { s.vars["cv"] = std::numeric_limits<double>::infinity() * (k.chance(1, 2) ? 1 : -1); cnt = s.vars["cv"]; capped = cnt > 0; }
        else cnt = k.chance(1, 2) ? k.pick(counts) : k.range(0, 40) / 4.0;
        NodeP c;
        if (std::isinf(cnt)) c = var("cv");
        else switch (k.weighted({2, 2, 1, 1})) {
            case 0: c = cnt < 0 ? mk(NEG, {num(-cnt)}) : num(cnt); break;
            case 1: s.vars["cv"] = cnt; c = var("cv"); break;
            case 2: s.vars["cv"] = cnt; c = list({mk(ADDOP, {var("i"), num(1)}), var("cv")}); break;  // count is evaluated once
            default: s.vars["cv"] = cnt; c = mk(EXEC2, {mk(ADDOP, {var("i"), num(1)}), mk(ADD, {var("cv"), num(0)})}); break;
        }
        NodeP b = capped ? (k.chance(1, 2) ? mk(ADDOP, {var("n"), num(1)}) : list({mk(ADDOP, {var("n"), num(1)}), var("a")})) : body(1);
        // a body that changes the variable holding the count must not change the number of iterations
        if (!capped && !std::isinf(cnt) && k.chance(1, 3)) {
            NodeP where = var("cv");
            if (k.chance(1, 3)) {
                int slot = k.range(13, 16);
                bool g = k.chance(1, 2);
                where = mk(g ? GMEM : MEM, {num(slot)});
                (g ? s.global : s.local).set(slot, cnt);
                c = where;
            }
            else { s.vars["cv"] = cnt; if (k.chance(1, 2)) c = var("cv"); }
            NodeP to = k.chance(1, 2) ? num(k.range(0, 5)) : k.chance(1, 2) ? mk(NEG, {num(k.range(0, 9) / 2.0)}) : num(k.pick(std::vector<double>{0.5, 100.0, 1e7, 3e9}));
            static const Fn how[] = {SET, ADDOP, SUBOP, MULOP, DIVOP};
            NodeP change = mk(k.chance(1, 2) ? SET : k.pick(how), {where, to});
            if (k.chance(1, 3)) change = mk(IF, {mk(EQ, {var("n"), num(k.range(1, 4))}), change, num(0)});
            b = k.chance(1, 2) ? list({mk(ADDOP, {var("n"), num(1)}), change, var("n")}) : list({mk(ADDOP, {var("n"), num(1)}), change});
        } else if (!capped && k.chance(1, 6)) {
            gen::Opt o;
            o.vars = {"a", "b", "cv", "m"};
            o.max_nodes = 25;
            o.loops = false;
            Gen g(k, o);
            s.vars.emplace("cv", cnt);
            b = list({mk(ADDOP, {var("n"), num(1)}), g.expr(3)});
        }
        p = mk(LOOP, {c, lengthen(b)});
        k.label(capped ? "loop at the limit" : "loop");
    } else {
        bool endless = k.chance(1, 14);
        NodeP b;
        if (endless) {
            capped = true;
            static const double nz[] = {1, 0.5, 1e-5, 1e-9, 1e-200};
            double v = k.pick(nz);
            s.vars["nz"] = k.chance(1, 3) ? -v : v;
            b = list({mk(ADDOP, {var("n"), num(1)}), k.chance(1, 2) ? var("nz") : mk(MUL, {var("nz"), num(1)})});
            if (k.chance(1, 4)) b = mk(ADDOP, {var("n"), num(1)});
        } else {
            switch (k.weighted({3, 2, 2, 1, 1, 1})) {
                case 0: b = list({mk(ADDOP, {var("n"), num(1)}), mk(LT, {var("n"), num(k.range(0, 12))})}); break;
                case 1: s.vars["m"] = k.range(0, 9); b = list({mk(ADDOP, {var("n"), num(1)}), mk(SUBOP, {var("m"), num(1)})});
                        if (s.vars["m"] <= 0) s.vars["m"] = 1; break;
                case 2: b = mk(EXEC2, {mk(ADDOP, {var("n"), num(1)}), mk(MEM, {var("n")})}); s.local.set(k.range(4, 9), 0); break;
                case 3: b = mk(IF, {mk(LT, {var("n"), num(k.range(0, 9))}), mk(ADDOP, {var("n"), num(1)}), mk(MUL, {var("n"), num(0)})}); break;
                case 4: s.vars["h"] = std::ldexp(1.0, k.range(0, 12)); b = list({mk(ADDOP, {var("n"), num(1)}), mk(SET, {var("h"), mk(FLOOR, {mk(DIV, {var("h"), num(2)})})})}); break;
                default: b = list({body(1), mk(LT, {var("n"), num(k.range(0, 9))})}); break;
            }
        }
        p = mk(WHILE, {lengthen(b)});
        k.label(capped ? "while at the limit" : "while");
    }
    switch (k.weighted({3, 2, 2, 1, 1, 1})) {
        case 0: break;
        case 5: p = mk(k.chance(1, 2) ? SET : ADDOP, {p, num(k.range(1, 9))}); break;
        case 1: p = list({p, mk(ADDOP, {var("b"), num(1)}), var("n")}); break;
        case 2: p = list({mk(SET, {var("a"), num(k.range(1, 5))}), p}); break;
        case 3: p = mk(SET, {var("a"), mk(ADD, {p, num(1)})}); break;
        default: if (!capped) p = mk(LOOP, {num(k.range(1, 3)), list({p, mk(ADDOP, {var("j"), num(1)})})}); break;
    }
    if (!capped && k.chance(1, k.thorough ? 60 : 160)) {
        // the limit is one of each loop, not of all together
        capped = true;
        int inner = k.pick(std::vector<int>{1048576, 600000, 1000, 2000, 70000}), outer = inner >= 600000 ? k.range(2, 4) : (int) (k.range(1100000, 3000000) / inner);
        NodeP in = k.chance(1, 2) ? mk(LOOP, {num(inner), mk(ADDOP, {var("n"), num(1)})})
                                  : list({mk(SET, {var("i"), num(0)}), mk(WHILE, {list({mk(ADDOP, {var("n"), num(1)}), mk(LT, {mk(ADDOP, {var("i"), num(1)}), num(inner)})})})});
        s.vars["j"] = 0;
        p = k.chance(1, 2) ? mk(LOOP, {num(outer), in}) : k.chance(1, 2) ? mk(WHILE, {list({in, mk(LT, {mk(ADDOP, {var("j"), num(1)}), num(outer)})})}) : list({clone(in), clone(in), in});
        k.label("loops of more iterations together than the limit of one");
    }
    if (!capped && k.chance(1, 40)) { // many levels
        int levels = gen::boundary(k, k.chance(1, 4) ? 70 : 14), twice = 0;
        NodeP in = mk(ADDOP, {var("n"), num(1)});
        for (int q = 0; q < levels; q++) {
            bool more = twice < 9 && k.chance(2, 3);
            twice += more;
            if (!more && k.chance(1, 3)) in = mk(WHILE, {list({in, num(0)})});
            else in = mk(LOOP, {num(more ? 2 : 1), k.chance(1, 3) ? list({mk(ADDOP, {var("j"), num(1)}), in}) : in});
        }
        p = in;
        k.label("many levels of loops");
    }
    ModelRun m(k);
    m.s = s;
    model::Options opt;
    opt.budget = capped ? 30000000 : 300000;
    m.check(p, print(p), capped ? 1 : 1 + k.range(0, 1), opt);
    k.nontrivial();
}

// ------------------------------------------------------------------------------------------- C11
void run_c11(Case& k) {
    gen::Opt o;
    o.vars = {"a", "b", "c", "d"};
    o.regs = {"reg00", "reg42", "reg99"};
    o.max_depth = k.range(1, 4);
    o.max_nodes = 40;
    o.loops = k.chance(1, 2);
    o.memops = k.chance(1, 3);
    o.transcendental = k.chance(1, 3);
    Gen g(k, o);
    std::vector<NodeP> st;
    int n = k.range(1, 4);
    static const Fn ops[] = {SET, ADDOP, SUBOP, MULOP, DIVOP, MODOP, OROP, ANDOP, POWOP};
    static const Fn pure2[] = {ADD, SUB, MUL, DIV, MOD, POW, BITAND, BITOR, EQ, NE, LT, GT, LE, GE, AND, OR, MIN, MAX, BAND, BOR, ATAN2, SIGMOID};
    static const Fn pure1[] = {NEG, NOT, ABS, SIGN, FLOOR, CEIL, SQR, SQRT, SIN, COS, TAN, ATAN, EXP, LOG, LOG10};
    for (int i = 0; i < n; i++) {
        NodeP l;
        bool value = false;
        switch (k.weighted({6, 3, 2, 1, 2, 1})) {
            case 0: l = g.lvalue(o.max_depth); break;
            case 1: l = mk(k.pick(pure2), {g.lvalue(1), g.lvalue(1)}); value = true; break;
            case 2: l = mk(k.pick(pure1), {g.lvalue(1)}); value = true; break;
            case 3: l = g.literal(); value = true; break;
            case 4: {
                static const double idx[] = {-1, -2, 8388608, 8388609, 1e9, 2147483648.0, 4294967296.0, 1e18, -70000};
                double x = k.pick(idx);
                l = mk(k.chance(1, 2) ? MEM : GMEM, {x < 0 ? mk(NEG, {num(-x)}) : num(x)});
                value = true;
                break;
            }
            default: l = mk(IF, {g.cond(1), g.lvalue(1), g.literal()}); break;
        }
        if (value) k.label("left side is a value");
        if (k.chance(1, 8)) { st.push_back(l); continue; }   // no assignment at all
        if (o.loops && k.chance(1, 4)) {
            if (k.chance(1, 3)) l = mk(WHILE, {mk(k.chance(1, 2) ? SET : MULOP, {l, num(0)})});
            else l = mk(LOOP, {num(k.range(1, 3)), mk(IF, {g.toggle(), l, g.expr(1)})});
        }
        NodeP a = mk(k.chance(1, 2) ? SET : k.pick(ops), {l, g.expr(k.range(0, 2))});
        // The result of an assignment is a reference again
        int again = k.weighted({4, 2, 1});
        for (int j = 0; j < again; j++) { a = mk(k.pick(ops), {a, g.expr(1)}); a->a[0]->paren = true; }
        if (k.chance(1, 5)) a = mk(k.chance(1, 2) ? EXEC2 : SET, {g.lvalue(1), a});
        st.push_back(a);
    }
    bool deep = k.chance(1, 50);
    if (deep) {
        NodeP l = deepen(k, g.lvalue(1), gen::boundary(k, 140));
        st.push_back(mk(k.chance(1, 2) ? SET : k.pick(ops), {l, g.expr(1)}));
        if (k.chance(1, 2)) { // and a long chain of assignments
            NodeP a = mk(SET, {g.lvalue(1), num(k.range(1, 9))});
            for (int q = gen::boundary(k, 140); q > 0; q--) { if (k.chance(1, 2)) { a = mk(k.chance(2, 3) ? SET : ADDOP, {a, num(q % 7)}); a->a[0]->paren = true; } else a = mk(SET, {g.lvalue(0), a}); }
            st.push_back(a);
        }
        k.label("through many levels");
    }
    NodeP p = st.size() == 1 ? st[0] : list(st);
    g.decorate(p);
    ModelRun m(k);
    gen::random_state(k, o, m.s);
    if (deep) m.s.vars["dp"] = m.s.vars["zz"] = 0;
    m.check(p, print(p), 2);
    k.nontrivial();
}

eng::Register r03({"C03", run_c03, 60000, 2500000, 400,
    "a random program of the language (all operators, functions, nesting, references, loops, memory; up to ~150 nodes) with random initial variables, registers and memory, run 1-3 times on the same state and compared in result, all variables, registers and memory with an independent interpreter; non-trivial: judged by the model and at least 6 nodes; skipped: programs whose outcome the language does not settle (the model's two readings of operands disagree)",
    "the reference interpreter in src/model.cpp (written from docs/Expression-Syntax.md); values compared within 1e-9 relative"});
eng::Register r04({"C04", run_c04, 40000, 1500000, 400,
    "2-8 unparenthesised binary operators of all 26 kinds (plus ?:, unary and subscripts) over random operands, 4 random states each: must be accepted and act exactly like the fully parenthesised form derived by an independent precedence parser, and as the reference interpreter says; non-trivial: at least two operators",
    "the independent precedence-climbing parser in src/lang.cpp"});
eng::Register r05({"C05", run_c05, 40000, 1500000, 200,
    "token soup (20 texts of 1-7 tokens), token-level mutations of valid programs and calls with wrong arity, with random layout: acceptance must equal that of an independent recogniser, refused texts must change nothing; non-trivial: at least one text judged",
    "the independent recogniser in src/lang.cpp; nesting deeper than 1500 and unterminated comments are not judged"});
eng::Register r06({"C06", run_c06, 45000, 1500000, 300,
    "a program (1 in 5 broken by a token edit) and a variant with random white space, comments, letter case, empty statements and redundant parentheses, partly compiled under tr_TR/de_DE locales: same acceptance, same results and effects over two runs; non-trivial: the texts differ",
    "none beyond the library's own behaviour on the base text"});
eng::Register r08({"C08", run_c08, 30000, 1000000, 300,
    "a constant-rich program with discarded expressions and a variant whose constants are unfoldable expressions and whose discarded expressions are kept alive: same results, variables, registers and memory over 3 runs with the state changed in between, and as the reference interpreter says; non-trivial: at least one constant replaced",
    "adding 0 to a variable cannot be folded by the compiler"});
eng::Register r09({"C09", run_c09, 70000, 2500000, 400,
    "nested conditionals, boolean operators, functions and assignments whose operands log their evaluation into gmegabuf: the log must be the one the evaluation rules define; non-trivial: an operand is skipped, or at least two are logged",
    "the reference interpreter's evaluation order"});
eng::Register r10({"C10", run_c10, 8000, 200000, 50,
    "loop() and while() with counts and conditions of all kinds (fractions, negatives, >= 2^31, infinite, evaluated with side effects, at and beyond the 2^20 limit) and bodies that modify state: result, variables and memory as the reference interpreter says; every case is non-trivial",
    "the reference interpreter"});
eng::Register r11({"C11", run_c11, 50000, 2000000, 400,
    "1-4 assignments of all kinds to references passed through if/exec/lists/parentheses/assignments, to plain values, constants and out-of-range slots, run twice: all variables, all 100 registers and memory as the reference interpreter says; every case is non-trivial",
    "the reference interpreter"});

}  // namespace
