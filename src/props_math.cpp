// C02 C24 C23: extreme operands, accuracy, build configurations
#include "common.hpp"

#include <cfloat>
#include <cmath>
#include <dlfcn.h>
#include <fcntl.h>
#include <limits>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>

using namespace lang;

namespace {

constexpr double kInf = std::numeric_limits<double>::infinity();
std::string lit(double v) {   // a spelling of v as an operand
    if (std::isnan(v)) return "nan_";   // a variable the caller sets
    std::string s = std::isinf(v) ? "1e999" : num_text(std::fabs(v));
    return std::signbit(v) ? "(-" + s + ")" : s;
}

// ------------------------------------------------------------------------------------------- C02
double wild(Case& k) {
    static const double v[] = {0.0, -0.0, 1, -1, 2, -2, 0.5, -0.5, 1e-5, 1e-300, 4.9e-324, -4.9e-324, 2.2e-308, 32767, 65535, 65536, 8388607, 8388608, 8388606.9999, 16777216, 2147483646, 2147483647, 2147483648.0, -2147483647, -2147483648.0, -2147483649.0,
                              4294967295.0, 4294967296.0, -4294967296.0, 9007199254740992.0, 9.2233720368547748e18, 9.2233720368547758e18, -9.2233720368547758e18, -9.2233720368547778e18, 1.8446744073709552e19, 1e19, 1e30, -1e30, 3.4e38, 1e39, 1e100, 1e300, -1e300,
                              DBL_MAX, -DBL_MAX, kInf, -kInf, 0.0, 31, 32, 33, 63, 64, 127, 128, 255, 256, -65536, 7.9999, -0.00001, 0.9999, 0.99999, 1048576, 1048577};
    switch (k.weighted({6, 1, 2, 1})) {
        case 0: return k.pick(v);
        case 1: return std::numeric_limits<double>::quiet_NaN();
        case 2: { double x = k.pick(v); return std::isfinite(x) ? x + k.range(-3, 3) * (k.chance(1, 2) ? 1 : 0.3) : x; }
        default: { uint64_t b = k.bits(64); double d; memcpy(&d, &b, 8); return d; }
    }
}
struct C02Gen {
    Case& k;
    int loops = 0, bulk = 0, depth = 0;
    explicit C02Gen(Case& kk) : k(kk) {}
    std::string operand(int d) {
        static const char* vars[] = {"a", "b", "c", "d", "reg00", "reg99", "reg42", "nan_", "inf_"};
        if (d <= 0 || k.chance(2, 3)) {
            switch (k.weighted({5, 5, 1, 1, 1})) {
                case 0: return k.pick(vars);
                case 1: return lit(wild(k));
                case 2: return "megabuf(" + std::string(k.pick(vars)) + ")";
                case 3: return "gmem[" + std::string(k.pick(vars)) + "]";
                default: return std::string(k.pick(vars)) + "[" + k.pick(vars) + "]";
            }
        }
        return expr(d - 1);
    }
    std::string args(int n, int d) {
        std::string s;
        for (int i = 0; i < n; i++) { if (i) s += ","; s += operand(d); }
        return s;
    }
    std::string expr(int d) {
        static const char* bin[] = {"+", "-", "*", "/", "%", "^", "|", "&", "==", "!=", "<", ">", "<=", ">=", "&&", "||", "=", "+=", "-=", "*=", "/=", "%=", "^=", "|=", "&="};
        switch (k.weighted({6, 6, 1, 1, 1})) {
            case 0: return "(" + operand(d) + k.pick(bin) + operand(d) + ")";
            case 1: {
                const FnName& f = kFunctions[k.draw((uint32_t) kFunctionCount)];
                if (f.fn == LOOP || f.fn == WHILE) {
                    if (loops++ >= 2) return operand(0);
                    loops++;
                    std::string body = expr(0);
                    return f.fn == LOOP ? "loop(" + operand(0) + "," + body + ")" : "while(" + body + ")";
                }
                if (f.fn == MEMSET || f.fn == MEMCPY) {
                    // inside a loop body only short ones; a few long ones elsewhere
                    if (bulk >= 2 || loops) return std::string(f.name) + "(" + operand(0) + "," + operand(0) + "," + lit(k.range(-3, 40)) + ")";
                    bulk++;
                }
                return std::string(f.name) + "(" + args(f.arity, d) + ")";
            }
            case 2: return std::string(k.chance(1, 2) ? "-" : "!") + operand(d);
            case 3: return "(" + operand(d) + "?" + operand(d) + ":" + operand(d) + ")";
            default: return operand(d) + "[" + (k.chance(1, 3) ? "" : operand(d)) + "]";
        }
    }
};
// Does executing the text certainly end soon?
bool ends_soon(const std::string& text, const model::State& s, int runs) {
    auto lx = lex(text);
    ParseResult pr = parse(lx.toks);
    if (!pr.ok) return gen::loop_words(text) == 0;
    if (!pr.ast) return true;
    model::State m = s;
    model::Options mo;
    mo.budget = 50000;
    std::mt19937 rng(1);
    m.rng = &rng;
    for (int i = 0; i < runs; i++) {
        model::Result r = model::run(pr.ast, m, model::LATE, mo);
        if (r.out_of_budget || (!r.unjudged.empty() && gen::loop_words(text))) return false;
    }
    return true;
}
const char* kNothing[] = {"", " ", "\n", ";", ";;;", " ; ;", "()", "();()", ";()", "/**/", "// nothing", "//\n;", "\t/* ; */\r\n", "(())", "(;)", "((;;))", "();", "(/**/)"};
void run_c02(Case& k) {
    Regs r1, r2;
    Buffer b1, b2;
    Ctx c(b1.b, r1.r), other(b2.b, r2.r);
    for (const char* v : {"a", "b", "c", "d"}) *c.var(v) = wild(k);
    *c.var("nan_") = std::numeric_limits<double>::quiet_NaN();
    *c.var("inf_") = kInf;
    *c.var("canary") = 4711;
    for (int r : {0, 42, 99}) (*r1.r)[r] = wild(k);
    for (int i : {0, 1, 65535, 65536, 8388607}) { c.poke(false, i, wild(k)); c.poke(true, i, wild(k)); }
    *other.var("a") = 1;
    other.poke(false, 0, 2);
    other.poke(true, 0, 3);
    (*r2.r)[0] = 4;
    std::string text;
    enum { CALLS, GENERAL, LOOPS, TEXT, NOTHING };
    int kind = k.weighted({150, 40, 20, 20, 1});
    bool may_refuse = kind == TEXT || kind == NOTHING;
    if (kind == NOTHING) {
        text = k.pick(kNothing);
        k.label("nothing to execute");
    } else if (kind == TEXT) {
        std::vector<std::string> t;
        if (k.chance(1, 2)) {
            gen::Opt o;
            o.max_depth = k.range(1, 5);
            o.vars = {"a", "b", "c", "d"};
            o.regs = {"reg00", "reg42", "reg99"};
            Gen g(k, o);
            t = to_tokens(g.program());
            gen::mutate_tokens(k, t, k.range(0, 3));
        } else for (int q = k.range(1, 9); q > 0; q--) t.push_back(gen::soup_token(k));
        text = gen::random_layout(k, t);
        k.label("texts of tokens");
    } else if (kind != CALLS) {
        gen::Opt o;
        o.loops = kind == LOOPS;
        o.max_depth = k.range(2, 6);
        o.vars = {"a", "b", "c", "d"};
        o.regs = {"reg00", "reg42", "reg99"};
        Gen g(k, o);
        text = print(g.program());
        if (!o.loops && gen::loop_words(text)) k.skip("loops");
        k.label(o.loops ? "general programs, with loops" : "general programs");
    } else {
        C02Gen g(k);
        int n = k.range(1, 5);
        for (int i = 0; i < n; i++) {
            if (i) text += ";";
            if (k.chance(1, 8)) { // a reference into a block, held while whole blocks are filled, moved or freed
                static const char* slot[] = {"megabuf(5)", "0[]", "65536[3]", "gmem[7]", "megabuf(131071)", "gmegabuf(65535)", "a", "reg42"};
                static const char* call[] = {"memset(0,0,65536)", "memset(0,1,131072)", "memset(-5,0,65541)", "memset(65536,0,65536)", "memcpy(0,65536,65536)", "memcpy(65536,0,131072)", "memcpy(0,5,65531)", "freembuf(0)", "freembuf(65536)", "memset(0,0,200000)", "megabuf(8388607)=1", "gmegabuf(4000000)=2"};
                static const char* op[] = {"=", "+=", "*=", "|=", "%=", "^="};
                text += std::string(k.pick(slot)) + k.pick(op) + "(" + k.pick(call) + ";" + g.expr(k.range(0, 1)) + ")";
                k.label("a reference held during a bulk operation");
            } else text += (k.chance(1, 2) ? "a=" : "") + g.expr(k.range(0, 2));
        }
        k.label(g.loops ? "operator and function calls, with a loop" : "operator and function calls");
    }
    for (const char* v : {"a", "b", "c", "d"}) k.note("%s=%.17g ", v, *c.var(v));
    for (int r : {0, 42, 99}) k.note("reg%02d=%.17g ", r, (*r1.r)[r]);
    k.note("\n");
    k.note_str(text);
    k.note("\n");
    int runs = k.range(1, 3);
    if (kind == LOOPS || kind == TEXT) {
        if (gen::may_loop_long(text)) k.skip("nested constant loops");
        model::State m;
        for (const char* v : {"a", "b", "c", "d", "nan_", "inf_"}) m.vars[v] = *c.var(v);
        for (int r : {0, 42, 99}) m.reg[r] = (*r1.r)[r];
        for (int i : {0, 1, 65535, 65536, 8388607}) { m.local.set(i, c.peek(false, i)); m.global.set(i, c.peek(true, i)); }
        if (!ends_soon(text, m, gen::loop_words(text) ? 1 : runs)) k.skip("might take long");
        if (gen::loop_words(text)) runs = 1;
    }
    host::clear_lock_state();
    Code h(c, text);
    if (!h && !may_refuse) k.fail("the program was refused: %s", c.error().c_str());
    if (!h) { k.label("refused"); return; }
    for (int i = 0; i < runs; i++) {
        double r = h.run();
        if (kind == NOTHING && r != 0) k.fail("a program without instructions returned %.17g", r);
        if (i + 1 < runs && kind <= GENERAL) for (const char* v : {"a", "b", "c", "d"}) if (k.chance(1, 2)) { double x = wild(k); *c.var(v) = x; k.note("%s=%.17g ", v, x); }
    }
    if (!host::lock_error().empty()) k.fail("%s", host::lock_error().c_str());
    if (host::lock_depth()) k.fail("the host lock is still held");
    // what the program could not address
    if (*c.var("canary") != 4711) k.fail("a variable the program does not mention changed");
    for (int r = 0; r < 100; r++) {
        if (r == 0 || r == 42 || r == 99 || (r == 1 && kind == TEXT)) continue;
        if ((*r1.r)[r] != 0) k.fail("register %d, which the program does not mention, changed", r);
    }
    if (*other.var("a") != 1 || other.peek(false, 0) != 2 || other.peek(true, 0) != 3 || (*r2.r)[0] != 4 || other.peek(false, 65536) != 0) k.fail("another context's state changed");
    k.nontrivial();
}
void probe_c02() {
    // A long chain of operators is evaluated recursively: the host's stack limits its length.
    const char* bin = getenv("VC_BIN");
    if (!bin) return;
    pid_t pid = fork();
    if (pid == 0) {
        int n = open("/dev/null", O_WRONLY);
        dup2(n, 1); dup2(n, 2);
        struct rlimit rl;
        getrlimit(RLIMIT_STACK, &rl);
        rl.rlim_cur = 8 << 20;
        setrlimit(RLIMIT_STACK, &rl);
        void* so = dlopen((std::string(bin) + "/d8g2.so").c_str(), RTLD_NOW | RTLD_LOCAL);
        if (!so) _exit(0);
        auto create = (projectm_eval_context * (*) (void*, void*) ) dlsym(so, "projectm_eval_context_create");
        auto compile = (projectm_eval_code * (*) (projectm_eval_context*, const char*) ) dlsym(so, "projectm_eval_code_compile");
        auto exec = (double (*)(projectm_eval_code*)) dlsym(so, "projectm_eval_code_execute");
        std::string t = "a";
        for (int i = 0; i < 400000; i++) t += "+a";
        projectm_eval_code* h = compile(create(nullptr, nullptr), t.c_str());
        if (h) exec(h);
        _exit(0);
    }
    int st = 0;
    waitpid(pid, &st, 0);
    if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0))
        eng::finding("C02", "deep-chain", "executing a program with 400000 chained operators (a+a+...) overflows an 8 MiB stack");
}

// ------------------------------------------------------------------------------------------- C24
struct Fx { Fn fn; int args; };
const Fx kFx[] = {{SIN, 1}, {COS, 1}, {TAN, 1}, {ASIN, 1}, {ACOS, 1}, {ATAN, 1}, {ATAN2, 2}, {SQR, 1}, {SQRT, 1}, {POW, 2}, {EXP, 1}, {LOG, 1}, {LOG10, 1}, {ABS, 1}, {MIN, 2}, {MAX, 2}, {SIGN, 1}, {FLOOR, 1}, {INT, 1}, {CEIL, 1},
                  {INVSQRT, 1}, {SIGMOID, 2}, {ADD, 2}, {SUB, 2}, {MUL, 2}, {DIV, 2}, {MOD, 2}, {BITAND, 2}, {BITOR, 2}, {EQ, 2}, {NE, 2}, {LT, 2}, {GT, 2}, {LE, 2}, {GE, 2}, {NOT, 1}, {AND, 2}, {OR, 2}, {BAND, 2}, {BOR, 2}, {NEG, 1}};
constexpr int kFxCount = sizeof kFx / sizeof *kFx;

double ulp(double x) {
    x = std::fabs(x);
    if (!std::isfinite(x) || x == DBL_MAX) return std::nextafter(DBL_MAX, 0) > 0 ? DBL_MAX - std::nextafter(DBL_MAX, 0) : 0;
    return std::nextafter(x, kInf) - x;
}
// Reference value and tolerance in units of the last place; false if the property does not settle the case.
bool reference(Fn f, double x, double y, double* ref, double* tol, bool f32 = false) {
    long double X = x, Y = y, r = 0;
    double t = 0;
    const double tiny = f32 ? 1e-30 : 1e-290;
    auto truth = [&](double v, double eps, bool* ok) { if (v != 0 && std::fabs(v) < eps) *ok = false; return v != 0; };
    bool ok = true;
    switch (f) {
        case SIN: r = sinl(X); t = 8; break;
        case COS: r = cosl(X); t = 8; break;
        case TAN: r = tanl(X); t = 8; break;
        case ASIN: r = asinl(X); t = 8; break;
        case ACOS: r = acosl(X); t = 8; break;
        case ATAN: r = atanl(X); t = 8; break;
        case ATAN2: r = atan2l(X, Y); t = 8; break;
        case SQR: r = X * X; t = 1; break;
        case SQRT: r = sqrtl(X); t = 1; break;
        case POW: r = powl(X, Y); t = 8; break;
        case EXP: r = expl(X); t = 8; break;
        case LOG: r = logl(X); t = 8; break;
        case LOG10: r = log10l(X); t = 8; break;
        case ABS: r = fabsl(X); break;
        case MIN: r = x < y ? X : Y; break;
        case MAX: r = x > y ? X : Y; break;
        case SIGN: r = x > 0 ? 1 : x < 0 ? -1 : 0; break;
        case FLOOR: case INT: r = floorl(X); break;
        case CEIL: r = ceill(X); break;
        case INVSQRT: if (x < (f32 ? FLT_MIN : DBL_MIN)) return false; r = 1 / sqrtl(X); break;
        case SIGMOID: { long double e = expl(-X * Y); r = 1 / (1 + e); t = 8 + 2 * (double) std::min(fabsl(X * Y), (long double) 800); if (-X * Y > 690 && !f32) return false; if (f32 && -X * Y > 80) return false; break; }
        case ADD: r = X + Y; t = 1; break;
        case SUB: r = X - Y; t = 1; break;
        case MUL: r = X * Y; t = 1; break;
        case DIV: if (y == 0) { r = 0; break; } if (std::fabs(y) < tiny) return false; r = X / Y; t = 1; break;
        case MOD: case BITAND: case BITOR: {
            if (!(std::fabs(x) < 2147483647.0) || !(std::fabs(y) < 2147483647.0)) return false;
            int a = (int) x, b = (int) y;
            if (f == MOD) r = b == 0 || b == -1 ? 0 : a % b;
            else r = f == BITAND ? (a & b) : (a | b);
            break;
        }
        case EQ: case NE: { double d = std::fabs(x - y); if (d != 0 && d < tiny) return false; r = (f == EQ) == (x == y); break; }
        case LT: r = x < y; break;
        case GT: r = x > y; break;
        case LE: r = x <= y; break;
        case GE: r = x >= y; break;
        case NOT: r = !truth(x, tiny, &ok); break;
        case AND: { bool p = truth(x, tiny, &ok), q = truth(y, tiny, &ok); r = p && q; break; }
        case OR: { bool p = truth(x, tiny, &ok), q = truth(y, tiny, &ok); r = p || q; break; }
        case BAND: { bool p = truth(x, 1.1e-5, &ok), q = truth(y, 1.1e-5, &ok); r = p && q; break; }
        case BOR: { bool p = truth(x, 1.1e-5, &ok), q = truth(y, 1.1e-5, &ok); r = p || q; break; }
        case NEG: r = -X; break;
        default: return false;
    }
    if (!ok) return false;
    *ref = (double) r;
    *tol = t;
    return true;
}
bool accurate(Fn f, double got, double x, double ref, double tol) {
    if (f == INVSQRT) return std::fabs(got - ref) <= 0.002 * ref;
    if (f == INT && got == std::trunc(x)) return true;
    if (got == ref) return true;
    if (std::isnan(ref)) return std::isnan(got);   // outside of the function's domain
    if (std::isnan(got)) return false;
    if (tol == 0) return false;
    if (std::isinf(ref) && f == POW && x == 0) return std::isinf(got);
    if (std::isinf(got) || std::isinf(ref)) {   // the largest numbers may round either way
        double fin = std::isinf(got) ? ref : got;
        return std::isfinite(fin) && std::fabs(fin) >= DBL_MAX * (1 - tol * 3e-16) && std::signbit(got) == std::signbit(ref);
    }
    return std::fabs(got - ref) <= tol * std::max(ulp(ref), 4.9406564584124654e-324);
}
double argument(Case& k, Fn f, int which) {
    double sgn = k.chance(1, 3) ? -1 : 1;
    auto anyfinite = [&] { for (;;) { uint64_t b = k.bits(64); double d; memcpy(&d, &b, 8); if (std::isfinite(d)) return d; return 1.25; } };
    auto around = [&](double v) {
        switch (k.range(0, 4)) {
            case 0: return v;
            case 1: return std::nextafter(v, kInf);
            case 2: return std::nextafter(v, -kInf);
            case 3: return v + (k.range(-1000, 1000)) * 1e-9;
            default: return v * (1 + k.range(-100, 100) * 1e-6);
        }
    };
    double unit = (double) k.bits(53) / 9007199254740992.0;
    switch (f) {
        case SIN: case COS: case TAN:
            switch (k.range(0, 3)) { case 0: return sgn * unit * 7; case 1: return around(sgn * k.range(0, 40) * 0.78539816339744828); case 2: return sgn * std::ldexp(1 + unit, k.range(-60, 60)); default: return anyfinite(); }
        case ASIN: case ACOS:
            switch (k.range(0, 3)) { case 3: return k.chance(1, 2) ? sgn * (1 + unit) : anyfinite(); case 0: return sgn * unit; case 1: return std::max(-1.0, std::min(1.0, around(sgn * (k.chance(1, 2) ? 1.0 : 0.5)))); default: return sgn * std::ldexp(unit, -k.range(0, 60)); }
        case EXP: return k.chance(1, 10) ? anyfinite() : k.chance(3, 4) ? sgn * unit * (k.chance(1, 2) ? 3 : 745) : around(sgn * 709.78271289338397);
        case LOG: case LOG10: case SQRT: case INVSQRT:
            if (f != INVSQRT && k.chance(1, 8)) return k.chance(1, 3) ? anyfinite() : -unit * k.range(0, 100);
            switch (k.range(0, 3)) { case 0: return std::fabs(anyfinite()); case 1: return around(1); case 2: return unit * 1000; default: return std::ldexp(1 + unit, k.range(-1000, 1000)); }
        case POW:
            if (which == 0 && k.chance(1, 10)) return sgn * unit * 10;
            if (which == 0) switch (k.range(0, 3)) { case 0: return unit * 10; case 1: return sgn * k.range(0, 12); case 2: return k.chance(1, 3) ? 1 + sgn * std::ldexp(1 + unit, k.range(-40, -6)) : around(1); default: return std::ldexp(1 + unit, k.range(-200, 200)); }
            switch (k.weighted({4, 4, 4, 2, 1})) {
                case 0: return sgn * k.range(0, 30);
                case 1: return sgn * unit * 20;
                case 2: return sgn * k.range(0, 9) / 2.0;
                case 3: return sgn * std::floor(std::ldexp(1 + unit, k.range(4, 33)));   // large whole exponents, for bases next to 1
                default: return anyfinite();
            }
        case SIGMOID: return k.chance(1, 8) ? anyfinite() : k.chance(1, 2) ? sgn * unit * 4 : sgn * unit * 25;
        case FLOOR: case INT: case CEIL:
            switch (k.range(0, 3)) { case 0: return sgn * unit * 100; case 1: return around(sgn * k.range(0, 200)); case 2: return around(sgn * k.range(0, 200) / 2.0); default: return anyfinite(); }
        case MOD: case BITAND: case BITOR:
            switch (k.range(0, 3)) { case 0: return sgn * k.range(0, 20); case 1: return sgn * unit * 1000; case 2: return sgn * (double) k.bits(31); default: return sgn * (k.range(0, 40) + 0.9999); }
        case EQ: case NE: case LT: case GT: case LE: case GE: case MIN: case MAX:
            switch (k.range(0, 3)) { case 0: return sgn * k.range(0, 3); case 1: return around(sgn * k.range(1, 3)); case 2: return anyfinite(); default: return sgn * unit; }
        case NOT: case AND: case OR: case BAND: case BOR: case SIGN: case ABS: case NEG:
            switch (k.range(0, 3)) { case 0: return 0; case 1: return sgn * k.range(1, 3); case 2: return sgn * unit; default: return anyfinite(); }
        default:
            switch (k.range(0, 4)) { case 0: return sgn * k.range(0, 100); case 1: return sgn * unit * 100; case 2: return sgn * std::ldexp(1 + unit, k.range(-300, 300)); case 3: return 0; default: return anyfinite(); }
    }
}
struct Call { Fn fn; double x, y, ref, tol; std::string text; };
// A program text computing the call; sets the variables it uses.
std::string call_text(Case& k, Fn f, double x, double y, const std::function<void(const std::string&, double)>& setvar, bool compound) {
    auto operand = [&](double v, const char* var, const char* reg) -> std::string {
        int w = std::isfinite(v) ? k.weighted({4, 4, 1, 1, 1, 1}) : 1;
        switch (w) {
            case 0: return lit(v);
            case 1: setvar(var, v); return var;
            case 2: setvar(reg, v); return reg;
            case 3: setvar(var, v); return std::string(var[0] == 'x' ? "(megabuf(3)=" : "(megabuf(4)=") + var + ")";
            case 4: setvar(var, v); return std::string("exec2(sin(2),") + var + ")";
            default: return "(" + lit(v) + ")";
        }
    };
    static const Fn comp[] = {ADDOP, SUBOP, MULOP, DIVOP, MODOP, OROP, ANDOP, POWOP};
    static const Fn base[] = {ADD, SUB, MUL, DIV, MOD, BITOR, BITAND, POW};
    if (compound)
        for (int i = 0; i < 8; i++)
            if (base[i] == f) {
                static const char* dest[] = {"t", "reg17", "megabuf(40)", "gmem[7]", "if(1,t,u)"};
                std::string d = k.pick(dest), a = operand(x, "x", "reg01"), b = operand(y, "y", "reg02");
                NodeP n = mk(comp[i], {var("ddd"), var("bbb")});
                auto al = fn_aliases(comp[i]);
                std::string call;
                if (k.chance(1, 3)) call = std::string(al[0]) + "(" + d + "," + b + ")";
                else {
                    static const char* ops[] = {"+=", "-=", "*=", "/=", "%=", "|=", "&=", "^="};
                    call = d + ops[i] + b;
                }
                return d + "=" + a + ";" + call + (k.chance(1, 2) ? ";" + d : "");
            }
    std::string a = operand(x, "x", "reg01"), b = fn_arity(f) > 1 ? operand(y, "y", "reg02") : "";
    static const struct { Fn f; const char* o; } ops[] = {{ADD, "+"}, {SUB, "-"}, {MUL, "*"}, {DIV, "/"}, {MOD, "%"}, {BITAND, "&"}, {BITOR, "|"}, {EQ, "=="}, {NE, "!="}, {LT, "<"}, {GT, ">"}, {LE, "<="}, {GE, ">="}, {AND, "&&"}, {OR, "||"}, {POW, "^"}};
    auto al = fn_aliases(f);
    if (al.empty() || k.chance(1, 2)) {
        for (auto& o : ops) if (o.f == f) return a + o.o + b;
        if (f == NOT) return "!" + a;
        if (f == NEG) return "-" + a;
    }
    std::string t = std::string(al[k.draw((uint32_t) al.size())]) + "(" + a;
    if (fn_arity(f) > 1) t += "," + b;
    return t + ")";
}
void run_c24(Case& k) {
    Ctx c;
    int n = k.range(3, 8), judged = 0;
    for (int i = 0; i < n; i++) {
        Fn f = kFx[k.draw(kFxCount)].fn;
        double x = argument(k, f, 0), y = fn_arity(f) > 1 ? argument(k, f, 1) : 0;
        if (fn_arity(f) > 1 && k.chance(1, 8)) y = x;
        if (fn_arity(f) > 1 && k.chance(1, 12)) y = std::nextafter(x, kInf);
        if (fn_arity(f) > 1 && k.chance(1, 10)) { y = x * (1 + k.range(-9, 9) * std::pow(10, -k.range(1, 16))); if (k.chance(1, 4)) y = -y; }   // cancelling
        double ref, tol;
        if (!std::isfinite(x) || !std::isfinite(y) || !reference(f, x, y, &ref, &tol)) continue;
        std::string vars;
        std::string t = call_text(k, f, x, y, [&](const std::string& v, double d) { *c.var(v) = d; char b[80]; snprintf(b, sizeof b, "%s=%.17g ", v.c_str(), d); vars += b; }, k.chance(1, 3));
        k.note("%s  {%s}\n", t.c_str(), vars.c_str());
        Code h(c, t);
        if (!h) k.fail("refused: %s", c.error().c_str());
        int reps = k.chance(1, 6) ? 2 : 1;
        for (int q = 0; q < reps; q++) {
            double got = h.run();
            if (!accurate(f, got, x, ref, tol)) k.fail("%s of %.17g%s%s is %.17g, expected %.17g", fn_name(f) ? fn_name(f) : f == BITAND ? "&" : "|", x, fn_arity(f) > 1 ? " and " : "", fn_arity(f) > 1 ? host::g17(y).c_str() : "", got, ref);
        }
        judged++;
        k.label(fn_name(f) ? fn_name(f) : f == BITAND ? "operator &" : "operator |");
    }
    if (judged) k.nontrivial();
}
void probe_c24() {
    Ctx c;
    Code h(c, "int(v)");
    if (!h) return;
    *c.var("v") = -2.5;
    if (h.run() == -3) eng::finding("C24", "int-negative", "int(-2.5) is -3 (rounded down, as floor()); the documentation says the fraction is discarded");
}

// ------------------------------------------------------------------------------------------- C23
struct Lib {
    const char* name = nullptr;
    bool f32 = false;
    void* so = nullptr;
    void* (*create)(void*, void*) = nullptr;
    void (*destroy)(void*) = nullptr;
    void* (*reg)(void*, const char*) = nullptr;
    void* (*compile)(void*, const char*) = nullptr;
    void (*code_destroy)(void*) = nullptr;
    double (*exec8)(void*) = nullptr;
    float (*exec4)(void*) = nullptr;
    const char* (*error)(void*, int*, int*) = nullptr;
    void* (*buf_create)() = nullptr;
    void (*buf_destroy)(void*) = nullptr;
    double exec(void* h) const { return f32 ? (double) exec4(h) : exec8(h); }
    void set(void* ctx, const std::string& n, double v) const { void* p = reg(ctx, n.c_str()); if (f32) *(float*) p = (float) v; else *(double*) p = v; }
    double get(void* ctx, const std::string& n) const { void* p = reg(ctx, n.c_str()); return f32 ? (double) *(float*) p : *(double*) p; }
};
std::vector<Lib>& libs() {
    static std::vector<Lib> ls;
    if (!ls.empty()) return ls;
    const char* bin = getenv("VC_BIN");
    for (const char* n : {"d8g0", "d8g2", "d8gf", "d8c3", "d4g0", "d4gf"}) {
        Lib l;
        l.name = n;
        l.f32 = n[1] == '4';
        l.so = dlopen((std::string(bin ? bin : "") + "/" + n + ".so").c_str(), RTLD_NOW | RTLD_LOCAL);
        if (!l.so) throw eng::Fail{std::string("cannot load ") + n + ": " + dlerror()};
        auto sym = [&](const char* s) { void* p = dlsym(l.so, s); if (!p) throw eng::Fail{std::string("no ") + s + " in " + n}; return p; };
        l.create = (decltype(l.create)) sym("projectm_eval_context_create");
        l.destroy = (decltype(l.destroy)) sym("projectm_eval_context_destroy");
        l.reg = (decltype(l.reg)) sym("projectm_eval_context_register_variable");
        l.compile = (decltype(l.compile)) sym("projectm_eval_code_compile");
        l.code_destroy = (decltype(l.code_destroy)) sym("projectm_eval_code_destroy");
        l.exec8 = (decltype(l.exec8)) sym("projectm_eval_code_execute");
        l.exec4 = (decltype(l.exec4)) sym("projectm_eval_code_execute");
        l.error = (decltype(l.error)) sym("projectm_eval_get_error");
        l.buf_create = (decltype(l.buf_create)) sym("projectm_eval_memory_buffer_create");
        l.buf_destroy = (decltype(l.buf_destroy)) sym("projectm_eval_memory_buffer_destroy");
        ls.push_back(l);
    }
    return ls;
}
struct LCtx {
    const Lib& l;
    void *buf, *regs, *c;
    std::map<std::string, void*> cache;
    explicit LCtx(const Lib& ll) : l(ll), buf(l.buf_create()), regs(calloc(100, 8)), c(l.create(buf, regs)) {}
    ~LCtx() { for (auto& h : cache) l.code_destroy(h.second); l.destroy(c); l.buf_destroy(buf); free(regs); }
    void* code(const char* t) { auto& h = cache[t]; if (!h) h = l.compile(c, t); return h; }
    double peek(bool g, int i) { l.set(c, "vc_i", i); return l.exec(code(g ? "gmegabuf(vc_i)" : "megabuf(vc_i)")); }
    void poke(bool g, int i, double v) { l.set(c, "vc_i", i); l.set(c, "vc_v", v); l.exec(code(g ? "assign(gmegabuf(vc_i),vc_v)" : "assign(megabuf(vc_i),vc_v)")); }
};
float as_float(double v) { return (float) v; }
void c23_program(Case& k) {
    gen::Opt o;
    o.max_depth = k.range(2, 5);
    o.max_nodes = 40;
    o.loops = k.chance(1, 2);
    Gen g(k, o);
    NodeP p = g.program();
    std::string text = k.chance(1, 4) ? gen::random_layout(k, to_tokens(p)) : print(p);
    model::State init;
    gen::random_state(k, o, init);
    // Initial values exact in both number types
    for (auto& v : init.vars) v.second = as_float(v.second);
    for (double& r : init.reg) r = as_float(r);
    for (int q = 0; q < 2; q++) {
        model::Memory& m = q ? init.global : init.local;
        for (int pg : m.pages()) for (int i = 0; i < 4096; i++) { double v = m.get(pg * 4096 + i); if (v != 0) m.set(pg * 4096 + i, as_float(v)); }
    }
    note_state(k, init);
    k.note_str(escape(text));
    k.note("\n");
    if (gen::heavy_constant_loops(p)) k.skip("long constant loops");
    model::State s8 = init, s4 = init;
    gen::Judged j8 = gen::judge(p, s8);
    if (!j8.ok) k.skip(j8.why);
    if (j8.r.saw_nonfinite || j8.r.max_mag > 1e30 || j8.r.min_mag < 1e-30) k.skip("intermediate results not ordinary");
    model::Options o4;
    o4.perturb_all = true;
    o4.eps = 2e-6;
    gen::Judged j4 = gen::judge(p, s4, o4);
    int judged4 = j4.ok;
    for (const Lib& l : libs()) {
        if (l.f32 && !judged4) continue;
        LCtx x(l);
        for (auto& v : init.vars) l.set(x.c, v.first, v.second);
        for (int i = 0; i < 100; i++) if (init.reg[i] != 0) { char b[8]; snprintf(b, sizeof b, "reg%02d", i); l.set(x.c, b, init.reg[i]); }
        for (int q = 0; q < 2; q++) { const model::Memory& m = q ? init.global : init.local; for (int pg : m.pages()) for (int i = 0; i < 4096; i++) { double v = m.get(pg * 4096 + i); if (v != 0) x.poke(q, pg * 4096 + i, v); } }
        void* h = l.compile(x.c, text.c_str());
        if (!h) k.fail("%s refuses the program: %s", l.name, l.error(x.c, nullptr, nullptr));
        double v = l.exec(h);
        l.code_destroy(h);
        double tol = l.f32 ? 2e-3 : 1e-8;
        const model::State& s = l.f32 ? s4 : s8;
        double want = l.f32 ? j4.r.value : j8.r.value;
        if (!model::close(v, want, tol)) k.fail("%s returns %.17g, expected %.17g", l.name, v, want);
        for (auto& vv : s.vars) if (!model::close(l.get(x.c, vv.first), vv.second, tol)) k.fail("%s: %s is %.17g, expected %.17g", l.name, vv.first.c_str(), l.get(x.c, vv.first), vv.second);
        for (int i = 0; i < 100; i++) { char b[8]; snprintf(b, sizeof b, "reg%02d", i); if (!model::close(l.get(x.c, b), s.reg[i], tol)) k.fail("%s: %s is %.17g, expected %.17g", l.name, b, l.get(x.c, b), s.reg[i]); }
        for (int q = 0; q < 2; q++) {
            const model::Memory& m = q ? s.global : s.local;
            for (int pg : m.pages())
                for (int i = 0; i < 4096; i++) {
                    if (m.get(pg * 4096 + i) == 0 && i % 97) continue;
                    double y = x.peek(q, pg * 4096 + i);
                    if (!model::close(y, m.get(pg * 4096 + i), tol)) k.fail("%s: %s[%d] is %.17g, expected %.17g", l.name, q ? "gmegabuf" : "megabuf", pg * 4096 + i, y, m.get(pg * 4096 + i));
                }
        }
    }
    k.label(judged4 ? "programs judged in all configurations" : "programs judged with 8-byte numbers only");
    if (count_nodes(p) >= 4) k.nontrivial();
}
void c23_text(Case& k) {
    int n = k.range(2, 8);
    int judged = 0;
    std::vector<std::unique_ptr<LCtx>> cs;
    for (const Lib& l : libs()) cs.push_back(std::make_unique<LCtx>(l));
    for (int i = 0; i < n; i++) {
        std::vector<std::string> t;
        if (k.chance(1, 2)) {
            gen::Opt o;
            o.max_depth = 3;
            Gen g(k, o);
            t = to_tokens(g.program());
            gen::mutate_tokens(k, t, k.range(0, 2));
        } else for (int q = k.range(1, 7); q > 0; q--) t.push_back(k.chance(1, 20) ? gen::bad_token(k) : gen::soup_token(k));
        std::string text = gen::random_layout(k, t);
        if (gen::may_loop_long(text)) continue;
        k.note_str(escape(text));
        k.note("\n");
        int first = -1, fl = 0, fc = 0;
        for (auto& x : cs) {
            void* h = x->l.compile(x->c, text.c_str());
            int ln = 0, co = 0;
            const char* e = x->l.error(x->c, &ln, &co);
            if (!h && !e) k.fail("%s: no error", x->l.name);
            if (first < 0) { first = h != nullptr; fl = ln; fc = co; }
            else if (first != (h != nullptr)) k.fail("%s %s the text, %s does not", x->l.name, h ? "accepts" : "refuses", cs[0]->l.name);
            else if (!h && (ln != fl || co != fc)) k.fail("%s reports the error at line %d, column %d, %s at line %d, column %d", x->l.name, ln, co, cs[0]->l.name, fl, fc);
            if (h) x->l.code_destroy(h);
        }
        judged++;
    }
    k.label("texts compared");
    if (judged) k.nontrivial();
}
void c23_calls(Case& k) {
    int n = k.range(2, 6), judged = 0;
    std::vector<std::unique_ptr<LCtx>> cs;
    for (const Lib& l : libs()) cs.push_back(std::make_unique<LCtx>(l));
    for (int i = 0; i < n; i++) {
        Fn f = kFx[k.draw(kFxCount)].fn;
        double x = as_float(argument(k, f, 0)), y = fn_arity(f) > 1 ? as_float(argument(k, f, 1)) : 0;
        if (fn_arity(f) > 1 && k.chance(1, 8)) y = x;
        auto ordinary = [](double v) { return v == 0 || (std::fabs(v) < 1e30 && std::fabs(v) > 1e-30); };
        double ref, tol;
        if (!ordinary(x) || !ordinary(y) || !reference(f, x, y, &ref, &tol, true) || !ordinary(ref)) continue;
        if ((f == SIN || f == COS || f == TAN) && std::fabs(x) > 1e5) continue;
        if (f == SIGMOID && std::fabs(x * y) > 60) continue;
        std::vector<std::pair<std::string, double>> sets;
        std::string t = call_text(k, f, x, y, [&](const std::string& v, double d) { sets.push_back({v, d}); }, k.chance(1, 3));
        k.note("%s {x=%.17g y=%.17g}\n", t.c_str(), x, y);
        // sensitivity to the rounding of the arguments (function values near zero, exponents)
        for (auto& c : cs) {
            const Lib& l = c->l;
            for (auto& s : sets) l.set(c->c, s.first, s.second);
            void* h = l.compile(c->c, t.c_str());
            if (!h) k.fail("%s refuses %s", l.name, t.c_str());
            double got = l.exec(h);
            l.code_destroy(h);
            bool ok;
            if (f == INVSQRT) ok = std::fabs(got - ref) <= 0.0021 * ref;
            else if (f == INT) ok = got == std::floor(x) || got == std::trunc(x);
            else if (tol == 0) ok = l.f32 ? (float) got == (float) ref : got == ref;
            else if (l.f32) {
                double slack = 4e-6 * (1 + (f == POW || f == EXP || f == SIGMOID ? std::fabs(ref) > 0 ? std::fabs(std::log(std::fabs(ref))) : 0 : 0));
                double near0 = f == SIN || f == COS || f == TAN ? 1e-6 * (1 + std::fabs(x)) * 1e-1 : f == ACOS || f == ASIN || f == LOG || f == LOG10 ? 3e-7 : 0;
                ok = std::fabs(got - ref) <= slack * std::fabs(ref) + near0;
            } else ok = model::close(got, ref, 1e-13 * (f == SIGMOID || f == POW ? 50 : 1)) || ((f == SIN || f == COS || f == TAN) && std::fabs(got - ref) < 1e-15);
            if (!ok) k.fail("%s gives %.17g, expected %.17g", l.name, got, ref);
        }
        judged++;
    }
    k.label("calls compared");
    if (judged) k.nontrivial();
}
// Iteration limits, and memory over all blocks
void c23_limits(Case& k) {
    static const char* texts[] = {"while(n+=1)", "while(exec2(n+=1,1))", "loop(1e9,n+=1)", "loop(1048577,n=n+1)", "loop(5e9,n+=1)", "while(n-=1)", "loop(1048576,megabuf(n)=n;n+=1)", "loop(1048570,n+=1)", "while(n+=1;n<1048574)", "while(n+=1;n-1048580)"};
    std::string text = k.pick(texts);
    k.note("%s\n", text.c_str());
    model::State s;
    s.vars["n"] = 0;
    auto lx = lex(text);
    ParseResult pr = parse(lx.toks);
    model::Options mo;
    mo.budget = 40000000;
    model::Result r = model::run(pr.ast, s, model::LATE, mo);
    if (r.out_of_budget) k.skip("too long");
    for (const Lib& l : libs()) {
        LCtx x(l);
        l.set(x.c, "n", 0);
        void* h = l.compile(x.c, text.c_str());
        if (!h) k.fail("%s refuses the program", l.name);
        l.exec(h);
        l.code_destroy(h);
        double n = l.get(x.c, "n");
        if (n != s.vars["n"]) k.fail("%s: n is %.17g, expected %.17g", l.name, n, s.vars["n"]);
        if (text.find("megabuf") != std::string::npos)
            for (int i : {0, 1, 65535, 65536, 1048575, 1048576}) { double v = x.peek(false, i), e = s.local.get(i); if (v != e) k.fail("%s: megabuf(%d) is %.17g, expected %.17g", l.name, i, v, e); }
    }
    k.label("iteration limits compared");
    k.nontrivial();
}
void c23_memory(Case& k) {
    static const int base[] = {0, 1, 5, 4096, 65535, 65536, 65537, 131071, 131072, 4194303, 4194304, 8323072, 8388606, 8388607};
    auto slot = [&] { int i = k.pick(base) + (k.chance(1, 3) ? k.range(-2, 2) : 0); return std::min(8388607, std::max(0, i)); };
    std::set<int> look[2];
    std::string text;
    int n = k.range(1, 6);
    for (int i = 0; i < n; i++) {
        int g = k.chance(1, 3), a = slot(), b = slot(), c = k.chance(1, 6) ? k.range(60000, 70000) : k.range(0, 40);
        char t[160];
        switch (k.weighted({3, 1, 1, 1})) {
            case 0: snprintf(t, sizeof t, "%s(%d)=%d;", g ? "gmegabuf" : "megabuf", a, k.range(-5, 90)); look[g].insert(a); break;
            case 1: snprintf(t, sizeof t, "memset(%d,%d,%d);", a, k.range(1, 9), c); look[0].insert(a); look[0].insert(a + c - 1); look[0].insert(a + c); break;
            case 2: snprintf(t, sizeof t, "memcpy(%d,%d,%d);", a, b, c); for (int d : {0, c / 2, c - 1, c}) look[0].insert(a + d); break;
            default: snprintf(t, sizeof t, "%s[%s%d]+=%d;", g ? "gmem" : "0", "", a, k.range(1, 9)); look[g].insert(a); break;
        }
        text += t;
        look[g].insert(b);
    }
    k.note("%s\n", text.c_str());
    auto lx = lex(text);
    ParseResult pr = parse(lx.toks);
    if (!pr.ast) k.skip("nothing");
    model::State s;
    model::Result r = model::run(pr.ast, s, model::LATE);
    if (r.out_of_budget || !r.unjudged.empty()) k.skip("not judged");
    for (const Lib& l : libs()) {
        LCtx x(l);
        void* h = l.compile(x.c, text.c_str());
        if (!h) k.fail("%s refuses the program", l.name);
        l.exec(h);
        l.code_destroy(h);
        for (int g = 0; g < 2; g++)
            for (int i : look[g]) {
                if (i < 0 || i > 8388607) continue;
                double v = x.peek(g, i), e = (g ? s.global : s.local).get(i);
                if (v != e) k.fail("%s: %s(%d) is %.17g, expected %.17g", l.name, g ? "gmegabuf" : "megabuf", i, v, e);
            }
    }
    k.label("memory compared");
    k.nontrivial();
}
void c23_rand(Case& k) {
    double m = k.range(1, 5000);
    int n = k.range(1, 20);
    switch (k.range(0, 3)) {   // limits exact in both number types; the range is rounded down to a whole number of at least 1
        case 0: break;
        case 1: m = k.range(-5, 5) + k.range(0, 15) / 16.0; break;
        case 2: m += k.range(1, 127) / 128.0; break;
        default: m = 1 + k.range(0, 127) / 128.0;
    }
    k.note("rand(%.10g), %d times\n", m, n);
    const double range = std::max(1.0, std::floor(m));
    std::vector<std::vector<double>> v;
    for (const Lib& l : libs()) {
        LCtx x(l);
        l.set(x.c, "m", m);
        void* h = l.compile(x.c, "rand(m)");
        if (!h) k.fail("%s refuses rand(m)", l.name);
        std::vector<double> r;
        for (int i = 0; i < n; i++) r.push_back(l.exec(h));
        l.code_destroy(h);
        v.push_back(r);
    }
    for (size_t q = 1; q < v.size(); q++)
        for (int i = 0; i < n; i++)
            if (std::fabs(v[q][(size_t) i] - v[0][(size_t) i]) > (libs()[q].f32 ? 1e-5 : 1e-12) * range) k.fail("%s: number %d is %.17g, %s gives %.17g", libs()[q].name, i, v[q][(size_t) i], libs()[0].name, v[0][(size_t) i]);
    k.label("random streams compared");
    k.nontrivial();
}
void run_c23(Case& k) {
    switch (k.weighted({240, 80, 120, 40, 20, 1})) {
        case 0: c23_program(k); break;
        case 1: c23_text(k); break;
        case 2: c23_calls(k); break;
        case 4: c23_memory(k); break;
        case 5: c23_limits(k); break;
        default: c23_rand(k); break;
    }
}

eng::Register r02({"C02", run_c02, 40000, 1500000, 100,
    "1-5 statements applying every operator, function and subscript to extreme operands (integer limits, 2^31..2^64, infinities, NaN, subnormals, any bit pattern) given as literals, variables, registers and slots, nested, plus general programs on such states; compiled and executed 1-3 times under AddressSanitizer/UBSan with register arrays and blocks in exactly sized heap blocks; variables, registers and contexts the program cannot address must keep their values; every case is non-trivial",
    "conversions of numbers without integer representation are not reported by themselves (-fno-sanitize=float-cast-overflow), only what follows from them; at most one loop nesting level", probe_c02, 0, 60000});
eng::Register r23({"C23", run_c23, 40000, 1000000, 60,
    "one program, set of texts, calls of functions, random stream, memory history or loop at its limit in six builds (gcc -O0, -O2, -Ofast -DNDEBUG, clang -O3 -DNDEBUG, and 4-byte numbers with gcc -O0 and -Ofast): same acceptance and error positions, results, variables, registers and memory as the reference model up to the number type's precision; non-trivial: at least four nodes or one text or call judged",
    "programs whose outcome the model shows to depend on rounding at the number type's precision are not judged", nullptr, 0, 0});
eng::Register r24({"C24", run_c24, 200000, 8000000, 400,
    "3-8 calls of all 41 functions and operators (and compound forms) with arguments over their whole domain (any finite bit pattern, neighbourhoods of special points, range ends) and some outside of it, as literals, variables, registers and slots: within 8 units in the last place of an 80-bit reference (1 for + - * / sqrt sqr, exact for the others, 0.2% for invsqrt); non-trivial: at least one call judged",
    "glibc's 80-bit functions as reference; divisors and conditions below 1e-290 in magnitude (1e-5 for band/bor) count as zero in the implementation and are not judged", probe_c24, 0, 60000});

}  // namespace
