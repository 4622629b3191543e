#include "model.hpp"

#include <algorithm>
#include <cmath>
#include <cstring>

using namespace lang;

namespace model {

bool reg_index(const std::string& n, int* idx) {
    if (n.size() != 5 || n.compare(0, 3, "reg") || n[3] < '0' || n[3] > '9' || n[4] < '0' || n[4] > '9') return false;
    *idx = (n[3] - '0') * 10 + (n[4] - '0');
    return true;
}

double* State::var(const std::string& n) {
    int i;
    if (reg_index(n, &i)) return &reg[i];
    return &vars[n];
}

bool close(double x, double y, double tol) {
    if (x == y) return true;
    if (std::isnan(x) || std::isnan(y)) return std::isnan(x) && std::isnan(y);
    if (std::isinf(x) || std::isinf(y)) return false;
    return std::fabs(x - y) <= tol * std::max(std::fabs(x), std::fabs(y)) || std::fabs(x - y) < 1e-300;
}

bool Memory::equals(const Memory& o, double tol, int* where) const {
    std::set<int> ids;
    for (auto& p : pages_) ids.insert(p.first);
    for (auto& p : o.pages_) ids.insert(p.first);
    for (int id : ids)
        for (int k = 0; k < 4096; k++) {
            int i = id * 4096 + k;
            if (!close(get(i), o.get(i), tol)) { if (where) *where = i; return false; }
        }
    return true;
}

int count_loops(const NodeP& n) {
    int c = n->fn == LOOP || n->fn == WHILE;
    for (auto& k : n->a) c += count_loops(k);
    return c;
}
void collect_vars(const NodeP& n, std::set<std::string>& out) {
    if (n->fn == VARREF) out.insert(lower(n->name));
    for (auto& k : n->a) collect_vars(k, out);
}

namespace {
struct Budget {};
struct V {
    double* ref = nullptr;
    double val = 0;
    double get() const { return ref ? *ref : val; }
};

struct Eval {
    State& s;
    Policy pol;
    const Options& opt;
    Result r;
    double pert;
    unsigned perturbed = 0;

    Eval(State& ss, Policy p, const Options& o) : s(ss), pol(p), opt(o), pert(p == EAGER ? o.eps : 0) {}

    void unjudged(const char* why) { if (r.unjudged.empty()) r.unjudged = why; }
    V rv(double x) {
        if (std::isfinite(x)) {
            double m = std::fabs(x);
            if (m > r.max_mag) r.max_mag = m;
            if (m > 0 && m < r.min_mag) r.min_mag = m;
        } else r.saw_nonfinite = true;
        V v; v.val = x; return v;
    }
    V exact(double x) { return opt.perturb_all ? inexact(x) : rv(x); }
    // Result that is only defined up to rounding
    V inexact(double x) {
        if (std::isfinite(x) && !(x == std::floor(x) && std::fabs(x) < 9e15)) r.rounded = true;
        if (pert != 0 && std::isfinite(x) && !(x == std::floor(x) && std::fabs(x) < (opt.perturb_all ? 1e6 : 9e15))) {
            // pseudo-random sign, so that perturbations do not cancel systematically
            uint64_t b;
            memcpy(&b, &x, 8);
            if (opt.perturb_all) b += (uint64_t) ++perturbed * 0x9e3779b97f4a7c15ull + (uint64_t) opt.pert_mode * 0xd1342543de82ef95ull;
            b = (b ^ (b >> 29)) * 0xbf58476d1ce4e5b9ull;
            b = (b ^ (b >> 32)) * 0x94d049bb133111ebull;
            bool up = opt.pert_mode == 2 || (opt.pert_mode != 3 && ((b >> 40) & 1));
            x *= 1 + (up ? pert : -pert * 0.7);
        }
        return rv(x);
    }
    double step_and_get(const NodeP& n, V* keep = nullptr) {
        V v = ev(n);
        if (pol == EAGER) { double x = v.get(); v.ref = nullptr; v.val = x; }
        if (keep) *keep = v;
        return v.get();
    }
    V operand(const NodeP& n) {
        V v = ev(n);
        if (pol == EAGER) { double x = v.get(); v.ref = nullptr; v.val = x; }
        return v;
    }
    bool truth(double x, double eps = 1e-290) {
        if (std::isnan(x)) unjudged("NaN as a condition");
        if (x != 0 && std::fabs(x) < eps) unjudged("almost zero condition");
        return x != 0;
    }
    int toint(double x) {
        if (!(std::fabs(x) < 2147483647.0)) { unjudged("no integer representation"); return 0; }
        if (opt.perturb_all && std::fabs(x) > 1e6) unjudged("integer beyond the precision");
        return (int) x;
    }
    double angle(double x) {
        if (opt.perturb_all && std::fabs(x) > 1e4) unjudged("angle beyond the precision");
        return x;
    }
    // Integer part with the documented tolerance; false if the index is out of range
    bool index(double x, int64_t* out) {
        if (std::isnan(x)) { unjudged("NaN as an index"); return false; }
        if (x < 0) {
            // (-1,0) may count as out of range or as slot 0
            if (x > -0.99985) { if (x < -0.00005) { if (pol == EAGER) return false; } *out = 0; return true; }
            if (x > -0.99995) { unjudged("index at the tolerance limit"); return false; }
            return false;
        }
        if (x >= (double) kMemItems - 0.00005) return false;
        double ip = std::floor(x), fr = x - ip;
        if (fr > 0.9998 && fr < 0.99995) { unjudged("index at the tolerance limit"); *out = (int64_t) ip; return true; }
        if (fr >= 0.99995) ip += 1;
        if (ip >= kMemItems) return false;
        *out = (int64_t) ip;
        return true;
    }
    // Offset or count of memset/memcpy
    int64_t whole(double x) {
        if (std::isnan(x)) { unjudged("NaN as an offset"); return 0; }
        if (x > 4e18) { unjudged("offset beyond 1e18"); return (int64_t) 4e18; }
        if (x < -4e18) { unjudged("offset beyond 1e18"); return (int64_t) -4e18; }
        double ip = std::trunc(x), fr = std::fabs(x - ip);
        if (x < 0 && fr != 0 && fr < 0.9998 && pol == EAGER) ip -= 1;  // rounding of negative fractions is not settled
        if (fr > 0.9998 && fr < 0.99995) unjudged("offset at the tolerance limit");
        else if (fr >= 0.99995) ip += x < 0 ? -1 : 1;
        return (int64_t) ip;
    }
    V store(V l, double x) {
        if (l.ref) { *l.ref = x; rv(x); return l; }
        // Assigning to a plain value: nothing is stored, the result is the value.
        return rv(x);
    }

    V ev(const NodeP& n) {
        if (++r.steps > opt.budget) throw Budget{};
        const auto& a = n->a;
        switch (n->fn) {
            case NUMLIT: return opt.perturb_all && n->num != (double) (float) n->num ? inexact(n->num) : rv(n->num);
            case VARREF: { V v; v.ref = s.var(lower(n->name)); rv(*v.ref); return v; }
            case LIST: { V v; for (auto& e : a) v = ev(e); return v; }
            case IF: return truth(step_and_get(a[0])) ? ev(a[1]) : ev(a[2]);
            case AND: if (!truth(step_and_get(a[0]))) return rv(0); return rv(truth(step_and_get(a[1])));
            case OR: if (truth(step_and_get(a[0]))) return rv(1); return rv(truth(step_and_get(a[1])));
            case LOOP: {
                V cnt;
                double c = step_and_get(a[0], &cnt);
                if (std::isnan(c)) { unjudged("NaN as loop count"); c = 0; }
                int k = c > opt.max_loop ? opt.max_loop : c < 1 ? 0 : (int) c;
                V v;
                for (int i = 0; i < k; i++) v = ev(a[1]);
                if (k == 0) { v = rv(0); if (pol == LATE) v = cnt; }  // the result of a loop without iterations is not settled
                return v;
            }
            case WHILE: {
                V v;
                int k = opt.max_loop;
                do { v = ev(a[0]); } while (truth(v.get()) && --k);
                return v;
            }
            case EXEC2: ev(a[0]); return ev(a[1]);
            case EXEC3: ev(a[0]); ev(a[1]); return ev(a[2]);
            case SET: { V l = ev(a[0]); V x = operand(a[1]); return store(l, x.get()); }
            case ADDOP: case SUBOP: case MULOP: case DIVOP: case MODOP: case OROP: case ANDOP: case POWOP: {
                static const Fn base[] = {SET, ADD, SUB, MUL, DIV, MOD, BITOR, BITAND, POW};
                V l = ev(a[0]);
                double before = l.get();
                V x = operand(a[1]);
                double left = pol == EAGER ? before : l.get();
                return store(l, binary(base[n->fn - SET], left, x.get()).val);
            }
            case MEM: case GMEM: {
                double i = step_and_get(a[0]);
                int64_t k;
                if (!index(i, &k)) return rv(0);
                V v; v.ref = (n->fn == MEM ? s.local : s.global).slot((int) k);
                rv(*v.ref);
                return v;
            }
            case FREEMBUF: ev(a[0]); return rv(pol == LATE ? 0 : 1);  // the result is not documented
            case MEMSET: {
                V d = operand(a[0]), x = operand(a[1]), c = operand(a[2]);
                double dd = d.get(), xx = x.get();
                int64_t from = whole(dd), cnt = whole(c.get());
                if (cnt > 0) {
                    int64_t to = std::min<int64_t>(from + cnt, kMemItems);
                    from = std::max<int64_t>(from, 0);
                    if (to > from) {
                        if ((r.steps += (to - from) / 16) > opt.budget || to - from > opt.max_mem_ops) throw Budget{};
                        s.local.fill(from, to, xx);
                    }
                }
                return pol == LATE ? d : rv(dd);
            }
            case MEMCPY: {
                V d = operand(a[0]), x = operand(a[1]), c = operand(a[2]);
                double dd = d.get();
                int64_t to = whole(dd), from = whole(x.get()), cnt = whole(c.get());
                if (cnt > 0) {
                    int64_t lo = std::max<int64_t>(0, std::max(-to, -from));
                    int64_t hi = std::min<int64_t>(cnt, std::min((int64_t) kMemItems - to, (int64_t) kMemItems - from));
                    if (hi > lo) {
                        if ((r.steps += (hi - lo) / 8) > opt.budget || hi - lo > opt.max_mem_ops) throw Budget{};
                        std::vector<double> tmp;
                        for (int64_t i = lo; i < hi; i++) tmp.push_back(s.local.get((int) (from + i)));
                        for (int64_t i = lo; i < hi; i++) s.local.set((int) (to + i), tmp[(size_t) (i - lo)]);
                    }
                }
                return pol == LATE ? d : rv(dd);
            }
            case RAND: {
                double m = step_and_get(a[0]);
                if (!s.rng) { unjudged("rand"); return rv(0); }
                if (!(std::fabs(m) < 1e15)) unjudged("rand argument");
                double f = std::floor(m);
                if (f < 1) f = 1;
                return inexact((*s.rng)() * (1.0 / 4294967295.0) * f);
            }
            default: break;
        }
        if (a.size() == 1) return unary(n->fn, step_and_get(a[0]));
        V x = operand(a[0]), y = operand(a[1]);
        return binary(n->fn, x.get(), y.get());
    }
    V unary(Fn f, double x) {
        switch (f) {
            case NOT: return rv(!truth(x));
            case NEG: return rv(-x);
            case SIN: return inexact(std::sin(angle(x)));
            case COS: return inexact(std::cos(angle(x)));
            case TAN: return inexact(std::tan(angle(x)));
            case ASIN: return inexact(std::asin(x));
            case ACOS: return inexact(std::acos(x));
            case ATAN: return inexact(std::atan(x));
            case SQR: { V v = exact(x * x); if (x != std::floor(x) || std::fabs(x) > 9e7) r.rounded = true; return v; }
            case SQRT: return inexact(std::sqrt(x));
            case EXP: return inexact(std::exp(x));
            case LOG: return inexact(std::log(x));
            case LOG10: return inexact(std::log10(x));
            case ABS: return rv(std::fabs(x));
            case SIGN: if (std::isnan(x)) unjudged("NaN compared"); return rv(x > 0 ? 1 : x < 0 ? -1 : 0);
            case FLOOR: return rv(std::floor(x));
            case CEIL: return rv(std::ceil(x));
            case INT: return rv(pol == LATE || opt.pert_mode ? std::floor(x) : std::trunc(x));  // negative fractions: either
            case INVSQRT: unjudged("invsqrt"); return rv(1 / std::sqrt(x));
            default: unjudged("?"); return rv(0);
        }
    }
    void cmp(double x, double y) { if (std::isnan(x) || std::isnan(y)) unjudged("NaN compared"); }
    V sum(double x, double y) {
        double z = x + y;
        if (opt.perturb_all && z != 0 && std::fabs(z) < 1e-5 * std::max(std::fabs(x), std::fabs(y))) unjudged("cancellation");
        return exact(z);
    }
    V binary(Fn f, double x, double y) {
        switch (f) {
            case ADD: return sum(x, y);
            case SUB: return sum(x, -y);
            case MUL: return exact(x * y);
            case DIV:
                if (y != 0 && std::fabs(y) < 1e-290) unjudged("division by almost zero");
                if (std::isnan(y)) unjudged("NaN divisor");
                return y == 0 ? rv(0) : inexact(x / y);
            case MOD: {
                int d = toint(y), v = toint(x);
                if (d == 0) return rv(0);
                return exact((double) ((long long) v % d));
            }
            case BITAND: return exact((double) (toint(x) & toint(y)));
            case BITOR: return exact((double) (toint(x) | toint(y)));
            case POW: return inexact(std::pow(x, y));
            case EQ: case NE: {
                cmp(x, y);
                if (std::isinf(x) && std::isinf(y)) unjudged("infinities compared");
                double d = std::fabs(x - y);
                if (d != 0 && (d < 1e-290 || (opt.perturb_all && d < 1e-5 * std::max(std::fabs(x), std::fabs(y))))) unjudged("almost equal");
                return rv(f == EQ ? x == y : x != y);
            }
            case LT: cmp(x, y); return rv(x < y);
            case GT: cmp(x, y); return rv(x > y);
            case LE: cmp(x, y); return rv(x <= y);
            case GE: cmp(x, y); return rv(x >= y);
            case ATAN2: return inexact(std::atan2(x, y));
            case MIN: cmp(x, y); return rv(x < y ? x : y);
            case MAX: cmp(x, y); return rv(x > y ? x : y);
            case SIGMOID: {
                double e = std::exp(-x * y);
                if (std::isnan(e)) unjudged("NaN in sigmoid");
                return inexact(1 / (1 + e));
            }
            case BAND: { bool p = truth(x, 1.1e-5), q = truth(y, 1.1e-5); return rv(p && q); }
            case BOR: { bool p = truth(x, 1.1e-5), q = truth(y, 1.1e-5); return rv(p || q); }
            default: unjudged("?"); return rv(0);
        }
    }
};
}  // namespace

Result run(const NodeP& program, State& s, Policy pol, const Options& opt) {
    Eval e(s, pol, opt);
    if (!program) return e.r;
    try {
        V v = e.ev(program);
        e.r.value = v.get();
    } catch (Budget&) {
        e.r.out_of_budget = true;
    }
    return e.r;
}

double apply_pure(Fn f, double a, double b, std::string* why) {
    State s;
    Options o;
    Eval e(s, LATE, o);
    double v = fn_arity(f) == 1 ? e.unary(f, a).val : e.binary(f, a, b).val;
    if (why) *why = e.r.unjudged;
    return v;
}

}  // namespace model
