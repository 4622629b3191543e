#include "lang.hpp"

#include <charconv>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>

namespace lang {

const FnName kFunctions[] = {
    {"if", IF, 3}, {"_if", IF, 3}, {"_and", AND, 2}, {"_or", OR, 2}, {"loop", LOOP, 2}, {"while", WHILE, 1},
    {"bnot", NOT, 1}, {"_not", NOT, 1}, {"equal", EQ, 2}, {"_equal", EQ, 2}, {"_noteq", NE, 2},
    {"below", LT, 2}, {"_below", LT, 2}, {"above", GT, 2}, {"_above", GT, 2}, {"_beleq", LE, 2}, {"_aboeq", GE, 2},
    {"assign", SET, 2}, {"_set", SET, 2}, {"_add", ADD, 2}, {"_sub", SUB, 2}, {"_mul", MUL, 2}, {"_div", DIV, 2},
    {"_mod", MOD, 2}, {"_addop", ADDOP, 2}, {"_subop", SUBOP, 2}, {"_mulop", MULOP, 2}, {"_divop", DIVOP, 2},
    {"_modop", MODOP, 2}, {"_orop", OROP, 2}, {"_andop", ANDOP, 2}, {"_powop", POWOP, 2},
    {"sin", SIN, 1}, {"cos", COS, 1}, {"tan", TAN, 1}, {"asin", ASIN, 1}, {"acos", ACOS, 1}, {"atan", ATAN, 1},
    {"atan2", ATAN2, 2}, {"sqr", SQR, 1}, {"sqrt", SQRT, 1}, {"pow", POW, 2}, {"exp", EXP, 1}, {"_neg", NEG, 1},
    {"log", LOG, 1}, {"log10", LOG10, 1}, {"abs", ABS, 1}, {"min", MIN, 2}, {"max", MAX, 2}, {"sign", SIGN, 1},
    {"rand", RAND, 1}, {"floor", FLOOR, 1}, {"int", INT, 1}, {"ceil", CEIL, 1}, {"invsqrt", INVSQRT, 1},
    {"sigmoid", SIGMOID, 2}, {"band", BAND, 2}, {"bor", BOR, 2}, {"exec2", EXEC2, 2}, {"exec3", EXEC3, 3},
    {"megabuf", MEM, 1}, {"_mem", MEM, 1}, {"gmegabuf", GMEM, 1}, {"_gmem", GMEM, 1}, {"freembuf", FREEMBUF, 1},
    {"memcpy", MEMCPY, 3}, {"memset", MEMSET, 3},
};
const int kFunctionCount = sizeof kFunctions / sizeof kFunctions[0];

std::string lower(const std::string& s) {
    std::string r = s;
    for (char& c : r) if (c >= 'A' && c <= 'Z') c = (char) (c - 'A' + 'a');
    return r;
}
const FnName* find_function(const std::string& name) {
    std::string l = lower(name);
    for (int i = 0; i < kFunctionCount; i++) if (l == kFunctions[i].name) return &kFunctions[i];
    return nullptr;
}
int fn_arity(Fn f) {
    for (int i = 0; i < kFunctionCount; i++) if (kFunctions[i].fn == f) return kFunctions[i].arity;
    if (f == BITAND || f == BITOR) return 2;
    return 0;
}
const char* fn_name(Fn f) {
    for (int i = 0; i < kFunctionCount; i++) if (kFunctions[i].fn == f) return kFunctions[i].name;
    return nullptr;
}
std::vector<const char*> fn_aliases(Fn f) {
    std::vector<const char*> r;
    for (int i = 0; i < kFunctionCount; i++) if (kFunctions[i].fn == f) r.push_back(kFunctions[i].name);
    return r;
}
bool is_assign(Fn f) { return f >= SET && f <= POWOP; }

NodeP num(double v) { auto n = std::make_shared<Node>(); n->fn = NUMLIT; n->num = v; return n; }
NodeP numlit(double v, const std::string& sp) { auto n = num(v); n->name = sp; return n; }
NodeP var(const std::string& s) { auto n = std::make_shared<Node>(); n->fn = VARREF; n->name = s; return n; }
NodeP mk(Fn f, std::vector<NodeP> a) { auto n = std::make_shared<Node>(); n->fn = f; n->a = std::move(a); return n; }
NodeP list(std::vector<NodeP> a) { return mk(LIST, std::move(a)); }
NodeP clone(const NodeP& x) {
    auto n = std::make_shared<Node>(*x);
    for (auto& c : n->a) c = clone(c);
    return n;
}
static const Node* strip(const Node* n) {
    while (n->fn == LIST && n->a.size() == 1) n = n->a[0].get();
    return n;
}
static bool same_n(const Node* x, const Node* y) {
    x = strip(x); y = strip(y);
    if (x->fn != y->fn) return false;
    if (x->fn == NUMLIT) return x->num == y->num;
    if (x->fn == VARREF) return lower(x->name) == lower(y->name);
    if (x->a.size() != y->a.size()) return false;
    for (size_t i = 0; i < x->a.size(); i++) if (!same_n(x->a[i].get(), y->a[i].get())) return false;
    return true;
}
bool same(const NodeP& x, const NodeP& y) {
    if (!x || !y) return !x && !y;
    return same_n(x.get(), y.get());
}
int count_nodes(const NodeP& n) {
    int c = 1;
    for (auto& k : n->a) c += count_nodes(k);
    return c;
}
std::string num_text(double v) {
    char b[400];
    for (int p = 1; p <= 17; p++) {
        snprintf(b, sizeof b, "%.*g", p, v);
        if (strtod(b, nullptr) == v) break;
    }
    return b;
}

// ---------------------------------------------------------------- lexer

static bool dig(char c) { return c >= '0' && c <= '9'; }
static bool hexd(char c) { return dig(c) || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); }
static bool nstart(char c) { return c == '_' || (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }

double literal_value(const std::string& s) {
    if (s[0] != '$') {
        double v = 0;
        std::string t = s;
        auto r = std::from_chars(t.data(), t.data() + t.size(), v, std::chars_format::general);
        if (r.ec == std::errc()) return v;
        return strtod(t.c_str(), nullptr);  // out of range: infinity or (near) zero; the harness runs in the C locale
    }
    if (s[1] == '\'') return (double) (signed char) s[2];
    if (s[1] == 'x' || s[1] == 'X') {
        unsigned long long v = 0;
        for (size_t i = 2; i < s.size(); i++) {
            int d = dig(s[i]) ? s[i] - '0' : (s[i] | 32) - 'a' + 10;
            v = v * 16 + (unsigned) d;
        }
        return (double) v;
    }
    std::string l = lower(s);
    if (l == "$pi") return 3.141592653589793;
    if (l == "$e") return 2.71828183;
    return 1.61803399;
}

LexResult lex(const std::string& t) {
    LexResult r;
    size_t i = 0, n = t.size();
    int line = 1, col = 1;
    auto adv = [&](size_t k) {
        for (size_t j = 0; j < k; j++) { if (t[i + j] == '\n') { line++; col = 1; } else col++; }
        i += k;
    };
    auto at = [&](size_t k) { return k < n ? t[k] : '\0'; };
    while (i < n) {
        char c = t[i];
        if (c == ' ' || c == '\t' || c == '\r' || c == '\n' || c == '\v' || c == '\f') { adv(1); continue; }
        if (c == '/' && at(i + 1) == '/') {
            while (i < n && t[i] != '\n') adv(1);
            if (i < n) adv(1);
            continue;
        }
        if (c == '/' && at(i + 1) == '*') {
            adv(2);
            while (i < n && !(t[i] == '*' && at(i + 1) == '/')) adv(1);
            if (i < n) adv(2); else r.unterminated_comment = true;
            continue;
        }
        Tok k;
        k.line = line; k.col = col;
        size_t len = 1;
        k.kind = T_BAD;
        if (c == '$') {
            char d = at(i + 1);
            if ((d == 'x' || d == 'X') && hexd(at(i + 2))) {
                len = 3;
                while (hexd(at(i + len))) len++;
                k.kind = T_NUM;
            } else if (d == '\'' && i + 3 < n && t[i + 2] != '\n' && t[i + 3] == '\'') { len = 4; k.kind = T_NUM; }
            else if ((d | 32) == 'p' && (at(i + 2) | 32) == 'i') { len = 3; k.kind = T_NUM; }
            else if ((d | 32) == 'p' && (at(i + 2) | 32) == 'h' && (at(i + 3) | 32) == 'i') { len = 4; k.kind = T_NUM; }
            else if ((d | 32) == 'e') { len = 2; k.kind = T_NUM; }
        } else if (dig(c) || (c == '.' && dig(at(i + 1)))) {
            len = 0;
            while (dig(at(i + len))) len++;
            if (at(i + len) == '.') { len++; while (dig(at(i + len))) len++; }
            if ((at(i + len) | 32) == 'e') {
                size_t m = len + 1;
                if (at(i + m) == '+' || at(i + m) == '-') m++;
                if (dig(at(i + m))) { while (dig(at(i + m))) m++; len = m; }
            }
            k.kind = T_NUM;
        } else if (nstart(c)) {
            while (nstart(at(i + len)) || dig(at(i + len))) len++;
            std::string w = t.substr(i, len);
            if (lower(w) == "gmem") k.kind = T_GMEM;
            else k.kind = find_function(w) ? T_FUNC : T_VAR;
        } else {
            static const char* two[] = {"+=", "-=", "%=", "|=", "&=", "/=", "*=", "^=", "==", "<=", ">=", "!=", "||", "&&"};
            std::string w = t.substr(i, 2);
            for (auto* o : two) if (w == o) { len = 2; k.kind = T_OP; }
            if (len == 1 && c != '\0' && strchr("<>+-*/%^&|!=()[]?:,;", c)) k.kind = T_OP;
        }
        k.text = t.substr(i, len);
        if (k.kind == T_NUM) k.num = literal_value(k.text);
        adv(len);
        r.toks.push_back(k);
    }
    Tok e;
    e.kind = T_END; e.line = line; e.col = col;
    r.toks.push_back(e);
    return r;
}

// ---------------------------------------------------------------- parser

struct OpInfo { const char* op; int prec; bool right; Fn fn; };
static const OpInfo kInfix[] = {
    {"=", 1, true, SET}, {"+=", 2, true, ADDOP}, {"-=", 2, true, SUBOP}, {"*=", 3, true, MULOP}, {"/=", 3, true, DIVOP},
    {"%=", 3, true, MODOP}, {"^=", 4, true, POWOP}, {"|=", 4, true, OROP}, {"&=", 4, true, ANDOP}, {"?", 5, true, IF},
    {"||", 6, false, OR}, {"&&", 7, false, AND}, {"|", 8, false, BITOR}, {"&", 9, false, BITAND},
    {"==", 10, false, EQ}, {"!=", 10, false, NE}, {">", 11, false, GT}, {">=", 11, false, GE}, {"<", 12, false, LT},
    {"<=", 12, false, LE}, {"-", 13, false, SUB}, {"+", 13, false, ADD}, {"*", 14, false, MUL}, {"/", 14, false, DIV},
    {"%", 15, false, MOD}, {"^", 17, false, POW},
};
constexpr int kPrecNot = 16, kPrecNeg = 18, kPrecIndex = 19, kPrecPrimary = 20;

static const OpInfo* infix(const Tok& t) {
    if (t.kind != T_OP) return nullptr;
    for (auto& o : kInfix) if (t.text == o.op) return &o;
    return nullptr;
}
static const OpInfo* infix_fn(Fn f) {
    for (auto& o : kInfix) if (o.fn == f) return &o;
    return nullptr;
}

namespace {
struct Err {};
struct Parser {
    const std::vector<Tok>& t;
    ParseResult& r;
    size_t p = 0;
    int depth = 0;
    Parser(const std::vector<Tok>& tt, ParseResult& rr) : t(tt), r(rr) {}
    const Tok& cur() const { return t[p]; }
    bool is(const char* o) const { return t[p].kind == T_OP && t[p].text == o; }
    [[noreturn]] void err() { r.err_tok = (int) p; throw Err{}; }
    void expect(const char* o) { if (!is(o)) err(); p++; }
    struct Depth {
        Parser& q;
        explicit Depth(Parser& pp) : q(pp) {
            if (++q.depth > q.r.max_depth) q.r.max_depth = q.depth;
            if (q.depth > 20000) { q.r.too_deep = true; throw Err{}; }
        }
        ~Depth() { q.depth--; }
    };

    NodeP prefix() {
        const Tok& k = cur();
        switch (k.kind) {
            case T_NUM: p++; return numlit(k.num, k.text);
            case T_VAR: p++; return var(k.text);
            case T_FUNC: {
                size_t start = p;
                const FnName* f = find_function(k.text);
                p++;
                expect("(");
                std::vector<NodeP> args;
                args.push_back(ilist());
                while (is(",")) { p++; args.push_back(ilist()); }
                expect(")");
                if ((int) args.size() != f->arity) {
                    r.err_tok = (int) start;
                    r.err_tok2 = (int) p;  // position after the call, where a further syntax error may be noticed first
                    r.arity = true;
                    r.expected = f->arity;
                    r.given = (int) args.size();
                    throw Err{};
                }
                NodeP n = mk(f->fn, args);
                auto al = fn_aliases(f->fn);
                for (size_t i = 0; i < al.size(); i++) if (lower(k.text) == al[i]) n->style = (int) i + 1;
                return n;
            }
            case T_GMEM: {
                p++;
                expect("[");
                if (is("]")) { p++; return mk(GMEM, {num(0)}); }
                NodeP i = expr(0);
                expect("]");
                return mk(GMEM, {i});
            }
            case T_OP:
                if (k.text == "(") { p++; NodeP l = ilist(); expect(")"); return l; }
                if (k.text == "-") { p++; return mk(NEG, {expr(kPrecNeg)}); }
                if (k.text == "+") { p++; return expr(kPrecNeg); }
                if (k.text == "!") { p++; return mk(NOT, {expr(kPrecNot)}); }
                err();
            default: err();
        }
    }
    NodeP expr(int minp) {
        Depth d(*this);
        NodeP l = prefix();
        for (;;) {
            if (is("[")) {
                // Binds tighter than every operator, so it always belongs to the operand parsed last.
                p++;
                if (is("]")) { p++; l = mk(MEM, {l}); continue; }
                NodeP i = expr(0);
                expect("]");
                l = mk(MEM, {mk(ADD, {l, i})});
                continue;
            }
            const OpInfo* o = infix(cur());
            if (!o || o->prec < minp) return l;
            p++;
            if (o->fn == IF) {
                NodeP b = expr(0);
                expect(":");
                NodeP c = expr(o->prec);
                l = mk(IF, {l, b, c});
                continue;
            }
            NodeP rr = expr(o->right ? o->prec : o->prec + 1);
            l = mk(o->fn, {l, rr});
        }
    }
    // instruction list; stops at the first token that cannot belong to it
    NodeP ilist() {
        Depth d(*this);
        std::vector<NodeP> v;
        v.push_back(expr(0));
        while (is(";")) {
            p++;
            if (is(";") || is(")") || is(",") || cur().kind == T_END) continue;
            if (is("(") && t[p + 1].kind == T_OP && t[p + 1].text == ")") {
                p += 2;
                if (is(";") || is(")") || is(",") || cur().kind == T_END) continue;
                err();
            }
            v.push_back(expr(0));
        }
        return v.size() == 1 ? v[0] : list(v);
    }
};
}  // namespace

ParseResult parse(const std::vector<Tok>& toks) {
    ParseResult r;
    if (toks[0].kind == T_END) { r.ok = true; return r; }
    Parser q(toks, r);
    try {
        NodeP l = q.ilist();
        if (q.cur().kind != T_END) q.err();
        r.ast = l;
        r.ok = true;
    } catch (Err&) {
        r.ok = false;
    }
    return r;
}
ParseResult parse_text(const std::string& text) { return parse(lex(text).toks); }

// ---------------------------------------------------------------- printer

namespace {
struct Printer {
    std::vector<std::string> out;
    bool full;
    explicit Printer(bool f) : full(f) {}
    void put(const std::string& s) { out.push_back(s); }

    static int prec_of(const Node* n, bool oper) {
        if (!oper) return kPrecPrimary;
        if (n->fn == NEG) return kPrecNeg;
        if (n->fn == NOT) return kPrecNot;
        if (n->fn == MEM) return kPrecIndex;
        if (auto* o = infix_fn(n->fn)) return o->prec;
        return kPrecPrimary;
    }
    static bool has_operator(const Node* n) {
        return n->fn == NEG || n->fn == NOT || n->fn == MEM || n->fn == GMEM || infix_fn(n->fn);
    }
    void literal(const Node* n) {
        if (!n->name.empty()) { put(n->name); return; }
        double v = n->num;
        put(num_text(v));
    }
    // list contents without surrounding parentheses
    void body(const Node* n) {
        if (n->fn == LIST && !(n->a.size() == 1)) {
            for (size_t i = 0; i < n->a.size(); i++) { if (i) put(";"); expr(n->a[i].get(), 0); }
        } else if (n->fn == LIST) body(n->a[0].get());
        else expr(n, 0);
    }
    void parens(const Node* n) { put("("); body(n); put(")"); }
    void expr(const Node* n, int minp) {
        if (n->fn == LIST) { parens(n); return; }
        if (n->fn == VARREF) { if (n->paren) { put("("); put(n->name); put(")"); } else put(n->name); return; }
        if (n->fn == NUMLIT) { if (n->paren) put("("); literal(n); if (n->paren) put(")"); return; }
        bool oper = (n->style == 0 && has_operator(n)) || n->fn == BITAND || n->fn == BITOR;
        int pr = prec_of(n, oper);
        bool need = pr < minp || n->paren || (full && oper && minp > 0);
        if (need) put("(");
        if (!oper) {
            auto al = fn_aliases(n->fn);
            int k = n->style > 0 ? (n->style - 1) % (int) al.size() : 0;
            put(al[k]);
            put("(");
            for (size_t i = 0; i < n->a.size(); i++) { if (i) put(","); body(n->a[i].get()); }
            put(")");
        } else if (n->fn == NEG) { put("-"); expr(n->a[0].get(), kPrecNeg); }
        else if (n->fn == NOT) { put("!"); expr(n->a[0].get(), kPrecNot); }
        else if (n->fn == GMEM) {
            put("gmem"); put("[");
            if (n->a[0]->fn == LIST) parens(n->a[0].get()); else expr(n->a[0].get(), 0);
            put("]");
        } else if (n->fn == MEM) {
            const Node* i = n->a[0].get();
            if (i->fn == ADD && i->style == 0 && !i->paren) {
                // base[offset]
                index_base(i->a[0].get());
                put("[");
                if (i->a[1]->fn == LIST) parens(i->a[1].get()); else expr(i->a[1].get(), 0);
                put("]");
            } else { index_base(i); put("["); put("]"); }
        } else if (n->fn == IF) {
            expr(n->a[0].get(), 6);
            put("?");
            expr(n->a[1].get(), full ? 1 : 0);
            put(":");
            expr(n->a[2].get(), full ? 6 : 5);
        } else {
            const OpInfo* o = infix_fn(n->fn);
            expr(n->a[0].get(), o->right ? o->prec + 1 : o->prec);
            put(o->op);
            expr(n->a[1].get(), o->right ? o->prec : o->prec + 1);
        }
        if (need) put(")");
    }
    void index_base(const Node* n) {
        // "gmem" is only a base in its own syntax; everything else below index precedence needs parentheses
        expr(n, kPrecIndex);
    }
};
}  // namespace

std::vector<std::string> to_tokens(const NodeP& n) {
    Printer p(false);
    if (n) p.body(n.get());
    return p.out;
}
std::vector<std::string> to_tokens_full(const NodeP& n) {
    Printer p(true);
    if (n) p.body(n.get());
    return p.out;
}
bool need_space(const std::string& a, const std::string& b) {
    auto l = lex(a + b);
    return !(l.toks.size() == 3 && !l.unterminated_comment && l.toks[0].text == a && l.toks[1].text == b);
}
std::string join(const std::vector<std::string>& toks) {
    std::string s;
    for (size_t i = 0; i < toks.size(); i++) {
        if (i && need_space(toks[i - 1], toks[i])) s += ' ';
        s += toks[i];
    }
    return s;
}
std::string print(const NodeP& n) { return join(to_tokens(n)); }

std::string escape(const std::string& s) {
    std::string o;
    for (unsigned char c : s) {
        if (c == '\n') o += "\\n";
        else if (c == '\\') o += "\\\\";
        else if (c < 0x20 || c >= 0x7f) { char b[8]; snprintf(b, sizeof b, "\\x%02x", c); o += b; }
        else o += (char) c;
    }
    return o;
}

}  // namespace lang
