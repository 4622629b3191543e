// C01 C07 C17: program texts, literals, error reports
#include "common.hpp"

#include <charconv>
#include <cmath>
#include <limits>

using namespace lang;

namespace {

// ------------------------------------------------------------------------------------------- C01
std::string valid_text(Case& k, bool layout) {
    gen::Opt o;
    o.max_depth = k.range(1, 5);
    o.max_nodes = 60;
    Gen g(k, o);
    NodeP p = g.program();
    return layout && k.chance(1, 2) ? gen::random_layout(k, to_tokens(p)) : print(p);
}
std::string raw_text(Case& k) {
    std::string s;
    for (int i = 0; i < 3000; i++) {
        char c = (char) k.draw(256);
        if (!c) break;
        s += c;
    }
    return s;
}
std::string repeated(Case& k) {
    static const char* pre[] = {"(", "sin(", "a[", "gmem[", "-", "!", "a=", "1?", "1?2:", "a+", "a^", "1+", "a;", "1;", ";", "/", "/*", "//", "*", "$", "$'", "9", "x", "a,", "pow(a,", "if(a,b,", "exec3(a,b,(",
                                "if(a,", "((1;", "1;()", "()", "\n", "\t", "a=b+=", "a*(", ".", "1.", "1e", "$x", "$xF", "\xff", "band(a,", "a[b[", "-(", "[", "]", ")", "a||", "a&&", "a%", "e", "E5", "_", "while(", "/**/", "//\n", "'",
                                "\"", "memset(a,b,", "a=(b;", "0", "megabuf(", "+", "!-", "a ", "if(1,2,3);"};
    static const char* post[] = {")", "]", ",1)", ":1", "", "1", "a", ")]", ",b)", ";", "*/", "\n"};
    std::string p = k.pick(pre), q = k.pick(post), mid = k.chance(1, 2) ? "a" : k.chance(1, 2) ? "1" : "";
    int n = 0;
    switch (k.weighted({6, 4, 2, 1})) {
        case 0: n = k.range(1, 40); break;
        case 1: n = k.range(40, 400); break;
        case 2: n = k.range(400, 6000); break;
        default: n = k.range(6000, 33000); break;
    }
    if (k.chance(1, 4)) n = gen::boundary(k, 33000);
    if (k.chance(1, 8)) { // a call with far too many arguments, perhaps inside of others
        std::string f = kFunctions[k.draw((uint32_t) kFunctionCount)].name;
        if (lower(f) == "loop" || lower(f) == "while") f = "sin";
        std::string arg = k.pick({"1", "a", "a=b", "(1;2)"}), s = k.pick({"", "a=", "1;", "sin("}) + f + "(";
        n = std::min<int>(gen::boundary(k, 66000), 65000 / ((int) arg.size() + 1));
        for (int i = 0; i < n; i++) s += (i ? "," : "") + arg;
        return s + ")" + k.pick({"", ";a=2", ")"});
    }
    n = std::min<int>(n, 32000 / (int) p.size());
    std::string s = k.chance(1, 5) ? "a=1;" : "";
    if (p == "while(") n = std::min(n, 1);
    for (int i = 0; i < n; i++) s += p;
    s += mid;
    int m = k.chance(3, 4) ? n : k.range(0, n + 1);
    if (q.size() * (size_t) m > 32000) m = 32000 / (int) q.size();
    if (k.chance(3, 4)) for (int i = 0; i < m; i++) s += q;
    if (k.chance(1, 6)) s += ";a=2";
    return s;
}
void run_c01(Case& k) {
    int mode = k.weighted({40, 20, 40, 50, 60, 40});
    std::string text;
    switch (mode) {
        case 0: text = raw_text(k); k.label("raw bytes"); break;
        case 1: {
            static const char chars[] = "abgmes019.$x'()[],;:?=+-*/%^&|!<> \n\tEe_PI#\"\\~\r";
            int n = k.range(1, 120);
            for (int i = 0; i < n; i++) text += chars[k.draw(sizeof chars - 1)];
            k.label("language characters");
            break;
        }
        case 2: {
            int n = k.range(1, 60);
            if (k.chance(1, 40)) {   // nothing but separators
                static const char* sep[] = {" ", "\n", "\t", "\r\n", ";", "()", "/**/", "/*;*/", "//\n", "// a\n", "(;)"};
                n %= 6;
                for (int i = 0; i < n; i++) text += k.pick(sep);
                k.label("separators only");
                break;
            }
            for (int i = 0; i < n; i++) {
                text += k.chance(1, 20) ? gen::bad_token(k) : gen::soup_token(k);
                if (k.chance(1, 3)) text += k.chance(1, 6) ? "\n" : " ";
            }
            k.label("token soup");
            break;
        }
        case 3: {
            text = valid_text(k, true);
            int n = k.range(1, 4);
            for (int i = 0; i < n && !text.empty(); i++) {
                size_t p = k.draw((uint32_t) text.size());
                switch (k.range(0, 4)) {
                    case 0: text[p] = (char) (1 + k.draw(255)); break;
                    case 1: text.erase(p, (size_t) k.range(1, 6)); break;
                    case 2: text.insert(p, 1, (char) (1 + k.draw(255))); break;
                    case 3: text.resize(p); break;
                    default: { size_t q = k.draw((uint32_t) text.size()); text.insert(p, text.substr(q, (size_t) k.range(1, 30))); break; }
                }
            }
            k.label("valid program, bytes edited");
            break;
        }
        case 4: text = repeated(k); k.label("repeated structure"); break;
        default: {
            gen::Opt o;
            o.max_depth = k.range(1, 5);
            Gen g(k, o);
            auto t = to_tokens(g.program());
            gen::mutate_tokens(k, t, k.range(0, 4));
            text = gen::random_layout(k, t);
            k.label("valid program, tokens edited");
        }
    }
    for (char& c : text) if (!c) c = ' ';
    if (mode == 5 && k.chance(1, 12)) text = gen::filler(k, gen::boundary(k, 66000)) + text;
    if (text.size() > 72000) text.resize(72000);
    if (gen::loop_words(text) > 16 || gen::may_loop_long(text)) k.skip("nested constant loops");
    k.note("%zu characters: ", text.size());
    k.note_str(escape(text));
    k.note("\n");

    static const char* names[] = {"", "", "", "de_DE.UTF-8", "tr_TR.UTF-8"};
    Ctx c;
    double *a = c.var("a"), *b = c.var("b");
    *a = 3; *b = -1.5;
    long out = eng::stdout_bytes(), err = eng::stderr_bytes();
    projectm_eval_code* h;
    {
        LocaleGuard loc(k.chance(1, 8) ? names[k.range(3, 4)] : "");
        h = c.compile(text);
    }
    if (eng::stdout_bytes() != out) k.fail("compiling wrote to the standard output: %s", escape(eng::captured(1)).c_str());
    if (eng::stderr_bytes() != err) k.fail("compiling wrote to the standard error output: %s", escape(eng::captured(2)).c_str());
    if (!host::lock_error().empty()) k.fail("%s", host::lock_error().c_str());
    int line = -1, col = -1;
    const char* e = projectm_eval_get_error(c.c, &line, &col);
    if (h && e) k.fail("a handle was returned but there is an error: %s", e);
    if (!h && !e) k.fail("neither a handle nor an error");
    if (e && !*e) k.fail("empty error message");
    if (*a != 3 || *b != -1.5) k.fail("compiling changed a variable");
    k.label(h ? "accepted" : "refused");
    if (!h) { // a refused program is NULL: running or destroying it does nothing
        double v = projectm_eval_code_execute(h);
        if (v != 0) k.fail("executing NULL returned %.17g", v);
        projectm_eval_code_destroy(h);
    }
    if (!h && text.size() < 1000 && !gen::loop_words(text) && k.chance(1, 10)) {
        for (int i = gen::boundary(k, 300); i > 0; i--) {
            projectm_eval_code* again = c.compile(text);
            if (again) k.fail("refused at first, but accepted later");
            if (c.error().empty()) k.fail("neither a handle nor an error at a later time");
        }
        k.label("refused again and again");
    }
    if (h) {
        // a text without anything to execute yields a handle like any other
        bool empty = true;
        for (auto& x : lang::lex(text).toks)
            if (x.kind != lang::T_END && x.text != ";" && x.text != "(" && x.text != ")") empty = false;
        if (empty) {
            double r = projectm_eval_code_execute(h);
            if (r != 0) k.fail("a program without instructions returned %.17g", r);
            k.label("nothing to execute");
        }
        projectm_eval_code_destroy(h);
    }
    // the context is as good as before
    Code v(c, "zz=zz+a*2; megabuf(3)=zz-b; megabuf(3)+if(zz,4,5)");
    if (!v) k.fail("after the text, a valid program was refused: %s", c.error().c_str());
    for (int i = 1; i <= 2; i++) {
        double r = v.run(), z = *c.var("zz");
        if (r != 6 * i + 1.5 + 4 || z != 6 * i || *a != 3 || *b != -1.5) k.fail("after the text, a valid program gave %.17g (zz=%.17g)", r, z);
    }
    if (text.size() >= 2) k.nontrivial();
}
std::vector<std::string> c01_seeds() {
    std::vector<std::string> r;
    for (const char* t : {"a=1;b=a+2*sin(c)", "if(above(a,1),b=2,gmem[3]=4)", "loop(4,megabuf(a+=1)=$x1f)", "a[]=1;a[2]+=3;gmem[]-=2", "/* c */ a // d\n;()", "a?b:c||d&&!e^-2", "memset(1,2,3);memcpy(1,2,3);freembuf(1)",
                          "1.5e3+$pi*$'c'%reg01", "exec3(a=1,b,(c;d;))", "while(a-=1)", "a|=b;a&=c;a%=d;a^=2", "sin(1,2)", "a b", "((((1))))"})
        r.push_back(std::string(1, '\0') + t);
    return r;
}

// ------------------------------------------------------------------------------------------- C07
struct Lit { std::string text; double value; const char* kind; };

double dec_value(const std::string& t) {
    double v = 0;
    auto r = std::from_chars(t.data(), t.data() + t.size(), v, std::chars_format::general);
    if (r.ec == std::errc()) return v;
    return strtod(t.c_str(), nullptr);   // overflow and underflow; evaluated in the C locale
}
std::string spell(Case& k, const std::string& s) {   // equal-valued variations of a decimal spelling
    std::string r = s;
    if (k.chance(1, 6)) r = std::string((size_t) k.range(1, 30), '0') + r;
    size_t e = r.find_first_of("eE");
    bool dot = r.find('.') != std::string::npos;
    if (e == std::string::npos && dot && k.chance(1, 6)) r += std::string((size_t) k.range(1, 60), '0');
    if (e != std::string::npos) {
        if (k.chance(1, 2)) r[e] = r[e] == 'e' ? 'E' : 'e';
        if (isdigit((unsigned char) r[e + 1]) && k.chance(1, 3)) r.insert(e + 1, "+");
        if (k.chance(1, 6)) r.insert(r.find_first_of("0123456789", e), (size_t) k.range(1, 4), '0');
    }
    return r;
}
std::string digits(Case& k, int n) {
    std::string s;
    for (int i = 0; i < n; i++) s += (char) ('0' + k.draw(10));
    return s;
}
double any_positive(Case& k) {
    uint64_t b = k.bits(63);
    switch (k.weighted({3, 2, 1, 1})) {
        case 0: b = (b & 0x800fffffffffffffull) | ((uint64_t) k.range(1023 - 80, 1023 + 80) << 52); break;
        case 1: b = (b & 0xfffffffffffffull) | ((uint64_t) k.range(1, 2046) << 52); break;
        case 2: b &= 0xfffffffffffffull; break;   // subnormal
        default: b = ((uint64_t) k.range(1, 2046) << 52) | (k.chance(1, 2) ? 0 : 0xfffffffffffffull); break;
    }
    b &= 0x7fffffffffffffffull;
    double d;
    memcpy(&d, &b, 8);
    return std::isfinite(d) ? d : 1.5;
}
Lit random_lit(Case& k) {
    Lit l;
    switch (k.weighted({4, 3, 3, 3, 1, 4, 3, 2})) {
        case 0: // short
            l.text = digits(k, k.range(0, 4));
            if (l.text.empty() || k.chance(1, 2)) l.text += "." + digits(k, k.range(l.text.empty() ? 1 : 0, 4));
            if (k.chance(1, 3)) l.text += std::string("e") + (k.chance(1, 2) ? "-" : "") + digits(k, k.range(1, 2));
            l.kind = "short decimals";
            break;
        case 1: { // shortest or exact spelling of a double
            char b[64];
            double d = any_positive(k);
            snprintf(b, sizeof b, k.chance(1, 2) ? "%.17g" : "%.20e", d);
            l.text = b;
            size_t e = l.text.find("e+");
            if (e != std::string::npos && k.chance(1, 2)) l.text.erase(e + 1, 1);
            l.kind = "17 to 21 digits";
            break;
        }
        case 2: { // exactly between two neighbouring doubles, or just beside
            double d = any_positive(k);
            double n = std::nextafter(d, std::numeric_limits<double>::infinity());
            if (std::isinf(n)) { d = 1.0; n = std::nextafter(1.0, 2.0); }
            long double m = ((long double) d + (long double) n) / 2;
            std::vector<char> b(2400);
            snprintf(b.data(), b.size(), "%.1200Le", m);
            l.text = b.data();
            size_t e = l.text.find('e');
            std::string man = l.text.substr(0, e), ex = l.text.substr(e);
            while (man.size() > 2 && man.back() == '0') man.pop_back();
            int how = k.range(0, 2);
            if (how == 1) man += std::string((size_t) k.range(0, 12), '0') + "1";
            else if (how == 2 && man.back() != '.') { man.back() = (char) (man.back() - 1); man += std::string((size_t) k.range(1, 12), '9'); }
            l.text = man + ex;
            l.kind = "halfway between two doubles";
            break;
        }
        case 3: { // many digits
            l.text = digits(k, k.range(1, k.chance(1, 4) ? 400 : 40));
            if (k.chance(2, 3)) l.text += "." + digits(k, k.range(0, k.chance(1, 4) ? 900 : 50));
            if (k.chance(1, 3)) l.text += std::string("E") + (k.chance(1, 2) ? "-" : "+") + std::to_string(k.range(0, 300));
            l.kind = "many digits";
            break;
        }
        case 4: { // range ends
            static const char* t[] = {"1.7976931348623157e308", "1.7976931348623158e308", "1.797693134862315807e308", "2e308", "1e309", "1e999", "1e9999", "4.9406564584124654e-324", "2.4703282292062327e-324", "2.4703282292062328e-324",
                                      "1e-400", "2.2250738585072014e-308", "2.2250738585072011e-308", "9007199254740993", "9007199254740992.5", "0e999", "0.0", "0", "00", "1e0", "1e-0", "1.e5", ".5", "5.", "18446744073709551616", "4294967296", "2147483648"};
            l.text = k.pick(t);
            l.kind = "range ends";
            break;
        }
        case 5: { // hexadecimal
            int n = k.range(1, 16);
            l.text = k.chance(1, 2) ? "$x" : "$X";
            if (k.chance(1, 6)) l.text += std::string((size_t) k.range(1, 20), '0');
            uint64_t v = 0;
            for (int i = 0; i < n; i++) {
                unsigned d = k.draw(16);
                l.text += "0123456789abcdef"[d];
                if (d >= 10 && k.chance(1, 2)) l.text.back() = (char) (l.text.back() - 32);
                v = v << 4 | d;
            }
            l.value = (double) v;
            l.kind = "hexadecimal";
            return l;
        }
        case 6: { // character
            int c = k.chance(4, 5) ? k.range(33, 126) : k.range(1, 127);
            if (c == '\n') c = '\r';
            l.text = std::string("$'") + (char) c + "'";
            l.value = c;
            l.kind = "characters";
            return l;
        }
        default: { // named constants
            int w = k.range(0, 2);
            l.text = gen::random_case(k, w == 0 ? "$pi" : w == 1 ? "$e" : "$phi");
            l.value = w == 0 ? 3.141592653589793 : w == 1 ? 2.71828183 : 1.61803399;
            l.kind = "named constants";
            return l;
        }
    }
    l.text = spell(k, l.text);
    l.value = dec_value(l.text);
    return l;
}
void run_c07(Case& k) {
    static const char* locs[] = {"", "de_DE.UTF-8", "tr_TR.UTF-8"};
    const char* loc = k.chance(1, 3) ? locs[k.range(1, 2)] : "";
    Ctx c;
    *c.var("one") = 1;
    int n = k.range(1, 4);
    std::vector<Lit> lits;
    for (int i = 0; i < n; i++) lits.push_back(random_lit(k));
    struct Want { std::string what; double v; };
    std::vector<Want> wants;
    std::string text;
    double result = 0;
    static const char* pad[] = {"", " ", "\n", "/*c*/"};
    for (int i = 0; i < n; i++) {
        const Lit& l = lits[i];
        k.label(l.kind);
        std::string v = "v" + std::to_string(i), L = k.pick(pad) + l.text + k.pick(pad);
        double x = l.value;
        bool neg = false;
        switch (k.weighted({4, 2, 2, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1})) {
            case 0: text += v + "=" + L; break;
            case 1: text += v + "=-" + L; neg = true; break;
            case 2: text += v + "=(" + L + ")"; break;
            case 3: text += v + "=" + L + "*one"; break;
            case 4: text += v + "=" + L + "+zero"; break;
            case 5: text += v + "=if(one," + L + ",7)"; break;
            case 6: text += v + "=one?" + L + ":7"; break;
            case 7: text += v + "=exec2(one," + L + ")"; break;
            case 8: text += "megabuf(" + std::to_string(i) + ")=" + L + ";" + v + "=megabuf(" + std::to_string(i) + ")"; break;
            case 9: text += v + "=max(" + L + "," + L + ")"; break;
            case 10: text += v + "=(zero;" + L + ")"; break;
            case 11: text += v + "+=" + L; break;
            case 12: text += v + "=abs(" + L + ")"; break;
            default: text += v + "=exec3(" + L + "," + L + ",+" + L + ")"; break;
        }
        wants.push_back({v, neg ? -x : x});
        text += ";";
    }
    bool last = k.chance(1, 2);
    if (last) { Lit l = random_lit(k); lits.push_back(l); text += l.text; result = l.value; }
    k.note("%s%s", *loc ? loc : "", *loc ? ": " : "");
    k.note_str(escape(text));
    k.note("\n");
    projectm_eval_code* h;
    double r = 0;
    {
        LocaleGuard g(loc);
        h = c.compile(text);
        if (h) {
            r = projectm_eval_code_execute(h);
            projectm_eval_code_destroy(h);
        }
    }
    if (!h) { int li, co; std::string e = c.error(&li, &co); k.fail("refused: %s (line %d column %d)", e.c_str(), li, co); }
    for (size_t i = 0; i < wants.size(); i++) {
        double x = *c.var(wants[i].what);
        double w = wants[i].v;
        if (!(x == w)) k.fail("the literal %s gave %.17g, expected %.17g", lits[i].text.c_str(), x, w);
    }
    if (last && !(r == result)) k.fail("the literal %s as result gave %.17g, expected %.17g", lits.back().text.c_str(), r, result);
    if (*loc) k.label("non-C locale");
    k.nontrivial();
}

// ------------------------------------------------------------------------------------------- C17
// The program up to and including a call with wrong arity, with the call replaced by a variable: does the token after
// the call offend as well?
bool next_offends_too(const std::vector<Tok>& toks, int start, int after) {
    std::vector<Tok> t(toks.begin(), toks.begin() + start);
    Tok v = toks[(size_t) start];
    v.kind = T_VAR; v.text = "vv";
    t.push_back(v);
    t.insert(t.end(), toks.begin() + after, toks.end());
    ParseResult r = parse(t);
    return !r.ok && !r.arity && r.err_tok == start + 1;
}
void run_c17(Case& k) {
    Ctx c;
    std::vector<std::string> vn = {"a", "b", "c", "x1", "q_2", "_t"};
    std::vector<int> slots = {0, 1, 2, 5, 65536};
    for (size_t i = 0; i < vn.size(); i++) *c.var(vn[i]) = (double) i + 1;
    for (int i : slots) { c.poke(false, i, i + 0.5); c.poke(true, i, i + 0.25); }
    // compiled code that must not be affected
    Code old(c, "u=u+1;megabuf(9)=u;sin(a)+b*u");
    double uses = 0;
    Snapshot before = snapshot(c, vn, slots);
    int n = k.range(1, 6), judged = 0;
    bool expect_error = false;
    for (int i = 0; i < n; i++) {
        std::vector<std::string> t;
        int mode = k.weighted({5, 3, 1, 2});
        if (mode == 1) {
            int len = k.range(1, 8);
            for (int q = 0; q < len; q++) t.push_back(k.chance(1, 20) ? gen::bad_token(k) : gen::soup_token(k));
        } else {
            gen::Opt o;
            o.max_depth = k.range(1, 4);
            o.max_nodes = 40;
            o.loops = false;
            Gen g(k, o);
            t = to_tokens(g.program());
            if (mode == 0) gen::mutate_tokens(k, t, 1);
            if (mode == 3) {
                std::vector<size_t> f;
                for (size_t q = 0; q < t.size(); q++) if (find_function(t[q])) f.push_back(q);
                if (!f.empty()) {
                    size_t q = f[k.draw((uint32_t) f.size())];
                    if (k.chance(1, 2)) t[q] = kFunctions[k.draw((uint32_t) kFunctionCount)].name;
                    else t.insert(t.begin() + (long) q + 2, {"a", ","});
                }
            }
        }
        if (k.chance(1, 4)) for (auto& w : t) if (!(w.size() > 1 && w[0] == '$' && w[1] == '\'') && k.chance(2, 3)) w = gen::random_case(k, w);
        std::string text;
        switch (k.weighted({2, 4, 2})) {
            case 0: text = join(t); break;
            case 1: text = gen::random_layout(k, t); break;
            default: for (auto& w : t) text += w + (k.chance(1, 3) ? "\n" : k.chance(1, 2) ? " " : "\t");
        }
        if (!k.chance(1, 8)) for (char& ch : text) if ((unsigned char) ch >= 0x80) ch = '~';
        if (i < 2 && k.chance(1, 12)) { // an error far away from the start of the text or of its line
            int at = gen::boundary(k, k.chance(1, 3) ? 70000 : 1100);
            std::string far;
            switch (k.weighted({6, 2, 2, 1, 1})) {
                case 0: far = gen::filler(k, at); break;
                case 1: for (int q = 0; q < at / 4; q++) far += "a=1;"; if (far.size() > 6000) far.resize(6000); break;
                case 2: for (int q = 0; q < at && q < 1100; q++) far += "a=b;\n"; break;
                case 3: far = "a=" + std::string((size_t) at, 'n') + ";"; break;
                default: far = "a=" + std::string((size_t) at, '3') + ";"; break;
            }
            if (text.size() < 3000) text = far + text;
            k.label("texts that begin with a lot of nothing");
        }
        if (gen::may_loop_long(text)) continue;
        auto lx = lex(text);
        if (lx.unterminated_comment) continue;
        ParseResult pr = parse(lx.toks);
        if (pr.max_depth > 1500) continue;
        k.note("text: ");
        k.note_str(escape(text));
        k.note("\n");
        projectm_eval_code* h = c.compile(text);
        if (h) projectm_eval_code_destroy(h);
        if (text.size() < 400 && k.chance(1, 40)) { // again and again
            int times = gen::boundary(k, 600);
            k.note("  %d times\n", times);
            for (int q = 0; q < times; q++) if (projectm_eval_code* g = c.compile(text)) projectm_eval_code_destroy(g);
            k.label("repeated many times");
        }
        int line = -7, col = -7;
        const char* e = projectm_eval_get_error(c.c, &line, &col);
        bool refused = !h;
        if (refused != !pr.ok) k.skip("acceptance differs");   // C05's business
        if (refused != (e != nullptr)) k.fail(e ? "an error is reported after a successful compilation: %s" : "no error is reported after a failed compilation%s", e ? e : "");
        expect_error = refused;
        if (!refused) { k.label("successes"); continue; }
        if (!*e) k.fail("the error message is empty");
        const Tok& tk = lx.toks[(size_t) pr.err_tok];
        if (projectm_eval_get_error(c.c, nullptr, nullptr) != e) k.fail("asking for the error without a place gives another message");
        int only_line = -9, only_col = -9;
        if (projectm_eval_get_error(c.c, &only_line, nullptr) != e || projectm_eval_get_error(c.c, nullptr, &only_col) != e) k.fail("asking for a part of the place gives another message");
        if (only_line != line || only_col != col) k.fail("line %d and column %d if asked for both, line %d or column %d if asked for one", line, col, only_line, only_col);
        if (k.chance(1, 4)) { // the report depends on nothing but the text
            Ctx other;
            if (projectm_eval_code* g = other.compile(text)) { projectm_eval_code_destroy(g); k.fail("refused, but accepted in a new context"); }
            int l2 = -9, c2 = -9;
            const char* e2 = projectm_eval_get_error(other.c, &l2, &c2);
            if (!e2 || strcmp(e, e2) != 0 || l2 != line || c2 != col) k.fail("reported: %s at line %d, column %d; in a new context: %s at line %d, column %d", e, line, col, e2 ? e2 : "nothing", l2, c2);
            // what another context compiles, or that it is destroyed, does not touch the report
            std::string kept = e;
            static const char* others[] = {"a=1", "a b", "\n\n  sin(1,2)", "a=(b", "", "x=$'", "pow(1)", ");"};
            auto still = [&](const char* what) {
                int l3 = -9, c3 = -9;
                const char* e3 = projectm_eval_get_error(c.c, &l3, &c3);
                if (!e3 || kept != e3 || l3 != line || c3 != col) k.fail("reported: %s at line %d, column %d; after another context %s: %s at line %d, column %d", kept.c_str(), line, col, what, e3 ? e3 : "nothing", l3, c3);
            };
            const char* o = others[k.draw(8)];
            if (projectm_eval_code* g = other.compile(o)) projectm_eval_code_destroy(g);
            still("compiled something else");
            { Ctx third; if (projectm_eval_code* g = third.compile(others[k.draw(8)])) projectm_eval_code_destroy(g); }
            still("was destroyed");
            // neither does anything but the next compilation in the same context
            {
                Ctx own;
                Code ran(own, "a=a+1;megabuf(70000)=a");
                auto spare = std::make_unique<Code>(own, "b=2");
                if (projectm_eval_code* g = own.compile(text)) { projectm_eval_code_destroy(g); k.fail("refused, but accepted in a new context"); }
                for (int q = k.range(1, 4); q-- > 0;) {
                    const char* what = "";
                    switch (k.range(0, 6)) {
                        case 0: ran.run(); what = "executing other code"; break;
                        case 1: projectm_eval_context_reset_variables(own.c); what = "resetting the variables"; break;
                        case 2: projectm_eval_context_free_memory(own.c); what = "freeing the memory"; break;
                        case 3: own.var(k.pick({"a", "fresh", "REG05"})); what = "registering a variable"; break;
                        case 4: spare.reset(); what = "destroying other code"; break;
                        case 5: projectm_eval_code_execute(nullptr); what = "executing no code"; break;
                        default: projectm_eval_code_destroy(nullptr); what = "destroying no code"; break;
                    }
                    int l3 = -9, c3 = -9;
                    const char* e3 = projectm_eval_get_error(own.c, &l3, &c3);
                    if (!e3 || kept != e3 || l3 != line || c3 != col) k.fail("reported: %s at line %d, column %d; after %s: %s at line %d, column %d", kept.c_str(), line, col, what, e3 ? e3 : "nothing", l3, c3);
                }
                k.label("reports that outlive other calls");
            }
            e = projectm_eval_get_error(c.c, nullptr, nullptr);
        }
        size_t bad_bytes = 0;
        for (char ch : text) bad_bytes += (unsigned char) ch >= 0x80;
        if (bad_bytes) { k.label("not judged: non-ASCII text"); continue; }
        if (tk.kind == T_END && !pr.arity) {
            int lines = 1;
            for (char ch : text) lines += ch == '\n';
            if (line < 1 || line > lines) k.fail("the error at the end of the text is reported at line %d, column %d", line, col);
            k.label("errors at the end of the text");
            continue;
        }
        bool ok = line == tk.line && col == tk.col;
        if (!ok && pr.arity && next_offends_too(lx.toks, pr.err_tok, pr.err_tok2)) {
            const Tok& t2 = lx.toks[(size_t) pr.err_tok2];
            ok = t2.kind == T_END || (line == t2.line && col == t2.col);
        }
        if (ok && pr.arity && line == tk.line && col == tk.col) { // names the call and what is wrong with it
            std::string m = lower(e);
            bool named = m.find(lower(tk.text)) != std::string::npos;
            std::set<int> nums;
            for (size_t q = 0; q < m.size();) { if (isdigit((unsigned char) m[q]) && (q == 0 || !isalnum((unsigned char) m[q - 1]))) { nums.insert(atoi(m.c_str() + q)); while (q < m.size() && isalnum((unsigned char) m[q])) q++; } else q++; }
            if (!named || !nums.count(pr.expected) || !nums.count(pr.given)) k.label("messages without name or counts");
            auto after = [&](const char* w) { // the first number after a word
                size_t q = m.rfind(w);
                if (q == std::string::npos) return -1;
                q = m.find_first_of("0123456789", q);
                return q == std::string::npos ? -1 : atoi(m.c_str() + q);
            };
            int x = after("expected ");
            if (named && nums.size() >= 2 && x >= 0 && x == pr.given && x != pr.expected) k.fail("the error for a call of %s (%d arguments) with %d arguments is: %s", tk.text.c_str(), pr.expected, pr.given, e);
            if (!named && m.find("function") != std::string::npos) k.fail("the error for a call of %s with %d arguments is: %s", tk.text.c_str(), pr.given, e);
            if (named && nums.size() >= 2 && (!nums.count(pr.expected) || !nums.count(pr.given))) k.fail("the error for a call of %s (%d arguments) with %d arguments is: %s", tk.text.c_str(), pr.expected, pr.given, e);
        }
        if (!ok) k.fail("the error (%s) is reported at line %d, column %d; the offending %s '%s' is at line %d, column %d", e, line, col, pr.arity ? "call" : "token", escape(tk.text).c_str(), tk.line, tk.col);
        k.label(pr.arity ? "arity errors" : tk.line > 1 ? "syntax errors beyond line 1" : "syntax errors on line 1");
        judged++;
        if (k.chance(1, 2)) {
            std::string d = snapshot(c, vn, slots).diff(before);
            if (!d.empty()) k.fail("the failed compilation changed state: %s", d.c_str());
            uses++;
            double r = old.run(), x = std::sin(1.0) + 2 * uses;
            if (!model::close(r, x, gen::kTol) || *c.var("u") != uses || c.peek(false, 9) != uses) k.fail("previously compiled code gives %.17g, expected %.17g", r, x);
        }
        bool now = projectm_eval_get_error(c.c, nullptr, nullptr) != nullptr;
        if (now != expect_error) k.fail("executing changed the error state");
    }
    if (k.chance(1, 2)) {
        Code h(c, "a=a+0");
        if (!h) k.fail("a valid program was refused after failed ones: %s", c.error().c_str());
        if (c.has_error()) k.fail("an error is reported after a successful compilation");
    }
    std::string d = snapshot(c, vn, slots).diff(before);
    if (!d.empty()) k.fail("compilations changed state: %s", d.c_str());
    if (judged) k.nontrivial();
}

eng::Register r01({"C01", run_c01, 40000, 1500000, 200,
    "one text: raw bytes, language characters, token soup, valid programs with edited bytes or tokens, and structures repeated up to 32000 characters deep (up to 64 KiB), partly under foreign locales: a handle without error or NULL with an error, silent, within 20 s of CPU time, under AddressSanitizer and UBSan, and a valid program works afterwards; a coverage-guided fuzzer then explores the same space; non-trivial: at least two characters",
    "texts whose compile-time evaluation would involve nested constant loops are skipped (they end, but only after 2^20 iterations per nesting level)", nullptr, 6000, 150000, c01_seeds});
eng::Register r07({"C07", run_c07, 250000, 2500000, 400,
    "1-5 literals per program: decimals of 1 to 1300 digits, exact midpoints between neighbouring doubles and their neighbourhood, subnormals, range ends, hexadecimals of up to 16 significant digits, ASCII characters, named constants, with random case, in 14 contexts, a third under de_DE or tr_TR: value must be exactly that of an independent correctly rounding conversion; every case is non-trivial",
    "std::from_chars of libstdc++ rounds correctly (glibc strtod in the C locale beyond the finite range)"});
eng::Register r17({"C17", run_c17, 60000, 2000000, 300,
    "1-6 compilations (broken and valid, with random line breaks, comments, tabs) in one context: error present exactly after refusals, line and column of the first offending token or wrong-arity call as found by an independent parser; state and previously compiled code unaffected; non-trivial: at least one position judged",
    "the column of an error at the end of the text, and texts with non-ASCII characters, are not judged"});

}  // namespace
