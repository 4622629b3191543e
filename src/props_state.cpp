// C15 C16 C18 C21: variables, lifecycles, history independence, random numbers
#include "common.hpp"

#include <thread>
#include <algorithm>
#include <cmath>
#include <random>
#include <csignal>
#include <sys/wait.h>
#include <unistd.h>

using namespace lang;

namespace {

// ------------------------------------------------------------------------------------------- C15
std::string random_name(Case& k) {
    static const char* fixed[] = {"a", "b", "x", "x1", "x2", "x11", "_", "__", "_a", "a_", "reg", "reg0", "reg1", "reg000", "reg001", "reg0a", "rega0", "re00", "_reg00", "reg00_", "xreg00", "regi1", "q1", "q32", "t8", "megabu",
                                  "megabuff", "gmem1", "_gmem_", "sinus", "si", "pi", "e", "phi", "iffy", "i", "index", "title", "list", "const", "var", "const_", "time", "fps", "rand1", "frame_val", "l", "il", "mid", "nan", "inf", "reg_1", "reg9", "reg99x"};
    switch (k.weighted({6, 3, 1, 1})) {
        case 0: return k.pick(fixed);
        case 1: {
            static const char first[] = "abciqxyz_m", rest[] = "abcixyz_0129";
            std::string s(1, first[k.draw(sizeof first - 1)]);
            int n = k.range(0, 5);
            for (int i = 0; i < n; i++) s += rest[k.draw(sizeof rest - 1)];
            return find_function(s) ? "v" + s : lower(s) == "gmem" ? "v" : s;
        }
        case 2: return std::string("n") + std::string((size_t) k.range(1, 400), "ax_"[k.draw(3)]) + (k.chance(1, 2) ? "1" : "2");
        default: return "var" + std::to_string(k.range(0, 40));
    }
}
void run_c15(Case& k) {
    struct Known { double* p; double v; };
    struct One {
        std::unique_ptr<Ctx> c;
        int regs;                       // 0 default, 1, 2
        std::map<std::string, Known> vars;
        std::vector<std::pair<std::unique_ptr<Code>, std::string>> codes;   // "name=name+1" handles, by name
    };
    Regs arrays[2];
    double reg[3][100] = {{0}};
    static const char* locs[] = {"", "", "", "", "de_DE.UTF-8", "tr_TR.UTF-8"};
    LocaleGuard loc(k.pick(locs));
    std::vector<std::unique_ptr<One>> cs;
    int nc = k.range(1, 3);
    for (int i = 0; i < nc; i++) {
        auto o = std::make_unique<One>();
        o->regs = k.range(0, 2);
        o->c = std::make_unique<Ctx>(nullptr, o->regs ? arrays[o->regs - 1].r : nullptr);
        k.note("context %d: registers %d\n", i, o->regs);
        cs.push_back(std::move(o));
    }
    double* def_regs = cs[0]->regs == 0 ? cs[0]->c->var("reg00") : nullptr;
    std::vector<std::string> pool;
    int np = k.range(2, 8);
    for (int i = 0; i < np; i++) pool.push_back(random_name(k));
    if (k.chance(1, 12)) { // very long names
        std::string s = "n";
        int len = gen::boundary(k, k.chance(1, 4) ? 17000 : 600);
        for (int i = 1; i < len; i++) s += "abcdefgh_XY7"[(i * 7 + i / 12) % 12];
        pool.push_back(s);
        pool.push_back(gen::similar_name(k, s));
    }
    for (int i = k.weighted({2, 2, 1, 1}); i > 0; i--) {
        static const char* base[] = {"velocity_xy", "rot_speed12", "bass_att", "treble_thresh", "q12", "sx_dy_dx_sy"};
        std::string s = k.chance(1, 3) ? std::string(k.pick(base)) : k.pick(pool);
        pool.push_back(s);
        pool.push_back(gen::similar_name(k, s));
    }
    if (k.chance(1, 3)) { std::string s = pool[0]; s.back() = s.back() == 'a' ? 'b' : 'a'; if (!find_function(s) && lower(s) != "gmem") pool.push_back(s); }
    auto known = [&](One& o, const std::string& name) -> Known& {
        auto it = o.vars.find(lower(name));
        if (it == o.vars.end()) it = o.vars.emplace(lower(name), Known{nullptr, 0}).first;
        return it->second;
    };
    auto learn = [&](One& o, const std::string& name) {
        std::string spelled = gen::random_case(k, name);
        double* p = o.c->var(spelled);
        if (!p) k.fail("registering %s returned NULL", spelled.c_str());
        Known& w = known(o, name);
        if (w.p && w.p != p) k.fail("registering %s returned another address than before", spelled.c_str());
        if (!w.p) {
            for (auto& x : cs) for (auto& y : x->vars) if (y.second.p && std::abs(y.second.p - p) < 1) k.fail("%s got the storage of %s", spelled.c_str(), y.first.c_str());
            for (int r = 0; r < 2; r++) if (p >= *arrays[r].r && p < *arrays[r].r + 100) k.fail("%s got a register's storage", spelled.c_str());
            if (def_regs && p >= def_regs && p < def_regs + 100) k.fail("%s got a register's storage", spelled.c_str());
        }
        w.p = p;
        if (!same_value(*p, w.v)) k.fail("%s is %.17g, expected %.17g", spelled.c_str(), *p, w.v);
        return p;
    };
    int n = k.range(5, 40);
    double val = 0;
    bool reset_seen = false, reg_seen = false;
    for (int i = 0; i < n; i++) {
        size_t ci = k.draw((uint32_t) cs.size());
        One& o = *cs[ci];
        std::string name = k.pick(pool);
        val += 1;
        int r = k.chance(1, 2) ? k.range(0, 99) : k.pick({0, 9, 10, 99});
        char rn[16];
        snprintf(rn, sizeof rn, "reg%02d", r);
        auto compile = [&](const std::string& t) {
            auto h = std::make_unique<Code>(*o.c, t);
            if (!*h) k.fail("refused: %s: %s", t.c_str(), o.c->error().c_str());
            return h;
        };
        switch (k.weighted({5, 4, 4, 3, 3, 2, 2, 2, 2, 1, 2})) {
            case 0: k.note("%zu: register %s\n", ci, name.c_str()); learn(o, name); break;
            case 1: { // write through the pointer, read through code
                k.note("%zu: set %s=%g through its address\n", ci, name.c_str(), val);
                *learn(o, name) = val;
                known(o, name).v = val;
                std::string t = gen::random_case(k, name);
                auto h = compile(t);
                if (!same_value(h->run(), val)) k.fail("%s in a program is not the registered variable", t.c_str());
                break;
            }
            case 2: { // write through code
                std::string t = gen::random_case(k, name) + "=" + num_text(val);
                k.note("%zu: %s\n", ci, t.c_str());
                known(o, name);
                auto h = compile(t);
                h->run();
                known(o, name).v = val;
                if (k.chance(1, 2)) learn(o, name);
                break;
            }
            case 3: { // handle kept for later
                std::string t = gen::random_case(k, name) + "=" + gen::random_case(k, name) + "+1";
                k.note("%zu: compile %s\n", ci, t.c_str());
                known(o, name);
                o.codes.push_back({compile(t), lower(name)});
                break;
            }
            case 4: {
                if (o.codes.empty()) break;
                auto& x = o.codes[k.draw((uint32_t) o.codes.size())];
                k.note("%zu: run earlier code incrementing %s\n", ci, x.second.c_str());
                double v = x.first->run();
                Known& w = known(o, x.second);
                w.v += 1;
                if (!same_value(v, w.v)) k.fail("earlier code returned %.17g, expected %.17g", v, w.v);
                break;
            }
            case 5: {
                k.note("%zu: reset variables\n", ci);
                projectm_eval_context_reset_variables(o.c->c);
                for (auto& v : o.vars) v.second.v = 0;
                reset_seen = true;
                break;
            }
            case 6: { // registers
                std::string t = gen::random_case(k, rn);
                k.note("%zu: register %s and set it to %g\n", ci, t.c_str(), val);
                double* p = o.c->var(t);
                if (o.regs && p != *arrays[o.regs - 1].r + r) k.fail("%s is not entry %d of the register array", t.c_str(), r);
                if (!o.regs) {
                    if (def_regs && p != def_regs + r) k.fail("%s is not entry %d of the shared registers", t.c_str(), r);
                    def_regs = p - r;
                }
                *p = val;
                reg[o.regs][r] = val;
                reg_seen = true;
                break;
            }
            case 7: {
                std::string t = gen::random_case(k, rn) + "+=" + num_text(val);
                k.note("%zu: %s\n", ci, t.c_str());
                compile(t)->run();
                reg[o.regs][r] += val;
                reg_seen = true;
                break;
            }
            case 8: { // failed compilation mentioning names
                std::string t = name + "=5;" + k.pick(pool) + (k.chance(1, 2) ? "=(" : "=sin(1,2)");
                k.note("%zu: %s\n", ci, t.c_str());
                known(o, name);
                if (o.c->compile(t)) k.fail("accepted: %s", t.c_str());
                break;
            }
            case 9: {
                int m = k.chance(1, 6) ? k.range(120, 700) : k.range(10, 120);
                k.note("%zu: register %d more variables\n", ci, m);
                for (int q = 0; q < m; q++) { std::string s = "bulk" + std::to_string(q); learn(o, s); }
                break;
            }
            default: { // several names in one program
                std::string nm2 = k.pick(pool);
                std::string t = gen::random_case(k, name) + "=" + num_text(val) + ";" + gen::random_case(k, nm2) + "=" + gen::random_case(k, name) + "*2";
                k.note("%zu: %s\n", ci, t.c_str());
                auto h = compile(t);
                h->run();
                known(o, name).v = val;
                known(o, nm2).v = known(o, name).v * 2;
                break;
            }
        }
        for (size_t q = 0; q < cs.size(); q++) {
            for (auto& v : cs[q]->vars) {
                double x = v.second.p ? *v.second.p : v.second.v;
                if (!same_value(x, v.second.v)) k.fail("%s of context %zu is %.17g, expected %.17g", v.first.c_str(), q, x, v.second.v);
            }
            if (cs[q]->regs) for (int r2 = 0; r2 < 100; r2++) if ((*arrays[cs[q]->regs - 1].r)[r2] != reg[cs[q]->regs][r2]) k.fail("register %d of array %d is %.17g, expected %.17g", r2, cs[q]->regs, (*arrays[cs[q]->regs - 1].r)[r2], reg[cs[q]->regs][r2]);
        }
        if (def_regs) for (int r2 = 0; r2 < 100; r2++) if (def_regs[r2] != reg[0][r2]) k.fail("shared register %d is %.17g, expected %.17g", r2, def_regs[r2], reg[0][r2]);
    }
    for (auto& o : cs) {
        std::vector<std::string> names;
        for (auto& v : o->vars) names.push_back(v.first);
        for (auto& s : names) learn(*o, s);
    }
    if (reset_seen) k.label("with a reset");
    if (reg_seen) k.label("with registers");
    k.nontrivial();
    for (auto& o : cs) o->codes.clear();
}

// ------------------------------------------------------------------------------------------- C16
void run_c16(Case& k) {
    host::AllocStats base = host::live();
    size_t large = host::large_live();
    host::check_large_locked = false;
    struct LC { projectm_eval_context* c; int buf; int regs; };
    struct LH { projectm_eval_code* h; int ctx; bool builtin_ok; };
    std::map<int, LC> ctxs;
    std::map<int, LH> codes;
    std::map<int, projectm_eval_mem_buffer> bufs;
    std::map<int, double*> regs;
    int next = 1, ops = k.range(5, 60), creations = 0, destructions = 0, failures = 0, globals = 0;
    bool global_written = false, local = k.chance(1, 10);   // under a locale with another decimal point
    if (local) k.label("compiled under de_DE");
    auto any = [&](auto& m) { auto it = m.begin(); std::advance(it, k.draw((uint32_t) m.size())); return it; };
    auto new_ctx = [&] {
        LC c;
        c.buf = !bufs.empty() && k.chance(1, 2) ? any(bufs)->first : 0;
        c.regs = !regs.empty() && k.chance(1, 3) ? any(regs)->first : 0;
        c.c = projectm_eval_context_create(c.buf ? bufs[c.buf] : nullptr, c.regs ? (double (*)[100]) regs[c.regs] : nullptr);
        if (!c.c) k.fail("no context");
        k.note("create context %d (buffer %d, registers %d)\n", next, c.buf, c.regs);
        ctxs[next++] = c;
        creations++;
    };
    auto kill_ctx = [&](std::map<int, LC>::iterator it) {
        k.note("destroy context %d\n", it->first);
        projectm_eval_context_destroy(it->second.c);
        for (auto& h : codes) if (h.second.ctx == it->first) h.second.ctx = 0;
        ctxs.erase(it);
        destructions++;
    };
    auto kill_code = [&](std::map<int, LH>::iterator it) {
        k.note("destroy code %d\n", it->first);
        projectm_eval_code_destroy(it->second.h);
        codes.erase(it);
    };
    auto builtin_used = [&] {
        for (auto& c : ctxs) if (!c.second.buf) return true;
        return false;
    };
    gen::Opt o;
    o.max_depth = 4;
    o.max_nodes = 40;
    o.loops = k.chance(1, 3);
    for (int i = 0; i < ops; i++) {
        switch (k.weighted({3, 3, 5, 4, 5, 3, 2, 1, 2, 1, 2, 1, 2, 1})) {
            case 0: if (ctxs.size() < 6) new_ctx(); break;
            case 1: if (!ctxs.empty()) kill_ctx(any(ctxs)); break;
            case 2: case 3: { // compile valid code
                if (ctxs.empty()) { new_ctx(); break; }
                auto it = any(ctxs);
                std::string t;
                if (k.chance(1, 2)) {
                    gen::Opt o2 = o;
                    gen::widen(k, o2, 60);
                    Gen g(k, o2);
                    NodeP p = g.program();
                    if (gen::heavy_constant_loops(p)) break;
                    t = k.chance(1, 2) ? print(p) : gen::random_layout(k, to_tokens(p));
                } else {
                    static const char* some[] = {"", "a", "1", "a=1;b=2;c=a+b", "megabuf(100000)=1", "gmegabuf(70000)=a", "sin(1)+cos(2)*3", "loop(3,a+=1)", "if(1,2,3)", "exec3(1;2,a;3,4)", "()", "1;2;3", "megabuf(0);gmem[1];a",
                                                 "5;a=3", "(1;2;a)", "!1||a&&(2;3)", "1;()", "gmem[]=1;freembuf(1)", "memset(60000,1,10000)", "memcpy(1,65536*3,20)", "a;b;c;d", "sin(1);sin(2);sin(a)", "4;5;6;loop(2,7)"};
                    t = k.pick(some);
                }
                projectm_eval_code* h;
                {
                    LocaleGuard loc(local ? "de_DE.UTF-8" : "");
                    h = projectm_eval_code_compile(it->second.c, t.c_str());
                }
                k.note("compile %d in context %d: ", next, it->first);
                k.note_str(escape(t));
                k.note("\n");
                if (h) codes[next++] = {h, it->first, true};
                break;
            }
            case 4: { // compile invalid code
                if (ctxs.empty()) break;
                auto it = any(ctxs);
                Gen g(k, o);
                auto tk = to_tokens(g.program());
                gen::mutate_tokens(k, tk, k.range(1, 3));
                std::string t = k.chance(1, 2) ? join(tk) : gen::random_layout(k, tk);
                if (k.chance(1, 3)) t = gen::broken(k);
                if (gen::may_loop_long(t)) break;
                k.note("compile %d in context %d: ", next, it->first);
                k.note_str(escape(t));
                k.note("\n");
                projectm_eval_code* h;
                {
                    LocaleGuard loc(local ? "de_DE.UTF-8" : "");
                    h = projectm_eval_code_compile(it->second.c, t.c_str());
                }
                if (h) codes[next++] = {h, it->first, true};
                else { failures++; const char* e = projectm_eval_get_error(it->second.c, nullptr, nullptr); if (!e || !strlen(e)) k.fail("no error message"); }
                break;
            }
            case 5: { // execute
                std::vector<int> ok;
                for (auto& h : codes) if (h.second.ctx) ok.push_back(h.first);
                if (ok.empty()) break;
                int x = k.pick(ok);
                k.note("execute code %d\n", x);
                if (!ctxs[codes[x].ctx].buf) global_written = true;
                projectm_eval_code_execute(codes[x].h);
                break;
            }
            case 6: if (!codes.empty()) kill_code(any(codes)); break;
            case 7:
                if (bufs.size() < 3) { k.note("create buffer %d\n", next); bufs[next++] = projectm_eval_memory_buffer_create(); creations++; }
                break;
            case 8: { // destroy an unused buffer
                std::vector<int> ok;
                for (auto& b : bufs) {
                    bool used = false;
                    for (auto& c : ctxs) used |= c.second.buf == b.first;
                    if (!used) ok.push_back(b.first);
                }
                if (ok.empty()) break;
                int x = k.pick(ok);
                k.note("destroy buffer %d\n", x);
                projectm_eval_memory_buffer_destroy(bufs[x]);
                bufs.erase(x);
                destructions++;
                break;
            }
            case 9: { // the built-in buffer
                if (builtin_used()) {
                    if (k.chance(1, 2)) break;
                    while (builtin_used()) for (auto it = ctxs.begin(); it != ctxs.end(); ++it) if (!it->second.buf) { kill_ctx(it); break; }
                }
                int times = k.range(1, 3);
                k.note("destroy the built-in global buffer %d times\n", times);
                for (int q = 0; q < times; q++) projectm_eval_memory_global_destroy();
                globals++;
                // contexts created afterwards see an empty one
                Ctx c;
                for (double s : {0.0, 1.0, 7.0, 65536.0, 70000.0, 100000.0, 8388607.0})
                    if (c.peek(true, s) != 0) k.fail("gmegabuf[%g] is %.17g after destroying the built-in buffer", s, c.peek(true, s));
                c.poke(true, 70000, 5);
                c.poke(true, 1, 6);
                global_written = true;
                break;
            }
            case 10: {
                if (ctxs.empty()) break;
                auto it = any(ctxs);
                k.note("free memory of context %d\n", it->first);
                projectm_eval_context_free_memory(it->second.c);
                break;
            }
            case 11: {
                if (ctxs.empty()) break;
                auto it = any(ctxs);
                k.note("reset variables of context %d\n", it->first);
                projectm_eval_context_reset_variables(it->second.c);
                break;
            }
            case 12: {
                if (ctxs.empty()) break;
                auto it = any(ctxs);
                std::string nm = random_name(k);
                k.note("register %s in context %d\n", nm.c_str(), it->first);
                *projectm_eval_context_register_variable(it->second.c, nm.c_str()) = i;
                break;
            }
            default:
                if (regs.size() < 2) { k.note("create registers %d\n", next); regs[next++] = (double*) calloc(100, sizeof(double)); }
        }
        if (!host::lock_error().empty()) k.fail("%s", host::lock_error().c_str());
    }
    // release everything, in some order; contexts and handles interleaved
    while (!ctxs.empty() || !codes.empty()) {
        if (codes.empty() || (!ctxs.empty() && k.chance(1, 3))) kill_ctx(any(ctxs));
        else kill_code(any(codes));
    }
    projectm_eval_code_destroy(nullptr);
    for (auto& b : bufs) projectm_eval_memory_buffer_destroy(b.second);
    projectm_eval_memory_global_destroy();
    for (auto& r : regs) free(r.second);
    host::AllocStats end = host::live();
    if (end.blocks != base.blocks || end.bytes != base.bytes)
        k.fail("%ld blocks (%ld bytes) allocated by the library were not released", end.blocks - base.blocks, (long) end.bytes - (long) base.bytes);
    if (host::large_live() != large) k.fail("buffer blocks were not released");
    if (failures) k.label("with failed compilations");
    if (globals) k.label("with the built-in buffer destroyed");
    if (global_written) k.label("built-in buffer used");
    if (creations && ops >= 10) k.nontrivial();
}

// ------------------------------------------------------------------------------------------- C18
// A process that has not compiled or executed anything; it forks once per request, and the fork compiles and executes
// one program on the given values.
class Untouched {
public:
    // To be called before this process uses the library at all
    void ready() { if (!eng::g_in_fuzzer && pid_ != getpid()) start(); }
    // Values: variables in the order of the names, then the 100 registers. Returns false if there is no such process.
    // Slots: indexes of both buffers, whose values follow (local, then global) in both directions.
    bool run(const std::string& text, const std::vector<std::string>& vars, const std::vector<int>& slots, const std::vector<double>& in, std::vector<double>& out) {
        if (eng::g_in_fuzzer) return false;
        ready();
        if (to_ < 0) return false;
        std::string m;
        auto put = [&](const void* p, size_t n) { m.append((const char*) p, n); };
        uint32_t n = (uint32_t) text.size();
        put(&n, 4); put(text.data(), n);
        n = (uint32_t) vars.size();
        put(&n, 4);
        for (auto& v : vars) { uint32_t l = (uint32_t) v.size(); put(&l, 4); put(v.data(), l); }
        n = (uint32_t) slots.size();
        put(&n, 4); put(slots.data(), n * 4);
        n = (uint32_t) in.size();
        put(&n, 4); put(in.data(), n * 8);
        if (!write_all(to_, m.data(), m.size())) return false;
        out.assign(in.size() + 1, 0);
        uint32_t ok = 0;
        return read_all(from_, &ok, 4) && ok == 1 && read_all(from_, out.data(), out.size() * 8);
    }
private:
    pid_t pid_ = 0;
    int to_ = -1, from_ = -1;
    static bool write_all(int fd, const void* p, size_t n) {
        while (n) { ssize_t w = write(fd, p, n); if (w <= 0) return false; p = (const char*) p + w; n -= (size_t) w; }
        return true;
    }
    static bool read_all(int fd, void* p, size_t n) {
        while (n) { ssize_t r = read(fd, p, n); if (r <= 0) return false; p = (char*) p + r; n -= (size_t) r; }
        return true;
    }
    void start() {
        int a[2], b[2];
        pid_ = getpid();
        if (pipe(a) || pipe(b)) return;
        signal(SIGPIPE, SIG_IGN);
        fflush(stdout); fflush(stderr);
        pid_t p = fork();
        if (p < 0) return;
        if (p == 0) {
            close(a[1]); close(b[0]);
            serve(a[0], b[1]);
            _exit(0);
        }
        close(a[0]); close(b[1]);
        to_ = a[1]; from_ = b[0];
    }
    static void serve(int in, int out) {
        for (;;) {
            uint32_t n = 0;
            if (!read_all(in, &n, 4)) return;
            std::string text(n, 0);
            if (!read_all(in, &text[0], n) || !read_all(in, &n, 4)) return;
            std::vector<std::string> vars(n);
            for (auto& v : vars) { if (!read_all(in, &n, 4)) return; v.resize(n); if (!read_all(in, &v[0], n)) return; }
            if (!read_all(in, &n, 4)) return;
            std::vector<int> slots(n);
            if (!read_all(in, slots.data(), n * 4) || !read_all(in, &n, 4)) return;
            std::vector<double> val(n);
            if (!read_all(in, val.data(), n * 8)) return;
            pid_t p = fork();
            if (p == 0) {
                Ctx c;
                std::vector<double*> at;
                for (auto& v : vars) at.push_back(c.var(v));
                for (int q = 0; q < 100; q++) { char b[8]; snprintf(b, sizeof b, "reg%02d", q); at.push_back(c.var(b)); }
                for (size_t i = 0; i < at.size(); i++) *at[i] = val[i];
                for (size_t i = 0; i < 2 * slots.size(); i++) if (val[at.size() + i] != 0) c.poke(i >= slots.size(), slots[i % slots.size()], val[at.size() + i]);
                Code h(c, text);
                uint32_t ok = h ? 1 : 0;
                std::vector<double> r(1, h ? h.run() : 0);
                for (double* q : at) r.push_back(*q);
                for (size_t i = 0; i < 2 * slots.size(); i++) r.push_back(c.peek(i >= slots.size(), slots[i % slots.size()]));
                write_all(out, &ok, 4);
                if (ok) write_all(out, r.data(), r.size() * 8);
                _exit(0);
            }
            int st = 0;
            waitpid(p, &st, 0);
            if (!WIFEXITED(st) || WEXITSTATUS(st)) { uint32_t ok = 2; write_all(out, &ok, 4); }
        }
    }
};
Untouched g_untouched;

// Another program that differs in one literal or variable
void change_one(Case& k, const NodeP& n, const std::vector<std::string>& vars) {
    std::vector<Node*> at;
    std::function<void(const NodeP&)> walk = [&](const NodeP& x) {
        if (x->fn == NUMLIT || x->fn == VARREF) at.push_back(x.get());
        for (auto& c : x->a) walk(c);
    };
    walk(n);
    if (at.empty()) return;
    Node* x = k.pick(at);
    if (x->fn == VARREF) x->name = k.pick(vars);
    else { x->name.clear(); x->num = k.chance(1, 2) ? k.range(0, 9) : std::fabs(gen::near_value(k, x->num)); }
}

void run_c18(Case& k) {
    g_untouched.ready();
    gen::Opt o;
    o.max_depth = k.range(2, 5);
    o.max_nodes = 50;
    o.loops = k.chance(1, 2);
    o.const_weight = k.range(1, 5);
    bool wide = gen::widen(k, o, 60);
    if (wide) k.label("very long programs");
    int np = wide ? 1 : k.range(1, 4);
    struct P { NodeP p; std::string text; bool mem; std::unique_ptr<Code> h[3]; };
    std::vector<P> ps;
    auto is_mem = [](Fn f) { return f == MEM || f == GMEM || f == MEMSET || f == MEMCPY || f == FREEMBUF; };
    for (int i = 0; i < np; i++) {
        P p;
        for (int t = 0;; t++) {
            o.max_stmts = k.range(1, 4);
            Gen g(k, o);
            switch (k.weighted({6, 3, i ? 3 : 0})) {
                case 0: p.p = g.program(); break;
                case 1: { // one function of variables
                    const FnName& f = kFunctions[k.draw((uint32_t) kFunctionCount)];
                    if (f.fn == RAND || f.fn == LOOP || f.fn == WHILE || is_mem(f.fn)) { p.p = g.program(); break; }
                    std::vector<NodeP> a;
                    for (int q = 0; q < f.arity; q++) a.push_back(k.chance(1, 4) ? g.expr(1) : var(k.pick(o.vars)));
                    p.p = mk(f.fn, a);
                    if (k.chance(1, 2)) p.p = mk(SET, {var(k.pick(o.vars)), p.p});
                    break;
                }
                default:
                    p.p = clone(ps[k.draw((uint32_t) i)].p);
                    change_one(k, p.p, o.vars);
                    break;
            }
            if (!gen::heavy_constant_loops(p.p)) break;
            if (t == 5) k.skip("long constant loops");
        }
        p.text = k.chance(1, 3) ? gen::random_layout(k, to_tokens(p.p)) : print(p.p);
        p.mem = contains(p.p, is_mem);
        k.note("program %d: ", i);
        k.note_str(escape(p.text));
        k.note("\n");
        ps.push_back(std::move(p));
    }
    // Contexts: A keeps its handles, B gets a fresh handle for each execution, F is a new context each time.
    Buffer ba, bb;
    Regs ra, rb;
    Ctx A(ba.b, ra.r), B(bb.b, rb.r);
    std::vector<std::string> vars = o.vars;
    std::vector<int> slots = usual_slots();
    model::State init;
    gen::random_state(k, o, init);
    host::load_state(A, init);
    host::load_state(B, init);
    // Is a program cheap in the given state? (the reference interpreter decides; its outcome is not used)
    int n = k.range(3, 14), runs = 0, noise = 0;
    bool clean_mem = true;   // both buffers are known completely: zero except for the slots listed
    auto cheap = [&](const P& p, Ctx& c) {
        model::State s;
        for (auto& v : vars) s.vars[v] = *c.var(v);
        std::set<std::string> all;
        model::Options mo;
        mo.budget = 60000;
        for (int i = 0; i < 100; i++) { char b[8]; snprintf(b, sizeof b, "reg%02d", i); s.reg[i] = *c.var(b); }
        for (int i : slots) { s.local.set(i, c.peek(false, i)); s.global.set(i, c.peek(true, i)); }
        model::Result r = model::run(p.p, s, model::LATE, mo);
        return !r.out_of_budget && !contains(p.p, [](Fn f) { return f == WHILE; });
    };
    for (int i = 0; i < n; i++) {
        P& p = ps[k.draw((uint32_t) ps.size())];
        size_t pi = (size_t) (&p - ps.data());
        switch (k.weighted({8, 2, 2, 2, 1, 2, 1, 1, 1, 1})) {
            case 9: { // an evaluation does not depend on the operands of earlier ones
                static const char* calls[] = {"sin(x)", "cos(x)", "tan(x)", "asin(x)", "acos(x)", "atan(x)", "atan2(x,y)", "sqr(x)", "sqrt(x)", "pow(x,y)", "exp(x)", "log(x)", "log10(x)", "abs(x)", "min(x,y)", "max(x,y)", "sign(x)", "floor(x)", "ceil(x)", "int(x)", "invsqrt(x)",
                    "sigmoid(x,y)", "bnot(x)", "band(x,y)", "bor(x,y)", "above(x,y)", "below(x,y)", "equal(x,y)", "x+y", "x-y", "x*y", "x/y", "x%y", "x&y", "x|y", "x^y", "-x", "!x", "x&&y", "x||y", "x==y", "x<y", "if(x,y,3)", "(z=x;z+=y)", "(z=x;z*=y)", "(z=x;z/=y)", "(z=x;z^=y)", "(z=x;z%=y)"};
                static const double odd[] = {0.0, -0.0, 1, -1, 2, -2, 0.5, -0.5, 3, -3, 1e-300, -1e-300, 1e300, -1e300, 4294967296.0, -2147483648.0, 1.0000000000000002, 0.99999999999999989, 5e-324, 1e-5, 2.5, 1e16};
                static const double far[] = {1.75, -7.25, 0.3};
                std::string t = k.pick(calls);
                Ctx o;
                Code h(o, t), h2(o, t);
                double *x = o.var("x"), *y = o.var("y");
                auto at = [&](Code& c, double a, double b) { *x = a; *y = b; return c.run(); };
                k.note("%s with varying operands\n", t.c_str());
                for (int q = k.range(1, 20); q-- > 0;) {
                    double a = k.pick(odd), b = k.pick(odd), fx = k.pick(far), fy = k.pick(far);
                    double na = k.chance(1, 2) ? -a : k.chance(1, 2) ? std::nextafter(a, 9) : k.chance(1, 2) ? b : k.pick(odd), nb = k.chance(2, 3) ? b : k.chance(1, 2) ? -b : k.chance(1, 2) ? a : k.pick(odd);
                    if (k.chance(1, 4)) { na = k.pick({0.0, -0.0}); a = -na; }
                    at(h, fx, fy);
                    double u = at(k.chance(1, 2) ? h : h2, a, b);
                    if (k.chance(1, 2)) at(h, fx, fy);
                    at(h, na, nb);
                    double v = at(k.chance(1, 2) ? h : h2, a, b);
                    if (!same_bits(u, v)) k.fail("%s with x=%.17g y=%.17g is %.17g after x=%.17g y=%.17g, but %.17g after x=%.17g y=%.17g", t.c_str(), a, b, u, fx, fy, v, na, nb);
                }
                k.label("operands of earlier evaluations");
                break;
            }
            case 8: { // the same thing again and again
                if (!k.chance(1, 2)) break;
                noise++;
                int times = gen::boundary(k, 1100);
                std::string t = k.pick({"", ";", "1", "vc_n=vc_n+1", "vc_n", "sin(1)", "if(vc_n,1,2)", "(", "sin()", "1+*2"});
                if (k.chance(1, 2) && !p.mem && cheap(p, A)) t = p.text;
                int what = k.weighted({4, 2, 1});
                if (what == 2) times = std::min(times, 300);
                if (t.size() > 2000) times = std::min(times, 20);
                k.note("%s %d times: ", what == 0 ? "execute a handle" : what == 1 ? "compile" : "compile and execute in a new context", times);
                k.note_str(escape(t));
                k.note("\n");
                std::vector<double> save;
                std::vector<double*> at;
                for (auto& v : vars) at.push_back(A.var(v));
                for (int q = 0; q < 100; q++) { char b[8]; snprintf(b, sizeof b, "reg%02d", q); at.push_back(A.var(b)); }
                for (double* q : at) save.push_back(*q);
                if (what == 0) {
                    Code h(A, t);
                    for (int q = 0; q < times && h; q++) {
                        h.run();
                        for (size_t z = 0; z < at.size(); z++) *at[z] = save[z];
                    }
                } else if (what == 1) for (int q = 0; q < times; q++) Code h(A, t);
                else for (int q = 0; q < times; q++) { Ctx c; Code h(c, t); if (h && t != p.text) h.run(); }
                k.label("repeated many times");
                break;
            }
            case 7: // the host frees the memory
                k.note("free the local memory\n");
                projectm_eval_context_free_memory(A.c);
                projectm_eval_context_free_memory(B.c);
                noise++;
                break;
            case 0: { // judged execution
                int hi = k.range(0, 2);
                if (!cheap(p, A)) { k.label("program too long to run"); break; }
                if (!p.h[hi]) p.h[hi] = std::make_unique<Code>(A, p.text);
                Code fresh(B, p.text);
                if (!*p.h[hi] || !fresh) k.fail("program %zu was refused: %s", pi, A.error().c_str());
                k.note("execute handle %d of program %zu\n", hi, pi);
                std::vector<double> in, out;
                bool alone = (!p.mem || clean_mem) && k.chance(2, 3);
                const std::vector<int> at_slots = alone && p.mem ? slots : std::vector<int>();
                if (alone) {
                    for (auto& v : vars) in.push_back(*A.var(v));
                    for (int q = 0; q < 100; q++) { char b[8]; snprintf(b, sizeof b, "reg%02d", q); in.push_back(*A.var(b)); }
                    for (size_t q = 0; q < 2 * at_slots.size(); q++) in.push_back(A.peek(q >= at_slots.size(), at_slots[q % at_slots.size()]));
                    alone = g_untouched.run(p.text, vars, at_slots, in, out);
                }
                double x = p.h[hi]->run(), y = fresh.run();
                if (p.mem) clean_mem = false;
                if (alone) {
                    k.label("compared with an untouched process");
                    if (!same_bits(x, out[0])) k.fail("the handle returned %.17g, an untouched process %.17g", x, out[0]);
                    for (size_t q = 0; q < vars.size() + 100; q++) {
                        char b[32];
                        if (q < vars.size()) snprintf(b, sizeof b, "%s", vars[q].c_str());
                        else snprintf(b, sizeof b, "reg%02d", (int) (q - vars.size()));
                        if (!same_bits(*A.var(b), out[q + 1])) k.fail("%s is %.17g, after the same program on the same values in an untouched process %.17g", b, *A.var(b), out[q + 1]);
                    }
                    for (size_t q = 0; q < 2 * at_slots.size(); q++) {
                        bool g = q >= at_slots.size();
                        int i = at_slots[q % at_slots.size()];
                        double got = A.peek(g, i), want = out[1 + vars.size() + 100 + q];
                        if (!same_value(got, want)) k.fail("%s(%d) is %.17g, after the same program on the same values in an untouched process %.17g", g ? "gmegabuf" : "megabuf", i, got, want);
                    }
                }
                if (!same_value(x, y)) k.fail("the handle returned %.17g, a fresh handle in an equal context %.17g", x, y);
                std::string d = snapshot(A, vars, slots).diff(snapshot(B, vars, slots));
                if (!d.empty()) k.fail("effects differ between the handle and a fresh one: %s", d.c_str());
                runs++;
                break;
            }
            case 1: { // the host changes a variable
                const std::string& v = k.pick(vars);
                double x = gen::random_value(k);
                k.note("%s=%.17g\n", v.c_str(), x);
                *A.var(v) = *B.var(v) = x;
                break;
            }
            case 2: { // failed compilation in A only
                auto t = to_tokens(p.p);
                gen::mutate_tokens(k, t, k.range(1, 2));
                std::string s = join(t);
                if (gen::may_loop_long(s)) break;
                k.note("compile "); k.note_str(escape(s)); k.note("\n");
                projectm_eval_code* h = A.compile(s);
                if (h) projectm_eval_code_destroy(h);
                noise++;
                break;
            }
            case 3: { // run on other data in A, then restore it
                if (p.mem || !cheap(p, A)) break;
                if (!p.h[0]) p.h[0] = std::make_unique<Code>(A, p.text);
                k.note("execute program %zu on other data\n", pi);
                std::vector<double> save;
                std::vector<double*> at;
                for (auto& v : vars) at.push_back(A.var(v));
                for (int q = 0; q < 100; q++) { char b[8]; snprintf(b, sizeof b, "reg%02d", q); at.push_back(A.var(b)); }
                for (double* q : at) save.push_back(*q);
                bool near = k.chance(2, 3);
                for (size_t q = 0; q < vars.size(); q++) *at[q] = near ? gen::near_value(k, save[q]) : gen::random_value(k);
                bool ok = cheap(p, A);
                if (ok) { p.h[0]->run(); noise++; }
                for (size_t q = 0; q < at.size(); q++) *at[q] = save[q];
                break;
            }
            case 4: // recompile
                k.note("destroy the handles of program %zu\n", pi);
                for (auto& h : p.h) h.reset();
                noise++;
                break;
            case 5: // compile early
                for (auto& h : p.h) if (!h) { h = std::make_unique<Code>(A, p.text); k.note("compile program %zu\n", pi); break; }
                noise++;
                break;
            default: { // a context in between
                Ctx t;
                Code h(t, p.text);
                if (h && cheap(p, t)) h.run();
                noise++;
            }
        }
    }
    if (runs) k.label("with judged executions");
    if (runs >= 2 && noise) k.nontrivial();
    ps.clear();
}

// ------------------------------------------------------------------------------------------- C21
void run_c21(Case& k) {
    std::mt19937 mt(0x4141f00du);
    struct C { std::unique_ptr<Ctx> c; std::vector<std::pair<std::unique_ptr<Code>, NodeP>> codes; model::State s; };
    std::vector<std::unique_ptr<C>> cs;
    int nc = k.range(1, 3), n = k.range(3, 14), draws = 0;
    Buffer bufs[3];
    Regs regs[3];
    for (int i = 0; i < nc; i++) {
        auto c = std::make_unique<C>();
        c->c = std::make_unique<Ctx>(bufs[i].b, regs[i].r);
        c->s.rng = &mt;
        for (const char* v : {"a", "b", "m", "r", "x", "i"}) { double d = k.chance(1, 2) ? k.range(0, 50) : k.range(-20, 400) / 8.0; c->s.vars[v] = d; *c->c->var(v) = d; }
        cs.push_back(std::move(c));
    }
    auto range = [&]() -> NodeP {
        switch (k.weighted({4, 2, 2, 1, 1, 1, 1})) {
            case 0: return num(k.range(0, 300));
            case 1: return num(k.range(0, 4000) / 16.0);
            case 2: return var(k.chance(1, 2) ? "m" : "a");
            case 3: return mk(NEG, {num(k.range(0, 9))});
            case 4: { static const double big[] = {4294967296.0, 2147483648.0, 1e10, 1e300, 1.0, 0.0, 0.999999, 1.999999, 2.0}; return num(k.pick(big)); }
            case 5: return mk(ADD, {var("b"), num(k.range(0, 9))});
            default: return mk(ADD, {num(1), num(2)});
        }
    };
    auto rnd = [&] { return mk(RAND, {range()}); };
    auto set = [&](const char* v, NodeP e) { return mk(SET, {var(v), e}); };
    for (int i = 0; i < n; i++) {
        C& c = *cs[k.draw((uint32_t) cs.size())];
        NodeP p;
        Code* h = nullptr;
        if (!c.codes.empty() && k.chance(1, 3)) {
            auto& x = c.codes[k.draw((uint32_t) c.codes.size())];
            h = x.first.get();
            p = x.second;
            k.note("again: ");
        } else {
            switch (k.weighted({4, 3, 3, 3, 3, 2, 2, 2, 2, 2})) {
                case 0: p = rnd(); break;
                case 1: p = set("r", rnd()); break;
                case 2: p = mk(ADD, {rnd(), mk(MUL, {rnd(), num(1000)})}); break;
                case 3: p = list({set("x", num(0)), mk(LOOP, {num(k.range(1, k.chance(1, 3) ? 900 : 20)), set("x", mk(ADD, {mk(MUL, {var("x"), num(0.5)}), rnd()}))})}); break;
                case 4: p = mk(IF, {mk(GT, {var("a"), num(5)}), rnd(), mk(NEG, {rnd()})}); break;
                case 5: p = list({set("a", rnd()), set("b", rnd()), mk(SUB, {var("a"), var("b")})}); break;
                case 6: p = mk(FLOOR, {rnd()}); break;
                case 7: p = list({set("i", num(0)), mk(WHILE, {mk(EXEC2, {set("i", mk(ADD, {var("i"), num(1)})), mk(LT, {set("x", mk(ADD, {var("x"), rnd()})), num(60)})})})}); break;
                case 8: p = mk(MAX, {mk(SIN, {rnd()}), mk(EXEC3, {set("r", rnd()), set("x", rnd()), rnd()})}); break;
                default: p = mk(AND, {mk(GT, {rnd(), num(0.5)}), rnd()});
            }
            std::string t = gen::random_layout(k, to_tokens(p));
            auto code = std::make_unique<Code>(*c.c, t);
            if (!*code) k.fail("refused: %s: %s", t.c_str(), c.c->error().c_str());
            h = code.get();
            c.codes.push_back({std::move(code), p});
            if (k.chance(1, 4)) { k.note("compiled only: "); k.note_str(print(p)); k.note("\n"); continue; }
        }
        k.note("context %d: ", (int) (&c - cs[0].get() == 0 ? 0 : 1));
        k.note_str(print(p));
        k.note("\n");
        if (k.chance(1, 4)) { // what does not evaluate rand() draws nothing, and nothing starts the stream again
            k.note("(other calls first)\n");
            {
                Ctx t;
                Code ok(t, "megabuf(3)=gmegabuf(70000)=a=1"), unused(t, "a=rand(5)"), broken(t, "a=rand(");
                ok.run();
                t.var("fresh");
                projectm_eval_context_reset_variables(t.c);
                projectm_eval_context_free_memory(t.c);
                if (k.chance(1, 2)) projectm_eval_context_free_memory(c.c->c);
            }
            if (k.chance(1, 2)) projectm_eval_memory_global_destroy();   // every other context has a buffer of its own
            k.label("other calls between the evaluations");
        }
        int reps = k.chance(1, 3) ? k.range(1, 40) : 1;
        bool elsewhere = k.chance(1, 12);   // one stream for all threads
        if (elsewhere) k.label("evaluations in another thread");
        for (int q = 0; q < reps; q++) {
            model::Options mo;
            model::Result e = model::run(p, c.s, model::LATE, mo);
            if (e.out_of_budget || !e.unjudged.empty()) k.skip("not judged");
            double x = 0;
            if (elsewhere) std::thread([&] { x = h->run(); }).join(); else x = h->run();
            if (!model::close(x, e.value, 1e-12)) k.fail("execution %d returned %.17g, expected %.17g", q + 1, x, e.value);
            for (auto& v : c.s.vars) {
                double y = *c.c->var(v.first);
                if (!model::close(y, v.second, 1e-12)) k.fail("%s is %.17g, expected %.17g", v.first.c_str(), y, v.second);
                v.second = y;
            }
            draws++;
        }
    }
    // the streams are at the same place
    Ctx last;
    Code h(last, "rand(4294967295)");
    for (int i = 0; i < 3; i++) {
        double x = h.run(), e = mt();
        if (!model::close(x, e, 1e-12)) k.fail("rand(4294967295) gave %.17g at the end, expected %.17g", x, e);
    }
    if (k.thorough || k.chance(1, 8)) { // far into the stream
        int far = k.chance(1, 12) ? k.range(30000, 1000000) : 3000, times = k.thorough && k.chance(1, 20) ? 8 : 1;
        Code f(last, "loop(" + std::to_string(far) + ",s=s*0.25+rand(1000))");
        double s = 0;
        for (int t = 0; t < times; t++) {
            for (int q = 0; q < far; q++) s = s * 0.25 + mt() * (1.0 / 4294967295.0) * 1000;
            double x = f.run();
            if (!model::close(x, s, 1e-12)) k.fail("%d further numbers give %.17g, expected %.17g", far, x, s);
        }
        k.label(far > 3000 ? "very far into the stream" : "far into the stream");
    }
    if (draws >= 2) k.nontrivial();
    for (auto& c : cs) c->codes.clear();
}

eng::Register r15({"C15", run_c15, 120000, 4000000, 200,
    "histories of 5-40 registrations, reads, writes, compilations (also failing) and resets over 1-3 contexts, with colliding, long and register-like names in random letter case, partly under tr_TR/de_DE: addresses, values, distinctness and registers compared with a name table after each step; every case is non-trivial",
    "names are identifiers of the language"});
eng::Register r16({"C16", run_c16, 36000, 1200000, 100,
    "histories of 5-60 creations, compilations (valid and broken), executions, resets, frees and destructions of contexts, handles, buffers and the built-in buffer, released in random order at the end: the library's allocations must balance to zero, under AddressSanitizer; non-trivial: at least one creation and 10 operations",
    "rules of the API are obeyed: no buffer is destroyed before its contexts, no handle executed after its context's end"});
eng::Register r18({"C18", run_c18, 24000, 800000, 200,
    "histories over 1-4 random programs with up to three handles each, kept and run repeatedly, mixed with failed compilations, runs on other data, recompilations and other contexts; every execution is compared bit for bit with a just compiled handle in a context that saw only the judged executions, and two in three of those whose memory contents are completely known also with an execution in a process that never ran anything else; non-trivial: at least two judged executions and one disturbance",
    "programs with while() are compiled but not executed here; rand() is C21's"});
eng::Register r21({"C21", run_c21, 14000, 300000, 1,
    "one fresh process per case: 3-14 programs with rand() (literal, variable, fractional, negative and huge ranges; in loops, conditions, arguments; discarded results excluded) compiled early or late and executed repeatedly over 1-3 contexts; values compared with std::mt19937(0x4141f00d) scaled; non-trivial: at least two executions",
    "std::mt19937 of libstdc++; ranges that are not finite are not judged", nullptr, 0, 0});

}  // namespace
