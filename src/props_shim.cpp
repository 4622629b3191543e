// C22: the ns-eel2 compatible API against the native one
#include "common.hpp"

#include "ns-eel2-shim/ns-eel.h"

#include <algorithm>
#include <cmath>

using namespace lang;

namespace {

enum What { NEW_CTX, NEW_CTX_GRAM, FREE_CTX, RESET, REGVAR, SETVAR, FREE_RAM, NEW_BUF, FREE_BUF, COMPILE, EXEC, FREE_CODE, QUIT, ERROR, NULL_CODE, SET_GRAM };

struct Op {
    What what;
    int a = 0, b = 0, c = 0;     // indices into the objects created so far
    std::string text;
    double v = 0;
    int via = 0;                 // in the mixed run: 0 native, 1 shim
};

// What is known about the objects while generating
struct Plan {
    std::vector<Op> ops;
    struct C { bool live; int buf; bool pending = false; };   // pending: a later SetGRAM gives it its buffer
    struct H { bool live; int ctx; };
    std::vector<C> ctxs;
    std::vector<H> codes;         // entry per COMPILE; the text may be refused
    std::vector<int> bufs;        // 1: live
    bool gram = false;
    int live(const std::vector<int>& v) { return (int) std::count(v.begin(), v.end(), 1); }
};

enum Mode { NATIVE, SHIM, MIXED };
static const char* mode_name[] = {"the native API", "the shim", "both APIs mixed"};

struct Runner {
    Case& k;
    Mode mode;
    std::vector<std::string> log;
    std::vector<projectm_eval_context*> ctxs;
    std::vector<projectm_eval_code*> codes;
    std::vector<projectm_eval_mem_buffer> bufs;
    std::set<void*> without_gram;
    bool full_account;

    void add(const char* fmt, ...) __attribute__((format(printf, 2, 3))) {
        char b[40000];
        va_list ap;
        va_start(ap, fmt);
        vsnprintf(b, sizeof b, fmt, ap);
        va_end(ap);
        log.back() += std::string(log.back().empty() ? "" : "; ") + b;
    }
    void run(const Plan& p) {
        host::reset_library_state();
        host::check_large_locked = true;
        host::AllocStats base = host::live();
        for (const Op& o : p.ops) {
            log.push_back("");
            bool shim = mode == SHIM || (mode == MIXED && o.via);
            one(o, shim);
            host::AllocStats l = host::live();
            if (full_account) add("%ld allocations, %zu bytes, %ld locks", l.blocks - base.blocks, l.bytes - base.bytes, host::lock_count());
            else add("%zu large allocations", host::large_live());
            if (host::lock_depth()) k.fail("the host's mutex is still held after a call through %s", mode_name[mode]);
            if (!host::lock_error().empty()) k.fail("%s (through %s)", host::lock_error().c_str(), mode_name[mode]);
        }
        host::AllocStats l = host::live();
        if (l.blocks != base.blocks || l.bytes != base.bytes) k.fail("%ld allocations (%zd bytes) are left at the end of the history through %s", l.blocks - base.blocks, (ssize_t) (l.bytes - base.bytes), mode_name[mode]);
        host::reset_library_state();
    }
    void one(const Op& o, bool shim) {
        switch (o.what) {
            case NEW_CTX:
                ctxs.push_back(shim ? (projectm_eval_context*) NSEEL_VM_alloc() : projectm_eval_context_create(nullptr, nullptr));
                add("context %s", ctxs.back() ? "created" : "missing");
                if (!ctxs.back()) k.fail("no context through %s", mode_name[mode]);
                break;
            case NEW_CTX_GRAM:
                if (shim) {
                    NSEEL_VMCTX c = NSEEL_VM_alloc();
                    if (o.b == 1) (void) NSEEL_VM_regvar(c, "a");
                    ctxs.push_back((projectm_eval_context*) c);
                    if (o.b == 2) { without_gram.insert(c); break; }
                    NSEEL_VM_SetGRAM(c, (void**) bufs[(size_t) o.a]);
                } else {
                    ctxs.push_back(projectm_eval_context_create(bufs[(size_t) o.a], nullptr));
                    if (o.b == 1) (void) projectm_eval_context_register_variable(ctxs.back(), "a");
                }
                break;
            case SET_GRAM:
                if (without_gram.erase(ctxs[(size_t) o.a])) NSEEL_VM_SetGRAM((NSEEL_VMCTX) ctxs[(size_t) o.a], (void**) bufs[(size_t) o.b]);
                break;
            case FREE_CTX:
                without_gram.erase(ctxs[(size_t) o.a]);
                if (shim) NSEEL_VM_free(ctxs[(size_t) o.a]); else projectm_eval_context_destroy(ctxs[(size_t) o.a]);
                break;
            case RESET:
                if (shim) NSEEL_VM_resetvars(ctxs[(size_t) o.a]); else projectm_eval_context_reset_variables(ctxs[(size_t) o.a]);
                break;
            case REGVAR: case SETVAR: {
                double* p = shim ? NSEEL_VM_regvar(ctxs[(size_t) o.a], o.text.c_str()) : projectm_eval_context_register_variable(ctxs[(size_t) o.a], o.text.c_str());
                if (!p) { add("NULL"); break; }
                add("%s=%.17g", o.text.c_str(), *p);
                // The other API must name the same storage
                double* q = shim ? projectm_eval_context_register_variable(ctxs[(size_t) o.a], o.text.c_str()) : NSEEL_VM_regvar(ctxs[(size_t) o.a], o.text.c_str());
                if (p != q) k.fail("the two APIs return different storage for %s", o.text.c_str());
                if (o.what == SETVAR) *p = o.v;
                break;
            }
            case FREE_RAM:
                if (shim) NSEEL_VM_freeRAM(ctxs[(size_t) o.a]); else projectm_eval_context_free_memory(ctxs[(size_t) o.a]);
                break;
            case NEW_BUF: bufs.push_back(projectm_eval_memory_buffer_create()); break;
            case FREE_BUF:
                if (shim) NSEEL_VM_FreeGRAM((void**) bufs[(size_t) o.a]); else projectm_eval_memory_buffer_destroy(bufs[(size_t) o.a]);
                break;
            case COMPILE: {
                std::vector<char> t(o.text.c_str(), o.text.c_str() + o.text.size() + 1);
                auto* c = ctxs[(size_t) o.a];
                auto* h = shim ? (projectm_eval_code*) NSEEL_code_compile(c, t.data(), o.b) : projectm_eval_code_compile(c, t.data());
                if (memcmp(t.data(), o.text.c_str(), t.size())) k.fail("compiling changed the text");
                codes.push_back(h);
                add("%s", h ? "handle" : "NULL");
                report(c, shim);
                break;
            }
            case ERROR: report(ctxs[(size_t) o.a], shim); break;
            case EXEC: {
                auto* h = codes[(size_t) o.a];   // NULL for a refused program: nothing happens
                if (shim) NSEEL_code_execute(h); else projectm_eval_code_execute(h);
                break;
            }
            case FREE_CODE: {
                auto*& h = codes[(size_t) o.a];
                if (!h) break;
                if (shim) NSEEL_code_free(h); else projectm_eval_code_destroy(h);
                h = nullptr;
                break;
            }
            case NULL_CODE:
                if (shim) NSEEL_code_free(nullptr); else projectm_eval_code_destroy(nullptr);
                break;
            case QUIT:
                for (int i = 0; i < o.a; i++) { if (shim) NSEEL_quit(); else projectm_eval_memory_global_destroy(); }
                break;
        }
    }
    void report(projectm_eval_context* c, bool shim) {
        int line = -1, column = -1;
        const char* n = projectm_eval_get_error(c, &line, &column);
        const char* e = shim ? NSEEL_code_getcodeerror(c) : n;
        add("error %s at %d:%d", e ? e : "none", line, column);
    }
};

void run_c22(Case& k) {
    Plan p;
    int n = k.range(6, 50);
    bool use_gram = k.chance(1, 3);
    gen::Opt go;
    go.max_depth = 3;
    go.max_nodes = 25;
    std::vector<std::string> names = {"a", "b", "x", "A", "_t", "reg00", "REG07", "reg99", "q_2", "other", "megabu", "Time"};
    if (k.chance(1, 6)) { // a long name, and one that is hardly different
        std::string s(1, 'n');
        int len = gen::boundary(k, k.chance(1, 4) ? 17000 : 600);
        for (int i = 1; i < len; i++) s += "abcdefgh_XY7"[(i * 5 + i / 12) % 12];
        names.push_back(s);
        names.push_back(gen::similar_name(k, s));
        go.vars.push_back(s);
    }
    static const char* texts[] = {"", "a=a+1", "gmegabuf(70000)=gmegabuf(70000)+1;x=gmegabuf(70000)", "x=gmem[1];gmem[1]=x+2", "megabuf(5)=megabuf(5)+1;b=megabuf(5)", "reg07=reg07+1;x=reg07", "b=megabuf(131072);megabuf(131072)=7", "a=sin(b)*100",
                                  "loop(5,a+=gmem[3]+=1)", "x=if(a>3,gmem[70001]=a,gmem[70001])", "memset(65530,a,20);b=memcpy(0,65530,12)[3]", "freembuf(1);x=megabuf(0)", "b=reg00+=gmem[70000]", "1=2", "x=exec3(a=1,b=2,a+b)"};
    auto pick_live = [&](auto pred, size_t size) {
        std::vector<int> v;
        for (size_t i = 0; i < size; i++) if (pred(i)) v.push_back((int) i);
        return v.empty() ? -1 : k.pick(v);
    };
    auto live_ctx = [&] { return pick_live([&](size_t i) { return p.ctxs[i].live; }, p.ctxs.size()); };
    bool quiet = false;
    auto push = [&](What w, int a = 0, int b = 0, const std::string& t = "", double v = 0) {
        Op o;
        o.what = w; o.a = a; o.b = b; o.text = t; o.v = v; o.via = k.range(0, 1);
        p.ops.push_back(o);
        if (quiet) return;
        static const char* wn[] = {"new context", "new context with buffer", "free context", "reset variables of", "register in", "set in", "free memory of", "new buffer", "free buffer", "compile in", "execute", "free code", "quit", "error of", "free no code", "give the buffer to"};
        k.note("%s %d %d ", wn[w], a, b);
        k.note_str(escape(t));
        if (w == SETVAR) k.note(" to %.17g", v);
        k.note("\n");
    };
    int compiled = 0, executed = 0, quits = 0;
    for (int i = 0; i < n; i++) {
        int c = live_ctx();
        if (c >= 0 && p.ctxs[(size_t) c].pending && k.chance(1, 3)) { push(SET_GRAM, c, p.ctxs[(size_t) c].buf); p.ctxs[(size_t) c].pending = false; }
        int w = c < 0 ? k.weighted({4, use_gram ? 2 : 0, 1}) : 3 + k.weighted({2, use_gram ? 2 : 0, 1, 1, 3, 3, 2, 6, 3, 7, 3, 1, 1, 1, 1});
        switch (w) {
            case 0: case 3: if (p.ctxs.size() < 8) { push(NEW_CTX); p.ctxs.push_back({true, -1}); } break;
            case 1: case 4: {
                int b = pick_live([&](size_t q) { return p.bufs[q] == 1; }, p.bufs.size());
                if (b < 0 || (p.bufs.size() < 3 && k.chance(1, 3))) { push(NEW_BUF); p.bufs.push_back(1); b = (int) p.bufs.size() - 1; }
                { int late = k.range(0, 2); push(NEW_CTX_GRAM, b, late); p.ctxs.push_back({true, b, late == 2}); }
                p.gram = true;
                break;
            }
            case 2: case 14: { // quit, when the built-in buffer is not in use
                bool used = false;
                for (auto& x : p.ctxs) used |= x.live && (x.buf < 0 || x.pending);
                if (used) {
                    if (k.chance(1, 2)) break;
                    for (size_t q = 0; q < p.ctxs.size(); q++)
                        if (p.ctxs[q].live && (p.ctxs[q].buf < 0 || p.ctxs[q].pending)) { push(FREE_CTX, (int) q); p.ctxs[q].live = false; }
                }
                push(QUIT, k.range(1, 2));
                quits++;
                break;
            }
            case 5: push(FREE_CTX, c); p.ctxs[(size_t) c].live = false; break;
            case 6: push(RESET, c); break;
            case 7: push(REGVAR, c, 0, k.pick(names)); break;
            case 8: push(SETVAR, c, 0, k.pick(names), k.pick({0.0, 1.0, -1.0, 2.5, 70000.0, 1e9, 5.0})); break;
            case 9: push(FREE_RAM, c); break;
            case 10: { // valid
                std::string t;
                if (p.ctxs[(size_t) c].pending) { // nothing that names a buffer
                    static const char* own[] = {"", "a=a+1", "b=a*2;a=b-1", "reg07=reg07+1;x=reg07", "a=sin(b)*100", "x=exec3(a=1,b=2,a+b)", "q_2=if(x>1,a,b)+3", "x=other=_t+1", "megabuf(5)=megabuf(5)+1;b=megabuf(5)"};
                    t = k.pick(own);
                } else if (k.chance(1, 2)) t = k.pick(texts);
                else {
                    Gen g(k, go);
                    NodeP q = g.program();
                    if (gen::heavy_constant_loops(q)) break;
                    t = "x=(" + print(q) + ")";
                }
                push(COMPILE, c, k.chance(1, 6) ? k.pick({1, 3, -2, 100}) : 0, t);
                p.codes.push_back({true, c});
                compiled++;
                break;
            }
            case 11: { // usually invalid
                if (p.ctxs[(size_t) c].pending) break;
                Gen g(k, go);
                auto tk = to_tokens(g.program());
                gen::mutate_tokens(k, tk, k.range(1, 3));
                std::string t = k.chance(1, 2) ? join(tk) : gen::random_layout(k, tk);
                if (gen::may_loop_long(t) || lower(t).find("rand") != std::string::npos) break;
                push(COMPILE, c, k.chance(1, 6) ? k.pick({1, 3, -2, 100}) : 0, t);
                p.codes.push_back({true, c});
                compiled++;
                break;
            }
            case 12: {
                int h = pick_live([&](size_t q) { return p.codes[q].live && p.ctxs[(size_t) p.codes[q].ctx].live; }, p.codes.size());
                if (h < 0) break;
                push(EXEC, h);
                executed++;
                // look at what it did
                push(REGVAR, p.codes[(size_t) h].ctx, 0, "x");
                push(REGVAR, p.codes[(size_t) h].ctx, 0, k.pick(names));
                break;
            }
            case 13: {
                int h = pick_live([&](size_t q) { return p.codes[q].live; }, p.codes.size());
                if (h < 0) break;
                push(FREE_CODE, h);
                p.codes[(size_t) h].live = false;
                break;
            }
            case 15: push(ERROR, c); break;
            case 16: { // a buffer without contexts
                int b = pick_live([&](size_t q) {
                    if (p.bufs[q] != 1) return false;
                    for (auto& x : p.ctxs) if (x.live && x.buf == (int) q) return false;
                    return true;
                }, p.bufs.size());
                if (b >= 0) { push(FREE_BUF, b); p.bufs[(size_t) b] = 0; }
                else push(NULL_CODE);
                break;
            }
            default: break;
        }
    }
    // everything visible at the end
    quiet = true;
    k.note("(everything visible is read, and everything is released)\n");
    for (size_t q = 0; q < p.ctxs.size(); q++)
        if (p.ctxs[q].live) {
            if (p.ctxs[q].pending) push(SET_GRAM, (int) q, p.ctxs[q].buf);
            for (auto& nm : names) push(REGVAR, (int) q, 0, nm);
            for (const char* s : {"x=gmem[1]", "x=gmegabuf(70000)", "x=gmegabuf(70001)", "x=gmem[3]", "x=megabuf(5)", "x=megabuf(131072)"}) {
                push(COMPILE, (int) q, 0, s);
                p.codes.push_back({true, (int) q});
                push(EXEC, (int) p.codes.size() - 1);
                push(REGVAR, (int) q, 0, "x");
            }
        }
    bool codes_first = k.chance(1, 2);
    for (int pass = 0; pass < 2; pass++) {
        if ((pass == 0) == codes_first) {
            for (size_t q = 0; q < p.codes.size(); q++) if (p.codes[q].live) push(FREE_CODE, (int) q);
        } else
            for (size_t q = 0; q < p.ctxs.size(); q++) if (p.ctxs[q].live) push(FREE_CTX, (int) q);
    }
    for (size_t q = 0; q < p.bufs.size(); q++) if (p.bufs[q]) push(FREE_BUF, (int) q);
    push(QUIT, 1);
    std::vector<std::string> logs[3];
    for (Mode m : {NATIVE, SHIM, MIXED}) {
        Runner r{k, m, {}, {}, {}, {}, {}, !p.gram};
        r.run(p);
        logs[m] = r.log;
        if (m != NATIVE)
            for (size_t i = 0; i < p.ops.size(); i++)
                if (logs[m][i] != logs[NATIVE][i]) k.fail("step %zu: %s through %s, %s through the native API", i + 1, logs[m][i].c_str(), mode_name[m], logs[NATIVE][i].c_str());
    }
    if (p.gram) k.label("with SetGRAM");
    if (quits) k.label("with NSEEL_quit inside the history");
    if (compiled && executed) k.nontrivial();
}

eng::Register r22({"C22", run_c22, 20000, 700000, 100,
    "histories of 6-50 calls (contexts, also with SetGRAM buffers, given at once or after variables and programs; registrations; valid and broken programs; executions; resets; frees; quits) run natively, through the shim, and with a random choice per call: handles or NULL, values, error texts, allocations, locks and the final balance must agree step by step; non-trivial: something compiled and executed",
    "SetGRAM is given a buffer of the native API (or NULL is not passed); lineoffs has no effect"});

}  // namespace
