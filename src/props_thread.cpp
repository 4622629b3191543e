// C25: contexts of different threads. Linked with a ThreadSanitizer build of the library.
#include "common.hpp"

#include <algorithm>
#include <pthread.h>

using namespace lang;

extern "C" const char* __tsan_default_options() {
    return "halt_on_error=1:exitcode=77:report_bugs=1:report_thread_leaks=0:report_signal_unsafe=0:report_destroy_locked=0:"
           "second_deadlock_stack=0:history_size=4:symbolize=0:die_after_fork=0:atexit_sleep_ms=0";
}

namespace {

struct Step {
    enum What { CREATE, DESTROY, SET, GET, COMPILE, EXEC, FREE_CODE, RESET, FREE_MEM, ERROR, PEEK, QUIET_CODE } what;
    int ctx = 0, code = 0, n = 1;
    std::string text;
    double v = 0;
    bool own_buf = true, own_regs = true;
};
const char* what_name[] = {"create context", "destroy context", "set", "get", "compile", "execute", "destroy code", "reset variables", "free memory", "error", "read slots", "destroy no code"};

// Everything one thread does, on objects of its own.
struct Script { std::vector<Step> steps; };

struct Actor {
    struct C { projectm_eval_context* c = nullptr; projectm_eval_mem_buffer buf = nullptr; double (*regs)[100] = nullptr; };
    const Script* s;
    std::vector<std::string> log;
    std::vector<C> ctxs;
    std::vector<projectm_eval_code*> codes;
    pthread_barrier_t* barrier = nullptr;

    void add(const char* fmt, ...) __attribute__((format(printf, 2, 3))) {
        char b[700];
        va_list ap;
        va_start(ap, fmt);
        vsnprintf(b, sizeof b, fmt, ap);
        va_end(ap);
        log.back() += b;
        log.back() += ' ';
    }
    void run() {
        log.clear();
        for (const Step& x : s->steps) { log.push_back(""); one(x); }
        for (auto* h : codes) if (h) projectm_eval_code_destroy(h);
        for (C& c : ctxs) drop(c);
        codes.clear();
        ctxs.clear();
    }
    void drop(C& c) {
        if (c.c) projectm_eval_context_destroy(c.c);
        if (c.buf) projectm_eval_memory_buffer_destroy(c.buf);
        free(c.regs);
        c = C();
    }
    void one(const Step& x) {
        switch (x.what) {
            case Step::CREATE: {
                C c;
                if (x.own_buf) c.buf = projectm_eval_memory_buffer_create();
                if (x.own_regs) c.regs = (double (*)[100]) calloc(100, sizeof(double));
                c.c = projectm_eval_context_create(c.buf, c.regs);
                add("%s", c.c ? "context" : "NULL");
                ctxs.push_back(c);
                break;
            }
            case Step::DESTROY: drop(ctxs[(size_t) x.ctx]); break;
            case Step::SET: case Step::GET: {
                double* p = projectm_eval_context_register_variable(ctxs[(size_t) x.ctx].c, x.text.c_str());
                if (!p) { add("no variable"); break; }
                add("%a", *p);
                if (x.what == Step::SET) *p = x.v;
                break;
            }
            case Step::COMPILE: {
                std::vector<char> t(x.text.c_str(), x.text.c_str() + x.text.size() + 1);
                auto* h = projectm_eval_code_compile(ctxs[(size_t) x.ctx].c, t.data());
                codes.push_back(h);
                add("%s", h ? "handle" : "NULL");
                error(ctxs[(size_t) x.ctx].c);
                break;
            }
            case Step::EXEC:
                if (codes[(size_t) x.code]) for (int i = 0; i < x.n; i++) add("%a", projectm_eval_code_execute(codes[(size_t) x.code]));
                break;
            case Step::FREE_CODE:
                if (codes[(size_t) x.code]) projectm_eval_code_destroy(codes[(size_t) x.code]);
                codes[(size_t) x.code] = nullptr;
                break;
            case Step::RESET: projectm_eval_context_reset_variables(ctxs[(size_t) x.ctx].c); break;
            case Step::FREE_MEM: projectm_eval_context_free_memory(ctxs[(size_t) x.ctx].c); break;
            case Step::ERROR: error(ctxs[(size_t) x.ctx].c); break;
            case Step::PEEK: {
                auto* c = ctxs[(size_t) x.ctx].c;
                for (const char* v : {"a", "b", "c", "x1"}) add("%a", *projectm_eval_context_register_variable(c, v));
                const char* t = x.own_buf ? "exec3(r1=megabuf(0)+megabuf(1)*3,r1+=5[]*7+megabuf(65536)*11,r1+=gmem[2]*13+gmegabuf(70000)*17)" : "exec2(r1=megabuf(0)+megabuf(1)*3,r1+=5[]*7+megabuf(65536)*11)";
                auto* h = projectm_eval_code_compile(c, t);
                add("slots %a", h ? projectm_eval_code_execute(h) : -1.0);
                if (h) projectm_eval_code_destroy(h);
                break;
            }
            case Step::QUIET_CODE: projectm_eval_code_destroy(nullptr); break;
        }
    }
    void error(projectm_eval_context* c) {
        int line = -1, col = -1;
        const char* e = projectm_eval_get_error(c, &line, &col);
        if (e) add("error '%s' at %d:%d", e, line, col); else add("no error");
    }
    static void* thread(void* p) {
        auto* a = (Actor*) p;
        pthread_barrier_wait(a->barrier);
        a->run();
        return nullptr;
    }
};

std::string program_text(Case& k, bool gmem, bool regs) {
    static const char* fixed[] = {"loop(5,a+=1;megabuf(a)=b)", "n=4;while(b+=n;n-=1)", "memset(0,3,20);memcpy(65530,0,12);a=megabuf(65533)", "freembuf(a);a=megabuf(1)+=1", "x1=loop(3,c=if(c>2,sin(c),c+1))",
                                  "a=invsqrt(b+2)+atan2(a,c)+sigmoid(a,b)", "memcpy(5,0,70000);0[1]=4", "a=b%7|c&3;b^=2;c%=5", "a=$xFF+$'a'+1.5e-3+$PI", "megabuf(131072*(a&3))=b;c=megabuf(131072)", "a=sign(b)*sqr(c)+int(b/2)+floor(c)",
                                  "a=1,", "a=sin()", "b=(1", "1+*2", "a=0x", "megabuf(1,2)", "sin=3", "/* */ a=c /* x */;// end"};
    if (k.chance(2, 5)) return k.pick(fixed);
    gen::Opt o;
    o.max_depth = k.range(2, 4);
    o.max_nodes = 40;
    o.max_stmts = 4;
    o.loops = false;
    o.gmem = gmem;
    o.vars = {"a", "b", "c", "x1"};
    if (!regs) o.regs.clear();
    Gen g(k, o);
    NodeP p = k.chance(1, 3) ? nullptr : g.program();
    if (!p) { // one function of variables
        const FnName& f = kFunctions[k.draw((uint32_t) kFunctionCount)];
        if (f.fn == RAND || f.fn == LOOP || f.fn == WHILE || (!gmem && f.fn == GMEM)) return "a=b+c";
        std::vector<NodeP> a;
        for (int q = 0; q < f.arity; q++) a.push_back(k.chance(1, 4) ? g.expr(1) : var(k.pick(o.vars)));
        p = mk(SET, {var(k.pick(o.vars)), mk(f.fn, a)});
    }
    if (k.chance(1, 8)) { auto t = to_tokens(p); gen::mutate_tokens(k, t, 1); std::string s = join(t); if (!gen::may_loop_long(s) && lower(s).find("rand") == std::string::npos && (gmem || lower(s).find("gmem") == std::string::npos) && (regs || lower(s).find("reg") == std::string::npos) && !gen::loop_words(s)) return s; }
    return k.chance(1, 3) ? gen::random_layout(k, to_tokens(p)) : print(p);
}

void run_c25(Case& k) {
    int nt = k.range(2, 3);
    // Threads first, then the same histories alone: in a process's first case nothing of the library was used before.
    bool first_use = k.chance(1, 2);
    std::vector<Script> scripts((size_t) nt);
    std::vector<std::string> pool;    // texts also used by other threads
    int compiled = 0, executed = 0;
    for (int t = 0; t < nt; t++) {
        Script& s = scripts[(size_t) t];
        struct PC { bool live, buf, regs; };
        struct PH { bool live; int ctx; };
        std::vector<PC> cs;
        std::vector<PH> hs;
        k.note("thread %d:\n", t + 1);
        auto push = [&](Step x) {
            if (x.what == Step::CREATE) k.note(" %s (%s buffer, %s registers)\n", what_name[x.what], x.own_buf ? "own" : "no", x.own_regs ? "own" : "no");
            else {
                k.note(" %s", what_name[x.what]);
                if (x.what == Step::EXEC || x.what == Step::FREE_CODE) k.note(" %d x%d", x.code, x.n); else k.note(" in %d ", x.ctx);
                k.note_str(escape(x.text));
                if (x.what == Step::SET) k.note("=%.17g", x.v);
                k.note("\n");
            }
            s.steps.push_back(std::move(x));
        };
        auto create = [&] {
            Step x{Step::CREATE};
            x.own_buf = !k.chance(1, 4) || first_use;
            x.own_regs = !k.chance(1, 4);
            cs.push_back({true, x.own_buf, x.own_regs});
            push(x);
        };
        create();
        int n = k.range(3, 14);
        for (int i = 0; i < n; i++) {
            std::vector<int> lc, lh;
            for (size_t q = 0; q < cs.size(); q++) if (cs[q].live) lc.push_back((int) q);
            if (lc.empty()) { create(); continue; }
            int c = k.pick(lc);
            for (size_t q = 0; q < hs.size(); q++) if (hs[q].live && cs[(size_t) hs[q].ctx].live) lh.push_back((int) q);
            static const char* names[] = {"a", "b", "c", "x1", "A", "newname", "q_2"};
            switch (k.weighted({6, 6, 3, 2, 2, 1, 1, 1, 1, 1, 1})) {
                case 0: {
                    Step x{Step::COMPILE};
                    x.ctx = c;
                    bool shared = !pool.empty() && k.chance(1, 2) && cs[(size_t) c].buf && cs[(size_t) c].regs;
                    x.text = shared ? k.pick(pool) : program_text(k, cs[(size_t) c].buf, cs[(size_t) c].regs);
                    if (!shared) pool.push_back(x.text);
                    push(x);
                    hs.push_back({true, c});
                    compiled++;
                    break;
                }
                case 1: if (!lh.empty()) { Step x{Step::EXEC}; x.code = k.pick(lh); x.n = k.range(1, 3); push(x); executed++; } break;
                case 2: { Step x{Step::SET}; x.ctx = c; x.text = k.pick(names); x.v = gen::random_value(k); push(x); break; }
                case 3: { Step x{Step::GET}; x.ctx = c; x.text = k.pick(names); push(x); break; }
                case 4: { Step x{Step::PEEK}; x.ctx = c; x.own_buf = cs[(size_t) c].buf; push(x); break; }
                case 5: if (!lh.empty()) { Step x{Step::FREE_CODE}; x.code = k.pick(lh); hs[(size_t) x.code].live = false; push(x); } break;
                case 6: { Step x{Step::RESET}; x.ctx = c; push(x); break; }
                case 7: { Step x{Step::FREE_MEM}; x.ctx = c; push(x); break; }
                case 8: { Step x{Step::ERROR}; x.ctx = c; push(x); break; }
                case 9: if (cs.size() < 4) create(); break;
                default: // the handles are released first
                    for (size_t q = 0; q < hs.size(); q++) if (hs[q].live && hs[q].ctx == c) { Step x{Step::FREE_CODE}; x.code = (int) q; hs[q].live = false; push(x); }
                    { Step x{Step::DESTROY}; x.ctx = c; cs[(size_t) c].live = false; push(x); }
            }
        }
    }
    // The built-in buffer exists before and while threads run (its first use is C19's).
    std::unique_ptr<Ctx> base(first_use ? nullptr : new Ctx);
    std::vector<std::vector<std::string>> alone;
    auto run_alone = [&] { for (Script& s : scripts) { Actor a{&s, {}, {}, {}}; a.run(); alone.push_back(a.log); } };
    if (!first_use) run_alone();
    for (int round = 0; round < 2; round++) {
        pthread_barrier_t barrier;
        pthread_barrier_init(&barrier, nullptr, (unsigned) nt);
        std::vector<Actor> actors;
        for (Script& s : scripts) { actors.push_back(Actor{&s, {}, {}, {}}); actors.back().barrier = &barrier; }
        std::vector<pthread_t> th((size_t) nt);
        int started = 0;
        for (int t = 0; t < nt; t++) started += pthread_create(&th[(size_t) t], nullptr, Actor::thread, &actors[(size_t) t]) == 0;
        if (started != nt) { for (int t = 0; t < started; t++) pthread_detach(th[(size_t) t]); fprintf(stderr, "no threads\n"); k.fail("the system refuses threads"); }
        for (int t = 0; t < nt; t++) pthread_join(th[(size_t) t], nullptr);
        pthread_barrier_destroy(&barrier);
        if (alone.empty()) run_alone();
        for (int t = 0; t < nt; t++)
            for (size_t i = 0; i < alone[(size_t) t].size(); i++)
                if (actors[(size_t) t].log[i] != alone[(size_t) t][i]) k.fail("thread %d, step %zu (%s): alone: %s; with other threads: %s", t + 1, i + 1, what_name[scripts[(size_t) t].steps[i].what], alone[(size_t) t][i].c_str(), actors[(size_t) t].log[i].c_str());
        if (!host::lock_error().empty()) k.fail("%s", host::lock_error().c_str());
    }
    if (compiled >= 2 && executed >= 1) k.nontrivial();
    k.label(nt == 2 ? "two threads" : "three threads");
    if (executed) k.label("with executions");
    if (first_use) k.label("threads before anything else");
}

eng::Register r25({"C25", run_c25, 12000, 400000, 8,
    "2-3 threads released together, each with a generated history of up to 14 calls (contexts, variables, valid and broken programs, executions, resets, frees) on objects of its own, partly with the same texts; under ThreadSanitizer, twice, compared bit for bit with what each history does alone (before, or afterwards: in every eighth case or so the threads are the first to use the library in their process); non-trivial: at least two compilations and an execution",
    "programs drawing random numbers, register arrays or global buffers used by two threads, and the first creation of the built-in buffer are excluded; ThreadSanitizer sees accesses of the library's own code only", nullptr, 0, 0, nullptr, true});

}  // namespace
