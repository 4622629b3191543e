// C26: storage in use over long histories
#include "common.hpp"

#include <algorithm>
#include <cmath>

using namespace lang;

namespace {

constexpr long kRegion = 65536, kRegionBytes = kRegion * 8;

struct Account { long blocks; long bytes; };
Account now() { host::AllocStats s = host::live(); return {s.blocks, (long) s.bytes}; }

// A program with the regions it may access (by buffer) on every execution
struct P {
    std::string text;
    std::set<int> reg[2];   // all it may touch
    std::set<int> sure[2];  // those it writes, or reads for its result, slot by slot
    std::set<int> written[2]; // those it writes slot by slot
    bool known = true;      // false: its accesses are not known, it is only compiled
};

void run_c26(Case& k) {
    static const std::vector<std::string> vars = {"a", "b", "c", "x1", "q_2", "_t", "i", "n", "w0", "w1", "w2", "w3", "w4", "w5", "w6", "w7"};
    struct C {
        std::unique_ptr<Buffer> buf;
        std::unique_ptr<Ctx> c;
        std::set<int> have[2];     // regions certainly accessed since the buffer was made or freed
        std::set<int> may[2];      // and those perhaps accessed
        std::set<int> wrote[2];    // those certainly written
        long obtained = 0;         // by executions, since then
    };
    struct H { size_t ctx; size_t prog; projectm_eval_code* h; int runs; };
    std::vector<P> progs;
    auto region_of = [](double i) -> int { return i >= 0 && i < 8388608 ? (int) i / (int) kRegion : -1; };
    auto make_program = [&] {
        P p;
        auto use = [&](int g, double i, bool sure = false, bool written = false) { int r = region_of(i); if (r >= 0) { p.reg[g].insert(r); if (sure) p.sure[g].insert(r); if (written) p.written[g].insert(r); } };
        auto slot = [&]() -> double {
            static const double s[] = {0, 5, 65535, 65536, 65537, 131071, 131072, 200000, 1000000, 4194304, 8388607, 8388608, -1, -70000, 1e12, 8323072};
            return k.pick(s);
        };
        switch (k.weighted({4, 2, 1, 2})) {
            case 0: {
                int n = k.range(1, 4);
                for (int j = 0; j < n; j++) {
                    char t[200];
                    double s = slot(), d = slot();
                    int cnt = k.pick({0, 1, 10, 65536, 70000, 131072, 200000});
                    switch (k.range(0, 6)) {
                        case 0: snprintf(t, sizeof t, "megabuf(%.0f)=a;", s); use(0, s, true, true); break;
                        case 1: snprintf(t, sizeof t, "b=gmegabuf(%.0f)+1;", s); use(1, s, true); break;
                        case 2: snprintf(t, sizeof t, "gmem[%.0f]+=1;", s); use(1, s, true, true); break;
                        case 3:
                            if (s > 1e9) s = 100;
                            snprintf(t, sizeof t, "memset(%.0f,b,%d);", s, cnt);
                            for (double q = s; q < s + cnt; q++) use(0, q);
                            break;
                        case 4:
                            if (s > 1e9) s = 100;
                            if (d > 1e9) d = 3;
                            snprintf(t, sizeof t, "memcpy(%.0f,%.0f,%d);", d, s, cnt);
                            for (double q = 0; q < cnt; q++) if (d + q >= 0 && s + q >= 0 && d + q < 8388608 && s + q < 8388608) { use(0, s + q); use(0, d + q); }
                            break;
                        case 5: { int m = k.range(1, 6); snprintf(t, sizeof t, "i=0;loop(%d,megabuf(i)+=i;i+=65536);", m); for (int q = 0; q < m; q++) use(0, q * 65536.0, true, true); break; }
                        default: snprintf(t, sizeof t, "c=exec2(megabuf(%.0f),gmegabuf(%.0f));", s, d); use(0, s); use(1, d, true); break;
                    }
                    p.text += t;
                }
                break;
            }
            case 1: { // no memory access
                gen::Opt o;
                o.max_depth = k.range(2, 5);
                o.max_nodes = 50;
                o.mem = o.gmem = o.memops = false;
                o.loops = k.chance(1, 2);
                Gen g(k, o);
                NodeP q = g.program();
                if (gen::heavy_constant_loops(q)) q = num(1);
                p.text = k.chance(1, 3) ? gen::random_layout(k, to_tokens(q)) : print(q);
                break;
            }
            case 2: { // any accesses: compiled only
                gen::Opt o;
                o.max_depth = k.range(2, 4);
                o.loops = false;
                Gen g(k, o);
                NodeP q = g.program();
                p.text = print(q);
                p.known = false;
                break;
            }
            default: {
                static const char* t[] = {"a=a+1", "a=rand(10)", "loop(50,a+=sin(b);b=if(a>1,0,b+1))", "n=20;while(a+=1;n-=1)", "a=sin(1)+cos(2)*3", "", "freembuf(3);a=1", "a=exec3(b=2,c=3,b+c)", "reg07=reg07+1;reg99=a"};
                p.text = k.pick(t);
                std::string n = std::to_string(gen::boundary(k, 5000));
                switch (k.range(0, 5)) {
                    case 0: p.text = "loop(" + n + ",a+=1)"; break;
                    case 1: p.text = "n=" + n + ";while(a+=1;n-=1)"; break;
                    case 2: p.text = "n=" + n + ";loop(n,b=pow(a,2)+sin(b)-if(n,rand(3),c);n-=1);" + p.text; break;
                    default: break;
                }
            }
        }
        return p;
    };
    int np = k.range(1, 4);
    for (int q = 0; q < np; q++) {
        progs.push_back(make_program());
        k.note("program %d: ", q);
        k.note_str(escape(progs.back().text));
        k.note("\n");
    }
    std::vector<std::unique_ptr<C>> cs;
    int nc = k.range(1, 2);
    for (int q = 0; q < nc; q++) {
        auto c = std::make_unique<C>();
        c->buf = std::make_unique<Buffer>();
        Account a0 = now();
        c->c = std::make_unique<Ctx>(c->buf->b);
        if (now().bytes - a0.bytes > 65536) k.fail("creating a context obtained %ld bytes", now().bytes - a0.bytes);
        for (auto& v : vars) c->c->var(v);
        // one compilation and execution of everything first
        for (const char* t : {"a=1", "a=", "1;2"}) { Code h(*c->c, t); if (h) h.run(); }
        cs.push_back(std::move(c));
    }
    std::vector<H> hs;
    int n = k.range(4, 20), judged = 0, repeated = 0;
    long made = 0;
    auto flat = [&](Account a, const char* what, bool blocks = true) {
        Account b = now();
        if (b.bytes != a.bytes || (blocks && b.blocks != a.blocks)) k.fail("%s: %ld bytes in %ld allocations before, %ld bytes in %ld allocations after", what, a.bytes, a.blocks, b.bytes, b.blocks);
        judged++;
    };
    auto execute = [&](H& h, int times) {
        C& c = *cs[h.ctx];
        P& p = progs[h.prog];
        for (int t = 0; t < times; t++) {
            Account a = now();
            long fresh = 0, unwritten = 0;   // storage may be obtained by the first access, or by the first write
            for (int g = 0; g < 2; g++) for (int r : p.reg[g]) { fresh += !c.have[g].count(r); unwritten += !c.wrote[g].count(r); }
            projectm_eval_code_execute(h.h);
            Account b = now();
            if (fresh == 0 && h.runs > 0 && !(unwritten && b.bytes - a.bytes >= kRegionBytes)) { flat(a, "executing code again"); repeated++; }
            else {
                long max = unwritten * (kRegionBytes + 256) + (h.runs ? 0 : 4096);
                if (b.bytes - a.bytes > max) k.fail("executing code that accesses at most %ld new regions of 65536 slots obtained %ld bytes", unwritten, b.bytes - a.bytes);
                for (int g = 0; g < 2; g++) c.may[g].insert(p.reg[g].begin(), p.reg[g].end());
                c.obtained += b.bytes - a.bytes;
                max = (long) (c.may[0].size() + c.may[1].size()) * (kRegionBytes + 256) + 4096 * made;
                if (c.obtained > max) k.fail("executing code that accessed %zu regions of 65536 slots obtained %ld bytes so far", c.may[0].size() + c.may[1].size(), c.obtained);
                if (b.bytes < a.bytes) k.fail("executing code released %ld bytes", a.bytes - b.bytes);
                judged++;
            }
            for (int g = 0; g < 2; g++) { c.have[g].insert(p.sure[g].begin(), p.sure[g].end()); c.wrote[g].insert(p.written[g].begin(), p.written[g].end()); }
            h.runs++;
        }
    };
    for (int i = 0; i < n; i++) {
        size_t ci = k.draw((uint32_t) cs.size());
        C& c = *cs[ci];
        switch (k.weighted({5, 7, 3, 3, 2, 2, 2, 1})) {
            case 0: {
                size_t pi = k.draw((uint32_t) progs.size());
                k.note("compile program %zu in context %zu\n", pi, ci);
                projectm_eval_code* h = c.c->compile(progs[pi].text);
                if (!h && !progs[pi].text.empty() && progs[pi].known) k.fail("refused: %s", c.c->error().c_str());
                if (h) { hs.push_back({ci, pi, h, 0}); made++; }
                break;
            }
            case 1: {
                if (hs.empty()) break;
                H& h = hs[k.draw((uint32_t) hs.size())];
                if (!progs[h.prog].known) break;
                int times = k.pick({1, 2, 3, 60});
                if (times == 60) for (int g = 0; g < 2; g++) if (progs[h.prog].reg[g].size() > 2) times = 4;
                k.note("execute program %zu in context %zu %d times\n", h.prog, h.ctx, times);
                execute(h, times);
                break;
            }
            case 2: { // compile and destroy
                size_t pi = k.draw((uint32_t) progs.size());
                int times = k.pick({1, 2, 20});
                k.note("compile and destroy program %zu in context %zu %d times\n", pi, ci, times);
                { Code settle(*c.c, progs[pi].text); }
                Account a = now();
                for (int t = 0; t < times; t++) { Code h(*c.c, progs[pi].text); }
                flat(a, "compiling and destroying code");
                break;
            }
            case 3: { // broken code
                static const char* t[] = {"a=", "1+*2", "sin()", "(a", "a b", "b=megabuf(1,2)", "a=1;b=2;c=(3;", "unknown_fn(a)", "a=$q", "loop(3,a=)", "a=exec2(b,)", "if(a,b)"};
                std::string s = k.chance(1, 2) ? k.pick(t) : gen::broken(k);
                if (gen::may_loop_long(s)) break;
                int times = k.pick({1, 3, 20});
                k.note("compile %s in context %zu %d times\n", s.c_str(), ci, times);
                { Code x(*c.c, s); Code y(*c.c, "a=a"); }
                Account a = now();
                for (int q = 0; q < times; q++) { Code h(*c.c, s); }
                if (k.chance(1, 2)) { // a pending error may be read as often as one likes
                    Code z(*c.c, k.pick({"a=", "b=sin(1,2)", "a b"}));
                    int line, col;
                    projectm_eval_get_error(c.c->c, &line, &col);
                    Account r = now();
                    for (int q = k.pick({1, 2, 50, 1000}); q-- > 0;) {
                        if (!projectm_eval_get_error(c.c->c, k.chance(1, 2) ? &line : nullptr, k.chance(1, 2) ? &col : nullptr)) k.fail("no error after a failed compilation");
                    }
                    flat(r, "reading an error");
                }
                { Code y(*c.c, "a=a"); }
                flat(a, "failed compilations followed by a valid one");
                break;
            }
            case 4: {
                Account a = now();
                k.note("look at variables and errors of context %zu\n", ci);
                for (auto& v : vars) { std::string s = v; for (char& ch : s) if (k.chance(1, 2)) ch = (char) toupper(ch); c.c->var(s); }
                for (int q = 0; q < 100; q += 7) { char b[8]; snprintf(b, sizeof b, "reg%02d", q); c.c->var(b); }
                c.c->has_error();
                flat(a, "registering known names");
                break;
            }
            case 5: {
                Account a = now();
                k.note("reset the variables of context %zu\n", ci);
                projectm_eval_context_reset_variables(c.c->c);
                flat(a, "resetting variables");
                break;
            }
            case 6: { // storage of the local buffer is given back, and no other
                k.note("free the memory of context %zu\n", ci);
                Account a = now();
                projectm_eval_context_free_memory(c.c->c);
                c.obtained -= a.bytes - now().bytes;
                a = now();
                c.have[0].clear();
                c.may[0].clear();
                c.wrote[0].clear();
                // Freeing twice gives nothing more; using it again needs what it needed the first time
                projectm_eval_context_free_memory(c.c->c);
                flat(a, "freeing freed memory");
                static const int at[] = {0, 3, 17, 127};
                int r = k.pick(at);
                { // the blocks obtained by several writes are given back when freed
                    std::string t;
                    for (int q = k.range(1, 4); q-- > 0;) t += "megabuf(" + std::to_string(((r + q * 13) % 128) * 65536 + 7 * q) + ")=" + k.pick({"1", "a", "0", "b=2"}) + ";";
                    Code w(*c.c, t);
                    a = now();
                    w.run();
                    projectm_eval_context_free_memory(c.c->c);
                    if (now().bytes - a.bytes > kRegionBytes / 4) k.fail("freeing the memory after %s keeps %ld bytes", t.c_str(), now().bytes - a.bytes);
                }
                { Code w(*c.c, "megabuf(" + std::to_string(r * 65536 + 9) + ")=1"); w.run(); }
                { Code e(*c.c, "a=a"); }
                projectm_eval_context_free_memory(c.c->c);
                Account b = now();
                { Code w(*c.c, "megabuf(" + std::to_string(r * 65536 + 9) + ")=1"); Account x = now(); w.run(); if (now().bytes - x.bytes > kRegionBytes + 256) k.fail("one slot needs %ld bytes", now().bytes - x.bytes); }
                projectm_eval_context_free_memory(c.c->c);
                flat(b, "using and freeing memory");
                break;
            }
            default: {
                if (hs.empty()) break;
                size_t q = k.draw((uint32_t) hs.size());
                k.note("destroy a handle of program %zu\n", hs[q].prog);
                Account a = now();
                projectm_eval_code_destroy(hs[q].h);
                if (now().bytes > a.bytes) k.fail("destroying code obtained storage");
                hs.erase(hs.begin() + (long) q);
                break;
            }
        }
    }
    // A context's life leaves nothing behind while others live on
    {
        Account a = now();
        for (int q = 0; q < 2; q++) { Ctx t(cs[0]->buf->b); Code h(t, "a=1;megabuf(5)=a;u1=u2=3"); h.run(); Code e(t, "a="); }
        flat(a, "the life of another context");
    }
    for (auto& h : hs) projectm_eval_code_destroy(h.h);
    hs.clear();
    if (judged >= 4) k.nontrivial();
    if (repeated) k.label("with repeated executions");
    k.label("histories");
}

eng::Register r26({"C26", run_c26, 20000, 600000, 100,
    "histories of 4-20 steps over 1-2 contexts and 1-4 programs with known memory regions or none: executions up to 60 times, repeated compilations of valid and broken texts, lookups, resets, frees; the library's live allocations must not change except by one block per region of 65536 slots accessed for the first time; non-trivial: at least four measurements",
    "the first execution of a handle may obtain up to 4096 further bytes; storage is measured between calls, not within"});

}  // namespace
