// Generators of programs and states, and the common judging of programs against the model.
#pragma once
#include "eng.hpp"
#include "host.hpp"
#include "lang.hpp"
#include "model.hpp"

namespace gen {

using lang::NodeP;

struct Opt {
    std::vector<std::string> vars = {"a", "b", "c", "x1", "q_2", "_t"};
    std::vector<std::string> regs = {"reg00", "reg07", "reg99"};
    int max_depth = 5;
    int max_nodes = 60;
    int max_stmts = 6;
    int wide = 0;              // so many statements instead
    bool loops = true;
    bool mem = true, gmem = true, memops = true;
    bool assigns = true;
    bool transcendental = true;
    bool lists = true;
    bool oob = true;           // out-of-range and fractional indices
    bool styles = true;        // random aliases, parentheses, letter case
    bool value_lvalues = true; // assignments to things that are not references
    bool constants_only = false;
    int const_weight = 3;      // relative weight of literals among leaves
    bool big_literals = true;
};

class Gen {
public:
    eng::Case& k;
    Opt o;
    int nodes = 0;
    int loop_nest = 0;
    int counters = 0;
    Gen(eng::Case& kk, const Opt& oo) : k(kk), o(oo) {}

    NodeP program();
    NodeP stmt(int d);
    NodeP expr(int d);
    NodeP leaf();
    NodeP literal();
    NodeP lvalue(int d);
    NodeP variable();
    NodeP memref(int d);
    NodeP index(int d);
    NodeP loop_expr(int d);
    NodeP list_of(int d, int n);
    NodeP cond(int d);
    NodeP toggle();
    NodeP assign(int d);
    // random printing hints
    void decorate(const NodeP& n);
    bool full() const { return nodes >= o.max_nodes; }
};

// A literal with a random spelling; value within what the model handles exactly.
NodeP random_literal(eng::Case& k, bool big);
std::string random_case(eng::Case& k, const std::string& s);
double random_value(eng::Case& k);              // ordinary values for variables
double near_value(eng::Case& k, double v);      // equal to v, or hardly different
double extreme_value(eng::Case& k);             // any double, including infinities, NaN, integer limits
void random_state(eng::Case& k, const Opt& o, model::State& s);

struct Judged {
    bool ok = false;
    const char* why = "";
    model::Result r;       // LATE run
};
// Runs the program on copies of the state; on success s holds the state afterwards.
Judged judge(const NodeP& p, model::State& s, const model::Options& opt = {});

constexpr double kTol = 1e-9;
// Relative tolerance for the outcome of a program
inline double tolerance(const Judged& j) { return j.r.rounded ? kTol : 1e-15; }

// Would compiling the program make the compiler evaluate long constant loops?
bool heavy_constant_loops(const NodeP& n);

// Token-level layout: joins the tokens with random white space, line breaks and comments.
std::string random_layout(eng::Case& k, const std::vector<std::string>& toks, bool comments = true);

// Now and then: a program of very many small statements over very many variables
bool widen(eng::Case& k, Opt& o, int one_in);
// A size at or beside a power of two (or a power of ten), from 8 up to max
int boundary(eng::Case& k, int max);
// A variable name that differs from the given one in one or two characters only (not in their case)
std::string similar_name(eng::Case& k, const std::string& name);
// Text that is nothing but separators: n line breaks, blanks, comment characters, empty or trivial statements
std::string filler(eng::Case& k, int n);

// A text that is (almost always) refused, with a lot of valid syntax (many arguments, statements, nested parentheses, subscripts,
// calls) before or around the mistake; uses the variables a to d, and reg05
std::string broken(eng::Case& k);

// Tokens to build nearly valid texts from, and things that are no tokens
const char* soup_token(eng::Case& k);
std::string strange_name(eng::Case& k);
const char* bad_token(eng::Case& k);
void mutate_tokens(eng::Case& k, std::vector<std::string>& t, int muts);
int loop_words(const std::string& text);
// Compiling (part of) the text might evaluate nested constant loops
bool may_loop_long(const std::string& text);

}  // namespace gen
