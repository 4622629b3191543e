// Independent description of the expression language: lexer, parser, AST, printer.
// Written from docs/Expression-Syntax.md and docs/Compiler-Internals.md, not from the generated code.
#pragma once
#include <cstdint>
#include <memory>
#include <string>
#include <vector>

namespace lang {

enum Fn {
    NUMLIT, VARREF, LIST,
    IF, AND, OR, LOOP, WHILE, NOT, EQ, NE, LT, GT, LE, GE,
    SET, ADDOP, SUBOP, MULOP, DIVOP, MODOP, OROP, ANDOP, POWOP,
    ADD, SUB, MUL, DIV, MOD, POW, BITAND, BITOR, NEG,
    SIN, COS, TAN, ASIN, ACOS, ATAN, ATAN2, SQR, SQRT, EXP, LOG, LOG10, ABS, MIN, MAX, SIGN, RAND,
    FLOOR, INT, CEIL, INVSQRT, SIGMOID, BAND, BOR, EXEC2, EXEC3,
    MEM, GMEM, FREEMBUF, MEMCPY, MEMSET,
    FN_COUNT
};

struct FnName { const char* name; Fn fn; int arity; };
extern const FnName kFunctions[];
extern const int kFunctionCount;
const FnName* find_function(const std::string& name);   // case-insensitive
int fn_arity(Fn f);
const char* fn_name(Fn f);                               // canonical call name, or nullptr
std::vector<const char*> fn_aliases(Fn f);
bool is_assign(Fn f);
std::string lower(const std::string& s);

struct Node;
using NodeP = std::shared_ptr<Node>;
struct Node {
    Fn fn;
    double num = 0;
    std::string name;          // variable name, or literal spelling if non-empty
    std::vector<NodeP> a;      // operands; LIST: the expressions
    // printing hints
    int style = 0;             // 0: operator if there is one, otherwise function; k>0: k-th function alias
    bool paren = false;        // redundant parentheses
    NodeP lit_call_args;
};
NodeP num(double v);
NodeP numlit(double v, const std::string& spelling);
NodeP var(const std::string& n);
NodeP mk(Fn f, std::vector<NodeP> a);
NodeP list(std::vector<NodeP> a);
NodeP clone(const NodeP& n);
bool same(const NodeP& x, const NodeP& y);      // structural equality (ignores style, case of names)
int count_nodes(const NodeP& n);
std::string num_text(double v);                  // shortest decimal spelling that reads back as v (v finite, >= 0)

enum TokKind { T_NUM, T_VAR, T_FUNC, T_GMEM, T_OP, T_BAD, T_END };
struct Tok {
    TokKind kind;
    std::string text;
    double num = 0;
    int line = 1, col = 1;
};

struct LexResult {
    std::vector<Tok> toks;     // ends with T_END
    bool unterminated_comment = false;
};
LexResult lex(const std::string& text);
double literal_value(const std::string& spelling);  // for T_NUM tokens

struct ParseResult {
    bool ok = false;
    NodeP ast;                 // null for an empty program
    int err_tok = -1;          // first offending token (syntax), or first token of the wrong-arity call
    bool arity = false;
    int expected = 0, given = 0;   // then: numbers of arguments
    bool ambiguous_err = false;  // more than one defensible error position
    int err_tok2 = -1;
    bool too_deep = false;
    int max_depth = 0;
};
ParseResult parse(const std::vector<Tok>& toks);
ParseResult parse_text(const std::string& text);

// Printing
std::vector<std::string> to_tokens(const NodeP& program);            // program: LIST or any expression
std::vector<std::string> to_tokens_full(const NodeP& program);       // fully parenthesised
std::string join(const std::vector<std::string>& toks);              // minimal white space
bool need_space(const std::string& a, const std::string& b);
std::string print(const NodeP& program);
std::string escape(const std::string& s);                            // for messages

}  // namespace lang
