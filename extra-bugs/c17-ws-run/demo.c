#include "demo.h"
int main(void) {
 C* c = mk(); int l=0, a=0, b=0; CHECK(!projectm_eval_code_compile(c, "x=1;\n\n  x=)")); projectm_eval_get_error(c, &l, &a); CHECK(l==3); C* d = mk(); int l2=0,a2=0; CHECK(!projectm_eval_code_compile(d, "\n\n  x=)")); projectm_eval_get_error(d,&l2,&a2); CHECK(a==a2); CHECK(!projectm_eval_code_compile(d, "  x=)")); projectm_eval_get_error(d,&l2,&a2); CHECK(a==a2); projectm_eval_context_destroy(c);projectm_eval_context_destroy(d);
DONE;
}
