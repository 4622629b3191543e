#include "demo.h"
int main(void) {
 C* c = mk(); H* h = projectm_eval_code_compile(c, "x=.;"); CHECK(!h); h = projectm_eval_code_compile(c, "x=.5;"); CHECK(h); projectm_eval_context_destroy(c);
DONE;
}
