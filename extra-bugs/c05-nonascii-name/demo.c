#include "demo.h"
int main(void) {
C* c = mk(); CHECK(!projectm_eval_code_compile(c, "a\xc3\xa4=1;")); projectm_eval_context_destroy(c);
DONE;
}
