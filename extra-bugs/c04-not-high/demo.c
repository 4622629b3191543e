#include "demo.h"
int main(void) {
 C* c = mk(); CHECK(run(c, "!2^0") == 0); CHECK(run(c, "x=2;y=0;!x^y") == 0); projectm_eval_context_destroy(c);
DONE;
}
