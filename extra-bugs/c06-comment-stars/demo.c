#include "demo.h"
int main(void) {
 C* c = mk(); CHECK(run(c, "x=1; /* a **/ x=2; /* b */ x") == 2); projectm_eval_context_destroy(c);
DONE;
}
