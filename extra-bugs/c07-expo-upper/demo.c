#include "demo.h"
int main(void) {
 C* c = mk(); CHECK(run(c, "x=1e-100") == 1e-100); projectm_eval_context_destroy(c);
DONE;
}
