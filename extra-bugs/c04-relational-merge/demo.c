#include "demo.h"
int main(void) {
 C* c = mk(); CHECK(run(c, "5 > 3 < 1") == 1); projectm_eval_context_destroy(c);
DONE;
}
