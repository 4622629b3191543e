#include "demo.h"
int main(void) {
 C* c = mk(); CHECK(run(c, "x\v=\f4") == 4); projectm_eval_context_destroy(c);
DONE;
}
