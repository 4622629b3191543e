#include "demo.h"
int main(void) {
 C* c = mk(); CHECK(run(c, "$xFFFFFFFF") == 4294967295.0); projectm_eval_context_destroy(c);
DONE;
}
