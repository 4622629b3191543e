#include "demo.h"
int main(void) {
C* c = mk(); CHECK(run(c,"x=123456789") == 123456789); projectm_eval_context_destroy(c);
DONE;
}
