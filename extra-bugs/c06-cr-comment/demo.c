#include "demo.h"
int main(void) {
C* c = mk(); CHECK(run(c,"x=1; // a\r x=2;\n x") == 1); projectm_eval_context_destroy(c);
DONE;
}
