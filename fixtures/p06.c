/* Positive examples for the shared-state rule: every variable here must be reported. */
double shared_work[64];
static int calls = 0;
static const int fine[2] = {1, 2};

int counter(void) {
    static int n = 0;
    n++;
    calls++;
    return n + fine[0];
}
