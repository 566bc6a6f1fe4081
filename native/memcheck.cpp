// Lets a worker that runs under valgrind ask how many errors memcheck has reported so far.
#include <valgrind/memcheck.h>

extern "C" {
unsigned long vg_running() { return RUNNING_ON_VALGRIND; }
unsigned long vg_errors() { return VALGRIND_COUNT_ERRORS; }
}
