#include <csetjmp>
#include <unistd.h>
// --wrap=exit: exit() called by code under test returns to the harness.
extern "C" {
void __real_exit(int);
jmp_buf *mon_exit_buf = nullptr;
bool *mon_exit_armed = nullptr;
int *mon_exit_code = nullptr;
void __wrap_exit(int c) {
  if (mon_exit_armed && *mon_exit_armed) {
    *mon_exit_code = c;
    *mon_exit_armed = false;
    longjmp(*mon_exit_buf, 1);
  }
  __real_exit(c);
}
}
