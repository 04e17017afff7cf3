/* Fatal signals become verdicts: the thread that got one notes it and stops,
 * another thread reports it.  Should that not happen, the process says so
 * itself. */
#include <signal.h>
#include <stdatomic.h>
#include <string.h>
#include <unistd.h>

atomic_int mc_crash_signal;
atomic_long mc_crash_slot = -1;
static char line[4096];
extern long mc_slot(void);

static void on_crash(int s) {
  int none = 0;
  if (atomic_compare_exchange_strong(&mc_crash_signal, &none, -1)) {
    atomic_store(&mc_crash_slot, mc_slot());
    atomic_store(&mc_crash_signal, s);
    sleep(30);
    if (write(1, line, strlen(line))) {}
    _exit(1);
  }
  for (;;) pause();
}

void mc_crash_install(const char *text) {
  strncpy(line, text, sizeof line - 1);
  struct sigaction a;
  memset(&a, 0, sizeof a);
  a.sa_handler = on_crash;
  a.sa_flags = SA_ONSTACK | SA_NODEFER;
  int all[] = {SIGSEGV, SIGBUS, SIGILL, SIGFPE, SIGABRT};
  for (unsigned i = 0; i < sizeof all / sizeof *all; i++) sigaction(all[i], &a, 0);
}
