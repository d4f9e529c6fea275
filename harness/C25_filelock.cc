// FileLock against a model of the lock file; every file-system call is a point where another process may run.
// @src filelock.cc
// @flags -I@V@/harness/fsshim -include sx_files.h -U_FORTIFY_SOURCE
// @entry c25_schedules exact reach=done,contended,nested time=200
// @entry c25_faults exact reach=done,closefail,removed time=60
// @bound three processes with one lock object each, five operations (acquire or release) in every order; before every file-system call of an operation another process may run one complete operation, two levels deep; at most one of the calls that open the file fails although it is not there
// @assume open with O_CREAT|O_EXCL and the removal of a file are atomic; file operations are the only communication between the processes; a process whose acquire call throws still owns its object
#include "sx.h"
#include <fcntl.h>
#include <cstring>
#include <memory>
#include <stdexcept>
#include "smash/filelock.h"
using namespace smash;
static const char kPath[] = "/d/smash.lock";
static bool file_there, close_fails, remove_fails;
static int creator;                // who created the file that is there
static long fault_at = -1, calls;      // the open call with this number fails for some other reason
static int removed_by = -1, fds, opened, running = -1;
static bool foreign_removal;       // somebody removed a file created by another process
static void preempt();
extern "C" int sxf_open(const char *p, int flags, ...) {
  preempt();
  CHECK(!strcmp(p, kPath));
  if (calls++ == fault_at) return -1;
  if (file_there) {
    if ((flags & (O_CREAT | O_EXCL)) == (O_CREAT | O_EXCL)) return -1;
  } else {
    if (!(flags & O_CREAT)) return -1;
    file_there = true;
    creator = running;
  }
  fds++;
  return 3 + opened++;
}
extern "C" int sxf_close(int fd) {
  preempt();
  CHECK(fd >= 3);
  fds--;
  return close_fails ? -1 : 0;
}
bool sx_fs_exists(const std::string &p) {
  preempt();
  return p == kPath && file_there;
}
int sx_fs_remove(const std::string &p) {
  preempt();
  CHECK(p == kPath);
  if (remove_fails) return -1;
  if (!file_there) return 0;
  if (creator != running) foreign_removal = true;
  file_there = false;
  removed_by = running;
  return 1;
}
int sx_fs_rename(const std::string &, const std::string &) { CHECK(false); return -1; }
extern "C" int sxf_unlink(const char *p) { return sx_fs_remove(p) == 1 ? 0 : -1; }
extern "C" int sxf_remove(const char *p) { return sx_fs_remove(p) == 1 ? 0 : -1; }
extern "C" int sxf_access(const char *p, int) { return sx_fs_exists(p) ? 0 : -1; }

static const int kProc = 3;
static std::unique_ptr<FileLock> lock_[kProc];
static bool held[kProc], busy[kProc];
static int depth, budget;
static int holders() { return held[0] + held[1] + held[2]; }
static void operation(int p) {
  const int before = running;
  running = p;
  busy[p] = true;
  if (sx_bool("release")) {
    // the lock counts as released from the start of the release on, and must stay the owner's until then
    if (held[p]) CHECK(file_there & (creator == p));
    const bool was = held[p];
    removed_by = -1;
    held[p] = false;
    lock_[p].reset();
    (void)was;
    lock_[p].reset(new FileLock(kPath));
  } else if (held[p]) {
    bool threw = false;
    try { lock_[p]->acquire(); } catch (std::runtime_error &) { threw = true; }
    CHECK(threw);
    CHECK(file_there & (creator == p));
    sx_reach("contended");
  } else {
    const bool got = lock_[p]->acquire();
    if (got) {
      CHECK(holders() == 0);
      held[p] = true;
      CHECK(file_there & (creator == p));
    }
  }
  busy[p] = false;
  running = before;
}
static void preempt() {
  if (running < 0 || depth >= 2 || budget <= 0) return;
  const int p = sx_choose(0, kProc, "preempt");
  if (p == kProc || busy[p]) return;
  sx_reach("nested");
  budget--;
  depth++;
  operation(p);
  depth--;
}
ENTRY(c25_schedules) {
  for (int p = 0; p < kProc; p++) lock_[p].reset(new FileLock(kPath));
  fault_at = sx_int("fault", -1, 6);
  CHECK(!file_there);                // constructing a lock does not create the file
#ifdef SX_THOROUGH
  budget = 5;
#else
  budget = 4;
#endif
  while (budget > 0) {
    budget--;
    operation(sx_choose(0, kProc - 1, "process"));
    CHECK(holders() <= 1);
    if (holders() == 1) CHECK(file_there);
  }
  for (int p = 0; p < kProc; p++) {
    running = p;
    const bool was = held[p];
    budget = 0;
    held[p] = false;
    lock_[p].reset();
    if (was) CHECK(!file_there & (removed_by == p));
  }
  CHECK(!foreign_removal);
  CHECK(!file_there);
  CHECK(fds == 0);
  sx_reach("done");
}
// A lock file left behind by another program, failing system calls, errors.
ENTRY(c25_faults) {
  running = 0;
  budget = 0;
  file_there = sx_bool("stale");
  creator = 7;
  close_fails = sx_bool("close_fails");
  const bool stale = file_there;
  bool got = false, threw = false;
  {
    FileLock l(kPath);
    try { got = l.acquire(); } catch (std::runtime_error &) { threw = true; }
    if (stale) CHECK(!got & !threw);
    else CHECK(got == !close_fails);
    CHECK(threw == (!stale & close_fails));
    if (threw) sx_reach("closefail");
    if (!stale) {
      // whatever happened, nobody else gets it as long as this one has the file
      FileLock m(kPath);
      CHECK(!m.acquire() | (removed_by == 0));
    }
    bool again = false;
    const bool owner = got | threw;
    try { CHECK(!l.acquire()); } catch (std::runtime_error &) { again = true; }
    CHECK(again == owner);
  }
  if (stale) CHECK(file_there & (creator == 7));
  else { CHECK(!file_there); sx_reach("removed"); }
  CHECK(!foreign_removal);
  sx_reach("done");
}
