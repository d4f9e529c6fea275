// RenamingFilePtr and FilePtr against a model of the directory; the program may stop at every file-system call.
// @src file.cc
// @flags -I@V@/harness/fsshim -include sx_files.h -U_FORTIFY_SOURCE
// @entry c24_renaming exact reach=done,normal,unwinding,lost time=100
// @entry c24_cleanup exact reach=done,inner,outer time=60
// @entry c24_several exact reach=done time=60
// @entry c24_plain exact reach=done,throws time=60
// @bound one to three output files at a time; up to three writes of arbitrary success each; closing may fail; an exception before, between or after the writes, caught outside or two levels up; a file object created and destroyed by a cleanup that runs during unwinding; the process may stop before and after every file-system call
// @assume files can be opened; renaming is atomic and succeeds
#include "sx.h"
#include <cstring>
#include <memory>
#include <stdexcept>
#include "smash/file.h"
using namespace smash;
struct SxFile {
  std::string name;
  bool there, open, error, complete;  // complete: everything written reached the file and it was closed
  int written, closes;
};
static SxFile files[6];
static int nfiles;
static bool write_fails[8], close_fails;
static int writes;
static SxFile *find(const std::string &n) {
  for (int i = 0; i < nfiles; i++) if (files[i].there && files[i].name == n) return &files[i];
  return nullptr;
}
static bool ends_unfinished(const std::string &n) { return n.size() > 11 && n.compare(n.size() - 11, 11, ".unfinished") == 0; }
// What somebody finds in the directory if the program stops here.
static void crash_point() {
  for (int i = 0; i < nfiles; i++) {
    if (!files[i].there) continue;
    if (!ends_unfinished(files[i].name)) CHECK(files[i].complete & !files[i].open);
    if (files[i].open) CHECK(ends_unfinished(files[i].name));
  }
}
extern "C" FILE *sxf_fopen(const char *n, const char *mode) {
  crash_point();
  CHECK(!strcmp(mode, "wb") | !strcmp(mode, "w"));
  if (SxFile *o = find(n)) o->there = false;
  SxFile &f = files[nfiles++];
  f = SxFile{n, true, true, false, false, 0, 0};
  return reinterpret_cast<FILE *>(&f);
}
static SxFile *file(FILE *f) {
  SxFile *r = reinterpret_cast<SxFile *>(f);
  CHECK(r >= files && r < files + nfiles);
  CHECK(r->open);
  return r;
}
extern "C" size_t sxf_fwrite(const void *, size_t a, size_t b, FILE *p) {
  crash_point();
  SxFile *f = file(p);
  f->written += a * b;
  if (write_fails[writes++ & 7]) { f->error = true; return 0; }
  return b;
}
extern "C" int sxf_fflush(FILE *p) { crash_point(); return file(p)->error ? -1 : 0; }
extern "C" int sxf_ferror(FILE *p) { return file(p)->error; }
extern "C" int sxf_fclose(FILE *p) {
  crash_point();
  SxFile *f = file(p);
  f->open = false;
  f->closes++;
  f->complete = !f->error & !close_fails;
  return close_fails ? -1 : 0;
}
bool sx_fs_exists(const std::string &p) { return find(p) != nullptr; }
int sx_fs_remove(const std::string &p) {
  crash_point();
  SxFile *f = find(p);
  if (!f) return 0;
  f->there = false;
  return 1;
}
int sx_fs_rename(const std::string &a, const std::string &b) {
  crash_point();
  SxFile *f = find(a);
  if (!f) return -1;
  if (SxFile *o = find(b)) o->there = false;
  f->name = b;
  crash_point();
  return 0;
}
extern "C" int sxf_rename(const char *a, const char *b) { return sx_fs_rename(a, b); }
extern "C" int sxf_remove(const char *a) { return sx_fs_remove(a) == 1 ? 0 : -1; }
extern "C" int sxf_unlink(const char *a) { return sx_fs_remove(a) == 1 ? 0 : -1; }

static const std::string kName = "out/particles.bin", kOther = "out/full_event_history.oscar";
static void use(RenamingFilePtr &f, int n, int throw_at) {
  for (int i = 0; i <= n; i++) {
    if (i == throw_at) throw std::runtime_error("event failed");
    if (i < n) fwrite("abcd", 1, 4, f.get());
  }
}
static void faults() {
  for (int i = 0; i < 3; i++) write_fails[i] = sx_bool("write_fails");
  close_fails = sx_bool("close_fails");
}
ENTRY(c24_renaming) {
  faults();
  const int n = sx_choose(0, 3, "writes"), t = sx_choose(-1, 3, "throw_at");
  bool threw = false, error = false;
  try {
    RenamingFilePtr f(kName, sx_bool("text") ? "w" : "wb");
    CHECK((find(kName) == nullptr) & (find(kName + ".unfinished") != nullptr));
    try {
      use(f, n, t);
    } catch (std::logic_error &) {
    }
  } catch (std::runtime_error &) {
    threw = true;
  }
  for (int i = 0; i < n && i < (threw ? t : n); i++) error = error | write_fails[i];
  crash_point();
  CHECK(nfiles == 1);
  CHECK((files[0].closes == 1) & !files[0].open & files[0].there);
  CHECK(threw == (t >= 0 && t <= n));
  const bool final_name = files[0].name == kName;
  CHECK(final_name | (files[0].name == kName + ".unfinished"));
  CHECK(final_name == (!threw & !error & !close_fails));
  if (!threw && final_name) sx_reach("normal");
  if (threw) sx_reach("unwinding");
  if (!threw && !final_name) sx_reach("lost");
  sx_reach("done");
}
// A file written completely by a cleanup that itself runs while the stack is unwound, and an exception
// handled entirely while a file is open: both files are complete and get their names.
struct Cleanup {
  bool fails;
  ~Cleanup() {
    try {
      RenamingFilePtr f(kOther, "w");
      use(f, 1, fails ? 1 : -1);
    } catch (std::runtime_error &) {
      sx_reach("inner");
    }
  }
};
ENTRY(c24_cleanup) {
  const bool outer = sx_bool("outer"), inner = sx_bool("inner");
  try {
    RenamingFilePtr f(kName, "wb");
    {
      try {
        use(f, 1, 0);
      } catch (std::runtime_error &) {
      }
    }
    Cleanup c{inner};
    use(f, 1, outer ? 1 : -1);
  } catch (std::runtime_error &) {
    sx_reach("outer");
  }
  crash_point();
  CHECK((find(kName) != nullptr) == !outer);
  CHECK((find(kName + ".unfinished") != nullptr) == outer);
  CHECK((find(kOther) != nullptr) == !inner);
  CHECK((find(kOther + ".unfinished") != nullptr) == inner);
  sx_reach("done");
}
// Several outputs at once; an older finished file of the same name stays until it is replaced.
ENTRY(c24_several) {
  { RenamingFilePtr old(kName, "w"); use(old, 1, -1); }
  CHECK(find(kName) == &files[0]);
  const bool t = sx_bool("throw");
  try {
    RenamingFilePtr a(kName, "w");
    CHECK(find(kName) == &files[0]);
    RenamingFilePtr b(kOther, "w");
    use(b, 1, -1);
    use(a, 2, t ? 2 : -1);
  } catch (std::runtime_error &) {
  }
  crash_point();
  CHECK(find(kName) == &files[t ? 0 : 1]);
  CHECK((find(kOther) != nullptr) == !t);
  for (int i = 0; i < 3; i++) CHECK(files[i].closes == 1);
  sx_reach("done");
}
ENTRY(c24_plain) {
  {
    FilePtr none;
    FileDeleter()(nullptr);
  }
  close_fails = sx_bool("close_fails");
  FilePtr f = smash::fopen(kName + ".unfinished", "w");
  CHECK(nfiles == 1);
  CHECK(f.get() != nullptr);
  CHECK(reinterpret_cast<SxFile *>(f.get())->name == kName + ".unfinished");
  bool threw = false;
  FILE *p = f.release();
  try { FileDeleter()(p); } catch (std::runtime_error &) { threw = true; sx_reach("throws"); }
  CHECK(threw == close_fails);
  CHECK(files[0].closes == 1);
  f.reset();
  close_fails = false;
  { FilePtr g = smash::fopen(kOther + ".unfinished", "w"); FilePtr h = std::move(g); CHECK(files[1].open); }
  CHECK((files[1].closes == 1) & (files[0].closes == 1));
  sx_reach("done");
}
