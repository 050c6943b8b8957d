// libFuzzer target: the chromagram reader on arbitrary CSV files.
#include <algorithm>
#include <cstdint>
#include <cstring>
#include <fcntl.h>
#include <sys/mman.h>
#include "tok.h"
#include "chromagram.h"
using namespace justkeydding;

static std::string path(int fd, const std::string &s) {
  if (ftruncate(fd, 0) || pwrite(fd, s.data(), s.size(), 0) != (ssize_t)s.size()) _exit(96);
  return "/proc/self/fd/" + std::to_string(fd);
}
static std::string printed(Chromagram &c, int what) {
  Capture cap;
  if (what == 2) c.printChromagram();
  else c.printOriginalChromagram(what == 1);
  return cap.ss.str();
}
static void fail(const char *what) {
  fprintf(stderr, "ORACLE: %s\n", what);
  fflush(stderr);
  __builtin_trap();
}
// A magnitude stands for that many notes: large ones are left out.
static bool huge(const std::string &s) {
  for (size_t i = 0; i < s.size(); i++) {
    bool d = isdigit((unsigned char)s[i]) || s[i] == '.';
    bool p = i && (isdigit((unsigned char)s[i - 1]) || s[i - 1] == '.');
    if (d && !p && !(strtod(s.c_str() + i, 0) <= 24)) return true;
  }
  return false;
}
static bool same(Chromagram &a, Chromagram &b) {
  PitchClass::PitchClassSequence x = a.getPitchClassSequence(), y = b.getPitchClassSequence();
  if (x.size() != y.size()) return false;
  for (size_t i = 0; i < x.size(); i++)
    if (x[i].getInt() != y[i].getInt()) return false;
  return true;
}
extern "C" int LLVMFuzzerTestOneInput(const uint8_t *p, size_t n) {
  static int fd = memfd_create("a", 0), fd2 = memfd_create("b", 0);
  std::string s((const char *)p, n), bare;
  for (size_t i = 0; i < n; i++)
    if (!strchr("\" \t\r", s[i]) || !s[i]) bare += s[i];
  if (huge(s) || huge(bare)) return -1;
  Chromagram c(path(fd, s), Chromagram::FILETYPE_CSV);
  int st = c.getStatus();
  std::string a = printed(c, 1), d = printed(c, 2);
  if (st == Status::CHROMAGRAM_DISCRETE_READY) {
    Chromagram e(path(fd2, a), Chromagram::FILETYPE_CSV);
    if (e.getStatus() != st) fail("what was printed is not read");
    std::string b = printed(e, 1);
    size_t la = std::count(a.begin(), a.end(), '\n'), lb = std::count(b.begin(), b.end(), '\n');
    if (la == lb && a != b) fail("what was printed is read as something else");
    if (la == lb && !same(c, e)) fail("what was printed sounds other notes");
    Chromagram again(path(fd, s), Chromagram::FILETYPE_CSV);
    if (again.getStatus() != st || printed(again, 1) != a || printed(again, 2) != d || !same(c, again)) fail("read again, the file is another");
  } else {
    if (st != Status::CHROMAGRAM_INPUTFILE_ERROR) fail("neither ready nor an error");
    if (!a.empty() || !d.empty() || c.getPitchClassSequence().size()) fail("a refused file prints or sounds");
  }
  return 0;
}
