// libFuzzer target: chord.dict files.
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <iostream>
#include <sstream>
#include <unistd.h>
#include "chromamethods.h"

static void fail(const char *what) {
  fprintf(stderr, "ORACLE: %s\n", what);
  fflush(stderr);
  __builtin_trap();
}
struct Dict {
  std::vector<float> d;
  std::vector<std::vector<int> > notes;
  std::vector<std::string> names;
};
static void read(Dict &r, const std::string &text, int harte) {
  static std::string dir;
  if (dir.empty()) {
    char t[] = "/tmp/jkfuzzXXXXXX";
    dir = mkdtemp(t);
    setenv("VAMP_PATH", dir.c_str(), 1);
    atexit([]() { unlink((dir + "/chord.dict").c_str()); rmdir(dir.c_str()); });
  }
  std::ofstream o((dir + "/chord.dict").c_str(), std::ios::binary);
  o << text;
  o.close();
  static std::ostringstream sink;
  sink.str("");
  std::streambuf *e = std::cerr.rdbuf(sink.rdbuf());
  r.names = chordDictionary(&r.d, &r.notes, .1f, harte);
  std::cerr.rdbuf(e);
  size_t n = r.names.size();
  if (n % 12 != 1) fail("not twelve chords of each type");
  if (r.notes.size() != n || r.d.size() != 24 * n) fail("sizes");
  for (size_t i = 0; i < r.d.size(); i++)
    if (!std::isfinite(r.d[i])) fail("a weight that is no number");
  if (r.names.back() != "N" || r.notes.back().size()) fail("no 'no chord'");
  for (size_t i = 0; i + 1 < n; i++)
    for (size_t k = 0; k < 24; k++)
      if (std::fabs(r.d[24 * (i / 12 * 12) + k] - r.d[24 * i + k / 12 * 12 + (k % 12 + i % 12) % 12]) > 1e-4f) fail("no transposition");
}
extern "C" int LLVMFuzzerTestOneInput(const uint8_t *p, size_t n) {
  std::string s((const char *)p, n);
  Dict a, b, c;
  read(a, s, n % 2);
  // lines that define no chord change nothing
  read(b, "# 1=2,3\n\nm\n" + s + "\nx=1,0,1,0\n7=" + std::string(23 * 2, '0') + "\n", n % 2);
  if (a.names != b.names || a.notes != b.notes || a.d != b.d) fail("lines without chords change the dictionary");
  // one more chord is one more chord
  read(c, s + "\nq=1,0,0,0,0,0,0,0,0,0,0,0,1,0,0,0,1,0,0,1,0,0,0,0\n", n % 2);
  size_t k = a.names.size() - 1;
  if (c.names.size() != k + 13 || !std::equal(a.names.begin(), a.names.end() - 1, c.names.begin()) ||
      !std::equal(a.d.begin(), a.d.end() - 24, c.d.begin()) || c.names[k] != "Aq")
    fail("a further chord is lost or changes others");
  return 0;
}
