// Token protocol shared by the bridges (see lib/bridge.py).
#ifndef VERIF_TOK_H_
#define VERIF_TOK_H_
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <exception>
#include <dirent.h>
#include <iostream>
#include <malloc.h>
#include <sstream>
#include <string>
#include <unistd.h>
#include <vector>

struct Req {
  std::vector<std::string> t;
  size_t i;
  bool more() const { return i < t.size(); }
  std::string raw() {
    if (i >= t.size()) { fprintf(stderr, "bridge protocol: missing argument\n"); _exit(97); }
    return t[i++];
  }
  int integer() { return (int)strtoll(raw().c_str(), 0, 10); }
  double dbl() { return strtod(raw().c_str(), 0); }
  std::string str() {
    std::string r = raw(), o;
    for (size_t k = 1; k + 1 < r.size(); k += 2)
      o.push_back((char)strtol(r.substr(k, 2).c_str(), 0, 16));
    return o;
  }
  std::vector<double> dbls() {
    int n = integer();
    std::vector<double> v;
    for (int k = 0; k < n; k++) v.push_back(dbl());
    return v;
  }
  std::vector<int> ints() {
    int n = integer();
    std::vector<int> v;
    for (int k = 0; k < n; k++) v.push_back(integer());
    return v;
  }
};

struct Res {
  std::string o;
  Res &i(long long v) { o += " " + std::to_string(v); return *this; }
  Res &d(double v) {
    char b[64];
    if (v != v) snprintf(b, sizeof b, " fnan");
    else if (std::isinf(v)) snprintf(b, sizeof b, v > 0 ? " finf" : " f-inf");
    else snprintf(b, sizeof b, " f%a", v);
    o += b;
    return *this;
  }
  Res &s(const std::string &v) {
    static const char *h = "0123456789abcdef";
    o += " s";
    for (size_t k = 0; k < v.size(); k++) { o += h[(v[k] >> 4) & 15]; o += h[v[k] & 15]; }
    return *this;
  }
};

// Captures what the code prints on std::cout while it lives.
struct Capture {
  std::ostringstream ss;
  std::streambuf *old;
  Capture() { old = std::cout.rdbuf(ss.rdbuf()); }
  ~Capture() { std::cout.rdbuf(old); }
};

// What the process holds: allocated bytes (exact when GLIBC_TUNABLES turns the thread cache off), open files.
inline void holdings(Res &r) {
  struct mallinfo2 m = mallinfo2();
  r.i((long long)(m.uordblks + m.hblkhd));
  int n = 0;
  DIR *d = opendir("/proc/self/fd");
  while (d && readdir(d)) n++;
  if (d) closedir(d);
  r.i(n);
}

typedef bool (*Handler)(const std::string &cmd, Req &q, Res &r);

inline int serve(Handler h) {
  // answers go to the original stdout; anything the code prints goes to stderr
  int out = dup(1);
  dup2(2, 1);
  FILE *f = fdopen(out, "w");
  std::string line;
  while (std::getline(std::cin, line)) {
    Req q;
    q.i = 0;
    std::istringstream is(line);
    std::string cmd, tok;
    is >> cmd;
    while (is >> tok) q.t.push_back(tok);
    Res r;
    try {
      if (cmd == "holdings") holdings(r);
      else if (!h(cmd, q, r)) { fprintf(stderr, "bridge protocol: unknown command %s\n", cmd.c_str()); _exit(97); }
      fprintf(f, "OK%s\n", r.o.c_str());
    } catch (const std::exception &e) {
      Res x;
      x.s(e.what());
      fprintf(f, "EXC%s\n", x.o.c_str());
    } catch (...) {
      Res x;
      x.s("unknown exception");
      fprintf(f, "EXC%s\n", x.o.c_str());
    }
    fflush(f);
  }
  return 0;
}
#endif
