// Bridge to the prototype decoder: its whole program text, with its main() under another name.
#include "tok.h"
#define main prototype_main
#include "ViterbiSTL.cc"
#undef main

static bool handle(const std::string &cmd, Req &q, Res &r) {
  if (cmd == "forward") {  // states, symbols, start, transitions, emissions (all row after row), observations
    int n = q.integer(), m = q.integer();
    std::vector<std::string> states, symbols, obs;
    for (int i = 0; i < n; i++) states.push_back(q.str());
    for (int i = 0; i < m; i++) symbols.push_back(q.str());
    std::vector<double> s = q.dbls(), t = q.dbls(), e = q.dbls();
    std::vector<int> o = q.ints();
    std::map<std::string, double> start;
    std::map<std::string, std::map<std::string, double> > trans, emit;
    for (int i = 0; i < n; i++) {
      start[states[i]] = s[i];
      for (int k = 0; k < n; k++) trans[states[i]][states[k]] = t[i * n + k];
      for (int k = 0; k < m; k++) emit[states[i]][symbols[k]] = e[i * m + k];
    }
    for (size_t i = 0; i < o.size(); i++) obs.push_back(symbols[o[i]]);
    std::ostringstream out;
    std::streamsize was = std::cout.precision(17);
    std::streambuf *old = std::cout.rdbuf(out.rdbuf());
    hmm::forward_viterbi(obs, states, start, trans, emit);
    std::cout.rdbuf(old);
    std::cout.precision(was);
    r.s(out.str());
    return true;
  }
  if (cmd == "main") {
    std::ostringstream out;
    std::istringstream in("\n");
    std::streambuf *old = std::cout.rdbuf(out.rdbuf()), *oldin = std::cin.rdbuf(in.rdbuf());
    r.i(prototype_main(0, 0));
    std::cout.rdbuf(old);
    std::cin.rdbuf(oldin);
    std::cin.clear();
    r.s(out.str());
    return true;
  }
  return false;
}
int main() { return serve(handle); }
