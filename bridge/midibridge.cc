// Bridge to the MIDI reader.
#include "tok.h"
#include "midi.h"
using namespace justkeydding;

static bool handle(const std::string &cmd, Req &q, Res &r) {
  if (cmd == "midi") {  // path, how many times to ask
    Midi m(q.str());
    int n = q.integer();
    r.i(m.getStatus());
    r.i(n);
    for (int k = 0; k < n; k++) {
      PitchClass::PitchClassSequence s = m.getPitchClassSequence();
      r.i(s.size());
      for (size_t i = 0; i < s.size(); i++) r.i(s[i].getInt());
    }
    return true;
  }
  return false;
}
int main() { return serve(handle); }
