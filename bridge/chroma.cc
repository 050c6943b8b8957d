// Bridge to the chromagram reader and the detector pipeline built on it.
#include "tok.h"
#include <map>
#include <memory>
#include "chromagram.h"
using namespace justkeydding;

static std::unique_ptr<Chromagram> slots[4];

static void putSeq(Res &r, Chromagram &c) {
  PitchClass::PitchClassSequence s = c.getPitchClassSequence();
  r.i(s.size());
  for (size_t i = 0; i < s.size(); i++) r.i(s[i].getInt());
}
static std::string printed(Chromagram &c, int what) {
  Capture cap;
  std::streamsize p = std::cout.precision(17);
  if (what == 2) c.printChromagram();
  else c.printOriginalChromagram(what == 1);
  std::cout.precision(p);
  return cap.ss.str();
}
static std::string printedPlain(Chromagram &c, int what) {
  Capture cap;
  if (what == 2) c.printChromagram();
  else c.printOriginalChromagram(what == 1);
  return cap.ss.str();
}
// Leaves a given 32-bit word all over the stack the next call will use.
__attribute__((noinline)) static int dirty(int v) {
  volatile int a[60000];
  for (size_t i = 0; i < 60000; i++) a[i] = v;
  return a[123] + a[40000];
}
volatile int sink;

static bool handle(const std::string &cmd, Req &q, Res &r) {
  if (cmd == "load") {  // slot, type (0 csv, 1 audio), path, stack filler
    int s = q.integer(), t = q.integer();
    std::string p = q.str();
    int v = q.integer();
    slots[s].reset();
    if (v) sink = dirty(v);
    Capture cap;
    slots[s].reset(new Chromagram(p, t ? Chromagram::FILETYPE_AUDIO : Chromagram::FILETYPE_CSV));
    r.i(slots[s]->getStatus());
    r.s(cap.ss.str());
    return true;
  }
  if (cmd == "show") {  // slot: A-first, C-first and discrete print, sequence
    Chromagram &c = *slots[q.integer()];
    r.i(c.getStatus()).s(printed(c, 1)).s(printed(c, 0)).s(printed(c, 2));
    putSeq(r, c);
    return true;
  }
  if (cmd == "plain") {  // slot, what: printed with the stream as the program leaves it
    int s = q.integer(), w = q.integer();
    r.s(printedPlain(*slots[s], w));
    return true;
  }
  if (cmd == "seq") {
    Chromagram &c = *slots[q.integer()];
    r.i(c.getStatus());
    putSeq(r, c);
    return true;
  }
  if (cmd == "copy") {
    int a = q.integer(), b = q.integer();
    slots[b].reset(new Chromagram(*slots[a]));
    r.i(slots[b]->getStatus());
    return true;
  }
  return false;
}
int main() { return serve(handle); }
