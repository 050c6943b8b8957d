// Bridge to the music-theory and HMM core.
#include "tok.h"
#include <map>
#include <memory>
#include "hiddenmarkovmodel.h"
#include "key.h"
#include "keyprofile.h"
#include "keytransition.h"
#include "pitchclass.h"
#include "status.h"

using namespace justkeydding;

static void putKey(Res &r, const Key &k) {
  r.i(k.getInt()).s(k.getString()).i(k.isMajorKey()).i(k.isMinorKey());
}
static void putPc(Res &r, const PitchClass &p) { r.i(p.getInt()).s(p.getString()); }

// Storage pre-filled with a given number, so that a member left uninitialised shows up as it.
#include <new>
template <class T> struct Filled {
  volatile int *m;
  T *p;
  template <class A> Filled(int fill, A a) {
    m = (volatile int *)::operator new(sizeof(T) + 64);
    for (size_t i = 0; i < (sizeof(T) + 64) / sizeof(int); i++) m[i] = fill;
    p = new ((void *)m) T(a);
  }
  ~Filled() { p->~T(); ::operator delete((void *)m); }
};

typedef std::map<Key, std::map<Key, double> > KK;
typedef std::map<Key, std::map<PitchClass, double> > KP;

static KeyTransition::KeyTransitionArray arr24(Req &q) {
  KeyTransition::KeyTransitionArray a;
  for (int i = 0; i < 24; i++) a[i] = q.dbl();
  return a;
}
static KeyProfile::KeyProfileArray arr12(Req &q) {
  KeyProfile::KeyProfileArray a;
  for (int i = 0; i < 12; i++) a[i] = q.dbl();
  return a;
}

static void putHmm(Res &r, HiddenMarkovModel &h) {
  r.i(h.getStatus());
  Key::KeySequence s = h.getKeySequence();
  r.i(s.size());
  for (size_t i = 0; i < s.size(); i++) r.i(s[i].getInt());
  r.d(h.getMaximumProbability());
  HiddenMarkovModel::ProbabilityVector p = h.getProbabilityVector();
  r.i(p.size());
  for (size_t i = 0; i < p.size(); i++) r.d(p[i]);
}

static void readTables(Req &q, std::vector<int> &states, std::map<Key, double> &init, KK &tr) {
  states = q.ints();
  for (size_t i = 0; i < states.size(); i++) init[Key(states[i])] = q.dbl();
  for (size_t i = 0; i < states.size(); i++)
    for (size_t j = 0; j < states.size(); j++) tr[Key(states[i])][Key(states[j])] = q.dbl();
}

static std::unique_ptr<HiddenMarkovModel> slots[4];

static std::unique_ptr<HiddenMarkovModel> makeHmm(Req &q) {
  // kind 0: pitch-class observations, 1: key observations
  int kind = q.integer();
  std::vector<int> states;
  std::map<Key, double> init;
  KK tr;
  readTables(q, states, init, tr);
  Key::KeyVector kv;
  for (size_t i = 0; i < states.size(); i++) kv.push_back(Key(states[i]));
  int nsym = q.integer();
  KP ep;
  KK ek;
  for (size_t i = 0; i < states.size(); i++)
    for (int j = 0; j < nsym; j++) {
      double v = q.dbl();
      if (kind == 0) ep[Key(states[i])][PitchClass(j)] = v;
      else ek[Key(states[i])][Key(j)] = v;
    }
  std::vector<int> obs = q.ints();
  if (kind == 0) {
    std::vector<PitchClass> o;
    for (size_t i = 0; i < obs.size(); i++) o.push_back(PitchClass(obs[i]));
    return std::unique_ptr<HiddenMarkovModel>(new HiddenMarkovModel(o, kv, init, tr, ep));
  }
  std::vector<Key> o;
  for (size_t i = 0; i < obs.size(); i++) o.push_back(Key(obs[i]));
  return std::unique_ptr<HiddenMarkovModel>(new HiddenMarkovModel(o, kv, init, tr, ek));
}

static bool handle(const std::string &cmd, Req &q, Res &r) {
  if (cmd == "key_str") {
    int p = q.integer();
    std::string s = q.str();
    Filled<Key> k(p, s);
    putKey(r, *k.p);
    return true;
  }
  if (cmd == "key_int") {
    int p = q.integer();
    int v = q.integer();
    Filled<Key> k(p, v);
    putKey(r, *k.p);
    return true;
  }
  if (cmd == "key_rel") {  // key given as a string or an int
    int fill = q.integer(), isstr = q.integer();
    Filled<Key> *f = isstr ? new Filled<Key>(fill, q.str()) : new Filled<Key>(fill, q.integer());
    std::unique_ptr<Filled<Key> > owner(f);
    Key k(*f->p);
    std::string ops = q.str();
    for (size_t i = 0; i < ops.size(); i++) {
      switch (ops[i]) {
        case 'r': { Key n = k.getRelativeKey(); k = n; break; }
        case 'p': { Key n = k.getParallelKey(); k = n; break; }
        case 'd': { Key n = k.getDominantKey(); k = n; break; }
        case 's': { Key n = k.getSubDominantKey(); k = n; break; }
        case 'c': { Key n(k); Key m(0); m = n; k = m; break; }
        case 'v': { Key::KeyVector v(3, k); v.push_back(k); k = v[2]; break; }
      }
    }
    putKey(r, k);
    return true;
  }
  if (cmd == "key_assign") {  // a variable that holds one key after another; copies and containers of it
    std::vector<std::string> names;
    int n = q.integer();
    for (int i = 0; i < n; i++) names.push_back(q.str());
    Key k(names[0]);
    Key::KeyVector all;
    for (int i = 0; i < n; i++) {
      Key b(names[i]);
      k = b;
      all.push_back(k);
      Key copy(k);
      putKey(r, k);
      putKey(r, b);
      putKey(r, copy);
    }
    k = *&k;
    putKey(r, k);
    std::map<Key, int> m;
    for (int i = 0; i < n; i++) putKey(r, all[i]);
    for (int i = 0; i < n; i++) m[all[i]]++;
    r.i(m.size());
    return true;
  }
  if (cmd == "key_cmp") {
    Key a(q.str()), b(q.str());
    r.i(a == b).i(a != b).i(a < b).i(b < a).i(a.getInt()).i(b.getInt());
    return true;
  }
  if (cmd == "key_all") {
    Key::KeyVector v = Key::getAllKeysVector();
    r.i(v.size());
    for (size_t i = 0; i < v.size(); i++) putKey(r, v[i]);
    return true;
  }
  if (cmd == "pc_str") {
    int p = q.integer();
    std::string s = q.str();
    Filled<PitchClass> k(p, s);
    putPc(r, *k.p);
    return true;
  }
  if (cmd == "pc_int") {
    int p = q.integer();
    int v = q.integer();
    Filled<PitchClass> k(p, v);
    putPc(r, *k.p);
    return true;
  }
  if (cmd == "pc_cmp") {
    PitchClass a(q.str()), b(q.str());
    r.i(a == b).i(a != b).i(a < b).i(b < a).i(a.getInt()).i(b.getInt());
    return true;
  }
  if (cmd == "pc_all") {
    PitchClass::PitchClassVector v = PitchClass::getAllPitchClassesVector();
    r.i(v.size());
    for (size_t i = 0; i < v.size(); i++) putPc(r, v[i]);
    return true;
  }
  if (cmd == "profile") {
    // kind: 0 default, 1 one name, 2 two names, 4 with custom arrays
    int kind = q.integer();
    std::string a = q.str(), b = q.str();
    KeyProfile::KeyProfileArray x, y;
    if (kind == 4) { x = arr12(q); y = arr12(q); }
    std::unique_ptr<KeyProfile> p;
    if (kind == 0) p.reset(new KeyProfile());
    else if (kind == 1) p.reset(new KeyProfile(a));
    else if (kind == 2) p.reset(new KeyProfile(a, b));
    else p.reset(new KeyProfile(a, b, x, y));
    int times = q.integer();
    KeyProfile::KeyProfileMap m;
    for (int i = 0; i < times; i++) m = p->getKeyProfileMap();
    KeyProfile::KeyProfileArray ma = p->getMajorKeyProfile(), mi = p->getMinorKeyProfile();
    r.s(p->whichMajorKeyProfile()).s(p->whichMinorKeyProfile());
    for (int i = 0; i < 12; i++) r.d(ma[i]);
    for (int i = 0; i < 12; i++) r.d(mi[i]);
    r.i(m.size());
    for (KeyProfile::KeyProfileMap::iterator i = m.begin(); i != m.end(); ++i) {
      r.i(i->first.getInt()).i(i->second.size());
      for (std::map<PitchClass, double>::iterator j = i->second.begin(); j != i->second.end(); ++j)
        r.i(j->first.getInt()).d(j->second);
    }
    return true;
  }
  if (cmd == "profile_valid") {
    std::string n = q.str();
    KeyProfile p;
    r.i(p.isValidMajorKeyProfile(n)).i(p.isValidMinorKeyProfile(n));
    return true;
  }
  if (cmd == "transition") {
    int kind = q.integer();
    std::string n = q.str();
    KeyTransition::KeyTransitionArray a;
    if (kind == 4) a = arr24(q);
    std::unique_ptr<KeyTransition> p;
    if (kind == 0) p.reset(new KeyTransition());
    else if (kind == 1) p.reset(new KeyTransition(n));
    else p.reset(new KeyTransition(n, a));
    int times = q.integer();
    KeyTransition::KeyTransitionMap m;
    for (int i = 0; i < times; i++) m = p->getKeyTransitionMap();
    KeyTransition::KeyTransitionArray arr = p->getKeyTransitionArray();
    r.s(p->whichKeyTransition());
    for (int i = 0; i < 24; i++) r.d(arr[i]);
    r.i(m.size());
    for (KeyTransition::KeyTransitionMap::iterator i = m.begin(); i != m.end(); ++i) {
      r.i(i->first.getInt()).i(i->second.size());
      for (std::map<Key, double>::iterator j = i->second.begin(); j != i->second.end(); ++j)
        r.i(j->first.getInt()).d(j->second);
    }
    return true;
  }
  if (cmd == "transition_valid") {
    std::string n = q.str();
    KeyTransition p;
    r.i(p.isValidKeyTransition(n));
    return true;
  }
  if (cmd == "hmm") {
    std::unique_ptr<HiddenMarkovModel> h = makeHmm(q);
    r.i(h->getStatus());
    h->runViterbi();
    putHmm(r, *h);
    return true;
  }
  // histories over a few live models
  if (cmd == "hmm_new") { int s = q.integer(); slots[s] = makeHmm(q); r.i(slots[s]->getStatus()); return true; }
  if (cmd == "hmm_run") { int s = q.integer(); slots[s]->runViterbi(); putHmm(r, *slots[s]); return true; }
  if (cmd == "hmm_get") { int s = q.integer(); putHmm(r, *slots[s]); return true; }
  if (cmd == "hmm_stat") { int s = q.integer(); r.i(slots[s]->getStatus()); r.i(slots[s]->getKeySequence().size()); return true; }
  if (cmd == "hmm_copy") { int a = q.integer(), b = q.integer(); slots[b].reset(new HiddenMarkovModel(*slots[a])); return true; }
  if (cmd == "hmm_print") { int s = q.integer(); Capture c; slots[s]->printOutput(); r.s(c.ss.str()); return true; }
  // the whole two-stage detector, as the command-line program wires it
  if (cmd == "detect") {
    std::string maj = q.str(), min = q.str(), kt = q.str();
    KeyProfile::KeyProfileArray x = arr12(q), y = arr12(q);
    KeyTransition::KeyTransitionArray t = arr24(q);
    std::vector<int> obs = q.ints();
    std::vector<PitchClass> o;
    for (size_t i = 0; i < obs.size(); i++) o.push_back(PitchClass(obs[i]));
    Key::KeyVector kv = Key::getAllKeysVector();
    std::map<Key, double> init;
    KeyTransition::KeyTransitionArray sym = KeyTransition("symmetrical").getKeyTransitionArray();
    for (size_t i = 0; i < kv.size(); i++) init[kv[i]] = sym[kv[i].getInt()];
    KeyTransition::KeyTransitionMap tm = KeyTransition(kt, t).getKeyTransitionMap();
    KeyProfile::KeyProfileMap em = KeyProfile(maj, min, x, y).getKeyProfileMap();
    HiddenMarkovModel h1(o, kv, init, tm, em);
    h1.runViterbi();
    KeyTransition::KeyTransitionMap zm = KeyTransition("zero").getKeyTransitionMap();
    HiddenMarkovModel h2(h1.getKeySequence(), kv, init, zm, tm);
    h2.runViterbi();
    putHmm(r, h1);
    putHmm(r, h2);
    return true;
  }
  return false;
}

int main() { return serve(handle); }
