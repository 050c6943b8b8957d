// Bridge to the chroma, chord and tuning plugins and the numeric routines under them.
// Bulk numbers travel through raw files (little-endian float32 / float64).
#include "tok.h"
#include <cstring>
#include <fstream>
#include <map>
#include <memory>
#include "Chordino.h"
#include "NNLSChroma.h"
#include "Tuning.h"
#include "chromamethods.h"
#include "nnls.h"
#include "viterbi.h"

typedef std::unique_ptr<Vamp::Plugin> PluginPtr;
struct Slot {
  PluginPtr p;
  float rate;
  size_t block;
};
static Slot slots[4];

template <class T> static std::vector<T> readAll(const std::string &path) {
  std::ifstream f(path.c_str(), std::ios::binary);
  std::vector<char> b((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>());
  std::vector<T> v(b.size() / sizeof(T));
  if (!v.empty()) memcpy(&v[0], &b[0], v.size() * sizeof(T));
  return v;
}
template <class T> static void writeAll(const std::string &path, const std::vector<T> &v) {
  std::ofstream f(path.c_str(), std::ios::binary);
  if (!v.empty()) f.write((const char *)&v[0], v.size() * sizeof(T));
}

static void putFeatures(Res &r, const Vamp::Plugin::FeatureSet &fs, std::vector<float> &bulk) {
  r.i(fs.size());
  for (Vamp::Plugin::FeatureSet::const_iterator o = fs.begin(); o != fs.end(); ++o) {
    r.i(o->first).i(o->second.size());
    for (size_t k = 0; k < o->second.size(); k++) {
      const Vamp::Plugin::Feature &f = o->second[k];
      r.i(f.hasTimestamp).d(f.timestamp.sec + f.timestamp.nsec * 1e-9).i(f.hasDuration);
      r.d(f.hasDuration ? f.duration.sec + f.duration.nsec * 1e-9 : 0.0).s(f.label).i(f.values.size());
      bulk.insert(bulk.end(), f.values.begin(), f.values.end());
    }
  }
}

static bool handle(const std::string &cmd, Req &q, Res &r) {
  if (cmd == "new") {
    Slot &s = slots[q.integer()];
    std::string kind = q.str();
    s.rate = q.dbl();
    if (kind == "chroma") s.p.reset(new NNLSChroma(s.rate));
    else if (kind == "chordino") s.p.reset(new Chordino(s.rate));
    else s.p.reset(new Tuning(s.rate));
    r.i(s.p->getPreferredBlockSize()).i(s.p->getPreferredStepSize());
    return true;
  }
  if (cmd == "drop") { slots[q.integer()].p.reset(); return true; }
  if (cmd == "params") {  // identifier, min, max, default, quantized, current value
    Slot &s = slots[q.integer()];
    Vamp::Plugin::ParameterList l = s.p->getParameterDescriptors();
    r.i(l.size());
    for (size_t k = 0; k < l.size(); k++)
      r.s(l[k].identifier).d(l[k].minValue).d(l[k].maxValue).d(l[k].defaultValue).i(l[k].isQuantized)
          .d(s.p->getParameter(l[k].identifier));
    return true;
  }
  if (cmd == "set") {
    Slot &s = slots[q.integer()];
    std::string id = q.str();
    s.p->setParameter(id, q.dbl());
    return true;
  }
  if (cmd == "get") {
    Slot &s = slots[q.integer()];
    r.d(s.p->getParameter(q.str()));
    return true;
  }
  if (cmd == "outs") {
    Slot &s = slots[q.integer()];
    Vamp::Plugin::OutputList l = s.p->getOutputDescriptors();
    r.i(l.size());
    for (size_t k = 0; k < l.size(); k++) {
      r.s(l[k].identifier).i(l[k].binCount).i(l[k].binNames.size());
      for (size_t b = 0; b < l[k].binNames.size(); b++) r.s(l[k].binNames[b]);
      r.d(l[k].sampleRate);
    }
    return true;
  }
  if (cmd == "describe") {
    Slot &s = slots[q.integer()];
    Vamp::Plugin::OutputList l = s.p->getOutputDescriptors();
    r.i(l.size());
    for (size_t k = 0; k < l.size(); k++)
      r.s(l[k].identifier).s(l[k].name).s(l[k].unit).i(l[k].hasFixedBinCount).i(l[k].binCount).i(l[k].binNames.size())
          .i(l[k].hasKnownExtents).d(l[k].hasKnownExtents ? l[k].minValue : 0).d(l[k].hasKnownExtents ? l[k].maxValue : 0)
          .i(l[k].isQuantized).d(l[k].isQuantized ? l[k].quantizeStep : 0).i(l[k].sampleType).d(l[k].sampleRate).i(l[k].hasDuration);
    return true;
  }
  if (cmd == "init") {
    Slot &s = slots[q.integer()];
    size_t ch = q.integer(), step = q.integer();
    s.block = q.integer();
    r.i(s.p->initialise(ch, step, s.block));
    return true;
  }
  if (cmd == "reset") { slots[q.integer()].p->reset(); return true; }
  if (cmd == "feed") {  // slot, file of (block + 2) floats per frame, first time, time step, output file
    Slot &s = slots[q.integer()];
    std::vector<float> v = readAll<float>(q.str());
    double t0 = q.dbl(), dt = q.dbl();
    std::string out = q.str();
    size_t w = s.block + 2;
    std::vector<float> bulk;
    r.i(v.size() / w);
    for (size_t k = 0; k < v.size() / w; k++) {
      std::vector<float> frame(v.begin() + k * w, v.begin() + (k + 1) * w);
      const float *buf = &frame[0];
      double t = t0 + k * dt;
      int sec = (int)std::floor(t);
      putFeatures(r, s.p->process(&buf, Vamp::RealTime(sec, (int)std::floor((t - sec) * 1e9 + .5))), bulk);
    }
    writeAll(out, bulk);
    return true;
  }
  if (cmd == "finish") {
    Slot &s = slots[q.integer()];
    std::string out = q.str();
    std::vector<float> bulk;
    putFeatures(r, s.p->getRemainingFeatures(), bulk);
    writeAll(out, bulk);
    return true;
  }
  if (cmd == "nnls") {  // m, n, file of a (column after column) then b; x and w back in the output file
    int m = q.integer(), n = q.integer();
    std::vector<float> v = readAll<float>(q.str());
    std::string out = q.str();
    std::vector<float> a(v.begin(), v.begin() + (size_t)m * n), b(v.begin() + (size_t)m * n, v.end());
    std::vector<float> x(n, -7.f), w(n, -7.f), zz(m, -7.f);
    std::vector<int> index(n, -7);
    float rnorm = -7;
    int mode = -7;
    int rc = nnls(a.data(), m, m, n, b.data(), x.data(), &rnorm, w.data(), zz.data(), index.data(), &mode);
    r.i(rc).i(mode).d(rnorm);
    x.insert(x.end(), w.begin(), w.end());
    writeAll(out, x);
    return true;
  }
  if (cmd == "viterbi") {  // states, frames, file of init, trans (row after row), obs (frame after frame)
    int ns = q.integer(), nf = q.integer();
    std::vector<double> v = readAll<double>(q.str());
    std::string out = q.str();
    std::vector<double> init(v.begin(), v.begin() + ns), scale, delta((size_t)ns * nf, -7.0);
    std::vector<std::vector<double> > trans, obs;
    size_t k = ns;
    for (int i = 0; i < ns; i++, k += ns) trans.push_back(std::vector<double>(v.begin() + k, v.begin() + k + ns));
    for (int i = 0; i < nf; i++, k += ns) obs.push_back(std::vector<double>(v.begin() + k, v.begin() + k + ns));
    std::vector<int> path = ViterbiPath(init, trans, obs, delta.data(), &scale);
    r.i(path.size()).i(scale.size());
    for (size_t i = 0; i < path.size(); i++) r.i(path[i]);
    delta.insert(delta.end(), scale.begin(), scale.end());
    writeAll(out, delta);
    return true;
  }
  if (cmd == "conv") {
    std::vector<double> x = q.dbls(), k = q.dbls();
    std::vector<float> z = SpecialConvolution(std::vector<float>(x.begin(), x.end()), std::vector<float>(k.begin(), k.end()));
    r.i(z.size());
    for (size_t i = 0; i < z.size(); i++) r.d(z[i]);
    return true;
  }
  if (cmd == "notedict") {
    double s = q.dbl();
    std::vector<float> d(nNote * 84, 0.f);
    dictionaryMatrix(d.data(), s);
    writeAll(q.str(), d);
    return true;
  }
  if (cmd == "logfreq") {
    int fs = q.integer(), block = q.integer();
    std::vector<float> d((size_t)nNote * block / 2, -7.f);
    logFreqMatrix(fs, block, d.data());
    writeAll(q.str(), d);
    return true;
  }
  if (cmd == "vamppath") {
    setenv("VAMP_PATH", q.str().c_str(), 1);
    return true;
  }
  if (cmd == "chorddict") {  // boostN, harte, VAMP_PATH, output file
    double boost = q.dbl(), harte = q.dbl();
    std::string path = q.str(), home = getenv("HOME") ? getenv("HOME") : "";
    if (path.compare(0, 5, "HOME=") && path.compare(0, 5, "VOID=")) {
      setenv("VAMP_PATH", path.c_str(), 1);
    } else {
      if (path[0] == 'V') setenv("VAMP_PATH", "", 1);  // an empty path is none
      else unsetenv("VAMP_PATH");
      setenv("HOME", path.c_str() + 5, 1);
    }
    std::vector<float> d;
    std::vector<std::vector<int> > notes;
    std::vector<std::string> names = chordDictionary(&d, &notes, boost, harte);
    setenv("VAMP_PATH", "/nonexistent", 1);
    setenv("HOME", home.c_str(), 1);
    r.i(names.size());
    for (size_t i = 0; i < names.size(); i++) r.s(names[i]);
    r.i(notes.size());
    for (size_t i = 0; i < notes.size(); i++) {
      r.i(notes[i].size());
      for (size_t k = 0; k < notes[i].size(); k++) r.i(notes[i][k]);
    }
    writeAll(q.str(), d);
    return true;
  }
  return false;
}
int main() {
  setenv("VAMP_PATH", "/nonexistent", 1);
  return serve(handle);
}
