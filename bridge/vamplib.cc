// The plugin library as a host sees it: everything goes through the C descriptors of vampGetPluginDescriptor.
// Speaks the plugin commands of nnlsbridge.cc.
#include "tok.h"
#include <cstring>
#include <fstream>
#include <vamp/vamp.h>

struct Slot {
  const VampPluginDescriptor *d;
  VampPluginHandle h;
  size_t block;
};
static Slot slots[6];

static std::vector<float> readAll(const std::string &path) {
  std::ifstream f(path.c_str(), std::ios::binary);
  std::vector<char> b((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>());
  std::vector<float> v(b.size() / sizeof(float));
  if (!v.empty()) memcpy(&v[0], &b[0], v.size() * sizeof(float));
  return v;
}
static void writeAll(const std::string &path, const std::vector<float> &v) {
  std::ofstream f(path.c_str(), std::ios::binary);
  if (!v.empty()) f.write((const char *)&v[0], v.size() * sizeof(float));
}
static std::string text(const char *c) { return c ? c : "(null)"; }

static void putFeatures(Res &r, Slot &s, VampFeatureList *l, std::vector<float> &bulk) {
  unsigned n = s.d->getOutputCount(s.h), used = 0;
  for (unsigned o = 0; l && o < n; o++) used += l[o].featureCount > 0;
  r.i(used);
  for (unsigned o = 0; l && o < n; o++) {
    unsigned c = l[o].featureCount;
    if (!c) continue;
    r.i(o).i(c);
    for (unsigned k = 0; k < c; k++) {
      const VampFeature &f = l[o].features[k].v1;
      const VampFeatureV2 &g = l[o].features[c + k].v2;
      r.i(f.hasTimestamp).d(f.hasTimestamp ? f.sec + f.nsec * 1e-9 : 0.0).i(g.hasDuration);
      r.d(g.hasDuration ? g.durationSec + g.durationNsec * 1e-9 : 0.0).s(f.label ? f.label : "").i(f.valueCount);
      bulk.insert(bulk.end(), f.values, f.values + f.valueCount);
    }
  }
  if (l) s.d->releaseFeatureSet(l);
}
static int param(Slot &s, const std::string &id) {
  for (unsigned k = 0; k < s.d->parameterCount; k++)
    if (id == s.d->parameters[k]->identifier) return k;
  return -1;
}

static bool handle(const std::string &cmd, Req &q, Res &r) {
  if (cmd == "library") {  // host version, index
    int version = q.integer(), index = q.integer();
    const VampPluginDescriptor *d = vampGetPluginDescriptor(version, index);
    r.i(d != 0);
    if (!d) return true;
    r.i(d->vampApiVersion).s(text(d->identifier)).s(text(d->name)).s(text(d->description)).s(text(d->maker));
    r.i(d->pluginVersion).s(text(d->copyright)).i(d->inputDomain == vampFrequencyDomain).i(d->programCount);
    r.i(d->parameterCount);
    for (unsigned k = 0; k < d->parameterCount; k++) {
      const VampParameterDescriptor *p = d->parameters[k];
      r.s(text(p->identifier)).s(text(p->name)).d(p->minValue).d(p->maxValue).d(p->defaultValue).i(p->isQuantized);
      r.d(p->isQuantized ? p->quantizeStep : 0);
      std::vector<std::string> names;
      for (const char **v = p->valueNames; p->isQuantized && v && *v; v++) names.push_back(*v);
      r.i(names.size());
      for (size_t n = 0; n < names.size(); n++) r.s(names[n]);
    }
    return true;
  }
  if (cmd == "new") {
    Slot &s = slots[q.integer()];
    std::string kind = q.str();
    float rate = q.dbl();
    kind = kind == "chroma" ? "nnls-chroma" : kind;
    if (s.h) s.d->cleanup(s.h);
    s.h = 0;
    for (int k = 0; !s.h; k++) {
      s.d = vampGetPluginDescriptor(2, k);
      if (!s.d) { fprintf(stderr, "the library has no %s\n", kind.c_str()); _exit(96); }
      if (kind == s.d->identifier) s.h = s.d->instantiate(s.d, rate);
    }
    r.i(s.d->getPreferredBlockSize(s.h)).i(s.d->getPreferredStepSize(s.h));
    return true;
  }
  Slot &s = slots[q.integer()];
  if (cmd == "drop") {
    if (s.h) s.d->cleanup(s.h);
    s.h = 0;
    return true;
  }
  if (cmd == "channels") { r.i(s.d->getMinChannelCount(s.h)).i(s.d->getMaxChannelCount(s.h)); return true; }
  if (cmd == "set") {
    int k = param(s, q.str());
    if (k >= 0) s.d->setParameter(s.h, k, q.dbl());
    return true;
  }
  if (cmd == "get") {
    int k = param(s, q.str());
    r.d(k < 0 ? 0 : s.d->getParameter(s.h, k));
    return true;
  }
  if (cmd == "outs") {
    unsigned n = s.d->getOutputCount(s.h);
    r.i(n);
    for (unsigned k = 0; k < n; k++) {
      VampOutputDescriptor *o = s.d->getOutputDescriptor(s.h, k);
      std::vector<std::string> names;
      for (unsigned b = 0; o->binNames && b < o->binCount; b++)
        if (o->binNames[b]) names.push_back(o->binNames[b]);
      r.s(o->identifier).i(o->hasFixedBinCount ? o->binCount : 0).i(names.size());
      for (size_t b = 0; b < names.size(); b++) r.s(names[b]);
      r.d(o->sampleRate);
      s.d->releaseOutputDescriptor(o);
    }
    return true;
  }
  if (cmd == "describe") {
    unsigned n = s.d->getOutputCount(s.h);
    r.i(n);
    for (unsigned k = 0; k < n; k++) {
      VampOutputDescriptor *o = s.d->getOutputDescriptor(s.h, k);
      int names = 0;
      for (unsigned b = 0; o->binNames && b < o->binCount; b++) names += o->binNames[b] && o->binNames[b][0];
      r.s(o->identifier).s(o->name).s(o->unit ? o->unit : "").i(o->hasFixedBinCount).i(o->binCount).i(names)
          .i(o->hasKnownExtents).d(o->hasKnownExtents ? o->minValue : 0).d(o->hasKnownExtents ? o->maxValue : 0)
          .i(o->isQuantized).d(o->isQuantized ? o->quantizeStep : 0).i(o->sampleType).d(o->sampleRate).i(o->hasDuration);
      s.d->releaseOutputDescriptor(o);
    }
    return true;
  }
  if (cmd == "init") {
    size_t ch = q.integer(), step = q.integer();
    s.block = q.integer();
    r.i(s.d->initialise(s.h, ch, step, s.block));
    return true;
  }
  if (cmd == "reset") { s.d->reset(s.h); return true; }
  if (cmd == "feed") {
    std::vector<float> v = readAll(q.str());
    double t0 = q.dbl(), dt = q.dbl();
    std::string out = q.str();
    size_t w = s.block + 2;
    std::vector<float> bulk;
    r.i(v.size() / w);
    for (size_t k = 0; k < v.size() / w; k++) {
      std::vector<float> frame(v.begin() + k * w, v.begin() + (k + 1) * w);
      const float *buf = &frame[0];
      double t = t0 + k * dt;
      int sec = (int)std::floor(t);
      putFeatures(r, s, s.d->process(s.h, &buf, sec, (int)std::floor((t - sec) * 1e9 + .5)), bulk);
    }
    writeAll(out, bulk);
    return true;
  }
  if (cmd == "finish") {
    std::string out = q.str();
    std::vector<float> bulk;
    putFeatures(r, s, s.d->getRemainingFeatures(s.h), bulk);
    writeAll(out, bulk);
    return true;
  }
  return false;
}
int main() {
  setenv("VAMP_PATH", "/nonexistent", 1);
  return serve(handle);
}
