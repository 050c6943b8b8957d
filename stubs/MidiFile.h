// Stand-in for the midifile submodule (github.com/craigsapp/midifile), which is absent here: a
// Standard MIDI File reader with the part of that library's interface a caller would use.
#ifndef VERIF_STUB_MIDIFILE_H_
#define VERIF_STUB_MIDIFILE_H_
#include <algorithm>
#include <exception>
#include <fstream>
#include <iterator>
#include <string>
#include <vector>

namespace smf {
typedef unsigned char uchar;

class MidiMessage : public std::vector<uchar> {
 public:
  int getP0() const { return size() > 0 ? (*this)[0] : -1; }
  int getP1() const { return size() > 1 ? (*this)[1] : -1; }
  int getP2() const { return size() > 2 ? (*this)[2] : -1; }
  int getCommandByte() const { return getP0(); }
  int getCommandNibble() const { return size() ? (*this)[0] & 0xf0 : -1; }
  int getChannel() const { return size() ? (*this)[0] & 0x0f : -1; }
  int getSize() const { return (int)size(); }
  bool isNoteOn() const { return size() == 3 && ((*this)[0] & 0xf0) == 0x90 && (*this)[2] != 0; }
  bool isNoteOff() const {
    return size() == 3 && (((*this)[0] & 0xf0) == 0x80 ||
                           (((*this)[0] & 0xf0) == 0x90 && (*this)[2] == 0));
  }
  bool isNote() const { return isNoteOn() || isNoteOff(); }
  bool isMeta() const { return size() && (*this)[0] == 0xff; }
  int getKeyNumber() const { return isNote() ? (*this)[1] : -1; }
  int getVelocity() const { return isNote() ? (*this)[2] : -1; }
};

class MidiEvent : public MidiMessage {
 public:
  MidiEvent() : tick(0), track(0), seconds(0), seq(0) {}
  int tick, track;
  double seconds;
  int seq;
};

class MidiEventList {
 public:
  MidiEvent &operator[](int i) { return ev.at(i); }
  const MidiEvent &operator[](int i) const { return ev.at(i); }
  int size() const { return (int)ev.size(); }
  int getSize() const { return size(); }
  int getEventCount() const { return size(); }
  std::vector<MidiEvent> ev;
};

class MidiFile {
 public:
  MidiFile() : ok_(true), absolute_(true), tpq_(120) { tracks_.resize(1); }
  explicit MidiFile(const std::string &f) : ok_(true), absolute_(true), tpq_(120) { read(f); }
  bool status() const { return ok_; }
  int getNumTracks() const { return (int)tracks_.size(); }
  int getTrackCount() const { return getNumTracks(); }
  int size() const { return getNumTracks(); }
  int getTicksPerQuarterNote() const { return tpq_; }
  int getNumEvents(int t) const { return tracks_.at(t).size(); }
  int getEventCount(int t) const { return getNumEvents(t); }
  MidiEventList &operator[](int t) { return tracks_.at(t); }
  const MidiEventList &operator[](int t) const { return tracks_.at(t); }
  void makeAbsoluteTicks() { absoluteTicks(); }
  void absoluteTicks() {
    if (absolute_) return;
    for (size_t t = 0; t < tracks_.size(); t++) {
      long s = 0;
      for (size_t i = 0; i < tracks_[t].ev.size(); i++) { s += tracks_[t].ev[i].tick; tracks_[t].ev[i].tick = (int)s; }
    }
    absolute_ = true;
  }
  void deltaTicks() {
    if (!absolute_) return;
    for (size_t t = 0; t < tracks_.size(); t++) {
      int last = 0;
      for (size_t i = 0; i < tracks_[t].ev.size(); i++) {
        int k = tracks_[t].ev[i].tick;
        tracks_[t].ev[i].tick = k - last;
        last = k;
      }
    }
    absolute_ = false;
  }
  void sortTracks() {
    for (size_t t = 0; t < tracks_.size(); t++)
      std::stable_sort(tracks_[t].ev.begin(), tracks_[t].ev.end(), less);
  }
  void joinTracks() {
    bool was = absolute_;
    absoluteTicks();
    MidiEventList all;
    for (size_t t = 0; t < tracks_.size(); t++)
      all.ev.insert(all.ev.end(), tracks_[t].ev.begin(), tracks_[t].ev.end());
    std::stable_sort(all.ev.begin(), all.ev.end(), less);
    tracks_.assign(1, all);
    if (!was) deltaTicks();
  }
  bool read(const std::string &name) {
    tracks_.assign(1, MidiEventList());
    absolute_ = true;
    std::ifstream f(name.c_str(), std::ios::binary);
    if (!f.is_open()) return ok_ = false;
    try {
      b_.assign(std::istreambuf_iterator<char>(f), std::istreambuf_iterator<char>());
      ok_ = parse();
    } catch (const std::exception &) {  // a directory
      ok_ = false;
    }
    if (!ok_) tracks_.assign(1, MidiEventList());
    return ok_;
  }
 private:
  static bool less(const MidiEvent &a, const MidiEvent &b) { return a.tick < b.tick; }
  bool be(size_t &p, int n, unsigned &v) {
    v = 0;
    for (int i = 0; i < n; i++) {
      if (p >= b_.size()) return false;
      v = (v << 8) | (uchar)b_[p++];
    }
    return true;
  }
  bool vlq(size_t &p, size_t end, unsigned &v) {
    v = 0;
    for (int i = 0; i < 4; i++) {
      if (p >= end) return false;
      uchar c = (uchar)b_[p++];
      v = (v << 7) | (c & 0x7f);
      if (!(c & 0x80)) return true;
    }
    return false;
  }
  bool parse() {
    size_t p = 0;
    unsigned len, fmt, n, div, v;
    if (b_.size() < 14 || b_.compare(0, 4, "MThd") != 0) return false;
    p = 4;
    if (!be(p, 4, len) || len < 6 || !be(p, 2, fmt) || !be(p, 2, n) || !be(p, 2, div)) return false;
    p = 8 + len;
    tpq_ = div;
    tracks_.assign(n ? n : 1, MidiEventList());
    for (unsigned t = 0; t < n; t++) {
      if (p + 8 > b_.size() || b_.compare(p, 4, "MTrk") != 0) return false;
      p += 4;
      if (!be(p, 4, len) || p + len > b_.size()) return false;
      size_t end = p + len;
      long tick = 0;
      uchar run = 0;
      while (p < end) {
        MidiEvent e;
        if (!vlq(p, end, v) || p >= end) return false;
        tick += v;
        e.tick = (int)tick;
        e.track = t;
        uchar c = (uchar)b_[p];
        if (c & 0x80) p++;
        else if (run) c = run;
        else return false;
        e.push_back(c);
        size_t data = 0;
        if (c == 0xff) {
          if (p >= end) return false;
          e.push_back((uchar)b_[p++]);
          if (!vlq(p, end, v)) return false;
          data = v;
        } else if (c == 0xf0 || c == 0xf7) {
          if (!vlq(p, end, v)) return false;
          data = v;
        } else if (c >= 0xf1) {
          return false;
        } else {
          run = c;
          data = (c & 0xe0) == 0xc0 ? 1 : 2;
        }
        if (p + data > end) return false;
        for (size_t i = 0; i < data; i++) e.push_back((uchar)b_[p++]);
        tracks_[t].ev.push_back(e);
      }
      p = end;
    }
    return true;
  }
  std::string b_;
  std::vector<MidiEventList> tracks_;
  bool ok_, absolute_;
  int tpq_;
};
}  // namespace smf
#endif
