// Stand-in for the optparse submodule (github.com/myint/optparse), which is absent here: the part
// of its interface that justkeydding uses, with its documented behaviour.
#ifndef VERIF_STUB_OPTPARSE_H_
#define VERIF_STUB_OPTPARSE_H_
#include <algorithm>
#include <cstdlib>
#include <iostream>
#include <list>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <vector>

namespace optparse {

class Value {
 public:
  Value() : valid_(false) {}
  explicit Value(const std::string &v) : v_(v), valid_(true) {}
  operator const char *() const { return v_.c_str(); }
  operator bool() const {
    if (!valid_) return false;
    std::istringstream s(v_);
    bool t;
    return (s >> t) ? t : false;
  }
  operator int() const { return num<int>(); }
  operator short() const { return num<short>(); }
  operator long() const { return num<long>(); }
  operator unsigned int() const { return num<unsigned int>(); }
  operator unsigned long() const { return num<unsigned long>(); }
  operator float() const { return num<float>(); }
  operator double() const { return num<double>(); }
 private:
  template <class T> T num() const {
    T t = 0;
    if (valid_) { std::istringstream s(v_); if (!(s >> t)) t = 0; }
    return t;
  }
  std::string v_;
  bool valid_;
};

class Values {
 public:
  const std::string &operator[](const std::string &d) const {
    static const std::string empty;
    std::map<std::string, std::string>::const_iterator it = m_.find(d);
    return it == m_.end() ? empty : it->second;
  }
  std::string &operator[](const std::string &d) { return m_[d]; }
  bool is_set(const std::string &d) const { return m_.count(d) != 0; }
  bool is_set_by_user(const std::string &d) const { return user_.count(d) != 0; }
  void is_set_by_user(const std::string &d, bool yes) { if (yes) user_.insert(d); else user_.erase(d); }
  Value get(const std::string &d) const { return is_set(d) ? Value((*this)[d]) : Value(); }
 private:
  std::map<std::string, std::string> m_;
  std::set<std::string> user_;
};

class Option {
 public:
  Option() : action_("store") {}
  Option &action(const std::string &a) { action_ = a; return *this; }
  Option &type(const std::string &) { return *this; }
  Option &dest(const std::string &d) { dest_ = d; return *this; }
  Option &set_default(const std::string &d) { def_ = d; return *this; }
  template <class T> Option &set_default(T t) { std::ostringstream s; s << t; def_ = s.str(); return *this; }
  template <class It> Option &choices(It a, It b) { choices_.insert(choices_.end(), a, b); return *this; }
  Option &choices(std::initializer_list<std::string> l) { choices_.assign(l.begin(), l.end()); return *this; }
  Option &help(const std::string &h) { help_ = h; return *this; }
  Option &metavar(const std::string &h) { metavar_ = h; return *this; }
  std::set<std::string> s, l;
  std::string action_, dest_, def_, help_, metavar_;
  std::vector<std::string> choices_;
};

class OptionParser {
 public:
  virtual ~OptionParser() {}
  OptionParser &usage(const std::string &v) { usage_ = v; return *this; }
  OptionParser &version(const std::string &v) { version_ = v; return *this; }
  OptionParser &description(const std::string &v) { description_ = v; return *this; }
  OptionParser &epilog(const std::string &) { return *this; }
  OptionParser &prog(const std::string &) { return *this; }
  Option &add_option(const std::string &a) { return add(std::vector<std::string>(1, a)); }
  Option &add_option(const std::string &a, const std::string &b) {
    std::vector<std::string> v(1, a); v.push_back(b); return add(v);
  }
  Option &add_option(const std::string &a, const std::string &b, const std::string &c) {
    std::vector<std::string> v(1, a); v.push_back(b); v.push_back(c); return add(v);
  }
  const Values &parse_args(int argc, char const *const *argv) {
    std::vector<std::string> v;
    for (int i = 1; i < argc; i++) v.push_back(argv[i]);
    return parse_args(v);
  }
  const Values &parse_args(const std::vector<std::string> &v) {
    std::list<std::string> r(v.begin(), v.end());
    while (!r.empty()) {
      std::string a = r.front();
      r.pop_front();
      if (a == "--") {
        args_.insert(args_.end(), r.begin(), r.end());
        break;
      }
      if (a.size() > 2 && a.compare(0, 2, "--") == 0) {
        std::string name = a.substr(2), val;
        bool has = false;
        size_t eq = name.find('=');
        if (eq != std::string::npos) { val = name.substr(eq + 1); name = name.substr(0, eq); has = true; }
        if (name == "help") { print_help(); std::exit(0); }
        if (name == "version") { std::cout << version_ << std::endl; std::exit(0); }
        Option *o = 0;
        int n = 0;
        for (size_t i = 0; i < opts_.size(); i++) {
          for (std::set<std::string>::iterator it = opts_[i]->l.begin(); it != opts_[i]->l.end(); ++it) {
            if (*it == name) { o = opts_[i]; n = -1000; }
            else if (it->compare(0, name.size(), name) == 0 && n >= 0) { o = opts_[i]; n++; }
          }
        }
        if (!o) error("no such option: --" + name);
        if (n > 1) error("ambiguous option: --" + name);
        take(o, "--" + name, has, val, r);
      } else if (a.size() > 1 && a[0] == '-') {
        for (size_t i = 1; i < a.size(); i++) {
          std::string nm(1, a[i]);
          if (nm == "h") { print_help(); std::exit(0); }
          Option *o = 0;
          for (size_t k = 0; k < opts_.size(); k++) if (opts_[k]->s.count(nm)) o = opts_[k];
          if (!o) error("no such option: -" + nm);
          if (o->action_ == "store_true" || o->action_ == "store_false") {
            take(o, "-" + nm, false, "", r);
          } else {
            std::string rest = a.substr(i + 1);
            take(o, "-" + nm, !rest.empty(), rest, r);
            break;
          }
        }
      } else {
        args_.push_back(a);
      }
    }
    for (size_t k = 0; k < opts_.size(); k++) {
      Option *o = opts_[k];
      if (!o->def_.empty() && !values_.is_set(o->dest_)) values_[o->dest_] = o->def_;
    }
    return values_;
  }
  const std::list<std::string> &largs() const { return list_; }
  std::vector<std::string> args() const { return args_; }
  void print_help() const {
    std::cout << usage_ << "\n\n" << description_ << "\n\nOptions:\n";
    for (size_t k = 0; k < opts_.size(); k++)
      std::cout << "  --" << opts_[k]->dest_ << "  " << opts_[k]->help_ << "\n";
  }
  void print_usage() const { std::cout << usage_ << "\n"; }
  void error(const std::string &m) const {
    std::cerr << usage_ << "\n\nerror: " << m << std::endl;
    exit_(2);
  }
 protected:
  virtual void exit_(int c) const { std::exit(c); }
 private:
  void take(Option *o, const std::string &shown, bool has, std::string val, std::list<std::string> &r) {
    if (o->action_ == "store_true") val = "1";
    else if (o->action_ == "store_false") val = "0";
    else {
      if (!has) {
        if (r.empty()) error(shown + " option requires 1 argument");
        val = r.front();
        r.pop_front();
      }
      if (!o->choices_.empty() &&
          std::find(o->choices_.begin(), o->choices_.end(), val) == o->choices_.end())
        error("option " + shown + ": invalid choice: '" + val + "'");
    }
    values_[o->dest_] = val;
    values_.is_set_by_user(o->dest_, true);
  }
  Option &add(const std::vector<std::string> &v) {
    Option *o = new Option;
    for (size_t i = 0; i < v.size(); i++) {
      if (v[i].compare(0, 2, "--") == 0) o->l.insert(v[i].substr(2));
      else o->s.insert(v[i].substr(1));
    }
    o->dest_ = !o->l.empty() ? *o->l.begin() : *o->s.begin();
    opts_.push_back(o);
    return *o;
  }
  std::string usage_, version_, description_;
  std::vector<Option *> opts_;
  std::vector<std::string> args_;
  std::list<std::string> list_;
  Values values_;
};

class OptionParserExcept : public OptionParser {
 protected:
  virtual void exit_(int c) const { throw c; }
};

}  // namespace optparse
#endif
