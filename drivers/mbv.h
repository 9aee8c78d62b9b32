// Support code of the conformance drivers: a small JSON value, and the loop that replays command
// sequences (one forked process per sequence) and writes what was observed after each command.
#pragma once
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>

#include <sys/wait.h>
#include <unistd.h>
#include <fcntl.h>

namespace mbv
{
struct J
{
  enum T { Null, Bool, Int, Str, Arr, Obj } t = Null;
  bool b = false;
  long long i = 0;
  std::string s;
  std::vector<J> a;
  std::vector<std::pair<std::string, J>> o;

  J() {}
  J(bool v) : t(Bool), b(v) {}
  J(int v) : t(Int), i(v) {}
  J(long v) : t(Int), i(v) {}
  J(long long v) : t(Int), i(v) {}
  J(unsigned v) : t(Int), i(v) {}
  J(unsigned long v) : t(Int), i(static_cast<long long>(v)) {}
  J(const char * v) : t(Str), s(v) {}
  J(const std::string & v) : t(Str), s(v) {}
  static J arr() { J j; j.t = Arr; return j; }
  static J obj() { J j; j.t = Obj; return j; }
  template<typename C>
  static J arrOf(const C & c) { J j = arr(); for(const auto & x : c) j.push(J(x)); return j; }
  J & push(J v) { t = Arr; a.push_back(std::move(v)); return *this; }
  J & set(const std::string & k, J v)
  {
    t = Obj;
    for(auto & p : o) if(p.first == k) { p.second = std::move(v); return *this; }
    o.emplace_back(k, std::move(v));
    return *this;
  }
  bool has(const std::string & k) const { for(auto & p : o) if(p.first == k) return true; return false; }
  const J & operator[](const std::string & k) const
  {
    for(auto & p : o) if(p.first == k) return p.second;
    std::cerr << "driver: missing key " << k << " in " << dump() << std::endl;
    std::_Exit(77);
  }
  const J & operator[](const char * k) const { return (*this)[std::string(k)]; }
  const J & operator[](size_t k) const { if(k >= a.size()) { std::cerr << "driver: bad index in " << dump() << std::endl; std::_Exit(77);} return a[k]; }
  const J & operator[](int k) const { return (*this)[static_cast<size_t>(k)]; }
  size_t size() const { return a.size(); }
  int n() const { return static_cast<int>(i); }
  bool is(const char * v) const { return t == Str && s == v; }
  std::vector<int> ints() const { std::vector<int> r; for(auto & x : a) r.push_back(x.n()); return r; }

  void dump(std::string & out) const
  {
    switch(t)
    {
      case Null: out += "null"; break;
      case Bool: out += b ? "true" : "false"; break;
      case Int: out += std::to_string(i); break;
      case Str:
        out += '"';
        for(char c : s) { if(c == '"' || c == '\\') { out += '\\'; out += c; } else if(static_cast<unsigned char>(c) < 32) out += ' '; else out += c; }
        out += '"';
        break;
      case Arr: out += '['; for(size_t k = 0; k < a.size(); ++k) { if(k) out += ','; a[k].dump(out); } out += ']'; break;
      case Obj: out += '{'; for(size_t k = 0; k < o.size(); ++k) { if(k) out += ','; out += '"' + o[k].first + "\":"; o[k].second.dump(out); } out += '}'; break;
    }
  }
  std::string dump() const { std::string r; dump(r); return r; }

  static J parse(const std::string & x) { const char * p = x.c_str(); return parse_(p); }
private:
  static void ws(const char *& p) { while(*p == ' ' || *p == '\n' || *p == '\t' || *p == '\r' || *p == ',' || *p == ':') ++p; }
  static J parse_(const char *& p)
  {
    ws(p);
    J r;
    if(*p == '{') { r.t = Obj; ++p; ws(p); while(*p && *p != '}') { J k = parse_(p); J v = parse_(p); r.o.emplace_back(k.s, std::move(v)); ws(p); } if(*p) ++p; }
    else if(*p == '[') { r.t = Arr; ++p; ws(p); while(*p && *p != ']') { r.a.push_back(parse_(p)); ws(p); } if(*p) ++p; }
    else if(*p == '"') { r.t = Str; ++p; while(*p && *p != '"') { if(*p == '\\') ++p; r.s += *p++; } if(*p) ++p; }
    else if(!strncmp(p, "true", 4)) { r = J(true); p += 4; }
    else if(!strncmp(p, "false", 5)) { r = J(false); p += 5; }
    else if(!strncmp(p, "null", 4)) { p += 4; }
    else { char * e; r = J(strtoll(p, &e, 10)); if(e == p) { std::cerr << "driver: bad json at " << p << std::endl; std::_Exit(77); } p = e; }
    return r;
  }
};

/** Fixed-point (x scale) image of a double: only for values meant to be a multiple of 1/scale. */
inline J fx(double v, int scale = 1)
{
  double w = v * scale;
  if(std::isnan(w)) return J(2000000001);
  if(w > 1e9) return J(2000000000);
  if(w < -1e9) return J(-2000000000);
  double r = std::round(w);
  if(std::abs(w - r) > 1e-6 * std::max(1., std::abs(w))) return J(1500000000 + (static_cast<long long>(std::floor(w)) % 100000)); // not a multiple: can never match
  return J(static_cast<long long>(r));
}
/** Nearest integer of v x scale (for values that need not be exact multiples; compared with a tolerance in the specification). */
inline J rnd(double v, int scale)
{
  double w = v * scale;
  if(std::isnan(w)) return J(2000000001);
  if(w > 1e9) return J(2000000000);
  if(w < -1e9) return J(-2000000000);
  return J(static_cast<long long>(std::llround(w)));
}
template<typename V>
inline J vec(const V & v, int scale = 1) { J r = J::arr(); for(long k = 0; k < v.size(); ++k) r.push(fx(v(k), scale)); return r; }
template<typename M>
inline J mat(const M & m, int scale = 1)
{
  J r = J::arr();
  for(long k = 0; k < m.rows(); ++k) { J l = J::arr(); for(long c = 0; c < m.cols(); ++c) l.push(fx(m(k, c), scale)); r.push(l); }
  return r;
}

/** A system under test: fresh for each command sequence. */
struct Sut
{
  virtual ~Sut() {}
  /** Performs c and returns what it answered. Exceptions are turned into {"exc": 1}. */
  virtual J step(const J & c) = 0;
  /** Observable state (called after each command, also after one that threw). */
  virtual J observe() { return J(0); }
};

inline int main_(int argc, char ** argv, std::function<std::unique_ptr<Sut>(const J & cfg)> make)
{
  if(argc < 3) { std::cerr << "usage: driver in out" << std::endl; return 2; }
  std::ifstream in(argv[1]);
  std::ofstream out(argv[2]);
  const int limit = getenv("MBV_TRACE_TIMEOUT") ? atoi(getenv("MBV_TRACE_TIMEOUT")) : 25;
  int crashes = 0;
  std::string line;
  while(std::getline(in, line))
  {
    if(line.empty()) continue;
    J tr = J::parse(line);
    if(crashes >= 3) // enough to conclude
    {
      out << "{\"id\":" << tr["id"].dump() << ",\"cfg\":" << tr["cfg"].dump() << ",\"e\":[],\"crash\":\"not run after three crashes\"}\n";
      continue;
    }
    int fd[2];
    if(pipe(fd)) return 2;
    pid_t pid = fork();
    if(pid < 0) return 2;
    if(pid == 0)
    {
      close(fd[0]);
      alarm(static_cast<unsigned>(limit));
      std::string buf;
      auto flush = [&]() { size_t k = 0; while(k < buf.size()) { ssize_t w = write(fd[1], buf.data() + k, buf.size() - k); if(w <= 0) _exit(78); k += static_cast<size_t>(w); } buf.clear(); };
      {
        auto sut = make(tr["cfg"]);
        for(const auto & c : tr["c"].a)
        {
          J e = J::obj();
          e.set("c", c);
          try { e.set("r", sut->step(c)); }
          catch(const std::exception & x) { e.set("r", J::obj().set("exc", 1)); e.set("what", std::string(x.what()).substr(0, 160)); }
          e.set("s", sut->observe());
          buf += e.dump() + "\n";
          flush();
        }
      }
      buf = "END\n";
      flush();
      close(fd[1]);
      _exit(0);
    }
    close(fd[1]);
    std::string all;
    char tmp[65536];
    ssize_t r;
    while((r = read(fd[0], tmp, sizeof tmp)) > 0) all.append(tmp, static_cast<size_t>(r));
    close(fd[0]);
    int st = 0;
    waitpid(pid, &st, 0);
    out << "{\"id\":" << tr["id"].dump() << ",\"cfg\":" << tr["cfg"].dump() << ",\"e\":[";
    std::istringstream is(all);
    std::string l;
    bool first = true, end = false;
    while(std::getline(is, l))
    {
      if(l == "END") { end = true; break; }
      if(!first) out << ',';
      first = false;
      out << l;
    }
    out << "]";
    if(WIFEXITED(st) && WEXITSTATUS(st) == 77) { std::cerr << "driver: malformed command" << std::endl; return 77; }
    const bool crashed = !end || !WIFEXITED(st) || WEXITSTATUS(st) != 0;
    crashes += crashed;
    if(crashed)
      out << ",\"crash\":\"" << (WIFSIGNALED(st) ? "signal " + std::to_string(WTERMSIG(st)) : "exit " + std::to_string(WEXITSTATUS(st))) << "\"";
    out << "}\n";
    out.flush();
  }
  return 0;
}
} // namespace mbv
