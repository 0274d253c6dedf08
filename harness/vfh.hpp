// Common part of the C++ harnesses: scenarios in (ndjson), records out (ndjson).
#pragma once
#include <unistd.h>
#include <signal.h>
#include <cmath>
#include <cstdio>
#include <fstream>
#include <functional>
#include <iostream>
#include <string>
#include <nlohmann/json.hpp>

namespace vfh {
  using json = nlohmann::json;
  static const int NANV = 1999999999, BIGV = 1500000000;

  // real number -> scaled integer observed by the trace specification
  inline int num(double x, double scale)
  {
    if (std::isnan(x)) return NANV;
    double v = std::round(x*scale);
    if (v >  BIGV) return  BIGV;
    if (v < -BIGV) return -BIGV;
    return static_cast<int>(v);
  }
  template <typename V> inline json nums(const V& v, double scale)
  {
    json a = json::array();
    for (int i=0; i<(int)v.size(); i++) a.push_back(num(v[i], scale));
    return a;
  }
  inline FILE*& out() { static FILE* f = nullptr; return f; }
  inline void emit(const json& j) { std::fprintf(out(), "%s\n", j.dump().c_str()); std::fflush(out()); }

  // the code under test may print: keep stdout for records only
  inline void isolate()
  {
    int fd = dup(1);
    out() = fdopen(fd, "w");
    if (!freopen("/dev/null", "w", stdout)) {}
  }
  inline int run(int argc, char** argv, int seconds, const std::function<void(const json&)>& body)
  {
    isolate();
    std::ifstream in(argv[argc-1]);
    std::string line; int i=0;
    while (std::getline(in, line)) {
      if (line.empty()) continue;
      std::fprintf(out(), "#BEGIN %d\n", i); std::fflush(out());
      alarm(seconds);
      try { body(json::parse(line)); }
      catch (const std::exception& e) { emit(json{{"event","exception"},{"what",std::string(e.what()).substr(0,200)}}); }
      catch (...) { emit(json{{"event","exception"},{"what","unknown"}}); }
      alarm(0);
      std::fprintf(out(), "#END %d\n", i); std::fflush(out());
      i++;
    }
    return 0;
  }
}
