// Common to the harnesses of the iterative LQR solver: settings files and the solver's printed history.
#pragma once
#include "vfh.hpp"
#include <cstdlib>
#include <fstream>
#include <regex>
#include <sstream>
#include <unistd.h>
#include <fcntl.h>
#include <Eigen/Dense>
using namespace vfh;
static std::string dir;
static const double S = 1e7;
static std::string dec(double v) { char b[64]; std::snprintf(b, 64, "%.17g", v); std::string r = b; return r.find_first_of(".en") == std::string::npos ? r + ".0" : r; }
static std::string list(const json& a, double unit) { std::string s = "["; for (auto& x : a) s += (s.size() > 1 ? ", " : "") + dec(x.get<int>()*unit); return s + "]"; }
static json mat(const Eigen::MatrixXd& m) { json a = json::array(); for (int i=0; i<m.rows(); i++) a.push_back(nums(Eigen::VectorXd(m.row(i).transpose()), S)); return a; }
// what the solver prints goes to a file
struct Capture {
  int saved; std::string path;
  Capture() { path = dir + "/log"; std::cout.flush(); fflush(stdout); saved = dup(1); int f = open(path.c_str(), O_CREAT|O_TRUNC|O_WRONLY, 0600); dup2(f, 1); close(f); }
  std::string end() { std::cout.flush(); fflush(stdout); dup2(saved, 1); close(saved); std::ifstream i(path); std::stringstream s; s << i.rdbuf(); unlink(path.c_str()); return std::regex_replace(s.str(), std::regex("\033\\[[0-9;]*m"), ""); }
};
static bool field(const std::string& line, const std::string& name, double& v)
{
  size_t i = line.find(name); if (i == std::string::npos) return false;
  v = std::strtod(line.c_str() + i + name.size(), nullptr); return true;
}
static int power(double log10lam) { if (std::isinf(log10lam) && log10lam < 0) return -9999; double e = log10lam/std::log10(2.0); return std::abs(e - std::round(e)) < 1e-6 ? (int)std::round(e) : 7777; }
static json events(const std::string& text)
{
  json ev = json::array(); std::istringstream in(text); std::string l; double a, b, c, d;
  while (std::getline(in, l)) {
    if (field(l, "Cholesky failed at timestep", a)) ev.push_back(json{{"e","chol"},{"t",(int)a}});
    else if (l.find("REJECTED") != std::string::npos && field(l, "Iter:", a) && field(l, "actual:", b) && field(l, "log10 lambda:", c)) ev.push_back(json{{"e","rej"},{"it",(int)a},{"red",num(b,1e9)},{"lam",power(c)}});
    else if (field(l, "Iter:", a) && field(l, "cost:", b) && field(l, "reduc:", c) && field(l, "log10lam:", d)) { double g = 0; field(l, "grad:", g); ev.push_back(json{{"e","ok"},{"it",(int)a},{"cost",num(b,S/8)},{"red",num(c,1e9)},{"redS",num(c,S/8)},{"grad",num(g,1e9)},{"lam",power(d)}}); }
    else if (l.find("divergence") != std::string::npos) ev.push_back(json{{"e","stop"},{"why","divergence"}});
    else if (l.find("Maximum iterations") != std::string::npos) ev.push_back(json{{"e","stop"},{"why","iterations"}});
    else if (l.find("lambda_max") != std::string::npos) ev.push_back(json{{"e","stop"},{"why","regularisation"}});
    else if (l.find("cost change") != std::string::npos) ev.push_back(json{{"e","stop"},{"why","cost"}});
    else if (l.find("gradient norm") != std::string::npos) ev.push_back(json{{"e","stop"},{"why","gradient"}});
    else if (field(l, "final cost:", a)) ev.push_back(json{{"e","sum"},{"cost",num(a,S/8)}});
    else if (field(l, "final grad:", a)) ev.back()["grad"] = num(a,1e9);
  }
  return ev;
}
