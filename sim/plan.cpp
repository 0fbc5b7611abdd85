#include "core.h"
#include <sstream>
std::vector<Prop> &props() { static std::vector<Prop> v; return v; }
static std::string hex(const std::string &s) { static const char *d = "0123456789abcdef"; std::string o; for (unsigned char c : s) { o += d[c >> 4]; o += d[c & 15]; } return o; }
static std::string unhex(const std::string &s) { std::string o; for (size_t i = 0; i + 1 < s.size(); i += 2) o += (char)strtol(s.substr(i, 2).c_str(), 0, 16); return o; }
static std::string num(double d) { char b[64]; if (d == std::floor(d) && std::fabs(d) < 1e15 && !(d == 0 && std::signbit(d))) snprintf(b, sizeof b, "%.0f", d); else snprintf(b, sizeof b, "%a", d); return b; }
std::string Plan::text() const {
    std::string o = "plan 1\nprop " + prop + "\nseed " + std::to_string(seed) + "\n";
    for (auto &c : cfg) o += "cfg " + c.first + " " + num(c.second) + "\n";
    for (auto &p : ops) { o += "op " + p.k; for (double d : p.a) o += " " + num(d); if (!p.s.empty()) o += " s:" + hex(p.s); o += "\n"; }
    if (explicit_sched) { o += "schedule explicit\n"; for (auto &s : sw) o += "sw " + std::to_string(s.first) + " " + std::to_string(s.second) + "\n"; }
    return o + "end\n";
}
bool Plan::parse(const std::string &t, std::string &err) {
    std::istringstream in(t); std::string line; bool ended = false;
    while (std::getline(in, line)) {
        if (line.empty() || line[0] == '#') continue;
        std::istringstream l(line); std::string w; l >> w;
        if (w == "plan") continue;
        else if (w == "prop") l >> prop;
        else if (w == "seed") l >> seed;
        else if (w == "cfg") { std::string k, v; l >> k >> v; cfg[k] = strtod(v.c_str(), 0); }
        else if (w == "op") { Op o; l >> o.k; std::string v; while (l >> v) { if (v.compare(0, 2, "s:") == 0) o.s = unhex(v.substr(2)); else o.a.push_back(strtod(v.c_str(), 0)); } ops.push_back(o); }
        else if (w == "schedule") explicit_sched = true;
        else if (w == "sw") { u64 s; int d; l >> s >> d; sw.push_back({s, d}); }
        else if (w == "end") { ended = true; break; }
        else if (w == "expect" || w == "class" || w == "message") continue;
        else { err = "unknown line: " + line; return false; }
    }
    if (!ended) { err = "truncated plan"; return false; }
    return true;
}
