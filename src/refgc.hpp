// Independent reference semantics of G-code: a boring line parser and a printer interpreter.
// Nothing here is shared with the code under test.
#pragma once
#include "vf.hpp"

namespace ref {

struct Word { char k; double v; int dec; bool num; std::string raw; };
struct Line {
  std::string raw, code, comment, rawc; bool has_comment = false, blank = false; std::string cmd; std::vector<Word> w;
  bool is(const char* c) const { return cmd == c; }
  bool g01() const { return cmd == "G0" || cmd == "G1"; }
  bool g23() const { return cmd == "G2" || cmd == "G3"; }
  const Word* get(char k) const { const Word* r = nullptr; for (auto& x : w) if (x.k == k) r = &x; return r; }  // last one wins
  bool has(char k) const { return get(k) != nullptr; }
};
inline std::string trim(const std::string& s) {
  size_t a = 0, b = s.size(); while (a < b && (unsigned char)s[a] <= 32) a++; while (b > a && (unsigned char)s[b - 1] <= 32) b--; return s.substr(a, b - a);
}
inline bool read_num(const std::string& s, size_t& i, double& v, int& dec) {
  size_t j = i; std::string t; while (j < s.size() && s[j] == ' ') j++;
  if (j < s.size() && (s[j] == '-' || s[j] == '+')) { if (s[j] == '-') t += '-'; j++; while (j < s.size() && s[j] == ' ') j++; }
  bool any = false; dec = 0;
  while (j < s.size() && (isdigit((unsigned char)s[j]) || s[j] == ' ')) { if (s[j] != ' ') { t += s[j]; any = true; } j++; }
  if (j < s.size() && s[j] == '.') { t += any ? "." : "0."; j++; while (j < s.size() && (isdigit((unsigned char)s[j]) || s[j] == ' ')) { if (s[j] != ' ') { t += s[j]; any = true; dec++; } j++; } }
  if (!any) return false;
  v = strtod(t.c_str(), 0); i = j; return true;
}
inline Line parse(const std::string& raw) {
  Line L; L.raw = raw; size_t sc = raw.find(';'); L.code = raw.substr(0, sc);
  if (sc != std::string::npos) { L.has_comment = true; L.comment = trim(raw.substr(sc + 1)); L.rawc = raw.substr(sc + 1); while (!L.rawc.empty() && (L.rawc.back() == '\r' || L.rawc.back() == '\n')) L.rawc.pop_back(); }
  L.blank = L.rawc.empty() && trim(L.code).empty();
  
  const std::string& s = L.code; size_t i = 0; while (i < s.size() && s[i] == ' ') i++;
  if (i >= s.size()) return L;
  char c = toupper((unsigned char)s[i]);
  if (c == 'G' || c == 'M' || c == 'T') {
    size_t j = i + 1; while (j < s.size() && s[j] == ' ') j++;
    std::string num; while (j < s.size() && isdigit((unsigned char)s[j])) num += s[j++];
    if (num.empty()) return L;
    bool sub = false; if (j < s.size() && s[j] == '.') { sub = true; num += '.'; j++; while (j < s.size() && isdigit((unsigned char)s[j])) num += s[j++]; }
    if (!sub) { size_t z = 0; while (z + 1 < num.size() && num[z] == '0') z++; num = num.substr(z); }
    L.cmd = std::string(1, c) + num;
    if (c == 'T') return L;
    i = j;
    while (i < s.size()) {
      while (i < s.size() && s[i] == ' ') i++;
      if (i >= s.size()) break;
      char k = toupper((unsigned char)s[i]); if (k < 'A' || k > 'Z') break;
      Word w; w.k = k; w.dec = 0; w.v = 0; w.num = false; size_t b = ++i;
      if (read_num(s, i, w.v, w.dec)) w.num = true; else if (i < s.size() && s[i] != ' ') { i = s.size(); }   // text runs to the end; a bare letter is a flag
      w.raw = s.substr(b, i - b); L.w.push_back(w);
    }
  }
  return L;
}
inline std::vector<std::string> split(const std::string& t) {
  std::vector<std::string> r; size_t i = 0; while (i < t.size()) { size_t n = t.find('\n', i); if (n == std::string::npos) { r.push_back(t.substr(i)); break; } r.push_back(t.substr(i, n - i)); i = n + 1; } return r;
}

// Printer state.  p[] is the position in the frame in which G92 and tool offsets are undone.
struct Sim {
  bool g90e = false;
  double p[3] = {0, 0, 0}, off[3] = {0, 0, 0}, fwcur[3] = {0, 0, 0}, fwt[8][3] = {}; int ntool = 8;
  bool known[3] = {false, false, false}, homed[3] = {false, false, false};
  double e = 0, eoff = 0, f = -1; bool rel = false, erel = false, inch = false; int feat = 0, tool = 0;
  // results of the last step
  double de = 0, pre[3]; bool pre_known[3]; bool moved = false;
  double fwtool(int a) const { return fwt[tool][a]; }
  double lg(int a) const { return p[a] - off[a] + fwcur[a]; }
  double le() const { return e - eoff; }
  static int feature(const std::string& c) {
    if (c == "perimeter" || c == "move to first perimeter point") return 1;
    if (c == "infill" || c == "move to first infill point") return 2;
    if (c == "infill(bridge)" || c == "move to first infill(bridge) point") return 3;
    if (c == "skirt" || c == "move to first skirt point") return 4;
    return 0;
  }
  void step(const Line& L) {
    de = 0; moved = false; for (int a = 0; a < 3; a++) { pre[a] = p[a]; pre_known[a] = known[a]; }
    if (int ft = feature(L.comment)) feat = ft;
    if (L.g01() || L.g23()) {
      const char ax[4] = "XYZ";
      for (int a = 0; a < 3; a++) if (const Word* w = L.get(ax[a])) {
        double v = w->v;
        if (rel) { if (known[a]) p[a] += v; }
        else { fwcur[a] = fwtool(a); p[a] = v + off[a] - fwcur[a]; known[a] = true; }
      }
      if (const Word* w = L.get('E')) { double v = w->v, e0 = e; if (erel) e += v; else e = v + eoff; de = e - e0; }
      if (const Word* w = L.get('F')) f = w->v;
      moved = true;
    } else if (L.cmd == "G90") { rel = false; if (g90e) erel = false; }
    else if (L.cmd == "G91") { rel = true; if (g90e) erel = true; }
    else if (L.cmd == "M82") erel = false;
    else if (L.cmd == "M83") erel = true;
    else if (L.cmd == "G20") inch = true;
    else if (L.cmd == "G21") inch = false;
    else if (L.cmd == "G28") {
      bool any = L.has('X') || L.has('Y') || L.has('Z'); const char ax[4] = "XYZ";
      for (int a = 0; a < 3; a++) if (!any || L.has(ax[a])) { homed[a] = true; known[a] = false; }
    } else if (L.cmd == "G29" || L.cmd == "G80") { for (int a = 0; a < 3; a++) known[a] = false;   // bed levelling leaves the head somewhere
    } else if (L.cmd == "G92") {
      const char ax[4] = "XYZ"; bool any = L.has('X') || L.has('Y') || L.has('Z') || L.has('E'), o = L.has('O');
      if (o) for (int a = 0; a < 3; a++) homed[a] = true;
      if (!any && !o) { for (int a = 0; a < 3; a++) if (known[a]) off[a] = p[a] + fwcur[a]; eoff = e; }
      for (int a = 0; a < 3; a++) if (const Word* w = L.get(ax[a])) {
        if (known[a] && homed[a]) off[a] = p[a] - w->v + fwcur[a];
        else { off[a] = 0; p[a] = w->v - fwcur[a]; known[a] = true; }
      }
      if (const Word* w = L.get('E')) eoff = e - w->v;
    } else if (L.cmd == "M218" || L.cmd == "G10") {
      const char ax[4] = "XYZ"; if (const Word* t = L.get(L.cmd == "G10" ? 'P' : 'T')) { int n = (int)t->v; n = n < 0 ? 0 : n >= ntool ? ntool - 1 : n; for (int a = 0; a < 3; a++) if (const Word* w = L.get(ax[a])) fwt[n][a] = w->v; }
    } else if (L.cmd.size() > 1 && L.cmd[0] == 'T') { tool = atoi(L.cmd.c_str() + 1); if (tool >= ntool) tool = ntool - 1; }
  }
  uint64_t hash() const {
    uint64_t h = 7; for (int a = 0; a < 3; a++) { h = vf::hash_d(h, p[a]); h = vf::hash_d(h, off[a]); h = vf::hash_d(h, fwcur[a]); h = vf::mix(h, known[a] * 2 + homed[a]); }
    h = vf::hash_d(h, e); h = vf::hash_d(h, eoff); h = vf::hash_d(h, f); return vf::mix(h, rel + 2 * erel + 4 * inch + 8 * feat + 128 * tool);
  }
};
}  // namespace ref
