// Explorer for the straightener: every arc of a bounded grid, for every firmware version and setting, and every short
// sequence of lines, through the real arc_interpolation; judged by the reference printer and by an independent
// account of the geometry and of each firmware's segment rule.
#include "weldlib.hpp"
#include "arc_interpolation.h"
#include "marlin_1.h"
#include <functional>
#include <iostream>
#include <memory>
#include <new>
namespace app {
using namespace std; using std::vector; using ref::Line; using ref::Sim;
static vf::Ctx X; static bool th = false;

// ---------------------------------------------------------------- firmware versions and settings
struct FW { const char* name; int type; const char* ver; int order; bool z; double mm; int nc; int mins; };
static const FW fws[] = {   // order: terms of the sine the firmware keeps; z: draws helices
  {"marlin1", MARLIN_1, "1.1.9.1", 1, true, 1, 25, 0}, {"marlin2a", MARLIN_2, "2.0.9.1", 3, true, 1, 25, 24}, {"marlin2b", MARLIN_2, "2.0.9.2", 3, true, 0, 25, 0},
  {"repetier4", REPETIER, "1.0.4", 1, false, 1, 25, 0}, {"repetier5", REPETIER, "1.0.5", 3, true, 1, 25, 0}, {"prusa310", PRUSA, "3.10.0", 1, true, 1, 25, 0},
  {"prusa311", PRUSA, "3.11.0", 3, true, 1, 25, 24}, {"smoothie", SMOOTHIEWARE, "2021-06-19", 1, true, 0, 5, 0}};
static const int NFW = 8;
struct FCfg {
  int fw = 0; double mm = 1, perr = 0, minmm = 0, bmm = 0.1, dmm = 1, sps = 0, err = 0; int mins = 0, minc = 72, nc = 25; bool g90e = false;
  string str() const { char b[400]; snprintf(b, sizeof b, "fw=%d mm=%.10g perr=%.10g minmm=%.10g bmm=%.10g dmm=%.10g sps=%.10g err=%.10g mins=%d minc=%d nc=%d g90e=%d", fw, mm, perr, minmm, bmm, dmm, sps, err, mins, minc, nc, (int)g90e); return b; }
  static FCfg parse(const string& s) { FCfg c; stringstream st(s); string t; while (st >> t) { size_t q = t.find('='); if (q == string::npos) continue; string k = t.substr(0, q); double v = atof(t.c_str() + q + 1);
    if (k == "fw") c.fw = v; else if (k == "mm") c.mm = v; else if (k == "perr") c.perr = v; else if (k == "minmm") c.minmm = v; else if (k == "bmm") c.bmm = v; else if (k == "dmm") c.dmm = v; else if (k == "sps") c.sps = v;
    else if (k == "err") c.err = v; else if (k == "mins") c.mins = v; else if (k == "minc") c.minc = v; else if (k == "nc") c.nc = v; else if (k == "g90e") c.g90e = v; } return c; }
};
static FCfg dflt(int fw) { FCfg c; c.fw = fw; c.mm = fws[fw].mm; c.nc = fws[fw].nc; c.mins = fws[fw].mins; c.g90e = fws[fw].type == MARLIN_2 || fws[fw].type == SMOOTHIEWARE; c.err = fws[fw].type == SMOOTHIEWARE ? 0.01 : 0; return c; }
static firmware_arguments fargs(const FCfg& c) {
  firmware_arguments a; a.firmware_type = (firmware_types)fws[c.fw].type; a.version = fws[c.fw].ver; a.mm_per_arc_segment = c.mm; a.arc_segments_per_r = c.perr; a.min_mm_per_arc_segment = c.minmm; a.min_arc_segment_mm = c.bmm;
  a.max_arc_segment_mm = c.dmm; a.arc_segments_per_sec = c.sps; a.mm_max_arc_error = c.err; a.min_arc_segments = c.mins; a.min_circle_segments = c.minc; a.n_arc_correction = c.nc; a.g90_g91_influences_extruder = c.g90e; return a;
}
struct Out { string text, console; };
static Out run(const string& dir, const FCfg& c, const string& text) {
  Out r; string s = dir + "/s.gcode", t = dir + "/t.gcode"; vf::write_file(s, text); unlink(t.c_str());
  arc_interpolation_args a; a.firmware_args = fargs(c); a.source_path = s; a.target_path = t;
  stringstream cap; auto* ob = cout.rdbuf(cap.rdbuf());
  void* m = malloc(sizeof(arc_interpolation)); memset(m, 0xBE, sizeof(arc_interpolation));
  arc_interpolation* p = new (m) arc_interpolation(a); p->process(); p->~arc_interpolation(); free(m);
  cout.rdbuf(ob); r.console = cap.str(); r.text = vf::read_file(t); return r;
}
// number of segments by the firmware's rule, as a range (the rule is evaluated in single precision by the firmware)
static double cons(double v, double lo, double hi) { return v < lo ? lo : v > hi ? hi : v; }
static void segs(const FCfg& c, double R, double sweep, double dz, double f, bool full, int& lo, int& hi) {
  double flat = R * sweep, mm = hypot(flat, dz); lo = 1 << 30; hi = 0;
  for (int k = -1; k <= 1; k++) {
    double e = 1 + k * 3e-5, n = 1;
    switch (c.fw) {
      case 0: case 5: n = max(1.0, floor(mm / c.mm * e)); break;
      case 1: { double mins = c.mins > 0 ? c.mins : 1; if (!full && c.mins > 1) mins = max(1.0, ceil(mins * sweep / (2 * M_PI) * e)); double L = c.mm; if (c.perr > 0) L = cons(c.mm * R, c.mm, c.perr); else if (c.sps > 0) L = max(f / 60 / c.sps, c.mm); n = max(floor(mm / L * e), mins); break; }
      case 2: { double mins = c.minc > 0 ? c.minc : 1; if (!full) mins = ceil(mins * sweep / (2 * M_PI) * e); double nom = c.sps > 0 ? cons(f / 60 / c.sps, c.bmm, c.dmm) : c.dmm; double ns = max(floor(flat / nom * e), mins); double L = cons(flat / ns, c.bmm, c.dmm);
        n = floor(flat / L * e); if (L * n < flat - 1e-4) n++; n = max(n, 1.0); break; }
      case 3: { double L = f > 60 ? min(c.mm, f * 0.01666 * c.mm) : c.mm; n = max(1.0, floor(flat / L * e)); break; }
      case 4: n = max(1.0, ceil(mm / c.mm * e)); break;
      case 6: { double L = c.mm; if (c.mins > 0) L = R * 2 * M_PI / c.mins; if (c.sps > 0) L = min(L, f / 60 / c.sps); if (L < c.minmm) L = c.minmm; else if (L > c.mm) L = c.mm; n = ceil(mm / L * e); break; }
      case 7: { double L = c.mm; if (c.err > 0 && 2 * R > c.err) L = max(L, 2 * sqrt(c.err * (2 * R - c.err))); if (L < 1e-4) L = 0.5; n = max(1.0, floor(mm / L * e)); break; }
    }
    lo = min(lo, (int)n); hi = max(hi, (int)n);
  }
  if (c.fw == 2) { lo = max(1, lo - 1); hi++; }   // the double rounding of flat/(flat/n)
}

// ---------------------------------------------------------------- judge
struct Bad { string kind, msg; };
static string num(double d) { char b[40]; snprintf(b, 40, "%.7g", d); return b; }
struct Judge {
  FCfg c; vector<Line> s, o; vector<Sim> S; vector<Bad> bad; uint64_t outcome = 3; int narc = 0, nseg = 0; bool zexempt = false;
  void B(vector<Bad>& b, const string& k, const string& m) { b.push_back({k, m}); }
  struct Arc { double sx, sy, ex, ey, cx, cy, R, sweep, dz, de, f; bool cw, full, degenerate; };
  Arc geo(int i) const {
    Arc a; const Sim &P = S[i], &Q = S[i + 1]; const Line& L = s[i]; const ref::Word *wi = L.get('I'), *wj = L.get('J'); double I = wi && wi->num ? wi->v : 0, J = wj && wj->num ? wj->v : 0;
    a.sx = P.lg(0); a.sy = P.lg(1); a.ex = Q.lg(0); a.ey = Q.lg(1); a.cx = a.sx + I; a.cy = a.sy + J; a.R = hypot(I, J); a.cw = L.cmd == "G2"; a.dz = Q.lg(2) - P.lg(2); a.de = Q.e - P.e; a.f = Q.f;
    a.full = fabs(a.ex - a.sx) < 1e-7 && fabs(a.ey - a.sy) < 1e-7; double d = atan2(a.ey - a.cy, a.ex - a.cx) - atan2(a.sy - a.cy, a.sx - a.cx); if (a.cw) d = -d; while (d < 0) d += 2 * M_PI; while (d >= 2 * M_PI) d -= 2 * M_PI;
    a.sweep = a.full ? 2 * M_PI : d;
    a.degenerate = a.R == 0 || hypot(a.R * a.sweep, a.dz) < 0.0012 || a.R * a.sweep < 0.0012 || a.sweep < 2e-6 || (c.fw == 7 && !(a.f > 0));
    // these firmwares recognise a full circle by an angle of exactly zero: only certain where single precision is exact
    if (a.full && (c.fw == 0 || c.fw == 3 || c.fw == 5 || c.fw == 6)) for (double v : {a.sx, a.sy, I, J}) if (v * 8 != floor(v * 8)) a.degenerate = true;
    return a;
  }
  // judges output lines [j, j+n) as the replacement of source line i
  void arc(int i, int j, int n, Sim& O, vector<Bad>& b) {
    const Sim &P = S[i], &Q = S[i + 1]; Arc a = geo(i); string at = "arc '" + s[i].raw + "' -> " + to_string(n) + " moves";
    bool known = P.known[0] && P.known[1] && P.known[2];
    double C = max({fabs(a.sx), fabs(a.sy), fabs(a.cx), fabs(a.cy)}) + a.R; int run = c.nc > 0 ? min(c.nc, n) : 0; double thn = a.sweep / n, sn = fws[c.fw].order == 1 ? thn : thn - thn * thn * thn / 6, cs = 1 - thn * thn / 2;
    double g = hypot(sn, cs), da = fabs(atan2(sn, cs) - thn), fl = 6e-8 * (6 * C + 6 * a.R * run) + a.R * 4e-6 + 1e-7; double radial = a.R * max(pow(max(g, 1.0), run) - 1, 1 - pow(min(g, 1.0), run)), drift = da * run;
    double mis = fabs(hypot(a.ex - a.cx, a.ey - a.cy) - a.R), eps = 0.00072 + fl; double asl = a.R > 0 ? (0.00072 + fl + mis) / a.R + drift : 0;
    bool ambiguous = thn > 2.2 || a.R < 0.02 || a.degenerate; double z0 = O.lg(2), e0 = O.e, cum = 0; double px = a.sx, py = a.sy; double etol = 0.5e-5 + 6e-8 * (fabs(P.le()) + fabs(Q.le())) * 2 + 6.1e-8 * n * max(fabs(P.le()), fabs(Q.le())) + 1e-9;
    double ztol = 0.0005 + 6e-8 * (fabs(P.lg(2)) + fabs(Q.lg(2))) * (2 + 1.02 * n) + 1e-7, first = 0, worst = 0; vector<double> st;
    if (a.R == 0 && (n != 1 || o[j].raw != s[i].raw)) B(b, "drawn", at + ": an arc without a centre is drawn: '" + o[j].raw + "'");
    for (int k = 0; k < n; k++) {
      const Line& L = o[j + k];
      if (L.raw == s[i].raw) { if (!a.degenerate || n != 1) B(b, "unstraightened", at + ": the arc is left as it is"); O.step(L); goto done; }
      { int ord = -1; const char* order = "XYZEF"; for (auto& w : L.w) { const char* q = strchr(order, w.k); int wd = w.k == 'F' ? 0 : w.k == 'E' ? 5 : 3; if (!q || q - order <= ord || !w.num || w.dec > wd || ref::trim(w.raw).find_first_not_of("0123456789.-") != string::npos) B(b, "format", at + ": '" + L.raw + "'"); ord = q ? q - order : 9; }
        string code = ref::trim(L.code); if (L.cmd != "G1" || L.has_comment || code.find_first_not_of("GXYZEF0123456789.- ") != string::npos) B(b, "format", at + ": '" + L.raw + "'"); }
      O.step(L);
      if (!known) continue;
      double x = O.lg(0), y = O.lg(1);
      double an0 = atan2(py - a.cy, px - a.cx), an = atan2(y - a.cy, x - a.cx), d = a.cw ? an0 - an : an - an0; while (d > M_PI) d -= 2 * M_PI; while (d <= -M_PI) d += 2 * M_PI;
      if (thn > 0.9 * M_PI && !ambiguous && d < 0) d += 2 * M_PI;
      cum += d; st.push_back(d);
      if (k < n - 1) {
        double rr = hypot(x - a.cx, y - a.cy); worst = max(worst, fabs(rr - a.R) - radial);
        if (fabs(rr - a.R) > radial + eps) B(b, "circle", at + ": point " + to_string(k + 1) + " is " + num(fabs(rr - a.R)) + " off the circle (allowed " + num(radial + eps) + ")");
        if (!ambiguous && d < -2 * asl - 1e-9) B(b, "order", at + ": point " + to_string(k + 1) + " goes back by " + num(-d) + " rad");
        double fr = ambiguous ? (k + 1.0) / n : cum / a.sweep, fsl = ambiguous ? 1 : asl / a.sweep;
        if (a.sweep > 0) {
          double we = P.e + a.de * fr; if (fabs(O.e - we) > etol + 1.5 * fabs(a.de) * fsl) B(b, "espread", at + ": E after point " + to_string(k + 1) + " is " + num(O.e) + " instead of " + num(we));
          double wz = z0 + (Q.lg(2) - z0) * fr; if (!zexempt && fabs(O.lg(2) - wz) > ztol + 1.5 * fabs(a.dz) * fsl) B(b, "z", at + ": Z after point " + to_string(k + 1) + " is " + num(O.lg(2)) + " instead of " + num(wz));
        }
      }
      if (a.de == 0 && fabs(O.e - e0) > 1e-9) B(b, "eextra", at + ": extrudes although the arc does not");
      if (a.f > 0 && k == 0 && fabs(O.f - a.f) > 0.5 + 1e-6 * a.f) B(b, "feed", at + ": first move at F" + num(O.f) + ", arc at F" + num(a.f));
      px = x; py = y;
    }
    if (known && !ambiguous && fabs(cum - a.sweep) > 2 * asl + 1e-9) B(b, "sweep", at + ": turns by " + num(cum) + " rad, the arc by " + num(a.sweep));
    if (known && !a.degenerate) { int lo, hi; segs(c, a.R, a.sweep, a.dz, a.f > 0 ? a.f : 0, a.full, lo, hi); if (n < lo || n > hi) B(b, "count", at + ": the firmware's rule gives " + to_string(lo) + (hi > lo ? ".." + to_string(hi) : string()));
      if (!ambiguous) for (int k = 0; k + 1 < n; k++) if (fabs(st[k] - st[0]) > 3 * asl + 1e-9) { B(b, "even", at + ": segment " + to_string(k + 1) + " turns by " + num(st[k]) + ", the first by " + num(st[0])); break; }
      if (!ambiguous && n > 1 && st[n - 1] > st[0] + 3 * asl + 1e-9) B(b, "even", at + ": the last segment turns by " + num(st[n - 1]) + ", the first by " + num(st[0])); }
  done:
    if (known) for (int q = 0; q < 3; q++) { if (q == 2 && zexempt) continue; double t = 0.0005 + 1.3e-7 * (fabs(P.lg(q)) + fabs(Q.lg(q))) + 1e-7; if (fabs(O.lg(q) - Q.lg(q)) > t) B(b, q == 2 ? "zend" : "end", at + ": ends at " + "XYZ"[q] + num(O.lg(q)) + " instead of " + num(Q.lg(q))); }
    if (fabs(O.e - Q.e) > etol) B(b, "eend", at + ": ends at E " + num(O.e) + " instead of " + num(Q.e));
    if (a.f > 0 && fabs(O.f - Q.f) > 0.5 + 1e-6 * a.f) B(b, "feed", at + ": leaves F" + num(O.f) + " instead of F" + num(Q.f));
    (void)first;
  }
  bool cand(int i, int j, int n, const Sim& O0, Sim& O, vector<Bad>& b) { O = O0; b.clear(); arc(i, j, n, O, b); return b.empty(); }
  static bool gen(const Line& L) { return L.cmd == "G1" && !L.has_comment; }
  // resynchronise the printer with the source so that an error is reported where it happens
  void sync(Sim& O, const Sim& R) { double z = O.p[2]; O = R; if (zexempt) O.p[2] = z; }
  bool match(int i, int j, Sim O, vector<Bad>& all, int depth) {
    int n = s.size(), m = o.size();
    while (i < n && !s[i].g23()) {
      if (j >= m || o[j].raw != s[i].raw) { B(all, "lines", "source line " + to_string(i + 1) + " '" + s[i].raw + "' -> " + (j < m ? "'" + o[j].raw + "'" : string("end of file"))); return false; }
      O.step(s[i]); i++; j++; sync(O, S[i]);
    }
    if (i == n) { if (j != m) B(all, "lines", "extra output line '" + o[j].raw + "'"); return j == m; }
    int mx = 0; while (j + mx < m && (gen(o[j + mx]) || o[j + mx].raw == s[i].raw)) mx++;
    if (mx == 0) { B(all, "dropped", "the arc '" + s[i].raw + "' has disappeared"); return false; }
    Arc a = geo(i); int lo, hi; segs(c, a.R, a.sweep, a.dz, a.f > 0 ? a.f : 0, a.full, lo, hi); vector<Bad> b; Sim O1;
    // next source line is unambiguous: all moves up to it belong to this arc
    bool next_arc = i + 1 < n && s[i + 1].g23(), next_gen = i + 1 < n && gen(s[i + 1]);
    if (!next_arc && !next_gen) { cand(i, j, mx, O, O1, b); narc++; nseg += mx; outcome = vf::mix(outcome, mx); for (auto& x : b) all.push_back(x); sync(O1, S[i + 1]); bool ok = match(i + 1, j + mx, O1, all, depth); return ok && b.empty(); }
    vector<int> ks; for (int k = max(1, lo); k <= min(hi, mx); k++) ks.push_back(k); for (int k = 1; k <= mx; k++) if (k < lo || k > hi) ks.push_back(k);
    vector<Bad> keep; bool got = false;
    for (size_t q = 0; q < ks.size() && q < 400; q++) if (cand(i, j, ks[q], O, O1, b)) {
      vector<Bad> rest; int na = narc, ns = nseg; narc++; nseg += ks[q]; sync(O1, S[i + 1]); if (match(i + 1, j + ks[q], O1, rest, depth + 1)) { outcome = vf::mix(outcome, ks[q]); return true; } narc = na; nseg = ns; if (!got) { keep = rest; got = true; }
    }
    if (got) { for (auto& x : keep) all.push_back(x); return false; }
    cand(i, j, min(mx, max(1, lo)), O, O1, b); for (auto& x : b) all.push_back(x); if (b.empty()) B(all, "lines", "cannot follow the output at '" + s[i].raw + "'"); return false;
  }
  void judge(const FCfg& cfg, const string& src, const Out& out) {
    c = cfg; zexempt = !fws[c.fw].z; for (auto& l : ref::split(src)) s.push_back(ref::parse(l)); Sim st; st.g90e = c.g90e; S.push_back(st); for (auto& l : s) { st.step(l); S.push_back(st); }
    vector<string> ol = ref::split(out.text); size_t h = 0; bool okh = !ol.empty() && ol[0].rfind("; Postprocessed by [ArcStraightener]", 0) == 0; while (h < ol.size() && !ol[h].empty()) { if (ol[h][0] != ';') okh = false; h++; } if (h >= ol.size()) okh = false;
    if (!okh) { B(bad, "header", "the output does not start with the header"); return; }
    string ver = string("; firmware_version=") + fws[c.fw].ver, typ = string("; firmware_type=") + firmware_type_names[fws[c.fw].type]; bool hv = false, ht = false; for (size_t q = 0; q < h; q++) { if (ol[q].rfind(ver, 0) == 0) hv = true; if (ol[q] == typ) ht = true; } if (!hv || !ht) B(bad, "header", "the header does not name the firmware");
    for (size_t q = h + 1; q < ol.size(); q++) o.push_back(ref::parse(ol[q]));
    Sim O; O.g90e = c.g90e; bool ok = match(0, 0, O, bad, 0);
    if (ok) { auto rep = [&](const char* k) { size_t p = out.console.rfind(k); if (p == string::npos) return -999L; p = out.console.find(':', p); return atol(out.console.c_str() + p + 1); };
      auto chk = [&](const char* k, long want) { long v = rep(k); if (v != want) B(bad, "report", string("reports ") + k + " " + to_string(v) + " instead of " + to_string(want) + (v == -999 ? " in: " + out.console : string())); };
      chk("Lines Processed", s.size()); chk("Arc Commands Processed", narc); }
  }
};
// which kinds of failure belong to which property
static bool mine(const string& k) {
  const string& p = X.o.prop; auto in = [&](const char* l) { return (string(" ") + l + " ").find(" " + k + " ") != string::npos; };
  if (p == "S01") return in("end zend eend feed dropped unstraightened lines format");
  if (p == "S02") return in("circle order sweep dropped unstraightened");
  if (p == "S03") return in("espread eextra eend dropped");
  if (p == "S04") return in("z zend dropped");
  if (p == "S05") return in("end zend eend espread z circle order sweep feed dropped");
  if (p == "S06") return in("count even dropped");
  if (p == "S07") return in("lines dropped drawn unstraightened header report format end eend");
  return true;
}
static string rtext(const FCfg& c, const string& text) { return c.str() + "\n" + text; }
static int C_ARC, C_SEG;
static void check(const FCfg& c, const string& text, bool single = true, vector<string>* pieces = nullptr) {
  string rp = rtext(c, text); X.begin(rp); Out out = run(X.dir, c, text); Judge J; J.judge(c, text, out);
  X.add(X.c_exec); X.add(X.c_trans, J.s.size()); X.add(C_ARC, J.narc); X.add(C_SEG, J.nseg); for (auto& q : J.S) X.states.insert(q.hash()); X.inputs.insert(vf::hash_str(rp)); X.outcomes.insert(J.outcome);
  bool any = false; for (auto& b : J.bad) if (mine(b.kind)) any = true;
  if (any && pieces && !single) { bool f = false; for (auto& q : *pieces) { Out o2 = run(X.dir, c, q); Judge K; K.judge(c, q, o2); for (auto& b : K.bad) if (mine(b.kind)) { f = true; X.violation(b.kind + "-" + fws[c.fw].name, b.msg, rtext(c, q)); } } if (f) return; }
  if (any) for (auto& b : J.bad) if (mine(b.kind)) X.violation(b.kind + "-" + fws[c.fw].name, b.msg, rp);
  if (X.sh->nsamp.load() < vf::NSAMP && !single) X.sample(rp.substr(0, 600));
}
static string fm(double v, int d) { return string(v < 0 && v > -0.5 * pow(10, -d) ? "" : "") + [&] { char b[64]; snprintf(b, 64, "%.*f", d, v); bool z = true; for (char* p = b; *p; p++) if (*p >= '1' && *p <= '9') z = false; return string(z && b[0] == '-' ? b + 1 : b); }(); }

// ---------------------------------------------------------------- arcs on a grid
struct Grid {
  vector<FCfg> cfg; vector<pair<double, double>> pos{{100, 100}}; vector<double> alpha, R, phi; vector<int> dir{2, 3}; vector<double> dz{0}, de{0.5}, e0{0}, z0{0.2}, f{1200}; vector<int> mode{0};   // mode: 1 relative XYZ, 2 relative E
  uint64_t size() const { return (uint64_t)pos.size() * alpha.size() * R.size() * phi.size() * dir.size() * dz.size() * de.size() * e0.size() * z0.size() * f.size() * mode.size(); }
  string arc(uint64_t i, const FCfg& c, int id) const {
    auto pick = [&](auto& v) { auto r = v[i % v.size()]; i /= v.size(); return r; };
    int md = pick(mode), dr = pick(dir); double z = pick(dz), e = pick(de), E0 = pick(e0), Z0 = pick(z0), F = pick(f); auto ps = pick(pos); double r = pick(R), ph = pick(phi) * M_PI / 180, al = pick(alpha) * M_PI / 180;
    if (!fws[c.fw].z) z = 0;
    double sx = ps.first, sy = ps.second, I = atof(fm(r * cos(al), 3).c_str()), J = atof(fm(r * sin(al), 3).c_str()); if (I == 0 && J == 0) return ""; double cx = sx + I, cy = sy + J, a0 = atan2(-J, -I), a1 = dr == 2 ? a0 - ph : a0 + ph, R2 = hypot(I, J);
    double ex = cx + R2 * cos(a1), ey = cy + R2 * sin(a1); if (ph > 6.283) { ex = sx; ey = sy; }
    string t, n = " ; m" + to_string(id); t += "G90" + n + "\nM82" + n + "a\nG92 E" + fm(E0, 5) + n + "\nG1 X" + fm(sx, 3) + " Y" + fm(sy, 3) + " Z" + fm(Z0, 3) + " F3000" + n + "\n"; double Z1 = Z0 + z;
    if (md & 1) t += "G91" + n + "b\n"; t += ((md & 2) ? "M83" : "M82") + n + "b\n";
    string w = "G" + to_string(dr); w += " X" + fm((md & 1) ? ex - sx : ex, 3) + " Y" + fm((md & 1) ? ey - sy : ey, 3); if (z != 0) w += " Z" + fm((md & 1) ? z : Z1, 3); w += " I" + fm(I, 3) + " J" + fm(J, 3);
    if (e != 0) w += " E" + fm((md & 2) ? e : E0 + e, 5); if (F > 0) w += " F" + fm(F, 0); return t + w + "\nM117" + n + "z\n";
  }
};
struct Work { uint64_t n; function<void(uint64_t)> f; };
static void explore(vector<Work> W) { uint64_t tot = 0; for (auto& w : W) tot += w.n; X.run(tot, [&](uint64_t j) { for (auto& w : W) { if (j < w.n) return w.f(j); j -= w.n; } }); }
static const int BATCH = 48;
static Work grid(const Grid& g0) {
  auto g = make_shared<Grid>(g0); uint64_t n = g->size(), ch = (n + BATCH - 1) / BATCH;
  // within a batch, neighbouring cases should differ: stride through the index space
  return {ch * g->cfg.size(), [g, n, ch](uint64_t j) { const FCfg& c = g->cfg[j % g->cfg.size()]; uint64_t b = j / g->cfg.size(); string t; vector<string> ps; for (int k = 0; k < BATCH; k++) { uint64_t i = b + k * ch; if (i >= n) break; string a = g->arc(i, c, k); if (a.empty()) continue; ps.push_back(a); t += a; } if (!t.empty()) check(c, t, false, &ps); }};
}
static vector<double> lin(double a, double b, int n) { vector<double> v; for (int i = 0; i < n; i++) v.push_back(a + (b - a) * i / n); return v; }
static vector<FCfg> all(function<void(FCfg&)> f = nullptr) { vector<FCfg> v; for (int i = 0; i < NFW; i++) { FCfg c = dflt(i); if (f) f(c); v.push_back(c); } return v; }
static vector<FCfg> cat(initializer_list<vector<FCfg>> l) { vector<FCfg> r; for (auto& x : l) for (auto& y : x) r.push_back(y); return r; }
template <class T> static string lst(const vector<T>& v) { string s; for (auto& x : v) { char b[40]; snprintf(b, 40, "%g", (double)x); s += (s.empty() ? "" : " ") + string(b); } return s; }
static void note(const string& k, const Grid& g) { X.bounds[k] = to_string(g.size()) + " arcs x " + to_string(g.cfg.size()) + " configurations: centre directions " + to_string(g.alpha.size()) + ", radii " + lst(g.R) + ", sweeps " + lst(g.phi) + ", dz " + lst(g.dz) + ", dE " + lst(g.de) + ", E0 " + lst(g.e0) + ", modes " + lst(g.mode) + ", F " + lst(g.f); }
static const vector<double> PHI{0.5, 5, 45, 90, 135, 179.5, 180, 181, 270, 355, 360};

static int run_grid() {
  const string& p = X.o.prop; vector<Work> W; string rule;
  auto add = [&](const string& k, const Grid& g) { note(k, g); W.push_back(grid(g)); };
  if (p == "S01") {
    Grid g; g.cfg = all(); g.alpha = lin(0, 360, th ? 24 : 8); g.R = th ? vector<double>{0.05, 0.4, 2, 10, 60, 400} : vector<double>{0.4, 10, 60}; g.phi = PHI; g.dz = {0, 0.2, -5}; g.de = {0, 0.4, -0.3}; g.mode = {0, 1, 2, 3}; g.pos = {{100, 100}}; if (th) g.pos.push_back({-37.125, 210.5}); add("arcs", g);
    Grid h; h.cfg = cat({all([](FCfg& c) { c.mm = 0.3; c.nc = 1; c.dmm = 0.3; c.mins = 0; c.err = 0; }), all([](FCfg& c) { c.mm = 5; c.nc = 7; c.dmm = 5; c.minc = 4; c.mins = 4; c.sps = 4; c.err = 0.1; })}); h.alpha = th ? lin(7, 367, 6) : vector<double>{7, 180}; h.R = {0.2, 1.5, 25}; h.phi = PHI; h.dz = {0, 0.37}; h.de = {0, 1.2345}; h.e0 = {0, 1234.56789}; h.z0 = {0.2, 150.05}; h.mode = {0, 1, 2, 3}; h.pos = {{0, 0}, {-120.375, 333.125}}; h.f = {0, 1200, 7215}; add("settings", h);
    rule = "each arc is straightened by the real code; the G1 moves are run on the reference printer and must end at the arc's X, Y, Z, E and F within the emitted digits";
  } else if (p == "S02") {
    Grid g; g.cfg = cat({all(), all([](FCfg& c) { c.nc = 1; }), all([](FCfg& c) { c.nc = 0; c.mm = 0.4; c.dmm = 0.4; }), all([](FCfg& c) { c.nc = 3; c.mm = 2.5; c.dmm = 2.5; c.mins = 0; c.minc = 8; c.err = 0.05; }), all([](FCfg& c) { c.nc = 100; c.mm = 0.7; })}); g.alpha = lin(0, 360, th ? 72 : 24); g.R = th ? vector<double>{0.1, 0.5, 1.3, 3, 8, 20, 55, 150, 600} : vector<double>{0.5, 3, 20, 150}; g.phi = th ? lin(2, 362, 90) : PHI; g.phi.push_back(360); g.phi.push_back(359); g.pos = {{100, 100}}; if (th) g.pos.push_back({-3, 250}); add("arcs", g);
    rule = "every intermediate point lies on the circle (digits plus the firmware's small-angle error, computed in closed form), the points advance in the commanded direction and turn by the sweep exactly once";
  } else if (p == "S03") {
    Grid g; g.cfg = cat({all(), all([](FCfg& c) { c.mm = 0.25; c.dmm = 0.25; c.nc = 10; c.err = 0; c.mins = 0; })}); g.alpha = {0, 37, 100, 181, 270, 333}; g.R = {0.5, 4, 30}; if (th) g.R.push_back(200); g.phi = {10, 60, 180, 300, 360}; g.de = {0, 0.00001, 0.002, 0.123, 3.3, 50, -1.5}; g.e0 = {0, -2, 77.7, 4321.98765}; g.mode = {0, 1, 2, 3}; g.dz = {0, 0.3}; add("arcs", g);
    rule = "E after each move is the arc's E times the fraction of the sweep done, ends at the arc's E, and is never present when the arc has none";
  } else if (p == "S04") {
    Grid g; g.cfg = cat({all(), all([](FCfg& c) { c.mm = 0.25; c.dmm = 0.25; c.bmm = 0.05; c.nc = 10; c.err = 0; c.mins = 0; })}); g.cfg.erase(remove_if(g.cfg.begin(), g.cfg.end(), [](const FCfg& c) { return !fws[c.fw].z; }), g.cfg.end()); for (int k = 0; k < 1; k++) { FCfg c = dflt(3); g.cfg.push_back(c); }
    g.alpha = lin(3, 363, 6); g.R = {0.5, 4, 30}; if (th) g.R.push_back(150); g.phi = {10, 60, 180, 300, 360}; g.dz = {0, 0.001, 0.01, 0.2, -0.2, 3.333, -40, 100}; g.z0 = {0, 0.2, 99.95}; g.mode = {0, 1, 2, 3}; g.de = {0, 0.7}; add("helices", g);
    rule = "Z after each move is the arc's Z travel times the fraction of the sweep done and ends at the target; without Z it does not move (Repetier 1.0.4 has no helices: only arcs without Z there)";
  } else if (p == "S06") {
    for (int i = 0; i < NFW; i++) {
      vector<FCfg> v; FCfg d = dflt(i);
      for (double mm : {0.2, 0.5, 1.0, 3.0}) for (int mins : {0, 1, 24, 100, 150, 400}) for (double sps : {0.0, 5.0, 40.0}) for (double ex : {0.0, 0.3, 2.0}) {
        FCfg c = d; int t = i;
        if (t == 1) { c.mm = mm; c.mins = mins; c.sps = sps; c.perr = ex > 1 ? mm * 3 : ex > 0 ? mm * 1.5 : 0; }
        else if (t == 2) { c.dmm = mm; c.minc = mins; c.sps = sps; c.bmm = ex > 1 ? mm : ex > 0 ? mm * 0.3 : 0.01; }
        else if (t == 6) { c.mm = mm; c.mins = mins; c.sps = sps; c.minmm = ex > 1 ? mm * 0.9 : ex > 0 ? mm * 0.4 : 0; }
        else if (t == 7) { if (sps > 0) continue; c.mm = mins == 0 ? 0 : mins == 100 ? 8 : mm; c.err = ex > 1 ? 0.2 : ex > 0 ? 0.01 : 0; }
        else { if (mins || sps > 0 || ex > 0) continue; c.mm = mm; }
        v.push_back(c);
      }
      sort(v.begin(), v.end(), [](const FCfg& a, const FCfg& b) { return a.str() < b.str(); }); v.erase(unique(v.begin(), v.end(), [](const FCfg& a, const FCfg& b) { return a.str() == b.str(); }), v.end());
      Grid g; g.cfg = v; g.alpha = th ? lin(0, 360, 12) : vector<double>{0, 125}; g.R = th ? vector<double>{0.05, 0.21, 0.6, 1.7, 4, 11, 35, 120, 500} : vector<double>{0.21, 1.75, 11, 60}; g.phi = th ? lin(3, 363, 40) : vector<double>{3, 20, 77, 200, 340, 360}; g.f = {60, 1200, 9000}; g.dz = {0, 2.5}; add(string("rule ") + fws[i].name, g);
    }
    rule = "the number of moves is the one the firmware's documented rule gives (evaluated independently in double precision, both neighbours allowed only where single precision may round either way) and the segments turn by equal angles";
  }
  X.assumptions.push_back("arcs are consistent (the target lies on the circle to 0.001 mm) and at most 60000 segments long");
  explore(W); return X.finish(rule);
}
// ---------------------------------------------------------------- sequences of modes / lines
static vector<int> digits(uint64_t i, uint64_t b, int dmax) { vector<int> r; uint64_t n = 1; for (int d = 0; d <= dmax; d++, n *= b) { if (i < n) { for (int k = 0; k < d; k++) { r.push_back(i % b); i /= b; } return r; } i -= n; } return r; }
static uint64_t upto(uint64_t b, int d) { uint64_t t = 0, n = 1; for (int k = 0; k <= d; k++, n *= b) t += n; return t; }
struct SeqGen { Sim s; string t; int n = 0; void line(const string& l, bool mark) { string q = l; if (mark) q += " ; q" + to_string(n); n++; t += q + "\n"; s.step(ref::parse(q)); }
  void arc(int dir, double I, double J, double ph, double dz, double de, bool f) { double a0 = atan2(-J, -I), a1 = dir == 2 ? a0 - ph : a0 + ph, r = hypot(I, J), x0 = s.lg(0), y0 = s.lg(1), ex = x0 + I + r * cos(a1), ey = y0 + J + r * sin(a1); if (ph > 6.283) { ex = x0; ey = y0; }
    string w = "G" + to_string(dir) + " X" + fm(s.rel ? ex - x0 : ex, 3) + " Y" + fm(s.rel ? ey - y0 : ey, 3); if (dz != 0) w += " Z" + fm(s.rel ? dz : s.lg(2) + dz, 3); w += " I" + fm(I, 3) + " J" + fm(J, 3); if (de != 0) w += " E" + fm(s.erel ? de : s.le() + de, 5); if (f) w += " F1500"; line(w, false); } };
struct Op { string name; function<void(SeqGen&)> f; };
static vector<Op> ops(bool s05) {
  vector<Op> v; auto L = [&](const string& l, bool mark = true) { v.push_back({l, [=](SeqGen& g) { g.line(l, mark); }}); };
  L("G90"); L("G91"); L("M82"); L("M83"); L("G92 E0");
  v.push_back({"G3", [](SeqGen& g) { g.arc(3, 4, 0, 2.0, 0, 0.5, false); }}); v.push_back({"G2helix", [](SeqGen& g) { g.arc(2, 0, -3, 4.0, 0.3, 0.25, true); }});
  v.push_back({"move", [](SeqGen& g) { g.line(string("G1 X") + (g.s.rel ? "1.5" : fm(g.s.lg(0) + 1.5, 3)) + " Y" + (g.s.rel ? "-2" : fm(g.s.lg(1) - 2, 3)) + " E" + (g.s.erel ? "0.1" : fm(g.s.le() + 0.1, 5)), true); }});
  if (s05) { L("G92 X5 Y6 Z1"); L("G92"); return v; }
  L("G92 X0 Y0"); L("", false); L("; a comment", false); L("M117 G2 X1", true); v.push_back({"circle", [](SeqGen& g) { g.arc(2, 3, 0, 7, 0, 0, false); }});
  v.push_back({"tiny", [](SeqGen& g) { g.arc(3, 0.5, 0, 0.0001, 0, 0.01, false); }}); v.push_back({"noIJ", [](SeqGen& g) { g.line("G2 X1 Y1 R3", false); }}); v.push_back({"plainmove", [](SeqGen& g) { g.line("G1 X" + fm(g.s.rel ? 1 : g.s.lg(0) + 1, 3), false); }});
  v.push_back({"lower", [](SeqGen& g) { string a = g.s.rel ? "2" : fm(g.s.lg(0) + 2, 3); g.line("g03x" + a + "i1j0", false); }}); L("G20"); L("G28"); L("   T0  "); v.push_back({"commented", [](SeqGen& g) { string a = g.s.rel ? "2" : fm(g.s.lg(0) + 2, 3); g.line("G3 X" + a + " I1 J0 ; arc", false); }}); v.push_back({"crlf", [](SeqGen& g) { g.line("G4 P1\r", false); }});
  return v;
}
static int run_seq() {
  bool s05 = X.o.prop == "S05"; static vector<Op> A; A = ops(s05); int d = s05 ? 5 : th ? 4 : 3; uint64_t n = upto(A.size(), d); static vector<FCfg> cf; cf.clear();
  for (int i = 0; i < NFW; i++) { FCfg c = dflt(i); cf.push_back(c); if (s05) { c.g90e = !c.g90e; cf.push_back(c); } }
  static int dd; dd = d; vector<Work> W;
  W.push_back({n * cf.size(), [s05](uint64_t j) { const FCfg& c = cf[j % cf.size()]; SeqGen g; g.s.g90e = c.g90e; g.line("G28", true); g.line("G1 X50.5 Y60.25 Z0.3 F3000", true); g.line("G92 E0", true);
    auto seq = digits(j / cf.size(), A.size(), dd); bool h = false; for (int k : seq) { if (A[k].name == "G28") h = true; else if (h && A[k].name[0] != 'M') { g.line("G90", true); g.line("G1 X50 Y60 Z1", true); h = false; }
      if (!fws[c.fw].z && A[k].name == "G2helix") { g.arc(2, 0, -3, 4.0, 0, 0.25, true); continue; } A[k].f(g); }
    if (s05) { if (!h) { g.arc(3, 1, 1, 3.0, fws[c.fw].z ? 0.1 : 0, 0.2, false); } }
    check(c, g.t); }});
  X.bounds["sequences"] = "all sequences of up to " + to_string(d) + " of " + to_string(A.size()) + " lines, followed by a helix, for " + to_string(cf.size()) + " firmware configurations"; string names; for (auto& a : A) names += "[" + a.name + "]"; X.bounds["lines"] = names;
  explore(W); return X.finish(s05 ? "every sequence of mode changes, origin changes, moves and arcs is straightened and run on the reference printer, which must trace the same path and extrusion" : "every sequence of lines: all but the arcs come back verbatim, once, in order; every arc is replaced by its moves (or left alone if the firmware would not draw it); the reported counts are right");
}
// ---------------------------------------------------------------- S08 weld, then straighten
static double dist(double px, double py, double ax, double ay, double bx, double by, double& t) { double dx = bx - ax, dy = by - ay, l = dx * dx + dy * dy; t = l > 0 ? cons(((px - ax) * dx + (py - ay) * dy) / l, 0, 1) : 0; return hypot(px - ax - t * dx, py - ay - t * dy); }
struct P3 { double x, y, z, e; };
static vector<P3> trace(const string& text, bool g90e, Sim& s) { vector<P3> v; s = Sim(); s.g90e = g90e; for (auto& l : ref::split(text)) { Line L = ref::parse(l); s.step(L); if (L.g01() && s.known[0] && s.known[1]) v.push_back({s.p[0], s.p[1], s.p[2], s.e}); } return v; }
static void s08(const weld::Cfg& w, const FCfg& c, const string& text, const string& nm) {
  string rp = "S08\n" + w.str() + "\n" + c.str() + "\n" + text; X.begin(rp); weld::Run r = weld::run(X.dir, w, text); Out out = run(X.dir, c, r.out); X.add(X.c_exec); X.inputs.insert(vf::hash_str(rp));
  string k = string("-") + fws[c.fw].name; int arcs = 0; double Rmax = 0, Rmin = 1e9; for (auto& l : ref::split(r.out)) { Line L = ref::parse(l); if (L.g23()) { arcs++; const ref::Word *i = L.get('I'), *j = L.get('J'); double R = hypot(i ? i->v : 0, j ? j->v : 0); Rmax = max(Rmax, R); Rmin = min(Rmin, R); } } X.add(C_ARC, arcs);
  for (auto& l : ref::split(out.text)) if (ref::parse(l).g23()) { X.violation("arc" + k, "an arc is left: " + l, rp); return; }
  Sim a, b; auto A = trace(text, w.g90, a), B = trace(out.text, c.g90e, b); X.add(X.c_trans, A.size()); X.states.insert(a.hash()); X.outcomes.insert(vf::mix(arcs, B.size()));
  double seg = c.fw == 2 ? c.dmm : c.fw == 7 ? max(0.5, 2 * sqrt(c.err * 2 * Rmax)) : c.mm; seg = seg * 2; double sag = arcs ? min(Rmin, seg * seg / (8 * Rmin)) : 0; double tol = w.res / 2 + 0.003 + sag; 
  auto cover = [&](const vector<P3>& U, const vector<P3>& V, const string& what) { size_t q = 1; double lt = 0; for (size_t i = 0; i < U.size(); i++) { bool f = false; for (size_t k2 = q; k2 < V.size(); k2++) { double t; if (dist(U[i].x, U[i].y, V[k2 - 1].x, V[k2 - 1].y, V[k2].x, V[k2].y, t) <= tol) { f = true; q = k2; lt = t; break; } } (void)lt;
      if (!f && U.size() > 1 && V.size() > 1) { X.violation(what + k, what + ": the point " + num(U[i].x) + "," + num(U[i].y) + " is not within " + num(tol) + " of the other path, in order (" + nm + ")", rp); return; } } };
  cover(A, B, "missing"); cover(B, A, "extra");
  for (int q = 0; q < 3; q++) if (a.known[q] && fabs(a.lg(q) - b.lg(q)) > 0.0011) X.violation("end" + k, string("ends at ") + "XYZ"[q] + num(b.lg(q)) + " instead of " + num(a.lg(q)), rp);
  if (fabs(a.e - b.e) > 1.1e-5 * (arcs + 1)) X.violation("e" + k, "extrudes " + num(b.e) + " instead of " + num(a.e), rp);
  if (fabs(a.le() - b.le()) > 1.1e-5 * (arcs + 1)) X.violation("e" + k, "E position " + num(b.le()) + " instead of " + num(a.le()), rp);
  if (fabs(a.f - b.f) > 0.51) X.violation("f" + k, "feedrate " + num(b.f) + " instead of " + num(a.f), rp);
}
struct WG { int F = 0; Sim s; string t; double a = 0, R = 6, cx = 90, cy = 90, d = 1; void line(const string& l) { t += l + "\n"; s.step(ref::parse(l)); }
  void to(double x, double y, double z, double de, const string& cmd = "G1") { double p[3] = {x, y, z}; string l = cmd; const char* ax = "XYZ"; for (int q = 0; q < 3; q++) if (q < 2 || fabs(z - s.lg(2)) > 1e-9) l += string(" ") + ax[q] + fm(s.rel ? p[q] - s.lg(q) : p[q], 3); if (de != 0) l += " E" + fm(s.erel ? de : s.le() + de, 5); if (F) l += " F" + to_string(F); F = 0; line(l); }
  void v(double deg, double dz = 0, double k = 1) { double x0 = s.lg(0), y0 = s.lg(1); a += d * deg * M_PI / 180; double x = cx + R * cos(a), y = cy + R * sin(a); to(x, y, s.lg(2) + dz, k * 0.04 * hypot(x - x0, y - y0)); } };
static int run08() {
  static vector<pair<string, function<void(WG&)>>> A; A.clear(); auto V = [&](const string& n, function<void(WG&)> f) { A.push_back({n, f}); };
  V("8", [](WG& g) { g.v(8); g.v(8); }); V("10", [](WG& g) { g.v(10); g.v(10); g.v(10); }); V("turn", [](WG& g) { g.d = -g.d; g.cx = 2 * g.s.lg(0) - g.cx; g.cy = 2 * g.s.lg(1) - g.cy; g.a += M_PI; for (int i = 0; i < 4; i++) g.v(9); }); V("line", [](WG& g) { double x = g.s.lg(0) + 5, y = g.s.lg(1) + 2; g.cx += 5; g.cy += 2; g.to(x, y, g.s.lg(2), 0.2); });
  V("travel", [](WG& g) { for (int i = 0; i < 4; i++) g.v(10, 0, 0); }); V("helix", [](WG& g) { for (int i = 0; i < 5; i++) g.v(10, 0.04); }); V("M83", [](WG& g) { g.line("M83"); }); V("M82", [](WG& g) { g.line("M82"); }); V("E0", [](WG& g) { g.line("G92 E0"); }); V("F", [](WG& g) { g.line("G1 F2400"); }); V("Farc", [](WG& g) { g.F = g.s.f > 2000 ? 900 : 2700; for (int i = 0; i < 4; i++) g.v(9); }); V("XY0", [](WG& g) { double x = g.s.lg(0), y = g.s.lg(1); g.line("G92 X10 Y20"); g.cx += 10 - x; g.cy += 20 - y; });
  static int dd; dd = th ? 5 : 4; uint64_t n = upto(A.size(), dd); static vector<FCfg> cf; cf = all(); for (auto& c : cf) { c.mm = c.fw == 7 ? 0 : 0.5; c.dmm = 0.5; c.g90e = false; } static vector<weld::Cfg> wc; wc.clear(); weld::Cfg w; wc.push_back(w); w.d3 = true; w.trav = true; wc.push_back(w); if (th) { w.res = 0.1; w.dyn = true; wc.push_back(w); }
  vector<Work> W; W.push_back({n * wc.size(), [](uint64_t j) { auto w = wc[j % wc.size()]; uint64_t i = j / wc.size(); WG g; g.line("G28"); g.line("M82"); g.line("G92 E0"); g.line("G1 X96 Y90 Z0.2 F1200"); g.v(8); auto sq = digits(i, A.size(), dd); string nm; for (int k : sq) { nm += A[k].first + " "; A[k].second(g); } FCfg c = cf[(j / wc.size() + j % wc.size()) % NFW];
    if (w.d3 && !fws[c.fw].z) c = cf[(c.fw + 1) % NFW]; s08(w, c, g.t, nm); if (th) for (auto& c2 : cf) if (c2.fw != c.fw && !(w.d3 && !fws[c2.fw].z)) s08(w, c2, g.t, nm); }});
  X.bounds["programs"] = "all sequences of up to " + to_string(dd) + " of " + to_string(A.size()) + " path pieces x " + to_string(wc.size()) + " welding configurations; firmware version " + (th ? "all" : "alternating over the sequences");
  explore(W); return X.finish("every program is welded and straightened by the real code; source and result must be within the welding resolution plus the chord error of each other, in order, with the same final position, extrusion and feedrate");
}
static int replay(const string& f) {
  string t = vf::read_file(f); X.dir = X.o.scratch; size_t nl = t.find('\n'); string h = t.substr(0, nl), body = t.substr(nl + 1);
  if (h == "S08") { size_t a = body.find('\n'), b = body.find('\n', a + 1); s08(weld::Cfg::parse(body.substr(0, a)), FCfg::parse(body.substr(a + 1, b - a - 1)), body.substr(b + 1), "replay"); }
  else { FCfg c = FCfg::parse(h); Out o = run(X.dir, c, body); printf("%s", o.text.c_str()); check(c, body); }
  return X.finish("replay");
}
}  // namespace app
int main(int argc, char** argv) { std::ios::sync_with_stdio(false);  // the straightener does it too, which would end the capture of cout
  using namespace app; vf::Opts o = vf::parse_opts(argc, argv); C_ARC = X.ctr("arcs"); C_SEG = X.ctr("moves_generated"); X.init(o); th = o.thorough(); if (o.deadline == 0) X.o.deadline = th ? 3000 : 780;
  if (!o.replay.empty()) return replay(o.replay);
  if (o.prop == "S05" || o.prop == "S07") return run_seq();
  if (o.prop == "S08") return run08();
  return run_grid();
}
