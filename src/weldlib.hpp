// Runs the real arc_welder on a text and judges its output with the reference interpreter.
#pragma once
#include "refgc.hpp"
#include "arc_welder.h"

namespace weld {
using ref::Line; using ref::Sim; using std::string; using std::vector;

struct Cfg {
  double res = 0.05, tol = 0.05, maxr = 9999, mmseg = 0, var = 0.05; int minseg = 0, xp = 3, ep = 5, buf = 10, maxlen = 0;
  bool g90 = false, d3 = false, trav = false, dyn = false;
  string str() const {
    char b[400]; snprintf(b, sizeof b, "res=%.10g tol=%.10g maxr=%.10g mmseg=%.10g var=%.10g minseg=%d xp=%d ep=%d buf=%d maxlen=%d g90=%d d3=%d trav=%d dyn=%d",
      res, tol, maxr, mmseg, var, minseg, xp, ep, buf, maxlen, g90, d3, trav, dyn); return b;
  }
  static Cfg parse(const string& s) {
    Cfg c; std::stringstream st(s); string t;
    while (st >> t) { size_t q = t.find('='); if (q == string::npos) continue; string k = t.substr(0, q); double v = atof(t.c_str() + q + 1);
      if (k == "res") c.res = v; else if (k == "tol") c.tol = v; else if (k == "maxr") c.maxr = v; else if (k == "mmseg") c.mmseg = v; else if (k == "var") c.var = v;
      else if (k == "minseg") c.minseg = (int)v; else if (k == "xp") c.xp = (int)v; else if (k == "ep") c.ep = (int)v; else if (k == "buf") c.buf = (int)v; else if (k == "maxlen") c.maxlen = (int)v;
      else if (k == "g90") c.g90 = v; else if (k == "d3") c.d3 = v; else if (k == "trav") c.trav = v; else if (k == "dyn") c.dyn = v; }
    return c;
  }
};

inline arc_welder_args make_args(const Cfg& c, const string& src, const string& dst, logger* log) {
  arc_welder_args a(src, dst, log);
  a.resolution_mm = c.res; a.path_tolerance_percent = c.tol; a.max_radius_mm = c.maxr; a.min_arc_segments = c.minseg; a.mm_per_arc_segment = c.mmseg;
  a.g90_g91_influences_extruder = c.g90; a.allow_3d_arcs = c.d3; a.allow_travel_arcs = c.trav; a.allow_dynamic_precision = c.dyn;
  a.default_xyz_precision = (unsigned char)c.xp; a.default_e_precision = (unsigned char)c.ep; a.extrusion_rate_variance_percent = c.var;
  a.buffer_size = c.buf; a.max_gcode_length = c.maxlen; return a;
}
inline bool cb_ok(arc_welder_progress, logger*, int) { return true; }
struct Run { string out; arc_welder_results res; bool ok = false; };
inline logger* quiet_logger() {
  static logger* l = nullptr;
  if (!l) { vector<string> n; n.push_back(ARC_WELDER_LOGGER_NAME); vector<int> lv; lv.push_back((int)log_levels::CRITICAL); l = new logger(n, lv); l->set_log_level(log_levels::CRITICAL); }
  return l;
}
inline logger* loud_logger() {
  static logger* l = nullptr;
  if (!l) { vector<string> n; n.push_back(ARC_WELDER_LOGGER_NAME); vector<int> lv; lv.push_back((int)log_levels::NOSET); l = new logger(n, lv); l->set_log_level(log_levels::NOSET); }
  return l;
}
inline Run run(const string& dir, const Cfg& c, const string& text, bool loud = false) {
  Run r; string s = dir + "/s.gcode", t = dir + "/t.gcode"; vf::write_file(s, text);
  arc_welder_args a = make_args(c, s, t, loud ? loud_logger() : quiet_logger()); a.callback = cb_ok;
  arc_welder w(a); r.res = w.process(); r.ok = r.res.success; r.out = vf::read_file(t); return r;
}

struct Bad { string kind, msg; };
struct Arc { int out, i, k; vector<int> mv; };  // covers source lines i..k ; mv = indices of the moves among them
struct Judge {
  Cfg c; vector<Line> s, o; vector<Sim> S;   // S[i] = state before source line i
  vector<int> head; int hs = -1, he = -1;      // header position in raw output
  vector<Arc> arcs; vector<int> amap;            // alignment: for output line j -> source line (retained) or -1-arcindex
  vector<Bad> bad; bool aligned = false; double U, UE; uint64_t outcome = 0; bool expect_all = false;
  double maxdev = 0;
  void B(const string& k, const string& m) { bad.push_back({k, m}); }
  static string num(double d) { char b[40]; snprintf(b, 40, "%.6g", d); return b; }

  static bool same(const string& a, const string& b) {   // retained line: identical, or without an empty trailing comment marker
    if (a == b) return true;
    size_t sc = a.find(';'); if (sc == string::npos) return false;
    string cm = a.substr(sc + 1); string code = a.substr(0, sc);
    string t = ref::trim(cm);
    if (t.empty()) return b == code;
    // blanks around the comment text may be normalised
    size_t sb = b.find(';'); if (sb == string::npos) return false;
    return b.substr(0, sb) == code && ref::trim(b.substr(sb + 1)) == t;
  }
  bool arc_fits(const Line& L, int i, int k, int nmv, int level) const {
    if (nmv < 2) return false;
    if (level == 2) return true;
    const Sim& E = S[k + 1]; const ref::Word *x = L.get('X'), *y = L.get('Y'), *e = L.get('E');
    if (!x || !y) return false;
    double t = 0.6 * U + 1e-7;
    if (fabs(x->v - E.lg(0)) > t || fabs(y->v - E.lg(1)) > t) return false;
    if (level == 1) return true;
    double want = 0; if (E.erel) want = E.e - S[i].e; else want = E.le();
    double de = E.e - S[i].e;
    if (e ? fabs(e->v - want) > 0.6 * UE + 1e-6 : fabs(de) > 0.6 * UE) return false;
    return true;
  }
  std::set<std::pair<int, int>> dead;
  bool align(int i, int j, int level, vector<Arc>& A, vector<int>& M) {
    int n = s.size(), m = o.size();
    // iterate over retained lines without recursion
    size_t a0 = A.size(), m0 = M.size(); int i0 = i, j0 = j; (void)i0; (void)j0;
    while (i < n && j < m && same(s[i].raw, o[j].raw) && !o[j].g23()) { M.push_back(i); i++; j++; }
    if (i == n && j == m) return true;
    // we may have consumed a blank or a move too much only if an arc could have started earlier, which cannot be: an arc line is never equal to a G0/G1 or blank line
    if (j < m && !dead.count({i, j})) {
      if (i < n && same(s[i].raw, o[j].raw)) { size_t a1 = A.size(), m1 = M.size(); M.push_back(i); if (align(i + 1, j + 1, level, A, M)) return true; A.resize(a1); M.resize(m1); }
      if (o[j].g23() && i < n && s[i].g01()) {
        vector<int> mv;
        for (int k = i; k < n; k++) {
          if (s[k].g01()) mv.push_back(k); else if (!s[k].blank) break;
          if (!s[k].blank || true) if (arc_fits(o[j], i, k, (int)mv.size(), level)) {
            size_t a1 = A.size(), m1 = M.size(); A.push_back({j, i, k, mv}); M.push_back(-1 - (int)a1);
            if (align(k + 1, j + 1, level, A, M)) return true; A.resize(a1); M.resize(m1);
          }
        }
      }
      dead.insert({i, j});
    }
    A.resize(a0); M.resize(m0); return false;
  }
  static string squeeze(const string& a) { string r; for (char ch : ref::trim(a)) if (!(ch == ' ' && !r.empty() && r.back() == ' ')) r += ch; return r; }

  void load(const Cfg& cfg, const string& src, const string& out) {
    c = cfg; U = pow(10, -c.xp); UE = pow(10, -c.ep);
    vector<string> sl = ref::split(src), ol = ref::split(out);
    for (auto& l : sl) s.push_back(ref::parse(l));
    Sim st; st.g90e = c.g90; S.push_back(st); for (auto& l : s) { st.step(l); S.push_back(st); }
    // header
    vector<string> body;
    for (size_t i = 0; i < ol.size() && i < 2; i++) if (ol[i].rfind("; Postprocessed by [ArcWelder]", 0) == 0) { hs = i; break; }
    if (hs >= 0) { size_t q = hs; while (q < ol.size() && !ol[q].empty()) { head.push_back(q); q++; } he = q; }
    for (size_t i = 0; i < ol.size(); i++) if (hs < 0 || (int)i < hs || (int)i > he) body.push_back(ol[i]);
    for (auto& l : body) o.push_back(ref::parse(l));
    raw_out = ol;
  }
  vector<string> raw_out;

  void judge() {
    // trailing newline conventions: a file not ending in newline is the same list of lines
    for (int level = 0; level < 3 && !aligned; level++) { dead.clear(); arcs.clear(); amap.clear(); if (align(0, 0, level, arcs, amap)) { aligned = true; lev = level; } }
    if (!aligned) { explain_lines(); return; }
    if (lev == 2) B("endpoint", "an arc's X/Y does not end where the replaced moves end");
    walk();
  }
  int lev = 0;
  void explain_lines() {
    size_t j = 0; string d; // first differing retained line (greedy)
    for (size_t i = 0; i < s.size() && j < o.size(); i++) { if (same(s[i].raw, o[j].raw)) { j++; continue; } if (o[j].g23()) { d = "near output line '" + o[j].raw + "' / source line '" + s[i].raw + "'"; break; } d = "output line '" + o[j].raw + "' where source has '" + s[i].raw + "'"; break; }
    B("lines", "the output is not the source with runs of moves replaced by arcs: " + d);
  }
  struct Geo { double cx, cy, r, sweep, sx, sy, ex, ey; bool cw; };
  static Geo geo(const Sim& O, const Line& L) {
    Geo g; g.sx = O.lg(0); g.sy = O.lg(1); const ref::Word *x = L.get('X'), *y = L.get('Y'), *i = L.get('I'), *j = L.get('J');
    g.ex = x ? x->v : g.sx; g.ey = y ? y->v : g.sy; g.cx = g.sx + (i ? i->v : 0); g.cy = g.sy + (j ? j->v : 0); g.r = hypot(i ? i->v : 0, j ? j->v : 0);
    g.cw = L.cmd == "G2"; double a0 = atan2(g.sy - g.cy, g.sx - g.cx), a1 = atan2(g.ey - g.cy, g.ex - g.cx); double d = g.cw ? a0 - a1 : a1 - a0; while (d < 0) d += 2 * M_PI; while (d >= 2 * M_PI) d -= 2 * M_PI;
    if (d < 1e-12) d = 2 * M_PI;
    g.sweep = d; return g;
  }
  void walk() {
    Sim O; O.g90e = c.g90; double dyn_xp = c.xp, dyn_ep = c.ep; double eallow = 1e-9, etot = 0; int si = 0; int narc = 0; (void)narc;
    int maxx = c.xp, maxe = c.ep; (void)dyn_xp; (void)dyn_ep;
    outcome = 5;
    for (size_t j = 0; j < o.size(); j++) {
      const Line& L = o[j];
      if (amap[j] >= 0) {
        int i = amap[j]; si = i + 1; bool emode_abs_set = false;
        note_prec(s[i], maxx, maxe);
        const ref::Word* ew = L.get('E'); if (L.g01() || L.g23()) { if (ew && !O.erel) emode_abs_set = true; }
        if (L.cmd == "G92" && (ew || L.w.empty())) emode_abs_set = true;
        O.step(L); if (emode_abs_set) eallow = 1e-9;
        outcome = vf::mix(outcome, 1);
        compare(O, S[si], eallow, "after retained line '" + L.raw + "'");
        continue;
      }
      Arc& A = arcs[-1 - amap[j]]; const Sim& P = S[A.i]; const Sim& Q = S[A.k + 1];
      si = A.k + 1; outcome = vf::mix(outcome, 100 + A.mv.size());
      for (int q = A.i; q <= A.k; q++) note_prec(s[q], maxx, maxe);
      string at = "arc '" + L.raw + "' for lines " + std::to_string(A.i + 1) + ".." + std::to_string(A.k + 1);
      for (int q : A.mv) for (auto& w : s[q].w) if (!strchr("XYZEF", w.k)) { B("word", at + ": the word " + std::string(1, w.k) + " of source line '" + s[q].raw + "' is lost"); break; }
      // ---- well-formedness
      const char* order = "XYZIJEF"; string seen; for (auto& w : L.w) { if (!strchr(order, w.k) || !w.num) B("format", at + ": unexpected word"); if (seen.find(w.k) != string::npos) B("format", at + ": repeated word"); seen += w.k; }
      string code = ref::trim(L.code); for (char ch : code) if (!strchr("GXYZIJEF0123456789.- ", ch)) { B("format", at + ": unexpected character"); break; }
      for (char need : {'X', 'Y', 'I', 'J'}) if (!L.has(need)) B("format", at + ": missing word " + need);
      if (code.size() < 3 || (code[1] != '2' && code[1] != '3')) B("format", at);
      for (auto& w : L.w) { size_t dot = w.raw.find('.'); string t = ref::trim(w.raw); if (t.empty() || t[t.size() - 1] == '.' || t[0] == '.' || (t[0] == '-' && t.size() > 1 && !isdigit((unsigned char)t[1])) || std::count(t.begin(), t.end(), '.') > 1) B("format", at + ": malformed number " + t); (void)dot; }
      if (!L.has('X') || !L.has('Y') || !L.has('I') || !L.has('J')) { O.step(L); continue; }
      if (c.maxlen > 0 && (int)code.size() > c.maxlen) B("length", at + ": " + std::to_string(code.size()) + " characters > " + std::to_string(c.maxlen));
      if (L.has('Z') && !c.d3) B("zword", at + ": Z without allow_3d_arcs");
      if (L.get('I')->v == 0 && L.get('J')->v == 0) B("ij0", at + ": I and J both zero");
      // ---- precision
      for (auto& w : L.w) {
        if (w.k == 'F') { if (w.dec != 0) B("prec", at + ": F has decimals"); continue; }
        int base = w.k == 'E' ? c.ep : c.xp, mx = w.k == 'E' ? maxe : maxx; bool zero = ref::trim(w.raw) == "0";
        if (zero) continue;
        if (!c.dyn && w.dec != base) B("prec", at + ": " + w.k + " has " + std::to_string(w.dec) + " decimals, configured " + std::to_string(base));
        if (c.dyn && (w.dec < base || w.dec < mx)) B("prec", at + ": " + w.k + " has " + std::to_string(w.dec) + " decimals, source uses " + std::to_string(mx));
        if (c.dyn && w.dec > std::max(mx, lookahead_prec(w.k == 'E', A.k + 1, base, mx))) B("prec", at + ": " + w.k + " has more decimals than configured or used by the source");
      }
      double ulp = 0.5 * pow(10, -L.get('X')->dec), ulpy = 0.5 * pow(10, -L.get('Y')->dec);
      if (ref::trim(L.get('X')->raw) == "0") ulp = 1e-9;
      if (ref::trim(L.get('Y')->raw) == "0") ulpy = 1e-9;
      if (fabs(L.get('X')->v - Q.lg(0)) > ulp + 1e-9 * (1 + fabs(Q.lg(0)))) B("endpoint", at + ": X ends at " + num(L.get('X')->v) + " source " + num(Q.lg(0)));
      if (fabs(L.get('Y')->v - Q.lg(1)) > ulpy + 1e-9 * (1 + fabs(Q.lg(1)))) B("endpoint", at + ": Y ends at " + num(L.get('Y')->v) + " source " + num(Q.lg(1)));
      // ---- geometry (as a firmware would draw it)
      Geo g = geo(O, L); double eps = 2.5 * U + 1e-7, lim = c.res / 2 + eps; if (P.inch) lim = (c.res / 2) / 25.4 + eps;
      if (g.r > std::min(c.maxr, 9999.0) + 1.0 * U) B("radius", at + ": radius " + num(g.r));
      bool known = P.known[0] && P.known[1]; if (!known) B("unknownpos", at + ": starts at an unknown position");
      double worst = 0; double per = 0, srclen = 0, srclen3 = 0; bool ambiguous = false; double winding = 0, backtrack = 0, zworst = 0; double px = P.lg(0), py = P.lg(1), pz = P.lg(2);
      int nm = A.mv.size(); int kind = 0; bool kindmix = false, relxyz = false, barrier = false; string bwhy; double lastrate = 0, rateworst = 0; bool zchg = false;
      double z0 = O.lg(2), z1 = L.has('Z') ? L.get('Z')->v : z0; string wantc; double r2 = hypot(g.ex - g.cx, g.ey - g.cy); worst = std::max(worst, fabs(r2 - g.r) - 0);
      double desum = 0;
      for (int q = 0; q < nm; q++) {
        const Line& M = s[A.mv[q]]; const Sim &a = S[A.mv[q]], &b = S[A.mv[q] + 1];
        double x = b.lg(0), y = b.lg(1), z = b.lg(2); double d = hypot(x - g.cx, y - g.cy); worst = std::max(worst, fabs(d - g.r));
        double dx = x - px, dy = y - py, l2 = dx * dx + dy * dy; if (l2 > 0) { double t = ((g.cx - px) * dx + (g.cy - py) * dy) / l2; if (t > 0 && t < 1) worst = std::max(worst, fabs(hypot(px + t * dx - g.cx, py + t * dy - g.cy) - g.r)); }
        double len = sqrt(l2), len3 = sqrt(l2 + (z - pz) * (z - pz)); srclen += len; srclen3 += len3;
        double a0 = atan2(g.sy - g.cy, g.sx - g.cx), an = atan2(y - g.cy, x - g.cx); double dd = g.cw ? a0 - an : an - a0; while (dd < 0) dd += 2 * M_PI; while (dd >= 2 * M_PI) dd -= 2 * M_PI;
        double slack = (eps + 1e-9) / std::max(g.r, 1e-9); if (q == nm - 1) dd = g.sweep;
        if (q == 0 && dd > 2 * M_PI - slack) dd = 0;
        { double ap = atan2(py - g.cy, px - g.cx), st = g.cw ? ap - an : an - ap; while (st < -M_PI) st += 2 * M_PI; while (st > M_PI) st -= 2 * M_PI;
          if (fabs(fabs(st) - M_PI) < 2 * slack || hypot(x - g.cx, y - g.cy) < 3 * eps || hypot(px - g.cx, py - g.cy) < 3 * eps) ambiguous = true; winding += st; if (st < -slack) backtrack += -st; }
        // the segment itself must not go the long way round
        double zi = z0 + (z1 - z0) * (g.sweep > 0 ? std::min(dd, g.sweep) / g.sweep : 1); zworst = std::max(zworst, fabs(zi - z));
        if (fabs(z - pz) > 1e-9) zchg = true;
        double de = b.e - a.e; desum += de; int kd = de > 1e-9 ? 1 : de < -1e-9 ? 2 : 3; if (kind && kind != kd) kindmix = true; kind = kd;
        if (b.rel || a.rel) relxyz = true;
        if (a.erel != b.erel) { barrier = true; bwhy = "extruder mode"; }
        if (q > 0) {
          if (S[A.mv[q] + 1].f != S[A.mv[q - 1] + 1].f) { barrier = true; bwhy = "feedrate"; }
          if (S[A.mv[q] + 1].feat != S[A.mv[q - 1] + 1].feat) { barrier = true; bwhy = "feature type"; }
        }
        for (int ax = 0; ax < 3; ax++) if (b.fwcur[ax] != P.fwcur[ax] || b.off[ax] != P.off[ax]) { barrier = true; bwhy = "offset"; }
        double ml = c.d3 ? len3 : len;
        if ((kd == 1 || kd == 2) && ml > 0) { double rt = de / ml; if (q > 0 && lastrate * rt > 0) rateworst = std::max(rateworst, fabs((rt - lastrate) / lastrate)); lastrate = rt; }
        if (!M.rawc.empty() && M.rawc != wantc) { if (!wantc.empty()) wantc += " - "; wantc += M.rawc; }
        px = x; py = y; pz = z;
      }
      per = 2 * M_PI * g.r; maxdev = std::max(maxdev, worst);
      if (worst > lim) B(P.inch ? "dev-inch" : "dev", at + ": deviation " + num(worst) + " > " + num(c.res / 2) + " (+rounding)");
      if (!ambiguous && fabs(winding - g.sweep) > 6 * eps / std::max(g.r, 1e-9)) B("order", at + ": the path turns by " + num(winding) + " rad about the centre, the arc by " + num(g.sweep));
      if (!ambiguous && backtrack * g.r > (c.tol * srclen3) / 2 + 4 * eps * nm) B("order", at + ": doubles back by " + num(backtrack * g.r) + " mm");
      double alen = g.r * g.sweep; bool hel = c.d3; double al3 = hel ? hypot(alen, z1 - z0) : alen; double sl = hel ? srclen3 : srclen;
      double lslack = 6 * eps; if (alen >= per - 1e-9 && srclen < per / 2) B("order", at + ": full turn for a short path");
      if (fabs(al3 - sl) > c.tol * std::max(al3, sl) + lslack) B("len", at + ": arc length " + num(al3) + " path " + num(sl));
      if (sl > per * (1 + c.tol) + lslack && !hel) B("len", at + ": longer than a full turn");
      // ---- extrusion, kinds, barriers
      if (kindmix) B("kind", at + ": mixes extruding / retracting / travel moves");
      if (kind == 3 && !kindmix && !c.trav) B("travel", at + ": travel moves welded without allow_travel_arcs");
      if (relxyz) B("relxyz", at + ": moves made in relative XYZ mode");
      if (barrier) B("barrier", at + ": spans a change of " + bwhy);
      if (zchg && !c.d3) B("zlin", at + ": replaced moves change Z without allow_3d_arcs");
      else if (c.d3) { double zt = 1.6 * U + U * std::max(srclen, alen) + 1e-7; if (zworst > zt) B("zlin", at + ": Z off by " + num(zworst)); }
      if (c.var > 0 && !kindmix && rateworst > c.var + 1e-5) B("rate", at + ": extrusion rate changes by " + num(rateworst * 100) + "%");
      if (c.minseg > 0 && c.mmseg > 0) { double fs = per / c.mmseg, fl = per / std::max(1e-12, sl); if (floor(fs + 1e-4 * fs) < c.minseg && floor(fl + 1e-3 * fl) < c.minseg) B("fwcomp", at + ": radius " + num(g.r) + " is drawn with " + num(floor(fs)) + " segments per circle < " + std::to_string(c.minseg)); }
      // ---- comment
      if (squeeze(L.rawc) != squeeze(wantc)) B("comment", at + ": comment '" + L.comment + "' should be '" + wantc + "'");
      // ---- extrusion
      const ref::Word* ew = L.get('E'); double ue = ew ? 0.5 * pow(10, -ew->dec) : 0.5 * UE; if (ew && ref::trim(ew->raw) == "0") ue = 0.5 * UE; double e0 = O.e; bool erel = O.erel;
      const ref::Word* fw = L.get('F');
      O.step(L);
      if (!erel && ew) eallow = ue + 1e-7; else eallow += ue + 1e-7;
      etot = fabs((O.e - e0) - desum); if (erel && etot > ue + 1e-7) B("e", at + ": extrudes " + num(O.e - e0) + " instead of " + num(desum));
      if (!ew && fabs(desum) > 1e-9) B("e", at + ": no E word although the moves extrude " + num(desum));
      if (!erel && ew && fabs(ew->v - Q.le()) > ue + 1e-7) B("e", at + ": E " + num(ew->v) + " instead of " + num(Q.le()));
      if (Q.f > 0 && fabs(O.f - Q.f) > 0.5 + 1e-6) B("feed", at + ": runs at F" + num(O.f) + " instead of F" + num(Q.f));
      if (!fw && nm && S[A.mv[0] + 1].f != P.f && fabs(O.f - Q.f) > 0.5) B("feed", at + ": F missing");
      compare(O, Q, eallow, "after " + at);
    }
  }
  int lookahead_prec(bool e, int from, int base, int cur) const {   // the line that terminated the arc has been read already, dynamic precision may include it
    int m = std::max(base, cur), b = base; for (int i = from, n = 0; i < (int)s.size() && n < 4; i++) { int x = b, y = b; note_prec(s[i], x, y); m = std::max(m, e ? y : x); if (!s[i].blank) n++; } return m;
  }
  static void note_prec(const Line& L, int& x, int& e) { if (L.g01()) for (auto& w : L.w) if (w.num) { if (w.k == 'X' || w.k == 'Y' || w.k == 'Z') x = std::max(x, w.dec); if (w.k == 'E') e = std::max(e, w.dec); } }
  void compare(const Sim& O, const Sim& R, double eallow, const string& at) {
    for (int a = 0; a < 3; a++) if (R.known[a] && fabs(O.lg(a) - R.lg(a)) > 0.5 * U + 1e-6) B(a == 2 ? "zend" : "endpoint", at + ": axis " + "XYZ"[a] + " at " + num(O.lg(a)) + " instead of " + num(R.lg(a)));
    if (R.f > 0 && fabs(O.f - R.f) > 0.5 + 1e-6) B("feed", at + ": feedrate " + num(O.f) + " instead of " + num(R.f));
    if (fabs(O.le() - R.le()) > eallow + 1e-7) B("e", at + ": E position " + num(O.le()) + " instead of " + num(R.le()));
  }
  // ---- statistics
  struct Cnt { long n = 0; double len = 0; vector<std::pair<double, double>> ls; };
  bool fuzzy = false;   // extruder change in absolute extrusion: whether a move extrudes depends on the printer
  void recount(const vector<Line>& ls, Cnt k[3]) {
    Sim st; st.g90e = c.g90;
    for (auto& L : ls) {
      if (!L.cmd.empty() && L.cmd[0] == 'T' && !st.erel) fuzzy = true;
      Sim b = st; st.step(L); if (!L.g01() && !L.g23()) continue;
      double dx = st.p[0] - b.p[0], dy = st.p[1] - b.p[1], dz = st.p[2] - b.p[2], len;
      if (fabs(dx) < 1e-12 && fabs(dy) < 1e-12) continue;
      if (L.g23()) { Geo g = geo(b, L); len = g.r * g.sweep; if (fabs(dz) > 0) len = hypot(len, dz); } else len = c.d3 ? sqrt(dx * dx + dy * dy + dz * dz) : hypot(dx, dy);
      int kd = st.de > 1e-9 ? 0 : st.de < -1e-9 ? 1 : 2; if (kd == 2 && !c.trav) continue; k[kd].n++; k[kd].len += len; k[kd].ls.push_back({len, L.g23() ? 4 * U + 2e-3 : 2e-6 * (1 + len)});
    }
  }
  void stats(const arc_welder_progress& p, size_t srcbytes, size_t outbytes, long gcodes) {
    auto chk = [&](const char* n, double a, double b, double t) { if (!(fabs(a - b) <= t)) B("stats", string(n) + " reported " + num(a) + " counted " + num(b)); };
    chk("lines_processed", p.lines_processed, s.size(), 0); chk("gcodes_processed", p.gcodes_processed, gcodes, 0);
    chk("source_file_size", p.source_file_size, srcbytes, 0); chk("target_file_size", p.target_file_size, outbytes, 0);
    if (srcbytes) chk("percent_complete", p.percent_complete, 100, 1e-9);
    if (srcbytes && outbytes) { chk("compression_ratio", p.compression_ratio, (double)srcbytes / outbytes, 1e-5 * (1 + (double)srcbytes / outbytes)); chk("compression_percent", p.compression_percent, (1.0 - (double)outbytes / srcbytes) * 100, 2e-4 * (1 + 100.0 * outbytes / srcbytes)); }
    if (!aligned) return;
    long pts = 0; for (auto& a : arcs) pts += a.mv.size();
    chk("arcs_created", p.arcs_created, arcs.size(), 0); chk("points_compressed", p.points_compressed, pts, 0);
    tables(p); Cnt a[3], b[3]; recount(s, a); recount(o, b); if (fuzzy) return; const source_target_segment_statistics* st[3] = {&p.segment_statistics, &p.segment_retraction_statistics, &p.travel_statistics}; const char* nm[3] = {"extrusion", "retraction", "travel"};
    for (int i = 0; i < 3; i++) {
      string q = nm[i];
      chk((q + " source count").c_str(), st[i]->total_count_source, a[i].n, 0); chk((q + " target count").c_str(), st[i]->total_count_target, b[i].n, 0);
      chk((q + " source length").c_str(), st[i]->total_length_source, a[i].len, 1e-6 * (1 + a[i].len) + 2e-3 * nsrcarcs());
      chk((q + " target length").c_str(), st[i]->total_length_target, b[i].len, (4 * U) * (1 + arcs.size()) + 2e-3 * nsrcarcs() + 1e-6 * b[i].len);
      bins(q + " source", st[i]->source_segments, a[i].ls); bins(q + " target", st[i]->target_segments, b[i].ls);
    }
  }
  // The printed tables must say what the numbers say.
  void table(const string& q, const source_target_segment_statistics& st, const string& text) {
    size_t row = 0, width = 0; int seen = 0; std::stringstream in(text); string l; auto bad = [&](const string& m) { B("stats", q + " table: " + m); };
    auto pct = [](int a, int b, const string& t) { if (a == 0) return b > 0 ? t == "INF" : t == "0.0%"; char* e; double v = strtod(t.c_str(), &e); return string(e) == "%" && fabs(v - (b - (double)a) / a * 100) <= 0.0501; };
    while (getline(in, l)) {
      if (l.empty()) continue; if (!width) width = l.size(); if (l.size() != width) bad("line '" + l + "' has another width");
      if (l[0] != '|' || l.back() != '|') continue; string t = l.substr(1, l.size() - 2); size_t d = t.find("Total ");
      if (d != string::npos) { size_t c = t.find(':', d); string k = t.substr(d, c - d), v = c == string::npos ? "" : t.substr(c + 1); size_t z = 0; while (z < v.size() && v[z] == '.' && z + 1 < v.size() && (v[z + 1] == '.' || isdigit(v[z + 1]) || v[z + 1] == '-' || v[z + 1] == 'I')) z++; v = v.substr(z); double x = atof(v.c_str()); bool mm = v.size() > 2 && v.substr(v.size() - 2) == "mm";
        if (k == "Total distance") { seen |= 3; if (!mm || fabs(x - st.total_length_source) > 0.0016 + 1e-12 * fabs(x) || fabs(x - st.total_length_target) > 0.0016) bad(l); }
        else if (k == "Total distance source") { seen |= 1; if (!mm || fabs(x - st.total_length_source) > 0.00051) bad(l); } else if (k == "Total distance target") { seen |= 2; if (!mm || fabs(x - st.total_length_target) > 0.00051) bad(l); }
        else if (k == "Total count source") { seen |= 4; if (v != std::to_string(st.total_count_source)) bad(l); } else if (k == "Total count target") { seen |= 8; if (v != std::to_string(st.total_count_target)) bad(l); }
        else if (k == "Total percent change") { seen |= 16; if (!pct(st.total_count_source, st.total_count_target, v)) bad(l); } else bad("unknown row " + l); continue; }
      if (t.find("mm") == string::npos) continue; { size_t m = t.rfind('-'); if (m != string::npos) t.insert(m, " "); } std::stringstream w(t); vector<string> k; string x; while (w >> x) k.push_back(x); size_t n = st.source_segments.size(); if (row >= n) { bad("too many rows"); break; }
      bool last = row + 1 == n; if (k.size() != (last ? 5u : 6u) || k[last ? 0 : 1] != (last ? ">=" : "to")) { bad("row '" + l + "'"); row++; continue; }
      const segment_statistic &a = st.source_segments[row], &b = st.target_segments[row]; if (fabs(atof(k[last ? 1 : 0].c_str()) - a.min_mm) > 0.00051 || (!last && fabs(atof(k[2].c_str()) - a.max_mm) > 0.00051)) bad("range of row '" + l + "'");
      size_t o = last ? 2 : 3; if (k[o] != std::to_string(a.count) || k[o + 1] != std::to_string(b.count) || !pct(a.count, b.count, k[o + 2])) bad("counts of row '" + l + "' are " + std::to_string(a.count) + " and " + std::to_string(b.count)); row++; }
    if (row != st.source_segments.size() || seen != 31) bad("rows are missing");
  }
  void tables(const arc_welder_progress& p) {
    static std::set<uint64_t> done; uint64_t h = 1; for (auto* t : {&p.segment_statistics, &p.segment_retraction_statistics, &p.travel_statistics}) { h = vf::hash_d(vf::hash_d(h, round(t->total_length_source * 1e3)), round(t->total_length_target * 1e3)); h = vf::mix(vf::mix(h, t->total_count_source), t->total_count_target); for (auto* v : {&t->source_segments, &t->target_segments}) for (auto& x : *v) h = vf::mix(h, x.count); }
    if (!done.insert(h).second) return;   // the tables are a function of these numbers
    auto cut = [&](const string& d, const string& title) { size_t a = d.find(title); if (a == string::npos) return string(); size_t b = d.find("\n\n", a); a = d.rfind('\n', d.rfind('\n', a) - 1) + 1; return d.substr(a, b - a); };
    arc_welder_progress q = p; q.box_encoding = utilities::box_drawing::BoxEncodingEnum::ASCII; q.combine_extrusion_and_retraction = false; string d = q.detail_str(); q.combine_extrusion_and_retraction = true; string e = q.detail_str();
    if (p.travel_statistics.total_count_source > 0) table("travel", p.travel_statistics, cut(d, "Target File Travel Statistics")); else if (d.find("Travel") != string::npos) B("stats", "a table of no travels");
    if (p.segment_retraction_statistics.total_count_source > 0) table("retraction", p.segment_retraction_statistics, cut(d, "Target File Retraction Statistics"));
    table("extrusion", p.segment_statistics, cut(d, "Target File Extrusion Statistics"));
    source_target_segment_statistics sum = p.segment_statistics; const source_target_segment_statistics& r = p.segment_retraction_statistics; for (size_t i = 0; i < sum.source_segments.size(); i++) { sum.source_segments[i].count += r.source_segments[i].count; sum.target_segments[i].count += r.target_segments[i].count; }
    sum.total_length_source += r.total_length_source; sum.total_length_target += r.total_length_target; sum.total_count_source += r.total_count_source; sum.total_count_target += r.total_count_target; table("combined", sum, cut(e, "Target File Extrusion/Retraction Statistics"));
  }
  void bins(const string& q, const vector<segment_statistic>& h, const vector<std::pair<double, double>>& ls) {
    if (h.empty()) return; auto bin = [&](double l) { for (size_t i = 0; i + 1 < h.size(); i++) if (l < h[i].max_mm) return (int)i; return (int)h.size() - 1; };
    for (size_t i = 1; i < h.size(); i++) if (h[i].min_mm != h[i - 1].max_mm) B("stats", q + " histogram ranges do not join");
    vector<long> lo(h.size()), hi(h.size()); for (auto& l : ls) { int x = bin(l.first - l.second), y = bin(l.first + l.second); if (x == y) lo[x]++; for (int k = x; k <= y; k++) hi[k]++; }
    for (size_t i = 0; i < h.size(); i++) if (h[i].count < lo[i] || h[i].count > hi[i]) B("stats", q + " histogram row " + std::to_string(i) + " reports " + std::to_string(h[i].count) + " counted " + std::to_string(lo[i]) + ".." + std::to_string(hi[i]));
  }
  int nsrcarcs() const { int n = 0; for (auto& l : s) n += l.g23(); return n; }
};
}  // namespace weld
