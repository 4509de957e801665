// Explorer for the welding engine: every sequence over small alphabets of G-code events, run through the
// real arc_welder, judged by the reference interpreter in weldlib.hpp.
#include "weldlib.hpp"
#include <functional>
namespace app {
using namespace std; using std::vector; using weld::Cfg; using weld::Judge;
static vf::Ctx X;

struct MoveOpt { const char* cmd = "G1"; bool e = true; double rate = 1; double dz = 0; bool z = false; double f = 0; string comment; string lead; bool retract = false; int xp = -1, ep = -1, yp = -1, zp = -1; bool e0 = false; };
struct Gen {
  bool uniform = false; vector<double> rates;   // rates[i]: relative extrusion rate of the i-th extruding move
  ref::Sim s; string text, eol = "\n"; double cx = 100, cy = 100, R = 5, th = 0.1, base = 0.05; int xp = 3, ep = 5; int nmove = 0;
  double tx = 0, ty = 0, tz = 0; // physical target bookkeeping
  static string fmt(double v, int d) { char b[64]; snprintf(b, 64, "%.*f", d, v); bool z = true; for (char* p = b; *p; p++) if (*p >= '1' && *p <= '9') z = false; return z && b[0] == '-' ? string(b + 1) : string(b); }
  void line(const string& l) { text += l + eol; s.step(ref::parse(l)); }
  void move(double x, double y, const MoveOpt& o = MoveOpt()) {
    int px = o.xp >= 0 ? o.xp : xp, pe = o.ep >= 0 ? o.ep : ep; nmove++;
    auto w = [&](int a, double t) { return s.rel ? t - s.p[a] : t - s.off[a] + s.fwtool(a); };
    double wx = w(0, x), wy = w(1, y), wz = w(2, s.p[2] + o.dz);
    string sx = fmt(wx, px), sy = fmt(wy, o.yp >= 0 ? o.yp : px);
    double ax = s.rel ? s.p[0] + atof(sx.c_str()) : atof(sx.c_str()) + s.off[0] - s.fwtool(0), ay = s.rel ? s.p[1] + atof(sy.c_str()) : atof(sy.c_str()) + s.off[1] - s.fwtool(1);
    double len = hypot(ax - s.p[0], ay - s.p[1]); if (o.z) len = hypot(len, o.dz);
    string l = o.lead + o.cmd + " X" + sx + " Y" + sy;
    if (o.z) l += " Z" + fmt(wz, o.zp >= 0 ? o.zp : px);
    if (o.e) { rates.push_back(o.e0 ? 0 : o.retract ? -o.rate : o.rate); double de = (o.e0 ? 0 : base * (uniform ? 1 : o.rate) * len) * (o.retract ? -1 : 1); l += " E" + fmt(s.erel ? de : s.e + de - s.eoff, pe); }
    if (o.f) l += " F" + [](double v) { char q[40]; snprintf(q, sizeof q, "%.10g", v); return string(q); }(o.f > 0 ? o.f : s.f >= 1200 ? 700 : 1800);   // -1: down and up in turn
    l += o.comment; line(l);
  }
  void vert(double deg, double dr = 0, const MoveOpt& o = MoveOpt()) { th += deg * M_PI / 180; move(cx + (R + dr) * cos(th), cy + (R + dr) * sin(th), o); }
};
struct Tok { string name; function<void(Gen&)> f; };
static Tok V(double deg, double dr = 0, MoveOpt o = MoveOpt(), string nm = "V") { return {nm, [=](Gen& g) { g.vert(deg, dr, o); }}; }
static Tok L(const string& l) { return {l, [=](Gen& g) { g.line(l); }}; }
static MoveOpt mo(function<void(MoveOpt&)> f) { MoveOpt o; f(o); return o; }

struct Camp { string name; vector<Cfg> cfgs; Gen init; vector<Tok> pre, alpha, post; int dmin = 0, dq = 3, dt = 4; vector<int> eofs{0}; bool verts_pre = true; };
static vector<Cfg> cfgs(vector<function<void(Cfg&)>> fs) { vector<Cfg> r; for (auto& f : fs) { Cfg c; f(c); r.push_back(c); } return r; }

static map<string, Camp> camps() {
  map<string, Camp> M;
  auto start = [](Gen& g) { g.vert(0, 0, mo([](MoveOpt& o) { o.e = false; o.cmd = "G0"; o.f = 7200; })); };
  Tok START{"start", start};
  Tok Z02 = L("G1 Z0.2 F600"), F12 = L("G1 F1200");
  Tok v8 = V(8);
  {  // vertex geometry on and around a circle
    Camp c; c.name = "geometry"; c.init.R = 5; c.cfgs = cfgs({[](Cfg&) {}, [](Cfg& k) { k.tol = 0.005; }, [](Cfg& k) { k.res = 0.1; k.tol = 0.5; }});
    c.pre = {L("M82"), Z02, START, F12};
    c.alpha = {v8, V(11), V(3), V(8, 0.022), V(8, -0.03), V(-8), V(25), V(0), V(40, 1.5)}; c.dmin = 1; c.dq = 5; c.dt = 6; M[c.name] = c;
  }
  {  // deeper, fewer symbols: slow drift, spirals, reversals
    Camp c; c.name = "drift"; c.init.R = 5; c.cfgs = cfgs({[](Cfg&) {}, [](Cfg& k) { k.res = 0.02; k.tol = 0.3; }, [](Cfg& k) { k.res = 0.2; k.xp = 4; }});
    c.pre = {L("M83"), Z02, START, F12, v8, v8};
    c.alpha = {V(9), V(9, 0.012), V(6, -0.012), V(-5)}; c.dmin = 1; c.dq = 7; c.dt = 9; M[c.name] = c;
  }
  {  // tiny circles walked round more than once
    Camp c; c.name = "turns"; c.init.R = 0.3; c.init.xp = 4; c.cfgs = cfgs({[](Cfg& k) { k.res = 0.25; k.xp = 4; k.tol = 0.5; }, [](Cfg& k) { k.res = 0.25; k.xp = 4; k.tol = 0.9; }, [](Cfg& k) { k.res = 0.35; k.tol = 0.5; }});
    c.pre = {L("M83"), Z02, START, F12};
    c.alpha = {V(60), V(100), V(-60), V(30), V(180)}; c.dmin = 2; c.dq = 6; c.dt = 8; M[c.name] = c;
  }
  {  // long uniform runs crossing many angles: number of points up to several turns
    Camp c; c.name = "scale"; c.pre = {}; c.alpha = {}; c.dmin = 0; c.dq = c.dt = 0; M[c.name] = c;
  }
  {  // kinds of moves
    Camp c; c.name = "kinds"; c.init.R = 5; c.cfgs = cfgs({[](Cfg&) {}, [](Cfg& k) { k.trav = true; }, [](Cfg& k) { k.trav = true; k.var = 0; }, [](Cfg& k) { k.var = 0.2; }});
    c.pre = {L("M83"), Z02, START, F12};
    MoveOpt t = mo([](MoveOpt& o) { o.e = false; }), r = mo([](MoveOpt& o) { o.retract = true; }), t0 = mo([](MoveOpt& o) { o.e = false; o.cmd = "G0"; }), ze = mo([](MoveOpt& o) { o.e0 = true; });
    c.alpha = {v8, V(8, 0, t, "T"), V(8, 0, r, "R"), V(8, 0, t0, "T0"), V(8, 0, ze, "E0"), V(8, 0, mo([](MoveOpt& o) { o.f = -1; }), "VF"), V(8, 0, mo([](MoveOpt& o) { o.rate = 1.04; }), "V+4%"), V(8, 0, mo([](MoveOpt& o) { o.rate = 1.15; }), "V+15%"), L("G1 E-1.00000"), L("G1 F900")};
    c.dmin = 2; c.dq = 5; c.dt = 6; M[c.name] = c;
    Camp a = c; a.name = "kinds-abs"; a.pre[0] = L("M82"); a.alpha.pop_back(); a.alpha.pop_back(); a.alpha.push_back(L("G92 E0")); a.dq = 4; a.dt = 5; M[a.name] = a;
    Camp fd = c; fd.name = "feeds"; auto vf_ = [](double f) { char q[40]; snprintf(q, sizeof q, "F%g", f); return V(8, 0, mo([=](MoveOpt& o) { o.f = f; }), q); }; fd.alpha = {v8, vf_(1200), vf_(1200.4), vf_(1199.6), vf_(1201), vf_(1), L("G1 F1200.6"), L("G0 F1200")}; fd.dmin = 2; fd.dq = 5; fd.dt = 6; fd.cfgs.resize(1); M[fd.name] = fd;
    Camp b = c; b.name = "kinds-run"; b.alpha = {v8, L(""), V(8, 0, t, "T"), V(8, 0, r, "R"), V(8, 0, mo([](MoveOpt& o) { o.rate = 1.15; }), "V+15%")}; b.dmin = 3; b.dq = 6; b.dt = 8; b.cfgs.erase(b.cfgs.begin() + 2); M[b.name] = b;
  }
  {  // mode changes between moves of an arc
    Camp c; c.name = "modes"; c.init.R = 5; c.cfgs = cfgs({[](Cfg&) {}, [](Cfg& k) { k.g90 = true; }, [](Cfg& k) { k.trav = true; k.g90 = true; }});
    c.pre = {L("G28"), L("G92 E0"), Z02, START, F12, v8, v8, v8}; c.post = {v8, v8, v8, L("G1 X50 Y50 E9"), L("G1 X51 Y50")};
    c.alpha = {v8, L("G90"), L("G91"), L("M82"), L("M83"), L("G92 E0"), L("G92 X10 Y20"), L("G92"), L("G28"), L("G28 X0"), L("G29"), L("T1"), L("T0"), L("T7"), L("T9"), L("M218 T1 X2 Y1"), L("M218 T7 Y3"), L("G10 P0 X3"), L("G1 F900"), L("G1 E1"), L("G92 Z1"), L("G21")};
    c.dmin = 0; c.dq = 3; c.dt = 4; c.eofs = {0}; M[c.name] = c;
    Camp d = c; d.name = "modes-mid"; d.alpha = {v8, L("G90"), L("G91"), L("M82"), L("M83"), L("G92 E0"), L("G1 E-1 F2400")}; d.dq = 5; d.dt = 6; d.pre = {L("G92 E0"), Z02, START, F12, v8}; d.post = {v8, v8, v8, L("G1 X50 Y50 E9")}; M[d.name] = d;
    Camp e = c; e.name = "unknown"; e.pre = {}; e.alpha = {v8, L("G28"), L("G28 Y"), L("G29 P1"), L("G80"), L("G90"), L("G1 X100"), L("G1 Y105"), L("G1 Z0.3 F900"), L("G92 X0 Y0"), L("M83")}; e.dq = 4; e.dt = 5; e.post = {v8, v8, v8, v8}; e.cfgs.pop_back(); M[e.name] = e;
    Camp fi = e; fi.name = "first"; fi.alpha = {START, L("M82 ; generated by PrusaSlicer"), L("M83 ; generated by PrusaSlicer 2.3"), L("G91 ;FLAVOR:UltiGCode"), L("G91"), L("; generated by PrusaSlicer 2.3.0 on 2021"), L(";FLAVOR:UltiGCode"), L(" ;FLAVOR:UltiGCode"), L(";generated by PrusaSlicer"), L("G90;; generated by PrusaSlicer"), L(""), L("G1 Z0.2 F1200;FLAVOR:UltiGCode"), L("G92 E0 ; Postprocessed"), L("T1 ; generated by PrusaSlicer"), Tok{"raw", [](Gen& g) { for (int i = 0; i < 5; i++) { char b[99]; snprintf(b, 99, "G1 X%.3f Y%.3f E0.05", 50 + cos(.1 * i), 50 + sin(.1 * i)); g.line(b); } }}, Tok{"rawe", [](Gen& g) { for (int i = 1; i < 6; i++) { char b[99]; snprintf(b, 99, "G1 X%.3f Y%.3f E%.2f", 50 + cos(.1 * i), 50 + sin(.1 * i), .05 * i); g.line(b); } }}}; fi.dmin = 1; fi.dq = 3; fi.dt = 4; fi.post = {START, F12, v8, v8, v8, v8}; fi.eofs = {0}; M[fi.name] = fi;
    Camp in = c; in.name = "inch"; in.pre = {L("G20"), L("M83"), START, F12}; in.init.R = 0.2; in.init.cx = in.init.cy = 4; in.init.xp = 4; in.alpha = {v8, V(12), V(20), V(25), L("G21"), L("G20")}; in.dmin = 3; in.dq = 5; in.dt = 6; in.post = {v8}; in.cfgs = cfgs({[](Cfg&) {}, [](Cfg& k) { k.xp = 4; }}); M[in.name] = in;
  }
  {  // line shapes, comments, blanks
    Camp c; c.name = "lexical"; c.init.R = 5; c.cfgs = cfgs({[](Cfg&) {}, [](Cfg& k) { k.trav = true; k.dyn = true; }});
    c.pre = {L("M83"), Z02, START, F12, v8, v8}; c.post = {v8, v8, L("; end")};
    auto vc = [](string s) { return V(8, 0, mo([=](MoveOpt& o) { o.comment = s; }), "V" + s); };
    c.alpha = {v8, vc(" ; a"), vc(";b"), vc(" ;"), vc(" ; perimeter"), vc(" S255"), vc(" A1.5 ; a"), vc(" p"), V(8, 0, mo([](MoveOpt& o) { o.lead = "  "; }), " V"), V(8, 0, mo([](MoveOpt& o) { o.cmd = "g1"; }), "g1"), V(8, 0, mo([](MoveOpt& o) { o.cmd = "G01"; }), "G01"), L(""), L("  "), L("\t"), L("\tM117 x"), L(";c"), L(" ; infill"), L(";"), L("M204 S500"), L("  M105"), L("bogus line"), L("  bogus"), L("G1"), L("G1 X"), L("N10 G1 X1"), L("\xc3\xa4 x"), Tok{"G2half", [](Gen& g) { g.line("G2 X" + Gen::fmt(g.s.lg(0) + 6, 3) + " Y" + Gen::fmt(g.s.lg(1), 3) + " I3 J0 E0.3"); }}, L("G4 P1"), L("M117 a;b")};
    c.dmin = 0; c.dq = 3; c.dt = 4; c.eofs = {0, 1, 2, 3}; M[c.name] = c;
    Camp d = c; d.name = "comments"; d.pre = {L("M83"), Z02, START, F12}; d.alpha = {v8, vc(" ; a"), vc(" ; b"), vc(";"), L(""), vc(";p - q"), L("; x")}; d.dq = 6; d.dt = 7; d.dmin = 3; d.eofs = {0}; d.post = {}; d.cfgs.pop_back(); M[d.name] = d;
    Camp f = c; f.name = "features"; f.alpha = {vc(""), vc(" ; perimeter"), vc(" ; infill"), vc(" ; skirt"), L("; perimeter"), L("M83 ; infill(bridge)"), L(";TYPE:FILL")}; f.pre = {L("M83"), Z02, START, F12}; f.post = {v8}; f.dmin = 2; f.dq = 5; f.dt = 6; f.eofs = {0}; f.cfgs.pop_back(); M[f.name] = f;
    Camp ra = c; ra.name = "rates"; ra.alpha.clear(); for (double q : {1.0, 1.04, 1.06, 0.955, 0.9, 1.2}) ra.alpha.push_back(V(8, 0, mo([=](MoveOpt& o) { o.rate = q; o.ep = 7; }), "r" + to_string(q)));
    ra.alpha.push_back(L("")); ra.alpha.push_back(L("G1 F900")); ra.alpha.push_back(L("G1 E-1 F2400")); ra.alpha.push_back(L("M107")); ra.pre = {L("M83"), Z02, START, F12}; ra.post = {v8}; ra.dmin = 2; ra.dq = 4; ra.dt = 5; ra.eofs = {0}; ra.cfgs = cfgs({[](Cfg&) {}, [](Cfg& k) { k.var = 0; }, [](Cfg& k) { k.var = 0.1; k.d3 = true; }}); M[ra.name] = ra;
    Camp wi = ra; wi.name = "wipes"; wi.alpha.clear(); for (double q : {1.0, 1.04, 1.08, 0.9, 1.3}) wi.alpha.push_back(V(8, 0, mo([=](MoveOpt& o) { o.rate = q; o.ep = 7; o.retract = true; }), "w" + to_string(q)));
    wi.alpha.push_back(v8); wi.alpha.push_back(L("")); wi.alpha.push_back(L("G1 E1 F2400")); wi.post.clear(); M[wi.name] = wi;
    Camp p = c; p.name = "precision"; p.alpha.clear(); for (int xp : {2, 3, 4, 6}) for (int ep : {3, 5, 6}) if (xp + ep != 9 || xp == 3) p.alpha.push_back(V(8, 0, mo([=](MoveOpt& o) { o.xp = ep == 6 ? 3 : xp; o.yp = ep == 3 ? 3 : xp; o.ep = ep; }), "P" + to_string(xp) + to_string(ep)));
    for (int zp : {4, 6}) p.alpha.push_back(V(8, 0, mo([=](MoveOpt& o) { o.z = true; o.dz = zp == 4 ? .0121 : .012003; o.zp = zp; o.xp = 3; o.ep = 3; }), "Z" + to_string(zp)));
    p.pre = {L("M83"), Z02, START, F12}; p.post = {v8}; p.dmin = 3; p.dq = 4; p.dt = 5; p.eofs = {0}; p.cfgs.clear(); for (int xp = 3; xp <= 6; xp++) for (int ep = 3; ep <= 6; ep++) for (int dyn = 0; dyn < 2; dyn++) if (xp == ep || xp + ep == 9 || (xp == 3 && ep == 5)) { Cfg k; k.xp = xp; k.ep = ep; k.dyn = dyn; k.d3 = dyn; p.cfgs.push_back(k); } M[p.name] = p;
  }
  {  // vertical profiles
    Camp c; c.name = "zprofile"; c.init.R = 5; c.cfgs = cfgs({[](Cfg& k) { k.d3 = true; }, [](Cfg& k) { k.d3 = true; k.xp = 5; k.res = 0.1; }, [](Cfg&) {}});
    c.pre = {L("M83"), Z02, START, F12};
    auto z = [](double dz, double deg = 8) { return V(deg, 0, mo([=](MoveOpt& o) { o.z = true; o.dz = dz; }), "Z" + to_string(dz)); };
    c.alpha = {v8, z(0), z(0.1), z(0.02), z(0.03, 12), z(-0.02), z(0.0004), L("G1 Z5")}; c.dmin = 2; c.dq = 5; c.dt = 6; M[c.name] = c;
    Camp d = c; d.name = "vase"; d.init.R = 5; d.init.xp = 4; d.alpha = {z(0.001), z(0.0004), z(0.0011, 4)}; d.dmin = 4; d.dq = 8; d.dt = 10; d.cfgs = cfgs({[](Cfg& k) { k.d3 = true; }, [](Cfg& k) { k.d3 = true; k.dyn = true; }, [](Cfg&) {}}); M[d.name] = d;
  }
  {  // retained lines must stay put: many short interrupted arcs
    Camp c; c.name = "chain"; c.init.R = 3; c.cfgs = cfgs({[](Cfg&) {}, [](Cfg& k) { k.ep = 3; }, [](Cfg& k) { k.ep = 3; k.trav = true; k.dyn = true; }});
    c.pre = {L("M82"), L("G92 E0"), Z02, START, F12};
    Tok A3{"A3", [](Gen& g) { for (int i = 0; i < 3; i++) g.vert(9); }}, A4{"A4", [](Gen& g) { for (int i = 0; i < 4; i++) g.vert(-7, 0); }}, JMP{"J", [](Gen& g) { g.cx += 2.3456; g.vert(33, 0, mo([](MoveOpt& o) { o.e = false; })); }}, J2{"JE", [](Gen& g) { g.cy += 1.2345; g.vert(33, 0); }};
    c.alpha = {A3, A4, JMP, J2, L("G1 E-0.8 F2400"), L("G92 E0"), L("M83"), L("M82"), L("; c"), L("G1 F1000")}; c.dmin = 2; c.dq = 4; c.dt = 5; M[c.name] = c;
  }
  return M;
}

// Single-text families given by a product of parameters.
struct Case { Cfg c; string text; bool regular = false; int first = 0, n = 0; };
static vector<Case> regular(bool thorough) {
  vector<Case> r;
  vector<double> Rs = {0.5, 1, 2, 5, 10, 25, 80, 300}; if (thorough) Rs.insert(Rs.end(), {0.8, 3.3, 15, 47, 150, 800});
  vector<double> st; for (int i = 0; i < (thorough ? 24 : 8); i++) st.push_back(i * (360.0 / (thorough ? 24 : 8)) + (i % 3 ? 0 : 1.3));
  vector<int> ns = {3, 4, 5, 6, 12, 40, 130}; if (thorough) ns.insert(ns.end(), {9, 25, 90, 300, 1200});
  for (double R : Rs) for (int dir : {1, -1}) for (double a0 : st) for (int n : ns) for (double fr : thorough ? vector<double>{0.1, 0.3, 0.6, 0.8} : vector<double>{0.2, 0.7}) for (int place = 0; place < 8; place++) for (int k = 0; k < 9; k++) {
    if (!thorough && place > 3 && (n != 6 || fr < 0.5)) continue;
    Cfg c; Gen g; g.R = R; g.th = a0 * M_PI / 180; if (k == 1) { c.res = 0.1; c.xp = 4; g.xp = 4; } if (k == 2) { c.buf = 30; c.dyn = true; c.g90 = true; g.xp = 5; } if (k == 3) { c.d3 = true; c.trav = true; c.var = 0; g.ep = 4; } if (k == 4 || k == 8) { c.d3 = true; } if (k == 8) { g.xp = g.ep = 6; c.xp = 4; } if (k == 5) { c.maxr = R * 1.3; c.maxlen = 90; } if (k == 6) { c.mmseg = 2 * M_PI * R / 13.5; c.minseg = 12; c.trav = true; } if (k == 7) { c.tol = 0.03; c.ep = 3; c.dyn = true; }
    double lim = c.res / 2 * fr; if (lim >= R) continue; double step = 2 * acos(1 - lim / R); step = min(step, M_PI / 4); double maxsweep = 2 * M_PI * 0.97; if (step * n > maxsweep) { if (n > 3 && n != 40) continue; step = maxsweep / n; }
    if (n * step > maxsweep) continue; double chord = 2 * R * sin(step / 2); if (chord < 0.12) continue;
    double sag = n * step >= M_PI ? R : R * (1 - cos(n * step / 2)); double U = pow(10, -g.xp); if (sag < 60 * U) continue;
    double sag3 = R * (1 - cos(2 * step / 2)); if (sag3 < 6 * U) continue;   // even the first three points must define the circle well
    if (place == 1) g.line("M82"); else g.line("M83");
    if (place == 2) { g.line("G28"); g.line("; x"); }
    g.line("G1 Z0.2 F600");
    if (place == 3) { g.cx += 20; g.vert(0, 0, mo([](MoveOpt& o) { o.e = false; })); g.line("G1 F1200"); double R0 = g.R, t0 = g.th; g.R = 5; g.vert(0, 0, mo([](MoveOpt& o) { o.e = false; })); for (int i = 0; i < 5; i++) g.vert(8); g.R = R0; g.th = t0; g.cx -= 20; }
    if (place == 4) g.line("G92 E0");
    g.vert(0, 0, mo([](MoveOpt& o) { o.e = false; o.cmd = "G0"; })); g.line("G1 F1200");
    if (place == 5) { g.line("G1 E-1"); g.line("G1 E1"); }
    Case q; q.first = ref::split(g.text).size();
    for (int i = 0; i < n; i++) { MoveOpt o; if (place == 6) o.comment = i % 2 ? " ; w" : ""; if (place == 7 && i % 2) g.line(""); if (k == 4) { o.z = true; o.dz = 0.01; } if (k == 8) { o.z = true; o.dz = floor(chord * 9e4) / 1e5; } g.vert(dir * step * 180 / M_PI, 0, o); }
    q.n = (int)ref::split(g.text).size() - q.first; g.line(place % 2 ? "G1 E-1 F2400" : "M107"); if (place == 7) g.eol = "\n";
    q.c = c; q.text = g.text; q.regular = true; r.push_back(q);
  }
  return r;
}
// a regular arc after every sequence of other lines, the last of which ends whatever came before
static const vector<Tok>& h21() {
  static vector<Tok> v; if (!v.empty()) return v; auto run = [](int n, double deg, double rate, bool retract = false) { return [=](Gen& g) { for (int i = 0; i < n; i++) g.vert(deg, 0, mo([=](MoveOpt& o) { o.rate = rate; o.retract = retract; })); }; };
  v = {{"run at another rate", run(4, 9, 1.5)}, {"run the other way", run(3, -9, 1)}, {"one move", run(1, 9, 0.7)}, {"wipe", [=](Gen& g) { double e = g.s.e; run(2, -9, 0.5, true)(g); g.line("G1 E" + Gen::fmt(e + 0.01 - (g.s.erel ? g.s.e : g.s.eoff), 5)); }}, {"travel", [](Gen& g) { g.cx += 1.5; g.vert(40, 0, mo([](MoveOpt& o) { o.e = false; o.cmd = "G0"; })); }},
    {"retract", [](Gen& g) { g.line("G1 E" + Gen::fmt(g.s.erel ? -1 : g.s.e - g.s.eoff - 1, 5)); g.line("G1 E" + Gen::fmt(g.s.erel ? 1.01 : g.s.e - g.s.eoff + 1.01, 5)); }}, L("G1 E3"), L("; c"), L(""), L("G92 E0"), L("G1 F900"), L("M82"), L("M83"), {"relative move", [](Gen& g) { g.line("G91"); g.line("G1 X0.5"); g.line("G90"); g.vert(0, 0, mo([](MoveOpt& o) { o.e = false; })); }}, {"hop", [](Gen& g) { g.line("G1 Z1"); g.line("G1 Z0.2"); }}, L("bogus"), {"no length", [](Gen& g) { g.vert(0); }}, {"slower", [](Gen& g) { g.vert(9, 0, mo([](MoveOpt& o) { o.f = 700; })); }}, L("T0"), {"G92 X Y", [](Gen& g) { g.line("G92 X100 Y100"); g.vert(5, 0, mo([](MoveOpt& o) { o.e = false; })); }}};
  return v;
}
static const vector<Tok>& sep21() { static vector<Tok> v = {L("; c"), L("M107"), L("G1 F1300"), {"travel", [](Gen& g) { g.cx += 1.5; g.vert(40, 0, mo([](MoveOpt& o) { o.e = false; o.cmd = "G0"; })); }}, L("G92 E0"), L("bogus"), L("M204 S500 ; infill"), L(" ; perimeter"), {"hop", [](Gen& g) { g.line("G1 Z1"); g.line("G1 Z0.2"); }}}; return v; }
static vector<Cfg> cf21() { return cfgs({[](Cfg&) {}, [](Cfg& k) { k.trav = true; k.d3 = true; }, [](Cfg& k) { k.var = 0; k.dyn = true; }, [](Cfg& k) { k.var = 0.01; }}); }
static Case hist21(const vector<int>& t, int sep, int cf) {
  Case q; q.c = cf21()[cf]; Gen g; g.ep = 7; for (const char* l : {"M83", "G1 Z0.2 F600"}) g.line(l); g.vert(0, 0, mo([](MoveOpt& o) { o.e = false; o.cmd = "G0"; })); g.line("G1 F1200");
  for (int k : t) h21()[k].f(g);
  double owed = 0; { ref::Sim m; for (auto& l : ref::split(g.text)) { m.step(ref::parse(l)); owed = max(0.0, owed - m.de); } } if (owed > 0) g.line("G1 E" + Gen::fmt(owed + 0.01 + (g.s.erel ? 0 : g.s.le()), 5));   // a switch between M82 and M83 may retract, too
  sep21()[sep].f(g); q.first = ref::split(g.text).size(); for (int i = 0; i < 5; i++) g.vert(10); q.n = 5; g.line("M107"); q.text = g.text; q.regular = true; return q;
}
// equal steps between points with whole coordinates: centre and angles are exact, so vertices lie precisely on the axes
static vector<Case> lattice() {
  vector<Case> r; for (int R2 : {25, 100, 169, 625}) { vector<pair<int, int>> P; for (int x = -25; x <= 25; x++) for (int y = -25; y <= 25; y++) if (x * x + y * y == R2) P.push_back({x, y});
    for (auto& a : P) for (auto& b : P) for (auto& c : P) { long d1 = (long)(a.first - b.first) * (a.first - b.first) + (a.second - b.second) * (a.second - b.second), d2 = (long)(c.first - b.first) * (c.first - b.first) + (c.second - b.second) * (c.second - b.second); if (a == c || d1 != d2 || !d1 || d1 >= 2 * R2) continue;
      double R = sqrt((double)R2), sag = R - sqrt(R2 - d1 / 4.0), arc = 2 * R * 2 * asin(sqrt((double)d1) / 2 / R), len = 2 * sqrt((double)d1);
      for (int k = 0; k < 4; k++) { Cfg q; q.res = sag * 2.5; q.tol = (arc / len - 1) * 2 + 1e-3; q.trav = k & 1; double cx = k < 2 ? 100 : 30, cy = k < 2 ? 100 : 64, sc = k < 2 ? 1 : .5; string t = k & 1 ? "M83\n" : "M82\n"; double e = 0; char B[99]; auto pt = [&](pair<int, int> p, bool first) { if (first) snprintf(B, 99, "G1 X%g Y%g F1200\n", cx + sc * p.first, cy + sc * p.second); else { e = k & 1 ? .5 : e + .5; snprintf(B, 99, "G1 X%g Y%g E%.5f\n", cx + sc * p.first, cy + sc * p.second, e); } t += B; }; pt(a, true); Case Q; Q.first = 2; pt(b, false); pt(c, false); Q.n = 2; t += "M107\n"; Q.c = q; Q.text = t; Q.regular = true; r.push_back(Q); } } }
  return r;
}
static vector<Case> limits(bool thorough) {   // radius / length / precision / firmware limits around their thresholds
  vector<Case> r;
  vector<double> Rs = {0.4, 1, 3, 9.5, 10, 10.5, 30, 99.9, 100.1, 300, 1000}; if (thorough) Rs.insert(Rs.end(), {0.2, 0.7, 2, 4.99, 5.01, 50, 200, 500, 3000, 9990, 20000});
  vector<function<void(Cfg&)>> ks; 
  for (double mr : {1e4, 10.0, 100.0, 0.5}) ks.push_back([=](Cfg& k) { k.maxr = mr; });
  for (int ml : {20, 30, 36, 40, 44, 50, 55, 60}) { ks.push_back([=](Cfg& k) { k.maxlen = ml; }); ks.push_back([=](Cfg& k) { k.maxlen = ml; k.xp = 5; k.ep = 6; k.d3 = ml % 20 == 0; k.g90 = true; }); if (thorough) ks.push_back([=](Cfg& k) { k.maxlen = ml + 3; k.xp = 4; k.dyn = true; }); }
  for (double mm : {0.0, 0.5, 1.0, 2.0, 5.0}) for (int ms : {0, 6, 12, 14, 20, 40, 100}) ks.push_back([=](Cfg& k) { k.mmseg = mm; k.minseg = ms; });
  for (auto& kf : ks) for (double R : Rs) for (int dir : {1, -1}) for (double off : {0.0, -1.0, 900.0}) for (int n : thorough ? vector<int>{3, 4, 7, 20, 60} : vector<int>{4, 20}) for (int zf = 0; zf < 2; zf++) for (int abse = 0; abse < 2; abse++) {
    Cfg c; kf(c); if (zf && !c.d3 && !(c.maxlen == 0 && n == 4)) continue; if (abse && off == 0 && !thorough) continue;
    Gen g; g.R = R; g.cx = 100 * (off < 0 ? -0.001 : 1) + max(off, 0.0); g.cy = off < 0 ? 0 : 100 - off; g.th = 0.37; g.line(abse ? "M82" : "M83"); if (abse) { g.line("G1 E1234.5"); } g.line("G1 Z0.2 F600");
    g.vert(0, 0, mo([](MoveOpt& o) { o.e = false; })); g.line("G1 F1200"); double step = min(0.5, 2 * acos(1 - min(1.0, c.res / 2 * 0.6 / R))); int m = n; if (m * step > 6.0) m = (int)(6.0 / step);
    if (m < 3) continue;
    for (int i = 0; i < m; i++) { MoveOpt o; if (zf) { o.z = true; o.dz = 0.01 * step * R; } if (i == 0) o.f = 1500; g.vert(dir * step * 180 / M_PI, 0, o); }
    g.line("M107"); Case q; q.c = c; q.text = g.text; r.push_back(q);
  }
  return r;
}
static vector<Case> longhist(bool thorough) {   // rounding must not accumulate over long histories
  vector<Case> r;
  for (int abse = 0; abse < 2; abse++) for (int d3 = 0; d3 < 2; d3++) for (int xp : {3, 4}) for (int ep : {3, 5}) for (double R : {3.0, 7.77, 20.0}) for (int kind = 0; kind < 3; kind++) {
    Cfg c; c.xp = xp; c.ep = ep; c.d3 = d3; Gen g; g.R = R; g.xp = 4; g.ep = 5; g.line(abse ? "M82" : "M83"); g.line("G1 Z0.2 F600"); g.vert(0, 0, mo([](MoveOpt& o) { o.e = false; })); g.line("G1 F1200");
    double st = 2 * acos(1 - 0.015 / R) * 180 / M_PI; int N = thorough ? 1200 : 300;
    for (int i = 0; i < N; i++) { MoveOpt o; if (kind == 1) { o.z = true; o.dz = 0.0004; } if (kind == 2 && i % 7 == 6) g.line(i % 2 ? "M106 S1" : "; c"); if (kind == 2 && i % 40 == 39 && abse) g.line("G92 E0"); g.vert(st, 0, o); }
    Case q; q.c = c; q.text = g.text; r.push_back(q);
  }
  return r;
}

static string replay_text(const Cfg& c, const string& t) { return "#vf-weld " + c.str() + "\n" + t; }
static set<string> kinds_of(const string& p) {
  static map<string, set<string>> m = {{"W01", {"lines", "word"}}, {"W02", {"dev", "dev-inch"}}, {"W03", {"order", "len"}}, {"W04", {"e"}}, {"W05", {"endpoint", "feed", "zend"}}, {"W06", {"kind", "travel"}}, {"W07", {"barrier", "unknownpos", "relxyz"}},
    {"W08", {"format", "radius", "length", "ij0", "zword"}}, {"W09", {"prec", "endpoint"}}, {"W10", {"fwcomp"}}, {"W11", {"zlin", "zword", "zend"}}, {"W12", {"rate"}}, {"W14", {"comment"}}, {"W15", {"stats"}}, {"W20", {"e"}}, {"W21", {"missed"}}, {"ALL", {}}};
  return m[p];
}
static set<string> want; static int c_arcs, c_moves, c_case, c_unal;
static void one(const string& camp, const Cfg& c, const string& text, const Case* q = nullptr) {
  string rt = replay_text(c, text); X.begin(rt); X.inputs.insert(vf::hash_str(rt));
  weld::Run R = weld::run(X.dir, c, text);
  Judge J; J.load(c, text, R.out); J.judge();
  if (X.o.prop == "W15" || X.o.prop == "ALL") { long g = 0; (void)g; J.stats(R.res.progress, text.size(), R.out.size(), R.res.progress.gcodes_processed); }
  if (q && q->regular && J.aligned) {
    int cov = 0, na = 0; for (auto& a : J.arcs) if (a.k >= q->first && a.i < q->first + q->n) { na++; if (a.i <= q->first && a.k >= q->first + q->n - 1) cov = 1; }
    if (!cov) J.B("missed", "a regular arc of " + to_string(q->n) + " lines from line " + to_string(q->first + 1) + " was not replaced by one arc (" + to_string(na) + " arcs)");
  }
  X.add(X.c_exec); X.add(X.c_trans, J.s.size()); X.add(c_arcs, J.arcs.size()); for (auto& a : J.arcs) X.add(c_moves, a.mv.size()); if (!J.aligned) X.add(c_unal);
  X.outcomes.insert(J.outcome); { size_t a = 0; for (size_t i = 0; i < J.S.size(); i++) { while (a < J.arcs.size() && J.arcs[a].k < (int)i) a++; int pend = a < J.arcs.size() && J.arcs[a].i < (int)i ? (int)i - J.arcs[a].i : 0; X.states.insert(vf::mix(J.S[i].hash(), pend)); } }
  if (!J.arcs.empty()) X.sample(rt + "---- output ----\n" + R.out);
  if (!R.ok) J.B("lines", "process() failed");
  for (auto& b : J.bad) if (want.empty() || want.count(b.kind)) X.violation(b.kind + (want.empty() ? ":" + camp : ""), "[" + camp + "] " + b.msg + " | " + c.str(), rt);
}
static void render(const Camp& c, uint64_t idx, Cfg& cfg, string& text, string* names = nullptr, bool uniform = false, vector<double>* rates = nullptr) {
  uint64_t nc = c.cfgs.size(), ne = c.eofs.size(); cfg = c.cfgs[idx % nc]; idx /= nc; int eof = c.eofs[idx % ne]; idx /= ne;
  int d = c.dmin; uint64_t k = 1; for (int i = 0; i < d; i++) k *= c.alpha.size(); while (idx >= k) { idx -= k; k *= c.alpha.size(); d++; }
  Gen g = c.init; g.uniform = uniform; g.s.g90e = cfg.g90; if (eof == 2) g.eol = "\r\n"; for (auto& t : c.pre) t.f(g);
  for (int i = 0; i < d; i++) { const Tok& t = c.alpha[idx % c.alpha.size()]; idx /= c.alpha.size(); if (names) *names += t.name + " "; t.f(g); }
  for (auto& t : c.post) t.f(g);
  if (eof == 1 && !g.text.empty()) g.text.erase(g.text.size() - 1); if (eof == 3) g.text += "\n \n";
  text = g.text; if (rates) *rates = g.rates;
}
static uint64_t count(const Camp& c, int depth) { uint64_t n = 0, k = 1; for (int d = 0; d <= depth; d++) { if (d >= c.dmin) n += k; k *= c.alpha.size(); } return n * c.cfgs.size() * c.eofs.size(); }

struct Work { string camp; uint64_t n; function<void(uint64_t)> f; };
static void explore(vector<Work> W) {
  const uint64_t CH = 64; vector<pair<uint64_t, int>> jobs; uint64_t tot = 0; vector<uint64_t> base; for (auto& w : W) { base.push_back(tot); tot += (w.n + CH - 1) / CH; }
  X.run(tot, [&](uint64_t j) { int k = W.size() - 1; while (base[k] > j) k--; uint64_t b = (j - base[k]) * CH, e = min(W[k].n, b + CH); for (uint64_t i = b; i < e; i++) W[k].f(i); });
}
static int generic(const vector<pair<string, int>>& list, bool reg, bool lim, bool lng) {
  auto M = camps(); vector<Work> W; bool th = X.o.thorough();
  static vector<Case> cases; static vector<string> cn;
  if (reg) for (auto& q : regular(th)) { cases.push_back(q); cn.push_back("regular"); }
  if (reg) for (auto& q : lattice()) { cases.push_back(q); cn.push_back("lattice"); }
  if (lim) for (auto& q : limits(th)) { cases.push_back(q); cn.push_back("limits"); }
  if (lng) for (auto& q : longhist(th)) { cases.push_back(q); cn.push_back("long"); }
  if (!cases.empty()) W.push_back({"cases", cases.size(), [&](uint64_t i) { one(cn[i], cases[i].c, cases[i].text, &cases[i]); }});
  for (auto& pr : list) {
    static map<string, Camp> keep; if (!M.count(pr.first)) { fprintf(stderr, "no campaign %s\n", pr.first.c_str()); exit(3); } keep[pr.first] = M[pr.first]; const Camp* c = &keep[pr.first]; int d = (th ? c->dt : c->dq) + pr.second;
    W.push_back({pr.first, count(*c, d), [c](uint64_t i) { Cfg cfg; string t; render(*c, i, cfg, t); one(c->name, cfg, t); }});
    X.bounds[pr.first] = "all sequences of " + to_string(c->dmin) + ".." + to_string(d) + " of " + to_string(c->alpha.size()) + " events x " + to_string(c->cfgs.size()) + " configurations x " + to_string(c->eofs.size()) + " endings";
  }
  if (X.o.prop == "W21" || X.o.prop == "W12") { static int d; d = (th ? 4 : 3) - (X.o.prop == "W12"); uint64_t b = h21().size(), n = 0, p = 1; for (int k = 0; k <= d; k++, p *= b) n += p; W.push_back({"histories", n * sep21().size() * cf21().size(), [](uint64_t i) { int cf = i % cf21().size(); i /= cf21().size(); int sp = i % sep21().size(); i /= sep21().size(); uint64_t b = h21().size(), n = 1; vector<int> t; for (int k = 0; k <= d; k++, n *= b) { if (i < n) { for (int q = 0; q < k; q++) { t.push_back(i % b); i /= b; } break; } i -= n; } Case q = hist21(t, sp, cf); one("histories", q.c, q.text, &q); }});
    X.bounds["histories"] = "a regular arc after all sequences of up to " + to_string(d) + " of " + to_string(b) + " lines and runs, ended by one of " + to_string(sep21().size()) + " lines, x " + to_string(cf21().size()) + " configurations"; }
  if (!cases.empty()) X.bounds["products"] = to_string(cases.size()) + " full products of circle, limit, placement and precision parameters";
  explore(W); return 0;
}

// ---- W13: the same file under different environments
static bool cb_yes(arc_welder_progress, logger*, int) { return true; }
static logger* mk_logger(int level) { vector<string> n; n.push_back(ARC_WELDER_LOGGER_NAME); vector<int> lv; lv.push_back(level); logger* l = new logger(n, lv); l->set_log_level_by_value(level); return l; }
static string stat_str(const arc_welder_progress& p) {
  char b[600]; const source_target_segment_statistics* st[3] = {&p.segment_statistics, &p.segment_retraction_statistics, &p.travel_statistics}; string r;
  snprintf(b, sizeof b, "lines=%d gcodes=%d arcs=%d points=%d aborted=%d fw=%d len=%d src=%ld dst=%ld pct=%.9g", p.lines_processed, p.gcodes_processed, p.arcs_created, p.points_compressed, p.arcs_aborted_by_flow_rate, p.num_firmware_compensations, p.num_gcode_length_exceptions, p.source_file_size, p.target_file_size, p.percent_complete); r = b;
  for (auto s : st) { snprintf(b, sizeof b, " | %d %d %.9g %.9g", s->total_count_source, s->total_count_target, s->total_length_source, s->total_length_target); r += b; }
  return r;
}
static void w13(const string& camp, const Cfg& c, const string& text) {
  static map<int, logger*> lg; if (lg.empty()) for (int l : {(int)log_levels::NOSET, (int)log_levels::VERBOSE, (int)log_levels::DEBUG, (int)log_levels::INFO, (int)log_levels::ERROR, (int)log_levels::CRITICAL}) lg[l] = mk_logger(l);
  static const vector<string> pollute = {"G20\nG91\nG1 X1 Y1 E1\n", "M83\nG28\nG92 X5 Y5 E3\nM218 T1 X3 Y3\nT1\nG1 X1.1234567 Y2.1234567 E0.1234567 F777\n", "M83\nG1 X105 Y100 Z0.2 F1200\nG1 X104.951 Y100.696 E0.03\nG1 X104.806 Y101.378 E0.03\nG1 X104.568 Y102.034 E0.03 ; infill\nG1 X104.24 Y102.65 E0.03"};
  string rt = replay_text(c, text); X.begin(rt); X.inputs.insert(vf::hash_str(rt));
  string s = X.dir + "/s.gcode", t = X.dir + "/t.gcode"; vf::write_file(s, text);
  string ref, rstat; int nvar = 0;
  auto chk = [&](const string& what, bool ok, const string& out, const string& st) {
    X.add(X.c_exec); X.add(X.c_trans, 1); nvar++;
    if (!ok) { X.violation("env:" + what, "[" + camp + "] process() failed under " + what, rt); return; }
    if (out != ref) { auto a = ref::split(ref), b = ref::split(out); size_t k = 0; while (k < a.size() && k < b.size() && a[k] == b[k]) k++; X.violation("env:" + what, "[" + camp + "] output changes with " + what + " at line " + to_string(k + 1) + ": '" + (k < a.size() ? a[k] : "<end>") + "' becomes '" + (k < b.size() ? b[k] : "<end>") + "' | " + c.str(), rt); }
    else if (st != rstat) X.violation("stat:" + what, "[" + camp + "] statistics change with " + what + ": " + rstat + " becomes " + st, rt);
  };
  auto fresh = [&](Cfg k, logger* l, progress_callback cb, double period, bool inplace) {
    if (inplace) vf::write_file(t, text);
    arc_welder_args a = weld::make_args(k, inplace ? t : s, t, l); a.callback = cb; a.notification_period_seconds = period; arc_welder w(a); auto r = w.process(); return make_pair(r, vf::read_file(t));
  };
  { auto r = fresh(c, weld::quiet_logger(), cb_yes, 0.5, false); ref = r.second; rstat = stat_str(r.first.progress); X.add(X.c_exec); if (!r.first.success) X.violation("env:base", "process() failed", rt); X.outcomes.insert(vf::hash_str(ref)); X.states.insert(vf::hash_str(rstat)); if (ref.find("\nG2") != string::npos || ref.find("\nG3") != string::npos) X.sample(rt + "---- output ----\n" + ref); }
  for (auto& l : lg) { auto r = fresh(c, l.second, cb_yes, 0.5, false); chk("log level " + to_string(l.first), r.first.success, r.second, stat_str(r.first.progress)); }
  { auto r = fresh(c, lg[(int)log_levels::INFO], NULL, 0.5, false); chk("no callback", r.first.success, r.second, stat_str(r.first.progress)); }
  { auto r = fresh(c, weld::quiet_logger(), cb_yes, -1, false); chk("constant progress reports", r.first.success, r.second, stat_str(r.first.progress)); }
  { auto r = fresh(c, weld::quiet_logger(), cb_yes, 0.5, true); chk("in-place conversion", r.first.success, r.second, stat_str(r.first.progress)); }
  for (int b : {-3, 0, 1, 2, 3, 4, 7, 50}) { Cfg k = c; k.buf = b; auto r = fresh(k, weld::quiet_logger(), cb_yes, 0.5, false); chk("buffer size " + to_string(b), r.first.success, r.second, stat_str(r.first.progress)); }
  for (size_t q = 0; q < pollute.size(); q++) {
    vf::write_file(s, pollute[q]); arc_welder_args a = weld::make_args(c, s, t, weld::quiet_logger()); a.callback = cb_yes; arc_welder w(a); w.process(); vf::write_file(s, text);
    auto r = w.process(); chk("another file converted before by the same object (" + to_string(q) + ")", r.success, vf::read_file(t), stat_str(r.progress));
    auto r2 = w.process(); chk("a repeated conversion", r2.success, vf::read_file(t), stat_str(r2.progress));
    if (q == 0) { vf::write_file(t, text); arc_welder_args ai = weld::make_args(c, t, t, weld::quiet_logger()); ai.callback = cb_yes; arc_welder wi(ai); wi.process(); vf::write_file(t, text); auto r3 = wi.process(); chk("a repeated in-place conversion", r3.success, vf::read_file(t), stat_str(r3.progress)); }
  }
}
// ---- W16: every callback invocation at which the answer may be no
static int cb_refuse = -1, cb_calls = 0; static vector<arc_welder_progress> cb_seen;
static bool cb_sched(arc_welder_progress p, logger*, int) { cb_seen.push_back(p); return cb_calls++ != cb_refuse; }
static void w16(const Cfg& c, const string& text, const string& name, bool stats_only) {
  vector<string> L = ref::split(text);
  for (int inplace = 0; inplace < 2; inplace++) for (int refuse = -1; refuse < (stats_only ? 0 : 6); refuse++) {
    string rt = "#vf-weld " + c.str() + " refuse=" + to_string(refuse) + " inplace=" + to_string(inplace) + " " + name + "\n" + text; X.begin(rt); X.inputs.insert(vf::hash_str(rt));
    string d = X.dir + "/c"; mkdir(d.c_str(), 0700); string s = d + "/s.gcode", t = inplace ? s : d + "/t.gcode"; vf::write_file(s, text);
    cb_refuse = refuse; cb_calls = 0; cb_seen.clear(); arc_welder_args a = weld::make_args(c, s, t, weld::quiet_logger()); a.callback = cb_sched; a.notification_period_seconds = -1; arc_welder w(a); auto r = w.process();
    X.add(X.c_exec); X.add(X.c_trans, cb_seen.size()); int ncall = cb_calls; bool can = refuse >= 0 && refuse < ncall - 1; // the last report comes after the work is done
    string out = vf::read_file(t), src = vf::read_file(s); long last = 0; double lp = -1; string in = "[" + name + "] " + (inplace ? "in-place, " : "") + "refused at report " + to_string(refuse + 1) + " of " + to_string(ncall);
    for (auto& p : cb_seen) {
      if (p.lines_processed < last || !(p.percent_complete >= lp - 1e-9 && p.percent_complete >= 0 && p.percent_complete <= 100 + 1e-9)) X.violation("progress", in + ": progress goes back or leaves 0..100", rt);
      size_t pb = 0; long pg = 0; for (int i = 0; i < p.lines_processed && i < (int)L.size(); i++) { pb += L[i].size() + 1; pg += !L[i].empty() && L[i][0] != ';'; } pb = min(pb, text.size());
      if ((&p != &cb_seen.back() || can) && p.source_file_position != (long)pb) X.violation("progress", in + ": position " + to_string(p.source_file_position) + " after " + to_string(pb) + " bytes", rt);
      if (p.gcodes_processed != pg) X.violation("progress", in + ": " + to_string(p.gcodes_processed) + " gcodes of " + to_string(pg), rt);
      if (p.source_file_size != (long)text.size() || !(fabs(p.percent_complete - (text.empty() ? 100 : p.source_file_position * 100.0 / text.size())) <= 1e-6)) X.violation("progress", in + ": reports " + to_string(p.percent_complete) + " percent of " + to_string(p.source_file_size) + " bytes at " + to_string(p.source_file_position), rt);
      last = p.lines_processed; lp = p.percent_complete; X.states.insert(vf::mix(vf::mix(p.lines_processed, p.arcs_created), p.points_compressed)); }
    if (!cb_seen.empty() && fabs(cb_seen.back().percent_complete - 100) > 1e-9 && !can) X.violation("progress", in + ": the last report is not 100%", rt);
    if (!can) {
      if (refuse < 0 && (!r.success || r.cancelled)) X.violation("uncancelled", in + ": not refused but reported as cancelled or failed", rt);
    } else {
      if (!r.cancelled || r.success) X.violation("notcancelled", in + ": process() does not report cancelled", rt);
      if (src != text) X.violation("source", in + ": the source file was changed", rt);
      size_t n = cb_seen[refuse].lines_processed; if ((int)cb_seen.size() > refuse + 2) X.violation("goeson", in + ": reporting continues after the refusal", rt);
      if (!inplace) {
        string pre; for (size_t i = 0; i < n && i < L.size(); i++) pre += L[i] + "\n"; weld::Judge J; J.load(c, pre, out); J.judge(); for (auto& b : J.bad) X.violation("prefix-" + b.kind, in + ": the target is not a welding of the first " + to_string(n) + " lines: " + b.msg, rt);
        X.outcomes.insert(vf::mix(J.outcome, n));
      }
    }
    if (inplace) { string ls; FILE* f = popen(("ls -A '" + d + "'").c_str(), "r"); char b[4096]; size_t k = fread(b, 1, sizeof b, f); pclose(f); ls.assign(b, k); if (ls != "s.gcode\n") X.violation("leftover", in + ": files left behind: " + ls, rt); if (!can && src == text && !text.empty()) X.violation("inplace", in + ": the source was not replaced", rt); }
    else unlink(t.c_str());
    unlink(s.c_str());
    if (can && !inplace) X.sample(in + " -> target of " + to_string(out.size()) + " bytes for " + to_string(text.size()) + " bytes of source");
    if (refuse >= ncall) break;
  }
}
static vector<pair<Cfg, string>> cancel_texts(bool th) {
  vector<pair<Cfg, string>> r; MoveOpt trav = mo([](MoveOpt& o) { o.e = false; });
  for (int phase = 0; phase < (th ? 40 : 14); phase++) for (int kind = 0; kind < (th ? 6 : 4); kind++) for (int lines : th ? vector<int>{999, 1000, 1001, 2500, 4100} : vector<int>{1000, 1003, 2100}) {
    Cfg c; Gen g; g.line(kind % 2 ? "M82" : "M83"); g.line("G1 Z0.2 F600"); for (int i = 0; i < phase; i++) g.line("M105"); g.vert(0, 0, trav); int n = phase + 3;
    if (kind == 2) c.trav = true;
    if (kind == 3) c.d3 = true;
    for (; n < lines; n++) {
      int k = n % 13; MoveOpt o; if (kind == 2) o.e = false; if (kind == 3) { o.z = true; o.dz = 0.001; } if (kind == 4) o.comment = " ; c" + to_string(n % 3);
      if (k < 11) g.vert(9, 0, o); else if (k == 11 && kind == 5) g.line(""); else if (k == 11) { g.cx += 0.5; g.vert(37, 0, trav); } else g.line(kind ? "G1 E-0.5 F2400" : "; note"); }
    r.push_back({c, g.text}); if (phase < 2) { string q = g.text; q.pop_back(); r.push_back({c, q}); } }
  for (int lines : {0, 1, 2, 999, 1000, 1001, 2000, 3000}) for (int kind = 0; kind < 4; kind++) {   // reports on the very end of the file: with and without a final line end, blanks only, comments only
    string q; for (int i = 0; i < lines; i++) q += kind == 2 ? "\n" : kind == 3 ? ";c" + to_string(i) + "\n" : i < 2 ? (i ? "G1 Z0.2 F600\n" : "M83\n") : "G1 X" + to_string(i % 7) + " Y" + to_string(i % 5) + " E0.1\n"; if (!lines && kind) continue; if (lines && kind == 1) q.pop_back(); r.push_back({Cfg(), q}); }
  return r;
}
// ---- W18: the header
static void w18(const Cfg& c, const string& first, const string& eol, bool body, bool nofinal) {
  string text = first + eol; if (body) { Gen g; g.eol = eol; g.line("M83"); g.line("G1 Z0.2 F600"); g.vert(0, 0, mo([](MoveOpt& o) { o.e = false; })); g.line("G1 F1200"); for (int i = 0; i < 4; i++) g.vert(8); text += g.text; }
  if (nofinal) text.erase(text.size() - eol.size());
  string rt = replay_text(c, text); X.begin(rt); X.inputs.insert(vf::hash_str(rt)); weld::Run R = weld::run(X.dir, c, text); X.add(X.c_exec); X.add(X.c_trans, ref::split(R.out).size());
  auto V = [&](const string& k, const string& m) { X.violation(k, m + " | " + c.str() + " | first line '" + first + "'", rt); };
  if (text.empty()) { if (!R.out.empty() && R.out[0] != ';') V("empty", "output for an empty file"); return; }
  vector<string> o = ref::split(R.out); bool keep = first == ";FLAVOR:UltiGCode" || first.rfind("; generated by PrusaSlicer", 0) == 0; size_t i = 0;
  if (keep) { string want = first + (eol == "\r\n" && !(nofinal && !body) ? "\r" : ""); if (o.empty() || (o[0] != want && o[0] != first)) V("first", "the first line was not kept first"); i = 1; }
  vector<string> want; char b[200]; auto add = [&](const char* f, auto... a) { snprintf(b, sizeof b, f, a...); want.push_back(b); };
  add("; Postprocessed by [ArcWelder](https://github.com/FormerLurker/ArcWelderLib)"); add("; Copyright(C) *"); add("; Version: *");
  add("; resolution=%.2fmm", c.res); add("; path_tolerance=%.1f%%", c.tol * 100); add("; max_radius=%.2fmm", min(c.maxr, 9999.0));
  if (c.g90) add("; g90_influences_extruder=True");
  if (c.mmseg > 0 && c.minseg > 0) { add("; firmware_compensation=True"); add("; mm_per_arc_segment=%.2fmm", c.mmseg); add("; min_arc_segments=%d", c.minseg); }
  if (c.d3) add("; allow_3d_arcs=True");
  if (c.trav) add("; allow_travel_arcs=True");
  if (c.dyn) add("; allow_dynamic_precision=True");
  add("; default_xyz_precision=%d", c.xp); add("; default_e_precision=%d", c.ep); if (c.var > 0) add("; extrusion_rate_variance=%.1f%%", c.var * 100);
  want.push_back(""); uint64_t h = 1;
  for (size_t k = 0; k < want.size(); k++, i++) { h = vf::hash_str(want[k], h); string got = i < o.size() ? o[i] : "<end of file>"; bool star = !want[k].empty() && want[k].back() == '*'; if (star ? got.rfind(want[k].substr(0, want[k].size() - 1), 0) != 0 : got != want[k]) { V("header", "header line " + to_string(k + 1) + " is '" + got + "' instead of '" + want[k] + "'"); break; } }
  X.states.insert(h); X.outcomes.insert(vf::hash_str(R.out)); int n = 0; for (auto& l : o) n += l.rfind("; Postprocessed by", 0) == 0; if (n != 1) V("twice", "the header appears " + to_string(n) + " times");
  weld::Judge J; J.load(c, text, R.out); J.judge(); for (auto& k : J.bad) if (k.kind == "lines") V("lines", k.msg);
  if (keep) X.sample(rt + "---- output ----\n" + R.out);
}
// ---- W19: extreme inputs under the address and undefined-behaviour sanitizers
static void w19(const Cfg& c, const string& text, const string& what, bool loud = false) {
  string rt = replay_text(c, text); X.begin(rt.substr(0, vf::TXT - 1)); X.inputs.insert(vf::hash_str(rt)); weld::Run R = weld::run(X.dir, c, text, loud); X.add(X.c_exec); X.add(X.c_trans, ref::split(text).size());
  X.outcomes.insert(vf::hash_str(R.out)); X.states.insert(vf::hash_str(stat_str(R.res.progress))); if (!R.ok) X.violation("failed", "process() failed on " + what, rt);
  R.res.progress.str(); R.res.progress.detail_str(); X.sample(what + "\n" + rt.substr(0, 600));
}
static void run19() {
  bool th = X.o.thorough(); vector<Work> W; static vector<string> T; static vector<string> N; static vector<Cfg> C; auto put = [&](const Cfg& c, const string& t, const string& n) { C.push_back(c); T.push_back(t); N.push_back(n); };
  Cfg c; Cfg d; d.dyn = d.d3 = d.trav = true; d.var = 0;
  Gen g0; g0.line("M83"); g0.line("G1 Z0.2 F600"); g0.vert(0, 0, mo([](MoveOpt& o) { o.e = false; })); g0.line("G1 F1200"); for (int i = 0; i < 3; i++) g0.vert(8); string pre = g0.text; Gen g1 = g0; g1.text = ""; for (int i = 0; i < 4; i++) g1.vert(8); string post = g1.text;
  // every byte value at every position of typical lines
  for (string base : {"G1 X10.5 Y-2 E.1 ; c", "M218 T1 X2", "; perimeter", "G92 E0", "T1"}) for (size_t p = 0; p <= base.size(); p++) for (int b = 0; b < 256; b++) { string l = base; if (p < base.size()) l[p] = (char)b; else l += (char)b; put(c, pre + l + "\n" + post, "byte " + to_string(b) + " at " + to_string(p) + " of " + base); }
  // numbers
  vector<string> nums; for (string sgn : {"", "-", "+", "--"}) for (string m : {"0", "1", "9", "123456789", "2147483647", "2147483648", "4294967296", "9223372036854775808", "18446744073709551616", "99999999999999999999999999", ".", "", "1.", ".5", "0.000000000000000000000000000001", "1.23456789012345678901234567890", "1e5", "1.2.3", "nan", "inf"}) nums.push_back(sgn + m); nums.push_back(string(400, '9')); nums.push_back("0." + string(400, '3')); nums.push_back(string(40, '1') + "." + string(300, '7'));
  for (auto& n : nums) for (string cmd : {"G1 X", "G1 X101 Y101 E", "G1 Z", "G1 F", "G1 X101 F", "G92 X", "G92 E", "T", "G", "M", "M218 T", "M218 T1 X", "G10 P", "G10 P1 X", "G2 X1 I", "G2 R", "G28 X", "G1 X103 Y103 E0.1 X"}) for (auto& k : {c, d}) put(k, pre + cmd + n + "\n" + post, cmd + n.substr(0, 40));
  for (auto& n : nums) { string t = "G92 X" + n + " Y" + n + "\n"; for (auto& k : {c, d}) { put(k, pre + t + post, t); put(k, t + "M83\nG1 X" + n + " Y1 E" + n + "\nG1 X1 Y" + n + " E1\nG1 X2 Y2 E" + n + "\nG1 X3 Y1\n", "moves of " + n.substr(0, 40)); } }
  // lengths
  for (int len : {1, 2, 14, 15, 16, 17, 31, 32, 63, 64, 127, 128, 254, 255, 256, 257, 511, 512, 1023, 1024, 4095, 4096, 5000, 65536}) for (char ch : {'A', ' ', ';', '1', '.', '-', '\t', 'G', '\x80', 'X'}) { put(c, pre + string(len, ch) + "\n" + post, to_string(len) + " x " + ch); put(d, "G1 X1 ;" + string(len, ch), ""); put(d, "G1 X" + string(len, ch) + "\n", ""); if (len < 300) { string t = pre; for (int i = 0; i < 5; i++) { size_t q = post.find('\n'); (void)q; } t += "G1 X104.951 Y100.696 E0.03 ;" + string(len, ch) + "\nG1 X104.806 Y101.378 E0.03 ; z" + string(len, ch) + "\n"; put(c, t, "long comments"); } }
  // option values
  vector<double> ex = {0, -1, 1e-12, 1e-5, 0.01, 1, 1e6, 1e300, NAN, INFINITY, -INFINITY}; string body = pre + post + "G1 X50 Y50 Z3\n" + post;
  for (double v : ex) { Cfg k; k.res = v; put(k, body, "resolution"); k = Cfg(); k.tol = v; put(k, body, "tolerance"); k = Cfg(); k.maxr = v; put(k, body, "radius"); k = Cfg(); k.mmseg = v; k.minseg = 10; put(k, body, "mmseg"); k = Cfg(); k.var = v; put(k, body, "variance"); k = Cfg(); k.tol = v; k.res = v; k.maxr = v; put(k, body, "all"); }
  for (int v : {-1000, -1, 0, 1, 2, 3, 19, 20, 36, 60, 100, 100000}) { Cfg k; k.buf = v; put(k, body, "buffer"); k = Cfg(); k.maxlen = v; put(k, body, "length"); k = Cfg(); k.minseg = v; k.mmseg = 1; put(k, body, "segments"); }
  for (int v = 0; v < 256; v++) for (int w : {0, 3, 6, 255}) for (auto kk : {c, d}) { Cfg k = kk; k.xp = v; k.ep = w; put(k, body, "precision"); k.xp = w; k.ep = v; put(k, body, "precision"); if (!th && v > 40 && w) break; }
  // source precision with dynamic precision
  for (int xp = 0; xp < 40; xp++) for (int ep = 0; ep < 40; ep += 3) { Gen g = g0; g.xp = xp; g.ep = ep; for (int i = 0; i < 4; i++) g.vert(8); put(d, g.text, "source precision"); }
  for (int n : {3, 9, 10, 11, 99, 100, 101, 255, 256, 257, 998, 999, 1000, 1001}) { Gen g; g.R = n > 2000 ? 3000 : 300; g.cx = 5000; g.line("M83"); g.line("G1 Z0.2 F600"); g.vert(0, 0, mo([](MoveOpt& o) { o.e = false; })); g.line("G1 F1200"); for (int i = 0; i < n; i++) g.vert(340.0 / max(n, 300)); for (auto& k : {c, d}) for (int twice = 0; twice < 2; twice++) put(k, g.text, "run of " + to_string(n)); }
  W.push_back({"list", T.size(), [&](uint64_t i) { w19(C[i], T[i], N[i], i & 1); }});
  // all short lines over an alphabet
  static const string A = th ? string("GMTXYEF;09.- \tz\x80\0\rN*", 19) : string("GMTXE;09.- \tz\x80\0\r", 16); int n = A.size(); static int depth; depth = th ? 5 : 4; uint64_t tot = 0, p = 1; for (int k = 0; k <= depth; k++) { tot += p; p *= n; } static string P, Q; P = pre; Q = post;
  static const Cfg cc = c; W.push_back({"short", (tot + 39) / 40, [=](uint64_t blk) { string t = P; for (uint64_t i = blk * 40; i < min(tot, blk * 40 + 40); i++) { uint64_t x = i, k = 1, len = 0; while (x >= k) { x -= k; k *= n; len++; } for (uint64_t q = 0; q < len; q++) { t += A[x % n]; x /= n; } t += "\n"; } w19(cc, t + Q, "short lines"); }});
  static map<string, Camp> M = camps(); for (auto& q : vector<pair<string, int>>{{"kinds", th ? 5 : 4}, {"modes", th ? 3 : 2}, {"chain", th ? 4 : 3}, {"zprofile", th ? 5 : 4}, {"comments", th ? 5 : 3}, {"drift", th ? 7 : 5}, {"unknown", 3}}) {
    const Camp* cp = &M[q.first]; for (int buf : {2, 10}) W.push_back({q.first, count(*cp, q.second), [cp, buf](uint64_t i) { Cfg k; string t; render(*cp, i, k, t); k.buf = buf; w19(k, t, cp->name, buf == 2); }}); X.bounds[q.first] = "all sequences of up to " + to_string(q.second) + " of " + to_string(cp->alpha.size()) + " events, buffers of 2 and 10"; }
  static auto lt = cancel_texts(false); W.push_back({"long", lt.size() * 3, [](uint64_t i) { Cfg k = lt[i / 3].first; k.buf = i % 3 == 0 ? 2 : i % 3 == 1 ? 3 : 40; w19(k, lt[i / 3].second, "long", i % 3 == 1); }});
  static auto lh = longhist(th); W.push_back({"longhist", lh.size(), [](uint64_t i) { w19(lh[i].c, lh[i].text, "long history"); }});
  X.bounds["list"] = to_string(T.size()) + " files: every byte at every position, number shapes, lengths, option values, precisions"; X.bounds["short"] = "all lines of length 0.." + to_string(depth) + " over " + to_string(n) + " bytes, 40 per file";
  explore(W);
  // missing files and empty files
  for (int k = 0; k < 4; k++) { X.begin("#missing " + to_string(k)); arc_welder_args a = weld::make_args(c, k == 0 ? X.dir + "/nope" : k == 1 ? "" : X.dir + "/e.gcode", k == 2 ? X.dir + "/no/such/dir/t" : k == 3 ? "" : X.dir + "/t", weld::quiet_logger()); vf::write_file(X.dir + "/e.gcode", ""); a.callback = cb_yes; arc_welder w(a); auto r = w.process(); if (r.success) X.violation("missing", "conversion of a missing or to an impossible file reports success", "#missing " + to_string(k)); }
}
int main_(int argc, char** argv) {
  auto o = vf::parse_opts(argc, argv); X.init(o); c_arcs = X.ctr("arcs_generated"); c_moves = X.ctr("moves_welded"); c_unal = X.ctr("unaligned_outputs"); want = kinds_of(o.prop);
  string p = o.prop; bool th = o.thorough();
  if (!o.replay.empty()) {
    string t = vf::read_file(o.replay); size_t n = t.find('\n'); string h = t.substr(0, n); Cfg c = Cfg::parse(h); string src = t.substr(n + 1);
    weld::Run R = weld::run(X.dir, c, src); printf("%s\n---- output\n%s----\n", c.str().c_str(), R.out.c_str()); int bad = 0;
    if (p == "W13") w13("replay", c, src); else if (p == "W16") w16(c, src, "replay", false); else if (p == "W18") { size_t q = src.find('\n'); string f = src.substr(0, q); bool cr = !f.empty() && f.back() == '\r'; if (cr) f.pop_back(); w18(c, f, cr ? "\r\n" : "\n", q != string::npos && q + 1 < src.size(), q == string::npos); }
    else { Judge J; J.load(c, src, R.out); J.judge(); J.stats(R.res.progress, src.size(), R.out.size(), R.res.progress.gcodes_processed); for (auto& b : J.bad) { bool mine = want.empty() || want.count(b.kind); printf("%s %s: %s\n", mine ? "BAD" : "(other property)", b.kind.c_str(), b.msg.c_str()); bad += mine; } }
    for (int i = 0; i < X.sh->nviol.load(); i++) { printf("BAD %s: %s\n", X.sh->v[i].sig, X.sh->v[i].msg); bad++; }
    if (p == "W21") { one("replay", c, src); }
    X.cleanup(); return bad ? 1 : 0;
  }
  if (p == "W13") {
    vector<Work> W; static map<string, Camp> M = camps(); for (auto& q : vector<pair<string, int>>{{"kinds", th ? 5 : 4}, {"modes", th ? 3 : 2}, {"lexical", 2}, {"zprofile", th ? 5 : 4}, {"chain", 3}, {"precision", th ? 4 : 3}, {"comments", th ? 5 : 4}, {"unknown", 3}, {"drift", th ? 7 : 5}, {"inch", 3}, {"rates", 3}}) {
      const Camp* c = &M[q.first]; W.push_back({q.first, count(*c, q.second), [c](uint64_t i) { Cfg k; string t; render(*c, i, k, t); w13(c->name, k, t); }}); X.bounds[q.first] = "all sequences of up to " + to_string(q.second) + " of " + to_string(c->alpha.size()) + " events, each under 23 environments"; }
    static auto lt = cancel_texts(false); W.push_back({"long", lt.size(), [](uint64_t i) { w13("long", lt[i].first, lt[i].second); }});
    explore(W); return X.finish("every enumerated text is converted under all log levels, callback modes, buffer sizes, in place, repeatedly and after other files; outputs and statistics must be identical");
  }
  if (p == "W16") {
    static auto lt = cancel_texts(th); explore({{"long", lt.size(), [](uint64_t i) { w16(lt[i].first, lt[i].second, "text " + to_string(i), false); }}});
    X.bounds["texts"] = to_string(lt.size()) + " files placing every phase of an arc at the reporting points, refusing at every report, to a target and in place"; return X.finish("for each file the progress callback refuses at each of its invocations; result, source, target and directory are checked");
  }
  if (p == "W18") {
    static vector<Cfg> K; for (int m = 0; m < 64; m++) for (int v = 0; v < 3; v++) { Cfg c; c.g90 = m & 1; c.d3 = m & 2; c.trav = m & 4; c.dyn = m & 8; if (m & 16) c.mmseg = 0.5 + v; if (m & 32) c.minseg = 12 + v; c.var = v == 0 ? 0 : v == 1 ? 0.05 : 0.255; c.res = v == 0 ? 0.05 : v == 1 ? 0.13 : 1.2; c.tol = v == 2 ? 0.125 : 0.05; c.maxr = v == 1 ? 12345 : v == 2 ? 77.25 : 9999; c.xp = 3 + v; c.ep = 5 - v % 2; K.push_back(c); }
    for (double v : {0.0001, 0.0007, 0.001, 0.25, 1.0, 9.5}) for (double r : {0.004, 0.05, 25.0}) for (double t : {0.0004, 0.01, 0.5}) for (double mr : {0.5, 9999.0, 1e6}) { Cfg c; c.var = v; c.res = r; c.tol = t; c.maxr = mr; K.push_back(c); }
    for (double ms : {0.0, 0.004, 0.05, 1.0, 30.0}) for (int mn : {0, 1, 2, 14, 255, 1000}) for (int xp : {3, 6}) for (int ep : {3, 6}) { Cfg c; c.mmseg = ms; c.minseg = mn; c.xp = xp; c.ep = ep; K.push_back(c); }
    static vector<string> F = {";FLAVOR:UltiGCode", "; generated by PrusaSlicer 2.3.0+x64 on 2021", "; generated by PrusaSlicer", ";FLAVOR:Marlin", "G28", "", ";FLAVOR:UltiGCode ", " ;FLAVOR:UltiGCode", "; generated by Slic3r", ";flavor:ultigcode", "G1 X100 Y100 F1200", "; Postprocessed", "M82 ;FLAVOR:UltiGCode", ";generated by PrusaSlicer", "T0", "M83 ; generated by PrusaSlicer 2.3", "G91;; generated by PrusaSlicer"};
    explore({{"hdr", K.size() * F.size() * 8, [](uint64_t i) { const Cfg& c = K[i % K.size()]; i /= K.size(); const string& f = F[i % F.size()]; i /= F.size(); w18(c, f, i & 1 ? "\r\n" : "\n", i & 2, i & 4); }}});
    X.bounds["product"] = to_string(K.size()) + " option combinations x " + to_string(F.size()) + " first lines x line endings x with and without a body x with and without a final line end"; return X.finish("the complete header is predicted from the options and compared with the real output");
  }
  if (p == "W12") {   // a change of rate within the variance never prevents an arc
    static map<string, Camp> M = camps(); int d = th ? 6 : 5; vector<Work> W; static int c_same = X.ctr("compared_with_uniform_rate");
    for (const Camp* c : {&M["rates"], &M["wipes"]}) { W.push_back({c->name + "-within", count(*c, d), [c](uint64_t i) { Cfg k, k2; string t, u; vector<double> rt; render(*c, i, k, t, nullptr, false, &rt); for (size_t q = 1; q < rt.size(); q++) if (rt[q] * rt[q - 1] < 0 || k.var > 0 && rt[q] * rt[q - 1] > 0 && fabs((rt[q] - rt[q - 1]) / rt[q - 1]) > k.var - 0.001) return;
      render(*c, i, k2, u, nullptr, true); if (u == t) return; string r = replay_text(k, t); X.begin(r); weld::Run A = weld::run(X.dir, k, t), B = weld::run(X.dir, k, u); Judge J, K; J.load(k, t, A.out); J.judge(); K.load(k, u, B.out); K.judge(); X.add(X.c_exec, 2); X.add(c_same); X.add(X.c_trans, J.s.size()); bool same = J.arcs.size() == K.arcs.size(); for (size_t q = 0; same && q < J.arcs.size(); q++) same = J.arcs[q].i == K.arcs[q].i && J.arcs[q].k == K.arcs[q].k;
      if (!same) X.violation("prevented", "a change of the extrusion rate within the variance changes what is welded: " + to_string(J.arcs.size()) + " arcs, " + to_string(K.arcs.size()) + " with a constant rate | " + k.str(), r); }});
    X.bounds[c->name + "-within"] = "all sequences of up to " + to_string(d) + " of " + to_string(c->alpha.size()) + " events whose rate changes stay within the variance, compared with the same path at a constant rate"; } explore(W);
  }
  if (p == "W19") { run19(); return X.finish("every enumerated file is converted by the real arc_welder built with AddressSanitizer and UndefinedBehaviorSanitizer; crashes, reports and hangs are violations"); }
  vector<pair<string, int>> all; for (auto& k : camps()) if (k.second.cfgs.size()) all.push_back({k.first, -1});
  struct PL { vector<pair<string, int>> l; bool reg, lim, lng; };
  map<string, PL> P = {{"ALL", {all, true, true, true}},
    {"W01", {{{"first", 0}, {"lexical", 0}, {"comments", 0}, {"features", 0}, {"modes", 0}, {"kinds", -1}, {"unknown", -1}}, false, false, false}},
    {"W02", {{{"geometry", 0}, {"drift", 0}, {"turns", 0}, {"zprofile", -1}, {"inch", -1}, {"modes", -1}}, true, true, false}}, {"W03", {{{"geometry", 0}, {"drift", 0}, {"turns", 0}, {"zprofile", 0}}, true, true, false}},
    {"W04", {{{"first", 0}, {"kinds-abs", 0}, {"kinds", -1}, {"modes", 0}, {"modes-mid", -1}, {"chain", 0}, {"precision", 0}}, false, false, true}}, {"W05", {{{"first", 0}, {"chain", 0}, {"modes", 0}, {"kinds", 0}, {"feeds", 0}, {"zprofile", 0}, {"vase", 0}, {"unknown", 0}}, false, true, true}},
    {"W06", {{{"kinds", 0}, {"kinds-run", 0}, {"kinds-abs", 0}}, false, false, false}}, {"W07", {{{"modes", 0}, {"unknown", 0}, {"features", 1}, {"inch", 1}, {"kinds", -1}, {"feeds", 1}, {"modes-mid", 1}}, false, false, false}},
    {"W08", {{{"precision", 0}, {"geometry", 0}, {"zprofile", 0}, {"turns", 0}}, false, true, false}}, {"W09", {{{"precision", 0}, {"chain", 0}, {"geometry", -1}}, false, true, true}}, {"W10", {{{"turns", 1}, {"geometry", 0}}, false, true, false}},
    {"W11", {{{"zprofile", 1}, {"vase", 2}}, false, true, true}}, {"W12", {{{"rates", 0}, {"wipes", 0}, {"kinds", -1}, {"kinds-run", 0}}, false, false, false}}, {"W14", {{{"first", 0}, {"comments", 0}, {"lexical", 0}, {"features", 0}}, false, false, false}},
    {"W15", {{{"kinds", 0}, {"chain", 0}, {"modes", -1}, {"lexical", 0}, {"comments", -1}, {"zprofile", -1}, {"unknown", -1}}, true, true, true}}, {"W20", {{{"modes-mid", 1}, {"modes", 1}, {"unknown", 1}}, false, false, false}}, {"W21", {{}, true, false, false}}};
  if (!P.count(p)) { fprintf(stderr, "no such property here: %s\n", p.c_str()); return 3; }
  if (p == "W15") { static auto lt = cancel_texts(th); explore({{"reports", lt.size(), [](uint64_t i) { w16(lt[i].first, lt[i].second, "text " + to_string(i), true); }}}); X.bounds["reports"] = to_string(lt.size()) + " files of several thousand lines: every progress report against the prefix read so far"; }
  auto& q = P[p]; generic(q.l, q.reg, q.lim, q.lng);
  return X.finish("every enumerated text is converted by the real arc_welder and compared line by line and state by state with the reference interpreter");
}
}  // namespace app
int main(int argc, char** argv) { return app::main_(argc, argv); }
