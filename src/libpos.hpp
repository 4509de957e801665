// L04 (tracker against a reference interpreter), L05 (undo), L10 (utilities) and main of lib.cpp
#pragma once
#include <sys/stat.h>
namespace app {
struct TC { bool g90 = false, shared = false, zero = true; string xm = "absolute", em = "absolute", un = "millimeters"; bool hn = true; int next = 2, def = 0; bool fw = false; double ret = 1, zlift = 0.2, prime = 0, minl = 0; int hinc = 0; int bound = 0, buf = 10;
  string str() const { char b[300]; snprintf(b, 300, "%d %d %d %s %s %s %d %d %d %d %g %g %g %g %d %d %d", g90, shared, zero, xm.c_str(), em.c_str(), un.c_str(), hn, next, def, fw, ret, zlift, prime, minl, hinc, bound, buf); return b; }
  static TC parse(std::istream& i) { TC c; i >> c.g90 >> c.shared >> c.zero >> c.xm >> c.em >> c.un >> c.hn >> c.next >> c.def >> c.fw >> c.ret >> c.zlift >> c.prime >> c.minl >> c.hinc >> c.bound >> c.buf; return c; }
  gcode_position_args args() const { gcode_position_args a; a.position_buffer_size = buf; a.g90_influences_extruder = g90; a.shared_extruder = shared; a.zero_based_extruder = zero; a.xyz_axis_default_mode = xm; a.e_axis_default_mode = em; a.units_default = un; a.home_x_none = a.home_y_none = a.home_z_none = hn; a.home_x = 1; a.home_y = 2; a.home_z = 3; a.set_num_extruders(next); a.default_extruder = def;
    for (int i = 0; i < next; i++) { a.retraction_lengths[i] = ret; a.z_lift_heights[i] = zlift; a.x_firmware_offsets[i] = fw ? i * 10 + 1 : 0; a.y_firmware_offsets[i] = fw ? -i * 5 : 0; }
    a.priming_height = prime; a.minimum_layer_height = minl; a.height_increment = hinc; a.is_bound_ = bound != 0; a.is_circular_bed = bound == 2; a.snapshot_x_min = a.snapshot_y_min = a.snapshot_z_min = 0; a.snapshot_x_max = a.snapshot_y_max = a.snapshot_z_max = 2.5; return a; } };
struct RX { double e = 0, eo = 0, de = 0, total = 0, retr = 0, ext = 0, der = 0, fw[3] = {0, 0, 0}; bool extruding = false, start = false, retracting = false, primed = false, retracted = false, partial = false, deretracted = false; };
const double TOL = 5e-6;
bool gt(double a, double b) { return a > b && fabs(a - b) >= TOL; } bool ge(double a, double b) { return a > b || fabs(a - b) < TOL; } bool lt(double a, double b) { return gt(b, a); } bool zero(double a) { return fabs(a) < TOL; }
struct RT {   // the reference interpreter
  TC c; double p[3] = {0, 0, 0}, off[3] = {0, 0, 0}, fw[3] = {0, 0, 0}, zrel = 0, f = 0; bool known[3] = {}, homed[3] = {}, fknown = false, rel = false, relk = false, erel = false, erelk = false, metric = true, metk = false, definite = false, changed = false, xychanged = false, xytravel = false, xyztravel = false; int tool; vector<RX> x;
  bool primed = false, layerchange = false, lastnull = true, inb = true, incchange = false, zhop = false; double last = 0, height = 0; int layer = 0, inc = 0, inccount = 0;
  RT(const TC& k) : c(k) { tool = std::max(0, std::min(k.def, k.next - 1)); x.resize(k.next); for (int i = 0; i < k.next; i++) if (k.fw && !k.shared) { x[i].fw[0] = i * 10 + 1; x[i].fw[1] = -i * 5; }
    if (c.xm == "relative" || c.xm == "force-relative") { rel = true; relk = true; } else if (c.xm == "absolute" || c.xm == "force-absolute") relk = true;
    if (c.em == "relative" || c.em == "force-relative") { erel = true; erelk = true; } else if (c.em == "absolute" || c.em == "force-absolute") erelk = true;
    if (c.un == "inches") { metric = false; metk = true; } else if (c.un == "millimeters") metk = true; }
  int clamp(int t) const { if (!c.zero) t--; return t < 0 ? 0 : t >= c.next ? c.next - 1 : t; }
  void step(const RefLine& L) {
    RT o = *this; changed = false; xytravel = xyztravel = layerchange = incchange = false; x[tool].de = 0; zrel = 0; if (!L.known) return;
    auto get = [&](const char* n) -> const RP* { const RP* r = nullptr; for (auto& q : L.par) if (q.name == n) r = &q; return r; }; auto val = [&](const char* n, double& v) { auto q = get(n); if (q) v = q->type == 'F' ? q->v : 0; return q != nullptr; };
    double v[5]; bool h[5]; const char* nm[5] = {"X", "Y", "Z", "E", "F"}; for (int i = 0; i < 5; i++) h[i] = val(nm[i], v[i]);
    static const std::set<string> handled = {"G0","G1","G2","G3","G10","G11","G20","G21","G28","G29","G80","G90","G91","G92","M82","M83","M207","M208","M218","M563","T"};
    if (!handled.count(L.cmd)) return; const string& m = L.cmd;
    if (m == "G0" || m == "G1" || m == "G2" || m == "G3") {
      if (!h[3]) { if (h[2]) xyztravel = h[0] || h[1]; else xytravel = h[0] || h[1]; }
      if (h[4]) { f = v[4]; fknown = true; }
      if (relk) for (int a = 0; a < 3; a++) if (h[a]) { if (rel) { if (known[a]) p[a] += v[a]; } else { fw[a] = x[tool].fw[a]; p[a] = v[a] + off[a] - fw[a]; known[a] = true; } }
      if (h[3] && erelk) { if (erel) x[tool].e += v[3]; else x[tool].e = v[3] + x[tool].eo; } }
    else if (m == "G90" || m == "G91") { rel = m == "G91"; relk = true; if (c.g90) { erel = rel; erelk = true; } }
    else if (m == "M82" || m == "M83") { erel = m == "M83"; erelk = true; }
    else if (m == "G20" || m == "G21") { metric = m == "G21"; metk = true; }
    else if (m == "G28") { bool all = !h[0] && !h[1] && !h[2]; for (int a = 0; a < 3; a++) if (all || h[a]) { homed[a] = true; if (c.hn) known[a] = false; else { p[a] = a + 1; known[a] = true; } } }
    else if (m == "G29" || m == "G80") { for (int a = 0; a < 3; a++) known[a] = false; }
    else if (m == "G92") { bool o2 = get("O") != nullptr; if (o2) homed[0] = homed[1] = homed[2] = true; bool any = h[0] || h[1] || h[2] || h[3];
      if (!any && !o2) { for (int a = 0; a < 3; a++) if (known[a]) off[a] = p[a] + fw[a]; x[tool].eo = x[tool].e; }
      for (int a = 0; a < 3; a++) if (h[a]) { if (known[a] && homed[a]) off[a] = p[a] - v[a] + fw[a]; else { p[a] = v[a] - fw[a]; off[a] = 0; known[a] = true; } }
      if (h[3]) x[tool].eo = x[tool].e - v[3]; }
    else if (m == "G10" || m == "M218") { auto q = get(m == "G10" ? "P" : "T"); if (q && q->type == 'F') { int t = clamp((int)floor(q->v + 0.5)); for (int a = 0; a < 3; a++) { auto w = get(nm[a]); if (w && w->type == 'F') x[t].fw[a] = w->v; } } }
    else if (m == "T") { if (L.par.size() && L.par[0].type == 'U') tool = clamp((int)L.par[0].u); }
    RX &n = x[tool], &b = o.x[tool]; n.de = n.e - b.e; zrel = p[2] - o.p[2];
    xychanged = !(fabs(p[0] - o.p[0]) < TOL) || !(fabs(p[1] - o.p[1]) < TOL); changed = xychanged || !(fabs(p[2] - o.p[2]) < TOL) || !zero(n.de) || known[0] != o.known[0] || known[1] != o.known[1] || known[2] != o.known[2];
    if (!definite) definite = metric && metk && known[0] && known[1] && known[2] && relk && erelk;
    if (!changed) return;
    n.total += n.de; double r = b.retr - n.de; if (r < TOL) { n.ext = -r; n.retr = 0; } else { n.ext = 0; n.retr = r; }
    n.der = gt(b.retr, n.retr) ? b.retr - n.retr : 0; bool same = tool == o.tool;
    n.extruding = same && gt(n.ext, 0); n.start = n.extruding && !b.extruding; n.retracting = same && gt(n.retr, b.retr); n.primed = zero(n.ext) && zero(n.retr); n.partial = gt(n.retr, 0) && lt(n.retr, c.ret); n.retracted = ge(n.retr, c.ret); n.deretracted = gt(b.retr, 0) && zero(n.retr);
    bool in = true; if (c.bound == 1) { for (int a = 0; a < 3; a++) in = in && !lt(p[a], 0) && !gt(p[a], 2.5); inb = in; } else if (c.bound == 2) { in = !gt(sqrt(p[0] * p[0] + p[1] * p[1]), 2.5); inb = in; }
    if (gt(p[2], last) && known[2]) { if (n.extruding || (layer > 0 && n.deretracted)) { if (!primed && (!gt(c.prime, 0) || lt(p[2], c.prime))) primed = true;
        if (primed && in) { last = p[2]; lastnull = false; if (ge(p[2], o.height + c.minl)) { height = p[2]; layerchange = true; layer++; if (c.hinc) { int k = (int)(height / c.hinc + TOL); if (k > inc && k > 1) { inc = k; incchange = true; inccount++; } } } } }
      zhop = !(n.extruding || lastnull) && ge(p[2] - last, c.zlift); }
  }
  uint64_t hash() const { uint64_t h = tool; for (int a = 0; a < 3; a++) { h = vf::hash_d(h, p[a]); h = vf::hash_d(h, off[a]); h = vf::hash_d(h, fw[a]); h = mix(h, known[a] * 2 + homed[a]); } h = vf::hash_d(h, f); h = mix(h, rel + 2 * relk + 4 * erel + 8 * erelk + 16 * metric + 32 * metk + 64 * definite); for (auto& e : x) { h = vf::hash_d(h, e.e); h = vf::hash_d(h, e.eo); h = vf::hash_d(h, e.retr); h = mix(h, e.extruding + 2 * e.retracting); } return vf::hash_d(mix(h, layer), height); }
};
string cmp(position& q, const RT& r, bool handled) {
  auto N = [](const char* n, double a, double b) { return string(n) + " is " + num(a) + ", expected " + num(b); }; auto D = [](double a, double b) { return !(fabs(a - b) <= 1e-9 + 1e-12 * fabs(b)); };
#define CN(n, a, b) if (D(a, b)) return N(n, a, b)
#define CB(n, a, b) if ((int)(a) != (int)(b)) return N(n, a, b)
  CB("x known", !q.x_null, r.known[0]); CB("y known", !q.y_null, r.known[1]); CB("z known", !q.z_null, r.known[2]);
  CN("x", q.x, r.p[0]); CN("y", q.y, r.p[1]); CN("z", q.z, r.p[2]); CN("x offset", q.x_offset, r.off[0]); CN("y offset", q.y_offset, r.off[1]); CN("z offset", q.z_offset, r.off[2]);
  CN("x firmware offset", q.x_firmware_offset, r.fw[0]); CN("y firmware offset", q.y_firmware_offset, r.fw[1]); CN("z firmware offset", q.z_firmware_offset, r.fw[2]);
  CN("gcode x", q.get_gcode_x(), r.p[0] - r.off[0] + r.fw[0]); CN("gcode y", q.get_gcode_y(), r.p[1] - r.off[1] + r.fw[1]); CN("gcode z", q.get_gcode_z(), r.p[2] - r.off[2] + r.fw[2]);
  CB("x homed", q.x_homed, r.homed[0]); CB("y homed", q.y_homed, r.homed[1]); CB("z homed", q.z_homed, r.homed[2]);
  CN("f", q.f, r.f); CB("f known", !q.f_null, r.fknown); CB("relative", q.is_relative, r.rel); CB("relative known", !q.is_relative_null, r.relk); CB("extruder relative", q.is_extruder_relative, r.erel); CB("extruder mode known", !q.is_extruder_relative_null, r.erelk);
  CB("metric", q.is_metric, r.metric); CB("unit known", !q.is_metric_null, r.metk); CB("tool", q.current_tool, r.tool); CB("definite", q.has_definite_position, r.definite); CN("z relative", q.z_relative, r.zrel);
  CB("position changed", q.has_position_changed, r.changed); if (handled) CB("xy changed", q.has_xy_position_changed, r.xychanged); CB("xy travel", q.is_xy_travel, r.xytravel); CB("xyz travel", q.is_xyz_travel, r.xyztravel); CB("is_travel", q.is_travel(), r.xytravel || r.xyztravel);
  CB("number of extruders", q.num_extruders, (int)r.x.size());
  for (int i = 0; i < (int)r.x.size(); i++) { extruder& e = q.get_extruder(i); const RX& x = r.x[i]; CN("e", e.e, x.e); CN("e offset", e.e_offset, x.eo); CN("offset e", e.get_offset_e(), x.e - x.eo); CN("extruder fw x", e.x_firmware_offset, x.fw[0]); CN("extruder fw y", e.y_firmware_offset, x.fw[1]); CN("extruder fw z", e.z_firmware_offset, x.fw[2]); CN("extrusion total", e.extrusion_length_total, x.total);
    CN("retraction length", e.retraction_length, x.retr); CN("extrusion length", e.extrusion_length, x.ext); CN("deretraction length", e.deretraction_length, x.der); CB("extruding", e.is_extruding, x.extruding); CB("extruding start", e.is_extruding_start, x.start); CB("retracting", e.is_retracting, x.retracting); CB("primed", e.is_primed, x.primed); CB("retracted", e.is_retracted, x.retracted); CB("partially retracted", e.is_partially_retracted, x.partial); CB("deretracted", e.is_deretracted, x.deretracted); }
  CN("relative e", q.get_current_extruder().e_relative, r.x[r.tool].de);
  CB("layer", q.layer, r.layer); CN("height", q.height, r.height); CN("last extrusion height", q.last_extrusion_height, r.last); CB("layer change", q.is_layer_change, r.layerchange); CB("printer primed", q.is_printer_primed, r.primed); CB("in bounds", q.is_in_bounds, r.inb); CB("height increment", q.height_increment, r.inc); CB("increment count", q.height_increment_change_count, r.inccount); CB("increment change", q.is_height_increment_change, r.incchange); CB("zhop", q.is_zhop, r.zhop);
  return "";
}
const vector<string>& al04() { static vector<string> a = {"G1 X1 Y2", "G1 X3", "G0 Y-1.5", "G1 Z0.3", "G1 Z5 F300", "G1 X1 Y1 E1", "G1 E2", "G1 E-1", "G1 X2 E0.5", "G1 E-0.4", "G1 F1800", "G1 X0 Y0 Z0 E0 F0", "G2 X2 Y0 I1 J0 E3", "G3 X1 Y1 Z1 R2", "G28", "G28 X", "G28 X Y", "G28 Z0", "G29", "G80 X1", "G90", "G91", "M82", "M83", "G92", "G92 X5", "G92 Y1 Z1", "G92 E0", "G92 X1 E5", "G92 O", "G20", "G21", "G10", "G10 P1 X1 Y2", "G10 P0 Z1", "M218 T1 X10 Y5 Z.5", "M218 X3", "M218 T1 Y4", "M218 T0 Z2", "G10 P1 Y3", "T0", "T1", "T5", "TX", "M104 S200", "M999 X1", "; c", "G1", "G1 X1 Y1 Z1 E1", "G2 X2 I1 Z2", "M563 P0"}; return a; }
void l04(const TC& c, const vector<int>& seq, const vector<string>* prefix = nullptr) {
  string rp = "tracker " + c.str() + "\n"; vector<string> cs; if (prefix) cs = *prefix; for (int k : seq) cs.push_back(al04()[k]); for (auto& s : cs) rp += s + "\n"; X.begin(rp);
  static gcode_parser P; static std::map<string, std::pair<parsed_command, RefLine>> memo; gcode_position g(c.args()); RT r(c); int n = 0;
  for (auto& s : cs) { n++; auto it = memo.find(s); if (it == memo.end()) it = memo.emplace(s, std::make_pair(P.parse_gcode(s.c_str()), refparse(s))).first;
    g.update(it->second.first, n, n + 100, n * 10); r.step(it->second.second); position& q = *g.get_current_position_ptr(); X.add(X.c_trans);
    bool handled = it->second.second.known && it->second.second.cmd[0] != 'M' ; if (it->second.second.cmd == "M104" || it->second.second.cmd == "M999") handled = false;
    string e = cmp(q, r, handled); if (e.empty() && (q.file_line_number != n || q.gcode_number != n + 100 || q.file_position != n * 10)) e = "line numbers not recorded";
    if (!e.empty()) { string m; for (int k = 0; k < n; k++) m += " | " + cs[k]; return fail("tracker-" + e.substr(0, e.find(" is ")), e + " after" + m + " (config " + c.str() + ")", rp); } }
  X.add(X.c_exec); X.states.insert(r.hash()); X.inputs.insert(hash_str(rp)); X.outcomes.insert(r.hash());
}
vector<TC> cfg04() { vector<TC> v; TC d; v.push_back(d); auto add = [&](std::function<void(TC&)> f) { TC c; f(c); v.push_back(c); };
  add([](TC& c) { c.g90 = true; }); add([](TC& c) { c.em = "relative"; }); add([](TC& c) { c.xm = "relative"; }); add([](TC& c) { c.xm = "require-explicit"; c.em = "require-explicit"; c.un = "require-explicit"; }); add([](TC& c) { c.xm = "force-relative"; c.em = "force-relative"; c.un = "inches"; }); add([](TC& c) { c.xm = "force-absolute"; c.em = "force-absolute"; });
  add([](TC& c) { c.hn = false; }); add([](TC& c) { c.hn = false; c.g90 = true; c.fw = true; }); add([](TC& c) { c.fw = true; c.next = 3; }); add([](TC& c) { c.zero = false; c.fw = true; }); add([](TC& c) { c.next = 1; c.shared = true; }); add([](TC& c) { c.def = 1; c.fw = true; c.hn = false; }); add([](TC& c) { c.def = 9; }); add([](TC& c) { c.def = -3; });
  add([](TC& c) { c.ret = 0.4; c.zlift = 1; }); add([](TC& c) { c.prime = 0.5; }); add([](TC& c) { c.minl = 1; c.hinc = 1; c.hn = false; }); add([](TC& c) { c.bound = 1; c.hn = false; }); add([](TC& c) { c.bound = 2; c.em = "relative"; }); add([](TC& c) { c.buf = 2; }); add([](TC& c) { c.buf = 3; c.hinc = 2; }); add([](TC& c) { c.g90 = true; c.em = "require-explicit"; c.xm = "relative"; }); return v; }
int run04() { vector<Work> W; static vector<TC> K = cfg04(); int d = th ? 4 : 3; static int dd; dd = d; uint64_t n = al04().size();
  W.push_back({"all", upto(n, 3) * K.size(), [](uint64_t i) { l04(K[i % K.size()], digits(i / K.size(), al04().size(), 3)); }});
  static const vector<string> pre = {"G28", "G90", "M83", "G1 X10 Y10 Z0.2 F3000", "G1 X11 E1", "G1 X12 E1"}, pre2 = {"G28", "G92 E0", "T1", "G1 X1 Y1 Z1 E1", "M218 T0 X2 Y2", "G91", "G1 E-1"};
  W.push_back({"after a start", upto(n, d) * 6, [](uint64_t i) { int k = i % 3; bool b = (i / 3) % 2; TC c = K[k == 0 ? 0 : k == 1 ? 1 : 8]; l04(c, digits(i / 6, al04().size(), dd), b ? &pre : &pre2); }});
  if (th) W.push_back({"deep", upto(n, 4) * 6, [](uint64_t i) { static const int s[] = {0, 1, 4, 8, 10, 17}; l04(K[s[i % 6]], digits(i / 6, al04().size(), 4)); }});
  // every subset of the parameters of every command that sets coordinates or offsets, after each of several states, then moves and tool changes
  static vector<string> S; S.clear(); for (const char* c : {"G92", "G28", "G10 P0", "G10 P1", "G10", "M218", "M218 T0", "M218 T1", "G0", "G1", "G2"}) for (int m = 0; m < 32; m++) { if (m & 16 && (c[1] == '1' || c[0] == 'M') && c[2] == '0') continue; string t = c; static const char* w[] = {" X3", " Y-4.5", " Z.7", " E2", " F900"}; for (int k = 0; k < 5; k++) if (m >> k & 1) t += w[k]; S.push_back(t); }
  static const vector<vector<string>> PR = {{}, {"G28"}, {"G28", "G1 X10 Y20 Z0.3 E1", "T1"}, {"G28", "G1 X1 Y2 Z3 E4", "G92 X7 Y8 Z9 E5"}, {"G28", "G91", "M83", "G1 X1 Y1 Z1 E1"}, {"G1 X5 Y5 Z5", "G10 P1 X1 Y1 Z1", "M218 T1 X2 Y2 Z2", "T1", "G1 X6 Y7 Z8 E9"}}, PO = {{}, {"G1 X1 Y1 Z1 E1"}, {"T0", "G1 X2 Y2"}, {"T1", "G1 Z4 E1", "T0"}, {"G91", "G1 X1 Y1 Z1"}, {"G28", "G1 E1"}};
  W.push_back({"parameters", S.size() * PR.size() * PO.size() * K.size(), [](uint64_t i) { const TC& c = K[i % K.size()]; i /= K.size(); vector<string> v = PR[i % PR.size()]; i /= PR.size(); const auto& q = PO[i % PO.size()]; v.push_back(S[i / PO.size()]); v.insert(v.end(), q.begin(), q.end()); l04(c, {}, &v); }});
  // E and retraction arithmetic in depth
  static const vector<string> E = {"G1 X1 E0.5", "G1 X2 E1.5", "G1 E-0.5", "G1 X3", "G1 E0.25", "G92 E0", "M83", "M82", "G1 X4 E-0.25", "G1 Z0.4", "G1 X5 E0.000004"}; int de = th ? 7 : 5; static int dde; dde = de;
  W.push_back({"extrusion", upto(E.size(), de) * 2, [](uint64_t i) { TC c; c.ret = 0.5; c.em = i % 2 ? "relative" : "absolute"; vector<string> p = {"G28", "G1 X0 Y0 Z0.2"}; for (int k : digits(i / 2, E.size(), dde)) p.push_back(E[k]); l04(c, {}, &p); }});
  X.bounds["all"] = "all sequences of up to 3 of " + to_string(n) + " commands x " + to_string(K.size()) + " configurations; after two start sequences to depth " + to_string(d) + "; every subset of parameters of 11 commands x 6 states x 6 continuations; " + to_string(de) + " extrusion commands of 11"; X.assumptions.push_back("the flags is_retracting_start, is_deretracting and is_deretracting_start, which nothing in the repository reads, are not compared");
  explore(W); return X.finish("after every command all coordinates, offsets, modes, extruder lengths and flags, layer and height of the real gcode_position are compared with a reference interpreter"); }

// ---------------------------------------------------------------- L05
string dump(const position& p) { std::ostringstream s; s.precision(17);
#define F(m) s << #m "=" << p.m << " "
  F(feature_type_tag); F(f); F(f_null); F(x); F(x_null); F(x_offset); F(x_firmware_offset); F(x_homed); F(y); F(y_null); F(y_offset); F(y_firmware_offset); F(y_homed); F(z); F(z_null); F(z_offset); F(z_firmware_offset); F(z_homed); F(is_metric); F(is_metric_null); F(last_extrusion_height); F(last_extrusion_height_null); F(layer); F(height); F(height_increment); F(height_increment_change_count); F(is_printer_primed); F(has_definite_position); F(z_relative); F(is_relative); F(is_relative_null); F(is_extruder_relative); F(is_extruder_relative_null); F(is_layer_change); F(is_height_change); F(is_height_increment_change); F(is_xy_travel); F(is_xyz_travel); F(is_zhop); F(has_position_changed); F(has_xy_position_changed); F(has_received_home_command); F(is_in_position); F(in_path_position); F(file_line_number); F(gcode_number); F(file_position); F(gcode_ignored); F(is_in_bounds); F(is_empty); F(current_tool); F(num_extruders);
  for (int i = 0; i < p.num_extruders; i++) { extruder& e = p.get_extruder(i); s << "[" << e.x_firmware_offset << " " << e.y_firmware_offset << " " << e.z_firmware_offset << " " << e.e << " " << e.e_offset << " " << e.e_relative << " " << e.extrusion_length << " " << e.extrusion_length_total << " " << e.retraction_length << " " << e.deretraction_length << " " << e.is_extruding_start << e.is_extruding << e.is_primed << e.is_retracting_start << e.is_retracting << e.is_retracted << e.is_partially_retracted << e.is_deretracting_start << e.is_deretracting << e.is_deretracted << "]"; }
  s << "cmd=" << p.command.command << "|" << p.command.gcode << "|" << p.command.comment << "|" << p.command.is_known_command << p.command.is_empty; for (auto& a : p.command.parameters) s << "," << a.name << a.value_type << a.double_value << a.string_value << a.unsigned_long_value; return s.str(); }
string diffs(const string& a, const string& b) { std::istringstream x(a), y(b); string s, t, r; while (x >> s && y >> t) if (s != t) r += s + " instead of " + t + "; "; return r.substr(0, 300); }
const vector<string>& al05() { static vector<string> a = {"G1 X1 Y2 E1", "G1 X3 F900", "G1 Z0.6 E2", "G1 E-1", "G28", "G28 X Y", "G29", "G91", "G90", "M83", "M82", "G92 X5 E0", "G92", "G20", "G10 P1 X1 Y2", "M218 T0 X10 Z.5", "T1", "T0", "M104 S200 ; c", "; perimeter", "G2 X2 I1 E3 ; infill", "G1 Z5", "G92 O", "G1 X1 Y1 Z1 E1"}; return a; }
// ops: prefix, optional growth, nu updates undone again, then a continuation; a twin never sees the undone part
void l05(const TC& c, int fill, const vector<int>& pre, int grow, const vector<int>& undone, bool batch, int cont) {
  string rp = "undo " + c.str() + " " + to_string(fill) + " " + to_string(grow) + " " + to_string(batch) + " " + to_string(cont) + " p"; for (int k : pre) rp += " " + to_string(k); rp += " u"; for (int k : undone) rp += " " + to_string(k); X.begin(rp);
  static gcode_parser P; static vector<parsed_command> memo; if (memo.empty()) for (auto& s : al05()) memo.push_back(P.parse_gcode(s.c_str())); static parsed_command fl = P.parse_gcode("G1 X0.5 Y0.5 Z0.2 E0.5");
  gcode_position a(c.args()), b(c.args()); int n = 0; auto up = [&](gcode_position& g, parsed_command& k, int n) { g.update(k, n, n, n); };
  for (int i = 0; i < fill; i++) { n++; up(a, fl, n); up(b, fl, n); } for (int k : pre) { n++; up(a, memo[k], n); up(b, memo[k], n); }
  int depth = std::min(a.get_num_positions(), a.get_max_positions() - (int)undone.size()); vector<string> before; for (int i = 0; i < std::max(1, depth); i++) before.push_back(dump(*a.get_position_ptr(i)));
  vector<string> ud; bool grew = false; int m = n; for (size_t q = 0; q < undone.size(); q++) { if (grow == (int)q + 1) { a.grow_max_positions(a.get_max_positions() + 3); grew = true; } up(a, memo[undone[q]], ++m); ud.push_back(dump(*a.get_current_position_ptr())); } (void)grew;
  if (batch) { position* u = a.undo_update((int)undone.size()); for (size_t q = 0; q < undone.size(); q++) if (dump(u[q]) != ud[undone.size() - 1 - q]) { fail("undo-returned", "undo_update(n) returned the wrong position: " + diffs(dump(u[q]), ud[undone.size() - 1 - q]), rp); break; } delete[] u; } else for (size_t q = 0; q < undone.size(); q++) a.undo_update();
  string w; for (int k : pre) w += " | " + al05()[k]; w += " | undone:"; for (int k : undone) w += " " + al05()[k];
  for (int i = 0; i < (int)before.size(); i++) if (dump(*a.get_position_ptr(i)) != before[i]) { string d = diffs(dump(*a.get_position_ptr(i)), before[i]); return fail("undo-" + d.substr(0, d.find('=')), "after undo position " + to_string(i) + " has " + d + " after" + w, rp); }
  if (grow == 9) { a.grow_max_positions(a.get_max_positions() + 5); }
  up(a, memo[cont], n + 1); up(b, memo[cont], n + 1); X.add(X.c_trans, pre.size() + undone.size() + 1);
  if (dump(*a.get_current_position_ptr()) != dump(*b.get_current_position_ptr())) { string d = diffs(dump(*a.get_current_position_ptr()), dump(*b.get_current_position_ptr())); return fail("continue-" + d.substr(0, d.find('=')), "after undo, " + al05()[cont] + " gives " + d + " after" + w, rp); }
  X.add(X.c_exec); X.inputs.insert(hash_str(rp)); uint64_t h = hash_str(dump(*a.get_current_position_ptr())); X.states.insert(h); X.outcomes.insert(h);
}
int run05() { vector<Work> W; uint64_t n = al05().size(); static uint64_t nn; nn = n; static vector<TC> K; K.clear(); for (int b : {2, 3, 4, 7}) { TC c; c.buf = b; c.hn = b % 2; c.fw = b > 3; c.g90 = b == 3; c.minl = b == 7 ? 0.5 : 0; K.push_back(c); }
  int dp = th ? 3 : 2; static int ddp; ddp = dp;
  W.push_back({"one", upto(n, dp) * n * n * 2, [](uint64_t i) { int v = i % 2; i /= 2; int c = i % nn; i /= nn; int u = i % nn; i /= nn; static const int fs[] = {0, 1, 2, 5}; l05(K[(i + u + v) % K.size()], fs[(i + c + v) % 4], digits(i, nn, ddp), (i + c + u) % 5 == 0 ? 9 : (i + u) % 3 == 0 ? 1 : 0, {u}, false, c); }});
  W.push_back({"two", (1 + n) * n * n * 8 * 2, [](uint64_t i) { int bt = i % 2; i /= 2; int g = i % 4; i /= 4; int q = i % 2; i /= 2; int u = i % nn; i /= nn; int u2 = i % nn; i /= nn; TC c = K[1 + q + (u & 1)]; l05(c, (u2 % 4), digits(i, nn, 1), g == 3 ? 9 : g, {u, u2}, bt, (u + u2 * 5 + i) % nn); }});
  W.push_back({"wrap", 40 * 6 * n * n, [](uint64_t i) { int f = i % 40; i /= 40; int b = 2 + i % 6; i /= 6; TC c; c.buf = b; l05(c, f, {}, f % 3 ? 0 : 1, {(int)(i % nn)}, false, (int)(i / nn)); }});
  X.bounds["one"] = "all prefixes of up to " + to_string(dp) + " of " + to_string(n) + " commands x undone command x continuation, buffers of 2, 3, 4, 7 positions with 0..5 moves before, growth before/after"; X.bounds["two"] = "two updates undone one by one and together"; X.bounds["wrap"] = "0..39 moves before, buffers of 2..7 positions, every undone command x every continuation"; X.assumptions.push_back("at least one position remains in the buffer below the undone ones (buffer size > number of undone updates)");
  explore(W); return X.finish("every field of every remembered position is compared before the update and after the undo, and a twin tracker that never saw the undone commands must agree on the continuation"); }

// ---------------------------------------------------------------- L10
#define CHK(sig, ok, msg) do { X.add(X.c_exec); X.add(X.c_trans); X.states.insert(hash_str(string(sig) + (msg))); if (!(ok)) fail(sig, msg, string("util ") + sig + " " + (msg)); } while (0)
int run10() {
  vector<Work> W; int d = th ? 7 : 5; static int dd; dd = d;
  W.push_back({"trim", upto(7, d), [](uint64_t i) { static const string A = " \t\r\nab\v"; string s; for (int k : digits(i, 7, dd)) s += A[k]; const char* ws = " \n\r\t\f\v"; size_t a = 0, b = s.size(); while (a < b && strchr(ws, s[a])) a++; string L = s.substr(a); while (b > 0 && strchr(ws, s[b - 1])) b--; string R = s.substr(0, b), T = a < b ? s.substr(a, b - a) : "";
    X.inputs.insert(hash_str(s)); CHK("ltrim", utilities::ltrim(s) == L, "ltrim of '" + esc(s) + "' is '" + esc(utilities::ltrim(s)) + "'"); CHK("rtrim", utilities::rtrim(s) == R, "rtrim of '" + esc(s) + "' is '" + esc(utilities::rtrim(s)) + "'"); CHK("trim", utilities::trim(s) == T, "trim of '" + esc(s) + "' is '" + esc(utilities::trim(s)) + "'"); }});
  W.push_back({"lines", upto(3, d + 3), [](uint64_t i) { string s; for (int k : digits(i, 3, dd + 3)) s += "a\r\n"[k]; vector<string> e; string c; bool open = false; for (size_t k = 0; k < s.size(); k++) { open = true; if (s[k] == '\n' || s[k] == '\r') { if (s[k] == '\r' && k + 1 < s.size() && s[k + 1] == '\n') k++; e.push_back(c); c.clear(); open = false; } else c += s[k]; } if (open) e.push_back(c);
    std::istringstream in(s); vector<string> g; string t; for (int n = 0; n < 40; n++) { utilities::safe_get_line(in, t); if (in.eof()) break; g.push_back(t); } X.inputs.insert(hash_str(s)); CHK("safe_get_line", g == e, "lines of '" + esc(s) + "': " + to_string(g.size()) + " instead of " + to_string(e.size())); }});
  W.push_back({"replace", upto(3, 6) * 12 * 5, [](uint64_t i) { static const vector<string> se = {"a", "b", "ab", "aa", "aba", "c", "", "bb", "abc", "ca", "aab", "abab"}, re = {"", "a", "xyz", "aa", "b"}; string r = re[i % 5]; i /= 5; string q = se[i % 12]; i /= 12; string s; for (int k : digits(i, 3, 6)) s += "abc"[k]; string e; size_t p = 0; if (q.empty()) e = s; else for (;;) { size_t f = s.find(q, p); if (f == string::npos) { e += s.substr(p); break; } e += s.substr(p, f - p) + r; p = f + q.size(); } CHK("replace", utilities::replace(s, q, r) == e, "replace '" + q + "' by '" + r + "' in '" + s + "' gives '" + utilities::replace(s, q, r) + "'"); }});
  W.push_back({"join", upto(3, 5) * 3, [](uint64_t i) { static const vector<string> sp = {"", ", ", "-"}; static const vector<string> it = {"", "a", "bc"}; string s = sp[i % 3]; vector<string> v; for (int k : digits(i / 3, 3, 5)) v.push_back(it[k]); string e; for (size_t k = 0; k < v.size(); k++) e += (k ? s : "") + v[k]; CHK("join", utilities::join(v, s) == e && utilities::join(v.data(), v.size(), s) == e, "join gives '" + utilities::join(v, s) + "' instead of '" + e + "'"); }});
  W.push_back({"center", 20 * 30, [](uint64_t i) { string s(i % 20, 'x'); int w = (int)(i / 20) - 3; string r = utilities::center(s, w); bool ok = (int)s.size() >= w ? r == s : (int)r.size() == w && utilities::trim(r) == s && (s.empty() || abs((int)r.find('x') - (w - (int)s.size() - (int)r.find('x'))) <= 1); CHK("center", ok, "center of " + to_string(s.size()) + " in " + to_string(w) + " gives '" + r + "'"); }});
  W.push_back({"paths", upto(4, d + 1), [](uint64_t i) { string s; for (int k : digits(i, 4, dd + 1)) s += "/a. "[k]; X.begin("util path " + s); size_t sl = s.rfind('/'); string dir = sl == string::npos ? "" : s.substr(0, sl + 1); vector<string> parts; { string c; for (char ch : s) if (ch == '/') { parts.push_back(c); c.clear(); } else c += ch; parts.push_back(c); } string g; bool ok = utilities::get_file_path(s, g); CHK("get_file_path", ok && g == dir, "directory of '" + s + "' is '" + g + "'"); CHK("splitpath", utilities::splitpath(s) == parts, "parts of '" + s + "'");
    string t, t2; ok = utilities::get_temp_file_path_for_file(s, t) && utilities::get_temp_file_path_for_file(s, t2); CHK("temp", ok && t.size() > dir.size() + 8 && t.compare(0, dir.size(), dir) == 0 && t.find('/', dir.size()) == string::npos && t != s && t != t2, "temporary path of '" + s + "' is '" + t + "'"); }});
  W.push_back({"same file", 1, [](uint64_t) { string D = X.dir + "/sf"; mkdir(D.c_str(), 0700); mkdir((D + "/sub").c_str(), 0700); vf::write_file(D + "/a", "1"); vf::write_file(D + "/b", "1"); if (link((D + "/a").c_str(), (D + "/hard").c_str())) {} if (symlink("a", (D + "/soft").c_str())) {} if (symlink("nowhere", (D + "/dangling").c_str())) {} if (symlink("sub", (D + "/dir").c_str())) {} vf::write_file(D + "/sub/a", "2");
      struct N { string p; int id; }; vector<N> v = {{D + "/a", 1}, {D + "/./a", 1}, {D + "//a", 1}, {D + "/sub/../a", 1}, {D + "/hard", 1}, {D + "/soft", 1}, {D + "/dir/../a", 1}, {D + "/b", 2}, {D + "/sub/a", 3}, {D + "/dir/a", 3}, {D + "/none", 4}, {D + "/dangling", 5}, {D + "/sub/none", 6}}; for (auto& x : v) for (auto& y : v) CHK("is_same_file", utilities::is_same_file(x.p, y.p) == (x.id == y.id), "is_same_file(" + x.p.substr(D.size()) + ", " + y.p.substr(D.size()) + ")"); for (auto& x : v) CHK("does_file_exist", utilities::does_file_exist(x.p) == (x.id <= 3), "does_file_exist(" + x.p.substr(D.size()) + ")"); }});
  W.push_back({"uuid", 1, [](uint64_t) { std::set<string> s; for (int i = 0; i < 5000; i++) { string u = utilities::create_uuid(); s.insert(u); bool ok = u.size() >= 32; for (char c : u) ok = ok && (isxdigit((unsigned char)c) || c == '-'); CHK("uuid", ok, "uuid " + u); } CHK("uuid-distinct", s.size() == 5000, "uuids repeat: only " + to_string(s.size()) + " of 5000"); }});
  W.push_back({"compare", 41 * 41 * 5, [](uint64_t i) { static const double t[] = {-1, 1e-9, 0.001, 0.5, 2}; double tol = t[i % 5]; i /= 5; auto g = [](int k) { return k < 20 ? (k - 10) * 0.25 : (k - 30) * 2.0e-6; }; double x = g(i % 41), y = g(i / 41); bool df = tol < 0; double T = df ? 0.000005 : tol; bool eq = fabs(x - y) < T; auto S = [&](const char* n, bool got, bool want) { CHK(n, got == want, string(n) + "(" + num(x) + ", " + num(y) + ", " + num(T) + ") = " + to_string(got)); };
    S("is_equal", df ? utilities::is_equal(x, y) : utilities::is_equal(x, y, tol), eq); S("greater_than", df ? utilities::greater_than(x, y) : utilities::greater_than(x, y, tol), x > y && !eq); S("greater_than_or_equal", df ? utilities::greater_than_or_equal(x, y) : utilities::greater_than_or_equal(x, y, tol), x > y || eq); S("less_than", df ? utilities::less_than(x, y) : utilities::less_than(x, y, tol), x < y && !eq); S("less_than_or_equal", df ? utilities::less_than_or_equal(x, y) : utilities::less_than_or_equal(x, y, tol), x < y || eq); S("is_zero", df ? utilities::is_zero(x) : utilities::is_zero(x, tol), fabs(x) < T);
    CHK("min", utilities::min(x, y) == (x < y ? x : y) && utilities::max(x, y) == (x < y ? y : x), "min/max"); CHK("abs", utilities::abs(x) == (x < 0 ? -x : x) && utilities::fabs(x) == (x < 0 ? -x : x), "abs"); CHK("constrain", utilities::constrain(x, -1, y) == (x < -1 ? -1 : x > y ? y : x), "constrain"); CHK("within", utilities::within(x, -1, y) == (x >= -1 && x <= y), "within"); CHK("sq", utilities::sq(x) == x * x, "sq"); CHK("radians", fabs(utilities::radians(x) - x * M_PI / 180) < 1e-15 * (1 + fabs(x)), "radians"); }});
  W.push_back({"distance", ipow(11, 4), [](uint64_t i) { double v[4]; for (double& x : v) { x = ((int)(i % 11) - 5) * (i % 2 ? 1.0 : 37.5); i /= 11; } double e = std::hypot(v[0] - v[2], v[1] - v[3]); CHK("distance", fabs(utilities::get_cartesian_distance(v[0], v[1], v[2], v[3]) - e) <= 1e-13 * (1 + e), "distance"); CHK("distance3", fabs(utilities::get_cartesian_distance(v[0], v[1], v[3], v[2], v[3], v[0]) - sqrt((v[0] - v[2]) * (v[0] - v[2]) + (v[1] - v[3]) * (v[1] - v[3]) + (v[3] - v[0]) * (v[3] - v[0]))) <= 1e-12 * (1 + e), "3d distance"); CHK("hypot", fabs(utilities::hypot(v[0], v[1]) - std::hypot(v[0], v[1])) <= 1e-13 * (1 + fabs(v[0]) + fabs(v[1])), "hypot(" + num(v[0]) + "," + num(v[1]) + ")"); }});
  W.push_back({"arc", 72u * 73 * 2 * 4 * 3, [](uint64_t i) { int zc = i % 3; i /= 3; int rr = i % 4; i /= 4; bool cw = i % 2; i /= 2; int s = i % 72, w = i / 72; static const double R[] = {0.05, 1, 17.3, 950}; double r = R[rr], a = s * M_PI / 36, sw = w * M_PI / 36; if (w == 0) sw = 1e-4; double b = a + (cw ? -sw : sw), cx = rr == 2 ? 100 : -3, cy = rr == 3 ? -50 : 7, z = zc == 0 ? 0 : zc == 1 ? 0.5 : -20; double x1 = cx + r * cos(a), y1 = cy + r * sin(a), x2 = cx + r * cos(b), y2 = cy + r * sin(b); if (w == 72) { x2 = x1; y2 = y1; } double e = std::hypot(r * sw, z), g = utilities::get_arc_distance(x1, y1, 1, x2, y2, 1 + z, cx - x1, cy - y1, 0, cw); X.inputs.insert(mix(i, s)); CHK("arc", fabs(g - e) <= 1e-9 * (1 + e), "arc of radius " + num(r) + " from " + to_string(s * 5) + " degrees over " + to_string(w * 5) + " degrees " + (cw ? "cw" : "ccw") + " z " + num(z) + ": length " + num(g) + ", expected " + num(e)); }});
  W.push_back({"digits", 10 * 400, [](uint64_t i) { long p = 1; for (int k = 0; k < (int)(i % 10); k++) p *= 10; long x = p + (long)(i / 10) - 200; for (long v : {x, -x, x * 3}) if (v <= INT_MAX && v >= -INT_MAX) { CHK("digits", utilities::get_num_digits((int)v) == (int)to_string(labs(v)).size(), "get_num_digits(" + to_string(v) + ") = " + to_string(utilities::get_num_digits((int)v))); CHK("digits-d", utilities::get_num_digits((double)v) == (int)to_string(labs(v)).size(), "get_num_digits(double " + to_string(v) + ")"); } }});
  W.push_back({"digits-p", 9u * 10 * 7 * 3, [](uint64_t i) { int pr = i % 7; i /= 7; int dl = (int)(i % 10) - 5; i /= 10; int k = i % 9; i /= 9; double p = pow(10, k); double x = p + dl * 0.3 * pow(10, -pr); if (k == 0 || x * pow(10, pr) > 9e15) return; char b[64]; snprintf(b, 64, "%.*f", pr, x); int e = (int)(strchr(b, '.') ? strchr(b, '.') - b : strlen(b)); CHK("digits-precision", utilities::get_num_digits(x, pr) == e, "get_num_digits(" + num(x) + ", " + to_string(pr) + ") = " + to_string(utilities::get_num_digits(x, pr)) + ", expected " + to_string(e)); }});
  W.push_back({"percent", 61 * 61, [](uint64_t i) { int a = (int)(i % 61) - 30, b = (int)(i / 61) - 30; a = a * abs(a) * 7; b = b * abs(b) * 11; double e = a ? ((double)b - a) / a * 100 : 0; CHK("percent", fabs(utilities::get_percent_change(a, b) - e) < 1e-9 * (1 + fabs(e)), "percent change from " + to_string(a) + " to " + to_string(b) + " is " + num(utilities::get_percent_change(a, b))); CHK("relative", fabs(utilities::get_percent_change((double)a, (double)b) - e / 100) < 1e-11 * (1 + fabs(e)), "relative change from " + to_string(a) + " to " + to_string(b) + " is " + num(utilities::get_percent_change((double)a, (double)b)));
    for (int p = 0; p < 4; p++) { char t[64]; snprintf(t, 64, "%.*f%%", p, e); string s = a ? string(t) : b > 0 ? "INF" : "0.0%"; if (a || b >= 0) CHK("percent-string", utilities::get_percent_change_string(a, b, p) == s, "percent string from " + to_string(a) + " to " + to_string(b) + " is " + utilities::get_percent_change_string(a, b, p) + " not " + s); } }});
  W.push_back({"box", 30 * 2, [](uint64_t i) { int w = i % 30 + 1; auto enc = i / 30 ? utilities::box_drawing::UTF8 : utilities::box_drawing::ASCII; utilities::box_drawing b(enc, w); std::stringstream s; b.top(s); b.row(s, string(w, 'x')); b.middle(s); b.bottom(s); string t = s.str(); b.make_replacements(t); auto rep = [&](const char* a, const char* m, const char* z) { string r = a; for (int k = 0; k < w; k++) r += m; return r + z + "\n"; }; string e = enc == utilities::box_drawing::ASCII ? rep("+", "-", "+") + rep("|", "x", "|") + rep("+", "-", "+") + rep("+", "-", "+") : rep("\u250C", "\u2500", "\u2510") + rep("\u2502", "x", "\u2502") + rep("\u251C", "\u2500", "\u2524") + rep("\u2514", "\u2500", "\u2518"); CHK("box", t == e, "box of width " + to_string(w) + " differs: '" + t + "'"); }});
  X.bounds["strings"] = "all strings up to length " + to_string(d) + " over blanks and letters; line endings up to length " + to_string(d + 3) + "; paths up to length " + to_string(d + 1) + " over '/a. '"; X.bounds["grids"] = "arcs: 72 starts x 73 sweeps x 2 directions x 4 radii x 3 heights; comparisons on 41x41x5 values; digits around every power of ten";
  explore(W); return X.finish("every helper is called on every member of the stated sets and compared with an independent computation");
}
// ---------------------------------------------------------------- L11 logger: every reachable state, every operation, every message
int run11() {
  static const int vals[] = {0, 5, 10, 20, 30, 40, 50}; static const char* nm[] = {"NOSET", "VERBOSE", "DEBUG", "INFO", "WARNING", "ERROR", "CRITICAL"}; static vector<int> any = {0, 5, 10, 20, 30, 40, 50, 15, -1, 1, 6, 51, 1000, INT_MAX, INT_MIN};
  static vector<string> msg = {"", "x", "%d %s %n %5000d", "a - b - c", "two\nlines", "\xff\xfe\x80", string(10000, 'q'), " lead and trail ", "INFO - INFO"};
  auto lv = [](int v) { for (int k = 0; k < 7; k++) if (vals[k] == v) return k; return 0; };
  struct Cap { std::streambuf *o, *e; std::ostringstream so, se; Cap() { o = std::cout.rdbuf(so.rdbuf()); e = std::cerr.rdbuf(se.rdbuf()); } ~Cap() { std::cout.rdbuf(o); std::cerr.rdbuf(e); } };
  int n = th ? 4 : 3; static int nl; vector<Work> W;
  for (int loggers = 1; loggers <= n; loggers++) { uint64_t st = ipow(7, loggers); int nops = 7 * (loggers + 1) + any.size() * (loggers + 1);
    W.push_back({"logger" + to_string(loggers), st * nops, [loggers, st, lv](uint64_t i) { uint64_t s = i % st; int op = i / st; vector<string> names; vector<int> levels(loggers, 3); for (int k = 0; k < loggers; k++) names.push_back("logger" + to_string(k));
      logger g(names, levels); vector<int> m(loggers); for (int k = 0; k < loggers; k++) { m[k] = s % 7; s /= 7; g.set_log_level(k, (log_levels)m[k]); }
      int all = -1; string what; if (op < 7 * (loggers + 1)) { int t = op / 7, l = op % 7; if (t == loggers) { g.set_log_level((log_levels)l); for (int& x : m) x = l; } else { g.set_log_level(t, (log_levels)l); m[t] = l; } what = "set_log_level"; }
      else { op -= 7 * (loggers + 1); int t = op / any.size(), v = any[op % any.size()]; if (t == loggers) { g.set_log_level_by_value(v); for (int& x : m) x = lv(v); } else { g.set_log_level_by_value(t, v); m[t] = lv(v); } what = "set_log_level_by_value"; }
      (void)all; X.add(X.c_exec); uint64_t h = loggers; for (int x : m) h = mix(h, x); X.states.insert(h); X.inputs.insert(mix(i, loggers)); string rp = "logger " + to_string(loggers) + " " + to_string(i);
      for (int k = 0; k < loggers; k++) { string want = nm[m[k]], got = g.get_log_level_name("logger" + to_string(k)); if (got != want) return fail("logger-name", "after " + what + " logger " + to_string(k) + " is at " + got + " instead of " + want, rp);
        for (int l = 0; l < 7; l++) { bool on = l >= m[k]; if (g.is_log_level_enabled(k, (log_levels)l) != on) return fail("logger-enabled", string("level ") + nm[l] + " of a logger at " + nm[m[k]] + " is " + (on ? "off" : "on"), rp);
          for (int how = 0; how < 4; how++) { if (how == 3 && l) continue; const string& t = msg[(i + l + how) % msg.size()]; string out, err; { Cap c; if (how == 0) g.log(k, (log_levels)l, t); else if (how == 1) g.log(k, (log_levels)l, t, true); else if (how == 2) g.log(k, (log_levels)l, t, false); else g.log_exception(k, t); out = c.so.str(); err = c.se.str(); }
            X.add(X.c_trans); int lev = how == 3 ? 5 : l; bool exp = lev >= m[k]; string& right = how == 1 || how == 3 ? err : out; string& wrong = how == 1 || how == 3 ? out : err; X.outcomes.insert(mix(hash_str(right.size() > 24 ? right.substr(24) : right), how));
            if (!wrong.empty()) return fail("logger-stream", "a message on the wrong stream: " + esc(wrong), rp); if (!exp) { if (!right.empty()) return fail("logger-level", string("a message of level ") + nm[lev] + " although the logger is at " + nm[m[k]], rp); continue; }
            string tail = " - logger" + to_string(k) + " - " + nm[lev] + " - " + t + "\n"; if (right.size() != 23 + tail.size() || right.substr(23) != tail) return fail("logger-text", "logged as " + esc(right.substr(0, 200)) + " instead of <time>" + esc(tail.substr(0, 100)), rp);
            for (int q = 0; q < 23; q++) if (!(q == 4 || q == 7 ? right[q] == '-' : q == 10 ? right[q] == ' ' : q == 13 || q == 16 ? right[q] == ':' : q == 19 ? right[q] == '.' : isdigit((unsigned char)right[q]))) return fail("logger-time", "time stamp " + esc(right.substr(0, 23)), rp); } } }
      if (g.get_log_level_name("none") != "UNKNOWN") return fail("logger-unknown", "the level of a logger that does not exist", rp); }, 64}); }
  W.push_back({"values", 7, [lv](uint64_t i) { if (logger::get_log_level_value((log_levels)i) != vals[i]) fail("logger-value", string("value of ") + nm[i], "logger"); for (int v = -2000; v <= 2000; v++) { X.add(X.c_exec); if (logger::get_log_level_for_value(v) != lv(v)) fail("logger-value", "level for value " + to_string(v) + " is " + to_string(logger::get_log_level_for_value(v)), "logger"); } }});
  X.bounds["states"] = "every assignment of the 7 levels to 1.." + to_string(n) + " loggers (the whole state), every operation with every level and " + to_string(any.size()) + " values, and then every kind of message at every level"; (void)nl;
  explore(W); return X.finish("the real logger runs with captured streams; what it prints is compared with the level model, which has the levels as its whole state");
}
// ---------------------------------------------------------------- L12 length statistics and the table that shows them
string box_ascii(string t, int enc) { static const char* u[] = {"\xe2\x94\x80", "\xe2\x94\x82", "\xe2\x94\x8c", "\xe2\x94\x90", "\xe2\x94\x9c", "\xe2\x94\xa4", "\xe2\x94\x94", "\xe2\x94\x98"}; static const char* h[] = {"&#9472", "&#9474", "&#9484", "&#9488", "&#9500", "&#9508", "&#9492", "&#9496"}; static const char* a = "-|++++++";
  if (!enc) return t; string o; for (size_t i = 0; i < t.size();) { bool hit = false; for (int k = 0; k < 8 && !hit; k++) { string e = enc == 1 ? u[k] : h[k]; if (!t.compare(i, e.size(), e)) { o += a[k]; i += e.size(); if (enc == 2 && i < t.size() && t[i] == ';') i++; hit = true; } } if (!hit) o += t[i++]; } return o; }
struct SM { vector<double> len; vector<int> n[2]; int total[2] = {0, 0}; double length[2] = {0, 0}; explicit SM(vector<double> l) : len(l) { n[0].assign(l.size() + 1, 0); n[1] = n[0]; }
  void update(double l, bool src) { if (l <= 0) return; int q = src ? 0 : 1; total[q]++; length[q] += l; size_t b = 0; while (b < len.size() && l >= len[b]) b++; n[q][b]++; } };
string trim12(const string& s) { size_t a = s.find_first_not_of(" ."), b = s.find_last_not_of(' '); return a == string::npos ? "" : s.substr(a, b - a + 1); }
// what the table must show, for counts and lengths m
string table12(const string& asc, const SM& m, const string& title) {
  auto mm = [](double v) { char b[400]; snprintf(b, sizeof b, "%.3fmm", v); return string(b); }; auto pc = [](int s, int t) { if (!s) return string(t > 0 ? "INF" : "0.0%"); char b[60]; snprintf(b, sizeof b, "%.1f%%", ((double)t - s) / s * 100); return string(b); };
  vector<string> L; string w; for (char c : asc) if (c == '\n') { L.push_back(w); w = ""; } else w += c; if (!w.empty()) return "does not end with a line end"; for (auto& l : L) if (l.size() != L[0].size()) return "is not rectangular: '" + l + "'";
  size_t k = 0; auto rule = [&]() { return k < L.size() && L[k] == "+" + string(L[0].size() - 2, '-') + "+" ? (k++, true) : false; }; if (L.empty() || !rule()) return "has no top border"; if (!title.empty()) { if (k >= L.size() || trim12(L[k].substr(1, L[k].size() - 2)) != trim12(title)) return "has a wrong title"; k++; if (!rule()) return "has no border below its title"; }
  if (k >= L.size()) return "has no heading"; string h = L[k++]; size_t mi = h.find("Min"), ma = h.find("Max"), s = h.find("Source"), t = h.find("Target"), c = h.find("Change"); if (mi == string::npos || ma == string::npos || s == string::npos || t == string::npos || c == string::npos || !(mi < ma && ma < s && s < t && t < c)) return "has a wrong heading"; s += 6; t += 6; c += 6; if (!rule()) return "has no border below its heading";
  for (size_t b = 0; b <= m.len.size(); b++) { if (k >= L.size()) return "lacks rows"; string r = L[k++]; bool last = b == m.len.size(); string left; for (char x : r.substr(1, s - 1)) if (x != ' ') left += x; string lo = mm(b ? m.len[b - 1] : 0), want = (last ? ">=" + lo : lo + "to" + mm(m.len[b])) + to_string(m.n[0][b]);
    if (left != want) return "row '" + r + "' instead of " + want; if (trim12(r.substr(s, t - s)) != to_string(m.n[1][b])) return "row '" + r + "' instead of target " + to_string(m.n[1][b]); if (trim12(r.substr(t, c - t)) != pc(m.n[0][b], m.n[1][b])) return "row '" + r + "' instead of " + pc(m.n[0][b], m.n[1][b]); }
  if (!rule()) return "has no border below its rows"; vector<std::pair<string, string>> T; bool eq = fabs(m.length[0] - m.length[1]) < .001; double gap = fabs(fabs(m.length[0] - m.length[1]) - .001); bool both = gap < 1e-9;
  if (k < L.size() && (both ? L[k].find("Total distance:") != string::npos : eq)) T.push_back({"Total distance:", mm(m.length[0])}); else { T.push_back({"Total distance source:", mm(m.length[0])}); T.push_back({"Total distance target:", mm(m.length[1])}); }
  T.push_back({"Total count source:", to_string(m.total[0])}); T.push_back({"Total count target:", to_string(m.total[1])}); T.push_back({"Total percent change:", pc(m.total[0], m.total[1])});
  for (auto& q : T) { if (k >= L.size()) return "lacks totals"; string r = L[k++], in = r.substr(1, r.size() - 2); size_t p = in.find(q.first); if (p == string::npos) return "'" + r + "' instead of " + q.first; if (trim12(in.substr(p + q.first.size())) != q.second) return "'" + r + "' instead of " + q.second; }
  if (!rule() || k != L.size()) return "does not end with its border"; return ""; }
string same12(const source_target_segment_statistics& g, const SM& m) { if (g.source_segments.size() != m.len.size() + 1 || g.target_segments.size() != m.len.size() + 1) return "the number of classes";
  for (size_t b = 0; b <= m.len.size(); b++) { if (g.source_segments[b].count != m.n[0][b]) return "the source count of class " + to_string(b); if (g.target_segments[b].count != m.n[1][b]) return "the target count of class " + to_string(b); }
  if (g.total_count_source != m.total[0] || g.total_count_target != m.total[1]) return "a total count"; if (g.total_length_source != m.length[0] || g.total_length_target != m.length[1]) return "a total length"; double r = m.total[0] ? ((double)m.total[1] - m.total[0]) / m.total[0] * 100 : 0; if (fabs(g.get_total_count_reduction_percent() - r) > 1e-9 * (1 + fabs(r))) return "the reduction in percent"; return ""; }
int run12() {
  static vector<double> D(segment_statistic_lengths, segment_statistic_lengths + segment_statistic_lengths_count); static vector<double> al = {-1, 0, 1e-9, .001, 1e5}; for (double d : D) { al.push_back(d); al.push_back(std::nextafter(d, 0)); al.push_back(d * 1.4); }
  static const char* titles[] = {"", "T", "Target File Extrusion Statistics", "A title that is much longer than the table below it could ever be, yet has to fit the box"}; vector<Work> W; using ST = source_target_segment_statistics;
  auto show = [](const ST& g, const SM& m, int ti, const string& rp) { string asc = g.str(titles[ti], utilities::box_drawing::ASCII); X.outcomes.insert(hash_str(asc)); string e = table12(asc, m, titles[ti]); if (!e.empty()) { fail("table-" + e.substr(0, 10), "the table " + e, rp); return; }
    for (int enc = 1; enc < 3; enc++) { string t = box_ascii(g.str(titles[ti], enc == 1 ? utilities::box_drawing::UTF8 : utilities::box_drawing::HTML), enc); if (t != asc) { fail("table-encoding", string("the ") + (enc == 1 ? "UTF-8" : "HTML") + " table is not the ASCII table with other borders", rp); return; } } if (ti == 0 && g.str() != asc) fail("table-default", "str() is not the ASCII table", rp); };
  int dep = th ? 4 : 3; uint64_t na = al.size() * 2;
  for (int d = 0; d <= dep; d++) W.push_back({"updates" + to_string(d), ipow(na, d), [d, na, show](uint64_t i) { ST g(segment_statistic_lengths, segment_statistic_lengths_count); SM m(D); uint64_t x = i; string rp = "stats " + to_string(d) + " " + to_string(i); for (int k = 0; k < d; k++) { int o = x % na; x /= na; g.update(al[o / 2], o % 2); m.update(al[o / 2], o % 2); X.add(X.c_trans); }
    X.add(X.c_exec); X.inputs.insert(mix(i, d)); uint64_t h = 1; for (int q = 0; q < 2; q++) for (int v : m.n[q]) h = mix(h, v); X.states.insert(h); string e = same12(g, m); if (!e.empty()) return fail("stats", e + " is wrong", rp); if (d <= 2) show(g, m, i % 4, rp); }});
  // every small set of classes, and the sum of two statistics
  static const double sets[] = {.5, 1, 2.25, 10, 250, 1234.5}; uint64_t ns = (1 << 6) - 1;
  W.push_back({"classes", ns * 30 * 30, [show](uint64_t i) { vector<double> l; int bits = i % ((1 << 6) - 1) + 1; i /= (1 << 6) - 1; for (int b = 0; b < 6; b++) if (bits >> b & 1) l.push_back(sets[b]); static const double v[] = {0, .25, .5, .75, 1, 1.5, 2.25, 3, 10, 11, 249, 250, 251, 1234.5, 5000}; int a = i % 30, b = i / 30; string rp = "stats classes " + to_string(bits) + " " + to_string(a) + " " + to_string(b);
    ST g(&l[0], (int)l.size()), f(&l[0], (int)l.size()); SM m(l); g.update(v[a / 2], a % 2); m.update(v[a / 2], a % 2); f.update(v[b / 2], b % 2); m.update(v[b / 2], b % 2); ST s = ST::add(g, f); X.add(X.c_exec); X.add(X.c_trans, 3); X.inputs.insert(mix(bits, a * 30 + b)); string e = same12(s, m); if (!e.empty()) return fail("stats-add", e + " of a sum is wrong", rp); if (l.back() < 1000) show(s, m, (a + b) % 4, rp); }});
  // counts and lengths of every magnitude
  static vector<int> big; for (int p = 1; p <= 10000000; p *= 10) for (int q : {p - 1, p, p * 9}) big.push_back(q); big.push_back(900000000); big.push_back(2000000000); static const double lens[] = {0, .0004, .0016, 12.3456, 99999.9996, 1e7 + .5, 3.2e9};
  W.push_back({"magnitudes", (uint64_t)big.size() * big.size() * (th ? 13 : 3) * 7 * 4, [show](uint64_t i) { int a = big[i % big.size()]; i /= big.size(); int b = big[i % big.size()]; i /= big.size(); int c = th ? i % 13 : i % 3 * 6; i /= th ? 13 : 3; double l = lens[i % 7]; int ti = i / 7; if (a && (double)b / a > 1e6) return; ST g(segment_statistic_lengths, segment_statistic_lengths_count); SM m(D); g.source_segments[c].count = m.n[0][c] = a; g.target_segments[c].count = m.n[1][c] = b; g.target_segments[12 - c].count = m.n[1][12 - c] = c == 6 ? b : 7; g.source_segments[12 - c].count = m.n[0][12 - c] = c == 6 ? a : 3;
    g.total_count_source = m.total[0] = a; g.total_count_target = m.total[1] = b; g.total_length_source = m.length[0] = l; g.total_length_target = m.length[1] = l + (b % 3) * .0009; X.add(X.c_exec); X.add(X.c_trans); X.states.insert(mix(mix(a, b), mix(c, i))); show(g, m, ti, "stats magnitude " + to_string(a) + " " + to_string(b) + " " + to_string(c)); }});
  X.bounds["sequences"] = "all sequences of up to " + to_string(dep) + " updates with " + to_string(al.size()) + " lengths (every class limit, the number before it, a point inside, 0, negative), source and target; 63 sets of classes x 900 sums of two; " + to_string(big.size() * big.size()) + " pairs of counts x " + (th ? "13" : "3") + " classes x 7 lengths x 4 titles, 3 encodings";
  explore(W); return X.finish("class counts, totals and sums are compared with a recount; the table is parsed back by its heading's columns and compared with the counts; the encodings differ in their borders only");
}
// ---------------------------------------------------------------- L13
#include "geom.hpp"
int replay(const string& file) {
  string t = vf::read_file(file); std::istringstream in(t); string k; in >> k; auto ints = [&]() { vector<int> v; int x; while (in >> x) v.push_back(x); return v; };
  static gcode_parser P;
  if (k == "dtos") { string v; int p; in >> v >> p; X.run(1, [&](uint64_t) { l01(strtod(v.c_str(), 0), p); }); }
  else if (k == "line") { string l = unesc(t.substr(5)); while (!l.empty() && l.back() == '\n') l.pop_back(); X.run(1, [&](uint64_t) { l02(l, P); }); }
  else if (k == "lines") { auto v = ints(); X.run(1, [&](uint64_t) { l08_lines(vector<int>(v.begin(), v.end()), t); }); }
  else if (k == "events") { auto v = ints(); vector<string> s; for (int i : v) s.push_back(ev08()[i]); X.run(1, [&](uint64_t) { l08(s, t); }); }
  else if (k == "tracker") { TC c = TC::parse(in); vector<string> cs; string l; std::getline(in, l); while (std::getline(in, l)) cs.push_back(l); X.run(1, [&](uint64_t) { l04(c, {}, &cs); }); }
  else if (k == "undo") { TC c = TC::parse(in); int f, g, b, co; in >> f >> g >> b >> co; vector<int> p, u; string w; bool un = false; while (in >> w) { if (w == "p") continue; if (w == "u") { un = true; continue; } (un ? u : p).push_back(atoi(w.c_str())); } X.run(1, [&](uint64_t) { l05(c, f, p, g, u, b, co); }); }
  else if (k == "circular" || k == "fixed" || k == "auto" || k == "auto50") { auto v = ints(); vector<int> o(v.begin() + 3, v.end()); X.run(1, [&](uint64_t) { if (k == "circular") seq_ops(mkcirc, true, false, v[0], v[1], v[2], o, k); else seq_ops(k == "fixed" ? mkfix : k == "auto" ? mkauto : mkauto50, false, k != "fixed", v[0], v[1], v[2], o, k); }); }
  else if (k == "geom") { GC g; in >> g.maxr >> g.res >> g.tol >> g.ztol >> g.f >> g.d3; vector<GP> q; GP c; while (in >> c.x >> c.y >> c.z) q.push_back(c); X.run(1, [&](uint64_t) { l13(q, g); }); }
  else if (k == "geomf") { double m; GP a{}, b{}, c{}; in >> m >> a.x >> a.y >> b.x >> b.y >> c.x >> c.y; X.run(1, [&](uint64_t) { l13f(a, b, c, m); }); }
  else if (k == "logger") return run11();
  else if (k == "stats") return run12();
  else { printf("%s", t.c_str()); return -1; }
  return X.finish("replay of one case");
}
int main_(int argc, char** argv) {
  vf::Opts o = vf::parse_opts(argc, argv); X.init(o); th = o.thorough(); string p = o.prop; if (!o.replay.empty()) { int r = replay(o.replay); if (r >= 0) return r; }
  if (p == "L01") return run01(); if (p == "L11") return run11(); if (p == "L12") return run12(); if (p == "L13") return run13(); if (p == "L02") return run02(); if (p == "L03") return run03(); if (p == "L04") return run04(); if (p == "L05") return run05(); if (p == "L06") return run0607(false, ""); if (p == "L07") return run0607(true, ""); if (p == "L08") return run08(); if (p == "L09") return run09(); if (p == "L10") return run10();
  return 3;
}
}  // namespace app
int main(int argc, char** argv) { return app::main_(argc, argv); }
