// Explorer for the locale of the host process: every file of a bounded set is welded and straightened, every short number
// is read and written, under every locale of the list as the C locale, as the C++ global locale and as both; each result
// is compared with that of the "C" locale.
#include "weldlib.hpp"
#include "arc_interpolation.h"
#include "gcode_parser.h"
#include "utilities.h"
#include <clocale>
#include <functional>
#include <iostream>
#include <locale>
#include <memory>
namespace app {
using namespace std; using std::vector;
static vf::Ctx X; static bool th = false;
// ---------------------------------------------------------------- locales
struct Comma : numpunct<char> { char do_decimal_point() const override { return ','; } char do_thousands_sep() const override { return '.'; } string do_grouping() const override { return "\1"; } string do_truename() const override { return "wahr"; } string do_falsename() const override { return "falsch"; } };
struct Loc { string name; int how; };   // how: 1 C, 2 C++, 3 both, 4 C++ with a facet of our own
static vector<Loc> locs;
static void classic() { setlocale(LC_ALL, "C"); locale::global(locale::classic()); }
static void enter(const Loc& l) {
  if (l.how == 1) setlocale(LC_ALL, l.name.c_str());
  else if (l.how == 2) locale::global(locale(locale::classic(), locale(l.name.c_str()), locale::all));
  else if (l.how == 3) locale::global(locale(l.name.c_str()));
  else if (l.how == 4) locale::global(locale(locale::classic(), new Comma));
}
static string lname(const Loc& l) { return l.how == 4 ? "C++ locale with a decimal comma and groups of one" : l.how == 1 ? "C locale " + l.name : l.how == 2 ? "C++ locale " + l.name : "locale " + l.name; }
// ---------------------------------------------------------------- what runs
struct Case { string kind, arg, text; };   // kind: weld (arg = options), straighten (arg = "fw setting"), parse, write
struct FW { int type; const char* ver; };
static const FW fws[] = {{MARLIN_1, "1.1.9.1"}, {MARLIN_2, "2.0.9.1"}, {MARLIN_2, "2.0.9.2"}, {REPETIER, "1.0.4"}, {REPETIER, "1.0.5"}, {PRUSA, "3.10.0"}, {PRUSA, "3.11.0"}, {SMOOTHIEWARE, "2021-06-19"}};
static string head(const string& t, bool strip) {   // without the header comments, which are readable text
  if (!strip) return t; string r; for (size_t i = 0; i < t.size();) { size_t e = t.find('\n', i); e = e == string::npos ? t.size() : e + 1; if (t[i] != ';' || t.compare(i, 4, "; vf") == 0) r += t.substr(i, e - i); i = e; } return r;
}
static string bits(double d) { uint64_t u; memcpy(&u, &d, 8); char b[40]; snprintf(b, 40, "%.17g/%llx", d, (unsigned long long)u); return b; }
static string once(const Case& c, const string& dir, const Loc* l) {
  string src = dir + "/s.gcode", dst = dir + "/t.gcode"; bool cpp = l && l->how != 1; stringstream sink;
  if (c.kind == "weld") {
    weld::Cfg w = weld::Cfg::parse(c.arg); vf::write_file(src, c.text); unlink(dst.c_str()); arc_welder_args a = weld::make_args(w, src, dst, weld::quiet_logger()); a.callback = weld::cb_ok; a.notification_period_seconds = 0;
    arc_welder_results q; if (l) enter(*l); { arc_welder x(a); q = x.process(); } classic();
    const arc_welder_progress& p = q.progress; char b[300]; snprintf(b, sizeof b, "\n%d %d %d %d %d %d %d", q.success, p.lines_processed, p.gcodes_processed, p.points_compressed, p.arcs_created, p.num_firmware_compensations, p.num_gcode_length_exceptions);
    string r = head(vf::read_file(dst), cpp) + b; for (const source_target_segment_statistics* s : {&p.segment_statistics, &p.segment_retraction_statistics, &p.travel_statistics}) r += " " + to_string(s->total_count_source) + " " + to_string(s->total_count_target) + " " + bits(s->total_length_source) + " " + bits(s->total_length_target);
    return r;
  }
  if (c.kind == "straighten") {
    int fw = 0, set = 0; sscanf(c.arg.c_str(), "%d %d", &fw, &set); arc_interpolation_args a; firmware_arguments& f = a.firmware_args; f.firmware_type = (firmware_types)fws[fw].type; f.version = fws[fw].ver; f.n_arc_correction = 5; f.mm_per_arc_segment = set & 1 ? 2.5 : 1; f.max_arc_segment_mm = set & 1 ? 2.5 : 1; f.min_arc_segment_mm = 0.1; f.min_circle_segments = 12; f.mm_max_arc_error = 0.01; f.g90_g91_influences_extruder = set & 2; if (set & 1) f.arc_segments_per_sec = 12.5;
    a.source_path = src; a.target_path = dst; vf::write_file(src, c.text); unlink(dst.c_str()); bool ok; if (l) enter(*l); { arc_interpolation p(a); ok = p.process(); } classic(); return head(vf::read_file(dst), cpp) + (ok ? "\n1" : "\n0");
  }
  if (c.kind == "ArcWelder" || c.kind == "ArcStraightener") {   // the program itself, in an environment with that locale
    vf::write_file(src, c.text); unlink(dst.c_str()); const char* at = getenv("VERIF_CONSOLES"); string out = dir + "/console", cmd = string("LC_ALL=") + (l ? l->name : "C") + " LANG=" + (l ? l->name : "C") + " " + (at ? at : ".") + "/" + c.kind + " " + c.arg + " " + src + " " + dst + " >" + out + " 2>&1";
    int rc = system(cmd.c_str()); string t = vf::read_file(out), r; for (size_t i = 0; i < t.size();) { size_t e = t.find('\n', i); e = e == string::npos ? t.size() : e + 1; string line = t.substr(i, e - i); size_t lg = line.find(" - arc_welder"); if (lg == 23) line = line.substr(lg); if (line.find("econd") == string::npos && line.find("elapsed") == string::npos) r += line; i = e; }
    return vf::read_file(dst) + "\n" + to_string(rc) + "\n" + r;
  }
  if (c.kind == "parse") { gcode_parser p; parsed_command d; if (l) enter(*l); bool ok = p.try_parse_gcode(c.text.c_str(), d, true); string back = ok ? d.rewrite_gcode_string() : ""; classic(); string r = ok ? "1 " + d.command : "0"; for (auto& q : d.parameters) r += " " + q.name + string(1, q.value_type) + (q.value_type == 'S' ? q.string_value : q.value_type == 'F' ? bits(q.double_value) : to_string(q.unsigned_long_value)) + "." + to_string(q.double_precision); return r + " -> " + back; }
  double v = strtod(c.arg.c_str(), nullptr); if (l) enter(*l); string r; for (int p = 0; p <= 9; p++) r += utilities::dtos(v, p) + " "; classic(); return r;
}
static void judge(const Case& c, const string& dir) {
  string rp = "#vf-loc " + c.kind + "|" + c.arg + "\n" + c.text; X.begin(rp); string base = once(c, dir, nullptr); X.inputs.insert(vf::hash_str(rp)); X.outcomes.insert(vf::hash_str(base));
  if (c.kind[0] == 'A' && base.find("\n0\n") == string::npos) X.add(X.ctr("failed"));
  for (auto& l : locs) {
    if (c.kind[0] == 'A' && l.how != 1) continue;
    string r = once(c, dir, &l); X.add(X.c_exec); X.add(X.c_trans); X.states.insert(vf::hash_str(lname(l), vf::hash_str(rp)));
    string b = l.how != 1 && (c.kind == "weld" || c.kind == "straighten") ? head(base, true) : base;
    if (r != b) { size_t q = 0; while (q < r.size() && q < b.size() && r[q] == b[q]) q++; q = q > 20 ? q - 20 : 0; X.violation(c.kind + (l.how == 1 ? ":C" : ":C++"), c.kind + " " + c.arg + " under the " + lname(l) + ": '" + r.substr(q, 60) + "' instead of '" + b.substr(q, 60) + "'", rp); }
  }
  X.sample(c.kind + " " + c.arg + " " + c.text.substr(0, 160));
}
// ---------------------------------------------------------------- files
static string fmt(double v, int style) {   // 0..: ways to write a number
  char b[60]; const int dig[] = {3, 5, 1, 3, 3, 6, 0}; snprintf(b, sizeof b, style == 3 ? "%+.*f" : "%.*f", dig[style], v); string s = b;
  if (style == 4) { if (s.compare(0, 2, "0.") == 0) s = s.substr(1); else if (s.compare(0, 3, "-0.") == 0) s = "-" + s.substr(2); while (s.back() == '0') s.pop_back(); } return s;
}
static string wfile(int style, int mode, double R, bool helix) {   // mode: bit 0 G91, bit 1 M83
  string t = "; vf\n" + string(mode & 2 ? "M83\n" : "M82\n") + "G21\nG90\nG28\nG92 E0\nG1 Z" + fmt(.3, style) + " F" + fmt(1234.5, style) + "\n"; double e = 0, px = 50 + R, py = 1060; t += "G1 X" + fmt(px, style) + " Y" + fmt(py, style) + "\n"; if (mode & 1) t += "G91\n"; double gx = atof(fmt(px, style).c_str()), gy = atof(fmt(py, style).c_str());
  for (int i = 1; i <= 14; i++) { double a = i * .3, x = 50 + R * cos(a), y = 1060 + R * sin(a); e = (mode & 2) ? .05 : e + .05; string sx = fmt(mode & 1 ? x - gx : x, style), sy = fmt(mode & 1 ? y - gy : y, style); if (mode & 1) { gx += atof(sx.c_str()); gy += atof(sy.c_str()); }
    t += "G1 X" + sx + " Y" + sy + (helix ? " Z" + fmt((mode & 1 ? 0 : .3) + .01 * ((mode & 1) ? 1 : i), style == 6 ? 2 : style) : "") + " E" + fmt(e, style == 6 ? 0 : style) + (i == 7 ? " F" + fmt(1500.25, style) + " ; vf" : "") + "\n"; }
  return t + "G1 X" + fmt(1, style) + " F3000\n; vf 1,5\nM117 1,5 1.5\n";
}
static string sfile(int style, int mode, double R) {
  string t = string(mode & 2 ? "M83\n" : "M82\n") + "G90\nG28\nG92 E0\nG1 X" + fmt(60.5, style) + " Y" + fmt(70.25, style) + " Z" + fmt(.3, style) + " F" + fmt(1234.5, style) + "\n" + (mode & 1 ? "G91\n" : ""); double e = 0;
  for (int k = 0; k < 3; k++) { double x = mode & 1 ? R : 60.5 + R * (k + 1), y = mode & 1 ? R : 70.25 + R * (k + 1); e = (mode & 2) || (mode & 1) ? .75 : e + .75; t += string(k & 1 ? "G2" : "G3") + " X" + fmt(x, style) + " Y" + fmt(y, style) + (k == 2 ? " Z" + fmt(mode & 1 ? .2 : .5, style) : "") + " I" + fmt(k & 1 ? R : 0, style) + " J" + fmt(k & 1 ? 0 : R, style) + " E" + fmt(e, style) + (k == 1 ? " F" + fmt(900.5, style) : "") + "\n"; }
  return t + "G1 X" + fmt(1.5, style) + " E" + fmt(.5, style) + "\n; vf 1,5\n";
}
static vector<Case> cases(map<string, string>& bounds) {
  vector<Case> v; vector<weld::Cfg> cs; weld::Cfg d; cs.push_back(d);
  auto add = [&](function<void(weld::Cfg&)> f) { weld::Cfg c = d; f(c); cs.push_back(c); };
  add([](weld::Cfg& c) { c.xp = 5; c.ep = 6; }); add([](weld::Cfg& c) { c.dyn = true; }); add([](weld::Cfg& c) { c.d3 = c.trav = true; }); add([](weld::Cfg& c) { c.mmseg = .5; c.minseg = 12; }); add([](weld::Cfg& c) { c.maxlen = 40; }); add([](weld::Cfg& c) { c.res = .25; c.var = 0; c.tol = .01; }); add([](weld::Cfg& c) { c.xp = 6; c.ep = 6; c.d3 = c.trav = c.dyn = c.g90 = true; c.mmseg = 1; c.minseg = 40; c.maxlen = 60; c.res = .1; });
  vector<double> Rs = {2, 5.5, 9.125, 40}; if (th) Rs = {.75, 2, 5.5, 9.125, 40, 1200.5};
  for (auto& c : cs) for (int st = 0; st < 7; st++) for (int m = 0; m < 4; m++) for (double R : Rs) for (int h = 0; h < 2; h++) v.push_back({"weld", c.str(), wfile(st, m, R, h)});
  size_t n0 = v.size(); bounds["weld"] = to_string(n0) + " files and options: 7 ways to write numbers, G90/G91 x M82/M83, " + to_string(Rs.size()) + " radii, flat and helix, " + to_string(cs.size()) + " option sets";
  for (int fw = 0; fw < 8; fw++) for (int s = 0; s < 4; s++) for (int st = 0; st < 7; st++) for (int m = 0; m < 4; m++) for (double R : Rs) v.push_back({"straighten", to_string(fw) + " " + to_string(s), sfile(st, m, R)});
  bounds["straighten"] = to_string(v.size() - n0) + " files and settings: 8 firmware versions x 4 settings x 7 ways x 4 modes x radii"; n0 = v.size();
  if (getenv("VERIF_CONSOLES")) {
    for (const char* a : {"", "-r=0.25 -t=0.1 -m=150.5", "-x=4 -e=6 -g", "-y -z", "-d", "-a=12 -s=0.75", "-v=0.125 -c=45", "-l=INFO"}) for (int st = 0; st < 7; st++) v.push_back({"ArcWelder", string(a) + " -p=NONE", wfile(st, 0, 9.125, true)});
    for (const char* a : {"-f=MARLIN_1 -m=1.25 -c=7", "-f=MARLIN_2 -v=2.0.9.1 -m=1.5 -s=12.5", "-f=MARLIN_2 -v=2.0.9.2 -b=0.25 -d=1.75", "-f=REPETIER -m=0.75 -v=1.0.4", "-f=REPETIER -v=1.0.5 -m=1.5", "-f=PRUSA -v=3.10.0 -m=1.5", "-f=PRUSA -v=3.11.0 -m=2.5 -n=0.25", "-f=SMOOTHIEWARE -e=0.015 -m=0.5"}) for (int st = 0; st < 7; st++) for (int m = 0; m < 4; m += 3) v.push_back({"ArcStraightener", a, sfile(st, m, 9.125)});
    bounds["programs"] = to_string(v.size() - n0) + " runs of the two programs, with LC_ALL naming the locale"; n0 = v.size();
  }
  const string A = "-+.,15"; function<void(string, int)> rec = [&](string s, int n) { v.push_back({"parse", "", "G1 X" + s + " Y1.5 E" + s}); if (n) for (char ch : A) rec(s + ch, n - 1); }; rec("", th ? 6 : 5);
  for (const char* i : {"", "-", "+0", "1", "-12", "123456", "98765432101234567"}) for (int n = 0; n <= 40; n++) for (const char* d : {"3", "05", "9", "1234567890"}) { string f; while ((int)f.size() < n) f += d; v.push_back({"parse", "", string("G1 X") + i + "." + f.substr(0, n) + " Y1.5" + f.substr(0, n) + " F1500"}); }
  bounds["read"] = to_string(v.size() - n0) + " lines: every number of up to " + string(th ? "6" : "5") + " characters of - + . , 1 5, and numbers with 0 to 40 decimals"; n0 = v.size();
  for (int e = -6; e <= 5; e++) for (int m = th ? 1 : 1; m < (th ? 1000 : 100); m++) for (int sg = -1; sg <= 1; sg += 2) { char b[40]; snprintf(b, 40, "%de%d", sg * m, e); v.push_back({"write", b, ""}); }
  bounds["written"] = to_string(v.size() - n0) + " values, each with 0 to 9 decimals"; return v;
}
int main_(int argc, char** argv) {
  auto o = vf::parse_opts(argc, argv); X.init(o); th = o.thorough(); auto* ob = cout.rdbuf(nullptr); locs.push_back({"", 4});
  for (const char* n : {"de_DE.UTF-8", "fr_FR.UTF-8", "tr_TR.UTF-8"}) { bool ok = setlocale(LC_ALL, n) != nullptr; classic(); if (ok) for (int h = 1; h <= 3; h++) locs.push_back({n, h}); }
  X.bounds["locales"] = ""; for (auto& l : locs) X.bounds["locales"] += lname(l) + "; ";
  if (!o.replay.empty()) { string t = vf::read_file(o.replay); size_t q = t.find('\n'), b = t.find('|'); Case c{t.substr(8, b - 8), t.substr(b + 1, q - b - 1), t.substr(q + 1)}; judge(c, X.dir); int bad = X.sh->nviol.load(); cout.rdbuf(ob); for (int i = 0; i < bad; i++) printf("BAD %s: %s\n", X.sh->v[i].sig, X.sh->v[i].msg); X.cleanup(); return bad ? 1 : 0; }
  if (locs.size() < 4) { printf("no locale with a decimal comma can be built here\n"); return 3; }
  X.ctr("failed"); vector<Case> v = cases(X.bounds); X.run(v.size(), [&](uint64_t i) { judge(v[i], X.dir); }); cout.rdbuf(ob);
  X.assumptions.push_back("under a C++ locale the header comments are not compared: they are readable text and may use its number format");
  return X.finish("the G-code written by welding and straightening, the statistics, and every number read or written are the same under each locale as under the C locale");
}
}
int main(int argc, char** argv) { return app::main_(argc, argv); }
