// Explorers of GcodeProcessorLib (properties L01..L10): every member of a bounded set of inputs or
// operation sequences is executed on the real classes and compared with a reference model.
#include "vf.hpp"
#include "refgc.hpp"
#include "array_list.h"
#include "circular_buffer.h"
#include "gcode_parser.h"
#include "gcode_position.h"
#include "gcode_comment_processor.h"
#include "utilities.h"
#include "logger.h"
#include "arc_welder.h"
#include <iostream>
#include <cfloat>
#include <deque>

namespace app {
using std::string; using std::vector; using std::to_string; using std::deque;
using vf::mix; using vf::hash_str;
vf::Ctx X; bool th = false;

struct Work { string name; uint64_t total; std::function<void(uint64_t)> fn; uint64_t chunk = 2048; };
void explore(const vector<Work>& w) {
  vector<std::pair<int, uint64_t>> jobs; for (size_t k = 0; k < w.size(); k++) for (uint64_t i = 0; i < w[k].total; i += w[k].chunk) jobs.push_back({(int)k, i});
  X.run(jobs.size(), [&](uint64_t j) { const Work& k = w[jobs[j].first]; uint64_t e = std::min(k.total, jobs[j].second + k.chunk); for (uint64_t i = jobs[j].second; i < e; i++) k.fn(i); });
}
string esc(const string& s) { string r; char b[8]; for (unsigned char c : s) { if (c < 32 || c > 126 || c == '\\') { snprintf(b, 8, "\\x%02x", c); r += b; } else r += c; } return r; }
string unesc(const string& s) { string r; for (size_t i = 0; i < s.size(); i++) if (s[i] == '\\' && i + 3 < s.size()) { r += (char)strtol(s.substr(i + 2, 2).c_str(), 0, 16); i += 3; } else r += s[i]; return r; }
uint64_t ipow(uint64_t b, int e) { uint64_t r = 1; while (e-- > 0) r *= b; return r; }
uint64_t upto(uint64_t b, int d) { uint64_t r = 0; for (int i = 0; i <= d; i++) r += ipow(b, i); return r; }
vector<int> digits(uint64_t i, uint64_t b, int d) { int n = 0; while (n <= d && i >= ipow(b, n)) { i -= ipow(b, n); n++; } vector<int> r(n); for (int k = n - 1; k >= 0; k--) { r[k] = i % b; i /= b; } return r; }   // i < upto(b,d)
string num(double v) { char b[64]; snprintf(b, 64, "%.17g", v); return b; }
void fail(const string& sig, const string& msg, const string& replay) { X.violation(sig, msg, replay + "\n"); }

// ---------------------------------------------------------------- L01 number formatting
void l01(double v, int p, bool cnt = true) {
  string s = utilities::dtos(v, (unsigned char)p); X.add(X.c_exec); X.add(X.c_trans);
  if (cnt) { X.inputs.insert(mix(*(uint64_t*)&v, p)); X.outcomes.insert(hash_str(s)); X.states.insert(hash_str(s)); }
  auto bad = [&](const char* w) { fail(string("format-") + w, string(w) + ": dtos(" + num(v) + ", " + to_string(p) + ") = \"" + esc(s) + "\"", "dtos " + num(v) + " " + to_string(p)); };
  size_t i = 0; if (i < s.size() && s[i] == '-') i++; size_t d0 = i; while (i < s.size() && isdigit((unsigned char)s[i])) i++;
  if (i == d0) return bad("no digits"); if (i - d0 > 1 && s[d0] == '0') return bad("leading zero");
  size_t dec = 0; if (i < s.size() && s[i] == '.') { i++; size_t k = i; while (i < s.size() && isdigit((unsigned char)s[i])) i++; dec = i - k; if (!dec) return bad("a point without decimals"); }
  if (i != s.size()) return bad("not a decimal number");
  if (dec != (size_t)p && !(v == 0 && (s == "0" || s == "-0"))) return bad("wrong number of decimals");
  long double u = 1; for (int k = 0; k < p; k++) u /= 10; long double e = fabsl(strtold(s.c_str(), 0) - (long double)v);
  if (!(e <= u / 2 * (1 + 1e-9L) + fabsl((long double)v) * 1.2e-16L)) return bad("not the nearest decimal");
}
int run01() {
  vector<Work> W; int K = th ? 1000000 : 200000;
  W.push_back({"k/10^q", (uint64_t)(2 * K + 1) * 9, [K](uint64_t i) { int q = i % 9; long k = (long)(i / 9) - K; double v = k; for (int j = 0; j < 1; j++) v = k / pow(10.0, q); if (i % 4096 == 0) X.begin("dtos " + num(v)); for (int p = 0; p <= 6; p++) l01(v, p); }});
  int E = 34; uint64_t M = th ? 2048 : 256;   // binary grid: mantissas 1 + m/M, exponents, +-1 ulp, both signs
  W.push_back({"binary grid", (uint64_t)(2 * E + 1) * M * 6, [M, E](uint64_t i) { int s = i % 2; i /= 2; int u = i % 3; i /= 3; double m = 1 + (i % M) / (double)M; int e = (int)(i / M) - E; double v = ldexp(m, e); v = u == 0 ? v : nextafter(v, u == 1 ? 0 : 1e300); if (s) v = -v; for (int p = 0; p <= 6; p++) l01(v, p); }});
  // halves at the last place and powers of ten, with the neighbouring doubles: carries and ties
  W.push_back({"boundaries", 17 * 12 * 9 * 11 * 2, [](uint64_t i) { int sg = i % 2; i /= 2; int n = (int)(i % 11) - 5; i /= 11; int d = i % 9 + 1; i /= 9; int q = i % 12; i /= 12; int m = (int)i - 8;
    double v = d * pow(10.0, m) + (q < 4 ? 0 : q < 8 ? 5 * pow(10.0, -(q - 2)) : -5 * pow(10.0, -(q - 6))); for (int k = 0; k < abs(n); k++) v = nextafter(v, n < 0 ? -1e300 : 1e300); if (sg) v = -v; for (int p = 0; p <= 6; p++) l01(v, p); }});
  W.push_back({"nines", 10 * 8 * 10 * 2, [](uint64_t i) { int sg = i % 2; i /= 2; int last = i % 10; i /= 10; int a = i % 8, b = i / 8; string t = string(a, '9') + (a ? "" : "0") + "." + string(b, '9') + char('0' + last); double v = atof(t.c_str()); if (sg) v = -v; for (int p = 0; p <= 6; p++) l01(v, p); }});
  W.push_back({"extremes", 1, [](uint64_t) { X.begin("extremes"); for (double v : {DBL_MAX, DBL_MIN, 4.9e-324, 1e300, 1e-300, 1e17, 1e15, 123456789012345678.0, 2e9, 4294967296.0, 9007199254740993.0, 1e22, 1e23, 0.1, 0.0, 1e100, 3e-310}) for (int s = 0; s < 2; s++) for (int p = 0; p <= 250; p += p < 20 ? 1 : 46) { double x = s ? -v : v; if (p <= 6) l01(x, p); else { X.add(X.c_exec); string r = utilities::dtos(x, p); if (r.size() > 590) fail("format-length", "too long", "dtos " + num(x)); } } 
    for (double v : {(double)INFINITY, -(double)INFINITY, (double)NAN}) for (int p = 0; p <= 6; p++) { X.add(X.c_exec); if (utilities::dtos(v, p).size() > 8) fail("format-nonfinite", "long output for a non-finite value", "dtos"); } }});
  W.push_back({"integers", 2u * (1 << 16) + 64, [](uint64_t i) { int v = i < (2u << 16) ? (int)i - (1 << 16) : (i - (2u << 16)) & 1 ? (int)(INT_MAX >> ((i - (2u << 16)) / 2)) : (int)(INT_MIN >> ((i - (2u << 16)) / 2)); X.add(X.c_exec); if (utilities::to_string(v) != std::to_string(v)) fail("int", "to_string(" + to_string(v) + ") = " + utilities::to_string(v), "int " + to_string(v)); }});
  X.bounds["k/10^q"] = "every k/10^q, |k| <= " + to_string(K) + ", q = 0..8, at precisions 0..6"; X.bounds["grid"] = "mantissa 1+m/" + to_string(M) + ", exponent -34..34, +-1 ulp, both signs; d*10^m and ties with +-5 ulps; runs of nines";
  explore(W); return X.finish("every value is formatted by the real utilities::dtos and read back exactly (long double)");
}

// ---------------------------------------------------------------- L02/L03 parser
const std::set<string>& parsable() { static std::set<string> s = {"G0","G1","G2","G3","G10","G11","G20","G21","G28","G29","G80","G90","G91","G92","M82","M83","M104","M105","M106","M109","M114","M116","M140","M141","M190","M191","M207","M208","M218","M240","M400","M563"}; return s; }
struct RP { string name; char type; double v = 0; int dec = 0; unsigned long u = 0; string s; };
struct RefLine { bool known = false, empty = true, anycmd = false, anypar = false; string cmd, code, comment; vector<RP> par; };
char up(char c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }
// number: [ ][+-][ ]digits with blanks [. digits with blanks]; false and no move when there is no digit
bool rnum(const string& s, size_t& i, double& v, int& dec) { string t; size_t j = i; while (j < s.size() && s[j] == ' ') j++; if (j < s.size() && (s[j] == '-' || s[j] == '+')) { t += s[j]; j++; } bool any = false, pt = false; dec = 0;
  for (; j < s.size(); j++) { if (s[j] == ' ') continue; if (isdigit((unsigned char)s[j])) { t += s[j]; any = true; if (pt && dec < 255) dec++; } else if (s[j] == '.' && !pt) { pt = true; t += '.'; } else break; }
  if (!any) return false; v = strtod(t.c_str(), 0); i = j; return true; }
RefLine refparse(const string& line) {
  RefLine R; size_t sc = line.find(';'); string s = line.substr(0, sc); R.code = s; if (sc != string::npos) for (char c : line.substr(sc + 1)) if (c != '\r' && c != '\n') R.comment += c;
  size_t i = 0; while (i < s.size() && s[i] == ' ') i++;
  auto params = [&]() { for (;;) { while (i < s.size() && s[i] == ' ') i++; if (i >= s.size() || !isalpha((unsigned char)s[i]) || (unsigned char)s[i] > 126) break; RP p; p.name = string(1, up(s[i++]));
      if (rnum(s, i, p.v, p.dec)) p.type = 'F'; else { p.type = 'S'; if (i < s.size() && s[i] != ' ') { p.s = s.substr(i); i = s.size(); } } R.par.push_back(p); } };
  if (i < s.size() && s[i] == '@') { while (i < s.size() && s[i] != ' ') R.cmd += up(s[i++]); R.known = true;
    if (R.cmd == "@OCTOLAPSE") { while (i < s.size() && s[i] == ' ') i++; RP p; p.type = 'N'; while (i < s.size() && s[i] != ' ') p.name += up(s[i++]); if (p.name.size()) { R.par.push_back(p); params(); } } }
  else if (i < s.size() && (up(s[i]) == 'G' || up(s[i]) == 'M')) { R.cmd = string(1, up(s[i++])); while (i < s.size() && s[i] == ' ') i++; string n; while (i < s.size() && isdigit((unsigned char)s[i])) n += s[i++];
    bool sp = i < s.size() && s[i] == ' '; while (i < s.size() && s[i] == ' ') i++; bool dot = i < s.size() && s[i] == '.';
    if (dot && (sp || n.empty())) R.anycmd = true;   // a blank or no number before a sub-command: no agreed meaning
    size_t z = 0; while (z + 1 < n.size() && n[z] == '0') z++; R.cmd += n.substr(z); R.known = !n.empty();
    if (dot) { R.cmd += '.'; i++; bool any = false; while (i < s.size() && (s[i] == ' ' || isdigit((unsigned char)s[i]))) { if (s[i] != ' ') { R.cmd += s[i]; any = true; } i++; } R.known = any; }
    if (R.known && parsable().count(R.cmd)) params(); }
  else if (i < s.size() && up(s[i]) == 'T') { i++; size_t k = i; while (k < s.size() && (s[k] == ' ' || s[k] == '\t')) k++; char c = k < s.size() ? up(s[k]) : 0; R.cmd = "T"; RP p; p.name = "T";
    if (s.find('\t') != string::npos) R.anypar = true;
    if (c == 'C' || c == 'X' || c == '?') { size_t e = k + 1; while (e < s.size() && (s[e] == ' ' || s[e] == '\t')) e++; R.known = e == s.size(); p.type = 'S'; p.s = string(1, c); }
    else if (isdigit((unsigned char)c)) { R.known = true; p.type = 'U'; string n; for (; k < s.size() && (s[k] == ' ' || isdigit((unsigned char)s[k])); k++) if (s[k] != ' ') n += s[k]; p.u = strtoul(n.c_str(), 0, 10); }
    if (R.known) R.par.push_back(p); }
  if (!R.known) { R.cmd = ""; for (char c : s) if ((unsigned char)c > 32) R.empty = false; } else R.empty = false;
  return R;
}
string show(const parsed_command& c) { string r = (c.is_known_command ? "[" : "unknown[") + esc(c.command) + "]"; for (auto& p : c.parameters) { r += " " + esc(p.name) + string(1, p.value_type); if (p.value_type == 'F') r += num(p.double_value) + "/" + to_string((int)p.double_precision); else if (p.value_type == 'U') r += to_string(p.unsigned_long_value); else r += "'" + esc(p.string_value) + "'"; } return r + (c.is_empty ? " empty" : "") + " gcode='" + esc(c.gcode) + "' comment='" + esc(c.comment) + "'"; }
bool close_num(double a, double b, size_t digits = 0) { return fabs(a - b) <= (1e-15 + (digits > 50 ? digits * 2.3e-16 : 0)) * fabs(b) + 1e-250 || a == b; }
void l02(const string& line, gcode_parser& P, bool numbers_only = false) {
  RefLine R = refparse(line); X.add(X.c_exec); X.add(X.c_trans, line.size());
  for (int pf = 1; pf >= (numbers_only ? 1 : 0); pf--) {
    parsed_command c; bool ok = P.try_parse_gcode(line.c_str(), c, pf); string w;
    if (!R.anycmd) { if (ok != c.is_known_command) w = "return value"; else if (c.is_known_command != R.known) w = "known"; else if (c.command != R.cmd) w = "command"; else if (c.is_empty != R.empty) w = "empty"; }
    if (w.empty() && pf && c.gcode != R.code) w = "text"; if (w.empty() && c.comment != R.comment) w = "comment";
    if (w.empty() && !pf) { string g; for (char ch : R.code) if ((signed char)ch > 32 || (ch == ' ' && !g.empty())) g += up(ch); g = utilities::rtrim(g); if (c.command != "M117" && c.gcode != g) w = "normalised text"; }
    if (w.empty() && !R.anycmd && !R.anypar) { if (c.parameters.size() != R.par.size()) w = "number of parameters"; else for (size_t i = 0; i < R.par.size() && w.empty(); i++) { auto& a = c.parameters[i]; auto& b = R.par[i]; if (a.name != b.name) w = "parameter name"; else if (a.value_type != b.type) w = "parameter type"; else if (b.type == 'F') { if (!close_num(a.double_value, b.v, line.size())) w = "parameter value"; else if (a.double_precision != b.dec) w = "decimals"; } else if (b.type == 'U') { if (a.unsigned_long_value != b.u) w = "integer value"; } else if (a.string_value != b.s) w = "text value"; } }
    if (!w.empty()) { string x = R.known ? "[" + R.cmd + "]" : "unknown"; for (auto& p : R.par) x += " " + p.name + string(1, p.type) + (p.type == 'F' ? num(p.v) + "/" + to_string(p.dec) : p.type == 'U' ? to_string(p.u) : "'" + esc(p.s) + "'"); return fail("parse-" + w, "wrong " + w + " of line '" + esc(line) + "' (preserve_format=" + to_string(pf) + "): got " + show(c) + ", expected " + x, "line " + esc(line)); }
    if (pf) { X.outcomes.insert(hash_str(show(c))); X.states.insert(hash_str(show(c))); }
  }
  X.inputs.insert(hash_str(line));
}
int run02() {
  vector<Work> W; static gcode_parser P;
  static const string A = "G1X0.- ;mT\t\r@gF";   // every string over this alphabet
  int d = th ? 6 : 5; W.push_back({"strings", upto(A.size(), d), [d](uint64_t i) { string s; for (int k : digits(i, A.size(), d)) s += A[k]; if (i % 512 == 0) X.begin("near line " + esc(s)); l02(s, P); }});
  static const vector<string> T = {"G", "M", "T", "1", "0", "28", "92", " ", ".", "X", "y", "-", "+", "5", ";", "Z1.5", "\t", "E", "@OCTOLAPSE", "M117", "take", "\x80", "?", "c", "\r", "g01", "  "};   // token sequences
  int td = th ? 5 : 4; W.push_back({"tokens", upto(T.size(), td), [td](uint64_t i) { string s; for (int k : digits(i, T.size(), td)) s += T[k]; if (i % 512 == 0) X.begin("near line " + esc(s)); l02(s, P); }});
  static vector<string> H; for (auto& c : parsable()) H.push_back(c); for (const char* c : {"G4", "G29.1", "M17", "M117", "M600", "G99", "M999", "g1", "m82", "G01", "G001", "G00", "G 1", "G1.2", "G1.", "@octolapse", "@pause", "T", "T0", "t1", "T 2", "Tx", "T?", "Tc", "X1", "N12 G1", "foo", "G02", "M082", "G-1", "GG1"}) H.push_back(c);
  static const vector<string> Q = {"", " X1", "X1.50", " Y-2.25", " E.5", " F1200", " z+0.30", " S", " XY", " X Y", " P\"a b\"", " I- 5", " J1 2.3 4", " T1", " O"};
  static const vector<string> C = {"", ";", "; a", " ;x;y", ";\r", "\r", " ", ";  "};
  W.push_back({"grammar", H.size() * Q.size() * Q.size() * Q.size() * C.size(), [](uint64_t i) { string c = C[i % C.size()]; i /= C.size(); string s; for (int k = 0; k < 3; k++) { s = Q[i % Q.size()] + s; i /= Q.size(); } s = H[i] + s + c; l02(s, P); }});
  W.push_back({"bytes", 256 * 256, [](uint64_t i) { if (i % 256 == 0 || i / 256 == 0) return; for (const char* pre : {"", "G1 X1 ", "G1", ";", " "}) l02(pre + string(1, (char)(i % 256)) + string(1, (char)(i / 256)) + "1", P); }});
  X.bounds["strings"] = "all strings up to length " + to_string(d) + " over 16 characters"; X.bounds["tokens"] = "all sequences of up to " + to_string(td) + " of " + to_string(T.size()) + " tokens"; X.bounds["grammar"] = to_string(H.size()) + " commands x 15^3 parameter lists x 8 endings; all byte pairs in 5 contexts";
  explore(W); return X.finish("every line is parsed by the real gcode_parser (with and without preserve_format) and by an independent parser");
}
int run03() {
  vector<Work> W; static gcode_parser P; static const string A = "0195.-+ ";
  int d = th ? 8 : 6; W.push_back({"literals", upto(8, d), [d](uint64_t i) { string s; for (int k : digits(i, 8, d)) s += A[k]; if (i % 512 == 0) X.begin("near literal " + s); l02("G1 X" + s, P, true); l02("G1 Y" + s + "Z2.50 E1", P, true); }});
  static const string B = "0123456789"; int e = th ? 7 : 5; W.push_back({"digits", ipow(10, e) * (e + 1), [e](uint64_t i) { int p = i % (e + 1); i /= e + 1; string s; for (int k = 0; k < e; k++) { s = B[i % 10] + s; i /= 10; } s.insert(p, "."); l02("G1 X" + s + "E-" + s, P, true); }});
  W.push_back({"long", 18 * 18 * 81 * 3, [](uint64_t i) { int sg = i % 3; i /= 3; int a = i % 9 + 1, b = i / 9 % 9 + 1; i /= 81; int n = i % 18, m = i / 18; string s = sg == 1 ? "-" : sg == 2 ? "+" : ""; for (int k = 0; k < n; k++) s += char('0' + (a + k * b) % 10); s += "."; for (int k = 0; k < m; k++) s += char('0' + (b + k * a) % 10); l02("G1 X" + s, P, true); }});
  W.push_back({"T", 120000, [](uint64_t i) { string s = to_string(i); l02("T" + s, P, true); l02("T " + s.substr(0, 1) + " " + s.substr(1), P, true); l02("T00" + s, P, true); l02("M218 T" + s + " X1", P, true); }});
  W.push_back({"zeros", 200, [](uint64_t i) { l02("G1 X1." + string(i, '0') + "1", P, true); l02("G1 X" + string(i, '0') + "12.5", P, true); }});
  W.push_back({"very long", 40 * 12 * 9, [](uint64_t i) { int q = i % 9 + 1; i /= 9; static const int N[12] = {0, 1, 18, 20, 39, 40, 100, 200, 250, 290, 300, 305}; int a = N[i % 12]; i /= 12; static const int D[40] = {0, 1, 17, 18, 19, 20, 38, 39, 40, 64, 65, 100, 127, 128, 129, 200, 250, 253, 254, 255, 256, 257, 258, 300, 306, 307, 308, 309, 310, 311, 320, 324, 325, 400, 511, 512, 513, 1000, 5000, 70000}; int b = D[i];
    for (int z = 0; z < 3; z++) { string s; for (int k = 0; k < a; k++) s += z == 2 ? '0' : char('0' + (q + k * 7) % 10); s += "."; for (int k = 0; k < b; k++) s += z ? '0' : char('0' + (q + k * 3) % 10); if (a + b) { l02("G1 X" + s + " Y2.50", P, true); l02("G1 X-" + s + char('0' + q) + "E+" + s, P, true); } } }});
  X.bounds["literals"] = "all literals up to length " + to_string(d) + " over '0195.-+ ' in two contexts; all " + to_string(e) + "-digit numbers with every place of the point; patterns of up to 17+17 digits; up to 200 zeros; up to 305 digits before and 70000 after the point"; explore(W);
  return X.finish("every literal is read by the real parser and compared with strtod (1e-15 relative) and the count of its decimals");
}
int run09() {
  vector<Work> W; static gcode_parser P;
  static vector<string> H; for (auto& c : parsable()) H.push_back(c); for (const char* c : {"@OCTOLAPSE TAKE", "@octolapse"}) H.push_back(c);
  static const vector<string> Q = {"", " X1", " X1.50", " Y-2.25", " E0.00001", " F1200.0", " Z+0.30", " S", " X", " P\"a b\"", " I123456.125", " J-0.5", " E1.23456", " O", " X0", " Y-0.001", " Z1000000", " E99999.99999"};
  static const vector<string> C = {"", "; a", ";x;y"};
  auto same = [](parsed_command& a, parsed_command& b, bool dec) { if (a.command != b.command || a.comment != b.comment || a.parameters.size() != b.parameters.size() || a.is_known_command != b.is_known_command) return false; for (size_t i = 0; i < a.parameters.size(); i++) { auto &p = a.parameters[i], &q = b.parameters[i]; if (p.name != q.name || p.value_type != q.value_type || p.string_value != q.string_value || p.unsigned_long_value != q.unsigned_long_value || !close_num(p.double_value, q.double_value) || (dec && p.double_precision != q.double_precision)) return false; } return true; };
  auto check = [same](const string& line, bool rw) { for (bool pf : {false, true}) { X.add(X.c_exec); X.add(X.c_trans, 2); X.inputs.insert(hash_str(line) + pf); auto parse = [pf](const string& l) { parsed_command c; P.try_parse_gcode(l.c_str(), c, pf); return c; }; parsed_command a = parse(line), b; string t = a.to_string(); b = parse(t); if (pf && (!same(a, b, true) || b.gcode != a.gcode)) return fail("to_string", "to_string() of '" + esc(line) + "' gives '" + esc(t) + "', which parses differently: " + show(b), "line " + esc(line));
    if (!rw) continue; if (!pf && (line.find('"') != string::npos || line.find("@o") != string::npos)) continue; string r = a.rewrite_gcode_string(); parsed_command c = parse(r); X.outcomes.insert(hash_str(r)); X.states.insert(hash_str(r)); if (!same(a, c, true)) return fail("rewrite", "rewrite_gcode_string() of '" + esc(line) + "' gives '" + esc(r) + "', which parses differently: " + show(c), "line " + esc(line)); } };
  int np = th ? 4 : 3; uint64_t q = Q.size(); W.push_back({"grammar", H.size() * ipow(q, np) * C.size(), [check, np](uint64_t i) { string c = C[i % C.size()]; i /= C.size(); string s; for (int k = 0; k < np; k++) { s = Q[i % Q.size()] + s; i /= Q.size(); } if (i % 64 == 0) X.begin("near line " + H[i] + s); check(H[i] + s + c, true); }});
  W.push_back({"T", 1000, [check](uint64_t i) { for (const char* c : {"", "; c"}) { check("T" + to_string(i) + c, true); if (i == 0) for (const char* t : {"TC", "Tx", "T?", "T ?"}) check(string(t) + c, true); } }});
  static const string A = "G1X0.- ;mT@?"; int d = th ? 7 : 6; W.push_back({"blanks", 14 * 6 * 8 * 6 * 9, [check](uint64_t i) { string s(i % 14, (i / 7) % 3 ? ' ' : '\t'); i /= 14; static const char* c[] = {"", "G1", "G28", "M104 S200", "X", "@OCTOLAPSE TAKE"}; s += c[i % 6]; i /= 6; static const char* p[] = {"", " ", " X1", "X1.50", "  Y-2", " S", "\t", " X1 "}; s += p[i % 8]; i /= 8; s += string(i % 6, ' '); i /= 6; static const char* t[] = {"", ";", "; a", ";a", ";  a  ", ";;", ";\t", ";a\r", "\r"}; s += t[i]; check(s, false); }});
  W.push_back({"strings", upto(A.size(), d), [check, d](uint64_t i) { string s; for (int k : digits(i, A.size(), d)) s += A[k]; check(s, false); }});
  X.bounds["grammar"] = to_string(H.size()) + " parsed commands x " + to_string(q) + "^" + to_string(np) + " parameter lists x 3 comments (rewrite and to_string); all strings up to length " + to_string(d) + " over 12 characters (to_string); up to 13 leading blanks x commands x parameters x trailing blanks x comments; rewriting also without preserve_format"; explore(W);
  return X.finish("every line is parsed, rewritten by the real code and parsed again");
}

// ---------------------------------------------------------------- L06/L07 containers
template <class C> string contents(const C& c) { string r = to_string(c.count()) + ":"; for (int i = 0; i < c.count(); i++) r += to_string(c[i]) + ","; return r; }
string contents(const deque<int>& c) { string r = to_string(c.size()) + ":"; for (int v : c) r += to_string(v) + ","; return r; }
const char* OPN[] = {"push_front", "push_back", "pop_front", "pop_back", "copy-out", "copy-in", "resize+1", "clear", "resize-exact", "initialize", "copy-small", "resize-value"};
// one operation sequence from a start state (size, offset of the front, number of items)
template <class C> void seq_ops(C* (*mk)(int), bool bounded, bool autogrow, int size, int rot, int fill, const vector<int>& ops, const string& tag) {
  string rp = tag + " " + to_string(size) + " " + to_string(rot) + " " + to_string(fill); for (int o : ops) rp += " " + to_string(o); X.begin(rp);
  C* c = mk(size); deque<int> d; int next = 1, cap = c->get_max_size();
  for (int i = 0; i < rot; i++) { c->push_back(-1); c->pop_front(); } for (int i = 0; i < fill; i++) { c->push_back(next); d.push_back(next++); } cap = c->get_max_size();
  string trace; auto bad = [&](const string& w, const string& m) { string t = "size " + to_string(size) + ", front moved by " + to_string(rot) + ", " + to_string(fill) + " items, then"; for (int o : ops) t += string(" ") + OPN[o]; fail(tag + "-" + w, m + " after " + t + ": got " + contents(*c) + " expected " + contents(d), rp); };
  uint64_t h = mix(size, hash_str(contents(d)));
  for (int o : ops) {
    X.add(X.c_trans); bool full = (int)d.size() == cap;
    if (o == 0 || o == 1) { bool thr = false; try { o ? c->push_back(next) : c->push_front(next); } catch (std::exception&) { thr = true; }
      if (bounded) { if (thr) { bad("throw", "push threw"); break; } if (o) { d.push_back(next); if (full) d.pop_front(); } else { d.push_front(next); if (full) d.pop_back(); } }
      else if (full && !autogrow) { if (!thr) { bad("nothrow", "push on a full list of fixed size did not throw"); break; } }
      else { if (thr) { bad("throw", "push threw"); break; } if (o) d.push_back(next); else d.push_front(next); if (full) cap = c->get_max_size(); if ((int)d.size() > cap) { bad("cap", "no growth"); break; } }
      next++; }
    else if (o == 2 || o == 3) { bool thr = false; int v = 0; try { v = o == 2 ? c->pop_front() : c->pop_back(); } catch (std::exception&) { thr = true; } if (thr != d.empty()) { bad("pop-throw", "pop on " + string(d.empty() ? "empty did not throw" : "items threw")); break; }
      if (!thr) { int e = o == 2 ? d.front() : d.back(); if (v != e) { bad("pop", string(OPN[o]) + " returned " + to_string(v) + ", not " + to_string(e)); break; } if (o == 2) d.pop_front(); else d.pop_back(); } }
    else if (o == 4 || o == 10) { C* e = mk(o == 4 ? size : 1); if (o == 10 || true) e->push_back(77); e->copy(*c); if (contents(*e) != contents(d)) { bad("copy", "copy has " + contents(*e) + ";"); delete e; break; } if (!autogrow && !bounded) { } delete c; c = e; cap = c->get_max_size(); }
    else if (o == 5) { C* e = mk(size); e->push_back(55); if (size > 1) e->push_back(56); if (size > 1) e->pop_front(); string before = contents(*e); c->copy(*e); d.clear(); for (int i = 0; i < e->count(); i++) d.push_back((*e)[i]); if (contents(*e) != before) { bad("copy-src", "source changed"); } delete e; cap = c->get_max_size(); }
    else if (o == 6) { c->resize(cap + 1); cap++; }
    else if (o == 7) { c->clear(); d.clear(); }
    else if (o == 8) { int n = std::max<int>(1, d.size()); c->resize(n); cap = n; }
    else if (o == 9) { if constexpr (std::is_same<C, circular_buffer<int>>::value) { c->initialize(42); d.clear(); for (int i = 0; i < cap; i++) if (c->get(i) != 42) { bad("initialize", "item " + to_string(i) + " not initialised"); break; } } }
    else if (o == 11) { if constexpr (std::is_same<C, circular_buffer<int>>::value) { c->resize(cap + 2, 43); cap += 2; for (int i = (int)d.size(); i < cap; i++) if (c->get(i) != 43) { bad("resize-value", "new item not initialised"); break; } } }
    if (c->get_max_size() != cap) { bad("max", "size is " + to_string(c->get_max_size()) + ", not " + to_string(cap)); break; }
    if (contents(*c) != contents(d)) { bad("contents", "wrong contents"); break; }
    bool g = true; for (int i = 0; i < (int)d.size(); i++) g = g && c->get(i) == d[i]; if (!g) { bad("get", "get differs from []"); break; }
    h = mix(h, hash_str(contents(d)) + cap); X.states.insert(mix(hash_str(contents(d)), cap * 8 + (full ? 1 : 0)));
  }
  X.add(X.c_exec); X.inputs.insert(hash_str(rp)); X.outcomes.insert(h); delete c;
}
array_list<int>* mkfix(int n) { return new array_list<int>(n); }
template <int S> struct Small : array_list<int> { };
array_list<int>* mkauto(int) { array_list<int>* a = new array_list<int>(); a->resize(2); return a; }   // grows from 2
array_list<int>* mkauto50(int) { return new array_list<int>(); }
circular_buffer<int>* mkcirc(int n) { return new circular_buffer<int>(n); }
int run0607(bool circ, const string& only) {
  vector<Work> W; const vector<int> ops = circ ? vector<int>{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 11} : vector<int>{0, 1, 2, 3, 4, 5, 6, 7, 8}; uint64_t b = ops.size(); int d = circ ? (th ? 6 : 4) : (th ? 7 : 5);
  struct S { int size, rot, fill; }; static vector<S> st; st.clear(); for (int n = 1; n <= (circ ? 4 : 3); n++) for (int r = 0; r < n; r++) for (int f = 0; f <= n; f++) st.push_back({n, r, f});
  static vector<int> o2; o2 = ops; auto dec = [](uint64_t i, int d) { vector<int> v; for (int k : digits(i, o2.size(), d)) v.push_back(o2[k]); return v; };
  if (circ) W.push_back({"circular", st.size() * upto(b, d), [d, dec](uint64_t i) { S s = st[i % st.size()]; seq_ops(mkcirc, true, false, s.size, s.rot, s.fill, dec(i / st.size(), d), "circular"); }});
  else { W.push_back({"fixed", st.size() * upto(b, d), [d, dec](uint64_t i) { S s = st[i % st.size()]; seq_ops(mkfix, false, false, s.size, s.rot, s.fill, dec(i / st.size(), d), "fixed"); }});
    static vector<S> sa; sa.clear(); for (int r = 0; r < 2; r++) for (int f = 0; f <= 5; f++) sa.push_back({2, r, f});
    W.push_back({"auto", sa.size() * upto(b, d), [d, dec](uint64_t i) { S s = sa[i % sa.size()]; seq_ops(mkauto, false, true, s.size, s.rot, s.fill, dec(i / sa.size(), d), "auto"); }});
    int d5 = th ? 4 : 3; W.push_back({"auto50", 51 * 12 * upto(b, d5), [d5, dec](uint64_t i) { int r = i % 51; i /= 51; int f = 44 + i % 12; seq_ops(mkauto50, false, true, 50, r, f, dec(i / 12, d5), "auto50"); }}); }
  // long alternating histories: every two-phase pattern a pushes, b pops ... through several growths
  W.push_back({"long", 4 * 4 * 60 * 60, [circ](uint64_t i) { int p = i % 4; i /= 4; int q = i % 4; i /= 4; int a = i % 60 + 1, b2 = i / 60 + 1; vector<int> o; for (int r = 0; r < 3; r++) { for (int k = 0; k < a; k++) o.push_back(p < 2 ? p : k & 1); for (int k = 0; k < std::min(b2, a); k++) o.push_back(q < 2 ? 2 + q : 2 + (k & 1)); if (p == 3) o.push_back(4); } if (circ) seq_ops(mkcirc, true, false, 7, 3, 0, o, "circular"); else seq_ops(mkauto, false, true, 2, 1, 0, o, "auto"); }, 64});
  X.bounds["operations"] = "all sequences of up to " + to_string(d) + " of " + to_string(b) + " operations from every (size, front, fill) with size <= " + to_string(circ ? 4 : 3) + (circ ? "" : ", growing lists starting at 2 and at 50 items") + "; 57600 long push/pop patterns";
  X.assumptions.push_back("indices are in range and resize is to no fewer than the present items (the callers' contract)");
  explore(W); return X.finish("each operation runs on the real template and on std::deque; contents, order, count, size, returned items and exceptions are compared after every step");
}

// ---------------------------------------------------------------- L08 comments
struct RefCls { int kind = 0, sect = 0; bool off = false; };  // kind: 0 unknown 1 slic3r 2 cura 3 s3d ; sect: feature number, 0 none
int cura_sect(const string& c) { return c == "TYPE:WALL-OUTER" ? feature_type_outer_perimeter_feature : c == "TYPE:WALL-INNER" ? feature_type_inner_perimeter_feature : c == "TYPE:FILL" ? feature_type_infill_feature : c == "TYPE:SKIN" ? feature_type_solid_infill_feature : c == "TYPE:SKIRT" ? feature_type_skirt_feature : (c.compare(0, 6, "LAYER:") == 0 || c.compare(0, 12, "MESH:NONMESH") == 0) ? -2 : -1; }
int s3d_sect(string c) { if (c.compare(0, 8, "feature ") == 0) c = c.substr(8); return c == "outer perimeter" ? feature_type_outer_perimeter_feature : c == "inner perimeter" ? feature_type_inner_perimeter_feature : c == "infill" ? feature_type_infill_feature : c == "solid layer" ? feature_type_solid_infill_feature : c == "skirt" ? feature_type_skirt_feature : c == "ooze shield" ? feature_type_ooze_shield_feature : c == "prime pillar" ? feature_type_prime_pillar_feature : c == "gap fill" ? feature_type_gap_fill_feature : -1; }
int slic_sect(const string& c) { return c == "CP TOOLCHANGE WIPE" ? feature_type_prime_pillar_feature : c == "CP TOOLCHANGE END" ? 0 : -1; }
int slic_inline(const string& c) { return c == "perimeter" || c == "move to first perimeter point" ? feature_type_unknown_perimeter_feature : c == "infill" || c == "move to first infill point" ? feature_type_infill_feature : c == "infill(bridge)" || c == "move to first infill(bridge) point" ? feature_type_bridge_feature : c == "skirt" || c == "move to first skirt point" ? feature_type_skirt_feature : -1; }
void l08(const vector<string>& ev, const string& rp) {
  X.begin(rp); gcode_comment_processor P; RefCls R; int tag = 0, n = 0;
  for (auto& e0 : ev) { n++; string e = e0.substr(1);
    if (e0[0] == 'c') { string c = e; P.update(c);   // a comment line
      if (R.kind == 0 || R.kind == 2) { int s = cura_sect(e); if (s == -2) R.sect = 0; else if (s >= 0) { R.sect = s; R.kind = 2; goto next; } }
      if (R.kind == 0 || R.kind == 3) { int s = s3d_sect(e); if (s >= 0) { R.sect = s; R.kind = 3; goto next; } }
      if (R.kind == 0 || R.kind == 1) { int s = slic_sect(e); if (s >= 0) { R.sect = s; R.kind = 1; } }
      next:; }
    { position q(1); q.feature_type_tag = 0; if (e0[0] == 'i') q.command.comment = e; P.update(q); tag = 0; if (R.sect) tag = R.sect; else if (e0[0] == 'i' && (R.kind == 0 || R.kind == 1)) { int s = slic_inline(ref::trim(e)); if (s >= 0) { tag = s; R.kind = 1; } }
      X.add(X.c_trans); X.states.insert(mix(R.kind, R.sect * 64 + tag)); int want = R.kind == 1 ? comment_process_type_slic3r_pe : R.kind == 2 ? comment_process_type_cura : R.kind == 3 ? comment_process_type_simplify_3d : comment_process_type_unknown;
      if (q.feature_type_tag != tag || P.get_comment_process_type() != want) { string m; for (int k = 0; k < n; k++) m += " | " + ev[k]; return fail("feature-" + e0.substr(0, 24), "feature " + to_string(q.feature_type_tag) + ", expected " + to_string(tag) + "; slicer " + to_string(P.get_comment_process_type()) + ", expected " + to_string(want) + " after" + m, rp); } } }
  X.add(X.c_exec); X.inputs.insert(hash_str(rp)); X.outcomes.insert(mix(R.kind, R.sect * 64 + tag));
}
const vector<string>& ev08() { static vector<string> v; if (v.empty()) { for (const char* s : {"TYPE:WALL-OUTER", "TYPE:WALL-INNER", "TYPE:FILL", "TYPE:SKIN", "TYPE:SKIRT", "LAYER:3", "MESH:NONMESH", "feature outer perimeter", "feature inner perimeter", "feature infill", "feature solid layer", "feature skirt", "feature ooze shield", "feature prime pillar", "feature gap fill", "outer perimeter", "inner perimeter", "infill", "solid layer", "skirt", "ooze shield", "prime pillar", "gap fill", "CP TOOLCHANGE WIPE", "CP TOOLCHANGE END", "", "note", "TYPE:UNKNOWN", "feature", "xLAYER:1", "LAYER:12 of 30", "MESH:NONMESH 2"}) v.push_back(string("c") + s);
    for (const char* s : {" perimeter", "perimeter", "move to first perimeter point", " infill", "move to first infill point", "infill(bridge)", " move to first infill(bridge) point", "skirt", " move to first skirt point", "", "note", "TYPE:FILL", " perimeters"}) v.push_back(string("i") + s); } return v; }
// the same through the parser and the tracker, behind moves (or alone on a line)
const vector<string>& ln08() { static vector<string> v; if (v.empty()) for (const char* c : {"", "perimeter", "move to first perimeter point", "infill", "infill(bridge)", "move to first skirt point", "perimeters", "skirt \t"}) for (const char* m : {"G1 X%d E1 ; %s", "G1 X%d E1;%s", "M204 S%d ;  %s", "; %s"}) v.push_back(string(m) + "|" + c); return v; }
void l08_lines(const vector<int>& ev, const string& rp) {
  X.begin(rp); gcode_position_args a; a.set_num_extruders(1); gcode_position g(a); gcode_parser p; int n = 0;
  for (int k : ev) { string e = ln08()[k]; size_t q = e.find('|'); string c = e.substr(q + 1), l = e.substr(0, q); n++; size_t d = l.find("%d"); if (d != string::npos) l.replace(d, 2, to_string(n)); l.replace(l.find("%s"), 2, c);
    parsed_command cmd; p.try_parse_gcode(l.c_str(), cmd); g.update(cmd, n, n, -1); int s = slic_inline(ref::trim(c)), want = s >= 0 ? s : 0, got = g.get_current_position().feature_type_tag; X.add(X.c_trans); X.states.insert(mix(900 + want, k));
    if (got != want) return fail("tracked-" + ref::trim(c), "the feature after the line '" + l + "' is " + to_string(got) + ", expected " + to_string(want), rp); }
  X.add(X.c_exec); X.inputs.insert(hash_str(rp));
}
int run08() { vector<Work> W; int d = th ? 5 : 4; static int dd; dd = d; auto& E = ev08(); W.push_back({"events", upto(E.size(), d), [](uint64_t i) { vector<string> s; string rp = "events"; for (int k : digits(i, ev08().size(), dd)) { s.push_back(ev08()[k]); rp += " " + to_string(k); } l08(s, rp); }});
  W.push_back({"lines", upto(ln08().size(), 3), [](uint64_t i) { string rp = "lines"; vector<int> k = digits(i, ln08().size(), 3); for (int x : k) rp += " " + to_string(x); l08_lines(k, rp); }}); X.bounds["lines"] = "all sequences of up to 3 of " + to_string(ln08().size()) + " lines through the parser and the tracker";
  X.bounds["events"] = "all sequences of up to " + to_string(d) + " of " + to_string(E.size()) + " comments (own line or behind a move)"; explore(W); return X.finish("every sequence runs on the real gcode_comment_processor and on a table-driven reference"); }
}  // namespace app
#include "libpos.hpp"
