// Explorer for what a conversion leaves behind in its process: every outcome of a bounded set of weldings and straightenings
// (done, refused at each progress report, failing in each way), every short history of trackers and lists, each run twice
// after a first run; counted are the blocks of memory (by new and new[]), open files and files in the folder.
#include <cstdlib>
#include <cstdint>
#include <malloc.h>
#include <new>
static long n_new = 0, n_arr = 0, n_bytes = 0, bad_free = 0, peak = 0;
// the kind of each block is kept before it, so that a wrong delete is seen, too
static const uint64_t TAG1 = 0x5ca1a45ca1a45ca1ull, TAG2 = 0xa44a7a44a7a44a7aull;
static inline void grow(std::size_t n) { n_bytes += n; if (n_bytes > peak) peak = n_bytes; }
static void* take(std::size_t n, uint64_t tag) { char* p = (char*)malloc(n + 32); if (!p) throw std::bad_alloc(); *(uint64_t*)p = tag; *(uint64_t*)(p + 8) = n; return p + 32; }
static void give(void* q, uint64_t tag) { if (!q) return; char* p = (char*)q - 32; if (*(uint64_t*)p != tag) bad_free++; n_bytes -= *(uint64_t*)(p + 8); *(uint64_t*)p = 0; free(p); }
void* operator new(std::size_t n) { n_new++; grow(n); return take(n, TAG1); }
void* operator new[](std::size_t n) { n_arr++; grow(n); return take(n, TAG2); }
void operator delete(void* p) noexcept { if (p) n_new--; give(p, TAG1); }
void operator delete[](void* p) noexcept { if (p) n_arr--; give(p, TAG2); }
void operator delete(void* p, std::size_t) noexcept { operator delete(p); }
void operator delete[](void* p, std::size_t) noexcept { operator delete[](p); }
#include "weldlib.hpp"
#include "arc_interpolation.h"
#include "gcode_parser.h"
#include "gcode_position.h"
#include "array_list.h"
#include "circular_buffer.h"
#include "utilities.h"
#include <dirent.h>
#include <functional>
#include <iostream>
#include <memory>
namespace app {
using namespace std; using std::vector;
static vf::Ctx X; static bool th = false;
struct NullBuf : streambuf { int overflow(int c) override { return c == EOF ? 0 : c; } streamsize xsputn(const char*, streamsize n) override { return n; } };
static NullBuf nb;
struct Snap { long a, b, bytes, bad; int fds; };
static int fds() { int n = 0; DIR* d = opendir("/proc/self/fd"); if (!d) return -1; while (readdir(d)) n++; closedir(d); return n; }
static Snap snap() { return {n_new, n_arr, n_bytes, bad_free, fds()}; }
static string names(const string& d) { vector<string> n; DIR* p = opendir(d.c_str()); while (dirent* e = readdir(p)) if (e->d_name[0] != '.') n.push_back(e->d_name); closedir(p); sort(n.begin(), n.end()); string r; for (auto& x : n) r += x + " "; return r; }

// ---------------------------------------------------------------- conversions
static const char* outcomes[] = {"to a new file", "over another file", "in place", "without a source", "of a folder", "into a missing folder", "onto a folder", "onto a full device", "not started", "twice", "in place, twice"};
static const int NOUT = 11;
static int refuse = -1, calls = 0; static bool answer(arc_welder_progress, logger*, int) { return calls++ != refuse; }
static logger* lg[2];
struct Case { int kind, out, k; string arg, text; };   // kind: 0 weld, 1 straighten, 2 trackers and lists; k: the refused report (-1: none) or the log level
static const struct { int type; const char* ver; } fws[] = {{MARLIN_1, "1.1.9.1"}, {MARLIN_2, "2.0.9.1"}, {MARLIN_2, "2.0.9.2"}, {REPETIER, "1.0.4"}, {REPETIER, "1.0.5"}, {PRUSA, "3.10.0"}, {PRUSA, "3.11.0"}, {SMOOTHIEWARE, "2021-06-19"}};
static void prep(const Case& c, const string& d, string& s, string& t, string& want) {
  mkdir(d.c_str(), 0700); for (const char* f : {"/s.gcode", "/t.gcode"}) unlink((d + f).c_str()); mkdir((d + "/folder").c_str(), 0700);
  s = d + "/s.gcode"; t = c.out == 2 || c.out == 10 ? s : d + "/t.gcode"; want = "folder s.gcode ";
  if (c.out != 3) vf::write_file(s, c.text); else want = "folder ";
  if (c.out == 1) vf::write_file(t, "old");
  if (c.out == 4) s = d + "/folder"; if (c.out == 5) t = d + "/none/t.gcode"; if (c.out == 6) t = d + "/folder"; if (c.out == 7) t = "/dev/full";
  if (c.out == 0 || c.out == 1 || c.out == 9) want = "folder s.gcode t.gcode ";
}
static bool ended;
static void convert(const Case& c, const string& s, const string& t) {
  ended = true;
  if (c.kind == 0) {
    refuse = c.k % 1000 - 1; calls = 0; arc_welder_args a = weld::make_args(weld::Cfg::parse(c.arg), s, t, lg[c.k >= 1000]); a.callback = answer; a.notification_period_seconds = -1; arc_welder w(a);
    if (c.out != 8) { w.process(); if (c.out >= 9) w.process(); } ended = refuse < 0 || calls <= refuse;
  } else {
    int fw = 0, set = 0; sscanf(c.arg.c_str(), "%d %d", &fw, &set); arc_interpolation_args a; firmware_arguments& f = a.firmware_args; f.firmware_type = (firmware_types)fws[fw].type; f.version = fws[fw].ver; f.n_arc_correction = 5; f.mm_per_arc_segment = 1; f.max_arc_segment_mm = 1; f.min_arc_segment_mm = 0.1; f.min_circle_segments = 12; f.mm_max_arc_error = 0.01; f.g90_g91_influences_extruder = set & 1;
    a.source_path = s; a.target_path = t; arc_interpolation p(a); if (c.out != 8) { p.process(); if (c.out >= 9) p.process(); }
  }
}
// ---------------------------------------------------------------- trackers and lists: every short history
static const char* cmds[] = {"G1 X10 Y10 E1 F1200", "G92 E0", "T1", "T7", "G91", "G28", "M218 T1 X2", "; perimeter", "G1 E-1", "undo", "junk"};
static const int NCMD = 11;
static void tracker(const vector<int>& h, int ext, int how) {
  gcode_position_args a; a.num_extruders = 1; a.set_num_extruders(ext); a.shared_extruder = false; a.position_buffer_size = 3; if (how & 1) { gcode_position_args b(a), e; e = b; e = e; a = e; a.set_num_extruders(ext + 1); }
  unique_ptr<gcode_position> p(new gcode_position(a)); gcode_parser q; int n = 0;
  for (int k : h) { string l = cmds[k]; if (l == "undo") { if (n) { p->undo_update(); n--; } continue; } parsed_command c; q.try_parse_gcode(l.c_str(), c, how & 2); p->update(c, n, n, n); n = n < 1 ? n + 1 : n; }
  position x = p->get_current_position(), y(x), z; z = y; z = z; z.set_num_extruders(3); z = x; if (how & 4) { array_list<string> s; gcode_position_args k = a; k = k; }
}
template <class L> static void list(const vector<int>& h) {   // elements are strings too long for the object itself
  L a(2), b(1), d; string v = "an item that does not fit into the string object";
  for (int k : h) try { switch (k) { case 0: a.push_back(v); break; case 1: a.push_front(v); break; case 2: if (a.count()) a.pop_back(); break; case 3: if (a.count()) a.pop_front(); break; case 4: a.clear(); break; case 5: b.copy(a); break; case 6: a.copy(b); break; case 7: a.resize(a.count() + 3); break; case 8: d.push_back(v); d.copy(a); break; } } catch (const exception&) {}   // (a full list refuses)
}
static void lib(const Case& c) {
  vector<int> h; for (char ch : c.text) h.push_back(ch - 'a');
  if (c.out == 0) tracker(h, atoi(c.arg.c_str()), c.k); else if (c.out == 1) list<array_list<string>>(h); else if (c.out == 2) list<circular_buffer<string>>(h);
  else { vector<string> n; vector<int> l; for (int k : h) { n.push_back("logger number " + to_string(k)); l.push_back(10 * k); } logger g(n, l); g.set_log_level(log_levels::INFO); for (size_t k = 0; k < n.size(); k++) g.log((int)k, log_levels::ERROR, "a message that is long enough not to fit into the object"); }
}
// ----------------------------------------------------------------
// what a long file takes: the same lines and a circle, 100 and 1000 times (the welder keeps lines until the next arc is written)
static const struct { const char* name; string text; } bodies[] = {
  {"comments", ";LAYER:7\n; a comment that is longer than the string object itself\n\n"}, {"other commands", "M117 layer 7 of very many layers\nM104 S200 ; hot\nM204 S1000\n"}, {"no commands", "this is no command at all, but long\nG\n"},
  {"moves", "G1 X10 Y10 E1 F1200\nG1 X30 Y3 E1.5 F1200\nG92 E0\n"}, {"retractions", "G1 X10 Y10 E1 F1200\nG1 E-1\nG0 X30 Y3 ; travel\nG1 E1 F1200\nG92 E0\nG10\nG11\n"}, {"tools", "T1\nG1 X9 Y9 E1\nT0\nG92 E0\nM563 P1 D1\nM218 T1 X1\n"}, {"modes", "G91\nG1 X1\nG1 X-1\nG90\nM83\nG1 X1 Y1 E1\nM82\nG92 E0\nG20\nG1 X1 Y2\nG21\nG28\n"},
  {"arcs already there", "G2 X20 Y20 I5 J5 E1\nG3 X10 Y10 R9 E2 ; R form\nG92 E0\n"}, {"circles", ""}, {"arcs with comments", ""}, {"helixes", ""}, {"features", ";TYPE:WALL-OUTER\nG1 X1 Y1 E1 ; perimeter\nG1 X2 Y2 E2 ; infill\nG92 E0\n"}, {"travel only", "G0 X1 Y1\nG0 X2 Y2\nG0 X3 Y2.5\n"}, {"one point", "G1 X1 Y1\nG1 X1 Y1\nG1 X1 Y1 E0\n"}};
static const int NBODY = sizeof(bodies) / sizeof(bodies[0]);
static string body(int k) { if (bodies[k].text.size()) return bodies[k].text; string t = k == 10 ? "G1 X59 Y60 Z1\n" : "G1 X59 Y60\n"; char b[200]; for (int i = 1; i <= 45; i++) { double a = i * .14; snprintf(b, 200, "G1 X%.3f Y%.3f%s E%.3f%s\n", 50 + 9 * cos(a), 60 + 9 * sin(a), k == 10 ? (" Z" + to_string(1 + i * .01)).c_str() : "", i * .05, k == 9 ? " ; a comment that is kept" : ""); t += b; } return t + "G92 E0\n"; }
static long top(const Case& c, const string& dir, int reps) {
  string s, t, want, text = "M82\nG90\nG28\nG92 E0\nG1 Z0.2 F600\n", b = body(c.out) + (c.out == 8 ? "" : body(8)); for (int i = 0; i < reps; i++) text += b; Case d = c; d.text = text; d.kind = c.kind - 3; d.out = 0; prep(d, dir + "/c", s, t, want); d.text = text = ""; d.text.shrink_to_fit(); text.shrink_to_fit(); long p = n_bytes; peak = p; convert(d, s, t); return peak - p;
}
static string title(const Case& c) {
  if (c.kind >= 3) return string(c.kind == 3 ? "welding " : "straightening ") + bodies[c.out].name + (c.k ? ", all messages" : "") + " [" + c.arg + "]";
  if (c.kind == 2) return string(c.out == 0 ? "tracker (" + c.arg + " extruders, variant " + to_string(c.k) + ")" : c.out == 1 ? "array_list" : c.out == 2 ? "circular_buffer" : "logger") + " after " + c.text;
  return string(c.kind ? "straightening " : "welding ") + outcomes[c.out] + (c.kind == 0 && c.k % 1000 ? ", refused at report " + to_string(c.k % 1000) : "") + (c.k >= 1000 ? ", all messages" : "") + " [" + c.arg + "]";
}
static void judge(const Case& c, const string& dir) {
  string rp = "#vf-leak " + to_string(c.kind) + " " + to_string(c.out) + " " + to_string(c.k) + "|" + c.arg + "\n" + c.text; X.begin(rp); X.inputs.insert(vf::hash_str(rp)); Snap a, b; string s, t, want, got;
  if (c.kind >= 3) { top(c, dir, 2); long x = top(c, dir, 100), y = top(c, dir, 1000); X.add(X.c_exec, 2); X.add(X.c_trans, 2); X.states.insert(vf::hash_str(rp)); X.outcomes.insert(y / 1024); X.sample(title(c) + ": " + to_string(x) + " bytes, " + to_string(y) + " bytes"); if (y > x + 1024) X.violation("growth", title(c) + " takes " + to_string(y) + " bytes of memory when the file has 1000 times the same lines, but " + to_string(x) + " when 100 times", rp); return; }
  for (int r = 0; r < 3; r++) {   // the first run fills what stays for good (statics, buffers of the streams)
    if (c.kind < 2) prep(c, dir + "/c", s, t, want); if (r == 0 && c.kind < 2) { a = snap(); convert(c, s, t); b = snap(); continue; }
    a = snap(); if (c.kind < 2) convert(c, s, t); else lib(c); b = snap();
    if (c.kind == 2) { if (r == 0 && (b.a != a.a || b.b != a.b || b.bytes != a.bytes || b.fds != a.fds)) continue; r = 2; }
    X.add(X.c_exec); X.add(X.c_trans);
    string w; if (b.a != a.a) w += to_string(b.a - a.a) + " blocks of memory "; if (b.b != a.b) w += to_string(b.b - a.b) + " arrays "; if (w.size() || b.bytes != a.bytes) w += "(" + to_string(b.bytes - a.bytes) + " bytes) "; if (b.fds != a.fds) w += to_string(b.fds - a.fds) + " open files ";
    if (w.size()) X.violation(b.fds != a.fds ? "files" : "memory", title(c) + " leaves " + w + "behind", rp);
    if (b.bad != a.bad) X.violation("delete", title(c) + ": a block is freed that was not taken, or by the wrong delete", rp);
    if (c.kind < 2 && c.out != 8) { got = names(dir + "/c"); string g2 = got; if (got != want && !(c.out == 4 || (c.kind == 1 && c.out == 3)) && !(c.kind == 0 && !ended && (c.out == 0 || c.out == 1))) X.violation("folder", title(c) + ": the folder holds " + got + "instead of " + want, rp); for (size_t q = 0; q < got.size();) { size_t e = got.find(' ', q); string f = got.substr(q, e - q); if (f != "folder") unlink((dir + "/c/" + f).c_str()); q = e + 1; } }
    X.states.insert(vf::hash_str(rp, vf::hash_str(got)));
  }
  X.outcomes.insert(vf::hash_str(got, c.kind * 16 + c.out)); X.sample(title(c));
}
static string circ(int mode, int n, const string& extra) {
  string t = string(mode & 1 ? "; generated by PrusaSlicer\n" : "") + (mode & 2 ? "M83\n" : "M82\n") + "G90\nG28\nG92 E0\nG1 Z0.2 F600\n"; double e = 0; char b[200];
  for (int i = 0; i < n; i++) { double a = i * .14; e = (mode & 2) ? .05 : e + .05; snprintf(b, 200, "%s X%.3f Y%.3f%s%s\n", i % 14 ? "G1" : "G0", 50 + 9 * cos(a), 60 + 9 * sin(a), i % 14 ? (" E" + to_string(e)).c_str() : "", i % 5 ? "" : " ; a comment that is kept"); t += b; }
  return t + extra + (mode & 1 ? "M104 S200" : "M104 S200\n");
}
static vector<Case> cases() {
  vector<Case> v; vector<weld::Cfg> cs; weld::Cfg d; cs.push_back(d); auto add = [&](function<void(weld::Cfg&)> f) { weld::Cfg c = d; f(c); cs.push_back(c); };
  add([](weld::Cfg& c) { c.d3 = c.trav = c.dyn = c.g90 = true; }); add([](weld::Cfg& c) { c.mmseg = .5; c.minseg = 12; }); add([](weld::Cfg& c) { c.maxlen = 40; c.buf = 2; }); add([](weld::Cfg& c) { c.buf = 50; c.var = 0; });
  vector<string> texts; for (int m = 0; m < 4; m++) for (const char* x : {"", "T1\nG1 E-1\nT0\nG1 X3 Y3 E1\nM117 a long message without any meaning for the tracker\n", "G2 X10 Y10 I3 J2 E1 ; an arc that is there already\nG3 X20 Y20 R9\nG91\nG1 X1 Y1\nbogus line\n;LAYER:1\n"}) texts.push_back(circ(m, 40, x)); for (const char* x : {"", "\n", "; only a comment", "G1", "G1 X1 Y1\r\nG1 X2 Y2\r\n"}) texts.push_back(x);
  for (auto& c : cs) for (auto& t : texts) for (int o = 0; o < NOUT; o++) for (int l = 0; l < 2; l++) v.push_back({0, o, l * 1000, c.str(), t});
  X.bounds["weld"] = to_string(v.size()) + ": " + to_string(cs.size()) + " option sets x " + to_string(texts.size()) + " files x " + to_string(NOUT) + " outcomes x 2 log levels"; size_t n = v.size();
  for (auto& c : cs) for (int m = 0; m < 4; m += th ? 1 : 3) for (int o : {0, 1, 2, 9, 10}) for (int k = 1; k <= (th ? 21 : 7); k++) for (int l = 0; l < (th ? 2 : 1); l++) v.push_back({0, o, k + l * 1000, c.str(), circ(m, th ? 20000 : 6000, "")});
  X.bounds["cancel"] = to_string(v.size() - n) + ": refused at each report of a long file"; n = v.size();
  for (int f = 0; f < 8; f++) for (int s = 0; s < 2; s++) for (auto& t : texts) for (int o : {0, 1, 3, 4, 5, 6, 7, 8, 9}) v.push_back({1, o, 0, to_string(f) + " " + to_string(s), t});
  X.bounds["straighten"] = to_string(v.size() - n) + ": 8 firmware versions x files x outcomes"; n = v.size();
  for (auto& c : cs) for (int b = 0; b < NBODY; b++) for (int l = 0; l < 2; l++) v.push_back({3, b, l * 1000, c.str(), ""}); for (int f = 0; f < 8; f++) for (int b = 0; b < NBODY; b++) v.push_back({4, b, 0, to_string(f) + " 0", ""});
  X.bounds["length"] = to_string(v.size() - n) + ": memory taken at most for " + to_string(NBODY) + " kinds of lines, 100 and 1000 times"; n = v.size();
  function<void(string, int, int, function<void(string)>)> rec = [&](string s, int b, int depth, function<void(string)> f) { f(s); if (depth) for (int k = 0; k < b; k++) rec(s + char('a' + k), b, depth - 1, f); };
  for (int e : {1, 2, 3, 16}) for (int h = 0; h < 8; h++) rec("", NCMD, th ? 4 : 3, [&](string s) { v.push_back({2, 0, h, to_string(e), s}); });
  for (int o = 1; o <= 2; o++) rec("", 9, th ? 6 : 5, [&](string s) { v.push_back({2, o, 0, "", s}); }); rec("", 5, 4, [&](string s) { v.push_back({2, 3, 0, "", s}); });
  X.bounds["library"] = to_string(v.size() - n) + " histories: trackers (1, 2, 3, 16 extruders, copies) of up to " + string(th ? "4" : "3") + " commands, lists of up to " + (th ? "6" : "5") + " operations"; return v;
}
int main_(int argc, char** argv) {
  auto o = vf::parse_opts(argc, argv); X.init(o); th = o.thorough(); lg[0] = weld::quiet_logger(); lg[1] = weld::loud_logger(); ios::sync_with_stdio(false); auto *ob = cout.rdbuf(&nb), *oe = cerr.rdbuf(&nb); auto back = [&] { cout.rdbuf(ob); cerr.rdbuf(oe); };
  if (!o.replay.empty()) { string t = vf::read_file(o.replay); Case c; int n = 0; sscanf(t.c_str(), "#vf-leak %d %d %d|%n", &c.kind, &c.out, &c.k, &n); size_t q = t.find('\n'); c.arg = t.substr(n, q - n); c.text = t.substr(q + 1); judge(c, X.dir); int bad = X.sh->nviol.load(); back(); for (int i = 0; i < bad; i++) printf("BAD %s: %s\n", X.sh->v[i].sig, X.sh->v[i].msg); X.cleanup(); return bad ? 1 : 0; }
  vector<Case> v = cases(); X.run((v.size() + 15) / 16, [&](uint64_t j) { for (uint64_t i = j * 16; i < min<uint64_t>(v.size(), j * 16 + 16); i++) judge(v[i], X.dir); }); back();
  X.assumptions.push_back("memory taken once per process (function statics, buffers of the standard library) is not counted: each case runs once before it is measured");
  return X.finish("after each run no block of memory, no array and no open file more than before, nothing freed twice or by the wrong delete, no other file in the folder, and no more memory for a longer file");
}
}
int main(int argc, char** argv) { return app::main_(argc, argv); }
