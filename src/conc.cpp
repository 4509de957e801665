// Explorer for conversions at the same time: two real conversions run as coroutines under a scheduler that may switch
// between them at every basic block of the code under test (it is built with -fsanitize=coverage callbacks) or at every
// call that touches the file system. All schedules within the preemption bound are run.
#include "weldlib.hpp"
#include "arc_interpolation.h"
#include <ucontext.h>
#include <dlfcn.h>
#include <sys/uio.h>
#include <functional>
#include <iostream>
#include <dirent.h>
#include <sys/stat.h>
struct Co { ucontext_t ctx; char* stack = nullptr; std::function<void()> body; bool done = true; bool coarse = false; uint64_t n = 0, stop = ~0ull; };
static Co* cur = nullptr; static ucontext_t sched_ctx;
static inline void tick() { Co* c = cur; if (++c->n == c->stop) { cur = nullptr; swapcontext(&c->ctx, &sched_ctx); } }
extern "C" void __sanitizer_cov_trace_pc() { if (cur && !cur->coarse) tick(); }
static inline void call() { if (cur && cur->coarse) tick(); }
#define NEXT(name) static auto real = (decltype(&name))dlsym(RTLD_NEXT, #name)
extern "C" {
FILE* fopen64(const char* p, const char* m) { NEXT(fopen64); call(); return real(p, m); }
FILE* fopen(const char* p, const char* m) { NEXT(fopen); call(); return real(p, m); }
int fclose(FILE* f) { NEXT(fclose); call(); return real(f); }
ssize_t read(int f, void* b, size_t n) { NEXT(read); call(); return real(f, b, n); }
ssize_t write(int f, const void* b, size_t n) { NEXT(write); call(); return real(f, b, n); }
ssize_t writev(int f, const struct iovec* v, int n) { NEXT(writev); call(); return real(f, v, n); }
int rename(const char* a, const char* b) noexcept { NEXT(rename); call(); return real(a, b); }
int remove(const char* a) noexcept { NEXT(remove); call(); return real(a); }
int unlink(const char* a) noexcept { NEXT(unlink); call(); return real(a); }
}
namespace app {
using namespace std; using std::vector;
static vf::Ctx X; static bool th = false;
static void entry(unsigned lo, unsigned hi) { Co* c = (Co*)(((uint64_t)hi << 32) | lo); c->body(); c->done = true; cur = nullptr; swapcontext(&c->ctx, &sched_ctx); abort(); }
static const size_t STACK = 1 << 20;
static void start(Co& c, bool coarse, function<void()> f) {
  if (!c.stack) c.stack = (char*)malloc(STACK);
  c.body = f; c.done = false; c.n = 0; c.coarse = coarse; getcontext(&c.ctx); c.ctx.uc_stack.ss_sp = c.stack; c.ctx.uc_stack.ss_size = STACK; c.ctx.uc_link = nullptr;
  uint64_t p = (uint64_t)&c; makecontext(&c.ctx, (void (*)())entry, 2, (unsigned)p, (unsigned)(p >> 32));
}
static void go(Co& c, uint64_t k) { if (c.done) return; c.stop = k == ~0ull ? k : c.n + k; cur = &c; swapcontext(&sched_ctx, &c.ctx); cur = nullptr; }   // until k points passed or done

// ---------------------------------------------------------------- what can run
struct Task { string name, src, dst; string text; weld::Cfg c; int fw = -1; string ver; bool loud = false; };
struct Res { bool ok = false; string stat; };
struct Null : streambuf { int overflow(int c) override { return c == EOF ? 0 : c; } streamsize xsputn(const char*, streamsize n) override { return n; } };
static string stats(const arc_welder_progress& p) {
  char b[600]; snprintf(b, sizeof b, "%d %d %d %d %d %d %ld %ld ", p.lines_processed, p.gcodes_processed, p.points_compressed, p.arcs_created, p.num_firmware_compensations, p.num_gcode_length_exceptions, (long)p.source_file_size, (long)p.target_file_size);
  string r = b; for (const source_target_segment_statistics* s : {&p.segment_statistics, &p.segment_retraction_statistics, &p.travel_statistics}) { snprintf(b, sizeof b, "%d %d %.9g %.9g|", s->total_count_source, s->total_count_target, s->total_length_source, s->total_length_target); r += b; r += s->str("t", (utilities::box_drawing::BoxEncodingEnum)0); } return r;
}
static void work(const Task& t, const string& dir, Res& r) {
  if (t.fw < 0) {
    vector<string> n; n.push_back(ARC_WELDER_LOGGER_NAME); vector<int> lv; lv.push_back((int)log_levels::CRITICAL); logger lg(n, lv); lg.set_log_level(t.loud ? log_levels::NOSET : log_levels::CRITICAL);
    arc_welder_args a = weld::make_args(t.c, dir + "/" + t.src, dir + "/" + t.dst, &lg); a.callback = weld::cb_ok; arc_welder w(a); arc_welder_results q = w.process(); r.ok = q.success; r.stat = stats(q.progress);
  } else {
    arc_interpolation_args a; a.firmware_args.firmware_type = (firmware_types)t.fw; a.firmware_args.version = t.ver; a.firmware_args.mm_per_arc_segment = 1; a.firmware_args.n_arc_correction = 5; a.source_path = dir + "/" + t.src; a.target_path = dir + "/" + t.dst;
    arc_interpolation p(a); r.ok = p.process(); r.stat = "";
  }
}
struct Pair { string name; Task t[2]; bool same = false; };
static string circ(int n, double R, double e0, bool rel, const string& tag) {
  string t = tag + "\nG21\nG90\n" + string(rel ? "M83\n" : "M82\n") + "G28\nG92 E0\nG1 Z0.2 F600\n"; double e = 0; char b[200];
  for (int i = 0; i <= n; i++) { double a = .1 + i * .14; e = rel ? e0 : e + e0; if (!i) snprintf(b, 200, "G0 X%.3f Y%.3f F7200\n", 50 + R * cos(a), 60 + R * sin(a)); else snprintf(b, 200, "G1 X%.3f Y%.3f E%.5f%s\n", 50 + R * cos(a), 60 + R * sin(a), e, i == 1 ? " F1800 ; perimeter" : i == 3 ? " ; c" : ""); t += b; }
  return t + "; done\nG1 X1 Y2.5 F3000\nM104 S200\n";
}
static vector<Pair> pairs() {
  vector<Pair> v; string f1 = circ(5, 9.123, .03177, false, "; generated by PrusaSlicer"), f2 = circ(6, 4.4567, .0412, true, ";FLAVOR:Marlin"), a1 = "G90\nM83\nG1 X10 Y10.123 Z.2 F1200\nG3 X15.123 Y15 I0 J5.2 E1.23456 ; arc\nG2 X10 Y10.5 I-2.5 J-2.25 E.5\nM107\n", a2 = "G90\nM82\nG92 E0\nG1 X90 Y50 F1500\n; c\nG2 X95 Y45.75 I5 J0 E2.34567\nG1 X1 Y1 E3\n";
  auto W = [](string n, string s, string d, string x, function<void(weld::Cfg&)> f = [](weld::Cfg&) {}) { Task t; t.name = n; t.src = s; t.dst = d; t.text = x; f(t.c); return t; };
  auto S = [](string n, string s, string d, string x, int fw, string ver) { Task t; t.name = n; t.src = s; t.dst = d; t.text = x; t.fw = fw; t.ver = ver; return t; };
  auto P = [&](string n, Task a, Task b, bool same = false) { v.push_back({n, {a, b}, same}); };
  auto all = [](weld::Cfg& c) { c.d3 = c.trav = c.dyn = c.g90 = true; c.mmseg = .5; c.minseg = 8; c.maxlen = 60; c.xp = 5; c.ep = 6; c.res = .2; };
  P("two files", W("weld", "a.gcode", "a.out", f1), W("weld with other options", "b.gcode", "b.out", f2, all));
  P("two files in place", W("weld in place", "a.gcode", "a.gcode", f1, all), W("weld in place", "b.gcode", "b.gcode", f2));
  P("one source", W("weld", "a.gcode", "a.out", f1), W("weld with other options", "a.gcode", "b.out", f1, all));
  P("weld and straighten", W("weld", "a.gcode", "a.out", f2), S("straighten", "b.gcode", "b.out", a1, MARLIN_2, "2.0.9.1"));
  P("straighten two", S("straighten for Prusa", "a.gcode", "a.out", a1, PRUSA, "3.11.0"), S("straighten for Smoothieware", "b.gcode", "b.out", a2, SMOOTHIEWARE, "2021-06-19"));
  P("straighten two, others", S("straighten for Marlin 1", "a.gcode", "a.out", a2, MARLIN_1, "1.1.9.1"), S("straighten for Repetier", "b.gcode", "b.out", a1, REPETIER, "1.0.5"));
  // the same firmware twice
  string s1 = "G90\nM83\nG1 X20 Y10.123 Z.2 F1200\nG3 X27.5 Y14.25 I1.5 J6.2 E.75 ; arc\n", s2 = "M82\nG92 E0\nG1 X90 Y50 F1500\nG2 X93 Y47.75 I3 J0 E2.34567\n";
  struct { int fw; const char *n, *v1, *v2; } same[] = {{MARLIN_1, "Marlin 1", "1.1.9.1", "1.1.9.1"}, {MARLIN_2, "Marlin 2.0.9.1", "2.0.9.1", "2.0.9.1"}, {MARLIN_2, "Marlin 2.0.9.2", "2.0.9.2", "2.0.9.2"}, {REPETIER, "Repetier", "1.0.4", "1.0.5"}, {PRUSA, "Prusa", "3.10.0", "3.11.0"}, {SMOOTHIEWARE, "Smoothieware", "2021-06-19", "2021-06-19"}};
  for (auto& f : same) P(string("straighten two for ") + f.n, S("straighten", "a.gcode", "a.out", s1, f.fw, f.v1), S("straighten, too", "b.gcode", "b.out", s2, f.fw, f.v2));
  Pair l = v[0]; l.name = "two files, logging"; l.t[0].loud = l.t[1].loud = true; v.push_back(l);
  P("one file in place", W("weld in place", "a.gcode", "a.gcode", f1), W("weld in place, too", "a.gcode", "a.gcode", f1), true);
  P("in place and from it", W("weld in place", "a.gcode", "a.gcode", f1), W("weld from it", "a.gcode", "b.out", f1), true);
  return v;
}
static vector<Pair> V;
struct Solo { Res r[2]; string out[2]; uint64_t n[2]; string twice; };
static string names(const string& d) { vector<string> n; DIR* p = opendir(d.c_str()); while (dirent* e = readdir(p)) if (e->d_name[0] != '.') n.push_back(e->d_name); closedir(p); sort(n.begin(), n.end()); string r; for (auto& x : n) r += x + " "; return r; }
static void prep(const Pair& p, const string& d) { for (auto& t : p.t) { vf::write_file(d + "/" + t.src, t.text); if (t.dst != t.src) unlink((d + "/" + t.dst).c_str()); } }
static Co co[2]; static Null nb;
static Solo solo(const Pair& p, const string& d, bool coarse) {
  Solo s; for (int k = 0; k < 2; k++) { prep(p, d); start(co[k], coarse, [&, k] { work(p.t[k], d, s.r[k]); }); go(co[k], ~0ull); s.n[k] = co[k].n; s.out[k] = vf::read_file(d + "/" + p.t[k].dst); }
  if (p.same) { Res r; prep(p, d); for (int k = 0; k < 2; k++) { start(co[0], coarse, [&] { work(p.t[0], d, r); }); go(co[0], ~0ull); } s.twice = vf::read_file(d + "/" + p.t[0].dst); }
  prep(p, d); return s;
}
// one schedule: first = who starts; budget = points until each switch
static map<string, Solo> base;
static bool last_done[2];
static bool schedule(int pi, bool coarse, int first, vector<uint64_t> budget, const string& d) {   // false: a budget was not used up (this and longer budgets are the same schedule)
  const Pair& p = V[pi]; string desc = "#vf-conc pair=" + to_string(pi) + " coarse=" + to_string(coarse) + " first=" + to_string(first) + " switches="; for (auto b : budget) desc += to_string(b) + ",";
  string what = p.name + " [" + p.t[0].name + "; " + p.t[1].name + "], " + (first ? "the second" : "the first") + " starts, switch after"; for (auto b : budget) what += " " + to_string(b); what += coarse ? " file calls" : " basic blocks";
  X.begin(desc + "\n# " + what + "\n"); string rt = desc + "\n# " + what + "\n"; const Solo& s = base[to_string(pi) + (coarse ? "c" : "f")]; Res r[2]; prep(p, d); bool used = true;
  for (int k = 0; k < 2; k++) start(co[k], coarse, [&, k] { work(p.t[k], d, r[k]); });
  int who = first; string f = d + "/" + p.t[0].src; uint64_t h = pi * 4 + coarse * 2 + first;
  auto whole = [&] { if (p.same) { string t = vf::read_file(f); if (t != p.t[0].text && t != s.out[0] && t != s.twice) X.violation("partial", what + ": at a switch the file holds " + to_string(t.size()) + " bytes that are neither the original nor a complete result", rt); } };
  for (auto b : budget) { go(co[who], b); h = vf::mix(h, co[who].n); if (co[who].done) used = false; whole(); who = 1 - who; X.states.insert(h); }
  go(co[who], ~0ull); whole(); go(co[1 - who], ~0ull); whole(); X.add(X.c_exec); X.add(X.c_trans, co[0].n + co[1].n);
  uint64_t oh = 1; for (int k = 0; k < 2; k++) { string out = vf::read_file(d + "/" + p.t[k].dst); oh = vf::hash_str(out, oh);
    if (!r[k].ok) X.violation("failed", what + ": the conversion '" + p.t[k].name + "' failed", rt);
    else if (!p.same && (out != s.out[k] || r[k].stat != s.r[k].stat)) {
      size_t q = 0; while (q < out.size() && q < s.out[k].size() && out[q] == s.out[k][q]) q++;
      X.violation(out != s.out[k] ? "output" : "statistics", what + ": the conversion '" + p.t[k].name + "' gives another result than alone" + (out != s.out[k] ? ", from byte " + to_string(q) + " on: '" + out.substr(q, 40) + "' instead of '" + s.out[k].substr(q, 40) + "'" : ""), rt); }
    else if (p.same && out != s.out[0] && out != s.twice && out != s.out[k]) X.violation("mixed", what + ": the result is neither the conversion of the original nor of the other's result", rt); }
  X.outcomes.insert(oh); X.inputs.insert(pi + 1); X.sample(what); string w; { vector<string> n; for (auto& t : p.t) { n.push_back(t.src); n.push_back(t.dst); } sort(n.begin(), n.end()); n.erase(unique(n.begin(), n.end()), n.end()); for (auto& x : n) w += x + " "; }
  string g = names(d); if (g != w) { X.violation("leftover", what + ": the folder holds " + g + "instead of " + w, rt); for (size_t q = 0; q < g.size();) { size_t e = g.find(' ', q); unlink((d + "/" + g.substr(q, e - q)).c_str()); q = e + 1; } }
  return used;
}
int main_(int argc, char** argv) {
  auto o = vf::parse_opts(argc, argv); X.init(o); th = o.thorough(); V = pairs(); ios::sync_with_stdio(false); auto* ob = cout.rdbuf(&nb);
  string d0 = X.dir + "/base"; mkdir(d0.c_str(), 0700);
  for (size_t i = 0; i < V.size(); i++) for (int c = 0; c < 2; c++) { solo(V[i], d0, c); prep(V[i], d0); base[to_string(i) + (c ? "c" : "f")] = solo(V[i], d0, c); for (auto& t : V[i].t) { unlink((d0 + "/" + t.src).c_str()); unlink((d0 + "/" + t.dst).c_str()); } }
  if (!o.replay.empty()) {
    string t = vf::read_file(o.replay); int pi = 0, c = 0, f = 0, n = 0; sscanf(t.c_str(), "#vf-conc pair=%d coarse=%d first=%d switches=%n", &pi, &c, &f, &n); vector<uint64_t> b; const char* p = t.c_str() + n; while (*p && *p != '\n') { b.push_back(strtoull(p, (char**)&p, 10)); if (*p == ',') p++; }
    string d = X.dir + "/r"; mkdir(d.c_str(), 0700); schedule(pi, c, f, b, d); int bad = 0; for (int i = 0; i < X.sh->nviol.load(); i++) { printf("BAD %s: %s\n", X.sh->v[i].sig, X.sh->v[i].msg); bad++; } cout.rdbuf(ob); X.cleanup(); return bad ? 1 : 0;
  }
  auto depth = [](int i) { return (th ? 4 : 3) - (V[i].t[0].loud ? 1 : 0); };
  struct Job { int pi, coarse, first; uint64_t a, b; }; vector<Job> J; const uint64_t CH = 64;
  for (int i = 0; i < (int)V.size(); i++) for (int f = 0; f < 2; f++) {
    const Solo& s = base[to_string(i) + "f"]; if (!V[i].same && (th || i == 0 || (i >= 3 && i <= 11))) { for (uint64_t a = 1; a <= s.n[f]; a += CH) J.push_back({i, 0, f, a, min(a + CH - 1, s.n[f])}); X.bounds["fine " + V[i].name + (f ? " (second first)" : "")] = "every one of the " + to_string(s.n[f]) + " basic blocks as the place of a switch"; }
    const Solo& q = base[to_string(i) + "c"]; for (uint64_t a = 1; a <= q.n[f]; a++) J.push_back({i, 1, f, a, a}); X.bounds["file calls " + V[i].name + (f ? " (second first)" : "")] = to_string(q.n[f]) + " calls, all schedules of up to " + to_string(depth(i)) + " switches before completion";
  }
  static int c_fine = X.ctr("fine_schedules"), c_coarse = X.ctr("file_call_schedules");
  X.run(J.size(), [&](uint64_t n) { const Job& j = J[n]; string d = X.dir + "/d" + to_string(j.pi); mkdir(d.c_str(), 0700);
    if (!j.coarse) { for (uint64_t a = j.a; a <= j.b; a++) { schedule(j.pi, false, j.first, {a}, d); X.add(c_fine); } return; }
    function<void(vector<uint64_t>, int)> rec = [&](vector<uint64_t> b, int depth) { for (uint64_t k = 1;; k++) { vector<uint64_t> q = b; q.push_back(k); X.add(c_coarse); if (!schedule(j.pi, true, j.first, q, d)) break; if (depth > 1) rec(q, depth - 1); } };
    X.add(c_coarse); if (schedule(j.pi, true, j.first, {j.a}, d)) rec({j.a}, depth(j.pi) - 1); });
  cout.rdbuf(ob); X.assumptions.push_back("a switch happens at the start of a basic block or before a call that touches the file system; function statics are initialised before (the language makes their initialisation safe)");
  return X.finish("two conversions at the same time under every schedule within the bounds: each gives what it gives alone, the folder holds nothing else, and a file both convert is complete at every switch");
}
}
int main(int argc, char** argv) { return app::main_(argc, argv); }
