// L13: the geometry an arc is made from. Every sequence of points of a bounded set is given to the real functions of
// segmented_shape.h and judged by an independent oracle in long double, relative to the first point. Each oracle
// question has three answers (yes / no / too close to the limit to say); only yes and no are enforced.
struct GP { double x, y, z; };
struct GC { double maxr = 9999, res = .05, tol = .05, ztol = .001, f = 1; bool d3 = false; };  // f: factor on the length given
typedef long double LD;
const LD PIL = 3.14159265358979323846264338327950288L;
enum V3 { NO, YES, MAYBE };
static V3 below(LD v, LD limit, LD band) { return v < limit - band ? YES : v > limit + band ? NO : MAYBE; }
static V3 both(V3 a, V3 b) { return a == NO || b == NO ? NO : a == YES && b == YES ? YES : MAYBE; }
struct Cir { V3 ok = NO; LD x = 0, y = 0, r = 0, err = 0; };  // centre relative to the first point
static LD gd(const GP& a, const GP& b) { return hypotl((LD)a.x - b.x, (LD)a.y - b.y); }
static Cir circ(const GP& a, const GP& b, const GP& c, double maxr) {
  Cir q; LD bx = (LD)b.x - a.x, by = (LD)b.y - a.y, cx = (LD)c.x - a.x, cy = (LD)c.y - a.y, k = bx * cy - by * cx; LD M = std::max({fabs(a.x), fabs(a.y), fabs(b.x), fabs(b.y), fabs(c.x), fabs(c.y)}), D = std::max({gd(a, b), gd(a, c), gd(b, c)});
  LD kb = 4e-16L * (M * D + D * D) + 1e-17L; q.ok = fabsl(k) < 1e-9L - kb ? NO : fabsl(k) > 1e-9L + kb + 4e-16L * M * M ? YES : MAYBE; if (fabsl(k) < 1e-15L) { q.ok = fabsl(k) < 1e-9L - kb ? NO : MAYBE; return q; }
  LD B = bx * bx + by * by, C = cx * cx + cy * cy; q.x = (cy * B - by * C) / (2 * k); q.y = (bx * C - cx * B) / (2 * k); q.r = hypotl(q.x, q.y); q.err = 1e-12L + 8e-16L * (M * M + D * D) * (M + q.r) / fabsl(k) + 4e-16L * M; q.ok = both(q.ok, below(q.r, maxr, 1e-9L * q.r + 2 * q.err)); return q; }
static LD devmax(const vector<GP>& p, const Cir& c, LD* sum = nullptr) { LD m = 0, t = 0; int n = p.size(); LD X = p[0].x + c.x, Y = p[0].y + c.y;
  for (int i = 1; i + 1 < n; i++) { LD d = fabsl(hypotl(p[i].x - X, p[i].y - Y) - c.r); m = std::max(m, d); t += d * d; }
  for (int i = 0; i + 1 < n; i++) { LD ux = (LD)p[i + 1].x - p[i].x, uy = (LD)p[i + 1].y - p[i].y, L = ux * ux + uy * uy; if (L == 0) continue; LD s = ((X - p[i].x) * ux + (Y - p[i].y) * uy) / L; if (s <= 5e-6L || s >= 1 - 5e-6L) continue; LD d = fabsl(hypotl(p[i].x + s * ux - X, p[i].y + s * uy - Y) - c.r); m = std::max(m, d); t += d * d; }
  if (sum) *sum = t; return m; }
// the total turn in direction +1/-1; NO: cannot be one turn in order, MAYBE: at a limit
static V3 turn(const vector<GP>& p, const Cir& c, int dir, LD& total, LD e) { total = 0; V3 v = YES; LD prev = 0; for (size_t i = 0; i < p.size(); i++) { LD dx = (LD)p[i].x - p[0].x - c.x, dy = (LD)p[i].y - p[0].y - c.y; if (hypotl(dx, dy) < 1e-3L * c.r) return MAYBE; LD a = atan2l(dy, dx); if (i) { LD s = (a - prev) * dir; while (s < 0) s += 2 * PIL; while (s >= 2 * PIL) s -= 2 * PIL; if (s > 2 * PIL - e) { s -= 2 * PIL; v = both(v, MAYBE); } else if (s < e) v = both(v, MAYBE); else if (s > PIL - 1e-6L) v = both(v, MAYBE); total += s; } prev = a; }
  return both(v, below(total, 2 * PIL, e + 1e-9L)); }
static V3 zeven(const vector<GP>& p, double tol) { LD T = 0, d = 0; V3 v = YES; for (size_t i = 1; i < p.size(); i++) T += gd(p[i - 1], p[i]); for (size_t i = 1; i + 1 < p.size(); i++) { d += gd(p[i - 1], p[i]); LD z = p[0].z + (T > 0 ? ((LD)p.back().z - p[0].z) * d / T : 0); v = both(v, below(fabsl(p[i].z - z), tol, 1e-12L * (1 + fabsl(z)))); } return v; }
static bool near(const vector<GP>& p, const Cir& c) { for (auto& q : p) if (hypotl((LD)q.x - p[0].x - c.x, (LD)q.y - p[0].y - c.y) < 1e-3L * c.r) return true; return false; }  // a vertex at the centre has no angle
static V3 arcok(const vector<GP>& p, const Cir& c, const GC& g, LD approx) {
  LD e = 1e-9L + 4 * c.err / c.r, dz = g.d3 ? (LD)p.back().z - p[0].z : 0; V3 r = NO; if (near(p, c) || e > .01L) return MAYBE; for (int dir : {1, -1}) { LD t; V3 v = turn(p, c, dir, t, e); if (v == NO || t <= 0) continue; LD L = hypotl(c.r * t, dz); v = both(v, below(fabsl(approx / L - 1), g.tol, 1e-9L + e + c.err / c.r)); if (t < 1e-5L) v = both(v, MAYBE); if (g.d3) v = both(v, below(approx, hypotl(2 * PIL * c.r, dz), 1e-9L * (1 + approx) + 8 * c.err)); if (v == YES) r = YES; else if (v == MAYBE && r == NO) r = MAYBE; } return r; }
static string pts(const vector<GP>& p) { string s; for (auto& q : p) s += "(" + num(q.x) + "," + num(q.y) + (q.z ? "," + num(q.z) : "") + ") "; return s; }
static string cfgs(const GC& g) { return num(g.maxr) + " " + num(g.res) + " " + num(g.tol) + " " + num(g.ztol) + " " + num(g.f) + " " + to_string(g.d3); }
void l13(const vector<GP>& p, const GC& g, bool full = true) {
  int n = p.size(); string rp = "geom " + cfgs(g); for (auto& q : p) rp += " " + num(q.x) + " " + num(q.y) + " " + num(q.z); X.add(X.c_exec);
  array_list<printer_point> L(n); LD len = 0; for (int i = 0; i < n; i++) { if (i) len += hypotl(gd(p[i - 1], p[i]), g.d3 ? (LD)p[i].z - p[i - 1].z : 0); L.push_back(printer_point(p[i].x, p[i].y, p[i].z, i, i ? .5 : 0, 1000 + i, 0, false)); }
  double approx = (double)(len * g.f); uint64_t h = hash_str(cfgs(g)); for (auto& q : p) h = mix(mix(mix(h, *(uint64_t*)&q.x), *(uint64_t*)&q.y), *(uint64_t*)&q.z); X.inputs.insert(h);
  // what may and what must happen
  bool some_yes = false, all_ok = true, any_may = false; vector<Cir> C; V3 z = g.d3 ? zeven(p, g.ztol) : YES; vector<V3> DV;
  for (int k = 1; k + 1 < n; k++) { Cir c = circ(p[0], p[k], p[n - 1], g.maxr); V3 v = c.ok; if (v != NO && c.r > 0) v = both(v, below(devmax(p, c), g.res, 1e-9L + 4 * c.err)); v = both(v, z); C.push_back(c); DV.push_back(v); if (v == NO) continue; V3 a = c.r > 0 ? arcok(p, c, g, approx) : MAYBE; if (v == YES) some_yes = true; if (a != YES) all_ok = false; if (a != NO) any_may = true; X.states.insert(mix(h, k * 9 + v * 3 + a)); }
  arc t; t.length = -7; t.radius = -3; t.direction = CLOCKWISE; t.angle_radians = 99; X.begin(rp); bool r = arc::try_create_arc(L, t, approx, g.maxr, g.res, g.tol, 0, 0, g.ztol, g.d3); X.add(X.c_trans);
  auto bad = [&](const char* s, const string& m) { fail(string("geom-") + s, m + ": points " + pts(p) + "max radius " + num(g.maxr) + ", deviation " + num(g.res) + ", tolerance " + num(g.tol) + (g.d3 ? ", 3d" : "") + ", length " + num(approx), rp); };
  X.outcomes.insert(r ? mix(vf::hash_d(vf::hash_d(vf::hash_d(7, t.center.x), t.center.y), t.angle_radians), t.direction) : mix(h, 3));
  if (r && !any_may) return bad("false-arc", "an arc is made although no circle through the first, the last and another point fits"); if (!r && some_yes && all_ok) return bad("refused", "no arc is made although the points fit one");
  if (!r) { if (t.length != -7 || t.radius != -3 || t.direction != CLOCKWISE || t.angle_radians != 99) return bad("changed", "a refused arc changes the arc it was given"); return; }
  // the arc is the one described
  Cir c; c.x = (LD)t.center.x - p[0].x; c.y = (LD)t.center.y - p[0].y; c.r = t.radius; LD err = 1e-9L; for (auto& q : C) if (q.ok != NO) err = std::max(err, 8 * q.err); if (err > .01L * c.r) return; if (!(t.radius > 0) || fabsl(hypotl(c.x, c.y) - c.r) > err || fabsl(hypotl((LD)p[n - 1].x - t.center.x, (LD)p[n - 1].y - t.center.y) - c.r) > err) return bad("circle", "the circle made does not pass through the first and the last point");
  if (t.radius > g.maxr + err) return bad("max-radius", "an arc has the radius " + num(t.radius)); LD dv = devmax(p, c); if (dv > g.res + err) return bad("deviation", "an arc deviates by " + num((double)dv));
  if (t.start_point.x != p[0].x || t.start_point.y != p[0].y || t.start_point.z != p[0].z || t.end_point.x != p[n - 1].x || t.end_point.y != p[n - 1].y || t.end_point.z != p[n - 1].z || t.end_point.f != 1000 + n - 1) return bad("ends", "the arc's ends are not the first and last points");
  if (t.get_i() != t.center.x - p[0].x || t.get_j() != t.center.y - p[0].y) return bad("ij", "I and J are not the way from the start to the centre");
  if (t.direction != CLOCKWISE && t.direction != COUNTERCLOCKWISE) return bad("direction", "an arc has no direction"); int dir = t.direction == COUNTERCLOCKWISE ? 1 : -1; LD tot; V3 tv = turn(p, c, dir, tot, 1e-9L + err / c.r); if (tv == NO) return bad("order", "an arc does not pass the points in order within one turn");
  if (fabsl(tot - dir * (LD)t.angle_radians) > 1e-9L + err / c.r && tv == YES) return bad("angle", "the arc's angle is " + num(t.angle_radians) + " instead of " + num((double)(dir * tot))); LD dz = g.d3 ? (LD)p[n - 1].z - p[0].z : 0, al = hypotl(c.r * fabsl((LD)t.angle_radians), dz); if (fabsl(al - t.length) > 1e-9L * al + err) return bad("length", "the arc's length is " + num(t.length) + " instead of " + num((double)al)); if (fabsl((LD)approx / al - 1) > g.tol + 1e-6L) return bad("tolerance", "the arc's length " + num(t.length) + " is out of tolerance");
  if (g.d3 && zeven(p, g.ztol) == NO) return bad("z", "an arc whose height does not change evenly is made");
  for (int k = 0; k < 2; k++) { double th0 = k ? t.polar_end_theta : t.polar_start_theta; const GP& q = k ? p[n - 1] : p[0]; LD w = atan2l((LD)q.y - t.center.y, (LD)q.x - t.center.x), d = fabsl(remainderl(w - th0, 2 * PIL)); if (th0 < 0 || th0 > 2 * PIL || d > 1e-9L + err / c.r) return bad("theta", "a polar angle is " + num(th0)); }
  if (!arc::are_points_within_slice(t, L)) return bad("slice", "the points are not within the arc made from them");
  if (full && n > 3) { circle cc(t.center, t.radius); double s = -1; bool o = cc.is_over_deviation(L, g.res, g.ztol, g.d3), q = cc.get_deviation_sum_squared(L, g.res, g.ztol, g.d3, s); LD ws; devmax(p, c, &ws); if (o == q && dv < g.res - err) return bad("deviations", "the two deviation tests disagree"); if (q && fabsl(ws - s) > 1e-9L + err) return bad("sum", "the sum of squared deviations is " + num(s) + " instead of " + num((double)ws)); }
}
// the single functions
void l13f(const GP& a, const GP& b, const GP& c, double maxr) {
  string rp = "geomf " + num(maxr) + " " + num(a.x) + " " + num(a.y) + " " + num(b.x) + " " + num(b.y) + " " + num(c.x) + " " + num(c.y); X.add(X.c_exec); X.begin(rp); auto bad = [&](const char* s, const string& m) { fail(string("geomf-") + s, m + ": " + pts({a, b, c}) + "max radius " + num(maxr), rp); };
  circle k(point(1, 2, 3), 4); Cir o = circ(a, b, c, maxr); bool r = circle::try_create_circle(point(a.x, a.y, a.z), point(b.x, b.y, b.z), point(c.x, c.y, c.z), maxr, k); X.add(X.c_trans, 3); uint64_t h = hash_str(rp); X.inputs.insert(h); X.states.insert(mix(h, o.ok)); X.outcomes.insert(r ? vf::hash_d(vf::hash_d(1, k.center.x), k.center.y) : 2);
  if (o.ok != MAYBE && r != (o.ok == YES)) return bad("circle", r ? "a circle is made" : "no circle is made"); if (!r && (k.radius != 4 || k.center.x != 1 || k.center.y != 2)) return bad("changed", "a refused circle changes the circle it was given");
  if (r && (fabsl(a.x + o.x - k.center.x) > 8 * o.err || fabsl(a.y + o.y - k.center.y) > 8 * o.err || fabsl(o.r - k.radius) > 16 * o.err)) return bad("centre", "the circle made has the centre (" + num(k.center.x) + "," + num(k.center.y) + ") and radius " + num(k.radius));
  point d(9, 9, 9); bool f = segment::get_closest_perpendicular_point(point(a.x, a.y, 0), point(b.x, b.y, 0), point(c.x, c.y, 0), d); LD ux = (LD)b.x - a.x, uy = (LD)b.y - a.y, L = ux * ux + uy * uy; if (L > 0) { LD t = (((LD)c.x - a.x) * ux + ((LD)c.y - a.y) * uy) / L; V3 in = both(below(-t, 0, 1.1e-5L), below(t, 1, 1.1e-5L)); if (in != MAYBE && f != (in == YES)) return bad("foot", f ? "a foot outside the segment is found" : "the foot within the segment is not found"); if (f && (fabsl(a.x + t * ux - d.x) > 1e-9L || fabsl(a.y + t * uy - d.y) > 1e-9L)) return bad("foot-at", "the foot is at (" + num(d.x) + "," + num(d.y) + ")"); }
  circle q(point(a.x, a.y, 0), 1); if (gd(a, b) > 0) { double th0 = q.get_polar_radians(point(b.x, b.y, 0)); if (!(th0 >= 0 && th0 < 2 * PIL) || fabsl(remainderl(atan2l((LD)b.y - a.y, (LD)b.x - a.x) - th0, 2 * PIL)) > 1e-12L) return bad("polar", "the polar angle is " + num(th0)); }
}
int run13() {
  vector<Work> W; static vector<GC> G; G.clear(); for (double maxr : {2.0, 9999.0}) for (double res : {.02, .3, 3.0}) { GC g; g.maxr = maxr; g.res = res; g.tol = res > 1 ? .5 : .05; G.push_back(g); }
  static const double sc[] = {1, .1, .25, 7}; static const GP of[] = {{0, 0, 0}, {100, 100, 0}, {103.7, -55.3, 0}, {-.5, .5, 0}};
  auto at = [](int k, int w, double s, const GP& o) { return GP{o.x + s * (k % w), o.y + s * (k / w), o.z}; };
  W.push_back({"functions", 49ull * 49 * 49 * 4 * 4 * 2, [at](uint64_t i) { int a = i % 49; i /= 49; int b = i % 49; i /= 49; int c = i % 49; i /= 49; double s = sc[i % 4]; i /= 4; const GP& o = of[i % 4]; i /= 4; l13f(at(a, 7, s, o), at(b, 7, s, o), at(c, 7, s, o), i ? 9999 : 2.25 * s); }});
  // angles within rounding of zero: y one to a few units in the last place from the centre's
  W.push_back({"tiny angles", 41ull * 12 * 4 * 2, [](uint64_t i) { int u = (int)(i % 41) - 20; i /= 41; static const double rs[] = {1e-3, .1, .3, 1, 2, 5, 7.7, 10, 50, 100, 333, 5000}; double r = rs[i % 12]; i /= 12; static const double cs[] = {0, 1, 100, 103.7}; double c = cs[i % 4]; i /= 4; int dir = i ? -1 : 1; double y = c; for (int k = 0; k < abs(u); k++) y = c ? nextafter(y, u > 0 ? 1e9 : -1e9) : y + (u > 0 ? 1e-17 : -1e-17) * r; l13f({c, c, 0}, {c + r, y, 0}, {c - r, c, 0}, 9999); GC g; g.res = r; g.tol = .2; g.maxr = 1e5; l13({{c + r * .8, c - dir * r * .6, 0}, {c + r, y, 0}, {c + r * .8, c + dir * r * .6, 0}}, g); l13({{c + r * .6, c - dir * r * .8, 0}, {c + r * .8, c - dir * r * .6, 0}, {c + r, y, 0}, {c + r * .8, c + dir * r * .6, 0}, {c + r * .6, c + dir * r * .8, 0}}, g); }});
  int w3 = th ? 7 : 6; static int W3; W3 = w3; W.push_back({"three points", ipow(w3 * w3, 3) * 6 * 4, [at](uint64_t i) { int q = W3 * W3, a = i % q; i /= q; int b = i % q; i /= q; int c = i % q; i /= q; const GC& g = G[i % 6]; i /= 6; l13({at(a, W3, sc[i], of[i]), at(b, W3, sc[i], of[i]), at(c, W3, sc[i], of[i])}, g); }});
  int w4 = th ? 6 : 5; static int W4; W4 = w4; W.push_back({"four points", ipow(w4 * w4, 4) * 3, [at](uint64_t i) { int q = W4 * W4; vector<GP> p; uint64_t j = i % ipow(q, 4); i /= ipow(q, 4); for (int k = 0; k < 4; k++) { p.push_back(at(j % q, W4, sc[i], of[i])); j /= q; } l13(p, G[3 + i]); }});
  // points on and near the circle of radius 5 through twelve points with whole coordinates
  static vector<GP> R; R.clear(); for (int k = 0; k < 12; k++) { static const int x[] = {5, 4, 3, 0, -3, -4, -5, -4, -3, 0, 3, 4}, y[] = {0, 3, 4, 5, 4, 3, 0, -3, -4, -5, -4, -3}; R.push_back({(double)x[k], (double)y[k], 0}); } R.push_back({0, 0, 0}); R.push_back({4, 4, 0}); R.push_back({-5, 1, 0}); R.push_back({1, -4, 0});
  auto ring = [](int k, int o) { static const double s[] = {1, .1, 1, .02}; return GP{of[o].x + s[o] * R[k].x, of[o].y + s[o] * R[k].y, 0}; };
  for (int d = 3; d <= (th ? 6 : 5); d++) W.push_back({"ring" + to_string(d), ipow(d < 6 ? 16 : 12, d) * 4, [ring, d](uint64_t i) { int b = d < 6 ? 16 : 12; uint64_t j = i % ipow(b, d); int o = i / ipow(b, d); vector<GP> p; for (int k = 0; k < d; k++) { p.push_back(ring(j % b, o)); j /= b; } GC g; g.res = o == 0 ? 3 : o == 1 ? .2 : o == 2 ? 1.3 : .02; g.tol = o == 2 ? .1 : .25; l13(p, g); }});
  // every subset of the twelve in order, from every start, both ways; the length given right, nearly right and wrong
  W.push_back({"ring in order", 4096ull * 12 * 2 * 5 * 4, [ring](uint64_t i) { int m = i % 4096; i /= 4096; int s = i % 12; i /= 12; bool back = i % 2; i /= 2; static const double fs[] = {1, 1.04, 1.08, .93, 1.3}; GC g; g.f = fs[i % 5]; i /= 5; int o = i; g.res = o == 0 ? 6 : o == 1 ? .3 : o == 2 ? 1.3 : .03; g.tol = .06; vector<GP> p; for (int k = 0; k < 12; k++) if (m >> k & 1) p.push_back(ring(((back ? s - k : s + k) + 24) % 12, o)); if (p.size() >= 3) l13(p, g); }});
  // regular polygons at every start on the axes and between, whole turns less one edge, helices with even and uneven heights
  W.push_back({"polygons", 48ull * 16 * 2 * 5 * 9 * 2, [](uint64_t i) { int n = 3 + i % 48; i /= 48; int st = i % 16; i /= 16; int dir = i % 2 ? 1 : -1; i /= 2; static const double rs[] = {.3, 1, 5, 40, 900}; double r = rs[i % 5]; i /= 5; int zp = i % 9; i /= 9; GC g; g.d3 = zp > 0; g.res = r * (1 - cos(M_PI / n)) * 1.5 + 1e-6; g.tol = .2; g.ztol = .01; bool rnd = i; vector<GP> p; double cx = 100, cy = 100; int N = n; LD dz[] = {0, 0, .2L, .5L, .5L, -.2L, .2L, .2L, 2}; for (int k = 0; k < N; k++) { double a = st * M_PI / 8 + dir * 2 * M_PI * k / n; GP q{cx + r * cos(a), cy + r * sin(a), (double)(dz[zp] * k / (N - 1))}; if (rnd) { q.x = round(q.x * 1000) / 1000; q.y = round(q.y * 1000) / 1000; } if (zp == 4 && k == N / 2) q.z += .011; if (zp == 6 && k == 1) q.z -= .009; if (zp == 7 && k == N - 2) q.z += .05; p.push_back(q); } l13(p, g); }});
  int zl = th ? 7 : 5; static int ZL; ZL = zl; W.push_back({"heights", ipow(zl, 4) * 495 * 2 * 3, [ring](uint64_t i) { static vector<vector<int>> S; if (S.empty()) for (int m = 0; m < 4096; m++) if (__builtin_popcount(m) == 4) { vector<int> v; for (int k = 0; k < 12; k++) if (m >> k & 1) v.push_back(k); S.push_back(v); } static const double zs[] = {0, .1, .2, .21, .4, .3, -.1}; uint64_t j = i % ipow(ZL, 4); i /= ipow(ZL, 4); auto s = S[i % 495]; i /= 495; if (i % 2) std::reverse(s.begin(), s.end()); i /= 2; vector<GP> p; for (int k : s) { p.push_back(ring(k, 0)); p.back().z = zs[j % ZL]; j /= ZL; } GC g; g.res = 6; g.tol = i == 2 ? 1 : .3; g.ztol = i == 0 ? .001 : .08; g.d3 = true; l13(p, g); }});
  X.bounds["lattice"] = "all triples of a 7x7 lattice x 4 scales x 4 offsets x 2 radii for the single functions; all triples of a " + to_string(w3) + "x" + to_string(w3) + " lattice x 6 settings x 4 scales and offsets, all quadruples of a " + to_string(w4) + "x" + to_string(w4) + " lattice x 3"; X.bounds["ring"] = "all sequences of 3..5 of 16 points on, near and inside a circle of radius 5 x 4 scales, offsets and tolerances; all ordered subsets of its 12 whole points from every start both ways x 5 lengths given x 4; " + to_string(zl) + "^4 heights over every 4 of them"; X.bounds["polygons"] = "3..50 corners x 16 starts x 2 directions x 5 radii x 9 height profiles x exact/rounded coordinates; vertices up to 20 units in the last place from the angle zero";
  explore(W); return X.finish("an arc is made iff a circle through the first, the last and one other point fits (radius, deviation of vertices and edges, order within one turn, length, height); centre, direction, angle, length, ends and polar angles of the arc made are recomputed in long double; cases within rounding of a limit are not judged");
}
