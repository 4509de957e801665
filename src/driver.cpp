// Library driver for the console and the Python extension checks: every line of stdin is one conversion,
// "key=value" fields separated by tabs; every line of stdout its result as JSON.
#include "arc_welder.h"
#include <cmath>
#include <cstdio>
#include <fstream>
#include <iostream>
#include <map>
#include <sstream>
#include <string>
static std::string esc(const std::string& s) { std::string o; for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c < 32) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; } else o += c; } return o; }
// every message the engine issues, as "level hex-bytes" lines
struct Recorder : logger { FILE* f = nullptr; using logger::logger; void log(const int t, log_levels l, const std::string& m) override { log(t, l, m, false); }
  void log(const int, log_levels l, const std::string& m, bool) override { if (!f) return; fprintf(f, "%d ", (int)l); for (unsigned char c : m) fprintf(f, "%02x", c); fputc('\n', f); }
  void log_exception(const int t, const std::string& m) override { log(t, ERROR, m, true); } ~Recorder() { if (f) fclose(f); } };
static int calls, cancel_at; static std::string seq;
static std::string progress(const arc_welder_progress& p, bool text) {
  arc_welder_progress q = p; char b[2000];
  auto f = [](double x) { return std::isfinite(x) ? x : -12345.0; };
  source_target_segment_statistics all = source_target_segment_statistics::add(q.segment_statistics, q.segment_retraction_statistics);
  snprintf(b, sizeof b, "{\"percent_complete\":%.17g,\"gcodes_processed\":%d,\"lines_processed\":%d,\"points_compressed\":%d,\"arcs_created\":%d,\"arcs_aborted_by_flowrate\":%d,\"num_firmware_compensations\":%d,\"num_gcode_length_exceptions\":%d,"
    "\"source_file_position\":%ld,\"source_file_size\":%ld,\"target_file_size\":%ld,\"compression_ratio\":%.17g,\"compression_percent\":%.17g,\"source_file_total_length\":%.17g,\"target_file_total_length\":%.17g,\"source_file_total_count\":%d,\"target_file_total_count\":%d,"
    "\"total_count_reduction_percent\":%.17g,\"source_file_total_travel_length\":%.17g,\"target_file_total_travel_length\":%.17g,\"source_file_total_travel_count\":%d,\"target_file_total_travel_count\":%d,\"total_travel_count_reduction_percent\":%.17g",
    f(q.percent_complete), q.gcodes_processed, q.lines_processed, q.points_compressed, q.arcs_created, q.arcs_aborted_by_flow_rate, q.num_firmware_compensations, q.num_gcode_length_exceptions,
    q.source_file_position, q.source_file_size, q.target_file_size, f(q.compression_ratio), f(q.compression_percent), f(q.segment_statistics.total_length_source), f(q.segment_statistics.total_length_target), q.segment_statistics.total_count_source, q.segment_statistics.total_count_target,
    f(q.segment_statistics.get_total_count_reduction_percent()), f(q.travel_statistics.total_length_source), f(q.travel_statistics.total_length_target), q.travel_statistics.total_count_source, q.travel_statistics.total_count_target, f(q.travel_statistics.get_total_count_reduction_percent()));
  std::string r = b; r += ",\"segment_statistics_text\":\"" + (text ? esc(all.str("", utilities::box_drawing::HTML)) : "") + "\",\"segment_travel_statistics_text\":\"" + (text ? esc(q.travel_statistics.str("", utilities::box_drawing::HTML)) : "") + "\"";
  if (text) r += ",\"extrusion_table\":\"" + esc(all.str("Target File Extrusion Statistics", utilities::box_drawing::ASCII)) + "\",\"travel_table\":\"" + esc(q.travel_statistics.str("Target File Travel Statistics", utilities::box_drawing::ASCII)) + "\"";
  r += "}";
  return r;
}
static bool cb(arc_welder_progress p, logger*, int) { seq += (seq.empty() ? "" : ",") + progress(p, false); return ++calls != cancel_at; }
int main() {
  std::ios::sync_with_stdio(false);
  std::string line; std::stringstream sink; auto* ob = std::cout.rdbuf(sink.rdbuf());
  while (std::getline(std::cin, line)) {
    arc_welder_args a; std::stringstream st(line); std::string t; bool want = false; calls = 0; cancel_at = -1; seq = ""; std::string hash;
    std::vector<std::string> names(1, ARC_WELDER_LOGGER_NAME); std::vector<int> levels(1, (int)log_levels::DEBUG); Recorder lg(names, levels); lg.set_log_level_by_value(50); a.log = &lg;
    while (std::getline(st, t, '\t')) {
      size_t q = t.find('='); if (q == std::string::npos) continue; std::string k = t.substr(0, q), v = t.substr(q + 1); double d = atof(v.c_str());
      if (k == "source") a.source_path = v; else if (k == "target") a.target_path = v; else if (k == "resolution_mm") a.resolution_mm = d; else if (k == "path_tolerance_percent") a.path_tolerance_percent = d;
      else if (k == "max_radius_mm") a.max_radius_mm = d; else if (k == "min_arc_segments") a.min_arc_segments = (int)d; else if (k == "mm_per_arc_segment") a.mm_per_arc_segment = d;
      else if (k == "g90_g91_influences_extruder") a.g90_g91_influences_extruder = d != 0; else if (k == "allow_3d_arcs") a.allow_3d_arcs = d != 0; else if (k == "allow_travel_arcs") a.allow_travel_arcs = d != 0;
      else if (k == "allow_dynamic_precision") a.allow_dynamic_precision = d != 0; else if (k == "default_xyz_precision") a.default_xyz_precision = (unsigned char)d; else if (k == "default_e_precision") a.default_e_precision = (unsigned char)d;
      else if (k == "extrusion_rate_variance_percent") a.extrusion_rate_variance_percent = d; else if (k == "max_gcode_length") a.max_gcode_length = (int)d; else if (k == "log") lg.f = fopen(v.c_str(), "w"); else if (k == "loglevel") lg.set_log_level_by_value((int)d); else if (k == "cancel") { cancel_at = (int)d; want = true; } else if (k == "callback") want = d != 0;
    }
    if (want) a.callback = cb;
    a.box_encoding = utilities::box_drawing::HTML;
    arc_welder w(a); arc_welder_results r = w.process();
    std::string out = "{\"success\":" + std::string(r.success ? "1" : "0") + ",\"is_cancelled\":" + (r.cancelled ? "1" : "0") + ",\"message\":\"" + esc(r.message) + "\",\"callbacks\":[" + seq + "],\"progress\":" + progress(r.progress, true) + "}\n";
    sink.str(""); fputs(out.c_str(), stdout); fflush(stdout);
  }
  std::cout.rdbuf(ob);
  return 0;
}
