// Library driver for the straightener's command line check: one straightening per line, key=value fields separated by tabs.
#include "arc_interpolation.h"
#include "marlin_1.h"
#include "marlin_2.h"
#include "repetier.h"
#include "prusa.h"
#include "smoothieware.h"
#include <iostream>
#include <sstream>
int main() {
  std::ios::sync_with_stdio(false); std::string line; std::stringstream sink; auto* ob = std::cout.rdbuf(sink.rdbuf());
  while (std::getline(std::cin, line)) {
    arc_interpolation_args a; firmware_arguments& f = a.firmware_args; std::stringstream st(line); std::string t;
    // every setting comes from the caller; the version's defaults are not consulted
    while (std::getline(st, t, '\t')) {
      size_t q = t.find('='); if (q == std::string::npos) continue; std::string k = t.substr(0, q), v = t.substr(q + 1); double d = atof(v.c_str());
      if (k == "source") a.source_path = v; else if (k == "target") a.target_path = v; else if (k == "type") f.firmware_type = (firmware_types)(int)d; else if (k == "version") f.version = v;
      else if (k == "mm_per_arc_segment") f.mm_per_arc_segment = d; else if (k == "arc_segments_per_r") f.arc_segments_per_r = d; else if (k == "min_mm_per_arc_segment") f.min_mm_per_arc_segment = d;
      else if (k == "min_arc_segment_mm") f.min_arc_segment_mm = d; else if (k == "max_arc_segment_mm") f.max_arc_segment_mm = d; else if (k == "arc_segments_per_sec") f.arc_segments_per_sec = d;
      else if (k == "mm_max_arc_error") f.mm_max_arc_error = d; else if (k == "min_arc_segments") f.min_arc_segments = (int)d; else if (k == "min_circle_segments") f.min_circle_segments = (int)d;
      else if (k == "n_arc_correction") f.n_arc_correction = (int)d; else if (k == "g90_g91_influences_extruder") f.g90_g91_influences_extruder = d != 0;
    }
    { arc_interpolation p(a); p.process(); }
    sink.str(""); fputs("done\n", stdout); fflush(stdout);
  }
  std::cout.rdbuf(ob);
}
