From 13cef2c3f34750c40f46890f825a0c8359830057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:18 +0000
Subject: [PATCH 01/78] fix: use the values, not the precisions, of I, J and R
 for G2/G3 statistics

---
 ArcWelder/arc_welder.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ArcWelder/arc_welder.cpp b/ArcWelder/arc_welder.cpp
index c68fdc0..29ec77f 100644
--- a/ArcWelder/arc_welder.cpp
+++ b/ArcWelder/arc_welder.cpp
@@ -471,14 +471,14 @@ int arc_welder::process_gcode(parsed_command cmd, bool is_end, bool is_reprocess
         switch ((*it).name[0])
         {
         case 'I':
-          i = (*it).double_precision;
+          i = (*it).double_value;
           break;
         case 'J':
-          j = (*it).double_precision;
+          j = (*it).double_value;
           break;
           // Note that the R form isn't fully implemented!
         case 'R':
-          r = (*it).double_precision;
+          r = (*it).double_value;
           break;
         }
       }
-- 
2.43.0


From 2d5236c4435d6907db3d7a6b7b0e4f6eeeb44eda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:18 +0000
Subject: [PATCH 02/78] fix: do not weld the first move of an arc with moves of
 another type

---
 ArcWelder/segmented_arc.cpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/ArcWelder/segmented_arc.cpp b/ArcWelder/segmented_arc.cpp
index bc17ef8..260180f 100644
--- a/ArcWelder/segmented_arc.cpp
+++ b/ArcWelder/segmented_arc.cpp
@@ -155,8 +155,8 @@ bool segmented_arc::try_add_point(printer_point p)
       return false;
     }
 
-    // If we have more than 2 points, we need to make sure the current and previous moves are all of the same type.
-    if (points_.count() > 2)
+    // If we have at least one move (two points), we need to make sure the current and previous moves are all of the same type.
+    if (points_.count() > 1)
     {
       // TODO:  Do we need this?
       // We already have at least an initial point and a second point.  Make cure the current point and the previous are either both
@@ -168,7 +168,14 @@ bool segmented_arc::try_add_point(printer_point p)
         )
         )
       {
-        return false;
+        if (points_.count() > 2)
+        {
+          return false;
+        }
+        // There is only one previous move, and it is of another type.  Start over from its end point.
+        points_.pop_front();
+        original_shape_length_ = 0;
+        e_relative_ = 0;
       }
     }
 
-- 
2.43.0


From c05ea4717ece2ed2f738667d9f5f3e423123bd20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:57 +0000
Subject: [PATCH 03/78] fix: compare the real length of the arc gcode with the
 maximum length

---
 ArcWelder/segmented_arc.cpp | 54 ++-----------------------------------
 1 file changed, 2 insertions(+), 52 deletions(-)

diff --git a/ArcWelder/segmented_arc.cpp b/ArcWelder/segmented_arc.cpp
index 260180f..51514b0 100644
--- a/ArcWelder/segmented_arc.cpp
+++ b/ArcWelder/segmented_arc.cpp
@@ -364,58 +364,8 @@ std::string segmented_arc::get_shape_gcode() const
 
 int segmented_arc::get_shape_gcode_length()
 {
-  double e = current_arc_.end_point.is_extruder_relative ? e_relative_ : current_arc_.end_point.e_offset;
-  double f = current_arc_.start_point.f == current_arc_.end_point.f ? 0 : current_arc_.end_point.f;
-  bool has_e = e_relative_ != 0;
-  bool has_f = utilities::greater_than_or_equal(f, 1);
-  bool has_z = allow_3d_arcs_ && !utilities::is_equal(
-    current_arc_.start_point.z, current_arc_.end_point.z, get_xyz_tolerance()
-  );
-  
-  int xyz_precision = get_xyz_precision();
-  int e_precision = get_e_precision();
-
-  double i = current_arc_.get_i();
-  double j = current_arc_.get_j();
-
-
-  int num_spaces = 4 + (has_z ? 1 : 0) + (has_e ? 1 : 0) + (has_f ? 1 : 0);
-  int num_decimal_points = 4 + (has_z ? 1 : 0) + (has_e ? 1 : 0);  // note f has no decimal point
-  int num_decimals = xyz_precision * (4 + (has_z ? 1 : 0)) + e_precision * (has_e ? 1 : 0); // Note f is an int
-  int num_digits = (
-    utilities::get_num_digits(current_arc_.end_point.x, xyz_precision) +
-    utilities::get_num_digits(current_arc_.end_point.y, xyz_precision) +
-    (has_z ? utilities::get_num_digits(current_arc_.end_point.z, xyz_precision) : 0) +
-    (has_e ? utilities::get_num_digits(e, e_precision) : 0) +
-    utilities::get_num_digits(i, xyz_precision) +
-    utilities::get_num_digits(j, xyz_precision) +
-    (has_f ? utilities::get_num_digits(f,0) : 0)
-  );
-  int num_minus_signs = (
-    (current_arc_.end_point.x < 0 ? 1 : 0) + 
-    (current_arc_.end_point.y < 0 ? 1 : 0) +
-    (i < 0 ? 1 : 0) +
-    (j < 0 ? 1 : 0) +
-    (has_e && e < 0 ? 1 : 0) +
-    (has_z && current_arc_.end_point.z < 0 ? 1 : 0)
-  );
-
-  int num_parameters = 4 + (has_e ? 1 : 0) + (has_z ? 1: 0) + (has_f ? 1: 0);
-  // Return the length of the gcode.
-  int gcode_length = 2 + num_spaces + num_decimal_points + num_digits + num_minus_signs + num_decimals + num_parameters;
-  
-  // Keep this around in case we have any future issues with the gcode length calculation
-  #ifdef Debug
-  std::string gcode = get_shape_gcode();
-  if (gcode.length() != gcode_length)
-  {
-    return 9999999; 
-  }
-  #endif
-  return gcode_length;
-  
-
-
+  // Rounding and zeros change the number of characters, so measure what would really be written.
+  return (int)get_shape_gcode().length();
 }
 
 /*
-- 
2.43.0


From 07a85616499146902ff8398e82ccea69269f96de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:57 +0000
Subject: [PATCH 04/78] fix: firmware compensation must compare the
 interpolated segments with the minimum

---
 ArcWelder/segmented_arc.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ArcWelder/segmented_arc.cpp b/ArcWelder/segmented_arc.cpp
index 51514b0..ba6aff0 100644
--- a/ArcWelder/segmented_arc.cpp
+++ b/ArcWelder/segmented_arc.cpp
@@ -63,7 +63,7 @@ segmented_arc::segmented_arc(
   mm_per_arc_segment_ = mm_per_arc_segment;
   if (mm_per_arc_segment_ < 0 || utilities::is_zero(mm_per_arc_segment_))
   {
-    mm_per_arc_segment = 0;
+    mm_per_arc_segment_ = 0;
   }
   min_arc_segments_ = min_arc_segments;
   if (min_arc_segments_ < 0)
@@ -250,7 +250,7 @@ bool segmented_arc::try_add_point_internal_(printer_point p)
       // See how many arcs will be interpolated
       double circumference = 2.0 * PI_DOUBLE * current_arc_.radius;
       // TODO: Should this be ceil?
-      int num_segments = (int)utilities::floor(circumference / min_arc_segments_);
+      int num_segments = (int)utilities::floor(circumference / mm_per_arc_segment_);
       if (num_segments < min_arc_segments_) {
         //num_segments = (int)std::ceil(circumference/approximate_length) * (int)std::ceil(approximate_length / mm_per_arc_segment);
         // TODO: Should this be ceil?
-- 
2.43.0


From 5b0b9eb49be4f8a92eedf343a52ee2e549c72f2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:29 +0000
Subject: [PATCH 05/78] fix: check the Z of every vertex of a 3D arc against
 the interpolated Z

---
 ArcWelder/segmented_shape.cpp | 63 +++++++++++++++++------------------
 ArcWelder/segmented_shape.h   |  2 ++
 2 files changed, 32 insertions(+), 33 deletions(-)

diff --git a/ArcWelder/segmented_shape.cpp b/ArcWelder/segmented_shape.cpp
index 3da264c..928e2f6 100644
--- a/ArcWelder/segmented_shape.cpp
+++ b/ArcWelder/segmented_shape.cpp
@@ -201,7 +201,11 @@ bool circle::try_create_circle(const array_list<printer_point>& points, const do
   int middle_index = count / 2;
   int end_index = count - 1;
   
-
+  if (allow_3d_arcs && !circle::is_z_change_even(points, xyz_tolerance))
+  {
+    // The z step is uneven, can't create arc
+    return false;
+  }
   
   if (circle::try_create_circle(points[0], points[middle_index], points[end_index], max_radius, new_circle) && !new_circle.is_over_deviation(points, resolution_mm, xyz_tolerance, allow_3d_arcs))
   {
@@ -265,10 +269,33 @@ double circle::get_polar_radians(const point& p1) const
   return polar_radians;
 }
 
+bool circle::is_z_change_even(const array_list<printer_point>& points, const double xyz_tolerance)
+{
+  // Z is interpolated linearly along an arc, so every point must be near the straight line
+  // from the first to the last Z (over the XY distance traveled).
+  const int count = points.count();
+  double total_distance = 0;
+  for (int index = 1; index < count; index++)
+  {
+    total_distance += utilities::get_cartesian_distance(points[index - 1].x, points[index - 1].y, points[index].x, points[index].y);
+  }
+  const double z_start = points[0].z;
+  const double z_change = points[count - 1].z - z_start;
+  double distance = 0;
+  for (int index = 1; index < count - 1; index++)
+  {
+    distance += utilities::get_cartesian_distance(points[index - 1].x, points[index - 1].y, points[index].x, points[index].y);
+    double expected_z = z_start + (total_distance > 0 ? z_change * distance / total_distance : 0);
+    if (utilities::abs(points[index].z - expected_z) > xyz_tolerance)
+    {
+      return false;
+    }
+  }
+  return true;
+}
+
 bool circle::get_deviation_sum_squared(const array_list<printer_point>& points, const double resolution_mm, const double xyz_tolerance, const bool allow_3d_arcs, double &total_deviation)
 {
-  // We need to ensure that the Z steps are constand per linear travel unit
-  double z_step_per_distance = 0;
   total_deviation = 0;
   // Skip the first and last points since they will fit perfectly.
   for (int index = 1; index < points.count() - 1; index++)
@@ -276,20 +303,6 @@ bool circle::get_deviation_sum_squared(const array_list<printer_point>& points,
     // Make sure the length from the center of our circle to the test point is 
     // at or below our max distance.
     double distance_from_center = utilities::get_cartesian_distance(points[index].x, points[index].y, center.x, center.y);
-    if (allow_3d_arcs) {
-      double z1 = points[index - 1].z;
-      double z2 = points[index].z;
-
-      double current_z_stepper_distance = (z2 - z1) / distance_from_center;
-      if (index == 1) {
-        z_step_per_distance = current_z_stepper_distance;
-      }
-      else if (!utilities::is_equal(z_step_per_distance, current_z_stepper_distance, xyz_tolerance))
-      {
-        // The z step is uneven, can't create arc				
-        return false;
-      }
-    }
     double deviation = utilities::abs(distance_from_center - radius);
     total_deviation += deviation * deviation;
     if (deviation > resolution_mm)
@@ -318,8 +331,6 @@ bool circle::get_deviation_sum_squared(const array_list<printer_point>& points,
 
 bool circle::is_over_deviation(const array_list<printer_point>& points, const double resolution_mm, const double xyz_tolerance, const bool allow_3d_arcs)
 {
-  // We need to ensure that the Z steps are constand per linear travel unit
-  double z_step_per_distance = 0;
   // shared point to test
   point point_to_test;
   int max_index = points.count() - 1;
@@ -332,20 +343,6 @@ bool circle::is_over_deviation(const array_list<printer_point>& points, const do
       // Make sure the length from the center of our circle to the test point is 
       // at or below our max distance.
       double distance_from_center = utilities::get_cartesian_distance(current_point.x, current_point.y, center.x, center.y);
-      if (allow_3d_arcs) {
-        double z1 = points[index - 1].z;
-        double z2 = current_point.z;
-
-        double current_z_stepper_distance = (z2 - z1) / distance_from_center;
-        if (index == 1) {
-          z_step_per_distance = current_z_stepper_distance;
-        }
-        else if (!utilities::is_equal(z_step_per_distance, current_z_stepper_distance, xyz_tolerance))
-        {
-          // The z step is uneven, can't create arc				
-          return true;
-        }
-      }
       if (utilities::abs(distance_from_center - radius) > resolution_mm)
       {
         return true;
diff --git a/ArcWelder/segmented_shape.h b/ArcWelder/segmented_shape.h
index d466a42..59247cc 100644
--- a/ArcWelder/segmented_shape.h
+++ b/ArcWelder/segmented_shape.h
@@ -129,6 +129,8 @@ struct circle {
 
 	point get_closest_point(const point& p) const;
 
+	static bool is_z_change_even(const array_list<printer_point>& points, const double xyz_tolerance);
+
 	bool is_over_deviation(const array_list<printer_point>& points, const double resolution_mm, const double xyz_tolerance, const bool allow_3d_arcs);
 	
 	bool get_deviation_sum_squared(const array_list<printer_point>& points, const double resolution_mm, const double xyz_tolerance, const bool allow_3d_arcs, double& sum_deviation);
-- 
2.43.0


From 7cdeec04bf1d6f0fe7b7e1d385e565c22d36cef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:29 +0000
Subject: [PATCH 06/78] fix: write small Z changes of 3D arcs, else they
 accumulate

---
 ArcWelder/segmented_arc.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/ArcWelder/segmented_arc.cpp b/ArcWelder/segmented_arc.cpp
index ba6aff0..eed3c68 100644
--- a/ArcWelder/segmented_arc.cpp
+++ b/ArcWelder/segmented_arc.cpp
@@ -303,9 +303,7 @@ std::string segmented_arc::get_shape_gcode() const
   double f = current_arc_.start_point.f == current_arc_.end_point.f ? 0 : current_arc_.end_point.f;
   bool has_e = e_relative_ != 0;
   bool has_f = utilities::greater_than_or_equal(f, 1);
-  bool has_z = allow_3d_arcs_ && !utilities::is_equal(
-    current_arc_.start_point.z, current_arc_.end_point.z, get_xyz_tolerance()
-  );
+  bool has_z = allow_3d_arcs_ && !utilities::is_equal(current_arc_.start_point.z, current_arc_.end_point.z);
   gcode.reserve(96);
 
   if (current_arc_.angle_radians < 0)
-- 
2.43.0


From 0d6285d543cd8ee0a9a5df261a782d3d6ad267c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:29 +0000
Subject: [PATCH 07/78] fix: collect the comments of all moves of an arc when
 blank lines are between them

---
 ArcWelder/arc_welder.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/ArcWelder/arc_welder.cpp b/ArcWelder/arc_welder.cpp
index 29ec77f..a103720 100644
--- a/ArcWelder/arc_welder.cpp
+++ b/ArcWelder/arc_welder.cpp
@@ -872,7 +872,15 @@ std::string arc_welder::get_comment_for_arc()
 {
   // build a comment string from the commands making up the arc
         // We need to start with the first command entered.
-  int comment_index = unwritten_commands_.count() - (current_arc_.get_num_segments() - 1);
+  // There may be blank lines between the moves, so find the first one by counting moves.
+  int comment_index = unwritten_commands_.count();
+  for (int num_moves = current_arc_.get_num_segments() - 1; num_moves > 0 && comment_index > 0;)
+  {
+    if (unwritten_commands_[--comment_index].is_g0_g1)
+    {
+      num_moves--;
+    }
+  }
   std::string comment;
   for (; comment_index < unwritten_commands_.count(); comment_index++)
   {
-- 
2.43.0


From 6d989dcd3e7c2e5ccd6ce090ca4c826a6551305b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:29 +0000
Subject: [PATCH 08/78] fix: blank lines must not reset the extrusion rate of
 the current arc

---
 ArcWelder/arc_welder.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/ArcWelder/arc_welder.cpp b/ArcWelder/arc_welder.cpp
index a103720..4c0bc2b 100644
--- a/ArcWelder/arc_welder.cpp
+++ b/ArcWelder/arc_welder.cpp
@@ -730,8 +730,11 @@ int arc_welder::process_gcode(parsed_command cmd, bool is_end, bool is_reprocess
       }
     }
 
-    // Reset the previous extrusion rate
-    previous_extrusion_rate_ = 0;
+    // Reset the previous extrusion rate, but not for blank lines since they do not interrupt an arc
+    if (!cmd.is_empty || cmd.comment.length() != 0)
+    {
+      previous_extrusion_rate_ = 0;
+    }
   }
 
   if (!arc_added && !(cmd.is_empty && cmd.comment.length() == 0))
-- 
2.43.0


From 1203acca49666dc91680d7ee2b2c3a23242bdfb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:29 +0000
Subject: [PATCH 09/78] fix: indented or non-ASCII lines are not empty lines

---
 GcodeProcessorLib/gcode_parser.cpp | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/GcodeProcessorLib/gcode_parser.cpp b/GcodeProcessorLib/gcode_parser.cpp
index 1a4b928..2f7f2f2 100644
--- a/GcodeProcessorLib/gcode_parser.cpp
+++ b/GcodeProcessorLib/gcode_parser.cpp
@@ -131,20 +131,14 @@ bool gcode_parser::try_parse_gcode(const char * gcode, parsed_command & command,
 	command.is_known_command = try_extract_gcode_command(&p, &(command.command));
 	if (!command.is_known_command)
 	{
-		while (true)
+		// The line is only empty if there is nothing but whitespace before the comment
+		for (const char * p_text = p_gcode; *p_text != '\0' && *p_text != ';'; p_text++)
 		{
-			char c = *p_gcode;
-			if (c == '\0' || c == ';' || c == ' ' || c == '\t')
-				break;
-			else if (c > 31)
+			if (static_cast<unsigned char>(*p_text) > 32)
 			{
 				command.is_empty = false;
 				break;
 			}
-			else if (preserve_format) {
-				command.gcode.push_back(c);
-			}
-			p_gcode++;
 		}
 		command.command = "";
 	}
-- 
2.43.0


From c353701c7df8d4b8b180706d86f2b4a11d6a3905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:29 +0000
Subject: [PATCH 10/78] fix: recognize Slic3r feature comments that start with
 a space

---
 GcodeProcessorLib/gcode_comment_processor.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/GcodeProcessorLib/gcode_comment_processor.cpp b/GcodeProcessorLib/gcode_comment_processor.cpp
index 54ba1bb..28c675a 100644
--- a/GcodeProcessorLib/gcode_comment_processor.cpp
+++ b/GcodeProcessorLib/gcode_comment_processor.cpp
@@ -20,6 +20,7 @@
 // FormerLurker@pm.me
 ////////////////////////////////////////////////////////////////////////////////////////////////////////////////////////////////////////////////////////////////////
 #include "gcode_comment_processor.h"
+#include "utilities.h"
 
 gcode_comment_processor::gcode_comment_processor()
 {
@@ -49,7 +50,9 @@ void gcode_comment_processor::update(position& pos)
 
 	if (processing_type_ == comment_process_type_unknown || processing_type_ == comment_process_type_slic3r_pe)
 	{
-		if (update_feature_for_slic3r_pe_comment(pos, pos.command.comment))
+		// The comment usually starts with a space
+		std::string comment = utilities::trim(pos.command.comment);
+		if (update_feature_for_slic3r_pe_comment(pos, comment))
 			processing_type_ = comment_process_type_slic3r_pe;
 	}
 	
-- 
2.43.0


From 93e2614b4dd6e589e1e77577aacd20a594e40f92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:25 +0000
Subject: [PATCH 11/78] fix: ignore leading zeros of command numbers (G01 is
 G1)

---
 GcodeProcessorLib/gcode_parser.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/GcodeProcessorLib/gcode_parser.cpp b/GcodeProcessorLib/gcode_parser.cpp
index 2f7f2f2..804dcf1 100644
--- a/GcodeProcessorLib/gcode_parser.cpp
+++ b/GcodeProcessorLib/gcode_parser.cpp
@@ -290,7 +290,12 @@ bool gcode_parser::try_extract_gcode_command(char ** p_p_gcode, std::string * p_
 
 			// Now look for a command address
 			while ((*p >= '0' && *p <= '9') || *p == ' ') {
-				if (*p != ' ')
+				if (*p == '0' && p_command->length() == 1 && p[1] >= '0' && p[1] <= '9')
+				{
+					// Leading zeros are not significant (G01 is G1)
+					p++;
+				}
+				else if (*p != ' ')
 				{
 					found_command = true;
 					(*p_command).push_back(*p++);
-- 
2.43.0


From b1b24394c2d9344ff08056f68fa0cc3ec26123ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:25 +0000
Subject: [PATCH 12/78] fix: G92 on an axis that is not homed must respect the
 firmware offset

---
 GcodeProcessorLib/gcode_position.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/GcodeProcessorLib/gcode_position.cpp b/GcodeProcessorLib/gcode_position.cpp
index 3c60868..9f5d862 100644
--- a/GcodeProcessorLib/gcode_position.cpp
+++ b/GcodeProcessorLib/gcode_position.cpp
@@ -1225,7 +1225,7 @@ void gcode_position::process_g92(position* pos, parsed_command& cmd)
 				pos->x_offset = pos->x - x + pos->x_firmware_offset;
 			else
 			{
-				pos->x = x;
+				pos->x = x - pos->x_firmware_offset;
 				pos->x_offset = 0;
 				pos->x_null = false;
 			}
@@ -1236,7 +1236,7 @@ void gcode_position::process_g92(position* pos, parsed_command& cmd)
 				pos->y_offset = pos->y - y + pos->y_firmware_offset;
 			else
 			{
-				pos->y = y;
+				pos->y = y - pos->y_firmware_offset;
 				pos->y_offset = 0;
 				pos->y_null = false;
 			}
@@ -1247,7 +1247,7 @@ void gcode_position::process_g92(position* pos, parsed_command& cmd)
 				pos->z_offset = pos->z - z + pos->z_firmware_offset;
 			else
 			{
-				pos->z = z;
+				pos->z = z - pos->z_firmware_offset;
 				pos->z_offset = 0;
 				pos->z_null = false;
 			}
-- 
2.43.0


From a3945d67468e7726397687442601725f8c8fc754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:25 +0000
Subject: [PATCH 13/78] fix: do not weld moves that start at an unknown
 position

---
 ArcWelder/arc_welder.cpp             |  5 ++++-
 GcodeProcessorLib/gcode_position.cpp | 24 +++++++++++++++---------
 2 files changed, 19 insertions(+), 10 deletions(-)

diff --git a/ArcWelder/arc_welder.cpp b/ArcWelder/arc_welder.cpp
index 4c0bc2b..2fae4c5 100644
--- a/ArcWelder/arc_welder.cpp
+++ b/ArcWelder/arc_welder.cpp
@@ -566,10 +566,13 @@ int arc_welder::process_gcode(parsed_command cmd, bool is_end, bool is_reprocess
 
   bool z_axis_ok = allow_3d_arcs_ ||
     utilities::is_equal(p_cur_pos->z, p_pre_pos->z);
+
+  // An arc can't start from an unknown position (no position yet, or after homing)
+  bool is_start_known = !p_pre_pos->x_null && !p_pre_pos->y_null && (!p_pre_pos->z_null || p_cur_pos->z_null);
   
   if (
     !is_end && cmd.is_known_command && !cmd.is_empty && (
-      is_g0_g1 && z_axis_ok &&
+      is_g0_g1 && z_axis_ok && is_start_known &&
       utilities::is_equal(p_cur_pos->x_offset, p_pre_pos->x_offset) &&
       utilities::is_equal(p_cur_pos->y_offset, p_pre_pos->y_offset) &&
       utilities::is_equal(p_cur_pos->z_offset, p_pre_pos->z_offset) &&
diff --git a/GcodeProcessorLib/gcode_position.cpp b/GcodeProcessorLib/gcode_position.cpp
index 9f5d862..3ee6a93 100644
--- a/GcodeProcessorLib/gcode_position.cpp
+++ b/GcodeProcessorLib/gcode_position.cpp
@@ -1099,22 +1099,28 @@ void gcode_position::process_g28(position* pos, parsed_command& cmd)
 		set_z_home = true;
 	}
 
-	if (set_x_home && !home_x_none_)
+	if (set_x_home)
 	{
-		pos->x = home_x_;
-		pos->x_null = false;
+		// Without a home position we do not know where the axis is now
+		if (!home_x_none_)
+			pos->x = home_x_;
+		pos->x_null = home_x_none_;
 	}
 	// todo: set error flag on else
-	if (set_y_home && !home_y_none_)
+	if (set_y_home)
 	{
-		pos->y = home_y_;
-		pos->y_null = false;
+		// Without a home position we do not know where the axis is now
+		if (!home_y_none_)
+			pos->y = home_y_;
+		pos->y_null = home_y_none_;
 	}
 	// todo: set error flag on else
-	if (set_z_home && !home_z_none_)
+	if (set_z_home)
 	{
-		pos->z = home_z_;
-		pos->z_null = false;
+		// Without a home position we do not know where the axis is now
+		if (!home_z_none_)
+			pos->z = home_z_;
+		pos->z_null = home_z_none_;
 	}
 	// todo: set error flag on else
 }
-- 
2.43.0


From b99cd6060c01d202f05637132218d44cb625996b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:25 +0000
Subject: [PATCH 14/78] fix: do not weld moves made in inches

---
 ArcWelder/arc_welder.cpp             | 5 ++++-
 GcodeProcessorLib/gcode_position.cpp | 8 ++++++--
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/ArcWelder/arc_welder.cpp b/ArcWelder/arc_welder.cpp
index 2fae4c5..db0b583 100644
--- a/ArcWelder/arc_welder.cpp
+++ b/ArcWelder/arc_welder.cpp
@@ -567,12 +567,15 @@ int arc_welder::process_gcode(parsed_command cmd, bool is_end, bool is_reprocess
   bool z_axis_ok = allow_3d_arcs_ ||
     utilities::is_equal(p_cur_pos->z, p_pre_pos->z);
 
+  // Resolution, radius and precision are in mm
+  bool is_metric = p_cur_pos->is_metric || p_cur_pos->is_metric_null;
+
   // An arc can't start from an unknown position (no position yet, or after homing)
   bool is_start_known = !p_pre_pos->x_null && !p_pre_pos->y_null && (!p_pre_pos->z_null || p_cur_pos->z_null);
   
   if (
     !is_end && cmd.is_known_command && !cmd.is_empty && (
-      is_g0_g1 && z_axis_ok && is_start_known &&
+      is_g0_g1 && z_axis_ok && is_start_known && is_metric &&
       utilities::is_equal(p_cur_pos->x_offset, p_pre_pos->x_offset) &&
       utilities::is_equal(p_cur_pos->y_offset, p_pre_pos->y_offset) &&
       utilities::is_equal(p_cur_pos->z_offset, p_pre_pos->z_offset) &&
diff --git a/GcodeProcessorLib/gcode_position.cpp b/GcodeProcessorLib/gcode_position.cpp
index 3ee6a93..0153ffb 100644
--- a/GcodeProcessorLib/gcode_position.cpp
+++ b/GcodeProcessorLib/gcode_position.cpp
@@ -1047,12 +1047,16 @@ void gcode_position::process_g11(position* pos, parsed_command& cmd)
 
 void gcode_position::process_g20(position* pos, parsed_command& cmd)
 {
-
+	// Set units to inches
+	pos->is_metric = false;
+	pos->is_metric_null = false;
 }
 
 void gcode_position::process_g21(position* pos, parsed_command& cmd)
 {
-
+	// Set units to millimeters
+	pos->is_metric = true;
+	pos->is_metric_null = false;
 }
 
 void gcode_position::process_g28(position* pos, parsed_command& cmd)
-- 
2.43.0


From 0b87cfcd2e381484af7295d5ba23182d2792cea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:38 +0000
Subject: [PATCH 15/78] fix: include the extrusion of the last move when
 checking the gcode length

---
 ArcWelder/segmented_arc.cpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/ArcWelder/segmented_arc.cpp b/ArcWelder/segmented_arc.cpp
index eed3c68..f637e0c 100644
--- a/ArcWelder/segmented_arc.cpp
+++ b/ArcWelder/segmented_arc.cpp
@@ -239,10 +239,17 @@ bool segmented_arc::try_add_point_internal_(printer_point p)
   if (arc::try_create_arc(points_, current_arc_, original_shape_length_, max_radius_mm_, resolution_mm_, path_tolerance_percent_, min_arc_segments_, mm_per_arc_segment_, get_xyz_tolerance(), allow_3d_arcs_))
   {
     bool abort_arc = false;
-    if (max_gcode_length_ > 0 && get_shape_gcode_length() > max_gcode_length_)
+    if (max_gcode_length_ > 0)
     {
-      abort_arc = true;
-      num_gcode_length_exceptions_++;
+      // The extrusion of the new point isn't included in e_relative_ yet, but it will be in the gcode
+      double previous_e_relative = e_relative_;
+      e_relative_ += p.e_relative;
+      if (get_shape_gcode_length() > max_gcode_length_)
+      {
+        abort_arc = true;
+        num_gcode_length_exceptions_++;
+      }
+      e_relative_ = previous_e_relative;
     }
     if (min_arc_segments_ > 0 && mm_per_arc_segment_ > 0)
     {
-- 
2.43.0


From 846bf49a7efddadfdbf38f2b4e823f4295e4a4f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:28 +0000
Subject: [PATCH 16/78] fix: finish the last arc of a file that ends with blank
 lines

---
 ArcWelder/arc_welder.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ArcWelder/arc_welder.cpp b/ArcWelder/arc_welder.cpp
index db0b583..36a8623 100644
--- a/ArcWelder/arc_welder.cpp
+++ b/ArcWelder/arc_welder.cpp
@@ -338,6 +338,7 @@ arc_welder_results arc_welder::process()
   if (current_arc_.is_shape() && waiting_for_arc_)
   {
     p_logger_->log(logger_type_, log_levels::DEBUG, "Processing the final line.");
+    cmd.clear();
     process_gcode(cmd, true, false);
   }
   p_logger_->log(logger_type_, log_levels::DEBUG, "Writing all unwritten gcodes to the target file.");
@@ -743,7 +744,7 @@ int arc_welder::process_gcode(parsed_command cmd, bool is_end, bool is_reprocess
     }
   }
 
-  if (!arc_added && !(cmd.is_empty && cmd.comment.length() == 0))
+  if (!arc_added && (is_end || !(cmd.is_empty && cmd.comment.length() == 0)))
   {
     if (current_arc_.get_num_segments() < current_arc_.get_min_segments()) {
       if (debug_logging_enabled_ && !cmd.is_empty)
-- 
2.43.0


From 7e1ae8e79e62c47fccb5b6ffa6608db4f4601ec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:08 +0000
Subject: [PATCH 17/78] fix: the center of an arc is its start plus I and J
 when measuring its length

---
 GcodeProcessorLib/utilities.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/GcodeProcessorLib/utilities.cpp b/GcodeProcessorLib/utilities.cpp
index d16f8f4..e386040 100644
--- a/GcodeProcessorLib/utilities.cpp
+++ b/GcodeProcessorLib/utilities.cpp
@@ -212,13 +212,13 @@ double utilities::get_cartesian_distance(double x1, double y1, double z1, double
 
 double utilities::get_arc_distance(double x1, double y1, double z1, double x2, double y2, double z2, double i, double j, double r, bool is_clockwise)
 {
-	double center_x = x1 - i;
-	double center_y = y1 - j;
+	double center_x = x1 + i;
+	double center_y = y1 + j;
 	double radius = utilities::hypot(i, j);
 	double z_dist = z2 - z1;
 	double rt_x = x2 - center_x;
 	double rt_y = y2 - center_y;
-	double angular_travel_total = utilities::atan2(i * rt_y - j * rt_x, i * rt_x + j * rt_y);
+	double angular_travel_total = utilities::atan2(j * rt_x - i * rt_y, -i * rt_x - j * rt_y);
 	if (angular_travel_total < 0) { angular_travel_total += 2.0 * PI_DOUBLE; }
 	// Adjust the angular travel if the direction is clockwise
 	if (is_clockwise) { angular_travel_total -= 2.0 * PI_DOUBLE; }
-- 
2.43.0


From 69edfc058a1863af75f2948d869260dfb4988b69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:07 +0000
Subject: [PATCH 18/78] fix: process() must not start with the state of the
 file converted before

---
 ArcWelder/arc_welder.cpp      | 12 ++++++++++++
 ArcWelder/segmented_arc.cpp   |  5 +++++
 ArcWelder/segmented_arc.h     |  1 +
 ArcWelder/segmented_shape.cpp |  6 ++++--
 ArcWelder/segmented_shape.h   |  2 ++
 5 files changed, 24 insertions(+), 2 deletions(-)

diff --git a/ArcWelder/arc_welder.cpp b/ArcWelder/arc_welder.cpp
index 36a8623..ed502f1 100644
--- a/ArcWelder/arc_welder.cpp
+++ b/ArcWelder/arc_welder.cpp
@@ -167,7 +167,19 @@ void arc_welder::reset()
   file_size_ = 0;
   points_compressed_ = 0;
   arcs_created_ = 0;
+  arcs_aborted_by_flow_rate_ = 0;
   waiting_for_arc_ = false;
+  previous_feedrate_ = -1;
+  previous_extrusion_rate_ = 0;
+  segment_statistics_ = source_target_segment_statistics(segment_statistic_lengths, segment_statistic_lengths_count, p_logger_);
+  segment_retraction_statistics_ = source_target_segment_statistics(segment_statistic_lengths, segment_statistic_lengths_count, p_logger_);
+  travel_statistics_ = source_target_segment_statistics(segment_statistic_lengths, segment_statistic_lengths_count, p_logger_);
+  unwritten_commands_.clear();
+  current_arc_.clear();
+  current_arc_.reset_precision();
+  current_arc_.reset_counts();
+  delete p_source_position_;
+  p_source_position_ = new gcode_position(gcode_position_args_);
 }
 
 long arc_welder::get_file_size(const std::string& file_path)
diff --git a/ArcWelder/segmented_arc.cpp b/ArcWelder/segmented_arc.cpp
index f637e0c..1458515 100644
--- a/ArcWelder/segmented_arc.cpp
+++ b/ArcWelder/segmented_arc.cpp
@@ -122,6 +122,11 @@ int segmented_arc::get_num_gcode_length_exceptions() const
 {
   return num_gcode_length_exceptions_;
 }
+void segmented_arc::reset_counts()
+{
+  num_firmware_compensations_ = 0;
+  num_gcode_length_exceptions_ = 0;
+}
 double segmented_arc::get_mm_per_arc_segment() const
 {
   return mm_per_arc_segment_;
diff --git a/ArcWelder/segmented_arc.h b/ArcWelder/segmented_arc.h
index 7e73781..4610b83 100644
--- a/ArcWelder/segmented_arc.h
+++ b/ArcWelder/segmented_arc.h
@@ -58,6 +58,7 @@ public:
 	double get_mm_per_arc_segment() const;
 	int get_num_firmware_compensations() const;
 	int get_num_gcode_length_exceptions() const;
+	void reset_counts();
 private:
 	bool try_add_point_internal_(printer_point p);
 	arc current_arc_;
diff --git a/ArcWelder/segmented_shape.cpp b/ArcWelder/segmented_shape.cpp
index 928e2f6..ce72499 100644
--- a/ArcWelder/segmented_shape.cpp
+++ b/ArcWelder/segmented_shape.cpp
@@ -682,6 +682,8 @@ segmented_shape::segmented_shape(int min_segments, int max_segments, double reso
 
   set_xyz_precision(default_xyz_precision);
   e_precision_ = default_e_precision;
+  default_xyz_precision_ = default_xyz_precision;
+  default_e_precision_ = default_e_precision;
   max_segments_ = max_segments;
   path_tolerance_percent_ = path_tolerance_percnet;
   resolution_mm_ = resolution_mm / 2.0; // divide by 2 because it is + or - 1/2 of the desired resolution.
@@ -728,8 +730,8 @@ void segmented_shape::set_xyz_tolerance_from_precision()
 
 void segmented_shape::reset_precision()
 {
-  set_xyz_precision(DEFAULT_XYZ_PRECISION);
-  e_precision_ = DEFAULT_E_PRECISION;
+  set_xyz_precision(default_xyz_precision_);
+  e_precision_ = default_e_precision_;
 }
 
 void segmented_shape::update_xyz_precision(unsigned char precision)
diff --git a/ArcWelder/segmented_shape.h b/ArcWelder/segmented_shape.h
index 59247cc..b1b9d63 100644
--- a/ArcWelder/segmented_shape.h
+++ b/ArcWelder/segmented_shape.h
@@ -252,6 +252,8 @@ private:
 	int min_segments_;
 	int max_segments_;
 	unsigned char xyz_precision_;
+	unsigned char default_xyz_precision_;
+	unsigned char default_e_precision_;
 	double xyz_tolerance_;
 	unsigned char e_precision_;
 	void set_xyz_tolerance_from_precision();
-- 
2.43.0


From 63efd08dc2079454919f0d86b4929f23e7b766f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:18 +0000
Subject: [PATCH 19/78] fix: a cancelled or failed conversion must not replace
 the source file

---
 ArcWelder/arc_welder.cpp | 51 ++++++++++++++++++++++++++++++----------
 1 file changed, 38 insertions(+), 13 deletions(-)

diff --git a/ArcWelder/arc_welder.cpp b/ArcWelder/arc_welder.cpp
index ed502f1..848a021 100644
--- a/ArcWelder/arc_welder.cpp
+++ b/ArcWelder/arc_welder.cpp
@@ -247,8 +247,8 @@ arc_welder_results arc_welder::process()
     stream.str("");
     stream << "Source and target path are the same.  The source file will be overwritten.  Temporary file path: " << temp_file_path;
     p_logger_->log(logger_type_, log_levels::DEBUG, stream.str());
-    target_path_ = temp_file_path;
   }
+  const std::string output_path = overwrite_source_file ? temp_file_path : target_path_;
 
   // Create the source file read stream and target write stream
   std::ifstream gcodeFile;
@@ -265,7 +265,7 @@ arc_welder_results arc_welder::process()
 
   p_logger_->log(logger_type_, log_levels::DEBUG, "Opening the target file for writing.");
 
-  output_file_.open(target_path_.c_str(), std::ios_base::binary | std::ios_base::out);
+  output_file_.open(output_path.c_str(), std::ios_base::binary | std::ios_base::out);
   if (!output_file_.is_open())
   {
     results.success = false;
@@ -366,24 +366,49 @@ arc_welder_results arc_welder::process()
   on_progress_(final_progress);
 
   p_logger_->log(logger_type_, log_levels::DEBUG, "Closing source and target files.");
+  bool file_error = gcodeFile.bad();
   output_file_.close();
+  if (output_file_.fail())
+  {
+    file_error = true;
+  }
   gcodeFile.close();
+  if (file_error)
+  {
+    results.message = "An error occurred while reading the source file or writing the target file.";
+    p_logger_->log(logger_type_, log_levels::ERROR, results.message);
+  }
 
   if (overwrite_source_file)
   {
-    stream.clear();
-    stream.str("");
-    stream << "Deleting the original source file at '" << source_path_ << "'.";
-    p_logger_->log(logger_type_, log_levels::DEBUG, stream.str());
-    stream.clear();
-    stream.str("");
-    std::remove(source_path_.c_str());
-    stream << "Renaming temporary file at '" << target_path_ << "' to '" << source_path_ << "'.";
-    p_logger_->log(0, log_levels::DEBUG, stream.str());
-    std::rename(target_path_.c_str(), source_path_.c_str());
+    if (file_error || !continue_processing)
+    {
+      // The source file must not be replaced by an incomplete file
+      std::remove(output_path.c_str());
+    }
+    else
+    {
+      stream.clear();
+      stream.str("");
+#ifdef _WIN32
+      // rename does not replace existing files on windows
+      std::remove(source_path_.c_str());
+#endif
+      stream << "Renaming temporary file at '" << output_path << "' to '" << source_path_ << "'.";
+      p_logger_->log(0, log_levels::DEBUG, stream.str());
+      if (std::rename(output_path.c_str(), source_path_.c_str()) != 0)
+      {
+        file_error = true;
+        results.message = "Unable to replace the source file.";
+        p_logger_->log(logger_type_, log_levels::ERROR, results.message);
+#ifndef _WIN32
+        std::remove(output_path.c_str());
+#endif
+      }
+    }
   }
 
-  results.success = continue_processing;
+  results.success = continue_processing && !file_error;
   results.cancelled = !continue_processing;
   results.progress = final_progress;
   p_logger_->log(logger_type_, log_levels::DEBUG, "Returning processing results.");
-- 
2.43.0


From 1a05389b9f073ae962c0afba1a6dee276297fb56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:18 +0000
Subject: [PATCH 20/78] fix: recognize the UltiGCode flavor line in files with
 CRLF line endings

---
 ArcWelder/arc_welder.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ArcWelder/arc_welder.cpp b/ArcWelder/arc_welder.cpp
index 848a021..bc8ac48 100644
--- a/ArcWelder/arc_welder.cpp
+++ b/ArcWelder/arc_welder.cpp
@@ -292,7 +292,7 @@ arc_welder_results arc_welder::process()
 // This comment MUST be preserved as the first line for ultimakers, else things won't work
     if (lines_processed_ == 1)
     {
-      bool isUltiGCode = line == ";FLAVOR:UltiGCode";
+      bool isUltiGCode = line == ";FLAVOR:UltiGCode" || line == ";FLAVOR:UltiGCode\r";
       bool isPrusaSlicer = line.rfind("; generated by PrusaSlicer", 0) == 0;
       if (isUltiGCode || isPrusaSlicer)
       {
-- 
2.43.0


From f3c6c9867a60f3acf8f3e046fa25a8ac907eaf88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:34 +0000
Subject: [PATCH 21/78] fix: the name of the temporary file must be unique

---
 GcodeProcessorLib/utilities.cpp | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/GcodeProcessorLib/utilities.cpp b/GcodeProcessorLib/utilities.cpp
index e386040..5b5dbd4 100644
--- a/GcodeProcessorLib/utilities.cpp
+++ b/GcodeProcessorLib/utilities.cpp
@@ -21,6 +21,7 @@
 ////////////////////////////////////////////////////////////////////////////////////////////////////////////////////////////////////////////////////////////////////
 
 #include "utilities.h"
+#include <random>
 
 namespace utilities {
 	// Box Drawing Consts
@@ -454,25 +455,31 @@ bool utilities::get_file_path(const std::string& file_path, std::string& path)
 }
 
 std::string utilities::create_uuid() {
+	// rand is not seeded, every process would create the same sequence
+	static std::random_device random;
 	std::string res;
 	for (int i = 0; i < 16; i++) {
 		if (GUID_DASHES[i]) res += "-";
-		res += GUID_RANGE[(int)(rand() % 16)];
-		res += GUID_RANGE[(int)(rand() % 16)];
+		res += GUID_RANGE[(int)(random() % 16)];
+		res += GUID_RANGE[(int)(random() % 16)];
 	}
 	return res;
 }
 
 bool utilities::get_temp_file_path_for_file(const std::string& file_path, std::string& temp_file_path)
 {
-	temp_file_path = "";
-	if (!get_file_path(file_path, temp_file_path))
+	std::string directory = "";
+	if (!get_file_path(file_path, directory))
 	{
 		return false;
 	}
-	temp_file_path = temp_file_path;
-	temp_file_path += create_uuid();
-	temp_file_path += ".tmp";
+	// Never use the name of an existing file
+	do
+	{
+		temp_file_path = directory;
+		temp_file_path += create_uuid();
+		temp_file_path += ".tmp";
+	} while (does_file_exist(temp_file_path));
 	return true;
 }
 
-- 
2.43.0


From 7e8c8bf9877ae599e3aad9092491e7daccb13e06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:19 +0000
Subject: [PATCH 22/78] fix: do not truncate the source when the target is
 another path of the same file

---
 ArcWelder/arc_welder.cpp        | 10 +++++-----
 GcodeProcessorLib/utilities.cpp | 21 +++++++++++++++++++++
 GcodeProcessorLib/utilities.h   |  2 ++
 3 files changed, 28 insertions(+), 5 deletions(-)

diff --git a/ArcWelder/arc_welder.cpp b/ArcWelder/arc_welder.cpp
index bc8ac48..25a7232 100644
--- a/ArcWelder/arc_welder.cpp
+++ b/ArcWelder/arc_welder.cpp
@@ -232,10 +232,10 @@ arc_welder_results arc_welder::process()
   // Determine if we need to overwrite the source file
   bool overwrite_source_file = false;
   std::string temp_file_path;
-  if (source_path_ == target_path_)
+  if (utilities::is_same_file(source_path_, target_path_))
   {
     overwrite_source_file = true;
-    if (!utilities::get_temp_file_path_for_file(source_path_, temp_file_path))
+    if (!utilities::get_temp_file_path_for_file(target_path_, temp_file_path))
     {
       results.success = false;
       results.message = "The source and target path are the same, but a temporary file path could not be created.  Are the paths empty?";
@@ -392,11 +392,11 @@ arc_welder_results arc_welder::process()
       stream.str("");
 #ifdef _WIN32
       // rename does not replace existing files on windows
-      std::remove(source_path_.c_str());
+      std::remove(target_path_.c_str());
 #endif
-      stream << "Renaming temporary file at '" << output_path << "' to '" << source_path_ << "'.";
+      stream << "Renaming temporary file at '" << output_path << "' to '" << target_path_ << "'.";
       p_logger_->log(0, log_levels::DEBUG, stream.str());
-      if (std::rename(output_path.c_str(), source_path_.c_str()) != 0)
+      if (std::rename(output_path.c_str(), target_path_.c_str()) != 0)
       {
         file_error = true;
         results.message = "Unable to replace the source file.";
diff --git a/GcodeProcessorLib/utilities.cpp b/GcodeProcessorLib/utilities.cpp
index 5b5dbd4..eba9273 100644
--- a/GcodeProcessorLib/utilities.cpp
+++ b/GcodeProcessorLib/utilities.cpp
@@ -22,6 +22,8 @@
 
 #include "utilities.h"
 #include <random>
+#include <sys/types.h>
+#include <sys/stat.h>
 
 namespace utilities {
 	// Box Drawing Consts
@@ -493,6 +495,25 @@ bool utilities::does_file_exist(const std::string& file_path)
 	return false;
 }
 
+bool utilities::is_same_file(const std::string& file_path_1, const std::string& file_path_2)
+{
+	if (file_path_1 == file_path_2) return true;
+#ifdef _WIN32
+	char full_path_1[_MAX_PATH];
+	char full_path_2[_MAX_PATH];
+	return _fullpath(full_path_1, file_path_1.c_str(), _MAX_PATH) != NULL
+		&& _fullpath(full_path_2, file_path_2.c_str(), _MAX_PATH) != NULL
+		&& _stricmp(full_path_1, full_path_2) == 0;
+#else
+	struct stat info_1;
+	struct stat info_2;
+	return stat(file_path_1.c_str(), &info_1) == 0
+		&& stat(file_path_2.c_str(), &info_2) == 0
+		&& info_1.st_dev == info_2.st_dev
+		&& info_1.st_ino == info_2.st_ino;
+#endif
+}
+
 double utilities::hypot(double x, double y)
 {
 	if (x < 0) x = -x;
diff --git a/GcodeProcessorLib/utilities.h b/GcodeProcessorLib/utilities.h
index f1f4ede..f175a30 100644
--- a/GcodeProcessorLib/utilities.h
+++ b/GcodeProcessorLib/utilities.h
@@ -107,6 +107,8 @@ namespace utilities{
 
 	bool does_file_exist(const std::string& file_path);
 
+	bool is_same_file(const std::string& file_path_1, const std::string& file_path_2);
+
 	bool get_temp_file_path_for_file(const std::string& file_path, std::string& temp_file_path);
 
 	double hypot(double x, double y);
-- 
2.43.0


From fc0894a789a1c35eb59e03ecdff8e7303e704163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:29 +0000
Subject: [PATCH 23/78] fix: copying gcode_position_args must not free
 uninitialized pointers

---
 GcodeProcessorLib/gcode_position.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/GcodeProcessorLib/gcode_position.cpp b/GcodeProcessorLib/gcode_position.cpp
index 0153ffb..318cc73 100644
--- a/GcodeProcessorLib/gcode_position.cpp
+++ b/GcodeProcessorLib/gcode_position.cpp
@@ -66,6 +66,10 @@ gcode_position_args::gcode_position_args(const gcode_position_args &pos_args)
 	z_lift_heights = NULL;
 	x_firmware_offsets = NULL;
 	y_firmware_offsets = NULL;
+	retraction_lengths = NULL;
+	z_lift_heights = NULL;
+	x_firmware_offsets = NULL;
+	y_firmware_offsets = NULL;
 	set_num_extruders(pos_args.num_extruders);
 
 	for (int index = 0; index < pos_args.num_extruders; index++)
-- 
2.43.0


From 22c2020a42549e2cfeffa8e006a5223ce9b71f6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:06 +0000
Subject: [PATCH 24/78] fix: formatting of very small and very large numbers
 wrote outside the buffer

---
 GcodeProcessorLib/fpconv.cpp  | 7 +++----
 GcodeProcessorLib/utilities.h | 3 ++-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/GcodeProcessorLib/fpconv.cpp b/GcodeProcessorLib/fpconv.cpp
index 9c2b8ee..1f4c695 100644
--- a/GcodeProcessorLib/fpconv.cpp
+++ b/GcodeProcessorLib/fpconv.cpp
@@ -335,9 +335,9 @@ static int emit_digits(char* digits, int ndigits, char* dest, int K, bool neg)
 static int emit_digits_decimal(char* digits, int ndigits, char* dest, int K, bool neg, unsigned char precision)
 {
   int exp = absv(K + ndigits - 1);
-  unsigned char length = 0;
+  int length = 0;
   /* write plain integer */
-  if (K >= 0 && (exp < (ndigits + 7))) {
+  if (K >= 0) {
     memcpy(dest, digits, ndigits);
     memset(dest + ndigits, '0', K);
     // pad with 0s if we need to 
@@ -360,7 +360,7 @@ static int emit_digits_decimal(char* digits, int ndigits, char* dest, int K, boo
   int offset = ndigits - absv(K);
   
   // round the number in dest
-  unsigned char terminator_location;
+  int terminator_location;
   /* fp < 1.0 -> write leading zero */
   if (offset <= 0) {
     offset = -offset;
@@ -391,7 +391,6 @@ static int emit_digits_decimal(char* digits, int ndigits, char* dest, int K, boo
   }
   
   
-  if (terminator_location < 24)
   {
     // Get the character at the terminator location
     // we will use this to determine if we need to round
diff --git a/GcodeProcessorLib/utilities.h b/GcodeProcessorLib/utilities.h
index f175a30..0f35d3b 100644
--- a/GcodeProcessorLib/utilities.h
+++ b/GcodeProcessorLib/utilities.h
@@ -33,7 +33,8 @@
 #include <cstring>
 #include "fpconv.h"
 
-#define FPCONV_BUFFER_LENGTH 25
+// large enough for the largest double (309 digits) with the largest precision (255)
+#define FPCONV_BUFFER_LENGTH 600
 // Had to increase the zero tolerance because prusa slicer doesn't always 
 // retract enough while wiping.
 #define ZERO_TOLERANCE 0.000005
-- 
2.43.0


From db3b1a0bc170a9a07a40f5dba3a92a5da0bca3ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:43 +0000
Subject: [PATCH 25/78] fix: apply the minimum buffer size to the arc as well

---
 ArcWelder/arc_welder.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ArcWelder/arc_welder.cpp b/ArcWelder/arc_welder.cpp
index 25a7232..6aebc8b 100644
--- a/ArcWelder/arc_welder.cpp
+++ b/ArcWelder/arc_welder.cpp
@@ -41,7 +41,7 @@
 
 arc_welder::arc_welder(arc_welder_args args) : current_arc_(
         DEFAULT_MIN_SEGMENTS,
-        args.buffer_size,
+        args.buffer_size < 2 ? 2 : args.buffer_size, // same minimum as the position buffer
         args.resolution_mm,
         args.path_tolerance_percent,
         args.max_radius_mm,
-- 
2.43.0


From 548a12593e392258dc9f9e26059d70fffd06d439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:33 +0000
Subject: [PATCH 26/78] fix: growing the position buffer invalidates the
 previous position

---
 ArcWelder/arc_welder.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/ArcWelder/arc_welder.cpp b/ArcWelder/arc_welder.cpp
index 6aebc8b..dc5b9de 100644
--- a/ArcWelder/arc_welder.cpp
+++ b/ArcWelder/arc_welder.cpp
@@ -662,11 +662,6 @@ int arc_welder::process_gcode(parsed_command cmd, bool is_end, bool is_reprocess
     arc_added = current_arc_.try_add_point(p);
     if (arc_added)
     {
-      // Make sure our position list is large enough to handle all the segments
-      if (current_arc_.get_num_segments() + 2 > p_source_position_->get_max_positions())
-      {
-        p_source_position_->grow_max_positions(p_source_position_->get_max_positions() * 2);
-      }
       if (!waiting_for_arc_)
       {
         waiting_for_arc_ = true;
@@ -683,6 +678,12 @@ int arc_welder::process_gcode(parsed_command cmd, bool is_end, bool is_reprocess
 
         }
       }
+      // Make sure our position list is large enough to handle all the segments.
+      // This invalidates the pointers to the current and previous positions.
+      if (current_arc_.get_num_segments() + 2 > p_source_position_->get_max_positions())
+      {
+        p_source_position_->grow_max_positions(p_source_position_->get_max_positions() * 2);
+      }
     }
   }
   else {
-- 
2.43.0


From 42a4b8e1018016ad08c2becfdfdc4fd04d0bd69d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:57 +0000
Subject: [PATCH 27/78] fix: check the direction of all points of an arc, not
 only of the last two

---
 ArcWelder/segmented_shape.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ArcWelder/segmented_shape.cpp b/ArcWelder/segmented_shape.cpp
index ce72499..5eff72f 100644
--- a/ArcWelder/segmented_shape.cpp
+++ b/ArcWelder/segmented_shape.cpp
@@ -563,7 +563,7 @@ bool arc::are_points_within_slice(const arc& test_arc, const array_list<printer_
   }
 
   // Need to see if point 1 to point 2 cross zero
-  for (int index = point_count - 2; index < point_count; index++)
+  for (int index = 1; index < point_count; index++)
   {
     double polar_test;
     if (index < point_count - 1)
-- 
2.43.0


From 15c1bfdb5cdc3bd6087316d4ee3926ad86715c13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:25 +0000
Subject: [PATCH 28/78] fix: initialize num_extruders before it is compared in
 position(int)

---
 GcodeProcessorLib/position.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/GcodeProcessorLib/position.cpp b/GcodeProcessorLib/position.cpp
index d9cd3a8..25575fd 100644
--- a/GcodeProcessorLib/position.cpp
+++ b/GcodeProcessorLib/position.cpp
@@ -214,6 +214,7 @@ position::position(int extruder_count)
 	is_in_bounds = true;
 	current_tool = 0;
 	p_extruders = NULL;
+	num_extruders = 0;
 	set_num_extruders(extruder_count);
 	
 }
-- 
2.43.0


From 0d41b864f1ac49f04f6e909394bc381365241224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:25 +0000
Subject: [PATCH 29/78] fix: items of a copied array_list start at index 0

---
 GcodeProcessorLib/array_list.h | 1 -
 1 file changed, 1 deletion(-)

diff --git a/GcodeProcessorLib/array_list.h b/GcodeProcessorLib/array_list.h
index 1befaa6..89b3dfa 100644
--- a/GcodeProcessorLib/array_list.h
+++ b/GcodeProcessorLib/array_list.h
@@ -179,7 +179,6 @@ public:
 		{
 			items_[index] = source[index];
 		}
-		front_index_ = source.front_index_;
 		count_ = source.count_;
 	}
 
-- 
2.43.0


From 438639cc698f1647e2369f9321fdb6a5293f492f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:25 +0000
Subject: [PATCH 30/78] fix: items of a copied circular_buffer start at index 0

---
 GcodeProcessorLib/circular_buffer.h | 1 -
 1 file changed, 1 deletion(-)

diff --git a/GcodeProcessorLib/circular_buffer.h b/GcodeProcessorLib/circular_buffer.h
index 645234e..a6bcaf5 100644
--- a/GcodeProcessorLib/circular_buffer.h
+++ b/GcodeProcessorLib/circular_buffer.h
@@ -193,7 +193,6 @@ public:
 		{
 			items_[index] = source[index];
 		}
-		front_index_ = source.front_index_;
 		count_ = source.count_;
 	}
 
-- 
2.43.0


From 1fd77221acc9c482082b6fc9c58eeca0511dd73f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:25 +0000
Subject: [PATCH 31/78] fix: circular_buffer::push_back must count one item,
 and drop the oldest when full

---
 GcodeProcessorLib/circular_buffer.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/GcodeProcessorLib/circular_buffer.h b/GcodeProcessorLib/circular_buffer.h
index a6bcaf5..05fb032 100644
--- a/GcodeProcessorLib/circular_buffer.h
+++ b/GcodeProcessorLib/circular_buffer.h
@@ -118,11 +118,15 @@ public:
 	{
 		int pos = get_index_position(count_);
 		items_[pos] = object;
-		count_++;
 		if (count_ != max_size_)
 		{
 			count_++;
 		}
+		else
+		{
+			// The oldest item was overwritten
+			front_index_ = get_index_position(1);
+		}
 	}
 
 	T& pop_front()
-- 
2.43.0


From 2c815e0e11ab8ccdc675329c6f05addf52e9067c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:25 +0000
Subject: [PATCH 32/78] fix: a parameter without a value must not swallow the
 parameters that follow

---
 GcodeProcessorLib/gcode_parser.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/GcodeProcessorLib/gcode_parser.cpp b/GcodeProcessorLib/gcode_parser.cpp
index 804dcf1..7504dcb 100644
--- a/GcodeProcessorLib/gcode_parser.cpp
+++ b/GcodeProcessorLib/gcode_parser.cpp
@@ -597,6 +597,11 @@ bool gcode_parser::try_extract_parameter(char ** p_p_gcode, parsed_command_param
 	{
 		parameter->value_type = 'F';
 	}
+	else if (*p == ' ')
+	{
+		// A letter without a value (G28 X Y), more parameters may follow
+		parameter->value_type = 'S';
+	}
 	else
 	{
 		if(try_extract_text_parameter(&p, &(parameter->string_value)))
-- 
2.43.0


From 991894f26768d34f9e9466f6ca2ca571885a5c1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:25 +0000
Subject: [PATCH 33/78] fix: rewrite_gcode_string wrote each value with the
 precision of the one before

---
 GcodeProcessorLib/parsed_command.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/GcodeProcessorLib/parsed_command.cpp b/GcodeProcessorLib/parsed_command.cpp
index 1c1b8c1..6e03a5e 100644
--- a/GcodeProcessorLib/parsed_command.cpp
+++ b/GcodeProcessorLib/parsed_command.cpp
@@ -65,7 +65,7 @@ std::string parsed_command::rewrite_gcode_string()
 				stream << p.string_value;
 				break;
 			case 'F':
-				stream << p.double_value << std::fixed << std::setprecision(p.double_precision);
+				stream << std::fixed << std::setprecision(p.double_precision) << p.double_value;
 				break;
 			case 'U':
 				stream << std::setprecision(0) << p.unsigned_long_value;
-- 
2.43.0


From acf9274f358a4d70b7da5cbe428f8830095821e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:25 +0000
Subject: [PATCH 34/78] fix: rewrite_gcode_string wrote the T of a tool change
 twice

---
 GcodeProcessorLib/parsed_command.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/GcodeProcessorLib/parsed_command.cpp b/GcodeProcessorLib/parsed_command.cpp
index 6e03a5e..d91ab60 100644
--- a/GcodeProcessorLib/parsed_command.cpp
+++ b/GcodeProcessorLib/parsed_command.cpp
@@ -58,7 +58,9 @@ std::string parsed_command::rewrite_gcode_string()
 		{
 			parsed_command_parameter p = parameters[index];
 			
-			stream << " " << p.name;
+			// The name of the parameter of T is part of the command
+			if (command != "T")
+				stream << " " << p.name;
 			switch (p.value_type)
 			{
 			case 'S':
-- 
2.43.0


From dd7a884fd74d43cdd375e122dbb2765f9b0c2799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:25 +0000
Subject: [PATCH 35/78] fix: recognize the MESH:NONMESH comment of Cura,
 comments have no leading semicolon

---
 GcodeProcessorLib/gcode_comment_processor.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/GcodeProcessorLib/gcode_comment_processor.cpp b/GcodeProcessorLib/gcode_comment_processor.cpp
index 28c675a..a17ebd8 100644
--- a/GcodeProcessorLib/gcode_comment_processor.cpp
+++ b/GcodeProcessorLib/gcode_comment_processor.cpp
@@ -186,7 +186,7 @@ bool gcode_comment_processor::update_cura_section(std::string &comment)
 		current_section_ = section_type_solid_infill_section;
 		return true;
 	}
-	if (comment.rfind("LAYER:", 0) != std::string::npos || comment.rfind(";MESH:NONMESH", 0) != std::string::npos)
+	if (comment.rfind("LAYER:", 0) != std::string::npos || comment.rfind("MESH:NONMESH", 0) != std::string::npos)
 	{
 		current_section_ = section_type_no_section;
 		return false;
-- 
2.43.0


From 4629a14e92fafe7e9a344424f7876913bc570cfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:25 +0000
Subject: [PATCH 36/78] fix: get_num_digits overflowed for large values with
 many decimals

---
 GcodeProcessorLib/utilities.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/GcodeProcessorLib/utilities.cpp b/GcodeProcessorLib/utilities.cpp
index eba9273..be593b2 100644
--- a/GcodeProcessorLib/utilities.cpp
+++ b/GcodeProcessorLib/utilities.cpp
@@ -405,7 +405,7 @@ int utilities::get_num_digits(int x)
 int utilities::get_num_digits(double x, int precision)
 {
 	return get_num_digits(
-		(int)utilities::ceil(x * utilities::pow(10, precision) - .4999999999999)
+		utilities::ceil(x * utilities::pow(10, precision) - .4999999999999)
 		/ utilities::pow(10, precision)
 	);
 }
-- 
2.43.0


From e23077234fcb3f9071dc2233fda81cc3048c3f09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:46 +0000
Subject: [PATCH 37/78] fix: the comment of an @OCTOLAPSE command without
 parameters was lost

---
 GcodeProcessorLib/gcode_parser.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/GcodeProcessorLib/gcode_parser.cpp b/GcodeProcessorLib/gcode_parser.cpp
index 7504dcb..0b93231 100644
--- a/GcodeProcessorLib/gcode_parser.cpp
+++ b/GcodeProcessorLib/gcode_parser.cpp
@@ -180,13 +180,13 @@ bool gcode_parser::try_parse_gcode(const char * gcode, parsed_command & command,
 			
 			parsed_command_parameter octolapse_parameter;
 
-			if (!try_extract_octolapse_parameter(&p, &octolapse_parameter))
+			bool has_octolapse_parameter = try_extract_octolapse_parameter(&p, &octolapse_parameter);
+			if (has_octolapse_parameter)
 			{
-				return true;
+				command.parameters.push_back(octolapse_parameter);
 			}
-			command.parameters.push_back(octolapse_parameter);
 			// Extract any additional parameters the old way
-			while (true)
+			while (has_octolapse_parameter)
 			{
 				//std::cout << "GcodeParser.try_parse_gcode - Trying to extract parameters.\r\n";
 				parsed_command_parameter param;
-- 
2.43.0


From 6f27d463bb18892226fd2e56c5e587ccf8ba5572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:06:57 +0000
Subject: [PATCH 38/78] fix: drawing a box in UTF-8 replaced bytes of the
 elements already inserted

---
 GcodeProcessorLib/utilities.cpp | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/GcodeProcessorLib/utilities.cpp b/GcodeProcessorLib/utilities.cpp
index be593b2..a41f07c 100644
--- a/GcodeProcessorLib/utilities.cpp
+++ b/GcodeProcessorLib/utilities.cpp
@@ -96,13 +96,26 @@ namespace utilities {
 
 	void box_drawing::make_replacements(std::string &box)
 	{
-		for (int index = 0; index < 8; index++)
+		// One pass: the bytes of an inserted UTF-8 element must not be replaced again
+		std::string output;
+		for (size_t position = 0; position < box.length(); position++)
 		{
-			char c = table_elements_replacement[index];
-			std::string search;
-			search += c;
-			box = utilities::replace(box, search, table_elements_[index]);
+			const char c = box[position];
+			int index = 0;
+			while (index < 8 && table_elements_replacement[index] != c)
+			{
+				index++;
+			}
+			if (index < 8)
+			{
+				output += table_elements_[index];
+			}
+			else
+			{
+				output += c;
+			}
 		}
+		box = output;
 
 	}
 
-- 
2.43.0


From 38fa6a9da44036e16231effec46d22084185afa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:08 +0000
Subject: [PATCH 39/78] fix: ArcStraightener dropped the Z travel of helices
 for Marlin 2

---
 ArcWelderInverseProcessor/marlin_2.cpp | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/ArcWelderInverseProcessor/marlin_2.cpp b/ArcWelderInverseProcessor/marlin_2.cpp
index e70c043..0fb18b8 100644
--- a/ArcWelderInverseProcessor/marlin_2.cpp
+++ b/ArcWelderInverseProcessor/marlin_2.cpp
@@ -307,7 +307,7 @@ void marlin_2::plan_arc_2_0_9_1(
     // Update raw location
     raw[p_axis] = center_P + rvec[0];
     raw[q_axis] = center_Q + rvec[1];
-    raw[l_axis] = start_L, raw[l_axis] + linear_per_segment;
+    raw[l_axis] += linear_per_segment;
 
     raw[E_AXIS] += extruder_per_segment;
 
@@ -321,14 +321,12 @@ void marlin_2::plan_arc_2_0_9_1(
 
   // Ensure last segment arrives at target location.
   COPY(raw, cart);
-  raw[l_axis] = start_L;
 
   apply_motion_limits(raw);
 
 
   buffer_line(raw, scaled_fr_mm_s, 0);
 
-  raw[l_axis] = start_L;
   COPY(current_position, raw);
 }
 
@@ -527,7 +525,7 @@ void marlin_2::plan_arc_2_0_9_2(
     // Update raw location
     raw[p_axis] = center_P + rvec[0];
     raw[q_axis] = center_Q + rvec[1];
-    raw[l_axis] = start_L, raw[l_axis] + per_segment_L;
+    raw[l_axis] += per_segment_L;
     raw[E_AXIS] += extruder_per_segment;
 
     apply_motion_limits(raw);
@@ -540,14 +538,12 @@ void marlin_2::plan_arc_2_0_9_2(
 
   // Ensure last segment arrives at target location.
   COPY(raw, cart);
-  raw[l_axis] = start_L;
 
   apply_motion_limits(raw);
 
 
   buffer_line(raw, scaled_fr_mm_s, 0);
 
-  raw[l_axis] = start_L;
   COPY(current_position, raw);
 }
 // Marlin Function Defs
-- 
2.43.0


From f252e5e6afd6936f79b82a4f2b226c42ac869b17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:08 +0000
Subject: [PATCH 40/78] fix: ArcStraightener lost track of the position within
 an arc for Marlin 2

---
 ArcWelderInverseProcessor/marlin_2.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ArcWelderInverseProcessor/marlin_2.cpp b/ArcWelderInverseProcessor/marlin_2.cpp
index 0fb18b8..f5dac6b 100644
--- a/ArcWelderInverseProcessor/marlin_2.cpp
+++ b/ArcWelderInverseProcessor/marlin_2.cpp
@@ -600,5 +600,8 @@ bool marlin_2::buffer_line(const float(&cart)[MARLIN_2_XYZE], double fr_mm_s, in
   // Generate the gcode
   gcodes_ += g1_command(target);
 
+  // update the current position
+  set_current_position(target);
+
   return true;
 }
-- 
2.43.0


From 3ffb0f23390e19a5297395b90a145ebe7b39100b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:08 +0000
Subject: [PATCH 41/78] fix: ArcStraightener lost track of the position within
 an arc for Smoothieware

---
 ArcWelderInverseProcessor/smoothieware.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ArcWelderInverseProcessor/smoothieware.cpp b/ArcWelderInverseProcessor/smoothieware.cpp
index 43b8c3c..e1573da 100644
--- a/ArcWelderInverseProcessor/smoothieware.cpp
+++ b/ArcWelderInverseProcessor/smoothieware.cpp
@@ -302,6 +302,9 @@ bool smoothieware::append_milestone(const float target[], double rate_mm_s)
   // Generate the gcode
   gcodes_ += g1_command(gcode_target);
 
+  // update the current position
+  set_current_position(gcode_target);
+
   return true;
   return true;
 }
-- 
2.43.0


From 1a11d5a07bb7398bac6c8fe3d43785d47625951c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:08 +0000
Subject: [PATCH 42/78] fix: ArcStraightener dropped the Z travel of helices
 for Repetier 1.0.5

---
 ArcWelderInverseProcessor/repetier.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ArcWelderInverseProcessor/repetier.cpp b/ArcWelderInverseProcessor/repetier.cpp
index f3feb61..8ba61ee 100644
--- a/ArcWelderInverseProcessor/repetier.cpp
+++ b/ArcWelderInverseProcessor/repetier.cpp
@@ -261,7 +261,7 @@ void repetier::arc_1_0_5(float* position, float* target, float* offset, float ra
   int8_t count = 0;
 
   // Initialize the linear axis
-  //arc_target[axis_linear] = position[axis_linear];
+  arc_target[Z_AXIS] = position[Z_AXIS];
 
   // Initialize the extruder axis
   arc_target[E_AXIS] = position[E_AXIS]; // * Printer::invAxisStepsPerMM[E_AXIS]; -- Not sure what this does
@@ -291,10 +291,10 @@ void repetier::arc_1_0_5(float* position, float* target, float* offset, float ra
     arc_target[Y_AXIS] = center_axis1 + r_axis1;
     arc_target[Z_AXIS] += linear_per_segment;
     arc_target[E_AXIS] += extruder_per_segment;
-    moveToReal(arc_target[X_AXIS], arc_target[Y_AXIS], position[Z_AXIS], arc_target[E_AXIS]);
+    moveToReal(arc_target[X_AXIS], arc_target[Y_AXIS], arc_target[Z_AXIS], arc_target[E_AXIS]);
   }
   // Ensure last segment arrives at target location.
-  moveToReal(target[X_AXIS], target[Y_AXIS], position[Z_AXIS], target[E_AXIS]);
+  moveToReal(target[X_AXIS], target[Y_AXIS], target[Z_AXIS], target[E_AXIS]);
 }
 
 /// <summary>
-- 
2.43.0


From 67b29b522a8f4d1f88323f2878343bc24a60b61d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:08 +0000
Subject: [PATCH 43/78] fix: arrays released with delete instead of delete[] in
 the Marlin interpolators

---
 ArcWelderInverseProcessor/marlin_1.cpp | 2 +-
 ArcWelderInverseProcessor/marlin_2.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/ArcWelderInverseProcessor/marlin_1.cpp b/ArcWelderInverseProcessor/marlin_1.cpp
index 3bdf86f..a295f73 100644
--- a/ArcWelderInverseProcessor/marlin_1.cpp
+++ b/ArcWelderInverseProcessor/marlin_1.cpp
@@ -42,7 +42,7 @@ marlin_1::marlin_1(firmware_arguments args) : firmware(args) {
 
 marlin_1::~marlin_1()
 {
-	delete current_position;
+	delete[] current_position;
 }
 
 void marlin_1::apply_arguments()
diff --git a/ArcWelderInverseProcessor/marlin_2.cpp b/ArcWelderInverseProcessor/marlin_2.cpp
index f5dac6b..00f5c2c 100644
--- a/ArcWelderInverseProcessor/marlin_2.cpp
+++ b/ArcWelderInverseProcessor/marlin_2.cpp
@@ -41,7 +41,7 @@ marlin_2::marlin_2(firmware_arguments args) : firmware(args) {
 
 marlin_2::~marlin_2()
 {
-  delete current_position;
+  delete[] current_position;
 }
 
 void marlin_2::apply_arguments()
-- 
2.43.0


From 8dbbd49ca2308783a7c97b3e84dd0829e60a898f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:08 +0000
Subject: [PATCH 44/78] fix: ArcStraightener accumulated rounding errors over
 the relative moves of an arc

---
 ArcWelderInverseProcessor/firmware.cpp | 23 +++++++++++++++++++----
 ArcWelderInverseProcessor/firmware.h   |  3 +++
 2 files changed, 22 insertions(+), 4 deletions(-)

diff --git a/ArcWelderInverseProcessor/firmware.cpp b/ArcWelderInverseProcessor/firmware.cpp
index bab3968..6b7fe22 100644
--- a/ArcWelderInverseProcessor/firmware.cpp
+++ b/ArcWelderInverseProcessor/firmware.cpp
@@ -33,6 +33,7 @@
 
 #include "firmware.h"
 #include "utilities.h"
+#include <cstdlib>
 
 firmware::firmware() {
   version_index_ = -1;
@@ -62,6 +63,7 @@ void firmware::set_current_position(firmware_position& position)
 void firmware::set_current_state(firmware_state& state)
 {
   state_ = state;
+  relative_remainder_ = firmware_position();
 }
 
 int firmware::get_num_arc_segments_generated()
@@ -69,6 +71,19 @@ int firmware::get_num_arc_segments_generated()
   return num_arc_segments_generated_;
 }
 
+std::string firmware::get_axis_value_(double current, double target, bool is_relative, double& remainder, unsigned char precision)
+{
+  if (!is_relative)
+  {
+    return utilities::dtos(target, precision);
+  }
+  // Carry the rounding error over to the next relative move, else it would accumulate.
+  double value = target - current + remainder;
+  std::string text = utilities::dtos(value, precision);
+  remainder = value - std::strtod(text.c_str(), NULL);
+  return text;
+}
+
 std::string firmware::g1_command(firmware_position& target)
 {
   num_arc_segments_generated_++;
@@ -84,28 +99,28 @@ std::string firmware::g1_command(firmware_position& target)
   if (has_x)
   {
     gcode += is_first_parameter ? "X" : " X";
-    gcode += utilities::dtos(state_.is_relative ? target.x - position_.x : target.x, 3);
+    gcode += get_axis_value_(position_.x, target.x, state_.is_relative, relative_remainder_.x, 3);
     is_first_parameter = false;
   }
 
   if (has_y)
   {
     gcode += is_first_parameter ? "Y" : " Y";
-    gcode += utilities::dtos(state_.is_relative ? target.y - position_.y : target.y, 3);
+    gcode += get_axis_value_(position_.y, target.y, state_.is_relative, relative_remainder_.y, 3);
     is_first_parameter = false;
   }
 
   if (has_z)
   {
     gcode += is_first_parameter ? "Z" : " Z";
-    gcode += utilities::dtos(state_.is_relative ? target.z - position_.z : target.z, 3);
+    gcode += get_axis_value_(position_.z, target.z, state_.is_relative, relative_remainder_.z, 3);
     is_first_parameter = false;
   }
 
   if (has_e)
   {
     gcode += is_first_parameter ? "E" : " E";
-    gcode += utilities::dtos(state_.is_extruder_relative ? target.e - position_.e : target.e, 5);
+    gcode += get_axis_value_(position_.e, target.e, state_.is_extruder_relative, relative_remainder_.e, 5);
     is_first_parameter = false;
   }
 
diff --git a/ArcWelderInverseProcessor/firmware.h b/ArcWelderInverseProcessor/firmware.h
index 3113539..c60d32c 100644
--- a/ArcWelderInverseProcessor/firmware.h
+++ b/ArcWelderInverseProcessor/firmware.h
@@ -529,6 +529,9 @@ protected:
   std::vector<std::string> version_names_;
   int version_index_;
   int num_arc_segments_generated_;
+  // The part of the last relative moves that was lost to rounding
+  firmware_position relative_remainder_;
+  std::string get_axis_value_(double current, double target, bool is_relative, double& remainder, unsigned char precision);
 
   virtual firmware_arguments arguments_changed(firmware_arguments current_args, firmware_arguments new_args);
 };
-- 
2.43.0


From e4f925a506ed9de92293eb3e0ecb35c69967ef84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:08 +0000
Subject: [PATCH 45/78] fix: uninitialized arc count in the ArcStraightener

---
 ArcWelderInverseProcessor/arc_interpolation.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ArcWelderInverseProcessor/arc_interpolation.cpp b/ArcWelderInverseProcessor/arc_interpolation.cpp
index feb045b..31f5c48 100644
--- a/ArcWelderInverseProcessor/arc_interpolation.cpp
+++ b/ArcWelderInverseProcessor/arc_interpolation.cpp
@@ -77,12 +77,15 @@ gcode_position_args arc_interpolation::get_args_(bool g90_g91_influences_extrude
 
 arc_interpolation::arc_interpolation()
 {
+  num_arc_commands_ = 0;
+  p_source_position_ = NULL;
   p_current_firmware_ = NULL;
 }
 
 arc_interpolation::arc_interpolation(arc_interpolation_args args) 
 {
   args_ = args;
+  num_arc_commands_ = 0;
   switch (args.firmware_args.firmware_type)
   {
     case firmware_types::MARLIN_1:
-- 
2.43.0


From 9d147e538e27f09c0d78edfb77dd37702fdac9c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:29 +0000
Subject: [PATCH 46/78] fix: arc-segments-per-second mixed mm/min and mm/s for
 Marlin 2

---
 ArcWelderInverseProcessor/marlin_2.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ArcWelderInverseProcessor/marlin_2.cpp b/ArcWelderInverseProcessor/marlin_2.cpp
index 00f5c2c..9117099 100644
--- a/ArcWelderInverseProcessor/marlin_2.cpp
+++ b/ArcWelderInverseProcessor/marlin_2.cpp
@@ -225,7 +225,7 @@ void marlin_2::plan_arc_2_0_9_1(
   }
   else if (args_.arc_segments_per_sec > 0)
   {
-    seg_length = utilities::maxf(scaled_fr_mm_s * utilities::reciprocalf((float)args_.arc_segments_per_sec), (float)args_.mm_per_arc_segment);
+    seg_length = utilities::maxf(scaled_fr_mm_s / 60.0f * utilities::reciprocalf((float)args_.arc_segments_per_sec), (float)args_.mm_per_arc_segment);
   }
 
   // Divide total travel by nominal segment length
@@ -429,7 +429,7 @@ void marlin_2::plan_arc_2_0_9_2(
   // Get the nominal segment length based on settings
   float nominal_segment_mm;
   if (args_.arc_segments_per_sec > 0) {
-    nominal_segment_mm = utilities::constrainf(scaled_fr_mm_s * utilities::reciprocalf((float)args_.arc_segments_per_sec), (float)args_.min_arc_segment_mm, (float)args_.max_arc_segment_mm);
+    nominal_segment_mm = utilities::constrainf(scaled_fr_mm_s / 60.0f * utilities::reciprocalf((float)args_.arc_segments_per_sec), (float)args_.min_arc_segment_mm, (float)args_.max_arc_segment_mm);
   }
   else {
     nominal_segment_mm = (float)args_.max_arc_segment_mm;
-- 
2.43.0


From 07c81b52c5e5fde6c7d1c8df5f94389724c646be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:29 +0000
Subject: [PATCH 47/78] fix: ArcStraightener silently dropped arcs that the
 firmware does not interpolate

---
 ArcWelderInverseProcessor/arc_interpolation.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/ArcWelderInverseProcessor/arc_interpolation.cpp b/ArcWelderInverseProcessor/arc_interpolation.cpp
index 31f5c48..c5d0112 100644
--- a/ArcWelderInverseProcessor/arc_interpolation.cpp
+++ b/ArcWelderInverseProcessor/arc_interpolation.cpp
@@ -237,12 +237,22 @@ void arc_interpolation::process()
           offset_absolute_e = p_pre_pos->get_current_extruder().get_offset_e();
 
           // run the callback and capture any created gcode commands
-          std::string gcodes = p_current_firmware_->interpolate_arc(target, i, j, r, is_clockwise);
+          // (the R form is not supported by the interpolators)
+          std::string gcodes;
+          if (i != 0 || j != 0)
+          {
+            gcodes = p_current_firmware_->interpolate_arc(target, i, j, r, is_clockwise);
+          }
           if (gcodes.length() > 0)
           {
             // there are gcodes to write, write them!
             output_file_ << gcodes << "\n";
           }
+          else
+          {
+            // the firmware didn't generate any segments for this arc, don't lose the command
+            output_file_ << line << "\n";
+          }
         }
         else
         {
-- 
2.43.0


From f34d7e4923deefde511830c2bb1de0b97932120d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:10 +0000
Subject: [PATCH 48/78] fix: arc length for Repetier 1.0.5 used the integer
 abs, truncating the angle to whole radians

---
 ArcWelderInverseProcessor/repetier.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ArcWelderInverseProcessor/repetier.cpp b/ArcWelderInverseProcessor/repetier.cpp
index 8ba61ee..2890870 100644
--- a/ArcWelderInverseProcessor/repetier.cpp
+++ b/ArcWelderInverseProcessor/repetier.cpp
@@ -192,7 +192,7 @@ void repetier::arc_1_0_5(float* position, float* target, float* offset, float ra
   }
 
   // Determine the number of mm of total travel
-  float millimeters_of_travel = abs(angular_travel) * radius;
+  float millimeters_of_travel = utilities::fabsf(angular_travel) * radius;
   if (linear_travel)
   {
     // If we have any Z motion, add this to the total mm of travel.
-- 
2.43.0


From 4c68b8af2c03e7e50da95afb2ba4ba54e7b3481e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:21 +0000
Subject: [PATCH 49/78] fix: ArcStraightener added E and Z moves to arcs that
 have none (single precision conversion)

---
 ArcWelderInverseProcessor/firmware.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/ArcWelderInverseProcessor/firmware.cpp b/ArcWelderInverseProcessor/firmware.cpp
index 6b7fe22..476a293 100644
--- a/ArcWelderInverseProcessor/firmware.cpp
+++ b/ArcWelderInverseProcessor/firmware.cpp
@@ -90,10 +90,11 @@ std::string firmware::g1_command(firmware_position& target)
   std::string gcode = "G1 ";
   gcode.reserve(96);
 
-  bool has_x = position_.x != target.x;
-  bool has_y = position_.y != target.y;
-  bool has_z = position_.z != target.z;
-  bool has_e = position_.e != target.e;
+  // The interpolators use single precision, ignore differences that only come from the conversion.
+  bool has_x = (float)position_.x != (float)target.x;
+  bool has_y = (float)position_.y != (float)target.y;
+  bool has_z = (float)position_.z != (float)target.z;
+  bool has_e = (float)position_.e != (float)target.e;
   bool has_f = position_.f != target.f;
   bool is_first_parameter = true;
   if (has_x)
-- 
2.43.0


From 2bf582fdace0903b3636245318b422feca086a94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:01 +0000
Subject: [PATCH 50/78] fix: ArcStraightener removed the source file and
 reported success when a file could not be opened, read or written

---
 .../ArcWelderInverseProcessor.cpp                   | 13 +++++++++++--
 ArcWelderInverseProcessor/arc_interpolation.cpp     |  9 ++++++++-
 ArcWelderInverseProcessor/arc_interpolation.h       |  5 ++++-
 3 files changed, 23 insertions(+), 4 deletions(-)

diff --git a/ArcWelderInverseProcessor/ArcWelderInverseProcessor.cpp b/ArcWelderInverseProcessor/ArcWelderInverseProcessor.cpp
index 9a82f76..140cf01 100644
--- a/ArcWelderInverseProcessor/ArcWelderInverseProcessor.cpp
+++ b/ArcWelderInverseProcessor/ArcWelderInverseProcessor.cpp
@@ -56,7 +56,7 @@
 int main(int argc, char* argv[])
 {
   try {
-    run_arc_straightener(argc, argv);
+    return run_arc_straightener(argc, argv);
   }
   catch (TCLAP::ArgException *e) {
     std::cout << (*e).what() << " - " << (*e).typeDescription() << "\n";
@@ -578,7 +578,16 @@ int run_arc_straightener(int argc, char* argv[])
   p_logger->log(0, log_levels::INFO, log_messages.str());
 
   p_logger->log(0, log_levels::INFO, "Running interpolation...");
-  interpolator.process();
+  if (!interpolator.process())
+  {
+    if (overwrite_source_file)
+    {
+      // The source file must not be replaced by an incomplete file
+      std::remove(args.target_path.c_str());
+    }
+    p_logger->log(0, log_levels::ERROR, "The file could not be processed.");
+    return 1;
+  }
   p_logger->log(0, log_levels::INFO, "Interpolation Complete.");
 
   log_messages.clear();
diff --git a/ArcWelderInverseProcessor/arc_interpolation.cpp b/ArcWelderInverseProcessor/arc_interpolation.cpp
index c5d0112..d1a1066 100644
--- a/ArcWelderInverseProcessor/arc_interpolation.cpp
+++ b/ArcWelderInverseProcessor/arc_interpolation.cpp
@@ -117,8 +117,9 @@ arc_interpolation::~arc_interpolation()
  
 }
 
-void arc_interpolation::process()
+bool arc_interpolation::process()
 {
+  bool success = false;
   // Create a stringstream we can use for messaging.
   std::stringstream stream;
 
@@ -262,6 +263,11 @@ void arc_interpolation::process()
 
       }
       output_file_.close();
+      success = !gcode_file.bad() && !output_file_.fail();
+      if (!success)
+      {
+        std::cout << "An error occurred while reading the source file or writing the output file.\n";
+      }
     }
     else
     {
@@ -286,6 +292,7 @@ void arc_interpolation::process()
   stream << "\tArc Segments Generated: " << p_current_firmware_->get_num_arc_segments_generated() << "\r\n";
   stream << "\tTotal Seconds         : " << total_seconds << "\r\n";
   std::cout << stream.str();
+  return success;
 }
 
 std::string arc_interpolation::get_firmware_arguments_description(std::string separator, std::string argument_prefix, std::string replacement_string, std::string replacement_value) const
diff --git a/ArcWelderInverseProcessor/arc_interpolation.h b/ArcWelderInverseProcessor/arc_interpolation.h
index e1eed16..f2ab4a2 100644
--- a/ArcWelderInverseProcessor/arc_interpolation.h
+++ b/ArcWelderInverseProcessor/arc_interpolation.h
@@ -69,7 +69,10 @@ class arc_interpolation
 		arc_interpolation();
 		arc_interpolation(arc_interpolation_args args);
 		virtual ~arc_interpolation();
-		void process();
+		/// <summary>
+		/// Straightens the source file.  Returns false if the source could not be read, or the target could not be written completely.
+		/// </summary>
+		bool process();
 		/// <summary>
 		/// Outputs a string description of the firmware arguments.
 		/// </summary>
-- 
2.43.0


From e744f514caf1c0f602be54aeef52423ff7f9e34c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:27 +0000
Subject: [PATCH 51/78] fix: ArcStraightener lost the source file when the
 rename failed or when it was given by two different paths

---
 .../ArcWelderInverseProcessor.cpp             | 30 +++++++++++--------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/ArcWelderInverseProcessor/ArcWelderInverseProcessor.cpp b/ArcWelderInverseProcessor/ArcWelderInverseProcessor.cpp
index 140cf01..435cf0b 100644
--- a/ArcWelderInverseProcessor/ArcWelderInverseProcessor.cpp
+++ b/ArcWelderInverseProcessor/ArcWelderInverseProcessor.cpp
@@ -534,15 +534,14 @@ int run_arc_straightener(int argc, char* argv[])
   std::stringstream log_messages;
   std::string temp_file_path = "";
   log_messages << std::fixed << std::setprecision(DEFAULT_ARG_DOUBLE_PRECISION);
-  if (args.source_path == args.target_path)
+  if (utilities::is_same_file(args.source_path, args.target_path))
   {
     overwrite_source_file = true;
-    if (!utilities::get_temp_file_path_for_file(args.source_path, temp_file_path))
+    if (!utilities::get_temp_file_path_for_file(args.target_path, temp_file_path))
     {
       log_messages << "The source and target path are the same, but a temporary file path could not be created.  Is the path empty?";
-      p_logger->log(0, log_levels::INFO, log_messages.str());
-      log_messages.clear();
-      log_messages.str("");
+      p_logger->log(0, log_levels::ERROR, log_messages.str());
+      return 1;
     }
 
     // create a uuid with a tmp extension for the temporary file
@@ -567,6 +566,7 @@ int run_arc_straightener(int argc, char* argv[])
   log_messages << "\tLog Level                    : " << log_level_string << "\n";
 
 
+  const std::string overwritten_path = args.target_path;
   if (overwrite_source_file)
   {
     args.target_path = temp_file_path;
@@ -598,14 +598,20 @@ int run_arc_straightener(int argc, char* argv[])
   {
     log_messages.clear();
     log_messages.str("");
-    log_messages << "Deleting the original source file at '" << args.source_path << "'.";
+    log_messages << "Renaming temporary file at '" << temp_file_path << "' to '" << overwritten_path << "'.";
     p_logger->log(0, log_levels::INFO, log_messages.str());
-    log_messages.clear();
-    log_messages.str("");
-    std::remove(args.source_path.c_str());
-    log_messages << "Renaming temporary file at '" << args.target_path << "' to '" << args.source_path << "'.";
-    p_logger->log(0, log_levels::INFO, log_messages.str());
-    std::rename(args.target_path.c_str(), args.source_path.c_str());
+#ifdef _WIN32
+    // rename does not replace existing files on windows
+    std::remove(overwritten_path.c_str());
+#endif
+    if (std::rename(temp_file_path.c_str(), overwritten_path.c_str()) != 0)
+    {
+      p_logger->log(0, log_levels::ERROR, "Unable to replace the source file.");
+#ifndef _WIN32
+      std::remove(temp_file_path.c_str());
+#endif
+      return 1;
+    }
   }
 
   log_messages.clear();
-- 
2.43.0


From c6dac53a7ea0da204b665b0529660d42fdf22f1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:27 +0000
Subject: [PATCH 52/78] fix: ArcStraightener aborted (uncaught exception) on
 argument errors

---
 ArcWelderInverseProcessor/ArcWelderInverseProcessor.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/ArcWelderInverseProcessor/ArcWelderInverseProcessor.cpp b/ArcWelderInverseProcessor/ArcWelderInverseProcessor.cpp
index 435cf0b..5499669 100644
--- a/ArcWelderInverseProcessor/ArcWelderInverseProcessor.cpp
+++ b/ArcWelderInverseProcessor/ArcWelderInverseProcessor.cpp
@@ -514,7 +514,14 @@ int run_arc_straightener(int argc, char* argv[])
   catch (TCLAP::ArgException& e)
   {
     // This will raise an exit exception
-    cmd.getOutput()->failure(cmd, e);
+    try
+    {
+      cmd.getOutput()->failure(cmd, e);
+    }
+    catch (TCLAP::ExitException& exc)
+    {
+      return exc.getExitStatus();
+    }
     return 1;
   }
   catch (TCLAP::ExitException exc)
-- 
2.43.0


From 13a965cf40160f06a6e15a148b0a13257153e3c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:27 +0000
Subject: [PATCH 53/78] fix: --g90-influences-extruder=DEFAULT was treated as
 FALSE

---
 ArcWelderInverseProcessor/ArcWelderInverseProcessor.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ArcWelderInverseProcessor/ArcWelderInverseProcessor.cpp b/ArcWelderInverseProcessor/ArcWelderInverseProcessor.cpp
index 5499669..3a1ec15 100644
--- a/ArcWelderInverseProcessor/ArcWelderInverseProcessor.cpp
+++ b/ArcWelderInverseProcessor/ArcWelderInverseProcessor.cpp
@@ -430,7 +430,10 @@ int run_arc_straightener(int argc, char* argv[])
       {
         throw TCLAP::ArgException("The argument does not apply to the " + firmware_type_string + " " + firmware_version_arg.getValue() + " firmware.  Only the following parameters are supported: " + available_arguments_string, g90_arg.toString());
       }
-      args.firmware_args.g90_g91_influences_extruder = g90_arg.getValue() == "TRUE";
+      if (g90_arg.getValue() != g90_g91_influences_extruder_default_value)
+      {
+        args.firmware_args.g90_g91_influences_extruder = g90_arg.getValue() == "TRUE";
+      }
     }
     if (n_arc_correction_arg.isSet())
     {
-- 
2.43.0


From 119ee1a54df9d7e6641523476a47ac6dc7ec7b0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:27 +0000
Subject: [PATCH 54/78] fix: ArcStraightener accepted segment lengths and
 correction counts it can't use (division by zero)

---
 .../ArcWelderInverseProcessor.cpp                  | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/ArcWelderInverseProcessor/ArcWelderInverseProcessor.cpp b/ArcWelderInverseProcessor/ArcWelderInverseProcessor.cpp
index 3a1ec15..8fb1b25 100644
--- a/ArcWelderInverseProcessor/ArcWelderInverseProcessor.cpp
+++ b/ArcWelderInverseProcessor/ArcWelderInverseProcessor.cpp
@@ -394,6 +394,11 @@ int run_arc_straightener(int argc, char* argv[])
       {
         throw TCLAP::ArgException("The argument does not apply to the " + firmware_type_string + " " + firmware_version_arg.getValue() + " firmware.  Only the following parameters are supported: " + available_arguments_string, mm_per_arc_segment_arg.toString());
       }
+      // Smoothieware allows 0, it only uses the arc error in that case
+      if (mm_per_arc_segment_arg.getValue() < 0 || (mm_per_arc_segment_arg.getValue() == 0 && args.firmware_args.firmware_type != firmware_types::SMOOTHIEWARE))
+      {
+        throw TCLAP::ArgException("The provided value is too small.", mm_per_arc_segment_arg.toString());
+      }
       args.firmware_args.mm_per_arc_segment = mm_per_arc_segment_arg.getValue();
     }
     if (min_mm_per_arc_segment_arg.isSet())
@@ -442,6 +447,11 @@ int run_arc_straightener(int argc, char* argv[])
       {
         throw TCLAP::ArgException("The argument does not apply to the " + firmware_type_string + " " + firmware_version_arg.getValue() + " firmware.  Only the following parameters are supported: " + available_arguments_string, n_arc_correction_arg.toString());
       }
+      if (n_arc_correction_arg.getValue() > 255)
+      {
+        // the firmwares count the corrections in a single byte
+        throw TCLAP::ArgException("The provided value is greater than 255.", n_arc_correction_arg.toString());
+      }
       args.firmware_args.n_arc_correction = n_arc_correction_arg.getValue();
     }
     if (mm_max_arc_error_arg.isSet())
@@ -482,6 +492,10 @@ int run_arc_straightener(int argc, char* argv[])
       {
         throw TCLAP::ArgException("The argument does not apply to the " + firmware_type_string + " " + firmware_version_arg.getValue() + " firmware.  Only the following parameters are supported: " + available_arguments_string, max_arc_segment_mm_arg.toString());
       }
+      if (max_arc_segment_mm_arg.getValue() <= 0)
+      {
+        throw TCLAP::ArgException("The provided value is less than or equal to 0.", max_arc_segment_mm_arg.toString());
+      }
       args.firmware_args.max_arc_segment_mm = max_arc_segment_mm_arg.getValue();
     }
     //arc_segments_per_r
-- 
2.43.0


From 66e1181633d96d91e2751272db552acef748f825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:27 +0000
Subject: [PATCH 55/78] fix: ArcWelder aborted (uncaught exception) on invalid
 argument values

---
 ArcWelderConsole/ArcWelderConsole.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/ArcWelderConsole/ArcWelderConsole.cpp b/ArcWelderConsole/ArcWelderConsole.cpp
index 50e2b93..5fa2234 100644
--- a/ArcWelderConsole/ArcWelderConsole.cpp
+++ b/ArcWelderConsole/ArcWelderConsole.cpp
@@ -345,7 +345,14 @@ int main(int argc, char* argv[])
   catch (TCLAP::ArgException& e)
   {
     // This will raise an exit exception
-    cmd.getOutput()->failure(cmd, e);
+    try
+    {
+      cmd.getOutput()->failure(cmd, e);
+    }
+    catch (TCLAP::ExitException& exc)
+    {
+      return exc.getExitStatus();
+    }
     return 1;
   }
   
-- 
2.43.0


From cd8b5a875209d07e0f31b761ac2eb4b0274e4a5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:27 +0000
Subject: [PATCH 56/78] fix: ArcWelder exited with status 0 when the conversion
 failed

---
 ArcWelderConsole/ArcWelderConsole.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ArcWelderConsole/ArcWelderConsole.cpp b/ArcWelderConsole/ArcWelderConsole.cpp
index 5fa2234..6f060be 100644
--- a/ArcWelderConsole/ArcWelderConsole.cpp
+++ b/ArcWelderConsole/ArcWelderConsole.cpp
@@ -437,7 +437,7 @@ int main(int argc, char* argv[])
   }
 
   delete p_arc_welder;
-  return 0;
+  return results.success ? 0 : 1;
 }
 
 bool on_progress_full(arc_welder_progress progress, logger* p_logger, int logger_type)
-- 
2.43.0


From 507b6b4efc3fd3d9093102824b384f560f7f3ea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:27 +0000
Subject: [PATCH 57/78] fix: precisions that wrap around an unsigned char (e.g.
 259) were accepted

---
 ArcWelderConsole/ArcWelderConsole.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ArcWelderConsole/ArcWelderConsole.cpp b/ArcWelderConsole/ArcWelderConsole.cpp
index 6f060be..8978a30 100644
--- a/ArcWelderConsole/ArcWelderConsole.cpp
+++ b/ArcWelderConsole/ArcWelderConsole.cpp
@@ -264,22 +264,22 @@ int main(int argc, char* argv[])
         throw TCLAP::ArgException("You must also specify a non zero value for the " + mm_per_arc_segment_arg.toString() + " argument.", min_arc_segments_arg.toString());
     }
 
-    if (args.default_xyz_precision < 3)
+    if (default_xyz_precision_arg.getValue() < 3)
     {
         throw TCLAP::ArgException("The provided value is less than 3.", default_xyz_precision_arg.toString());
     }
 
-    if (args.default_e_precision < 3)
+    if (default_e_precision_arg.getValue() < 3)
     {
         throw TCLAP::ArgException("The provided value is less than 3.", default_e_precision_arg.toString());
     }
 
-    if (args.default_xyz_precision > 6)
+    if (default_xyz_precision_arg.getValue() > 6)
     {
         throw TCLAP::ArgException("The provided value is greater than 6.", default_xyz_precision_arg.toString());
     }
 
-    if (args.default_e_precision > 6)
+    if (default_e_precision_arg.getValue() > 6)
     {
         throw TCLAP::ArgException("The provided value is greater than 6.", default_e_precision_arg.toString());
     }
-- 
2.43.0


From ffa9721119665e89aaf57d10109cfdc9b40b22bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:00 +0000
Subject: [PATCH 58/78] fix: PyArcWelder raised SystemError when an optional
 argument was missing or clamped (swapped logging arguments)

---
 PyArcWelder/py_arc_welder.cpp | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/PyArcWelder/py_arc_welder.cpp b/PyArcWelder/py_arc_welder.cpp
index 65dabc9..7a85a7d 100644
--- a/PyArcWelder/py_arc_welder.cpp
+++ b/PyArcWelder/py_arc_welder.cpp
@@ -254,13 +254,13 @@ bool py_gcode_arc_args::parse_args(PyObject* py_args, py_logger* p_py_logger, py
     if (args.default_xyz_precision < 3)
     {
       std::string message = "ParseArgs - The default XYZ precision received was less than 3, which could cause problems printing arcs.  Setting to 3.";
-      p_py_logger->log(WARNING, GCODE_CONVERSION, message);
+      p_py_logger->log(GCODE_CONVERSION, WARNING, message);
       args.default_xyz_precision = 3;
     }
     else if (args.default_xyz_precision > 6)
     {
       std::string message = "ParseArgs - The default XYZ precision received was greater than 6, which could can cause checksum errors depending on your firmware.  Setting to 6.";
-      p_py_logger->log(WARNING, GCODE_CONVERSION, message);
+      p_py_logger->log(GCODE_CONVERSION, WARNING, message);
       args.default_xyz_precision = 6;
     }
   }
@@ -271,20 +271,20 @@ bool py_gcode_arc_args::parse_args(PyObject* py_args, py_logger* p_py_logger, py
   if (py_default_e_precision == NULL)
   {
     std::string message = "ParseArgs - Unable to retrieve the 'default_e_precision parameter' from the args.";
-    p_py_logger->log(WARNING, GCODE_CONVERSION, message);
+    p_py_logger->log(GCODE_CONVERSION, WARNING, message);
   }
   else {
     args.default_e_precision = (unsigned char)gcode_arc_converter::PyFloatOrInt_AsDouble(py_default_e_precision);
     if (args.default_e_precision < 3)
     {
       std::string message = "ParseArgs - The default E precision received was less than 3, which could cause extrusion problems.  Setting to 3.";
-      p_py_logger->log(WARNING, GCODE_CONVERSION, message);
+      p_py_logger->log(GCODE_CONVERSION, WARNING, message);
       args.default_e_precision = 3;
     }
     else if (args.default_e_precision > 6)
     {
       std::string message = "ParseArgs - The default E precision received was greater than 6, which could can cause checksum errors depending on your firmware.  Setting to 6.";
-      p_py_logger->log(WARNING, GCODE_CONVERSION, message);
+      p_py_logger->log(GCODE_CONVERSION, WARNING, message);
       args.default_e_precision = 6;
     }
   }
@@ -295,7 +295,7 @@ bool py_gcode_arc_args::parse_args(PyObject* py_args, py_logger* p_py_logger, py
   if (py_extrusion_rate_variance_percent == NULL)
   {
     std::string message = "ParseArgs - Unable to retrieve the 'extrusion_rate_variance_percent' parameter from the args.";
-    p_py_logger->log(WARNING, GCODE_CONVERSION, message);
+    p_py_logger->log(GCODE_CONVERSION, WARNING, message);
   }
   else
   {
@@ -312,7 +312,7 @@ bool py_gcode_arc_args::parse_args(PyObject* py_args, py_logger* p_py_logger, py
   if (py_path_tolerance_percent == NULL)
   {
     std::string message = "ParseArgs - Unable to retrieve the 'path_tolerance_percent' parameter from the args.";
-    p_py_logger->log(WARNING, GCODE_CONVERSION, message);
+    p_py_logger->log(GCODE_CONVERSION, WARNING, message);
   }
   else
   {
@@ -329,7 +329,7 @@ bool py_gcode_arc_args::parse_args(PyObject* py_args, py_logger* p_py_logger, py
   if (py_max_radius_mm == NULL)
   {
     std::string message = "ParseArgs - Unable to retrieve the 'max_radius_mm' parameter from the args.";
-    p_py_logger->log(WARNING, GCODE_CONVERSION, message);
+    p_py_logger->log(GCODE_CONVERSION, WARNING, message);
   }
   else
   {
@@ -346,7 +346,7 @@ bool py_gcode_arc_args::parse_args(PyObject* py_args, py_logger* p_py_logger, py
   if (py_mm_per_arc_segment == NULL)
   {
     std::string message = "ParseArgs - Unable to retrieve the 'mm_per_arc_segment' parameter from the args.";
-    p_py_logger->log(WARNING, GCODE_CONVERSION, message);
+    p_py_logger->log(GCODE_CONVERSION, WARNING, message);
   }
   else
   {
@@ -363,7 +363,7 @@ bool py_gcode_arc_args::parse_args(PyObject* py_args, py_logger* p_py_logger, py
   if (py_min_arc_segments == NULL)
   {
     std::string message = "ParseArgs - Unable to retrieve the 'min_arc_segments' parameter from the args.";
-    p_py_logger->log(WARNING, GCODE_CONVERSION, message);
+    p_py_logger->log(GCODE_CONVERSION, WARNING, message);
   }
   else
   {
@@ -380,7 +380,7 @@ bool py_gcode_arc_args::parse_args(PyObject* py_args, py_logger* p_py_logger, py
   if (py_max_gcode_length == NULL)
   {
     std::string message = "ParseArgs - Unable to retrieve the 'max_gcode_length' parameter from the args.";
-    p_py_logger->log(WARNING, GCODE_CONVERSION, message);
+    p_py_logger->log(GCODE_CONVERSION, WARNING, message);
   }
   else
   {
@@ -397,7 +397,7 @@ bool py_gcode_arc_args::parse_args(PyObject* py_args, py_logger* p_py_logger, py
   if (py_allow_3d_arcs == NULL)
   {
     std::string message = "ParseArgs - Unable to retrieve 'allow_3d_arcs' from the args.";
-    p_py_logger->log(WARNING, GCODE_CONVERSION, message);
+    p_py_logger->log(GCODE_CONVERSION, WARNING, message);
   }
   else
   {
@@ -410,7 +410,7 @@ bool py_gcode_arc_args::parse_args(PyObject* py_args, py_logger* p_py_logger, py
   if (py_allow_travel_arcs == NULL)
   {
     std::string message = "ParseArgs - Unable to retrieve 'allow_travel_arcs' from the args.";
-    p_py_logger->log(WARNING, GCODE_CONVERSION, message);
+    p_py_logger->log(GCODE_CONVERSION, WARNING, message);
   }
   else
   {
@@ -424,7 +424,7 @@ bool py_gcode_arc_args::parse_args(PyObject* py_args, py_logger* p_py_logger, py
   if (py_g90_g91_influences_extruder == NULL)
   {
     std::string message = "ParseArgs - Unable to retrieve 'g90_g91_influences_extruder' from the args.";
-    p_py_logger->log(WARNING, GCODE_CONVERSION, message);
+    p_py_logger->log(GCODE_CONVERSION, WARNING, message);
   }
   else
   {
@@ -437,7 +437,7 @@ bool py_gcode_arc_args::parse_args(PyObject* py_args, py_logger* p_py_logger, py
   if (py_log_level == NULL)
   {
     std::string message = "ParseArgs - Unable to retrieve 'log_level' from the args.";
-    p_py_logger->log(WARNING, GCODE_CONVERSION, message);
+    p_py_logger->log(GCODE_CONVERSION, WARNING, message);
   }
   else
   {
-- 
2.43.0


From 76bf7561999ebc66404acc19dd39252fea5a1213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:00 +0000
Subject: [PATCH 59/78] fix: PyArcWelder clamped precisions only after
 converting them to an unsigned char (259 became 3, -1 became 6)

---
 PyArcWelder/py_arc_welder.cpp | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/PyArcWelder/py_arc_welder.cpp b/PyArcWelder/py_arc_welder.cpp
index 7a85a7d..a6acddc 100644
--- a/PyArcWelder/py_arc_welder.cpp
+++ b/PyArcWelder/py_arc_welder.cpp
@@ -250,19 +250,24 @@ bool py_gcode_arc_args::parse_args(PyObject* py_args, py_logger* p_py_logger, py
     p_py_logger->log(GCODE_CONVERSION, WARNING, message);
   }
   else {
-    args.default_xyz_precision = (unsigned char)gcode_arc_converter::PyFloatOrInt_AsDouble(py_default_xyz_precision);
-    if (args.default_xyz_precision < 3)
+    // clamp the value before it is converted to an unsigned char
+    double default_xyz_precision = gcode_arc_converter::PyFloatOrInt_AsDouble(py_default_xyz_precision);
+    if (default_xyz_precision < 3)
     {
       std::string message = "ParseArgs - The default XYZ precision received was less than 3, which could cause problems printing arcs.  Setting to 3.";
       p_py_logger->log(GCODE_CONVERSION, WARNING, message);
       args.default_xyz_precision = 3;
     }
-    else if (args.default_xyz_precision > 6)
+    else if (default_xyz_precision > 6)
     {
       std::string message = "ParseArgs - The default XYZ precision received was greater than 6, which could can cause checksum errors depending on your firmware.  Setting to 6.";
       p_py_logger->log(GCODE_CONVERSION, WARNING, message);
       args.default_xyz_precision = 6;
     }
+    else
+    {
+      args.default_xyz_precision = (unsigned char)default_xyz_precision;
+    }
   }
 #pragma endregion default_xyz_precision
 #pragma region default_e_precision
@@ -274,19 +279,24 @@ bool py_gcode_arc_args::parse_args(PyObject* py_args, py_logger* p_py_logger, py
     p_py_logger->log(GCODE_CONVERSION, WARNING, message);
   }
   else {
-    args.default_e_precision = (unsigned char)gcode_arc_converter::PyFloatOrInt_AsDouble(py_default_e_precision);
-    if (args.default_e_precision < 3)
+    // clamp the value before it is converted to an unsigned char
+    double default_e_precision = gcode_arc_converter::PyFloatOrInt_AsDouble(py_default_e_precision);
+    if (default_e_precision < 3)
     {
       std::string message = "ParseArgs - The default E precision received was less than 3, which could cause extrusion problems.  Setting to 3.";
       p_py_logger->log(GCODE_CONVERSION, WARNING, message);
       args.default_e_precision = 3;
     }
-    else if (args.default_e_precision > 6)
+    else if (default_e_precision > 6)
     {
       std::string message = "ParseArgs - The default E precision received was greater than 6, which could can cause checksum errors depending on your firmware.  Setting to 6.";
       p_py_logger->log(GCODE_CONVERSION, WARNING, message);
       args.default_e_precision = 6;
     }
+    else
+    {
+      args.default_e_precision = (unsigned char)default_e_precision;
+    }
   }
 #pragma endregion default_e_precision
 #pragma region extrusion_rate_variance_percent
-- 
2.43.0


From c3a368eee125a75f624aae85ce1921dcb10adb87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:00 +0000
Subject: [PATCH 60/78] fix: PyArcWelder crashed when the guid, source_path or
 target_path is not a string

---
 PyArcWelder/py_arc_welder.cpp | 27 ++++++++++++++++++++++++---
 1 file changed, 24 insertions(+), 3 deletions(-)

diff --git a/PyArcWelder/py_arc_welder.cpp b/PyArcWelder/py_arc_welder.cpp
index a6acddc..22fe69a 100644
--- a/PyArcWelder/py_arc_welder.cpp
+++ b/PyArcWelder/py_arc_welder.cpp
@@ -173,7 +173,14 @@ bool py_gcode_arc_args::parse_args(PyObject* py_args, py_logger* p_py_logger, py
     p_py_logger->log_exception(GCODE_CONVERSION, message);
     return false;
   }
-  args.guid = gcode_arc_converter::PyUnicode_SafeAsString(py_guid);
+  const char* guid = gcode_arc_converter::PyUnicode_SafeAsString(py_guid);
+  if (guid == NULL)
+  {
+    std::string message = "ParseArgs - The 'guid' parameter is not a string.";
+    p_py_logger->log_exception(GCODE_CONVERSION, message);
+    return false;
+  }
+  args.guid = guid;
 #pragma endregion guid
 #pragma region source_path
   // Extract the source file path
@@ -184,7 +191,14 @@ bool py_gcode_arc_args::parse_args(PyObject* py_args, py_logger* p_py_logger, py
     p_py_logger->log_exception(GCODE_CONVERSION, message);
     return false;
   }
-  args.source_path = gcode_arc_converter::PyUnicode_SafeAsString(py_source_path);
+  const char* source_path = gcode_arc_converter::PyUnicode_SafeAsString(py_source_path);
+  if (source_path == NULL)
+  {
+    std::string message = "ParseArgs - The 'source_path' parameter is not a string.";
+    p_py_logger->log_exception(GCODE_CONVERSION, message);
+    return false;
+  }
+  args.source_path = source_path;
 #pragma endregion source_path
 #pragma region target_path
   // Extract the target file path
@@ -195,7 +209,14 @@ bool py_gcode_arc_args::parse_args(PyObject* py_args, py_logger* p_py_logger, py
     p_py_logger->log_exception(GCODE_CONVERSION, message);
     return false;
   }
-  args.target_path = gcode_arc_converter::PyUnicode_SafeAsString(py_target_path);
+  const char* target_path = gcode_arc_converter::PyUnicode_SafeAsString(py_target_path);
+  if (target_path == NULL)
+  {
+    std::string message = "ParseArgs - The 'target_path' parameter is not a string.";
+    p_py_logger->log_exception(GCODE_CONVERSION, message);
+    return false;
+  }
+  args.target_path = target_path;
 #pragma endregion target_path
 #pragma region on_progress_received
   // on_progress_received
-- 
2.43.0


From d12e6037226cf2fe92cf34a7ffa34a30c8f1a6e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:40 +0000
Subject: [PATCH 61/78] fix: PyArcWelder ran the conversion with a python error
 pending when an argument had the wrong type

---
 PyArcWelder/py_arc_welder.cpp           | 67 +++++++++++++++++++++++++
 PyArcWelder/py_arc_welder_extension.cpp |  1 +
 2 files changed, 68 insertions(+)

diff --git a/PyArcWelder/py_arc_welder.cpp b/PyArcWelder/py_arc_welder.cpp
index 22fe69a..1c78dbb 100644
--- a/PyArcWelder/py_arc_welder.cpp
+++ b/PyArcWelder/py_arc_welder.cpp
@@ -156,6 +156,17 @@ bool py_arc_welder::on_progress_(const arc_welder_progress& progress)
   return continue_processing;
 }
 
+// Reports values that could not be converted, so that the python error doesn't stay pending during the conversion.
+static bool is_conversion_error(py_logger* p_py_logger, const std::string& name)
+{
+  if (!PyErr_Occurred())
+  {
+    return false;
+  }
+  p_py_logger->log_exception(GCODE_CONVERSION, "ParseArgs - The value of the '" + name + "' parameter is not valid.");
+  return true;
+}
+
 bool py_gcode_arc_args::parse_args(PyObject* py_args, py_logger* p_py_logger, py_gcode_arc_args& args, PyObject** py_progress_callback)
 {
   p_py_logger->log(
@@ -244,6 +255,10 @@ bool py_gcode_arc_args::parse_args(PyObject* py_args, py_logger* p_py_logger, py
   }
   else {
     args.resolution_mm = gcode_arc_converter::PyFloatOrInt_AsDouble(py_resolution_mm);
+    if (is_conversion_error(p_py_logger, "resolution_mm"))
+    {
+      return false;
+    }
     if (args.resolution_mm <= 0)
     {
       args.resolution_mm = 0.05; // Set to the default if no resolution is provided, or if it is less than 0.
@@ -260,6 +275,10 @@ bool py_gcode_arc_args::parse_args(PyObject* py_args, py_logger* p_py_logger, py
   }
   else {
     args.allow_dynamic_precision = PyLong_AsLong(py_allow_dynamic_precision) > 0;
+    if (is_conversion_error(p_py_logger, "allow_dynamic_precision"))
+    {
+      return false;
+    }
   }
 #pragma endregion allow_dynamic_precision
 #pragma region default_xyz_precision
@@ -273,6 +292,10 @@ bool py_gcode_arc_args::parse_args(PyObject* py_args, py_logger* p_py_logger, py
   else {
     // clamp the value before it is converted to an unsigned char
     double default_xyz_precision = gcode_arc_converter::PyFloatOrInt_AsDouble(py_default_xyz_precision);
+    if (is_conversion_error(p_py_logger, "default_xyz_precision"))
+    {
+      return false;
+    }
     if (default_xyz_precision < 3)
     {
       std::string message = "ParseArgs - The default XYZ precision received was less than 3, which could cause problems printing arcs.  Setting to 3.";
@@ -302,6 +325,10 @@ bool py_gcode_arc_args::parse_args(PyObject* py_args, py_logger* p_py_logger, py
   else {
     // clamp the value before it is converted to an unsigned char
     double default_e_precision = gcode_arc_converter::PyFloatOrInt_AsDouble(py_default_e_precision);
+    if (is_conversion_error(p_py_logger, "default_e_precision"))
+    {
+      return false;
+    }
     if (default_e_precision < 3)
     {
       std::string message = "ParseArgs - The default E precision received was less than 3, which could cause extrusion problems.  Setting to 3.";
@@ -331,6 +358,10 @@ bool py_gcode_arc_args::parse_args(PyObject* py_args, py_logger* p_py_logger, py
   else
   {
     args.extrusion_rate_variance_percent = gcode_arc_converter::PyFloatOrInt_AsDouble(py_extrusion_rate_variance_percent);
+    if (is_conversion_error(p_py_logger, "extrusion_rate_variance_percent"))
+    {
+      return false;
+    }
     if (args.extrusion_rate_variance_percent < 0)
     {
       args.extrusion_rate_variance_percent = DEFAULT_EXTRUSION_RATE_VARIANCE_PERCENT; // Set to the default if no resolution is provided, or if it is less than 0.
@@ -348,6 +379,10 @@ bool py_gcode_arc_args::parse_args(PyObject* py_args, py_logger* p_py_logger, py
   else
   {
     args.path_tolerance_percent = gcode_arc_converter::PyFloatOrInt_AsDouble(py_path_tolerance_percent);
+    if (is_conversion_error(p_py_logger, "path_tolerance_percent"))
+    {
+      return false;
+    }
     if (args.path_tolerance_percent < 0)
     {
       args.path_tolerance_percent = ARC_LENGTH_PERCENT_TOLERANCE_DEFAULT; // Set to the default if no resolution is provided, or if it is less than 0.
@@ -365,6 +400,10 @@ bool py_gcode_arc_args::parse_args(PyObject* py_args, py_logger* p_py_logger, py
   else
   {
     args.max_radius_mm = gcode_arc_converter::PyFloatOrInt_AsDouble(py_max_radius_mm);
+    if (is_conversion_error(p_py_logger, "max_radius_mm"))
+    {
+      return false;
+    }
     if (args.max_radius_mm > DEFAULT_MAX_RADIUS_MM)
     {
       args.max_radius_mm = DEFAULT_MAX_RADIUS_MM; // Set to the default if no resolution is provided, or if it is less than 0.
@@ -382,6 +421,10 @@ bool py_gcode_arc_args::parse_args(PyObject* py_args, py_logger* p_py_logger, py
   else
   {
     args.mm_per_arc_segment = gcode_arc_converter::PyFloatOrInt_AsDouble(py_mm_per_arc_segment);
+    if (is_conversion_error(p_py_logger, "mm_per_arc_segment"))
+    {
+      return false;
+    }
     if (args.mm_per_arc_segment < 0)
     {
       args.mm_per_arc_segment = DEFAULT_MM_PER_ARC_SEGMENT;
@@ -399,6 +442,10 @@ bool py_gcode_arc_args::parse_args(PyObject* py_args, py_logger* p_py_logger, py
   else
   {
     args.min_arc_segments = (int)gcode_arc_converter::PyIntOrLong_AsLong(py_min_arc_segments);
+    if (is_conversion_error(p_py_logger, "min_arc_segments"))
+    {
+      return false;
+    }
     if (args.min_arc_segments < 0)
     {
       args.min_arc_segments = DEFAULT_MIN_ARC_SEGMENTS; // Set to the default if no resolution is provided, or if it is less than 0.
@@ -416,6 +463,10 @@ bool py_gcode_arc_args::parse_args(PyObject* py_args, py_logger* p_py_logger, py
   else
   {
     args.max_gcode_length = (int)gcode_arc_converter::PyIntOrLong_AsLong(py_max_gcode_length);
+    if (is_conversion_error(p_py_logger, "max_gcode_length"))
+    {
+      return false;
+    }
     if (args.max_gcode_length < 0)
     {
       args.max_gcode_length = DEFAULT_MAX_GCODE_LENGTH;
@@ -433,6 +484,10 @@ bool py_gcode_arc_args::parse_args(PyObject* py_args, py_logger* p_py_logger, py
   else
   {
     args.allow_3d_arcs = PyLong_AsLong(py_allow_3d_arcs) > 0;
+    if (is_conversion_error(p_py_logger, "allow_3d_arcs"))
+    {
+      return false;
+    }
   }
 #pragma endregion allow_3d_arcs
 #pragma region allow_travel_arcs
@@ -446,6 +501,10 @@ bool py_gcode_arc_args::parse_args(PyObject* py_args, py_logger* p_py_logger, py
   else
   {
     args.allow_travel_arcs = PyLong_AsLong(py_allow_travel_arcs) > 0;
+    if (is_conversion_error(p_py_logger, "allow_travel_arcs"))
+    {
+      return false;
+    }
   }
 #pragma endregion allow_travel_arcs
 #pragma region g90_g91_influences_extruder
@@ -460,6 +519,10 @@ bool py_gcode_arc_args::parse_args(PyObject* py_args, py_logger* p_py_logger, py
   else
   {
     args.g90_g91_influences_extruder = PyLong_AsLong(py_g90_g91_influences_extruder) > 0;
+    if (is_conversion_error(p_py_logger, "g90_g91_influences_extruder"))
+    {
+      return false;
+    }
   }
 #pragma endregion g90_g91_influences_extruder
 #pragma region log_level
@@ -473,6 +536,10 @@ bool py_gcode_arc_args::parse_args(PyObject* py_args, py_logger* p_py_logger, py
   else
   {
     int log_level_value = static_cast<int>(PyLong_AsLong(py_log_level));
+    if (is_conversion_error(p_py_logger, "log_level"))
+    {
+      return false;
+    }
     // determine the log level as an index rather than as a value
     args.log_level = p_py_logger->get_log_level_for_value(log_level_value);
   }
diff --git a/PyArcWelder/py_arc_welder_extension.cpp b/PyArcWelder/py_arc_welder_extension.cpp
index 4ad2518..62876ab 100644
--- a/PyArcWelder/py_arc_welder_extension.cpp
+++ b/PyArcWelder/py_arc_welder_extension.cpp
@@ -188,6 +188,7 @@ extern "C"
 		
 		if (!py_gcode_arc_args::parse_args(py_convert_file_args, p_py_logger, args, &py_progress_callback))
 		{
+			Py_XDECREF(py_progress_callback);
 			return NULL;
 		}
 		p_py_logger->set_log_level((log_levels)args.log_level);
-- 
2.43.0


From 2aae71b2068fb7a03e2b7950ac5d2f3274c718a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:40 +0000
Subject: [PATCH 62/78] fix: PyArcWelder leaked the progress dictionaries

---
 PyArcWelder/py_arc_welder.cpp           | 14 ++++++++++++++
 PyArcWelder/py_arc_welder_extension.cpp |  4 +++-
 2 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/PyArcWelder/py_arc_welder.cpp b/PyArcWelder/py_arc_welder.cpp
index 1c78dbb..5b6fa4a 100644
--- a/PyArcWelder/py_arc_welder.cpp
+++ b/PyArcWelder/py_arc_welder.cpp
@@ -41,12 +41,19 @@ PyObject* py_arc_welder::build_py_progress(const arc_welder_progress& progress,
   }
   PyObject* pyMessage = gcode_arc_converter::PyUnicode_SafeFromString(segment_statistics);
   if (pyMessage == NULL)
+  {
+    Py_DECREF(pyGuid);
     return NULL;
+  }
   double total_count_reduction_percent = progress.segment_statistics.get_total_count_reduction_percent();
   
   PyObject* pyTravelMessage = gcode_arc_converter::PyUnicode_SafeFromString(segment_travel_statistics);
   if (pyTravelMessage == NULL)
+  {
+    Py_DECREF(pyGuid);
+    Py_DECREF(pyMessage);
     return NULL;
+  }
   double total_travel_count_reduction_percent = progress.travel_statistics.get_total_count_reduction_percent();
   PyObject* py_progress = Py_BuildValue("{s:d,s:d,s:d,s:i,s:i,s:i,s:i,s:i,s:i,s:i,s:i,s:i,s:i,s:f,s:f,s:f,s:f,s:i,s:i,s:f,s:f,s:f,s:i,s:i,s:f}",
     "percent_complete",
@@ -104,6 +111,9 @@ PyObject* py_arc_welder::build_py_progress(const arc_welder_progress& progress,
 
   if (py_progress == NULL)
   {
+    Py_DECREF(pyGuid);
+    Py_DECREF(pyMessage);
+    Py_DECREF(pyTravelMessage);
     return NULL;
   }
   // Due to a CRAZY issue, I have to add this item after building the py_progress object,
@@ -112,6 +122,10 @@ PyObject* py_arc_welder::build_py_progress(const arc_welder_progress& progress,
   PyDict_SetItemString(py_progress, "segment_statistics_text", pyMessage);
   PyDict_SetItemString(py_progress, "segment_travel_statistics_text", pyTravelMessage);
   PyDict_SetItemString(py_progress, "guid", pyGuid);
+  // the dictionary holds its own references
+  Py_DECREF(pyMessage);
+  Py_DECREF(pyTravelMessage);
+  Py_DECREF(pyGuid);
   return py_progress;
 }
 
diff --git a/PyArcWelder/py_arc_welder_extension.cpp b/PyArcWelder/py_arc_welder_extension.cpp
index 62876ab..b962d69 100644
--- a/PyArcWelder/py_arc_welder_extension.cpp
+++ b/PyArcWelder/py_arc_welder_extension.cpp
@@ -211,7 +211,7 @@ extern "C"
 		PyObject* p_progress = py_arc_welder::build_py_progress(results.progress, args.guid, true);
 		
 		if (p_progress == NULL)
-			p_progress = Py_None;
+			return NULL;
 
 		PyObject* p_results = Py_BuildValue(
 			"{s:i,s:i,s:s,s:O}",
@@ -224,6 +224,8 @@ extern "C"
 			"progress",
 			p_progress
 		);
+		// the results hold their own reference
+		Py_DECREF(p_progress);
 		return p_results;
 	}
 }
-- 
2.43.0


From 922ae36d0413bf09c1d5b19452740787c08ae4e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:40 +0000
Subject: [PATCH 63/78] fix: PyArcWelder ignored exceptions of the progress
 callback, and raised SystemError when a file could not be opened

---
 PyArcWelder/py_arc_welder.cpp           | 26 +++++++++++++++++++++++--
 PyArcWelder/py_arc_welder.h             | 16 ++++++++++++++-
 PyArcWelder/py_arc_welder_extension.cpp |  7 ++++++-
 3 files changed, 45 insertions(+), 4 deletions(-)

diff --git a/PyArcWelder/py_arc_welder.cpp b/PyArcWelder/py_arc_welder.cpp
index 5b6fa4a..c6a786f 100644
--- a/PyArcWelder/py_arc_welder.cpp
+++ b/PyArcWelder/py_arc_welder.cpp
@@ -129,8 +129,25 @@ PyObject* py_arc_welder::build_py_progress(const arc_welder_progress& progress,
   return py_progress;
 }
 
+bool py_arc_welder::restore_error()
+{
+  if (error_type_ != NULL)
+  {
+    PyErr_Restore(error_type_, error_value_, error_traceback_);
+    error_type_ = NULL;
+    error_value_ = NULL;
+    error_traceback_ = NULL;
+  }
+  return PyErr_Occurred() != NULL;
+}
+
 bool py_arc_welder::on_progress_(const arc_welder_progress& progress)
 {
+  if (error_type_ != NULL)
+  {
+    // The callback already failed, the conversion is cancelled
+    return false;
+  }
   PyObject* py_dict = py_arc_welder::build_py_progress(progress, guid_, false);
   if (py_dict == NULL)
   {
@@ -151,8 +168,8 @@ bool py_arc_welder::on_progress_(const arc_welder_progress& progress)
   bool continue_processing;
   if (pContinueProcessing == NULL)
   {
-    // no return value was supply, assume true, but without decrefing pContinueProcessing
-    continue_processing = true;
+    // The callback raised an exception.  Cancel, and report it once the files are closed.
+    continue_processing = false;
   }
   else
   {
@@ -166,6 +183,11 @@ bool py_arc_welder::on_progress_(const arc_welder_progress& progress)
     }
     Py_DECREF(pContinueProcessing);
   }
+  if (PyErr_Occurred())
+  {
+    PyErr_Fetch(&error_type_, &error_value_, &error_traceback_);
+    continue_processing = false;
+  }
 
   return continue_processing;
 }
diff --git a/PyArcWelder/py_arc_welder.h b/PyArcWelder/py_arc_welder.h
index 7fe6bc0..d6e037d 100644
--- a/PyArcWelder/py_arc_welder.h
+++ b/PyArcWelder/py_arc_welder.h
@@ -57,15 +57,29 @@ public:
   {
 		guid_ = args.guid;
 		py_progress_callback_ = args.py_progress_callback;
+		error_type_ = NULL;
+		error_value_ = NULL;
+		error_traceback_ = NULL;
 	}
 	virtual ~py_arc_welder() {
-		
+		Py_XDECREF(error_type_);
+		Py_XDECREF(error_value_);
+		Py_XDECREF(error_traceback_);
 	}
+	/// <summary>
+	/// Raises the python exception that cancelled the conversion, if there was any.
+	/// </summary>
+	/// <returns>true if a python exception is pending</returns>
+	bool restore_error();
 	static PyObject* build_py_progress(const arc_welder_progress& progress, std::string guid, bool include_detailed_statistics);
 protected:
 	std::string guid_;
 	virtual bool on_progress_(const arc_welder_progress& progress);
 private:
 	PyObject* py_progress_callback_;
+	// the python exception that was raised by the progress callback
+	PyObject* error_type_;
+	PyObject* error_value_;
+	PyObject* error_traceback_;
 };
 
diff --git a/PyArcWelder/py_arc_welder_extension.cpp b/PyArcWelder/py_arc_welder_extension.cpp
index b962d69..2c293b9 100644
--- a/PyArcWelder/py_arc_welder_extension.cpp
+++ b/PyArcWelder/py_arc_welder_extension.cpp
@@ -203,10 +203,15 @@ extern "C"
 		py_arc_welder arc_welder_obj(args);
 		arc_welder_results results;
 		results = arc_welder_obj.process();
+		Py_XDECREF(py_progress_callback);
+		if (arc_welder_obj.restore_error())
+		{
+			// The conversion failed, or was cancelled by an exception within the progress callback
+			return NULL;
+		}
 		
 		message = "py_gcode_arc_converter.ConvertFile - Arc Conversion Complete.";
 		p_py_logger->log(GCODE_CONVERSION, log_levels::INFO, message);
-		Py_XDECREF(py_progress_callback);
 		// return the arguments
 		PyObject* p_progress = py_arc_welder::build_py_progress(results.progress, args.guid, true);
 		
-- 
2.43.0


From 117eb03109c4bbe4ea6e20475584694f6f226b13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:13 +0000
Subject: [PATCH 64/78] fix: numbers with more than 308 decimals are read as
 NaN

---
 GcodeProcessorLib/gcode_parser.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/GcodeProcessorLib/gcode_parser.cpp b/GcodeProcessorLib/gcode_parser.cpp
index 0b93231..08620da 100644
--- a/GcodeProcessorLib/gcode_parser.cpp
+++ b/GcodeProcessorLib/gcode_parser.cpp
@@ -473,8 +473,12 @@ bool gcode_parser::try_extract_double(char ** p_p_gcode, double * p_double, unsi
 			if (*p != ' ')
 			{
 				found_numbers = true;
-				f = (f*10.0) + (*p - '0');
-				++n;
+				// any further digits are insignificant, and would overflow
+				if (n < 255)
+				{
+					f = (f*10.0) + (*p - '0');
+					++n;
+				}
 			}
 			++p;
 		}
-- 
2.43.0


From 44ea1c67af92057dad20c28901c4e92726272ede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:35 +0000
Subject: [PATCH 65/78] fix: messages of the engine do not reach Python's
 logging

---
 PyArcWelder/py_logger.cpp | 8 ++++----
 PyArcWelder/py_logger.h   | 4 ++--
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/PyArcWelder/py_logger.cpp b/PyArcWelder/py_logger.cpp
index da7b935..4c0abea 100644
--- a/PyArcWelder/py_logger.cpp
+++ b/PyArcWelder/py_logger.cpp
@@ -122,12 +122,12 @@ void py_logger::log_exception(const int logger_type, const std::string& message)
 	log(logger_type, log_levels::ERROR, message, true);
 }
 
-void py_logger::log(const int logger_type, const int log_level, const std::string& message)
+void py_logger::log(const int logger_type, log_levels log_level, const std::string& message)
 {
 	log(logger_type, log_level, message, false);
 }
 
-void py_logger::log(const int logger_type, const int log_level, const std::string& message, bool is_exception)
+void py_logger::log(const int logger_type, log_levels log_level, const std::string& message, bool is_exception)
 {
 	if (!loggers_created_)
 		return;
@@ -151,7 +151,7 @@ void py_logger::log(const int logger_type, const int log_level, const std::strin
 	{
 		//std::cout << "Current Log Level: " << current_log_level << " requested:" << log_level;
 		// For speed we are going to check the log levels here before attempting to send any logging info to Python.
-		if (current_log_level > log_level)
+		if (current_log_level > get_log_level_value(log_level))
 		{
 			return;
 		}
@@ -176,7 +176,7 @@ void py_logger::log(const int logger_type, const int log_level, const std::strin
 	}
 	else
 	{
-		switch ((log_levels)log_level)
+		switch (log_level)
 		{
 		case log_levels::INFO:
 			pyFunctionName = py_info_function_name;
diff --git a/PyArcWelder/py_logger.h b/PyArcWelder/py_logger.h
index cf74e7b..6168b37 100644
--- a/PyArcWelder/py_logger.h
+++ b/PyArcWelder/py_logger.h
@@ -45,8 +45,8 @@ public:
 	}
 	void initialize_loggers();
 	void set_internal_log_levels(bool check_real_time);
-	virtual void log(const int logger_type, const int log_level, const std::string& message);
-	virtual void log(const int logger_type, const int log_level, const std::string& message, bool is_exception);
+	virtual void log(const int logger_type, log_levels log_level, const std::string& message);
+	virtual void log(const int logger_type, log_levels log_level, const std::string& message, bool is_exception);
 	virtual void log_exception(const int logger_type, const std::string& message);
 private:
 	bool check_log_levels_real_time;
-- 
2.43.0


From 35a51b55b7100843b59227d3c21377aed0e5fe7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:35 +0000
Subject: [PATCH 66/78] fix: messages with invalid UTF-8 are lost and leave a
 Python error pending

---
 PyArcWelder/python_helpers.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/PyArcWelder/python_helpers.cpp b/PyArcWelder/python_helpers.cpp
index a77ff31..63b8184 100644
--- a/PyArcWelder/python_helpers.cpp
+++ b/PyArcWelder/python_helpers.cpp
@@ -53,7 +53,7 @@ namespace gcode_arc_converter {
 	PyObject* PyUnicode_SafeFromString(std::string str)
 	{
 #if PY_MAJOR_VERSION >= 3
-		return PyUnicode_FromString(str.c_str());
+		return PyUnicode_DecodeUTF8(str.c_str(), static_cast<Py_ssize_t>(str.length()), "replace");
 #else
 		// TODO:  try PyUnicode_DecodeUnicodeEscape maybe?
 		//return PyUnicode_DecodeUTF8(str.c_str(), NULL, "replace");
-- 
2.43.0


From 3b46748ef8433a654eb14cc7ec75c4724439ab7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:35 +0000
Subject: [PATCH 67/78] fix: an error is lost when the Python logger fails
 while logging it

---
 PyArcWelder/py_logger.cpp | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/PyArcWelder/py_logger.cpp b/PyArcWelder/py_logger.cpp
index 4c0abea..ba0b9a2 100644
--- a/PyArcWelder/py_logger.cpp
+++ b/PyArcWelder/py_logger.cpp
@@ -237,16 +237,13 @@ void py_logger::log(const int logger_type, log_levels log_level, const std::stri
 			PyErr_Clear();
 		}
 	}
-	else
+	// Set the exception if we are doing exception logging.
+	if (is_exception)
 	{
-		// Set the exception if we are doing exception logging.
-		if (is_exception)
-		{
-			if (error_occurred)
-				PyErr_Restore(error_type, error_value, error_traceback);
-			else
-				PyErr_SetString(PyExc_Exception, message.c_str());
-		}
+		if (error_occurred)
+			PyErr_Restore(error_type, error_value, error_traceback);
+		else
+			PyErr_SetString(PyExc_Exception, message.c_str());
 	}
 	Py_XDECREF(ret_val);
 }
-- 
2.43.0


From 87dc435c217064f1aca1c2ff7817f94a710c807f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:36 +0000
Subject: [PATCH 68/78] fix: adding statistics with other than 12 classes reads
 and writes out of bounds

---
 ArcWelder/arc_welder.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ArcWelder/arc_welder.h b/ArcWelder/arc_welder.h
index 7535bf0..436b0b9 100644
--- a/ArcWelder/arc_welder.h
+++ b/ArcWelder/arc_welder.h
@@ -137,7 +137,7 @@ struct source_target_segment_statistics {
 
 		double * lengths = &stats1.segment_statistic_lengths[0];
 		std::copy(stats1.segment_statistic_lengths.begin(), stats1.segment_statistic_lengths.end(), lengths);
-		source_target_segment_statistics combined_stats(lengths, segment_statistic_lengths_count, stats1.p_logger_);
+		source_target_segment_statistics combined_stats(lengths, stats1.num_segment_tracking_lengths, stats1.p_logger_);
 		if (stats1.num_segment_tracking_lengths != stats2.num_segment_tracking_lengths)
 		{
 			// Todo:  throw a reasonable exception
-- 
2.43.0


From 85284897fc7688a4e6ecfef2420715f5ec6bd380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:04 +0000
Subject: [PATCH 69/78] fix: an arc whose middle vertex lies exactly at angle
 zero is not made

---
 ArcWelder/segmented_shape.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ArcWelder/segmented_shape.cpp b/ArcWelder/segmented_shape.cpp
index 5eff72f..3b433f5 100644
--- a/ArcWelder/segmented_shape.cpp
+++ b/ArcWelder/segmented_shape.cpp
@@ -266,6 +266,9 @@ double circle::get_polar_radians(const point& p1) const
   double polar_radians = utilities::atan2(p1.y - center.y, p1.x - center.x);
   if (polar_radians < 0)
     polar_radians = (2.0 * PI_DOUBLE) + polar_radians;
+  // A tiny negative angle is rounded up to a full turn, which is the angle zero
+  if (polar_radians >= 2.0 * PI_DOUBLE)
+    polar_radians = 0;
   return polar_radians;
 }
 
@@ -413,7 +416,7 @@ bool arc::try_create_arc(
   {
     if (
       (polar_start_theta < polar_mid_theta && polar_mid_theta < (2.0 * PI_DOUBLE)) ||
-      (0.0 < polar_mid_theta && polar_mid_theta < polar_end_theta)
+      (0.0 <= polar_mid_theta && polar_mid_theta < polar_end_theta)
       )
     {
       direction = DirectionEnum::COUNTERCLOCKWISE;
-- 
2.43.0


From f84d35a747e021fd01446d38e8e54d796b654129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:35 +0000
Subject: [PATCH 70/78] fix: a move with other parameters than X, Y, Z, E and F
 is not welded, an arc would drop them

---
 ArcWelder/arc_welder.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/ArcWelder/arc_welder.cpp b/ArcWelder/arc_welder.cpp
index dc5b9de..239c887 100644
--- a/ArcWelder/arc_welder.cpp
+++ b/ArcWelder/arc_welder.cpp
@@ -480,6 +480,15 @@ int arc_welder::process_gcode(parsed_command cmd, bool is_end, bool is_reprocess
   // Determine if this is a G0, G1, G2 or G3
   bool is_g0_g1 = cmd.command == "G0" || cmd.command == "G1";
   bool is_g2_g3 = cmd.command == "G2" || cmd.command == "G3";
+  // An arc can only carry the parameters X, Y, Z, E and F, so a move with any other parameter can't be part of one
+  bool has_other_parameters = false;
+  for (std::vector<parsed_command_parameter>::iterator it = cmd.parameters.begin(); it != cmd.parameters.end(); ++it)
+  {
+    if ((*it).name.find_first_not_of("XYZEF") != std::string::npos)
+    {
+      has_other_parameters = true;
+    }
+  }
   //std::cout << lines_processed_ << " - " << cmd.gcode << ", CurrentEAbsolute: " << cur_extruder.e <<", ExtrusionLength: " << cur_extruder.extrusion_length << ", Retraction Length: " << cur_extruder.retraction_length << ", IsExtruding: " << cur_extruder.is_extruding << ", IsRetracting: " << cur_extruder.is_retracting << ".\n";
 
   int lines_written = 0;
@@ -613,7 +622,7 @@ int arc_welder::process_gcode(parsed_command cmd, bool is_end, bool is_reprocess
   
   if (
     !is_end && cmd.is_known_command && !cmd.is_empty && (
-      is_g0_g1 && z_axis_ok && is_start_known && is_metric &&
+      is_g0_g1 && !has_other_parameters && z_axis_ok && is_start_known && is_metric &&
       utilities::is_equal(p_cur_pos->x_offset, p_pre_pos->x_offset) &&
       utilities::is_equal(p_cur_pos->y_offset, p_pre_pos->y_offset) &&
       utilities::is_equal(p_cur_pos->z_offset, p_pre_pos->z_offset) &&
-- 
2.43.0


From 0abda09ff656a09cdd9ec0cc4984398057efdcd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:38 +0000
Subject: [PATCH 71/78] fix: the position is unknown after G29 and G80, which
 move the print head

---
 GcodeProcessorLib/gcode_position.cpp | 10 ++++++++++
 GcodeProcessorLib/gcode_position.h   |  1 +
 2 files changed, 11 insertions(+)

diff --git a/GcodeProcessorLib/gcode_position.cpp b/GcodeProcessorLib/gcode_position.cpp
index 318cc73..f34d92e 100644
--- a/GcodeProcessorLib/gcode_position.cpp
+++ b/GcodeProcessorLib/gcode_position.cpp
@@ -728,6 +728,8 @@ std::map<std::string, gcode_position::pos_function_type> gcode_position::get_gco
 	newMap.insert(std::make_pair("G20", &gcode_position::process_g20));
 	newMap.insert(std::make_pair("G21", &gcode_position::process_g21));
 	newMap.insert(std::make_pair("G28", &gcode_position::process_g28));
+	newMap.insert(std::make_pair("G29", &gcode_position::process_g29_g80));
+	newMap.insert(std::make_pair("G80", &gcode_position::process_g29_g80));
 	newMap.insert(std::make_pair("G90", &gcode_position::process_g90));
 	newMap.insert(std::make_pair("G91", &gcode_position::process_g91));
 	newMap.insert(std::make_pair("G92", &gcode_position::process_g92));
@@ -1133,6 +1135,14 @@ void gcode_position::process_g28(position* pos, parsed_command& cmd)
 	// todo: set error flag on else
 }
 
+void gcode_position::process_g29_g80(position* pos, parsed_command& cmd)
+{
+	// Bed leveling moves the print head, so we do not know where it is now
+	pos->x_null = true;
+	pos->y_null = true;
+	pos->z_null = true;
+}
+
 void gcode_position::process_g90(position* pos, parsed_command& cmd)
 {
 	// Set xyz to absolute mode
diff --git a/GcodeProcessorLib/gcode_position.h b/GcodeProcessorLib/gcode_position.h
index 9c4511b..3f89baa 100644
--- a/GcodeProcessorLib/gcode_position.h
+++ b/GcodeProcessorLib/gcode_position.h
@@ -204,6 +204,7 @@ private:
 	void process_g20(position*, parsed_command&);
 	void process_g21(position*, parsed_command&);
 	void process_g28(position*, parsed_command&);
+	void process_g29_g80(position*, parsed_command&);
 	void process_g90(position*, parsed_command&);
 	void process_g91(position*, parsed_command&);
 	void process_g92(position*, parsed_command&);
-- 
2.43.0


From 254d713fb2e8b1a9231906551596db3ea715652d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:45 +0000
Subject: [PATCH 72/78] fix: the warning for an extrusion rate variance of 0
 named the maximum radius

---
 ArcWelderConsole/ArcWelderConsole.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ArcWelderConsole/ArcWelderConsole.cpp b/ArcWelderConsole/ArcWelderConsole.cpp
index 8978a30..de501f3 100644
--- a/ArcWelderConsole/ArcWelderConsole.cpp
+++ b/ArcWelderConsole/ArcWelderConsole.cpp
@@ -306,7 +306,7 @@ int main(int argc, char* argv[])
     if (args.extrusion_rate_variance_percent == 0)
     {
         // warning
-        std::cout << "warning: The provided path max radius of " << args.max_radius_mm << "mm is greater than 1000000 (1km), which is not recommended.\n";
+        std::cout << "warning: The provided extrusion rate variance percent is 0, so changes in the extrusion rate will not be detected.\n";
     }
 
     if (args.max_radius_mm > 1000000)
-- 
2.43.0


From 6d2ed010460070971fed9e505b3441ce321eaae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:22 +0000
Subject: [PATCH 73/78] fix: progress reports at the end of the file, of an
 empty file and after cancelling

---
 ArcWelder/arc_welder.cpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/ArcWelder/arc_welder.cpp b/ArcWelder/arc_welder.cpp
index 239c887..ad6ceed 100644
--- a/ArcWelder/arc_welder.cpp
+++ b/ArcWelder/arc_welder.cpp
@@ -278,6 +278,7 @@ arc_welder_results arc_welder::process()
   p_logger_->log(logger_type_, log_levels::DEBUG, "Target file opened successfully.");
   std::string line;
   int lines_with_no_commands = 0;
+  long source_file_position = static_cast<long>(gcodeFile.tellg());
   parsed_command cmd;
   // Communicate every second
   p_logger_->log(logger_type_, log_levels::DEBUG, "Sending initial progress update.");
@@ -341,7 +342,9 @@ arc_welder_results arc_welder::process()
         {
           p_logger_->log(logger_type_, log_levels::VERBOSE, "Sending progress update.");
         }
-        continue_processing = on_progress_(get_progress_(static_cast<long>(gcodeFile.tellg()), static_cast<double>(start_clock)));
+        // The stream has no position any more once its end was reached
+        source_file_position = gcodeFile.eof() ? static_cast<long>(file_size_) : static_cast<long>(gcodeFile.tellg());
+        continue_processing = on_progress_(get_progress_(source_file_position, static_cast<double>(start_clock)));
         next_update_time = get_next_update_time();
       }
     }
@@ -358,7 +361,12 @@ arc_welder_results arc_welder::process()
 
   p_logger_->log(logger_type_, log_levels::DEBUG, "Fetching the final progress struct.");
 
-  arc_welder_progress final_progress = get_progress_(static_cast<long>(file_size_), static_cast<double>(start_clock));
+  // The rest of the source file is not processed if the conversion was cancelled
+  if (continue_processing)
+  {
+    source_file_position = static_cast<long>(file_size_);
+  }
+  arc_welder_progress final_progress = get_progress_(source_file_position, static_cast<double>(start_clock));
   if (debug_logging_enabled_)
   {
     p_logger_->log(logger_type_, log_levels::DEBUG, "Sending final progress update message.");
@@ -442,7 +450,7 @@ arc_welder_progress arc_welder::get_progress_(long source_file_position, double
   progress.target_file_size = static_cast<long>(output_file_.tellp());
   progress.source_file_size = file_size_;
   long bytesRemaining = file_size_ - static_cast<long>(source_file_position);
-  progress.percent_complete = static_cast<double>(source_file_position) / static_cast<double>(file_size_) * 100.0;
+  progress.percent_complete = file_size_ > 0 ? static_cast<double>(source_file_position) / static_cast<double>(file_size_) * 100.0 : 100.0;
   progress.seconds_elapsed = get_time_elapsed(start_clock, clock());
   double bytesPerSecond = static_cast<double>(source_file_position) / progress.seconds_elapsed;
   progress.seconds_remaining = bytesRemaining / bytesPerSecond;
-- 
2.43.0


From 6b370357e86bf16372bb55f45b1701889e928f6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:34 +0000
Subject: [PATCH 74/78] fix: the variance of the extrusion rate is also kept
 within retracting arcs

---
 ArcWelder/arc_welder.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ArcWelder/arc_welder.cpp b/ArcWelder/arc_welder.cpp
index ad6ceed..ccdbfff 100644
--- a/ArcWelder/arc_welder.cpp
+++ b/ArcWelder/arc_welder.cpp
@@ -585,7 +585,7 @@ int arc_welder::process_gcode(parsed_command cmd, bool is_end, bool is_reprocess
       if (movement_length_mm > 0 && (is_extrusion || is_retraction))
       {
           mm_extruded_per_mm_travel = extruder_current.e_relative / movement_length_mm;
-          if (previous_extrusion_rate_ > 0)
+          if (previous_extrusion_rate_ > 0 || (previous_extrusion_rate_ < 0 && is_retraction))
           {
               extrusion_rate_change_percent = utilities::abs(utilities::get_percent_change(previous_extrusion_rate_, mm_extruded_per_mm_travel));
           }
-- 
2.43.0


From f4b61efec92974db194fd98f5147e0a72d16fce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:34 +0000
Subject: [PATCH 75/78] fix: numbers written by two conversions in different
 threads mixed up their digits

---
 GcodeProcessorLib/utilities.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/GcodeProcessorLib/utilities.cpp b/GcodeProcessorLib/utilities.cpp
index a41f07c..563551d 100644
--- a/GcodeProcessorLib/utilities.cpp
+++ b/GcodeProcessorLib/utilities.cpp
@@ -720,7 +720,7 @@ void* utilities::memcpy(void* dest, const void* src, size_t n)
 
 std::string utilities::dtos(double x, unsigned char precision)
 {
-	static char buffer[FPCONV_BUFFER_LENGTH];
+	char buffer[FPCONV_BUFFER_LENGTH];
 	char* p = buffer;
 	buffer[fpconv_dtos(x, buffer, precision)] = '\0';
 	/* This is code that can be used to compare the output of the
-- 
2.43.0


From 602a08df98025c42c2310777a3bfd8d15a7a6576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:58 +0000
Subject: [PATCH 76/78] fix: relative moves of a straightened arc do not depend
 on the C locale

The rounding error carried over was computed with strtod, which stops at the
decimal point where the locale of the process has a decimal comma.
---
 ArcWelderInverseProcessor/firmware.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/ArcWelderInverseProcessor/firmware.cpp b/ArcWelderInverseProcessor/firmware.cpp
index 476a293..624798f 100644
--- a/ArcWelderInverseProcessor/firmware.cpp
+++ b/ArcWelderInverseProcessor/firmware.cpp
@@ -33,7 +33,7 @@
 
 #include "firmware.h"
 #include "utilities.h"
-#include <cstdlib>
+#include <locale>
 
 firmware::firmware() {
   version_index_ = -1;
@@ -80,7 +80,12 @@ std::string firmware::get_axis_value_(double current, double target, bool is_rel
   // Carry the rounding error over to the next relative move, else it would accumulate.
   double value = target - current + remainder;
   std::string text = utilities::dtos(value, precision);
-  remainder = value - std::strtod(text.c_str(), NULL);
+  // The number is always written with a point, whatever the current locale is.
+  std::istringstream stream(text);
+  stream.imbue(std::locale::classic());
+  double written = 0;
+  stream >> written;
+  remainder = value - written;
   return text;
 }
 
-- 
2.43.0


From 6060985c9e2cc3884fe01738cfb340842c115510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:58 +0000
Subject: [PATCH 77/78] fix: rewritten commands have a decimal point under
 every global locale

parsed_command::rewrite_gcode_string wrote numbers with the global C++ locale,
which may use a decimal comma and group digits.
---
 GcodeProcessorLib/parsed_command.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/GcodeProcessorLib/parsed_command.cpp b/GcodeProcessorLib/parsed_command.cpp
index d91ab60..168666e 100644
--- a/GcodeProcessorLib/parsed_command.cpp
+++ b/GcodeProcessorLib/parsed_command.cpp
@@ -23,6 +23,7 @@
 #include "parsed_command.h"
 #include <sstream>
 #include <iomanip>
+#include <locale>
 #include <stdlib.h>
 parsed_command::parsed_command()
 {
@@ -49,6 +50,8 @@ void parsed_command::clear()
 std::string parsed_command::rewrite_gcode_string()
 {
 	std::stringstream stream;
+	// Numbers in gcode have a point and no groups, whatever the global locale is.
+	stream.imbue(std::locale::classic());
 	
 	// add command
 	stream << command;
-- 
2.43.0


From 7cf764816904ef08cd6a91565c228e6d4a5be3e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:07 +0000
Subject: [PATCH 78/78] fix: virtual destructor for firmware, which is deleted
 through its base class

---
 ArcWelderInverseProcessor/firmware.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ArcWelderInverseProcessor/firmware.h b/ArcWelderInverseProcessor/firmware.h
index c60d32c..cc774ba 100644
--- a/ArcWelderInverseProcessor/firmware.h
+++ b/ArcWelderInverseProcessor/firmware.h
@@ -435,6 +435,8 @@ public:
 
   firmware(firmware_arguments args);
 
+  virtual ~firmware() {}
+
   /// <summary>
   /// Generate G1 gcode strings separated by line breaks representing the supplied G2/G3 command.
   /// </summary>
-- 
2.43.0

