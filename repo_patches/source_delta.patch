From 6c680bc152b234ee23f9358ab7b4eaa3a4bab77c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:07 +0000
Subject: [PATCH 01/57] fix: report every station invalid on an alignment
 without points

---
 src/transmissionline/alignment.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/transmissionline/alignment.cc b/src/transmissionline/alignment.cc
index a712692..ede3d46 100644
--- a/src/transmissionline/alignment.cc
+++ b/src/transmissionline/alignment.cc
@@ -122,6 +122,11 @@ int Alignment::IndexSegment(const double& station) const {
 }
 
 bool Alignment::IsValidStation(const double& station) const {
+  // checks for an empty alignment, which doesn't contain any station
+  if (points_.empty() == true) {
+    return false;
+  }
+
   // gets the first and last alignment points
   const AlignmentPoint& point_front = points_.front();
   const AlignmentPoint& point_back = points_.back();
-- 
2.43.0


From e86974a5a472b149a554062dd99996b55a6655d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:12 +0000
Subject: [PATCH 02/57] fix: keep the vector angle below 360 degrees when it
 rounds up

---
 src/base/vector.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/base/vector.cc b/src/base/vector.cc
index 98f1061..95c8d0e 100644
--- a/src/base/vector.cc
+++ b/src/base/vector.cc
@@ -77,6 +77,11 @@ double Vector2d::Angle(const bool& is_enabled_negative_angles) const {
     }
   }
 
+  // adjusts angle if it rounded up to a full rotation
+  if (360 <= angle) {
+    angle = angle - 360;
+  }
+
   // adjusts angle if flag is true and angle is negative
   if (180 < angle && is_enabled_negative_angles == true) {
     angle = angle -360;
-- 
2.43.0


From e41c2a2adc51279790d7cf98084ed9c2bd1f3b4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:21 +0000
Subject: [PATCH 03/57] fix: give polynomial copies their own derivative and
 initialize coefficients

---
 include/models/base/polynomial.h | 11 +++++++++++
 src/base/polynomial.cc           | 13 +++++++++++++
 2 files changed, 24 insertions(+)

diff --git a/include/models/base/polynomial.h b/include/models/base/polynomial.h
index e98feae..a3fbfa6 100644
--- a/include/models/base/polynomial.h
+++ b/include/models/base/polynomial.h
@@ -27,9 +27,20 @@ class Polynomial {
   ///   A list of coefficients.
   explicit Polynomial(const std::vector<double>* coefficients);
 
+  /// \brief Copy constructor.
+  /// \param[in] polynomial
+  ///   The polynomial to copy.
+  Polynomial(const Polynomial& polynomial);
+
   /// \brief Destructor.
   ~Polynomial();
 
+  /// \brief Assigns a polynomial.
+  /// \param[in] polynomial
+  ///   The polynomial to copy.
+  /// \return This polynomial.
+  Polynomial& operator=(const Polynomial& polynomial);
+
   /// \brief Gets the derivative of the polynomial.
   /// \return A polynomial with derivative coefficients.
   Polynomial Derivative() const;
diff --git a/src/base/polynomial.cc b/src/base/polynomial.cc
index 45aecaa..d31b5ad 100644
--- a/src/base/polynomial.cc
+++ b/src/base/polynomial.cc
@@ -8,6 +8,7 @@
 #include "models/base/point.h"
 
 Polynomial::Polynomial() {
+  coefficients_ = nullptr;
   derivative_ = nullptr;
   is_updated_derivative_ = false;
 }
@@ -18,10 +19,22 @@ Polynomial::Polynomial(const std::vector<double>* coefficients) {
   is_updated_derivative_ = false;
 }
 
+/// The derivative isn't copied because it is owned by each polynomial.
+Polynomial::Polynomial(const Polynomial& polynomial) {
+  coefficients_ = polynomial.coefficients_;
+  derivative_ = nullptr;
+  is_updated_derivative_ = false;
+}
+
 Polynomial::~Polynomial() {
   delete derivative_;
 }
 
+Polynomial& Polynomial::operator=(const Polynomial& polynomial) {
+  set_coefficients(polynomial.coefficients_);
+  return *this;
+}
+
 Polynomial Polynomial::Derivative() const {
   Polynomial derivative;
 
-- 
2.43.0


From ca1d1490ffe8608ad1ea4ee14d4839edf59b9787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:31 +0000
Subject: [PATCH 04/57] fix: compare a string as less than the longer string it
 begins

---
 src/base/helper.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/base/helper.cc b/src/base/helper.cc
index 2b34627..9a1d7b0 100644
--- a/src/base/helper.cc
+++ b/src/base/helper.cc
@@ -22,6 +22,9 @@ int CompareStrings(const std::string& str1, const std::string& str2) {
   }
 
   // an end of a string is reached
+  if (str1.length() < str2.length()) {
+    return -1;
+  }
   return str1.length() > str2.length();
 }
 
-- 
2.43.0


From 6218db06a8ac5abeb3bc83c54209547a78d449a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:37 +0000
Subject: [PATCH 05/57] fix: stop the catenary solver when an iteration hits
 the target

An iteration that landed exactly on the target, or could no longer move, fell
through every bracket update, so the loop ran to its limit and a solved
catenary was reported as a failure.
---
 src/transmissionline/catenary_solver.cc | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/src/transmissionline/catenary_solver.cc b/src/transmissionline/catenary_solver.cc
index 1270204..0dd2c70 100644
--- a/src/transmissionline/catenary_solver.cc
+++ b/src/transmissionline/catenary_solver.cc
@@ -254,6 +254,13 @@ bool CatenarySolver::SolveHorizontalTensionFromLength() const {
     // gets current point y value
     point_current.y = UpdateCatenaryLength(point_current.x);
 
+    // stops if the target is matched, no further point can be solved for
+    if (point_current.y == target_solution
+        || point_current.x == point_left.x
+        || point_current.x == point_right.x) {
+      break;
+    }
+
     // updates either left or right point based on current point
     if (point_current.x < point_left.x) {
       point_right.x = point_left.x;
@@ -335,6 +342,13 @@ bool CatenarySolver::SolveHorizontalTensionFromSag() const {
     // gets current point y value
     point_current.y = UpdateCatenarySag(point_current.x, position_target_);
 
+    // stops if the target is matched, no further point can be solved for
+    if (point_current.y == target_solution
+        || point_current.x == point_left.x
+        || point_current.x == point_right.x) {
+      break;
+    }
+
     // updates either left or right point based on current point
     if (point_current.x < point_left.x) {
       point_right.x = point_left.x;
@@ -417,6 +431,13 @@ bool CatenarySolver::SolveHorizontalTensionFromTension() const {
     // gets current point y value
     point_current.y = UpdateCatenaryTension(point_current.x, position_target_);
 
+    // stops if the target is matched, no further point can be solved for
+    if (point_current.y == target_solution
+        || point_current.x == point_left.x
+        || point_current.x == point_right.x) {
+      break;
+    }
+
     // updates either left or right point based on current point
     if (point_current.x < point_left.x) {
       point_right.x = point_left.x;
-- 
2.43.0


From b28d761a2ef719ee64f528999d454d7938648ed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:38 +0000
Subject: [PATCH 06/57] fix: do not keep a catenary that fails validation as
 solved

A second request returned the invalid catenary that the first one had refused.
---
 src/transmissionline/catenary_solver.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/transmissionline/catenary_solver.cc b/src/transmissionline/catenary_solver.cc
index 0dd2c70..8b73cfc 100644
--- a/src/transmissionline/catenary_solver.cc
+++ b/src/transmissionline/catenary_solver.cc
@@ -506,6 +506,7 @@ bool CatenarySolver::Update() const {
 
   // validates catenary to make sure that H/w is valid
   if (catenary_.Validate(false, nullptr) == false) {
+    is_updated_ = false;
     return false;
   }
 
-- 
2.43.0


From b82dc0e5ce3d192f99cf32dcab977c94e57411b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:42 +0000
Subject: [PATCH 07/57] fix: solve a catenary whose bounds already match

When the least tension and the upper bound were within the tolerance the loop
was never entered and the reachable target was reported as a failure.
---
 src/transmissionline/catenary_solver.cc | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/transmissionline/catenary_solver.cc b/src/transmissionline/catenary_solver.cc
index 8b73cfc..fcd3013 100644
--- a/src/transmissionline/catenary_solver.cc
+++ b/src/transmissionline/catenary_solver.cc
@@ -237,7 +237,8 @@ bool CatenarySolver::SolveHorizontalTensionFromLength() const {
   point_right.y = UpdateCatenaryLength(point_right.x);
 
   // declares and initializes current point
-  Point2d<double> point_current;
+  // this is the solution if the left and right points already match
+  Point2d<double> point_current = point_left;
 
   // iterates
   unsigned int iter = 0;
@@ -325,7 +326,8 @@ bool CatenarySolver::SolveHorizontalTensionFromSag() const {
   point_right.y = UpdateCatenarySag(point_right.x, position_target_);
 
   // declares and initializes current point
-  Point2d<double> point_current;
+  // this is the solution if the left and right points already match
+  Point2d<double> point_current = point_left;
 
   // iterates
   unsigned int iter = 0;
@@ -414,7 +416,8 @@ bool CatenarySolver::SolveHorizontalTensionFromTension() const {
   point_right.y = UpdateCatenaryTension(point_right.x, position_target_);
 
   // declares and initializes current point
-  Point2d<double> point_current;
+  // this is the solution if the left and right points already match
+  Point2d<double> point_current = point_left;
 
   // iterates
   unsigned int iter = 0;
-- 
2.43.0


From 21fffac96dba87444ac3ad9f68ea2ff642840bac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:46 +0000
Subject: [PATCH 08/57] fix: treat line cable connections with unsuitable
 hardware as invalid

A connection with the wrong hardware type was reported in the messages but
accepted, and one to a missing attachment or without hardware crashed. A line
therefore kept cables whose terminal connection had become invalid.
---
 src/transmissionline/line_cable.cc | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/transmissionline/line_cable.cc b/src/transmissionline/line_cable.cc
index f971f74..6863c34 100644
--- a/src/transmissionline/line_cable.cc
+++ b/src/transmissionline/line_cable.cc
@@ -261,12 +261,29 @@ bool LineCable::ValidateConnections(const bool& /*is_included_warnings*/,
          iter++) {
       const LineCableConnection* connection = &(*iter);
       const LineStructure* structure = connection->line_structure;
-      const Hardware* hardware =
-          structure->hardwares()->at(connection->index_attachment);
+
+      // checks that hardware is attached to the structure
+      const Hardware* hardware = nullptr;
+      const int kSizeHardwares = structure->hardwares()->size();
+      if ((0 <= connection->index_attachment)
+          && (connection->index_attachment < kSizeHardwares)) {
+        hardware = structure->hardwares()->at(connection->index_attachment);
+      }
+
+      if (hardware == nullptr) {
+        is_valid = false;
+        message.description = "Line cable connection does not have hardware";
+        if (messages != nullptr) {
+          messages->push_back(message);
+        }
+        continue;
+      }
+
       if ((connection == &connections_.front())
           || (connection == &connections_.back())) {
         // checks for dead-end hardware at start and end connections
         if (hardware->type != Hardware::HardwareType::kDeadEnd) {
+          is_valid = false;
           message.description = "Terminal line cable connection does not have "
                                 "dead-end type hardware";
           if (messages != nullptr) {
@@ -276,6 +293,7 @@ bool LineCable::ValidateConnections(const bool& /*is_included_warnings*/,
       } else {
         // checks for suspension hardware at all middle connections
         if (hardware->type != Hardware::HardwareType::kSuspension) {
+          is_valid = false;
           message.description = "Interior line cable connection does not have "
                                 "suspension type hardware";
           if (messages != nullptr) {
-- 
2.43.0


From 6c8deed4f9964edfc3f601f2b4d7fa2402a97167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:49 +0000
Subject: [PATCH 09/57] fix: refuse to move a line structure off the alignment

The first and last structures could be modified to a station up to one unit
beyond the alignment.
---
 src/transmissionline/transmission_line.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/transmissionline/transmission_line.cc b/src/transmissionline/transmission_line.cc
index 9bda5d8..57505f1 100644
--- a/src/transmissionline/transmission_line.cc
+++ b/src/transmissionline/transmission_line.cc
@@ -308,6 +308,11 @@ bool TransmissionLine::ModifyLineStructure(const int& index,
     return false;
   }
 
+  // checks station
+  if (alignment_.IsValidStation(structure.station()) == false) {
+    return false;
+  }
+
   // gets station from back structure
   double station_back = alignment_.points()->front().station - 1;
   const LineStructure* structure_back = nullptr;
-- 
2.43.0


From c61a20fc45dc879d72ec5032ae182d1adb85df67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:51 +0000
Subject: [PATCH 10/57] fix: delete the line structures when the alignment
 loses its last point

The bounds were read from an empty list of alignment points.
---
 src/transmissionline/transmission_line.cc | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/transmissionline/transmission_line.cc b/src/transmissionline/transmission_line.cc
index 57505f1..6da4825 100644
--- a/src/transmissionline/transmission_line.cc
+++ b/src/transmissionline/transmission_line.cc
@@ -602,15 +602,11 @@ void TransmissionLine::DeleteInvalidLineCables() {
 }
 
 void TransmissionLine::DeleteInvalidLineStructures() {
-  const double station_min = alignment_.points()->front().station;
-  const double station_max = alignment_.points()->back().station;
-
   // clears line structures outside of alignment
   auto iter = line_structures_.cbegin();
   while (iter != line_structures_.cend()) {
     const LineStructure& line_structure = *iter;
-    const double station = line_structure.station();
-    if ((station < station_min) || (station_max < station)) {
+    if (alignment_.IsValidStation(line_structure.station()) == false) {
       // clears any references to the structure and deletes
       const int index = std::distance(line_structures_.cbegin(), iter);
       DeleteConnectionsFromStructure(index);
-- 
2.43.0


From 0eb9e8abf9a23ef1b05663cf3d7cd4134d4f8b27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:53 +0000
Subject: [PATCH 11/57] fix: sort line cables by structure first, then by
 attachment

A cable with an earlier starting structure was placed behind one with a later
starting structure and a smaller or equal attachment index.
---
 src/transmissionline/transmission_line.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/transmissionline/transmission_line.cc b/src/transmissionline/transmission_line.cc
index 6da4825..b323ad9 100644
--- a/src/transmissionline/transmission_line.cc
+++ b/src/transmissionline/transmission_line.cc
@@ -98,8 +98,9 @@ int TransmissionLine::AddLineCable(const LineCable& line_cable) {
     const int index_attachment_list = connection_list.index_attachment;
 
     // checks if list connection indexes are larger than new connection indexes
-    if ((index_structure <= index_structure_list)
-         && (index_attachment < index_attachment_list)) {
+    if ((index_structure < index_structure_list)
+         || ((index_structure == index_structure_list)
+             && (index_attachment < index_attachment_list))) {
       // position is found
       break;
     }
-- 
2.43.0


From 79b80f4ba681be296b71f085fb6b72d0880a1c16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:55 +0000
Subject: [PATCH 12/57] fix: copy the line cable before deleting the one it
 replaces

Modifying a line cable with a reference into the list of line cables read the
deleted cable.
---
 src/transmissionline/transmission_line.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/transmissionline/transmission_line.cc b/src/transmissionline/transmission_line.cc
index b323ad9..a0214fb 100644
--- a/src/transmissionline/transmission_line.cc
+++ b/src/transmissionline/transmission_line.cc
@@ -285,13 +285,16 @@ int TransmissionLine::ModifyLineCable(const int& index,
   auto iter = std::next(line_cables_.begin(), index);
   const LineCable line_cable_cache = *iter;
 
+  // copies the new line cable in case it references the one being deleted
+  const LineCable line_cable_new = line_cable;
+
   // deletes and then adds back
   bool status = DeleteLineCable(index);
   if (status == false) {
     return -1;
   }
 
-  const int index_new = AddLineCable(line_cable);
+  const int index_new = AddLineCable(line_cable_new);
   if (index_new == -1) {
     // adds back original line cable
     AddLineCable(line_cable_cache);
-- 
2.43.0


From 9d6cd5481e64df398ba38feb2d272dbb532bc1c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:57 +0000
Subject: [PATCH 13/57] fix: report no connection for a missing line structure

The structure index was used without being checked.
---
 src/transmissionline/transmission_line.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/transmissionline/transmission_line.cc b/src/transmissionline/transmission_line.cc
index a0214fb..edb8f62 100644
--- a/src/transmissionline/transmission_line.cc
+++ b/src/transmissionline/transmission_line.cc
@@ -203,6 +203,11 @@ bool TransmissionLine::DeleteLineStructure(const int& index) {
 
 bool TransmissionLine::HasConnection(const int& index_structure,
                                      const int& index_attachment) const {
+  // checks index
+  if (IsValidLineStructureIndex(index_structure) == false) {
+    return false;
+  }
+
   // gets line structure
   auto iter_structure = std::next(line_structures_.cbegin(), index_structure);
   const LineStructure* line_structure = &(*iter_structure);
-- 
2.43.0


From 60f3842136475e5d5c7fc9a0b43b03f8cd601ca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:00 +0000
Subject: [PATCH 14/57] fix: modify a line structure to one without a base
 structure

The missing base structure was dereferenced to count its attachments.
---
 src/transmissionline/transmission_line.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/transmissionline/transmission_line.cc b/src/transmissionline/transmission_line.cc
index edb8f62..bf80b6b 100644
--- a/src/transmissionline/transmission_line.cc
+++ b/src/transmissionline/transmission_line.cc
@@ -569,7 +569,7 @@ void TransmissionLine::DeleteInvalidConnectionsFromStructure(
   // gets line structure and attachment count
   auto iter_structure = std::next(line_structures_.cbegin(), index_structure);
   const LineStructure* line_structure = &(*iter_structure);
-  const int kSizeAttachments = line_structure->structure()->attachments.size();
+  const int kSizeAttachments = line_structure->hardwares()->size();
 
   // searches line cables
   for (auto iter_cable = line_cables_.begin();
-- 
2.43.0


From 0f6cfd87af684370f55b446796753660efd9af35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:21 +0000
Subject: [PATCH 15/57] fix: update the structure coordinates of a line that
 only changed structures

The line counted as updated when either set of coordinates was, so structure
coordinates were stale or missing after structures were added or removed.
---
 src/transmissionline/transmission_line.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/transmissionline/transmission_line.cc b/src/transmissionline/transmission_line.cc
index bf80b6b..069fedf 100644
--- a/src/transmissionline/transmission_line.cc
+++ b/src/transmissionline/transmission_line.cc
@@ -629,7 +629,7 @@ void TransmissionLine::DeleteInvalidLineStructures() {
 
 bool TransmissionLine::IsUpdated() const {
   return (is_updated_points_xyz_alignment_ == true)
-      || (is_updated_points_xyz_structures_ == true);
+      && (is_updated_points_xyz_structures_ == true);
 }
 
 bool TransmissionLine::IsValidLineCableIndex(const int& index) const {
-- 
2.43.0


From 587d3746237d607335f7fd82a8630abcd3536e22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:23 +0000
Subject: [PATCH 16/57] fix: copy the coordinates of a transmission line with
 their update status

A copy of a line counted as updated without having any coordinates.
---
 src/transmissionline/transmission_line.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/transmissionline/transmission_line.cc b/src/transmissionline/transmission_line.cc
index 069fedf..fb7aec8 100644
--- a/src/transmissionline/transmission_line.cc
+++ b/src/transmissionline/transmission_line.cc
@@ -23,6 +23,8 @@ TransmissionLine& TransmissionLine::operator=(const TransmissionLine& that) {
   this->line_cables_ = that.line_cables_;
   this->line_structures_ = that.line_structures_;
   this->origin_ = that.origin_;
+  this->points_xyz_alignment_ = that.points_xyz_alignment_;
+  this->points_xyz_structures_ = that.points_xyz_structures_;
 
   // adjusts the new line cable connections to reference the new line structures
   for (auto iter_cable = line_cables_.begin(); iter_cable != line_cables_.end();
-- 
2.43.0


From 428b9fafd44164f19b860c45b98dcf31fdcf6ce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:25 +0000
Subject: [PATCH 17/57] fix: locate stations on an alignment with a single
 point

The next alignment point was accessed although there is none.
---
 src/transmissionline/transmission_line.cc | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/transmissionline/transmission_line.cc b/src/transmissionline/transmission_line.cc
index fb7aec8..c1a71ad 100644
--- a/src/transmissionline/transmission_line.cc
+++ b/src/transmissionline/transmission_line.cc
@@ -652,19 +652,18 @@ Point3d<double> TransmissionLine::PointXyzAlignmentFromStation(
     return Point3d<double>();
   }
 
-  // gets the back and ahead xyz points
+  // gets the back xyz and alignment points
   const Point3d<double>& point_xyz_back =
       points_xyz_alignment_.at(index_segment);
-  const Point3d<double>& point_xyz_ahead =
-      points_xyz_alignment_.at(index_segment + 1);
-
-  // gets back and ahead alignment points
   const AlignmentPoint& point_align_back =
       *std::next(alignment_.points()->cbegin(), index_segment);
   if (station == point_align_back.station) {
     return point_xyz_back;
   }
 
+  // gets the ahead xyz and alignment points
+  const Point3d<double>& point_xyz_ahead =
+      points_xyz_alignment_.at(index_segment + 1);
   const AlignmentPoint& point_align_ahead =
       *std::next(alignment_.points()->cbegin(), index_segment + 1);
   if (station == point_align_ahead.station) {
@@ -811,6 +810,11 @@ Vector2d TransmissionLine::VectorXyAlignmentStructure(const int& index) const {
   const std::list<AlignmentPoint>* points = alignment_.points();
   const int index_segment = alignment_.IndexSegment(line_structure.station());
 
+  // an alignment with a single point has no segment, uses datum orientation
+  if (points->size() == 1) {
+    return Vector2d(1, 0);
+  }
+
   // checks if line structure station matches first or last alignment point
   // these are the only points where there isn't two alignment vectors to
   // average
-- 
2.43.0


From 8049b6a462f9b61de2852e480d821311dabef680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:27 +0000
Subject: [PATCH 18/57] fix: return a null attachment point without a base
 structure

The missing base structure was dereferenced.
---
 src/transmissionline/transmission_line.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/transmissionline/transmission_line.cc b/src/transmissionline/transmission_line.cc
index c1a71ad..f5168d6 100644
--- a/src/transmissionline/transmission_line.cc
+++ b/src/transmissionline/transmission_line.cc
@@ -423,6 +423,11 @@ Point3d<double> TransmissionLine::PointXyzLineStructureAttachment(
   const LineStructure& line_structure = *std::next(line_structures_.cbegin(),
                                                    index_structure);
 
+  // checks if base structure exists
+  if (line_structure.structure() == nullptr) {
+    return Point3d<double>();
+  }
+
   // checks if attachment index is valid
   const int kSizeAttachments = line_structure.structure()->attachments.size();
   if ((index_attachment < 0) || (kSizeAttachments <= index_attachment)) {
-- 
2.43.0


From d9a9f5f07a2cd595dbf0d02673e9a479dd57f39c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:16 +0000
Subject: [PATCH 19/57] fix: ThermalRatingCable::Resistance selects the table
 segment around the temperature, or the nearest one

---
 src/thermalrating/thermal_rating_cable.cc | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/src/thermalrating/thermal_rating_cable.cc b/src/thermalrating/thermal_rating_cable.cc
index 980974b..667f73e 100644
--- a/src/thermalrating/thermal_rating_cable.cc
+++ b/src/thermalrating/thermal_rating_cable.cc
@@ -84,15 +84,8 @@ double ThermalRatingCable::Resistance(const double& temperature) const {
   // searches list of points for the closest ones to target temp, starting
   // from the lowest
   while (true) {
-    // stops searching if resistance points bound the target temp
-    if ((point_low->temperature < temperature)
-         && (temperature < point_high->temperature)) {
-      break;
-    }
-
-    // stops searching if both resistance points are greater than target temp
-    if ((point_low->temperature < temperature)
-         && (point_high->temperature < temperature)) {
+    // stops searching if the target temp is not above the resistance points
+    if (temperature <= point_high->temperature) {
       break;
     }
 
-- 
2.43.0


From 6da58e1ed4e2c56b7f9b833cce28b4ff67dc961b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:07 +0000
Subject: [PATCH 20/57] fix: CableHeatTransferSolver::HeatConvection is not NaN
 for a cable that is colder than the air

---
 .../cable_heat_transfer_solver.cc              | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/thermalrating/cable_heat_transfer_solver.cc b/src/thermalrating/cable_heat_transfer_solver.cc
index a96ab1a..e0b9780 100644
--- a/src/thermalrating/cable_heat_transfer_solver.cc
+++ b/src/thermalrating/cable_heat_transfer_solver.cc
@@ -78,7 +78,7 @@ double CableHeatTransferSolver::HeatConvection(
 
   // determines which method of convection is highest and saves it
   // switches sign to indicate that heat is removed
-  if (heat_convection_natural < heat_convection_forced) {
+  if (std::abs(heat_convection_natural) < std::abs(heat_convection_forced)) {
     return -1 * heat_convection_forced;
   } else {
     return -1 * heat_convection_natural;
@@ -231,7 +231,8 @@ double CableHeatTransferSolver::HeatConvectionForced(
       * (temperature_cable - weather_->temperature_air);
 
   // returns the highest forced convection value
-  if (heat_convection_forced_1 <= heat_convection_forced_2) {
+  if (std::abs(heat_convection_forced_1)
+      <= std::abs(heat_convection_forced_2)) {
     return heat_convection_forced_2;
   } else {
     return heat_convection_forced_1;
@@ -252,7 +253,16 @@ double CableHeatTransferSolver::HeatConvectionNatural(
   }
 
   // calculates
-  return k * std::pow(density_air, 0.5)
+  const double temperature_delta =
+      temperature_cable - weather_->temperature_air;
+  const double heat_convection = k * std::pow(density_air, 0.5)
       * std::pow(*cable_->diameter(), 0.75)
-      * std::pow(temperature_cable - weather_->temperature_air, 1.25);
+      * std::pow(std::abs(temperature_delta), 1.25);
+
+  // switches sign if the cable is colder than the air
+  if (temperature_delta < 0) {
+    return -1 * heat_convection;
+  } else {
+    return heat_convection;
+  }
 }
-- 
2.43.0


From 31f9df5a53e9a67ebe3de920f74963619b2137cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:09 +0000
Subject: [PATCH 21/57] fix: SteadyCableTemperatureSolver stops at a
 temperature that is an exact solution instead of failing

---
 src/thermalrating/steady_cable_temperature_solver.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/thermalrating/steady_cable_temperature_solver.cc b/src/thermalrating/steady_cable_temperature_solver.cc
index 5ff38a7..5a7e6b9 100644
--- a/src/thermalrating/steady_cable_temperature_solver.cc
+++ b/src/thermalrating/steady_cable_temperature_solver.cc
@@ -192,6 +192,13 @@ bool SteadyCableTemperatureSolver::SolveTemperatureAndState() const {
     solver.set_temperature_cable(point_current.x);
     point_current.y = solver.Current();
 
+    // stops searching if current point is a solution
+    if ((point_current.y == target_solution)
+        || (point_current.x == point_left.x)
+        || (point_current.x == point_right.x)) {
+      break;
+    }
+
     // updates either left or right point based on current point
     if (point_current.x < point_left.x) {
       point_right.x = point_left.x;
-- 
2.43.0


From 6a1de166c21d4a565ef5ad5504cf7b4e1405b14f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:16 +0000
Subject: [PATCH 22/57] fix: SolarRadiationSolver::AzimuthSun is north at noon
 when the sun is north of the latitude

---
 src/thermalrating/solar_radiation_solver.cc | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/thermalrating/solar_radiation_solver.cc b/src/thermalrating/solar_radiation_solver.cc
index 43dc20d..e8bfa71 100644
--- a/src/thermalrating/solar_radiation_solver.cc
+++ b/src/thermalrating/solar_radiation_solver.cc
@@ -302,6 +302,18 @@ bool SolarRadiationSolver::SolveAzimuthSolar(
   const double term3 = std::cos(latitude_rad) * std::tan(declination_rad);
   const double chi = term1 / (term2 - term3);
 
+  // checks if the sun crosses the meridian, where it's either due south or, if
+  // the declination is higher than the latitude, due north
+  if (angle_hour == 0) {
+    if (term2 < term3) {
+      azimuth_sun_ = 0;
+    } else {
+      azimuth_sun_ = 180;
+    }
+
+    return true;
+  }
+
   // selects a constant
   double kC = -999999;;
   if (angle_hour < 0) {
-- 
2.43.0


From 7b37dd498b301771b0056e3359c1ba6d9feea079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:17 +0000
Subject: [PATCH 23/57] fix: SolarRadiationSolver::Radiation is zero when the
 sun is below the horizon

---
 src/thermalrating/solar_radiation_solver.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/thermalrating/solar_radiation_solver.cc b/src/thermalrating/solar_radiation_solver.cc
index e8bfa71..c35837d 100644
--- a/src/thermalrating/solar_radiation_solver.cc
+++ b/src/thermalrating/solar_radiation_solver.cc
@@ -349,6 +349,12 @@ bool SolarRadiationSolver::SolveRadiation() const {
   polynomial.set_coefficients(&coefficients_atmosphere_);
   radiation_ = polynomial.Y(altitude_sun_);
 
+  // there is no radiation if the sun is below (or barely above) the horizon
+  // the polynomial is only fitted for positive altitudes
+  if ((altitude_sun_ < 0) || (radiation_ < 0)) {
+    radiation_ = 0;
+  }
+
   // adjusts radiation based on incidence angle and elevation
   const double angle_incidence = AngleIncidence();
   const double angle_incidence_rad = units::ConvertAngle(
-- 
2.43.0


From 90ac0205ca4484670813f0d9308f3efc0337ac82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:19 +0000
Subject: [PATCH 24/57] fix: SolarRadiationSolver::AltitudeSun is not NaN when
 rounding puts the sun beyond the zenith

---
 src/thermalrating/solar_radiation_solver.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/thermalrating/solar_radiation_solver.cc b/src/thermalrating/solar_radiation_solver.cc
index c35837d..2e98c37 100644
--- a/src/thermalrating/solar_radiation_solver.cc
+++ b/src/thermalrating/solar_radiation_solver.cc
@@ -273,7 +273,7 @@ bool SolarRadiationSolver::SolveAltitudeSolar(
   const double term1 = std::cos(latitude_rad) * std::cos(declination_rad)
                        * std::cos(angle_hour_rad);
   const double term2 = std::sin(latitude_rad) * std::sin(declination_rad);
-  altitude_sun_ = std::asin(term1 + term2);
+  altitude_sun_ = std::asin(std::fmax(-1, std::fmin(term1 + term2, 1)));
 
   altitude_sun_ =
       units::ConvertAngle(altitude_sun_,
-- 
2.43.0


From f5414b7e9f3c2137bbc4e62f232c299064a97438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:40 +0000
Subject: [PATCH 25/57] fix: TransientCableTemperatureSolver does not continue
 from a steady-state temperature that failed to solve

---
 src/thermalrating/transient_cable_temperature_solver.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/thermalrating/transient_cable_temperature_solver.cc b/src/thermalrating/transient_cable_temperature_solver.cc
index 122d9de..264edfc 100644
--- a/src/thermalrating/transient_cable_temperature_solver.cc
+++ b/src/thermalrating/transient_cable_temperature_solver.cc
@@ -241,6 +241,9 @@ bool TransientCableTemperatureSolver::UpdateTemperaturePoints() const {
     if (time == 0) {
       // calculates steady-state temperature
       point.temperature = TemperatureSteady(current_steady_);
+      if (point.temperature == -999999) {
+        return false;
+      }
     } else {
       // solves for the heat transfer state
       CableHeatTransferState state = HeatTransferState(current_step_,
-- 
2.43.0


From 5debf6ccc1de2bad5ac7a10ff9284b04e8957e2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:42 +0000
Subject: [PATCH 26/57] fix: SteadyCableCurrentSolver solves again after the
 units or the weather are set

---
 src/thermalrating/steady_cable_current_solver.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/thermalrating/steady_cable_current_solver.cc b/src/thermalrating/steady_cable_current_solver.cc
index a6fb3a2..85ef28b 100644
--- a/src/thermalrating/steady_cable_current_solver.cc
+++ b/src/thermalrating/steady_cable_current_solver.cc
@@ -124,11 +124,13 @@ void SteadyCableCurrentSolver::set_temperature_cable(
 
 void SteadyCableCurrentSolver::set_units(const units::UnitSystem& units) {
   units_ = units;
+  is_updated_ = false;
 }
 
 void SteadyCableCurrentSolver::set_weather(
     const ThermalRatingWeather* weather) {
   weather_ = weather;
+  is_updated_ = false;
 }
 
 double SteadyCableCurrentSolver::temperature_cable() const {
-- 
2.43.0


From b0d6d52e57f4c732a7eac9b2d4b76bfa17c5edfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:43 +0000
Subject: [PATCH 27/57] fix: SteadyCableTemperatureSolver solves again after
 the units or the weather are set

---
 src/thermalrating/steady_cable_temperature_solver.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/thermalrating/steady_cable_temperature_solver.cc b/src/thermalrating/steady_cable_temperature_solver.cc
index 5a7e6b9..a57d296 100644
--- a/src/thermalrating/steady_cable_temperature_solver.cc
+++ b/src/thermalrating/steady_cable_temperature_solver.cc
@@ -127,11 +127,13 @@ void SteadyCableTemperatureSolver::set_current(const double& current) {
 
 void SteadyCableTemperatureSolver::set_units(const units::UnitSystem& units) {
   units_ = units;
+  is_updated_ = false;
 }
 
 void SteadyCableTemperatureSolver::set_weather(
     const ThermalRatingWeather* weather) {
   weather_ = weather;
+  is_updated_ = false;
 }
 
 units::UnitSystem SteadyCableTemperatureSolver::units() const {
-- 
2.43.0


From 62978e206c27519ee25024e27a1a4257624b466d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:44 +0000
Subject: [PATCH 28/57] fix: SteadyCableTemperatureSolver validates without a
 weather instead of crashing

---
 src/thermalrating/steady_cable_temperature_solver.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/thermalrating/steady_cable_temperature_solver.cc b/src/thermalrating/steady_cable_temperature_solver.cc
index a57d296..3b67af4 100644
--- a/src/thermalrating/steady_cable_temperature_solver.cc
+++ b/src/thermalrating/steady_cable_temperature_solver.cc
@@ -149,6 +149,11 @@ bool SteadyCableTemperatureSolver::IsUpdated() const {
 }
 
 bool SteadyCableTemperatureSolver::SolveTemperatureAndState() const {
+  // checks inputs that are needed to set up the solver
+  if ((cable_ == nullptr) || (weather_ == nullptr)) {
+    return false;
+  }
+
   // creates a steady-state cable current solver
   SteadyCableCurrentSolver solver;
   solver.set_cable(cable_);
-- 
2.43.0


From 381aee32bc4c1e2b400121aa4154023d233ca7e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:49:15 +0000
Subject: [PATCH 29/57] fix: reject a structure with an invalid attachment

---
 src/transmissionline/structure.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/transmissionline/structure.cc b/src/transmissionline/structure.cc
index c94a8d3..2978f08 100644
--- a/src/transmissionline/structure.cc
+++ b/src/transmissionline/structure.cc
@@ -59,7 +59,9 @@ bool Structure::Validate(
   } else {
     for (auto iter = attachments.cbegin(); iter != attachments.cend(); iter++) {
       const StructureAttachment& attachment = *iter;
-      attachment.Validate(is_included_warnings, messages);
+      if (attachment.Validate(is_included_warnings, messages) == false) {
+        is_valid = false;
+      }
     }
   }
 
-- 
2.43.0


From b5578fe49edf77a3e6db3bb0c9f5eab95671decd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:49:15 +0000
Subject: [PATCH 30/57] fix: reject a stretch state with an invalid cable state

---
 src/sagtension/cable_state.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/sagtension/cable_state.cc b/src/sagtension/cable_state.cc
index 5d274b3..faad420 100644
--- a/src/sagtension/cable_state.cc
+++ b/src/sagtension/cable_state.cc
@@ -54,7 +54,9 @@ bool CableStretchState::Validate(const bool& is_included_warnings,
   message.title = "CABLE STRETCH STATE";
 
   // validates parent struct
-  CableState::Validate(is_included_warnings, messages);
+  if (CableState::Validate(is_included_warnings, messages) == false) {
+    is_valid = false;
+  }
 
   // validates load
   if (load < 0) {
-- 
2.43.0


From ec2351a0a8a7ddaaf1cc872af99ab10a2fe51374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:49:15 +0000
Subject: [PATCH 31/57] fix: reject a line cable with invalid connections

---
 src/transmissionline/line_cable.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/transmissionline/line_cable.cc b/src/transmissionline/line_cable.cc
index 6863c34..ca3ffd7 100644
--- a/src/transmissionline/line_cable.cc
+++ b/src/transmissionline/line_cable.cc
@@ -235,7 +235,9 @@ bool LineCable::Validate(const bool& is_included_warnings,
   }
 
   // validates connections
-  ValidateConnections(is_included_warnings, messages);
+  if (ValidateConnections(is_included_warnings, messages) == false) {
+    is_valid = false;
+  }
 
   // returns validation status
   return is_valid;
-- 
2.43.0


From fc3604bbdcffb2242f2c33d9537966b28f7af0fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:49:15 +0000
Subject: [PATCH 32/57] fix: CableAttachmentEquilibriumSolver validates without
 catenaries instead of crashing

---
 src/transmissionline/cable_attachment_equilibrium_solver.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/transmissionline/cable_attachment_equilibrium_solver.cc b/src/transmissionline/cable_attachment_equilibrium_solver.cc
index 73296df..ac528e5 100644
--- a/src/transmissionline/cable_attachment_equilibrium_solver.cc
+++ b/src/transmissionline/cable_attachment_equilibrium_solver.cc
@@ -98,6 +98,11 @@ bool CableAttachmentEquilibriumSolver::Validate(
     }
   }
 
+  // returns if errors are present
+  if (is_valid == false) {
+    return is_valid;
+  }
+
   // validates update process
   if (Update() == false) {
     is_valid = false;
-- 
2.43.0


From 1d2dfc0d745837590811a03f163aaeddc7db60d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:49:15 +0000
Subject: [PATCH 33/57] fix: CablePositionLocator validates without a line or
 its line cable instead of crashing

---
 src/transmissionline/cable_position_locator.cc | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/transmissionline/cable_position_locator.cc b/src/transmissionline/cable_position_locator.cc
index 55d387b..185cbf8 100644
--- a/src/transmissionline/cable_position_locator.cc
+++ b/src/transmissionline/cable_position_locator.cc
@@ -129,6 +129,15 @@ bool CablePositionLocator::Validate(const bool& is_included_warnings,
     if (line_->Validate(is_included_warnings, messages) == false) {
       is_valid = false;
     }
+
+    const int kSizeLineCables = line_->line_cables()->size();
+    if (kSizeLineCables <= index_cable_) {
+      is_valid = false;
+      if (messages != nullptr) {
+        message.description = "Invalid line cable index";
+        messages->push_back(message);
+      }
+    }
   }
 
   // validates tension-horizontal
@@ -174,6 +183,11 @@ bool CablePositionLocator::Validate(const bool& is_included_warnings,
     }
   }
 
+  // returns if errors are present
+  if (is_valid == false) {
+    return is_valid;
+  }
+
   // validates update process
   if (Update() == false) {
     is_valid = false;
-- 
2.43.0


From 36754ed245ba92c5766ba9c52f801c1b1b5bd5f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:49:15 +0000
Subject: [PATCH 34/57] fix: CableSagPositionCorrector validates without its
 parts instead of crashing

---
 src/sagging/cable_sag_position_corrector.cc | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/sagging/cable_sag_position_corrector.cc b/src/sagging/cable_sag_position_corrector.cc
index 3c1894e..f8f4bab 100644
--- a/src/sagging/cable_sag_position_corrector.cc
+++ b/src/sagging/cable_sag_position_corrector.cc
@@ -135,9 +135,18 @@ bool CableSagPositionCorrector::Validate(
   } else {
     if (points_attachment_->size() <= 1) {
       is_valid = false;
+      if (messages != nullptr) {
+        message.description = "Not enough attachment points";
+        messages->push_back(message);
+      }
     }
   }
 
+  // returns if errors are present
+  if (is_valid == false) {
+    return is_valid;
+  }
+
   // validates update process
   if (Update() == false) {
     is_valid = false;
-- 
2.43.0


From b265431c9281e31bebe1878f75dea6f98a8864f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:49:15 +0000
Subject: [PATCH 35/57] fix: CableStrainer validates without elongation models
 instead of crashing

---
 src/sagtension/cable_strainer.cc | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/sagtension/cable_strainer.cc b/src/sagtension/cable_strainer.cc
index e00f55b..3bf4ba6 100644
--- a/src/sagtension/cable_strainer.cc
+++ b/src/sagtension/cable_strainer.cc
@@ -75,6 +75,24 @@ bool CableStrainer::Validate(const bool& is_included_warnings,
     }
   }
 
+  // validates model-elongation-start
+  if (model_elongation_start_ == nullptr) {
+    is_valid = false;
+    if (messages != nullptr) {
+      message.description = "Invalid start elongation model";
+      messages->push_back(message);
+    }
+  }
+
+  // validates model-elongation-finish
+  if (model_elongation_finish_ == nullptr) {
+    is_valid = false;
+    if (messages != nullptr) {
+      message.description = "Invalid finish elongation model";
+      messages->push_back(message);
+    }
+  }
+
   // returns if errors are present
   if (is_valid == false) {
     return is_valid;
-- 
2.43.0


From 89a4760a411bc2499854e325fed9838243c4f3a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:49:15 +0000
Subject: [PATCH 36/57] fix: LineCableSagger validates without design
 constraints instead of crashing

---
 src/sagtension/line_cable_sagger.cc | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/sagtension/line_cable_sagger.cc b/src/sagtension/line_cable_sagger.cc
index 3d721ec..68150b9 100644
--- a/src/sagtension/line_cable_sagger.cc
+++ b/src/sagtension/line_cable_sagger.cc
@@ -96,11 +96,20 @@ bool LineCableSagger::Validate(const bool& is_included_warnings,
   message.title = "LINE CABLE SAGGER";
 
   // validates constraints-design
-  for (auto iter = constraints_design_->cbegin();
-       iter != constraints_design_->cend(); iter++) {
-    const CableConstraint& constraint = *iter;
-    if (constraint.Validate(is_included_warnings, messages) == false) {
-      is_valid = false;
+  if ((constraints_design_ == nullptr)
+      || (constraints_design_->empty() == true)) {
+    is_valid = false;
+    if (messages != nullptr) {
+      message.description = "Invalid design constraints";
+      messages->push_back(message);
+    }
+  } else {
+    for (auto iter = constraints_design_->cbegin();
+         iter != constraints_design_->cend(); iter++) {
+      const CableConstraint& constraint = *iter;
+      if (constraint.Validate(is_included_warnings, messages) == false) {
+        is_valid = false;
+      }
     }
   }
 
-- 
2.43.0


From bd403def2d99fa677140414ece78221261947639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:49:15 +0000
Subject: [PATCH 37/57] fix: LineCableLoaderBase explains every failed update

---
 src/sagtension/line_cable_loader_base.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/sagtension/line_cable_loader_base.cc b/src/sagtension/line_cable_loader_base.cc
index 27b718e..8b79ae2 100644
--- a/src/sagtension/line_cable_loader_base.cc
+++ b/src/sagtension/line_cable_loader_base.cc
@@ -82,6 +82,8 @@ bool LineCableLoaderBase::Validate(
       } else if (is_updated_stretch_ == false) {
         message.description = "Error updating class. Could not solve for "
                               "creep or load based stretch.";
+      } else {
+        message.description = "Error updating class.";
       }
       messages->push_back(message);
     }
-- 
2.43.0


From 0fef068c5db411199345501bf62ffc65030cf8a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:49:15 +0000
Subject: [PATCH 38/57] fix: LineCableReloader validates without a weathercase
 instead of crashing

---
 src/sagtension/line_cable_reloader.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/sagtension/line_cable_reloader.cc b/src/sagtension/line_cable_reloader.cc
index 3ca7d06..b703fdf 100644
--- a/src/sagtension/line_cable_reloader.cc
+++ b/src/sagtension/line_cable_reloader.cc
@@ -201,6 +201,11 @@ bool LineCableReloader::Update() const {
 }
 
 bool LineCableReloader::UpdateReloadedCableModel() const {
+  // checks for a reloaded weathercase
+  if (weathercase_reloaded_ == nullptr) {
+    return false;
+  }
+
   // builds cable states based on reloaded weathercase and stretch
   CableState state;
   state.temperature = weathercase_reloaded_->temperature_cable;
-- 
2.43.0


From e6e0e11652a928a80b531fcafc9953f561f28adc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:49:15 +0000
Subject: [PATCH 39/57] fix: CatenaryCableUnloader accepts a null catenary
 instead of crashing

---
 src/sagtension/catenary_cable_unloader.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/sagtension/catenary_cable_unloader.cc b/src/sagtension/catenary_cable_unloader.cc
index 4a5b564..6cfb557 100644
--- a/src/sagtension/catenary_cable_unloader.cc
+++ b/src/sagtension/catenary_cable_unloader.cc
@@ -60,6 +60,10 @@ const CableElongationModel* CatenaryCableUnloader::model_unloaded() const {
 void CatenaryCableUnloader::set_catenary(const Catenary3d* catenary) {
   catenary_ = catenary;
 
+  if (catenary_ == nullptr) {
+    return;
+  }
+
   strainer_.set_length_start(catenary_->Length());
   strainer_.set_load_start(catenary_->TensionAverage());
 }
-- 
2.43.0


From 328c48d68341cd6a1d7e52037e539e57e6e2c049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:49:15 +0000
Subject: [PATCH 40/57] fix: SagTensionCableComponent starts disabled

---
 src/sagtension/sag_tension_cable.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/sagtension/sag_tension_cable.cc b/src/sagtension/sag_tension_cable.cc
index cbb84b0..92e3fe6 100644
--- a/src/sagtension/sag_tension_cable.cc
+++ b/src/sagtension/sag_tension_cable.cc
@@ -5,6 +5,7 @@
 
 SagTensionCableComponent::SagTensionCableComponent() {
   component_base_ = nullptr;
+  is_enabled_ = false;
 }
 
 SagTensionCableComponent::~SagTensionCableComponent() {
-- 
2.43.0


From f5312f0ecb66550999cfb30b9eeb2ac1e8757e33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:55:38 +0000
Subject: [PATCH 41/57] fix: CableComponentElongationModel transfers the
 stretch again after the state is set

---
 src/sagtension/cable_component_elongation_model.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/sagtension/cable_component_elongation_model.cc b/src/sagtension/cable_component_elongation_model.cc
index ab4ff25..6eac6ed 100644
--- a/src/sagtension/cable_component_elongation_model.cc
+++ b/src/sagtension/cable_component_elongation_model.cc
@@ -218,6 +218,7 @@ void CableComponentElongationModel::set_component_cable(
 void CableComponentElongationModel::set_state(const CableState* state) {
   state_ = state;
 
+  is_updated_stretch_ = false;
   is_updated_state_ = false;
 }
 
-- 
2.43.0


From 9ade890cf7a6276d048ba65c72526ca1e94aa8d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:55:40 +0000
Subject: [PATCH 42/57] fix: CableElongationModel keeps the component stretch
 when it is validated

---
 src/sagtension/cable_elongation_model.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/sagtension/cable_elongation_model.cc b/src/sagtension/cable_elongation_model.cc
index de4ba5d..c7cc3b5 100644
--- a/src/sagtension/cable_elongation_model.cc
+++ b/src/sagtension/cable_elongation_model.cc
@@ -611,7 +611,7 @@ bool CableElongationModel::ValidateComponentsStrainUnloaded(
 
   // determines if this check is necessary, both core and shell must be enabled
   if ((cable_->IsEnabled(SagTensionCable::ComponentType::kCore) == false)
-      || (cable_->IsEnabled(SagTensionCable::ComponentType::kCore) == false)) {
+      || (cable_->IsEnabled(SagTensionCable::ComponentType::kShell) == false)) {
     return is_valid;
   }
 
@@ -657,10 +657,10 @@ bool CableElongationModel::ValidateComponentsStrainUnloaded(
 
   // restores component states
   model_core_.set_state(&state_);
-  model_core_.set_state_stretch(&state_stretch_);
+  model_core_.set_state_stretch(&state_stretch_core_);
 
   model_shell_.set_state(&state_);
-  model_shell_.set_state_stretch(&state_stretch_);
+  model_shell_.set_state_stretch(&state_stretch_shell_);
 
   return is_valid;
 }
-- 
2.43.0


From 2a797f6a950daeefe1ef2cb357484041ccba5d46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:55:50 +0000
Subject: [PATCH 43/57] fix: copies of CableElongationModel do not refer to the
 states of the original

---
 .../sagtension/cable_elongation_model.h       | 11 ++++++++++
 src/sagtension/cable_elongation_model.cc      | 21 +++++++++++++++++++
 2 files changed, 32 insertions(+)

diff --git a/include/models/sagtension/cable_elongation_model.h b/include/models/sagtension/cable_elongation_model.h
index 364af76..46bdf5c 100644
--- a/include/models/sagtension/cable_elongation_model.h
+++ b/include/models/sagtension/cable_elongation_model.h
@@ -73,9 +73,20 @@ class CableElongationModel {
   /// \brief Default constructor.
   CableElongationModel();
 
+  /// \brief Copy constructor.
+  /// \param[in] model
+  ///   The model to copy.
+  CableElongationModel(const CableElongationModel& model);
+
   /// \brief Destructor.
   ~CableElongationModel();
 
+  /// \brief Copy assignment operator.
+  /// \param[in] model
+  ///   The model to copy.
+  /// \return A reference to this model.
+  CableElongationModel& operator=(const CableElongationModel& model);
+
   /// \brief Gets the load.
   /// \param[in] type_component
   ///   The model component type.
diff --git a/src/sagtension/cable_elongation_model.cc b/src/sagtension/cable_elongation_model.cc
index c7cc3b5..00e1847 100644
--- a/src/sagtension/cable_elongation_model.cc
+++ b/src/sagtension/cable_elongation_model.cc
@@ -31,9 +31,30 @@ CableElongationModel::CableElongationModel() {
   is_updated_stretch_ = false;
 }
 
+CableElongationModel::CableElongationModel(const CableElongationModel& model) {
+  *this = model;
+}
+
 CableElongationModel::~CableElongationModel() {
 }
 
+/// The component models refer to the states that are owned by this class. They
+/// are updated again so that they do not refer to the states of the copied
+/// model.
+CableElongationModel& CableElongationModel::operator=(
+    const CableElongationModel& model) {
+  cable_ = model.cable_;
+  model_core_ = model.model_core_;
+  model_shell_ = model.model_shell_;
+  state_ = model.state_;
+  state_stretch_ = model.state_stretch_;
+
+  is_updated_state_ = false;
+  is_updated_stretch_ = false;
+
+  return *this;
+}
+
 double CableElongationModel::Load(
     const CableElongationModel::ComponentType& type_component,
     const double& strain) const {
-- 
2.43.0


From b710a71fbbcd8eb62562cc9bea43e77e3f082a97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:55:52 +0000
Subject: [PATCH 44/57] fix: copies of LineCableLoaderBase do not refer to the
 cable of the original

---
 include/models/sagtension/line_cable_loader_base.h | 11 +++++++++++
 src/sagtension/line_cable_loader_base.cc           | 14 ++++++++++++++
 2 files changed, 25 insertions(+)

diff --git a/include/models/sagtension/line_cable_loader_base.h b/include/models/sagtension/line_cable_loader_base.h
index fb03abc..396d6be 100644
--- a/include/models/sagtension/line_cable_loader_base.h
+++ b/include/models/sagtension/line_cable_loader_base.h
@@ -35,9 +35,20 @@ class LineCableLoaderBase {
   /// \brief Default constructor.
   LineCableLoaderBase();
 
+  /// \brief Copy constructor.
+  /// \param[in] loader
+  ///   The loader to copy.
+  LineCableLoaderBase(const LineCableLoaderBase& loader);
+
   /// \brief Destructor.
   ~LineCableLoaderBase();
 
+  /// \brief Copy assignment operator.
+  /// \param[in] loader
+  ///   The loader to copy.
+  /// \return A reference to this loader.
+  LineCableLoaderBase& operator=(const LineCableLoaderBase& loader);
+
   /// \brief Gets the stretch state for the creep condition.
   /// \return The stretch state for the creep condition.
   CableStretchState StretchStateCreep() const;
diff --git a/src/sagtension/line_cable_loader_base.cc b/src/sagtension/line_cable_loader_base.cc
index 8b79ae2..8af56da 100644
--- a/src/sagtension/line_cable_loader_base.cc
+++ b/src/sagtension/line_cable_loader_base.cc
@@ -15,9 +15,23 @@ LineCableLoaderBase::LineCableLoaderBase() {
   is_updated_stretch_ = false;
 }
 
+LineCableLoaderBase::LineCableLoaderBase(const LineCableLoaderBase& loader) {
+  *this = loader;
+}
+
 LineCableLoaderBase::~LineCableLoaderBase() {
 }
 
+/// The cable models refer to the sag-tension cable that is owned by this class.
+/// They are updated again so that they do not refer to the cable of the copied
+/// loader.
+LineCableLoaderBase& LineCableLoaderBase::operator=(
+    const LineCableLoaderBase& loader) {
+  set_line_cable(loader.line_cable_);
+
+  return *this;
+}
+
 CableStretchState LineCableLoaderBase::StretchStateCreep() const {
   // updates class if necessary
   if ((IsUpdated() == false) && (Update() == false)) {
-- 
2.43.0


From 727ab4d1032b5f77430228cc78af42fb6dd21b58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:12:44 +0000
Subject: [PATCH 45/57] fix: CableComponentElongationModel scales the load when
 it solves for the polynomial strain

---
 src/sagtension/cable_component_elongation_model.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/sagtension/cable_component_elongation_model.cc b/src/sagtension/cable_component_elongation_model.cc
index 6eac6ed..97aa114 100644
--- a/src/sagtension/cable_component_elongation_model.cc
+++ b/src/sagtension/cable_component_elongation_model.cc
@@ -521,9 +521,12 @@ double CableComponentElongationModel::StrainPolynomial(
     const Polynomial& polynomial,
     const double& strain_thermal,
     const double& load) const {
+  // applies scaling to convert load to polynomial load
+  const double load_polynomial = load / *component_->scale_polynomial_y();
+
   // gets strain from polynomial
   const double strain_polynomial = polynomial.X(
-      load,  // target value
+      load_polynomial,  // target value
       2,     // precision
       0.1);  // initial guess
 
-- 
2.43.0


From 35bc8d8afa428d4836d22edac1e4230704eab8a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:13:12 +0000
Subject: [PATCH 46/57] fix: CableComponentElongationModel stretches beyond the
 polynomial limit on the extrapolated line

---
 .../cable_component_elongation_model.h        |  3 +++
 .../cable_component_elongation_model.cc       | 20 ++++++++++++++++---
 2 files changed, 20 insertions(+), 3 deletions(-)

diff --git a/include/models/sagtension/cable_component_elongation_model.h b/include/models/sagtension/cable_component_elongation_model.h
index 74c0bd2..cef346a 100644
--- a/include/models/sagtension/cable_component_elongation_model.h
+++ b/include/models/sagtension/cable_component_elongation_model.h
@@ -243,6 +243,8 @@ class CableComponentElongationModel {
   ///   The polynomial limit.
   /// \param[in] load_stretch
   ///   The stretch load.
+  /// \param[in] modulus_extrapolate
+  ///   The modulus that extrapolates beyond the polynomial limit.
   /// \param[out] points
   ///   The points vector to populate. The points will be ordered as follows:
   ///     - unloaded
@@ -252,6 +254,7 @@ class CableComponentElongationModel {
                      const double& temperature,
                      const double& load_limit_polynomial,
                      const double& load_stretch,
+                     const double& modulus_extrapolate,
                      std::vector<Point2d<double>>* points) const;
 
   /// \brief Gets the slope for the specified parameters.
diff --git a/src/sagtension/cable_component_elongation_model.cc b/src/sagtension/cable_component_elongation_model.cc
index 97aa114..53af8e2 100644
--- a/src/sagtension/cable_component_elongation_model.cc
+++ b/src/sagtension/cable_component_elongation_model.cc
@@ -353,6 +353,7 @@ void CableComponentElongationModel::PointsRegions(
     const double& temperature,
     const double& load_limit_polynomial,
     const double& load_stretch,
+    const double& modulus_extrapolate,
     std::vector<Point2d<double>>* points) const {
   // initializes vector
   points->clear();
@@ -367,10 +368,17 @@ void CableComponentElongationModel::PointsRegions(
                                             point_polynomial_end.y);
 
   // solves for the polynomial start point
+  // if stretched beyond the polynomial limit, the point is extrapolated
   Point2d<double> point_polynomial_start;
   point_polynomial_start.y = load_stretch;
-  point_polynomial_start.x = StrainPolynomial(polynomial, strain_thermal,
-                                              point_polynomial_start.y);
+  if (point_polynomial_start.y <= point_polynomial_end.y) {
+    point_polynomial_start.x = StrainPolynomial(polynomial, strain_thermal,
+                                                point_polynomial_start.y);
+  } else {
+    point_polynomial_start.x = StrainLinearExtension(point_polynomial_end,
+                                                     modulus_extrapolate,
+                                                     point_polynomial_start.y);
+  }
 
   // solves for unloaded point
   Point2d<double> point_unloaded;
@@ -615,14 +623,17 @@ bool CableComponentElongationModel::UpdateState(const CableState& state) const {
   // updates strain-thermal
   strain_thermal_state_ = StrainThermal(state.temperature);
 
-  // updates state polynomial pointer
+  // updates state polynomial and extrapolation modulus pointers
   const Polynomial* polynomial = nullptr;
+  const double* modulus_extrapolate = nullptr;
   if (state_->type_polynomial ==
       SagTensionCableComponent::PolynomialType::kCreep) {
     polynomial = &polynomial_creep_;
+    modulus_extrapolate = &modulus_extrapolate_creep_;
   } else if (state_->type_polynomial ==
       SagTensionCableComponent::PolynomialType::kLoadStrain) {
     polynomial = &polynomial_loadstrain_;
+    modulus_extrapolate = &modulus_extrapolate_loadstrain_;
   }
 
   // updates points
@@ -630,6 +641,7 @@ bool CableComponentElongationModel::UpdateState(const CableState& state) const {
                 state.temperature,
                 *component_->load_limit_polynomial(state.type_polynomial),
                 load_stretch_,
+                *modulus_extrapolate,
                 &points_state_);
 
   return true;
@@ -669,6 +681,7 @@ bool CableComponentElongationModel::UpdateStretch() const {
                 state_stretch_->temperature,
                 *component_->load_limit_polynomial(type),
                 0,
+                modulus_extrapolate_creep_,
                 &points_stretch_creep_);
 
   type = SagTensionCableComponent::PolynomialType::kLoadStrain;
@@ -676,6 +689,7 @@ bool CableComponentElongationModel::UpdateStretch() const {
                 state_stretch_->temperature,
                 *component_->load_limit_polynomial(type),
                 0,
+                modulus_extrapolate_loadstrain_,
                 &points_stretch_load_);
 
   // creates an interface for the model the stretch is being transferred from
-- 
2.43.0


From 80ab0f067999bd3ecc9820a8cf4d813108da5950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:21:54 +0000
Subject: [PATCH 47/57] fix: CableComponentElongationModel validates the
 polynomial shape up to the limit

---
 .../cable_component_elongation_model.cc          | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/sagtension/cable_component_elongation_model.cc b/src/sagtension/cable_component_elongation_model.cc
index 53af8e2..795e217 100644
--- a/src/sagtension/cable_component_elongation_model.cc
+++ b/src/sagtension/cable_component_elongation_model.cc
@@ -888,12 +888,14 @@ bool CableComponentElongationModel::ValidatePolynomialShape(
 
   // searches creep polynomial for validation errors
   strain_polynomial_min = StrainPolynomial(polynomial_creep_, 0, 0);
-  strain_polynomial_max = *component_->load_limit_polynomial(
-      SagTensionCableComponent::PolynomialType::kCreep);
+  strain_polynomial_max = StrainPolynomial(
+      polynomial_creep_, 0,
+      *component_->load_limit_polynomial(
+          SagTensionCableComponent::PolynomialType::kCreep));
 
   for (int iter = 0; iter < 50; iter++) {
     // calculates evenly spaced strain values from minimum to maximum values
-    const double strain = strain_polynomial_min + ((iter / 50)
+    const double strain = strain_polynomial_min + ((iter / 50.0)
                           * (strain_polynomial_max - strain_polynomial_min));
 
     // calculates slope at strain point
@@ -926,12 +928,14 @@ bool CableComponentElongationModel::ValidatePolynomialShape(
 
   // searches load-strain polynomial for validation errors
   strain_polynomial_min = StrainPolynomial(polynomial_loadstrain_, 0, 0);
-  strain_polynomial_max = *component_->load_limit_polynomial(
-      SagTensionCableComponent::PolynomialType::kLoadStrain);
+  strain_polynomial_max = StrainPolynomial(
+      polynomial_loadstrain_, 0,
+      *component_->load_limit_polynomial(
+          SagTensionCableComponent::PolynomialType::kLoadStrain));
 
   for (int iter = 0; iter < 50; iter++) {
     // calculates evenly spaced strain values from minimum to maximum values
-    const double strain = strain_polynomial_min + ((iter / 50)
+    const double strain = strain_polynomial_min + ((iter / 50.0)
                           * (strain_polynomial_max - strain_polynomial_min));
 
     // calculates slope at strain point
-- 
2.43.0


From 541c856048a3549c47a511e95d3d1deca6141ee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:23:31 +0000
Subject: [PATCH 48/57] fix: CableElongationModel solves for the strain of a
 compressed cable

---
 src/sagtension/cable_elongation_model.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/sagtension/cable_elongation_model.cc b/src/sagtension/cable_elongation_model.cc
index 00e1847..d203efe 100644
--- a/src/sagtension/cable_elongation_model.cc
+++ b/src/sagtension/cable_elongation_model.cc
@@ -314,9 +314,12 @@ double CableElongationModel::StrainCombined(
   if (load <= point_regions_min.y) {
     // determines if core and/or shell can be compressed
     bool is_compressible_core =
-        cable_->component_core()->modulus_compression_elastic_area() == 0;
+        (cable_->IsEnabled(SagTensionCable::ComponentType::kCore) == true)
+        && (*cable_->component_core()->modulus_compression_elastic_area() != 0);
     bool is_compressible_shell =
-        cable_->component_shell()->modulus_compression_elastic_area() == 0;
+        (cable_->IsEnabled(SagTensionCable::ComponentType::kShell) == true)
+        && (*cable_->component_shell()->modulus_compression_elastic_area()
+            != 0);
 
     if ((is_compressible_core == false) && (is_compressible_shell == false)) {
       // cable has no compressive ability, returns minimum value
-- 
2.43.0


From cfeb1fd98e248b13ad3f25845c513e623fb6774e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:23:33 +0000
Subject: [PATCH 49/57] fix: CableElongationModel does not stretch a component
 that is compressed

---
 src/sagtension/cable_elongation_model.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/sagtension/cable_elongation_model.cc b/src/sagtension/cable_elongation_model.cc
index d203efe..a9c21a7 100644
--- a/src/sagtension/cable_elongation_model.cc
+++ b/src/sagtension/cable_elongation_model.cc
@@ -503,13 +503,14 @@ bool CableElongationModel::UpdateComponentsStretch() const {
   point_stretch.x = StrainCombined(point_stretch.y);
 
   // updates component stretch loads
+  // a component that is compressed at the stretch point is not stretched
   if (cable_->IsEnabled(SagTensionCable::ComponentType::kCore) == true) {
-    state_stretch_core_.load = LoadCore(point_stretch.x);
+    state_stretch_core_.load = std::max(LoadCore(point_stretch.x), 0.0);
     model_core_.set_state_stretch(&state_stretch_core_);
   }
 
   if (cable_->IsEnabled(SagTensionCable::ComponentType::kShell) == true) {
-    state_stretch_shell_.load = LoadShell(point_stretch.x);
+    state_stretch_shell_.load = std::max(LoadShell(point_stretch.x), 0.0);
     model_shell_.set_state_stretch(&state_stretch_shell_);
   }
 
-- 
2.43.0


From 8e7f19e4e4356c8966aea6ab871faba3086599d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:23:34 +0000
Subject: [PATCH 50/57] fix: CableElongationModel validates the strain limit on
 the polynomial it is checked with

---
 src/sagtension/cable_elongation_model.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sagtension/cable_elongation_model.cc b/src/sagtension/cable_elongation_model.cc
index a9c21a7..55f3a98 100644
--- a/src/sagtension/cable_elongation_model.cc
+++ b/src/sagtension/cable_elongation_model.cc
@@ -582,7 +582,7 @@ bool CableElongationModel::ValidateComponentsStrainLimit(
     // gets polynomial limit for core
     const double strain_limit_polynomial_core = StrainCore(
         *model_core_.component_cable()->load_limit_polynomial(
-            state_.type_polynomial));
+            state.type_polynomial));
 
     // compares against max strain
     // if component limit is less that rated strength strain, generates error
@@ -601,7 +601,7 @@ bool CableElongationModel::ValidateComponentsStrainLimit(
     // gets polynomial limit for shell
     const double strain_limit_polynomial_shell = StrainShell(
         *model_shell_.component_cable()->load_limit_polynomial(
-            state_.type_polynomial));
+            state.type_polynomial));
 
     // compares against max strain
     // if component limit is less that rated strength strain, generates error
-- 
2.43.0


From 4a8034e0e076e7a851da7f5fea3dc940627262a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:47:54 +0000
Subject: [PATCH 51/57] fix: CableSagPositionCorrector corrects spans in every
 horizontal direction

---
 src/sagging/cable_sag_position_corrector.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/sagging/cable_sag_position_corrector.cc b/src/sagging/cable_sag_position_corrector.cc
index f8f4bab..fe8e3d5 100644
--- a/src/sagging/cable_sag_position_corrector.cc
+++ b/src/sagging/cable_sag_position_corrector.cc
@@ -277,9 +277,13 @@ bool CableSagPositionCorrector::UpdateClippedState() const {
     const Point3d<double>& point_back = (*points_attachment_)[i];
     const Point3d<double>& point_ahead = (*points_attachment_)[i + 1];
 
+    // the catenary x-axis is in the direction of the span
+    const Vector2d spacing_horizontal(point_ahead.x - point_back.x,
+                                      point_ahead.y - point_back.y);
+
     Vector3d spacing_endpoints;
-    spacing_endpoints.set_x(point_ahead.x - point_back.x);
-    spacing_endpoints.set_y(point_ahead.y - point_back.y);
+    spacing_endpoints.set_x(spacing_horizontal.Magnitude());
+    spacing_endpoints.set_y(0);
     spacing_endpoints.set_z(point_ahead.z - point_back.z);
 
     // updates catenary for span
-- 
2.43.0


From 6fa7bf2d7a530695c10c8670780318027f72c067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:49:07 +0000
Subject: [PATCH 52/57] fix: LineCableSagger updates the sag or length that a
 line cable is constrained by

---
 src/sagtension/line_cable_sagger.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/sagtension/line_cable_sagger.cc b/src/sagtension/line_cable_sagger.cc
index 68150b9..5fbdcf3 100644
--- a/src/sagtension/line_cable_sagger.cc
+++ b/src/sagtension/line_cable_sagger.cc
@@ -286,6 +286,10 @@ bool LineCableSagger::UpdateLineCableConstraintLimit() const {
   } else if (constraint.type_limit
       == CableConstraint::LimitType::kSupportTension) {
     constraint.limit = catenary.TensionMax();
+  } else if (constraint.type_limit == CableConstraint::LimitType::kSag) {
+    constraint.limit = catenary.Sag();
+  } else if (constraint.type_limit == CableConstraint::LimitType::kLength) {
+    constraint.limit = catenary.Length();
   }
   line_cable_->set_constraint(constraint);
 
-- 
2.43.0


From 90083d6270d91432b738233a45f60b8ab880d814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:13:57 +0000
Subject: [PATCH 53/57] fix: CablePositionLocator returns no points for a span
 past the last one

---
 src/transmissionline/cable_position_locator.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/transmissionline/cable_position_locator.cc b/src/transmissionline/cable_position_locator.cc
index 185cbf8..c3324d9 100644
--- a/src/transmissionline/cable_position_locator.cc
+++ b/src/transmissionline/cable_position_locator.cc
@@ -33,7 +33,7 @@ std::list<Point3d<double>> CablePositionLocator::PointsCable(
   }
 
   // determines if span index is valid
-  if ((index_span < 0) || (size_connections_ - 1 < index_span)) {
+  if ((index_span < 0) || (size_connections_ - 1 <= index_span)) {
     return points;
   }
 
-- 
2.43.0


From 726ed284ad20e5ce7c2cd9bc81a50f183fcd18e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:13:59 +0000
Subject: [PATCH 54/57] fix: CablePositionLocator checks the line cable index
 before it is used

---
 src/transmissionline/cable_position_locator.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/transmissionline/cable_position_locator.cc b/src/transmissionline/cable_position_locator.cc
index c3324d9..1f39474 100644
--- a/src/transmissionline/cable_position_locator.cc
+++ b/src/transmissionline/cable_position_locator.cc
@@ -296,6 +296,11 @@ bool CablePositionLocator::InitializeConnectionData() const {
 bool CablePositionLocator::InitializeContainers() const {
   // gets the line cable
   const std::list<LineCable>* line_cables = line_->line_cables();
+  const int kSizeLineCables = line_cables->size();
+  if ((index_cable_ < 0) || (kSizeLineCables <= index_cable_)) {
+    return false;
+  }
+
   const LineCable& line_cable = *std::next(line_cables->cbegin(), index_cable_);
 
   // caches the number of connections
-- 
2.43.0


From 559debd232f8b365d89b1d394baa97026dac654e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:14:19 +0000
Subject: [PATCH 55/57] fix: CablePositionLocator balances hardware on the side
 the line turns to, for every heading

---
 .../cable_position_locator.cc                 | 78 +++++++++++--------
 1 file changed, 44 insertions(+), 34 deletions(-)

diff --git a/src/transmissionline/cable_position_locator.cc b/src/transmissionline/cable_position_locator.cc
index 1f39474..1c85984 100644
--- a/src/transmissionline/cable_position_locator.cc
+++ b/src/transmissionline/cable_position_locator.cc
@@ -8,6 +8,29 @@
 #include "models/base/units.h"
 #include "models/transmissionline/cable_attachment_equilibrium_solver.h"
 
+namespace {
+
+/// \brief Gets the angle on the left side of the line, from the ahead point to
+///   the back point.
+/// \param[in] back
+///   The back point.
+/// \param[in] current
+///   The current point.
+/// \param[in] ahead
+///   The ahead point.
+/// \return The angle, in degrees. It is less than 180 if the line turns left,
+///   and more if the line turns right.
+double AngleLeft(const Point3d<double>& back, const Point3d<double>& current,
+                 const Point3d<double>& ahead) {
+  const Vector2d vector_back(back.x - current.x, back.y - current.y);
+  const Vector2d vector_ahead(ahead.x - current.x, ahead.y - current.y);
+
+  const double angle = vector_back.Angle() - vector_ahead.Angle();
+  return (angle < 0) ? angle + 360 : angle;
+}
+
+}  // namespace
+
 CablePositionLocator::CablePositionLocator() {
   direction_wind_ = AxisDirectionType::kNull;
   index_cable_ = -9999;
@@ -339,21 +362,17 @@ bool CablePositionLocator::InitializePointsHardware() const {
     const Point3d<double>& point_current = points_structure_[index];
     const Point3d<double>& point_ahead = points_structure_[index + 1];
 
-    // creates unit vectors from current point to back and ahead points
-    // adds the unit vectors together to get the bisect orientation
-    Vector2d vector_back;
-    vector_back.set_x(point_back.x - point_current.x);
-    vector_back.set_y(point_back.y - point_current.y);
-    vector_back.Scale(1 / vector_back.Magnitude());
+    // solves for the bisect orientation of the back and ahead points
+    const double angle_left = AngleLeft(point_back, point_current, point_ahead);
 
-    Vector2d vector_ahead;
-    vector_ahead.set_x(point_ahead.x - point_current.x);
-    vector_ahead.set_y(point_ahead.y - point_current.y);
-    vector_ahead.Scale(1 / vector_ahead.Magnitude());
-
-    Vector2d vector_combined;
-    vector_combined.set_x(vector_back.x() + vector_ahead.x());
-    vector_combined.set_y(vector_back.y() + vector_ahead.y());
+    Vector2d vector_bisect;
+    vector_bisect.set_x(point_ahead.x - point_current.x);
+    vector_bisect.set_y(point_ahead.y - point_current.y);
+    if (angle_left <= 180) {
+      vector_bisect.Rotate(angle_left / 2);
+    } else {
+      vector_bisect.Rotate((angle_left - 360) / 2);
+    }
 
     // gets the hardware assembly at the connection
     const Hardware* hardware = hardwares_[index];
@@ -362,7 +381,7 @@ bool CablePositionLocator::InitializePointsHardware() const {
     // vertical plane
     SphericalPoint3d<double> point;
     point.radius = hardware->length;
-    point.angle_x = vector_combined.Angle();
+    point.angle_x = vector_bisect.Angle();
     point.angle_z = 180;
 
     points_hardware_[index] = point;
@@ -504,31 +523,22 @@ double CablePositionLocator::UpdatePointsHardware() const {
 
     catenary_ahead.set_spacing_endpoints(spacing);
 
-    // creates unit vectors from current point to back and ahead points
-    // finds the difference between the angles
-    Vector2d vector_back;
-    vector_back.set_x(point_back.x - point_current.x);
-    vector_back.set_y(point_back.y - point_current.y);
-    const double angle_back = vector_back.Angle();
-
-    Vector2d vector_ahead;
-    vector_ahead.set_x(point_ahead.x - point_current.x);
-    vector_ahead.set_y(point_ahead.y - point_current.y);
-    vector_ahead.Scale(1 / vector_ahead.Magnitude());
-    const double angle_ahead = vector_ahead.Angle();
-
-    const double angle_catenaries = std::abs(angle_ahead - angle_back);
-
-    // determines the direction of the line angle
+    // determines the direction of the line angle, which is the side of the line
+    // that the hardware points are oriented to
     AxisDirectionType direction_line_angle;
-    vector_back.Rotate(180);
-    const double angle_diff_xy = std::abs(angle_ahead - angle_back);
-    if (angle_diff_xy <= 180) {
+    if (AngleLeft(points_structure_[index - 1], points_structure_[index],
+                  points_structure_[index + 1]) <= 180) {
       direction_line_angle = AxisDirectionType::kPositive;
     } else {
       direction_line_angle = AxisDirectionType::kNegative;
     }
 
+    // finds the angle between the catenaries, on that side of the line
+    double angle_catenaries = AngleLeft(point_back, point_current, point_ahead);
+    if (direction_line_angle == AxisDirectionType::kNegative) {
+      angle_catenaries = 360 - angle_catenaries;
+    }
+
     // gets the hardware point
     SphericalPoint3d<double>& point_hardware = points_hardware_[index];
 
-- 
2.43.0


From dc673f185bfc9ef61ff527bca7d118db254bb9c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:22:18 +0000
Subject: [PATCH 56/57] fix: CableAttachmentEquilibriumSolver balances forces
 in the plane the hardware swings in

---
 src/transmissionline/cable_attachment_equilibrium_solver.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/transmissionline/cable_attachment_equilibrium_solver.cc b/src/transmissionline/cable_attachment_equilibrium_solver.cc
index ac528e5..abad1cc 100644
--- a/src/transmissionline/cable_attachment_equilibrium_solver.cc
+++ b/src/transmissionline/cable_attachment_equilibrium_solver.cc
@@ -207,6 +207,10 @@ bool CableAttachmentEquilibriumSolver::Update() const {
   tension_cable_.set_y(tension_cable_.y() + tension.y());
   tension_cable_.set_z(tension_cable_.z() + tension.z());
 
+  // the hardware swings in the y-z plane, so it can't balance any longitudinal
+  // force that remains when the blown out spans differ
+  tension_cable_.set_x(0);
+
   // solves hardware tension vector by projecting cable tension vector onto
   // hardware angle unit vector, and then rotating to oppose cable vector
   const double tension_cable = tension_cable_.Magnitude();
-- 
2.43.0


From b689850b225fc68175c5fc02523b133694fd27ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:45:26 +0000
Subject: [PATCH 57/57] fix: CatenaryCableReloader solves for a tension that it
 meets exactly

---
 src/sagtension/catenary_cable_reloader.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/sagtension/catenary_cable_reloader.cc b/src/sagtension/catenary_cable_reloader.cc
index f90455f..105c4e7 100644
--- a/src/sagtension/catenary_cable_reloader.cc
+++ b/src/sagtension/catenary_cable_reloader.cc
@@ -284,6 +284,13 @@ bool CatenaryCableReloader::SolveReloadedCatenaryTension() const {
     // gets current point length difference
     point_current.y = LengthDifference(point_current.x);
 
+    // stops searching if current point is a solution
+    if ((point_current.y == target_solution)
+        || (point_current.x == point_left.x)
+        || (point_current.x == point_right.x)) {
+      break;
+    }
+
     // current point is left of left/right points
     if (point_current.x < point_left.x) {
       point_right.x = point_left.x;
-- 
2.43.0

