From 375948822a21aeeb8efd5c3b2822844fb7ad09eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:21 +0000
Subject: [PATCH 01/75] fix: order a string before any longer string it
 prefixes

---
 src/base/helper.cc | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/base/helper.cc b/src/base/helper.cc
index 2b34627..14bea6f 100644
--- a/src/base/helper.cc
+++ b/src/base/helper.cc
@@ -13,16 +13,24 @@ int CompareStrings(const std::string& str1, const std::string& str2) {
   // if a difference is found, it will return immediately
   unsigned int i = 0;
   while (i < str1.length() && i < str2.length()) {
-    if (tolower(str1[i]) < tolower(str2[i])) {
+    const int char1 = tolower(static_cast<unsigned char>(str1[i]));
+    const int char2 = tolower(static_cast<unsigned char>(str2[i]));
+    if (char1 < char2) {
       return -1;
-    } else if (tolower(str1[i]) > tolower(str2[i])) {
+    } else if (char1 > char2) {
       return 1;
     }
     ++i;
   }
 
-  // an end of a string is reached
-  return str1.length() > str2.length();
+  // an end of a string is reached, the shorter string is less
+  if (str1.length() < str2.length()) {
+    return -1;
+  } else if (str1.length() > str2.length()) {
+    return 1;
+  } else {
+    return 0;
+  }
 }
 
 std::string DoubleToString(const double& value,
-- 
2.43.0


From 91015ad210228342ce914773cc2f38205d78f4d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:21 +0000
Subject: [PATCH 02/75] fix: keep the vector angle below 360 degrees when
 rounding closes the circle

---
 src/base/vector.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/base/vector.cc b/src/base/vector.cc
index 98f1061..42e7b4d 100644
--- a/src/base/vector.cc
+++ b/src/base/vector.cc
@@ -73,6 +73,11 @@ double Vector2d::Angle(const bool& is_enabled_negative_angles) const {
         angle = 360 - units::ConvertAngle(
             std::abs(std::atan(y_ / x_)),
             units::AngleConversionType::kRadiansToDegrees);
+
+        // rounding can close the circle for a vector just below the axis
+        if (360 <= angle) {
+          angle = 0;
+        }
       }
     }
   }
-- 
2.43.0


From 542533e211e1b8b1d079dd343e15e2c49e07bca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:44 +0000
Subject: [PATCH 03/75] fix: give Polynomial copies their own derivative
 instead of sharing the owned pointer

---
 include/models/base/polynomial.h | 13 +++++++++++++
 src/base/polynomial.cc           | 23 +++++++++++++++++++++--
 2 files changed, 34 insertions(+), 2 deletions(-)

diff --git a/include/models/base/polynomial.h b/include/models/base/polynomial.h
index e98feae..8939150 100644
--- a/include/models/base/polynomial.h
+++ b/include/models/base/polynomial.h
@@ -27,6 +27,19 @@ class Polynomial {
   ///   A list of coefficients.
   explicit Polynomial(const std::vector<double>* coefficients);
 
+  /// \brief Copy constructor.
+  /// \param[in] that
+  ///   The polynomial to copy from.
+  /// This is needed because the derivative is owned by the class.
+  Polynomial(const Polynomial& that);
+
+  /// \brief Copy assignment operator.
+  /// \param[in] that
+  ///   The polynomial to copy from.
+  /// \return A reference to the polynomial.
+  /// This is needed because the derivative is owned by the class.
+  Polynomial& operator=(const Polynomial& that);
+
   /// \brief Destructor.
   ~Polynomial();
 
diff --git a/src/base/polynomial.cc b/src/base/polynomial.cc
index 45aecaa..18ce4a5 100644
--- a/src/base/polynomial.cc
+++ b/src/base/polynomial.cc
@@ -8,6 +8,7 @@
 #include "models/base/point.h"
 
 Polynomial::Polynomial() {
+  coefficients_ = nullptr;
   derivative_ = nullptr;
   is_updated_derivative_ = false;
 }
@@ -18,6 +19,22 @@ Polynomial::Polynomial(const std::vector<double>* coefficients) {
   is_updated_derivative_ = false;
 }
 
+Polynomial::Polynomial(const Polynomial& that) {
+  // the derivative is owned, so the copy solves its own when it needs it
+  coefficients_ = that.coefficients_;
+  derivative_ = nullptr;
+
+  is_updated_derivative_ = false;
+}
+
+Polynomial& Polynomial::operator=(const Polynomial& that) {
+  coefficients_ = that.coefficients_;
+
+  is_updated_derivative_ = false;
+
+  return *this;
+}
+
 Polynomial::~Polynomial() {
   delete derivative_;
 }
@@ -71,8 +88,10 @@ bool Polynomial::Validate(const bool& /*is_included_warnings*/,
   // validates update process
   is_valid = Update();
   if (is_valid == false) {
-    message.description = "Error solving derivative coefficients";
-    messages->push_back(message);
+    if (messages != nullptr) {
+      message.description = "Error solving derivative coefficients";
+      messages->push_back(message);
+    }
   }
 
   return is_valid;
-- 
2.43.0


From cc7e5f40170f0945cbb54a11f33418be32dddd9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:44 +0000
Subject: [PATCH 04/75] fix: recompute line structure points after a structure
 edit

---
 src/transmissionline/transmission_line.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/transmissionline/transmission_line.cc b/src/transmissionline/transmission_line.cc
index 9bda5d8..b57febe 100644
--- a/src/transmissionline/transmission_line.cc
+++ b/src/transmissionline/transmission_line.cc
@@ -619,7 +619,7 @@ void TransmissionLine::DeleteInvalidLineStructures() {
 
 bool TransmissionLine::IsUpdated() const {
   return (is_updated_points_xyz_alignment_ == true)
-      || (is_updated_points_xyz_structures_ == true);
+      && (is_updated_points_xyz_structures_ == true);
 }
 
 bool TransmissionLine::IsValidLineCableIndex(const int& index) const {
-- 
2.43.0


From 6eb315387f8a50155f1f66ec34fda22418a5f465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:44 +0000
Subject: [PATCH 05/75] fix: let a copied transmission line solve its own
 cached points

---
 src/transmissionline/transmission_line.cc | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/transmissionline/transmission_line.cc b/src/transmissionline/transmission_line.cc
index b57febe..13532d3 100644
--- a/src/transmissionline/transmission_line.cc
+++ b/src/transmissionline/transmission_line.cc
@@ -16,10 +16,8 @@ TransmissionLine::TransmissionLine(const TransmissionLine& that) {
 TransmissionLine& TransmissionLine::operator=(const TransmissionLine& that) {
   // transfers members as-is
   this->alignment_ = that.alignment_;
-  this->is_updated_points_xyz_alignment_ =
-      that.is_updated_points_xyz_alignment_;
-  this->is_updated_points_xyz_structures_ =
-      that.is_updated_points_xyz_structures_;
+  this->is_updated_points_xyz_alignment_ = false;
+  this->is_updated_points_xyz_structures_ = false;
   this->line_cables_ = that.line_cables_;
   this->line_structures_ = that.line_structures_;
   this->origin_ = that.origin_;
-- 
2.43.0


From 32c1757355020b4643b56aa9d2c65dd49bb5689a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:44 +0000
Subject: [PATCH 06/75] fix: sort line cables by starting structure and then
 attachment

---
 src/transmissionline/transmission_line.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/transmissionline/transmission_line.cc b/src/transmissionline/transmission_line.cc
index 13532d3..15bfefa 100644
--- a/src/transmissionline/transmission_line.cc
+++ b/src/transmissionline/transmission_line.cc
@@ -96,8 +96,9 @@ int TransmissionLine::AddLineCable(const LineCable& line_cable) {
     const int index_attachment_list = connection_list.index_attachment;
 
     // checks if list connection indexes are larger than new connection indexes
-    if ((index_structure <= index_structure_list)
-         && (index_attachment < index_attachment_list)) {
+    if ((index_structure < index_structure_list)
+         || ((index_structure == index_structure_list)
+             && (index_attachment < index_attachment_list))) {
       // position is found
       break;
     }
-- 
2.43.0


From 7a495a7042c58ee32a51227c729ffc904f696ba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:44 +0000
Subject: [PATCH 07/75] fix: reject a modified line structure that is beyond
 the alignment

---
 src/transmissionline/transmission_line.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/transmissionline/transmission_line.cc b/src/transmissionline/transmission_line.cc
index 15bfefa..335bc4e 100644
--- a/src/transmissionline/transmission_line.cc
+++ b/src/transmissionline/transmission_line.cc
@@ -307,6 +307,11 @@ bool TransmissionLine::ModifyLineStructure(const int& index,
     return false;
   }
 
+  // checks station
+  if (alignment_.IsValidStation(structure.station()) == false) {
+    return false;
+  }
+
   // gets station from back structure
   double station_back = alignment_.points()->front().station - 1;
   const LineStructure* structure_back = nullptr;
-- 
2.43.0


From 0484b633a671311d710d3a047c797c3ed7d7d41f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:59 +0000
Subject: [PATCH 08/75] fix: handle an alignment without any points

---
 src/transmissionline/alignment.cc         | 5 +++++
 src/transmissionline/transmission_line.cc | 5 +----
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/transmissionline/alignment.cc b/src/transmissionline/alignment.cc
index a712692..d8f0e80 100644
--- a/src/transmissionline/alignment.cc
+++ b/src/transmissionline/alignment.cc
@@ -122,6 +122,11 @@ int Alignment::IndexSegment(const double& station) const {
 }
 
 bool Alignment::IsValidStation(const double& station) const {
+  // no station is valid without any points
+  if (points_.empty() == true) {
+    return false;
+  }
+
   // gets the first and last alignment points
   const AlignmentPoint& point_front = points_.front();
   const AlignmentPoint& point_back = points_.back();
diff --git a/src/transmissionline/transmission_line.cc b/src/transmissionline/transmission_line.cc
index 335bc4e..37c59cd 100644
--- a/src/transmissionline/transmission_line.cc
+++ b/src/transmissionline/transmission_line.cc
@@ -601,15 +601,12 @@ void TransmissionLine::DeleteInvalidLineCables() {
 }
 
 void TransmissionLine::DeleteInvalidLineStructures() {
-  const double station_min = alignment_.points()->front().station;
-  const double station_max = alignment_.points()->back().station;
-
   // clears line structures outside of alignment
   auto iter = line_structures_.cbegin();
   while (iter != line_structures_.cend()) {
     const LineStructure& line_structure = *iter;
     const double station = line_structure.station();
-    if ((station < station_min) || (station_max < station)) {
+    if (alignment_.IsValidStation(station) == false) {
       // clears any references to the structure and deletes
       const int index = std::distance(line_structures_.cbegin(), iter);
       DeleteConnectionsFromStructure(index);
-- 
2.43.0


From a12938fd8cc12fb66f8b2d09882f45b5e82e4bdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:59 +0000
Subject: [PATCH 09/75] fix: locate structures on an alignment with a single
 point

---
 src/transmissionline/transmission_line.cc | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/transmissionline/transmission_line.cc b/src/transmissionline/transmission_line.cc
index 37c59cd..e95da5a 100644
--- a/src/transmissionline/transmission_line.cc
+++ b/src/transmissionline/transmission_line.cc
@@ -641,6 +641,11 @@ Point3d<double> TransmissionLine::PointXyzAlignmentFromStation(
     return Point3d<double>();
   }
 
+  // checks for an alignment that doesn't have a segment
+  if (points_xyz_alignment_.size() == 1) {
+    return points_xyz_alignment_.front();
+  }
+
   // gets the back and ahead xyz points
   const Point3d<double>& point_xyz_back =
       points_xyz_alignment_.at(index_segment);
@@ -798,6 +803,12 @@ Vector2d TransmissionLine::VectorXyAlignmentStructure(const int& index) const {
 
   // gets alignment data
   const std::list<AlignmentPoint>* points = alignment_.points();
+
+  // checks for an alignment that doesn't have a segment
+  if (points->size() == 1) {
+    return Vector2d(1, 0);
+  }
+
   const int index_segment = alignment_.IndexSegment(line_structure.station());
 
   // checks if line structure station matches first or last alignment point
-- 
2.43.0


From e28523ed40edad492be2facd94fddbfb2cb2cef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:41 +0000
Subject: [PATCH 10/75] fix: treat a line cable connection without its required
 hardware as invalid

---
 src/transmissionline/line_cable.cc | 26 +++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/src/transmissionline/line_cable.cc b/src/transmissionline/line_cable.cc
index f971f74..cc8caaf 100644
--- a/src/transmissionline/line_cable.cc
+++ b/src/transmissionline/line_cable.cc
@@ -235,7 +235,9 @@ bool LineCable::Validate(const bool& is_included_warnings,
   }
 
   // validates connections
-  ValidateConnections(is_included_warnings, messages);
+  if (ValidateConnections(is_included_warnings, messages) == false) {
+    is_valid = false;
+  }
 
   // returns validation status
   return is_valid;
@@ -261,12 +263,29 @@ bool LineCable::ValidateConnections(const bool& /*is_included_warnings*/,
          iter++) {
       const LineCableConnection* connection = &(*iter);
       const LineStructure* structure = connection->line_structure;
-      const Hardware* hardware =
-          structure->hardwares()->at(connection->index_attachment);
+
+      // checks for hardware at the attachment
+      const int kSizeHardwares = structure->hardwares()->size();
+      const Hardware* hardware = nullptr;
+      if ((0 <= connection->index_attachment)
+          && (connection->index_attachment < kSizeHardwares)) {
+        hardware = structure->hardwares()->at(connection->index_attachment);
+      }
+
+      if (hardware == nullptr) {
+        is_valid = false;
+        message.description = "Line cable connection does not have hardware";
+        if (messages != nullptr) {
+          messages->push_back(message);
+        }
+        continue;
+      }
+
       if ((connection == &connections_.front())
           || (connection == &connections_.back())) {
         // checks for dead-end hardware at start and end connections
         if (hardware->type != Hardware::HardwareType::kDeadEnd) {
+          is_valid = false;
           message.description = "Terminal line cable connection does not have "
                                 "dead-end type hardware";
           if (messages != nullptr) {
@@ -276,6 +295,7 @@ bool LineCable::ValidateConnections(const bool& /*is_included_warnings*/,
       } else {
         // checks for suspension hardware at all middle connections
         if (hardware->type != Hardware::HardwareType::kSuspension) {
+          is_valid = false;
           message.description = "Interior line cable connection does not have "
                                 "suspension type hardware";
           if (messages != nullptr) {
-- 
2.43.0


From 569b20b09b7da9356638443c22d946185e4dfe3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:41 +0000
Subject: [PATCH 11/75] fix: handle structure indexes and line structures that
 reference nothing

---
 src/transmissionline/transmission_line.cc | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/transmissionline/transmission_line.cc b/src/transmissionline/transmission_line.cc
index e95da5a..c3700f5 100644
--- a/src/transmissionline/transmission_line.cc
+++ b/src/transmissionline/transmission_line.cc
@@ -201,6 +201,11 @@ bool TransmissionLine::DeleteLineStructure(const int& index) {
 
 bool TransmissionLine::HasConnection(const int& index_structure,
                                      const int& index_attachment) const {
+  // checks if index is valid
+  if (IsValidLineStructureIndex(index_structure) == false) {
+    return false;
+  }
+
   // gets line structure
   auto iter_structure = std::next(line_structures_.cbegin(), index_structure);
   const LineStructure* line_structure = &(*iter_structure);
@@ -411,6 +416,11 @@ Point3d<double> TransmissionLine::PointXyzLineStructureAttachment(
   const LineStructure& line_structure = *std::next(line_structures_.cbegin(),
                                                    index_structure);
 
+  // checks if structure is defined
+  if (line_structure.structure() == nullptr) {
+    return Point3d<double>();
+  }
+
   // checks if attachment index is valid
   const int kSizeAttachments = line_structure.structure()->attachments.size();
   if ((index_attachment < 0) || (kSizeAttachments <= index_attachment)) {
@@ -559,7 +569,10 @@ void TransmissionLine::DeleteInvalidConnectionsFromStructure(
   // gets line structure and attachment count
   auto iter_structure = std::next(line_structures_.cbegin(), index_structure);
   const LineStructure* line_structure = &(*iter_structure);
-  const int kSizeAttachments = line_structure->structure()->attachments.size();
+  int size_attachments = 0;
+  if (line_structure->structure() != nullptr) {
+    size_attachments = line_structure->structure()->attachments.size();
+  }
 
   // searches line cables
   for (auto iter_cable = line_cables_.begin();
@@ -573,7 +586,7 @@ void TransmissionLine::DeleteInvalidConnectionsFromStructure(
     while (iter_connection != connections->cend()) {
       const LineCableConnection& connection = *iter_connection;
       if ((connection.line_structure == line_structure)
-          && (kSizeAttachments <= connection.index_attachment)) {
+          && (size_attachments <= connection.index_attachment)) {
         // connection is invalid, deletes from line cable
         int index_connection = std::distance(connections->cbegin(),
                                              iter_connection);
-- 
2.43.0


From 44b5ab0d0107fc933a37fda13551008fe5ec0d3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:41 +0000
Subject: [PATCH 12/75] fix: reject a cable span index past the last span

---
 src/transmissionline/cable_position_locator.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/transmissionline/cable_position_locator.cc b/src/transmissionline/cable_position_locator.cc
index 55d387b..69a306e 100644
--- a/src/transmissionline/cable_position_locator.cc
+++ b/src/transmissionline/cable_position_locator.cc
@@ -33,7 +33,7 @@ std::list<Point3d<double>> CablePositionLocator::PointsCable(
   }
 
   // determines if span index is valid
-  if ((index_span < 0) || (size_connections_ - 1 < index_span)) {
+  if ((index_span < 0) || (size_connections_ - 1 <= index_span)) {
     return points;
   }
 
-- 
2.43.0


From 845ca84b918b3db97e2bc407f7227ca42b4db740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:41 +0000
Subject: [PATCH 13/75] fix: stop validating cable positions at the first unset
 input

---
 .../cable_attachment_equilibrium_solver.cc             |  5 +++++
 src/transmissionline/cable_position_locator.cc         | 10 ++++++++++
 2 files changed, 15 insertions(+)

diff --git a/src/transmissionline/cable_attachment_equilibrium_solver.cc b/src/transmissionline/cable_attachment_equilibrium_solver.cc
index 73296df..ac528e5 100644
--- a/src/transmissionline/cable_attachment_equilibrium_solver.cc
+++ b/src/transmissionline/cable_attachment_equilibrium_solver.cc
@@ -98,6 +98,11 @@ bool CableAttachmentEquilibriumSolver::Validate(
     }
   }
 
+  // returns if errors are present
+  if (is_valid == false) {
+    return is_valid;
+  }
+
   // validates update process
   if (Update() == false) {
     is_valid = false;
diff --git a/src/transmissionline/cable_position_locator.cc b/src/transmissionline/cable_position_locator.cc
index 69a306e..cb8f0da 100644
--- a/src/transmissionline/cable_position_locator.cc
+++ b/src/transmissionline/cable_position_locator.cc
@@ -174,6 +174,11 @@ bool CablePositionLocator::Validate(const bool& is_included_warnings,
     }
   }
 
+  // returns if errors are present
+  if (is_valid == false) {
+    return is_valid;
+  }
+
   // validates update process
   if (Update() == false) {
     is_valid = false;
@@ -282,6 +287,11 @@ bool CablePositionLocator::InitializeConnectionData() const {
 bool CablePositionLocator::InitializeContainers() const {
   // gets the line cable
   const std::list<LineCable>* line_cables = line_->line_cables();
+  const int kSizeLineCables = line_cables->size();
+  if ((index_cable_ < 0) || (kSizeLineCables <= index_cable_)) {
+    return false;
+  }
+
   const LineCable& line_cable = *std::next(line_cables->cbegin(), index_cable_);
 
   // caches the number of connections
-- 
2.43.0


From 90d025e229696d09ea61fe12fa315ad16dd012ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:53 +0000
Subject: [PATCH 14/75] fix: swing suspension hardware to the same side for any
 line heading or turn direction

---
 .../cable_position_locator.cc                 | 35 ++++++++++++++-----
 1 file changed, 27 insertions(+), 8 deletions(-)

diff --git a/src/transmissionline/cable_position_locator.cc b/src/transmissionline/cable_position_locator.cc
index cb8f0da..d070336 100644
--- a/src/transmissionline/cable_position_locator.cc
+++ b/src/transmissionline/cable_position_locator.cc
@@ -346,6 +346,17 @@ bool CablePositionLocator::InitializePointsHardware() const {
     vector_combined.set_x(vector_back.x() + vector_ahead.x());
     vector_combined.set_y(vector_back.y() + vector_ahead.y());
 
+    // gets the transverse vector, which has the same orientation as the bisect
+    // but is still defined when the back and ahead points are in line
+    Vector2d vector_transverse;
+    vector_transverse.set_x(-1 * (vector_ahead.y() - vector_back.y()));
+    vector_transverse.set_y(vector_ahead.x() - vector_back.x());
+
+    if ((vector_combined.x() * vector_transverse.x())
+        + (vector_combined.y() * vector_transverse.y()) < 0) {
+      vector_transverse.Scale(-1);
+    }
+
     // gets the hardware assembly at the connection
     const Hardware* hardware = hardwares_[index];
 
@@ -353,7 +364,7 @@ bool CablePositionLocator::InitializePointsHardware() const {
     // vertical plane
     SphericalPoint3d<double> point;
     point.radius = hardware->length;
-    point.angle_x = vector_combined.Angle();
+    point.angle_x = vector_transverse.Angle();
     point.angle_z = 180;
 
     points_hardware_[index] = point;
@@ -508,20 +519,28 @@ double CablePositionLocator::UpdatePointsHardware() const {
     vector_ahead.Scale(1 / vector_ahead.Magnitude());
     const double angle_ahead = vector_ahead.Angle();
 
-    const double angle_catenaries = std::abs(angle_ahead - angle_back);
+    // gets the hardware point
+    SphericalPoint3d<double>& point_hardware = points_hardware_[index];
 
-    // determines the direction of the line angle
+    // determines which side of the line the hardware is oriented to
+    // the angle between the catenaries is measured through that side
     AxisDirectionType direction_line_angle;
-    vector_back.Rotate(180);
-    const double angle_diff_xy = std::abs(angle_ahead - angle_back);
-    if (angle_diff_xy <= 180) {
+    double angle_catenaries = -999999;
+    vector_back.Scale(1 / vector_back.Magnitude());
+    Vector2d vector_line(vector_ahead.x() - vector_back.x(),
+                         vector_ahead.y() - vector_back.y());
+    vector_line.Rotate(-1 * point_hardware.angle_x);
+    if (vector_line.y() <= 0) {
       direction_line_angle = AxisDirectionType::kPositive;
+      angle_catenaries = angle_back - angle_ahead;
     } else {
       direction_line_angle = AxisDirectionType::kNegative;
+      angle_catenaries = angle_ahead - angle_back;
     }
 
-    // gets the hardware point
-    SphericalPoint3d<double>& point_hardware = points_hardware_[index];
+    if (angle_catenaries < 0) {
+      angle_catenaries = angle_catenaries + 360;
+    }
 
     // updates the equilibrium solver
     solver_equilibrium.set_angle_catenaries(angle_catenaries);
-- 
2.43.0


From 0660682f422198a5059e3ea089cf9a3d7c0b7f63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:55 +0000
Subject: [PATCH 15/75] fix: report the same failure every time a solved
 catenary is invalid

The solver kept its updated flag when the final validation failed, so the
second read returned the invalid catenary as if it were a solution.
---
 src/transmissionline/catenary_solver.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/transmissionline/catenary_solver.cc b/src/transmissionline/catenary_solver.cc
index 1270204..ae3fc53 100644
--- a/src/transmissionline/catenary_solver.cc
+++ b/src/transmissionline/catenary_solver.cc
@@ -485,6 +485,7 @@ bool CatenarySolver::Update() const {
 
   // validates catenary to make sure that H/w is valid
   if (catenary_.Validate(false, nullptr) == false) {
+    is_updated_ = false;
     return false;
   }
 
-- 
2.43.0


From 2c5afb176aa6baccaca8f5fac1d581d76d35e4c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:55 +0000
Subject: [PATCH 16/75] fix: accept a catenary solution when only one side of
 the bracket converges

The iteration required the left and right points to meet. A target between the
first two points moves only one of them, and a point that hits the target
exactly moves neither, so solvable catenaries were reported as unsolvable.
---
 src/transmissionline/catenary_solver.cc | 27 +++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/src/transmissionline/catenary_solver.cc b/src/transmissionline/catenary_solver.cc
index ae3fc53..df25e83 100644
--- a/src/transmissionline/catenary_solver.cc
+++ b/src/transmissionline/catenary_solver.cc
@@ -238,6 +238,7 @@ bool CatenarySolver::SolveHorizontalTensionFromLength() const {
 
   // declares and initializes current point
   Point2d<double> point_current;
+  double x_previous = -999999;
 
   // iterates
   unsigned int iter = 0;
@@ -254,6 +255,14 @@ bool CatenarySolver::SolveHorizontalTensionFromLength() const {
     // gets current point y value
     point_current.y = UpdateCatenaryLength(point_current.x);
 
+    // stops if the current point has converged
+    // an exact hit, or a target that stays within the first bracket, does not
+    // bring both the left and the right point to the solution
+    if (std::abs(point_current.x - x_previous) <= 0.01) {
+      break;
+    }
+    x_previous = point_current.x;
+
     // updates either left or right point based on current point
     if (point_current.x < point_left.x) {
       point_right.x = point_left.x;
@@ -319,6 +328,7 @@ bool CatenarySolver::SolveHorizontalTensionFromSag() const {
 
   // declares and initializes current point
   Point2d<double> point_current;
+  double x_previous = -999999;
 
   // iterates
   unsigned int iter = 0;
@@ -335,6 +345,14 @@ bool CatenarySolver::SolveHorizontalTensionFromSag() const {
     // gets current point y value
     point_current.y = UpdateCatenarySag(point_current.x, position_target_);
 
+    // stops if the current point has converged
+    // an exact hit, or a target that stays within the first bracket, does not
+    // bring both the left and the right point to the solution
+    if (std::abs(point_current.x - x_previous) <= 0.01) {
+      break;
+    }
+    x_previous = point_current.x;
+
     // updates either left or right point based on current point
     if (point_current.x < point_left.x) {
       point_right.x = point_left.x;
@@ -401,6 +419,7 @@ bool CatenarySolver::SolveHorizontalTensionFromTension() const {
 
   // declares and initializes current point
   Point2d<double> point_current;
+  double x_previous = -999999;
 
   // iterates
   unsigned int iter = 0;
@@ -417,6 +436,14 @@ bool CatenarySolver::SolveHorizontalTensionFromTension() const {
     // gets current point y value
     point_current.y = UpdateCatenaryTension(point_current.x, position_target_);
 
+    // stops if the current point has converged
+    // an exact hit, or a target that stays within the first bracket, does not
+    // bring both the left and the right point to the solution
+    if (std::abs(point_current.x - x_previous) <= 0.01) {
+      break;
+    }
+    x_previous = point_current.x;
+
     // updates either left or right point based on current point
     if (point_current.x < point_left.x) {
       point_right.x = point_left.x;
-- 
2.43.0


From 037c5bf6d9fedb9271c1927399a57a9ecf966b23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:21 +0000
Subject: [PATCH 17/75] fix: locate cables whose suspensions carry unequal
 longitudinal loads

The remaining imbalance of hardware that already is at its equilibrium angle is
longitudinal and cannot be relieved by swinging, so it no longer keeps the
iterations from converging.
---
 src/transmissionline/cable_position_locator.cc | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/transmissionline/cable_position_locator.cc b/src/transmissionline/cable_position_locator.cc
index d070336..2462a50 100644
--- a/src/transmissionline/cable_position_locator.cc
+++ b/src/transmissionline/cable_position_locator.cc
@@ -550,8 +550,17 @@ double CablePositionLocator::UpdatePointsHardware() const {
     solver_equilibrium.set_direction_catenaries(direction_line_angle);
 
     // updates the hardware point z-axis angle
+    const double angle_hardware = point_hardware.angle_z;
     point_hardware.angle_z = solver_equilibrium.AngleEquilibrium();
 
+    // skips the imbalance if the hardware was already at the equilibrium angle
+    // the remaining imbalance is longitudinal, and the hardware isn't able to
+    // swing in that direction
+    const double angle_change = point_hardware.angle_z - angle_hardware;
+    if (std::abs(angle_change) < 0.001) {
+      continue;
+    }
+
     // updates the max tension imbalance
     const double tension_imbalance = solver_equilibrium.TensionImbalance();
     if (tension_imbalance_max < tension_imbalance) {
-- 
2.43.0


From 89262ff7afcce5a52818aaabde93d6cedc71910c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:09 +0000
Subject: [PATCH 18/75] fix: transfer the stretch again when the state curve of
 a component changes

---
 src/sagtension/cable_component_elongation_model.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/sagtension/cable_component_elongation_model.cc b/src/sagtension/cable_component_elongation_model.cc
index ab4ff25..2ebd82d 100644
--- a/src/sagtension/cable_component_elongation_model.cc
+++ b/src/sagtension/cable_component_elongation_model.cc
@@ -218,6 +218,8 @@ void CableComponentElongationModel::set_component_cable(
 void CableComponentElongationModel::set_state(const CableState* state) {
   state_ = state;
 
+  // the stretch load depends on the polynomial type of the state
+  is_updated_stretch_ = false;
   is_updated_state_ = false;
 }
 
-- 
2.43.0


From 5b3112d4e5712a0c36580ab62713fecdcb8226e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:09 +0000
Subject: [PATCH 19/75] fix: apply the polynomial load scale when solving a
 component strain

---
 src/sagtension/cable_component_elongation_model.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sagtension/cable_component_elongation_model.cc b/src/sagtension/cable_component_elongation_model.cc
index 2ebd82d..657548a 100644
--- a/src/sagtension/cable_component_elongation_model.cc
+++ b/src/sagtension/cable_component_elongation_model.cc
@@ -523,8 +523,9 @@ double CableComponentElongationModel::StrainPolynomial(
     const double& strain_thermal,
     const double& load) const {
   // gets strain from polynomial
+  // converts load to polynomial load
   const double strain_polynomial = polynomial.X(
-      load,  // target value
+      load / *component_->scale_polynomial_y(),  // target value
       2,     // precision
       0.1);  // initial guess
 
-- 
2.43.0


From dee032ccc7e328d38fc01ed99b6b759ceeaa7f0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:09 +0000
Subject: [PATCH 20/75] fix: start at the extrapolated curve when a component
 stretches beyond its polynomial

---
 .../cable_component_elongation_model.cc        | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/sagtension/cable_component_elongation_model.cc b/src/sagtension/cable_component_elongation_model.cc
index 657548a..9eadec3 100644
--- a/src/sagtension/cable_component_elongation_model.cc
+++ b/src/sagtension/cable_component_elongation_model.cc
@@ -370,8 +370,22 @@ void CableComponentElongationModel::PointsRegions(
   // solves for the polynomial start point
   Point2d<double> point_polynomial_start;
   point_polynomial_start.y = load_stretch;
-  point_polynomial_start.x = StrainPolynomial(polynomial, strain_thermal,
-                                              point_polynomial_start.y);
+  if (load_stretch <= load_limit_polynomial) {
+    point_polynomial_start.x = StrainPolynomial(polynomial, strain_thermal,
+                                                point_polynomial_start.y);
+  } else {
+    // the stretch is beyond the polynomial, where the curve is extrapolated
+    const double* modulus = nullptr;
+    if (&polynomial == &polynomial_creep_) {
+      modulus = &modulus_extrapolate_creep_;
+    } else {
+      modulus = &modulus_extrapolate_loadstrain_;
+    }
+
+    point_polynomial_start.x = StrainLinearExtension(point_polynomial_end,
+                                                     *modulus,
+                                                     point_polynomial_start.y);
+  }
 
   // solves for unloaded point
   Point2d<double> point_unloaded;
-- 
2.43.0


From 5c872398c28ecc6c54dddad34cab49d026c6966c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:44 +0000
Subject: [PATCH 21/75] fix: never transfer a component stretch to a negative
 load

---
 src/sagtension/cable_component_elongation_model.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/sagtension/cable_component_elongation_model.cc b/src/sagtension/cable_component_elongation_model.cc
index 9eadec3..f06d08b 100644
--- a/src/sagtension/cable_component_elongation_model.cc
+++ b/src/sagtension/cable_component_elongation_model.cc
@@ -815,7 +815,9 @@ bool CableComponentElongationModel::UpdateStretch() const {
 
   // returns success status
   if (iter < iter_max) {
-    load_stretch_ = load_to;
+    // a stretch that unloads before the other curve picks up any load does not
+    // stretch it
+    load_stretch_ = (0 < load_to) ? load_to : 0;
     return true;
   } else {
     load_stretch_ = -999999;
-- 
2.43.0


From c8d7469501c38738ed185bebac807981629ac5be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:58 +0000
Subject: [PATCH 22/75] fix: solve a component strain to the same load
 precision for any load scale

---
 src/sagtension/cable_component_elongation_model.cc | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/sagtension/cable_component_elongation_model.cc b/src/sagtension/cable_component_elongation_model.cc
index f06d08b..cce34f4 100644
--- a/src/sagtension/cable_component_elongation_model.cc
+++ b/src/sagtension/cable_component_elongation_model.cc
@@ -536,12 +536,19 @@ double CableComponentElongationModel::StrainPolynomial(
     const Polynomial& polynomial,
     const double& strain_thermal,
     const double& load) const {
+  // selects a precision in polynomial units, so the load is within 0.01
+  const double& scale = *component_->scale_polynomial_y();
+  int precision = 2;
+  if (1 < scale) {
+    precision += std::ceil(std::log10(scale));
+  }
+
   // gets strain from polynomial
   // converts load to polynomial load
   const double strain_polynomial = polynomial.X(
-      load / *component_->scale_polynomial_y(),  // target value
-      2,     // precision
-      0.1);  // initial guess
+      load / scale,  // target value
+      precision,     // precision
+      0.1);          // initial guess
 
   // converts polynomial strain to nominal strain
   return ConvertToStrain(strain_polynomial, strain_thermal);
-- 
2.43.0


From 09d34f8bdf3ba54889498b9c0a2258abc78eb5bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:07 +0000
Subject: [PATCH 23/75] fix: find the transferred component stretch for any
 pair of curves

---
 .../cable_component_elongation_model.cc       | 83 ++++++++-----------
 1 file changed, 36 insertions(+), 47 deletions(-)

diff --git a/src/sagtension/cable_component_elongation_model.cc b/src/sagtension/cable_component_elongation_model.cc
index cce34f4..7fb6fd9 100644
--- a/src/sagtension/cable_component_elongation_model.cc
+++ b/src/sagtension/cable_component_elongation_model.cc
@@ -748,42 +748,42 @@ bool CableComponentElongationModel::UpdateStretch() const {
   double load_from = -999999;
   double load_to = -999999;
 
-  // initializes left point
-  Point2d<double> point_left;
-  point_left.x = point_stretch.x;
-  load_from = LoadLinearExtension(point_stretch,
-                                  *component_->modulus_tension_elastic_area(),
-                                  point_left.x);
-  load_to = Load(*type_polynomial_to, *points_to,
-                 strain_thermal_stretch_, point_left.x);
-  point_left.y = load_to - load_from;
-
-  // initializes right point
-  Point2d<double> point_right;
-  point_right.x = point_left.x + 0.001;
+  // initializes current point, which is also the first end of the bracket
+  // the elastic modulus is steeper than the polynomial, so the load difference
+  // falls with strain
+  Point2d<double> point_current;
+  point_current.x = point_stretch.x;
   load_from = LoadLinearExtension(point_stretch,
                                   *component_->modulus_tension_elastic_area(),
-                                  point_right.x);
+                                  point_current.x);
   load_to = Load(*type_polynomial_to, *points_to,
-                 strain_thermal_stretch_, point_right.x);
-  point_right.y = load_to - load_from;
+                 strain_thermal_stretch_, point_current.x);
+  point_current.y = load_to - load_from;
 
-  // initializes current point
-  Point2d<double> point_current;
+  // initializes bracket points
+  Point2d<double> point_left = point_current;
+  Point2d<double> point_right = point_current;
+  double strain_step = 0.001;
 
   // iterates until intersection between elastic modulus and polynomial is found
   unsigned int iter = 0;
   const int iter_max = 100;
 
-  while ((0.01 < std::abs(point_current.y - target_solution))
+  while ((0.0001 < std::abs(point_current.y - target_solution))
          && (iter <= iter_max)) {
-    // gets current point x value using left and right points
-    // calculates tangent line between points, extrapolates using line
-    double slope_line = (point_right.y - point_left.y)
-                        / (point_right.x - point_left.x);
-
-    point_current.x = point_left.x
-                      + ((target_solution - point_left.y) / slope_line);
+    // gets current point x value
+    if (point_right.y > target_solution) {
+      // extends bracket to the right
+      point_current.x = point_right.x + strain_step;
+      strain_step = strain_step * 2;
+    } else if (point_left.y < target_solution) {
+      // extends bracket to the left
+      point_current.x = point_left.x - strain_step;
+      strain_step = strain_step * 2;
+    } else {
+      // splits bracket
+      point_current.x = (point_left.x + point_right.x) / 2;
+    }
 
     // gets current point y value
     load_from = LoadLinearExtension(point_stretch,
@@ -795,27 +795,16 @@ bool CableComponentElongationModel::UpdateStretch() const {
     point_current.y = load_to - load_from;
 
     // updates either left or right point based on current point
-    if (point_current.x < point_left.x) {
-      point_right.x = point_left.x;
-      point_right.y = point_left.y;
-      point_left.x = point_current.x;
-      point_left.y = point_current.y;
-
-    } else if ((point_left.x < point_current.x)
-        && (point_current.x < point_right.x)) {
-      if (point_current.y < target_solution) {
-        point_right.x = point_current.x;
-        point_right.y = point_current.y;
-      } else if (target_solution < point_current.y) {
-        point_left.x = point_current.x;
-        point_left.y = point_current.y;
-      }
-
-    } else if (point_right.x < point_current.x) {
-      point_left.x = point_right.x;
-      point_left.y = point_right.y;
-      point_right.x = point_current.x;
-      point_right.y = point_current.y;
+    if (point_right.x < point_current.x) {
+      point_left = point_right;
+      point_right = point_current;
+    } else if (point_current.x < point_left.x) {
+      point_right = point_left;
+      point_left = point_current;
+    } else if (target_solution < point_current.y) {
+      point_left = point_current;
+    } else {
+      point_right = point_current;
     }
     iter++;
   }
-- 
2.43.0


From 9bf6c236f28c4b256216dc4c162cd9b4786994ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:09 +0000
Subject: [PATCH 24/75] fix: extend the combined strain into compression when a
 component can be compressed

---
 src/sagtension/cable_elongation_model.cc | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/sagtension/cable_elongation_model.cc b/src/sagtension/cable_elongation_model.cc
index de4ba5d..a4012ec 100644
--- a/src/sagtension/cable_elongation_model.cc
+++ b/src/sagtension/cable_elongation_model.cc
@@ -292,10 +292,12 @@ double CableElongationModel::StrainCombined(
   // load is less than all points in the sorted collection
   if (load <= point_regions_min.y) {
     // determines if core and/or shell can be compressed
-    bool is_compressible_core =
-        cable_->component_core()->modulus_compression_elastic_area() == 0;
-    bool is_compressible_shell =
-        cable_->component_shell()->modulus_compression_elastic_area() == 0;
+    const bool is_compressible_core =
+        (cable_->IsEnabled(SagTensionCable::ComponentType::kCore) == true)
+        && (0 < *cable_->component_core()->modulus_compression_elastic_area());
+    const bool is_compressible_shell =
+        (cable_->IsEnabled(SagTensionCable::ComponentType::kShell) == true)
+        && (0 < *cable_->component_shell()->modulus_compression_elastic_area());
 
     if ((is_compressible_core == false) && (is_compressible_shell == false)) {
       // cable has no compressive ability, returns minimum value
-- 
2.43.0


From 627cfd2ca598614037389b8ac3c48c25e280d285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:09 +0000
Subject: [PATCH 25/75] fix: solve combined strain at coincident region points

---
 src/sagtension/cable_elongation_model.cc | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/sagtension/cable_elongation_model.cc b/src/sagtension/cable_elongation_model.cc
index a4012ec..a7f8cc2 100644
--- a/src/sagtension/cable_elongation_model.cc
+++ b/src/sagtension/cable_elongation_model.cc
@@ -322,12 +322,14 @@ double CableElongationModel::StrainCombined(
   // load is between the points in the sorted collection
   } else {
     // searches for boundary region points
-    for (auto iter = points_regions_.cbegin(); iter != points_regions_.cend();
-         iter++) {
+    // points may coincide, which does not define a tangent
+    for (auto iter = points_regions_.cbegin();
+         iter != points_regions_.cend() - 1; iter++) {
       point_left = *iter;
       point_right = *(iter + 1);
 
-      if ((point_left.y <= load) && (load <= point_right.y)) {
+      if ((point_left.x < point_right.x)
+          && (point_left.y <= load) && (load <= point_right.y)) {
         break;
       }
     }
-- 
2.43.0


From 1c1ce5a6bad39fe0e722bd0a4727b2fdccf07d2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:09 +0000
Subject: [PATCH 26/75] fix: leave a component unstretched when it is
 compressed at the stretch load

---
 src/sagtension/cable_elongation_model.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sagtension/cable_elongation_model.cc b/src/sagtension/cable_elongation_model.cc
index a7f8cc2..b0f890a 100644
--- a/src/sagtension/cable_elongation_model.cc
+++ b/src/sagtension/cable_elongation_model.cc
@@ -484,12 +484,12 @@ bool CableElongationModel::UpdateComponentsStretch() const {
 
   // updates component stretch loads
   if (cable_->IsEnabled(SagTensionCable::ComponentType::kCore) == true) {
-    state_stretch_core_.load = LoadCore(point_stretch.x);
+    state_stretch_core_.load = std::max(0.0, LoadCore(point_stretch.x));
     model_core_.set_state_stretch(&state_stretch_core_);
   }
 
   if (cable_->IsEnabled(SagTensionCable::ComponentType::kShell) == true) {
-    state_stretch_shell_.load = LoadShell(point_stretch.x);
+    state_stretch_shell_.load = std::max(0.0, LoadShell(point_stretch.x));
     model_shell_.set_state_stretch(&state_stretch_shell_);
   }
 
-- 
2.43.0


From 15fa0a53725dc1658732e1c1db0e5558956eda7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:09 +0000
Subject: [PATCH 27/75] fix: restore the component stretch after validating the
 elongation model

---
 src/sagtension/cable_elongation_model.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/sagtension/cable_elongation_model.cc b/src/sagtension/cable_elongation_model.cc
index b0f890a..0bbd8a4 100644
--- a/src/sagtension/cable_elongation_model.cc
+++ b/src/sagtension/cable_elongation_model.cc
@@ -615,7 +615,7 @@ bool CableElongationModel::ValidateComponentsStrainUnloaded(
 
   // determines if this check is necessary, both core and shell must be enabled
   if ((cable_->IsEnabled(SagTensionCable::ComponentType::kCore) == false)
-      || (cable_->IsEnabled(SagTensionCable::ComponentType::kCore) == false)) {
+      || (cable_->IsEnabled(SagTensionCable::ComponentType::kShell) == false)) {
     return is_valid;
   }
 
@@ -661,10 +661,10 @@ bool CableElongationModel::ValidateComponentsStrainUnloaded(
 
   // restores component states
   model_core_.set_state(&state_);
-  model_core_.set_state_stretch(&state_stretch_);
+  model_core_.set_state_stretch(&state_stretch_core_);
 
   model_shell_.set_state(&state_);
-  model_shell_.set_state_stretch(&state_stretch_);
+  model_shell_.set_state_stretch(&state_stretch_shell_);
 
   return is_valid;
 }
-- 
2.43.0


From c7b757cab1e2b12c14911dfee3f5e15144e1e121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:09 +0000
Subject: [PATCH 28/75] fix: refer a copied elongation model to its own states

---
 .../sagtension/cable_elongation_model.h       | 11 ++++++++++
 src/sagtension/cable_elongation_model.cc      | 22 +++++++++++++++++++
 2 files changed, 33 insertions(+)

diff --git a/include/models/sagtension/cable_elongation_model.h b/include/models/sagtension/cable_elongation_model.h
index 364af76..335de59 100644
--- a/include/models/sagtension/cable_elongation_model.h
+++ b/include/models/sagtension/cable_elongation_model.h
@@ -73,6 +73,17 @@ class CableElongationModel {
   /// \brief Default constructor.
   CableElongationModel();
 
+  /// \brief Copy constructor.
+  /// \param[in] that
+  ///   The copied model.
+  CableElongationModel(const CableElongationModel& that);
+
+  /// \brief Copy assignment operator.
+  /// \param[in] that
+  ///   The copied model.
+  /// \return The copied model.
+  CableElongationModel& operator=(const CableElongationModel& that);
+
   /// \brief Destructor.
   ~CableElongationModel();
 
diff --git a/src/sagtension/cable_elongation_model.cc b/src/sagtension/cable_elongation_model.cc
index 0bbd8a4..776336e 100644
--- a/src/sagtension/cable_elongation_model.cc
+++ b/src/sagtension/cable_elongation_model.cc
@@ -31,6 +31,28 @@ CableElongationModel::CableElongationModel() {
   is_updated_stretch_ = false;
 }
 
+CableElongationModel::CableElongationModel(const CableElongationModel& that) {
+  // this will call the copy assignment operator
+  *this = that;
+}
+
+CableElongationModel& CableElongationModel::operator=(
+    const CableElongationModel& that) {
+  // transfers members as-is
+  this->cable_ = that.cable_;
+  this->model_core_ = that.model_core_;
+  this->model_shell_ = that.model_shell_;
+  this->state_ = that.state_;
+  this->state_stretch_ = that.state_stretch_;
+
+  // the component models still refer to the states of the copied model
+  // an update refers them to this model
+  this->is_updated_stretch_ = false;
+  this->is_updated_state_ = false;
+
+  return *this;
+}
+
 CableElongationModel::~CableElongationModel() {
 }
 
-- 
2.43.0


From 0eef56cf24aae9217f29de3ac7f1af174d1c7f8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:39 +0000
Subject: [PATCH 29/75] fix: bisect the combined strain when the tangent line
 stalls

---
 src/sagtension/cable_elongation_model.cc | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/sagtension/cable_elongation_model.cc b/src/sagtension/cable_elongation_model.cc
index 776336e..5984452 100644
--- a/src/sagtension/cable_elongation_model.cc
+++ b/src/sagtension/cable_elongation_model.cc
@@ -367,11 +367,18 @@ double CableElongationModel::StrainCombined(
   double slope_line =-999999;
 
   while ((precision < std::abs(point_current.y - load)) && (iter < 100)) {
-    // calculates new strain value by using tangent line between points,
-    // extrapolates using line
-    slope_line = (point_right.y - point_left.y)
-                  / (point_right.x - point_left.x);
-    point_current.x = point_left.x + ((load - point_left.y) / slope_line);
+    if ((20 < iter)
+        && (point_left.y <= load) && (load <= point_right.y)) {
+      // bisects the points when solving is slow, as the tangent line may only
+      // ever move one of the points when the curve is far from linear
+      point_current.x = (point_left.x + point_right.x) / 2;
+    } else {
+      // calculates new strain value by using tangent line between points,
+      // extrapolates using line
+      slope_line = (point_right.y - point_left.y)
+                    / (point_right.x - point_left.x);
+      point_current.x = point_left.x + ((load - point_left.y) / slope_line);
+    }
 
     // gets current point load
     point_current.y = LoadCombined(point_current.x);
-- 
2.43.0


From af527aaafc9137ff9ec774fd3400b709ef392e43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:15 +0000
Subject: [PATCH 30/75] fix: leave no polynomial region to a component
 stretched beyond its polynomial

---
 src/sagtension/cable_component_elongation_model.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/sagtension/cable_component_elongation_model.cc b/src/sagtension/cable_component_elongation_model.cc
index 7fb6fd9..411681d 100644
--- a/src/sagtension/cable_component_elongation_model.cc
+++ b/src/sagtension/cable_component_elongation_model.cc
@@ -385,6 +385,9 @@ void CableComponentElongationModel::PointsRegions(
     point_polynomial_start.x = StrainLinearExtension(point_polynomial_end,
                                                      *modulus,
                                                      point_polynomial_start.y);
+
+    // no part of the polynomial is left
+    point_polynomial_end = point_polynomial_start;
   }
 
   // solves for unloaded point
-- 
2.43.0


From 2c70f4c5156ae4ae7e42113f3f6b6283d35f6119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:02 +0000
Subject: [PATCH 31/75] fix: sag line cables that are constrained by length or
 sag

---
 src/sagtension/line_cable_sagger.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/sagtension/line_cable_sagger.cc b/src/sagtension/line_cable_sagger.cc
index 3d721ec..a1066ac 100644
--- a/src/sagtension/line_cable_sagger.cc
+++ b/src/sagtension/line_cable_sagger.cc
@@ -277,6 +277,12 @@ bool LineCableSagger::UpdateLineCableConstraintLimit() const {
   } else if (constraint.type_limit
       == CableConstraint::LimitType::kSupportTension) {
     constraint.limit = catenary.TensionMax();
+  } else if (constraint.type_limit
+      == CableConstraint::LimitType::kLength) {
+    constraint.limit = catenary.Length();
+  } else if (constraint.type_limit
+      == CableConstraint::LimitType::kSag) {
+    constraint.limit = catenary.Sag();
   }
   line_cable_->set_constraint(constraint);
 
-- 
2.43.0


From 99514571d6881b02d862f4067352c176e6a21191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:02 +0000
Subject: [PATCH 32/75] fix: find the controlling constraint for any tension

---
 src/sagtension/line_cable_sagger.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sagtension/line_cable_sagger.cc b/src/sagtension/line_cable_sagger.cc
index a1066ac..de8d285 100644
--- a/src/sagtension/line_cable_sagger.cc
+++ b/src/sagtension/line_cable_sagger.cc
@@ -230,7 +230,8 @@ bool LineCableSagger::UpdateControllingConstraintIndex() const {
       return false;
     }
 
-    if (tension_horizontal < tension_horizontal_controlling) {
+    if ((index_constraint_controlling_ == -9999)
+        || (tension_horizontal < tension_horizontal_controlling)) {
       tension_horizontal_controlling = tension_horizontal;
       index_constraint_controlling_ = iter - constraints_design_->cbegin();
     }
-- 
2.43.0


From 48a64c6cb2313d77c95a5a31d6201f2692ce85bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:02 +0000
Subject: [PATCH 33/75] fix: report a failure for a design constraint index
 that does not exist

---
 include/models/sagtension/line_cable_sagger.h |  6 ++++++
 src/sagtension/line_cable_sagger.cc           | 21 +++++++++++++++++++
 2 files changed, 27 insertions(+)

diff --git a/include/models/sagtension/line_cable_sagger.h b/include/models/sagtension/line_cable_sagger.h
index 53cb76e..7541704 100644
--- a/include/models/sagtension/line_cable_sagger.h
+++ b/include/models/sagtension/line_cable_sagger.h
@@ -117,6 +117,12 @@ class LineCableSagger {
   /// \return A boolean indicating if class is updated.
   bool IsUpdated() const;
 
+  /// \brief Determines if the design constraint index is valid.
+  /// \param[in] index
+  ///   The design constraint index.
+  /// \return If the design constraint index is valid.
+  bool IsValidIndex(const int& index) const;
+
   /// \brief Updates cached member variables and modifies control variables if
   ///   update is required.
   /// \return A boolean indicating if class updates completed successfully.
diff --git a/src/sagtension/line_cable_sagger.cc b/src/sagtension/line_cable_sagger.cc
index de8d285..05cf665 100644
--- a/src/sagtension/line_cable_sagger.cc
+++ b/src/sagtension/line_cable_sagger.cc
@@ -22,6 +22,10 @@ double LineCableSagger::CapacityAllowable(const int& index) const {
     return -999999;
   }
 
+  if (IsValidIndex(index) == false) {
+    return -999999;
+  }
+
   const CableConstraint& constraint = constraints_design_->at(index);
   const Catenary3d& catenary = catenaries_constraints_actual_.at(index);
 
@@ -46,6 +50,10 @@ double LineCableSagger::CatenaryConstantActual(const int& index) const {
     return -999999;
   }
 
+  if (IsValidIndex(index) == false) {
+    return -999999;
+  }
+
   const Catenary3d& catenary = catenaries_constraints_actual_.at(index);
   return catenary.Constant();
 }
@@ -74,6 +82,10 @@ double LineCableSagger::TensionHorizontalActual(const int& index) const {
     return -999999;
   }
 
+  if (IsValidIndex(index) == false) {
+    return -999999;
+  }
+
   const Catenary3d& catenary = catenaries_constraints_actual_.at(index);
   return catenary.tension_horizontal();
 }
@@ -84,6 +96,10 @@ double LineCableSagger::TensionSupportActual(const int& index) const {
     return -999999;
   }
 
+  if (IsValidIndex(index) == false) {
+    return -999999;
+  }
+
   const Catenary3d& catenary = catenaries_constraints_actual_.at(index);
   return catenary.TensionMax();
 }
@@ -170,6 +186,11 @@ bool LineCableSagger::IsUpdated() const {
   return is_updated_linecable_constraint_limit_ == true;
 }
 
+bool LineCableSagger::IsValidIndex(const int& index) const {
+  const int kSize = catenaries_constraints_actual_.size();
+  return (0 <= index) && (index < kSize);
+}
+
 bool LineCableSagger::Update() const {
   // updates line cable constraint limit
   if (is_updated_linecable_constraint_limit_ == false) {
-- 
2.43.0


From fe5efd6fb59cc7d3d16e6a9650e8b19c5c55ef93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:02 +0000
Subject: [PATCH 34/75] fix: reject a sagger without any design constraints

---
 src/sagtension/line_cable_sagger.cc | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/src/sagtension/line_cable_sagger.cc b/src/sagtension/line_cable_sagger.cc
index 05cf665..9696ad5 100644
--- a/src/sagtension/line_cable_sagger.cc
+++ b/src/sagtension/line_cable_sagger.cc
@@ -112,11 +112,20 @@ bool LineCableSagger::Validate(const bool& is_included_warnings,
   message.title = "LINE CABLE SAGGER";
 
   // validates constraints-design
-  for (auto iter = constraints_design_->cbegin();
-       iter != constraints_design_->cend(); iter++) {
-    const CableConstraint& constraint = *iter;
-    if (constraint.Validate(is_included_warnings, messages) == false) {
-      is_valid = false;
+  if ((constraints_design_ == nullptr)
+      || (constraints_design_->empty() == true)) {
+    is_valid = false;
+    if (messages != nullptr) {
+      message.description = "Invalid design constraints";
+      messages->push_back(message);
+    }
+  } else {
+    for (auto iter = constraints_design_->cbegin();
+         iter != constraints_design_->cend(); iter++) {
+      const CableConstraint& constraint = *iter;
+      if (constraint.Validate(is_included_warnings, messages) == false) {
+        is_valid = false;
+      }
     }
   }
 
@@ -217,6 +226,11 @@ bool LineCableSagger::UpdateControllingConstraintIndex() const {
   // initializes
   index_constraint_controlling_ = -9999;
 
+  // checks that there is a constraint to control
+  if (constraints_design_->empty() == true) {
+    return false;
+  }
+
   // checks for multiple constraints to determine if further analysis is
   // required
   if (constraints_design_->size() == 1) {
-- 
2.43.0


From 92d1ca300f65a71c406ffcf1c7c7019bce4c28bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:25 +0000
Subject: [PATCH 35/75] fix: accept a reloaded tension that matches the cable
 length exactly

---
 src/sagtension/catenary_cable_reloader.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/sagtension/catenary_cable_reloader.cc b/src/sagtension/catenary_cable_reloader.cc
index f90455f..f7ad3ea 100644
--- a/src/sagtension/catenary_cable_reloader.cc
+++ b/src/sagtension/catenary_cable_reloader.cc
@@ -284,6 +284,11 @@ bool CatenaryCableReloader::SolveReloadedCatenaryTension() const {
     // gets current point length difference
     point_current.y = LengthDifference(point_current.x);
 
+    // current point is an exact solution, no more to search for
+    if (point_current.y == target_solution) {
+      break;
+    }
+
     // current point is left of left/right points
     if (point_current.x < point_left.x) {
       point_right.x = point_left.x;
-- 
2.43.0


From b2842c6895599558675784e23946293e99865d35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:46 +0000
Subject: [PATCH 36/75] fix: correct sags of spans that are not along the x
 axis

---
 src/sagging/cable_sag_position_corrector.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/sagging/cable_sag_position_corrector.cc b/src/sagging/cable_sag_position_corrector.cc
index 3c1894e..47f4645 100644
--- a/src/sagging/cable_sag_position_corrector.cc
+++ b/src/sagging/cable_sag_position_corrector.cc
@@ -268,9 +268,12 @@ bool CableSagPositionCorrector::UpdateClippedState() const {
     const Point3d<double>& point_back = (*points_attachment_)[i];
     const Point3d<double>& point_ahead = (*points_attachment_)[i + 1];
 
+    // the catenary is defined in the vertical plane of the span
     Vector3d spacing_endpoints;
-    spacing_endpoints.set_x(point_ahead.x - point_back.x);
-    spacing_endpoints.set_y(point_ahead.y - point_back.y);
+    spacing_endpoints.set_x(std::sqrt(
+        std::pow(point_ahead.x - point_back.x, 2)
+        + std::pow(point_ahead.y - point_back.y, 2)));
+    spacing_endpoints.set_y(0);
     spacing_endpoints.set_z(point_ahead.z - point_back.z);
 
     // updates catenary for span
-- 
2.43.0


From a70bc96dc2c107b13d84c191c9b146876a3d6e64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:46 +0000
Subject: [PATCH 37/75] fix: validate a sag position corrector that is not set
 up

---
 src/sagging/cable_sag_position_corrector.cc | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/sagging/cable_sag_position_corrector.cc b/src/sagging/cable_sag_position_corrector.cc
index 47f4645..cc1eb44 100644
--- a/src/sagging/cable_sag_position_corrector.cc
+++ b/src/sagging/cable_sag_position_corrector.cc
@@ -129,15 +129,24 @@ bool CableSagPositionCorrector::Validate(
   if (points_attachment_ == nullptr) {
     is_valid = false;
     if (messages != nullptr) {
-      message.description = "Invalid line cable";
+      message.description = "Invalid attachment points";
       messages->push_back(message);
     }
   } else {
     if (points_attachment_->size() <= 1) {
       is_valid = false;
+      if (messages != nullptr) {
+        message.description = "Invalid attachment points";
+        messages->push_back(message);
+      }
     }
   }
 
+  // returns if errors are present
+  if (is_valid == false) {
+    return is_valid;
+  }
+
   // validates update process
   if (Update() == false) {
     is_valid = false;
@@ -252,6 +261,11 @@ bool CableSagPositionCorrector::UpdateClippedState() const {
   catenaries_clipped_.clear();
   length_clipped_ = -999999;
 
+  // checks that there is at least one span
+  if (points_attachment_->size() <= 1) {
+    return false;
+  }
+
   // solves for a catenary for the entire line cable section
   Catenary3d catenary_section = linecable_->CatenaryRulingSpan();
   if (catenary_section.Validate() == false) {
-- 
2.43.0


From 6a446def6a196d3f669e077ab727bf2f2f0634a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:44 +0000
Subject: [PATCH 38/75] fix: sight a cable at the lowest of its local low
 points

---
 src/sagging/transit_sagger.cc | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/sagging/transit_sagger.cc b/src/sagging/transit_sagger.cc
index 620ce87..1a93f63 100644
--- a/src/sagging/transit_sagger.cc
+++ b/src/sagging/transit_sagger.cc
@@ -245,7 +245,9 @@ bool TransitSagger::UpdateAngleLow() const {
 
 bool TransitSagger::UpdatePointCatenaryLow() const {
   // initializes
-  const int kNumPoints = 11;
+  // starts with a fine search, because the angle has a local minimum on each
+  // side of a transit that is located within the span
+  int num_points = 1001;
   double position_back = 0.0;
   double position_ahead = 1.0;
   double tolerance = (position_ahead - position_back) / 2;
@@ -255,10 +257,11 @@ bool TransitSagger::UpdatePointCatenaryLow() const {
   while ((0.00001 < tolerance) && (i < 10)) {
     // calculates a new position
     position = PositionCatenaryLowAngle(position_back, position_ahead,
-                                        kNumPoints);
+                                        num_points);
 
     // calculates the solution tolerance
-    tolerance = (position_ahead - position_back) / (kNumPoints - 1);
+    tolerance = (position_ahead - position_back) / (num_points - 1);
+    num_points = 11;
 
     // adjusts the back position
     position_back = position - tolerance;
-- 
2.43.0


From 3fc4a1359cac39abfe057c5857be02b08d5c5394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:32 +0000
Subject: [PATCH 39/75] fix: find no sight for a transit without a position

---
 src/sagging/transit_sagger.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sagging/transit_sagger.cc b/src/sagging/transit_sagger.cc
index 1a93f63..2518af2 100644
--- a/src/sagging/transit_sagger.cc
+++ b/src/sagging/transit_sagger.cc
@@ -206,7 +206,7 @@ double TransitSagger::PositionCatenaryLowAngle(
 
   // calculates the angle from horizontal and caches if needed
   double angle_low = 999999;
-  int index_low = -9999;
+  int index_low = 0;
   for (int i = 0; i < num_points; i++) {
     const double angle = AngleVertical(point_transit_, points[i]);
     if (angle < angle_low) {
-- 
2.43.0


From 9d80e54114a43be1fb5b1f1a5b805ec864fbb8ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:32 +0000
Subject: [PATCH 40/75] fix: reject a stopwatch without a unit system

---
 src/sagging/stopwatch_sagger.cc | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/sagging/stopwatch_sagger.cc b/src/sagging/stopwatch_sagger.cc
index 5db62e6..5874897 100644
--- a/src/sagging/stopwatch_sagger.cc
+++ b/src/sagging/stopwatch_sagger.cc
@@ -39,6 +39,15 @@ bool StopwatchSagger::Validate(const bool& is_included_warnings,
     is_valid = false;
   }
 
+  // validates units
+  if (units_ == units::UnitSystem::kNull) {
+    is_valid = false;
+    if (messages != nullptr) {
+      message.description = "Invalid unit system";
+      messages->push_back(message);
+    }
+  }
+
   return is_valid;
 }
 
-- 
2.43.0


From f95e21f1024db7f4d9a27961840bcca267d4dd95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:27 +0000
Subject: [PATCH 41/75] fix: interpolate resistance between the points that
 bound the temperature

---
 src/thermalrating/thermal_rating_cable.cc | 15 ++-------------
 1 file changed, 2 insertions(+), 13 deletions(-)

diff --git a/src/thermalrating/thermal_rating_cable.cc b/src/thermalrating/thermal_rating_cable.cc
index 980974b..1329cf0 100644
--- a/src/thermalrating/thermal_rating_cable.cc
+++ b/src/thermalrating/thermal_rating_cable.cc
@@ -83,19 +83,8 @@ double ThermalRatingCable::Resistance(const double& temperature) const {
 
   // searches list of points for the closest ones to target temp, starting
   // from the lowest
-  while (true) {
-    // stops searching if resistance points bound the target temp
-    if ((point_low->temperature < temperature)
-         && (temperature < point_high->temperature)) {
-      break;
-    }
-
-    // stops searching if both resistance points are greater than target temp
-    if ((point_low->temperature < temperature)
-         && (point_high->temperature < temperature)) {
-      break;
-    }
-
+  // stops searching if the target temp is not above the high point
+  while (point_high->temperature < temperature) {
     // increments and stops searching if the end is found
     iter++;
     if (iter == resistances.cend()) {
-- 
2.43.0


From 57d8a5f15c876bb7772e39e7c4d251b2b31956d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:28 +0000
Subject: [PATCH 42/75] fix: convect heat into a cable that is colder than the
 air

---
 .../cable_heat_transfer_solver.cc             | 20 +++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/thermalrating/cable_heat_transfer_solver.cc b/src/thermalrating/cable_heat_transfer_solver.cc
index a96ab1a..753b61e 100644
--- a/src/thermalrating/cable_heat_transfer_solver.cc
+++ b/src/thermalrating/cable_heat_transfer_solver.cc
@@ -78,7 +78,8 @@ double CableHeatTransferSolver::HeatConvection(
 
   // determines which method of convection is highest and saves it
   // switches sign to indicate that heat is removed
-  if (heat_convection_natural < heat_convection_forced) {
+  // if the cable is colder than the air, both are negative and heat is added
+  if (std::abs(heat_convection_natural) < std::abs(heat_convection_forced)) {
     return -1 * heat_convection_forced;
   } else {
     return -1 * heat_convection_natural;
@@ -231,7 +232,8 @@ double CableHeatTransferSolver::HeatConvectionForced(
       * (temperature_cable - weather_->temperature_air);
 
   // returns the highest forced convection value
-  if (heat_convection_forced_1 <= heat_convection_forced_2) {
+  if (std::abs(heat_convection_forced_1)
+      <= std::abs(heat_convection_forced_2)) {
     return heat_convection_forced_2;
   } else {
     return heat_convection_forced_1;
@@ -252,7 +254,17 @@ double CableHeatTransferSolver::HeatConvectionNatural(
   }
 
   // calculates
-  return k * std::pow(density_air, 0.5)
+  const double temperature_delta =
+      temperature_cable - weather_->temperature_air;
+  const double heat_convection_natural =
+      k * std::pow(density_air, 0.5)
       * std::pow(*cable_->diameter(), 0.75)
-      * std::pow(temperature_cable - weather_->temperature_air, 1.25);
+      * std::pow(std::abs(temperature_delta), 1.25);
+
+  // switches sign if the cable is colder than the air
+  if (temperature_delta < 0) {
+    return -1 * heat_convection_natural;
+  } else {
+    return heat_convection_natural;
+  }
 }
-- 
2.43.0


From cc279f82df056a2e540c6288cca4bb4022253f1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:29 +0000
Subject: [PATCH 43/75] fix: solve the steady cable again when units or weather
 change

---
 src/thermalrating/steady_cable_current_solver.cc     | 2 ++
 src/thermalrating/steady_cable_temperature_solver.cc | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/thermalrating/steady_cable_current_solver.cc b/src/thermalrating/steady_cable_current_solver.cc
index a6fb3a2..85ef28b 100644
--- a/src/thermalrating/steady_cable_current_solver.cc
+++ b/src/thermalrating/steady_cable_current_solver.cc
@@ -124,11 +124,13 @@ void SteadyCableCurrentSolver::set_temperature_cable(
 
 void SteadyCableCurrentSolver::set_units(const units::UnitSystem& units) {
   units_ = units;
+  is_updated_ = false;
 }
 
 void SteadyCableCurrentSolver::set_weather(
     const ThermalRatingWeather* weather) {
   weather_ = weather;
+  is_updated_ = false;
 }
 
 double SteadyCableCurrentSolver::temperature_cable() const {
diff --git a/src/thermalrating/steady_cable_temperature_solver.cc b/src/thermalrating/steady_cable_temperature_solver.cc
index 5ff38a7..5cff6ae 100644
--- a/src/thermalrating/steady_cable_temperature_solver.cc
+++ b/src/thermalrating/steady_cable_temperature_solver.cc
@@ -127,11 +127,13 @@ void SteadyCableTemperatureSolver::set_current(const double& current) {
 
 void SteadyCableTemperatureSolver::set_units(const units::UnitSystem& units) {
   units_ = units;
+  is_updated_ = false;
 }
 
 void SteadyCableTemperatureSolver::set_weather(
     const ThermalRatingWeather* weather) {
   weather_ = weather;
+  is_updated_ = false;
 }
 
 units::UnitSystem SteadyCableTemperatureSolver::units() const {
-- 
2.43.0


From 81e608dac38614f6f11427c08462e0105937fcf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:30 +0000
Subject: [PATCH 44/75] fix: keep the cable temperature bracketed while it is
 solved

---
 .../steady_cable_temperature_solver.cc        | 22 +++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/thermalrating/steady_cable_temperature_solver.cc b/src/thermalrating/steady_cable_temperature_solver.cc
index 5cff6ae..a7eb8d5 100644
--- a/src/thermalrating/steady_cable_temperature_solver.cc
+++ b/src/thermalrating/steady_cable_temperature_solver.cc
@@ -177,11 +177,12 @@ bool SteadyCableTemperatureSolver::SolveTemperatureAndState() const {
 
   // declares current point
   Point2d<double> point_current;
+  double x_previous = -999999;
 
   // iterates
   unsigned int iter = 0;
   const int iter_max = 100;
-  while (0.1 < std::abs(point_left.x - point_right.x) && (iter <= iter_max)) {
+  while (0.01 < std::abs(point_left.x - point_right.x) && (iter <= iter_max)) {
     // gets current point x value using left and right points
     // calculates tangent line between points, extrapolates using line
     double slope_line = (point_right.y - point_left.y)
@@ -190,10 +191,22 @@ bool SteadyCableTemperatureSolver::SolveTemperatureAndState() const {
     point_current.x = point_left.x
                       + ((target_solution - point_left.y) / slope_line);
 
+    // bisects if the tangent line is only moving one side of the bracket
+    if ((20 < iter) && (point_left.y < target_solution)
+        && (target_solution < point_right.y)) {
+      point_current.x = (point_left.x + point_right.x) / 2;
+    }
+
     // gets current point y value
     solver.set_temperature_cable(point_current.x);
     point_current.y = solver.Current();
 
+    // stops if the current point has converged
+    if (std::abs(point_current.x - x_previous) <= 0.001) {
+      break;
+    }
+    x_previous = point_current.x;
+
     // updates either left or right point based on current point
     if (point_current.x < point_left.x) {
       point_right.x = point_left.x;
@@ -203,12 +216,13 @@ bool SteadyCableTemperatureSolver::SolveTemperatureAndState() const {
 
     } else if ((point_left.x < point_current.x)
         && (point_current.x < point_right.x)) {
+      // the current increases with temperature
       if (point_current.y < target_solution) {
-        point_right.x = point_current.x;
-        point_right.y = point_current.y;
-      } else if (target_solution < point_current.y) {
         point_left.x = point_current.x;
         point_left.y = point_current.y;
+      } else if (target_solution < point_current.y) {
+        point_right.x = point_current.x;
+        point_right.y = point_current.y;
       }
 
     } else if (point_right.x < point_current.x) {
-- 
2.43.0


From a12484af7a266c403afb4f8ca4e3acde29eb649d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:49 +0000
Subject: [PATCH 45/75] fix: report a failure if there is no starting cable
 temperature

---
 src/thermalrating/transient_cable_temperature_solver.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/thermalrating/transient_cable_temperature_solver.cc b/src/thermalrating/transient_cable_temperature_solver.cc
index 122d9de..264edfc 100644
--- a/src/thermalrating/transient_cable_temperature_solver.cc
+++ b/src/thermalrating/transient_cable_temperature_solver.cc
@@ -241,6 +241,9 @@ bool TransientCableTemperatureSolver::UpdateTemperaturePoints() const {
     if (time == 0) {
       // calculates steady-state temperature
       point.temperature = TemperatureSteady(current_steady_);
+      if (point.temperature == -999999) {
+        return false;
+      }
     } else {
       // solves for the heat transfer state
       CableHeatTransferState state = HeatTransferState(current_step_,
-- 
2.43.0


From c4372c8985134f8bc4c9ae98fdc2de1f16a97630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:29 +0000
Subject: [PATCH 46/75] fix: place the sun due north at noon when it passes
 north of the zenith

---
 src/thermalrating/solar_radiation_solver.cc | 25 ++++-----------------
 1 file changed, 4 insertions(+), 21 deletions(-)

diff --git a/src/thermalrating/solar_radiation_solver.cc b/src/thermalrating/solar_radiation_solver.cc
index 43dc20d..052d628 100644
--- a/src/thermalrating/solar_radiation_solver.cc
+++ b/src/thermalrating/solar_radiation_solver.cc
@@ -300,32 +300,15 @@ bool SolarRadiationSolver::SolveAzimuthSolar(
   const double term1 = std::sin(angle_hour_rad);
   const double term2 = std::sin(latitude_rad) * std::cos(angle_hour_rad);
   const double term3 = std::cos(latitude_rad) * std::tan(declination_rad);
-  const double chi = term1 / (term2 - term3);
-
-  // selects a constant
-  double kC = -999999;;
-  if (angle_hour < 0) {
-    if (chi < 0) {
-      kC = 180;
-    } else {
-      kC = 0;
-    }
-  } else if (0 <= angle_hour) {
-    if (chi < 0) {
-      kC = 360;
-    } else {
-      kC = 180;
-    }
-  } else {
-    return false;
-  }
 
   // calculates solar azimuth
+  // the quadrant is selected using the signs of both terms, which also covers
+  // the sun being due north or due south
   const double term4 = units::ConvertAngle(
-      std::atan(chi),
+      std::atan2(term1, term2 - term3),
       units::AngleConversionType::kRadiansToDegrees);
 
-  azimuth_sun_ = kC + term4;
+  azimuth_sun_ = 180 + term4;
 
   return true;
 }
-- 
2.43.0


From 2633b2a736b526ea6cd4b687a04f2648baf1941f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:31 +0000
Subject: [PATCH 47/75] fix: solve the altitude of a sun that is at the zenith

---
 src/thermalrating/solar_radiation_solver.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/thermalrating/solar_radiation_solver.cc b/src/thermalrating/solar_radiation_solver.cc
index 052d628..f53bdba 100644
--- a/src/thermalrating/solar_radiation_solver.cc
+++ b/src/thermalrating/solar_radiation_solver.cc
@@ -3,6 +3,7 @@
 
 #include "models/thermalrating/solar_radiation_solver.h"
 
+#include <algorithm>
 #include <cmath>
 
 #include "models/base/polynomial.h"
@@ -273,7 +274,8 @@ bool SolarRadiationSolver::SolveAltitudeSolar(
   const double term1 = std::cos(latitude_rad) * std::cos(declination_rad)
                        * std::cos(angle_hour_rad);
   const double term2 = std::sin(latitude_rad) * std::sin(declination_rad);
-  altitude_sun_ = std::asin(term1 + term2);
+  // limits rounding errors when the sun is at the zenith
+  altitude_sun_ = std::asin(std::max(-1.0, std::min(1.0, term1 + term2)));
 
   altitude_sun_ =
       units::ConvertAngle(altitude_sun_,
-- 
2.43.0


From ae3490489ef75050ccaa13d1e21acf275a20b4e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:32 +0000
Subject: [PATCH 48/75] fix: report no solar radiation while the sun is below
 the horizon

---
 src/thermalrating/solar_radiation_solver.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/thermalrating/solar_radiation_solver.cc b/src/thermalrating/solar_radiation_solver.cc
index f53bdba..d382be1 100644
--- a/src/thermalrating/solar_radiation_solver.cc
+++ b/src/thermalrating/solar_radiation_solver.cc
@@ -322,6 +322,13 @@ bool SolarRadiationSolver::SolveRadiation() const {
   polynomial.set_coefficients(&coefficients_atmosphere_);
   radiation_ = polynomial.Y(altitude_sun_);
 
+  // checks for sun positions that do not provide any radiation
+  // the polynomial is not valid when the sun is below the horizon, and drops
+  // below zero right above it
+  if ((altitude_sun_ < 0) || (radiation_ < 0)) {
+    radiation_ = 0;
+  }
+
   // adjusts radiation based on incidence angle and elevation
   const double angle_incidence = AngleIncidence();
   const double angle_incidence_rad = units::ConvertAngle(
-- 
2.43.0


From cb9a6fb6d1ec8d8e53d832a0d28aaba54331debc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:17 +0000
Subject: [PATCH 49/75] fix: stand a structure square to a line that doubles
 back

---
 src/transmissionline/transmission_line.cc | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/transmissionline/transmission_line.cc b/src/transmissionline/transmission_line.cc
index c3700f5..4a2dc61 100644
--- a/src/transmissionline/transmission_line.cc
+++ b/src/transmissionline/transmission_line.cc
@@ -3,6 +3,8 @@
 
 #include "models/transmissionline/transmission_line.h"
 
+#include <cmath>
+
 TransmissionLine::TransmissionLine() {
   is_updated_points_xyz_alignment_ = false;
   is_updated_points_xyz_structures_ = false;
@@ -855,6 +857,13 @@ Vector2d TransmissionLine::VectorXyAlignmentStructure(const int& index) const {
   Vector2d vector_combined;
   vector_combined.set_x(vector_back.x() + vector_ahead.x());
   vector_combined.set_y(vector_back.y() + vector_ahead.y());
+
+  // checks for a line that doubles back, where the vectors cancel out
+  if (vector_combined.Magnitude() < 0.000001) {
+    vector_combined = vector_back;
+    vector_combined.Rotate(std::remainder(iter->rotation, 360.0) / 2);
+  }
+
   vector_combined.Scale(1 / vector_combined.Magnitude());
 
   return vector_combined;
-- 
2.43.0


From fb1ede9b6cc0aa579150c879a505e742dc087fbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:15 +0000
Subject: [PATCH 50/75] fix: refer a copied line cable loader to its own cable

---
 .../sagtension/line_cable_loader_base.h       | 11 +++++++++++
 src/sagtension/line_cable_loader_base.cc      | 19 +++++++++++++++++++
 2 files changed, 30 insertions(+)

diff --git a/include/models/sagtension/line_cable_loader_base.h b/include/models/sagtension/line_cable_loader_base.h
index fb03abc..584b2ea 100644
--- a/include/models/sagtension/line_cable_loader_base.h
+++ b/include/models/sagtension/line_cable_loader_base.h
@@ -35,6 +35,17 @@ class LineCableLoaderBase {
   /// \brief Default constructor.
   LineCableLoaderBase();
 
+  /// \brief Copy constructor.
+  /// \param[in] that
+  ///   The copied loader.
+  LineCableLoaderBase(const LineCableLoaderBase& that);
+
+  /// \brief Copy assignment operator.
+  /// \param[in] that
+  ///   The copied loader.
+  /// \return The copied loader.
+  LineCableLoaderBase& operator=(const LineCableLoaderBase& that);
+
   /// \brief Destructor.
   ~LineCableLoaderBase();
 
diff --git a/src/sagtension/line_cable_loader_base.cc b/src/sagtension/line_cable_loader_base.cc
index 27b718e..ea879a8 100644
--- a/src/sagtension/line_cable_loader_base.cc
+++ b/src/sagtension/line_cable_loader_base.cc
@@ -15,6 +15,25 @@ LineCableLoaderBase::LineCableLoaderBase() {
   is_updated_stretch_ = false;
 }
 
+LineCableLoaderBase::LineCableLoaderBase(const LineCableLoaderBase& that) {
+  // this will call the copy assignment operator
+  *this = that;
+}
+
+LineCableLoaderBase& LineCableLoaderBase::operator=(
+    const LineCableLoaderBase& that) {
+  // transfers members as-is
+  this->cable_sagtension_ = that.cable_sagtension_;
+  this->line_cable_ = that.line_cable_;
+
+  // the cable models still refer to the cable of the copied loader
+  // an update solves them again and refers them to this loader
+  this->is_updated_catenary_constraint_ = false;
+  this->is_updated_stretch_ = false;
+
+  return *this;
+}
+
 LineCableLoaderBase::~LineCableLoaderBase() {
 }
 
-- 
2.43.0


From d0cd998170dae20cc5ff65bae122412814978bfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:25 +0000
Subject: [PATCH 51/75] fix: return no property of a cable without a base

---
 src/sagtension/sag_tension_cable.cc       | 44 +++++++++++++++++++++++
 src/thermalrating/thermal_rating_cable.cc | 23 +++++++++++-
 2 files changed, 66 insertions(+), 1 deletion(-)

diff --git a/src/sagtension/sag_tension_cable.cc b/src/sagtension/sag_tension_cable.cc
index cbb84b0..10b22a8 100644
--- a/src/sagtension/sag_tension_cable.cc
+++ b/src/sagtension/sag_tension_cable.cc
@@ -121,11 +121,19 @@ bool SagTensionCableComponent::Validate(
 
 const double* SagTensionCableComponent::coefficient_expansion_linear_thermal()
     const {
+  if (component_base_ == nullptr) {
+    return nullptr;
+  }
+
   return &component_base_->coefficient_expansion_linear_thermal;
 }
 
 const std::vector<double>* SagTensionCableComponent::coefficients_polynomial(
     const PolynomialType& type_polynomial) const {
+  if (component_base_ == nullptr) {
+    return nullptr;
+  }
+
   if (type_polynomial == PolynomialType::kCreep) {
     return &component_base_->coefficients_polynomial_creep;
   } else if (type_polynomial == PolynomialType::kLoadStrain) {
@@ -141,6 +149,10 @@ const CableComponent* SagTensionCableComponent::component_base() const {
 
 const double* SagTensionCableComponent::load_limit_polynomial(
     const PolynomialType& type_polynomial) const {
+  if (component_base_ == nullptr) {
+    return nullptr;
+  }
+
   if (type_polynomial == PolynomialType::kCreep) {
     return &component_base_->load_limit_polynomial_creep;
   } else if (type_polynomial == PolynomialType::kLoadStrain) {
@@ -152,10 +164,18 @@ const double* SagTensionCableComponent::load_limit_polynomial(
 
 const double* SagTensionCableComponent::modulus_compression_elastic_area()
     const {
+  if (component_base_ == nullptr) {
+    return nullptr;
+  }
+
   return &component_base_->modulus_compression_elastic_area;
 }
 
 const double* SagTensionCableComponent::modulus_tension_elastic_area() const {
+  if (component_base_ == nullptr) {
+    return nullptr;
+  }
+
   return &component_base_->modulus_tension_elastic_area;
 }
 
@@ -171,10 +191,18 @@ void SagTensionCableComponent::set_component_base(
 }
 
 const double* SagTensionCableComponent::scale_polynomial_x() const {
+  if (component_base_ == nullptr) {
+    return nullptr;
+  }
+
   return &component_base_->scale_polynomial_x;
 }
 
 const double* SagTensionCableComponent::scale_polynomial_y() const {
+  if (component_base_ == nullptr) {
+    return nullptr;
+  }
+
   return &component_base_->scale_polynomial_y;
 }
 
@@ -306,6 +334,10 @@ const SagTensionCableComponent* SagTensionCable::component_shell() const {
 }
 
 const double* SagTensionCable::diameter() const {
+  if (cable_base_ == nullptr) {
+    return nullptr;
+  }
+
   return &cable_base_->diameter;
 }
 
@@ -323,13 +355,25 @@ void SagTensionCable::set_cable_base(const Cable* cable_base) {
 }
 
 const double* SagTensionCable::strength_rated() const {
+  if (cable_base_ == nullptr) {
+    return nullptr;
+  }
+
     return &cable_base_->strength_rated;
 }
 
 const double* SagTensionCable::temperature_properties_components() const {
+  if (cable_base_ == nullptr) {
+    return nullptr;
+  }
+
   return &cable_base_->temperature_properties_components;
 }
 
 const double* SagTensionCable::weight_unit() const {
+  if (cable_base_ == nullptr) {
+    return nullptr;
+  }
+
   return &cable_base_->weight_unit;
 }
diff --git a/src/thermalrating/thermal_rating_cable.cc b/src/thermalrating/thermal_rating_cable.cc
index 1329cf0..234529e 100644
--- a/src/thermalrating/thermal_rating_cable.cc
+++ b/src/thermalrating/thermal_rating_cable.cc
@@ -47,6 +47,10 @@ bool ThermalRatingCableComponent::Validate(
 }
 
 const double* ThermalRatingCableComponent::capacity_heat() const {
+  if (component_base_ == nullptr) {
+    return nullptr;
+  }
+
   return &component_base_->capacity_heat;
 }
 
@@ -69,7 +73,8 @@ ThermalRatingCable::~ThermalRatingCable() {
 
 double ThermalRatingCable::Resistance(const double& temperature) const {
   // checks that at least two resistance values are specified
-  if (cable_base_->resistances_ac.size() <= 1) {
+  if ((cable_base_ == nullptr)
+      || (cable_base_->resistances_ac.size() <= 1)) {
     return -999999;
   }
 
@@ -189,6 +194,10 @@ bool ThermalRatingCable::Validate(const bool& is_included_warnings,
 }
 
 const double* ThermalRatingCable::absorptivity() const {
+  if (cable_base_ == nullptr) {
+    return nullptr;
+  }
+
   return &cable_base_->absorptivity;
 }
 
@@ -205,15 +214,27 @@ const ThermalRatingCableComponent* ThermalRatingCable::component_shell() const {
 }
 
 const double* ThermalRatingCable::diameter() const {
+  if (cable_base_ == nullptr) {
+    return nullptr;
+  }
+
   return &cable_base_->diameter;
 }
 
 const double* ThermalRatingCable::emissivity() const {
+  if (cable_base_ == nullptr) {
+    return nullptr;
+  }
+
   return &cable_base_->emissivity;
 }
 
 const std::list<Cable::ResistancePoint>* ThermalRatingCable::resistances_ac()
     const {
+  if (cable_base_ == nullptr) {
+    return nullptr;
+  }
+
   return &cable_base_->resistances_ac;
 }
 
-- 
2.43.0


From 97cc56185c205fa85a9145e3de8b8b6dd9a8bc82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:26 +0000
Subject: [PATCH 52/75] fix: do not enable a sag-tension cable component before
 it is defined

---
 src/sagtension/sag_tension_cable.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/sagtension/sag_tension_cable.cc b/src/sagtension/sag_tension_cable.cc
index 10b22a8..1236833 100644
--- a/src/sagtension/sag_tension_cable.cc
+++ b/src/sagtension/sag_tension_cable.cc
@@ -5,6 +5,8 @@
 
 SagTensionCableComponent::SagTensionCableComponent() {
   component_base_ = nullptr;
+
+  is_enabled_ = false;
 }
 
 SagTensionCableComponent::~SagTensionCableComponent() {
-- 
2.43.0


From b3d8baa06852f8d3287e6f495f78cd561f480b44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:43 +0000
Subject: [PATCH 53/75] fix: do not update a component elongation model with
 unset inputs

---
 .../cable_component_elongation_model.cc          | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/sagtension/cable_component_elongation_model.cc b/src/sagtension/cable_component_elongation_model.cc
index 411681d..eb3be7e 100644
--- a/src/sagtension/cable_component_elongation_model.cc
+++ b/src/sagtension/cable_component_elongation_model.cc
@@ -208,7 +208,9 @@ void CableComponentElongationModel::set_component_cable(
     polynomial_loadstrain_.set_coefficients(coefficients);
 
     // updates extrapolation slopes
-    UpdateModulusExtrapolate();
+    if (component_->component_base() != nullptr) {
+      UpdateModulusExtrapolate();
+    }
   }
 
   is_updated_stretch_ = false;
@@ -566,6 +568,18 @@ double CableComponentElongationModel::StrainThermal(
 }
 
 bool CableComponentElongationModel::Update() const {
+  // checks if inputs are defined
+  if ((component_ == nullptr) || (component_->component_base() == nullptr)
+      || (state_ == nullptr) || (state_stretch_ == nullptr)
+      || (temperature_reference_ == nullptr)) {
+    return false;
+  }
+
+  if (state_->type_polynomial
+      == SagTensionCableComponent::PolynomialType::kNull) {
+    return false;
+  }
+
   // updates stretch
   if (is_updated_stretch_ == false) {
     is_updated_stretch_ = UpdateStretch();
-- 
2.43.0


From 9b77932ced42e680bd0cc27882925c45b257a2dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:55 +0000
Subject: [PATCH 54/75] fix: do not update an elongation model without a cable

---
 src/sagtension/cable_elongation_model.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/sagtension/cable_elongation_model.cc b/src/sagtension/cable_elongation_model.cc
index 5984452..bbf46d2 100644
--- a/src/sagtension/cable_elongation_model.cc
+++ b/src/sagtension/cable_elongation_model.cc
@@ -438,6 +438,11 @@ double CableElongationModel::StrainShell(const double& load) const {
 }
 
 bool CableElongationModel::Update() const {
+  // checks if cable is defined
+  if ((cable_ == nullptr) || (cable_->cable_base() == nullptr)) {
+    return false;
+  }
+
   // updates stretch
   if (is_updated_stretch_ == false) {
     is_updated_stretch_ = UpdateComponentsStretch();
-- 
2.43.0


From 4ed8149ff37ba17368f44cdf473435ed02a49a9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:05 +0000
Subject: [PATCH 55/75] fix: reject a cable strainer without elongation models

---
 src/sagtension/cable_strainer.cc | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/src/sagtension/cable_strainer.cc b/src/sagtension/cable_strainer.cc
index e00f55b..c5fe2b6 100644
--- a/src/sagtension/cable_strainer.cc
+++ b/src/sagtension/cable_strainer.cc
@@ -23,6 +23,12 @@ CableStrainer::~CableStrainer() {
 /// same transition strain, the final length would be equal to the initial
 /// length.
 double CableStrainer::LengthFinish() const {
+  // checks if elongation models are defined
+  if ((model_elongation_start_ == nullptr)
+      || (model_elongation_finish_ == nullptr)) {
+    return -999999;
+  }
+
   // gets the start and finish strains
   const double strain_start = model_elongation_start_->Strain(
       CableElongationModel::ComponentType::kCombined, load_start_);
@@ -75,6 +81,24 @@ bool CableStrainer::Validate(const bool& is_included_warnings,
     }
   }
 
+  // validates start elongation model
+  if (model_elongation_start_ == nullptr) {
+    is_valid = false;
+    if (messages != nullptr) {
+      message.description = "Invalid start elongation model";
+      messages->push_back(message);
+    }
+  }
+
+  // validates finish elongation model
+  if (model_elongation_finish_ == nullptr) {
+    is_valid = false;
+    if (messages != nullptr) {
+      message.description = "Invalid finish elongation model";
+      messages->push_back(message);
+    }
+  }
+
   // returns if errors are present
   if (is_valid == false) {
     return is_valid;
-- 
2.43.0


From 912b93a91f15a607e831953c3c2464b6299ff61b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:06 +0000
Subject: [PATCH 56/75] fix: accept an unset catenary in the catenary unloader

---
 src/sagtension/catenary_cable_unloader.cc | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/sagtension/catenary_cable_unloader.cc b/src/sagtension/catenary_cable_unloader.cc
index 4a5b564..ae7142f 100644
--- a/src/sagtension/catenary_cable_unloader.cc
+++ b/src/sagtension/catenary_cable_unloader.cc
@@ -60,8 +60,13 @@ const CableElongationModel* CatenaryCableUnloader::model_unloaded() const {
 void CatenaryCableUnloader::set_catenary(const Catenary3d* catenary) {
   catenary_ = catenary;
 
-  strainer_.set_length_start(catenary_->Length());
-  strainer_.set_load_start(catenary_->TensionAverage());
+  if (catenary_ == nullptr) {
+    strainer_.set_length_start(-999999);
+    strainer_.set_load_start(-999999);
+  } else {
+    strainer_.set_length_start(catenary_->Length());
+    strainer_.set_load_start(catenary_->TensionAverage());
+  }
 }
 
 void CatenaryCableUnloader::set_model_reference(
-- 
2.43.0


From 7bfecc416505ec61594d35576b78f64a8a6dcc3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:15 +0000
Subject: [PATCH 57/75] fix: do not reload a catenary with unset inputs

---
 src/sagtension/catenary_cable_reloader.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/sagtension/catenary_cable_reloader.cc b/src/sagtension/catenary_cable_reloader.cc
index f7ad3ea..4858fe7 100644
--- a/src/sagtension/catenary_cable_reloader.cc
+++ b/src/sagtension/catenary_cable_reloader.cc
@@ -329,6 +329,12 @@ bool CatenaryCableReloader::SolveReloadedCatenaryTension() const {
 }
 
 bool CatenaryCableReloader::Update() const {
+  // checks if inputs are defined
+  if ((catenary_ == nullptr) || (model_reference_ == nullptr)
+      || (model_reloaded_ == nullptr) || (weight_unit_reloaded_ == nullptr)) {
+    return false;
+  }
+
   // updates catenary-cable-reloaded
   if (is_updated_catenary_reloaded_ == false) {
     is_updated_catenary_reloaded_ = SolveReloadedCatenaryTension();
-- 
2.43.0


From 1808dac4525d078a10bbc570a15530c988749b51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:17 +0000
Subject: [PATCH 58/75] fix: solve nothing for a polynomial without
 coefficients

---
 src/base/polynomial.cc | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/base/polynomial.cc b/src/base/polynomial.cc
index 18ce4a5..a71732b 100644
--- a/src/base/polynomial.cc
+++ b/src/base/polynomial.cc
@@ -52,6 +52,11 @@ Polynomial Polynomial::Derivative() const {
 }
 
 int Polynomial::OrderMax() const {
+  // a polynomial without coefficients does not have an order
+  if (coefficients_ == nullptr) {
+    return -1;
+  }
+
   return coefficients_->size() - 1;
 }
 
@@ -141,6 +146,11 @@ double Polynomial::X(const double& y, const int& decimal_precision_y,
 }
 
 double Polynomial::Y(const double& x) const {
+  // checks that there are coefficients to solve with
+  if (coefficients_ == nullptr) {
+    return -999999;
+  }
+
   double y = 0;
 
   const int order_max = OrderMax();
@@ -179,6 +189,11 @@ bool Polynomial::Update() const {
 }
 
 bool Polynomial::UpdateDerivative() const {
+  // checks that there are coefficients to solve for
+  if ((coefficients_ == nullptr) || (coefficients_->empty() == true)) {
+    return false;
+  }
+
   const int order_max = OrderMax();
 
   // calculates derivative coefficients
-- 
2.43.0


From a3ef66e8364a1559bb62de6e59bef1ea5ca93004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:40 +0000
Subject: [PATCH 59/75] fix: transfer no heat for a solver with unset inputs

---
 .../cable_heat_transfer_solver.h              |  4 +++
 .../cable_heat_transfer_solver.cc             | 26 +++++++++++++++++++
 2 files changed, 30 insertions(+)

diff --git a/include/models/thermalrating/cable_heat_transfer_solver.h b/include/models/thermalrating/cable_heat_transfer_solver.h
index 2f16985..e947fa0 100644
--- a/include/models/thermalrating/cable_heat_transfer_solver.h
+++ b/include/models/thermalrating/cable_heat_transfer_solver.h
@@ -138,6 +138,10 @@ class CableHeatTransferSolver {
   double HeatConvectionNatural(const double& density_air,
                                const double& temperature_cable) const;
 
+  /// \brief Determines if the inputs that are referenced are defined.
+  /// \return A boolean indicating if the cable and weather are defined.
+  bool IsDefined() const;
+
   /// \var cable_
   ///   The cable.
   const ThermalRatingCable* cable_;
diff --git a/src/thermalrating/cable_heat_transfer_solver.cc b/src/thermalrating/cable_heat_transfer_solver.cc
index 753b61e..5c01c88 100644
--- a/src/thermalrating/cable_heat_transfer_solver.cc
+++ b/src/thermalrating/cable_heat_transfer_solver.cc
@@ -16,6 +16,11 @@ CableHeatTransferSolver::~CableHeatTransferSolver() {
 
 double CableHeatTransferSolver::HeatConvection(
     const double& temperature_cable) const {
+  // checks if inputs are defined
+  if (IsDefined() == false) {
+    return -999999;
+  }
+
   // calculates the film temperature
   const double temperature_film =
       (temperature_cable + weather_->temperature_air) / 2;
@@ -88,6 +93,11 @@ double CableHeatTransferSolver::HeatConvection(
 
 double CableHeatTransferSolver::HeatRadiation(
     const double& temperature_cable) const {
+  // checks if inputs are defined
+  if (IsDefined() == false) {
+    return -999999;
+  }
+
   // selects constant based on unit system
   double k = -999999;
   if (units_ == units::UnitSystem::kImperial) {
@@ -108,6 +118,11 @@ double CableHeatTransferSolver::HeatRadiation(
 double CableHeatTransferSolver::HeatResistance(
     const double& temperature_cable,
     const double& current) const {
+  // checks if inputs are defined
+  if (cable_ == nullptr) {
+    return -999999;
+  }
+
   // gets the resistance of the cable at a specific temperature
   const double resistance_cable = cable_->Resistance(temperature_cable);
 
@@ -116,6 +131,11 @@ double CableHeatTransferSolver::HeatResistance(
 }
 
 double CableHeatTransferSolver::HeatSolar() const {
+  // checks if inputs are defined
+  if (IsDefined() == false) {
+    return -999999;
+  }
+
   // gets the projected area of cable (area per linear length)
   const double area_projected = *cable_->diameter() * 1;
 
@@ -268,3 +288,9 @@ double CableHeatTransferSolver::HeatConvectionNatural(
     return heat_convection_natural;
   }
 }
+
+bool CableHeatTransferSolver::IsDefined() const {
+  return (cable_ != nullptr)
+      && (cable_->cable_base() != nullptr)
+      && (weather_ != nullptr);
+}
-- 
2.43.0


From 3eda10bf073266be3541700278b5200f5c8863f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:41 +0000
Subject: [PATCH 60/75] fix: do not update a cable temperature solver with
 invalid inputs

---
 .../steady_cable_current_solver.cc             |  5 +++++
 .../steady_cable_temperature_solver.cc         | 10 ++++++++++
 .../transient_cable_temperature_solver.cc      | 18 ++++++++++++++++++
 3 files changed, 33 insertions(+)

diff --git a/src/thermalrating/steady_cable_current_solver.cc b/src/thermalrating/steady_cable_current_solver.cc
index 85ef28b..1d055d9 100644
--- a/src/thermalrating/steady_cable_current_solver.cc
+++ b/src/thermalrating/steady_cable_current_solver.cc
@@ -93,6 +93,11 @@ bool SteadyCableCurrentSolver::Validate(
     }
   }
 
+  // returns if errors are present
+  if (is_valid == false) {
+    return is_valid;
+  }
+
   // validates update process
   if (Update() == false) {
     is_valid = false;
diff --git a/src/thermalrating/steady_cable_temperature_solver.cc b/src/thermalrating/steady_cable_temperature_solver.cc
index a7eb8d5..4859eb4 100644
--- a/src/thermalrating/steady_cable_temperature_solver.cc
+++ b/src/thermalrating/steady_cable_temperature_solver.cc
@@ -93,6 +93,11 @@ bool SteadyCableTemperatureSolver::Validate(
     }
   }
 
+  // returns if errors are present
+  if (is_valid == false) {
+    return is_valid;
+  }
+
   // validates update process
   if (Update() == false) {
     is_valid = false;
@@ -149,6 +154,11 @@ bool SteadyCableTemperatureSolver::IsUpdated() const {
 }
 
 bool SteadyCableTemperatureSolver::SolveTemperatureAndState() const {
+  // checks if inputs are defined
+  if ((cable_ == nullptr) || (weather_ == nullptr)) {
+    return false;
+  }
+
   // creates a steady-state cable current solver
   SteadyCableCurrentSolver solver;
   solver.set_cable(cable_);
diff --git a/src/thermalrating/transient_cable_temperature_solver.cc b/src/thermalrating/transient_cable_temperature_solver.cc
index 264edfc..2383265 100644
--- a/src/thermalrating/transient_cable_temperature_solver.cc
+++ b/src/thermalrating/transient_cable_temperature_solver.cc
@@ -39,6 +39,19 @@ bool TransientCableTemperatureSolver::Validate(
   ErrorMessage message;
   message.title = "TRANSIENT CABLE TEMPERATURE SOLVER";
 
+  // validates cable
+  if (cable_ == nullptr) {
+    is_valid = false;
+    if (messages != nullptr) {
+      message.description = "Invalid cable";
+      messages->push_back(message);
+    }
+  } else {
+    if (cable_->Validate(is_included_warnings, messages) == false) {
+      is_valid = false;
+    }
+  }
+
   // validates current-steady
   if (current_steady_ < 0) {
     is_valid = false;
@@ -88,6 +101,11 @@ bool TransientCableTemperatureSolver::Validate(
     }
   }
 
+  // returns if errors are present
+  if (is_valid == false) {
+    return is_valid;
+  }
+
   // validates update process
   if (Update() == false) {
     is_valid = false;
-- 
2.43.0


From 71a5c2232b3ecb7f4fa33ab8b00ac4feb27e074f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:11 +0000
Subject: [PATCH 61/75] fix: do not overflow the wave count or hour

---
 include/models/thermalrating/solar_radiation_solver.h | 2 +-
 src/sagging/stopwatch_sagger.cc                       | 2 +-
 src/thermalrating/solar_radiation_solver.cc           | 4 ++--
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/models/thermalrating/solar_radiation_solver.h b/include/models/thermalrating/solar_radiation_solver.h
index c5a4a33..b898f28 100644
--- a/include/models/thermalrating/solar_radiation_solver.h
+++ b/include/models/thermalrating/solar_radiation_solver.h
@@ -140,7 +140,7 @@ class SolarRadiationSolver {
   /// \return The hour angle (degrees).
   /// The hour angle is the number of hours from noon x 15 degrees.
   /// Ex: 11:00 = -15 degrees, 13:00 = 15 degrees
-  int AngleHour(const int& hour) const;
+  double AngleHour(const int& hour) const;
 
   /// \brief Gets the incidence angle between the cable and sun.
   /// \return The indidence angle between the cable and sun (degrees).
diff --git a/src/sagging/stopwatch_sagger.cc b/src/sagging/stopwatch_sagger.cc
index 5874897..3cd8a77 100644
--- a/src/sagging/stopwatch_sagger.cc
+++ b/src/sagging/stopwatch_sagger.cc
@@ -24,7 +24,7 @@ double StopwatchSagger::TimeReturn(const int& wave) const {
     return -999999;
   }
 
-  return (wave * 2 * length_) / velocity_wave_;
+  return (2.0 * wave * length_) / velocity_wave_;
 }
 
 bool StopwatchSagger::Validate(const bool& is_included_warnings,
diff --git a/src/thermalrating/solar_radiation_solver.cc b/src/thermalrating/solar_radiation_solver.cc
index d382be1..467f71a 100644
--- a/src/thermalrating/solar_radiation_solver.cc
+++ b/src/thermalrating/solar_radiation_solver.cc
@@ -207,8 +207,8 @@ units::UnitSystem SolarRadiationSolver::units() const {
   return units_;
 }
 
-int SolarRadiationSolver::AngleHour(const int& hour) const {
-  return (hour - 12) * 15;
+double SolarRadiationSolver::AngleHour(const int& hour) const {
+  return (hour - 12.0) * 15;
 }
 
 double SolarRadiationSolver::AngleIncidence() const {
-- 
2.43.0


From dcdb9d43556032bcb8a5a28c9825ce0a28d1ed0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:11 +0000
Subject: [PATCH 62/75] fix: load no cable with unset properties

---
 src/transmissionline/cable_unit_load_solver.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/transmissionline/cable_unit_load_solver.cc b/src/transmissionline/cable_unit_load_solver.cc
index 92047bc..0fca3ea 100644
--- a/src/transmissionline/cable_unit_load_solver.cc
+++ b/src/transmissionline/cable_unit_load_solver.cc
@@ -49,6 +49,11 @@ bool CableUnitLoadSolver::Validate(
 /// \f[ T = AP \f]
 Vector3d CableUnitLoadSolver::UnitCableLoad(
     const WeatherLoadCase& case_load_weather) const {
+  // checks if inputs are defined
+  if ((diameter_cable_ == nullptr) || (weight_unit_cable_ == nullptr)) {
+    return Vector3d();
+  }
+
   // creates bare and iced cylinders
   Cylinder cylinder_bare;
   cylinder_bare.set_diameter(*diameter_cable_);
-- 
2.43.0


From 6150c1797ed8a4afda53a54bc87c8e883ab14b07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:13 +0000
Subject: [PATCH 63/75] fix: load no line cable with unset inputs

---
 src/sagtension/line_cable_loader_base.cc | 14 +++++++++++++-
 src/sagtension/line_cable_reloader.cc    |  5 +++++
 src/transmissionline/line_cable.cc       |  6 ++++++
 3 files changed, 24 insertions(+), 1 deletion(-)

diff --git a/src/sagtension/line_cable_loader_base.cc b/src/sagtension/line_cable_loader_base.cc
index ea879a8..56ef587 100644
--- a/src/sagtension/line_cable_loader_base.cc
+++ b/src/sagtension/line_cable_loader_base.cc
@@ -206,13 +206,25 @@ Vector3d LineCableLoaderBase::UnitLoad(
 }
 
 bool LineCableLoaderBase::Update() const {
+  // checks if inputs are defined
+  if ((line_cable_ == nullptr) || (line_cable_->cable() == nullptr)
+      || (line_cable_->weathercase_stretch_creep() == nullptr)
+      || (line_cable_->weathercase_stretch_load() == nullptr)) {
+    is_updated_catenary_constraint_ = false;
+    is_updated_stretch_ = false;
+    return false;
+  }
+
   // updates constraint catenary
   is_updated_catenary_constraint_ = UpdateConstraintCatenary();
   if (is_updated_catenary_constraint_ == false) {
     return false;
   }
 
-  InitializeLineCableModels();
+  is_updated_catenary_constraint_ = InitializeLineCableModels();
+  if (is_updated_catenary_constraint_ == false) {
+    return false;
+  }
 
   is_updated_catenary_constraint_ = UpdateConstraintCableModel();
   if (is_updated_catenary_constraint_ == false) {
diff --git a/src/sagtension/line_cable_reloader.cc b/src/sagtension/line_cable_reloader.cc
index 3ca7d06..5fb7cea 100644
--- a/src/sagtension/line_cable_reloader.cc
+++ b/src/sagtension/line_cable_reloader.cc
@@ -201,6 +201,11 @@ bool LineCableReloader::Update() const {
 }
 
 bool LineCableReloader::UpdateReloadedCableModel() const {
+  // checks if inputs are defined
+  if (weathercase_reloaded_ == nullptr) {
+    return false;
+  }
+
   // builds cable states based on reloaded weathercase and stretch
   CableState state;
   state.temperature = weathercase_reloaded_->temperature_cable;
diff --git a/src/transmissionline/line_cable.cc b/src/transmissionline/line_cable.cc
index cc8caaf..830f00c 100644
--- a/src/transmissionline/line_cable.cc
+++ b/src/transmissionline/line_cable.cc
@@ -56,6 +56,12 @@ int LineCable::AddConnection(const LineCableConnection& connection) {
 Catenary3d LineCable::CatenaryRulingSpan() const {
   // initializes
   Catenary3d catenary;
+
+  // checks if inputs are defined
+  if ((cable_ == nullptr) || (constraint_.case_weather == nullptr)) {
+    return catenary;
+  }
+
   catenary.set_spacing_endpoints(spacing_attachments_ruling_span_);
 
   // solves for the unit loads
-- 
2.43.0


From eb577e3783aced7dd0b5dd6d824f479fc5b969ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:14 +0000
Subject: [PATCH 64/75] fix: sag no line cable with unset inputs

---
 src/sagtension/line_cable_sagger.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/sagtension/line_cable_sagger.cc b/src/sagtension/line_cable_sagger.cc
index 9696ad5..e89a4cd 100644
--- a/src/sagtension/line_cable_sagger.cc
+++ b/src/sagtension/line_cable_sagger.cc
@@ -201,6 +201,11 @@ bool LineCableSagger::IsValidIndex(const int& index) const {
 }
 
 bool LineCableSagger::Update() const {
+  // checks if inputs are defined
+  if ((line_cable_ == nullptr) || (constraints_design_ == nullptr)) {
+    return false;
+  }
+
   // updates line cable constraint limit
   if (is_updated_linecable_constraint_limit_ == false) {
     is_updated_linecable_constraint_limit_ = UpdateLineCableConstraintLimit();
-- 
2.43.0


From 58f18815b0e04d795786260a012d6c5c391451cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:15 +0000
Subject: [PATCH 65/75] fix: correct no cable position with unset inputs

---
 src/sagging/cable_sag_position_corrector.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/sagging/cable_sag_position_corrector.cc b/src/sagging/cable_sag_position_corrector.cc
index cc1eb44..1ec9fcf 100644
--- a/src/sagging/cable_sag_position_corrector.cc
+++ b/src/sagging/cable_sag_position_corrector.cc
@@ -261,6 +261,11 @@ bool CableSagPositionCorrector::UpdateClippedState() const {
   catenaries_clipped_.clear();
   length_clipped_ = -999999;
 
+  // checks if inputs are defined
+  if ((linecable_ == nullptr) || (points_attachment_ == nullptr)) {
+    return false;
+  }
+
   // checks that there is at least one span
   if (points_attachment_->size() <= 1) {
     return false;
-- 
2.43.0


From f8972e86f25f7e5b6faf98e39d531bbbb829292b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:16 +0000
Subject: [PATCH 66/75] fix: balance no cable attachment with unset inputs

---
 src/transmissionline/cable_attachment_equilibrium_solver.cc | 5 +++++
 src/transmissionline/cable_position_locator.cc              | 6 ++++++
 2 files changed, 11 insertions(+)

diff --git a/src/transmissionline/cable_attachment_equilibrium_solver.cc b/src/transmissionline/cable_attachment_equilibrium_solver.cc
index ac528e5..a508ac7 100644
--- a/src/transmissionline/cable_attachment_equilibrium_solver.cc
+++ b/src/transmissionline/cable_attachment_equilibrium_solver.cc
@@ -171,6 +171,11 @@ bool CableAttachmentEquilibriumSolver::IsUpdated() const {
 }
 
 bool CableAttachmentEquilibriumSolver::Update() const {
+  // checks if inputs are defined
+  if ((catenary_ahead_ == nullptr) || (catenary_back_ == nullptr)) {
+    return false;
+  }
+
   // initializes
   Vector3d tension(0, 0, 0);
   tension_cable_ = Vector3d(0, 0, 0);
diff --git a/src/transmissionline/cable_position_locator.cc b/src/transmissionline/cable_position_locator.cc
index 2462a50..a558583 100644
--- a/src/transmissionline/cable_position_locator.cc
+++ b/src/transmissionline/cable_position_locator.cc
@@ -402,6 +402,12 @@ bool CablePositionLocator::SolveCablePosition() const {
 }
 
 bool CablePositionLocator::Update() const {
+  // checks if inputs are defined
+  if ((line_ == nullptr) || (weight_unit_ == nullptr)) {
+    is_updated_ = false;
+    return false;
+  }
+
   // resizes containers to match connection size
   is_updated_ = InitializeContainers();
   if (is_updated_ == false) {
-- 
2.43.0


From 4f23439773b0c370d1b2d11d901b9866f289606d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:27 +0000
Subject: [PATCH 67/75] fix: locate no attachment of a structure that is off
 the alignment

---
 src/transmissionline/transmission_line.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/transmissionline/transmission_line.cc b/src/transmissionline/transmission_line.cc
index 4a2dc61..786d0c0 100644
--- a/src/transmissionline/transmission_line.cc
+++ b/src/transmissionline/transmission_line.cc
@@ -423,6 +423,11 @@ Point3d<double> TransmissionLine::PointXyzLineStructureAttachment(
     return Point3d<double>();
   }
 
+  // checks if structure is on the alignment
+  if (alignment_.IndexSegment(line_structure.station()) == -1) {
+    return Point3d<double>();
+  }
+
   // checks if attachment index is valid
   const int kSizeAttachments = line_structure.structure()->attachments.size();
   if ((index_attachment < 0) || (kSizeAttachments <= index_attachment)) {
-- 
2.43.0


From eaa59bb17f663bcaf99dd0f11a99c0d1ce355b71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:29 +0000
Subject: [PATCH 68/75] fix: strain no cable without an enabled component

---
 src/sagtension/cable_component_elongation_model.cc | 2 +-
 src/sagtension/cable_elongation_model.cc           | 5 +++++
 src/thermalrating/solar_radiation_solver.cc        | 2 +-
 3 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/sagtension/cable_component_elongation_model.cc b/src/sagtension/cable_component_elongation_model.cc
index eb3be7e..b23123a 100644
--- a/src/sagtension/cable_component_elongation_model.cc
+++ b/src/sagtension/cable_component_elongation_model.cc
@@ -544,7 +544,7 @@ double CableComponentElongationModel::StrainPolynomial(
   // selects a precision in polynomial units, so the load is within 0.01
   const double& scale = *component_->scale_polynomial_y();
   int precision = 2;
-  if (1 < scale) {
+  if ((1 < scale) && (std::isfinite(scale) == true)) {
     precision += std::ceil(std::log10(scale));
   }
 
diff --git a/src/sagtension/cable_elongation_model.cc b/src/sagtension/cable_elongation_model.cc
index bbf46d2..58255a0 100644
--- a/src/sagtension/cable_elongation_model.cc
+++ b/src/sagtension/cable_elongation_model.cc
@@ -301,6 +301,11 @@ double CableElongationModel::SlopeShell(const double& strain) const {
 double CableElongationModel::StrainCombined(
     const double& load,
     const int& precision_decimal_load) const {
+  // checks for a cable that doesn't have any component to strain
+  if (points_regions_.empty() == true) {
+    return -999999;
+  }
+
   // x = strain
   // y = load
 
diff --git a/src/thermalrating/solar_radiation_solver.cc b/src/thermalrating/solar_radiation_solver.cc
index 467f71a..b7ddf7c 100644
--- a/src/thermalrating/solar_radiation_solver.cc
+++ b/src/thermalrating/solar_radiation_solver.cc
@@ -238,7 +238,7 @@ double SolarRadiationSolver::AngleIncidence() const {
 
 double SolarRadiationSolver::Declination() const {
   // gets an angle based on day of year
-  const double angle_degrees = static_cast<double>(284 + day_) / 365 * 360;
+  const double angle_degrees = (284.0 + day_) / 365 * 360;
   const double angle_radians = units::ConvertAngle(
       angle_degrees,
       units::AngleConversionType::kDegreesToRadians);
-- 
2.43.0


From ae39ca728ee34e8243273ab80b21dc9fc084b761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:38 +0000
Subject: [PATCH 69/75] fix: reject a stretch state or structure with an
 invalid part

---
 src/sagtension/cable_state.cc     | 4 +++-
 src/transmissionline/structure.cc | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/sagtension/cable_state.cc b/src/sagtension/cable_state.cc
index 5d274b3..faad420 100644
--- a/src/sagtension/cable_state.cc
+++ b/src/sagtension/cable_state.cc
@@ -54,7 +54,9 @@ bool CableStretchState::Validate(const bool& is_included_warnings,
   message.title = "CABLE STRETCH STATE";
 
   // validates parent struct
-  CableState::Validate(is_included_warnings, messages);
+  if (CableState::Validate(is_included_warnings, messages) == false) {
+    is_valid = false;
+  }
 
   // validates load
   if (load < 0) {
diff --git a/src/transmissionline/structure.cc b/src/transmissionline/structure.cc
index c94a8d3..2978f08 100644
--- a/src/transmissionline/structure.cc
+++ b/src/transmissionline/structure.cc
@@ -59,7 +59,9 @@ bool Structure::Validate(
   } else {
     for (auto iter = attachments.cbegin(); iter != attachments.cend(); iter++) {
       const StructureAttachment& attachment = *iter;
-      attachment.Validate(is_included_warnings, messages);
+      if (attachment.Validate(is_included_warnings, messages) == false) {
+        is_valid = false;
+      }
     }
   }
 
-- 
2.43.0


From 651f32e9e2bd78cd18b77ef4eb9c82d26b944424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:39 +0000
Subject: [PATCH 70/75] fix: explain why a line cable loader is rejected

---
 src/sagtension/line_cable_loader_base.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sagtension/line_cable_loader_base.cc b/src/sagtension/line_cable_loader_base.cc
index 56ef587..f18e0ba 100644
--- a/src/sagtension/line_cable_loader_base.cc
+++ b/src/sagtension/line_cable_loader_base.cc
@@ -91,7 +91,8 @@ bool LineCableLoaderBase::Validate(
   }
 
   // validates update process
-  if (Update() == false) {
+  // a derived class reports if only its own part could not be updated
+  if ((Update() == false) && (LineCableLoaderBase::IsUpdated() == false)) {
     is_valid = false;
     if (messages != nullptr) {
       message.description = "";
-- 
2.43.0


From 0648eeb4a0ab7146981ba05af6dbf7d409e7b0a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:55 +0000
Subject: [PATCH 71/75] fix: reject a line cable connection without a structure

---
 src/transmissionline/line_cable.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/transmissionline/line_cable.cc b/src/transmissionline/line_cable.cc
index 830f00c..587c3cc 100644
--- a/src/transmissionline/line_cable.cc
+++ b/src/transmissionline/line_cable.cc
@@ -271,10 +271,11 @@ bool LineCable::ValidateConnections(const bool& /*is_included_warnings*/,
       const LineStructure* structure = connection->line_structure;
 
       // checks for hardware at the attachment
-      const int kSizeHardwares = structure->hardwares()->size();
       const Hardware* hardware = nullptr;
-      if ((0 <= connection->index_attachment)
-          && (connection->index_attachment < kSizeHardwares)) {
+      if ((structure != nullptr)
+          && (0 <= connection->index_attachment)
+          && (connection->index_attachment
+              < static_cast<int>(structure->hardwares()->size()))) {
         hardware = structure->hardwares()->at(connection->index_attachment);
       }
 
-- 
2.43.0


From b236c906e5107e6a537afb5b67988f2fab467457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:57 +0000
Subject: [PATCH 72/75] fix: check the slope of the whole polynomial

---
 .../cable_component_elongation_model.cc        | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/sagtension/cable_component_elongation_model.cc b/src/sagtension/cable_component_elongation_model.cc
index b23123a..7c8e76e 100644
--- a/src/sagtension/cable_component_elongation_model.cc
+++ b/src/sagtension/cable_component_elongation_model.cc
@@ -902,12 +902,15 @@ bool CableComponentElongationModel::ValidatePolynomialShape(
 
   // searches creep polynomial for validation errors
   strain_polynomial_min = StrainPolynomial(polynomial_creep_, 0, 0);
-  strain_polynomial_max = *component_->load_limit_polynomial(
-      SagTensionCableComponent::PolynomialType::kCreep);
+  strain_polynomial_max = StrainPolynomial(
+      polynomial_creep_,
+      0,
+      *component_->load_limit_polynomial(
+          SagTensionCableComponent::PolynomialType::kCreep));
 
   for (int iter = 0; iter < 50; iter++) {
     // calculates evenly spaced strain values from minimum to maximum values
-    const double strain = strain_polynomial_min + ((iter / 50)
+    const double strain = strain_polynomial_min + ((iter / 50.0)
                           * (strain_polynomial_max - strain_polynomial_min));
 
     // calculates slope at strain point
@@ -940,12 +943,15 @@ bool CableComponentElongationModel::ValidatePolynomialShape(
 
   // searches load-strain polynomial for validation errors
   strain_polynomial_min = StrainPolynomial(polynomial_loadstrain_, 0, 0);
-  strain_polynomial_max = *component_->load_limit_polynomial(
-      SagTensionCableComponent::PolynomialType::kLoadStrain);
+  strain_polynomial_max = StrainPolynomial(
+      polynomial_loadstrain_,
+      0,
+      *component_->load_limit_polynomial(
+          SagTensionCableComponent::PolynomialType::kLoadStrain));
 
   for (int iter = 0; iter < 50; iter++) {
     // calculates evenly spaced strain values from minimum to maximum values
-    const double strain = strain_polynomial_min + ((iter / 50)
+    const double strain = strain_polynomial_min + ((iter / 50.0)
                           * (strain_polynomial_max - strain_polynomial_min));
 
     // calculates slope at strain point
-- 
2.43.0


From fb361920126272a3bc5e1209f90d3f10031cb058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:10:15 +0000
Subject: [PATCH 73/75] fix: compare component limits with the polynomial they
 belong to

The strain limits of the components are evaluated on the load-strain
polynomials, but the limit load was that of the polynomial of the current
state. A cable was warned about, or not, depending on the state it is in.
---
 src/sagtension/cable_elongation_model.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sagtension/cable_elongation_model.cc b/src/sagtension/cable_elongation_model.cc
index 58255a0..b249a37 100644
--- a/src/sagtension/cable_elongation_model.cc
+++ b/src/sagtension/cable_elongation_model.cc
@@ -600,7 +600,7 @@ bool CableElongationModel::ValidateComponentsStrainLimit(
     // gets polynomial limit for core
     const double strain_limit_polynomial_core = StrainCore(
         *model_core_.component_cable()->load_limit_polynomial(
-            state_.type_polynomial));
+            state.type_polynomial));
 
     // compares against max strain
     // if component limit is less that rated strength strain, generates error
@@ -619,7 +619,7 @@ bool CableElongationModel::ValidateComponentsStrainLimit(
     // gets polynomial limit for shell
     const double strain_limit_polynomial_shell = StrainShell(
         *model_shell_.component_cable()->load_limit_polynomial(
-            state_.type_polynomial));
+            state.type_polynomial));
 
     // compares against max strain
     // if component limit is less that rated strength strain, generates error
-- 
2.43.0


From f3e3dfb50dc4c475034ee5f68bb1c5dbb6242cc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:41:31 +0000
Subject: [PATCH 74/75] fix: copy an element before the list it may come from
 is modified

---
 src/transmissionline/alignment.cc         | 5 ++++-
 src/transmissionline/line_cable.cc        | 5 ++++-
 src/transmissionline/transmission_line.cc | 5 ++++-
 3 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/transmissionline/alignment.cc b/src/transmissionline/alignment.cc
index d8f0e80..9ac66df 100644
--- a/src/transmissionline/alignment.cc
+++ b/src/transmissionline/alignment.cc
@@ -143,11 +143,14 @@ int Alignment::ModifyPoint(const int& index, const AlignmentPoint& point) {
 
   // caches specified point in case something goes wrong
   AlignmentPoint point_cache = *std::next(points_.cbegin(), index);
+
+  // copies point, which may reference the one that is being deleted
+  const AlignmentPoint point_new = point;
   if (DeletePoint(index) == false) {
     return -1;
   }
 
-  const int status = AddPoint(point);
+  const int status = AddPoint(point_new);
   if (status == -1) {
     // resets cached point
     AddPoint(point_cache);
diff --git a/src/transmissionline/line_cable.cc b/src/transmissionline/line_cable.cc
index 587c3cc..f424023 100644
--- a/src/transmissionline/line_cable.cc
+++ b/src/transmissionline/line_cable.cc
@@ -136,11 +136,14 @@ int LineCable::ModifyConnection(const int& index,
   // caches specified connection in case something goes wrong
   LineCableConnection connection_cache = *std::next(connections_.cbegin(),
                                                     index);
+
+  // copies connection, which may reference the one that is being deleted
+  const LineCableConnection connection_new = connection;
   if (DeleteConnection(index) == false) {
     return -1;
   }
 
-  const int status = AddConnection(connection);
+  const int status = AddConnection(connection_new);
   if (status == -1) {
     // resets cached connection
     AddConnection(connection_cache);
diff --git a/src/transmissionline/transmission_line.cc b/src/transmissionline/transmission_line.cc
index 786d0c0..a988a88 100644
--- a/src/transmissionline/transmission_line.cc
+++ b/src/transmissionline/transmission_line.cc
@@ -290,13 +290,16 @@ int TransmissionLine::ModifyLineCable(const int& index,
   auto iter = std::next(line_cables_.begin(), index);
   const LineCable line_cable_cache = *iter;
 
+  // copies line cable, which may reference the one that is being deleted
+  const LineCable line_cable_new = line_cable;
+
   // deletes and then adds back
   bool status = DeleteLineCable(index);
   if (status == false) {
     return -1;
   }
 
-  const int index_new = AddLineCable(line_cable);
+  const int index_new = AddLineCable(line_cable_new);
   if (index_new == -1) {
     // adds back original line cable
     AddLineCable(line_cable_cache);
-- 
2.43.0


From 978cc3cd0152ca81dea9ebf8136dbf78ddf737be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:12:39 +0000
Subject: [PATCH 75/75] fix: check the balance of the located cable after the
 last move of the hardware

The loop stopped when the imbalance before the last move was small. A small
force could reverse when the attachment points moved, so that the hardware was
left pointing against the cable.
---
 src/transmissionline/cable_position_locator.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/transmissionline/cable_position_locator.cc b/src/transmissionline/cable_position_locator.cc
index a558583..09a1c69 100644
--- a/src/transmissionline/cable_position_locator.cc
+++ b/src/transmissionline/cable_position_locator.cc
@@ -394,6 +394,14 @@ bool CablePositionLocator::SolveCablePosition() const {
     // updates the cable attachment points
     UpdatePointsCable();
 
+    // checks that the force is still balanced at the updated points
+    // a small force might change direction when the attachment points move
+    if (tension_imbalance < precision) {
+      const std::vector<SphericalPoint3d<double>> points = points_hardware_;
+      tension_imbalance = UpdatePointsHardware();
+      points_hardware_ = points;
+    }
+
     iter++;
   }
 
-- 
2.43.0

