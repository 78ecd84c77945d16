From 615dc7f42a9c7d28d08e9f10248eaa0cd564ac3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:38 +0000
Subject: [PATCH 01/21] fix: reject grid lengths whose number of level 0 cells
 overflows 64 bits

Grid_Length::set added the lengths instead of multiplying them so that e.g.
2^32 x 2^32 x 1 was accepted and cell ids wrapped around.
---
 dccrg_length.hpp | 22 +++++++++-------------
 1 file changed, 9 insertions(+), 13 deletions(-)

diff --git a/dccrg_length.hpp b/dccrg_length.hpp
index 5eabe29..b4ef39c 100644
--- a/dccrg_length.hpp
+++ b/dccrg_length.hpp
@@ -108,28 +108,24 @@ public:
 			return false;
 		}
 
-		const Grid_Length::type old_length = this->length;
-
-		this->length = given_length;
-
-		const double max_number_of_initial_cells
-			= double(this->length[0])
-			+ double(this->length[1])
-			+ double(this->length[2]);
-
-		if (max_number_of_initial_cells > double(~uint64_t(0))) {
+		// number of cells must not exceed largest uint64_t
+		if (
+			given_length[1] > ~uint64_t(0) / given_length[0]
+			|| given_length[2] > ~uint64_t(0) / (given_length[0] * given_length[1])
+		) {
 			std::cerr
 				<< "Grid would have too many cells of refinement level 0 for uint64_t: "
-				<< max_number_of_initial_cells
+				<< double(given_length[0]) * double(given_length[1]) * double(given_length[2])
 				<< " (length_x, length_y, length_z: "
-				<< this->length[0] << " " << this->length[1] << " " << this->length[2]
+				<< given_length[0] << " " << given_length[1] << " " << given_length[2]
 				<< ")"
 				<< std::endl;
 
-			this->length = old_length;
 			return false;
 		}
 
+		this->length = given_length;
+
 		return true;
 	}
 
-- 
2.43.0


From 47c6d0d9d0a66acd7b4e90000e881fff8caf8392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:38 +0000
Subject: [PATCH 02/21] fix: compute maximum possible refinement level in exact
 integer arithmetic

The sum in doubles rounded last cell ids slightly above 2^64-1 down, e.g. length
(2^64+2)/9 x 1 x 1 reported level 1 as possible although its last cell wraps around.
---
 dccrg_mapping.hpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/dccrg_mapping.hpp b/dccrg_mapping.hpp
index 5c20904..1438ade 100644
--- a/dccrg_mapping.hpp
+++ b/dccrg_mapping.hpp
@@ -319,14 +319,17 @@ public:
 		const uint64_t grid_length
 			= this->length.get()[0] * this->length.get()[1] * this->length.get()[2];
 		int refinement_level = 0;
-		double current_last = 0;
-		while (current_last <= double(~uint64_t(0))) {
-			// TODO: don't assume 3 dimensions
-			current_last += double(grid_length) * pow(double(8), double(refinement_level));
+		// ids of refinement level N fit if grid_length * 8^N fits after ids of previous levels
+		uint64_t
+			current_length = grid_length,
+			remaining = ~uint64_t(0) - grid_length;
+		while (current_length <= remaining / 8) {
+			current_length *= 8;
+			remaining -= current_length;
 			refinement_level++;
 		}
 
-		return refinement_level - 2;
+		return refinement_level;
 	}
 
 
-- 
2.43.0


From 12728c912214e1ff2ac83f441ef366417623bf3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:53 +0000
Subject: [PATCH 03/21] fix: refuse negative maximum refinement level in
 Mapping

A negative level was accepted and left the mapping with last cell 0 and
undefined shifts by a negative amount.
---
 dccrg_mapping.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dccrg_mapping.hpp b/dccrg_mapping.hpp
index 1438ade..928c466 100644
--- a/dccrg_mapping.hpp
+++ b/dccrg_mapping.hpp
@@ -136,7 +136,10 @@ public:
 	*/
 	bool set_maximum_refinement_level(const int given_refinement_level)
 	{
-		if (given_refinement_level <= this->get_maximum_possible_refinement_level()) {
+		if (
+			given_refinement_level >= 0
+			and given_refinement_level <= this->get_maximum_possible_refinement_level()
+		) {
 			this->max_refinement_level = given_refinement_level;
 			this->update_last_cell();
 			return true;
-- 
2.43.0


From ed7e60a5f5f47208163819fbbbae52cd6e134f82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:53 +0000
Subject: [PATCH 04/21] fix: refuse grid length for which current maximum
 refinement level overflows ids

Mapping::set_length did not take an already set maximum refinement level into
account, e.g. level 21 in a 1x1x1 grid and then length 10x10x10 made ids wrap around.
---
 dccrg_mapping.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/dccrg_mapping.hpp b/dccrg_mapping.hpp
index 928c466..1c14582 100644
--- a/dccrg_mapping.hpp
+++ b/dccrg_mapping.hpp
@@ -109,10 +109,17 @@ public:
 	//! see Grid_Length::set_length()
 	bool set_length(const std::array<uint64_t, 3>& given_length)
 	{
+		const std::array<uint64_t, 3> old_length = this->length_rw.get();
+
 		if (!this->length_rw.set(given_length)) {
 			return false;
 		}
 
+		if (this->max_refinement_level > this->get_maximum_possible_refinement_level()) {
+			this->length_rw.set(old_length);
+			return false;
+		}
+
 		this->update_last_cell();
 
 		return true;
-- 
2.43.0


From 264f44a5874f6b4e2535afd0edb1376c4f65dd14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:55 +0000
Subject: [PATCH 05/21] fix: don't refer to length of original in copied
 Mapping

The implicit copy constructor bound the public length of the copy to the original,
so a copied grid changed or dangled when the original was changed or destroyed.
---
 dccrg_mapping.hpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/dccrg_mapping.hpp b/dccrg_mapping.hpp
index 1c14582..b312a24 100644
--- a/dccrg_mapping.hpp
+++ b/dccrg_mapping.hpp
@@ -96,6 +96,16 @@ public:
 	}
 
 
+	/*!
+	Creates a copy which doesn't refer to the mapping being copied.
+	*/
+	Mapping(const Mapping& other) :
+		length_rw(other.length.get()),
+		length(length_rw),
+		max_refinement_level(other.max_refinement_level),
+		last_cell(other.last_cell)
+	{}
+
 	/*!
 	Sets the grid to a default constructed state.
 	*/
-- 
2.43.0


From b322c1df4f097ee6bbd935032df4c849eba708a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:17 +0000
Subject: [PATCH 06/21] fix: use documented copy constructor also when type of
 grid is identical

The template isn't considered a copy constructor, so copying a grid of the same type used
the implicit one which made public mapping, length, topology and geometry of the copy
refer to the original and shared its Zoltan instance.
---
 dccrg.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/dccrg.hpp b/dccrg.hpp
index 8ae2ee8..54c52e6 100644
--- a/dccrg.hpp
+++ b/dccrg.hpp
@@ -322,6 +322,12 @@ public:
 	Dccrg():geometry_rw(length, mapping, topology){}
 
 
+	/*!
+	Same as below when type of other grid is identical.
+	*/
+	Dccrg(const Dccrg& other) : Dccrg(other, true) {}
+
+
 	/*!
 	Creates an instance of the grid based on another instance of the grid.
 
@@ -352,7 +358,8 @@ public:
 			Other_Geometry,
 			std::tuple<Other_Additional_Cell_Items...>,
 			std::tuple<Other_Additional_Neighbor_Items...>
-		 >& other
+		 >& other,
+		const bool = true
 	) :
 		topology_rw(other.topology),
 		mapping_rw(other.mapping),
-- 
2.43.0


From f7c66f141eae26c5d535fe96690f9fca595b7b50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:26:38 +0000
Subject: [PATCH 07/21] fix: return only error cells as children of a cell
 beyond the last one

Indices of such a cell are error_index which wrapped around to the start of the grid when
the offset of the last child was added, e.g. cell 1 was among children of cell 2 in a 1x1x1 grid.
---
 dccrg_mapping.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dccrg_mapping.hpp b/dccrg_mapping.hpp
index b312a24..4579d44 100644
--- a/dccrg_mapping.hpp
+++ b/dccrg_mapping.hpp
@@ -425,7 +425,10 @@ public:
 
 		// given cell cannot have children
 		int refinement_level = this->get_refinement_level(cell);
-		if (refinement_level >= this->get_maximum_refinement_level()) {
+		if (
+			refinement_level < 0
+			or refinement_level >= this->get_maximum_refinement_level()
+		) {
 			return children;
 		}
 
-- 
2.43.0


From e537d89802d0bffb0dc37e90ed4be4050edea9f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:46:43 +0000
Subject: [PATCH 08/21] fix: get_center(level, indices) gave a center outside
 of the grid for indices equal to grid length

---
 dccrg_cartesian_geometry.hpp | 6 +++---
 dccrg_no_geometry.hpp        | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/dccrg_cartesian_geometry.hpp b/dccrg_cartesian_geometry.hpp
index 233e5ab..48d9f7e 100644
--- a/dccrg_cartesian_geometry.hpp
+++ b/dccrg_cartesian_geometry.hpp
@@ -448,9 +448,9 @@ public:
 		}};
 
 		if (
-			index[0] > max_index[0]
-			|| index[1] > max_index[1]
-			|| index[2] > max_index[2]
+			index[0] >= max_index[0]
+			|| index[1] >= max_index[1]
+			|| index[2] >= max_index[2]
 		) {
 			return error_val;
 		}
diff --git a/dccrg_no_geometry.hpp b/dccrg_no_geometry.hpp
index 481e13c..c79fa4c 100644
--- a/dccrg_no_geometry.hpp
+++ b/dccrg_no_geometry.hpp
@@ -336,9 +336,9 @@ public:
 		}};
 
 		if (
-			index[0] > max_index[0]
-			|| index[1] > max_index[1]
-			|| index[2] > max_index[2]
+			index[0] >= max_index[0]
+			|| index[1] >= max_index[1]
+			|| index[2] >= max_index[2]
 		) {
 			return error_val;
 		}
-- 
2.43.0


From 75dfb5686eec8d427e95c673c522f5654d219d3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:46:44 +0000
Subject: [PATCH 09/21] fix: geometries accepted not-a-number as cell length or
 coordinate

---
 dccrg_cartesian_geometry.hpp           | 4 ++--
 dccrg_stretched_cartesian_geometry.hpp | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/dccrg_cartesian_geometry.hpp b/dccrg_cartesian_geometry.hpp
index 48d9f7e..68ad2a8 100644
--- a/dccrg_cartesian_geometry.hpp
+++ b/dccrg_cartesian_geometry.hpp
@@ -75,7 +75,7 @@ public:
 		this->start = given_start;
 
 		for (size_t dimension = 0; dimension < this->level_0_cell_length.size(); dimension++) {
-			if (given_level_0_cell_length[dimension] <= 0) {
+			if (not (given_level_0_cell_length[dimension] > 0)) {
 				std::cerr << "Cell length in dimension " << dimension
 					<< " must be > 0, but is "
 					<< given_level_0_cell_length[dimension]
@@ -190,7 +190,7 @@ public:
 			dimension < this->parameters.level_0_cell_length.size();
 			dimension++
 		) {
-			if (given_parameters.level_0_cell_length[dimension] <= 0) {
+			if (not (given_parameters.level_0_cell_length[dimension] > 0)) {
 				std::cerr << "Cell length in dimension " << dimension
 					<< " must be > 0, but is "
 					<< given_parameters.level_0_cell_length[dimension]
diff --git a/dccrg_stretched_cartesian_geometry.hpp b/dccrg_stretched_cartesian_geometry.hpp
index c27f700..7adfd04 100644
--- a/dccrg_stretched_cartesian_geometry.hpp
+++ b/dccrg_stretched_cartesian_geometry.hpp
@@ -192,10 +192,10 @@ public:
 			}
 
 			for (uint64_t i = 0; i < given_parameters.coordinates[dimension].size() - 1; i++) {
-				if (
+				if (not (
 					given_parameters.coordinates[dimension][i]
-					>= given_parameters.coordinates[dimension][i + 1]
-				) {
+					< given_parameters.coordinates[dimension][i + 1]
+				)) {
 					std::cerr << "Coordinates in the " << dimension
 						<< " dimension must be strictly increasing"
 						<< std::endl;
-- 
2.43.0


From 63a94e6c933b1edc98afe1e91f10b2142ada9593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:47:23 +0000
Subject: [PATCH 10/21] fix: coordinates at the end of the grid were not inside
 of any cell

Coordinates equal to the end of the grid, or rounded outside of the grid
when shifted along a periodic dimension, gave indices past the last cell.
---
 dccrg_cartesian_geometry.hpp           | 28 ++++++++++++++++++++------
 dccrg_no_geometry.hpp                  | 26 +++++++++++++++++++-----
 dccrg_stretched_cartesian_geometry.hpp |  7 +++++++
 3 files changed, 50 insertions(+), 11 deletions(-)

diff --git a/dccrg_cartesian_geometry.hpp b/dccrg_cartesian_geometry.hpp
index 68ad2a8..8302882 100644
--- a/dccrg_cartesian_geometry.hpp
+++ b/dccrg_cartesian_geometry.hpp
@@ -560,6 +560,13 @@ public:
 						= given_coordinate[dimension]
 						- grid_length * ceil(distance / grid_length);
 				}
+
+				// don't leave the grid due to floating point rounding
+				if (ret_val[dimension] < start[dimension]) {
+					ret_val[dimension] = start[dimension];
+				} else if (ret_val[dimension] > end[dimension]) {
+					ret_val[dimension] = end[dimension];
+				}
 			}
 		}
 
@@ -593,15 +600,24 @@ public:
 			if (coordinate[dimension] >= grid_start[dimension]
 			&& coordinate[dimension] <= grid_end[dimension]) {
 
-				ret_val[dimension] = uint64_t(
-					floor(
-						(coordinate[dimension] - grid_start[dimension])
-						/ (level_0_cell_length[dimension]
-							/ double(uint64_t(1) << this->mapping.get_maximum_refinement_level())
-						)
+				const double index = floor(
+					(coordinate[dimension] - grid_start[dimension])
+					/ (level_0_cell_length[dimension]
+						/ double(uint64_t(1) << this->mapping.get_maximum_refinement_level())
 					)
 				);
 
+				// end of the grid belongs to the last cell
+				const uint64_t last_index
+					= (this->length.get()[dimension] << this->mapping.get_maximum_refinement_level())
+					- 1;
+
+				if (index < double(last_index)) {
+					ret_val[dimension] = uint64_t(index);
+				} else {
+					ret_val[dimension] = last_index;
+				}
+
 			}
 		}
 
diff --git a/dccrg_no_geometry.hpp b/dccrg_no_geometry.hpp
index c79fa4c..708ec8d 100644
--- a/dccrg_no_geometry.hpp
+++ b/dccrg_no_geometry.hpp
@@ -431,6 +431,13 @@ public:
 						= given_coordinate[dimension]
 						- grid_length * ceil(distance / grid_length);
 				}
+
+				// don't leave the grid due to floating point rounding
+				if (ret_val[dimension] < 0.0) {
+					ret_val[dimension] = 0.0;
+				} else if (ret_val[dimension] > end[dimension]) {
+					ret_val[dimension] = end[dimension];
+				}
 			}
 		}
 
@@ -461,13 +468,22 @@ public:
 			if (coordinate[dimension] >= 0.0
 			&& coordinate[dimension] <= grid_end[dimension]) {
 
-				ret_val[dimension] = uint64_t(
-					floor(
-						coordinate[dimension]
-						* double(uint64_t(1) << this->mapping.get_maximum_refinement_level())
-					)
+				const double index = floor(
+					coordinate[dimension]
+					* double(uint64_t(1) << this->mapping.get_maximum_refinement_level())
 				);
 
+				// end of the grid belongs to the last cell
+				const uint64_t last_index
+					= (this->length.get()[dimension] << this->mapping.get_maximum_refinement_level())
+					- 1;
+
+				if (index < double(last_index)) {
+					ret_val[dimension] = uint64_t(index);
+				} else {
+					ret_val[dimension] = last_index;
+				}
+
 			}
 		}
 
diff --git a/dccrg_stretched_cartesian_geometry.hpp b/dccrg_stretched_cartesian_geometry.hpp
index 7adfd04..801d3f6 100644
--- a/dccrg_stretched_cartesian_geometry.hpp
+++ b/dccrg_stretched_cartesian_geometry.hpp
@@ -541,6 +541,13 @@ public:
 						= given_coordinate[dimension]
 						- grid_length * ceil(distance / grid_length);
 				}
+
+				// don't leave the grid due to floating point rounding
+				if (ret_val[dimension] < start[dimension]) {
+					ret_val[dimension] = start[dimension];
+				} else if (ret_val[dimension] > end[dimension]) {
+					ret_val[dimension] = end[dimension];
+				}
 			}
 		}
 
-- 
2.43.0


From c12703cd9153e05a3dfaa536e39893f69a304b63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:47:33 +0000
Subject: [PATCH 11/21] fix: stretched geometry lookup at grid start and of
 periodic coordinates

Coordinates equal to the start of the grid read coordinates out of bounds
and coordinates outside of a periodic grid gave error indices contrary to
documentation and other geometries.
---
 dccrg_stretched_cartesian_geometry.hpp | 27 +++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/dccrg_stretched_cartesian_geometry.hpp b/dccrg_stretched_cartesian_geometry.hpp
index 801d3f6..01feb74 100644
--- a/dccrg_stretched_cartesian_geometry.hpp
+++ b/dccrg_stretched_cartesian_geometry.hpp
@@ -562,7 +562,7 @@ public:
 	dimension if the grid is not periodic in that dimension.
 	*/
 	Types<3>::indices_t get_indices(
-		const std::array<double, 3>& coordinate
+		const std::array<double, 3>& given_coordinate
 	) const {
 		Types<3>::indices_t ret_val = {{
 			error_index,
@@ -572,7 +572,8 @@ public:
 
 		const std::array<double, 3>
 			grid_start = this->get_start(),
-			grid_end = this->get_end();
+			grid_end = this->get_end(),
+			coordinate = this->get_real_coordinate(given_coordinate);
 
 		const int max_ref_lvl = this->mapping.get_maximum_refinement_level();
 		const uint64_t level_0_length_in_indices = uint64_t(1) << max_ref_lvl;
@@ -586,10 +587,12 @@ public:
 
 				// find where given coord starts in the coord vector
 				uint64_t coord_start_index = 0;
-				while (current_coords[coord_start_index] < coordinate[dimension]) {
+				while (
+					coord_start_index + 1 < this->length.get()[dimension]
+					&& current_coords[coord_start_index + 1] <= coordinate[dimension]
+				) {
 					coord_start_index++;
 				}
-				coord_start_index--;
 
 				// length of an index in this level 0 cell
 				const double length_of_index
@@ -597,14 +600,16 @@ public:
 					/ double(level_0_length_in_indices);
 
 				// find the offset in indices of given coord inside this level 0 cell
-				uint64_t index_offset = 0;
-				while (
-					current_coords[coord_start_index] + index_offset * length_of_index
-					< coordinate[dimension]
-				) {
-					index_offset++;
+				const double offset = floor(
+					(coordinate[dimension] - current_coords[coord_start_index])
+					/ length_of_index
+				);
+
+				// end of the grid belongs to the last cell
+				uint64_t index_offset = level_0_length_in_indices - 1;
+				if (offset < double(index_offset)) {
+					index_offset = uint64_t(offset);
 				}
-				index_offset--;
 
 				ret_val[dimension] = coord_start_index * level_0_length_in_indices + index_offset;
 			}
-- 
2.43.0


From cffb89857c9f81cb8c6d04a3c9343555a5b693fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:52:26 +0000
Subject: [PATCH 12/21] fix: do not abort load balancing when Zoltan only warns
 about imbalance

---
 dccrg.hpp | 36 +++++++++++++++++++++---------------
 1 file changed, 21 insertions(+), 15 deletions(-)

diff --git a/dccrg.hpp b/dccrg.hpp
index 54c52e6..fe1db0f 100644
--- a/dccrg.hpp
+++ b/dccrg.hpp
@@ -8561,21 +8561,27 @@ private:
 			local_ids_to_send;
 
 		#ifndef DCCRG_NO_LB
-		if (use_zoltan && Zoltan_LB_Balance(
-			this->zoltan,
-			&partition_changed,
-			&global_id_size,
-			&local_id_size,
-			&number_to_receive,
-			&global_ids_to_receive,
-			&local_ids_to_receive,
-			&sender_processes,
-			&number_to_send,
-			&global_ids_to_send,
-			&local_ids_to_send,
-			&receiver_processes
-			) != ZOLTAN_OK
-		) {
+		int balance_result = ZOLTAN_OK;
+		if (use_zoltan) {
+			balance_result = Zoltan_LB_Balance(
+				this->zoltan,
+				&partition_changed,
+				&global_id_size,
+				&local_id_size,
+				&number_to_receive,
+				&global_ids_to_receive,
+				&local_ids_to_receive,
+				&sender_processes,
+				&number_to_send,
+				&global_ids_to_send,
+				&local_ids_to_send,
+				&receiver_processes
+			);
+		}
+
+		// new partition is usable also if Zoltan warns e.g. about
+		// imbalance tolerance that cannot be reached
+		if (balance_result != ZOLTAN_OK && balance_result != ZOLTAN_WARN) {
 			if (!this->no_load_balancing) {
 				if (this->rank == 0) {
 					std::cerr << "Zoltan_LB_Partition failed" << std::endl;
-- 
2.43.0


From b7e856c8ac9ce4066e26e6bc190b3a8a23a54f47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:53:46 +0000
Subject: [PATCH 13/21] fix: return value of remote neighbor copy updates

---
 dccrg.hpp | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/dccrg.hpp b/dccrg.hpp
index fe1db0f..1ef6391 100644
--- a/dccrg.hpp
+++ b/dccrg.hpp
@@ -1005,10 +1005,6 @@ public:
 
 		bool ret_val = true;
 
-		if (this->user_hood_of.count(neighborhood_id) == 0) {
-			ret_val = false;
-		}
-
 		if (!this->start_remote_neighbor_copy_updates(neighborhood_id)) {
 			ret_val = false;
 		}
@@ -5198,7 +5194,7 @@ public:
 			}
 			#endif
 
-			ret_val = false;
+			return false;
 		}
 
 		#ifdef DEBUG
@@ -5309,7 +5305,7 @@ public:
 			}
 			#endif
 
-			ret_val = false;
+			return false;
 		}
 
 		#ifdef DEBUG
-- 
2.43.0


From 2b508325a650de7856f158ba4b5bf0af7cfaf764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:55:26 +0000
Subject: [PATCH 14/21] fix: repeating an earlier pin request did not override
 a newer one

---
 dccrg.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dccrg.hpp b/dccrg.hpp
index 1ef6391..46e800f 100644
--- a/dccrg.hpp
+++ b/dccrg.hpp
@@ -6032,6 +6032,8 @@ public:
 		// do nothing if the request already exists
 		if (this->pin_requests.count(cell) > 0
 		&& (int) this->pin_requests.at(cell) == process) {
+			// but override different request made after it
+			this->new_pin_requests.erase(cell);
 			return true;
 		}
 
-- 
2.43.0


From 5d850a8c6c7ed3eaf8b287974ce4ebaf2c51ed11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:04:35 +0000
Subject: [PATCH 15/21] fix: remove_neighborhood left iterators of all cells to
 removed data

---
 dccrg.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dccrg.hpp b/dccrg.hpp
index 46e800f..9b528d3 100644
--- a/dccrg.hpp
+++ b/dccrg.hpp
@@ -6767,6 +6767,7 @@ public:
 		this->outer_cells_user.erase(neighborhood_id);
 		this->local_cells_user.erase(neighborhood_id);
 		this->remote_cells_user.erase(neighborhood_id);
+		this->all_cells_user.erase(neighborhood_id);
 		return *this;
 	}
 
-- 
2.43.0


From 561c73d3a7dc1d6f0dba337553538d5a9cbdf6fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:05:11 +0000
Subject: [PATCH 16/21] fix: get_remote_neighbors_of and _to did not compile

---
 dccrg.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/dccrg.hpp b/dccrg.hpp
index 9b528d3..5b62c3e 100644
--- a/dccrg.hpp
+++ b/dccrg.hpp
@@ -3259,12 +3259,13 @@ public:
 			return ret_val;
 		}
 
-		const std::vector<uint64_t>& neighbors_ref
+		const auto& neighbors_ref
 			= (neighborhood_id == default_neighborhood_id)
 			? this->neighbors_of.at(cell)
 			: this->user_neigh_of.at(neighborhood_id).at(cell);
 
-		for(const auto& neighbor: neighbors_ref) {
+		for(const auto& neighbor_i: neighbors_ref) {
+			const auto& neighbor = neighbor_i.first;
 
 			if (neighbor == error_cell) {
 				continue;
@@ -3320,12 +3321,13 @@ public:
 			return ret_val;
 		}
 
-		const std::vector<uint64_t>& neighbors_ref
+		const auto& neighbors_ref
 			= (neighborhood_id == default_neighborhood_id)
 			? this->neighbors_to.at(cell)
 			: this->user_neigh_to.at(neighborhood_id).at(cell);
 
-		for(const auto& neighbor: neighbors_ref) {
+		for(const auto& neighbor_i: neighbors_ref) {
+			const auto& neighbor = neighbor_i.first;
 
 			if (neighbor == error_cell) {
 				continue;
-- 
2.43.0


From 7d241ca078c8da632f8b456b2306415faafc5609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:05:11 +0000
Subject: [PATCH 17/21] fix: get_face_neighbors_of aborted if given cell does
 not exist

---
 dccrg.hpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/dccrg.hpp b/dccrg.hpp
index 5b62c3e..d2da320 100644
--- a/dccrg.hpp
+++ b/dccrg.hpp
@@ -2901,9 +2901,7 @@ public:
 		std::vector<std::pair<uint64_t, int> > ret_val;
 
 		if (this->neighbors_.count(cell) == 0) {
-			std::cerr << __FILE__ << ":" << __LINE__
-				<< " Internal error." << std::endl;
-			abort();
+			return ret_val;
 		}
 		const auto& neighs_ = this->neighbors_.at(cell);
 
-- 
2.43.0


From e3a3a1532fde7833ac2f79bae1b041b53ef0d952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:05:11 +0000
Subject: [PATCH 18/21] fix: refused initialize() prevented subsequent
 initialization

---
 dccrg.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dccrg.hpp b/dccrg.hpp
index d2da320..556e3f1 100644
--- a/dccrg.hpp
+++ b/dccrg.hpp
@@ -502,8 +502,6 @@ public:
 			);
 		}
 
-		this->grid_initialized = true;
-
 		if (not this->mapping_initialized) {
 			throw std::invalid_argument(
 				"\n" __FILE__ "(" + to_string(__LINE__) + "): "
@@ -511,6 +509,8 @@ public:
 			);
 		}
 
+		this->grid_initialized = true;
+
 		if (!this->initialize_mpi(given_comm)) {
 			throw std::invalid_argument(
 				"\n" __FILE__ "(" + to_string(__LINE__) + "): "
-- 
2.43.0


From 42f9e27cec5dc0cc4f52292a8e1d7f0e77d8a02e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:08:19 +0000
Subject: [PATCH 19/21] fix: file offsets of cell data ignored count of derived
 datatypes

---
 dccrg.hpp | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/dccrg.hpp b/dccrg.hpp
index 556e3f1..37173cc 100644
--- a/dccrg.hpp
+++ b/dccrg.hpp
@@ -1506,11 +1506,7 @@ public:
 				abort();
 			}
 
-			if (Is_Named_Datatype()(file_datatypes[i])) {
-				current_byte_offset += counts[i] * (uint64_t) current_bytes;
-			} else {
-				current_byte_offset += (uint64_t) current_bytes;
-			}
+			current_byte_offset += counts[i] * (uint64_t) current_bytes;
 		}
 
 		// tell everyone how many bytes everyone will write
-- 
2.43.0


From 257428dcc89e22f5475d357f2648245ca84bdc1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:09:04 +0000
Subject: [PATCH 20/21] fix: loading cell data in several parts ignored
 datatype count

---
 dccrg.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dccrg.hpp b/dccrg.hpp
index 37173cc..458e238 100644
--- a/dccrg.hpp
+++ b/dccrg.hpp
@@ -2298,7 +2298,8 @@ public:
 					abort();
 				}
 
-				this->cells_and_data_displacements[i].second += size_in_bytes;
+				this->cells_and_data_displacements[i].second
+					+= counts[i] * (uint64_t) size_in_bytes;
 			}
 
 			ret_val = MPI_Type_create_struct(
-- 
2.43.0


From 5874292cf3890573117f402eb3b098db06479fac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:10:15 +0000
Subject: [PATCH 21/21] fix: loaded grid without refined cells had no cell
 iterators or copies of remote neighbors

---
 dccrg.hpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/dccrg.hpp b/dccrg.hpp
index 458e238..9f7c4d0 100644
--- a/dccrg.hpp
+++ b/dccrg.hpp
@@ -2068,6 +2068,18 @@ public:
 			return false;
 		}
 
+		this->allocate_copies_of_remote_neighbors();
+		this->update_cell_pointers(
+			this->cells_rw,
+			this->neighbors_rw,
+			this->inner_cells_default,
+			this->outer_cells_default,
+			this->local_cells_default,
+			this->remote_cells_default,
+			this->all_cells_default,
+			default_neighborhood_id
+		);
+
 		// read the total number of cells in the file
 		uint64_t total_number_of_cells = 0;
 		ret_val = MPI_File_read_at_all(
-- 
2.43.0

