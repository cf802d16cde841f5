From 2a8b8c1ee8b112e9534d328c5292507c798e4da5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:04 +0000
Subject: [PATCH 01/26] fix: tree queries on an empty point set must not
 dereference missing nodes

A model without sharp corners (e.g. a cylinder) has an empty set of corner spheres; querying it
for its closest non-smooth point crashed while the edge spheres were generated.
---
 src/Meshing/MeshingSmartTree.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/Meshing/MeshingSmartTree.cpp b/src/Meshing/MeshingSmartTree.cpp
index fbb3e5d..b868084 100644
--- a/src/Meshing/MeshingSmartTree.cpp
+++ b/src/Meshing/MeshingSmartTree.cpp
@@ -665,6 +665,7 @@ int MeshingSmartTree::get_closest_tree_point(double* x, size_t num_exculded_tree
 int MeshingSmartTree::get_closest_non_smooth_tree_point(double* x, double feature_TOL, double smoothness_threshold, size_t &closest_tree_point, double &closest_distance)
 {
 	closest_tree_point = _num_points;
+	if (_num_points == 0) return 1;
 	kd_tree_get_closest_non_smooth_seed(x, feature_TOL, smoothness_threshold, 0, _tree_origin, closest_tree_point, closest_distance);
 	return 0;
 }
@@ -673,6 +674,7 @@ int MeshingSmartTree::get_closest_non_smooth_tree_point(double* x, double featur
 int MeshingSmartTree::get_closest_non_smooth_tree_point(double* x, double* x_normal, double smoothness_threshold, size_t& closest_tree_point, double& closest_distance)
 {
 	closest_tree_point = _num_points;
+	if (_num_points == 0) return 1;
 	kd_tree_get_closest_non_smooth_seed(x, x_normal, smoothness_threshold, 0, _tree_origin, closest_tree_point, closest_distance);
 	return 0;
 }
@@ -682,6 +684,7 @@ int MeshingSmartTree::get_closest_non_smooth_tree_point(double* x, double* x_nor
 int MeshingSmartTree::get_closest_non_smooth_tree_point(double* x, size_t num_normals, double** normals, double smoothness_threshold, size_t &closest_tree_point, double &closest_distance)
 {
 	closest_tree_point = _num_points;
+	if (_num_points == 0) return 1;
 	kd_tree_get_closest_non_smooth_seed(x, num_normals, normals, smoothness_threshold, 0, _tree_origin, closest_tree_point, closest_distance);
 	return 0;
 }
@@ -691,6 +694,7 @@ int MeshingSmartTree::get_closest_non_smooth_tree_point(double* x, size_t num_no
 int MeshingSmartTree::get_closest_non_smooth_tree_edge_point(double* x, double feature_TOL, double smoothness_threshold, size_t &closest_tree_point, double &closest_distance)
 {
 	closest_tree_point = _num_points;
+	if (_num_points == 0) return 1;
 	kd_tree_get_closest_non_smooth_edge_seed(x, feature_TOL, smoothness_threshold, 0, _tree_origin, closest_tree_point, closest_distance);
 	return 0;
 }
@@ -699,6 +703,7 @@ int MeshingSmartTree::get_tree_points_in_sphere(double* x, double r, size_t &num
 {
 	#pragma region tree neighbor search:
 	num_points_in_sphere = 0;
+	if (_num_points == 0) return 1;
 	kd_tree_get_seeds_in_sphere(x, r, 0, _tree_origin, num_points_in_sphere, points_in_sphere, capacity);
 	return 0;
 	#pragma endregion
-- 
2.43.0


From 007ca9110fd8c477ebd49b962507db732f251617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:31 +0000
Subject: [PATCH 02/26] fix: corner-sphere and sizing-point trees must be
 allocated with their own point counts

---
 src/Meshing/MeshingVoronoiMesher.cpp | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/Meshing/MeshingVoronoiMesher.cpp b/src/Meshing/MeshingVoronoiMesher.cpp
index ab2160c..0a9d9a9 100644
--- a/src/Meshing/MeshingVoronoiMesher.cpp
+++ b/src/Meshing/MeshingVoronoiMesher.cpp
@@ -139,8 +139,8 @@ int MeshingVoronoiMesher::ensure_sharp_edge_spheres_are_Delaunay(size_t& num_see
 
 	if (num_corner_spheres > 0)
 	{
-		corner_spheres_tree_right = new size_t[num_surface_spheres];
-		corner_spheres_tree_left = new size_t[num_surface_spheres];
+		corner_spheres_tree_right = new size_t[num_corner_spheres];
+		corner_spheres_tree_left = new size_t[num_corner_spheres];
 		build_balanced_kd_tree(num_corner_spheres, 3, corner_spheres, corner_spheres_tree_origin, corner_spheres_tree_right, corner_spheres_tree_left);
 
 		corner_spheres_sorted = new double[num_corner_spheres * 3];
@@ -161,8 +161,8 @@ int MeshingVoronoiMesher::ensure_sharp_edge_spheres_are_Delaunay(size_t& num_see
 
 	if (num_sizing_points > 0)
 	{
-		sizing_points_tree_right = new size_t[num_surface_spheres];
-		sizing_points_tree_left = new size_t[num_surface_spheres];
+		sizing_points_tree_right = new size_t[num_sizing_points];
+		sizing_points_tree_left = new size_t[num_sizing_points];
 		build_balanced_kd_tree(num_sizing_points, 3, sizing_points, sizing_points_tree_origin, sizing_points_tree_right, sizing_points_tree_left);
 
 		sizing_points_sorted = new double[num_sizing_points * 3];
@@ -537,8 +537,8 @@ int MeshingVoronoiMesher::impose_interior_seeds(size_t& num_seeds, double*& seed
 
 	if (num_corner_spheres > 0)
 	{
-		corner_spheres_tree_right = new size_t[num_surface_spheres];
-		corner_spheres_tree_left = new size_t[num_surface_spheres];
+		corner_spheres_tree_right = new size_t[num_corner_spheres];
+		corner_spheres_tree_left = new size_t[num_corner_spheres];
 		build_balanced_kd_tree(num_corner_spheres, 3, corner_spheres, corner_spheres_tree_origin, corner_spheres_tree_right, corner_spheres_tree_left);
 
 		corner_spheres_sorted = new double[num_corner_spheres * 3];
@@ -559,8 +559,8 @@ int MeshingVoronoiMesher::impose_interior_seeds(size_t& num_seeds, double*& seed
 
 	if (num_sizing_points > 0)
 	{
-		sizing_points_tree_right = new size_t[num_surface_spheres];
-		sizing_points_tree_left = new size_t[num_surface_spheres];
+		sizing_points_tree_right = new size_t[num_sizing_points];
+		sizing_points_tree_left = new size_t[num_sizing_points];
 		build_balanced_kd_tree(num_sizing_points, 3, sizing_points, sizing_points_tree_origin, sizing_points_tree_right, sizing_points_tree_left);
 
 		sizing_points_sorted = new double[num_sizing_points * 3];
@@ -926,8 +926,8 @@ int MeshingVoronoiMesher::generate_interior_seeds(size_t& num_seeds, double*& se
 
 	if (num_corner_spheres > 0)
 	{
-		corner_spheres_tree_right = new size_t[num_surface_spheres];
-		corner_spheres_tree_left = new size_t[num_surface_spheres];
+		corner_spheres_tree_right = new size_t[num_corner_spheres];
+		corner_spheres_tree_left = new size_t[num_corner_spheres];
 		build_balanced_kd_tree(num_corner_spheres, 3, corner_spheres, corner_spheres_tree_origin, corner_spheres_tree_right, corner_spheres_tree_left);
 
 		corner_spheres_sorted = new double[num_corner_spheres * 3];
@@ -948,8 +948,8 @@ int MeshingVoronoiMesher::generate_interior_seeds(size_t& num_seeds, double*& se
 
 	if (num_sizing_points > 0)
 	{
-		sizing_points_tree_right = new size_t[num_surface_spheres];
-		sizing_points_tree_left = new size_t[num_surface_spheres];
+		sizing_points_tree_right = new size_t[num_sizing_points];
+		sizing_points_tree_left = new size_t[num_sizing_points];
 		build_balanced_kd_tree(num_sizing_points, 3, sizing_points, sizing_points_tree_origin, sizing_points_tree_right, sizing_points_tree_left);
 
 		sizing_points_sorted = new double[num_sizing_points * 3];
-- 
2.43.0


From b65c4a9e745e233859dad31e448796620649ab60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:31 +0000
Subject: [PATCH 03/26] fix: check an active interior seed against every
 earlier active seed

---
 src/Meshing/MeshingVoronoiMesher.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Meshing/MeshingVoronoiMesher.cpp b/src/Meshing/MeshingVoronoiMesher.cpp
index 0a9d9a9..9929e6e 100644
--- a/src/Meshing/MeshingVoronoiMesher.cpp
+++ b/src/Meshing/MeshingVoronoiMesher.cpp
@@ -1039,7 +1039,7 @@ int MeshingVoronoiMesher::generate_interior_seeds(size_t& num_seeds, double*& se
 			size_t si_index = front_indices[i];
 
 			bool good_seed(true);
-			for (size_t j = 0; j < i - 1; j++)
+			for (size_t j = 0; j < i; j++)
 			{
 				if (is_active_seed[j])
 				{
-- 
2.43.0


From f3deb62ed7717cab085d978d3e449ec8d735a95e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:31 +0000
Subject: [PATCH 04/26] fix: query point of the Lipschitz neighbour search must
 not be shared between threads

---
 src/Meshing/MeshingVoronoiMesher.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/Meshing/MeshingVoronoiMesher.cpp b/src/Meshing/MeshingVoronoiMesher.cpp
index 9929e6e..6cab88c 100644
--- a/src/Meshing/MeshingVoronoiMesher.cpp
+++ b/src/Meshing/MeshingVoronoiMesher.cpp
@@ -3076,7 +3076,6 @@ int MeshingVoronoiMesher::impose_lipschitz_continuity(size_t num_spheres, size_t
 {
 	#pragma region Impose Lipschitz Continuity:
 	
-	double* x = new double[num_dim];
 	size_t* num_neighbors = new size_t[num_spheres];
 	size_t** neighbors = new size_t*[num_spheres];
 	
@@ -3086,8 +3085,10 @@ int MeshingVoronoiMesher::impose_lipschitz_continuity(size_t num_spheres, size_t
 #endif
 	for (int i = 0; i < num_spheres; i++)
 	{ 
+		double* x = new double[num_dim];
 		for (size_t idim = 0; idim < num_dim; idim++) x[idim] = spheres[i * num_dim + idim];
 		get_tree_points_in_sphere(num_spheres, num_dim, spheres, tree_origin, tree_right, tree_left, x, 2.0 * spheres_sizing[i], num_neighbors[i], neighbors[i]);
+		delete[] x;
 	}
 
 	size_t num_iter(0);
@@ -3123,7 +3124,7 @@ int MeshingVoronoiMesher::impose_lipschitz_continuity(size_t num_spheres, size_t
 	{
 		if (num_neighbors[i] > 0) delete[] neighbors[i];
 	}
-	delete[] neighbors; delete[] num_neighbors; delete[] x;
+	delete[] neighbors; delete[] num_neighbors;
 	return 0;
 	#pragma endregion
 
-- 
2.43.0


From 350cd0e5cde1ab2c3c4998577c51be9a2b820023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:44 +0000
Subject: [PATCH 05/26] fix: count the valid imposed seeds outside the parallel
 loop

---
 src/Meshing/MeshingVoronoiMesher.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/Meshing/MeshingVoronoiMesher.cpp b/src/Meshing/MeshingVoronoiMesher.cpp
index 6cab88c..008f392 100644
--- a/src/Meshing/MeshingVoronoiMesher.cpp
+++ b/src/Meshing/MeshingVoronoiMesher.cpp
@@ -762,7 +762,11 @@ int MeshingVoronoiMesher::impose_interior_seeds(size_t& num_seeds, double*& seed
 		}
 		delete[] x;
 		valid_seed[iseed] = true;
-		num_valid_seeds++;
+	}
+
+	for (size_t iseed = 0; iseed < num_imposed_seeds; iseed++)
+	{
+		if (valid_seed[iseed]) num_valid_seeds++;
 	}
 
 	vcm_cout << "  * Number of imposed seeds " << num_valid_seeds << std::endl;
-- 
2.43.0


From e0bbc238ba511c3090858a8ec88747f3ccbf7ad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:44 +0000
Subject: [PATCH 06/26] fix: a blank line of a csv file has no tokens

---
 src/Meshing/MeshingSmartTree.cpp     | 1 +
 src/Meshing/MeshingVoroCrust.cpp     | 1 +
 src/Meshing/MeshingVoronoiMesher.cpp | 1 +
 3 files changed, 3 insertions(+)

diff --git a/src/Meshing/MeshingSmartTree.cpp b/src/Meshing/MeshingSmartTree.cpp
index b868084..f06aefd 100644
--- a/src/Meshing/MeshingSmartTree.cpp
+++ b/src/Meshing/MeshingSmartTree.cpp
@@ -213,6 +213,7 @@ int MeshingSmartTree::kd_tree_get_nodes_order(size_t d_index, size_t node_index,
 int MeshingSmartTree::get_tokens(std::string line, char separator, std::vector<std::string>& tokens)
 {
 	tokens.clear();
+	if (line.size() == 0) return 0;
 	size_t start(0);
 	while (true)
 	{
diff --git a/src/Meshing/MeshingVoroCrust.cpp b/src/Meshing/MeshingVoroCrust.cpp
index 11e4e8a..5f652d0 100644
--- a/src/Meshing/MeshingVoroCrust.cpp
+++ b/src/Meshing/MeshingVoroCrust.cpp
@@ -828,6 +828,7 @@ int MeshingVoroCrust::get_tokens(std::string line, char separator, std::vector<s
 {
 	#pragma region Get Tokens from a line:
 	tokens.clear();
+	if (line.size() == 0) return 0;
 	size_t start(0);
 	while (true)
 	{
diff --git a/src/Meshing/MeshingVoronoiMesher.cpp b/src/Meshing/MeshingVoronoiMesher.cpp
index 008f392..dc69164 100644
--- a/src/Meshing/MeshingVoronoiMesher.cpp
+++ b/src/Meshing/MeshingVoronoiMesher.cpp
@@ -3138,6 +3138,7 @@ int MeshingVoronoiMesher::get_tokens(std::string line, char separator, std::vect
 {
 	#pragma region convert line to tokens:
 	tokens.clear();
+	if (line.size() == 0) return 0;
 	size_t start(0);
 	while (true)
 	{
-- 
2.43.0


From 81c0333189be473c1b00ce510b42938abbac9532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:44 +0000
Subject: [PATCH 07/26] fix: forget the deleted random samplers when a tree is
 cleared

---
 src/Meshing/MeshingSmartTree.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Meshing/MeshingSmartTree.cpp b/src/Meshing/MeshingSmartTree.cpp
index f06aefd..b64a6f5 100644
--- a/src/Meshing/MeshingSmartTree.cpp
+++ b/src/Meshing/MeshingSmartTree.cpp
@@ -587,6 +587,7 @@ void MeshingSmartTree::clear_memory()
 	{
 		delete _rsamplers[thread_id];
 	}
+	_rsamplers.clear();
 
 	_tree_max_height = 0;
 	_num_points = 0; _capacity = 0;
-- 
2.43.0


From 6e95bf4bf4b9a851c304a20fdf8afb1ae82aabb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:37 +0000
Subject: [PATCH 08/26] fix: merging two regions must not forget a region
 merged earlier

---
 src/Meshing/MeshingVoroCrust.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/Meshing/MeshingVoroCrust.cpp b/src/Meshing/MeshingVoroCrust.cpp
index 5f652d0..6316b0c 100644
--- a/src/Meshing/MeshingVoroCrust.cpp
+++ b/src/Meshing/MeshingVoroCrust.cpp
@@ -661,13 +661,14 @@ int MeshingVoroCrust::generate_explicit_mesh(int num_threads, size_t num_seeds,
 		size_t seed_i = faces[iface][num_corners + 1];
 		size_t seed_j = faces[iface][num_corners + 2];
 		if (seed_i < num_surface_seeds || seed_j < num_surface_seeds) continue;
-		if (region_new_index[seeds_region_id[seed_i]] == region_new_index[seeds_region_id[seed_j]]) continue;
+		size_t region_i = seeds_region_id[seed_i]; size_t region_j = seeds_region_id[seed_j];
+		while (region_new_index[region_i] != region_i) region_i = region_new_index[region_i];
+		while (region_new_index[region_j] != region_j) region_j = region_new_index[region_j];
+		if (region_i == region_j) continue;
 
 		// two internal neighbor seeds from different region
-		if (region_new_index[seeds_region_id[seed_i]] < region_new_index[seeds_region_id[seed_j]])
-			region_new_index[seeds_region_id[seed_j]] = region_new_index[seeds_region_id[seed_i]];
-		else
-			region_new_index[seeds_region_id[seed_i]] = region_new_index[seeds_region_id[seed_j]];
+		if (region_i < region_j) region_new_index[region_j] = region_i;
+		else                     region_new_index[region_i] = region_j;
 	}
 
 	// adjust new region ids
-- 
2.43.0


From 12a4cd1d671cbc14fca846e37ac0f3a28bb1b83f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:47 +0000
Subject: [PATCH 09/26] fix: QR factorization of a matrix with a zero column
 divided by zero

---
 src/Meshing/MeshingLinearSolver.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Meshing/MeshingLinearSolver.cpp b/src/Meshing/MeshingLinearSolver.cpp
index ff4195a..2dc70ab 100644
--- a/src/Meshing/MeshingLinearSolver.cpp
+++ b/src/Meshing/MeshingLinearSolver.cpp
@@ -132,6 +132,7 @@ int MeshingLinearSolver::householder(size_t nrow, size_t ncol, double** A, doubl
 		double norm(0.0);
 		for (size_t i = k; i < nrow; i++) norm += x[i] * x[i];
 		norm = sqrt(norm);
+		if (norm == 0.0) continue; // nothing to reflect: the column is zero from the diagonal down
 		for (size_t i = k; i < nrow; i++) x[i] /= norm;
 
 		// update x_R
-- 
2.43.0


From 9f0d32d7a397398b97469f2a43ce9da685e087b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:47 +0000
Subject: [PATCH 10/26] fix: Cholesky update read one entry past a full row

---
 src/Meshing/MeshingLinearSolver.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Meshing/MeshingLinearSolver.cpp b/src/Meshing/MeshingLinearSolver.cpp
index 2dc70ab..5bab88a 100644
--- a/src/Meshing/MeshingLinearSolver.cpp
+++ b/src/Meshing/MeshingLinearSolver.cpp
@@ -298,7 +298,7 @@ int MeshingLinearSolver::Cholesky_factorization_rank_one_update(size_t num_rows,
 
 		size_t nnz(CJ[irow][1]);
 		size_t pos = find_entry_position_binary(irow, CJ[irow], 2, 1 + nnz);
-		while (CJ[irow][pos] <= irow && pos < 2 + nnz) pos++;
+		while (pos < 2 + nnz && CJ[irow][pos] <= irow) pos++;
 		size_t next_c_row(num_rows);
 		if (pos < 2 + nnz) next_c_row = CJ[irow][pos];
 
-- 
2.43.0


From cd16086f8d9523f70367fe6a6dbb6c66f2e76fe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:33 +0000
Subject: [PATCH 11/26] fix: no seeds or no meshed cells must not crash the
 from-seeds mode

---
 src/Meshing/MeshingVoroCrust.cpp     | 6 ++++++
 src/Meshing/MeshingVoronoiMesher.cpp | 3 ++-
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/Meshing/MeshingVoroCrust.cpp b/src/Meshing/MeshingVoroCrust.cpp
index 6316b0c..d901448 100644
--- a/src/Meshing/MeshingVoroCrust.cpp
+++ b/src/Meshing/MeshingVoroCrust.cpp
@@ -764,6 +764,12 @@ int MeshingVoroCrust::generate_mesh_from_seeds_file(std::string file_name, int n
 	size_t num_seeds;
 	double* seeds; size_t* seeds_region_id; double* seeds_sizing;
 	read_seeds_csv(file_name, num_seeds, seeds, seeds_region_id, seeds_sizing);
+	if (num_seeds == 0)
+	{
+		vcm_cout << "\n*** No seeds were found in " << file_name << std::endl;
+		delete[] seeds; delete[] seeds_region_id; delete[] seeds_sizing;
+		return 1;
+	}
 	generate_explicit_mesh(num_threads, num_seeds, seeds, seeds_region_id, seeds_sizing, num_seeds, generate_vcg_file, generate_exodus_file);
 	return 0;
 }
diff --git a/src/Meshing/MeshingVoronoiMesher.cpp b/src/Meshing/MeshingVoronoiMesher.cpp
index dc69164..a50b5b0 100644
--- a/src/Meshing/MeshingVoronoiMesher.cpp
+++ b/src/Meshing/MeshingVoronoiMesher.cpp
@@ -2555,7 +2555,8 @@ int MeshingVoronoiMesher::save_vcg_file_pflotran(std::string outFile, size_t num
 	vcm_cout << "  * Total Number of connections = " << num_connections << std::endl;
 	vcm_cout << "    Minimum cell connections = " << min_num_connections << std::endl;
 	vcm_cout << "    Maximum cell connections = " << max_num_connections << std::endl;
-	vcm_cout << "    Average cell connections = " << num_connections / num_meshed_cells << std::endl;
+	if (num_meshed_cells > 0)
+		vcm_cout << "    Average cell connections = " << num_connections / num_meshed_cells << std::endl;
 	delete[] seed_new_index; delete[] face_area_height;
 	return 0;
 	#pragma endregion
-- 
2.43.0


From 7674dd7c662260292e673deffc0eaf311b73734a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:49 +0000
Subject: [PATCH 12/26] fix: surface samples taken at the same time must
 respect each other's radius

---
 src/Meshing/MeshingVoroCrustSampler.cpp | 101 +++++++++++++-----------
 1 file changed, 54 insertions(+), 47 deletions(-)

diff --git a/src/Meshing/MeshingVoroCrustSampler.cpp b/src/Meshing/MeshingVoroCrustSampler.cpp
index eb6b72b..a467a6d 100644
--- a/src/Meshing/MeshingVoroCrustSampler.cpp
+++ b/src/Meshing/MeshingVoroCrustSampler.cpp
@@ -2670,65 +2670,72 @@ int MeshingVoroCrustSampler::sample_active_pool(size_t num_samples, size_t num_p
 #endif
 		if (!covered_sample[thread_id])
 		{
-			for (size_t jthread = 0; jthread < thread_id; jthread++)
+			size_t sphere_face_index = new_sphere_face[thread_id];
+
+			size_t iclosest(0); double hclosest(DBL_MAX);
+			surface_point_cloud->get_closest_non_smooth_tree_point(new_sphere[thread_id], _face_normal[sphere_face_index], smooth_angle_threshold, iclosest, hclosest);
+			double surf_sz = fmin(rmax, alpha_sz * hclosest);
+
+			if (_input_sizing_function != 0)
 			{
-				if (covered_sample[jthread]) continue;
-				covered_sample[thread_id] = _smethods.point_covered(new_sphere[thread_id], new_sphere[jthread], coverage_radius_ratio);
-				if (covered_sample[thread_id]) break;
+				size_t iclosest; double hclosest(DBL_MAX);
+				_input_sizing_function->get_closest_tree_point(new_sphere[thread_id], iclosest, hclosest);
+				double* x_sz = _input_sizing_function->get_tree_point(iclosest);
+				double r_sz = x_sz[3];
+				if (surf_sz > r_sz) surf_sz = r_sz;
 			}
 
-			if (!covered_sample[thread_id])
+			if (edge_point_cloud->get_num_tree_points() > 0)
 			{
-				size_t sphere_face_index = new_sphere_face[thread_id];
+				hclosest = DBL_MAX;
+				edge_point_cloud->get_closest_non_smooth_tree_edge_point(new_sphere[thread_id], rmin, smooth_angle_threshold, iclosest, hclosest);
+				surf_sz = fmin(surf_sz, alpha_sz * hclosest);
+			}
 
-				size_t iclosest(0); double hclosest(DBL_MAX);
-				surface_point_cloud->get_closest_non_smooth_tree_point(new_sphere[thread_id], _face_normal[sphere_face_index], smooth_angle_threshold, iclosest, hclosest);
-				double surf_sz = fmin(rmax, alpha_sz * hclosest);
+			if (corner_spheres->get_num_tree_points() > 0)
+			{
+				hclosest = DBL_MAX;
+				corner_spheres->get_closest_non_smooth_tree_edge_point(new_sphere[thread_id], rmin, smooth_angle_threshold, iclosest, hclosest);
+				surf_sz = fmin(surf_sz, alpha_sz * hclosest);
+			}
 
-				if (_input_sizing_function != 0)
+			if (num_samples > 0)
+			{
+				size_t num_nearby_spheres_s(0); size_t* nearby_spheres_s(0);
+				_smethods.get_overlapping_spheres(new_sphere[thread_id], surface_spheres, Lip, num_nearby_spheres_s, nearby_spheres_s);
+				for (size_t i = 0; i < num_nearby_spheres_s; i++)
 				{
-					size_t iclosest; double hclosest(DBL_MAX);
-					_input_sizing_function->get_closest_tree_point(new_sphere[thread_id], iclosest, hclosest);
-					double* x_sz = _input_sizing_function->get_tree_point(iclosest);
-					double r_sz = x_sz[3];
-					if (surf_sz > r_sz) surf_sz = r_sz;
+					size_t sphere_index = nearby_spheres_s[i];
+					double* near_by_sphere = surface_spheres->get_tree_point(sphere_index);
+					double dst = _geom.distance(3, new_sphere[thread_id], near_by_sphere);
+					double coverage_sz = dst / min_distance_ratio;
+					surf_sz = fmin(surf_sz, coverage_sz);            // new sphere should not alpha cover an old sphere center
+					double Lip_sz = near_by_sphere[3] + Lip * dst;
+					surf_sz = fmin(surf_sz, Lip_sz);                 // respect Lipschitz constant locally
 				}
+				delete[] nearby_spheres_s;
+			}
 
-				if (edge_point_cloud->get_num_tree_points() > 0)
-				{
-					hclosest = DBL_MAX;
-					edge_point_cloud->get_closest_non_smooth_tree_edge_point(new_sphere[thread_id], rmin, smooth_angle_threshold, iclosest, hclosest);
-					surf_sz = fmin(surf_sz, alpha_sz * hclosest);
-				}
+			surf_sz = fmax(surf_sz, _r_min_surface);
 
-				if (corner_spheres->get_num_tree_points() > 0)
-				{
-					hclosest = DBL_MAX;
-					corner_spheres->get_closest_non_smooth_tree_edge_point(new_sphere[thread_id], rmin, smooth_angle_threshold, iclosest, hclosest);
-					surf_sz = fmin(surf_sz, alpha_sz * hclosest);
-				}
-
-				if (num_samples > 0)
-				{
-					size_t num_nearby_spheres_s(0); size_t* nearby_spheres_s(0);
-					_smethods.get_overlapping_spheres(new_sphere[thread_id], surface_spheres, Lip, num_nearby_spheres_s, nearby_spheres_s);
-					for (size_t i = 0; i < num_nearby_spheres_s; i++)
-					{
-						size_t sphere_index = nearby_spheres_s[i];
-						double* near_by_sphere = surface_spheres->get_tree_point(sphere_index);
-						double dst = _geom.distance(3, new_sphere[thread_id], near_by_sphere);
-						double coverage_sz = dst / min_distance_ratio;
-						surf_sz = fmin(surf_sz, coverage_sz);            // new sphere should not alpha cover an old sphere center
-						double Lip_sz = near_by_sphere[3] + Lip * dst;
-						surf_sz = fmin(surf_sz, Lip_sz);                 // respect Lipschitz constant locally
-					}
-					delete[] nearby_spheres_s;
-				}
+			new_sphere[thread_id][3] = surf_sz;
+		}
+	}
 
-				surf_sz = fmax(surf_sz, _r_min_surface);
+	// samples of the same round are not in the tree yet: they have to respect each other as well
+	for (size_t thread_id = 1; thread_id < _num_threads; thread_id++)
+	{
+		for (size_t jthread = 0; jthread < thread_id; jthread++)
+		{
+			if (covered_sample[thread_id]) break;
+			if (covered_sample[jthread]) continue;
+			covered_sample[thread_id] = _smethods.point_covered(new_sphere[thread_id], new_sphere[jthread], coverage_radius_ratio);
+			if (covered_sample[thread_id]) break;
 
-				new_sphere[thread_id][3] = surf_sz;
-			}
+			double dst = _geom.distance(3, new_sphere[thread_id], new_sphere[jthread]);
+			double surf_sz = fmin(dst / min_distance_ratio, new_sphere[jthread][3] + Lip * dst);
+			surf_sz = fmax(surf_sz, _r_min_surface);
+			new_sphere[thread_id][3] = fmin(new_sphere[thread_id][3], surf_sz);
 		}
 	}
 
-- 
2.43.0


From bd1800641b0a4598bd43ead152d2b25fe8e4ca74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:17 +0000
Subject: [PATCH 13/26] fix: grade spheres of one kind against all others, not
 only those within two radii

The searches for spheres covering a point bound the radii around the closest
sphere by the Lipschitz constant, which local gradation does not provide: an
interior seed could be placed inside an edge sphere.
---
 src/Meshing/MeshingSpheresMethods.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Meshing/MeshingSpheresMethods.cpp b/src/Meshing/MeshingSpheresMethods.cpp
index 9e6a79f..5daeb92 100644
--- a/src/Meshing/MeshingSpheresMethods.cpp
+++ b/src/Meshing/MeshingSpheresMethods.cpp
@@ -263,6 +263,7 @@ int MeshingSpheresMethods::impose_lipschitz_continuity(MeshingSmartTree* spheres
 		R[i] = -new_radii[i];
 	}
 	_memo.quicksort(R, I, 0, num_spheres - 1);
+	double min_radius = -R[num_spheres - 1];
 
 	size_t num_iter(0);
 	while (true)
@@ -277,7 +278,7 @@ int MeshingSpheresMethods::impose_lipschitz_continuity(MeshingSmartTree* spheres
 
 			size_t num(0), cap(100);
 			size_t* neighbor_spheres = new size_t[cap];
-			spheres->get_tree_points_in_sphere(sphere_i, 2.0 * sphere_i[3], num, neighbor_spheres, cap);
+			spheres->get_tree_points_in_sphere(sphere_i, (sphere_i[3] - min_radius) / Lip, num, neighbor_spheres, cap);
 
 			// adjust radius of current sphere
 			for (size_t ii = 0; ii < num; ii++)
-- 
2.43.0


From eb243d8c1593510d751c5a43dcd5a0e4f3eb1a26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:43 +0000
Subject: [PATCH 14/26] fix: give an interior seed the region of its closest
 seed also when Lip < 0.25

---
 src/Meshing/MeshingVoronoiMesher.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Meshing/MeshingVoronoiMesher.cpp b/src/Meshing/MeshingVoronoiMesher.cpp
index a50b5b0..78259e7 100644
--- a/src/Meshing/MeshingVoronoiMesher.cpp
+++ b/src/Meshing/MeshingVoronoiMesher.cpp
@@ -1137,7 +1137,7 @@ int MeshingVoronoiMesher::generate_interior_seeds(size_t& num_seeds, double*& se
 				r = interior_spheres[sphere_index * 4 + 3];
 			}
 			
-			double alpha = 3.0 / (1 - Lip);
+			double alpha = fmax(4.0, 3.0 / (1 - Lip)); // the seed closest to a dart may be as far as 4 r
 			size_t num_neighbor_seeds(0);
 			size_t* neighbor_seeds(0);
 
-- 
2.43.0


From c7688f2e369925d61c47fe27bc2537a77c443ed1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:57 +0000
Subject: [PATCH 15/26] fix: report the closest seeds of monitoring points from
 the final set of seeds

---
 src/Meshing/MeshingVoroCrust.cpp | 49 ++++++++++++++++++--------------
 1 file changed, 28 insertions(+), 21 deletions(-)

diff --git a/src/Meshing/MeshingVoroCrust.cpp b/src/Meshing/MeshingVoroCrust.cpp
index d901448..ec2728d 100644
--- a/src/Meshing/MeshingVoroCrust.cpp
+++ b/src/Meshing/MeshingVoroCrust.cpp
@@ -496,26 +496,6 @@ int MeshingVoroCrust::generate_interior_seeds(MeshingSmartTree* seeds_tree, Mesh
 			}
 		}
 
-		for (size_t iseed = 0; iseed < num_imposed_seeds; iseed++)
-		{
-			for (size_t idim = 0; idim < 4; idim++) x[idim] = imposed_seeds[iseed * 4 + idim];
-
-			// find closest point in seeds .. if distance in zero, make sure this sphere has no interior seeds
-			size_t iclosest(SIZE_MAX); double hclosest(DBL_MAX);
-			seeds_tree.get_closest_tree_point(x, iclosest, hclosest);
-
-			if (hclosest < 1E-10)
-				continue;
-			else
-			{
-				for (size_t idim = 0; idim < 3; idim++)
-				{
-					imposed_seeds[iseed * 4 + idim] = seeds[iclosest * 3 + idim];
-				}
-				imposed_seeds[iseed * 4 + 3] = seeds_sizing[iclosest];
-			}
-		}
-
 		if (num_invalidated > 0)
 		{
 			size_t num_valid_seeds = num_seeds - num_invalidated;
@@ -536,7 +516,34 @@ int MeshingVoroCrust::generate_interior_seeds(MeshingSmartTree* seeds_tree, Mesh
 			delete[] seeds_sizing; seeds_sizing = tmps;
 			delete[] seeds_region_id; seeds_region_id = tmp_id;
 		}
-		
+
+		double** final_seeds = new double* [num_seeds];
+		for (size_t iseed = 0; iseed < num_seeds; iseed++)
+		{
+			final_seeds[iseed] = new double[3];
+			for (size_t idim = 0; idim < 3; idim++) final_seeds[iseed][idim] = seeds[iseed * 3 + idim];
+		}
+		MeshingSmartTree final_tree(3, num_seeds, final_seeds);
+
+		for (size_t iseed = 0; iseed < num_imposed_seeds; iseed++)
+		{
+			for (size_t idim = 0; idim < 4; idim++) x[idim] = imposed_seeds[iseed * 4 + idim];
+
+			// find closest point in the remaining seeds
+			size_t iclosest(SIZE_MAX); double hclosest(DBL_MAX);
+			final_tree.get_closest_tree_point(x, iclosest, hclosest);
+
+			if (hclosest < 1E-10)
+				continue;
+			else
+			{
+				for (size_t idim = 0; idim < 3; idim++)
+				{
+					imposed_seeds[iseed * 4 + idim] = seeds[iclosest * 3 + idim];
+				}
+				imposed_seeds[iseed * 4 + 3] = seeds_sizing[iclosest];
+			}
+		}
 
 		mesher.save_spheres_csv("monitoring_points_closest_seeds.csv", 3, num_imposed_seeds, imposed_seeds, 0, 0);
 		vcm_cout << "  * Updated monitoring points are saved in monitoring_points_closest_seeds.csv" << std::endl;
-- 
2.43.0


From 5ca702e800fe83a9df71cfb8c52396b513e41ed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:57 +0000
Subject: [PATCH 16/26] fix: count only the imposed seeds as imposed, not those
 added at sharp edges

---
 src/Meshing/MeshingVoroCrust.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Meshing/MeshingVoroCrust.cpp b/src/Meshing/MeshingVoroCrust.cpp
index ec2728d..d36d376 100644
--- a/src/Meshing/MeshingVoroCrust.cpp
+++ b/src/Meshing/MeshingVoroCrust.cpp
@@ -433,7 +433,7 @@ int MeshingVoroCrust::generate_interior_seeds(MeshingSmartTree* seeds_tree, Mesh
 
 		generate_monitoring_points = false;
 
-		num_imposed_seeds_added = num_seeds - num_surface_seeds;
+		num_imposed_seeds_added = num_seeds - num_critical_seeds;
 		vcm_cout << "  * added " << num_imposed_seeds_added << " / " << num_imposed_seeds << " desired imposed points!" << std::endl;
 		vcm_cout << "  * executed in " << timer.report_timing() << " seconds!" << std::endl;
 	}
-- 
2.43.0


From 2b8a69b12d1f5ae5774459475d1016879c4fd2b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:51 +0000
Subject: [PATCH 17/26] fix: orient every face of the model and turn its normal
 along

---
 src/Meshing/MeshingPolyMesh.cpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/Meshing/MeshingPolyMesh.cpp b/src/Meshing/MeshingPolyMesh.cpp
index 94e0272..bf65dc4 100644
--- a/src/Meshing/MeshingPolyMesh.cpp
+++ b/src/Meshing/MeshingPolyMesh.cpp
@@ -1279,19 +1279,20 @@ int MeshingPolyMesh::impose_consistent_orientation()
 	#pragma region Consistent Orientation:
 
 	bool* fixed = new bool[_num_faces];
-	for (size_t iface = 1; iface < _num_faces; iface++) fixed[iface] = false;
+	for (size_t iface = 0; iface < _num_faces; iface++) fixed[iface] = false;
 
+	bool propagating(false); // the last pass reached new faces
 	while (true)
 	{
 		bool done = true;
 		for (size_t iface = 0; iface < _num_faces; iface++)
 		{
-			if (fixed[iface]) continue;
+			if (propagating || fixed[iface]) continue;
 			fixed[iface] = true; done = false;
 			break;
 		}
 
-		if (done) break; // all manifold patches are consistently oriented now
+		if (done && !propagating) break; // all manifold patches are consistently oriented now
 
 		done = true;
 
@@ -1326,14 +1327,14 @@ int MeshingPolyMesh::impose_consistent_orientation()
 						// adjust orientation of jface
 						_faces[jface][j] = qj;
 						_faces[jface][jp] = qi;
-						done = false;
+						for (size_t idim = 0; idim < 3; idim++) _face_normal[jface][idim] = -_face_normal[jface][idim];
 						break;
 					}
 				}
-				fixed[jface] = true;
+				fixed[jface] = true; done = false;
 			}
 		}
-		if (done) break;
+		propagating = !done;
 	}
 	delete[] fixed;
 	adjust_cad_orientation();
-- 
2.43.0


From f31cfc85db3e3c3500c726dc4bb5774819952975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:05 +0000
Subject: [PATCH 18/26] fix: compare all edges of the neighbor when looking for
 a reversed one

---
 src/Meshing/MeshingPolyMesh.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Meshing/MeshingPolyMesh.cpp b/src/Meshing/MeshingPolyMesh.cpp
index bf65dc4..0ecb200 100644
--- a/src/Meshing/MeshingPolyMesh.cpp
+++ b/src/Meshing/MeshingPolyMesh.cpp
@@ -1455,8 +1455,8 @@ int MeshingPolyMesh::extract_model_sharp_features()
 				for (size_t jc = 1; jc <= 3; jc++)
 				{
 					size_t jcp = jc + 1; if (jcp == 4) jcp = 1;
-					size_t jc_index = _faces[fj][ic];
-					size_t jcp_index = _faces[fj][icp];
+					size_t jc_index = _faces[fj][jc];
+					size_t jcp_index = _faces[fj][jcp];
 					if (jc_index == ic_index && jcp_index == icp_index)
 					{
 						reversed = true;
-- 
2.43.0


From 5b4055e038a2b8661267fc44dbd8b0bca40a6b1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:49 +0000
Subject: [PATCH 19/26] fix: report an option without a value instead of
 reading past its line

---
 src/Meshing/MeshingVoroCrust.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/Meshing/MeshingVoroCrust.cpp b/src/Meshing/MeshingVoroCrust.cpp
index d36d376..b0b72f9 100644
--- a/src/Meshing/MeshingVoroCrust.cpp
+++ b/src/Meshing/MeshingVoroCrust.cpp
@@ -88,6 +88,14 @@ int MeshingVoroCrust::execute()
 
 			if (tokens.size() == 0) continue;
 
+			if (tokens.size() < 3 &&
+			    (tokens[0] == "INPUT_MESH_FILE" || tokens[0] == "SIZING_FILE" || tokens[0] == "R_MIN" || tokens[0] == "R_MAX" || tokens[0] == "LIP_CONST" ||
+			     tokens[0] == "VC_ANGLE" || tokens[0] == "NUM_THREADS" || tokens[0] == "SEEDS_FILE"))
+			{
+				vcm_cout << "\n*** Option " << tokens[0] << " in " << this->input_filename << " has no value, good bye!" << std::endl;
+				return 1;
+			}
+
 			if (tokens[0] == "INPUT_MESH_FILE") filenames.push_back(tokens[2]);
 			if (tokens[0] == "SIZING_FILE") sizing_file = tokens[2];
 			if (tokens[0] == "R_MIN") r_min = _memo.string_to_double(tokens[2]);
-- 
2.43.0


From 5f5225032ac64886bdac0415e8666b9b1a024e7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:49 +0000
Subject: [PATCH 20/26] fix: report a missing input file or an input mesh
 without faces instead of crashing

---
 src/Meshing/MeshingVoroCrust.cpp | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/src/Meshing/MeshingVoroCrust.cpp b/src/Meshing/MeshingVoroCrust.cpp
index b0b72f9..bdef83d 100644
--- a/src/Meshing/MeshingVoroCrust.cpp
+++ b/src/Meshing/MeshingVoroCrust.cpp
@@ -119,6 +119,12 @@ int MeshingVoroCrust::execute()
 		return 1;
 	}
 
+	if (filenames.size() == 0)
+	{
+		vcm_cout << "\n*** No input file is given in " << this->input_filename << ", good bye!" << std::endl;
+		return 1;
+	}
+
 	if (generate_mesh_from_seeds)
 	{
 		vcm_cout << "MeshingVoroCrust::Input Data:" << std::endl;
@@ -171,6 +177,17 @@ int MeshingVoroCrust::execute()
 
 
 
+	// the files to be read have to be there
+	for (size_t i = 0; i <= num_input_files; i++)
+	{
+		std::string name = (i < num_input_files) ? filenames[i] : sizing_file;
+		if (name == "") continue;
+		std::ifstream tmpfile(name.c_str());
+		if (tmpfile.is_open() && tmpfile.good()) continue;
+		vcm_cout << "\n*** Failed to open " << name << ", good bye!" << std::endl;
+		return 1;
+	}
+
 	MeshingSmartTree* input_sizing_function(0);
 
 	if (sizing_file != "")
@@ -223,6 +240,12 @@ int MeshingVoroCrust::execute()
 		tmp_plc.read_input_obj_file(filenames[0].c_str(), num_points, points, num_faces, faces);
 	}
 
+	if (num_faces == 0)
+	{
+		vcm_cout << "\n*** The input mesh has no faces, good bye!" << std::endl;
+		return 1;
+	}
+
 	//clock_t start_time, end_time; double cpu_time;
 	MeshingTimer timer;
 
-- 
2.43.0


From 8a1f6a07576ede13c2d185c436bee1da6fa77d5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:49 +0000
Subject: [PATCH 21/26] fix: end with a non-zero status when the run failed

---
 src/Meshing/vc_mesh.cxx | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/Meshing/vc_mesh.cxx b/src/Meshing/vc_mesh.cxx
index 5d2af4a..2aeb111 100644
--- a/src/Meshing/vc_mesh.cxx
+++ b/src/Meshing/vc_mesh.cxx
@@ -115,6 +115,8 @@ public:
 
 int main(int argc, char* argv[])
 {
+	int status(0);
+
 	#ifdef USE_KOKKOS
 	Kokkos::initialize(argc, argv);
 	{
@@ -128,7 +130,7 @@ int main(int argc, char* argv[])
 		if( options.get_method() == options.method_type_vc())
 		{
 			MeshingVoroCrust vc(options.get_filename());
-			vc.execute();
+			status = vc.execute();
 		}
 		//if ( options.get_method() == options.method_type_smooth() ) {
 		//	vcm_cout << "Triggered path" << std::endl;
@@ -153,6 +155,6 @@ int main(int argc, char* argv[])
 	Kokkos::finalize();
 	#endif // USE_KOKKOS
 
-	return 0;
+	return status;
 }
 
-- 
2.43.0


From 8279fe0404f3445b886b645e271237e1fa1fbdea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:49 +0000
Subject: [PATCH 22/26] fix: report a missing parameter of a command line
 option instead of aborting

---
 src/Meshing/MeshingOptionParser.h | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/Meshing/MeshingOptionParser.h b/src/Meshing/MeshingOptionParser.h
index 3ba7ffa..02cb15a 100644
--- a/src/Meshing/MeshingOptionParser.h
+++ b/src/Meshing/MeshingOptionParser.h
@@ -43,6 +43,7 @@
 #include <algorithm>
 #include <exception>
 #include <iostream>
+#include <stdexcept>
 #include <vector>
 
 
@@ -93,9 +94,18 @@ class MeshingOptionParser
 		}
 
 		// Determine method & filename
-		if( !parse_options() )
+		try
 		{
-			std::cout << "Error::Missing or invalid <method> parameter." << std::endl;
+			if( !parse_options() )
+			{
+				std::cout << "Error::Missing or invalid <method> parameter." << std::endl;
+				usage();
+				exit(1);
+			}
+		}
+		catch(const std::runtime_error& e)
+		{
+			std::cout << e.what() << std::endl;
 			usage();
 			exit(1);
 		}
-- 
2.43.0


From 151f488b0a792eb5a03bcf2f8b27b4713d4e0c0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:22 +0000
Subject: [PATCH 23/26] fix: honour flags of the control file that are set to
 false

---
 src/Meshing/MeshingVoroCrust.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/Meshing/MeshingVoroCrust.cpp b/src/Meshing/MeshingVoroCrust.cpp
index bdef83d..4bc8058 100644
--- a/src/Meshing/MeshingVoroCrust.cpp
+++ b/src/Meshing/MeshingVoroCrust.cpp
@@ -96,6 +96,8 @@ int MeshingVoroCrust::execute()
 				return 1;
 			}
 
+			bool flag(tokens.size() < 3 || tokens[2] != "false"); // flags are on unless they are said to be false
+
 			if (tokens[0] == "INPUT_MESH_FILE") filenames.push_back(tokens[2]);
 			if (tokens[0] == "SIZING_FILE") sizing_file = tokens[2];
 			if (tokens[0] == "R_MIN") r_min = _memo.string_to_double(tokens[2]);
@@ -103,11 +105,11 @@ int MeshingVoroCrust::execute()
 			if (tokens[0] == "LIP_CONST") Lip_const = _memo.string_to_double(tokens[2]);
 			if (tokens[0] == "VC_ANGLE") vc_ang_tol = _memo.string_to_double(tokens[2]);
 			if (tokens[0] == "NUM_THREADS") num_threads = int(_memo.string_to_double(tokens[2]));
-			if (tokens[0] == "GENERATE_VCG_FILE") geneate_vcg_file = true;
-            if (tokens[0] == "GENERATE_EXODUS_FILE") generate_exodus_file = true;
-			if (tokens[0] == "GENERATE_MONITORING_POINTS") generate_monitoring_points = true;
-			if (tokens[0] == "IMPOSE_MONITORING_POINTS")   impose_monitoring_points = true;
-			if (tokens[0] == "GENERATE_MESH_FROM_SEEDS")   generate_mesh_from_seeds = true;
+			if (tokens[0] == "GENERATE_VCG_FILE") geneate_vcg_file = flag;
+            if (tokens[0] == "GENERATE_EXODUS_FILE") generate_exodus_file = flag;
+			if (tokens[0] == "GENERATE_MONITORING_POINTS") generate_monitoring_points = flag;
+			if (tokens[0] == "IMPOSE_MONITORING_POINTS")   impose_monitoring_points = flag;
+			if (tokens[0] == "GENERATE_MESH_FROM_SEEDS")   generate_mesh_from_seeds = flag;
 			if (tokens[0] == "SEEDS_FILE") filenames.push_back(tokens[2]);
 		}
 	}
-- 
2.43.0


From fa66dc27c7b8402392c0acd8c2e24544bbc3a150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:22 +0000
Subject: [PATCH 24/26] fix: do not take the seeds file for an input mesh or an
 input mesh for the seeds file

---
 src/Meshing/MeshingVoroCrust.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/Meshing/MeshingVoroCrust.cpp b/src/Meshing/MeshingVoroCrust.cpp
index 4bc8058..943f018 100644
--- a/src/Meshing/MeshingVoroCrust.cpp
+++ b/src/Meshing/MeshingVoroCrust.cpp
@@ -74,7 +74,7 @@ int MeshingVoroCrust::execute()
 
 	bool generate_mesh_from_seeds(false);
 
-	std::string sizing_file;
+	std::string sizing_file, seeds_file;
 
 	if (infile.is_open() && infile.good())
 	{
@@ -110,7 +110,7 @@ int MeshingVoroCrust::execute()
 			if (tokens[0] == "GENERATE_MONITORING_POINTS") generate_monitoring_points = flag;
 			if (tokens[0] == "IMPOSE_MONITORING_POINTS")   impose_monitoring_points = flag;
 			if (tokens[0] == "GENERATE_MESH_FROM_SEEDS")   generate_mesh_from_seeds = flag;
-			if (tokens[0] == "SEEDS_FILE") filenames.push_back(tokens[2]);
+			if (tokens[0] == "SEEDS_FILE") seeds_file = tokens[2];
 		}
 	}
 	else
@@ -121,7 +121,7 @@ int MeshingVoroCrust::execute()
 		return 1;
 	}
 
-	if (filenames.size() == 0)
+	if (filenames.size() == 0 && !(generate_mesh_from_seeds && seeds_file != ""))
 	{
 		vcm_cout << "\n*** No input file is given in " << this->input_filename << ", good bye!" << std::endl;
 		return 1;
@@ -130,13 +130,14 @@ int MeshingVoroCrust::execute()
 	if (generate_mesh_from_seeds)
 	{
 		vcm_cout << "MeshingVoroCrust::Input Data:" << std::endl;
-		vcm_cout << "  * Seeds file = " << filenames[0] << std::endl;
+		if (seeds_file == "") seeds_file = filenames[0];
+		vcm_cout << "  * Seeds file = " << seeds_file << std::endl;
 		if (geneate_vcg_file)
 			vcm_cout << "    Generate VCG file!" << std::endl;
 		if (generate_exodus_file)
 			vcm_cout << "    Generate Exodus file!" << std::endl;
 		vcm_cout << "    Number of OpenMP threads = " << num_threads << std::endl;
-		generate_mesh_from_seeds_file(filenames[0], num_threads, geneate_vcg_file, generate_exodus_file);
+		generate_mesh_from_seeds_file(seeds_file, num_threads, geneate_vcg_file, generate_exodus_file);
 		vcm_cout << "\n*** MeshingVoroCrust::Mission Accomplished!" << std::endl;
 		return 0;
 	}
-- 
2.43.0


From 3dfa463ab4209f4c6362eef714c31c072a9970eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:22 +0000
Subject: [PATCH 25/26] fix: report an option whose value is not a number
 instead of taking it for zero

---
 src/Meshing/MeshingVoroCrust.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/Meshing/MeshingVoroCrust.cpp b/src/Meshing/MeshingVoroCrust.cpp
index 943f018..5f3f4a9 100644
--- a/src/Meshing/MeshingVoroCrust.cpp
+++ b/src/Meshing/MeshingVoroCrust.cpp
@@ -96,6 +96,16 @@ int MeshingVoroCrust::execute()
 				return 1;
 			}
 
+			if (tokens[0] == "R_MIN" || tokens[0] == "R_MAX" || tokens[0] == "LIP_CONST" || tokens[0] == "VC_ANGLE" || tokens[0] == "NUM_THREADS")
+			{
+				std::istringstream value(tokens[2]); double x(0.0);
+				if (!(value >> x) || (tokens[0] == "NUM_THREADS" && !(x >= 1.0)))
+				{
+					vcm_cout << "\n*** Option " << tokens[0] << " in " << this->input_filename << " has an invalid value " << tokens[2] << ", good bye!" << std::endl;
+					return 1;
+				}
+			}
+
 			bool flag(tokens.size() < 3 || tokens[2] != "false"); // flags are on unless they are said to be false
 
 			if (tokens[0] == "INPUT_MESH_FILE") filenames.push_back(tokens[2]);
-- 
2.43.0


From bbde5199861e3a7e44f08d0b0e3285fbd5372e76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:38 +0000
Subject: [PATCH 26/26] fix: end with an error when the seeds file cannot be
 opened

---
 src/Meshing/MeshingVoroCrust.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/Meshing/MeshingVoroCrust.cpp b/src/Meshing/MeshingVoroCrust.cpp
index 5f3f4a9..809f7f7 100644
--- a/src/Meshing/MeshingVoroCrust.cpp
+++ b/src/Meshing/MeshingVoroCrust.cpp
@@ -147,6 +147,13 @@ int MeshingVoroCrust::execute()
 		if (generate_exodus_file)
 			vcm_cout << "    Generate Exodus file!" << std::endl;
 		vcm_cout << "    Number of OpenMP threads = " << num_threads << std::endl;
+		std::ifstream tmpfile(seeds_file.c_str());
+		if (!tmpfile.is_open() || !tmpfile.good())
+		{
+			vcm_cout << "\n*** Failed to open " << seeds_file << ", good bye!" << std::endl;
+			return 1;
+		}
+		tmpfile.close();
 		generate_mesh_from_seeds_file(seeds_file, num_threads, geneate_vcg_file, generate_exodus_file);
 		vcm_cout << "\n*** MeshingVoroCrust::Mission Accomplished!" << std::endl;
 		return 0;
-- 
2.43.0

