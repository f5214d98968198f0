From bb8a0a606120dc1870b102d376d9ec615dde8be4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:59 +0000
Subject: [PATCH 01/50] fix: index sort compares the whole unsorted prefix on
 every pass

The inner loop ran to size - j - 1 instead of size - i - 1, so it stopped
half way and left the data unordered.
---
 basicmath/include/mt_sort.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/basicmath/include/mt_sort.h b/basicmath/include/mt_sort.h
index 706addc..4f53117 100644
--- a/basicmath/include/mt_sort.h
+++ b/basicmath/include/mt_sort.h
@@ -16,7 +16,7 @@ namespace basicmath {
 			}
 
 			for (i32 i = 0; i < (i32)indexs.size() - 1; ++i) {
-				for (i32 j = 0; j < (i32)indexs.size() - j - 1; ++j) {
+				for (i32 j = 0; j < (i32)indexs.size() - i - 1; ++j) {
 					if ((increase && data[j] > data[j + 1])
 						|| (!increase && data[j] < data[j + 1])) {
 						swap(data[j], data[j + 1]);
-- 
2.43.0


From bd7d9954fe4cc42405b9262a7c611b13432746b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:45 +0000
Subject: [PATCH 02/50] fix: fast mser v2 extracts the pixels of every patch
 for 1 and 32 threads

---
 basicimg/src/img_fast_mser_v2.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/basicimg/src/img_fast_mser_v2.cpp b/basicimg/src/img_fast_mser_v2.cpp
index f25c1c6..766343f 100644
--- a/basicimg/src/img_fast_mser_v2.cpp
+++ b/basicimg/src/img_fast_mser_v2.cpp
@@ -1645,8 +1645,14 @@ void img_fast_mser_v2::extract_pixel_parallel_4_acceleration(img_multi_msers& ms
 	i32 one_block_mser_info_size = m_gray_order_region_size * 3 + 1;
 	i32 total_block_mser_info_size = one_block_mser_info_size * 4;
 
-	u32 partition_start_indexes[4] = {0, 1, 2, 3};
-	u32 partition_stop_indexes[4] = {1, 2, 3, 4};
+	// divide the patches among the four blocks
+	u32 partition_start_indexes[4];
+	u32 partition_stop_indexes[4];
+
+	for (u32 i = 0; i < 4; ++i) {
+		partition_start_indexes[i] = ((u32)m_pinfo.size() * i + 3) / 4;
+		partition_stop_indexes[i] = ((u32)m_pinfo.size() * (i + 1) + 3) / 4;
+	}
 
 	i32** region_heap = (i32**)malloc(sizeof(i32*) * (i32)m_pinfo.size());
 	i32 total_region_size = 0;
-- 
2.43.0


From 973dd32ab5e19de7287e2e2435b98e10c07edc22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:45 +0000
Subject: [PATCH 03/50] fix: fast mser v2 reports the gray level of bright
 regions unmirrored

---
 basicimg/src/img_fast_mser_v2.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/basicimg/src/img_fast_mser_v2.cpp b/basicimg/src/img_fast_mser_v2.cpp
index 766343f..b0d550e 100644
--- a/basicimg/src/img_fast_mser_v2.cpp
+++ b/basicimg/src/img_fast_mser_v2.cpp
@@ -1882,7 +1882,6 @@ void img_fast_mser_v2::extract_pixel_parallel_4_acceleration(img_multi_msers& ms
 			mser_block_info_pointer[3]->block_self_pixel_size = cur_mser.m_points[3].m_x;
 		}
 
-		cur_mser.m_gray_level = cur_region->m_gray_level;
 		cur_region->m_mser_index = i;
 
 		mser_block_info_pointer[0]->left = -1;
-- 
2.43.0


From dafb6d663878ec2bac194311c3843a72d0e6a98e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:45 +0000
Subject: [PATCH 04/50] fix: fast mser v2 lays out the boundary heap by the
 mirrored gray level

---
 basicimg/src/img_fast_mser_v2.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/basicimg/src/img_fast_mser_v2.cpp b/basicimg/src/img_fast_mser_v2.cpp
index b0d550e..2e3bb2a 100644
--- a/basicimg/src/img_fast_mser_v2.cpp
+++ b/basicimg/src/img_fast_mser_v2.cpp
@@ -429,7 +429,7 @@ void img_fast_mser_v2::process_tree_patch(parallel_info& pinfo, const mt_mat& im
 				*points++ = m_boundary_pixel;
 
 				for (col = 0; col < pinfo.m_width; ++col) {
-					level_size[*img_data]++;
+					level_size[*img_data ^ gray_mask]++;
 					*extended_image_data++ = *img_data++;
 					*points++ = 0;
 				}
-- 
2.43.0


From 1eefbe8f6d0b7cec39ce6bd92dabf5eaf4724bf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:45 +0000
Subject: [PATCH 05/50] fix: fast mser v2 frees the work memory of the
 extraction

---
 basicimg/src/img_fast_mser_v2.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/basicimg/src/img_fast_mser_v2.cpp b/basicimg/src/img_fast_mser_v2.cpp
index 2e3bb2a..ad176c7 100644
--- a/basicimg/src/img_fast_mser_v2.cpp
+++ b/basicimg/src/img_fast_mser_v2.cpp
@@ -25,6 +25,7 @@ img_fast_mser_v2::img_fast_mser_v2()
 	m_gray_order_regions = NULL;
 	m_gray_order_region_size = 0;
 	m_gray_order_regions_memory_size = 0;
+	m_exceed_times = 0;
 }
 
 img_fast_mser_v2::~img_fast_mser_v2() {
@@ -2053,6 +2054,12 @@ void img_fast_mser_v2::extract_pixel_parallel_4_acceleration(img_multi_msers& ms
 		mser_block_info_pointer[2] += 1;
 		mser_block_info_pointer[3] += 1;
 	}
+
+	if (mser_block_indexes != (i32*)(m_heap) + total_region_size) {
+		free(mser_block_indexes);
+	}
+
+	free(region_heap);
 }
 
 void img_fast_mser_v2::calculate_variation(mser_region* region) {
-- 
2.43.0


From c564662d66876bbece6969a32e43b5f4a9ec6610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:50 +0000
Subject: [PATCH 06/50] fix: fast mser v1 with one thread stores a range as the
 pointer its readers expect

---
 basicimg/src/img_fast_mser_v1.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/basicimg/src/img_fast_mser_v1.cpp b/basicimg/src/img_fast_mser_v1.cpp
index 03dda39..9ed07a5 100644
--- a/basicimg/src/img_fast_mser_v1.cpp
+++ b/basicimg/src/img_fast_mser_v1.cpp
@@ -2969,12 +2969,12 @@ void img_fast_mser_v1::extract_pixel_parallel_1_fast(img_multi_msers& msers, u8
 		cur_region = m_gray_order_regions[i];
 
 		cur_mser.m_size = cur_region->m_size;
+		cur_mser.m_rect.set_rect(cur_region->m_left, cur_region->m_top, i32(cur_region->m_right - cur_region->m_left + 1), i32(cur_region->m_bottom - cur_region->m_top + 1));
 		cur_mser.m_gray_level = cur_region->m_gray_level ^ gray_mask;
 		cur_mser.m_memory_type = img_mser::Memory_Type_Range;
 		
-		i32* pt_range = (i32*)&cur_mser.m_points;
-		pt_range[0] = m_linked_points[cur_region->m_head].m_ref;
-		pt_range[1] = m_linked_points[cur_region->m_tail].m_ref;
+		// store start memory index
+		cur_mser.m_points = memory + m_linked_points[cur_region->m_head].m_ref;
 	}
 }
 
-- 
2.43.0


From 65e49416b2f6c54a096a9f32c90968adc8a93f39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:50 +0000
Subject: [PATCH 07/50] fix: fast mser v1 extracts the last top regions too

---
 basicimg/src/img_fast_mser_v1.cpp | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/basicimg/src/img_fast_mser_v1.cpp b/basicimg/src/img_fast_mser_v1.cpp
index 9ed07a5..fc90bb1 100644
--- a/basicimg/src/img_fast_mser_v1.cpp
+++ b/basicimg/src/img_fast_mser_v1.cpp
@@ -3091,13 +3091,8 @@ void img_fast_mser_v1::extract_pixel_parallel_k_fast(img_multi_msers& msers, u8
 		cur_size += cur_region->m_size;
 		parallel_stop_indexes[index] = i;
 
-		if (cur_size > parallel_size) {
+		if (cur_size > parallel_size && index + 1 < m_parallel_thread_number) {
 			++index;
-
-			if (index == m_parallel_thread_number) {
-				break;
-			}
-
 			memory_offsets[index] = cur_size;			
 			parallel_size += quarter_size;
 		}
-- 
2.43.0


From 3dd9fc1b3aa896f27e5450f67d09b8593d204401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:50 +0000
Subject: [PATCH 08/50] fix: fast mser v2 bounding rectangle covers a block
 that grows both sides

---
 basicimg/src/img_fast_mser_v2.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/basicimg/src/img_fast_mser_v2.cpp b/basicimg/src/img_fast_mser_v2.cpp
index ad176c7..4744af4 100644
--- a/basicimg/src/img_fast_mser_v2.cpp
+++ b/basicimg/src/img_fast_mser_v2.cpp
@@ -1992,13 +1992,17 @@ void img_fast_mser_v2::extract_pixel_parallel_4_acceleration(img_multi_msers& ms
 			} else {
 				if (mser_block_info_pointer[k]->left < left) {
 					left = mser_block_info_pointer[k]->left;
-				} else if (mser_block_info_pointer[k]->right > right) {
+				}
+
+				if (mser_block_info_pointer[k]->right > right) {
 					right = mser_block_info_pointer[k]->right;
 				}
 
 				if (mser_block_info_pointer[k]->top < top) {
 					top = mser_block_info_pointer[k]->top;
-				} else if (mser_block_info_pointer[k]->bottom > bottom) {
+				}
+
+				if (mser_block_info_pointer[k]->bottom > bottom) {
 					bottom = mser_block_info_pointer[k]->bottom;
 				}
 			}
-- 
2.43.0


From 2fbee979dae35f16807c096bd8dd177bc2a0f62b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:03 +0000
Subject: [PATCH 09/50] fix: block arenas move instead of sharing their blocks

---
 basicmath/include/mt_block_memory.h | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/basicmath/include/mt_block_memory.h b/basicmath/include/mt_block_memory.h
index 470c3ac..b26fe43 100644
--- a/basicmath/include/mt_block_memory.h
+++ b/basicmath/include/mt_block_memory.h
@@ -79,10 +79,38 @@ namespace basicmath {
 			}
 		}
 
+		// the blocks have one owner: they can move to another arena, not be shared
+		mt_block_memory(mt_block_memory&& other) {
+			default_param();
+			swap(other);
+		}
+
+		mt_block_memory& operator = (mt_block_memory&& other) {
+			swap(other);
+			return *this;
+		}
+
 		~mt_block_memory() {
 			clear();
 		}
 
+		void swap(mt_block_memory& other) {
+			std::swap(m_begin, other.m_begin);
+			std::swap(m_cur_data, other.m_cur_data);
+			std::swap(m_cur_block_end, other.m_cur_block_end);
+			std::swap(m_cur_block, other.m_cur_block);
+			std::swap(m_element_number, other.m_element_number);
+			std::swap(m_memory_size, other.m_memory_size);
+			std::swap(m_block_size, other.m_block_size);
+			std::swap(m_block_size_2_base, other.m_block_size_2_base);
+			std::swap(m_block_size_mask, other.m_block_size_mask);
+			std::swap(m_use_new, other.m_use_new);
+			std::swap(m_reuse_indexes, other.m_reuse_indexes);
+			std::swap(m_resue_max_number, other.m_resue_max_number);
+			std::swap(m_reuse_number, other.m_reuse_number);
+			m_datas.swap(other.m_datas);
+		}
+
 		void clear() {
 			for (i32 i = 0; i < (i32)m_datas.size(); ++i) {
 				if (m_use_new) {
-- 
2.43.0


From 2e9cd185b43d39826610fe10b78ce50c78a128a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:13 +0000
Subject: [PATCH 10/50] fix: fast mser v1 frees its work memory

---
 basicimg/include/img_fast_mser_v1.h |  1 +
 basicimg/src/img_fast_mser_v1.cpp   | 13 +++++++++++++
 2 files changed, 14 insertions(+)

diff --git a/basicimg/include/img_fast_mser_v1.h b/basicimg/include/img_fast_mser_v1.h
index 213498e..7c5a291 100644
--- a/basicimg/include/img_fast_mser_v1.h
+++ b/basicimg/include/img_fast_mser_v1.h
@@ -153,6 +153,7 @@ namespace basicimg {
 		vector<i32*> m_orderd_indexes;
 
 		void allocate_memory(const mt_mat& img, const img_mask_info<u8>& mask);
+		void free_orderd_indexes();
 		void allocate_memory_parallel_1(const mt_mat& img, const img_mask_info<u8>& mask);
 		void allocate_memory_parallel_2(const mt_mat& img, const img_mask_info<u8>& mask);
 		void allocate_memory_parallel_4(const mt_mat& img, const img_mask_info<u8>& mask);
diff --git a/basicimg/src/img_fast_mser_v1.cpp b/basicimg/src/img_fast_mser_v1.cpp
index fc90bb1..b1dca39 100644
--- a/basicimg/src/img_fast_mser_v1.cpp
+++ b/basicimg/src/img_fast_mser_v1.cpp
@@ -57,6 +57,16 @@ img_fast_mser_v1::~img_fast_mser_v1() {
 	basicsys_free(m_linked_points);
 	basicsys_free(m_masked_image);
 	basicsys_free(m_boundary_regions);
+	basicsys_free(m_merged_points);
+	free_orderd_indexes();
+}
+
+void img_fast_mser_v1::free_orderd_indexes() {
+	for (i32 i = 0; i < (i32)m_orderd_indexes.size(); ++i) {
+		basicsys_free(m_orderd_indexes[i]);
+	}
+
+	m_orderd_indexes.clear();
 }
 
 void img_fast_mser_v1::clear_memory_cache() {
@@ -65,6 +75,7 @@ void img_fast_mser_v1::clear_memory_cache() {
 	basicsys_free(m_masked_image);
 	basicsys_free(m_boundary_regions);
 	basicsys_free(m_merged_points);
+	free_orderd_indexes();
 
 	m_heap_size = 0;
 	m_masked_image_size = 0;
@@ -88,6 +99,8 @@ void img_fast_mser_v1::allocate_memory(const mt_mat& img, const img_mask_info<u8
 		m_heap = (i16**)malloc(sizeof(i16*) * m_heap_size);
 	}
 	
+	free_orderd_indexes();
+
 	if (m_parallel_thread_number == 1) {
 		allocate_memory_parallel_1(img, mask);
 	} else if (m_parallel_thread_number == 2) {
-- 
2.43.0


From 67a68797e4d6f43c71882d3b8dadf59027edcb8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:44 +0000
Subject: [PATCH 11/50] fix: fast mser v2 visits all eight neighbours of a
 pixel

---
 basicimg/src/img_fast_mser_v2.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/basicimg/src/img_fast_mser_v2.cpp b/basicimg/src/img_fast_mser_v2.cpp
index 4744af4..6f4ec8d 100644
--- a/basicimg/src/img_fast_mser_v2.cpp
+++ b/basicimg/src/img_fast_mser_v2.cpp
@@ -268,13 +268,14 @@ void img_fast_mser_v2::make_tree_patch(parallel_info& pinfo, const mt_mat& img,
 
 	i16 nbr_gray;
 	i32 nbr_index;
+	i32 nbr_number = (img_Connected_Type_8_Neibour == m_connected_type) ? 8 : 4;
 	u32* nbr_points;
 
 	for ( ; ; ) {
 		nbr_index = *points >> m_dir_shift;
 
 		// take tour of all the 4 or 8 directions
-		while (nbr_index <= 4) {
+		while (nbr_index <= nbr_number) {
 			// get the neighbor
 			nbr_points = points + dir[nbr_index];
 
-- 
2.43.0


From f352d227ff73f719f3fc6256d401397a8f66d257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:02 +0000
Subject: [PATCH 12/50] fix: longest common substring missed matches ending at
 the first element of the second sequence

---
 .../mt_longest_common_substring.h                    | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/basicmath/include/dynamic_programming/mt_longest_common_substring.h b/basicmath/include/dynamic_programming/mt_longest_common_substring.h
index 8d58628..7521030 100644
--- a/basicmath/include/dynamic_programming/mt_longest_common_substring.h
+++ b/basicmath/include/dynamic_programming/mt_longest_common_substring.h
@@ -19,14 +19,12 @@ namespace basicmath {
 			m_maxtrix.resize(m_a_size * m_b_size, 0);
 
 			for (i32 i = 0; i < m_a_size; ++i) {
-				m_maxtrix[i] = (str_b[0] == str_a[i] ? 1 : 0);
-
-				for (i32 j = 1; j < m_b_size; ++j) {
-					m_maxtrix[j * m_a_size] = (str_a[0] == str_b[j] ? 1 : 0);
-
-					if (i > 0 && j > 0) {
-						if (str_a[i] == str_b[j]) {
+				for (i32 j = 0; j < m_b_size; ++j) {
+					if (str_a[i] == str_b[j]) {
+						if (i > 0 && j > 0) {
 							m_maxtrix[j * m_a_size + i] = m_maxtrix[(j - 1) * m_a_size + i - 1] + 1;
+						} else {
+							m_maxtrix[j * m_a_size + i] = 1;
 						}
 					}
 
-- 
2.43.0


From 22c3b05b9989175c6789e0b5e3ac4dfbad45790d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:02 +0000
Subject: [PATCH 13/50] fix: longest common substring listed end positions as
 begin indexes

---
 .../dynamic_programming/mt_longest_common_substring.h     | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/basicmath/include/dynamic_programming/mt_longest_common_substring.h b/basicmath/include/dynamic_programming/mt_longest_common_substring.h
index 7521030..eb2af20 100644
--- a/basicmath/include/dynamic_programming/mt_longest_common_substring.h
+++ b/basicmath/include/dynamic_programming/mt_longest_common_substring.h
@@ -53,8 +53,8 @@ namespace basicmath {
 			indexes.clear();
 
 			for (i32 i = 0; i < (i32)m_maxtrix.size(); ++i) {
-				if (m_maxtrix[i] == m_length) {
-					indexes.push_back(i % m_a_size);
+				if (m_length > 0 && m_maxtrix[i] == m_length) {
+					indexes.push_back(i % m_a_size - m_length + 1);
 				}
 			}
 		}
@@ -63,8 +63,8 @@ namespace basicmath {
 			indexes.clear();
 
 			for (i32 i = 0; i < (i32)m_maxtrix.size(); ++i) {
-				if (m_maxtrix[i] == m_length) {
-					indexes.push_back(i / m_a_size);
+				if (m_length > 0 && m_maxtrix[i] == m_length) {
+					indexes.push_back(i / m_a_size - m_length + 1);
 				}
 			}
 		}
-- 
2.43.0


From ca72df77737616ed8839647e5e78679f305e06cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:02 +0000
Subject: [PATCH 14/50] fix: knapsack marked items that do not fit or do not
 add up to the reported value

---
 .../include/dynamic_programming/mt_01_bag.h   | 31 +++++--------------
 1 file changed, 8 insertions(+), 23 deletions(-)

diff --git a/basicmath/include/dynamic_programming/mt_01_bag.h b/basicmath/include/dynamic_programming/mt_01_bag.h
index 0a4bcc6..80a990b 100644
--- a/basicmath/include/dynamic_programming/mt_01_bag.h
+++ b/basicmath/include/dynamic_programming/mt_01_bag.h
@@ -17,7 +17,7 @@ namespace basicmath {
 
 			m_max_value = calculate_value(weights, values, (i32)weights.size() - 1, max_weight);
 
-			detrermine_flag(values, (i32)weights.size() - 1, m_max_value);
+			detrermine_flag(weights, values, (i32)weights.size() - 1, max_weight);
 		}
 
 		T_Value max_value() {
@@ -81,31 +81,16 @@ namespace basicmath {
 			return cur_cache_info.m_value;
 		}
 
-		void detrermine_flag(const vector<T_Value>& values, i32 considered_range, T_Value considered_value) {
-			for (i32 i = 0; i < (i32)m_caches.size(); ++i) {
-				if (mt_helper::compare_value(m_caches[i].m_value, considered_value) == 0
-					&& m_caches[i].m_considered_range <= considered_range 
-					&& find_value(considered_range - 1, considered_value - values[m_caches[i].m_considered_range])) {
-						m_flags[m_caches[i].m_considered_range] = sys_true;
-
-						detrermine_flag(values, considered_range - 1, considered_value - values[m_caches[i].m_considered_range]);
-				}
-			}
-		}
+		void detrermine_flag(const vector<T_Weight>& weights, const vector<T_Value>& values, i32 considered_range, T_Weight considered_weight) {
+			for (i32 i = considered_range; i >= 0; --i) {
+				T_Value value_with_element = calculate_value(weights, values, i, considered_weight);
+				T_Value value_without_element = calculate_value(weights, values, i - 1, considered_weight);
 
-		b8 find_value(i32 considered_range, T_Value considered_value) {
-			if (considered_range < 0) {
-				return sys_true;
-			}
-
-			for (i32 i = 0; i < (i32)m_caches.size(); ++i) {
-				if (m_caches[i].m_considered_range <= considered_range
-					&& mt_helper::compare_value(m_caches[i].m_value, considered_value) == 0) {
-						return sys_true;
+				if (mt_helper::compare_value(value_with_element, value_without_element) != 0) {
+					m_flags[i] = sys_true;
+					considered_weight -= weights[i];
 				}
 			}
-
-			return sys_false;
 		}
 
 		vector<cache_info> m_caches;
-- 
2.43.0


From 62a6554c4d8e6b86edad1cc342c89d4c67ed422c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:36 +0000
Subject: [PATCH 15/50] fix: flip_vector swapped every element with the last
 one

---
 basicmath/include/mt_helper.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/basicmath/include/mt_helper.h b/basicmath/include/mt_helper.h
index 331bf82..be27be7 100644
--- a/basicmath/include/mt_helper.h
+++ b/basicmath/include/mt_helper.h
@@ -417,7 +417,7 @@ namespace basicmath {
 			i32 half_size = (i32)data.size()  / 2;
 			
 			for (i32 i = 0; i < half_size; ++i) {
-				swap(data[i], data[i + (i32)data.size() - i - 1]);
+				swap(data[i], data[(i32)data.size() - i - 1]);
 			}
 		}
 
-- 
2.43.0


From 3eeb811790c51c22e7b416c174073e07d8f1fc4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:36 +0000
Subject: [PATCH 16/50] fix: instance_from_pointer kept the old size of its
 result

---
 basicmath/include/mt_helper.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/basicmath/include/mt_helper.h b/basicmath/include/mt_helper.h
index be27be7..dab3c78 100644
--- a/basicmath/include/mt_helper.h
+++ b/basicmath/include/mt_helper.h
@@ -353,7 +353,7 @@ namespace basicmath {
 
 		template<class T>
 		static void instance_from_pointer(vector<T>& res, const vector<T*>& src) {
-			res.resize(res.size());
+			res.resize(src.size());
 
 			for (int i = 0; i < (int)res.size(); ++i) {
 				res[i] = *src[i];
-- 
2.43.0


From b6649f25bb0d7f516a0e24d6ce30681f509a2c03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:36 +0000
Subject: [PATCH 17/50] fix: odd_even_sort did not treat negative odd numbers
 as odd

---
 basicmath/include/mt_helper.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/basicmath/include/mt_helper.h b/basicmath/include/mt_helper.h
index dab3c78..2bbee4d 100644
--- a/basicmath/include/mt_helper.h
+++ b/basicmath/include/mt_helper.h
@@ -370,12 +370,12 @@ namespace basicmath {
 					
 					for (i32 j = 0; j < (i32)res.size() - 1 - i; ++j) {
 						if (odd_as_front) {
-							if (res[j] % 2 == 0 && res[j + 1] % 2 == 1) {
+							if (res[j] % 2 == 0 && res[j + 1] % 2 != 0) {
 								swap(res[j], res[j + 1]);
 								switch_flag = sys_true;
 							}
 						} else {
-							if (res[j] % 2 == 1 && res[j + 1] % 2 == 0) {
+							if (res[j] % 2 != 0 && res[j + 1] % 2 == 0) {
 								swap(res[j], res[j + 1]);
 								switch_flag = sys_true;
 							}
@@ -391,11 +391,11 @@ namespace basicmath {
 				i32 high = (i32)res.size() - 1;
 
 				while (low < high) {
-					while (low < high && ((odd_as_front && res[low] % 2 == 1) || (!odd_as_front && res[low] % 2 == 0))) {
+					while (low < high && ((odd_as_front && res[low] % 2 != 0) || (!odd_as_front && res[low] % 2 == 0))) {
 						++low;
 					}
 
-					while (low < high && ((odd_as_front && res[high] % 2 == 0) || (!odd_as_front && res[high] % 2 == 1))) {
+					while (low < high && ((odd_as_front && res[high] % 2 == 0) || (!odd_as_front && res[high] % 2 != 0))) {
 						--high;
 					}
 
-- 
2.43.0


From 1f1cb60e6864770d3b2c3b43fc1868b19d08d59a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:36 +0000
Subject: [PATCH 18/50] fix: multi_index_from_index was not the inverse of
 index_from_multi_index and read behind sizes

---
 basicmath/include/mt_helper.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/basicmath/include/mt_helper.h b/basicmath/include/mt_helper.h
index 2bbee4d..03acd6a 100644
--- a/basicmath/include/mt_helper.h
+++ b/basicmath/include/mt_helper.h
@@ -233,11 +233,12 @@ namespace basicmath {
 			}
 
 			for (i32 i = 0; i < size; ++i) {
-				i32 cur_dim_index = index % dim_element_number;
-				index = index - cur_dim_index * dim_element_number;
-				dim_element_number /= sizes[i + 1];
+				indexs[i] = index / dim_element_number;
+				index = index % dim_element_number;
 
-				indexs[i] = cur_dim_index;
+				if (i + 1 < size) {
+					dim_element_number /= sizes[i + 1];
+				}
 			}
 		}
 
-- 
2.43.0


From 100e300454d46f401f7306dfe1ee1c72e485a8c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:36 +0000
Subject: [PATCH 19/50] fix: one_number did not end for the largest argument
 and missed digits above 2^31

---
 basicmath/src/mt_helper.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/basicmath/src/mt_helper.cpp b/basicmath/src/mt_helper.cpp
index fa57be7..9d55615 100644
--- a/basicmath/src/mt_helper.cpp
+++ b/basicmath/src/mt_helper.cpp
@@ -114,9 +114,9 @@ i32 mt_helper::number_of_1(i64 n) {
 
 u32 mt_helper::one_number(u32 value) {
 	u32 res = 0;
-	for (u32 i = 0; i <= value; ++i) {
-		int zhengshu = i;
-		int yushu = 0;
+	for (u32 i = value; i > 0; --i) {
+		u32 zhengshu = i;
+		u32 yushu = 0;
 
 		while (zhengshu != 0) {
 			yushu = zhengshu % 10;
-- 
2.43.0


From d7350d0e255d225353a598ff9444b37c7c4a0808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:11 +0000
Subject: [PATCH 20/50] fix: combination overflowed for n above 12

---
 basicmath/include/mt_helper.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/basicmath/include/mt_helper.h b/basicmath/include/mt_helper.h
index 03acd6a..1812160 100644
--- a/basicmath/include/mt_helper.h
+++ b/basicmath/include/mt_helper.h
@@ -253,7 +253,13 @@ namespace basicmath {
 
 		static i32 combination(i32 n, i32 k) {
 			basiclog_assert2(n >= k);
-			return factorial(n) / (factorial(k) * factorial(n - k));
+			i64 res = 1;
+
+			for (i32 i = 1; i <= k; ++i) {
+				res = res * (n - k + i) / i;
+			}
+
+			return (i32)res;
 		}
 
 		template<class T>
-- 
2.43.0


From a31e818aa3af1184eefaaa7599e323d514d61896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:03 +0000
Subject: [PATCH 21/50] fix: members of mt_rect_t used names that do not exist
 and could not be instantiated

---
 basicmath/include/mt_rect_t.h | 98 +++++++++++++++++------------------
 1 file changed, 49 insertions(+), 49 deletions(-)

diff --git a/basicmath/include/mt_rect_t.h b/basicmath/include/mt_rect_t.h
index d2115ba..a64d79d 100644
--- a/basicmath/include/mt_rect_t.h
+++ b/basicmath/include/mt_rect_t.h
@@ -47,35 +47,35 @@ public:
 	}
 
 	mt_rect_t<T> operator+(const mt_size_t<T>& other) const {
-		return mt_rect_t<T>(m_left, m_top, m_width + other.width, m_height + other.height);
+		return mt_rect_t<T>(m_left, m_top, m_width + other.m_width, m_height + other.m_height);
 	}
 
 	void operator+=(const mt_point_t<T>& other) {
-		m_left += other.x;
-		m_top += other.y;
+		m_left += other.m_x;
+		m_top += other.m_y;
 	}
 
 	void operator-=(const mt_point_t<T>& other) {
-		m_left += other.x;
-		m_top += other.y;
+		m_left += other.m_x;
+		m_top += other.m_y;
 	}
 
 	void operator+=(const mt_size_t<T>& other) {
-		m_width += other.width;
-		m_height += other.height;
+		m_width += other.m_width;
+		m_height += other.m_height;
 	}
 
 	void operator-=(const mt_size_t<T>& other) {
-		m_width += other.width;
-		m_height += other.height;
+		m_width += other.m_width;
+		m_height += other.m_height;
 	}
 
 	mt_rect_t<T> operator-(const mt_point_t<T>& other) const {
-		return mt_rect_t<T>(m_left - other.x, m_top - other.y, m_width, m_height);
+		return mt_rect_t<T>(m_left - other.m_x, m_top - other.m_y, m_width, m_height);
 	}
 
 	mt_rect_t<T> operator-(const mt_size_t<T>& other) const {
-		return mt_rect_t<T>(m_left, m_top, m_width - other.width, m_height - other.height);
+		return mt_rect_t<T>(m_left, m_top, m_width - other.m_width, m_height - other.m_height);
 	}
 
 	mt_rect_t(const mt_point_t<T>& left_top, const mt_size_t<T>& size) {
@@ -170,13 +170,13 @@ public:
 		currentNormlized.normlized();
 		otherNormlized.normlized();
 
-		int left = max(currentNormlized.mLeft, otherNormlized.mLeft);		
-		int right = min(currentNormlized.right(), otherNormlized.right());
-		int top = max(currentNormlized.mTop, otherNormlized.mTop);
-		int bottom = min(currentNormlized.bottom(), otherNormlized.bottom());
-		intersectRect.setRect(mt_point(left, top), mt_point(right, bottom));
+		T left = max(currentNormlized.m_left, otherNormlized.m_left);		
+		T right = min(currentNormlized.right(), otherNormlized.right());
+		T top = max(currentNormlized.m_top, otherNormlized.m_top);
+		T bottom = min(currentNormlized.bottom(), otherNormlized.bottom());
+		intersectRect.set_rect(mt_point_t<T>(left, top), mt_point_t<T>(right, bottom));
 
-		return (intersectRect.mWidth > 0) && (intersectRect.mHeight > 0);
+		return (intersectRect.m_width > 0) && (intersectRect.m_height > 0);
 	}
 
 	bool is_intersect(const mt_rect_t<T>& rect) const {
@@ -185,19 +185,19 @@ public:
 	}
 
 	bool contain(const mt_point_t<T>& point) const {
-		if (point.x < m_left) {
+		if (point.m_x < m_left) {
 			return false;
 		}
 
-		if (point.y < m_top) {
+		if (point.m_y < m_top) {
 			return false;
 		}
 
-		if (point.x > right()) {
+		if (point.m_x > right()) {
 			return false;
 		}
 
-		if (point.y > bottom()) {
+		if (point.m_y > bottom()) {
 			return false;
 		}
 
@@ -205,19 +205,19 @@ public:
 	}
 
 	bool boundary(const mt_point_t<T>& point) const {
-		if (point.x == m_left && point.y >= m_top && point.y <= bottom()) {
+		if (point.m_x == m_left && point.m_y >= m_top && point.m_y <= bottom()) {
 			return true;
 		}
 
-		if (point.x == right() && point.y >= m_top && point.y <= bottom()) {
+		if (point.m_x == right() && point.m_y >= m_top && point.m_y <= bottom()) {
 			return true;
 		}
 
-		if (point.y == m_top && point.x >= m_left && point.x <= right()) {
+		if (point.m_y == m_top && point.m_x >= m_left && point.m_x <= right()) {
 			return true;
 		}
 
-		if (point.y == bottom() && point.x >= m_left && point.x <= right()) {
+		if (point.m_y == bottom() && point.m_x >= m_left && point.m_x <= right()) {
 			return true;
 		}
 
@@ -229,7 +229,7 @@ public:
 	}
 	
 	bool in_boundary(const mt_point_t<T>& point) const {
-		return point.x == m_left || point.y == m_top || point.x == m_left + m_width - 1 || point.y == m_top + m_height - 1;
+		return point.m_x == m_left || point.m_y == m_top || point.m_x == m_left + m_width - 1 || point.m_y == m_top + m_height - 1;
 	}
 
 	bool is_intersect_area(const mt_rect_t<T>& r2, double threshold) const {
@@ -265,7 +265,7 @@ public:
 			return false;
 		}	
 
-		return intersectRect.mWidth / (double)r2.mWidth >= threshold; 
+		return intersectRect.m_width / (double)r2.m_width >= threshold; 
 	}
 
 	double get_intersect_width_ratio(const mt_rect_t<T>& r2) const {
@@ -274,7 +274,7 @@ public:
 			return false;
 		}	
 
-		return intersectRect.mWidth / (double)r2.mWidth; 
+		return intersectRect.m_width / (double)r2.m_width; 
 	}
 
 	bool is_intersect_height(const mt_rect_t<T>& r2, double threshold) const {
@@ -283,7 +283,7 @@ public:
 			return false;
 		}	
 
-		return intersectRect.mHeight / (double)r2.mHeight >= threshold; 
+		return intersectRect.m_height / (double)r2.m_height >= threshold; 
 	}
 
 	double get_intersect_height_ratio(const mt_rect_t<T>& r2) const {
@@ -292,7 +292,7 @@ public:
 			return false;
 		}	
 
-		return intersectRect.mHeight / (double)r2.mHeight; 
+		return intersectRect.m_height / (double)r2.m_height; 
 	}
 
 	/**
@@ -373,20 +373,20 @@ public:
 	}
 
 	void validate_point(mt_point_t<T>& pt) const{
-		if (pt.x < m_left) {
-			pt.x = m_left;
+		if (pt.m_x < m_left) {
+			pt.m_x = m_left;
 		}
 
-		if (pt.x > right()) {
-			pt.x = right();
+		if (pt.m_x > right()) {
+			pt.m_x = right();
 		}
 
-		if (pt.y < m_top) {
-			pt.y = m_top;
+		if (pt.m_y < m_top) {
+			pt.m_y = m_top;
 		}
 
-		if (pt.y > bottom()) {
-			pt.y = bottom();
+		if (pt.m_y > bottom()) {
+			pt.m_y = bottom();
 		}
 	}
 
@@ -397,7 +397,7 @@ public:
 		validate_point(tlPoint);
 		validate_point(brPoint);
 
-		rect.setRect(tlPoint, brPoint);
+		rect.set_rect(tlPoint, brPoint);
 	}
 
 	double aspect() const {
@@ -465,7 +465,7 @@ public:
 		mt_rect_t<T> top;
 		mt_rect_t<T> bottom;
 
-		if (m_top < other.mTop) {
+		if (m_top < other.m_top) {
 			top = *this;
 			bottom = other;
 		} else {
@@ -473,7 +473,7 @@ public:
 			bottom = *this;
 		}
 
-		T distance = bottom.mTop - top.bottom();
+		T distance = bottom.m_top - top.bottom();
 
 		if (distance < 0) {
 			distance = 0;
@@ -498,10 +498,10 @@ public:
 	
 	mt_rect_t<T> operator*(const mt_point2d& v) {
 		mt_rect_t<T> res;
-		res.mLeft = (T)(m_left * v.m_x);
-		res.mTop = (T)(m_top * v.m_y);
-		res.mWidth = (T)(m_width * v.m_x);
-		res.mHeight = (T)(m_height * v.m_y);
+		res.m_left = (T)(m_left * v.m_x);
+		res.m_top = (T)(m_top * v.m_y);
+		res.m_width = (T)(m_width * v.m_x);
+		res.m_height = (T)(m_height * v.m_y);
 
 		return res;
 	}
@@ -515,10 +515,10 @@ public:
 
 	mt_rect_t<T> operator/(const mt_point2d& v) {
 		mt_rect_t<T> res;
-		res.mLeft = (T)(m_left / v.m_x);
-		res.mTop = (T)(m_top / v.m_y);
-		res.mWidth = (T)(m_width / v.m_x);
-		res.mHeight = (T)(m_height / v.m_y);
+		res.m_left = (T)(m_left / v.m_x);
+		res.m_top = (T)(m_top / v.m_y);
+		res.m_width = (T)(m_width / v.m_x);
+		res.m_height = (T)(m_height / v.m_y);
 
 		return res;
 	}
-- 
2.43.0


From 148b84faaee44d25c40fa4e9360b4705ba8a48e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:03 +0000
Subject: [PATCH 22/50] fix: operator-= of mt_rect_t added

---
 basicmath/include/mt_rect_t.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/basicmath/include/mt_rect_t.h b/basicmath/include/mt_rect_t.h
index a64d79d..cc1682b 100644
--- a/basicmath/include/mt_rect_t.h
+++ b/basicmath/include/mt_rect_t.h
@@ -56,8 +56,8 @@ public:
 	}
 
 	void operator-=(const mt_point_t<T>& other) {
-		m_left += other.m_x;
-		m_top += other.m_y;
+		m_left -= other.m_x;
+		m_top -= other.m_y;
 	}
 
 	void operator+=(const mt_size_t<T>& other) {
@@ -66,8 +66,8 @@ public:
 	}
 
 	void operator-=(const mt_size_t<T>& other) {
-		m_width += other.m_width;
-		m_height += other.m_height;
+		m_width -= other.m_width;
+		m_height -= other.m_height;
 	}
 
 	mt_rect_t<T> operator-(const mt_point_t<T>& other) const {
-- 
2.43.0


From b46c141ab0aa6431decd100e6365520333186d4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:03 +0000
Subject: [PATCH 23/50] fix: appending an empty rectangle enlarged a mt_rect_t

---
 basicmath/include/mt_rect_t.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/basicmath/include/mt_rect_t.h b/basicmath/include/mt_rect_t.h
index cc1682b..b8ba1c4 100644
--- a/basicmath/include/mt_rect_t.h
+++ b/basicmath/include/mt_rect_t.h
@@ -351,7 +351,7 @@ public:
 	void adjust_by_append_rect(const mt_rect_t<T>& appendRect) {
 		if (empty()) {
 			*this = appendRect;
-		} else {
+		} else if (!appendRect.empty()) {
 			T minX = min(m_left, appendRect.m_left);
 			T minY = min(m_top, appendRect.m_top);
 			T maxX = max(right(), appendRect.right());
-- 
2.43.0


From ddb4b0f2ec13e9fb23caa31dcadd1dc987e2bf96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:03 +0000
Subject: [PATCH 24/50] fix: initialising an empty mt_block_memory with blocks
 of one element read the front of an empty block list

---
 basicmath/include/mt_block_memory.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/basicmath/include/mt_block_memory.h b/basicmath/include/mt_block_memory.h
index b26fe43..e0bf5b8 100644
--- a/basicmath/include/mt_block_memory.h
+++ b/basicmath/include/mt_block_memory.h
@@ -136,7 +136,7 @@ namespace basicmath {
 		void init(i32 block_size_2_base, b8 use_new = sys_false, i32 max_reuse = 0) {
 			basiclog_assert2(block_size_2_base >= 0);
 
-			if (block_size_2_base == m_block_size_2_base && m_use_new == use_new) {
+			if (!m_datas.empty() && block_size_2_base == m_block_size_2_base && m_use_new == use_new) {
 				m_cur_block = 0;
 				m_cur_data = m_datas.front();
 				m_cur_block_end = m_cur_data + m_block_size;
-- 
2.43.0


From c9398665774edc0965d3251f7e9fac4d27f74a59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:03 +0000
Subject: [PATCH 25/50] fix: mt_block_memory::in_block denied the elements of
 all blocks but the current one

---
 basicmath/include/mt_block_memory.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/basicmath/include/mt_block_memory.h b/basicmath/include/mt_block_memory.h
index e0bf5b8..f149343 100644
--- a/basicmath/include/mt_block_memory.h
+++ b/basicmath/include/mt_block_memory.h
@@ -200,7 +200,7 @@ namespace basicmath {
 		}
 
 		b8 in_block(T* data) const {
-			if (m_cur_block == -1 || data < m_begin || data >= m_cur_data) {
+			if (m_cur_block == -1) {
 				return sys_false;
 			}
 
@@ -210,11 +210,11 @@ namespace basicmath {
 
 			for (i32 i = 0; i < m_cur_block; ++i) {
 				if (data >= m_datas[i] && data < m_datas[i] + m_block_size) {
-					return sys_false;
+					return sys_true;
 				}
 			}
 
-			return sys_true;
+			return sys_false;
 		}
 
 		u64 memory_size() {
-- 
2.43.0


From 1c804c63952accf79234e3751eb73802783f7530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:59 +0000
Subject: [PATCH 26/50] fix: 3-d max and min pooling start from the first
 element of the window

---
 basicmath/src/mt_pooling.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/basicmath/src/mt_pooling.cpp b/basicmath/src/mt_pooling.cpp
index 648e262..5a5fb96 100644
--- a/basicmath/src/mt_pooling.cpp
+++ b/basicmath/src/mt_pooling.cpp
@@ -664,8 +664,8 @@ namespace basicmath {
 							i32 mat_start_col = 0;
 
 							for (int col = 0; col < res_cols; ++col) {
-								*ptr_result = src.at<T>(mat_stop_plane, mat_start_row, mat_start_col, 0);
-								*ptr_mask = mat_stop_plane * src_plane_element_number + mat_start_row * src.size()[2] + mat_start_col;
+								*ptr_result = src.at<T>(mat_start_plane, mat_start_row, mat_start_col, 0);
+								*ptr_mask = mat_start_plane * src_plane_element_number + mat_start_row * src.size()[2] + mat_start_col;
 
 								i32 mat_stop_col = min(mat_start_col + kernel_sizes[2], src_cols);
 
@@ -720,7 +720,7 @@ namespace basicmath {
 
 							for (int col = 0; col < res_cols; ++col) {
 								*ptr_result = src.at<T>(mat_start_plane, mat_start_row, mat_start_col, 0);
-								*ptr_mask = mat_stop_plane * src_plane_element_number + mat_start_row * src.size()[2] + mat_start_col;
+								*ptr_mask = mat_start_plane * src_plane_element_number + mat_start_row * src.size()[2] + mat_start_col;
 
 								i32 mat_stop_col = min(mat_start_col + kernel_sizes[2], src_cols);
 
@@ -900,7 +900,7 @@ namespace basicmath {
 							for (int col = 0; col < res_cols; ++col) {
 								for (i32 c = 0; c < channels; ++c) {
 									ptr_result[c] = src.at<T>(mat_start_plane, mat_start_row, mat_start_col, c);
-									ptr_mask[c] = mat_stop_plane * src_plane_element_number + mat_start_row * src_cols + mat_start_col;
+									ptr_mask[c] = mat_start_plane * src_plane_element_number + mat_start_row * src_cols + mat_start_col;
 								}
 
 								i32 mat_stop_col = min(mat_start_col + kernel_sizes[2], src_cols);
@@ -959,8 +959,8 @@ namespace basicmath {
 
 							for (int col = 0; col < res_cols; ++col) {
 								for (i32 c = 0; c < channels; ++c) {
-									ptr_result[c] = src.at<T>(mat_stop_plane, mat_start_row, mat_start_col, 0);
-									ptr_mask[c] = mat_stop_plane * src_plane_element_number + mat_start_row * src_cols + mat_start_col;
+									ptr_result[c] = src.at<T>(mat_start_plane, mat_start_row, mat_start_col, c);
+									ptr_mask[c] = mat_start_plane * src_plane_element_number + mat_start_row * src_cols + mat_start_col;
 								}
 
 								i32 mat_stop_col = min(mat_start_col + kernel_sizes[2], src_cols);
-- 
2.43.0


From 2957c0d5e042116f385b80ea28825fe823a4cf96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:37 +0000
Subject: [PATCH 27/50] fix: matrices of more than four dimensions have room
 for their sizes and steps

---
 basicmath/src/mt_mat.cpp | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/basicmath/src/mt_mat.cpp b/basicmath/src/mt_mat.cpp
index 7c6de64..efe0bc4 100644
--- a/basicmath/src/mt_mat.cpp
+++ b/basicmath/src/mt_mat.cpp
@@ -1113,7 +1113,7 @@ mt_mat::mt_mat(i32 dims, const i32* sizes, mt_Depth_Channel depth_channel, u8* d
 
 		if (m_dims > 4) {
 			m_dynamic_size_step_size = m_dims;
-			m_dynamic_size_steps = new int[m_dynamic_size_step_size * 2];
+			m_dynamic_size_steps = (i32*)malloc(sizeof(i32) * (m_dynamic_size_step_size * 2));
 		}
 
 		for (int i = 0; i < dims; ++i) {
@@ -2076,6 +2076,7 @@ void mt_mat::operator =(const mt_mat& other) {
 		}
 
 		m_dynamic_size_step_size = other.m_dims;
+		m_dynamic_size_steps = (i32*)malloc(sizeof(i32) * (m_dynamic_size_step_size * 2));
 	}
 
 	m_dims = other.m_dims;
@@ -2236,9 +2237,9 @@ mt_mat mt_mat::reshape(int dims, const int* sizes, i32 new_channel) const {
 	mt_mat res;
 	res.m_dims = dims;
 
-	if (res.m_dims > 4 && m_dynamic_size_step_size < res.m_dims) {
+	if (res.m_dims > 4) {
 		res.m_dynamic_size_step_size = res.m_dims;
-		res.m_dynamic_size_steps = new int[m_dynamic_size_step_size * 2];
+		res.m_dynamic_size_steps = (i32*)malloc(sizeof(i32) * (res.m_dynamic_size_step_size * 2));
 	}
 
 	for (int i = 0; i < res.m_dims; ++i) {
@@ -2302,7 +2303,7 @@ mt_mat mt_mat::split_dim(int dim, int splited_dims, int* splited_sizes) const {
 
 	if (res.m_dims > mt_Mat_Normal_Support_Dim) {
 		res.m_dynamic_size_step_size = res.m_dims;
-		res.m_dynamic_size_steps = new int[m_dynamic_size_step_size * 2];
+		res.m_dynamic_size_steps = (i32*)malloc(sizeof(i32) * (res.m_dynamic_size_step_size * 2));
 	}
 
 	for (int i = 0; i < splited_dims; ++i) {
@@ -2355,6 +2356,11 @@ mt_mat mt_mat::combine_dim(int combined_dim_start, int combined_dim_count) const
 
 	res.m_dims = m_dims - combined_dim_count + 1;
 
+	if (res.m_dims > mt_Mat_Normal_Support_Dim) {
+		res.m_dynamic_size_step_size = res.m_dims;
+		res.m_dynamic_size_steps = (i32*)malloc(sizeof(i32) * (res.m_dynamic_size_step_size * 2));
+	}
+
 	for (int i = 0; i < combined_dim_start; ++i) {
 		res.size()[i] = size()[i];
 		res.step()[i] = step()[i];
@@ -2574,7 +2580,7 @@ mt_mat mt_mat::channel_as_last_dim() const {
 
 	if (res.m_dims > mt_Mat_Normal_Support_Dim) {
 		res.m_dynamic_size_step_size = res.m_dims;
-		res.m_dynamic_size_steps = new int[m_dynamic_size_step_size * 2];
+		res.m_dynamic_size_steps = (i32*)malloc(sizeof(i32) * (res.m_dynamic_size_step_size * 2));
 	}
 
 	for (int i = 0; i < m_dims; ++i) {
@@ -2606,6 +2612,11 @@ mt_mat mt_mat::last_dim_as_channel() const {
 	mt_mat res;
 	res.m_dims = m_dims - 1;
 
+	if (res.m_dims > mt_Mat_Normal_Support_Dim) {
+		res.m_dynamic_size_step_size = res.m_dims;
+		res.m_dynamic_size_steps = (i32*)malloc(sizeof(i32) * (res.m_dynamic_size_step_size * 2));
+	}
+
 	for (int i = 0; i < res.m_dims; ++i) {
 		res.size()[i] = size()[i];
 		res.step()[i] = step()[i];
@@ -2726,7 +2737,7 @@ mt_mat mt_mat::sub(i32 dims, const mt_range* ranges) const {
 
 	if (res.m_dims > 4) {
 		res.m_dynamic_size_step_size = res.m_dims;
-		res.m_dynamic_size_steps = new int[res.m_dynamic_size_step_size * 2];
+		res.m_dynamic_size_steps = (i32*)malloc(sizeof(i32) * (res.m_dynamic_size_step_size * 2));
 	}
 
 	res.m_data = m_data;
-- 
2.43.0


From d95061758deaa0ad0c8f99d480ce7add5003d6b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:37 +0000
Subject: [PATCH 28/50] fix: combine_dim shares the storage only of dimensions
 that follow each other without gaps

---
 basicmath/src/mt_mat.cpp | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/basicmath/src/mt_mat.cpp b/basicmath/src/mt_mat.cpp
index efe0bc4..07105aa 100644
--- a/basicmath/src/mt_mat.cpp
+++ b/basicmath/src/mt_mat.cpp
@@ -2339,12 +2339,22 @@ mt_mat mt_mat::split_dim(int dim, int splited_dims, int* splited_sizes) const {
 
 mt_mat mt_mat::combine_dim(int combined_dim_start, int combined_dim_count) const {
 	bool order_dim = true;
+	int combined_size = 1;
+	int combined_step = step()[combined_dim_start + combined_dim_count - 1];
 
-	for (int i = 0; i < combined_dim_count - 1; ++i) {
-		if (step()[combined_dim_start + i] < step()[i + combined_dim_start + 1]) {
+	for (int i = combined_dim_start + combined_dim_count - 1; i >= combined_dim_start; --i) {
+		if (size()[i] == 1) {
+			continue;
+		}
+
+		if (combined_size == 1) {
+			combined_step = step()[i];
+		} else if (step()[i] != combined_step * combined_size) {
 			order_dim = false;
 			break;
 		}
+
+		combined_size *= size()[i];
 	}
 
 	if (!order_dim) {
@@ -2372,7 +2382,7 @@ mt_mat mt_mat::combine_dim(int combined_dim_start, int combined_dim_count) const
 		res.size()[combined_dim_start] *= size()[combined_dim_start + i];
 	}
 
-	res.step()[combined_dim_start] = step()[combined_dim_start + combined_dim_count - 1];
+	res.step()[combined_dim_start] = combined_step;
 
 	for (int i = combined_dim_start + 1; i < res.m_dims; ++i) {
 		res.size()[i] = size()[i + combined_dim_count - 1];
-- 
2.43.0


From 6107d4e0e8c00018bbe1149499b278d22a20d037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:37 +0000
Subject: [PATCH 29/50] fix: reshape of a matrix flipped in every dimension
 keeps its elements

---
 basicmath/src/mt_mat.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/basicmath/src/mt_mat.cpp b/basicmath/src/mt_mat.cpp
index 07105aa..c0cefe2 100644
--- a/basicmath/src/mt_mat.cpp
+++ b/basicmath/src/mt_mat.cpp
@@ -2225,6 +2225,12 @@ mt_mat mt_mat::reshape(const vector<int>& sizes, i32 new_channel) const {
 mt_mat mt_mat::reshape(int dims, const int* sizes, i32 new_channel) const {
 	basiclog_assert2(is_continuous());
 
+	bool backward = step()[m_dims - 1] < 0;
+
+	if (backward && new_channel != -1 && new_channel != channel()) {
+		return clone().reshape(dims, sizes, new_channel);
+	}
+
 	i32 current_total_size = mt_helper::mutiply<i32>(size(), size() + dim());
 	i32 reshape_total_size = mt_helper::mutiply<i32>(sizes, sizes + dims);
 
@@ -2264,6 +2270,12 @@ mt_mat mt_mat::reshape(int dims, const int* sizes, i32 new_channel) const {
 
 	res.fill_auto_step();
 
+	if (backward) {
+		for (int i = 0; i < res.m_dims; ++i) {
+			res.step()[i] = -res.step()[i];
+		}
+	}
+
 	if (m_auto_derivative != NULL && m_auto_derivative->stage() == mt_auto_derivative::Stage_Record_Computing) {
 		res.attach(m_auto_derivative);
 
-- 
2.43.0


From 3c0ca0dfcfd03d67556f1588da92c522b84977a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:37 +0000
Subject: [PATCH 30/50] fix: flip of some dimensions leaves the others as they
 are

---
 basicmath/src/mt_mat.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/basicmath/src/mt_mat.cpp b/basicmath/src/mt_mat.cpp
index c0cefe2..7495cfc 100644
--- a/basicmath/src/mt_mat.cpp
+++ b/basicmath/src/mt_mat.cpp
@@ -2542,7 +2542,7 @@ mt_mat mt_mat::flip(int size, const int* dims) const {
 
 	basicmath_mat_request_memory(b8, flip_flags, dim());
 
-	for (i32 i = 0; i < size; ++i) {
+	for (i32 i = 0; i < dim(); ++i) {
 		flip_flags[i] = sys_false;
 	}
 
-- 
2.43.0


From 7567478b80630d9c7c9ef8b220ad4a226f29bece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:37 +0000
Subject: [PATCH 31/50] fix: plane selects along the first dimension

---
 basicmath/src/mt_mat.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/basicmath/src/mt_mat.cpp b/basicmath/src/mt_mat.cpp
index 7495cfc..61095f3 100644
--- a/basicmath/src/mt_mat.cpp
+++ b/basicmath/src/mt_mat.cpp
@@ -2715,7 +2715,7 @@ mt_mat mt_mat::col(int col) const {
 mt_mat mt_mat::plane(int plane) const {
 	basiclog_assert("mt_mat", m_dims == 3);
 
-	return index(plane, 2);
+	return index(plane, 0);
 }
 
 mt_mat mt_mat::front(int number, int dim /* = 0 */) const {
-- 
2.43.0


From 5c87b8759e4b78317906e5b85f85359ac13bb86a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:37 +0000
Subject: [PATCH 32/50] fix: matrices on given storage own it when it is passed
 as shared memory

---
 basicmath/src/mt_mat.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/basicmath/src/mt_mat.cpp b/basicmath/src/mt_mat.cpp
index 61095f3..0fb5186 100644
--- a/basicmath/src/mt_mat.cpp
+++ b/basicmath/src/mt_mat.cpp
@@ -1073,7 +1073,7 @@ mt_mat::mt_mat(int cols, mt_Depth_Channel depth, u8* data, const int* steps, u8*
 	, m_auto_derivative(NULL)
 	, m_shared_memory(NULL) {
 		int sizes[] = {cols};
-		*this = mt_mat(1, sizes, depth, data, steps);
+		*this = mt_mat(1, sizes, depth, data, steps, share_mmeory);
 }
 
 mt_mat::mt_mat(int row, int col, mt_Depth_Channel depth, u8* data, const int* steps, u8* share_mmeory) 
@@ -1085,7 +1085,7 @@ mt_mat::mt_mat(int row, int col, mt_Depth_Channel depth, u8* data, const int* st
 	, m_auto_derivative(NULL)
 	, m_shared_memory(NULL) {
 		int sizes[] = {row, col};
-		*this = mt_mat(2, sizes, depth, data, steps);
+		*this = mt_mat(2, sizes, depth, data, steps, share_mmeory);
 }
 
 mt_mat::mt_mat(int plane, int row, int col, mt_Depth_Channel depth, u8* data, const int* steps, u8* share_mmeory) 
@@ -1097,7 +1097,7 @@ mt_mat::mt_mat(int plane, int row, int col, mt_Depth_Channel depth, u8* data, co
 	, m_auto_derivative(NULL)
 	, m_shared_memory(NULL) {
 		int sizes[] = {plane, row, col};
-		*this = mt_mat(3, sizes, depth, data, steps);
+		*this = mt_mat(3, sizes, depth, data, steps, share_mmeory);
 }
 
 mt_mat::mt_mat(i32 dims, const i32* sizes, mt_Depth_Channel depth_channel, u8* data, const i32* steps, u8* share_mmeory) 
@@ -1144,7 +1144,7 @@ mt_mat::mt_mat(const vector<i32>& sizes, mt_Depth_Channel depth_channel, u8* dat
 	, m_dims(0)
 	, m_auto_derivative(NULL)
 	, m_shared_memory(NULL) {
-		*this = mt_mat((i32)sizes.size(), &sizes[0], depth_channel, data, steps.empty() ? NULL : &steps[0]);
+		*this = mt_mat((i32)sizes.size(), &sizes[0], depth_channel, data, steps.empty() ? NULL : &steps[0], share_mmeory);
 }
 
 mt_mat::mt_mat(const mt_mat& other, Construct_Type type)
-- 
2.43.0


From 2f195dc88997df5a2c7b51739b5c29372d3fba82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:58 +0000
Subject: [PATCH 33/50] fix: sub of one dimension used its ranges after
 releasing them

---
 basicmath/src/mt_mat.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/basicmath/src/mt_mat.cpp b/basicmath/src/mt_mat.cpp
index 0fb5186..de580d0 100644
--- a/basicmath/src/mt_mat.cpp
+++ b/basicmath/src/mt_mat.cpp
@@ -2810,8 +2810,11 @@ mt_mat mt_mat::sub(const mt_range& range, int dim) const {
 		}
 	}
 
+	mt_mat res = sub(m_dims, ranges);
+
 	basicmath_mat_release(ranges);
-	return sub(m_dims, ranges);
+
+	return res;
 
 	/*basiclog_assert("mt_mat", range.is_valid() && (range.m_end <= this->size()[dim]));
 
-- 
2.43.0


From 57c340e5f93600bb2e7b9a3477312722162e84f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:58 +0000
Subject: [PATCH 34/50] fix: repeat along one dimension leaked its sizes

---
 basicmath/src/mt_mat.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/basicmath/src/mt_mat.cpp b/basicmath/src/mt_mat.cpp
index de580d0..9a1f543 100644
--- a/basicmath/src/mt_mat.cpp
+++ b/basicmath/src/mt_mat.cpp
@@ -2434,9 +2434,11 @@ mt_mat mt_mat::repeat(i32 nsize, i32 dim, i32 nchannels) const {
 
 	nsizes[dim] = nsize;
 	
-	return repeat(this->dim(), nsizes, nchannels);
+	mt_mat res = repeat(this->dim(), nsizes, nchannels);
 
 	basicmath_mat_release(nsizes);
+
+	return res;
 }
 
 mt_mat mt_mat::repeat(const vector<i32>& nsizes, i32 nchannels) const {
-- 
2.43.0


From a768c242474560920ec4f47c810cdc8fc658bc5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:18 +0000
Subject: [PATCH 35/50] fix: read_line ends at the end of a line

---
 basicsys/src/sys_buffer.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/basicsys/src/sys_buffer.cpp b/basicsys/src/sys_buffer.cpp
index c5aa3ce..1c6bb5d 100644
--- a/basicsys/src/sys_buffer.cpp
+++ b/basicsys/src/sys_buffer.cpp
@@ -702,9 +702,11 @@ void sys_string_buffer_reader::read_line(string& str) const {
 	while (!is_eof()) {
 		i8 c = read_char();
 
-		if (c != '\n') {
-			str.insert(str.end(), c);
+		if (c == '\n') {
+			break;
 		}
+
+		str.insert(str.end(), c);
 	}
 }
 
@@ -934,8 +936,10 @@ void sys_string_file_buffer_reader::read_line(string& str) const {
 	while (!is_eof()) {
 		i8 c = read_char();
 
-		if (c != '\n') {
-			str.insert(str.end(), c);
+		if (c == '\n') {
+			break;
 		}
+
+		str.insert(str.end(), c);
 	}
 }
\ No newline at end of file
-- 
2.43.0


From cd561f18027af7ce7be59dd9c361138f76e19b45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:33 +0000
Subject: [PATCH 36/50] fix: strings read from a byte buffer keep their zeros

---
 basicsys/src/sys_buffer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/basicsys/src/sys_buffer.cpp b/basicsys/src/sys_buffer.cpp
index 1c6bb5d..f27c7fb 100644
--- a/basicsys/src/sys_buffer.cpp
+++ b/basicsys/src/sys_buffer.cpp
@@ -243,7 +243,7 @@ void sys_byte_buffer_reader::read_str(string& str, i32 size) const {
 	read((u8*)buffer, size);
 
 	if (m_io_status == sys_IO_Status_OK) {
-		str = string(buffer);
+		str = string(buffer, character_number);
 	}
 	
 	delete[] buffer;
-- 
2.43.0


From 30a3fc9a10079797e41015a92ba56e1ebaff30ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:33 +0000
Subject: [PATCH 37/50] fix: read_char of a string buffer moves to the next
 character

---
 basicsys/src/sys_buffer.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/basicsys/src/sys_buffer.cpp b/basicsys/src/sys_buffer.cpp
index f27c7fb..12929d3 100644
--- a/basicsys/src/sys_buffer.cpp
+++ b/basicsys/src/sys_buffer.cpp
@@ -673,8 +673,10 @@ i8 sys_string_buffer_reader::read_char() const {
 		return 0;
 	}
 
-	return m_str->at(m_position / sizeof(i8));
+	i8 c = m_str->at(m_position / sizeof(i8));
 	m_position += sizeof(i8);
+
+	return c;
 }
 
 void sys_string_buffer_reader::read_str(string& str, i32 size) const {
-- 
2.43.0


From c56b2f3df58e8b5f67df93906609d0cadfba19c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:33 +0000
Subject: [PATCH 38/50] fix: strings read from a file keep their zeros and must
 be complete; their memory is released

---
 basicsys/src/sys_buffer.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/basicsys/src/sys_buffer.cpp b/basicsys/src/sys_buffer.cpp
index 12929d3..8537af4 100644
--- a/basicsys/src/sys_buffer.cpp
+++ b/basicsys/src/sys_buffer.cpp
@@ -858,7 +858,7 @@ i8 sys_string_file_buffer_reader::read_char() const {
 }
 
 void sys_string_file_buffer_reader::read_str(string& str, i32 size) const {
-	if (is_eof()) {
+	if (remain_size() < size) {
 		m_io_status = sys_IO_Status_Error_Eof;
 		return;
 	}
@@ -874,7 +874,9 @@ void sys_string_file_buffer_reader::read_str(string& str, i32 size) const {
 	}
 
 	temp[character_count] = 0;
-	str = temp;
+	str.assign(temp, character_count);
+
+	delete[] temp;
 }
 
 i64 sys_string_file_buffer_reader::position() const {
-- 
2.43.0


From f4d03f62038229dc72a1daef53a6784f73ce10bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:33 +0000
Subject: [PATCH 39/50] fix: writing no bytes to a file is not an error

---
 basicsys/src/sys_buffer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/basicsys/src/sys_buffer.cpp b/basicsys/src/sys_buffer.cpp
index 8537af4..50cc77b 100644
--- a/basicsys/src/sys_buffer.cpp
+++ b/basicsys/src/sys_buffer.cpp
@@ -323,7 +323,7 @@ void sys_byte_file_buffer_writer::close() {
 
 sys_buffer_writer* sys_byte_file_buffer_writer::write(const u8* start, const u8* stop) {
 
-	if (fwrite(start, stop - start, 1, m_file) != 1) {
+	if (fwrite(start, 1, stop - start, m_file) != (size_t)(stop - start)) {
 		m_io_status = sys_IO_Status_Error_File_Operation;
 		basiclog_warning2("failed to fwrite");
 	}
-- 
2.43.0


From 8ac85b480daeab2734f7ebde7950fc3c41de8109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:33 +0000
Subject: [PATCH 40/50] fix: writing an empty byte vector does not look at its
 first element

---
 basicsys/src/sys_buffer.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/basicsys/src/sys_buffer.cpp b/basicsys/src/sys_buffer.cpp
index 50cc77b..a5afece 100644
--- a/basicsys/src/sys_buffer.cpp
+++ b/basicsys/src/sys_buffer.cpp
@@ -82,6 +82,10 @@ sys_buffer_writer* sys_byte_buffer_writer::write(f64 val) {
 }
 
 sys_buffer_writer* sys_byte_buffer_writer::write(const vector<u8>& buffer) {
+	if (buffer.empty()) {
+		return this;
+	}
+
 	u8* start = (u8*)&buffer[0];
 	u8* stop = start + (i32)buffer.size();
 
-- 
2.43.0


From 0f080917c741f0a7854c17673098a934924c6b78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:33 +0000
Subject: [PATCH 41/50] fix: writers that append keep what the file holds

---
 basicsys/src/sys_buffer.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/basicsys/src/sys_buffer.cpp b/basicsys/src/sys_buffer.cpp
index a5afece..8ced179 100644
--- a/basicsys/src/sys_buffer.cpp
+++ b/basicsys/src/sys_buffer.cpp
@@ -299,7 +299,7 @@ sys_buffer_reader* sys_byte_buffer_reader::seek(i64 offset, sys_File_Seek seek_t
 
 sys_byte_file_buffer_writer::sys_byte_file_buffer_writer(const string& file_path, b8 is_append /* = false */)
 	: sys_byte_buffer_writer(NULL) {
-		if (fopen_s(&m_file, file_path.c_str(), is_append ? "wb+" : "wb") != 0) {
+		if (fopen_s(&m_file, file_path.c_str(), is_append ? "ab" : "wb") != 0) {
 			m_io_status = sys_IO_Status_Error_File_Operation;
 			basiclog_warning2("failed to _wfopen_s");
 		}
@@ -738,7 +738,7 @@ sys_buffer_reader* sys_string_buffer_reader::seek(i64 offset, sys_File_Seek seek
 
 sys_string_file_buffer_writer::sys_string_file_buffer_writer(const string& file_path, b8 is_append /* = false */)
 : sys_string_buffer_writer(NULL) {
-	if (fopen_s(&m_file, file_path.c_str(), is_append ? "wb+" : "wb") != 0) {
+	if (fopen_s(&m_file, file_path.c_str(), is_append ? "ab" : "wb") != 0) {
 		m_io_status = sys_IO_Status_Error_File_Operation;
 		basiclog_warning2("failed to _wfopen_s");
 	}
-- 
2.43.0


From cd60aead0dd540e76796a3249848801710e2ce95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:33 +0000
Subject: [PATCH 42/50] fix: byte file readers close their file

---
 basicsys/include/sys_buffer.h | 2 ++
 basicsys/src/sys_buffer.cpp   | 8 ++++++++
 2 files changed, 10 insertions(+)

diff --git a/basicsys/include/sys_buffer.h b/basicsys/include/sys_buffer.h
index f56ce7b..d3dc5ce 100644
--- a/basicsys/include/sys_buffer.h
+++ b/basicsys/include/sys_buffer.h
@@ -279,6 +279,8 @@ namespace basicsys {
 
 		virtual ~sys_byte_file_buffer_reader();
 
+		virtual void close();
+
 		virtual b8 is_closed() const {
 			return m_file == NULL;
 		}
diff --git a/basicsys/src/sys_buffer.cpp b/basicsys/src/sys_buffer.cpp
index 8ced179..2088af3 100644
--- a/basicsys/src/sys_buffer.cpp
+++ b/basicsys/src/sys_buffer.cpp
@@ -379,6 +379,14 @@ sys_byte_file_buffer_reader::~sys_byte_file_buffer_reader() {
 	close();
 }
 
+void sys_byte_file_buffer_reader::close() {
+	if (m_file != NULL && m_need_close_file) {
+		fclose(m_file);
+	}
+
+	m_file = NULL;
+}
+
 //c16 sys_byte_file_buffer_reader::read_c16() const {
 //	c16 value;
 //	u8* ptr_value = (u8*)&value;
-- 
2.43.0


From f4c852b1022c5580bd1df0898b57aabced2b9197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:33 +0000
Subject: [PATCH 43/50] fix: file buffers report the status they record

---
 basicsys/include/sys_buffer.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/basicsys/include/sys_buffer.h b/basicsys/include/sys_buffer.h
index d3dc5ce..d58ec18 100644
--- a/basicsys/include/sys_buffer.h
+++ b/basicsys/include/sys_buffer.h
@@ -261,7 +261,7 @@ namespace basicsys {
 		virtual sys_buffer_writer* seek(i64 offset, sys_File_Seek seek_type);
 
 		virtual sys_IO_Status get_status() {
-			return m_file_io_status;
+			return m_io_status;
 		}
 
 	protected:
@@ -286,7 +286,7 @@ namespace basicsys {
 		}
 
 		virtual sys_IO_Status get_status() const {
-			return m_file_io_status;
+			return m_io_status;
 		}
 
 		/**
@@ -466,7 +466,7 @@ namespace basicsys {
 		virtual sys_buffer_writer* seek(i64 offset, sys_File_Seek seek_type);
 
 		virtual sys_IO_Status get_status() {
-			return m_file_io_status;
+			return m_io_status;
 		}
 
 	protected:
-- 
2.43.0


From 732d001ca71859405a610110af5857db1f066f6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:55 +0000
Subject: [PATCH 44/50] fix: a string file reader reports a file it cannot open

---
 basicsys/src/sys_buffer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/basicsys/src/sys_buffer.cpp b/basicsys/src/sys_buffer.cpp
index 2088af3..8fef94d 100644
--- a/basicsys/src/sys_buffer.cpp
+++ b/basicsys/src/sys_buffer.cpp
@@ -817,7 +817,7 @@ sys_buffer_writer* sys_string_file_buffer_writer::seek(i64 offset, sys_File_Seek
 sys_string_file_buffer_reader::sys_string_file_buffer_reader(const string& file_path)
 	: sys_string_buffer_reader(string()) {
 		if (fopen_s(&m_file, file_path.c_str(), "rb") != 0) {
-			m_file_io_status = sys_IO_Status_Error_File_Operation;
+			m_io_status = sys_IO_Status_Error_File_Operation;
 			basiclog_warning2("failed to _wfopen_s");
 		}
 
-- 
2.43.0


From 6018fff277a70ea47f29167d65b4392f480380fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:45 +0000
Subject: [PATCH 45/50] fix: regions assigned to themselves or over own points
 keep and release their points

---
 basicimg/src/img_mser_base.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/basicimg/src/img_mser_base.cpp b/basicimg/src/img_mser_base.cpp
index f9441d2..8c2ee9a 100644
--- a/basicimg/src/img_mser_base.cpp
+++ b/basicimg/src/img_mser_base.cpp
@@ -19,19 +19,26 @@ img_mser::~img_mser() {
 }
 
 img_mser::img_mser(const img_mser& other) {
+	m_memory_type = Memory_Type_Self;
 	m_points = NULL;
 	*this = other;
 }
 
 void img_mser::operator=(const img_mser& other) {
+	if (this == &other) {
+		return;
+	}
+
+	if (m_memory_type == Memory_Type_Self) {
+		basicsys_delete_array(m_points);
+	}
+
 	m_gray_level = other.m_gray_level;
 	m_memory_type = other.m_memory_type;
 	m_size = other.m_size;
 	m_rect = other.m_rect;
 
 	if (m_memory_type == Memory_Type_Self) {
-		basicsys_delete_array(m_points);
-
 		if (m_size > 0) {
 			m_points = new mt_point[m_size];
 			memcpy(m_points, other.m_points, sizeof(mt_point) * m_size);
-- 
2.43.0


From d7321f69763267dfa4da63ac34477b2232bec683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:45 +0000
Subject: [PATCH 46/50] fix: copied extraction results refer to their own
 memory

---
 basicimg/src/img_mser_base.cpp | 32 +++++++++++++++++++-------------
 1 file changed, 19 insertions(+), 13 deletions(-)

diff --git a/basicimg/src/img_mser_base.cpp b/basicimg/src/img_mser_base.cpp
index 8c2ee9a..610e2cf 100644
--- a/basicimg/src/img_mser_base.cpp
+++ b/basicimg/src/img_mser_base.cpp
@@ -58,23 +58,29 @@ img_multi_msers::img_multi_msers(const img_multi_msers& other) {
 }
 
 void img_multi_msers::operator=(const img_multi_msers& other) {
-	m_msers[0] = other.m_msers[0];
-	m_msers[1] = other.m_msers[1];
+	if (this == &other) {
+		return;
+	}
 
-	m_memory_size[0] = other.m_memory_size[0];
-	m_memory_size[1] = other.m_memory_size[1];
+	for (i32 i = 0; i < 2; ++i) {
+		m_msers[i] = other.m_msers[i];
+		m_memory_size[i] = other.m_memory_size[i];
 
-	basicsys_delete_array(m_memory[0]);
-	basicsys_delete_array(m_memory[1]);
+		basicsys_free(m_memory[i]);
 
-	if (m_memory_size[0] > 0) {
-		m_memory[0] = new mt_point[m_memory_size[0]];
-		memcpy(m_memory[0], other.m_memory[0], sizeof(mt_point) * m_memory_size[0]);
-	}
+		if (other.m_memory[i] != NULL) {
+			m_memory[i] = (mt_point*)malloc(sizeof(mt_point) * m_memory_size[i]);
+			memcpy(m_memory[i], other.m_memory[i], sizeof(mt_point) * m_memory_size[i]);
+
+			// regions without own points refer to the shared memory
+			for (i32 j = 0; j < (i32)m_msers[i].size(); ++j) {
+				img_mser& mser = m_msers[i][j];
 
-	if (m_memory_size[1] > 0) {
-		m_memory[1] = new mt_point[m_memory_size[1]];
-		memcpy(m_memory[1], other.m_memory[1], sizeof(mt_point) * m_memory_size[1]);
+				if (mser.m_memory_type != img_mser::Memory_Type_Self && mser.m_points != NULL) {
+					mser.m_points = m_memory[i] + (mser.m_points - other.m_memory[i]);
+				}
+			}
+		}
 	}
 }
 
-- 
2.43.0


From 2ec0560ef736a851431f6532647742c5ca833867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:30 +0000
Subject: [PATCH 47/50] fix: the console logger goes on after a text outside of
 ASCII

---
 basiclog/src/basiclog.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/basiclog/src/basiclog.cpp b/basiclog/src/basiclog.cpp
index 1701c16..6e31e10 100644
--- a/basiclog/src/basiclog.cpp
+++ b/basiclog/src/basiclog.cpp
@@ -177,7 +177,8 @@ string log_logger::format_timestamp() const {
 }
 
 void log_console_logger::print(const string& log_info) {
-	wcout<<log_info.c_str();
+	cout<<log_info;
+	cout.flush();
 }
 
 void log_ide_console_logger::print(const string& log_info) {
-- 
2.43.0


From 3d0a38eeee6289eb11b56a5c9ddf71d9b4b889e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:30 +0000
Subject: [PATCH 48/50] fix: the file logger keeps the folder it is given

---
 basiclog/src/basiclog.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/basiclog/src/basiclog.cpp b/basiclog/src/basiclog.cpp
index 6e31e10..d44da2f 100644
--- a/basiclog/src/basiclog.cpp
+++ b/basiclog/src/basiclog.cpp
@@ -195,6 +195,7 @@ log_file_logger::~log_file_logger() {
 log_file_logger::log_file_logger(const string& dir, int file_max_log_number /* = 50000 */, int max_file_number /* = 10000 */, const string& timestamp /* = "%Y/%m/%d %H:%M:%S" */, bool is_pos_contain_dir /* = false */) 
 	: log_logger(timestamp, is_pos_contain_dir) {
 
+		m_save_dir = dir;
 		m_file_max_log_number = file_max_log_number;
 		m_max_file_number = max_file_number;
 		m_cur_file = NULL;
-- 
2.43.0


From 11b5212a0d066127546a7f1fa020049c6aa973b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:30 +0000
Subject: [PATCH 49/50] fix: a new log file does not overwrite one of the same
 second

---
 basiclog/src/basiclog.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/basiclog/src/basiclog.cpp b/basiclog/src/basiclog.cpp
index d44da2f..23c2023 100644
--- a/basiclog/src/basiclog.cpp
+++ b/basiclog/src/basiclog.cpp
@@ -242,7 +242,14 @@ void log_file_logger::print(const string& log_info) {
 			m_list_files.pop_front();
 		}
 
-		m_list_files.push_back(m_save_dir + generate_new_file_title() + ".txt");
+		string title = m_save_dir + generate_new_file_title();
+		string path = title + ".txt";
+
+		for (i32 i = 1; sys_path::is_exist(path); ++i) {
+			path = title + sys_strhelper::combine(" %d", i) + ".txt";
+		}
+
+		m_list_files.push_back(path);
 
 		if (m_cur_file != NULL) {
 			fclose(m_cur_file);
-- 
2.43.0


From 4db17fb9452c010db11b76be99204c62e91c5cc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:01:07 +0000
Subject: [PATCH 50/50] fix: images smaller than the grid of patches are
 extracted as one patch

A patch without pixels was flooded and joined nevertheless: an image with one
row or one column read outside its work areas with the default four threads.
---
 basicimg/src/img_mser_base.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/basicimg/src/img_mser_base.cpp b/basicimg/src/img_mser_base.cpp
index 610e2cf..7ef8c43 100644
--- a/basicimg/src/img_mser_base.cpp
+++ b/basicimg/src/img_mser_base.cpp
@@ -96,6 +96,15 @@ void img_mser_base::extract(img_multi_msers& res, const mt_mat& gray_src, const
 
 	m_channel_total_running_memory = 0;
 
+	// every patch needs a pixel: an image with fewer rows or columns than the grid of patches is not divided
+	const i32 thread_number = m_parallel_thread_number;
+	const i32 patch_rows = thread_number >= 16 ? 4 : (thread_number >= 4 ? 2 : 1);
+	const i32 patch_cols = thread_number >= 32 ? 8 : (thread_number >= 8 ? 4 : (thread_number >= 2 ? 2 : 1));
+
+	if (gray_src.size()[0] < patch_rows || gray_src.size()[1] < patch_cols) {
+		m_parallel_thread_number = 1;
+	}
+
 	i64 tick = sys_timer::get_tick_cout();
 	allocate_memory(gray_src, mask);
 	sys_alg_analyzer::add("initialization", sys_timer::get_tick_cout() - tick);
@@ -121,6 +130,8 @@ void img_mser_base::extract(img_multi_msers& res, const mt_mat& gray_src, const
 		}
 	}
 
+	m_parallel_thread_number = thread_number;
+
 	sys_alg_analyzer::max_("running_memory", m_channel_total_running_memory / 1024 / 1024);
 
 	sys_alg_analyzer::add("mser_number", res.m_msers[0].size() + res.m_msers[1].size());
-- 
2.43.0

