From 2be529786a6b6a646baac8714bee0f6f89d2c617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:38 +0000
Subject: [PATCH 01/65] fix: load_index() reports failure and stays unloaded
 when the index cannot be read or prepared

---
 anytime/JASS_anytime_api.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/anytime/JASS_anytime_api.cpp b/anytime/JASS_anytime_api.cpp
index 8b18ae7..950fee2 100755
--- a/anytime/JASS_anytime_api.cpp
+++ b/anytime/JASS_anytime_api.cpp
@@ -111,7 +111,12 @@ JASS_ERROR JASS_anytime_api::load_index(size_t index_version, const std::string
 				return JASS_ERROR_BAD_INDEX_VERSION;
 			}
 
-		index->read_index(directory);
+		if (index->read_index(directory) == 0)
+			{
+			delete index;
+			index = nullptr;
+			return JASS_ERROR_FAIL;
+			}
 
 		if (index->document_count() > JASS::query::MAX_DOCUMENTS)
 			{
@@ -129,6 +134,9 @@ JASS_ERROR JASS_anytime_api::load_index(size_t index_version, const std::string
 		}
 	catch (...)
 		{
+		thread_local_data.clear();			// the query objects might be only partly initialised
+		delete index;
+		index = nullptr;
 		return JASS_ERROR_FAIL;
 		}
 	}
-- 
2.43.0


From 85d729ccc962567a8c6140330b4add07b0c39add Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:38 +0000
Subject: [PATCH 02/65] fix: a relative postings limit applies to its own query
 only

---
 anytime/JASS_anytime_api.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/anytime/JASS_anytime_api.cpp b/anytime/JASS_anytime_api.cpp
index 950fee2..68d96d3 100755
--- a/anytime/JASS_anytime_api.cpp
+++ b/anytime/JASS_anytime_api.cpp
@@ -577,8 +577,7 @@ void JASS_anytime_api::anytime(JASS_anytime_thread_result &output, std::vector<J
 		/*
 			Check to see if we've got a rho stopping condition relative to the number of postings in this query.
 		*/
-		if (relative_postings_to_process != 1)
-			postings_to_process = total_postings_for_query * relative_postings_to_process;
+		size_t postings_to_process = relative_postings_to_process != 1 ? total_postings_for_query * relative_postings_to_process : this->postings_to_process;
 
 		/*
 			Process the segments
-- 
2.43.0


From fb41ff0c0c7998e2ecb9706fe0a64d0f5b05d6e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:38 +0000
Subject: [PATCH 03/65] fix: oracle scores beyond the accumulator range are
 clamped rather than truncated

---
 anytime/JASS_anytime_api.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/anytime/JASS_anytime_api.cpp b/anytime/JASS_anytime_api.cpp
index 68d96d3..4afd56e 100755
--- a/anytime/JASS_anytime_api.cpp
+++ b/anytime/JASS_anytime_api.cpp
@@ -569,6 +569,7 @@ void JASS_anytime_api::anytime(JASS_anytime_thread_result &output, std::vector<J
 			*/
 			smallest_possible_rsv = smallest_possible_rsv == 0 ? 1 : smallest_possible_rsv;
 			}
+		rsv_at_k = JASS::maths::minimum(rsv_at_k, (decltype(rsv_at_k))JASS::query::MAX_RSV);		// an accumulator cannot hold anything larger
 		rsv_at_k = rsv_at_k == 0 ? 1 : rsv_at_k;			// rsv_at_k cannot be 0 (because at least one search term must be in the document)
 
 		local.jass_query->rewind(smallest_possible_rsv, rsv_at_k, largest_possible_rsv);
-- 
2.43.0


From f1300680df3bfa1b65f8f3d4ce86975a2a659d76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:38 +0000
Subject: [PATCH 04/65] fix: an empty query is answered with an empty result
 and does not end the worker

---
 anytime/JASS_anytime_api.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/anytime/JASS_anytime_api.cpp b/anytime/JASS_anytime_api.cpp
index 4afd56e..feab437 100755
--- a/anytime/JASS_anytime_api.cpp
+++ b/anytime/JASS_anytime_api.cpp
@@ -455,7 +455,7 @@ void JASS_anytime_api::anytime(JASS_anytime_thread_result &output, std::vector<J
 	std::string query = JASS_anytime_query::get_next_query(query_list, next_query);
 	std::string query_id;
 
-	while (query.size() != 0)
+	while (next_query < query_list.size())
 		{
 		static const std::string seperators_between_id_and_query = " \t:";
 
-- 
2.43.0


From 993a3b2697d008b75f18d0d16290b19843ce1f42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:38 +0000
Subject: [PATCH 05/65] fix: worker state is created before the search threads
 start (the map was changed concurrently)

---
 anytime/JASS_anytime_api.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/anytime/JASS_anytime_api.cpp b/anytime/JASS_anytime_api.cpp
index feab437..699f645 100755
--- a/anytime/JASS_anytime_api.cpp
+++ b/anytime/JASS_anytime_api.cpp
@@ -422,6 +422,9 @@ JASS_ERROR JASS_anytime_api::search(std::vector<JASS_anytime_thread_result> &out
 		/*
 			Multiple threads, so start each worker
 		*/
+		for (size_t which = 0; which < thread_count ; which++)
+			get_thread_local_data(which);			// must exist before the workers start because the map is shared between them
+
 		for (size_t which = 0; which < thread_count ; which++)
 			thread_pool.push_back(JASS::thread(anytime_bootstrap, this, std::ref(output[which]), std::ref(query_list), which));
 
-- 
2.43.0


From d15366299980cdbbfa7bcfd234474f759d150141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:38 +0000
Subject: [PATCH 06/65] fix: looking up an oracle score does not change the
 table (it is shared by the search threads)

---
 source/top_k_limit.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/top_k_limit.h b/source/top_k_limit.h
index 5bb4866..70bfea6 100644
--- a/source/top_k_limit.h
+++ b/source/top_k_limit.h
@@ -74,7 +74,8 @@ namespace JASS
 			*/
 			uint32_t operator[](std::string query_id)
 				{
-				return table[query_id];
+				auto found = table.find(query_id);
+				return found == table.end() ? 0 : found->second;
 				}
 
 			/*
-- 
2.43.0


From ac3b2532c971778c46a391cfccff2d07714f4ae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:38 +0000
Subject: [PATCH 07/65] fix: once the oracle fills the heap a weaker document
 cannot displace a stronger one

---
 source/query_heap_clean.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/source/query_heap_clean.h b/source/query_heap_clean.h
index 4b59683..43f0889 100755
--- a/source/query_heap_clean.h
+++ b/source/query_heap_clean.h
@@ -320,9 +320,10 @@ namespace JASS
 						if (needed_for_top_k == 0)
 							{
 							top_results.make_heap();
-							if (top_k_lower_bound != 1)
-								throw Done(); /* We must be using the Oracle, and we must have filled the top-k and so we can stop processing this query. */
+							bool using_oracle = top_k_lower_bound != 1;
 							top_k_lower_bound = *accumulator_pointers[0]; /* set the new bottom of heap value */
+							if (using_oracle)
+								throw Done(); /* We must be using the Oracle, and we must have filled the top-k and so we can stop processing this query. */
 							}
 						}
 					return;
-- 
2.43.0


From a46769a8d859a3a2edd891dcb7a2fdb6bc4babb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:10 +0000
Subject: [PATCH 08/65] hook: JASS_VERIF_MAX_DOCUMENTS sets the accumulator
 array size in verification builds

---
 source/query.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/source/query.h b/source/query.h
index d05e019..6584f0c 100755
--- a/source/query.h
+++ b/source/query.h
@@ -132,7 +132,11 @@ namespace JASS
 			typedef uint32_t DOCID_TYPE;										///< the type of a document id (from a compressor)
 
 		public:
+#ifdef JASS_VERIF_MAX_DOCUMENTS
+			static constexpr size_t MAX_DOCUMENTS = JASS_VERIF_MAX_DOCUMENTS;	///< verification builds use small accumulator arrays
+#else
 			static constexpr size_t MAX_DOCUMENTS = 155000000;					///< the maximum number of documents an index can hold
+#endif
 			static constexpr size_t MAX_TOP_K = 1000;							///< the maximum top-k value
 			static constexpr size_t MAX_RSV = (std::numeric_limits<ACCUMULATOR_TYPE>::max)();
 
-- 
2.43.0


From 9a50c32fa39b4fd25871e4affa3b89a341296d66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:29:00 +0000
Subject: [PATCH 09/65] fix: the first occurrence of a term in a document
 saturates at the largest impact, as later ones do

---
 source/index_postings.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/index_postings.h b/source/index_postings.h
index cd15fc1..3aa5814 100644
--- a/source/index_postings.h
+++ b/source/index_postings.h
@@ -141,7 +141,7 @@ namespace JASS
 
 					for (uint8_t *byte = space; byte < ending; byte++)
 						document_ids.push_back(*byte);
-					term_frequencies.push_back(amount);
+					term_frequencies.push_back(static_cast<index_postings_impact::impact_type>(amount < index_postings_impact::largest_impact ? amount : index_postings_impact::largest_impact));
 
 					highest_document = document_id;
 					}
-- 
2.43.0


From 0ce8260ebf63305abc0254af34ef5471423fc3d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:02 +0000
Subject: [PATCH 10/65] fix: Carryover-12 decodes all 30 bits of its 30-bit
 selector

---
 source/compress_integer_carryover_12.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/compress_integer_carryover_12.cpp b/source/compress_integer_carryover_12.cpp
index ed7b2c4..01dd3ad 100644
--- a/source/compress_integer_carryover_12.cpp
+++ b/source/compress_integer_carryover_12.cpp
@@ -575,7 +575,7 @@ printf("at %d, Transiton:%d NextSelector:%d\n", (int)selector, (int)(*source & 0
 					payload = *source >> 2;
 					break;
 				case 23:
-					*(destination + 0) = payload >> 0 & 0x0FFFFFFF;
+					*(destination + 0) = payload >> 0 & 0x3FFFFFFF;
 					destination++;
 
 #ifdef CARRY_DEBUG
-- 
2.43.0


From 4a604d790957f61dc42aefee2420dded1367258e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:02 +0000
Subject: [PATCH 11/65] fix: packed Simple-9 and Simple-16 refuse a last
 integer of 2^28 or more instead of truncating it

---
 source/compress_integer_simple_16_packed.cpp | 4 +++-
 source/compress_integer_simple_9_packed.cpp  | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/source/compress_integer_simple_16_packed.cpp b/source/compress_integer_simple_16_packed.cpp
index 7bb0fde..17ce16f 100644
--- a/source/compress_integer_simple_16_packed.cpp
+++ b/source/compress_integer_simple_16_packed.cpp
@@ -132,7 +132,7 @@ namespace JASS
 			/*
 				Check for overflow - and if not then just store 1 integer.
 			*/
-			if (*source > 1 << 28)
+			if (*source >= 1 << 28)
 				return 0;
 
 			/*
@@ -159,6 +159,8 @@ namespace JASS
 			Init last value to pack-by-self
 		*/
 		pos = source_integers - 1;
+		if (source[pos] >= 1 << 28)
+			return 0;
 		blocks_needed[pos] = 0;
 		masks[pos] = 15;
 		
diff --git a/source/compress_integer_simple_9_packed.cpp b/source/compress_integer_simple_9_packed.cpp
index c984ffd..90d7ecb 100644
--- a/source/compress_integer_simple_9_packed.cpp
+++ b/source/compress_integer_simple_9_packed.cpp
@@ -125,7 +125,7 @@ namespace JASS
 			/*
 				Check for overflow - and if not then just store 1 integer.
 			*/
-			if (*source > 1 << 28)
+			if (*source >= 1 << 28)
 				return 0;
 				
 			/*
@@ -152,6 +152,8 @@ namespace JASS
 			init last value to pack-by-self
 		*/
 		pos = source_integers - 1;
+		if (source[pos] >= 1 << 28)
+			return 0;
 		blocks_needed[pos] = 0;
 		masks[pos] = 8;
 		
-- 
2.43.0


From 93b44e100553a42b0e0b0590b9fa2d5abfdf029c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:02 +0000
Subject: [PATCH 12/65] fix: Carry-8b decodes the fourth integer of selector
 p60 from its own bits

---
 source/compress_integer_carry_8b.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/compress_integer_carry_8b.cpp b/source/compress_integer_carry_8b.cpp
index 92533bb..2e98ed3 100644
--- a/source/compress_integer_carry_8b.cpp
+++ b/source/compress_integer_carry_8b.cpp
@@ -566,7 +566,7 @@ printf("[%d] Decode:%d\n", (int)(destination - destination_at_start), (int)(sele
 					*(destination + 0) = payload >> 0 & 0x7FFF;
 					*(destination + 1) = payload >> 15 & 0x7FFF;
 					*(destination + 2) = payload >> 30 & 0x7FFF;
-					*(destination + 3) = payload >> 15 & 0x7FFF;
+					*(destination + 3) = payload >> 45 & 0x7FFF;
 					destination += 4;
 
 					source++;
-- 
2.43.0


From 1349fe80d28f64fc87eea28ea38059e33007512e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:02 +0000
Subject: [PATCH 13/65] fix: Relative-10 decodes the fourth integer of the ten
 3-bit row from its own bits

---
 source/compress_integer_relative_10.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/compress_integer_relative_10.cpp b/source/compress_integer_relative_10.cpp
index 2d67112..2943b2a 100644
--- a/source/compress_integer_relative_10.cpp
+++ b/source/compress_integer_relative_10.cpp
@@ -243,7 +243,7 @@ namespace JASS
 						*destination++ = value & 0x7;
 						*destination++ = (value >> 3) & 0x7;
 						*destination++ = (value >> 6) & 0x7;
-						*destination++ = (value >> 8) & 0x7;
+						*destination++ = (value >> 9) & 0x7;
 						*destination++ = (value >> 12) & 0x7;
 						*destination++ = (value >> 15) & 0x7;
 						*destination++ = (value >> 18) & 0x7;
-- 
2.43.0


From c16301d39dfa1a42cc5cece63c5c6f11b9efa375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:37 +0000
Subject: [PATCH 14/65] fix: Group Elias Gamma SIMD with Variable Byte passes
 byte counts to the variable byte encoder and reports its failure

---
 source/compress_integer_elias_gamma_simd_vb.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/source/compress_integer_elias_gamma_simd_vb.cpp b/source/compress_integer_elias_gamma_simd_vb.cpp
index 6769573..647efad 100755
--- a/source/compress_integer_elias_gamma_simd_vb.cpp
+++ b/source/compress_integer_elias_gamma_simd_vb.cpp
@@ -155,7 +155,7 @@ namespace JASS
 							if (vbyte_size < elias_size)
 								{
 								// re-code the codeword
-								vbyte_size = compress_integer_variable_byte::encode(selector, end_of_destination - selector, array_at_start_of_codeword, elements_at_start_of_codeword);
+								vbyte_size = compress_integer_variable_byte::encode(selector, (uint8_t *)end_of_destination - (uint8_t *)selector, array_at_start_of_codeword, elements_at_start_of_codeword);
 								destination = selector;
 								}
 							else
@@ -167,8 +167,10 @@ namespace JASS
 								encodings[slice - 1] += encodings[slice];
 								encodings[slice] = 0;
 								*selector = compute_selector(encodings);
-								vbyte_size = compress_integer_variable_byte::encode(destination, end_of_destination - selector, array, elements);
+								vbyte_size = compress_integer_variable_byte::encode(destination, (uint8_t *)end_of_destination - (uint8_t *)destination, array, elements);
 								}
+							if (vbyte_size == 0)
+								return 0;
 							uint32_t *vb_length_locaton = (uint32_t *)encoded;
 							*vb_length_locaton = vbyte_size;
 
-- 
2.43.0


From 1e141e69eb8e3d7bbb3ddc2926536af758cc2103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:37 +0000
Subject: [PATCH 15/65] fix: dynamic_array::serialise() wrote past a buffer
 smaller than the array

---
 source/dynamic_array.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/source/dynamic_array.h b/source/dynamic_array.h
index 3a0b308..76a387a 100644
--- a/source/dynamic_array.h
+++ b/source/dynamic_array.h
@@ -368,10 +368,11 @@ namespace JASS
 					*/
 					for (node *current = head; current != nullptr; current = current->next)
 						{
-						std::copy(current->data, current->data + (current->used <= size_of_into ? current->used.load() : size_of_into), into);
-						size_of_into -= current->used;
+						size_t copying = current->used <= size_of_into ? current->used.load() : size_of_into;		// never more than there is room for
+						std::copy(current->data, current->data + copying, into);
+						size_of_into -= copying;
 						would_take += current->used;
-						into += current->used;
+						into += copying;
 						}
 					}
 				return would_take;
-- 
2.43.0


From a984d9f36f869b658b2dd67b83966c9ede44dfa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:37 +0000
Subject: [PATCH 16/65] fix: allocator_pool::malloc() looped when alignment did
 not fit a new chunk

---
 source/allocator_pool.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/allocator_pool.cpp b/source/allocator_pool.cpp
index c72e4af..29edf40 100644
--- a/source/allocator_pool.cpp
+++ b/source/allocator_pool.cpp
@@ -132,7 +132,7 @@ namespace JASS
 			*/
 			if (chunk == nullptr || top_of_stack + bytes + padding > chunk->chunk_end)
 				{
-				if (add_chunk(bytes) != nullptr)
+				if (add_chunk(bytes + alignment - 1) != nullptr)			// allow for the padding that might be needed at the start of the new chunk
 					continue;
 				else
 					{
-- 
2.43.0


From 931f09103bd213e04ef4d6d38c6f5eff5ebfa066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:37 +0000
Subject: [PATCH 17/65] fix: beap::find() ran off the array looking for a key
 that is not there

---
 source/beap.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/source/beap.h b/source/beap.h
index bdc0718..5bb8720 100644
--- a/source/beap.h
+++ b/source/beap.h
@@ -234,13 +234,13 @@ namespace JASS
 					if (array[current_location] > key)
 						{
 						/*
-							If key is less then the current location them move up one level of the beap
+							If key is less then the current location them move up one level of the beap, unless we're at the end of the row (there's nothing up and to the right of there)
 						*/
+						if (current_location == end_of_row)
+							return -1;
 						current_location -= current_height;
 						current_height--;
 						end_of_row -= current_height + 2;
-						if (current_location < 0)
-							return -1;
 						}
 					else if (key > array[current_location])
 						{
@@ -262,6 +262,8 @@ namespace JASS
 									the next largest value might be up and to the right (i.e. the bottom row of the previous full row).  In other words, the
 									full row above are the leaves and we need to go across a leaf, but that leaf isn't on the bottom ro because bottom row isn't full.
 								*/
+								if (current_location == end_of_row)
+									return -1;
 								current_location -= current_height;
 								current_height--;
 								end_of_row -= current_height + 2;
-- 
2.43.0


From 048b50ebd2af46a154290fe7186e68b0c1cd804f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:37 +0000
Subject: [PATCH 18/65] fix: top_k_heap believed itself ordered after
 push_back() and promote()

---
 source/top_k_heap.h | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/source/top_k_heap.h b/source/top_k_heap.h
index 9bff44f..0753e01 100644
--- a/source/top_k_heap.h
+++ b/source/top_k_heap.h
@@ -98,9 +98,10 @@ namespace JASS
 				if (total_insertions < k)
 					{
 					/*
-						If adding this element hasn't yet filled the heap then don't make a heap
+						If adding this element hasn't yet filled the heap then don't make a heap (but if front() already has then it isn't one any longer)
 					*/
 					members.push_back(element);
+					front_correct = heap_ordered = false;
 					}
 				else if (total_insertions == k)
 					{
@@ -161,10 +162,7 @@ namespace JASS
 					front_correct = heap_ordered = true;
 					}
 				else
-					{
-					front_correct = true;
-					heap_ordered = false;
-					}
+					heap_ordered = false;			// if the front was correct then it still is, because element can only have become larger
 				}
 
 			/*
-- 
2.43.0


From 6fba5cd4c67cfdeda1aa3791b086f14c72bea4e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:37 +0000
Subject: [PATCH 19/65] fix: bitstring::resize() left bits past the end and too
 much storage

---
 source/bitstring.cpp | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/source/bitstring.cpp b/source/bitstring.cpp
index 37bf623..09edb13 100644
--- a/source/bitstring.cpp
+++ b/source/bitstring.cpp
@@ -42,20 +42,18 @@ namespace JASS
 	void bitstring::resize(size_t new_length_in_bits)
 		{
 		/*
-			Compute the new and old lengths in "chunks"
+			Compute the new length in "chunks" and resize the vector
 		*/
 		size_t chunks_long = (new_length_in_bits + 8 * sizeof(bitstring_word)) / (8 * sizeof(bitstring_word));
-		size_t old_chunks_long = bits.size() / sizeof(bitstring_word);
-		
+		bits.resize(chunks_long * sizeof(bitstring_word));
+
 		/*
-			resize the vector, but only if we need to
+			If we've shrunk then the bits past the end of the string must be 0
 		*/
-		if (chunks_long > old_chunks_long)
-			{
-			size_t bytes_long = chunks_long * sizeof(chunks_long);
-			bits.resize(bytes_long);
-			}
-			
+		size_t end_of_old = bits_long < bits.size() * 8 ? bits_long : bits.size() * 8;
+		for (size_t clearing = new_length_in_bits; clearing < end_of_old; clearing++)
+			unsafe_unsetbit(clearing);
+
 		/*
 			remember out length
 		*/
-- 
2.43.0


From 0c91d5cca4011177fa11e9576012e8feb2847821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:37 +0000
Subject: [PATCH 20/65] fix: bitstream::eof() failed when the destination was
 exactly full

---
 source/bitstream.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/bitstream.h b/source/bitstream.h
index f0e8023..c1f3604 100644
--- a/source/bitstream.h
+++ b/source/bitstream.h
@@ -168,7 +168,8 @@ namespace JASS
 			*/
 			uint64_t eof(void)
 				{
-				push_buffer();
+				if (bit_pos != 0)
+					push_buffer();
 				return failed ? 0 : (total_bits + 7) / 8;			// return the number of bytes used or 0 on error
 				}
 
-- 
2.43.0


From 3c31b2ef3b4fa8c1195b211dc47e700bac6c407e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:37 +0000
Subject: [PATCH 21/65] fix: the parser no longer reads past the end of the
 document, nor mistakes '<' for a tag at the end

A one character last token advanced past the end, an unterminated quotation ran on beyond the document, and
'<' followed by an invalid byte or by nothing was taken for a tag.
---
 source/parser.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/source/parser.cpp b/source/parser.cpp
index 102b07a..221dc3e 100644
--- a/source/parser.cpp
+++ b/source/parser.cpp
@@ -137,7 +137,7 @@ namespace JASS
 			*buffer_pos++ = ascii::tolower(*current);
 			current++;
 		
-			while (ascii::isalpha(*current))
+			while (current < end_of_document && ascii::isalpha(*current))
 				{
 				if (buffer_pos < buffer_end)
 					*buffer_pos++ = ascii::tolower(*current);				// won't write on overflow
@@ -167,7 +167,7 @@ namespace JASS
 			*buffer_pos++ = *current;
 			current++;
 		
-			while (ascii::isdigit(*current))
+			while (current < end_of_document && ascii::isdigit(*current))
 				{
 				if (buffer_pos < buffer_end)
 					*buffer_pos++ = *current;				// won't write on overflow
@@ -203,7 +203,7 @@ namespace JASS
 					full XML parser. Square brackets below are XML production numbers.
 				*/
 				uint32_t codepoint = unicode::utf8_to_codepoint(current, end_of_document, bytes);
- 				if (unicode::isxmlnamestartchar(codepoint))
+ 				if (bytes != 0 && unicode::isxmlnamestartchar(codepoint))
 					{
 					/*
 						[40]     STag          ::= '<' Name (S Attribute)* S? '>'
@@ -250,7 +250,7 @@ namespace JASS
 					/*
 						was it an open tag or an empty tag?
 					*/
-					if (*(current - 1) == '/')
+					if (current <= end_of_document && *(current - 1) == '/')		// an unterminated quotation leaves current past the end
 						current_token.type = current_token.xml_empty_tag;				// Empty tag
 					else
 						current_token.type = current_token.xml_start_tag;				// Start tag.
@@ -269,7 +269,7 @@ namespace JASS
 						[42]     ETag        ::= '</' Name S? '>'
 					*/
 					codepoint = unicode::utf8_to_codepoint(current + 1, end_of_document, bytes);
-	 				if (unicode::isxmlnamestartchar(codepoint))
+	 				if (bytes != 0 && unicode::isxmlnamestartchar(codepoint))
 						{
 						current++;
 						const uint8_t *found = std::find(current, end_of_document, '>');
-- 
2.43.0


From d560e5990462dc1a45b1d1128c6b19df372d7f7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:37 +0000
Subject: [PATCH 22/65] fix: isutf8() no longer reads the byte after the end of
 the string

---
 source/unicode.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/source/unicode.h b/source/unicode.h
index ccdfa99..c2ab21b 100644
--- a/source/unicode.h
+++ b/source/unicode.h
@@ -124,6 +124,9 @@ namespace JASS
 				/*
 					get the length
 				*/
+				if (utf8_start >= end_of_buffer)
+					return 0;
+
 				size_t number_of_bytes = utf8_bytes(utf8_start);
 
 				/*
-- 
2.43.0


From 2c5fd0bd64f81dadc31fdf2fb87cafc732d148de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:37 +0000
Subject: [PATCH 23/65] fix: the FASTA parser stays inside the document and
 returns every k-mer exactly once

---
 source/parser_fasta.cpp | 74 ++++++++++++++++-------------------------
 source/parser_fasta.h   |  1 +
 2 files changed, 30 insertions(+), 45 deletions(-)

diff --git a/source/parser_fasta.cpp b/source/parser_fasta.cpp
index ee17fdc..af50f62 100644
--- a/source/parser_fasta.cpp
+++ b/source/parser_fasta.cpp
@@ -24,63 +24,47 @@ namespace JASS
 	const class parser::token &parser_fasta::get_next_token_dna(void)
 		{
 		/*
-			Skip over any leading spaces
-		*/
-		while (!ascii::isDNAbase(*current))
-			current++;
-
-		/*
-			Make sure we don't read past end of document
-		*/
-		if (current >= end_of_document)
-			return eof_token;
-
-		/*
-			Find the next k-mer.  If we encounter whitespace then we throw away the whitespace.
-			As a valid k-mer can only contain DNA bases, if we encounter a symbol that is invalid we skip that token and start at the next DNA base pair.
+			Find the next k-mer starting at or after current.  If we encounter whitespace then we throw away the whitespace.
+			As a valid k-mer can only contain DNA bases, if we encounter a symbol that is invalid then we start again after it.
 		*/
 		uint8_t *buffer_pos = current_token.buffer;
-		const uint8_t *from = current++;
+		const uint8_t *start = nullptr;
 		size_t byte = 0;
-		while (byte < kmer_length && from < end_of_document)
-			{
-			/*
-				Construct a single k-mer failing if we find a non-base character
-			*/
-			byte = 0;
-			buffer_pos = current_token.buffer;
-			while (byte < kmer_length && from < end_of_document)
+
+		for (const uint8_t *from = current; byte < kmer_length && from < end_of_document; from++)
+			if (ascii::isDNAbase(*from))
 				{
-				if (ascii::isspace(*from))
-					from++;								// skip over spaces
-				else if (ascii::isDNAbase(*from))
-					{
-					/*
-						Valid DNA bases get added to the token
-					*/
-					*buffer_pos++ = ascii::tolower(*from++);
-					byte++;
-					}
-				else
-					{
-					/*
-						Not a valid DNA base so start the token at the next chacter and the one after that (current) at the character after that.
-					*/
-					current = (++from) + 1;
-					break;
-					}
+				/*
+					Valid DNA bases get added to the token
+				*/
+				if (byte == 0)
+					start = from;
+				*buffer_pos++ = ascii::tolower(*from);
+				byte++;
+				}
+			else if (!ascii::isspace(*from))
+				{
+				/*
+					Not a valid DNA base so the k-mer can only start after it.
+				*/
+				buffer_pos = current_token.buffer;
+				byte = 0;
 				}
-			}
 
 		/*
-			Do we have enough characters to for a k-mer (or are we at EOF)?
+			Did we have enough characters for a k-mer (or are we at EOF)?
 		*/
-		if (current >= end_of_document || byte != kmer_length)
+		if (start == nullptr || byte != kmer_length)
+			{
+			current = end_of_document;
 			return eof_token;
+			}
 
 		/*
-			Return the k-mer as a token.
+			Return the k-mer as a token, the next one starts (no earlier than) one character further along.
 		*/
+		current = start + 1;
+		current_token.type = token::alpha;
 		current_token.lexeme = slice((void *)current_token.buffer, (void *)buffer_pos);
 		return current_token;
 		}
diff --git a/source/parser_fasta.h b/source/parser_fasta.h
index c59029b..578517b 100644
--- a/source/parser_fasta.h
+++ b/source/parser_fasta.h
@@ -134,6 +134,7 @@ namespace JASS
 					if (got.type == token::token_type::eof)
 						{
 						mode = DNA;
+					current = end_of_document;							// an unterminated tag in the text can leave current past the end of the text.
 						end_of_document = end_of_fasta_document;		// shift to the end of document being the end of the FASTA document not just the end of the text.
 						return get_next_token_dna();
 						}
-- 
2.43.0


From f2ae606740d7966f7812f76422d9f8180298a498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:37 +0000
Subject: [PATCH 24/65] fix: the uniCOIL parser ends where the vector ends and
 saturates large counts

---
 source/parser_unicoil_json.h | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/source/parser_unicoil_json.h b/source/parser_unicoil_json.h
index da19741..00d681d 100644
--- a/source/parser_unicoil_json.h
+++ b/source/parser_unicoil_json.h
@@ -22,6 +22,7 @@
 */
 #pragma once
 
+#include <limits>
 #include <charconv>
 
 #include "ascii.h"
@@ -129,6 +130,12 @@ namespace JASS
 					current++;
 					}
 
+				/*
+					Anything after the last term and its count isn't a token
+				*/
+				if (current >= end_of_document)
+					return eof_token;
+
 				const uint8_t *count_start = current;
 
 				while (current < end_of_document)
@@ -145,7 +152,8 @@ namespace JASS
 				*/
 				current_token.lexeme = slice((void *)current_token.buffer, (void *)buffer_pos);
 				current_token.type = token::alpha;
-				std::from_chars((char *)count_start, (char *)count_finish, current_token.count);
+				if (std::from_chars((char *)count_start, (char *)count_finish, current_token.count).ec == std::errc::result_out_of_range)
+					current_token.count = std::numeric_limits<decltype(current_token.count)>::max();
 
 				if (current_token.count > index_postings_impact::largest_impact)
 					{
-- 
2.43.0


From 7655d7da4dee52ed2ecd2ae2aa44fe4fcd2f92b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:37 +0000
Subject: [PATCH 25/65] fix: a byte that is not UTF-8 no longer ends the query

---
 source/parser_query.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/parser_query.cpp b/source/parser_query.cpp
index 3523782..0e9da7b 100644
--- a/source/parser_query.cpp
+++ b/source/parser_query.cpp
@@ -30,7 +30,7 @@ namespace JASS
 		codepoint = unicode::utf8_to_codepoint(current, end_of_query, bytes);
 		while (!unicode::isalnum(codepoint))
 			{
-			if (bytes == 0 || (current += bytes) >= end_of_query)
+			if ((current += bytes == 0 ? 1 : bytes) >= end_of_query)				// skip over bytes that are not valid UTF-8
 				return eof_token;
 			codepoint = unicode::utf8_to_codepoint(current, end_of_query, bytes);
 			}
-- 
2.43.0


From 45c25d76c9d750845af301565cbf3eba00e5a36c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:37 +0000
Subject: [PATCH 26/65] fix: the TREC reader keeps its place after an
 unfinished document and accepts a blank key

---
 source/instream_document_trec.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/instream_document_trec.cpp b/source/instream_document_trec.cpp
index ac36af1..42d6a70 100644
--- a/source/instream_document_trec.cpp
+++ b/source/instream_document_trec.cpp
@@ -124,6 +124,7 @@ namespace JASS
 			*/
 			memmove(buffer, document_start, (buffer_end - buffer) - (document_start - buffer));
 			buffer_end -= document_start - buffer;
+			buffer_used = 0;
 			fetch(buffer_end, buffer_size - (buffer_end - buffer));
 			document_start = buffer;
 			if ((document_end = std::search(document_start, buffer_end, document_end_tag.c_str(), document_end_tag.c_str() + document_end_tag.size())) == buffer_end)
@@ -153,7 +154,7 @@ namespace JASS
 			*/
 			while (isspace(*document_id_start) && document_id_start < document_end)			// trim early whitespace
 				document_id_start++;
-			while (isspace(*(document_id_end - 1)) && document_id_end > document_start)				// trip trailing whitespace
+			while (isspace(*(document_id_end - 1)) && document_id_end > document_id_start)				// trip trailing whitespace
 				document_id_end--;
 			}
 
-- 
2.43.0


From f6536841ce80a6d8de60e28c17a969778298bb60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:37 +0000
Subject: [PATCH 27/65] fix: the FASTA reader ends on a last record without a
 sequence

---
 source/instream_document_fasta.cpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/source/instream_document_fasta.cpp b/source/instream_document_fasta.cpp
index ff8990f..f1b33ca 100644
--- a/source/instream_document_fasta.cpp
+++ b/source/instream_document_fasta.cpp
@@ -107,12 +107,11 @@ namespace JASS
 			fetch(buffer_end, buffer_size - (buffer_end - buffer));
 			document_start = buffer;
 			document_end = std::search(document_start + 1, buffer_end, end_of_document_marker, end_of_document_marker + 2);
-			if (document_end == buffer_end)
-				document_end--;
 			}
 
 		buffer_used = document_end - buffer;		// skip to end of the document
-		document_end++;		// because the end of line marker matters (believe it or not!).
+		if (document_end != buffer_end)
+			document_end++;		// because the end of line marker matters (believe it or not!).
 
 		/*
 			Extract the document's primary key.
@@ -121,7 +120,7 @@ namespace JASS
 		uint8_t *document_id_start = std::find(document_start, document_end, '>');
 		if (document_id_start != document_end)
 			{
-			document_id_end = std::find(document_id_start + 1, document_end, '\n') + 1;
+			document_id_end = std::find(document_id_start + 1, document_end, '\n');
 			/*
 				Trim whitespace from the start and end of the primary key.
 			*/
@@ -135,7 +134,7 @@ namespace JASS
 			Copy the id into the document object and get the document
 		*/
 		object.contents = slice(object.contents_allocator, document_start, document_end);
-		if (document_id_end == document_end)
+		if (document_id_start == document_end)
 			object.primary_key = slice(object.primary_key_allocator, "Unknown");
 		else
 			object.primary_key = slice(object.primary_key_allocator, document_id_start, document_id_end);
-- 
2.43.0


From c200377047e0c2ce14feaf19085311c7444b13ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:37 +0000
Subject: [PATCH 28/65] fix: a uniCOIL document larger than the reading buffer
 no longer overflows it

---
 source/instream_document_unicoil_json.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/instream_document_unicoil_json.cpp b/source/instream_document_unicoil_json.cpp
index d6f29d3..41241e5 100644
--- a/source/instream_document_unicoil_json.cpp
+++ b/source/instream_document_unicoil_json.cpp
@@ -71,7 +71,7 @@ namespace JASS
 						buffer_end = &buffer[0] + bytes_in_use;
 						doc_start = &buffer[0] + gap;
 
-						bytes_remaining += buffer_size;
+						bytes_remaining = buffer_size - bytes_in_use;
 						}
 
 					size_t bytes = source->fetch((void *)buffer_end, bytes_remaining);
-- 
2.43.0


From d7ee7710e990dfc9c980d1594a528be67c71ae0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:37 +0000
Subject: [PATCH 29/65] fix: the last uniCOIL document need not end with a
 newline

---
 source/instream_document_unicoil_json.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/source/instream_document_unicoil_json.cpp b/source/instream_document_unicoil_json.cpp
index 41241e5..543b2e6 100644
--- a/source/instream_document_unicoil_json.cpp
+++ b/source/instream_document_unicoil_json.cpp
@@ -86,7 +86,11 @@ namespace JASS
 							{
 							doc_end = buffer_end;			// the last document might not end in a '\n'.
 							if (doc_end != doc_start)
+								{
+								if (doc_end - doc_start >= 2 && doc_end[-1] == '}' && doc_end[-2] == '}')
+									doc_end -= 2;				// but the "}}" is still not part of the document
 								break;							// the last document isn't empty
+								}
 							}
 
 						object.primary_key = object.contents = slice();
-- 
2.43.0


From a4e77c037c312941e1aa099a00da3755a6c01ab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:37 +0000
Subject: [PATCH 30/65] fix: a truncated WARC record is not padded with what
 was in memory

---
 source/instream_document_warc.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/instream_document_warc.cpp b/source/instream_document_warc.cpp
index c2606d7..ffe9cd6 100644
--- a/source/instream_document_warc.cpp
+++ b/source/instream_document_warc.cpp
@@ -100,7 +100,7 @@ namespace JASS
 				size_t length = atoll(file_length);
 				char *document = reinterpret_cast<char *>(object.contents_allocator.malloc(length + 1));
 
-				source->fetch(document, length);
+				length = source->fetch(document, length);			// there might be less than promised
 				document[length] = '\0';
 				object.contents = slice(document, document + length);
 				}
-- 
2.43.0


From b6ca8bca8c82b9e2b250d7cf372aa479019622d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:37 +0000
Subject: [PATCH 31/65] fix: the key of a WARC record with CRLF line ends does
 not keep the carriage return

---
 source/instream_document_warc.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/source/instream_document_warc.cpp b/source/instream_document_warc.cpp
index ffe9cd6..2bbb569 100644
--- a/source/instream_document_warc.cpp
+++ b/source/instream_document_warc.cpp
@@ -87,7 +87,11 @@ namespace JASS
 			while (ascii::isspace(*filename))
 				filename++;
 
-			object.primary_key = slice(object.primary_key_allocator, filename, filename + strlen(filename));
+			const char *filename_end = filename + strlen(filename);
+			while (filename_end > filename && ascii::isspace(*(filename_end - 1)))			// lines in a WARC file end in "\r\n"
+				filename_end--;
+
+			object.primary_key = slice(object.primary_key_allocator, filename, filename_end);
 
 			/*
 				Get and store the document length
-- 
2.43.0


From f0f78ee6caaafd112b706b3fac472909492cee74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:37 +0000
Subject: [PATCH 32/65] fix: a document with a key but no contents does not end
 the collection

---
 source/document.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/document.h b/source/document.h
index cf896da..27efc4f 100644
--- a/source/document.h
+++ b/source/document.h
@@ -86,7 +86,7 @@ namespace JASS
 			*/
 			bool isempty(void)
 				{
-				return contents.size() == 0;
+				return contents.size() == 0 && primary_key.size() == 0;
 				}
 			
 			/*
-- 
2.43.0


From 65c3f50ace4755191803d5c530fb0835aadd792b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:17 +0000
Subject: [PATCH 33/65] fix: precision and relevant returned count documents,
 not grades

---
 source/evaluate_precision.cpp         | 3 ++-
 source/evaluate_relevant_returned.cpp | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/source/evaluate_precision.cpp b/source/evaluate_precision.cpp
index 749c37d..4e6b74f 100644
--- a/source/evaluate_precision.cpp
+++ b/source/evaluate_precision.cpp
@@ -31,7 +31,8 @@ namespace JASS
 			{
 			auto assessment = find(query_id, result);
 
-			found_and_relevant += assessment.score;
+			if (assessment.score != 0)
+				found_and_relevant++;
 
 			which++;
 
diff --git a/source/evaluate_relevant_returned.cpp b/source/evaluate_relevant_returned.cpp
index d79c597..c9af58c 100644
--- a/source/evaluate_relevant_returned.cpp
+++ b/source/evaluate_relevant_returned.cpp
@@ -25,7 +25,8 @@ namespace JASS
 			{
 			auto assessment = find(query_id, result);
 
-			found_and_relevant += assessment.score;
+			if (assessment.score != 0)
+				found_and_relevant++;
 
 			which++;
 
-- 
2.43.0


From 285bab03b7e1b493f00757f7354e869f874c2a49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:17 +0000
Subject: [PATCH 34/65] fix: recall of a topic with no relevant documents is
 not a division by zero

---
 source/evaluate_recall.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/source/evaluate_recall.cpp b/source/evaluate_recall.cpp
index b91e22c..abf9800 100644
--- a/source/evaluate_recall.cpp
+++ b/source/evaluate_recall.cpp
@@ -23,6 +23,12 @@ namespace JASS
 		double found_and_relevant = 0;
 		size_t which = 0;
 
+		/*
+			If there are no relevant documents then we get a perfect score (and not a division by zero).
+		*/
+		if (relevant == 0)
+			return 1;
+
 		for (const auto &result : results_list)
 			{
 			auto assessment = find(query_id, result);
-- 
2.43.0


From 1ed2c594b44cd9c163901a32749b3f0e3c6c0951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:17 +0000
Subject: [PATCH 35/65] fix: cheapest precision takes the cheapest relevant
 documents, not the first by name

---
 source/evaluate_cheapest_precision.cpp | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/source/evaluate_cheapest_precision.cpp b/source/evaluate_cheapest_precision.cpp
index 934b94a..53af020 100644
--- a/source/evaluate_cheapest_precision.cpp
+++ b/source/evaluate_cheapest_precision.cpp
@@ -52,7 +52,18 @@ namespace JASS
 		if (query_prices.size() == 0 || depth == 0)
 			return 1;
 
-		std::sort(query_prices.begin(), query_prices.end());
+		/*
+			Sort from the cheapest to the most expensive.
+		*/
+		std::sort
+			(
+			query_prices.begin(),
+			query_prices.end(),
+			[this](const judgement &left, const judgement &right)
+				{
+				return find_price(left.document_id).score < find_price(right.document_id).score;
+				}
+			);
 
 		/*
 			Slice the relevant item list for this query at either depth or the number of items in the results list
@@ -61,13 +72,18 @@ namespace JASS
 		size_t slice_point = JASS::maths::minimum(depth, results_list.size());
 		if (slice_point < query_prices.size())
 			{
-			auto price = find_price(query_prices[slice_point].document_id).score;
+			auto price = find_price(query_prices[slice_point - 1].document_id).score;
 			while (slice_point < query_prices.size() && find_price(query_prices[slice_point].document_id).score == price)
 					slice_point++;
 					
 			query_prices.resize(slice_point);
 			}
 
+		/*
+			Put them back into document order so that they can be searched.
+		*/
+		std::sort(query_prices.begin(), query_prices.end());
+
 
 		/*
 			Compute the precision
-- 
2.43.0


From b4b8502965e3efaed830ce16c88398c467d005d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:17 +0000
Subject: [PATCH 36/65] fix: JASS_eval reports rank biased precision, not MAP,
 as RBP

---
 tools/JASS_eval.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/JASS_eval.cpp b/tools/JASS_eval.cpp
index 4ce053d..ab8b420 100644
--- a/tools/JASS_eval.cpp
+++ b/tools/JASS_eval.cpp
@@ -833,7 +833,7 @@ metric_set evaluate_query(const std::string &run_id, const std::string &query_id
 	double map = evaluate_map_computer.compute(query_id, results_list, depth);
 
 	JASS::evaluate_rank_biased_precision evaluate_rbp_computer(parameter_probability, gold_standard_assessments);
-	double rbp = evaluate_map_computer.compute(query_id, results_list, depth);
+	double rbp = evaluate_rbp_computer.compute(query_id, results_list, depth);
 
 	size_t number_of_relvant_assessments = evaluate_map_computer.relevance_count(query_id);
 
-- 
2.43.0


From 782a4ceb07d808e87afc426305ab5d092d8567db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:03 +0000
Subject: [PATCH 37/65] fix: code points whose hexadecimal starts with a letter
 are decomposed and case folded to the right ones

The reader of the Unicode database skipped to the first decimal digit, so U+A640 folded to U+0641 (from A641), not U+A641.
---
 tools/unicode_database_to_c.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/tools/unicode_database_to_c.cpp b/tools/unicode_database_to_c.cpp
index d7bb507..0b3dd56 100644
--- a/tools/unicode_database_to_c.cpp
+++ b/tools/unicode_database_to_c.cpp
@@ -627,7 +627,9 @@ for (uint32_t which_semicolon = 0; which_semicolon < 5; which_semicolon++)
 */
 uint32_t normalisation = codepoint;
 const char *digit = semicolon + 1;
-while ((digit = strpbrk(digit, ";0123456789")) != nullptr)
+if (*digit == '<')
+	digit = strchr(digit, '>');			// skip the type of the decomposition (e.g. <noBreak>)
+while ((digit = strpbrk(digit, ";0123456789ABCDEF")) != nullptr)
 	{
 	if (*digit == ';')
 		{
@@ -733,7 +735,7 @@ void process_casefolding(const char *line)
 	semicolon = strchr(semicolon + 1, ';');
 	const char *digit = semicolon + 1;
 	std::vector<int> folded;						// the case folded translation
-	while ((digit = strpbrk(digit, ";0123456789")) != nullptr)
+	while ((digit = strpbrk(digit, ";0123456789ABCDEF")) != nullptr)
 		{
 		if (*digit == ';')
 			break;
-- 
2.43.0


From 714552bba3f340ecc23cd3fa57d87c966a073666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:17 +0000
Subject: [PATCH 38/65] fix: instream_file reported the size asked for rather
 than what was read, so the end of a stream or a directory gave garbage

---
 source/instream_file.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/source/instream_file.cpp b/source/instream_file.cpp
index 0b27723..e972ddd 100644
--- a/source/instream_file.cpp
+++ b/source/instream_file.cpp
@@ -64,8 +64,16 @@ namespace JASS
 	/*
 		Do the read and note how many bytes we're read.
 	*/
-	if (disk_file.read(&document.contents[0], document.contents.size()) > 0)
-		bytes_read += document.contents.size();
+	size_t got = disk_file.read(&document.contents[0], document.contents.size());
+	bytes_read += got;
+
+	/*
+		We might get fewer bytes than we asked for (the length of a FILE * isn't known in advance).
+	*/
+	if (got == 0)
+		document.contents = slice();
+	else
+		document.contents.resize(got);
 	}
 	
 	/*
-- 
2.43.0


From d390ecd4b202b0d6514a97e0207b5d947eac2276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:17 +0000
Subject: [PATCH 39/65] fix: instream_deflate stopped at the end of the first
 member of a gzip file, losing the rest of the documents

---
 source/instream_deflate.cpp | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/source/instream_deflate.cpp b/source/instream_deflate.cpp
index 200b12b..a42606c 100644
--- a/source/instream_deflate.cpp
+++ b/source/instream_deflate.cpp
@@ -68,6 +68,25 @@ namespace JASS
 
 		if (state == Z_STREAM_END)
 			{
+			/*
+				A gzip file can be several compressed streams one after another (WARC files usually are), so continue if there's more to come.
+			*/
+			if (stream.avail_in == 0)
+				{
+				stream.avail_in = (uInt)source->fetch(buffer, buffer_length);
+				stream.next_in = buffer;
+				}
+			if (stream.avail_in != 0 && inflateReset(&stream) == Z_OK)
+				{
+				if (stream.avail_out == 0)
+					{
+					bytes_read += document.contents.size();
+					return;			// filled the output buffer and so return bytes read
+					}
+				state = Z_OK;
+				continue;
+				}
+
 			got = document.contents.size() - stream.avail_out;		// number of bytes that were decompressed
 			document.contents.resize(got);
 			bytes_read += got;
-- 
2.43.0


From aed4f8631843fe790fc4a7d6096e64f9738cc18d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:17 +0000
Subject: [PATCH 40/65] fix: data that preceded damage in a gzip file was
 thrown away

---
 source/instream_deflate.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/source/instream_deflate.cpp b/source/instream_deflate.cpp
index a42606c..2f67968 100644
--- a/source/instream_deflate.cpp
+++ b/source/instream_deflate.cpp
@@ -102,7 +102,13 @@ namespace JASS
 	while (state == Z_OK);
 
 	printf("JASS::instream_deflate::read failure trying to decompress (zlib reports:%d)\n", state);
-	document.contents = slice();
+
+	/*
+		Return what came before the damage
+	*/
+	got = document.contents.size() - stream.avail_out;
+	document.contents.resize(got);
+	bytes_read += got;
 	}
 
 	/*
-- 
2.43.0


From 9771a66b4668c2d611cb9b7df7f480881cb920e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:17 +0000
Subject: [PATCH 41/65] fix: instream_deflate never let go of its buffer and
 inflate state

---
 source/instream_deflate.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/source/instream_deflate.h b/source/instream_deflate.h
index ffa8da6..bc496b4 100644
--- a/source/instream_deflate.h
+++ b/source/instream_deflate.h
@@ -52,7 +52,9 @@ namespace JASS
 			*/
 			virtual ~instream_deflate()
 				{
-				/* Nothing */
+				if (buffer != NULL)
+					inflateEnd(&stream);
+				delete [] buffer;
 				}
 
 			/*
-- 
2.43.0


From d5980d4f9a59a75c32efa27ff8d0f8815293e05c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:17 +0000
Subject: [PATCH 42/65] fix: the directory iterator crashed on an empty
 directory, read sub-directories and took any path with .gz in it as
 compressed

---
 source/instream_directory_iterator.cpp | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/source/instream_directory_iterator.cpp b/source/instream_directory_iterator.cpp
index 98a07cd..b02eae6 100644
--- a/source/instream_directory_iterator.cpp
+++ b/source/instream_directory_iterator.cpp
@@ -35,14 +35,24 @@ namespace JASS
 			Is this the first time this method is called?
 		*/
 		if (reader == nullptr)
+			{
+			while (current != last && !current->is_regular_file())
+				current++;
+
 			if (current != last)
 				{
 //puts(current->path().string().c_str());
 				reader = std::shared_ptr<instream>(new instream_file(current->path().string()));
-				if (current->path().string().rfind(".gz") != std::string::npos)
+				if (current->path().extension() == ".gz")
 					reader = std::shared_ptr<JASS::instream>(new instream_deflate(reader));
 				current++;
 				}
+			else
+				{
+				document.contents = slice();
+				return;				// because there are no files in the directory
+				}
+			}
 
 		/*
 			Now we can get data from the reader and return it, after making sure we're not at EOF.
@@ -63,11 +73,14 @@ namespace JASS
 			/*
 				We're at EOF so move on to the next disk file
 			*/
+			while (current != last && !current->is_regular_file())
+				current++;
+
 			if (current != last)
 				{
 //puts(current->path().string().c_str());
 				reader = std::shared_ptr<instream>(new instream_file(current->path().string()));
-				if (current->path().string().rfind(".gz") != std::string::npos)
+				if (current->path().extension() == ".gz")
 					reader = std::shared_ptr<JASS::instream>(new instream_deflate(reader));
 				current++;
 				}
-- 
2.43.0


From 971bbdf0fd441dc34d6d48a33b16567cf29c95ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:17 +0000
Subject: [PATCH 43/65] fix: file::read moved the position by what was asked
 for rather than what was read

---
 source/file.h | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/source/file.h b/source/file.h
index c477629..55b8158 100755
--- a/source/file.h
+++ b/source/file.h
@@ -257,25 +257,23 @@ namespace JASS
 			*/
 			size_t read(void *data, size_t size)
 				{
-				/*
-					Keep track of the number of bytes we've been asked to write
-				*/
-				bytes_read += size;
-
 				/*
 					Flush the write cache
 				*/
 				flush();
 
 				/*
-					Take note of the new file position (at the end of the read)
+					Now perform the read
 				*/
-				file_position += size;		// this is where we'll be at the end of the read
+				size_t got = ::fread(data, 1, size, fp);
 
 				/*
-					And now perform the read
+					Take note of what was read (which might be less than we asked for) and the new file position (at the end of the read)
 				*/
-				return ::fread(data, 1, size, fp);
+				bytes_read += got;
+				file_position += got;
+
+				return got;
 				}
 
 			/*
-- 
2.43.0


From 19468f52c3abd589e66900158c7b0793e2d5f8ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:17 +0000
Subject: [PATCH 44/65] fix: file::write returned 1 rather than the number of
 bytes written

---
 source/file.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/file.h b/source/file.h
index 55b8158..390805b 100755
--- a/source/file.h
+++ b/source/file.h
@@ -314,6 +314,7 @@ namespace JASS
 				{
 				uint8_t *from;
 				size_t block_size;
+				size_t written = size;
 
 				/*
 					Keep track of the total number of bytes we've been asked to write to the file
@@ -351,7 +352,7 @@ namespace JASS
 						}
 					while (size > 0);
 					}
-				return 1;
+				return written;
 				}
 
 			/*
-- 
2.43.0


From 43b8c07c778554bc60dd12f51f516871334723fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:17 +0000
Subject: [PATCH 45/65] fix: writing an empty file was reported as a failure

---
 source/file.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/file.cpp b/source/file.cpp
index 03477a0..855dbbc 100644
--- a/source/file.cpp
+++ b/source/file.cpp
@@ -184,7 +184,7 @@ namespace JASS
 
 		fclose(fp);
 
-		return success == 1 ? true : false;
+		return success == 1 || buffer.size() == 0 ? true : false;
 		}
 
 	/*
-- 
2.43.0


From 79a996a55c1dc7ae5cf288beaa7f4ad1a6e4ff63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:17 +0000
Subject: [PATCH 46/65] fix: reading a missing or empty file left what was in
 the buffer before

---
 source/file.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/source/file.cpp b/source/file.cpp
index 855dbbc..f43ec11 100644
--- a/source/file.cpp
+++ b/source/file.cpp
@@ -144,6 +144,8 @@ namespace JASS
 #endif
 		size_t file_length = 0;			// length of the file in bytes
 
+		into.resize(0);					// nothing has been read yet
+
 		/*
 			Fopen() the file then fstat() it.  The alternative is to stat() then fopen() - but that is wrong because the file might change between the two calls.
 		*/
@@ -158,7 +160,7 @@ namespace JASS
 					{
 					into.resize(file_length);
 					if (fread(&into[0], details.st_size, 1, fp) != 1)
-						into.resize(0);				// LCOV_EXCL_LINE	// happens when reading the file_size buyes failes (i.e. disk or file failure).
+						into.resize(file_length = 0);				// LCOV_EXCL_LINE	// happens when reading the file_size buyes failes (i.e. disk or file failure).
 					}
 			fclose(fp);
 			}
-- 
2.43.0


From 96d3d7f7f38524c28f22f0a238fb7ae1926f4446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:17 +0000
Subject: [PATCH 47/65] fix: a file that could not be mapped was reported as
 mapped

---
 source/file.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/source/file.cpp b/source/file.cpp
index f43ec11..1660859 100644
--- a/source/file.cpp
+++ b/source/file.cpp
@@ -96,8 +96,11 @@ namespace JASS
 			*/
 			close(reader);
 
-			if (file_contents == nullptr)
+			if (file_contents == MAP_FAILED)
+				{
+				file_contents = nullptr;
 				return 0;
+				}
 
 			/*
 				Remember the file size
@@ -119,7 +122,8 @@ namespace JASS
 			CloseHandle(hMapFile); // close the file mapping object
 			CloseHandle(hFile);   // close the file itself
 		#else
-			munmap((void *)file_contents, size);
+			if (file_contents != nullptr)
+				munmap((void *)file_contents, size);
 		#endif
 		}
 
-- 
2.43.0


From 3339c76cdce1c13242e684a2fc2a83bfc125e017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:17 +0000
Subject: [PATCH 48/65] fix: file::size did not count what is still in the
 write buffer

---
 source/file.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/source/file.cpp b/source/file.cpp
index 1660859..481c500 100644
--- a/source/file.cpp
+++ b/source/file.cpp
@@ -321,6 +321,12 @@ namespace JASS
 				return 0;							// LCOV_EXCL_LINE	// seek has failed.
 		#endif
 		
+		/*
+			Include the bytes that are still in the buffer.
+		*/
+		if (buffer_used > 0 && current_position + (decltype(file_size))buffer_used > file_size)
+			file_size = current_position + buffer_used;
+
 		/*
 			This will fail in the case where off_t is larger than a size_t.  This is unlikely.
 			On the machines this is being developed on both size_t and off_t are 8-byte integers.
-- 
2.43.0


From 4278191aeb509c3f149bd2aeeeb14081d9075d07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:17 +0000
Subject: [PATCH 49/65] fix: the rest of the line on which a second or later
 topic starts was lost

---
 source/channel_trec.cpp | 11 +++++++++--
 source/channel_trec.h   |  2 ++
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/source/channel_trec.cpp b/source/channel_trec.cpp
index 2f889dd..77e0e68 100644
--- a/source/channel_trec.cpp
+++ b/source/channel_trec.cpp
@@ -35,7 +35,7 @@ namespace JASS
 		{
 		int64_t old_number;
 		std::ostringstream raw_query;
-		parser parser;
+		auto &parser = line_parser;
 		std::ostringstream answer;
 
 		if (at_eof)
@@ -52,8 +52,9 @@ namespace JASS
 				in_channel->gets(buffer);
 				if (buffer.size() == 0)
 					break;		// at end of input
+				parser.set_document(buffer);
 				}
-			parser.set_document(buffer);
+			read = true;		// the rest of the line, if there was any, is about to be parsed
 
 			bool finished = false;
 			const char *token_start;
@@ -90,7 +91,10 @@ namespace JASS
 							number = atol(reinterpret_cast<char *>(digits.get().address()));
 
 							if (old_number >= 0)
+								{
+								read = false;		// the new topic might continue on this line
 								return construct(into, old_number, answer.str());
+								}
 							}
 						else if (token.get().size() == 5 && strncmp(token_start, "topic", 5) == 0)
 							{
@@ -107,7 +111,10 @@ namespace JASS
 									}
 
 							if (old_number >= 0)
+								{
+								read = false;		// the new topic might continue on this line
 								return construct(into, old_number, answer.str());
+								}
 							}
 						else if (token.get().size() == 5 && (strncmp(token_start, "query", 5) == 0) && (tag.find('q') != std::string::npos))
 								match = true;			// ClueWeb
diff --git a/source/channel_trec.h b/source/channel_trec.h
index 1bdde74..9cd8960 100644
--- a/source/channel_trec.h
+++ b/source/channel_trec.h
@@ -15,6 +15,7 @@
 
 #include <sstream>
 
+#include "parser.h"
 #include "channel.h"
 
 namespace JASS
@@ -32,6 +33,7 @@ namespace JASS
 			std::unique_ptr<channel> in_channel;	///< The channel this channel reads from
 			std::string buffer;							///< Storage of date read from the in_channel
 			bool read;										///< Do we need to read from the input channel
+			parser line_parser;							///< The parser of the line being read (in buffer)
 			bool at_eof;									///< Are we at end of input?
 			int64_t number;								///< The topic number of the topic being constructed
 			std::string tag;								///< The tag set to use
-- 
2.43.0


From 24d342c1dceb6a5b27d9b123d104965a1bca737f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:17 +0000
Subject: [PATCH 50/65] fix: the number of a topic was read past the end of its
 token

---
 source/channel_trec.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/channel_trec.cpp b/source/channel_trec.cpp
index 77e0e68..d75f221 100644
--- a/source/channel_trec.cpp
+++ b/source/channel_trec.cpp
@@ -88,7 +88,7 @@ namespace JASS
 								digits = parser.get_next_token();
 							while (digits.type != JASS::parser::token::numeric && digits.type != JASS::parser::token::eof);
 							old_number = number;
-							number = atol(reinterpret_cast<char *>(digits.get().address()));
+							number = atol(std::string(reinterpret_cast<char *>(digits.get().address()), digits.get().size()).c_str());
 
 							if (old_number >= 0)
 								{
-- 
2.43.0


From 133077f333d18ab7e26a53ef1e15e3cf22050e3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:17 +0000
Subject: [PATCH 51/65] fix: a file without topics gave a query

---
 source/channel_trec.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/source/channel_trec.cpp b/source/channel_trec.cpp
index d75f221..e521a92 100644
--- a/source/channel_trec.cpp
+++ b/source/channel_trec.cpp
@@ -133,6 +133,9 @@ namespace JASS
 			}
 
 		at_eof = true;
+		if (number < 0)
+			return into.clear();		// there were no topics
+
 		return construct(into, number, answer.str());
 		}
 
-- 
2.43.0


From f3cdf9199c1d3e0817a3f7b94e715282c9ad6a25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:37 +0000
Subject: [PATCH 52/65] fix: JASSv1_to_human printed impacts above 255 modulo
 256

---
 tools/JASSv1_to_human.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/tools/JASSv1_to_human.cpp b/tools/JASSv1_to_human.cpp
index c6167c7..fb9f2d4 100755
--- a/tools/JASSv1_to_human.cpp
+++ b/tools/JASSv1_to_human.cpp
@@ -104,11 +104,11 @@ class printer
 		/*!
 			@brief print the posting
 			@param document [in] The document identifier (docid) used internally.
-			@param impact [in] The impact score of this term in this document.
+			@param impact [in] The impact score the decoder has (an accumulator may be too narrow for it, so that of set_score() is printed).
 		*/
 		void add_rsv(uint64_t document, uint64_t impact)
 			{
-			std::cout << '<' << document << ',' << impact << '>';
+			std::cout << '<' << document << ',' << this->impact << '>';
 			}
 	} ;
 
@@ -145,6 +145,7 @@ void walk_index_v1(JASS::deserialised_jass_v1 &index, JASS::compress_integer &de
 				const JASS::deserialised_jass_v1::segment_header_on_disk &header = *reinterpret_cast<const JASS::deserialised_jass_v1::segment_header_on_disk *>(index.postings() + *postings);
 
 				decompressor.set_impact(header.impact);
+				out_stream.set_score(header.impact);
 				decompressor.decode_with_writer(out_stream, header.segment_frequency, index.postings() + header.offset, header.end - header.offset);
 				}
 			}
@@ -198,6 +199,7 @@ void walk_index_v2(JASS::deserialised_jass_v1 &index, JASS::compress_integer &de
 //std::cout << "\n";
 
 				decompressor.set_impact(header.impact);
+				out_stream.set_score(header.impact);
 				decompressor.decode_with_writer(out_stream, header.segment_frequency, segment_header_pointer + header.offset, header.end);
 				}
 			}
-- 
2.43.0


From 26c06827e95cb1aaecaa3c38c8367b2ec2f6a9cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:31 +0000
Subject: [PATCH 53/65] fix: an option whose name starts with that of another
 (--rho_min) was taken for the other

---
 source/commandline.h | 30 ++++++++++++++++++++++++++++--
 1 file changed, 28 insertions(+), 2 deletions(-)

diff --git a/source/commandline.h b/source/commandline.h
index bfa24de..dcbf6f0 100644
--- a/source/commandline.h
+++ b/source/commandline.h
@@ -246,6 +246,32 @@ namespace JASS
 				messages << element.shortname << " (" << element.longname  << ") Unknown parameter type\n";
 				}
 
+			/*
+				COMMANDLINE::LONGEST_MATCH()
+				----------------------------
+			*/
+			/*!
+				@brief The length of the longest parameter name, of those from I on, that the argument starts with (so that "--rho_min" is not "--rho" followed by "_min").
+				@param argument [in] The command line argument.
+				@param tuple [in] The command line parameters as specified as the programmer.
+				@return The length of the longest name, 0 if there is none.
+			*/
+			template<std::size_t I = 0, typename... Tp>
+			static size_t longest_match(const char *argument, const std::tuple<Tp...> &tuple)
+				{
+				if constexpr (I == sizeof...(Tp))
+					return 0;
+				else
+					{
+					size_t answer = longest_match<I + 1, Tp...>(argument, tuple);
+					if (std::get<I>(tuple).shortname.size() != 0 && std::get<I>(tuple).longname.size() != 0)
+						for (const std::string &name : {std::get<I>(tuple).shortname, std::get<I>(tuple).longname})
+							if (name.size() > answer && strncmp(argument, name.c_str(), name.size()) == 0)
+								answer = name.size();
+					return answer;
+					}
+				}
+
 			/*
 				COMMANDLINE::FOR_EACH_PARAMETER()
 				---------------------------------
@@ -294,12 +320,12 @@ namespace JASS
 					if (typeid(std::get<I>(tuple).parameter) != typeid(bool))
 						arg++;
 					}
-				else if (strncmp(argv[arg], std::get<I>(tuple).longname.c_str(), std::get<I>(tuple).longname.size()) == 0)			// looking for "-aav"
+				else if (strncmp(argv[arg], std::get<I>(tuple).longname.c_str(), std::get<I>(tuple).longname.size()) == 0 && std::get<I>(tuple).longname.size() >= longest_match<I, Tp...>(argv[arg], tuple))			// looking for "-aav"
 					{
 					extract(messages, argv[arg] + std::get<I>(tuple).longname.size(), std::get<I>(tuple));
 					arg++;
 					}
-				else if (strncmp(argv[arg], std::get<I>(tuple).shortname.c_str(), std::get<I>(tuple).shortname.size()) == 0)		// looking for "-av"
+				else if (strncmp(argv[arg], std::get<I>(tuple).shortname.c_str(), std::get<I>(tuple).shortname.size()) == 0 && std::get<I>(tuple).shortname.size() >= longest_match<I, Tp...>(argv[arg], tuple))		// looking for "-av"
 					{
 					extract(messages, argv[arg] + std::get<I>(tuple).shortname.size(), std::get<I>(tuple));
 					arg++;
-- 
2.43.0


From 37a435148d0be9edf5d30780deb9017cb331ca6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:31 +0000
Subject: [PATCH 54/65] fix: zero and negative values were refused as an
 underflow for a floating point option

---
 source/commandline.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/commandline.h b/source/commandline.h
index dcbf6f0..b6bec37 100644
--- a/source/commandline.h
+++ b/source/commandline.h
@@ -209,7 +209,7 @@ namespace JASS
 
 				if (answer > (std::numeric_limits<TYPE>::max)())
 					messages << parameter << " Numeric overflow on parameter\n";
-				else if (answer < (std::numeric_limits<TYPE>::min)())
+				else if (answer < std::numeric_limits<TYPE>::lowest())
 					messages << parameter << " Numeric underflow on parameter\n";
 				else
 					element.parameter = static_cast<TYPE>(answer);
-- 
2.43.0


From d7eae1d348c34564443d7649b918ffc1ca03815e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:31 +0000
Subject: [PATCH 55/65] fix: an option at the end of the line without its value
 crashed

---
 source/commandline.h | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/source/commandline.h b/source/commandline.h
index b6bec37..7612f89 100644
--- a/source/commandline.h
+++ b/source/commandline.h
@@ -205,6 +205,12 @@ namespace JASS
 							 std::is_same<TYPE, double>::value>::type* = nullptr>
 			static void extract(std::ostringstream &messages, const char *parameter, command<TYPE> element)
 				{
+				if (parameter == nullptr)
+					{
+					messages << " Missing numeric parameter\n";
+					return;
+					}
+
 				double answer = std::stod(parameter);
 
 				if (answer > (std::numeric_limits<TYPE>::max)())
@@ -227,6 +233,12 @@ namespace JASS
 			*/
 			static void extract(std::ostringstream &messages, const char *parameter, command<std::string> element)
 				{
+				if (parameter == nullptr)
+					{
+					messages << " Missing parameter\n";
+					return;
+					}
+
 				element.parameter = parameter;
 				}
 
-- 
2.43.0


From 0a5e79d7b1676b4e6ec4a9e76380fc670edecd7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:31 +0000
Subject: [PATCH 56/65] fix: something that is no number threw an exception out
 of parse() for a floating point option

---
 source/commandline.h | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/source/commandline.h b/source/commandline.h
index 7612f89..41983f4 100644
--- a/source/commandline.h
+++ b/source/commandline.h
@@ -211,7 +211,14 @@ namespace JASS
 					return;
 					}
 
-				double answer = std::stod(parameter);
+				char *end;
+				double answer = strtod(parameter, &end);
+
+				if (end == parameter)
+					{
+					messages << parameter << " Not a number\n";
+					return;
+					}
 
 				if (answer > (std::numeric_limits<TYPE>::max)())
 					messages << parameter << " Numeric overflow on parameter\n";
-- 
2.43.0


From c47e612426bc2b56f5b990d9481e525047f99f70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:31 +0000
Subject: [PATCH 57/65] fix: an unsigned option that overflowed was stored all
 the same, negative numbers and those of more than 64 bits were not refused

---
 source/commandline.h | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/source/commandline.h b/source/commandline.h
index 41983f4..0b3d0a7 100644
--- a/source/commandline.h
+++ b/source/commandline.h
@@ -177,16 +177,14 @@ namespace JASS
 					return;
 					}
 
+				errno = 0;
 				unsigned long long answer = strtoull(parameter, NULL, 0);
-
-				/*
-					Coverity Scan complains about the line below when TYPE is a unisgned long long because it can never be true.
-				*/
-				if constexpr (!std::is_same<TYPE, unsigned long long>::value)
-					if (answer > (std::numeric_limits<TYPE>::max)())
-						messages << parameter << " Numeric overflow on parameter\n";
-
-				element.parameter = static_cast<TYPE>(answer);
+				if (answer != 0 && strchr(parameter, '-') != nullptr)
+					messages << parameter << " Numeric underflow on parameter\n";
+				else if (errno == ERANGE || answer > (std::numeric_limits<TYPE>::max)())
+					messages << parameter << " Numeric overflow on parameter\n";
+				else
+					element.parameter = static_cast<TYPE>(answer);
 				}
 
 			/*
-- 
2.43.0


From efa9f909482d8e807d41d54b1eaecfd546408944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:32 +0000
Subject: [PATCH 58/65] fix: a signed option of more than 64 bits was not
 refused

---
 source/commandline.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/source/commandline.h b/source/commandline.h
index 0b3d0a7..3548055 100644
--- a/source/commandline.h
+++ b/source/commandline.h
@@ -19,6 +19,7 @@
 #include <iostream>
 #include <typeinfo>
 
+#include <errno.h>
 #include <stdlib.h>
 
 #include "string.h"
@@ -143,11 +144,12 @@ namespace JASS
 					return;
 					}
 
+				errno = 0;
 				long long answer = strtoll(parameter, NULL, 0);
 
-				if (answer > (std::numeric_limits<TYPE>::max)())
+				if (answer > (std::numeric_limits<TYPE>::max)() || (errno == ERANGE && answer > 0))
 					messages << parameter << " Numeric overflow on parameter\n";
-				else if (answer < (std::numeric_limits<TYPE>::min)())
+				else if (answer < (std::numeric_limits<TYPE>::min)() || errno == ERANGE)
 					messages << parameter << " Numeric underflow on parameter\n";
 				else
 					element.parameter = static_cast<TYPE>(answer);
-- 
2.43.0


From cae1eb587907a7eff0bdc81b7b560937b92a0f31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:18 +0000
Subject: [PATCH 59/65] fix: a malformed common index file was imported or
 crashed, and its records were read past the end of the file

---
 tools/ciff_lin.h       | 9 +++++----
 tools/ciff_to_JASS.cpp | 8 ++++++++
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/tools/ciff_lin.h b/tools/ciff_lin.h
index d2b2f17..1118561 100644
--- a/tools/ciff_lin.h
+++ b/tools/ciff_lin.h
@@ -444,7 +444,8 @@ namespace JASS
 					*/
 					postings_list_iterator &operator++()
 						{
-						which++;
+						if (source.status != FAIL)
+							which++;
 						return *this;
 						}
 
@@ -579,7 +580,8 @@ namespace JASS
 						{
 						current.clear();
 
-						if (doc_record::get_next(current, stream) == FAIL)
+						which++;
+						if (which <= static_cast<size_t>(source.ciff_header.num_docs) && doc_record::get_next(current, stream) == FAIL)
 							{
 							/*
 								On error move to the end of the stream and mark the stream as bad
@@ -588,7 +590,6 @@ namespace JASS
 							source.status = FAIL;
 							}
 
-						which++;
 						return *this;
 						}
 
@@ -749,7 +750,7 @@ namespace JASS
 				stream(source_file),
 				status(OK)
 				{
-				read_header(ciff_header);
+				status = read_header(ciff_header);
 				ciff_header.text_render();
 				}
 
diff --git a/tools/ciff_to_JASS.cpp b/tools/ciff_to_JASS.cpp
index e29ccc5..03a96b3 100644
--- a/tools/ciff_to_JASS.cpp
+++ b/tools/ciff_to_JASS.cpp
@@ -167,6 +167,8 @@ int main(int argc, const char *argv[])
 		set up the protobuf reader
 	*/
 	JASS::ciff_lin source((uint8_t *)&file[0]);
+	if (source.status == JASS::ciff_lin::FAIL)
+		exit(printf("File is not in the correct format\n"));
 
 	/*
 		go list at a time, adding each one to the index
@@ -178,6 +180,9 @@ int main(int argc, const char *argv[])
 	size_t percent_threshold = JASS::maths::maximum(total_terms / 100, (size_t)1);
 	for (auto &posting : source.postings())
 		{
+		if (source.status == JASS::ciff_lin::FAIL)
+			break;
+
 		term_count++;
 		if (((term_count % (percent_threshold * 5)) == 0) || (term_count == total_terms - 1))
 			{
@@ -224,6 +229,9 @@ int main(int argc, const char *argv[])
 		last_docid = docid.docid + 1;
 		}
 
+	if (source.status == JASS::ciff_lin::FAIL)
+		exit(printf("File is not in the correct format\n"));
+
 	/*
 		set the length vector and the primary key vector
 	*/
-- 
2.43.0


From 1b91f7a6ca71347ecb14027e6bc40066b5e97212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:18 +0000
Subject: [PATCH 60/65] fix: keys with quotes and backslashes broke a compiled
 index

---
 source/serialise_ci.cpp | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/source/serialise_ci.cpp b/source/serialise_ci.cpp
index 05ad278..ec9437d 100644
--- a/source/serialise_ci.cpp
+++ b/source/serialise_ci.cpp
@@ -4,6 +4,7 @@
 	Copyright (c) 2017 Andrew Trotman
 	Released under the 2-clause BSD license (See:https://en.wikipedia.org/wiki/BSD_licenses)
 */
+#include <string>
 #include <ostream>
 
 #include "slice.h"
@@ -121,8 +122,25 @@ namespace JASS
 	*/
 	void serialise_ci::operator()(size_t document_id, const slice &primary_key)
 		{
+		/*
+			The key becomes a C++ string literal so the characters that are special in one must be escaped (three octal digits are always enough).
+		*/
+		std::string literal;
+		for (size_t which = 0; which < primary_key.size(); which++)
+			{
+			uint8_t character = primary_key[which];
+			if (character == '"' || character == '\\' || character == '?' || character < ' ')
+				{
+				literal += '\\';
+				literal += (char)('0' + (character >> 6));
+				literal += (char)('0' + ((character >> 3) & 7));
+				literal += (char)('0' + (character & 7));
+				}
+			else
+				literal += (char)character;
+			}
 		primary_key_file.write("\"");
-		primary_key_file.write(primary_key.address(), primary_key.size());
+		primary_key_file.write(literal.c_str(), literal.size());
 		primary_key_file.write("\",\n");
 		}
 
-- 
2.43.0


From dce9add7e38cd0b25b577de0939d481c65fc4166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:38:02 +0000
Subject: [PATCH 61/65] fix: the paired t-test of two pairs looped for two
 thousand million steps (an unsigned bound wrapped below zero)

---
 source/statistics.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/statistics.cpp b/source/statistics.cpp
index eb9aa16..e98c782 100644
--- a/source/statistics.cpp
+++ b/source/statistics.cpp
@@ -92,7 +92,7 @@ namespace JASS
 			double c = sqrt(dnu / (dx * dx + dnu));
 			double csq = dnu / (dx * dx + dnu);
 			double s = dx / sqrt(dx * dx + dnu);
-			int64_t imax = nu - 2;
+			int64_t imax = static_cast<int64_t>(nu) - 2;
 			int64_t ievodd = nu - 2 * (nu / 2);
 
 			int64_t imin;
-- 
2.43.0


From 237e434bacc433c9fe2f5caa30cb63f0a5594974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:38:02 +0000
Subject: [PATCH 62/65] fix: converting a matrix to a run kept the identifiers
 of rows and columns in the table of results, where small identifiers collided
 with them

---
 tools/ECOM19_to_run.cpp | 30 ++++++++++++++++++++----------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/tools/ECOM19_to_run.cpp b/tools/ECOM19_to_run.cpp
index 0cc233d..b45b98e 100644
--- a/tools/ECOM19_to_run.cpp
+++ b/tools/ECOM19_to_run.cpp
@@ -77,7 +77,11 @@ class query_document_price
 	READ_MATRIX()
 	-------------
 */
-void read_matrix(std::string &data, std::unordered_map<int, std::unordered_map<int, int>> &table, int include_minus_1 = true)
+/*
+	The identifiers of the queries (the columns) and of the documents (the rows) are kept apart from the table, which
+	is indexed by identifiers, not by the numbers of the rows and columns.
+*/
+void read_matrix(std::string &data, std::unordered_map<int, std::unordered_map<int, int>> &table, std::vector<size_t> &queries, std::vector<size_t> &documents, int include_minus_1 = true)
 	{
 	size_t document_id = 0;
 
@@ -102,13 +106,15 @@ void read_matrix(std::string &data, std::unordered_map<int, std::unordered_map<i
 			*column++ = '\0';
 			if (row_number == 0 || column_number == 0)
 				{
-				table[row_number][column_number] = atol((char *)start_of_data);
+				document_id = atol((char *)start_of_data);
+				if (row_number == 0)
+					queries.push_back(document_id);
 				if (column_number == 0)
-					document_id = atol((char *)start_of_data);
+					documents.push_back(document_id);
 				}
 			else
 				{
-				size_t query_id = table[0][column_number];
+				size_t query_id = queries.at(column_number);
 				if (*start_of_data == '1')
 					table[document_id][query_id] = 1;
 				if (include_minus_1 && *start_of_data == '-')
@@ -183,7 +189,9 @@ fprintf(stderr, "Load training data");
 			exit(printf("Cannot read documents from file:%s", argv[2]));
 
 	std::unordered_map<int, std::unordered_map<int, int>> training_data;
-	read_matrix(training_data_text, training_data, true);
+	std::vector<size_t> training_queries;
+	std::vector<size_t> training_documents;
+	read_matrix(training_data_text, training_data, training_queries, training_documents, true);
 
 	/*
 		Load the run
@@ -196,7 +204,9 @@ fprintf(stderr, "Load Run\n");
 
 fprintf(stderr, "Matrix the Run\n");
 	std::unordered_map<int, std::unordered_map<int, int>> run;
-	read_matrix(run_text, run, false);
+	std::vector<size_t> run_queries;
+	std::vector<size_t> run_documents;
+	read_matrix(run_text, run, run_queries, run_documents, false);
 
 	/*
 		Remove the training data from the run and convert the run into trec_eval format
@@ -204,13 +214,13 @@ fprintf(stderr, "Matrix the Run\n");
 fprintf(stderr, "Dump the Run\n");
 	//coverity[format_changed]
 	std::cout << std::setprecision(2) << std::fixed;
-	for (size_t column = 1; column < run[0].size(); column++)
+	for (size_t column = 1; column < run_queries.size(); column++)
 		{
 		std::vector<query_document_price> answer;
-		for (size_t row = 1; row < run.size(); row++)
+		for (size_t row = 1; row < run_documents.size(); row++)
 			{
-			size_t query_id = run[0][column];
-			size_t document_id = run[row][0];
+			size_t query_id = run_queries[column];
+			size_t document_id = run_documents[row];
 
 			if (run[document_id][query_id] == 1 && training_data[document_id][query_id] == 0)
 				answer.push_back(query_document_price(query_id, document_id, prices[document_id]));
-- 
2.43.0


From 41d9127776778ea25dcd0dd76dfb26b6d691e57d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:54:04 +0000
Subject: [PATCH 63/65] fix: compress_integer_lyck_16 chose its packing from
 the total number of bits, so integers too wide for their field were corrupted

---
 source/compress_integer_lyck_16.cpp | 40 +++++++++++------------------
 1 file changed, 15 insertions(+), 25 deletions(-)

diff --git a/source/compress_integer_lyck_16.cpp b/source/compress_integer_lyck_16.cpp
index ef9c462..930dc30 100644
--- a/source/compress_integer_lyck_16.cpp
+++ b/source/compress_integer_lyck_16.cpp
@@ -33,34 +33,28 @@ namespace JASS
 			if (destination + 3 > end_of_destination)
 				return 0;
 
+			/*
+				Choose the densest packing whose fields are wide enough for each of the integers they will hold
+			*/
 			uint32_t integers_to_encode;
-			size_t cumulative = 0;
-			uint32_t ending = source_integers > 16 ? 16 : (uint32_t)source_integers;
-			for (integers_to_encode = 0; integers_to_encode < ending; integers_to_encode++)
-				{
-				auto bits = compress_integer_bitpack::bits_needed(source[integers_to_encode]);
-				/*
-					Check for overflow
-				*/
-				if (bits > 16)
-					return 0;
-
-				/*
-					Check to see if we still fit in the current word
-				*/
-				cumulative += bits;
-				if (cumulative > 16)
-					break;
-				}
+			for (integers_to_encode = 8; integers_to_encode > 0; integers_to_encode /= 2)
+				if (integers_to_encode <= source_integers)
+					{
+					uint32_t within;
+					for (within = 0; within < integers_to_encode; within++)
+						if (compress_integer_bitpack::bits_needed(source[within]) > 16 / integers_to_encode)
+							break;
+					if (within >= integers_to_encode)
+						break;
+					}
 
 			/*
 				integers_to_encode is the number of integers that will fit
 			*/
 			switch (integers_to_encode)
 				{
-				case 0:						// Cannot happen
-					JASS_assert(integers_to_encode == 0);
-					break;
+				case 0:						// the next integer needs more than 16 bits
+					return 0;
 				case 1:						// 1 * 16-bit integer
 					*destination++ = 3;
 					*(uint16_t *)destination = *source;
@@ -69,7 +63,6 @@ namespace JASS
 					source_integers -= 1;
 					break;
 				case 2:						// 2 * 8-bit integer
-				case 3:
 					*destination++ = 2;
 					*(uint16_t *)destination = (*source << 8) | *(source + 1);
 					source += 2;
@@ -77,9 +70,6 @@ namespace JASS
 					source_integers -= 2;
 					break;
 				case 4:						// 4 * 4-bit integers
-				case 5:
-				case 6:
-				case 7:
 					*destination++ = 1;
 					*(uint16_t *)destination = (*source << 12) | (*(source + 1) << 8) | (*(source + 2) << 4) | *(source + 3);
 					source += 4;
-- 
2.43.0


From 2c35f38b38e756c8fea48f37737659ace4921495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:58:03 +0000
Subject: [PATCH 64/65] fix: compress_general_zstd could not decode, and
 encoding into a buffer that is too small never returned

---
 source/compress_general_zstd.cpp | 19 ++++++-------------
 1 file changed, 6 insertions(+), 13 deletions(-)

diff --git a/source/compress_general_zstd.cpp b/source/compress_general_zstd.cpp
index fa94f1e..0c41314 100644
--- a/source/compress_general_zstd.cpp
+++ b/source/compress_general_zstd.cpp
@@ -53,7 +53,11 @@ namespace JASS
 			auto toRead = ZSTD_compressStream(ress.cstream, &output , &input);   /* toRead is guaranteed to be <= ZSTD_CStreamInSize() */
 			if (ZSTD_isError(toRead))
 				return 0;
+			if (output.pos >= output.size)
+				break;			// the destination is full, and if anything remains to be written then ZSTD_endStream() will say so.
 			}
+		if (input.pos < input.size)
+			return 0;
 
 		size_t const remainingToFlush = ZSTD_endStream(ress.cstream, &output);   /* close frame */
 		if (remainingToFlush != 0)
@@ -68,20 +72,9 @@ namespace JASS
 	*/
 	size_t compress_general_zstd::decode(void *decoded, size_t destination_length, const void *source, size_t source_bytes)
 		{
-		/*
-		if (inflateReset(&instream) != Z_OK)
-			return 0;
+		size_t became = ZSTD_decompress(decoded, destination_length, source, source_bytes);
 
-		instream.avail_in = source_bytes;
-		instream.next_in = (Bytef *)source;
-		instream.avail_out = destination_length;
-		instream.next_out = (Bytef *)decoded;
-
-		auto status = inflate(&instream, Z_FINISH);
-
-		return status == Z_STREAM_END ? (destination_length - instream.avail_out) : 0;
-		*/
-		return 0;
+		return ZSTD_isError(became) ? 0 : became;
 		}
 		
 	/*
-- 
2.43.0


From 50d7b35163ad24e48c51f990876bc70d66c963d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:58:03 +0000
Subject: [PATCH 65/65] fix: find_first_set_bit of a 64-bit integer whose low
 32 bits are zero

---
 source/maths.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/maths.h b/source/maths.h
index b8b014f..4fe746c 100644
--- a/source/maths.h
+++ b/source/maths.h
@@ -257,7 +257,7 @@ namespace JASS
 			static inline uint32_t find_first_set_bit(uint64_t x)
 				{
 				static const uint32_t table[] = {0, 1, 2, 53, 3, 7, 54, 27, 4, 38, 41, 8, 34, 55, 48, 28, 62, 5, 39, 46, 44, 42, 22, 9, 24, 35, 59, 56, 49, 18, 29, 11, 63, 52, 6, 26, 37, 40, 33, 47, 61, 45, 43, 21, 23, 58, 17, 10, 51, 25, 36, 32, 60, 20, 57, 16, 50, 31, 19, 15, 30, 14, 13, 12};
-				return table[((x & -(int32_t)x) * 0x022FDD63CC95386DULL) >> 58];
+				return table[((x & (0 - x)) * 0x022FDD63CC95386DULL) >> 58];
 				}
 
 			/*
-- 
2.43.0

