From 2a5f9b3db88ab18f69f026747d4cf9c6de7cb91f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:33 +0000
Subject: [PATCH 1/3] fix: overflowed right endpoint in left-closed directed
 rounding

When the significand is the largest one, the right endpoint wraps around to 0
and was tested for divisibility as if it were 0: an assertion failure (undefined
behaviour with NDEBUG) for small exponents, and an endpoint taken for a multiple
of a power of 5 it is not a multiple of for larger ones.
---
 grisu_exact.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/grisu_exact.h b/grisu_exact.h
index b573382..ccc6a3a 100644
--- a/grisu_exact.h
+++ b/grisu_exact.h
@@ -2011,7 +2011,13 @@ namespace jkj {
 						integer_check_case_id::fc_pm_2_to_the_q_mp_m2_generic :
 						integer_check_case_id::other;
 
-					if (is_product_integer<case_id>(fr, exponent, minus_k)) {
+					// For left-closed directed rounding, fr == 0 means that fr has overflowed;
+					// that is, the right endpoint is 2^extended_precision * 2^exponent
+					bool const is_z_integer = fr == 0 ?
+						minus_k <= 0 && exponent + int(extended_precision) >= minus_k :
+						is_product_integer<case_id>(fr, exponent, minus_k);
+
+					if (is_z_integer) {
 						// Decrease kappa until 10^kappa becomes smaller than delta
 						// If left boundary is included, 10^kappa can also be equal to delta
 						while (true) {
-- 
2.43.0


From e4014413bbe232827d3af7cb541c9c3d9d0eafe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:04 +0000
Subject: [PATCH 2/3] fix: correct rounding of left-closed directed rounding
 modes

The search for the closest shortest output stopped without applying the last
displacement when it matched delta, and compared parities against a zi - deltai
from which r had already been taken away.
---
 grisu_exact.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/grisu_exact.h b/grisu_exact.h
index ccc6a3a..3f2d011 100644
--- a/grisu_exact.h
+++ b/grisu_exact.h
@@ -2097,8 +2097,8 @@ namespace jkj {
 					grisu_exact_rounding_modes::left_closed_directed_tag)
 				{
 					// We already know r is at most deltai
-					deltai -= std::uint32_t(r);
 					auto const approx_x = zi - deltai;
+					deltai -= std::uint32_t(r);
 
 					auto const current_digit = ret_value.significand % 10;
 
@@ -2139,6 +2139,7 @@ namespace jkj {
 							case zf_vs_deltaf_t::zf_smaller:
 								break;
 							}
+							ret_value.significand -= steps;
 							goto return_label;
 						}
 						else {
-- 
2.43.0


From 17d2f43d931016abeffb801994ea2d561b71a59a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:26 +0000
Subject: [PATCH 3/3] fix: signed overflow in floor_log2_pow10 for |e| > 616

The documented range is [-642, 642], but 617 * 0x35269e does not fit in 32 bits.
---
 grisu_exact.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/grisu_exact.h b/grisu_exact.h
index 3f2d011..8e94160 100644
--- a/grisu_exact.h
+++ b/grisu_exact.h
@@ -319,7 +319,7 @@ namespace jkj {
 
 			return int(
 				// Calculate 0x3.5269e * exp * 2^20
-				(std::int32_t(e) * log2_5_over_4_up_to_20)
+				(std::int64_t(e) * log2_5_over_4_up_to_20)
 				// Perform arithmetic-shift
 				>> 20);
 		}
-- 
2.43.0

