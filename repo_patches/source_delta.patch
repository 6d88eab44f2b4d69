From 5e1c8233b2267ea47752946dc3d380f2e8aa05cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:18 +0000
Subject: [PATCH 1/2] fix: do not read past the inputs in the four-way SHAKE
 absorb

The gather for the final partial lane loaded a full 8 bytes from each
input, up to 7 bytes beyond inlen; copy only the remaining bytes.
---
 avx2/fips202x4.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/avx2/fips202x4.c b/avx2/fips202x4.c
index 6bc6d1a..297fcbf 100644
--- a/avx2/fips202x4.c
+++ b/avx2/fips202x4.c
@@ -45,9 +45,12 @@ static void keccakx4_absorb_once(__m256i s[25],
   inlen -= 8*i;
 
   if(inlen) {
-    t = _mm256_i64gather_epi64((long long *)pos, idx, 1);
-    idx = _mm256_set1_epi64x((1ULL << (8*inlen)) - 1);
-    t = _mm256_and_si256(t, idx);
+    uint64_t last[4] = {0};
+    memcpy(&last[0], in0 + pos, inlen);
+    memcpy(&last[1], in1 + pos, inlen);
+    memcpy(&last[2], in2 + pos, inlen);
+    memcpy(&last[3], in3 + pos, inlen);
+    t = _mm256_loadu_si256((__m256i *)last);
     s[i] = _mm256_xor_si256(s[i], t);
   }
 
-- 
2.43.0


From 8d03c63762aa28be15655ed37d2e4acf0952c8fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:48 +0000
Subject: [PATCH 2/2] fix: known-answer DRBG offset overflows for requests of 2
 GiB and more

The output offset was an int while the length is unsigned long long;
past 2^31 bytes it overflowed (a build without optimisation writes in
front of the buffer).
---
 ref/nistkat/rng.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ref/nistkat/rng.c b/ref/nistkat/rng.c
index 2976969..efa2a08 100644
--- a/ref/nistkat/rng.c
+++ b/ref/nistkat/rng.c
@@ -156,7 +156,7 @@ int
 randombytes(unsigned char *x, unsigned long long xlen)
 {
     unsigned char   block[16];
-    int             i = 0;
+    unsigned long long i = 0;
 
     while ( xlen > 0 ) {
         //increment V
-- 
2.43.0

