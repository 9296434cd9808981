From 2c893937ac05e6389b0add1df0323e92d117cc6b Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 16:01:46 +0000
Subject: [PATCH 01/14] fix: carry into the upper nonce half when a batch of
 counter blocks ends exactly at the 64-bit boundary

---
 Variants/uSaber-90s/avx2/crypto_stream_aes256ctr.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Variants/uSaber-90s/avx2/crypto_stream_aes256ctr.c b/Variants/uSaber-90s/avx2/crypto_stream_aes256ctr.c
index b363ecc..88d0012 100644
--- a/Variants/uSaber-90s/avx2/crypto_stream_aes256ctr.c
+++ b/Variants/uSaber-90s/avx2/crypto_stream_aes256ctr.c
@@ -183,7 +183,7 @@ static inline void incle(unsigned char n[16]) {
     long long nl = *(long long*)&n[8];                                  \
     MAKEN(NVxV_DEC);                                                    \
     /* check for nonce wraparound */                                    \
-    if ((nl < 0) && (nl + (N-1)) >= 0) {                                \
+    if ((nl < 0) && (nl + N) >= 0) {                                    \
       int wrapnumber = (int)(N - (nl+N));                               \
       MAKEN(NVxV_WRAP);                                                 \
       _mm_storeu_si128((__m128i*)n, _mm_add_epi64(nv0i, _mm_set_epi64x(N,1))); \
-- 
2.43.0


From 209883e408127b06c9b31ef2a79b20df85438b83 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 16:01:46 +0000
Subject: [PATCH 02/14] fix: Cortex-M0 3-bit packing stored the wrong bit of
 every sixth coefficient

---
 .../Cortex-M0/saber-ref-mem/src/pack_unpack.c                   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Cortex-M_Implementation_KEM/Cortex-M0/saber-ref-mem/src/pack_unpack.c b/Cortex-M_Implementation_KEM/Cortex-M0/saber-ref-mem/src/pack_unpack.c
index ff27aa4..c7e5e08 100644
--- a/Cortex-M_Implementation_KEM/Cortex-M0/saber-ref-mem/src/pack_unpack.c
+++ b/Cortex-M_Implementation_KEM/Cortex-M0/saber-ref-mem/src/pack_unpack.c
@@ -10,7 +10,7 @@ void SABER_pack_3bit(uint8_t *bytes, uint16_t *data){
 		offset_byte=3*j;
 		offset_data=8*j;
 		bytes[offset_byte + 0]= (data[offset_data + 0] & 0x7) | ( (data[offset_data + 1] & 0x7)<<3 ) | ((data[offset_data + 2] & 0x3)<<6);
-		bytes[offset_byte + 1]= ((data[offset_data + 2] >> 2 ) & 0x01)  | ( (data[offset_data + 3] & 0x7)<<1 ) | ( (data[offset_data + 4] & 0x7)<<4 ) | (((data[offset_data + 5] >> 2 ) & 0x01)<<7);
+		bytes[offset_byte + 1]= ((data[offset_data + 2] >> 2 ) & 0x01)  | ( (data[offset_data + 3] & 0x7)<<1 ) | ( (data[offset_data + 4] & 0x7)<<4 ) | (((data[offset_data + 5]) & 0x01)<<7);
 		bytes[offset_byte + 2]= ((data[offset_data + 5] >> 1 ) & 0x03) | ( (data[offset_data + 6] & 0x7)<<2 ) | ( (data[offset_data + 7] & 0x7)<<5 );
 	}
 }
-- 
2.43.0


From 985ae18a01357fa2669f5a054da84cc539f28ef0 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 16:01:46 +0000
Subject: [PATCH 03/14] fix: Cortex-M0 randombytes wrote a constant zero in
 every second byte

---
 Cortex-M_Implementation_KEM/Cortex-M0/saber-ref-mem/src/prng.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Cortex-M_Implementation_KEM/Cortex-M0/saber-ref-mem/src/prng.c b/Cortex-M_Implementation_KEM/Cortex-M0/saber-ref-mem/src/prng.c
index 3ad8581..268448e 100644
--- a/Cortex-M_Implementation_KEM/Cortex-M0/saber-ref-mem/src/prng.c
+++ b/Cortex-M_Implementation_KEM/Cortex-M0/saber-ref-mem/src/prng.c
@@ -37,7 +37,7 @@ void randombytes(unsigned char *x,unsigned long long xlen)
 {
     union
     {
-        uint16_t aschar[2];
+        uint8_t aschar[2];
         uint32_t asint;
     } random;
 
-- 
2.43.0


From ea97ec94059ead830541da12f4752829c857e0f7 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Wed, 18 Nov 2026 16:01:46 +0000
Subject: [PATCH 04/14] fix: Cortex-M0 decryption overflowed the 32-byte
 message buffer and never packed the message bits

---
 .../Cortex-M0/saber-ref-mem/src/SABER_indcpa.c               | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/Cortex-M_Implementation_KEM/Cortex-M0/saber-ref-mem/src/SABER_indcpa.c b/Cortex-M_Implementation_KEM/Cortex-M0/saber-ref-mem/src/SABER_indcpa.c
index 38d4ed0..1c1a041 100644
--- a/Cortex-M_Implementation_KEM/Cortex-M0/saber-ref-mem/src/SABER_indcpa.c
+++ b/Cortex-M_Implementation_KEM/Cortex-M0/saber-ref-mem/src/SABER_indcpa.c
@@ -331,6 +331,7 @@ void indcpa_kem_dec(const unsigned char *sk, const unsigned char *ciphertext, un
 	uint16_t sksv[SABER_K][SABER_N]; //secret key of the server
 
 	uint16_t v[SABER_N];
+	uint16_t message_dec_unpacked[SABER_N];
 
 	BS2POLVECq(sk, sksv); //sksv is the secret-key
 
@@ -346,11 +347,11 @@ void indcpa_kem_dec(const unsigned char *sk, const unsigned char *ciphertext, un
 
 	VectorMul(ciphertext, sksv,v);
 
-	ExtractKeyBits(v,ciphertext+SABER_POLYVECCOMPRESSEDBYTES,message_dec);
+	ExtractKeyBits(v,ciphertext+SABER_POLYVECCOMPRESSEDBYTES,message_dec_unpacked);
 
 
 	// pack decrypted message
-	//POL2MSG(message_dec_unpacked, message_dec);
+	POL2MSG(message_dec_unpacked, message_dec);
 }
 
 
-- 
2.43.0


From cf9fcbefd4f1899e004081162cf2d5352bd66491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:23:52 +0000
Subject: [PATCH 05/14] fix: SaberX4 used aligned vector accesses on
 caller-supplied byte buffers and crashed on unaligned ones

---
 Variants/SaberX4_avx2/SABER_indcpa.c | 16 +++++-----
 Variants/SaberX4_avx2/pack_unpack.c  | 48 ++++++++++++++--------------
 2 files changed, 32 insertions(+), 32 deletions(-)

diff --git a/Variants/SaberX4_avx2/SABER_indcpa.c b/Variants/SaberX4_avx2/SABER_indcpa.c
index 4b724bf..22224ad 100644
--- a/Variants/SaberX4_avx2/SABER_indcpa.c
+++ b/Variants/SaberX4_avx2/SABER_indcpa.c
@@ -156,16 +156,16 @@ void BS2POLq4x(unsigned char * bs0, unsigned char * bs1, unsigned char * bs2, un
 	//num/32   (32 8-bit) 
 	for(i = 0;i<13;i++){
 		//Load 128 bit from bs0, bs1, bs2, bs3
-		l0 = _mm_load_ps(cfbs0+p*4); //0
-		l1 = _mm_load_ps(cfbs1+p*4); //160
-		l2 = _mm_load_ps(cfbs2+p*4); //64
-		l3 = _mm_load_ps(cfbs3+p*4); //224
+		l0 = _mm_loadu_ps(cfbs0+p*4); //0
+		l1 = _mm_loadu_ps(cfbs1+p*4); //160
+		l2 = _mm_loadu_ps(cfbs2+p*4); //64
+		l3 = _mm_loadu_ps(cfbs3+p*4); //224
 		
 		//Load 128 bit from middle of bs0, bs1, bs2, bs3
-		l4 = _mm_load_ps(cfbs4+p*4); //208
-		l5 = _mm_load_ps(cfbs5+p*4); //112
-		l6 = _mm_load_ps(cfbs6+p*4); //16
-		l7 = _mm_load_ps(cfbs7+p*4); //176
+		l4 = _mm_loadu_ps(cfbs4+p*4); //208
+		l5 = _mm_loadu_ps(cfbs5+p*4); //112
+		l6 = _mm_loadu_ps(cfbs6+p*4); //16
+		l7 = _mm_loadu_ps(cfbs7+p*4); //176
 
 		//Transpose 4x4 matrix
 		_MM_TRANSPOSE4_PS(l0,l1,l2,l3);
diff --git a/Variants/SaberX4_avx2/pack_unpack.c b/Variants/SaberX4_avx2/pack_unpack.c
index 1e97d02..a3cb93e 100644
--- a/Variants/SaberX4_avx2/pack_unpack.c
+++ b/Variants/SaberX4_avx2/pack_unpack.c
@@ -21,16 +21,16 @@ void avx_load_16bit_8bit(const float * cfbs0, const float * cfbs1,
 	// i = size/32
 	for(i = 0;i<SABER_K*SABER_N*16/(128*2);i++){
 		//Load 128 bit from bs0, bs1, bs2, bs3
-		l0 = _mm_load_ps(cfbs0+p*4); 
-		l1 = _mm_load_ps(cfbs1+p*4); 
-		l2 = _mm_load_ps(cfbs2+p*4); 
-		l3 = _mm_load_ps(cfbs3+p*4); 
+		l0 = _mm_loadu_ps(cfbs0+p*4); 
+		l1 = _mm_loadu_ps(cfbs1+p*4); 
+		l2 = _mm_loadu_ps(cfbs2+p*4); 
+		l3 = _mm_loadu_ps(cfbs3+p*4); 
 		
 		//Load 128 bit from middle of bs0, bs1, bs2, bs3
-		l4 = _mm_load_ps(cfbs4+p*4); 
-		l5 = _mm_load_ps(cfbs5+p*4); 
-		l6 = _mm_load_ps(cfbs6+p*4); 
-		l7 = _mm_load_ps(cfbs7+p*4); 
+		l4 = _mm_loadu_ps(cfbs4+p*4); 
+		l5 = _mm_loadu_ps(cfbs5+p*4); 
+		l6 = _mm_loadu_ps(cfbs6+p*4); 
+		l7 = _mm_loadu_ps(cfbs7+p*4); 
 		
 		//Transpose 4x4 matrix
 		_MM_TRANSPOSE4_PS(l0,l1,l2,l3);
@@ -119,10 +119,10 @@ void avx_store_8bit_bs(__m256i * avx_bytes, uint16_t size,
 		
 		
 		//do the same thing to back half(4 number) from 256-bit avx to 128bit
-		_mm_store_si128(bs0+k,ph0);
-		_mm_store_si128(bs1+k,ph1);
-		_mm_store_si128(bs2+k,ph2);
-		_mm_store_si128(bs3+k,ph3);
+		_mm_storeu_si128(bs0+k,ph0);
+		_mm_storeu_si128(bs1+k,ph1);
+		_mm_storeu_si128(bs2+k,ph2);
+		_mm_storeu_si128(bs3+k,ph3);
 		
 		//pack second half
 		l0 = _mm256_extractf128_ps((__m256)avx_bytes[offset0+0],1);
@@ -173,10 +173,10 @@ void avx_store_8bit_bs(__m256i * avx_bytes, uint16_t size,
 		//(128 every store bit)/(8 bit/number)=32number
 		//pointer space 128bit 
 		
-		_mm_store_si128(bs4+k,ph0);
-		_mm_store_si128(bs5+k,ph1);
-		_mm_store_si128(bs6+k,ph2);
-		_mm_store_si128(bs7+k,ph3);
+		_mm_storeu_si128(bs4+k,ph0);
+		_mm_storeu_si128(bs5+k,ph1);
+		_mm_storeu_si128(bs6+k,ph2);
+		_mm_storeu_si128(bs7+k,ph3);
 		
 		//depend on how many lines in this part
 		offset0 += 16;
@@ -206,16 +206,16 @@ void avx_load_8bit_16bit(const float * cfbs0, const float * cfbs1,
 	// i = size/32
 	for(i = 0;i<(size)/32;i++){
 		//Load 128 bit from bs0, bs1, bs2, bs3
-		l0 = _mm_load_ps(cfbs0+p*4); //0
-		l1 = _mm_load_ps(cfbs1+p*4); //160
-		l2 = _mm_load_ps(cfbs2+p*4); //64
-		l3 = _mm_load_ps(cfbs3+p*4); //224
+		l0 = _mm_loadu_ps(cfbs0+p*4); //0
+		l1 = _mm_loadu_ps(cfbs1+p*4); //160
+		l2 = _mm_loadu_ps(cfbs2+p*4); //64
+		l3 = _mm_loadu_ps(cfbs3+p*4); //224
 		
 		//Load 128 bit from middle of bs0, bs1, bs2, bs3
-		l4 = _mm_load_ps(cfbs4+p*4); //208
-		l5 = _mm_load_ps(cfbs5+p*4); //112
-		l6 = _mm_load_ps(cfbs6+p*4); //16
-		l7 = _mm_load_ps(cfbs7+p*4); //176
+		l4 = _mm_loadu_ps(cfbs4+p*4); //208
+		l5 = _mm_loadu_ps(cfbs5+p*4); //112
+		l6 = _mm_loadu_ps(cfbs6+p*4); //16
+		l7 = _mm_loadu_ps(cfbs7+p*4); //176
 
 		//Transpose 4x4 matrix
 		_MM_TRANSPOSE4_PS(l0,l1,l2,l3);
-- 
2.43.0


From ca05bb54dd78f6e9250abecb0e056e9b6dc824e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:45:58 +0000
Subject: [PATCH 06/14] fix: SaberX4 shake128x4 wrote 168-byte blocks into
 136-byte stack buffers

---
 Variants/SaberX4_avx2/fips202x4.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/Variants/SaberX4_avx2/fips202x4.c b/Variants/SaberX4_avx2/fips202x4.c
index 88e61fc..7712d8a 100644
--- a/Variants/SaberX4_avx2/fips202x4.c
+++ b/Variants/SaberX4_avx2/fips202x4.c
@@ -152,10 +152,10 @@ void shake128x4(unsigned char *out0,
                        const unsigned char *in3, unsigned long long inlen)
 {
   __m256i s[25];
-  unsigned char t0[SHAKE256_RATE];
-  unsigned char t1[SHAKE256_RATE];
-  unsigned char t2[SHAKE256_RATE];
-  unsigned char t3[SHAKE256_RATE];
+  unsigned char t0[SHAKE128_RATE];
+  unsigned char t1[SHAKE128_RATE];
+  unsigned char t2[SHAKE128_RATE];
+  unsigned char t3[SHAKE128_RATE];
   unsigned int i;
 
   // zero state 
-- 
2.43.0


From 3f8008908eb527f7f6907cc30e5118d6f4e1e979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:24 +0000
Subject: [PATCH 07/14] fix: randombytes counts the output position in the type
 of the request length

The index into the output buffer was an int while the request length is an
unsigned long long: from 2 GiB on the index overflowed and the write went
before the buffer.
---
 AVX_Implementation_KEM/rng.c       |  2 +-
 Reference_Implementation_KEM/rng.c |  2 +-
 Variants/SaberX4_avx2/rng.c        | 10 +++++-----
 Variants/uSaber-90s/avx2/rng.c     |  2 +-
 Variants/uSaber-90s/ref/rng.c      |  2 +-
 5 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/AVX_Implementation_KEM/rng.c b/AVX_Implementation_KEM/rng.c
index 43763dd..eb16de3 100644
--- a/AVX_Implementation_KEM/rng.c
+++ b/AVX_Implementation_KEM/rng.c
@@ -156,7 +156,7 @@ int
 randombytes(unsigned char *x, unsigned long long xlen)
 {
     unsigned char   block[16];
-    int             i = 0;
+    unsigned long long i = 0;
     
     while ( xlen > 0 ) {
         //increment V
diff --git a/Reference_Implementation_KEM/rng.c b/Reference_Implementation_KEM/rng.c
index 43763dd..eb16de3 100644
--- a/Reference_Implementation_KEM/rng.c
+++ b/Reference_Implementation_KEM/rng.c
@@ -156,7 +156,7 @@ int
 randombytes(unsigned char *x, unsigned long long xlen)
 {
     unsigned char   block[16];
-    int             i = 0;
+    unsigned long long i = 0;
     
     while ( xlen > 0 ) {
         //increment V
diff --git a/Variants/SaberX4_avx2/rng.c b/Variants/SaberX4_avx2/rng.c
index 427792e..f856f92 100644
--- a/Variants/SaberX4_avx2/rng.c
+++ b/Variants/SaberX4_avx2/rng.c
@@ -180,7 +180,7 @@ int
 randombytes(unsigned char *x, unsigned long long xlen)
 {
     unsigned char   block[16];
-    int             i = 0;
+    unsigned long long i = 0;
     
     while ( xlen > 0 ) {
         //increment V
@@ -213,7 +213,7 @@ int
 randombytes0(unsigned char *x, unsigned long long xlen)
 {
     unsigned char   block[16];
-    int             i = 0;
+    unsigned long long i = 0;
     
     while ( xlen > 0 ) {
         //increment V
@@ -246,7 +246,7 @@ int
 randombytes1(unsigned char *x, unsigned long long xlen)
 {
     unsigned char   block[16];
-    int             i = 0;
+    unsigned long long i = 0;
     
     while ( xlen > 0 ) {
         //increment V
@@ -279,7 +279,7 @@ int
 randombytes2(unsigned char *x, unsigned long long xlen)
 {
     unsigned char   block[16];
-    int             i = 0;
+    unsigned long long i = 0;
     
     while ( xlen > 0 ) {
         //increment V
@@ -312,7 +312,7 @@ int
 randombytes3(unsigned char *x, unsigned long long xlen)
 {
     unsigned char   block[16];
-    int             i = 0;
+    unsigned long long i = 0;
     
     while ( xlen > 0 ) {
         //increment V
diff --git a/Variants/uSaber-90s/avx2/rng.c b/Variants/uSaber-90s/avx2/rng.c
index 43763dd..eb16de3 100644
--- a/Variants/uSaber-90s/avx2/rng.c
+++ b/Variants/uSaber-90s/avx2/rng.c
@@ -156,7 +156,7 @@ int
 randombytes(unsigned char *x, unsigned long long xlen)
 {
     unsigned char   block[16];
-    int             i = 0;
+    unsigned long long i = 0;
     
     while ( xlen > 0 ) {
         //increment V
diff --git a/Variants/uSaber-90s/ref/rng.c b/Variants/uSaber-90s/ref/rng.c
index 43763dd..eb16de3 100644
--- a/Variants/uSaber-90s/ref/rng.c
+++ b/Variants/uSaber-90s/ref/rng.c
@@ -156,7 +156,7 @@ int
 randombytes(unsigned char *x, unsigned long long xlen)
 {
     unsigned char   block[16];
-    int             i = 0;
+    unsigned long long i = 0;
     
     while ( xlen > 0 ) {
         //increment V
-- 
2.43.0


From 2593ff5ad2b19c33e54375c0f335628b4e34aacc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:15:15 +0000
Subject: [PATCH 08/14] fix: Cortex-M0 SHA-3/SHAKE fed plain lanes to the
 bit-interleaved assembly permutation and computed another function

---
 .../Cortex-M0/saber-ref-mem/src/fips202.c     | 54 +++----------------
 1 file changed, 8 insertions(+), 46 deletions(-)

diff --git a/Cortex-M_Implementation_KEM/Cortex-M0/saber-ref-mem/src/fips202.c b/Cortex-M_Implementation_KEM/Cortex-M0/saber-ref-mem/src/fips202.c
index c502789..dc7f84a 100644
--- a/Cortex-M_Implementation_KEM/Cortex-M0/saber-ref-mem/src/fips202.c
+++ b/Cortex-M_Implementation_KEM/Cortex-M0/saber-ref-mem/src/fips202.c
@@ -12,42 +12,11 @@
 #define NROUNDS 24
 #define ROL(a, offset) ((a << offset) ^ (a >> (64-offset)))
 
-/*************************************************
-* Name:        load64
-*
-* Description: Load 8 bytes into uint64_t in little-endian order
-*
-* Arguments:   - const unsigned char *x: pointer to input byte array
-*
-* Returns the loaded 64-bit unsigned integer
-**************************************************/
-static uint64_t load64(const unsigned char *x)
-{
-  unsigned long long r = 0, i;
-
-  for (i = 0; i < 8; ++i) {
-    r |= (unsigned long long)x[i] << 8 * i;
-  }
-  return r;
-}
-
-/*************************************************
-* Name:        store64
-*
-* Description: Store a 64-bit integer to a byte array in little-endian order
-*
-* Arguments:   - uint8_t *x: pointer to the output byte array
-*              - uint64_t u: input 64-bit unsigned integer
-**************************************************/
-static void store64(uint8_t *x, uint64_t u)
-{
-  unsigned int i;
-
-  for(i=0; i<8; ++i) {
-    x[i] = u;
-    u >>= 8;
-  }
-}
+// Implemented in assembly. The state is kept bit-interleaved, so that bytes must
+// only enter and leave it through these functions.
+void KeccakF1600_StateXORBytes(void *state, const unsigned char *data, unsigned int offset, unsigned int length);
+void KeccakF1600_StateExtractBytes(void *state, unsigned char *data, unsigned int offset, unsigned int length);
+void KeccakF1600_StatePermute(void *state);
 
 #include <string.h>
 #define MIN(a, b) ((a) < (b) ? (a) : (b))
@@ -79,9 +48,7 @@ void keccak_absorb(uint64_t *s,
 
   while (mlen >= r)
   {
-    for (i = 0; i < r / 8; ++i)
-      s[i] ^= load64(m + 8 * i);
-
+    KeccakF1600_StateXORBytes(s, m, 0, r);
     KeccakF1600_StatePermute(s);
     mlen -= r;
     m += r;
@@ -93,8 +60,7 @@ void keccak_absorb(uint64_t *s,
     t[i] = m[i];
   t[i] = p;
   t[r - 1] |= 128;
-  for (i = 0; i < r / 8; ++i)
-    s[i] ^= load64(t + 8 * i);
+  KeccakF1600_StateXORBytes(s, t, 0, r);
 }
 
 
@@ -114,14 +80,10 @@ void keccak_squeezeblocks(unsigned char *h, unsigned long long int nblocks,
                                  uint64_t *s,
                                  unsigned int r)
 {
-  unsigned int i;
   while(nblocks > 0)
   {
     KeccakF1600_StatePermute(s);
-    for(i=0;i<(r>>3);i++)
-    {
-      store64(h+8*i, s[i]);
-    }
+    KeccakF1600_StateExtractBytes(s, h, 0, r);
     h += r;
     nblocks--;
   }
-- 
2.43.0


From 5ec84bc67653029902ccfb77ef0e55054b326c65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:16:08 +0000
Subject: [PATCH 09/14] fix: Cortex-M0 cSHAKE lost the customisation string
 because absorbing zeroed the state

---
 .../Cortex-M0/saber-ref-mem/src/fips202.c     | 57 +++++++++++++------
 1 file changed, 41 insertions(+), 16 deletions(-)

diff --git a/Cortex-M_Implementation_KEM/Cortex-M0/saber-ref-mem/src/fips202.c b/Cortex-M_Implementation_KEM/Cortex-M0/saber-ref-mem/src/fips202.c
index dc7f84a..82d6c5a 100644
--- a/Cortex-M_Implementation_KEM/Cortex-M0/saber-ref-mem/src/fips202.c
+++ b/Cortex-M_Implementation_KEM/Cortex-M0/saber-ref-mem/src/fips202.c
@@ -23,29 +23,25 @@ void KeccakF1600_StatePermute(void *state);
 
 
 /*************************************************
-* Name:        keccak_absorb
+* Name:        keccak_absorb_last
 *
-* Description: Absorb step of Keccak;
-*              non-incremental, starts by zeroeing the state.
+* Description: Absorbs the whole input and its padding into the given state;
+*              the last block still has to be permuted.
 *
-* Arguments:   - uint64_t *s:             pointer to (uninitialized) output Keccak state
+* Arguments:   - uint64_t *s:             pointer to in/output Keccak state
 *              - unsigned int r:          rate in bytes (e.g., 168 for SHAKE128)
 *              - const unsigned char *m:  pointer to input to be absorbed into s
 *              - unsigned long long mlen: length of input in bytes
 *              - unsigned char p:         domain-separation byte for different Keccak-derived functions
 **************************************************/
-void keccak_absorb(uint64_t *s,
-                          unsigned int r,
-                          const unsigned char *m, unsigned long long int mlen,
-                          unsigned char p)
+static void keccak_absorb_last(uint64_t *s,
+                               unsigned int r,
+                               const unsigned char *m, unsigned long long int mlen,
+                               unsigned char p)
 {
   unsigned long long i;
   unsigned char t[200];
 
-  // Zero state
-  for (i = 0; i < 25; ++i)
-    s[i] = 0;
-
   while (mlen >= r)
   {
     KeccakF1600_StateXORBytes(s, m, 0, r);
@@ -64,6 +60,33 @@ void keccak_absorb(uint64_t *s,
 }
 
 
+/*************************************************
+* Name:        keccak_absorb
+*
+* Description: Absorb step of Keccak;
+*              non-incremental, starts by zeroeing the state.
+*
+* Arguments:   - uint64_t *s:             pointer to (uninitialized) output Keccak state
+*              - unsigned int r:          rate in bytes (e.g., 168 for SHAKE128)
+*              - const unsigned char *m:  pointer to input to be absorbed into s
+*              - unsigned long long mlen: length of input in bytes
+*              - unsigned char p:         domain-separation byte for different Keccak-derived functions
+**************************************************/
+void keccak_absorb(uint64_t *s,
+                          unsigned int r,
+                          const unsigned char *m, unsigned long long int mlen,
+                          unsigned char p)
+{
+  unsigned int i;
+
+  // Zero state
+  for (i = 0; i < 25; ++i)
+    s[i] = 0;
+
+  keccak_absorb_last(s, r, m, mlen, p);
+}
+
+
 /*************************************************
 * Name:        keccak_squeezeblocks
 *
@@ -93,7 +116,7 @@ void keccak_squeezeblocks(unsigned char *h, unsigned long long int nblocks,
 
 void cshake128_simple_absorb(uint64_t s[25], uint16_t cstm, const unsigned char *in, unsigned long long inlen)
 {
-  unsigned char *sep = (unsigned char*)s;
+  unsigned char sep[8];
   unsigned int i;
 
   for (i = 0; i < 25; i++)
@@ -109,10 +132,11 @@ void cshake128_simple_absorb(uint64_t s[25], uint16_t cstm, const unsigned char
   sep[6] = cstm & 0xff;
   sep[7] = cstm >> 8;
 
+  KeccakF1600_StateXORBytes(s, sep, 0, 8);
   KeccakF1600_StatePermute(s);
 
   /* Absorb input */
-  keccak_absorb(s, SHAKE128_RATE, in, inlen, 0x04);
+  keccak_absorb_last(s, SHAKE128_RATE, in, inlen, 0x04);
 }
 
 
@@ -300,7 +324,7 @@ void sha3_512(unsigned char *output, const unsigned char *input,  unsigned long
 
 void cshake256_simple_absorb(uint64_t s[25], uint16_t cstm, const unsigned char *in, unsigned long long inlen)
 {
-  unsigned char *sep = (unsigned char*)s;
+  unsigned char sep[8];
   unsigned int i;
 
   for (i = 0; i < 25; i++)
@@ -316,10 +340,11 @@ void cshake256_simple_absorb(uint64_t s[25], uint16_t cstm, const unsigned char
   sep[6] = cstm & 0xff;
   sep[7] = cstm >> 8;
 
+  KeccakF1600_StateXORBytes(s, sep, 0, 8);
   KeccakF1600_StatePermute(s);
 
   /* Absorb input */
-  keccak_absorb(s, SHAKE256_RATE, in, inlen, 0x04);
+  keccak_absorb_last(s, SHAKE256_RATE, in, inlen, 0x04);
 }
 
 
-- 
2.43.0


From 27e9aebb7b2dc412504792d031d0f27b75927492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:35:50 +0000
Subject: [PATCH 10/14] fix: tail_probability counted |x| = t, dropped the
 outermost value and ignored heavier negative tails

The docstring promises the probability of being strictly greater than t in
absolute value.
---
 Scripts/Python_Scripts/select_params/proba_util.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Scripts/Python_Scripts/select_params/proba_util.py b/Scripts/Python_Scripts/select_params/proba_util.py
index 53f9cbc..1185762 100644
--- a/Scripts/Python_Scripts/select_params/proba_util.py
+++ b/Scripts/Python_Scripts/select_params/proba_util.py
@@ -7,7 +7,7 @@
 #----------------------------------------------------------------------*/ 
 
 from math import factorial as fac
-from math import log, ceil, erf, sqrt
+from math import log, floor, erf, sqrt
 
 
 def gaussian_center_weight(sigma, t):
@@ -165,10 +165,10 @@ def tail_probability(D, t):
     :param t: tail parameter (integer)
     '''
     s = 0
-    ma = max(D.keys())
+    ma = max(abs(x) for x in D)
     if t >= ma:
         return 0
-    for i in reversed(range(int(ceil(t)), ma)):  # Summing in reverse for better numerical precision (assuming tails are decreasing)
+    for i in reversed(range(int(floor(t)) + 1, ma + 1)):  # Summing in reverse for better numerical precision (assuming tails are decreasing)
         s += D.get(i, 0) + D.get(-i, 0)
     return s
 
-- 
2.43.0


From 9d5a5cdb6c29f40b04bce9d0392c0900610d18a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:46:44 +0000
Subject: [PATCH 11/14] fix: the parameter search skipped parameter sets whose
 failure probability is zero

With a zero tail the comparison used 0 instead of log2(0), so such sets counted
as failing too often and were never reported.
---
 Scripts/Python_Scripts/select_params/select_params.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Scripts/Python_Scripts/select_params/select_params.py b/Scripts/Python_Scripts/select_params/select_params.py
index 855a20c..db56361 100644
--- a/Scripts/Python_Scripts/select_params/select_params.py
+++ b/Scripts/Python_Scripts/select_params/select_params.py
@@ -59,6 +59,8 @@ def search_params(D_s, q, k, n, minsec, maxerror):
             prob = tail_probability(D, q/4.)
             if prob!=0:
     	        prob = log(256*prob,2)
+            else:
+                prob = -float('inf')
 
             # if too low, search for a bigger T
             if prob > maxerror:
-- 
2.43.0


From 36176427d0b5e00f8e3e6bca8d3e2cade90b6e12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:53:14 +0000
Subject: [PATCH 12/14] fix: striding Toom-Cook in assembly evaluates its
 operands in order and starts from a zero carry

The assembly toom_cook_4way_striding_asm swapped the second and third
coefficient of each group of four before evaluating, and cleared r8/r9
instead of the registers (r12/r14) that hold the carry of the previous
round, so its result was not the product of its operands.  The generator
is corrected in the same way and produces the corrected file.
---
 .../m4-striding/generate-multiplication.py    |  12 +-
 .../Cortex-M4/src/saber/m4-striding/tc.s      | 260 +++++++++---------
 2 files changed, 136 insertions(+), 136 deletions(-)

diff --git a/Cortex-M_Implementation_KEM/Cortex-M4/src/saber/m4-striding/generate-multiplication.py b/Cortex-M_Implementation_KEM/Cortex-M4/src/saber/m4-striding/generate-multiplication.py
index c8fdd96..ab9e0ed 100644
--- a/Cortex-M_Implementation_KEM/Cortex-M4/src/saber/m4-striding/generate-multiplication.py
+++ b/Cortex-M_Implementation_KEM/Cortex-M4/src/saber/m4-striding/generate-multiplication.py
@@ -26,8 +26,8 @@ def toomcook_256_64(pntA, pntB, pntC):
 		yield f"ldr {r1},[{pntA},#{i*16+4}]"
 		yield f"ldr {r3},[{pntA},#{i*16+12}]"
 		yield f"pkhbt {r8}, {r0}, {r2}, lsl #16"
-		yield f"pkhtb {r2}, {r2}, {r0}, asr #16"
-		yield f"pkhbt {r9}, {r1}, {r3}, lsl #16"
+		yield f"pkhtb {r9}, {r2}, {r0}, asr #16"
+		yield f"pkhbt {r2}, {r1}, {r3}, lsl #16"
 		yield f"pkhtb {r3}, {r3}, {r1}, asr #16"
 		yield f"uadd16 {r4}, {r8}, {r2}"
 		yield f"uadd16 {r5}, {r9}, {r3}"
@@ -63,8 +63,8 @@ def toomcook_256_64(pntA, pntB, pntC):
 		yield f"ldr {r1},[{pntB},#{i*16+4}]"
 		yield f"ldr {r3},[{pntB},#{i*16+12}]"
 		yield f"pkhbt {r8}, {r0}, {r2}, lsl #16"
-		yield f"pkhtb {r2}, {r2}, {r0}, asr #16"
-		yield f"pkhbt {r9}, {r1}, {r3}, lsl #16"
+		yield f"pkhtb {r9}, {r2}, {r0}, asr #16"
+		yield f"pkhbt {r2}, {r1}, {r3}, lsl #16"
 		yield f"pkhtb {r3}, {r3}, {r1}, asr #16"
 		yield f"uadd16 {r4}, {r8}, {r2}"
 		yield f"uadd16 {r5}, {r9}, {r3}"
@@ -129,8 +129,8 @@ def toomcook_256_64(pntA, pntB, pntC):
 	#yield f"add {sp}, {sp}, #{896}"
 	for i in range(32):
 		if i == 0:
-			yield f"eor r9, r9, r9"
-			yield f"eor r8, r8, r8"
+			yield f"eor {r9}, {r9}, {r9}"
+			yield f"eor {r8}, {r8}, {r8}"
 		yield f"ldr {r0},[{pntB},#{128+i*4}]"
 		yield f"ldr {r1},[{pntB},#{i*4}]"
 		yield f"ldr {r2},[{sp},#{896+i*4}]"
diff --git a/Cortex-M_Implementation_KEM/Cortex-M4/src/saber/m4-striding/tc.s b/Cortex-M_Implementation_KEM/Cortex-M4/src/saber/m4-striding/tc.s
index 5445855..03e0e7c 100644
--- a/Cortex-M_Implementation_KEM/Cortex-M4/src/saber/m4-striding/tc.s
+++ b/Cortex-M_Implementation_KEM/Cortex-M4/src/saber/m4-striding/tc.s
@@ -11,8 +11,8 @@ ldr r6, [r0, #8]
 ldr r5, [r0, #4]
 ldr r7, [r0, #12]
 pkhbt ip, r4, r6, lsl #16
-pkhtb r6, r6, r4, asr #16
-pkhbt lr, r5, r7, lsl #16
+pkhtb lr, r6, r4, asr #16
+pkhbt r6, r5, r7, lsl #16
 pkhtb r7, r7, r5, asr #16
 uadd16 r8, ip, r6
 uadd16 r9, lr, r7
@@ -45,8 +45,8 @@ ldr r6, [r0, #24]
 ldr r5, [r0, #20]
 ldr.w r7, [r0, #28]
 pkhbt ip, r4, r6, lsl #16
-pkhtb r6, r6, r4, asr #16
-pkhbt lr, r5, r7, lsl #16
+pkhtb lr, r6, r4, asr #16
+pkhbt r6, r5, r7, lsl #16
 pkhtb r7, r7, r5, asr #16
 uadd16 r8, ip, r6
 uadd16 r9, lr, r7
@@ -79,8 +79,8 @@ ldr r6, [r0, #40]
 ldr r5, [r0, #36]
 ldr.w r7, [r0, #44]
 pkhbt ip, r4, r6, lsl #16
-pkhtb r6, r6, r4, asr #16
-pkhbt lr, r5, r7, lsl #16
+pkhtb lr, r6, r4, asr #16
+pkhbt r6, r5, r7, lsl #16
 pkhtb r7, r7, r5, asr #16
 uadd16 r8, ip, r6
 uadd16 r9, lr, r7
@@ -113,8 +113,8 @@ ldr r6, [r0, #56]
 ldr r5, [r0, #52]
 ldr.w r7, [r0, #60]
 pkhbt ip, r4, r6, lsl #16
-pkhtb r6, r6, r4, asr #16
-pkhbt lr, r5, r7, lsl #16
+pkhtb lr, r6, r4, asr #16
+pkhbt r6, r5, r7, lsl #16
 pkhtb r7, r7, r5, asr #16
 uadd16 r8, ip, r6
 uadd16 r9, lr, r7
@@ -147,8 +147,8 @@ ldr r6, [r0, #72]
 ldr r5, [r0, #68]
 ldr.w r7, [r0, #76]
 pkhbt ip, r4, r6, lsl #16
-pkhtb r6, r6, r4, asr #16
-pkhbt lr, r5, r7, lsl #16
+pkhtb lr, r6, r4, asr #16
+pkhbt r6, r5, r7, lsl #16
 pkhtb r7, r7, r5, asr #16
 uadd16 r8, ip, r6
 uadd16 r9, lr, r7
@@ -181,8 +181,8 @@ ldr r6, [r0, #88]
 ldr r5, [r0, #84]
 ldr.w r7, [r0, #92]
 pkhbt ip, r4, r6, lsl #16
-pkhtb r6, r6, r4, asr #16
-pkhbt lr, r5, r7, lsl #16
+pkhtb lr, r6, r4, asr #16
+pkhbt r6, r5, r7, lsl #16
 pkhtb r7, r7, r5, asr #16
 uadd16 r8, ip, r6
 uadd16 r9, lr, r7
@@ -215,8 +215,8 @@ ldr r6, [r0, #104]
 ldr r5, [r0, #100]
 ldr.w r7, [r0, #108]
 pkhbt ip, r4, r6, lsl #16
-pkhtb r6, r6, r4, asr #16
-pkhbt lr, r5, r7, lsl #16
+pkhtb lr, r6, r4, asr #16
+pkhbt r6, r5, r7, lsl #16
 pkhtb r7, r7, r5, asr #16
 uadd16 r8, ip, r6
 uadd16 r9, lr, r7
@@ -249,8 +249,8 @@ ldr r6, [r0, #120]
 ldr r5, [r0, #116]
 ldr.w r7, [r0, #124]
 pkhbt ip, r4, r6, lsl #16
-pkhtb r6, r6, r4, asr #16
-pkhbt lr, r5, r7, lsl #16
+pkhtb lr, r6, r4, asr #16
+pkhbt r6, r5, r7, lsl #16
 pkhtb r7, r7, r5, asr #16
 uadd16 r8, ip, r6
 uadd16 r9, lr, r7
@@ -283,8 +283,8 @@ ldr.w r6, [r0, #136]
 ldr.w r5, [r0, #132]
 ldr.w r7, [r0, #140]
 pkhbt ip, r4, r6, lsl #16
-pkhtb r6, r6, r4, asr #16
-pkhbt lr, r5, r7, lsl #16
+pkhtb lr, r6, r4, asr #16
+pkhbt r6, r5, r7, lsl #16
 pkhtb r7, r7, r5, asr #16
 uadd16 r8, ip, r6
 uadd16 r9, lr, r7
@@ -317,8 +317,8 @@ ldr.w r6, [r0, #152]
 ldr.w r5, [r0, #148]
 ldr.w r7, [r0, #156]
 pkhbt ip, r4, r6, lsl #16
-pkhtb r6, r6, r4, asr #16
-pkhbt lr, r5, r7, lsl #16
+pkhtb lr, r6, r4, asr #16
+pkhbt r6, r5, r7, lsl #16
 pkhtb r7, r7, r5, asr #16
 uadd16 r8, ip, r6
 uadd16 r9, lr, r7
@@ -351,8 +351,8 @@ ldr.w r6, [r0, #168]
 ldr.w r5, [r0, #164]
 ldr.w r7, [r0, #172]
 pkhbt ip, r4, r6, lsl #16
-pkhtb r6, r6, r4, asr #16
-pkhbt lr, r5, r7, lsl #16
+pkhtb lr, r6, r4, asr #16
+pkhbt r6, r5, r7, lsl #16
 pkhtb r7, r7, r5, asr #16
 uadd16 r8, ip, r6
 uadd16 r9, lr, r7
@@ -385,8 +385,8 @@ ldr.w r6, [r0, #184]
 ldr.w r5, [r0, #180]
 ldr.w r7, [r0, #188]
 pkhbt ip, r4, r6, lsl #16
-pkhtb r6, r6, r4, asr #16
-pkhbt lr, r5, r7, lsl #16
+pkhtb lr, r6, r4, asr #16
+pkhbt r6, r5, r7, lsl #16
 pkhtb r7, r7, r5, asr #16
 uadd16 r8, ip, r6
 uadd16 r9, lr, r7
@@ -419,8 +419,8 @@ ldr.w r6, [r0, #200]
 ldr.w r5, [r0, #196]
 ldr.w r7, [r0, #204]
 pkhbt ip, r4, r6, lsl #16
-pkhtb r6, r6, r4, asr #16
-pkhbt lr, r5, r7, lsl #16
+pkhtb lr, r6, r4, asr #16
+pkhbt r6, r5, r7, lsl #16
 pkhtb r7, r7, r5, asr #16
 uadd16 r8, ip, r6
 uadd16 r9, lr, r7
@@ -453,8 +453,8 @@ ldr.w r6, [r0, #216]
 ldr.w r5, [r0, #212]
 ldr.w r7, [r0, #220]
 pkhbt ip, r4, r6, lsl #16
-pkhtb r6, r6, r4, asr #16
-pkhbt lr, r5, r7, lsl #16
+pkhtb lr, r6, r4, asr #16
+pkhbt r6, r5, r7, lsl #16
 pkhtb r7, r7, r5, asr #16
 uadd16 r8, ip, r6
 uadd16 r9, lr, r7
@@ -487,8 +487,8 @@ ldr.w r6, [r0, #232]
 ldr.w r5, [r0, #228]
 ldr.w r7, [r0, #236]
 pkhbt ip, r4, r6, lsl #16
-pkhtb r6, r6, r4, asr #16
-pkhbt lr, r5, r7, lsl #16
+pkhtb lr, r6, r4, asr #16
+pkhbt r6, r5, r7, lsl #16
 pkhtb r7, r7, r5, asr #16
 uadd16 r8, ip, r6
 uadd16 r9, lr, r7
@@ -521,8 +521,8 @@ ldr.w r6, [r0, #248]
 ldr.w r5, [r0, #244]
 ldr.w r7, [r0, #252]
 pkhbt ip, r4, r6, lsl #16
-pkhtb r6, r6, r4, asr #16
-pkhbt lr, r5, r7, lsl #16
+pkhtb lr, r6, r4, asr #16
+pkhbt r6, r5, r7, lsl #16
 pkhtb r7, r7, r5, asr #16
 uadd16 r8, ip, r6
 uadd16 r9, lr, r7
@@ -555,8 +555,8 @@ ldr.w r6, [r0, #264]
 ldr.w r5, [r0, #260]
 ldr.w r7, [r0, #268]
 pkhbt ip, r4, r6, lsl #16
-pkhtb r6, r6, r4, asr #16
-pkhbt lr, r5, r7, lsl #16
+pkhtb lr, r6, r4, asr #16
+pkhbt r6, r5, r7, lsl #16
 pkhtb r7, r7, r5, asr #16
 uadd16 r8, ip, r6
 uadd16 r9, lr, r7
@@ -589,8 +589,8 @@ ldr.w r6, [r0, #280]
 ldr.w r5, [r0, #276]
 ldr.w r7, [r0, #284]
 pkhbt ip, r4, r6, lsl #16
-pkhtb r6, r6, r4, asr #16
-pkhbt lr, r5, r7, lsl #16
+pkhtb lr, r6, r4, asr #16
+pkhbt r6, r5, r7, lsl #16
 pkhtb r7, r7, r5, asr #16
 uadd16 r8, ip, r6
 uadd16 r9, lr, r7
@@ -623,8 +623,8 @@ ldr.w r6, [r0, #296]
 ldr.w r5, [r0, #292]
 ldr.w r7, [r0, #300]
 pkhbt ip, r4, r6, lsl #16
-pkhtb r6, r6, r4, asr #16
-pkhbt lr, r5, r7, lsl #16
+pkhtb lr, r6, r4, asr #16
+pkhbt r6, r5, r7, lsl #16
 pkhtb r7, r7, r5, asr #16
 uadd16 r8, ip, r6
 uadd16 r9, lr, r7
@@ -657,8 +657,8 @@ ldr.w r6, [r0, #312]
 ldr.w r5, [r0, #308]
 ldr.w r7, [r0, #316]
 pkhbt ip, r4, r6, lsl #16
-pkhtb r6, r6, r4, asr #16
-pkhbt lr, r5, r7, lsl #16
+pkhtb lr, r6, r4, asr #16
+pkhbt r6, r5, r7, lsl #16
 pkhtb r7, r7, r5, asr #16
 uadd16 r8, ip, r6
 uadd16 r9, lr, r7
@@ -691,8 +691,8 @@ ldr.w r6, [r0, #328]
 ldr.w r5, [r0, #324]
 ldr.w r7, [r0, #332]
 pkhbt ip, r4, r6, lsl #16
-pkhtb r6, r6, r4, asr #16
-pkhbt lr, r5, r7, lsl #16
+pkhtb lr, r6, r4, asr #16
+pkhbt r6, r5, r7, lsl #16
 pkhtb r7, r7, r5, asr #16
 uadd16 r8, ip, r6
 uadd16 r9, lr, r7
@@ -725,8 +725,8 @@ ldr.w r6, [r0, #344]
 ldr.w r5, [r0, #340]
 ldr.w r7, [r0, #348]
 pkhbt ip, r4, r6, lsl #16
-pkhtb r6, r6, r4, asr #16
-pkhbt lr, r5, r7, lsl #16
+pkhtb lr, r6, r4, asr #16
+pkhbt r6, r5, r7, lsl #16
 pkhtb r7, r7, r5, asr #16
 uadd16 r8, ip, r6
 uadd16 r9, lr, r7
@@ -759,8 +759,8 @@ ldr.w r6, [r0, #360]
 ldr.w r5, [r0, #356]
 ldr.w r7, [r0, #364]
 pkhbt ip, r4, r6, lsl #16
-pkhtb r6, r6, r4, asr #16
-pkhbt lr, r5, r7, lsl #16
+pkhtb lr, r6, r4, asr #16
+pkhbt r6, r5, r7, lsl #16
 pkhtb r7, r7, r5, asr #16
 uadd16 r8, ip, r6
 uadd16 r9, lr, r7
@@ -793,8 +793,8 @@ ldr.w r6, [r0, #376]
 ldr.w r5, [r0, #372]
 ldr.w r7, [r0, #380]
 pkhbt ip, r4, r6, lsl #16
-pkhtb r6, r6, r4, asr #16
-pkhbt lr, r5, r7, lsl #16
+pkhtb lr, r6, r4, asr #16
+pkhbt r6, r5, r7, lsl #16
 pkhtb r7, r7, r5, asr #16
 uadd16 r8, ip, r6
 uadd16 r9, lr, r7
@@ -827,8 +827,8 @@ ldr.w r6, [r0, #392]
 ldr.w r5, [r0, #388]
 ldr.w r7, [r0, #396]
 pkhbt ip, r4, r6, lsl #16
-pkhtb r6, r6, r4, asr #16
-pkhbt lr, r5, r7, lsl #16
+pkhtb lr, r6, r4, asr #16
+pkhbt r6, r5, r7, lsl #16
 pkhtb r7, r7, r5, asr #16
 uadd16 r8, ip, r6
 uadd16 r9, lr, r7
@@ -861,8 +861,8 @@ ldr.w r6, [r0, #408]
 ldr.w r5, [r0, #404]
 ldr.w r7, [r0, #412]
 pkhbt ip, r4, r6, lsl #16
-pkhtb r6, r6, r4, asr #16
-pkhbt lr, r5, r7, lsl #16
+pkhtb lr, r6, r4, asr #16
+pkhbt r6, r5, r7, lsl #16
 pkhtb r7, r7, r5, asr #16
 uadd16 r8, ip, r6
 uadd16 r9, lr, r7
@@ -895,8 +895,8 @@ ldr.w r6, [r0, #424]
 ldr.w r5, [r0, #420]
 ldr.w r7, [r0, #428]
 pkhbt ip, r4, r6, lsl #16
-pkhtb r6, r6, r4, asr #16
-pkhbt lr, r5, r7, lsl #16
+pkhtb lr, r6, r4, asr #16
+pkhbt r6, r5, r7, lsl #16
 pkhtb r7, r7, r5, asr #16
 uadd16 r8, ip, r6
 uadd16 r9, lr, r7
@@ -929,8 +929,8 @@ ldr.w r6, [r0, #440]
 ldr.w r5, [r0, #436]
 ldr.w r7, [r0, #444]
 pkhbt ip, r4, r6, lsl #16
-pkhtb r6, r6, r4, asr #16
-pkhbt lr, r5, r7, lsl #16
+pkhtb lr, r6, r4, asr #16
+pkhbt r6, r5, r7, lsl #16
 pkhtb r7, r7, r5, asr #16
 uadd16 r8, ip, r6
 uadd16 r9, lr, r7
@@ -963,8 +963,8 @@ ldr.w r6, [r0, #456]
 ldr.w r5, [r0, #452]
 ldr.w r7, [r0, #460]
 pkhbt ip, r4, r6, lsl #16
-pkhtb r6, r6, r4, asr #16
-pkhbt lr, r5, r7, lsl #16
+pkhtb lr, r6, r4, asr #16
+pkhbt r6, r5, r7, lsl #16
 pkhtb r7, r7, r5, asr #16
 uadd16 r8, ip, r6
 uadd16 r9, lr, r7
@@ -997,8 +997,8 @@ ldr.w r6, [r0, #472]
 ldr.w r5, [r0, #468]
 ldr.w r7, [r0, #476]
 pkhbt ip, r4, r6, lsl #16
-pkhtb r6, r6, r4, asr #16
-pkhbt lr, r5, r7, lsl #16
+pkhtb lr, r6, r4, asr #16
+pkhbt r6, r5, r7, lsl #16
 pkhtb r7, r7, r5, asr #16
 uadd16 r8, ip, r6
 uadd16 r9, lr, r7
@@ -1031,8 +1031,8 @@ ldr.w r6, [r0, #488]
 ldr.w r5, [r0, #484]
 ldr.w r7, [r0, #492]
 pkhbt ip, r4, r6, lsl #16
-pkhtb r6, r6, r4, asr #16
-pkhbt lr, r5, r7, lsl #16
+pkhtb lr, r6, r4, asr #16
+pkhbt r6, r5, r7, lsl #16
 pkhtb r7, r7, r5, asr #16
 uadd16 r8, ip, r6
 uadd16 r9, lr, r7
@@ -1065,8 +1065,8 @@ ldr.w r6, [r0, #504]
 ldr.w r5, [r0, #500]
 ldr.w r7, [r0, #508]
 pkhbt ip, r4, r6, lsl #16
-pkhtb r6, r6, r4, asr #16
-pkhbt lr, r5, r7, lsl #16
+pkhtb lr, r6, r4, asr #16
+pkhbt r6, r5, r7, lsl #16
 pkhtb r7, r7, r5, asr #16
 uadd16 r8, ip, r6
 uadd16 r9, lr, r7
@@ -1099,8 +1099,8 @@ ldr r6, [r1, #8]
 ldr r5, [r1, #4]
 ldr.w r7, [r1, #12]
 pkhbt ip, r4, r6, lsl #16
-pkhtb r6, r6, r4, asr #16
-pkhbt lr, r5, r7, lsl #16
+pkhtb lr, r6, r4, asr #16
+pkhbt r6, r5, r7, lsl #16
 pkhtb r7, r7, r5, asr #16
 uadd16 r8, ip, r6
 uadd16 r9, lr, r7
@@ -1133,8 +1133,8 @@ ldr r6, [r1, #24]
 ldr r5, [r1, #20]
 ldr.w r7, [r1, #28]
 pkhbt ip, r4, r6, lsl #16
-pkhtb r6, r6, r4, asr #16
-pkhbt lr, r5, r7, lsl #16
+pkhtb lr, r6, r4, asr #16
+pkhbt r6, r5, r7, lsl #16
 pkhtb r7, r7, r5, asr #16
 uadd16 r8, ip, r6
 uadd16 r9, lr, r7
@@ -1167,8 +1167,8 @@ ldr r6, [r1, #40]
 ldr r5, [r1, #36]
 ldr.w r7, [r1, #44]
 pkhbt ip, r4, r6, lsl #16
-pkhtb r6, r6, r4, asr #16
-pkhbt lr, r5, r7, lsl #16
+pkhtb lr, r6, r4, asr #16
+pkhbt r6, r5, r7, lsl #16
 pkhtb r7, r7, r5, asr #16
 uadd16 r8, ip, r6
 uadd16 r9, lr, r7
@@ -1201,8 +1201,8 @@ ldr r6, [r1, #56]
 ldr r5, [r1, #52]
 ldr.w r7, [r1, #60]
 pkhbt ip, r4, r6, lsl #16
-pkhtb r6, r6, r4, asr #16
-pkhbt lr, r5, r7, lsl #16
+pkhtb lr, r6, r4, asr #16
+pkhbt r6, r5, r7, lsl #16
 pkhtb r7, r7, r5, asr #16
 uadd16 r8, ip, r6
 uadd16 r9, lr, r7
@@ -1235,8 +1235,8 @@ ldr r6, [r1, #72]
 ldr r5, [r1, #68]
 ldr.w r7, [r1, #76]
 pkhbt ip, r4, r6, lsl #16
-pkhtb r6, r6, r4, asr #16
-pkhbt lr, r5, r7, lsl #16
+pkhtb lr, r6, r4, asr #16
+pkhbt r6, r5, r7, lsl #16
 pkhtb r7, r7, r5, asr #16
 uadd16 r8, ip, r6
 uadd16 r9, lr, r7
@@ -1269,8 +1269,8 @@ ldr r6, [r1, #88]
 ldr r5, [r1, #84]
 ldr.w r7, [r1, #92]
 pkhbt ip, r4, r6, lsl #16
-pkhtb r6, r6, r4, asr #16
-pkhbt lr, r5, r7, lsl #16
+pkhtb lr, r6, r4, asr #16
+pkhbt r6, r5, r7, lsl #16
 pkhtb r7, r7, r5, asr #16
 uadd16 r8, ip, r6
 uadd16 r9, lr, r7
@@ -1303,8 +1303,8 @@ ldr r6, [r1, #104]
 ldr r5, [r1, #100]
 ldr.w r7, [r1, #108]
 pkhbt ip, r4, r6, lsl #16
-pkhtb r6, r6, r4, asr #16
-pkhbt lr, r5, r7, lsl #16
+pkhtb lr, r6, r4, asr #16
+pkhbt r6, r5, r7, lsl #16
 pkhtb r7, r7, r5, asr #16
 uadd16 r8, ip, r6
 uadd16 r9, lr, r7
@@ -1337,8 +1337,8 @@ ldr r6, [r1, #120]
 ldr r5, [r1, #116]
 ldr.w r7, [r1, #124]
 pkhbt ip, r4, r6, lsl #16
-pkhtb r6, r6, r4, asr #16
-pkhbt lr, r5, r7, lsl #16
+pkhtb lr, r6, r4, asr #16
+pkhbt r6, r5, r7, lsl #16
 pkhtb r7, r7, r5, asr #16
 uadd16 r8, ip, r6
 uadd16 r9, lr, r7
@@ -1371,8 +1371,8 @@ ldr.w r6, [r1, #136]
 ldr.w r5, [r1, #132]
 ldr.w r7, [r1, #140]
 pkhbt ip, r4, r6, lsl #16
-pkhtb r6, r6, r4, asr #16
-pkhbt lr, r5, r7, lsl #16
+pkhtb lr, r6, r4, asr #16
+pkhbt r6, r5, r7, lsl #16
 pkhtb r7, r7, r5, asr #16
 uadd16 r8, ip, r6
 uadd16 r9, lr, r7
@@ -1405,8 +1405,8 @@ ldr.w r6, [r1, #152]
 ldr.w r5, [r1, #148]
 ldr.w r7, [r1, #156]
 pkhbt ip, r4, r6, lsl #16
-pkhtb r6, r6, r4, asr #16
-pkhbt lr, r5, r7, lsl #16
+pkhtb lr, r6, r4, asr #16
+pkhbt r6, r5, r7, lsl #16
 pkhtb r7, r7, r5, asr #16
 uadd16 r8, ip, r6
 uadd16 r9, lr, r7
@@ -1439,8 +1439,8 @@ ldr.w r6, [r1, #168]
 ldr.w r5, [r1, #164]
 ldr.w r7, [r1, #172]
 pkhbt ip, r4, r6, lsl #16
-pkhtb r6, r6, r4, asr #16
-pkhbt lr, r5, r7, lsl #16
+pkhtb lr, r6, r4, asr #16
+pkhbt r6, r5, r7, lsl #16
 pkhtb r7, r7, r5, asr #16
 uadd16 r8, ip, r6
 uadd16 r9, lr, r7
@@ -1473,8 +1473,8 @@ ldr.w r6, [r1, #184]
 ldr.w r5, [r1, #180]
 ldr.w r7, [r1, #188]
 pkhbt ip, r4, r6, lsl #16
-pkhtb r6, r6, r4, asr #16
-pkhbt lr, r5, r7, lsl #16
+pkhtb lr, r6, r4, asr #16
+pkhbt r6, r5, r7, lsl #16
 pkhtb r7, r7, r5, asr #16
 uadd16 r8, ip, r6
 uadd16 r9, lr, r7
@@ -1507,8 +1507,8 @@ ldr.w r6, [r1, #200]
 ldr.w r5, [r1, #196]
 ldr.w r7, [r1, #204]
 pkhbt ip, r4, r6, lsl #16
-pkhtb r6, r6, r4, asr #16
-pkhbt lr, r5, r7, lsl #16
+pkhtb lr, r6, r4, asr #16
+pkhbt r6, r5, r7, lsl #16
 pkhtb r7, r7, r5, asr #16
 uadd16 r8, ip, r6
 uadd16 r9, lr, r7
@@ -1541,8 +1541,8 @@ ldr.w r6, [r1, #216]
 ldr.w r5, [r1, #212]
 ldr.w r7, [r1, #220]
 pkhbt ip, r4, r6, lsl #16
-pkhtb r6, r6, r4, asr #16
-pkhbt lr, r5, r7, lsl #16
+pkhtb lr, r6, r4, asr #16
+pkhbt r6, r5, r7, lsl #16
 pkhtb r7, r7, r5, asr #16
 uadd16 r8, ip, r6
 uadd16 r9, lr, r7
@@ -1575,8 +1575,8 @@ ldr.w r6, [r1, #232]
 ldr.w r5, [r1, #228]
 ldr.w r7, [r1, #236]
 pkhbt ip, r4, r6, lsl #16
-pkhtb r6, r6, r4, asr #16
-pkhbt lr, r5, r7, lsl #16
+pkhtb lr, r6, r4, asr #16
+pkhbt r6, r5, r7, lsl #16
 pkhtb r7, r7, r5, asr #16
 uadd16 r8, ip, r6
 uadd16 r9, lr, r7
@@ -1609,8 +1609,8 @@ ldr.w r6, [r1, #248]
 ldr.w r5, [r1, #244]
 ldr.w r7, [r1, #252]
 pkhbt ip, r4, r6, lsl #16
-pkhtb r6, r6, r4, asr #16
-pkhbt lr, r5, r7, lsl #16
+pkhtb lr, r6, r4, asr #16
+pkhbt r6, r5, r7, lsl #16
 pkhtb r7, r7, r5, asr #16
 uadd16 r8, ip, r6
 uadd16 r9, lr, r7
@@ -1643,8 +1643,8 @@ ldr.w r6, [r1, #264]
 ldr.w r5, [r1, #260]
 ldr.w r7, [r1, #268]
 pkhbt ip, r4, r6, lsl #16
-pkhtb r6, r6, r4, asr #16
-pkhbt lr, r5, r7, lsl #16
+pkhtb lr, r6, r4, asr #16
+pkhbt r6, r5, r7, lsl #16
 pkhtb r7, r7, r5, asr #16
 uadd16 r8, ip, r6
 uadd16 r9, lr, r7
@@ -1677,8 +1677,8 @@ ldr.w r6, [r1, #280]
 ldr.w r5, [r1, #276]
 ldr.w r7, [r1, #284]
 pkhbt ip, r4, r6, lsl #16
-pkhtb r6, r6, r4, asr #16
-pkhbt lr, r5, r7, lsl #16
+pkhtb lr, r6, r4, asr #16
+pkhbt r6, r5, r7, lsl #16
 pkhtb r7, r7, r5, asr #16
 uadd16 r8, ip, r6
 uadd16 r9, lr, r7
@@ -1711,8 +1711,8 @@ ldr.w r6, [r1, #296]
 ldr.w r5, [r1, #292]
 ldr.w r7, [r1, #300]
 pkhbt ip, r4, r6, lsl #16
-pkhtb r6, r6, r4, asr #16
-pkhbt lr, r5, r7, lsl #16
+pkhtb lr, r6, r4, asr #16
+pkhbt r6, r5, r7, lsl #16
 pkhtb r7, r7, r5, asr #16
 uadd16 r8, ip, r6
 uadd16 r9, lr, r7
@@ -1745,8 +1745,8 @@ ldr.w r6, [r1, #312]
 ldr.w r5, [r1, #308]
 ldr.w r7, [r1, #316]
 pkhbt ip, r4, r6, lsl #16
-pkhtb r6, r6, r4, asr #16
-pkhbt lr, r5, r7, lsl #16
+pkhtb lr, r6, r4, asr #16
+pkhbt r6, r5, r7, lsl #16
 pkhtb r7, r7, r5, asr #16
 uadd16 r8, ip, r6
 uadd16 r9, lr, r7
@@ -1779,8 +1779,8 @@ ldr.w r6, [r1, #328]
 ldr.w r5, [r1, #324]
 ldr.w r7, [r1, #332]
 pkhbt ip, r4, r6, lsl #16
-pkhtb r6, r6, r4, asr #16
-pkhbt lr, r5, r7, lsl #16
+pkhtb lr, r6, r4, asr #16
+pkhbt r6, r5, r7, lsl #16
 pkhtb r7, r7, r5, asr #16
 uadd16 r8, ip, r6
 uadd16 r9, lr, r7
@@ -1813,8 +1813,8 @@ ldr.w r6, [r1, #344]
 ldr.w r5, [r1, #340]
 ldr.w r7, [r1, #348]
 pkhbt ip, r4, r6, lsl #16
-pkhtb r6, r6, r4, asr #16
-pkhbt lr, r5, r7, lsl #16
+pkhtb lr, r6, r4, asr #16
+pkhbt r6, r5, r7, lsl #16
 pkhtb r7, r7, r5, asr #16
 uadd16 r8, ip, r6
 uadd16 r9, lr, r7
@@ -1847,8 +1847,8 @@ ldr.w r6, [r1, #360]
 ldr.w r5, [r1, #356]
 ldr.w r7, [r1, #364]
 pkhbt ip, r4, r6, lsl #16
-pkhtb r6, r6, r4, asr #16
-pkhbt lr, r5, r7, lsl #16
+pkhtb lr, r6, r4, asr #16
+pkhbt r6, r5, r7, lsl #16
 pkhtb r7, r7, r5, asr #16
 uadd16 r8, ip, r6
 uadd16 r9, lr, r7
@@ -1881,8 +1881,8 @@ ldr.w r6, [r1, #376]
 ldr.w r5, [r1, #372]
 ldr.w r7, [r1, #380]
 pkhbt ip, r4, r6, lsl #16
-pkhtb r6, r6, r4, asr #16
-pkhbt lr, r5, r7, lsl #16
+pkhtb lr, r6, r4, asr #16
+pkhbt r6, r5, r7, lsl #16
 pkhtb r7, r7, r5, asr #16
 uadd16 r8, ip, r6
 uadd16 r9, lr, r7
@@ -1915,8 +1915,8 @@ ldr.w r6, [r1, #392]
 ldr.w r5, [r1, #388]
 ldr.w r7, [r1, #396]
 pkhbt ip, r4, r6, lsl #16
-pkhtb r6, r6, r4, asr #16
-pkhbt lr, r5, r7, lsl #16
+pkhtb lr, r6, r4, asr #16
+pkhbt r6, r5, r7, lsl #16
 pkhtb r7, r7, r5, asr #16
 uadd16 r8, ip, r6
 uadd16 r9, lr, r7
@@ -1949,8 +1949,8 @@ ldr.w r6, [r1, #408]
 ldr.w r5, [r1, #404]
 ldr.w r7, [r1, #412]
 pkhbt ip, r4, r6, lsl #16
-pkhtb r6, r6, r4, asr #16
-pkhbt lr, r5, r7, lsl #16
+pkhtb lr, r6, r4, asr #16
+pkhbt r6, r5, r7, lsl #16
 pkhtb r7, r7, r5, asr #16
 uadd16 r8, ip, r6
 uadd16 r9, lr, r7
@@ -1983,8 +1983,8 @@ ldr.w r6, [r1, #424]
 ldr.w r5, [r1, #420]
 ldr.w r7, [r1, #428]
 pkhbt ip, r4, r6, lsl #16
-pkhtb r6, r6, r4, asr #16
-pkhbt lr, r5, r7, lsl #16
+pkhtb lr, r6, r4, asr #16
+pkhbt r6, r5, r7, lsl #16
 pkhtb r7, r7, r5, asr #16
 uadd16 r8, ip, r6
 uadd16 r9, lr, r7
@@ -2017,8 +2017,8 @@ ldr.w r6, [r1, #440]
 ldr.w r5, [r1, #436]
 ldr.w r7, [r1, #444]
 pkhbt ip, r4, r6, lsl #16
-pkhtb r6, r6, r4, asr #16
-pkhbt lr, r5, r7, lsl #16
+pkhtb lr, r6, r4, asr #16
+pkhbt r6, r5, r7, lsl #16
 pkhtb r7, r7, r5, asr #16
 uadd16 r8, ip, r6
 uadd16 r9, lr, r7
@@ -2051,8 +2051,8 @@ ldr.w r6, [r1, #456]
 ldr.w r5, [r1, #452]
 ldr.w r7, [r1, #460]
 pkhbt ip, r4, r6, lsl #16
-pkhtb r6, r6, r4, asr #16
-pkhbt lr, r5, r7, lsl #16
+pkhtb lr, r6, r4, asr #16
+pkhbt r6, r5, r7, lsl #16
 pkhtb r7, r7, r5, asr #16
 uadd16 r8, ip, r6
 uadd16 r9, lr, r7
@@ -2085,8 +2085,8 @@ ldr.w r6, [r1, #472]
 ldr.w r5, [r1, #468]
 ldr.w r7, [r1, #476]
 pkhbt ip, r4, r6, lsl #16
-pkhtb r6, r6, r4, asr #16
-pkhbt lr, r5, r7, lsl #16
+pkhtb lr, r6, r4, asr #16
+pkhbt r6, r5, r7, lsl #16
 pkhtb r7, r7, r5, asr #16
 uadd16 r8, ip, r6
 uadd16 r9, lr, r7
@@ -2119,8 +2119,8 @@ ldr.w r6, [r1, #488]
 ldr.w r5, [r1, #484]
 ldr.w r7, [r1, #492]
 pkhbt ip, r4, r6, lsl #16
-pkhtb r6, r6, r4, asr #16
-pkhbt lr, r5, r7, lsl #16
+pkhtb lr, r6, r4, asr #16
+pkhbt r6, r5, r7, lsl #16
 pkhtb r7, r7, r5, asr #16
 uadd16 r8, ip, r6
 uadd16 r9, lr, r7
@@ -2153,8 +2153,8 @@ ldr.w r6, [r1, #504]
 ldr.w r5, [r1, #500]
 ldr.w r7, [r1, #508]
 pkhbt ip, r4, r6, lsl #16
-pkhtb r6, r6, r4, asr #16
-pkhbt lr, r5, r7, lsl #16
+pkhtb lr, r6, r4, asr #16
+pkhbt r6, r5, r7, lsl #16
 pkhtb r7, r7, r5, asr #16
 uadd16 r8, ip, r6
 uadd16 r9, lr, r7
@@ -2213,8 +2213,8 @@ add.w r1, r1, #128
 add.w r0, r0, #128
 bl kara_strd_mem_asm
 ldmia.w sp!, {r0, r1, r2}
-eor.w r9, r9, r9
-eor.w r8, r8, r8
+eor.w lr, lr, lr
+eor.w ip, ip, ip
 ldr.w r4, [r1, #128]
 ldr r5, [r1, #0]
 ldr r6, [sp, #896]
-- 
2.43.0


From 29541236eb8eed7c51df6acf4e48f94ea2dbe3e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:53:14 +0000
Subject: [PATCH 13/14] fix: generated 32-coefficient schoolbook and Karatsuba
 multiply correctly

generate-multiplication.py 32 stored the second product on top of the
first one, and let the last product of a tile carry into the coefficient
above it.
---
 .../Cortex-M4/src/saber/m4-striding/generate-multiplication.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Cortex-M_Implementation_KEM/Cortex-M4/src/saber/m4-striding/generate-multiplication.py b/Cortex-M_Implementation_KEM/Cortex-M4/src/saber/m4-striding/generate-multiplication.py
index ab9e0ed..88b3192 100644
--- a/Cortex-M_Implementation_KEM/Cortex-M4/src/saber/m4-striding/generate-multiplication.py
+++ b/Cortex-M_Implementation_KEM/Cortex-M4/src/saber/m4-striding/generate-multiplication.py
@@ -485,6 +485,7 @@ def schoolbook_from_next_8x8(SRC1, SRC2, DEST, n):
 			# c14
 			if ((index+28) % (2*n) in is_initialized) and ((index+28) % (2*n) == (index+28)):
 				yield f"smlatt {tmp0},{a3},{b3},{c}"
+				yield f"pkhbt {tmp0}, {tmp0}, {c}"
 				yield f"str {tmp0}, [{DEST}, #{(index+28) % (2*n)}]"
 			else:
 				yield f"smultt {tmp0},{a3},{b3}"
@@ -1110,7 +1111,7 @@ def karatsuba_64_32(pntA, pntB, pntC, pntX):
 	yield f"bl schoolbook_gen"
 	#yield f"pop {{r0-r12, r14}}"
 	yield f"ldr {pntB}, [sp, #8]"
-	yield f"add {pntA}, {pntA}, #{32}"
+	yield f"add {pntA}, {pntA}, #{64}"
 	#yield f"push {{r0-r12, r14}}"
 	yield f"bl schoolbook_gen"
 	#yield f"pop {{r0-r12, r14}}"
-- 
2.43.0


From 091e70edd7bf3d9206b4bb32460f3a23fa6938db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:34 +0000
Subject: [PATCH 14/14] fix: the Cortex-M0 memory measuring program overwrote
 its own stack frame

WRITE_CANARY started at a variable of main with spilled registers below
it, so that with optimisation the program lost its pointers (and crashed)
after writing the first canaries.  Start below main's frame instead.
---
 .../Cortex-M0/saber-ref-mem/src/main.c        | 21 +++++++++++--------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/Cortex-M_Implementation_KEM/Cortex-M0/saber-ref-mem/src/main.c b/Cortex-M_Implementation_KEM/Cortex-M0/saber-ref-mem/src/main.c
index f4ae16d..8e12582 100644
--- a/Cortex-M_Implementation_KEM/Cortex-M0/saber-ref-mem/src/main.c
+++ b/Cortex-M_Implementation_KEM/Cortex-M0/saber-ref-mem/src/main.c
@@ -135,37 +135,40 @@ int main(void)
 	rng_enable();
 
 
-	volatile unsigned char a; /* Mark the beginning of the stack */
+	/* Mark the beginning of the stack: below everything main itself keeps there */
+	volatile unsigned char *a;
+	__asm__ volatile ("mov %0, sp" : "=r" (a));
+	a--;
 	//int i;
 	//poly sk;
 	canary = 42;
 
-	WRITE_CANARY(&a);
+	WRITE_CANARY(a);
 	crypto_kem_keypair(pk, sk_a);
-	ctr = MAXSTACK - stack_count(canary,&a);
+	ctr = MAXSTACK - stack_count(canary,a);
 	// sprintf((char *)output, "RAM usage of keygen: %d",ctr);
 	//   send_USART_str(output);
 	UART_SendTrace("RAM keygen", 10, ctr);
 
-	WRITE_CANARY(&a);
+	WRITE_CANARY(a);
 	crypto_kem_enc(sendb, key_b, pk);
-	ctr = MAXSTACK - stack_count(canary,&a);
+	ctr = MAXSTACK - stack_count(canary,a);
 	// sprintf((char *)output, "RAM usage of sharedb: %d",ctr);
 	//   send_USART_str(output);
 	UART_SendTrace("RAM encaps", 10, ctr);
 
-	WRITE_CANARY(&a);   
+	WRITE_CANARY(a);   
 	crypto_kem_dec(key_a, sendb, sk_a);
-	ctr = MAXSTACK - stack_count(canary,&a);
+	ctr = MAXSTACK - stack_count(canary,a);
 	// sprintf((char *)output, "RAM usage of shareda: %d",ctr);
 	//   send_USART_str(output);
 	UART_SendTrace("RAM decaps", 10, ctr);
 
-	WRITE_CANARY(&a);
+	WRITE_CANARY(a);
 	crypto_kem_keypair(pk, sk_a);
 	crypto_kem_enc(sendb, key_b, pk);
 	crypto_kem_dec(key_a, sendb, sk_a);
-	ctr = MAXSTACK - stack_count(canary,&a);
+	ctr = MAXSTACK - stack_count(canary,a);
 	// sprintf((char *)output, "RAM usage of KEM: %d",ctr);
 	//   send_USART_str(output);
 	UART_SendTrace("RAM total", 9, ctr);
-- 
2.43.0

