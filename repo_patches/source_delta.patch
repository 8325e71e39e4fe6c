From 777f5c6b241c3b7b56d7dc9a42db0f2d41bcfaa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:20:13 +0000
Subject: [PATCH 01/27] fix: lc3_ldexpf() wraps the exponent of small numbers

The addition on the exponent field wrapped around when the result is
too small to be represented: after some seconds of packet loss, the
fading samples turned into full scale noise on the float PCM output.
---
 src/fastmath.h | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/src/fastmath.h b/src/fastmath.h
index 86cbdfa..76b4c7b 100644
--- a/src/fastmath.h
+++ b/src/fastmath.h
@@ -38,17 +38,15 @@
 
 /**
  * Fast multiply floating-point number by integral power of 2
- * x               Operand, finite number
- * exp             Exponent such that 2^x is finite
- * return          2^exp
+ * x               Operand
+ * exp             Exponent, in range -126 to 127
+ * return          x * 2^exp
  */
-static inline float lc3_ldexpf(float _x, int exp) {
-    union { float f; int32_t s; } x = { .f = _x };
-
-    if (x.s & LC3_IEEE754_EXP_MASK)
-        x.s += exp << LC3_IEEE754_EXP_SHL;
+static inline float lc3_ldexpf(float x, int exp) {
+    union { float f; uint32_t u; } e = {
+        .u = (uint32_t)(exp + LC3_IEEE754_EXP_BIAS) << LC3_IEEE754_EXP_SHL };
 
-    return x.f;
+    return x * e.f;
 }
 
 /**
-- 
2.43.0


From b09ab0477d3feb93ebce49d41cfa4afc8306b6ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:20:14 +0000
Subject: [PATCH 02/27] fix: signed overflow in lc3_exp2f()

The exponent was added by a signed shift that overflows.
---
 src/fastmath.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fastmath.h b/src/fastmath.h
index 76b4c7b..7beaf35 100644
--- a/src/fastmath.h
+++ b/src/fastmath.h
@@ -102,7 +102,7 @@ static inline float lc3_exp2f(float x)
      * Perform polynomial approximation in range -0.5/8 to 0.5/8,
      * and muplity by precomputed value of 2^(i/8), i in [0:7] */
 
-    union { float f; int32_t s; } y;
+    union { float f; uint32_t u; } y;
 
     y.f = (      p[0]) * x;
     y.f = (y.f + p[1]) * x;
@@ -112,7 +112,7 @@ static inline float lc3_exp2f(float x)
 
     /* --- Add the exponent --- */
 
-    y.s += (k >> 3) << LC3_IEEE754_EXP_SHL;
+    y.u += (uint32_t)(k >> 3) << LC3_IEEE754_EXP_SHL;
 
     return y.f;
 }
-- 
2.43.0


From 7d90cff657e165cca3277e5e6bf13f67d0b47e37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:20:14 +0000
Subject: [PATCH 03/27] fix: shift by 32 bits when reading an exhausted
 bitstream

---
 src/bits.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bits.c b/src/bits.c
index 881258b..df2902a 100644
--- a/src/bits.c
+++ b/src/bits.c
@@ -327,7 +327,7 @@ static inline void accu_load(struct lc3_bits_accu *accu,
 
     if (accu->n >= 8) {
         accu->nover = LC3_MIN(accu->nover + accu->n, LC3_ACCU_BITS);
-        accu->v >>= accu->n;
+        accu->v = accu->n < LC3_ACCU_BITS ? accu->v >> accu->n : 0;
         accu->n = 0;
     }
 }
-- 
2.43.0


From 9977392cc6a6f77ff571d3bd32c58f1f4b795dd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:20:14 +0000
Subject: [PATCH 04/27] fix: overflow of the counter of lost frames

---
 src/plc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/plc.c b/src/plc.c
index f225ca6..1949751 100644
--- a/src/plc.c
+++ b/src/plc.c
@@ -58,5 +58,5 @@ void lc3_plc_synthesize(enum lc3_dt dt, enum lc3_srate sr,
 
     plc->seed = seed;
     plc->alpha = alpha;
-    plc->count++;
+    plc->count += plc->count < 8;
 }
-- 
2.43.0


From 4d9cf7f2e047f723f476444bc017598a9f77b9bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:20:14 +0000
Subject: [PATCH 05/27] fix: overflow on the unused size given for a lost frame

The `nbytes` parameter is not checked when `in` is NULL
---
 src/lc3.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lc3.c b/src/lc3.c
index fe73d69..8fc64d6 100644
--- a/src/lc3.c
+++ b/src/lc3.c
@@ -762,7 +762,7 @@ LC3_EXPORT int lc3_decode(struct lc3_decoder *decoder,
 
     int ret = !in || (decode(decoder, in, nbytes, &side) < 0);
 
-    synthesize(decoder, ret ? NULL : &side, nbytes);
+    synthesize(decoder, ret ? NULL : &side, ret ? 0 : nbytes);
 
     store[fmt](decoder, pcm, stride);
 
-- 
2.43.0


From 7f8ddca37619cfa0d64000f0b399d84c727c8066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:22:05 +0000
Subject: [PATCH 06/27] fix: undefined conversion of out of range samples

---
 src/lc3.c | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/lc3.c b/src/lc3.c
index 8fc64d6..e932674 100644
--- a/src/lc3.c
+++ b/src/lc3.c
@@ -467,6 +467,17 @@ LC3_EXPORT int lc3_encode(struct lc3_encoder *encoder,
  *  Decoder
  * -------------------------------------------------------------------------- */
 
+/**
+ * Round to the nearest integer, with saturation
+ * x               Value to round
+ * min, max        Bounds of the result
+ * return          Rounded value
+ */
+static inline int32_t round_sat(float x, float min, float max)
+{
+    return (int32_t)fminf(fmaxf(x >= 0 ? x + 0.5f : x - 0.5f, min), max);
+}
+
 /**
  * Output PCM Samples to signed 16 bits
  * decoder         Decoder state
@@ -484,8 +495,7 @@ static void store_s16(
     int ns = lc3_ns(dt, sr);
 
     for ( ; ns > 0; ns--, xs++, pcm += stride) {
-        int32_t s = *xs >= 0 ? (int)(*xs + 0.5f) : (int)(*xs - 0.5f);
-        *pcm = LC3_SAT16(s);
+        *pcm = round_sat(*xs, -32768.f, 32767.f);
     }
 }
 
@@ -506,9 +516,7 @@ static void store_s24(
     int ns = lc3_ns(dt, sr);
 
     for ( ; ns > 0; ns--, xs++, pcm += stride) {
-        int32_t s = *xs >= 0 ? (int32_t)(lc3_ldexpf(*xs, 8) + 0.5f)
-                             : (int32_t)(lc3_ldexpf(*xs, 8) - 0.5f);
-        *pcm = LC3_SAT24(s);
+        *pcm = round_sat(lc3_ldexpf(*xs, 8), -8388608.f, 8388607.f);
     }
 }
 
@@ -529,10 +537,8 @@ static void store_s24_3le(
     int ns = lc3_ns(dt, sr);
 
     for ( ; ns > 0; ns--, xs++, pcm += 3*stride) {
-        int32_t s = *xs >= 0 ? (int32_t)(lc3_ldexpf(*xs, 8) + 0.5f)
-                             : (int32_t)(lc3_ldexpf(*xs, 8) - 0.5f);
+        int32_t s = round_sat(lc3_ldexpf(*xs, 8), -8388608.f, 8388607.f);
 
-        s = LC3_SAT24(s);
         pcm[0] = (s >>  0) & 0xff;
         pcm[1] = (s >>  8) & 0xff;
         pcm[2] = (s >> 16) & 0xff;
-- 
2.43.0


From b3c579fc69c74ac08397ce27c0553cebce26a751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:04:41 +0000
Subject: [PATCH 07/27] fix: maximum size of frame blocks of many channels

With 5 to 8 channels of 2.5 ms, the bitrate was limited under the one of the
maximum frame size: `INT_MAX` did not return the maximum size.
---
 src/lc3.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lc3.c b/src/lc3.c
index e932674..52e39b9 100644
--- a/src/lc3.c
+++ b/src/lc3.c
@@ -115,7 +115,7 @@ LC3_EXPORT int lc3_hr_frame_block_bytes(
             || nchannels < 1 || nchannels > 8 || bitrate < 0)
         return -1;
 
-    bitrate = LC3_CLIP(bitrate, 0, 8*LC3_HR_MAX_BITRATE);
+    bitrate = LC3_CLIP(bitrate, 0, INT_MAX / LC3_NUM_DT);
 
     return LC3_CLIP((bitrate * (int)(1 + dt)) / 3200,
         nchannels * lc3_min_frame_bytes(dt, sr),
-- 
2.43.0


From 69f8f0265d3887e1aff9bb2ed6c69628150f7555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:32:20 +0000
Subject: [PATCH 08/27] fix: overflow of the high-pass filter of the pitch
 analysis

The resampling and high-pass filters have a gain up to 3.0 on some signals,
above the range +/- 2.0 of the fixed point output: the rounding to Q14
overflows, or the conversion to 32 bits wraps.
---
 src/ltpf.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/ltpf.c b/src/ltpf.c
index 08cbae6..86508e5 100644
--- a/src/ltpf.c
+++ b/src/ltpf.c
@@ -189,7 +189,11 @@ LC3_HOT static inline int32_t filter_hp50(
     const int32_t a1 = -2110217691, a2 = 1037111617;
     const int32_t b1 = -2110535566, b2 = 1055267782;
 
-    yn       = (hp50->s1 + (int64_t)xn * b2) >> 30;
+    /* --- Saturate, and keep room for the rounding of the output to Q14 --- */
+
+    const int64_t y = (hp50->s1 + (int64_t)xn * b2) >> 30;
+    yn       = LC3_CLIP(y, INT32_MIN, INT32_MAX - (1 << 15));
+
     hp50->s1 = (hp50->s2 + (int64_t)xn * b1 - (int64_t)yn * a1);
     hp50->s2 = (           (int64_t)xn * b2 - (int64_t)yn * a2);
 
-- 
2.43.0


From a0e481f153da4e7f08d65c1c57a01e6ded1ad32d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:40:55 +0000
Subject: [PATCH 09/27] fix: overflow of the estimation of the bits in
 high-resolution mode

The sum over the spectrum overflows on full scale noise, at 48 and 96 KHz
high-resolution mode with 10 ms frames.
---
 src/spec.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spec.c b/src/spec.c
index 25a28d4..96ec0e3 100644
--- a/src/spec.c
+++ b/src/spec.c
@@ -151,7 +151,7 @@ LC3_HOT static int estimate_gain(
 
     for (int i = 128, j, j0 = n4-1, j1 ; i > 0; i >>= 1) {
         int gn = (g_int - i) * k_20_28;
-        int v = 0;
+        int64_t v = 0;
 
         for (j = j0; j >= 0 && e[j].q16 < gn; j--);
 
-- 
2.43.0


From 893595259408bddcc88d2360a418ec3ddccaf1bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:43:49 +0000
Subject: [PATCH 10/27] fix: C++ decoding to int32_t samples is in 24 bits in
 32 bits words

---
 include/lc3_cpp.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/lc3_cpp.h b/include/lc3_cpp.h
index 31002ec..6542660 100644
--- a/include/lc3_cpp.h
+++ b/include/lc3_cpp.h
@@ -275,7 +275,7 @@ class Decoder : public Base<struct lc3_decoder> {
   }
 
   int Decode(const uint8_t *in, int block_size, int32_t *pcm) {
-    return DecodeImpl(in, block_size, PcmFormat::kS24In3Le, pcm);
+    return DecodeImpl(in, block_size, PcmFormat::kS24, pcm);
   }
 
   int Decode(const uint8_t *in, int block_size, float *pcm) {
-- 
2.43.0


From c7304a67a8cc9cf64b6451e5215dfbe878adc5a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:43:49 +0000
Subject: [PATCH 11/27] fix: a missing block is missing for all the channels in
 C++ decoder

---
 include/lc3_cpp.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/lc3_cpp.h b/include/lc3_cpp.h
index 6542660..2552a0a 100644
--- a/include/lc3_cpp.h
+++ b/include/lc3_cpp.h
@@ -219,7 +219,8 @@ class Decoder : public Base<struct lc3_decoder> {
       ret |= lc3_decode(states[ich].get(), in_ptr, frame_size,
                         cfmt, pcm + ich, nchannels_);
 
-      in_ptr += frame_size;
+      if (in_ptr)
+        in_ptr += frame_size;
     }
 
     return ret;
-- 
2.43.0


From 809bce4b78cf8016927d0d3fdffa2fd766d91e4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:43:49 +0000
Subject: [PATCH 12/27] fix: C++ codecs allocate for the samplerate they set up

---
 include/lc3_cpp.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/lc3_cpp.h b/include/lc3_cpp.h
index 2552a0a..c9b80a8 100644
--- a/include/lc3_cpp.h
+++ b/include/lc3_cpp.h
@@ -53,7 +53,7 @@ class Base {
   Base(int dt_us, int sr_hz, int sr_pcm_hz, size_t nchannels, bool hrmode)
       : dt_us_(dt_us),
         sr_hz_(sr_hz),
-        sr_pcm_hz_(sr_pcm_hz == 0 ? sr_hz : sr_pcm_hz),
+        sr_pcm_hz_(sr_pcm_hz <= 0 ? sr_hz : sr_pcm_hz),
         nchannels_(nchannels),
         hrmode_(hrmode) {
     states.reserve(nchannels_);
-- 
2.43.0


From af6b1e808b03fa65c229258c0252030fbbea72a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 14:01:44 +0000
Subject: [PATCH 13/27] fix: pair of coefficients announced is always encoded

When all of the spectrum is quantized to 0, the side information
announces a pair of coefficients that was not encoded. The decoder
was reading a symbol not written, and got non null coefficients when
filters of the noise shaping were encoded.
---
 src/spec.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/spec.c b/src/spec.c
index 96ec0e3..4c73327 100644
--- a/src/spec.c
+++ b/src/spec.c
@@ -865,6 +865,13 @@ void lc3_spec_analyze(
     side->g_idx = g_int + g_adj + g_off;
     nbits = compute_nbits(dt, sr, nbytes,
         x, &side->nq, nbits_budget, &side->lsb_mode);
+
+    /* --- The bitstream always holds a pair of coefficients --- */
+
+    if (side->nq < 2) {
+        x[0] = x[1] = 0;
+        side->nq = 2;
+    }
 }
 
 /**
-- 
2.43.0


From 95838b1851be9618edd8463b3d26a2b473c4312d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:15:27 +0000
Subject: [PATCH 14/27] fix: python: release the memory of the codecs on
 deletion

---
 python/lc3.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/python/lc3.py b/python/lc3.py
index 8c4ae71..62f4718 100644
--- a/python/lc3.py
+++ b/python/lc3.py
@@ -300,7 +300,8 @@ class Encoder(_Base):
     def __del__(self) -> None:
 
         try:
-            (self.free(encoder) for encoder in self.__encoders)
+            for encoder in self.__encoders:
+                self.free(encoder)
         finally:
             return
 
@@ -466,7 +467,8 @@ class Decoder(_Base):
     def __del__(self) -> None:
 
         try:
-            (self.free(decoder) for decoder in self.__decoders)
+            for decoder in self.__decoders:
+                self.free(decoder)
         finally:
             return
 
-- 
2.43.0


From c4f9767fd59bd9e4dd1041511f2c0cdf946660ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:15:27 +0000
Subject: [PATCH 15/27] fix: python: padding of short floating-point samples

---
 python/lc3.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/lc3.py b/python/lc3.py
index 62f4718..e284d1c 100644
--- a/python/lc3.py
+++ b/python/lc3.py
@@ -346,7 +346,7 @@ class Encoder(_Base):
             if not abs(sum(pcm_buffer)) / frame_samples < 2:
                 raise InvalidArgumentError("Out of range PCM input")
 
-            padding = max(pcm_len - frame_samples, 0)
+            padding = max(pcm_len - len(pcm_buffer), 0)
             pcm_buffer.extend(array.array("f", [0] * padding))
 
         else:
-- 
2.43.0


From fa91853734bd4c4b5f203fcf3bcb20290b2769ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:15:27 +0000
Subject: [PATCH 16/27] fix: python: refuse a PCM sample rate lower than the
 codec one

---
 python/lc3.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/python/lc3.py b/python/lc3.py
index e284d1c..9493001 100644
--- a/python/lc3.py
+++ b/python/lc3.py
@@ -76,6 +76,11 @@ class _Base:
         if self.sample_rate_hz not in allowed_samplerate:
             raise InvalidArgumentError(f"Invalid sample rate: {sample_rate_hz} Hz")
 
+        if self.pcm_sample_rate_hz < self.sample_rate_hz:
+            raise InvalidArgumentError(
+                f"Invalid PCM sample rate: {self.pcm_sample_rate_hz} Hz"
+            )
+
         if libpath is None:
             mesonpy_lib = glob.glob(
                 os.path.join(os.path.dirname(__file__), ".lc3py.mesonpy.libs", "*lc3*")
-- 
2.43.0


From 2e3cce92a6822ed32b29015520d0049e17a29d4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:15:27 +0000
Subject: [PATCH 17/27] fix: python: use of libraries without high-resolution
 interface

---
 python/lc3.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/python/lc3.py b/python/lc3.py
index 9493001..49e265a 100644
--- a/python/lc3.py
+++ b/python/lc3.py
@@ -112,7 +112,7 @@ class _Base:
             )
             lc3_hr_frame_block_bytes = (
                 lambda hrmode, dt_us, sr_hz, num_channels, bitrate: num_channels
-                * lib.lc3_frame_bytes(dt_us, bitrate // 2)
+                * lib.lc3_frame_bytes(dt_us, bitrate // num_channels)
             )
             lc3_hr_resolve_bitrate = (
                 lambda hrmode, dt_us, sr_hz, nbytes: lib.lc3_resolve_bitrate(
@@ -269,6 +269,13 @@ class Encoder(_Base):
                     dt_us, sr_hz, sr_pcm_hz, mem
                 )
             )
+
+            lib.lc3_encoder_size.argtypes = [c_int, c_int]
+            lib.lc3_encoder_size.restype = c_uint
+
+            lib.lc3_setup_encoder.argtypes = [c_int, c_int, c_int, c_void_p]
+            lib.lc3_setup_encoder.restype = self.c_encoder_t
+
             setattr(lib, "lc3_hr_encoder_size", lc3_hr_encoder_size)
             setattr(lib, "lc3_hr_setup_encoder", lc3_hr_setup_encoder)
 
@@ -436,6 +443,13 @@ class Decoder(_Base):
                     dt_us, sr_hz, sr_pcm_hz, mem
                 )
             )
+
+            lib.lc3_decoder_size.argtypes = [c_int, c_int]
+            lib.lc3_decoder_size.restype = c_uint
+
+            lib.lc3_setup_decoder.argtypes = [c_int, c_int, c_int, c_void_p]
+            lib.lc3_setup_decoder.restype = self.c_decoder_t
+
             setattr(lib, "lc3_hr_decoder_size", lc3_hr_decoder_size)
             setattr(lib, "lc3_hr_setup_decoder", lc3_hr_setup_decoder)
 
-- 
2.43.0


From 4d7b78568fa5ab7525f50af29e365581fb0ffb22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:22 +0000
Subject: [PATCH 18/27] fix: tools: read beyond the end of the argument "-"

---
 tools/dlc3.c | 2 +-
 tools/elc3.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/tools/dlc3.c b/tools/dlc3.c
index 8c22ba1..55bcb3b 100644
--- a/tools/dlc3.c
+++ b/tools/dlc3.c
@@ -92,7 +92,7 @@ static struct parameters parse_args(int argc, char *argv[])
         const char *arg = argv[iarg++];
 
         if (arg[0] == '-') {
-            if (arg[2] != '\0')
+            if (arg[1] == '\0' || arg[2] != '\0')
                 error(EINVAL, "Option %s", arg);
 
             char opt = arg[1];
diff --git a/tools/elc3.c b/tools/elc3.c
index dec8bb0..460fc0c 100644
--- a/tools/elc3.c
+++ b/tools/elc3.c
@@ -88,7 +88,7 @@ static struct parameters parse_args(int argc, char *argv[])
         const char *arg = argv[iarg++];
 
         if (arg[0] == '-') {
-            if (arg[2] != '\0')
+            if (arg[1] == '\0' || arg[2] != '\0')
                 error(EINVAL, "Option %s", arg);
 
             char opt = arg[1];
-- 
2.43.0


From b69d0c8d9e08328c0f3671686bafb685f14c4c08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:22 +0000
Subject: [PATCH 19/27] fix: dlc3: refuse a null bit depth

---
 tools/dlc3.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/dlc3.c b/tools/dlc3.c
index 55bcb3b..d8bf324 100644
--- a/tools/dlc3.c
+++ b/tools/dlc3.c
@@ -155,7 +155,7 @@ int main(int argc, char *argv[])
     if (p.fname_out && (fp_out = fopen(p.fname_out, "wb")) == NULL)
         error(errno, "%s", p.fname_out);
 
-    if (p.bitdepth && p.bitdepth != 16 && p.bitdepth != 24)
+    if (p.bitdepth != 16 && p.bitdepth != 24)
         error(EINVAL, "Bitdepth %d", p.bitdepth);
 
     /* --- Check parameters --- */
-- 
2.43.0


From e42d413cb9f25f2338132d9db297ba6ac84916f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:22 +0000
Subject: [PATCH 20/27] fix: tools: overflow of the elapsed time of long
 streams

---
 tools/dlc3.c | 4 ++--
 tools/elc3.c | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/tools/dlc3.c b/tools/dlc3.c
index d8bf324..b8c9958 100644
--- a/tools/dlc3.c
+++ b/tools/dlc3.c
@@ -223,7 +223,7 @@ int main(int argc, char *argv[])
 
         int block_bytes = lc3bin_read_data(fp_in, nchannels, in);
 
-        if (floorf(i * frame_us * 1e-6) > nsec) {
+        if (floorf((int64_t)i * frame_us * 1e-6) > nsec) {
 
             float progress = fminf((float)i * frame_samples / pcm_samples, 1);
 
@@ -231,7 +231,7 @@ int main(int argc, char *argv[])
                     nsec / 60, nsec % 60,
                     dash_line + (int)floorf((1 - progress) * 40));
 
-            nsec = rint(i * frame_us * 1e-6);
+            nsec = rint((int64_t)i * frame_us * 1e-6);
         }
 
         if (block_bytes <= 0)
diff --git a/tools/elc3.c b/tools/elc3.c
index 460fc0c..1d99d25 100644
--- a/tools/elc3.c
+++ b/tools/elc3.c
@@ -244,7 +244,7 @@ int main(int argc, char *argv[])
         memset(pcm + nread * nchannels * pcm_sbytes, 0,
             nchannels * (frame_samples - nread) * pcm_sbytes);
 
-        if (floorf(i * frame_us * 1e-6) > nsec) {
+        if (floorf((int64_t)i * frame_us * 1e-6) > nsec) {
             float progress = fminf(
                 (float)i * frame_samples / encode_samples, 1);
 
@@ -252,7 +252,7 @@ int main(int argc, char *argv[])
                     nsec / 60, nsec % 60,
                     dash_line + (int)floorf((1 - progress) * 40));
 
-            nsec = (int)(i * frame_us * 1e-6);
+            nsec = (int)((int64_t)i * frame_us * 1e-6);
         }
 
         uint8_t *out_ptr = out;
-- 
2.43.0


From bab2b130b47c013005c0f63685415f40eb6c3e7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:22 +0000
Subject: [PATCH 21/27] fix: tools: overflow of the number of samples

---
 tools/dlc3.c | 9 ++++++++-
 tools/elc3.c | 5 +++++
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/tools/dlc3.c b/tools/dlc3.c
index b8c9958..aacdb6b 100644
--- a/tools/dlc3.c
+++ b/tools/dlc3.c
@@ -22,6 +22,7 @@
 #include <stdio.h>
 #include <stdarg.h>
 #include <stdlib.h>
+#include <limits.h>
 #include <string.h>
 #include <math.h>
 #include <time.h>
@@ -32,6 +33,7 @@
 #include "wave.h"
 
 #define MAX_CHANNELS 2
+#define MAX_SAMPLES  (INT_MAX - 2 * LC3_HR_MAX_FRAME_SAMPLES)
 
 #ifndef MIN
 #define MIN(a, b)  ( (a) < (b) ? (a) : (b) )
@@ -184,9 +186,14 @@ int main(int argc, char *argv[])
     int pcm_sbytes = pcm_sbits / 8;
 
     int pcm_srate_hz = !p.srate_hz ? srate_hz : p.srate_hz;
-    int pcm_samples = !p.srate_hz ? nsamples :
+    int64_t out_samples = !p.srate_hz ? nsamples :
         ((int64_t)nsamples * pcm_srate_hz) / srate_hz;
 
+    if (out_samples < 0 || out_samples > MAX_SAMPLES)
+        error(EINVAL, "Number of samples");
+
+    int pcm_samples = out_samples;
+
     wave_write_header(fp_out,
           pcm_sbits, pcm_sbytes, pcm_srate_hz, nchannels, pcm_samples);
 
diff --git a/tools/elc3.c b/tools/elc3.c
index 1d99d25..ae0597e 100644
--- a/tools/elc3.c
+++ b/tools/elc3.c
@@ -22,6 +22,7 @@
 #include <stdio.h>
 #include <stdarg.h>
 #include <stdlib.h>
+#include <limits.h>
 #include <string.h>
 #include <math.h>
 #include <time.h>
@@ -32,6 +33,7 @@
 #include "wave.h"
 
 #define MAX_CHANNELS 2
+#define MAX_SAMPLES  (INT_MAX - 2 * LC3_HR_MAX_FRAME_SAMPLES)
 
 
 /**
@@ -190,6 +192,9 @@ int main(int argc, char *argv[])
                        p.srate_hz > srate_hz                       ))
         error(EINVAL, "Encoder samplerate %d Hz", p.srate_hz);
 
+    if (nsamples < 0 || nsamples > MAX_SAMPLES)
+        error(EINVAL, "Number of samples");
+
     int enc_srate_hz = !p.srate_hz ? srate_hz : p.srate_hz;
     int enc_samples = !p.srate_hz ? nsamples :
         ((int64_t)nsamples * enc_srate_hz) / srate_hz;
-- 
2.43.0


From 75b202a6ad49359a9efe77c2b8b1eac6ecf6d789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:22 +0000
Subject: [PATCH 22/27] fix: dlc3: conceal the frames refused by the decoder

---
 tools/dlc3.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tools/dlc3.c b/tools/dlc3.c
index aacdb6b..762e649 100644
--- a/tools/dlc3.c
+++ b/tools/dlc3.c
@@ -252,6 +252,10 @@ int main(int argc, char *argv[])
                 int res = lc3_decode(dec[ich], in_ptr, frame_bytes,
                     pcm_fmt, pcm + ich * pcm_sbytes, nchannels);
 
+                if (res < 0)
+                    lc3_decode(dec[ich], NULL, 0,
+                        pcm_fmt, pcm + ich * pcm_sbytes, nchannels);
+
                 nerr += (res != 0);
                 in_ptr += frame_bytes;
             }
-- 
2.43.0


From 2d46606d1b5ffeaa899d6fc878cdcc109bef1473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:22 +0000
Subject: [PATCH 23/27] fix: dlc3: samples written over the length of a short
 stream

---
 tools/dlc3.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tools/dlc3.c b/tools/dlc3.c
index 762e649..94894cb 100644
--- a/tools/dlc3.c
+++ b/tools/dlc3.c
@@ -262,8 +262,8 @@ int main(int argc, char *argv[])
         }
 
         int pcm_offset = i > 0 ? 0 : encode_samples - pcm_samples;
-        int pcm_nwrite = MIN(frame_samples - pcm_offset,
-            encode_samples - i*frame_samples);
+        int pcm_nwrite = MIN(frame_samples,
+            encode_samples - i*frame_samples) - pcm_offset;
 
         wave_write_pcm(fp_out,
             pcm_sbytes, pcm, nchannels, pcm_offset, pcm_nwrite);
-- 
2.43.0


From e9707c4b4fc3663e96d6474dd9974685378aed5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:22 +0000
Subject: [PATCH 24/27] fix: lc3bin: overflow in the number of samples of the
 header

---
 tools/lc3bin.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/lc3bin.c b/tools/lc3bin.c
index 97ae82b..7f7736b 100644
--- a/tools/lc3bin.c
+++ b/tools/lc3bin.c
@@ -61,7 +61,7 @@ int lc3bin_read_header(FILE *fp,
     *nchannels = hdr.channels;
     *frame_us = hdr.frame_10us * 10;
     *srate_hz = hdr.srate_100hz * 100;
-    *nsamples = hdr.nsamples_low | (hdr.nsamples_high << 16);
+    *nsamples = (int)(hdr.nsamples_low | ((uint32_t)hdr.nsamples_high << 16));
     *hrmode = hdr_hrmode != 0;
 
     if (hdr.epmode)
-- 
2.43.0


From e02e3d8f0bd285a6bcbcb2e2232b50387d0ce9b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:22 +0000
Subject: [PATCH 25/27] fix: wave: position after the format chunk

---
 tools/wave.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/wave.c b/tools/wave.c
index 126f913..0e59348 100644
--- a/tools/wave.c
+++ b/tools/wave.c
@@ -112,7 +112,7 @@ int wave_read_header(FILE *fp, int *bitdepth, int *samplesize,
             || format.byterate   != format.samplerate * format.framesize)
         return -1;
 
-    fseek(fp, sizeof(format) - (8 + format.size), SEEK_CUR);
+    fseek(fp, (8 + (long)format.size) - (long)sizeof(format), SEEK_CUR);
 
     for ( ; fread(&data, sizeof(data), 1, fp) == 1 && data.id != WAVE_DATA_ID
           ; fseek(fp, data.size, SEEK_CUR) );
-- 
2.43.0


From efd50695c023e2004a1e0990a02f7beffd4d7366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:22 +0000
Subject: [PATCH 26/27] fix: wave: use of the data chunk after a read error

---
 tools/wave.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/wave.c b/tools/wave.c
index 0e59348..61ebe22 100644
--- a/tools/wave.c
+++ b/tools/wave.c
@@ -117,7 +117,7 @@ int wave_read_header(FILE *fp, int *bitdepth, int *samplesize,
     for ( ; fread(&data, sizeof(data), 1, fp) == 1 && data.id != WAVE_DATA_ID
           ; fseek(fp, data.size, SEEK_CUR) );
 
-    if (feof(fp))
+    if (feof(fp) || ferror(fp))
       return -1;
 
     *bitdepth = format.bitdepth;
-- 
2.43.0


From 35b474545580c3816f746f6a862a456ab87fe6a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:22 +0000
Subject: [PATCH 27/27] fix: wave: overflow of the size of the data

---
 tools/wave.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tools/wave.c b/tools/wave.c
index 61ebe22..aab4816 100644
--- a/tools/wave.c
+++ b/tools/wave.c
@@ -150,8 +150,8 @@ void wave_write_header(FILE *fp, int bitdepth, int samplesize,
         struct wave_data data;
     } header;
 
-    long data_size = nchannels * nframes * samplesize;
-    long file_size = sizeof(header) + data_size;
+    uint32_t data_size = (uint32_t)nchannels * nframes * samplesize;
+    uint32_t file_size = sizeof(header) + data_size;
 
     header.file = (struct wave_file){
         WAVE_FILE_TYPE_ID, file_size - 8,
-- 
2.43.0

