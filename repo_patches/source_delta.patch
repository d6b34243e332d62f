From 1d0cb04828708ffc2723ad01bbb13552988909a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:54 +0000
Subject: [PATCH 01/38] fix: set every raised decimal exception flag, not only
 the last one tested

__dfp_set_status assigned fexcepts anew for each exception, so only
INVALID survived when several, or any other with INEXACT, were raised.
---
 libbid/bid_decimal_globals.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/libbid/bid_decimal_globals.c b/libbid/bid_decimal_globals.c
index 5ce0655..ebb97da 100644
--- a/libbid/bid_decimal_globals.c
+++ b/libbid/bid_decimal_globals.c
@@ -97,10 +97,10 @@ __dfp_set_status (int excepts) {
   else
     {
       int fexcepts = (excepts & INEXACT_EXCEPTION) ? FE_INEXACT : 0;
-      fexcepts = (excepts & OVERFLOW_EXCEPTION) ? FE_OVERFLOW : 0;
-      fexcepts = (excepts & UNDERFLOW_EXCEPTION) ? FE_UNDERFLOW : 0;
-      fexcepts = (excepts & ZERO_DIVIDE_EXCEPTION) ? FE_DIVBYZERO : 0;
-      fexcepts = (excepts & INVALID_EXCEPTION) ? FE_INVALID: 0;
+      fexcepts |= (excepts & OVERFLOW_EXCEPTION) ? FE_OVERFLOW : 0;
+      fexcepts |= (excepts & UNDERFLOW_EXCEPTION) ? FE_UNDERFLOW : 0;
+      fexcepts |= (excepts & ZERO_DIVIDE_EXCEPTION) ? FE_DIVBYZERO : 0;
+      fexcepts |= (excepts & INVALID_EXCEPTION) ? FE_INVALID: 0;
       fesetexcept (fexcepts);
     }
 }
-- 
2.43.0


From bc2d4db9112ae0f00d94756ef9b5416a42fba29a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:18 +0000
Subject: [PATCH 02/38] fix: report exactly the exceptions of each decimal
 operation

The flags of an earlier operation, kept in _IDEC_glbflags, decided whether
a later one reported underflow or inexact; the 128-bit kernels only
accumulated inexact there and never raised it; and binary floating-point
used inside the 64-bit and division kernels leaked a spurious inexact.
Start every operation with a clean status and report what it leaves.
---
 libbid/_addsub_dd.c          |  8 ++++++++
 libbid/_addsub_sd.c          |  8 ++++++++
 libbid/_addsub_td.c          |  8 ++++++++
 libbid/_dd_to_sd.c           |  4 ++++
 libbid/_div_dd.c             |  4 ++++
 libbid/_div_sd.c             |  4 ++++
 libbid/_div_td.c             |  4 ++++
 libbid/_mul_dd.c             |  6 +++++-
 libbid/_mul_sd.c             |  6 +++++-
 libbid/_mul_td.c             |  4 ++++
 libbid/_td_to_dd.c           |  4 ++++
 libbid/_td_to_sd.c           |  4 ++++
 libbid/bid_conf.h            |  3 +++
 libbid/bid_decimal_globals.c | 25 +++++++++++++++++++++++++
 14 files changed, 90 insertions(+), 2 deletions(-)

diff --git a/libbid/_addsub_dd.c b/libbid/_addsub_dd.c
index 668de0f..f0010f7 100644
--- a/libbid/_addsub_dd.c
+++ b/libbid/_addsub_dd.c
@@ -28,20 +28,28 @@ see the files COPYING3 and COPYING.RUNTIME respectively.  If not, see
 _Decimal64
 __bid_adddd3 (_Decimal64 x, _Decimal64 y) {
   union decimal64 ux, uy, res;
+  unsigned int saved;
+  int fexcepts;
 
+  __dfp_begin_status (&saved, &fexcepts);
   ux.d = x;
   uy.d = y;
   res.i = __bid64_add (ux.i, uy.i);
+  __dfp_end_status (saved, fexcepts);
   return (res.d);
 }
 
 _Decimal64
 __bid_subdd3 (_Decimal64 x, _Decimal64 y) {
   union decimal64 ux, uy, res;
+  unsigned int saved;
+  int fexcepts;
 
+  __dfp_begin_status (&saved, &fexcepts);
   ux.d = x;
   uy.d = y;
   res.i = __bid64_sub (ux.i, uy.i);
+  __dfp_end_status (saved, fexcepts);
   return (res.d);
 }
 hidden_def(__bid_adddd3);
diff --git a/libbid/_addsub_sd.c b/libbid/_addsub_sd.c
index d6027f4..be158ca 100644
--- a/libbid/_addsub_sd.c
+++ b/libbid/_addsub_sd.c
@@ -29,13 +29,17 @@ _Decimal32
 __bid_addsd3 (_Decimal32 x, _Decimal32 y) {
   UINT64 x64, y64, res64;
   union decimal32 ux, uy, res;
+  unsigned int saved;
+  int fexcepts;
 
+  __dfp_begin_status (&saved, &fexcepts);
   ux.d = x;
   uy.d = y;
   x64 = __bid32_to_bid64 (ux.i);
   y64 = __bid32_to_bid64 (uy.i);
   res64 = __bid64_add (x64, y64);
   res.i = __bid64_to_bid32 (res64);
+  __dfp_end_status (saved, fexcepts);
   return (res.d);
 }
 
@@ -43,13 +47,17 @@ _Decimal32
 __bid_subsd3 (_Decimal32 x, _Decimal32 y) {
   UINT64 x64, y64, res64;
   union decimal32 ux, uy, res;
+  unsigned int saved;
+  int fexcepts;
 
+  __dfp_begin_status (&saved, &fexcepts);
   ux.d = x;
   uy.d = y;
   x64 = __bid32_to_bid64 (ux.i);
   y64 = __bid32_to_bid64 (uy.i);
   res64 = __bid64_sub (x64, y64);
   res.i = __bid64_to_bid32 (res64);
+  __dfp_end_status (saved, fexcepts);
   return (res.d);
 }
 hidden_def(__bid_addsd3);
diff --git a/libbid/_addsub_td.c b/libbid/_addsub_td.c
index b927f2f..f8fd77f 100644
--- a/libbid/_addsub_td.c
+++ b/libbid/_addsub_td.c
@@ -28,20 +28,28 @@ see the files COPYING3 and COPYING.RUNTIME respectively.  If not, see
 _Decimal128
 __bid_addtd3 (_Decimal128 x, _Decimal128 y) {
   union decimal128 ux, uy, res;
+  unsigned int saved;
+  int fexcepts;
 
+  __dfp_begin_status (&saved, &fexcepts);
   ux.d = x;
   uy.d = y;
   res.i = __bid128_add (ux.i, uy.i);
+  __dfp_end_status (saved, fexcepts);
   return (res.d);
 }
 
 _Decimal128
 __bid_subtd3 (_Decimal128 x, _Decimal128 y) {
   union decimal128 ux, uy, res;
+  unsigned int saved;
+  int fexcepts;
 
+  __dfp_begin_status (&saved, &fexcepts);
   ux.d = x;
   uy.d = y;
   res.i = __bid128_sub (ux.i, uy.i);
+  __dfp_end_status (saved, fexcepts);
   return (res.d);
 }
 hidden_def(__bid_addtd3);
diff --git a/libbid/_dd_to_sd.c b/libbid/_dd_to_sd.c
index 554e75f..6332f07 100644
--- a/libbid/_dd_to_sd.c
+++ b/libbid/_dd_to_sd.c
@@ -29,9 +29,13 @@ _Decimal32
 __bid_truncddsd2 (_Decimal64 x) {
   union decimal32 res;
   union decimal64 ux;
+  unsigned int saved;
+  int fexcepts;
 
+  __dfp_begin_status (&saved, &fexcepts);
   ux.d = x;
   res.i = __bid64_to_bid32 (ux.i);
+  __dfp_end_status (saved, fexcepts);
   return (res.d);
 }
 hidden_def(__bid_truncddsd2);
diff --git a/libbid/_div_dd.c b/libbid/_div_dd.c
index 47dcfe3..1da0863 100644
--- a/libbid/_div_dd.c
+++ b/libbid/_div_dd.c
@@ -28,10 +28,14 @@ see the files COPYING3 and COPYING.RUNTIME respectively.  If not, see
 _Decimal64
 __bid_divdd3 (_Decimal64 x, _Decimal64 y) {
   union decimal64 ux, uy, res;
+  unsigned int saved;
+  int fexcepts;
 
+  __dfp_begin_status (&saved, &fexcepts);
   ux.d = x;
   uy.d = y;
   res.i = __bid64_div (ux.i, uy.i);
+  __dfp_end_status (saved, fexcepts);
   return (res.d);
 }
 hidden_def(__bid_divdd3);
diff --git a/libbid/_div_sd.c b/libbid/_div_sd.c
index bb05b8f..ddfd5ad 100644
--- a/libbid/_div_sd.c
+++ b/libbid/_div_sd.c
@@ -29,13 +29,17 @@ _Decimal32
 __bid_divsd3 (_Decimal32 x, _Decimal32 y) {
   UINT64 x64, y64, res64;
   union decimal32 ux, uy, res;
+  unsigned int saved;
+  int fexcepts;
 
+  __dfp_begin_status (&saved, &fexcepts);
   ux.d = x;
   uy.d = y;
   x64 = __bid32_to_bid64 (ux.i);
   y64 = __bid32_to_bid64 (uy.i);
   res64 = __bid64_div (x64, y64);
   res.i = __bid64_to_bid32 (res64);
+  __dfp_end_status (saved, fexcepts);
   return (res.d);
 }
 hidden_def(__bid_divsd3);
diff --git a/libbid/_div_td.c b/libbid/_div_td.c
index 97e15f6..b2c40ed 100644
--- a/libbid/_div_td.c
+++ b/libbid/_div_td.c
@@ -28,10 +28,14 @@ see the files COPYING3 and COPYING.RUNTIME respectively.  If not, see
 _Decimal128
 __bid_divtd3 (_Decimal128 x, _Decimal128 y) {
   union decimal128 ux, uy, res;
+  unsigned int saved;
+  int fexcepts;
 
+  __dfp_begin_status (&saved, &fexcepts);
   ux.d = x;
   uy.d = y;
   res.i = __bid128_div (ux.i, uy.i);
+  __dfp_end_status (saved, fexcepts);
   return (res.d);
 }
 hidden_def(__bid_divtd3);
diff --git a/libbid/_mul_dd.c b/libbid/_mul_dd.c
index a4107eb..2f2faaa 100644
--- a/libbid/_mul_dd.c
+++ b/libbid/_mul_dd.c
@@ -28,10 +28,14 @@ see the files COPYING3 and COPYING.RUNTIME respectively.  If not, see
 _Decimal64
 __bid_muldd3 (_Decimal64 x, _Decimal64 y) {
   union decimal64 ux, uy, res;
- 
+  unsigned int saved;
+  int fexcepts;
+
+  __dfp_begin_status (&saved, &fexcepts);
   ux.d = x;
   uy.d = y;
   res.i = __bid64_mul (ux.i, uy.i);
+  __dfp_end_status (saved, fexcepts);
   return (res.d);
 }
 hidden_def(__bid_muldd3);
diff --git a/libbid/_mul_sd.c b/libbid/_mul_sd.c
index 3db444d..13e1ad5 100644
--- a/libbid/_mul_sd.c
+++ b/libbid/_mul_sd.c
@@ -29,13 +29,17 @@ _Decimal32
 __bid_mulsd3 (_Decimal32 x, _Decimal32 y) {
   UINT64 x64, y64, res64;
   union decimal32 ux, uy, res;
- 
+  unsigned int saved;
+  int fexcepts;
+
+  __dfp_begin_status (&saved, &fexcepts);
   ux.d = x;
   uy.d = y;
   x64 = __bid32_to_bid64 (ux.i);
   y64 = __bid32_to_bid64 (uy.i);
   res64 = __bid64_mul (x64, y64);
   res.i = __bid64_to_bid32 (res64);
+  __dfp_end_status (saved, fexcepts);
   return (res.d);
 }
 hidden_def(__bid_mulsd3);
diff --git a/libbid/_mul_td.c b/libbid/_mul_td.c
index 619285e..0475d7c 100644
--- a/libbid/_mul_td.c
+++ b/libbid/_mul_td.c
@@ -28,10 +28,14 @@ see the files COPYING3 and COPYING.RUNTIME respectively.  If not, see
 _Decimal128
 __bid_multd3 (_Decimal128 x, _Decimal128 y) {
   union decimal128 ux, uy, res;
+  unsigned int saved;
+  int fexcepts;
 
+  __dfp_begin_status (&saved, &fexcepts);
   ux.d = x;
   uy.d = y;
   res.i = __bid128_mul (ux.i, uy.i);
+  __dfp_end_status (saved, fexcepts);
   return (res.d);
 }
 hidden_def(__bid_multd3);
diff --git a/libbid/_td_to_dd.c b/libbid/_td_to_dd.c
index 6adf82b..5ce082a 100644
--- a/libbid/_td_to_dd.c
+++ b/libbid/_td_to_dd.c
@@ -29,9 +29,13 @@ _Decimal64
 __bid_trunctddd2 (_Decimal128 x) {
   union decimal128 ux;
   union decimal64 res;
+  unsigned int saved;
+  int fexcepts;
 
+  __dfp_begin_status (&saved, &fexcepts);
   ux.d = x;
   res.i = __bid128_to_bid64 (ux.i);
+  __dfp_end_status (saved, fexcepts);
   return (res.d);
 }
 hidden_def(__bid_trunctddd2);
diff --git a/libbid/_td_to_sd.c b/libbid/_td_to_sd.c
index 39c8f7c..60724d4 100644
--- a/libbid/_td_to_sd.c
+++ b/libbid/_td_to_sd.c
@@ -29,9 +29,13 @@ _Decimal32
 __bid_trunctdsd2 (_Decimal128 x) {
   union decimal128 ux;
   union decimal32 res;
+  unsigned int saved;
+  int fexcepts;
 
+  __dfp_begin_status (&saved, &fexcepts);
   ux.d = x;
   res.i = __bid128_to_bid32 (ux.i);
+  __dfp_end_status (saved, fexcepts);
   return (res.d);
 }
 hidden_def(__bid_trunctdsd2);
diff --git a/libbid/bid_conf.h b/libbid/bid_conf.h
index c5a43f2..b401540 100644
--- a/libbid/bid_conf.h
+++ b/libbid/bid_conf.h
@@ -553,6 +553,9 @@ see the files COPYING3 and COPYING.RUNTIME respectively.  If not, see
 #define DECIMAL_GLOBAL_EXCEPTION_FLAGS_ACCESS_FUNCTIONS 1
 #define BID_HAS_GCC_DECIMAL_INTRINSICS 1
 extern void __dfp_set_status (int excepts);
+// Bracket one operation, so that only its own decimal status is reported
+extern void __dfp_begin_status (unsigned int *saved, int *fexcepts);
+extern void __dfp_end_status (unsigned int saved, int fexcepts);
 // Use a statement expression (GNU C) to quiet warnings
 #define __set_status_flags(fpsc, status) ({ __dfp_set_status(status); (void)fpsc; })
 // End libdfp options
diff --git a/libbid/bid_decimal_globals.c b/libbid/bid_decimal_globals.c
index ebb97da..a8db65b 100644
--- a/libbid/bid_decimal_globals.c
+++ b/libbid/bid_decimal_globals.c
@@ -87,6 +87,31 @@ __dfp_raise_except (int mask) {
   _IDEC_glbflags |= flags;
 }
 
+/* Start an operation: *SAVED keeps the status accumulated by earlier
+   operations, which must not influence this one, and *FEXCEPTS the raised
+   floating-point exceptions.  */
+void
+__dfp_begin_status (unsigned int *saved, int *fexcepts) {
+  *saved = _IDEC_glbflags;
+  *fexcepts = fetestexcept (FE_ALL_EXCEPT);
+  _IDEC_glbflags = EXACT_STATUS;
+}
+
+/* End an operation: report the status it left, including what was only
+   accumulated in _IDEC_glbflags, and drop the exceptions raised by binary
+   floating-point used internally.  */
+void
+__dfp_end_status (unsigned int saved, int fexcepts) {
+  int status = _IDEC_glbflags;
+  int stray = fetestexcept (FE_ALL_EXCEPT) & ~fexcepts;
+
+  if (stray)
+    feclearexcept (stray);
+  if (status)
+    __dfp_set_status (status);
+  _IDEC_glbflags |= saved;
+}
+
 void
 __dfp_set_status (int excepts) {
   _IDEC_glbflags |= excepts;
-- 
2.43.0


From 7cb9ba156d769f81c6a3952c22b1c3022d985fb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:18 +0000
Subject: [PATCH 03/38] fix: printf of a NaN or an infinity returns the number
 of characters written

---
 printf-hooks/printf_dfp.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/printf-hooks/printf_dfp.c b/printf-hooks/printf_dfp.c
index c5bf460..f962e51 100644
--- a/printf-hooks/printf_dfp.c
+++ b/printf-hooks/printf_dfp.c
@@ -527,7 +527,7 @@ __printf_dfp (FILE *fp,
       if (info->left && width > 0)
 	PADN (' ', width);
 
-      return 0;
+      return done;
     }
 
   /* The term "precision" refers to the number of significant digits right of
-- 
2.43.0


From edb0258a35fb8f16410cff236567e9f15f52c9d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:18 +0000
Subject: [PATCH 04/38] fix: printf padding stops at the first character the
 stream refuses

---
 printf-hooks/printf_dfp.c | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/printf-hooks/printf_dfp.c b/printf-hooks/printf_dfp.c
index f962e51..8e7ce53 100644
--- a/printf-hooks/printf_dfp.c
+++ b/printf-hooks/printf_dfp.c
@@ -74,8 +74,11 @@ wpadn (FILE *fp, wint_t pad, int count)
   int written = 0;
 
   for (i=0;i<count;i++)
-      if(putwc(pad,fp) != WEOF)
-	written++;
+    {
+      if(putwc(pad,fp) == WEOF)
+	break;
+      written++;
+    }
 
   return written;
 }
@@ -87,8 +90,11 @@ padn (FILE *fp, int pad, int count)
   int written = 0;
 
   for (i=0;i<count;i++)
-      if(putc(pad,fp) != EOF)
-	written++;
+    {
+      if(putc(pad,fp) == EOF)
+	break;
+      written++;
+    }
 
   return written;
 }
-- 
2.43.0


From 386dbd012be911c999218374b13b0edc9e696475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:24 +0000
Subject: [PATCH 05/38] fix: printf rounds correctly in the directed rounding
 modes

Upward and downward rounding left values such as 0.001 alone when every
digit was dropped, did not look past a dropped zero, and rounded up when
all dropped digits were zero.
---
 printf-hooks/printf_dfp.c | 90 +++++++++++++++++++--------------------
 1 file changed, 45 insertions(+), 45 deletions(-)

diff --git a/printf-hooks/printf_dfp.c b/printf-hooks/printf_dfp.c
index 8e7ce53..a0673b1 100644
--- a/printf-hooks/printf_dfp.c
+++ b/printf-hooks/printf_dfp.c
@@ -635,8 +635,7 @@ __printf_dfp (FILE *fp,
    * existing method would be faster.  */
   if (prec < input_prec)
     {
-      int index, roundmode = 0;
-      char rounddigit = '4';
+      int index, roundmode = FE_DEC_TONEAREST;
 
       if (spec == 'f')
 	/* This may force index to negative, in which case we ignore it at a
@@ -653,57 +652,58 @@ __printf_dfp (FILE *fp,
 
       /* FIXME: we should check rounding mode for %a */
       if (__printf_dfp_getround_callback)
-        {
-          roundmode = (*__printf_dfp_getround_callback)();
+	roundmode = (*__printf_dfp_getround_callback)();
+
+      /* If this is true then the requested precision is smaller than the
+       * default and rounding is required.  If 'exp' was sufficiently negative
+       * 'index' may be negative: every digit is dropped then, and the first
+       * dropped one is a zero.  */
+      if (index < mw)
+	{
+	  char first = index < 0 ? '0' : digits[index];
+	  int odd = index > 0 && (digits[index-1] & 1);
+	  int i, rest = 0, up;
+
+	  for (i = index < 0 ? 0 : index + 1; i < mw; i++)
+	    if (digits[i] != '0')
+	      rest = 1;
 
 	  switch (roundmode)
 	    {
-	      case FE_DEC_TONEAREST: rounddigit = '4'; break;
-	      case FE_DEC_TOWARDZERO: rounddigit = '9'; break;
-	      case FE_DEC_UPWARD: rounddigit = (is_neg ? '9' : '0'-1); break;
-	      case FE_DEC_DOWNWARD: rounddigit = (is_neg ? '0'-1 : '9'); break;
-	      case FE_DEC_TONEARESTFROMZERO: rounddigit = '4'; break;
-	      case 5: rounddigit = '4'; break; /* nearest, ties toward zero */
-	      case 6: rounddigit = '0'-1; break; /* away from zero */
-	      case 7: rounddigit = '4'; break; /* round for shorter precision */
-	      default: rounddigit = '4'; break;
+	      case FE_DEC_TOWARDZERO: up = 0; break;
+	      case FE_DEC_UPWARD: up = !is_neg && (first != '0' || rest); break;
+	      case FE_DEC_DOWNWARD: up = is_neg && (first != '0' || rest); break;
+	      /* nearest, ties to even */
+	      case FE_DEC_TONEAREST: up = first > '5' || (first == '5' && (rest || odd)); break;
+	      case 5: up = first > '5' || (first == '5' && rest); break; /* nearest, ties toward zero */
+	      case 6: up = first != '0' || rest; break; /* away from zero */
+	      case FE_DEC_TONEARESTFROMZERO:
+	      case 7: /* round for shorter precision */
+	      default: up = first >= '5'; break;
 	    }
-	}
 
-      /* If this is true then the requested precision is smaller than the
-      * default and rounding is required.  If 'exp' was sufficiently negative
-      * 'index' may be negative, in which case we don't need to round.  */
-      if (index > 0 && index < mw && digits[index] > rounddigit) 
-	do {
-	  int trailzero = index+1;
-	  if (digits[index] == rounddigit+1)
+	  if (up && index <= 0)
+	    {
+	      /* One unit in the last place printed, which digits[] doesn't
+	       * reach.  */
+	      memset (digits, '0', mw);
+	      digits[mw-1] = '1';
+	      exp = -prec;
+	      n = mw - 1;
+	      nd = 1;
+	    }
+	  else if (up)
 	    {
-	      while (trailzero < mw)
+	      while (digits[--index] == '9')
+		digits[index] = '0';
+	      digits[index]++;
+	      if (index < n)
 		{
-		  if (digits[trailzero] != '0')
-		    {
-		      trailzero = 0;
-		      break;
-		    }
-		  ++trailzero;
+		  nd += n - index;
+		  n = index;
 		}
-	      if (roundmode == FE_DEC_TONEAREST && trailzero &&
-	        (digits[index-1] & 1) == 0) break;
-	      if (roundmode == FE_DEC_UPWARD && !trailzero) break;
-	      if (roundmode == FE_DEC_DOWNWARD && !trailzero) break;
-	      if (roundmode == 5 && trailzero) break;
-	      if (roundmode == 6 && trailzero) break;
-	  }
-
-	while (digits[--index] == '9')
-	  digits[index] = '0';
-	digits[index]++;
-	if (index < n)
-	  {
-	    n--;
-	    nd++;
-	  }
-      } while (0);
+	    }
+	}
     } /* Done rounding.  */
 
   /* If spec == 'a' at this point it means that prec was set by the user
-- 
2.43.0


From 529b77151fe94b2cf3cd459a7321d56628293110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:24 +0000
Subject: [PATCH 06/38] fix: no decimal point after zero digits in %.0f of a
 value below one

---
 printf-hooks/printf_dfp.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/printf-hooks/printf_dfp.c b/printf-hooks/printf_dfp.c
index a0673b1..225a83e 100644
--- a/printf-hooks/printf_dfp.c
+++ b/printf-hooks/printf_dfp.c
@@ -816,7 +816,7 @@ __printf_dfp (FILE *fp,
     {
       n = decpt;
       outchar ('0');
-      if (n < 0)
+      if (n < 0 && prec > 0)
 	{
 	  outchar (wide ? decimalwc.wc : *decimal);
 	  while (n < 0 && n < decpt + prec)
-- 
2.43.0


From 1db2aa362e700fc23e39c2fa08ac46a342d84025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:04 +0000
Subject: [PATCH 07/38] fix: printf %g rounds instead of truncating values
 below one

---
 printf-hooks/printf_dfp.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/printf-hooks/printf_dfp.c b/printf-hooks/printf_dfp.c
index 225a83e..34b11ad 100644
--- a/printf-hooks/printf_dfp.c
+++ b/printf-hooks/printf_dfp.c
@@ -633,7 +633,7 @@ __printf_dfp (FILE *fp,
   /* Do rounding if precision is less than the decimal type.  On hardware DFP
    * this could probably easily be done with quantize but on soft-dfp the
    * existing method would be faster.  */
-  if (prec < input_prec)
+  if (prec < input_prec || spec == 'f')
     {
       int index, roundmode = FE_DEC_TONEAREST;
 
-- 
2.43.0


From 639ce95e9f61b99de07975256918df28a864ea27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:04 +0000
Subject: [PATCH 08/38] fix: printf grouping puts no separator in front of the
 first digit

---
 printf-hooks/printf_dfp.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/printf-hooks/printf_dfp.c b/printf-hooks/printf_dfp.c
index 34b11ad..1789666 100644
--- a/printf-hooks/printf_dfp.c
+++ b/printf-hooks/printf_dfp.c
@@ -780,7 +780,7 @@ __printf_dfp (FILE *fp,
   if (n < decpt)
     {
       width -= decpt - n;
-      if (grouping) width -= (decpt-n)/3;
+      if (grouping) width -= (decpt-n-1)/3;
     }
   else width--;  /* none to the left of the decimal point */
 
@@ -827,6 +827,9 @@ __printf_dfp (FILE *fp,
 	}
     }
 
+  /* No separator goes in front of the first digit.  */
+  int first_digit = n;
+
   /* Print the digits.  If decpt exceeds mw then we know that
    * they're simply trailing zeros and we don't need to display them.  */
   while (n < mw && n < decpt + prec)
@@ -835,7 +838,7 @@ __printf_dfp (FILE *fp,
       {
 	outchar (wide ? decimalwc.wc : *decimal);
       }
-      else if (grouping && n < decpt && (decpt-n)%3 == 0)
+      else if (grouping && n > first_digit && n < decpt && (decpt-n)%3 == 0)
 	outchar (wide ? thousands_sepwc : *thousands_sep);
       outchar (digits[n]);
       n++;
@@ -846,7 +849,7 @@ __printf_dfp (FILE *fp,
     {
       if (n == decpt)
 	outchar (wide ? decimalwc.wc : *decimal);
-      else if (grouping && n < decpt && (decpt-n)%3 == 0)
+      else if (grouping && n > first_digit && n < decpt && (decpt-n)%3 == 0)
 	outchar (wide ? thousands_sepwc : *thousands_sep);
       outchar ('0');
       n++;
-- 
2.43.0


From 3c84c3764367744b355eb4f7e2003f2443dc2d09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:47 +0000
Subject: [PATCH 09/38] fix: printf writes the whole decimal point and
 thousands separator of the locale

Only the first byte of a multi-byte separator was written, the wide
thousands separator was read through a pointer that is none, and wide
characters were written with putc.
---
 printf-hooks/printf_dfp.c | 46 ++++++++++++++++++++++++++-------------
 1 file changed, 31 insertions(+), 15 deletions(-)

diff --git a/printf-hooks/printf_dfp.c b/printf-hooks/printf_dfp.c
index 1789666..ab77926 100644
--- a/printf-hooks/printf_dfp.c
+++ b/printf-hooks/printf_dfp.c
@@ -129,13 +129,24 @@ padn (FILE *fp, int pad, int count)
   do									      \
     {									      \
       register const int outc = (ch);					      \
-      if (PUT(outc, fp) == EOF)						      \
+      if ((wide ? putwc (outc, fp) == WEOF : PUT (outc, fp) == EOF))	      \
 	{								      \
 	  return -1;							      \
 	}								      \
       ++done;								      \
     } while (0)
 
+/* A separator of the locale may take several bytes.  */
+#define outsep(mb, wc)							      \
+  do									      \
+    {									      \
+      if (wide)								      \
+	outchar (wc);							      \
+      else								      \
+	for (const char *sep = (mb); *sep != '\0'; sep++)		      \
+	  outchar (*sep);						      \
+    } while (0)
+
 #define PADN(ch, len)							      \
   do									      \
     {									      \
@@ -366,7 +377,8 @@ __printf_dfp (FILE *fp,
   /* Locale-dependent thousands separator and grouping specification.  */
   const char *thousands_sep = NULL;
   wchar_t thousands_sepwc = 0;
-  const char * thousands_sepmb;
+  union { const char *mb; int wc; } thousands_sepmb;
+  int decimal_len, thousands_sep_len;
 
   const char *grouping;
 
@@ -405,13 +417,13 @@ __printf_dfp (FILE *fp,
 	    {
 	      if (info->extra == 0)
 		{
-		  thousands_sepmb = nl_langinfo (_NL_NUMERIC_THOUSANDS_SEP_WC);
-		  mbrtowc(&thousands_sepwc,thousands_sepmb, CHAR_MAX, NULL);
+		  thousands_sepmb.mb = nl_langinfo (_NL_NUMERIC_THOUSANDS_SEP_WC);
+		  thousands_sepwc = thousands_sepmb.wc;
 		}
 	      else
 		{
-		  thousands_sepmb = nl_langinfo (_NL_MONETARY_THOUSANDS_SEP_WC);
-		  mbrtowc(&thousands_sepwc,thousands_sepmb, CHAR_MAX, NULL);
+		  thousands_sepmb.mb = nl_langinfo (_NL_MONETARY_THOUSANDS_SEP_WC);
+		  thousands_sepwc = thousands_sepmb.wc;
 		}
 	    }
 	  else
@@ -436,6 +448,10 @@ __printf_dfp (FILE *fp,
   else
     grouping = NULL;
 
+  /* What the separators take of the field width.  */
+  decimal_len = wide ? 1 : strlen (decimal);
+  thousands_sep_len = wide || !grouping ? 1 : strlen (thousands_sep);
+
   /* Seriously, only touch this code if you MUST.  */
 
 {
@@ -780,13 +796,13 @@ __printf_dfp (FILE *fp,
   if (n < decpt)
     {
       width -= decpt - n;
-      if (grouping) width -= (decpt-n-1)/3;
+      if (grouping) width -= (decpt-n-1)/3 * thousands_sep_len;
     }
   else width--;  /* none to the left of the decimal point */
 
   /* Digits to the right of the decimal pt. */
-  if (prec > 0) width -= 1 + prec;
-  else if (info->alt) width -= 1;
+  if (prec > 0) width -= decimal_len + prec;
+  else if (info->alt) width -= decimal_len;
 
   if (spec != 'f')
     {
@@ -818,7 +834,7 @@ __printf_dfp (FILE *fp,
       outchar ('0');
       if (n < 0 && prec > 0)
 	{
-	  outchar (wide ? decimalwc.wc : *decimal);
+	  outsep (decimal, decimalwc.wc);
 	  while (n < 0 && n < decpt + prec)
 	    {
 	      outchar ('0');
@@ -836,10 +852,10 @@ __printf_dfp (FILE *fp,
     {
       if (n == decpt)
       {
-	outchar (wide ? decimalwc.wc : *decimal);
+	outsep (decimal, decimalwc.wc);
       }
       else if (grouping && n > first_digit && n < decpt && (decpt-n)%3 == 0)
-	outchar (wide ? thousands_sepwc : *thousands_sep);
+	outsep (thousands_sep, thousands_sepwc);
       outchar (digits[n]);
       n++;
     }
@@ -848,15 +864,15 @@ __printf_dfp (FILE *fp,
   while (n < decpt + prec)
     {
       if (n == decpt)
-	outchar (wide ? decimalwc.wc : *decimal);
+	outsep (decimal, decimalwc.wc);
       else if (grouping && n > first_digit && n < decpt && (decpt-n)%3 == 0)
-	outchar (wide ? thousands_sepwc : *thousands_sep);
+	outsep (thousands_sep, thousands_sepwc);
       outchar ('0');
       n++;
     }
 
   /* print decimal point, if needed */
-  if (n == decpt && info->alt) outchar (wide ? decimalwc.wc : *decimal);
+  if (n == decpt && info->alt) outsep (decimal, decimalwc.wc);
 
   /* The C spec says that for %e, if the value is zero the exponent is zero.
    * This isn't true for the DFP spec for %a so make sure to check info->spec
-- 
2.43.0


From 78da5d1ef668e532537362c872300d09337e1fe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:18 +0000
Subject: [PATCH 10/38] fix: registering printf support again keeps the
 modifiers it already has

Every call of register_printf_dfp took three more of the eight modifier
bits of the C library; once they ran out, the modifiers became -1 and
decimal output was wrong or crashed.  A failed registration is reported.
---
 printf-hooks/printf_dfp.c | 52 +++++++++++++++++++++++++++------------
 1 file changed, 36 insertions(+), 16 deletions(-)

diff --git a/printf-hooks/printf_dfp.c b/printf-hooks/printf_dfp.c
index ab77926..65944e1 100644
--- a/printf-hooks/printf_dfp.c
+++ b/printf-hooks/printf_dfp.c
@@ -906,22 +906,42 @@ hidden_def (__printf_dfp)
 
 int __register_printf_dfp (void)
 {
-  pa_d128 = register_printf_type (d128_va);
-  pa_d32 = register_printf_type (d32_va);
-  pa_d64 = register_printf_type (d64_va);
-
-  mod_DD = register_printf_modifier (L"DD");
-  mod_H = register_printf_modifier (L"H");
-  mod_D = register_printf_modifier (L"D");
-
-  register_printf_specifier ('f', printf_dfp, dfp_ais);
-  register_printf_specifier ('F', printf_dfp, dfp_ais);
-  register_printf_specifier ('e', printf_dfp, dfp_ais);
-  register_printf_specifier ('E', printf_dfp, dfp_ais);
-  register_printf_specifier ('g', printf_dfp, dfp_ais);
-  register_printf_specifier ('G', printf_dfp, dfp_ais);
-  register_printf_specifier ('a', printf_dfp, dfp_ais);
-  register_printf_specifier ('A', printf_dfp, dfp_ais);
+  /* The C library hands out only a few modifiers and never takes one back, so
+     ask once for each, and keep what an attempt got before it failed.  */
+  static int type_d128, type_d32, type_d64;
+  static int modifier_DD, modifier_H, modifier_D;
+  static const char specs[] = "fFeEgGaA";
+  const char *spec;
+
+  if (type_d128 <= 0)
+    type_d128 = register_printf_type (d128_va);
+  if (type_d32 <= 0)
+    type_d32 = register_printf_type (d32_va);
+  if (type_d64 <= 0)
+    type_d64 = register_printf_type (d64_va);
+
+  if (modifier_DD <= 0)
+    modifier_DD = register_printf_modifier (L"DD");
+  if (modifier_H <= 0)
+    modifier_H = register_printf_modifier (L"H");
+  if (modifier_D <= 0)
+    modifier_D = register_printf_modifier (L"D");
+
+  if (type_d128 <= 0 || type_d32 <= 0 || type_d64 <= 0
+      || modifier_DD <= 0 || modifier_H <= 0 || modifier_D <= 0)
+    return -1;
+
+  pa_d128 = type_d128;
+  pa_d32 = type_d32;
+  pa_d64 = type_d64;
+
+  mod_DD = modifier_DD;
+  mod_H = modifier_H;
+  mod_D = modifier_D;
+
+  for (spec = specs; *spec != '\0'; spec++)
+    if (register_printf_specifier (*spec, printf_dfp, dfp_ais) != 0)
+      return -1;
 
   return 0;
 }
-- 
2.43.0


From 3925cd853a3bd671e9cf4dc5e10940dde97d6bc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:43 +0000
Subject: [PATCH 11/38] fix: wcstod reads the wide decimal point of the locale

nl_langinfo returns the wide character itself in place of a pointer;
passing it to mbrtowc made every call of wcstod32/64/128 crash.
---
 stdlib/strtod32.c | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/stdlib/strtod32.c b/stdlib/strtod32.c
index 155bd68..e791923 100644
--- a/stdlib/strtod32.c
+++ b/stdlib/strtod32.c
@@ -342,7 +342,8 @@ FUNCTION_L_INTERNAL (const STRING_TYPE * nptr, STRING_TYPE ** endptr,
 #endif
   /* The radix character of the current locale.  */
 #ifdef USE_WIDE_CHAR
-  const char *decimalmb;
+  /* nl_langinfo returns a wide character in place of a pointer.  */
+  union { const char *mb; unsigned int wc; } decimalwc;
   wchar_t decimal;
 #else
   const char *decimal;
@@ -350,7 +351,7 @@ FUNCTION_L_INTERNAL (const STRING_TYPE * nptr, STRING_TYPE ** endptr,
 #endif
   /* The thousands character of the current locale.  */
 #ifdef USE_WIDE_CHAR
-  const char *thousandsmb = NULL;
+  union { const char *mb; unsigned int wc; } thousandswc;
   wchar_t thousands = L'\0';
 #else
   const char *thousands = NULL;
@@ -373,8 +374,8 @@ FUNCTION_L_INTERNAL (const STRING_TYPE * nptr, STRING_TYPE ** endptr,
 	{
 	  /* Figure out the thousands separator character.  */
 #ifdef USE_WIDE_CHAR
-	  thousandsmb = nl_langinfo(_NL_NUMERIC_THOUSANDS_SEP_WC);
-	  mbrtowc(&thousands,thousandsmb, CHAR_MAX, NULL);
+	  thousandswc.mb = nl_langinfo(_NL_NUMERIC_THOUSANDS_SEP_WC);
+	  thousands = thousandswc.wc;
 
 	  if (thousands == L'\0')
 	    grouping = NULL;
@@ -393,8 +394,8 @@ FUNCTION_L_INTERNAL (const STRING_TYPE * nptr, STRING_TYPE ** endptr,
 
   /* Find the locale's decimal point character.  */
 #ifdef USE_WIDE_CHAR
-  decimalmb = nl_langinfo(_NL_NUMERIC_DECIMAL_POINT_WC);
-  mbrtowc(&decimal,decimalmb, CHAR_MAX, NULL);
+  decimalwc.mb = nl_langinfo(_NL_NUMERIC_DECIMAL_POINT_WC);
+  decimal = decimalwc.wc;
   assert (decimal != L'\0');
 # define decimal_len 1
 #else
-- 
2.43.0


From 5d7135a11eefced6e9a97f557456a9929e8abe11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:30 +0000
Subject: [PATCH 12/38] fix: strtod and wcstod create no locale objects from
 the global locale's name

Each call built two locale objects from setlocale (LC_ALL, NULL) and
leaked one of them; both were used unchecked, so the call crashed when
they could not be created, and a thread's own uselocale setting was
ignored for white space.  Use the locale of the calling thread.
---
 stdlib/strtod32.c | 41 +++++++++++++----------------------------
 1 file changed, 13 insertions(+), 28 deletions(-)

diff --git a/stdlib/strtod32.c b/stdlib/strtod32.c
index e791923..3dcdb89 100644
--- a/stdlib/strtod32.c
+++ b/stdlib/strtod32.c
@@ -88,9 +88,10 @@ extern unsigned long long int ____wcstoull_l_internal (const wchar_t *, wchar_t
 # define STRING_TYPE wchar_t
 # define CHAR_TYPE wint_t
 # define L_(Ch) L##Ch
-# define ISSPACE(Ch) iswspace_l ((Ch), loc)
-# define ISDIGIT(Ch) iswdigit_l ((Ch), loc)
-# define TOLOWER(Ch) towlower_l ((Ch), loc)
+/* LOC is always the current locale of the calling thread.  */
+# define ISSPACE(Ch) iswspace (Ch)
+# define ISDIGIT(Ch) iswdigit (Ch)
+# define TOLOWER(Ch) towlower (Ch)
 //# define TOLOWER_C(Ch) towlower_l ((Ch), nl_C_locobj_ptr)
 # define TOLOWER_C(Ch) towlower_l ((Ch), C_locale)
 # define STRNCASECMP(S1, S2, N) \
@@ -104,9 +105,10 @@ extern unsigned long long int ____wcstoull_l_internal (const wchar_t *, wchar_t
 # define STRING_TYPE char
 # define CHAR_TYPE char
 # define L_(Ch) Ch
-# define ISSPACE(Ch) isspace_l ((Ch), loc)
-# define ISDIGIT(Ch) isdigit_l ((Ch), loc)
-# define TOLOWER(Ch) tolower_l ((Ch), loc)
+/* LOC is always the current locale of the calling thread.  */
+# define ISSPACE(Ch) isspace ((unsigned char) (Ch))
+# define ISDIGIT(Ch) isdigit ((unsigned char) (Ch))
+# define TOLOWER(Ch) tolower ((unsigned char) (Ch))
 # define TOLOWER_C(Ch) tolower_l ((Ch), C_locale)
 //# define TOLOWER_C(Ch) tolower_l ((Ch), _nl_C_locobj_ptr)
 # define STRNCASECMP(S1, S2, N) \
@@ -316,7 +318,7 @@ __correctly_grouped_prefixmb (const STRING_TYPE *begin, const STRING_TYPE *end,
 /* This is of the form __strtod32_l_internal() */
 FLOAT
 FUNCTION_L_INTERNAL (const STRING_TYPE * nptr, STRING_TYPE ** endptr,
-		int group, locale_t loc)
+		int group, locale_t loc __attribute__ ((unused)))
 {
   FLOAT d32 = FLOAT_ZERO;
 
@@ -362,7 +364,8 @@ FUNCTION_L_INTERNAL (const STRING_TYPE * nptr, STRING_TYPE ** endptr,
      in the format described in <locale.h>.  */
   const char *grouping;
 
-  C_locale = newlocale(LC_ALL_MASK, setlocale (LC_ALL, NULL),NULL);
+  /* Takes no memory and cannot fail.  */
+  C_locale = newlocale(LC_ALL_MASK, "C", NULL);
 
   if (group)
     {
@@ -973,16 +976,7 @@ hidden_def(FUNCTION_L_INTERNAL)
 FLOAT
 FUNCTION_INTERNAL (const STRING_TYPE *nptr, STRING_TYPE **endptr, int group)
 {
-  char * curlocale;
-  __locale_t cur_locale_t;
-  FLOAT ret_val;
-
-  curlocale = setlocale(LC_ALL,NULL);
-  cur_locale_t = newlocale(LC_ALL_MASK, curlocale, NULL);
-
-  ret_val = FUNCTION_L_INTERNAL (nptr,endptr,group,cur_locale_t);
-  freelocale(cur_locale_t);
-  return ret_val;
+  return FUNCTION_L_INTERNAL (nptr, endptr, group, uselocale ((locale_t) 0));
 }
 hidden_def(FUNCTION_INTERNAL)
 
@@ -993,14 +987,5 @@ weak_function
 #endif
 FUNCTION_NAME (const STRING_TYPE *nptr, STRING_TYPE **endptr)
 {
-  char * curlocale;
-  __locale_t cur_locale_t;
-  FLOAT ret_val;
-
-  curlocale = setlocale(LC_ALL,NULL);
-  cur_locale_t = newlocale(LC_ALL_MASK, curlocale, NULL);
-
-  ret_val = FUNCTION_L_INTERNAL(nptr, endptr, 0, cur_locale_t);
-  freelocale(cur_locale_t);
-  return ret_val;
+  return FUNCTION_L_INTERNAL (nptr, endptr, 0, uselocale ((locale_t) 0));
 }
-- 
2.43.0


From 20dc4262044cd57a3b208a3ced5fadc6f42261e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:49 +0000
Subject: [PATCH 13/38] fix: strfrom returns the full length and always
 terminates the buffer

It printed through fmemopen, which refuses a buffer of no bytes, leaves
a full buffer unterminated, and makes a failed allocation look like an
empty text.
---
 stdlib/strfromd32.c | 39 ++++++++++++++++++++++++++++++++++-----
 1 file changed, 34 insertions(+), 5 deletions(-)

diff --git a/stdlib/strfromd32.c b/stdlib/strfromd32.c
index f66a1c5..a2387dc 100644
--- a/stdlib/strfromd32.c
+++ b/stdlib/strfromd32.c
@@ -20,8 +20,11 @@
 
    Please see libdfp/COPYING.txt for more information.  */
 
+#define _GNU_SOURCE 1
+
 #include <stdlib.h>
 #include <stdio.h>
+#include <string.h>
 #include <printf.h>
 #include <errno.h>
 #include <ctype.h>
@@ -33,25 +36,49 @@
 #define DECIMALN  _Decimal32
 #endif
 
+/* The caller's buffer: what does not fit is counted by printf_dfp, but
+   not stored.  */
+struct strfrom_buffer
+{
+  char *next;
+  size_t room;
+};
+
+static ssize_t
+strfrom_write (void *cookie, const char *data, size_t size)
+{
+  struct strfrom_buffer *b = cookie;
+  size_t len = size < b->room ? size : b->room;
+
+  memcpy (b->next, data, len);
+  b->next += len;
+  b->room -= len;
+  return size;
+}
+
 int
 FUNC_NAME (char * __restrict s, size_t n, const char * __restrict format, DECIMALN fp)
 {
   /* format = %{[.][0-9]*[aAeEfFgG], else behavior undefined.
      Reuse our printf hook to do this.  */
-  FILE * f = fmemopen (s, n, "w");
+  struct strfrom_buffer b = { s, n > 0 ? n - 1 : 0 };
+  cookie_io_functions_t io = { .write = strfrom_write };
+  FILE * f = fopencookie (&b, "w", io);
+  char iobuf[64];
   const void * const args = &fp;
   const void * const * argsp = &args;
   const void * const * argp = (const void * const *)&argsp;
   struct printf_info info = { 0 };
   int num = 0;
 
-  /* TODO: this is probably better than crashing.  The standard isn't so clear
-     about this.  */
+  /* The standard isn't so clear about this.  errno is set by fopencookie.  */
   if (!f)
     {
-    /* errno set by fmemopen.  */
-    return 0;
+      if (n > 0)
+	s[0] = '\0';
+      return -1;
     }
+  setvbuf (f, iobuf, _IOFBF, sizeof (iobuf));
 
   info.user = sizeof (fp) == 4 ? mod_H : (sizeof (fp) == 8 ? mod_D : mod_DD);
   info.prec = -1;
@@ -84,5 +111,7 @@ FUNC_NAME (char * __restrict s, size_t n, const char * __restrict format, DECIMA
   }
 
   fclose (f);
+  if (n > 0)
+    *b.next = '\0';
   return num;
 }
-- 
2.43.0


From a3b638166703a78e0cebecc5166d29aa98f21a83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:33 +0000
Subject: [PATCH 14/38] fix: C++ extraction reads one token, insertion has room
 for any length

operator>> read CHAR_MAX bytes of raw input whatever the token was, and
left failbit and eofbit to chance; operator<< wrote up to 6 kB of %f
output into 64 bytes.
---
 dfp/decimal/decimal | 72 +++++++++++++++++++++++++++++++++------------
 1 file changed, 54 insertions(+), 18 deletions(-)

diff --git a/dfp/decimal/decimal b/dfp/decimal/decimal
index 852810d..2ec400a 100644
--- a/dfp/decimal/decimal
+++ b/dfp/decimal/decimal
@@ -58,8 +58,6 @@ using namespace std;
 
 #include <stdlib.h> /* Pick up the strtod[32|64|128] prototypes.  */
 #include <stdio.h>  /* Pick up the sprintf prototype.  */
-#include <limits.h> /* For CHAR_MAX.  */
-#include <string.h> /* For memset.  */
 
 template<unsigned int size>
 struct FIND_DEC_MANT_DIG
@@ -115,6 +113,7 @@ public:
     {
       /* If strbuf is big enough for a _Decimal128, it is big enough for the
        * other types as well, so just use the same size for all of them.
+       * Only %f can take more.
        *   1  (leading zero)
        * + 1  (.)
        * + 34 (__DEC128_MANT_DIG__)
@@ -161,11 +160,27 @@ public:
       /* Per the confusing reading of the draft DFP C++ Specification, a/A type
          are never passed with an accompanying precision.  This causes the
 	 implicit precision in the type to be used for printing.  */
-      if (flags & ios::fixed && flags & ios::scientific)
-        sprintf (strbuf, fmtstr.c_str(), d.__getval());
+      bool no_precision = flags & ios::fixed && flags & ios::scientific;
+      int len = (no_precision
+		 ? snprintf (strbuf, sizeof (strbuf), fmtstr.c_str(),
+			     d.__getval())
+		 : snprintf (strbuf, sizeof (strbuf), fmtstr.c_str(),
+			     precision, d.__getval()));
+      if (len < 0)
+	os.setstate (ios::badbit);
+      else if ((unsigned int) len < sizeof (strbuf))
+	os << strbuf;
       else
-        sprintf (strbuf, fmtstr.c_str(), precision, d.__getval());
-      os << strbuf;
+	{
+	  std::string longbuf (len + 1, '\0');
+	  if (no_precision)
+	    snprintf (&longbuf[0], longbuf.size (), fmtstr.c_str(),
+		      d.__getval());
+	  else
+	    snprintf (&longbuf[0], longbuf.size (), fmtstr.c_str(), precision,
+		      d.__getval());
+	  os << longbuf.c_str ();
+	}
       return os;
     }
 
@@ -214,10 +229,17 @@ namespace decimal
     inline std::basic_istream<charT, traits> &
       operator>>(std::basic_istream<charT, traits> & is, decimal32 & d)
       {
-	char buf[CHAR_MAX];
-	memset(buf, '\0', CHAR_MAX);
-	is.read(buf,CHAR_MAX);
-	d.__setval(strtod32(buf, NULL));
+	std::string token;
+	if (is >> token)
+	  {
+	    char *end;
+	    decimal32 value;
+	    value.__setval(strtod32(token.c_str(), &end));
+	    if (end == token.c_str() + token.size())
+	      d = value;
+	    else
+	      is.setstate(ios_base::failbit);
+	  }
 	return is;
       }
 
@@ -225,10 +247,17 @@ namespace decimal
     inline std::basic_istream<charT, traits> &
       operator>>(std::basic_istream<charT, traits> & is, decimal64 & d)
       {
-	char buf[CHAR_MAX];
-	memset(buf, '\0', CHAR_MAX);
-	is.read(buf,CHAR_MAX);
-	d.__setval(strtod64(buf, NULL));
+	std::string token;
+	if (is >> token)
+	  {
+	    char *end;
+	    decimal64 value;
+	    value.__setval(strtod64(token.c_str(), &end));
+	    if (end == token.c_str() + token.size())
+	      d = value;
+	    else
+	      is.setstate(ios_base::failbit);
+	  }
 	return is;
       }
 
@@ -236,10 +265,17 @@ namespace decimal
     inline std::basic_istream<charT, traits> &
       operator>>(std::basic_istream<charT, traits> & is, decimal128 & d)
       {
-	char buf[CHAR_MAX];
-	memset(buf, '\0', CHAR_MAX);
-	is.read(buf,CHAR_MAX);
-	d.__setval(strtod128(buf, NULL));
+	std::string token;
+	if (is >> token)
+	  {
+	    char *end;
+	    decimal128 value;
+	    value.__setval(strtod128(token.c_str(), &end));
+	    if (end == token.c_str() + token.size())
+	      d = value;
+	    else
+	      is.setstate(ios_base::failbit);
+	  }
 	return is;
       }
 
-- 
2.43.0


From 151d1f5e5fb59fbf88f1790bf6c874b77356d413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:46 +0000
Subject: [PATCH 15/38] fix: decimal math needs no heap memory at the precision
 it works with

With the local buffers sized for 36 digits, the 60-digit arithmetic
behind the elementary functions allocated on almost every step and
ignored failure: wrong finite results, and endless loops in the
logarithm.
---
 libdecnumber/decNumberLocal.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/libdecnumber/decNumberLocal.h b/libdecnumber/decNumberLocal.h
index e2cf0eb..5b9d5f9 100644
--- a/libdecnumber/decNumberLocal.h
+++ b/libdecnumber/decNumberLocal.h
@@ -71,10 +71,12 @@ see the files COPYING3 and COPYING.RUNTIME respectively.  If not, see
 
   /* Tuning parameter for decNumber (arbitrary precision) module      */
   #if !defined(DECBUFFER)
-  #define DECBUFFER 36	      /* Size basis for local buffers.	This  */
+  #define DECBUFFER 128	      /* Size basis for local buffers.	This  */
 			      /* should be a common maximum precision */
 			      /* rounded up to a multiple of 4; must  */
-			      /* be zero or positive.		      */
+			      /* be zero or positive.  [libdfp works  */
+			      /* with 60 digits, Ln and Power double  */
+			      /* that; none of it may need malloc.]   */
   #endif
 
   /* ---------------------------------------------------------------- */
-- 
2.43.0


From 9af7599f71f198fba091774ef3f53573d2637ec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:09 +0000
Subject: [PATCH 16/38] fix: printf %.0a keeps the digit it rounds to

With precision 0 the conversion rounded to one digit but then laid out
zero digits, so 0.08 was printed as 0.0 and 0.000012 as 0.0000.
---
 printf-hooks/printf_dfp.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/printf-hooks/printf_dfp.c b/printf-hooks/printf_dfp.c
index 65944e1..7fe98e8 100644
--- a/printf-hooks/printf_dfp.c
+++ b/printf-hooks/printf_dfp.c
@@ -563,6 +563,10 @@ __printf_dfp (FILE *fp,
 	     * digits in the precision.  */
 	    input_prec = nd;
 
+	    /* Rounding leaves at least one digit.  */
+	    if (prec == 0)
+	      prec = 1;
+
 	    /* This same check is done in two different places but it'll only
 	     * effect a single pass through once.  If prec is not set it'll hit
 	     * this instance.  If prec is set it'll hit the next instance.  This
-- 
2.43.0


From d1e7880a986c8c0d1280eaebe58f7be1fc77f810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:36 +0000
Subject: [PATCH 17/38] fix: convert wide integers to decimal with one rounding

A 64-bit integer went to _Decimal32 by way of _Decimal64, and a 128-bit
integer of more than 34 digits was scaled inexactly before its low digits
were added: both round twice.  128-bit integers were rounded as absolute
values, so the directed modes went the wrong way below zero, and the
narrow results of long ones ignored the rounding mode.
---
 base-math/floattitd.c           | 33 +++++++++++++++++++++------------
 libbid/_di_to_sd.c              |  7 ++++---
 libbid/_udi_to_sd.c             |  7 ++++---
 sysdeps/soft-dfp/candtruncd32.c |  2 ++
 4 files changed, 31 insertions(+), 18 deletions(-)

diff --git a/base-math/floattitd.c b/base-math/floattitd.c
index ea98a85..50facb7 100644
--- a/base-math/floattitd.c
+++ b/base-math/floattitd.c
@@ -125,8 +125,9 @@ __BACKEND_ (FUNC) (INPUT_TYPE a)
     }
   else
     {
-      /* Else convert the absolute (unsigned) value to Decimal and
-       * correct the sign later if needed.  */
+      /* Else convert the absolute (unsigned) value to Decimal, chunk by
+       * chunk.  The chunks are exact and take the sign before they are
+       * combined, so that the combination rounds the signed value.  */
       y = u / ten_17;
       z = u % ten_17;
       t_low = (unsigned long long) z;
@@ -135,6 +136,13 @@ __BACKEND_ (FUNC) (INPUT_TYPE a)
 	  t_mid = (unsigned long long) y;
 	  d_mid = t_mid;
 	  d_low = t_low;
+#ifndef UNSIGNED
+	  if (negative)
+	    {
+	      d_mid = -d_mid;
+	      d_low = -d_low;
+	    }
+#endif
 	  result = (d_mid * 100000000000000000.DL) + d_low;
 	}
       else
@@ -146,6 +154,14 @@ __BACKEND_ (FUNC) (INPUT_TYPE a)
 	  d_low = t_low;
 	  d_mid = t_mid;
 	  d_high = t_high;
+#ifndef UNSIGNED
+	  if (negative)
+	    {
+	      d_high = -d_high;
+	      d_mid = -d_mid;
+	      d_low = -d_low;
+	    }
+#endif
 
           /* Call out to internal helpers to properly handle
 	   * conversion and trunctation into a smaller format.
@@ -155,18 +171,11 @@ __BACKEND_ (FUNC) (INPUT_TYPE a)
 #elif RET_SIZE == 32
 	  result = combine_and_truncd32(d_high,d_mid,d_low);
 #else
-	  result = (d_high * 100000000000000000.DL) + d_mid;
-	  result = (result * 100000000000000000.DL) + d_low;
+	  /* Only the last addition may round.  */
+	  result = (d_mid * 100000000000000000.DL) + d_low;
+	  result = (d_high * 1e34DL) + result;
 #endif
 	}
-
-#ifndef UNSIGNED
-      /* Converted the absolute 127-bit value of "a" to Decimal128.
-       * Now correct the decimal sign if the original value
-       * was negative.  */
-      if (negative)
-	result = -result;
-#endif
     }
 
   return (result);
diff --git a/libbid/_di_to_sd.c b/libbid/_di_to_sd.c
index fd2b9fd..cd57d37 100644
--- a/libbid/_di_to_sd.c
+++ b/libbid/_di_to_sd.c
@@ -28,10 +28,11 @@ see the files COPYING3 and COPYING.RUNTIME respectively.  If not, see
 _Decimal32
 __bid_floatdisd (DItype x) {
   union decimal32 res;
-  UINT64 res64;
+  UINT128 res128;
 
-  res64 = __bid64_from_int64 (x);
-  res.i = __bid64_to_bid32 (res64);
+  /* Exact, so that the value is rounded only once.  */
+  res128 = __bid128_from_int64 (x);
+  res.i = __bid128_to_bid32 (res128);
   return (res.d);
 }
 hidden_def(__bid_floatdisd);
diff --git a/libbid/_udi_to_sd.c b/libbid/_udi_to_sd.c
index 62a1285..6eb4c0b 100644
--- a/libbid/_udi_to_sd.c
+++ b/libbid/_udi_to_sd.c
@@ -28,10 +28,11 @@ see the files COPYING3 and COPYING.RUNTIME respectively.  If not, see
 _Decimal32
 __bid_floatunsdisd (UDItype x) {
   union decimal32 res;
-  UINT64 res64;
+  UINT128 res128;
 
-  res64 = __bid64_from_uint64 (x);
-  res.i = __bid64_to_bid32 (res64);
+  /* Exact, so that the value is rounded only once.  */
+  res128 = __bid128_from_uint64 (x);
+  res.i = __bid128_to_bid32 (res128);
   return (res.d);
 }
 hidden_def(__bid_floatunsdisd);
diff --git a/sysdeps/soft-dfp/candtruncd32.c b/sysdeps/soft-dfp/candtruncd32.c
index f1fbca0..980ab05 100644
--- a/sysdeps/soft-dfp/candtruncd32.c
+++ b/sysdeps/soft-dfp/candtruncd32.c
@@ -41,6 +41,7 @@
 #include "dfpmacro.h"
 
 #include "convert_helpers.h"
+#include <mapround.h>
 
 #include <stdio.h>
 
@@ -63,6 +64,7 @@ FUNC_NAME (_Decimal128 hi, _Decimal128 mid, _Decimal128 low)
   decContextDefault (&context, DEC_INIT_DECIMAL128);
   /* Hack, we're using 39 digits here. */
   context.digits = 39;
+  context.round = __dn_getround ();
 
   decNumberFromInt32(&dn_17, 17);
   decNumberFromInt32(&dn_34, 34);
-- 
2.43.0


From 4e7b6ce02314474c558a2460799e7fc752be5975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:29 +0000
Subject: [PATCH 18/38] fix: a non-canonical BID coefficient is a zero

The conversion to DPD that precedes every decNumber operation checked the
_Decimal32 coefficient only; a _Decimal64 one of 10^16 and more and a
_Decimal128 one of 10^34 and more, or in the wide form, came out as some
other number.
---
 libdecnumber/bid/bid2dpd_dpd2bid.c | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/libdecnumber/bid/bid2dpd_dpd2bid.c b/libdecnumber/bid/bid2dpd_dpd2bid.c
index 63d3cec..f614a8b 100644
--- a/libdecnumber/bid/bid2dpd_dpd2bid.c
+++ b/libdecnumber/bid/bid2dpd_dpd2bid.c
@@ -193,6 +193,7 @@ _bid_to_dpd64 (_Decimal64 *pres, _Decimal64 *px) {
     exp = (comb >> 2) & 0x3ff;
     bcoeff = (x & 0x001fffffffffffffull);
   }
+  if (bcoeff >= 10000000000000000ull) bcoeff = 0; /* non-canonical */
   D61 = 2305843009ull; /* Floor(2^61 / 10^9) */
   /* Multiply the binary coefficient by ceil(2^64 / 1000), and take the upper
      64-bits in order to compute a division by 1000. */
@@ -298,9 +299,22 @@ _bid_to_dpd128 (_Decimal128 *pres, _Decimal128 *px) {
   if ((comb & 0x1e000) == 0x1e000) {
     res = x;
   } else { /* normal number */
-    exp = ((x.w[1] & 0x7fff000000000000ull) >> 49) & 0x3fff;
-    bcoeff.w[1] = (x.w[1] & 0x0001ffffffffffffull);
-    bcoeff.w[0] = x.w[0];
+    if ((comb & 0x18000) == 0x18000) {
+      /* the coefficient would have at least 2^113: non-canonical */
+      exp = (x.w[1] >> 47) & 0x3fff;
+      bcoeff.w[1] = 0;
+      bcoeff.w[0] = 0;
+    } else {
+      exp = ((x.w[1] & 0x7fff000000000000ull) >> 49) & 0x3fff;
+      bcoeff.w[1] = (x.w[1] & 0x0001ffffffffffffull);
+      bcoeff.w[0] = x.w[0];
+      if (bcoeff.w[1] > 0x0001ed09bead87c0ull
+          || (bcoeff.w[1] == 0x0001ed09bead87c0ull
+              && bcoeff.w[0] >= 0x378d8e6400000000ull)) {
+        bcoeff.w[1] = 0; /* non-canonical */
+        bcoeff.w[0] = 0;
+      }
+    }
     d1018 = reciprocals10_128[18];
     __mul_128x128_high (BH, bcoeff, d1018);
     amount = recip_scale[18];
-- 
2.43.0


From 05d6b9a76646dce460eda31c94852a119b633464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:13 +0000
Subject: [PATCH 19/38] fix: remainder sets errno for a domain error only, and
 returns x for an infinite y

---
 ieee754r/remainderd32.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/ieee754r/remainderd32.c b/ieee754r/remainderd32.c
index 7af09f2..5e24539 100644
--- a/ieee754r/remainderd32.c
+++ b/ieee754r/remainderd32.c
@@ -61,6 +61,10 @@ IEEE_FUNCTION_NAME (DEC_TYPE x, DEC_TYPE y)
       return (x - x) / (x - x);
     }
 
+  /*  A finite x is its own remainder with respect to +-Inf */
+  if (decNumberIsInfinite (&dn_y))
+    return x;
+
   decContextDefault (&context, DEFAULT_CONTEXT);
   decNumberDivide (&dn_mult, &dn_x, &dn_y, &context);
   context.round = DEC_ROUND_HALF_EVEN;
@@ -77,7 +81,9 @@ DEC_TYPE
 INTERNAL_FUNCTION_NAME (DEC_TYPE x, DEC_TYPE y)
 {
   DEC_TYPE z = IEEE_FUNCTION_NAME (x, y);
-  if (!FUNC_D(__isinf) (x) || (!FUNC_D(__isnan) (x) && y == DFP_CONSTANT(0.0)))
+  /* Domain error: x is infinite or y is zero, and neither is a NaN.  */
+  if (!FUNC_D(__isnan) (x) && !FUNC_D(__isnan) (y)
+      && (FUNC_D(__isinf) (x) || y == DFP_CONSTANT(0.0)))
     DFP_ERRNO (EDOM);
   return z;
 }
-- 
2.43.0


From d8509a083b028971a4881d666b8736323fc4e1df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:13 +0000
Subject: [PATCH 20/38] fix: logd128 reports a pole with ERANGE and a domain
 error with EDOM

---
 ieee754r/logd128.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ieee754r/logd128.c b/ieee754r/logd128.c
index 4deef4c..2c22176 100644
--- a/ieee754r/logd128.c
+++ b/ieee754r/logd128.c
@@ -68,12 +68,14 @@ __logd128 (_Decimal128 x)
     {
       if (x == 0.0DL)
 	{
-	  DFP_ERRNO (EDOM);
+	  DFP_ERRNO (ERANGE);	/* Pole error.  */
+	  DFP_EXCEPT (FE_DIVBYZERO);
 	  return -DEC_INFINITY;
 	}
       else
 	{
-	  DFP_ERRNO (ERANGE);
+	  DFP_ERRNO (EDOM);	/* Domain error.  */
+	  DFP_EXCEPT (FE_INVALID);
 	  return DFP_NAN;
 	}
     }
-- 
2.43.0


From 9f5d8e32e3ec22f4f4d8e81c5b736873421c4f91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:13 +0000
Subject: [PATCH 21/38] fix: expd128 and expd64 report overflow

---
 ieee754r/expd128.c | 13 ++++++++++++-
 ieee754r/expd64.c  |  5 ++++-
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/ieee754r/expd128.c b/ieee754r/expd128.c
index a826c9e..5fd92ff 100644
--- a/ieee754r/expd128.c
+++ b/ieee754r/expd128.c
@@ -28,9 +28,13 @@
 
    Please see libdfp/COPYING.txt for more information.  */
 
+#define _DECIMAL_SIZE 128
+#include <decimal128.h>
 #include <math.h>
 #include <ieee754r_private.h>
 #include <dfp/fenv.h>
+#define FUNCTION_NAME exp
+#include <dfpmacro.h>
 
 #include "dfp_inline.h"
 
@@ -78,7 +82,14 @@ __expd128 (_Decimal128 val)
       if (__builtin_isnan (val))
 	return val + val;
       else if (val > max)
-	return DEC_INFINITY;
+	{
+	  if (!__isinfd128 (val))	/* Overflow.  */
+	    {
+	      DFP_ERRNO (ERANGE);
+	      DFP_EXCEPT (FE_OVERFLOW);
+	    }
+	  return DEC_INFINITY;
+	}
       else
 	return 0.0DL;
     }
diff --git a/ieee754r/expd64.c b/ieee754r/expd64.c
index 0dbb347..970314a 100644
--- a/ieee754r/expd64.c
+++ b/ieee754r/expd64.c
@@ -190,7 +190,10 @@ INTERNAL_FUNCTION_NAME (DEC_TYPE x)
 {
   DEC_TYPE z = IEEE_FUNCTION_NAME (x);
   if (!FUNC_D(__isfinite) (z) && FUNC_D(__isfinite) (x))
-    DFP_ERRNO (ERANGE);
+    {
+      DFP_ERRNO (ERANGE);
+      DFP_EXCEPT (FE_OVERFLOW);
+    }
   return z;
 }
 weak_alias(INTERNAL_FUNCTION_NAME, EXTERNAL_FUNCTION_NAME)
-- 
2.43.0


From 96b855a84cff231d5ff0aadada88101dd53f7676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:13 +0000
Subject: [PATCH 22/38] fix: tgamma of negative integers and -Inf is a domain
 error

---
 ieee754r/tgammad32.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ieee754r/tgammad32.c b/ieee754r/tgammad32.c
index b4c1cf5..347a2ac 100644
--- a/ieee754r/tgammad32.c
+++ b/ieee754r/tgammad32.c
@@ -56,7 +56,7 @@ IEEE_FUNCTION_NAME (DEC_TYPE x)
 //      return FUNC_D (__builtin_signbit) (x) ? -DFP_HUGE_VAL : DFP_HUGE_VAL;
       return (x<0) ? -DFP_HUGE_VAL : DFP_HUGE_VAL;
     }
-  if (x < DFP_CONSTANT(0.0) && (!FUNC_D (__isinf) (x) && FUNC_D (__rint) (x) == x) )
+  if (x < DFP_CONSTANT(0.0) && (FUNC_D (__isinf) (x) || FUNC_D (__rint) (x) == x) )
     {
       DFP_EXCEPT (FE_INVALID);
       return DFP_NAN;
@@ -75,7 +75,7 @@ INTERNAL_FUNCTION_NAME (DEC_TYPE x)
   DEC_TYPE z = IEEE_FUNCTION_NAME (x);
   if (!FUNC_D(__isfinite) (z) && FUNC_D(__isfinite) (x))
     DFP_ERRNO (ERANGE);
-  if (x < DFP_CONSTANT(0.0) && (FUNC_D (__isinf) (x) && FUNC_D (__rint) (x) == x) )
+  if (x < DFP_CONSTANT(0.0) && (FUNC_D (__isinf) (x) || FUNC_D (__rint) (x) == x) )
     DFP_ERRNO (EDOM);
   return z;
 }
-- 
2.43.0


From 63b53d68c9583410f9bf5aa8cb0826f159169596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:13 +0000
Subject: [PATCH 23/38] fix: fmod of a NaN is no domain error, and a domain
 error raises invalid

---
 sysdeps/bid/fmodd32.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/sysdeps/bid/fmodd32.c b/sysdeps/bid/fmodd32.c
index c9f5075..d808afa 100644
--- a/sysdeps/bid/fmodd32.c
+++ b/sysdeps/bid/fmodd32.c
@@ -70,7 +70,11 @@ INTERNAL_FUNCTION_NAME (DEC_TYPE x, DEC_TYPE y)
       || decNumberIsZero (&dn_y))
     {
       result.bits = DECNAN;
-      DFP_ERRNO (EDOM);
+      if (!decNumberIsNaN (&dn_x) && !decNumberIsNaN (&dn_y))
+	{
+	  DFP_ERRNO (EDOM);
+	  DFP_EXCEPT (FE_INVALID);
+	}
       goto done;
     }
 
-- 
2.43.0


From 2500d8d1b8cd759494bdccd561028d82a8de8694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:13 +0000
Subject: [PATCH 24/38] fix: nextafter and nexttoward of a NaN leave errno
 alone

---
 ieee754r/nextafterd32.c  | 2 +-
 ieee754r/nexttowardd32.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/ieee754r/nextafterd32.c b/ieee754r/nextafterd32.c
index 42762d2..8d10a92 100644
--- a/ieee754r/nextafterd32.c
+++ b/ieee754r/nextafterd32.c
@@ -95,7 +95,7 @@ DEC_TYPE
 INTERNAL_FUNCTION_NAME (DEC_TYPE x, DEC_TYPE y)
 {
   DEC_TYPE z = IEEE_FUNCTION_NAME (x, y);
-  if (!FUNC_D (__isfinite) (z) && FUNC_D (__isfinite) (x))
+  if (FUNC_D (__isinf) (z) && FUNC_D (__isfinite) (x))
     DFP_ERRNO (ERANGE);
   /* TODO: Handle underflow here */
   return z;
diff --git a/ieee754r/nexttowardd32.c b/ieee754r/nexttowardd32.c
index dd77abf..0b399de 100644
--- a/ieee754r/nexttowardd32.c
+++ b/ieee754r/nexttowardd32.c
@@ -97,7 +97,7 @@ DEC_TYPE
 INTERNAL_FUNCTION_NAME (DEC_TYPE x, _Decimal128 y)
 {
   DEC_TYPE z = IEEE_FUNCTION_NAME (x, y);
-  if (!FUNC_D(__isfinite) (z) && FUNC_D(__isfinite) (x))
+  if (FUNC_D(__isinf) (z) && FUNC_D(__isfinite) (x))
     DFP_ERRNO (ERANGE);
   /* TODO: Handle underflow */
   return z;
-- 
2.43.0


From 111b4e221de3f63e11d902f05f987109c5b986ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:13 +0000
Subject: [PATCH 25/38] fix: powd32 reports an overflow of the narrower type

---
 ieee754r/powd32.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/ieee754r/powd32.c b/ieee754r/powd32.c
index d335960..cce8409 100644
--- a/ieee754r/powd32.c
+++ b/ieee754r/powd32.c
@@ -24,12 +24,19 @@
    Please see libdfp/COPYING.txt for more information.  */
 
 #include <math.h>
+#include <errno.h>
+#include <ieee754r_private.h>
 
 extern _Decimal64 __powd64(_Decimal64, _Decimal64);
 
 _Decimal32
 __powd32 (_Decimal32 x, _Decimal32 y)
 {
-  return (_Decimal32) __powd64((_Decimal64) x, (_Decimal64) y);
+  _Decimal64 r = __powd64((_Decimal64) x, (_Decimal64) y);
+  _Decimal32 z = (_Decimal32) r;
+  /* Overflow that only the narrower type meets; powd64 reports its own.  */
+  if (__isinfd32 (z) && !__isinfd64 (r))
+    errno = ERANGE;
+  return z;
 }
 weak_alias(__powd32, powd32)
-- 
2.43.0


From 9006816a3074d626d277230a95823907ca32f8ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:14 +0000
Subject: [PATCH 26/38] fix: powd64 accepts subnormal operands and raises
 divide-by-zero at a pole

---
 ieee754r/powd64.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/ieee754r/powd64.c b/ieee754r/powd64.c
index dd11f6b..cb5c5a5 100644
--- a/ieee754r/powd64.c
+++ b/ieee754r/powd64.c
@@ -80,7 +80,8 @@ IEEE_FUNCTION_NAME (_Decimal64 x, _Decimal64 y)
   int y_class = __fpclassifyd64 (y);
   if (!(x_class == FP_NORMAL && y_class == FP_NORMAL))
     {
-      if (y_class == FP_SUBNORMAL && y_class == FP_SUBNORMAL)
+      if ((x_class == FP_NORMAL || x_class == FP_SUBNORMAL)
+	  && (y_class == FP_NORMAL || y_class == FP_SUBNORMAL))
 	{
 	  /* Handle normally */
 	}
@@ -174,7 +175,10 @@ INTERNAL_FUNCTION_NAME (_Decimal64 x, _Decimal64 y)
   _Decimal64 z = IEEE_FUNCTION_NAME (x, y);
   /* Pole error: x = 0, y < 0 (non-inf). Set ERANGE in accordance with C99 */
   if (x == 0.DD && __isfinited64 (y) && y < 0.DD)
-    DFP_ERRNO (ERANGE);
+    {
+      DFP_ERRNO (ERANGE);
+      DFP_EXCEPT (FE_DIVBYZERO);
+    }
   if (!__isfinited64 (z) && __isfinited64 (x) && __isfinited64 (y))
     {
       if (__isnand64 (z))	/*  Domain error was triggered, x < 0 and y was not an odd int */
-- 
2.43.0


From 415df530c207b3a9f84bb455da06da4b172f6978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:14 +0000
Subject: [PATCH 27/38] fix: fma rounds once and reports overflow; a NaN
 operand is no domain error

---
 ieee754r/fmad32.c | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/ieee754r/fmad32.c b/ieee754r/fmad32.c
index 268f042..3bcf24c 100644
--- a/ieee754r/fmad32.c
+++ b/ieee754r/fmad32.c
@@ -48,7 +48,6 @@ IEEE_FUNCTION_NAME (DEC_TYPE x, DEC_TYPE y, DEC_TYPE z)
   DEC_TYPE result;
   decNumber dn_x;
   decNumber dn_y;
-  decNumber dn_product;
   decNumber dn_z;
 
   FUNC_CONVERT_TO_DN (&x, &dn_x);
@@ -71,19 +70,24 @@ IEEE_FUNCTION_NAME (DEC_TYPE x, DEC_TYPE y, DEC_TYPE z)
     return z+z;
 
   decContextDefault (&context, DEFAULT_CONTEXT);
-  decNumberMultiply (&dn_product, &dn_x, &dn_y, &context);
 
   /* Domain error if x*y = Inf and z=Inf (with opposite signs) */
-  if (decNumberIsInfinite (&dn_product) && decNumberIsInfinite (&dn_z) &&
-	(decNumberIsNegative (&dn_product) != decNumberIsNegative (&dn_z)))
+  if ((decNumberIsInfinite (&dn_x) || decNumberIsInfinite (&dn_y))
+      && decNumberIsInfinite (&dn_z)
+      && ((decNumberIsNegative (&dn_x) ^ decNumberIsNegative (&dn_y))
+	  != decNumberIsNegative (&dn_z)))
     {
       DFP_EXCEPT (FE_INVALID);
       return DFP_NAN;
     }
-  decNumberAdd (&dn_result, &dn_product, &dn_z, &context);
+  /* The product is neither rounded nor can it overflow on its own.  */
+  decNumberFMA (&dn_result, &dn_x, &dn_y, &dn_z, &context);
 
   FUNC_CONVERT_FROM_DN (&dn_result, &result, &context);
 
+  if (context.status & DEC_Overflow)
+    DFP_EXCEPT (FE_OVERFLOW);
+
   return result;
 }
 
@@ -94,10 +98,11 @@ INTERNAL_FUNCTION_NAME (DEC_TYPE x, DEC_TYPE y, DEC_TYPE z)
   if ( (FUNC_D(__isinf) (x) && y == DFP_CONSTANT(0.0)) ||
 	(FUNC_D(__isinf) (y) && x == DFP_CONSTANT(0.0)) )
       DFP_ERRNO(EDOM);
-  else if (FUNC_D (__isinf) (z))
+  else if (FUNC_D (__isinf) (z) && !FUNC_D (__isnan) (x)
+	   && !FUNC_D (__isnan) (y))
     {
       int isneg = FUNC_D(__signbit) (x) ^ FUNC_D(__signbit) (y);
-      int inf = FUNC_D(__isinf) (x) | FUNC_D(__isinf) (y);
+      int inf = FUNC_D(__isinf) (x) || FUNC_D(__isinf) (y);
       if ( inf && FUNC_D (__signbit) (z) != isneg)
 	DFP_ERRNO (EDOM);
     }
-- 
2.43.0


From 73f926a5d7c2541a4b9510caae42486c3ddff532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:14 +0000
Subject: [PATCH 28/38] fix: scalbn and scalbln over- or underflow for a large
 exponent

---
 ieee754r/scalblnd32.c | 18 +++++++++++-------
 ieee754r/scalbnd32.c  |  9 +++++++++
 2 files changed, 20 insertions(+), 7 deletions(-)

diff --git a/ieee754r/scalblnd32.c b/ieee754r/scalblnd32.c
index 3847cbf..823632d 100644
--- a/ieee754r/scalblnd32.c
+++ b/ieee754r/scalblnd32.c
@@ -44,6 +44,7 @@ IEEE_FUNCTION_NAME (DEC_TYPE x, long y)
   decContext context;
   DEC_TYPE result;
   decNumber dn_x, dn_y;
+  long limit;
 /*   long long int sum=0LL;  */
 /*  uint32_t temp2 = 0;  */
   /* Otherwise this may pass a bad residue to decFinalize which can result in
@@ -66,13 +67,16 @@ IEEE_FUNCTION_NAME (DEC_TYPE x, long y)
 //
 //  decFinalize(&dn_x, &context, &temp, &temp2);
 
-  if (y >= 1000000000L || y <= -2000000000L)
-    context.status |= DEC_Overflow;
-  else 
-    {
-    decNumberFromInt32(&dn_y, (int)y);
-    decNumberScaleB(&dn_x, &dn_x, &dn_y, &context);
-    }
+  /* decNumberScaleB rejects what lies beyond this limit, where every finite
+   * nonzero x over- or underflows already.  */
+  limit = 2 * (context.emax + context.digits);
+  if (y > limit)
+    y = limit;
+  else if (y < -limit)
+    y = -limit;
+
+  decNumberFromInt32(&dn_y, (int)y);
+  decNumberScaleB(&dn_x, &dn_x, &dn_y, &context);
 
   FUNC_CONVERT_FROM_DN(&dn_x, &result, &context);
   if (context.status & DEC_Overflow)
diff --git a/ieee754r/scalbnd32.c b/ieee754r/scalbnd32.c
index 57a53e2..bd4865a 100644
--- a/ieee754r/scalbnd32.c
+++ b/ieee754r/scalbnd32.c
@@ -46,6 +46,7 @@ IEEE_FUNCTION_NAME (DEC_TYPE x, int y)
   decContext context;
   DEC_TYPE result;
   decNumber dn_x, dn_y;
+  int limit;
 /*  long int sum = 0L; */
 /*  uint32_t temp2 = 0; */
   /* Otherwise this may pass a bad residue to decFinalize which can result in
@@ -67,6 +68,14 @@ IEEE_FUNCTION_NAME (DEC_TYPE x, int y)
 //
 //  decFinalize(&dn_x, &context, &temp, &temp2);
 
+  /* decNumberScaleB rejects what lies beyond this limit, where every finite
+   * nonzero x over- or underflows already.  */
+  limit = 2 * (context.emax + context.digits);
+  if (y > limit)
+    y = limit;
+  else if (y < -limit)
+    y = -limit;
+
   decNumberFromInt32(&dn_y, y);
   decNumberScaleB(&dn_x, &dn_x, &dn_y, &context);
 
-- 
2.43.0


From e5129f1db204eb6f17f212b834e2fd2189925336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:14 +0000
Subject: [PATCH 29/38] fix: ldexp of zero, infinity, NaN and of results near
 the ends of the range

---
 ieee754r/ldexpd32.c | 39 +++++++++++++++++++++------------------
 1 file changed, 21 insertions(+), 18 deletions(-)

diff --git a/ieee754r/ldexpd32.c b/ieee754r/ldexpd32.c
index 4b06ed4..de85e0b 100644
--- a/ieee754r/ldexpd32.c
+++ b/ieee754r/ldexpd32.c
@@ -45,31 +45,34 @@
 static DEC_TYPE
 IEEE_FUNCTION_NAME (DEC_TYPE x, int y)
 {
-  DEC_TYPE result, tiny;
+  DEC_TYPE result;
   long newexp;
+#if NUMDIGITS_SUPPORT==1
   int minexp = PASTE(DECIMAL,PASTE(_DECIMAL_SIZE,_Emin));
   int p = PASTE(DECIMAL,PASTE(_DECIMAL_SIZE,_Pmax));
-
-#if NUMDIGITS_SUPPORT==1
-  newexp = FUNC_D (getexp) (x) + y;
-  if (newexp > PASTE(DECIMAL,PASTE(_DECIMAL_SIZE,_Emax)))
+  /* The quantum exponents setexp can express without loss.  */
+  int maxq = PASTE(DECIMAL,PASTE(_DECIMAL_SIZE,_Emax)) - p + 1;
+  int minq = minexp - p + 1;
+
+  if (!FUNC_D(__isfinite) (x))
+    return x + x;
+  newexp = (long) FUNC_D (getexp) (x) + y;
+  if (x == DFP_CONSTANT(0.0))
+    result = FUNC_D(setexp) (x, newexp > maxq ? maxq
+			     : newexp < minq ? minq : newexp);
+  else if (newexp > maxq)
     {
-    result = FUNC_D(__copysign)(DFP_HUGE_VAL, x);
-    DFP_EXCEPT (FE_OVERFLOW);
+      /* Use a multiply, which may still pad the coefficient, or overflows.  */
+      newexp -= maxq;
+      result = FUNC_D(setexp) (x, maxq)
+	       * FUNC_D(setexp) (DFP_CONSTANT(1.), newexp > maxq ? maxq : newexp);
     }
   else if (newexp < minexp)
     {
-    /* Check if the result might be subnormal. */
-    if( newexp > (minexp - p))
-      {
-        result = FUNC_D(setexp) (x, minexp);
-        /* Use a multiply so we correctly round whatever may shifts out. */
-        tiny = FUNC_D(setexp) (1.DL, newexp - minexp);
-        return result * tiny;
-      }
-    result = DFP_CONSTANT(0.0);
-    DFP_EXCEPT (FE_UNDERFLOW);
-    return result;
+      /* Use a multiply so we correctly round whatever may shift out.  */
+      newexp -= minexp;
+      result = FUNC_D(setexp) (x, minexp)
+	       * FUNC_D(setexp) (DFP_CONSTANT(1.), newexp < minq ? minq : newexp);
     }
   else
     result = FUNC_D(setexp) (x, newexp);
-- 
2.43.0


From 284904023961b662c27196679ebe7013ac0232d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:14 +0000
Subject: [PATCH 30/38] fix: quantize raises invalid for a domain error

---
 ieee754r/quantized32.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ieee754r/quantized32.c b/ieee754r/quantized32.c
index 8cea627..c1b7b88 100644
--- a/ieee754r/quantized32.c
+++ b/ieee754r/quantized32.c
@@ -55,6 +55,9 @@ INTERNAL_FUNCTION_NAME (DEC_TYPE x, DEC_TYPE y)
   decContextDefault(&context, DEFAULT_CONTEXT);
   context.round = __dn_getround();
   decNumberQuantize(&dn_result, &dn_x, &dn_y, &context);
+  if (decNumberIsNaN (&dn_result) && !decNumberIsNaN (&dn_x)
+      && !decNumberIsNaN (&dn_y))
+    DFP_EXCEPT (FE_INVALID);
 
   FUNC_CONVERT_FROM_DN(&dn_result, &result, &context);
 
-- 
2.43.0


From a1bd7095b9337b5a1318b4292277a0f512dad6c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:40 +0000
Subject: [PATCH 31/38] fix: underflow is detected before rounding, as IEEE 754
 requires of decimal formats

---
 libbid/bid128_fma.c      |  2 ++
 libbid/bid32_to_bid128.c | 11 +----------
 libbid/bid32_to_bid64.c  |  4 ----
 libbid/bid64_mul.c       |  8 +-------
 libbid/bid64_to_bid128.c | 11 +----------
 5 files changed, 5 insertions(+), 31 deletions(-)

diff --git a/libbid/bid128_fma.c b/libbid/bid128_fma.c
index 5804115..67a23cf 100644
--- a/libbid/bid128_fma.c
+++ b/libbid/bid128_fma.c
@@ -1287,6 +1287,8 @@ bid128_ext_fma (int *ptr_is_midpoint_lt_even,
   if (C3.w[1] == 0x0 && C3.w[0] == 0x0) { // x = f, y = f, z = 0
     save_fpsf = *pfpsf; // sticky bits - caller value must be preserved
     *pfpsf = 0;
+    // tininess is detected before rounding
+    is_tiny = q4 + e4 < expmin + P34;
 
     if (q4 > p34) {
 
diff --git a/libbid/bid32_to_bid128.c b/libbid/bid32_to_bid128.c
index 0c87633..1aef0a5 100644
--- a/libbid/bid32_to_bid128.c
+++ b/libbid/bid32_to_bid128.c
@@ -75,7 +75,7 @@ UINT32
 bid128_to_bid32 (UINT128 x _RND_MODE_PARAM _EXC_FLAGS_PARAM
 		 _EXC_MASKS_PARAM _EXC_INFO_PARAM) {
 #endif
-  UINT128 CX, T128, TP128, Qh, Ql, Qh1, Stemp, Tmp, Tmp1, CX1;
+  UINT128 CX, T128, TP128, Qh, Ql, Qh1, Stemp, Tmp, Tmp1;
   UINT64 sign_x, carry, cy;
   SINT64 D;
   UINT32 res;
@@ -150,15 +150,6 @@ bid128_to_bid32 (UINT128 x _RND_MODE_PARAM _EXC_FLAGS_PARAM
       uf_check = 1;
       if (-extra_digits + exponent_x - DECIMAL_EXPONENT_BIAS_128 +
 	  DECIMAL_EXPONENT_BIAS_32 + 35 >= 0) {
-	if (exponent_x ==
-	    DECIMAL_EXPONENT_BIAS_128 - DECIMAL_EXPONENT_BIAS_32 - 1) {
-	  T128 = round_const_table_128[rmode][extra_digits];
-	  __add_carry_out (CX1.w[0], carry, T128.w[0], CX.w[0]);
-	  CX1.w[1] = CX.w[1] + T128.w[1] + carry;
-	  if (__unsigned_compare_ge_128
-	      (CX1, power10_table_128[extra_digits + 7]))
-	    uf_check = 0;
-	}
 	extra_digits =
 	  extra_digits + DECIMAL_EXPONENT_BIAS_128 -
 	  DECIMAL_EXPONENT_BIAS_32 - exponent_x;
diff --git a/libbid/bid32_to_bid64.c b/libbid/bid32_to_bid64.c
index eff4014..7257be3 100644
--- a/libbid/bid32_to_bid64.c
+++ b/libbid/bid32_to_bid64.c
@@ -139,10 +139,6 @@ bid64_to_bid32 (UINT64 x _RND_MODE_PARAM _EXC_FLAGS_PARAM
     exponent_x += extra_digits;
     if ((exponent_x < 0) && (exponent_x + MAX_FORMAT_DIGITS_32 >= 0)) {
       status = UNDERFLOW_EXCEPTION;
-      if (exponent_x == -1)
-	if (coefficient_x + round_const_table[rmode][extra_digits] >=
-	    power10_table_128[extra_digits + 7].w[0])
-	  status = 0;
       extra_digits -= exponent_x;
       exponent_x = 0;
     }
diff --git a/libbid/bid64_mul.c b/libbid/bid64_mul.c
index 2c0c850..00ed0bc 100644
--- a/libbid/bid64_mul.c
+++ b/libbid/bid64_mul.c
@@ -57,7 +57,7 @@ bid64_mul (UINT64 x,
 	   UINT64 y _RND_MODE_PARAM _EXC_FLAGS_PARAM
 	   _EXC_MASKS_PARAM _EXC_INFO_PARAM) {
 #endif
-  UINT128 P, PU, C128, Q_high, Q_low, Stemp;
+  UINT128 P, C128, Q_high, Q_low, Stemp;
   UINT64 sign_x, sign_y, coefficient_x, coefficient_y;
   UINT64 C64, remainder_h, carry, CY, res;
   UINT64 valid_x, valid_y;
@@ -229,12 +229,6 @@ bid64_mul (UINT64 x,
 	}
 
 	uf_status = UNDERFLOW_EXCEPTION;
-	if (final_exponent == -1) {
-	  __add_128_64 (PU, P, round_const_table[rmode][extra_digits]);
-	  if (__unsigned_compare_ge_128
-	      (PU, power10_table_128[extra_digits + 16]))
-	    uf_status = 0;
-	}
 	extra_digits -= final_exponent;
 	final_exponent = 0;
 
diff --git a/libbid/bid64_to_bid128.c b/libbid/bid64_to_bid128.c
index b3da756..f5fc5d9 100644
--- a/libbid/bid64_to_bid128.c
+++ b/libbid/bid64_to_bid128.c
@@ -74,7 +74,7 @@ UINT64
 bid128_to_bid64 (UINT128 x _RND_MODE_PARAM _EXC_FLAGS_PARAM
 		 _EXC_MASKS_PARAM _EXC_INFO_PARAM) {
 #endif
-  UINT128 CX, T128, TP128, Qh, Ql, Qh1, Stemp, Tmp, Tmp1, CX1;
+  UINT128 CX, T128, TP128, Qh, Ql, Qh1, Stemp, Tmp, Tmp1;
   UINT64 sign_x, carry, cy, res;
   SINT64 D;
   int_float f64, fx;
@@ -148,15 +148,6 @@ bid128_to_bid64 (UINT128 x _RND_MODE_PARAM _EXC_FLAGS_PARAM
       uf_check = 1;
       if (-extra_digits + exponent_x - DECIMAL_EXPONENT_BIAS_128 +
 	  DECIMAL_EXPONENT_BIAS + 35 >= 0) {
-	if (exponent_x ==
-	    DECIMAL_EXPONENT_BIAS_128 - DECIMAL_EXPONENT_BIAS - 1) {
-	  T128 = round_const_table_128[rmode][extra_digits];
-	  __add_carry_out (CX1.w[0], carry, T128.w[0], CX.w[0]);
-	  CX1.w[1] = CX.w[1] + T128.w[1] + carry;
-	  if (__unsigned_compare_ge_128
-	      (CX1, power10_table_128[extra_digits + 16]))
-	    uf_check = 0;
-	}
 	extra_digits =
 	  extra_digits + DECIMAL_EXPONENT_BIAS_128 -
 	  DECIMAL_EXPONENT_BIAS - exponent_x;
-- 
2.43.0


From 8dde6ffbf44acb2d6b4197bd6e88c00ea244cb06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:49 +0000
Subject: [PATCH 32/38] fix: strtod and wcstod round once, also near the ends
 of the range

Texts whose rounding overflows gave NaN, or an infinity without ERANGE;
some with the last exponents gave zero (strtod64 ("99e379")); digits were
rounded more than once; underflow lost the sign.  Collect the significant
digits and convert them with one rounding in the current mode.
---
 stdlib/strtod32.c | 301 ++++++++++++++--------------------------------
 1 file changed, 89 insertions(+), 212 deletions(-)

diff --git a/stdlib/strtod32.c b/stdlib/strtod32.c
index 3dcdb89..053f63d 100644
--- a/stdlib/strtod32.c
+++ b/stdlib/strtod32.c
@@ -76,9 +76,19 @@
 # define __DEC_MIN_EXP__ __DEC32_MIN_EXP__
 #endif
 
-#define DEC_TYPE	FLOAT
 #define _DECIMAL_SIZE	FLOAT_SIZE
-#include <numdigits.h>
+
+/* Two digits more than the type holds are converted.  */
+#define DECNUMDIGITS	39
+#include <decContext.h>
+#include <decNumber.h>
+#include <decimal32.h>
+#include <decimal64.h>
+#include <decimal128.h>
+#include <mapround.h>
+#include <ieee754r_private.h>
+#include <fenv.h>
+#include <dfpmacro.h>
 
 #ifdef USE_WIDE_CHAR
 extern unsigned long long int ____wcstoull_l_internal (const wchar_t *, wchar_t **,
@@ -124,8 +134,8 @@ extern unsigned long long int ____wcstoull_l_internal (const wchar_t *, wchar_t
 #define DIG		PASTE(PASTE(__,FLT),_DIG__)
 //#define MAX_EXP		PASTE(FLT,_MAX_EXP)
 //#define MIN_EXP		PASTE(FLT,_MIN_EXP)
-#define MAX_10_EXP	PASTE(PASTE(__,FLT),_MAX_EXP__)
-#define MIN_10_EXP	PASTE(PASTE(__,FLT),_MIN_EXP__)
+#define DECIMAL_N	PASTE(decimal,FLOAT_SIZE)
+#define DECIMAL_FROM_NUMBER	PASTE(DECIMAL_N,FromNumber)
 #define FUNCTION_NAME	PASTE(PASTE(STRTO_PREFIX,d),FLOAT_SIZE)
 #define __FUNCTION_NAME	PASTE(__,FUNCTION_NAME)
 #define FUNCTION_INTERNAL	PASTE(__FUNCTION_NAME,_internal)
@@ -154,6 +164,14 @@ extern unsigned long long int ____wcstoull_l_internal (const wchar_t *, wchar_t
 			   _a > _b ? _a : _b; })
 #endif
 
+#ifndef MIN
+#define MIN(a,b)	({ typeof(a) _a = (a); typeof(b) _b = (b); \
+			   _a < _b ? _a : _b; })
+#endif
+
+/* Far beyond the range of every type, but not of decNumber.  */
+#define EXP_LIMIT	100000
+
 /* Find the maximum prefix of the string between BEGIN and END which
    satisfies the grouping rules.  It is assumed that at least one digit
    follows BEGIN directly.  */
@@ -332,7 +350,12 @@ FUNCTION_L_INTERNAL (const STRING_TYPE * nptr, STRING_TYPE ** endptr,
   /* Points at the character following the integer and fractional digits.  */
   const STRING_TYPE *expp;
   /* Total number of digit and number of digits in integer part.  */
-  int dig_no, int_no, lead_zero;
+  int dig_no, int_no;
+  /* The significant digits, and what they amount to.  */
+  char digits[MANT_DIG + 3];
+  int ndigits = 0;
+  decNumber number;
+  decContext context;
   /* Contains the last character read.  */
   CHAR_TYPE c;
   __locale_t C_locale;
@@ -639,7 +662,6 @@ FUNCTION_L_INTERNAL (const STRING_TYPE * nptr, STRING_TYPE ** endptr,
 	      ++dig_no;
 
 	  int_no = dig_no;
-	  lead_zero = 0;
 
 	  goto number_parsed;
 	}
@@ -648,7 +670,6 @@ FUNCTION_L_INTERNAL (const STRING_TYPE * nptr, STRING_TYPE ** endptr,
   /* We have the number digits in the integer part.  Whether these are all or
      any is really a fractional digit will be decided later.  */
   int_no = dig_no;
-  lead_zero = int_no == 0 ? -1 : 0;  /* FIXME: Why was this -1 */
 
   /* Read the fractional digits.  A special case are the 'american style'
      numbers like `16.' i.e. with decimal but without trailing digits.  */
@@ -667,8 +688,6 @@ FUNCTION_L_INTERNAL (const STRING_TYPE * nptr, STRING_TYPE ** endptr,
       c = *cp;
       while (c >= L_('0') && c <= L_('9'))
 	{
-	  if (c != L_('0') && lead_zero == -1)
-	    lead_zero = dig_no - int_no;
 	  ++dig_no;
 	  c = *++cp;
 	}
@@ -693,47 +712,12 @@ FUNCTION_L_INTERNAL (const STRING_TYPE * nptr, STRING_TYPE ** endptr,
 
       if (c >= L_('0') && c <= L_('9'))
 	{
-	  int exp_limit;
-
-	  /* Get the exponent limit. */
-	  exp_limit = (exp_negative ?
-		       -MIN_10_EXP + MANT_DIG + int_no :
-		       MAX_10_EXP - int_no + lead_zero);
-
+	  /* Large enough to count as over- or underflow whatever the digits
+	     are is large enough.  */
 	  do
 	    {
-	      exponent *= 10;
-
-	      if (exponent > exp_limit)
-		/* The exponent is too large/small to represent a valid
-		   number.  */
-		{
-		  FLOAT result;
-
-		  /* We have to take care for special situation: a joker
-		     might have written "0.0e100000" which is in fact
-		     zero.  */
-		  if (lead_zero == -1)
-		    result = negative ? -FLOAT_ZERO : FLOAT_ZERO;
-		  else
-		    {
-		      /* Overflow or underflow.  */
-		      __set_errno (ERANGE);
-		      result = (exp_negative ? FLOAT_ZERO :
-				negative ? -FLOAT_HUGE_VAL : FLOAT_HUGE_VAL);
-		    }
-
-		  /* Accept all following digits as part of the exponent.  */
-		  do
-		    ++cp;
-		  while (*cp >= L_('0') && *cp <= L_('9'));
-
-		  freelocale(C_locale);
-		  RETURN (result, cp);
-		  /* NOTREACHED */
-		}
-
-	      exponent += c - L_('0');
+	      if (exponent < 100000000)
+		exponent = exponent * 10 + (c - L_('0'));
 	      c = *++cp;
 	    }
 	  while (c >= L_('0') && c <= L_('9'));
@@ -781,194 +765,87 @@ FUNCTION_L_INTERNAL (const STRING_TYPE * nptr, STRING_TYPE ** endptr,
   if (endptr)
     *endptr = (STRING_TYPE *) cp;
 
-  if (dig_no == 0)
-    {
-      if (exponent == 0)
-	{
-	  freelocale(C_locale);
-          return negative ? -FLOAT_ZERO : FLOAT_ZERO;
-	}
-
-#if NUMDIGITS_SUPPORT==0
-      d32 += 1;
-      while(exponent-- > 0)  /* FIXME: this doesn't work right for exponent>0 */
-	d32 *= 10;
-      while(++exponent < 0)
-	d32 /= 10;
-      d32 -= d32;
-#else
-      d32 = FUNC_D(setexp) (d32, exponent);
-#endif
-
-      freelocale(C_locale);
-      return negative ? -d32 : d32;
-    }
-
-
-  if (lead_zero)
+  /* Collect the significant digits, one more than fit; a last '1' stands for
+     any others that are not zero, so that the result is rounded once, in the
+     current mode.  */
+  digits[MANT_DIG + 1] = '\0';
+  exponent -= dig_no - int_no;
+  while (dig_no > 0)
     {
-      /* Find the decimal point */
-#ifdef USE_WIDE_CHAR
-      while (*startp != decimal)
-	++startp;
-#else
-      while (1)
+      if (*startp >= L_('0') && *startp <= L_('9'))
 	{
-	  if (*startp == decimal[0])
+	  if (ndigits <= MANT_DIG)
 	    {
-	      for (cnt = 1; decimal[cnt] != '\0'; ++cnt)
-		if (decimal[cnt] != startp[cnt])
-		  break;
-	      if (decimal[cnt] == '\0')
-		break;
+	      digits[ndigits] = '0' + (*startp - L_('0'));
+	      ndigits += ndigits > 0 || *startp != L_('0');
 	    }
-	  ++startp;
+	  else
+	    {
+	      if (*startp != L_('0'))
+		digits[MANT_DIG + 1] = '1';
+	      ++exponent;
+	    }
+	  --dig_no;
 	}
-#endif
-      lead_zero = (lead_zero < 0? 0 : lead_zero);
-      startp += lead_zero + decimal_len;
-      exponent -= lead_zero;
-      dig_no -= lead_zero;
+      ++startp;
     }
 
-
-  /* Now we have the number of digits in total and the integer digits as well
-     as the exponent and its sign.  We can decide whether the read digits are
-     really integer digits or belong to the fractional part; i.e. we normalize
-     123e-2 to 1.23.  */
-  {
-    register int incr = (exponent < 0 ? MAX (-int_no, exponent)
-			 : MIN (dig_no - int_no, exponent));
-    int_no += incr;
-    exponent -= incr;
-  }
-
-  if (int_no + exponent > MAX_10_EXP)
+  /* A text whose digits would fit, but for an exponent below the smallest,
+     counts as underflow.  */
+  if (ndigits > 0 && ndigits <= MANT_DIG
+      && exponent < __DEC_MIN_EXP__ - MANT_DIG)
     {
+      DFP_EXCEPT (FE_UNDERFLOW | FE_INEXACT);
       __set_errno (ERANGE);
       freelocale(C_locale);
-      return negative ? -FLOAT_HUGE_VAL : FLOAT_HUGE_VAL;
+      return negative ? -FLOAT_ZERO : FLOAT_ZERO;
     }
 
-  /* Obvious underflow before normalization.  */
-  if (exponent < MIN_10_EXP - MANT_DIG + 1 )
+  /* Large exponents ask for left justified digits.  */
+  if (ndigits > 0 && exponent > __DEC_MAX_EXP__ - MANT_DIG)
+    while (ndigits < MANT_DIG)
+      {
+	digits[ndigits++] = '0';
+	--exponent;
+      }
+
+  if (digits[MANT_DIG + 1] == '1')
     {
-      __set_errno (ERANGE);
-      freelocale(C_locale);
-      return FLOAT_ZERO;
+      ++ndigits;
+      --exponent;
     }
-  /* Read in the integer portion of the input string */
-  if (int_no > 0)
-    {
-      /* Read the integer part as a d32.  */
-      int digcnt = int_no;
+  digits[ndigits] = '\0';
 
-      while (int_no > MAX_10_EXP + 1)
-	{
-	  digcnt--;
-	  exponent++;
-	}
-      do
-	{
-	  /* There might be thousands separators or radix characters in
-	    the string.  But these all can be ignored because we know the
-	    format of the number is correct and we have an exact number
-	    of characters to read.  */
-#ifdef USE_WIDE_CHAR
-	  if (*startp < L_('0') || *startp > L_('9'))
-	    ++startp;
-#else
-	  if (*startp < L_('0') || *startp > L_('9'))
-	    {
-	      int inner = 0;
-	      if (thousands != NULL && *startp == *thousands
-		  && ({
-			for (inner = 1; thousands[inner] != '\0'; ++inner)
-			  if (thousands[inner] != startp[inner])
-			    break;
-			thousands[inner] == '\0';
-		      })
-		  )
-		startp += inner;
-	      else
-		startp += decimal_len;
-	    }
-#endif
-	  d32 = d32 * 10 + (*startp - L_('0'));
-	  ++startp;
-	}
-      while (--digcnt > 0);
+  exponent = MIN (MAX (exponent, -EXP_LIMIT), EXP_LIMIT);
 
-    }
-  /* If we haven't filled our datatype, read in the fractional digits */
-  if (int_no <= MANT_DIG && dig_no > int_no)
-    {
-      /* Read the decimal part as a FLOAT.  */
-      int digcnt = dig_no - int_no;
-      
-  /* There might be radix characters in
-	    the string.  But these all can be ignored because we know the
-	    format of the number is correct and we have an exact number
-	    of characters to read.  */
-
-      /*do
-	{
-	  frac = frac/10 + *(startp+digcnt-1) - L_('0');
-	}
-      while (--digcnt > 0);
-      frac /= 10;
+  decContextDefault (&context, DEC_INIT_DECIMAL128);
+  context.digits = MANT_DIG + 2;
+  decNumberFromString (&number, ndigits > 0 ? digits : "0", &context);
+  number.exponent = exponent;
+  if (negative)
+    number.bits |= DECNEG;
 
-      d32 += frac;*/
-      int_no = 0;
-      do
-        {
-#ifdef USE_WIDE_CHAR
-      if (*startp < L_('0') || *startp > L_('9'))
-	++startp;
-#else
-      if (*startp < '0' || *startp > '9')
-	startp += decimal_len;
-#endif
+  decContextDefault (&context, PASTE(DEC_INIT_DECIMAL,FLOAT_SIZE));
+  context.round = __dn_getround ();
+  DECIMAL_FROM_NUMBER ((DECIMAL_N *) &d32, &number, &context);
 
-        /* We need the extra digit to get proper rounding.  */
-	if (int_no < MANT_DIG + 1)
-	  {
-	    d32 = d32*10 + (*startp - L_('0'));
-	    ++startp;
-	    --exponent;
-	    int_no++;
-	  }
-	}
-    while (--digcnt > 0);
+  if (context.status & DEC_Inexact)
+    DFP_EXCEPT (FE_INEXACT);
+  if (context.status & DEC_Underflow)
+    {
+      DFP_EXCEPT (FE_UNDERFLOW);
+      __set_errno (ERANGE);
+      if (d32 == FLOAT_ZERO)
+	d32 = negative ? -FLOAT_ZERO : FLOAT_ZERO;
     }
-
-#if NUMDIGITS_SUPPORT==0
-  while(exponent-- > 0)
-    d32 *= 10;
-  while(++exponent < 0)
-    d32 /= 10;
-#else
-  /* Computed underflow after normalization.  */
-  if ( exponent <  (__DEC_MIN_EXP__ - __DEC_MANT_DIG__))
+  if (context.status & DEC_Overflow)
     {
+      DFP_EXCEPT (FE_OVERFLOW);
       __set_errno (ERANGE);
-      freelocale(C_locale);
-      return FLOAT_ZERO;
     }
 
-  /* Left justification allows us to set a positive exponent that's near
-   * __DEC*_MAX_EXP__, i.e. _almost_ overflowing.  Complete left justification
-   * may be overkill for most numbers in this situation, so perhaps a specific
-   * digit shift will be a better solution in the future.  */
-  if (exponent > (__DEC_MAX_EXP__ - __DEC_MANT_DIG__))
-      d32 = FUNC_D(left_justify) (d32);
-
-  d32 = FUNC_D(setexp) (d32, FUNC_D (getexp) (d32) + exponent);
-
-#endif
-
   freelocale(C_locale);
-  return negative? -d32:d32;
+  return d32;
 }
 hidden_def(FUNCTION_L_INTERNAL)
 
-- 
2.43.0


From 11e8a545d5cc0301a9985d183ca2ba9a15e03a99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:24 +0000
Subject: [PATCH 33/38] fix: printf pads %a, and zeros with %e and %g, to the
 full field width

---
 printf-hooks/printf_dfp.c | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/printf-hooks/printf_dfp.c b/printf-hooks/printf_dfp.c
index 7fe98e8..301553f 100644
--- a/printf-hooks/printf_dfp.c
+++ b/printf-hooks/printf_dfp.c
@@ -808,10 +808,17 @@ __printf_dfp (FILE *fp,
   if (prec > 0) width -= decimal_len + prec;
   else if (info->alt) width -= decimal_len;
 
-  if (spec != 'f')
+  /* The C spec says that for %e, if the value is zero the exponent is zero.
+   * This isn't true for the DFP spec for %a so make sure to check info->spec
+   * and not spec since it could have promoted 'a' to 'e'.  */
+  if(spec == 'e' && (tolower(info->spec) != 'a' && is_zero))
+    exp = 0;
+
+  /* %g has no exponent for a zero.  */
+  if (spec != 'f' && !((tolower(info->spec) == 'g') && is_zero))
     {
       width -= 3;
-      if (0!=(exp/10) || spec!='a') --width;
+      if (0!=(exp/10) || tolower(info->spec) != 'a') --width;
       if (0!=(exp/100)) --width;
       if (0!=(exp/1000)) --width;
     }
@@ -878,12 +885,6 @@ __printf_dfp (FILE *fp,
   /* print decimal point, if needed */
   if (n == decpt && info->alt) outsep (decimal, decimalwc.wc);
 
-  /* The C spec says that for %e, if the value is zero the exponent is zero.
-   * This isn't true for the DFP spec for %a so make sure to check info->spec
-   * and not spec since it could have promoted 'a' to 'e'.  */
-  if(spec == 'e' && (tolower(info->spec) != 'a' && is_zero))
-    exp = 0;
-
   /* Don't display the exponent part for 'f' because it is never used and don't
    * do it for 'g' if the value is zero.  */
   if (spec != 'f' && !((tolower(info->spec) == 'g') && is_zero))
-- 
2.43.0


From e0dec7497f05597afbe96278d2efb29edb0f32dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:09 +0000
Subject: [PATCH 34/38] fix: fma, fdim, scalbn and scalbln round in the
 thread's decimal mode

They rounded half to even whatever fe_dec_setround had chosen, so that
fma (a, b, 0) differed from a*b and scalbn from ldexp.
---
 ieee754r/fdimd32.c    | 2 ++
 ieee754r/fmad32.c     | 2 ++
 ieee754r/scalblnd32.c | 2 ++
 ieee754r/scalbnd32.c  | 2 ++
 4 files changed, 8 insertions(+)

diff --git a/ieee754r/fdimd32.c b/ieee754r/fdimd32.c
index 6109c71..d1be548 100644
--- a/ieee754r/fdimd32.c
+++ b/ieee754r/fdimd32.c
@@ -33,6 +33,7 @@
 #include <math.h>
 #include <errno.h>
 #include <ieee754r_private.h>
+#include <mapround.h>
 
 #define FUNCTION_NAME fdim
 
@@ -54,6 +55,7 @@ IEEE_FUNCTION_NAME (DEC_TYPE x, DEC_TYPE y)
     return x + y;
 
   decContextDefault (&context, DEFAULT_CONTEXT);
+  context.round = __dn_getround ();
 
   decNumberCompare (&dn_result, &dn_x, &dn_y, &context);
   if (decNumberIsNegative(&dn_result) || decNumberIsZero(&dn_result))
diff --git a/ieee754r/fmad32.c b/ieee754r/fmad32.c
index 3bcf24c..06a66e2 100644
--- a/ieee754r/fmad32.c
+++ b/ieee754r/fmad32.c
@@ -33,6 +33,7 @@
 #include <math.h>
 #include <errno.h>
 #include <ieee754r_private.h>
+#include <mapround.h>
 
 #include <decNumberMath.h>
 
@@ -70,6 +71,7 @@ IEEE_FUNCTION_NAME (DEC_TYPE x, DEC_TYPE y, DEC_TYPE z)
     return z+z;
 
   decContextDefault (&context, DEFAULT_CONTEXT);
+  context.round = __dn_getround ();
 
   /* Domain error if x*y = Inf and z=Inf (with opposite signs) */
   if ((decNumberIsInfinite (&dn_x) || decNumberIsInfinite (&dn_y))
diff --git a/ieee754r/scalblnd32.c b/ieee754r/scalblnd32.c
index 823632d..0392782 100644
--- a/ieee754r/scalblnd32.c
+++ b/ieee754r/scalblnd32.c
@@ -33,6 +33,7 @@
 #include <math.h>
 #include <errno.h>
 #include <ieee754r_private.h>
+#include <mapround.h>
 
 #define FUNCTION_NAME scalbln
 
@@ -58,6 +59,7 @@ IEEE_FUNCTION_NAME (DEC_TYPE x, long y)
     return x;
 
   decContextDefault(&context, DEFAULT_CONTEXT);
+  context.round = __dn_getround ();
 //  sum = dn_x.exponent + y;
 //  if(sum >= 1000000000LL || sum <= -2000000000LL
 //    || y >= 1000000000L || y <= -2000000000L)
diff --git a/ieee754r/scalbnd32.c b/ieee754r/scalbnd32.c
index bd4865a..a54192c 100644
--- a/ieee754r/scalbnd32.c
+++ b/ieee754r/scalbnd32.c
@@ -33,6 +33,7 @@
 #include <math.h>
 #include <errno.h>
 #include <ieee754r_private.h>
+#include <mapround.h>
 
 #define FUNCTION_NAME scalbn
 
@@ -60,6 +61,7 @@ IEEE_FUNCTION_NAME (DEC_TYPE x, int y)
     return x;
 
   decContextDefault(&context, DEFAULT_CONTEXT);
+  context.round = __dn_getround ();
 //  sum = dn_x.exponent + y;
 //  if(sum >= 1000000000L || sum <= -2000000000LL)
 //    ; /** definite overflow */
-- 
2.43.0


From 653b4436bad6ea74442efa0195f261b70502b3f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:09 +0000
Subject: [PATCH 35/38] fix: sqrt rounds in the thread's decimal mode

decNumberSquareRoot always rounds to nearest; step to the neighbour a
directed mode asks for.
---
 ieee754r/sqrtd32.c | 30 ++++++++++++++++++++++++++++--
 1 file changed, 28 insertions(+), 2 deletions(-)

diff --git a/ieee754r/sqrtd32.c b/ieee754r/sqrtd32.c
index 4602095..aeb0022 100644
--- a/ieee754r/sqrtd32.c
+++ b/ieee754r/sqrtd32.c
@@ -32,6 +32,7 @@
 #include <decNumber.h>
 #include <math.h>
 #include <errno.h>
+#include <mapround.h>
 
 #include <decNumberMath.h>
 
@@ -42,8 +43,8 @@
 static DEC_TYPE
 IEEE_FUNCTION_NAME (DEC_TYPE x)
 {
-  decContext context;
-  decNumber dn_result;
+  decContext context, wide;
+  decNumber dn_result, dn_diff;
   DEC_TYPE result;
   decNumber dn_x;
 
@@ -63,6 +64,31 @@ IEEE_FUNCTION_NAME (DEC_TYPE x)
   decContextDefault(&context, DEFAULT_CONTEXT);
   decNumberSquareRoot(&dn_result, &dn_x, &context);
 
+  /* decNumberSquareRoot rounds to nearest whatever the context asks for.
+   * The sign of result*result - x tells which side of the root it is on.  */
+  context.round = __dn_getround ();
+  if (context.round == DEC_ROUND_DOWN || context.round == DEC_ROUND_FLOOR
+      || context.round == DEC_ROUND_CEILING)
+    {
+      decContextDefault (&wide, DEC_INIT_BASE);
+      wide.traps = 0;
+      wide.digits = context.digits;
+      wide.emax = DEC_MAX_MATH;
+      wide.emin = -DEC_MAX_MATH;
+      decNumberMinus (&dn_x, &dn_x, &wide);
+      decNumberFMA (&dn_diff, &dn_result, &dn_result, &dn_x, &wide);
+      if (!decNumberIsZero (&dn_diff))
+	{
+	  if (context.round != DEC_ROUND_CEILING)
+	    {
+	      if (!decNumberIsNegative (&dn_diff))
+		decNumberNextMinus (&dn_result, &dn_result, &context);
+	    }
+	  else if (decNumberIsNegative (&dn_diff))
+	    decNumberNextPlus (&dn_result, &dn_result, &context);
+	}
+    }
+
   FUNC_CONVERT_FROM_DN(&dn_result, &result, &context);
 
   return result;
-- 
2.43.0


From 33414864ff7782f9b83e6d4b4c5f9aac7e967fb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:32 +0000
Subject: [PATCH 36/38] fix: modf stores the infinity it is given

---
 ieee754r/modfd32.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/ieee754r/modfd32.c b/ieee754r/modfd32.c
index 79ddb5d..18990fd 100644
--- a/ieee754r/modfd32.c
+++ b/ieee754r/modfd32.c
@@ -51,8 +51,11 @@ INTERNAL_FUNCTION_NAME (DEC_TYPE x, DEC_TYPE *y)
       *y = x;
       return x+x;
     }
-   if (decNumberIsInfinite (&dn_x))
-    return DFP_CONSTANT(0.0)/x;
+  if (decNumberIsInfinite (&dn_x))
+    {
+      *y = x;
+      return DFP_CONSTANT(0.0)/x;
+    }
 
   decContextDefault (&context, DEFAULT_CONTEXT);
   context.round = DEC_ROUND_DOWN;	/* round towards zero */
-- 
2.43.0


From 1b1793043d064bcbb2fb22a55b936a156967beb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:32 +0000
Subject: [PATCH 37/38] fix: frexp always stores an exponent, 0 for a zero

---
 ieee754r/frexpd32.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ieee754r/frexpd32.c b/ieee754r/frexpd32.c
index ece6582..8693245 100644
--- a/ieee754r/frexpd32.c
+++ b/ieee754r/frexpd32.c
@@ -51,7 +51,9 @@ INTERNAL_FUNCTION_NAME (DEC_TYPE x, int *y)
 #if NUMDIGITS_SUPPORT==1
   int digits, exponent;
 
-  if (FUNC_D (__isinf) (x) || FUNC_D (__isnan) (x))
+  *y = 0;
+  if (FUNC_D (__isinf) (x) || FUNC_D (__isnan) (x)
+	|| x == DFP_CONSTANT(0.0))
     return x+x;
 
   // Given 3.1e0 is encoded as 31e-1 and we want .31e1
-- 
2.43.0


From 7979184d36353407f472b2cbab2dd8ec0dc2ae92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:32 +0000
Subject: [PATCH 38/38] fix: the library stays loaded, printf keeps pointers
 into it

---
 Makefile.in | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/Makefile.in b/Makefile.in
index df54f35..4b33248 100644
--- a/Makefile.in
+++ b/Makefile.in
@@ -228,10 +228,11 @@ $(top_builddir)/$(SHARED_SONAME_LIB): $(top_builddir)/$(SHARED_REALNAME_LIB)
 # Build the version tagged 'realname' shared object.  This requires that the
 # $(dfp_name).map file be composed out of individual Versions files.  The
 # -bsymbolic switch makes the library avoid using the PLT for intra-library
-#  calls.
+#  calls.  The constructor gives printf pointers into the library, which must not
+#  be unmapped by dlclose therefore.
 $(top_builddir)/$(SHARED_REALNAME_LIB): $(top_builddir)/$(dfp_name).map $(addsuffix .os,$(libdfp_files))
 	@echo +Linking shared object files into $@.
-	$(CC) $(CFLAGS) $(sysdeps-CFLAGS) $(LDFLAGS) -shared -Wl,-soname,$(SHARED_SONAME_LIB) -Bsymbolic -Wl,--whole-archive -Wl,--no-whole-archive -Wl,--version-script,$(dfp_name).map -Wl,-entry=__libdfp_version $(addsuffix .os,$(libdfp_files)) -o $@ -lm -shared-libgcc
+	$(CC) $(CFLAGS) $(sysdeps-CFLAGS) $(LDFLAGS) -shared -Wl,-soname,$(SHARED_SONAME_LIB) -Wl,-z,nodelete -Bsymbolic -Wl,--whole-archive -Wl,--no-whole-archive -Wl,--version-script,$(dfp_name).map -Wl,-entry=__libdfp_version $(addsuffix .os,$(libdfp_files)) -o $@ -lm -shared-libgcc
 
 # The LIBDFP version script support is strongly based upon the GLIBC version
 # script Makefile foo.  Thank you Roland McGrath and Ulrich Drepper!
-- 
2.43.0

