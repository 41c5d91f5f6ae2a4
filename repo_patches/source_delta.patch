From 12f13eb16aef29a14c8e312d9d1e344025511518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 17:55:35 +0000
Subject: [PATCH 01/17] fix: report the right length for a slice spanning
 several rope leaves

AtomicSeqIterable.subSequence computed the length of the result from
start and end after the loop had already moved both of them. A slice over
more than one leaf therefore claimed to be shorter than its content, which
in turn made fields such as "%12g" or "%10.4s" wider than requested.
---
 src/main/java/io/fastprintf/seq/AtomicSeqIterable.java | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/main/java/io/fastprintf/seq/AtomicSeqIterable.java b/src/main/java/io/fastprintf/seq/AtomicSeqIterable.java
index ce19602..9febfb2 100644
--- a/src/main/java/io/fastprintf/seq/AtomicSeqIterable.java
+++ b/src/main/java/io/fastprintf/seq/AtomicSeqIterable.java
@@ -34,6 +34,7 @@ public interface AtomicSeqIterable extends Seq, Iterable<AtomicSeq> {
     Preconditions.checkPositionIndexes(start, end, length);
     if (start == end) return Seq.empty();
     if (start == 0 && end == length) return this;
+    int subLength = end - start;
     List<AtomicSeq> buffer = new ArrayList<>();
     for (AtomicSeq seq : this) {
       int seqLength = seq.length();
@@ -53,7 +54,7 @@ public interface AtomicSeqIterable extends Seq, Iterable<AtomicSeq> {
     if (buffer.size() == 1) {
       return buffer.get(0);
     }
-    return new SeqArray(buffer.toArray(new AtomicSeq[0]), end - start);
+    return new SeqArray(buffer.toArray(new AtomicSeq[0]), subLength);
   }
 
   /**
-- 
2.43.0


From b6c0be497ef512076aabcd065f3f0fe250ae3679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 17:55:41 +0000
Subject: [PATCH 02/17] fix: compile long format strings without exhausting the
 stack

The parser called itself once per directive, so a format string with a few
thousand directives failed with StackOverflowError. Parse in a loop.
---
 src/main/java/io/fastprintf/Compiler.java | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/main/java/io/fastprintf/Compiler.java b/src/main/java/io/fastprintf/Compiler.java
index a3514a6..2683972 100644
--- a/src/main/java/io/fastprintf/Compiler.java
+++ b/src/main/java/io/fastprintf/Compiler.java
@@ -21,7 +21,9 @@ final class Compiler {
   }
 
   void compile() {
-    parseNext();
+    while (!endOfSource()) {
+      parseNext();
+    }
   }
 
   private boolean endOfSource() {
@@ -29,7 +31,6 @@ final class Compiler {
   }
 
   private void parseNext() {
-    if (endOfSource()) return;
     char c = source.charAt(lookahead);
     if (c == '%') {
       lookahead++;
@@ -45,7 +46,6 @@ final class Compiler {
     if (c == '%') {
       lookahead++;
       appenders.add(new FixedStringAppender("%"));
-      parseNext();
       return;
     }
     // %[flags][width][.precision]specifier[{date-time-formatter}]
@@ -59,7 +59,6 @@ final class Compiler {
     }
     FormatContext context = FormatContext.create(flags, width, precision, dateTimeFormatter);
     appenders.add(new DefaultAppender(specifier, context));
-    parseNext();
   }
 
   private EnumSet<Flag> flags() {
@@ -209,8 +208,7 @@ final class Compiler {
       return;
     }
     appenders.add(new FixedStringAppender(source.substring(lookahead, nextPercent)));
-    lookahead = nextPercent + 1;
-    forPattern();
+    lookahead = nextPercent;
   }
 
   List<Appender> getAppenders() {
-- 
2.43.0


From 9b6f675eb7375036f720d9c9ab84d22a6a5da50f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 17:55:47 +0000
Subject: [PATCH 03/17] fix: keep nested calls of a cached formatter from
 sharing a builder

With the thread-local cache enabled, an argument whose toString() uses the
same formatter reset the builder the outer call was still filling. The
builder is now taken out of the cache while a call is using it.
---
 .../java/io/fastprintf/FastPrintfImpl.java    | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/main/java/io/fastprintf/FastPrintfImpl.java b/src/main/java/io/fastprintf/FastPrintfImpl.java
index 0533ce1..21a9ffe 100644
--- a/src/main/java/io/fastprintf/FastPrintfImpl.java
+++ b/src/main/java/io/fastprintf/FastPrintfImpl.java
@@ -33,6 +33,12 @@ final class FastPrintfImpl implements FastPrintf {
       this.stringBuilderFactory =
           requiredCapacity -> {
             StringBuilder builder = threadLocalBuilder.get();
+            if (builder == null) {
+              // The cached builder is in use further up the stack: an argument of the call in
+              // progress is itself rendered with this formatter.
+              return new StringBuilder(requiredCapacity);
+            }
+            threadLocalBuilder.set(null);
             int currentCapacity = builder.capacity();
 
             // This is the core logic:
@@ -48,7 +54,6 @@ final class FastPrintfImpl implements FastPrintf {
               // The buffer is too big and we don't need it this time.
               // Create a new, reasonably-sized builder and replace the old one.
               builder = new StringBuilder(requiredCapacity);
-              threadLocalBuilder.set(builder);
 
             } else {
               // In all other cases, we reuse the existing builder:
@@ -84,10 +89,16 @@ final class FastPrintfImpl implements FastPrintf {
     // OPTIMIZATION: Create the consumer ONCE.
     // This reduces allocation from O(N) to O(1) where N is the number of appenders.
     Consumer<Seq> consumer = seq -> seq.appendTo(builder);
-    for (Appender appender : appenders) {
-      appender.append(consumer, iterator);
+    try {
+      for (Appender appender : appenders) {
+        appender.append(consumer, iterator);
+      }
+      return builder.toString();
+    } finally {
+      if (threadLocalBuilder != null) {
+        threadLocalBuilder.set(builder);
+      }
     }
-    return builder.toString();
   }
 
   @Override
-- 
2.43.0


From 81ef46d083584382489ed592c0079c18ac266f7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 17:55:53 +0000
Subject: [PATCH 04/17] fix: pad zero correctly in the alternate octal and
 hexadecimal forms

Room for the "0"/"0x" prefix was reserved although zero never gets one, so
"%#08x" of 0 printed "  000000" and "%#.3o" of 0 printed "00". "%#.0o" of 0
printed nothing where C prints "0".
---
 .../java/io/fastprintf/appender/SeqFormatter.java    | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/main/java/io/fastprintf/appender/SeqFormatter.java b/src/main/java/io/fastprintf/appender/SeqFormatter.java
index f4c995a..f45a9ec 100644
--- a/src/main/java/io/fastprintf/appender/SeqFormatter.java
+++ b/src/main/java/io/fastprintf/appender/SeqFormatter.java
@@ -111,21 +111,25 @@ public final class SeqFormatter {
   private static Seq formatUnsignedInteger(
       FormatContext context, IntForm value, Function<IntForm, String> toString, String prefix) {
     int signum = value.signum();
+    boolean alternate = context.hasFlag(Flag.ALTERNATE);
     if (signum == 0 && context.getPrecision() == 0) {
-      return spaceJustify(context, Seq.empty());
+      // "%#.0o" must still show the leading zero
+      return spaceJustify(context, alternate && "0".equals(prefix) ? Seq.ch('0') : Seq.empty());
     }
+    // Zero never carries the prefix, so no room must be reserved for it either.
+    boolean prefixed = alternate && signum != 0;
     Seq v0 = Seq.wrap(toString.apply(value));
     int precision = 1;
     if (context.isPrecisionSet()) {
       precision = context.getPrecision();
-      if (context.hasFlag(Flag.ALTERNATE) && "0".equals(prefix)) {
+      if (prefixed && "0".equals(prefix)) {
         --precision;
       }
     } else if (context.hasFlag(Flag.ZERO_PAD)
         && context.isWidthSet()
         && !context.hasFlag(Flag.LEFT_JUSTIFY)) {
       precision = context.getWidth();
-      if (context.hasFlag(Flag.ALTERNATE)) {
+      if (prefixed) {
         precision -= prefix.length();
       }
     }
@@ -133,7 +137,7 @@ public final class SeqFormatter {
       Seq pad = Seq.repeated('0', precision - v0.length());
       v0 = v0.prepend(pad);
     }
-    if (signum != 0 && context.hasFlag(Flag.ALTERNATE)) {
+    if (prefixed) {
       v0 = v0.prepend(Seq.wrap(prefix));
     }
     return spaceJustify(context, v0);
-- 
2.43.0


From 32b3477d431c8503f16d5ae88053060b710d2a5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 17:56:00 +0000
Subject: [PATCH 05/17] fix: honour the space flag for infinity and for zero
 with precision 0

"% f" of positive infinity and "% .0d" of 0 dropped the leading space, while
the plus flag was honoured in both places.
---
 .../java/io/fastprintf/appender/SeqFormatter.java    | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/src/main/java/io/fastprintf/appender/SeqFormatter.java b/src/main/java/io/fastprintf/appender/SeqFormatter.java
index f45a9ec..f79e22c 100644
--- a/src/main/java/io/fastprintf/appender/SeqFormatter.java
+++ b/src/main/java/io/fastprintf/appender/SeqFormatter.java
@@ -73,8 +73,7 @@ public final class SeqFormatter {
   static Seq d(FormatContext context, IntForm value) {
     int signum = value.signum();
     if (signum == 0 && context.getPrecision() == 0) {
-      Seq v0 = context.hasFlag(Flag.PLUS) ? Seq.ch('+') : Seq.empty();
-      return spaceJustify(context, v0);
+      return spaceJustify(context, sign(context, Seq.empty(), false));
     }
     Seq v0 = Seq.wrap(value.toDecimalString());
     int precision = 1;
@@ -148,14 +147,7 @@ public final class SeqFormatter {
     if (value.isNaN()) {
       v0 = Seq.wrap("NaN");
     } else {
-      boolean neg = value.signum() < 0;
-      if (neg) {
-        v0 = Seq.wrap("-Infinity");
-      } else if (context.hasFlag(Flag.PLUS)) {
-        v0 = Seq.wrap("+Infinity");
-      } else {
-        v0 = Seq.wrap("Infinity");
-      }
+      v0 = sign(context, Seq.wrap("Infinity"), value.signum() < 0);
     }
     return spaceJustify(context, v0);
   }
-- 
2.43.0


From 511d8ca56a16e7e508a18e37439f8e127dee5486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 17:56:06 +0000
Subject: [PATCH 06/17] fix: reject Integer.MIN_VALUE as a dynamic width

Its negation overflows to the internal marker for "take the width from the
arguments", so the call silently printed an unpadded field. Every other
width beyond the limit is rejected.
---
 src/main/java/io/fastprintf/appender/DefaultAppender.java | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/main/java/io/fastprintf/appender/DefaultAppender.java b/src/main/java/io/fastprintf/appender/DefaultAppender.java
index e947ff1..d6dde70 100644
--- a/src/main/java/io/fastprintf/appender/DefaultAppender.java
+++ b/src/main/java/io/fastprintf/appender/DefaultAppender.java
@@ -102,6 +102,9 @@ public final class DefaultAppender implements Appender {
       int w = nextInt(traitsIterator);
       if (w >= 0) {
         context = context.setWidth(w);
+      } else if (w == Integer.MIN_VALUE) {
+        // Has no positive counterpart: -w would be taken for FormatContext.PRECEDING
+        throw new PrintfException("Width %s is out of range", w);
       } else {
         context = context.addFlag(Flag.LEFT_JUSTIFY).setWidth(-w);
       }
-- 
2.43.0


From 8b10936791599cc7076b054cdd3185c3c0cd6e33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 17:56:13 +0000
Subject: [PATCH 07/17] fix: print a two-digit exponent for ten-digit integers

"%.9e" of the BigInteger 1234567890 printed the exponent as "+9" instead of
"+09".
---
 src/main/java/io/fastprintf/number/BigDecimalWrapper.java | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/java/io/fastprintf/number/BigDecimalWrapper.java b/src/main/java/io/fastprintf/number/BigDecimalWrapper.java
index cea869e..16c27f5 100644
--- a/src/main/java/io/fastprintf/number/BigDecimalWrapper.java
+++ b/src/main/java/io/fastprintf/number/BigDecimalWrapper.java
@@ -38,7 +38,7 @@ public final class BigDecimalWrapper implements FloatForm {
     if (scale == 0) {
       if (length > 1) {
         Seq mant = insertDotAfterFirstChar(unscaledString);
-        Seq exp = length < 10 ? Seq.wrap("+0" + (length - 1)) : Seq.wrap("+" + (length - 1));
+        Seq exp = length <= 10 ? Seq.wrap("+0" + (length - 1)) : Seq.wrap("+" + (length - 1));
         return new FloatLayout(mant, exp);
       } else {
         return new FloatLayout(Seq.wrap(unscaledString), Seq.wrap("+00"));
-- 
2.43.0


From a9f69598abb775a59036476ec70f1bdf7a9305af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 17:57:20 +0000
Subject: [PATCH 08/17] fix: format every BigDecimal zero alike, whatever its
 scale

The scale of a zero leaked into the output: "%f" of 0E+3 printed
"0000.000000", "%e" of 0.00 printed the exponent "-02" and "%g" of 0.00
printed "0e-02".
---
 src/main/java/io/fastprintf/number/BigDecimalWrapper.java | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/main/java/io/fastprintf/number/BigDecimalWrapper.java b/src/main/java/io/fastprintf/number/BigDecimalWrapper.java
index 16c27f5..8c30beb 100644
--- a/src/main/java/io/fastprintf/number/BigDecimalWrapper.java
+++ b/src/main/java/io/fastprintf/number/BigDecimalWrapper.java
@@ -13,12 +13,15 @@ public final class BigDecimalWrapper implements FloatForm {
   private final int signum;
 
   public BigDecimalWrapper(BigDecimal value) {
-    this.value = value.abs();
+    this.value = value.signum() == 0 ? BigDecimal.ZERO : value.abs();
     this.signum = value.signum();
   }
 
   public BigDecimalWrapper(BigInteger unscaledValue, int scale) {
-    this.value = new BigDecimal(unscaledValue.abs(), scale);
+    this.value =
+        unscaledValue.signum() == 0
+            ? BigDecimal.ZERO
+            : new BigDecimal(unscaledValue.abs(), scale);
     this.signum = unscaledValue.signum();
   }
 
-- 
2.43.0


From 75a5c466b973d907f02acf2d7f6eb2f04bc53526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 17:57:26 +0000
Subject: [PATCH 09/17] fix: choose the %g notation of a BigDecimal after
 rounding

The choice between decimal and scientific notation looked at the unrounded
value, so "%g" of 999999.5 printed "1000000" and of 0.000099999999 printed
"1e-04". Doubles already print "1e+06" and "0.0001".
---
 src/main/java/io/fastprintf/number/BigDecimalWrapper.java | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/main/java/io/fastprintf/number/BigDecimalWrapper.java b/src/main/java/io/fastprintf/number/BigDecimalWrapper.java
index 8c30beb..f967be6 100644
--- a/src/main/java/io/fastprintf/number/BigDecimalWrapper.java
+++ b/src/main/java/io/fastprintf/number/BigDecimalWrapper.java
@@ -117,10 +117,12 @@ public final class BigDecimalWrapper implements FloatForm {
   public FloatLayout generalLayout(int precision) {
     BigDecimal tenToTheNegFour = BigDecimal.valueOf(1, 4);
     BigDecimal tenToThePrec = BigDecimal.valueOf(1, -precision);
+    // The notation depends on the exponent after rounding: 999999.5 is 1e+06, not 1000000
+    BigDecimal rounded = value.round(new MathContext(precision));
     if ((value.equals(BigDecimal.ZERO))
-        || ((value.compareTo(tenToTheNegFour) >= 0) && (value.compareTo(tenToThePrec) < 0))) {
+        || ((rounded.compareTo(tenToTheNegFour) >= 0) && (rounded.compareTo(tenToThePrec) < 0))) {
 
-      int e = -value.scale() + (value.unscaledValue().toString().length() - 1);
+      int e = -rounded.scale() + (rounded.unscaledValue().toString().length() - 1);
 
       // xxx.yyy
       //   g precision (# sig digits) = #x + #y
-- 
2.43.0


From 55129a4a1ebd2d9b74503ad2def7311647ed24a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 17:57:32 +0000
Subject: [PATCH 10/17] fix: keep all significant digits of a BigDecimal in
 "%#g"

In scientific notation "%#g" of the BigDecimal 1E+10 printed "1e+10", while
the double 1e10 printed "1.00000e+10" as documented.
---
 src/main/java/io/fastprintf/appender/SeqFormatter.java | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/main/java/io/fastprintf/appender/SeqFormatter.java b/src/main/java/io/fastprintf/appender/SeqFormatter.java
index f79e22c..aae69ab 100644
--- a/src/main/java/io/fastprintf/appender/SeqFormatter.java
+++ b/src/main/java/io/fastprintf/appender/SeqFormatter.java
@@ -261,9 +261,11 @@ public final class SeqFormatter {
   }
 
   /** Formats the mantissa and exponent for %g when it chooses scientific representation. */
-  private static Seq formatGScientific(FormatContext context, FloatLayout layout) {
+  private static Seq formatGScientific(FormatContext context, FloatLayout layout, int precision) {
     Seq mantissa = layout.getMantissa();
-    if (!context.hasFlag(Flag.ALTERNATE)) {
+    if (context.hasFlag(Flag.ALTERNATE)) {
+      mantissa = formatFractionalPart(mantissa, precision - 1, false);
+    } else {
       mantissa = stripTrailingZeros(mantissa);
     }
     return mantissa.append(Seq.ch('e')).append(layout.getExponent());
@@ -290,7 +292,7 @@ public final class SeqFormatter {
       v0 = formatGDecimal(context, layout, precision);
     } else {
       // Use scientific ('e'-style) representation
-      v0 = formatGScientific(context, layout);
+      v0 = formatGScientific(context, layout, precision);
     }
 
     return signAndJustify(context, v0, value.isNegative());
-- 
2.43.0


From 1ac2b1b0c33ed06674ce5012139489a4c7ba333e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 17:57:39 +0000
Subject: [PATCH 11/17] fix: accept instants in %t with an inline pattern

"%t" renders an Instant, a Date or an epoch number in the system time zone,
but "%t{yyyy-MM-dd}" failed with UnsupportedTemporalTypeException for the
same argument. Both forms now use the system time zone.
---
 src/main/java/io/fastprintf/appender/SeqFormatter.java | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/main/java/io/fastprintf/appender/SeqFormatter.java b/src/main/java/io/fastprintf/appender/SeqFormatter.java
index aae69ab..951ecd1 100644
--- a/src/main/java/io/fastprintf/appender/SeqFormatter.java
+++ b/src/main/java/io/fastprintf/appender/SeqFormatter.java
@@ -387,13 +387,11 @@ public final class SeqFormatter {
     DateTimeFormatter formatter = context.getDateTimeFormatter();
     TemporalAccessor temporalAccessor = traits.asTemporalAccessor();
 
+    if (temporalAccessor instanceof Instant) {
+      temporalAccessor = ((Instant) temporalAccessor).atZone(ZoneId.systemDefault());
+    }
     if (formatter == null) {
-      if (temporalAccessor instanceof Instant) {
-        temporalAccessor = ((Instant) temporalAccessor).atZone(ZoneId.systemDefault());
-        formatter = DateTimeFormatter.ISO_OFFSET_DATE_TIME;
-      } else {
-        formatter = bestDefaultFormatterOrThrow(temporalAccessor);
-      }
+      formatter = bestDefaultFormatterOrThrow(temporalAccessor);
     }
     Seq seq = Seq.wrap(formatter.format(temporalAccessor));
     return spaceJustify(context, seq);
-- 
2.43.0


From 31bfa116fc03b66bdf248d227e206b80decfc6be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:07:17 +0000
Subject: [PATCH 12/17] fix: accept java.sql.Date and java.sql.Time in %t

---
 src/main/java/io/fastprintf/traits/ObjectTraits.java | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/main/java/io/fastprintf/traits/ObjectTraits.java b/src/main/java/io/fastprintf/traits/ObjectTraits.java
index 7412df5..9ccaaea 100644
--- a/src/main/java/io/fastprintf/traits/ObjectTraits.java
+++ b/src/main/java/io/fastprintf/traits/ObjectTraits.java
@@ -5,6 +5,7 @@ import io.fastprintf.number.FloatForm;
 import io.fastprintf.number.IntForm;
 import io.fastprintf.util.Utils;
 import java.lang.reflect.Array;
+import java.time.Instant;
 import java.time.temporal.TemporalAccessor;
 import java.util.Arrays;
 import java.util.Base64;
@@ -93,7 +94,7 @@ public final class ObjectTraits implements FormatTraits {
   @Override
   public TemporalAccessor asTemporalAccessor() {
     if (value instanceof Date) {
-      return ((Date) value).toInstant();
+      return toInstant((Date) value);
     }
     if (value instanceof Calendar) {
       return ((Calendar) value).toInstant();
@@ -104,6 +105,15 @@ public final class ObjectTraits implements FormatTraits {
     throw new PrintfException("%s cannot be converted to TemporalAccessor", value);
   }
 
+  private static Instant toInstant(Date date) {
+    try {
+      return date.toInstant();
+    } catch (UnsupportedOperationException e) {
+      // java.sql.Date and java.sql.Time refuse toInstant(), but denote an instant all the same
+      return Instant.ofEpochMilli(date.getTime());
+    }
+  }
+
   @Override
   public int asInt() {
     if (value instanceof Number) {
-- 
2.43.0


From 4e167466373504143d48d8161b1a36e48dd402a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:52:45 +0000
Subject: [PATCH 13/17] fix: refuse a BigInteger beyond the long range as an
 epoch value

---
 src/main/java/io/fastprintf/traits/BigIntegerTraits.java | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/main/java/io/fastprintf/traits/BigIntegerTraits.java b/src/main/java/io/fastprintf/traits/BigIntegerTraits.java
index fd98487..ee40363 100644
--- a/src/main/java/io/fastprintf/traits/BigIntegerTraits.java
+++ b/src/main/java/io/fastprintf/traits/BigIntegerTraits.java
@@ -1,5 +1,6 @@
 package io.fastprintf.traits;
 
+import io.fastprintf.PrintfException;
 import io.fastprintf.number.FloatForm;
 import io.fastprintf.number.IntForm;
 import io.fastprintf.util.Utils;
@@ -37,6 +38,9 @@ public final class BigIntegerTraits implements FormatTraits {
 
   @Override
   public TemporalAccessor asTemporalAccessor() {
+    if (value.bitLength() >= Long.SIZE) {
+      throw new PrintfException("%s is out of range for an epoch value", value);
+    }
     return Utils.longToInstant(value.longValue());
   }
 
-- 
2.43.0


From 8dcc9be1ba6fbc74669b6ca54d6df762ce15fe06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:16:15 +0000
Subject: [PATCH 14/17] fix: format a tiny BigDecimal as an integer without
 scaling by 10^scale

---
 src/main/java/io/fastprintf/traits/BigDecimalTraits.java | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/main/java/io/fastprintf/traits/BigDecimalTraits.java b/src/main/java/io/fastprintf/traits/BigDecimalTraits.java
index 476b1e9..e56f76d 100644
--- a/src/main/java/io/fastprintf/traits/BigDecimalTraits.java
+++ b/src/main/java/io/fastprintf/traits/BigDecimalTraits.java
@@ -3,6 +3,7 @@ package io.fastprintf.traits;
 import io.fastprintf.number.FloatForm;
 import io.fastprintf.number.IntForm;
 import java.math.BigDecimal;
+import java.math.BigInteger;
 
 public final class BigDecimalTraits implements FormatTraits {
 
@@ -14,6 +15,9 @@ public final class BigDecimalTraits implements FormatTraits {
 
   @Override
   public IntForm asIntForm() {
+    if (value.precision() <= value.scale()) {
+      return IntForm.valueOf(BigInteger.ZERO); // below one; scaling would need 10^scale
+    }
     return IntForm.valueOf(value.toBigInteger());
   }
 
-- 
2.43.0


From 91e4fe3d6a50e66f22b00425c54745f6d238e914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:16:15 +0000
Subject: [PATCH 15/17] fix: format a BigDecimal far below the last decimal
 shown as zero

---
 src/main/java/io/fastprintf/number/BigDecimalWrapper.java | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/main/java/io/fastprintf/number/BigDecimalWrapper.java b/src/main/java/io/fastprintf/number/BigDecimalWrapper.java
index f967be6..cf321ad 100644
--- a/src/main/java/io/fastprintf/number/BigDecimalWrapper.java
+++ b/src/main/java/io/fastprintf/number/BigDecimalWrapper.java
@@ -164,7 +164,10 @@ public final class BigDecimalWrapper implements FloatForm {
     if (scale > precision) {
       // more "scale" digits than the requested "precision"
       int compPrec = value.precision();
-      if (compPrec <= scale) {
+      if (compPrec < scale - precision) {
+        // less than 0.1 in the last place shown; scaling would need 10^(scale - precision)
+        value = BigDecimal.valueOf(0, precision);
+      } else if (compPrec <= scale) {
         // case of 0.xxxxxx
         value = value.setScale(precision, RoundingMode.HALF_UP);
       } else {
-- 
2.43.0


From 382902d212bf8467510d5ecf9690070d5d4b42da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:16:15 +0000
Subject: [PATCH 16/17] fix: keep the exponent of a rounded BigDecimal beyond
 the int range

---
 .../fastprintf/number/BigDecimalWrapper.java  | 21 +++++++++----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/src/main/java/io/fastprintf/number/BigDecimalWrapper.java b/src/main/java/io/fastprintf/number/BigDecimalWrapper.java
index cf321ad..b0916e9 100644
--- a/src/main/java/io/fastprintf/number/BigDecimalWrapper.java
+++ b/src/main/java/io/fastprintf/number/BigDecimalWrapper.java
@@ -33,9 +33,8 @@ public final class BigDecimalWrapper implements FloatForm {
     return mant;
   }
 
-  private static FloatLayout scientificLayout0(BigDecimal value) {
+  private static FloatLayout scientificLayout0(BigDecimal value, long scale) {
     BigInteger unscaledValue = value.unscaledValue();
-    int scale = value.scale();
     String unscaledString = unscaledValue.toString();
     int length = unscaledString.length();
     if (scale == 0) {
@@ -115,14 +114,13 @@ public final class BigDecimalWrapper implements FloatForm {
 
   @Override
   public FloatLayout generalLayout(int precision) {
-    BigDecimal tenToTheNegFour = BigDecimal.valueOf(1, 4);
-    BigDecimal tenToThePrec = BigDecimal.valueOf(1, -precision);
-    // The notation depends on the exponent after rounding: 999999.5 is 1e+06, not 1000000
-    BigDecimal rounded = value.round(new MathContext(precision));
-    if ((value.equals(BigDecimal.ZERO))
-        || ((rounded.compareTo(tenToTheNegFour) >= 0) && (rounded.compareTo(tenToThePrec) < 0))) {
+    // The notation depends on the exponent after rounding: 999999.5 is 1e+06, not 1000000.
+    // The scale is added separately, as that of the rounded value may not fit an int.
+    BigDecimal rounded = new BigDecimal(value.unscaledValue(), 0, new MathContext(precision));
+    long exponent = -(long) value.scale() - rounded.scale() + (rounded.precision() - 1);
+    if ((value.equals(BigDecimal.ZERO)) || (exponent >= -4 && exponent < precision)) {
 
-      int e = -rounded.scale() + (rounded.unscaledValue().toString().length() - 1);
+      int e = (int) exponent;
 
       // xxx.yyy
       //   g precision (# sig digits) = #x + #y
@@ -153,8 +151,9 @@ public final class BigDecimalWrapper implements FloatForm {
       compPrec = precision + 1;
     }
     MathContext mc = new MathContext(compPrec);
-    BigDecimal v = new BigDecimal(value.unscaledValue(), scale, mc);
-    return scientificLayout0(v);
+    // The scale is added separately, as that of the rounded value may not fit an int.
+    BigDecimal v = new BigDecimal(value.unscaledValue(), 0, mc);
+    return scientificLayout0(v, (long) scale + v.scale());
   }
 
   @Override
-- 
2.43.0


From 2e319a365da9b4dbe9356a358e898ac2d82b08b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:45:20 +0000
Subject: [PATCH 17/17] fix: refuse an instant beyond the long range of
 milliseconds in integer conversions

---
 src/main/java/io/fastprintf/traits/TemporalAccessorTraits.java | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/java/io/fastprintf/traits/TemporalAccessorTraits.java b/src/main/java/io/fastprintf/traits/TemporalAccessorTraits.java
index f2d4686..4dc1244 100644
--- a/src/main/java/io/fastprintf/traits/TemporalAccessorTraits.java
+++ b/src/main/java/io/fastprintf/traits/TemporalAccessorTraits.java
@@ -48,7 +48,7 @@ public final class TemporalAccessorTraits implements FormatTraits {
     try {
       // The most robust way to get epoch milliseconds is also via Instant.
       return Instant.from(value).toEpochMilli();
-    } catch (DateTimeException e) {
+    } catch (DateTimeException | ArithmeticException e) {
       throw new PrintfException("Can't get epoch milliseconds from: %s", value, e);
     }
   }
-- 
2.43.0

