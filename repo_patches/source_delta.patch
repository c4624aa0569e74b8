From b73f3148d89cff74687095fe5b9270864300f50e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:07 +0000
Subject: [PATCH 01/49] fix: saturate overloaded samples to full scale

The clamp shifted the amplitude by the frame width instead of taking its sign, so
amplitudes beyond twice full scale were clamped to 32766 or -32767.
---
 src/BKBuffer.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/BKBuffer.c b/src/BKBuffer.c
index ec43219..aed0e29 100644
--- a/src/BKBuffer.c
+++ b/src/BKBuffer.c
@@ -146,7 +146,7 @@ BKInt BKBufferRead (BKBuffer * buf, BKFrame outFrames [], BKUInt size, BKUInt in
 
 		// clamp
 		if ((BKFrame) amp != amp)
-			amp = (amp >> BK_FRAME_SHIFT) ^ BK_FRAME_MAX;
+			amp = (amp >> (BK_INT_SHIFT - 1)) ^ BK_FRAME_MAX;
 
 		// write frame
 		(* outFrames) = amp;
-- 
2.43.0


From ad0aac074fa0a9888b09577ec74ded563c44fffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:30 +0000
Subject: [PATCH 02/49] fix: disposing a clock with attached dividers loops
 forever

---
 src/BKClock.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/BKClock.c b/src/BKClock.c
index 3729e5f..0b01c7e 100644
--- a/src/BKClock.c
+++ b/src/BKClock.c
@@ -79,7 +79,7 @@ static void BKClockDisposeObject (BKClock * clock)
 	BKClockDetach (clock);
 
 	for (BKDivider * divider = clock -> dividers.firstDivider; divider; divider = nextDivider) {
-		nextDivider = divider;
+		nextDivider = divider -> nextDivider;
 		BKDividerDetach (divider);
 	}
 }
-- 
2.43.0


From 6c35794dc6385c24db6b0c587b612d80a6411898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:30 +0000
Subject: [PATCH 03/49] fix: failed attach leaves the clock bound to the
 context

A rejected BKClockAttach set the clock's context without linking it; detaching
such a clock then cleared the context's clock list.
---
 src/BKClock.c | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/BKClock.c b/src/BKClock.c
index 0b01c7e..39ad23f 100644
--- a/src/BKClock.c
+++ b/src/BKClock.c
@@ -87,12 +87,16 @@ static void BKClockDisposeObject (BKClock * clock)
 BKInt BKClockAttach (BKClock * clock, BKContext * ctx, BKClock * beforeClock)
 {
 	if (clock -> ctx == NULL) {
-		clock -> ctx = ctx;
-		BKClockReset (clock);
-
 		if (beforeClock == BK_FIRST_ELEMENT_PTR)
 			beforeClock = ctx -> firstClock;
 
+		// previous clock must be in same context
+		if (beforeClock && beforeClock -> ctx != ctx)
+			return BK_INVALID_VALUE;
+
+		clock -> ctx = ctx;
+		BKClockReset (clock);
+
 		if (beforeClock == NULL) {
 			clock -> prevClock = ctx -> lastClock;
 			clock -> nextClock = NULL;
@@ -107,8 +111,7 @@ BKInt BKClockAttach (BKClock * clock, BKContext * ctx, BKClock * beforeClock)
 				ctx -> lastClock  = clock;
 			}
 		}
-		// previous clock must be in same context
-		else if (beforeClock -> ctx == ctx) {
+		else {
 			clock -> prevClock = beforeClock -> prevClock;
 			clock -> nextClock = beforeClock;
 
@@ -121,9 +124,6 @@ BKInt BKClockAttach (BKClock * clock, BKContext * ctx, BKClock * beforeClock)
 
 			beforeClock -> prevClock = clock;
 		}
-		else {
-			return BK_INVALID_VALUE;
-		}
 	}
 	else {
 		return BK_INVALID_STATE;
-- 
2.43.0


From 88bd0d9a2f90d2b50a2993c1427beb5ad409bfe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:30 +0000
Subject: [PATCH 04/49] fix: dividers keep pointing into a disposed context

Dividers attached with BKContextAttachDivider were not detached, so disposing
them after the context wrote to freed memory.
---
 src/BKContext.c | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/BKContext.c b/src/BKContext.c
index 81ea857..0be0609 100644
--- a/src/BKContext.c
+++ b/src/BKContext.c
@@ -103,9 +103,10 @@ extern BKInt BKContextAlloc (BKContext ** outCtx, BKUInt numChannels, BKUInt sam
 
 static void BKContextDisposeObject (BKContext * ctx)
 {
-	BKUnit   * nextUnit;
-	BKClock  * nextClock;
-	BKBuffer * channel;
+	BKUnit    * nextUnit;
+	BKClock   * nextClock;
+	BKDivider * nextDivider;
+	BKBuffer  * channel;
 
 	for (BKUnit * unit = ctx -> firstUnit; unit; unit = nextUnit) {
 		nextUnit = unit -> nextUnit;
@@ -117,6 +118,16 @@ static void BKContextDisposeObject (BKContext * ctx)
 		BKClockDetach (clock);
 	}
 
+	for (BKDivider * divider = ctx -> effectDividers.firstDivider; divider; divider = nextDivider) {
+		nextDivider = divider -> nextDivider;
+		BKDividerDetach (divider);
+	}
+
+	for (BKDivider * divider = ctx -> beatDividers.firstDivider; divider; divider = nextDivider) {
+		nextDivider = divider -> nextDivider;
+		BKDividerDetach (divider);
+	}
+
 	for (BKInt i = 0; i < ctx -> numChannels; i ++) {
 		channel = & ctx -> channels [i];
 		BKBufferDispose (channel);
-- 
2.43.0


From ed36f96e645e0e0c8f42ee86af4179fec5b4ed47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:30 +0000
Subject: [PATCH 05/49] fix: context is unusable and leaked if its channels
 cannot be allocated

Disposing it dereferenced the missing channels.
---
 src/BKContext.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/BKContext.c b/src/BKContext.c
index 0be0609..e868174 100644
--- a/src/BKContext.c
+++ b/src/BKContext.c
@@ -62,8 +62,10 @@ static BKInt BKContextInitGeneric (BKContext * ctx, BKUInt numChannels, BKUInt s
 
 	BKContextUpdateMasterClocks (ctx);
 
-	if (ctx -> channels == NULL)
+	if (ctx -> channels == NULL) {
+		ctx -> numChannels = 0;
 		return BK_ALLOCATION_ERROR;
+	}
 
 	for (BKInt i = 0; i < ctx -> numChannels; i ++) {
 		channel = & ctx -> channels [i];
@@ -95,6 +97,8 @@ extern BKInt BKContextAlloc (BKContext ** outCtx, BKUInt numChannels, BKUInt sam
 	}
 
 	if (BKContextInitGeneric (*outCtx, numChannels, sampleRate) < 0) {
+		BKDispose (*outCtx);
+		*outCtx = NULL;
 		return -1;
 	}
 
-- 
2.43.0


From bf25730972d827f729825cf0e7326aed1c889a21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:30 +0000
Subject: [PATCH 06/49] fix: report attaching an already attached divider to a
 context

---
 src/BKContext.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/BKContext.c b/src/BKContext.c
index e868174..a86a73a 100644
--- a/src/BKContext.c
+++ b/src/BKContext.c
@@ -516,7 +516,11 @@ BKInt BKContextAttachDivider (BKContext * ctx, BKDivider * divider, BKEnum type)
 	if (group) {
 		// Check if required values set
 		if (BKTimeIsGreater (clock -> period, BK_TIME_ZERO)) {
-			BKDividerAttachToGroup (divider, group);
+			BKInt result = BKDividerAttachToGroup (divider, group);
+
+			if (result < 0)
+				return result;
+
 			BKClockAttach (clock, ctx, ctx -> firstClock);
 		}
 		else {
-- 
2.43.0


From 0fa05eec1fe93383e37a122377c365284031309b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:30 +0000
Subject: [PATCH 07/49] fix: clocks attached or reset after the context has
 advanced

The time to the next tick was the difference of the clock's own time, which starts
at its reset, and the context's time. It became negative for such clocks and the
context then jumped ahead by thousands of frames.
---
 src/BKContext.c | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/BKContext.c b/src/BKContext.c
index a86a73a..6d29e93 100644
--- a/src/BKContext.c
+++ b/src/BKContext.c
@@ -354,26 +354,26 @@ BKInt BKContextGenerateToTime (BKContext * ctx, BKTime endTime, BKInt (* write)
 static BKFUInt20 BKClocksAdvance (BKContext * ctx, BKClock * clocks, BKInt * error)
 {
 	BKClock * clock;
-	BKTime    nextTime;
+	BKTime    clockDelta;
 	BKTime    deltaTime;
 	BKFUInt20 period;
 
 	do {
-		nextTime = BK_TIME_MAX;
+		deltaTime = BK_TIME_MAX;
 		ctx -> flags &= ~BK_CONTEXT_FLAG_CLOCK_RESET; // clear clock reset flag
 
 		for (clock = clocks; clock; clock = clock -> nextClock) {
 			BKClockTick (clock);
 
-			// get next time to tick
-			if (BKTimeIsLess (clock -> nextTime, nextTime))
-				nextTime = clock -> nextTime;
+			// get time until next tick; each clock's time starts when it was reset
+			clockDelta = BKTimeSub (clock -> nextTime, clock -> time);
+
+			if (BKTimeIsLess (clockDelta, deltaTime))
+				deltaTime = clockDelta;
 		}
 	}
 	while (ctx -> flags & BK_CONTEXT_FLAG_CLOCK_RESET);
 
-	deltaTime = BKTimeSub (nextTime, ctx -> currentTime);
-
 	if (BKTimeIsLessFUInt20 (deltaTime, BK_INT_MAX / 3)) {
 		period = BKTimeGetFUInt20 (deltaTime);
 	}
-- 
2.43.0


From 9d23e5e5c1de67d4116770f0ff23820867d23aae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:30 +0000
Subject: [PATCH 08/49] fix: advance time of a context without clocks

The context time stood still, so BKContextGenerateToTime did not return, and the
clock offset became negative, so clocks attached later did not tick.
---
 src/BKContext.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/BKContext.c b/src/BKContext.c
index 6d29e93..261ee6d 100644
--- a/src/BKContext.c
+++ b/src/BKContext.c
@@ -415,6 +415,11 @@ BKInt BKContextRun (BKContext * ctx, BKFUInt20 endTime)
 		ctx -> deltaTime = time;
 	}
 	else {
+		if (ctx -> deltaTime < endTime) {
+			ctx -> currentTime = BKTimeAddFUInt20 (ctx -> currentTime, endTime - ctx -> deltaTime);
+			ctx -> deltaTime   = endTime;
+		}
+
 		// run units
 		for (unit = ctx -> firstUnit; unit; unit = unit -> nextUnit)
 			unit -> run (unit, endTime);
-- 
2.43.0


From 759942cae72ee4f3e4e80fd459bf97a3145e23fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:59 +0000
Subject: [PATCH 09/49] fix: BKTimeMake overflowed for 2048 samples and more

---
 src/BKTime.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/BKTime.h b/src/BKTime.h
index 4076bdf..1c7bb0a 100644
--- a/src/BKTime.h
+++ b/src/BKTime.h
@@ -38,7 +38,7 @@
 
 BK_INLINE BKTime BKTimeMake (BKInt samples, BKFUInt20 frac)
 {
-	return (samples << BK_FINT20_SHIFT) + frac;
+	return (BKTime) samples * BK_FINT20_UNIT + frac;
 }
 
 BK_INLINE BKInt BKTimeGetTime (BKTime a)
-- 
2.43.0


From 211611fea90996bdcec1bc6c459e49f53742cf63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:59 +0000
Subject: [PATCH 10/49] fix: BKTimeIsGreaterFUInt20 took large values as
 negative

---
 src/BKTime.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/BKTime.h b/src/BKTime.h
index 1c7bb0a..6061c60 100644
--- a/src/BKTime.h
+++ b/src/BKTime.h
@@ -88,7 +88,7 @@ BK_INLINE BKInt BKTimeIsGreater (BKTime a, BKTime b)
 
 BK_INLINE BKInt BKTimeIsGreaterFUInt20 (BKTime a, BKFUInt20 b)
 {
-	return a > (BKInt) b;
+	return a > (BKTime) b;
 }
 
 BK_INLINE BKInt BKTimeIsGreaterEqual (BKTime a, BKTime b)
-- 
2.43.0


From c3bad4876aaac3719c7e52ed79440ed43e9b7afe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:37 +0000
Subject: [PATCH 11/49] fix: slides and intervals with the maximum number of
 steps crash

Shifting the number of steps by the fraction overflowed to INT_MIN, which
breaks the rounding bias or even traps when divided by -1.
---
 src/BKInterpolation.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/BKInterpolation.h b/src/BKInterpolation.h
index 450f220..b0eaac6 100644
--- a/src/BKInterpolation.h
+++ b/src/BKInterpolation.h
@@ -27,7 +27,7 @@
 #include "BKBase.h"
 
 #define BK_STATE_STEP_FRAC_SHIFT 8
-#define BK_STATE_MAX_STEPS (1 << (32 - BK_STATE_STEP_FRAC_SHIFT - 1))
+#define BK_STATE_MAX_STEPS ((1 << (32 - BK_STATE_STEP_FRAC_SHIFT - 1)) - 1)
 
 typedef struct BKSlideState    BKSlideState;
 typedef struct BKIntervalState BKIntervalState;
-- 
2.43.0


From 3c4b9026c42db927a5e6c3df02cbd79a4a3c869b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:37 +0000
Subject: [PATCH 12/49] fix: slow falling slides and intervals miss their end
 value

The step of a falling slide was rounded away from 0 which made the rounding
bias larger than 1.
---
 src/BKInterpolation.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/BKInterpolation.c b/src/BKInterpolation.c
index bd8fb7c..86a2c72 100644
--- a/src/BKInterpolation.c
+++ b/src/BKInterpolation.c
@@ -37,7 +37,7 @@ void BKSlideStateSetValueAndSteps (BKSlideState * state, BKInt endValue, BKInt s
 		// prevent division by 0
 		if ((deltaValue >> state -> valueShift)) {
 			roundBias = ((steps << stepShift) / (deltaValue >> state -> valueShift) / 2);
-			roundBias = (roundBias * (stepDelta >> stepShift));
+			roundBias = (roundBias * (stepDelta / (1 << stepShift)));
 		}
 
 		state -> endValue  = endValue;
@@ -100,7 +100,7 @@ void BKIntervalStateSetDeltaAndSteps (BKIntervalState * state, BKInt delta, BKIn
 			// prevent division by 0
 			if (delta >> state -> valueShift) {
 				roundBias = ((steps << stepShift) / (delta >> state -> valueShift) / 2);
-				roundBias = (roundBias * (stepDelta >> stepShift));
+				roundBias = (roundBias * (stepDelta / (1 << stepShift)));
 			}
 
 			switch (state -> phase) {
-- 
2.43.0


From 165181adf04efbd47da635fb94c56bea9184c81e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:20 +0000
Subject: [PATCH 13/49] fix: BKStatusGetName read outside of the name table

---
 src/BKBase.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/BKBase.c b/src/BKBase.c
index 5fa987d..52b82e5 100644
--- a/src/BKBase.c
+++ b/src/BKBase.c
@@ -48,7 +48,7 @@ char const * BKStatusGetName (BKEnum status)
 {
 	char const * name = "Unknown status";
 
-	if (status & BK_RETURN_TYPE && status <= BK_OTHER_ERROR) {
+	if (status > (BKEnum) BK_RETURN_TYPE && status <= (BKEnum) BK_OTHER_ERROR) {
 		name = statusNames [BK_STATUS_IDX (status)];
 	}
 
-- 
2.43.0


From 47d2e40f8843138f272161e9945b4f083dd1e881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:21 +0000
Subject: [PATCH 14/49] fix: buffer time jumps after reading frames ahead

---
 src/BKBuffer.h | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/BKBuffer.h b/src/BKBuffer.h
index 9a9fa94..f406912 100644
--- a/src/BKBuffer.h
+++ b/src/BKBuffer.h
@@ -131,10 +131,11 @@ BK_INLINE BKInt BKBufferShift (BKBuffer * buf, BKFUInt20 time)
 {
 	BKFUInt20 maxShift;
 
-	maxShift = buf -> capacity << BK_FINT20_SHIFT;
+	// time may be before the buffer if frames have been read ahead
+	maxShift = (buf -> capacity << BK_FINT20_SHIFT) - buf -> time;
 
-	if (buf -> time + time > maxShift) {
-		time = maxShift - buf -> time;
+	if (time > maxShift) {
+		time = maxShift;
 	}
 
 	buf -> time += time;
@@ -144,7 +145,10 @@ BK_INLINE BKInt BKBufferShift (BKBuffer * buf, BKFUInt20 time)
 
 BK_INLINE BKInt BKBufferSize (BKBuffer const * buf)
 {
-	return buf -> time >> BK_FINT20_SHIFT;
+	BKUInt size = buf -> time >> BK_FINT20_SHIFT;
+
+	// nothing to read if frames have been read ahead
+	return size <= buf -> capacity ? size : 0;
 }
 
 BK_INLINE BKInt BKBufferAddPulse (BKBuffer * buf, BKFUInt20 time, BKFrame pulse)
-- 
2.43.0


From 2b5ed4730d16cb10c866da8d62974cabbfbde58b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:21 +0000
Subject: [PATCH 15/49] fix: units make frames readable which other units have
 not written yet

---
 src/BKUnit.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/BKUnit.c b/src/BKUnit.c
index 85f5d0b..8e48b29 100644
--- a/src/BKUnit.c
+++ b/src/BKUnit.c
@@ -1209,7 +1209,7 @@ BKInt BKUnitRun (BKUnit * unit, BKFUInt20 endTime)
 	// advance buffer capacity
 	for (BKInt i = 0; i < ctx -> numChannels; i ++) {
 		channel = & ctx -> channels [i];
-		BKBufferEnd (channel, time);
+		BKBufferEnd (channel, endTime);
 	}
 
 	unit -> time = time;
-- 
2.43.0


From f9a9f61be4052cc8f20e5d57a3dd438f298110de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:21 +0000
Subject: [PATCH 16/49] fix: BKContextGenerateToTime delivers the wrong number
 of frames

---
 src/BKContext.c | 30 +++++++++++++++++-------------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/src/BKContext.c b/src/BKContext.c
index 261ee6d..b437cde 100644
--- a/src/BKContext.c
+++ b/src/BKContext.c
@@ -316,27 +316,31 @@ BKInt BKContextGenerate (BKContext * ctx, BKFrame outFrames [], BKUInt size)
 BKInt BKContextGenerateToTime (BKContext * ctx, BKTime endTime, BKInt (* write) (BKFrame inFrames [], BKUInt size, void * info), void * info)
 {
 	BKInt numFrames = 0;
-	BKTime deltaTime;
+	BKInt size, result;
+	BKTime time, deltaTime;
 	BKFUInt20 period;
+	BKFrame frames [ctx -> numChannels * BK_MAX_GENERATE_SAMPLES];
 
-	while (BKTimeIsLess (ctx -> currentTime, endTime)) {
-		deltaTime = BKTimeSub (endTime, ctx -> currentTime);
+	// clocks may have been run ahead by `deltaTime`
+	time = BKTimeSubFUInt20 (ctx -> currentTime, ctx -> deltaTime);
 
-		if (BKTimeIsLessFUInt20 (deltaTime, BK_INT_MAX / 3)) {
+	while (BKTimeIsLess (time, endTime)) {
+		deltaTime = BKTimeSub (endTime, time);
+		period    = BK_MAX_GENERATE_SAMPLES << BK_FINT20_SHIFT;
+
+		if (BKTimeIsLessFUInt20 (deltaTime, period)) {
 			period = BKTimeGetFUInt20 (deltaTime);
 		}
-		else {
-			period = BK_INT_MAX / 3;
-		}
 
-		BKContextEnd (ctx, period);
+		result = BKContextEnd (ctx, period);
+
+		if (result < 0)
+			return result;
 
-		// write frames if buffer filled or end time is reached
-		if (BKBufferSize (& ctx -> channels [0]) >= BK_MAX_GENERATE_SAMPLES || BKTimeIsGreaterEqual (ctx -> currentTime, endTime)) {
-			BKInt size;
-			BKFrame frames [ctx -> numChannels * BK_MAX_GENERATE_SAMPLES];
+		time = BKTimeAddFUInt20 (time, period);
 
-			size = BKContextRead (ctx, frames, BK_MAX_GENERATE_SAMPLES);
+		// write available frames
+		while ((size = BKContextRead (ctx, frames, BKMin (BKContextSize (ctx), BK_MAX_GENERATE_SAMPLES))) > 0) {
 			numFrames += size;
 
 			if (write (frames, size, info) != 0)
-- 
2.43.0


From f97955a23efa3f2b1b613ecbe90bab4777811876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:00 +0000
Subject: [PATCH 17/49] fix: do not truncate pulse height to 16 bits

The difference of two amplitudes needs 17 bits; steps of more than 32767
wrapped around and left a wrong level in the output.
---
 src/BKBuffer.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/BKBuffer.h b/src/BKBuffer.h
index f406912..6fb0bb7 100644
--- a/src/BKBuffer.h
+++ b/src/BKBuffer.h
@@ -80,7 +80,7 @@ extern void BKBufferDispose (BKBuffer * buf);
 /**
  * Add pulse at time offset
  */
-BK_INLINE BKInt BKBufferAddPulse (BKBuffer * buf, BKFUInt20 time, BKFrame pulse);
+BK_INLINE BKInt BKBufferAddPulse (BKBuffer * buf, BKFUInt20 time, BKInt pulse);
 
 /**
  * Add single frame at time offset
@@ -151,7 +151,7 @@ BK_INLINE BKInt BKBufferSize (BKBuffer const * buf)
 	return size <= buf -> capacity ? size : 0;
 }
 
-BK_INLINE BKInt BKBufferAddPulse (BKBuffer * buf, BKFUInt20 time, BKFrame pulse)
+BK_INLINE BKInt BKBufferAddPulse (BKBuffer * buf, BKFUInt20 time, BKInt pulse)
 {
 	BKUInt frac;
 	BKUInt offset;
-- 
2.43.0


From aa366be6e688ff24e332b2684597a06b70708de6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:21 +0000
Subject: [PATCH 18/49] fix: BKGetPtr on units set the attribute instead of
 reading it

---
 src/BKUnit.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/BKUnit.c b/src/BKUnit.c
index 8e48b29..bc7ec93 100644
--- a/src/BKUnit.c
+++ b/src/BKUnit.c
@@ -1273,7 +1273,7 @@ static BKInt BKUnitSetPtrSize (BKUnit * unit, BKEnum attr, void * ptr, BKSize si
 
 static BKInt BKUnitGetPtrSize (BKUnit * unit, BKEnum attr, void * outPtr, BKSize size)
 {
-	return BKUnitSetPtr (unit, attr, outPtr);
+	return BKUnitGetPtr (unit, attr, outPtr);
 }
 
 BKClass BKUnitClass =
-- 
2.43.0


From dd067923249d1e3ae1fd7e28a306d4e3e5eace10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:21 +0000
Subject: [PATCH 19/49] fix: setting a forward sample range started at the last
 frame

---
 src/BKUnit.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/BKUnit.c b/src/BKUnit.c
index bc7ec93..5b158d2 100644
--- a/src/BKUnit.c
+++ b/src/BKUnit.c
@@ -353,7 +353,7 @@ static void BKUnitUpdateSampleRange (BKUnit * unit, BKInt offset, BKInt end)
 			newPhase = 0;
 		}
 		// set sample phase to end if sample phase is at begin
-		else if (unit -> phase.phase == 0) {
+		else if (unit -> sample.offset > unit -> sample.end && unit -> phase.phase == 0) {
 			newPhase = unit -> sample.length - 1;
 		}
 	}
-- 
2.43.0


From 261f50fcd7cbebaf3c3e0683be46664f29f3a30d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:21 +0000
Subject: [PATCH 20/49] fix: sustain range and release could move the sample
 phase out of the sample range

---
 src/BKUnit.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/BKUnit.c b/src/BKUnit.c
index 5b158d2..409a20d 100644
--- a/src/BKUnit.c
+++ b/src/BKUnit.c
@@ -370,7 +370,8 @@ static void BKUnitUpdateSampleSustainRange (BKUnit * unit, BKInt offset, BKInt e
 		return;
 	}
 
-	sampleLength = unit -> sample.dataState.data -> numFrames;
+	// values are relative to sample range
+	sampleLength = unit -> sample.length;
 
 	if (offset < 0) {
 		offset += sampleLength + 1;
@@ -554,7 +555,7 @@ BKInt BKUnitSetAttr (BKUnit * unit, BKEnum attr, BKInt value)
 				if (value) {
 					if ((unit -> object.flags & BKUnitFlagSampleSustainJump) && unit -> mute == 0) {
 						if (unit -> sample.period > 0) {
-							unit -> phase.phase = unit -> sample.sustainEnd;
+							unit -> phase.phase = BKMin (unit -> sample.sustainEnd, unit -> sample.length - 1);
 						}
 						else {
 							unit -> phase.phase = BKMax (0, (BKInt) unit -> sample.sustainOffset - 1);
-- 
2.43.0


From 8b78a624ae1d323ffa8a1c33a34eb78bbbd3d065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:21 +0000
Subject: [PATCH 21/49] fix: sustain range at the end of the sample was not
 repeated

---
 src/BKUnit.c | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/BKUnit.c b/src/BKUnit.c
index 409a20d..99ef396 100644
--- a/src/BKUnit.c
+++ b/src/BKUnit.c
@@ -1154,13 +1154,6 @@ static BKFUInt20 BKUnitRunSample (BKUnit * unit, BKFUInt20 endTime)
 		unit -> phase.phase += (unit -> sample.timeFrac >> BK_FINT20_SHIFT) - (lastTime >> BK_FINT20_SHIFT);
 		unit -> sample.timeFrac &= BK_FINT20_FRAC;
 
-		// check phase boundary
-		if ((BKInt) unit -> phase.phase < 0 || (BKInt) unit -> phase.phase >= (BKInt) unit -> sample.length) {
-			if (BKUnitResetSample (unit) == 1) {
-				break;
-			}
-		}
-
 		// check for sustain range boundary
 		if (checkBounds) {
 			if (unit -> sample.period > 0) {
@@ -1174,6 +1167,13 @@ static BKFUInt20 BKUnitRunSample (BKUnit * unit, BKFUInt20 endTime)
 				}
 			}
 		}
+
+		// check phase boundary
+		if ((BKInt) unit -> phase.phase < 0 || (BKInt) unit -> phase.phase >= (BKInt) unit -> sample.length) {
+			if (BKUnitResetSample (unit) == 1) {
+				break;
+			}
+		}
 	}
 
 	return time;
-- 
2.43.0


From 80fa06216b7e2d90560de702f5f0875a1019dd14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:21 +0000
Subject: [PATCH 22/49] fix: palindrome repetition could play the frame after
 the sample

---
 src/BKUnit.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/BKUnit.c b/src/BKUnit.c
index 99ef396..3184302 100644
--- a/src/BKUnit.c
+++ b/src/BKUnit.c
@@ -1077,7 +1077,7 @@ static BKInt BKUnitResetSample (BKUnit * unit)
 				unit -> phase.phase = unit -> sample.length - unit -> phase.phase - 1;
 			}
 			else if (resetDir == -1) {
-				unit -> phase.phase = unit -> sample.length - unit -> phase.phase;
+				unit -> phase.phase = BKMin (unit -> sample.length - unit -> phase.phase, unit -> sample.length - 1);
 			}
 			mode = -resetDir;
 			break;
-- 
2.43.0


From afc437b717881a0e6760b2d6b1e167ace33f9b42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:21 +0000
Subject: [PATCH 23/49] fix: result of sample callback was ignored

---
 src/BKUnit.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/BKUnit.c b/src/BKUnit.c
index 3184302..a285b83 100644
--- a/src/BKUnit.c
+++ b/src/BKUnit.c
@@ -223,7 +223,7 @@ static BKEnum BKUnitCallSampleCallback (BKUnit * unit, BKEnum event)
 		info.object = unit;
 		info.event  = event;
 
-		unit -> sample.callback.func (& info, unit -> sample.callback.userInfo);
+		result = unit -> sample.callback.func (& info, unit -> sample.callback.userInfo);
 	}
 
 	return result;
-- 
2.43.0


From 1bbb6286d1570f733743e3c5a0cdede9e6beab85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:21 +0000
Subject: [PATCH 24/49] fix: sample with fewer channels than the context read
 outside of its frames

---
 src/BKUnit.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/BKUnit.c b/src/BKUnit.c
index a285b83..8f7fbb8 100644
--- a/src/BKUnit.c
+++ b/src/BKUnit.c
@@ -1130,6 +1130,11 @@ static BKFUInt20 BKUnitRunSample (BKUnit * unit, BKFUInt20 endTime)
 		return endTime;
 	}
 
+	// unit may have been attached to another context since the sample was set
+	if (unit -> sample.numChannels != 1 && unit -> sample.numChannels != unit -> ctx -> numChannels) {
+		return endTime;
+	}
+
 	checkBounds = (unit -> object.flags & BKUnitFlagSampleSustainRange) && !(unit -> object.flags & BKUnitFlagRelease);
 
 	for (time = unit -> time; time < endTime; time += BK_FINT20_UNIT) {
-- 
2.43.0


From 56b6ec765868d6e5ad1eef87ca9682528cae7259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:13 +0000
Subject: [PATCH 25/49] fix: units kept frames of changed or disposed data

Units not attached to a context ignored changes of their data, and unsetting
a custom waveform while a sample is playing (or vice versa) only unlinked the
data. Unsetting a custom waveform was reported as error.
---
 src/BKUnit.c | 31 ++++++++++++++++++++++---------
 1 file changed, 22 insertions(+), 9 deletions(-)

diff --git a/src/BKUnit.c b/src/BKUnit.c
index 8f7fbb8..ad87b7c 100644
--- a/src/BKUnit.c
+++ b/src/BKUnit.c
@@ -79,10 +79,6 @@ static BKInt BKUnitTrySetData (BKUnit * unit, BKData * data, BKEnum type, BKEnum
 {
 	BKContext * ctx = unit -> ctx;
 
-	if (ctx == NULL) {
-		return BK_INVALID_STATE;
-	}
-
 	switch (type) {
 		// set data as custom waveform
 		case BK_WAVEFORM: {
@@ -106,7 +102,6 @@ static BKInt BKUnitTrySetData (BKUnit * unit, BKData * data, BKEnum type, BKEnum
 				unit -> sample.offset = 0;
 				unit -> sample.end    = 0;
 				unit -> sample.frames = NULL;
-				return -1;
 			}
 
 			break;
@@ -116,7 +111,7 @@ static BKInt BKUnitTrySetData (BKUnit * unit, BKData * data, BKEnum type, BKEnum
 			if (data && event != BK_DATA_STATE_EVENT_DISPOSE) {
 				// number of channels must eighter be 1 or equal to
 				// number of context channels
-				if (data -> numChannels != 1 && data -> numChannels != ctx -> numChannels) {
+				if (data -> numChannels != 1 && ctx && data -> numChannels != ctx -> numChannels) {
 					return BK_INVALID_NUM_CHANNELS;
 				}
 				else if (data -> numFrames < 2) {
@@ -169,9 +164,19 @@ static BKInt BKUnitTrySetData (BKUnit * unit, BKData * data, BKEnum type, BKEnum
 
 static BKInt BKUnitSetData (BKUnit * unit, BKEnum type, BKData * data)
 {
-	BKInt res;
+	BKInt res = BK_INVALID_STATE;
 
-	res = BKUnitTrySetData (unit, data, type, BK_DATA_STATE_EVENT_RESET);
+	if (data == NULL) {
+		// keep data which is used otherwise
+		if ((type == BK_WAVEFORM && unit -> waveform == BK_SAMPLE) || (type == BK_SAMPLE && unit -> waveform == BK_CUSTOM)) {
+			return 0;
+		}
+	}
+
+	// data can only be set if attached to a context
+	if (data == NULL || unit -> ctx) {
+		res = BKUnitTrySetData (unit, data, type, BK_DATA_STATE_EVENT_RESET);
+	}
 
 	if (res == 0) {
 		BKDataStateSetData (& unit -> sample.dataState, data);
@@ -192,6 +197,7 @@ static BKInt BKUnitSetData (BKUnit * unit, BKEnum type, BKData * data)
 
 BKInt BKUnitSampleDataStateCallback (BKEnum event, BKUnit * unit)
 {
+	BKInt  res;
 	BKEnum type;
 
 	switch (unit -> waveform) {
@@ -210,7 +216,14 @@ BKInt BKUnitSampleDataStateCallback (BKEnum event, BKUnit * unit)
 	}
 
 	// reset data
-	return BKUnitTrySetData (unit, unit -> sample.dataState.data, type, event);
+	res = BKUnitTrySetData (unit, unit -> sample.dataState.data, type, event);
+
+	// data can not be used anymore
+	if (res < 0) {
+		BKUnitTrySetData (unit, NULL, type, event);
+	}
+
+	return res;
 }
 
 static BKEnum BKUnitCallSampleCallback (BKUnit * unit, BKEnum event)
-- 
2.43.0


From e7bd4102fe89336b65eb32fe96554d7459a1e31c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:32 +0000
Subject: [PATCH 26/49] fix: removing neighbouring data states left removed
 states in the list

---
 src/BKData.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/BKData.c b/src/BKData.c
index a192e1d..df1c1ea 100644
--- a/src/BKData.c
+++ b/src/BKData.c
@@ -129,10 +129,10 @@ static void BKDataResetStates (BKData * data, BKEnum event)
 
 			state -> nextState = NULL;
 			state -> data      = NULL;
-			state = NULL;
 		}
-
-		prevState = state;
+		else {
+			prevState = state;
+		}
 	}
 
 	data -> object.flags &= ~BKObjectFlagLocked;
-- 
2.43.0


From ebe281f7b39f9d69899f8793267bde1ae54296d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:32 +0000
Subject: [PATCH 27/49] fix: copies of data objects could not be disposed

---
 src/BKData.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/BKData.c b/src/BKData.c
index df1c1ea..a9fa7c3 100644
--- a/src/BKData.c
+++ b/src/BKData.c
@@ -192,7 +192,7 @@ BKInt BKDataInitCopy (BKData * copy, BKData const * original)
 
 	memcpy (copy, original, sizeof (BKData));
 
-	copy -> object.flags &= BK_DATA_FLAG_COPY_MASK;
+	copy -> object.flags = BKObjectFlagInitialized;
 	copy -> stateList = NULL;
 	copy -> frames    = NULL;
 
-- 
2.43.0


From 9bf6921dc8e2a210fda3f58f639a1d4fc18c9935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:32 +0000
Subject: [PATCH 28/49] fix: frames set without copying were freed by the data
 object

The flag marking owned frames was kept when owned frames were replaced by
frames of the caller.
---
 src/BKData.c | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/BKData.c b/src/BKData.c
index a9fa7c3..f8f240d 100644
--- a/src/BKData.c
+++ b/src/BKData.c
@@ -333,7 +333,7 @@ static BKInt BKDataGetPtr (BKData const * data, BKEnum attr, void * outPtr)
 
 BKInt BKDataSetFrames (BKData * data, BKFrame const * frames, BKUInt numFrames, BKUInt numChannels, BKInt copy)
 {
-	BKUInt    size;
+	BKSize    size;
 	BKFrame * newFrames;
 
 	// need at least 2 phases
@@ -343,7 +343,7 @@ BKInt BKDataSetFrames (BKData * data, BKFrame const * frames, BKUInt numFrames,
 	if (numChannels < 1 || numChannels > BK_MAX_CHANNELS)
 		return BK_INVALID_NUM_CHANNELS;
 
-	size = numFrames * numChannels * sizeof (BKFrame);
+	size = (BKSize) numFrames * numChannels * sizeof (BKFrame);
 
 	if (copy) {
 		if (data -> object.flags & BK_DATA_FLAG_COPY) {
@@ -361,15 +361,16 @@ BKInt BKDataSetFrames (BKData * data, BKFrame const * frames, BKUInt numFrames,
 		memcpy (newFrames, frames, size);
 	}
 	else {
+		newFrames = (BKFrame *) frames;
+
+		if (newFrames == NULL) {
+			return -1;
+		}
+
 		if (data -> object.flags & BK_DATA_FLAG_COPY) {
 			free (data -> frames);
+			data -> object.flags &= ~BK_DATA_FLAG_COPY;
 		}
-
-		newFrames = (BKFrame *) frames;
-	}
-
-	if (newFrames == NULL) {
-		return -1;
 	}
 
 	data -> frames      = newFrames;
-- 
2.43.0


From 638cade468b3e64b994e3da3a0fa835a0d19c8ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:32 +0000
Subject: [PATCH 29/49] fix: low byte of 16 bit frames with reversed endianness
 was lost

---
 src/BKData.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/BKData.c b/src/BKData.c
index f8f240d..4063442 100644
--- a/src/BKData.c
+++ b/src/BKData.c
@@ -522,7 +522,7 @@ static BKInt BKDataConvertFromBits (BKFrame * outFrames, void const * data, BKUI
 			}
 			case 16: {
 				if (reverseEndian) {
-					outFrames [0] = (charData [0] << 8) | (charData [1] >> 8);
+					outFrames [0] = (charData [0] << 8) | charData [1];
 				} else {
 					outFrames [0] =  (* (BKFrame *) charData);
 				}
-- 
2.43.0


From 5a5db9237bef72fd69cad6b22d67dfcdc3ffd278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:32 +0000
Subject: [PATCH 30/49] fix: negative values of signed 8 bit frames were
 converted wrong

The constant is unsigned, which made the division unsigned.
---
 src/BKData.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/BKData.c b/src/BKData.c
index 4063442..1235f14 100644
--- a/src/BKData.c
+++ b/src/BKData.c
@@ -511,7 +511,7 @@ static BKInt BKDataConvertFromBits (BKFrame * outFrames, void const * data, BKUI
 			}
 			case 8: {
 				if (isSigned) {
-					outFrames [0] = (BKFrame) (* (signed char *) charData) * BK_FRAME_MAX / 127;
+					outFrames [0] = BKMax (* (signed char *) charData, -127) * (BKInt) BK_FRAME_MAX / 127;
 				} else {
 					outFrames [0] = (BKFrame) (* (unsigned char *) charData) * BK_FRAME_MAX / 255;
 				}
-- 
2.43.0


From 3039e8424685161fb61591629896c81f3df78d0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:32 +0000
Subject: [PATCH 31/49] fix: number of frames did not match the converted data

Trailing bytes which are not converted were counted as frames, so that frames
had undefined values. Large sizes overflowed.
---
 src/BKData.c | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/BKData.c b/src/BKData.c
index 1235f14..5524a77 100644
--- a/src/BKData.c
+++ b/src/BKData.c
@@ -443,7 +443,7 @@ static BKInt BKDataCalculateNumFramesFromNumBits (BKUInt dataSize, BKUInt numBit
 {
 	BKInt numFrames = 0;
 	BKInt packetSize;
-	BKInt dataSizeBits = dataSize * 8;
+	uint64_t dataSizeBits;
 
 	if (numBits <= 8) {
 		packetSize = (numBits * numChannels);
@@ -453,7 +453,16 @@ static BKInt BKDataCalculateNumFramesFromNumBits (BKUInt dataSize, BKUInt numBit
 		packetSize = (numBits + 3) / 4 * 4 * numChannels;
 	}
 
-	numFrames = dataSizeBits / packetSize * numChannels;
+	// only complete packets of whole bytes are converted
+	dataSize -= dataSize % ((numBits > 8 ? 2 : 1) * numChannels);
+	dataSizeBits = (uint64_t) dataSize * 8;
+
+	// value does not fit
+	if (dataSizeBits / packetSize * numChannels > BK_INT_MAX) {
+		return -1;
+	}
+
+	numFrames = (BKInt) (dataSizeBits / packetSize * numChannels);
 
 	return numFrames;
 }
@@ -560,8 +569,9 @@ BKInt BKDataSetData (BKData * data, void const * frameData, BKUInt dataSize, BKU
 
 	numFrames = BKDataCalculateNumFramesFromNumBits (dataSize, numBits, numChannels);
 
-	if (numFrames < 0)
-		return BK_INVALID_NUM_BITS;
+	// need at least 2 phases
+	if (numFrames < 2 * (BKInt) numChannels)
+		return BK_INVALID_NUM_FRAMES;
 
 	if (data -> object.flags & BK_DATA_FLAG_COPY) {
 		frames = realloc (data -> frames, numFrames * sizeof (BKFrame));
-- 
2.43.0


From 9a28395b6fdc716220f6ee0080dd179b615df0b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:32 +0000
Subject: [PATCH 32/49] fix: frames made by BKDataSetData were leaked and users
 were not informed

The data object did not mark the frames as its own and units continued to use
the previous frames.
---
 src/BKData.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/BKData.c b/src/BKData.c
index 5524a77..94de4a2 100644
--- a/src/BKData.c
+++ b/src/BKData.c
@@ -591,6 +591,10 @@ BKInt BKDataSetData (BKData * data, void const * frameData, BKUInt dataSize, BKU
 	data -> numChannels = numChannels;
 	data -> numBits     = numBits;
 
+	data -> object.flags |= BK_DATA_FLAG_COPY;
+
+	BKDataResetStates (data, BK_DATA_STATE_EVENT_RESET);
+
 	return 0;
 }
 
-- 
2.43.0


From d6a611edc2705dc9c2e091a474c855cd09778004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:32 +0000
Subject: [PATCH 33/49] fix: raw data was used even if the file could not be
 read

---
 src/BKData.c | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/BKData.c b/src/BKData.c
index 94de4a2..ef90e4b 100644
--- a/src/BKData.c
+++ b/src/BKData.c
@@ -613,11 +613,12 @@ BKInt BKDataLoadRaw (BKData * data, FILE * file, BKUInt numChannels, BKEnum para
 	fseek (file, 0, SEEK_END);
 	size = ftell (file);
 
-	if (size < 0) {
+	size -= offset;
+
+	if (size < 0 || size > BK_INT_MAX) {
 		return BK_FILE_ERROR;
 	}
 
-	size -= offset;
 	frames = malloc (size);
 
 	if (frames == NULL) {
@@ -625,9 +626,13 @@ BKInt BKDataLoadRaw (BKData * data, FILE * file, BKUInt numChannels, BKEnum para
 	}
 
 	fseek (file, offset, SEEK_SET);
-	fread (frames, sizeof (char), size, file);
 
-	ret = BKDataSetData (data, frames, (BKUInt) size, numChannels, params);
+	if (fread (frames, sizeof (char), size, file) == (size_t) size) {
+		ret = BKDataSetData (data, frames, (BKUInt) size, numChannels, params);
+	}
+	else {
+		ret = BK_FILE_ERROR;
+	}
 
 	free (frames);
 
-- 
2.43.0


From 78b5a27b8e3c95614fecabcb47b8c3acafbb779d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:32 +0000
Subject: [PATCH 34/49] fix: frames made by BKDataConvert were leaked

---
 src/BKData.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/BKData.c b/src/BKData.c
index ef90e4b..b7ad30b 100644
--- a/src/BKData.c
+++ b/src/BKData.c
@@ -828,6 +828,7 @@ BKInt BKDataConvert (BKData * data, BKDataConvertInfo * info)
 	BKDataReduceBits (convertedFrames, data -> frames, length, & validatedInfo);
 
 	data -> frames = convertedFrames;
+	data -> object.flags |= BK_DATA_FLAG_COPY;
 
 	BKDataResetStates (data, BK_DATA_STATE_EVENT_RESET);
 
-- 
2.43.0


From 30aa62803e90cdda1c96274fc7bafd065a9c7049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:32 +0000
Subject: [PATCH 35/49] fix: units used the previous frames after
 BKDataNormalize

---
 src/BKData.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/BKData.c b/src/BKData.c
index b7ad30b..f9f1bf7 100644
--- a/src/BKData.c
+++ b/src/BKData.c
@@ -704,6 +704,8 @@ BKInt BKDataNormalize (BKData * data)
 			data -> frames [i] = (data -> frames [i] * factor) >> 16;
 	}
 
+	BKDataResetStates (data, BK_DATA_STATE_EVENT_RESET);
+
 	return 0;
 }
 
-- 
2.43.0


From e650d3fbf57d29287a3ff96bc252ec20b5b5bff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:20 +0000
Subject: [PATCH 36/49] fix: BKWaveFileWriteData swapped sample rate and number
 of channels

---
 src/BKWaveFileWriter.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/BKWaveFileWriter.c b/src/BKWaveFileWriter.c
index 5ccb0b6..a722ddb 100644
--- a/src/BKWaveFileWriter.c
+++ b/src/BKWaveFileWriter.c
@@ -253,7 +253,7 @@ BKInt BKWaveFileWriteData (FILE * file, BKData const * data, BKInt sampleRate, B
 {
 	BKWaveFileWriter writer;
 
-	if (BKWaveFileWriterInit (& writer, file, sampleRate, data -> numChannels, numBits) < 0) {
+	if (BKWaveFileWriterInit (& writer, file, data -> numChannels, sampleRate, numBits) < 0) {
 		return -1;
 	}
 
-- 
2.43.0


From 17f5e12cbae0b7a99127e836524e2e9913fab0ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:20 +0000
Subject: [PATCH 37/49] fix: wrong WAVE headers if file is not written from its
 start or is empty

The size included everything before the header and no header was written if
no frames were appended.
---
 src/BKWaveFileWriter.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/BKWaveFileWriter.c b/src/BKWaveFileWriter.c
index a722ddb..4cea533 100644
--- a/src/BKWaveFileWriter.c
+++ b/src/BKWaveFileWriter.c
@@ -155,7 +155,7 @@ static BKInt BKWaveFileWriterWriteHeader (BKWaveFileWriter * writer)
 	fwrite (& fmtHeader, sizeof (fmtHeader), 1, writer -> file);
 	fwrite (& dataHeader, sizeof (dataHeader), 1, writer -> file);
 
-	writer -> fileSize += ftell (writer -> file) - 8;
+	writer -> fileSize += ftell (writer -> file) - writer -> initOffset - 8;
 
 	writer -> object.flags |= BKWaveFileFlagHeaderWritten;
 
@@ -219,6 +219,13 @@ BKInt BKWaveFileWriterTerminate (BKWaveFileWriter * writer)
 	BKSize   offset;
 	uint32_t chunkSize;
 
+	// nothing was appended
+	if (!(writer -> object.flags & BKWaveFileFlagHeaderWritten)) {
+		if (BKWaveFileWriterWriteHeader (writer) < 0) {
+			return -1;
+		}
+	}
+
 	offset = writer -> initOffset + offsetof (BKWaveFileHeader, chunkSize);
 	chunkSize = (uint32_t) writer -> fileSize;
 
-- 
2.43.0


From 9cb66ef9b1ef9cca8149b808fcffc93df07113c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:20 +0000
Subject: [PATCH 38/49] fix: reading of WAVE files with unusual headers

Files with incomplete frames at the end made more frames than announced,
zero channels caused a division by zero and the extension of the format
chunk was taken for the next chunk. The rest of truncated 8 bit files was
only cleared half.
---
 src/BKWaveFileReader.c | 29 +++++++++++++++++++++++------
 1 file changed, 23 insertions(+), 6 deletions(-)

diff --git a/src/BKWaveFileReader.c b/src/BKWaveFileReader.c
index 258184b..f5c6c0f 100644
--- a/src/BKWaveFileReader.c
+++ b/src/BKWaveFileReader.c
@@ -133,6 +133,15 @@ BKInt BKWaveFileReaderReadHeader (BKWaveFileReader * reader, BKInt * outNumChann
 			return -1;
 		}
 
+		if (headerFmt.numChannels < 1 || headerFmt.numChannels > BK_MAX_CHANNELS || headerFmt.sampleRate == 0) {
+			return -1;
+		}
+
+		// skip extensions of format
+		if (headerFmt.subchunkSize < 16 || fseek (reader -> file, (long) headerFmt.subchunkSize - 16 + (headerFmt.subchunkSize & 1), SEEK_CUR) < 0) {
+			return -1;
+		}
+
 		do {
 			size = fread (& headerData, 1, sizeof (headerData), reader -> file);
 
@@ -146,12 +155,13 @@ BKInt BKWaveFileReaderReadHeader (BKWaveFileReader * reader, BKInt * outNumChann
 				break;
 			}
 
-			// seek to next subchunk
-			fseek (reader -> file, headerData.subchunkSize, SEEK_CUR);
+			// seek to next subchunk which begins at an even offset
+			if (fseek (reader -> file, (long) headerData.subchunkSize + (headerData.subchunkSize & 1), SEEK_CUR) < 0) {
+				return -1;
+			}
 		}
 		while (1);
 
-		reader -> sampleRate  = headerFmt.sampleRate;
 		reader -> numChannels = headerFmt.numChannels;
 		reader -> numBits     = headerFmt.bitsPerSample;
 
@@ -183,7 +193,14 @@ BKInt BKWaveFileReaderReadHeader (BKWaveFileReader * reader, BKInt * outNumChann
 			reader -> dataSize = size - cur;
 		}
 
-		reader -> numFrames = (BKInt) reader -> dataSize / reader -> numChannels / frameSize;
+		if (reader -> dataSize < 0 || reader -> dataSize > BK_INT_MAX) {
+			return -1;
+		}
+
+		// only read complete frames
+		reader -> numFrames  = (BKInt) (reader -> dataSize / reader -> numChannels / frameSize);
+		reader -> dataSize   = (BKSize) reader -> numFrames * reader -> numChannels * frameSize;
+		reader -> sampleRate = headerFmt.sampleRate;
 	}
 
 	* outNumChannels = reader -> numChannels;
@@ -268,8 +285,8 @@ BKInt BKWaveFileReaderReadFrames (BKWaveFileReader * reader, BKFrame outFrames [
 		}
 	}
 
-	// empty trailing byte if any
-	memset (outFrames, 0, reader -> dataSize - writeSize);
+	// empty trailing frames if any
+	memset (outFrames, 0, (reader -> dataSize - writeSize) / frameSize * sizeof (BKFrame));
 
 	return 0;
 }
-- 
2.43.0


From adf4d97cfd59b33702d7327c4d979a8f973f813a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:20 +0000
Subject: [PATCH 39/49] fix: previous frames were leaked when loading a WAVE
 file

Units using the data object were not informed about the new frames.
---
 src/BKData.c | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/BKData.c b/src/BKData.c
index f9f1bf7..455c504 100644
--- a/src/BKData.c
+++ b/src/BKData.c
@@ -651,10 +651,17 @@ BKInt BKDataLoadWAVE (BKData * data, FILE * file)
 	}
 
 	if (BKWaveFileReaderReadHeader (& reader, & numChannels, & sampleRate, & numFrames) < 0) {
+		BKDispose (& reader);
 		return BK_INVALID_RETURN_VALUE;
 	}
 
-	size   = numFrames * numChannels * sizeof (BKFrame);
+	// need at least 2 phases
+	if (numFrames < 2) {
+		BKDispose (& reader);
+		return BK_INVALID_NUM_FRAMES;
+	}
+
+	size   = (BKSize) numFrames * numChannels * sizeof (BKFrame);
 	frames = malloc (size);
 
 	if (frames == NULL) {
@@ -664,9 +671,14 @@ BKInt BKDataLoadWAVE (BKData * data, FILE * file)
 
 	if (BKWaveFileReaderReadFrames (& reader, frames) < 0) {
 		free (frames);
+		BKDispose (& reader);
 		return BK_INVALID_RETURN_VALUE;
 	}
 
+	if (data -> object.flags & BK_DATA_FLAG_COPY) {
+		free (data -> frames);
+	}
+
 	data -> object.flags |= BK_DATA_FLAG_COPY;
 	data -> numBits       = 16;
 	data -> sampleRate    = sampleRate;
@@ -676,6 +688,8 @@ BKInt BKDataLoadWAVE (BKData * data, FILE * file)
 
 	BKDispose (& reader);
 
+	BKDataResetStates (data, BK_DATA_STATE_EVENT_RESET);
+
 	return 0;
 }
 
-- 
2.43.0


From 41ca48d4ae29d9a61d0f9259d8b1cd53d2de2a85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:19 +0000
Subject: [PATCH 40/49] fix: range set while a sample begins referred to the
 previous data

---
 src/BKUnit.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/BKUnit.c b/src/BKUnit.c
index ad87b7c..b98422e 100644
--- a/src/BKUnit.c
+++ b/src/BKUnit.c
@@ -132,9 +132,13 @@ static BKInt BKUnitTrySetData (BKUnit * unit, BKData * data, BKEnum type, BKEnum
 					unit -> sample.sustainOffset = 0;
 					unit -> sample.sustainEnd    = 0;
 
-					BKUnitCallSampleCallback (unit, BK_EVENT_SAMPLE_BEGIN);
-
 					BKBitUnset (unit -> object.flags, BKUnitFlagSampleSustainRange | BKUnitFlagSampleSustainJump | BKUnitFlagRelease);
+
+					// ranges set by the callback refer to the new data
+					if (unit -> sample.dataState.data != data)
+						BKDataStateSetData (& unit -> sample.dataState, data);
+
+					BKUnitCallSampleCallback (unit, BK_EVENT_SAMPLE_BEGIN);
 				}
 			}
 			// disable sample
-- 
2.43.0


From ca1e51a5b138d295e24427ce9883c32ab618f32b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:19 +0000
Subject: [PATCH 41/49] fix: copies of sequences used the values of the
 original

---
 src/BKSequence.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/BKSequence.c b/src/BKSequence.c
index 67183a7..ac4c4d4 100644
--- a/src/BKSequence.c
+++ b/src/BKSequence.c
@@ -122,10 +122,12 @@ static BKInt BKSequenceFuncSimpleCopy (BKSequence ** outCopy, BKSequence const *
 
 	if (copy) {
 		values = (void *) copy + sizeof (* copy);
-		copy -> values = values;
 
 		memcpy (copy, sequence, sizeof (* copy));
-		memcpy (copy -> values, sequence -> values, size);
+		memcpy (values, sequence -> values, size);
+
+		copy -> stateList = NULL;
+		copy -> values    = values;
 
 		* outCopy = copy;
 
@@ -365,10 +367,12 @@ static BKInt BKSequenceFuncEnvelopeCopy (BKSequence ** outCopy, BKSequence const
 
 	if (copy) {
 		values = (void *) copy + sizeof (* copy);
-		copy -> values = values;
 
 		memcpy (copy, sequence, sizeof (* copy));
-		memcpy (copy -> values, sequence -> values, size);
+		memcpy (values, sequence -> values, size);
+
+		copy -> stateList = NULL;
+		copy -> values    = values;
 
 		* outCopy = copy;
 
-- 
2.43.0


From 49a34d8aa769b9cf157bfba2be87c818e1664e01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:19 +0000
Subject: [PATCH 42/49] fix: sliding from the duty cycle to a smaller one
 overflowed

---
 src/BKSequence.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/BKSequence.c b/src/BKSequence.c
index ac4c4d4..94795d7 100644
--- a/src/BKSequence.c
+++ b/src/BKSequence.c
@@ -168,6 +168,9 @@ static BKUInt BKSequencePhaseGetFracShift (BKSequencePhase const * phases, BKUIn
 	BKInt shift    = 0;
 	BKInt maxValue = BKSequencePhaseGetMaxAbsValue (phases, length);
 
+	// duty cycle of track is set as start value
+	maxValue = BKMax (maxValue, BK_SQUARE_PHASES);
+
 	// shift must be smaller than maximum value
 	// reduce by one bit to allow enough delta to slide from maximum to minimum
 	while ((1 << shift) <= maxValue && shift < 30)
-- 
2.43.0


From 2be7509724d96d0a27729ccb73fb5c45b36fd7b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:19 +0000
Subject: [PATCH 43/49] fix: states kept disposed sequences

---
 src/BKSequence.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/BKSequence.c b/src/BKSequence.c
index 94795d7..0e1f0f6 100644
--- a/src/BKSequence.c
+++ b/src/BKSequence.c
@@ -460,6 +460,11 @@ BKInt BKSequenceCopy (BKSequence ** outSequence, BKSequence * sequence)
 
 void BKSequenceDispose (BKSequence * sequence)
 {
+	if (sequence) {
+		while (sequence -> stateList)
+			BKSequenceStateSetSequence (sequence -> stateList, NULL);
+	}
+
 	free (sequence);
 }
 
-- 
2.43.0


From 61900a3948441df95d5b3a0614a9c8e2fa43256f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:19 +0000
Subject: [PATCH 44/49] fix: copies of instruments could not be disposed

---
 src/BKInstrument.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/BKInstrument.c b/src/BKInstrument.c
index b49cc35..96398d7 100644
--- a/src/BKInstrument.c
+++ b/src/BKInstrument.c
@@ -117,9 +117,12 @@ BKInt BKInstrumentInitCopy (BKInstrument * copy, BKInstrument const * original)
 	BKInt res = 0;
 	BKSequence * sequence;
 
-	memset (copy, 0, sizeof (sizeof (BKInstrument)));
+	res = BKObjectInit (copy, & BKInstrumentClass, sizeof (*copy));
 
-	copy -> object.flags = (original -> object.flags & BK_INSTR_FLAG_COPY_MASK);
+	if (res < 0)
+		return res;
+
+	copy -> object.flags |= (original -> object.flags & BK_INSTR_FLAG_COPY_MASK);
 	copy -> numSequences = original -> numSequences;
 
 	for (BKInt i = 0; i < original -> numSequences; i ++) {
@@ -128,8 +131,10 @@ BKInt BKInstrumentInitCopy (BKInstrument * copy, BKInstrument const * original)
 		if (sequence) {
 			res = BKSequenceCopy (& copy -> sequences [i], sequence);
 
-			if (res < 0)
+			if (res < 0) {
+				BKDispose (copy);
 				return res;
+			}
 		}
 	}
 
-- 
2.43.0


From 22bc3ba3505bd4a2f343411032c7d6ef8572c9fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:34 +0000
Subject: [PATCH 45/49] fix: arpeggios were read behind the given notes

---
 src/BKTrack.c | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/BKTrack.c b/src/BKTrack.c
index 020e1af..f290cd2 100644
--- a/src/BKTrack.c
+++ b/src/BKTrack.c
@@ -211,7 +211,9 @@ static void BKTrackArpeggioSetNotes (BKTrack * track, BKInt * arpeggio, BKInt co
 		state -> offset = 0;
 	}
 
-	memcpy (state -> notes, arpeggio, count * sizeof (BKInt));
+	if (count > 0)
+		memcpy (state -> notes, arpeggio, count * sizeof (BKInt));
+
 	BKBitSetCond (track -> flags, BKArpeggioFlag, count > 0);
 
 	track -> flags |= BKTrackAttrUpdateFlagNote;
@@ -1027,12 +1029,15 @@ static BKInt BKTrackSetPtrObj (BKTrack * track, BKEnum attr, void * ptr, BKSize
 				}
 				case BK_ARPEGGIO: {
 					BKInt * arpeggio = ptr;
-					BKUInt  count    = 0;
+					BKInt   count    = 0;
 
-					if (arpeggio && size)
-						count = BKMin (arpeggio [0], BK_MAX_ARPEGGIO);
+					// notes behind the given size do not exist
+					if (arpeggio && size >= sizeof (BKInt)) {
+						count = BKClamp (arpeggio [0], 0, BK_MAX_ARPEGGIO);
+						count = BKMin (count, (BKInt) (BKMin (size / sizeof (BKInt), BK_MAX_ARPEGGIO + 1) - 1));
+					}
 
-					BKTrackArpeggioSetNotes (track, & arpeggio [1], count);
+					BKTrackArpeggioSetNotes (track, count ? & arpeggio [1] : NULL, count);
 
 					break;
 				}
-- 
2.43.0


From 50eecb7bc9db7dd750326b0189b3343e9f3bf537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:34 +0000
Subject: [PATCH 46/49] fix: tremolo and vibrato values were read back scaled

---
 src/BKTrack.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/BKTrack.c b/src/BKTrack.c
index f290cd2..fee0b53 100644
--- a/src/BKTrack.c
+++ b/src/BKTrack.c
@@ -952,14 +952,14 @@ BKInt BKTrackGetEffect (BKTrack const * track, BKEnum effect, void * outValues,
 			break;
 		}
 		case BK_EFFECT_TREMOLO: {
-			values [0] = track -> tremoloSteps.endValue;
-			values [1] = track -> tremoloDelta.endValue;
+			values [0] = track -> tremoloSteps.endValue >> track -> tremoloSteps.valueShift;
+			values [1] = track -> tremoloDelta.endValue >> track -> tremoloDelta.valueShift;
 			values [2] = track -> tremoloDelta.steps;
 			break;
 		}
 		case BK_EFFECT_VIBRATO: {
-			values [0] = track -> vibratoSteps.endValue;
-			values [1] = track -> vibratoDelta.endValue;
+			values [0] = track -> vibratoSteps.endValue >> track -> vibratoSteps.valueShift;
+			values [1] = track -> vibratoDelta.endValue >> track -> vibratoDelta.valueShift;
 			values [2] = track -> vibratoDelta.steps;
 			break;
 		}
-- 
2.43.0


From 672090c80b16c2f693cb355f42bebfbb7e835e30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:34 +0000
Subject: [PATCH 47/49] fix: changed pitches were not heard before the next
 note

---
 src/BKTrack.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/BKTrack.c b/src/BKTrack.c
index fee0b53..0f40b15 100644
--- a/src/BKTrack.c
+++ b/src/BKTrack.c
@@ -722,11 +722,13 @@ static BKInt BKTrackSetAttrInt (BKTrack * track, BKEnum attr, BKInt value)
 			break;
 		}
 		case BK_PITCH: {
-			track -> pitch = BKClamp (value, BK_MIN_SAMPLE_TONE << BK_FINT20_SHIFT, BK_MAX_SAMPLE_TONE << BK_FINT20_SHIFT);
+			track -> pitch = BKClamp (value, BK_MIN_SAMPLE_TONE * BK_FINT20_UNIT, BK_MAX_SAMPLE_TONE * BK_FINT20_UNIT);
+			track -> flags |= BKTrackAttrUpdateFlagNote;
 			break;
 		}
 		case BK_SAMPLE_PITCH: {
-			track -> samplePitch = BKClamp (value, BK_MIN_SAMPLE_TONE << BK_FINT20_SHIFT, BK_MAX_SAMPLE_TONE << BK_FINT20_SHIFT);
+			track -> samplePitch = BKClamp (value, BK_MIN_SAMPLE_TONE * BK_FINT20_UNIT, BK_MAX_SAMPLE_TONE * BK_FINT20_UNIT);
+			track -> flags |= BKTrackAttrUpdateFlagNote;
 			break;
 		}
 		case BK_ARPEGGIO_DIVIDER: {
-- 
2.43.0


From 26ded7a068cb8dfe81f8d45d7761b30748d2af47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:34 +0000
Subject: [PATCH 48/49] fix: attached tracks kept the period of another sample
 rate

---
 src/BKTrack.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/BKTrack.c b/src/BKTrack.c
index 0f40b15..4209c62 100644
--- a/src/BKTrack.c
+++ b/src/BKTrack.c
@@ -523,7 +523,8 @@ BKInt BKTrackAttach (BKTrack * track, BKContext * ctx)
 		if (ctx -> numChannels == 2)
 			track -> flags |= (BKPanningEnabledFlag);
 
-		track -> flags |= BKTrackAttrUpdateFlagVolume;
+		// period depends on sample rate of context
+		track -> flags |= BKTrackAttrUpdateFlagVolume | BKTrackAttrUpdateFlagNote;
 		BKTrackUpdateUnit (track);
 	}
 
-- 
2.43.0


From cc90bec9a07214a5185c9bbcf4f4bed07da04da0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:34 +0000
Subject: [PATCH 49/49] fix: cleared tracks did not notice changed samples

---
 src/BKTrack.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/BKTrack.c b/src/BKTrack.c
index 4209c62..2c5eeac 100644
--- a/src/BKTrack.c
+++ b/src/BKTrack.c
@@ -467,6 +467,10 @@ void BKTrackClear (BKTrack * track)
 
 	BKUnitClear (& track -> unit);
 
+	// reset by `BKUnitClear`
+	track -> unit.sample.dataState.callback         = (void *) BKTrackSampleDataStateCallback;
+	track -> unit.sample.dataState.callbackUserInfo = track;
+
 	BKTrackSetInstrument (track, NULL);
 
 	// only clear fields after and including "arpeggioDivider" field
-- 
2.43.0

