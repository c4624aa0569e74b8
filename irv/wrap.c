/* gives the header-only (static inline) functions of BlipKit an external name,
   so that their bodies, as compiled from /repo's headers, are verified too */
#include "BlipKit.h"
#include "BKObject.h"
#include "BKTime.h"

#include "BKWaveFile_internal.h"

BKInt vt_BKBufferAddPulse (BKBuffer * b, BKFUInt20 t, BKInt p) { return BKBufferAddPulse (b, t, p); }
BKInt vt_BKBufferAddFrame (BKBuffer * b, BKFUInt20 t, BKFrame f) { return BKBufferAddFrame (b, t, f); }
BKInt vt_BKBufferEnd (BKBuffer * b, BKFUInt20 t) { return BKBufferEnd (b, t); }
BKInt vt_BKBufferShift (BKBuffer * b, BKFUInt20 t) { return BKBufferShift (b, t); }
BKInt vt_BKBufferSize (BKBuffer const * b) { return BKBufferSize (b); }

void vt_BKSlideStateSetValue (BKSlideState * s, BKInt v) { BKSlideStateSetValue (s, v); }
void vt_BKSlideStateSetSteps (BKSlideState * s, BKInt v) { BKSlideStateSetSteps (s, v); }
void vt_BKSlideStateHalt (BKSlideState * s, BKInt v) { BKSlideStateHalt (s, v); }
void vt_BKSlideStateStep (BKSlideState * s) { BKSlideStateStep (s); }
BKInt vt_BKSlideStateGetValue (BKSlideState const * s) { return BKSlideStateGetValue (s); }
void vt_BKIntervalStateSetDelta (BKIntervalState * s, BKInt v) { BKIntervalStateSetDelta (s, v); }
void vt_BKIntervalStateSetSteps (BKIntervalState * s, BKInt v) { BKIntervalStateSetSteps (s, v); }
BKInt vt_BKIntervalStateGetValue (BKIntervalState const * s) { return BKIntervalStateGetValue (s); }

BKTime vt_BKTimeMake (BKInt samples, BKFUInt20 frac) { return BKTimeMake (samples, frac); }
BKInt vt_BKTimeGetTime (BKTime a) { return BKTimeGetTime (a); }
BKFUInt20 vt_BKTimeGetFrac (BKTime a) { return BKTimeGetFrac (a); }
BKFUInt20 vt_BKTimeGetFUInt20 (BKTime a) { return BKTimeGetFUInt20 (a); }
BKTime vt_BKTimeAdd (BKTime a, BKTime b) { return BKTimeAdd (a, b); }
BKTime vt_BKTimeAddFUInt20 (BKTime a, BKFUInt20 b) { return BKTimeAddFUInt20 (a, b); }
BKTime vt_BKTimeSub (BKTime a, BKTime b) { return BKTimeSub (a, b); }
BKTime vt_BKTimeSubFUInt20 (BKTime a, BKFUInt20 b) { return BKTimeSubFUInt20 (a, b); }
BKInt vt_BKTimeIsEqual (BKTime a, BKTime b) { return BKTimeIsEqual (a, b); }
BKInt vt_BKTimeIsGreater (BKTime a, BKTime b) { return BKTimeIsGreater (a, b); }
BKInt vt_BKTimeIsGreaterFUInt20 (BKTime a, BKFUInt20 b) { return BKTimeIsGreaterFUInt20 (a, b); }
BKInt vt_BKTimeIsGreaterEqual (BKTime a, BKTime b) { return BKTimeIsGreaterEqual (a, b); }
BKInt vt_BKTimeIsLess (BKTime a, BKTime b) { return BKTimeIsLess (a, b); }
BKInt vt_BKTimeIsLessFUInt20 (BKTime a, BKFUInt20 b) { return BKTimeIsLessFUInt20 (a, b); }
BKInt vt_BKTimeIsLessEqual (BKTime a, BKTime b) { return BKTimeIsLessEqual (a, b); }
