/* C13 slides/intervals, C21 tone lookups, C22 time arithmetic, C26 status names */
#include "BlipKit.h"
#include "mc.h"
#include <math.h>
#include <string.h>

/* ------------------------------------------------------------------ C26 */
static void status_names (int unused)
{
	uint32_t hi = mc_choose (256);
	const char *last = NULL;
	mc_log ("status values 0x%02x000000 .. 0x%02xffffff", hi, hi);
	for (uint32_t lo = 0; lo < 1u << 24; lo ++) {
		uint32_t st = hi << 24 | lo;
		const char *s = BKStatusGetName (st);
		if (s == last) continue;
		if (!s) mc_fail ("null-name", "BKStatusGetName(0x%08x) returned NULL", st);
		size_t n = strlen (s);
		if (n == 0 || n > 200) mc_fail ("bad-name", "BKStatusGetName(0x%08x): string of length %zu", st, n);
		for (size_t i = 0; i < n; i ++)
			if ((unsigned char) s [i] < 0x20 || (unsigned char) s [i] > 0x7e)
				mc_fail ("bad-name", "BKStatusGetName(0x%08x): unprintable", st);
		last = s;
		mc_state (mc_hash (1, s, n));
		mc_cover ("%.60s", s);
	}
	mc_eval (1u << 24);
	mc_trans (1u << 24);
}
static void status_defined (int unused)
{
	static const BKEnum e [] = { BK_ALLOCATION_ERROR, BK_INVALID_ATTRIBUTE, BK_INVALID_VALUE, BK_INVALID_STATE,
		BK_INVALID_NUM_CHANNELS, BK_INVALID_NUM_FRAMES, BK_INVALID_NUM_BITS, BK_INVALID_RETURN_VALUE, BK_FILE_ERROR,
		BK_FILE_NOT_READABLE_ERROR, BK_FILE_NOT_WRITABLE_ERROR, BK_FILE_NOT_SEEKABLE_ERROR, BK_OTHER_ERROR };
	int n = sizeof e / sizeof *e;
	int i = mc_choose (n), j = mc_choose (n);
	mc_log ("names of status %d and %d", (int) e [i], (int) e [j]);
	const char *unk = BKStatusGetName (0x12345), *a = BKStatusGetName (e [i]), *b = BKStatusGetName (e [j]);
	MC_CHECK (a && b && unk, "null-name", "NULL name");
	MC_CHECK (strcmp (a, unk), "no-own-name", "error %d has the name of an unknown status", (int) e [i]);
	MC_CHECK ((i == j) == !strcmp (a, b), "no-own-name", "errors %d and %d: '%s' '%s'", (int) e [i], (int) e [j], a, b);
	mc_eval (1); mc_trans (2);
}

/* ------------------------------------------------------------------ C22 */
typedef __int128 I;
static const int32_t Samples [] = { 0, 1, 2, 3, 1023, 1024, 2047, 2048, 2049, 4095, 4096, 44100, 96000, 1 << 20, (1 << 20) + 1, 1 << 30,
	INT32_MAX - 1, INT32_MAX, -1, -2, -2047, -2048, -2049, -4096, -44100, INT32_MIN + 1, INT32_MIN };
static const uint32_t Fracs [] = { 0, 1, 2, 0x7ffff, 0x80000, 0x80001, 0xffffe, 0xfffff, 0x100000, 0x100001, 0x2aaaaaaa, 0x2aaaaaab, 0x7fffffff, 0x80000000u, 0x80000001u, 0xfffffffeu, 0xffffffffu };
#define N(a) ((int) (sizeof (a) / sizeof *(a)))

static void time_pair (int unused)
{
	int32_t s1 = Samples [mc_choose (N (Samples))], s2 = Samples [mc_choose (N (Samples))];
	for (int i = 0; i < N (Fracs); i ++) for (int j = 0; j < N (Fracs); j ++) {
		uint32_t f1 = Fracs [i], f2 = Fracs [j];
		I a = ((I) s1 << 20) + f1, b = ((I) s2 << 20) + f2;
		BKTime ta = BKTimeMake (s1, f1), tb = BKTimeMake (s2, f2);
		#define T(cond, what) MC_CHECK (cond, what, what " wrong for a=(%d,%u) b=(%d,%u)", s1, f1, s2, f2)
		T (BKTimeIsEqual (ta, (BKTime) a), "BKTimeMake");
		T (BKTimeGetFrac (ta) == (uint32_t) (a & 0xfffff), "BKTimeGetFrac");
		if ((a >> 20) == (int32_t) (a >> 20)) T (BKTimeGetTime (ta) == (int32_t) (a >> 20), "BKTimeGetTime");
		if (a >= 0 && a <= UINT32_MAX) T (BKTimeGetFUInt20 (ta) == (uint32_t) a, "BKTimeGetFUInt20");
		T ((I) BKTimeAdd (ta, tb) == a + b, "BKTimeAdd");
		T ((I) BKTimeSub (ta, tb) == a - b, "BKTimeSub");
		T ((I) BKTimeAddFUInt20 (ta, f2) == a + f2, "BKTimeAddFUInt20");
		T ((I) BKTimeSubFUInt20 (ta, f2) == a - f2, "BKTimeSubFUInt20");
		T (!BKTimeIsEqual (ta, tb) == !(a == b), "BKTimeIsEqual");
		T (!BKTimeIsGreater (ta, tb) == !(a > b), "BKTimeIsGreater");
		T (!BKTimeIsGreaterEqual (ta, tb) == !(a >= b), "BKTimeIsGreaterEqual");
		T (!BKTimeIsLess (ta, tb) == !(a < b), "BKTimeIsLess");
		T (!BKTimeIsLessEqual (ta, tb) == !(a <= b), "BKTimeIsLessEqual");
		T (!BKTimeIsGreaterFUInt20 (ta, f2) == !(a > (I) f2), "BKTimeIsGreaterFUInt20");
		T (!BKTimeIsLessFUInt20 (ta, f2) == !(a < (I) f2), "BKTimeIsLessFUInt20");
		mc_eval (15); mc_trans (15);
		mc_state (mc_hash64 (mc_hash64 (7, (uint64_t) a), (uint64_t) b));
	}
	mc_log ("times from frames %d and %d with all fractions", s1, s2);
	for (int i = 0; i < N (Fracs); i ++) {
		BKTime t = BKTimeMake (s1, Fracs [i]);
		MC_CHECK (BKTimeIsLess (t, BK_TIME_MAX) && BKTimeIsLessEqual (t, BK_TIME_MAX) && BKTimeIsGreater (BK_TIME_MAX, t) && BKTimeIsGreaterEqual (BK_TIME_MAX, t) && !BKTimeIsLess (BK_TIME_MAX, t) && !BKTimeIsGreater (t, BK_TIME_MAX)
			&& !BKTimeIsEqual (t, BK_TIME_MAX) && !BKTimeIsLessEqual (BK_TIME_MAX, t) && !BKTimeIsGreaterEqual (t, BK_TIME_MAX), "BK_TIME_MAX", "time (%d,%u) is not before the largest time", s1, Fracs [i]);
		MC_CHECK (BKTimeIsGreaterFUInt20 (BK_TIME_MAX, Fracs [i]) && !BKTimeIsLessFUInt20 (BK_TIME_MAX, Fracs [i]), "BK_TIME_MAX", "fraction %u is not before the largest time", Fracs [i]);
	}
	MC_CHECK (BKTimeIsEqual (BK_TIME_MAX, BK_TIME_MAX) && BKTimeIsLessEqual (BK_TIME_MAX, BK_TIME_MAX) && !BKTimeIsLess (BK_TIME_MAX, BK_TIME_MAX), "BK_TIME_MAX", "largest time is not equal to itself");
	MC_CHECK (BKTimeIsEqual (BK_TIME_ZERO, BKTimeMake (0, 0)), "BK_TIME_ZERO", "BK_TIME_ZERO");
	MC_CHECK (BKTimeIsLess (BKTimeMake (INT32_MAX, 0xffffffffu), BK_TIME_MAX), "BK_TIME_MAX", "BK_TIME_MAX not largest");
}
static void time_seconds (int unused)
{
	static const uint32_t rates [] = { 16000, 22050, 32000, 44100, 48000, 88200, 96000 };
	uint32_t rate = rates [mc_choose (N (rates))];
	int den = (int []) { 1, 2, 3, 7, 60, 120, 240, 250, 1000, 44100 } [mc_choose (10)];
	BKContext ctx;
	mc_log ("seconds n/%d at %u Hz", den, rate);
	if (BKContextInit (&ctx, 1, rate) != 0) mc_harness_error ("init");
	for (int n = 0; n <= 4000; n ++) {
		double sec = (double) n / den;
		BKTime t = BKTimeFromSeconds (&ctx, sec);
		long double want = (long double) rate * 1048576.0L * (long double) sec;
		long double d = (long double) t - want;
		MC_CHECK (d <= 1 && d > -1.001L, "BKTimeFromSeconds", "BKTimeFromSeconds(%d/%d s at %u Hz) = %lld, expected %.3Lf", n, den, rate, (long long) t, want);
		mc_eval (1); mc_trans (1);
		mc_state (mc_hash64 (rate, (uint64_t) t));
	}
	BKDispose (&ctx);
}

/* ------------------------------------------------------------------ C21 */
static const uint32_t ToneRates [] = { 16000, 16001, 22050, 32000, 44100, 48000, 77777, 88200, 95999, 96000 };
/* notes: one semitone (all fractions), one rate */
static void tone_semitone (int step)
{
	int semi = mc_choose (97);
	uint32_t rate = ToneRates [mc_choose (N (ToneRates))];
	int32_t lo = semi << 20, hi = semi == 96 ? lo : lo + (1 << 20);
	uint32_t prev = 0;
	mc_log ("tone period for notes %d .. %d + 1, %u Hz", semi, semi, rate);
	for (int32_t t = lo; t <= hi; t += step) {
		uint32_t p = BKTonePeriodLookup (t, rate);
		double hz = 440.0 * pow (2, ((double) t / 1048576.0 - 45) / 12);
		double want = (double) rate / hz * 1048576.0;                 /* samples, 12.20 */
		double unit = (double) rate;                                    /* 1 table unit */
		/* table unit 1 rounded, result truncated to 4 units, linear between semitones (0.05 %) */
		if (t - lo < step || hi - t < step || !(t & 0xfff)) {
			double d = (double) p - want;
			MC_CHECK (d < 0.05 * unit + 0.0006 * want && d > -5.05 * unit, "tone-accuracy",
				"note %.5f at %u Hz: period %u, equal temperament gives %.1f", t / 1048576.0, rate, p, want);
			mc_eval (1);
		}
		MC_CHECK (t == lo || p <= prev, "tone-monotonic", "note %.6f at %u Hz: period rises from %u to %u", t / 1048576.0, rate, prev, p);
		prev = p;
		mc_trans (1);
	}
	mc_state (mc_hash64 (mc_hash64 (21, prev), rate));
	/* next semitone is shorter, an octave halves */
	uint32_t a = BKTonePeriodLookup (lo, rate);
	if (semi < 96) MC_CHECK (BKTonePeriodLookup (lo + (1 << 20), rate) < a, "tone-monotonic", "note %d and %d have the same period at %u Hz", semi, semi + 1, rate);
	if (semi <= 84) {
		int64_t d = (int64_t) a - 2 * (int64_t) BKTonePeriodLookup ((semi + 12) << 20, rate);
		MC_CHECK (d >= -5 * (int64_t) rate && d <= 10 * (int64_t) rate, "tone-octave", "octave above note %d at %u Hz off by %lld", semi, rate, (long long) d);
	}
	mc_eval (2);
}
static void tone_rates (int step)
{
	int semi = mc_choose (97);
	static const int32_t fr [] = { 0, 0x10, 0x40000, 0x80000, 0xfffff };
	mc_log ("tone period is proportional to every sample rate, note %d", semi);
	for (int f = 0; f < N (fr); f ++) {
		if (semi == 96 && f) break;
		int32_t t = (semi << 20) + fr [f];
		uint64_t p0 = BKTonePeriodLookup (t, 96000);
		for (uint32_t r = 16000; r <= 96000; r += step) {
			uint64_t p = BKTonePeriodLookup (t, r);
			uint64_t want = p0 * r / 96000;
			/* allowed: one table unit */
			MC_CHECK (p <= want + r && want <= p + r, "tone-rate", "note %d+%x: period %llu at %u Hz, %llu at 96000 Hz", semi, fr [f], (unsigned long long) p, r, (unsigned long long) p0);
			mc_eval (1); mc_trans (1);
		}
		/* a higher rate has more frames in a period */
		static const uint32_t up [] = { 16000, 16001, 22050, 44100, 47999, 65535, 65536, 95998, 95999 };
		for (int i = 0; i < N (up); i ++)
			MC_CHECK (BKTonePeriodLookup (t, up [i] + 1) > BKTonePeriodLookup (t, up [i]), "tone-rate", "note %d+%x: same period at %u and %u Hz", semi, fr [f], up [i], up [i] + 1);
		mc_state (mc_hash64 (99, p0));
	}
}
static void tone_clamp (int unused)
{
	static const int32_t t [] = { -1, -2, -(1 << 20), INT32_MIN, INT32_MIN + 1, (96 << 20) + 1, 97 << 20, INT32_MAX, 1 << 30 };
	static const uint32_t r [] = { 0, 1, 15999, 16000, 96000, 96001, 200000, 0x7fffffff, 0x80000000u, 0xffffffffu };
	int32_t tone = t [mc_choose (N (t))];
	uint32_t rate = r [mc_choose (N (r))];
	int32_t ct = tone < 0 ? 0 : tone > (96 << 20) ? 96 << 20 : tone;
	uint32_t cr = rate < 16000 ? 16000 : rate > 96000 ? 96000 : rate;
	mc_log ("out of range note %d, rate %u", tone, rate);
	MC_CHECK (BKTonePeriodLookup (tone, rate) == BKTonePeriodLookup (ct, cr), "tone-clamp", "note %d rate %u not clamped", tone, rate);
	MC_CHECK (BKLog2PeriodLookup (tone) == BKLog2PeriodLookup (ct), "log2-clamp", "sample note %d not clamped", tone);
	for (int s = 0; s <= 96; s ++)
		MC_CHECK (BKTonePeriodLookup (s << 20, rate) == BKTonePeriodLookup (s << 20, cr), "tone-clamp", "rate %u not clamped", rate);
	mc_eval (99); mc_trans (200);
}
static void log2_semitone (int step)
{
	int semi = mc_choose (97);
	int32_t lo = semi << 20, hi = semi == 96 ? lo : lo + (1 << 20);
	uint32_t prev = 0;
	mc_log ("sample speed for notes %d .. %d + 1", semi, semi);
	for (int32_t t = lo; t <= hi; t += step) {
		uint32_t p = BKLog2PeriodLookup (t);
		double want = pow (2, ((double) t / 1048576.0 - 48) / 12) * 1048576.0;
		double d = (double) p - want;
		/* table >> 2 and fraction truncated to 8 bits (0.03 %), linear interpolation */
		MC_CHECK (d < 2 + 0.0006 * want && d > -5 - 0.0003 * want, "log2-accuracy", "sample note %.5f: speed %u, ideal %.1f", t / 1048576.0, p, want);
		MC_CHECK (t == lo || p >= prev, "log2-monotonic", "sample note %.6f: speed falls", t / 1048576.0);
		prev = p;
		mc_eval (1); mc_trans (1);
	}
	if (semi % 12 == 0) MC_CHECK (BKLog2PeriodLookup (lo) == (semi >= 48 ? 1u << 20 << (semi - 48) / 12 : 1u << 20 >> (48 - semi) / 12), "log2-octave", "speed of note %d is not an exact power of two", semi);
	mc_state (mc_hash64 (22, prev));
}

/* ------------------------------------------------------------------ C13 */
static const int32_t MaxV [] = { 32767, 0, 1, 255, 1 << 20, 24 << 20, 96 << 20 };
static double fl (double x) { return x < 0 ? -x : x; }
static int shift_of (int32_t max) { int s = 0; if (!max) return 0; while ((1u << s) < (unsigned) max && s < 30) s ++; return 30 - s; }
static int32_t frac_any (int32_t max, int i);
static int32_t frac_of (int32_t max, int i)   /* covering values of -max..max */
{
	/* a power of two as maximum leaves room for one sign only; 0 means "unscaled note values" */
	int pow2 = max && !(max & (max - 1));
	if (!max) max = 96 << 20;
	int32_t v = frac_any (max, i);
	return pow2 && v < 0 ? -v : v;
}
static int32_t frac_any (int32_t max, int i)
{
	switch (i) {
		case 0: return 0; case 1: return max; case 2: return 1; case 3: return -max; case 4: return -1;
		case 5: return max / 2; case 6: return max / 3 + 1; case 7: return -(max / 2); case 8: return max - 1; default: return -(max / 7) - 1;
	}
}
static void slide_check_line (BKSlideState *s, int32_t max, double from, int32_t to, int steps, int run, int atrest)
{
	/* resolution of the fixed point representation in units per step */
	double res = 1.0 / (1 << shift_of (max));
	int32_t v = BKSlideStateGetValue (s), prev = v;
	for (int i = 1; i <= run; i ++) {
		BKSlideStateStep (s);
		v = BKSlideStateGetValue (s);
		mc_trans (1); mc_eval (1);
		if (i >= steps) {
			MC_CHECK (v == to, "slide-end", "max %d: slide %.3f -> %d in %d steps reads %d after %d steps", max, from, to, steps, v, i);
			continue;
		}
		double ideal = from + (to - from) * (double) i / steps;
		MC_CHECK (fl (v - ideal) < 1.0 + res * steps, "slide-line", "max %d: slide %.3f -> %d in %d steps: step %d reads %d, line %.3f", max, from, to, steps, i, v, ideal);
		double lo = from < to ? from : to, hi = from < to ? to : from;
		MC_CHECK (v >= floor (lo) && v <= ceil (hi), "slide-bounds", "max %d: slide %.3f -> %d in %d steps: step %d reads %d", max, from, to, steps, i, v);
		if (i > 1 || atrest) MC_CHECK (to >= from ? v >= prev : v <= prev, "slide-monotonic", "max %d: slide %.3f -> %d in %d steps: step %d goes from %d to %d", max, from, to, steps, i, prev, v);
		prev = v;
	}
}
static const int StepsSet [] = { 1, 2, 3, 4, 7, 10, 16, 33, 100, 255, 256, 257, 1000, 65535, 65536, 70001, 4096, 20000 };
static void slide_single (int unused)
{
	int32_t max = MaxV [mc_choose (N (MaxV))];
	int32_t from = frac_of (max, mc_choose (10)), to = frac_of (max, mc_choose (10));
	int steps = StepsSet [mc_choose (mc_tier () == MC_QUICK ? 16 : 18)];
	if ((int64_t) to - from > INT32_MAX >> 1 || (int64_t) to - from < -(INT32_MAX >> 1)) { /* full swing is still in range of the state */ }
	BKSlideState s;
	mc_log ("slide max %d: %d -> %d in %d steps", max, from, to, steps);
	BKSlideStateInit (&s, max);
	MC_CHECK (BKSlideStateGetValue (&s) == 0, "slide-init", "new slide reads %d", BKSlideStateGetValue (&s));
	BKSlideStateSetValueAndSteps (&s, from, 0);
	MC_CHECK (BKSlideStateGetValue (&s) == from, "slide-jump", "max %d: jump to %d reads %d", max, from, BKSlideStateGetValue (&s));
	BKSlideStateSetValueAndSteps (&s, to, steps);
	slide_check_line (&s, max, from, to, steps, steps + 3, 1);
	mc_state (mc_hash64 (mc_hash64 (max, from), mc_hash64 (to, steps)));
	/* a second slide and a jump after the end */
	BKSlideStateSetValue (&s, from);
	slide_check_line (&s, max, to, from, steps, steps + 2, 1);
	BKSlideStateSetSteps (&s, 0);
	MC_CHECK (BKSlideStateGetValue (&s) == from, "slide-jump", "reads %d", BKSlideStateGetValue (&s));
	BKSlideStateSetValue (&s, to);
	MC_CHECK (BKSlideStateGetValue (&s) == to, "slide-jump", "max %d: value %d set with 0 steps (after %d -> %d in %d) reads %d", max, to, to, from, steps, BKSlideStateGetValue (&s));
}
/* histories: retarget / change step count / halt in flight */
static void slide_history (int depth)
{
	int32_t max = MaxV [mc_choose (3)];
	BKSlideState s;
	double cur = 0; int32_t end = 0; int steps = 0, left = 0;
	static const int st [] = { 0, 1, 3, 10, 600 };
	BKSlideStateInit (&s, max);
	mc_log ("slide history, max %d", max);
	double tol = 0;   /* the position is known up to the fixed point truncation */
	double res = 1.0 / (1 << shift_of (max));
	for (int d = 0; d < depth; d ++) {
		int op = mc_choose (6), k;
		int32_t v;
		switch (op) {
			case 0: case 1:
				v = frac_of (max, mc_choose (5)); if (op) v = v == 0 ? max / 2 : v;
				k = st [mc_choose (5)];
				mc_log ("set value %d, steps %d", v, k);
				BKSlideStateSetValueAndSteps (&s, v, k);
				end = v; steps = k; left = k; if (!k) { cur = v; tol = 0; }
				break;
			case 2:
				v = frac_of (max, mc_choose (5));
				mc_log ("set value %d", v);
				BKSlideStateSetValue (&s, v);
				end = v; left = steps; if (!steps) { cur = v; tol = 0; }
				break;
			case 3:
				k = st [mc_choose (5)];
				mc_log ("set steps %d", k);
				BKSlideStateSetSteps (&s, k);
				steps = left = k; if (!k) { cur = end; tol = 0; }
				break;
			case 4:
				k = mc_choose (2);
				mc_log ("halt(%d)", k);
				BKSlideStateHalt (&s, k);
				left = 0; if (k) { cur = end; tol = 0; }
				break;
			default: {
				static const int runs [] = { 1, 2, 5, 650 };
				k = runs [mc_choose (4)];
				mc_log ("%d steps", k);
				for (int i = 0; i < k; i ++) {
					BKSlideStateStep (&s);
					if (left > 0) {
						cur += (end - cur) / left;
						left --; tol += res;
						if (!left) { cur = end; tol = 0; }
					}
					mc_trans (1);
				}
			}
		}
		int32_t got = BKSlideStateGetValue (&s);
		double dev = fl (got - cur);
		mc_eval (1);
		if (tol == 0) MC_CHECK (got == (int32_t) cur, "slide-value", "max %d reads %d, expected %d", max, got, (int32_t) cur);
		else MC_CHECK (dev < 1.0 + tol, "slide-value", "max %d reads %d, line is at %.4f", max, got, cur);
		mc_state (mc_hash64 (mc_hash64 (got, (uint64_t) end), mc_hash64 (steps, left)));
	}
}
static double ires (int32_t max) { int s = shift_of (max) - 1; return 1.0 / (1 << (s > 0 ? s : 0)); }
static double tri (int phase, double f)   /* f in 0..1 */
{
	switch (phase) { case 0: return f; case 1: return 1 - f; case 2: return -f; default: return f - 1; }
}
static void interval_single (int unused)
{
	int32_t max = MaxV [mc_choose (N (MaxV))];
	int32_t delta = frac_of (max, mc_choose (10));
	int steps = StepsSet [mc_choose (16)];
	double res = ires (max);
	BKIntervalState s;
	mc_log ("interval max %d delta %d steps %d", max, delta, steps);
	BKIntervalStateInit (&s, max);
	MC_CHECK (BKIntervalStateGetValue (&s) == 0, "interval-init", "reads %d", BKIntervalStateGetValue (&s));
	BKIntervalStateSetDeltaAndSteps (&s, delta, steps);
	for (int i = 0; i < 4 * steps * 2 + 3; i ++) {
		int32_t v = BKIntervalStateGetValue (&s);
		int pos = i % (4 * steps);
		double ideal = delta * tri (pos / steps, (double) (pos % steps) / steps);
		MC_CHECK (fl (v - ideal) < 1.0 + res * steps, "interval-line", "max %d delta %d steps %d: step %d reads %d, triangle %.3f", max, delta, steps, i, v, ideal);
		MC_CHECK (fl (v) <= fl (delta), "interval-bounds", "max %d delta %d steps %d: step %d reads %d", max, delta, steps, i, v);
		if (pos % steps == 0) MC_CHECK (v == (int32_t) ideal, "interval-corner", "max %d delta %d steps %d: corner %d reads %d", max, delta, steps, i / steps, v);
		BKIntervalStateStep (&s);
		mc_trans (1); mc_eval (1);
	}
	mc_state (mc_hash64 (mc_hash64 (max, delta), steps));
	BKIntervalStateSetDeltaAndSteps (&s, delta, 0);
	MC_CHECK (BKIntervalStateGetValue (&s) == 0, "interval-clear", "cleared interval reads %d (max %d delta %d steps %d)", BKIntervalStateGetValue (&s), max, delta, steps);
	BKIntervalStateStep (&s);
	MC_CHECK (BKIntervalStateGetValue (&s) == 0, "interval-clear", "cleared interval moves");
}
static void interval_history (int depth)
{
	int32_t max = MaxV [mc_choose (2)];
	double res = ires (max);
	BKIntervalState s;
	static const int st [] = { 0, 1, 4, 10, 33 };
	int steps = 0, lo = 0, hi = 0; int32_t delta = 0;   /* position is in lo..hi (in steps, modulo 4 * steps) */
	mc_log ("interval history, max %d", max);
	BKIntervalStateInit (&s, max);
	for (int d = 0; d < depth; d ++) {
		int op = mc_choose (4);
		if (op < 3) {
			int k = steps; int32_t v = delta;
			if (op != 1) k = st [mc_choose (5)];
			if (op != 2) v = frac_of (max, mc_choose (5));
			mc_log ("%s delta %d steps %d", op == 0 ? "set both" : op == 1 ? "set delta" : "set steps", v, k);
			if (op == 0) BKIntervalStateSetDeltaAndSteps (&s, v, k);
			else if (op == 1) BKIntervalStateSetDelta (&s, v);
			else BKIntervalStateSetSteps (&s, k);
			if (k == 0) { lo = hi = steps = 0; delta = 0; }
			else {
				if (steps && (k != steps || v != delta)) {
					/* the phase and the position in it are kept up to the length of one old step */
					int pl = lo / steps, ph = hi / steps;
					int a = (lo % steps) * k / steps - 1, b = ((hi % steps + 1) * k + steps - 1) / steps;
					if (k == steps) { a = lo % steps; b = hi % steps; }
					lo = pl * k + (a < 0 ? 0 : a);
					hi = ph * k + (b > k - 1 ? k - 1 : b);
				} else if (!steps) lo = hi = 0;
				steps = k; delta = v;
			}
		} else {
			int k = (int []) { 1, 3, 7 } [mc_choose (3)];
			mc_log ("%d steps", k);
			for (int i = 0; i < k && steps; i ++) { BKIntervalStateStep (&s); lo ++; hi ++; mc_trans (1); }
			if (steps && lo >= 4 * steps) { lo -= 4 * steps; hi -= 4 * steps; }
		}
		int32_t got = BKIntervalStateGetValue (&s);
		mc_eval (1);
		int ok = 0;
		for (int p = lo; p <= hi && !ok; p ++) {
			double ideal = steps ? delta * tri (p / steps % 4, (double) (p % steps) / steps) : 0;
			ok = fl (got - ideal) < 1.0 + res * steps;
		}
		MC_CHECK (ok, "interval-value", "max %d delta %d steps %d position %d..%d: reads %d", max, delta, steps, lo, hi, got);
		MC_CHECK (fl (got) <= fl (delta), "interval-bounds", "delta %d: reads %d", delta, got);
		mc_state (mc_hash64 (mc_hash64 (got, (uint64_t) delta), mc_hash64 (steps, lo)));
	}
}

static const McScenario Scen [] = {
	{ "C26", "all-status-values", status_names, 0, MC_QUICK },
	{ "C26", "defined-errors", status_defined, 0, MC_QUICK },
	{ "C22", "time-pairs", time_pair, 0, MC_QUICK },
	{ "C22", "from-seconds", time_seconds, 0, MC_QUICK },
	{ "C21", "tone-16bit-fractions", tone_semitone, 16, MC_QUICK },
	{ "C21", "tone-all-values", tone_semitone, 1, MC_THOROUGH },
	{ "C21", "tone-rates", tone_rates, 50, MC_QUICK },
	{ "C21", "tone-all-rates", tone_rates, 1, MC_THOROUGH },
	{ "C21", "clamp", tone_clamp, 0, MC_QUICK },
	{ "C21", "sample-speed", log2_semitone, 1, MC_QUICK },
	{ "C13", "slide-single", slide_single, 0, MC_QUICK },
	{ "C13", "slide-history-3", slide_history, 3, MC_QUICK },
	{ "C13", "slide-history-4", slide_history, 4, MC_THOROUGH },
	{ "C13", "interval-single", interval_single, 0, MC_QUICK },
	{ "C13", "interval-history-4", interval_history, 4, MC_QUICK },
	{ "C13", "interval-history-5", interval_history, 5, MC_THOROUGH },
};
static const McPropInfo Props [] = {
	{ "C13", "model_checking", "every execution compares each read value with the exact line/triangle; states are distinct (value, target, steps, position)",
	  "7 value ranges x 10 start x 10 target values x 16 (18) step counts up to 70001, and all histories of 3 (4) set/step/halt operations for slides, 4 (5) for intervals",
	  "real-valued line / triangle, one unit tolerance plus accumulated fixed point truncation; exact at corners and ends" },
	{ "C21", "model_checking", "each note/rate pair is one input; states are distinct periods at semitone boundaries",
	  "all 16-bit semitone fractions (thorough: all 2^20) x 10 sample rates, every 50th (thorough: every) sample rate, out of range values",
	  "equal temperament computed with libm, monotonicity, octave relation" },
	{ "C22", "model_checking", "all pairs from a boundary set; states are distinct operand pairs",
	  "27 x 17 boundary times, all ordered pairs; 4001 second values x 10 denominators x 7 rates", "128-bit integer arithmetic" },
	{ "C26", "model_checking", "every status value once; states are distinct names", "all 2^32 status values", "pointer validity (AddressSanitizer) and distinct names" },
};
int main (int argc, char **argv) { return mc_main (argc, argv, Scen, N (Scen), Props, N (Props)); }
