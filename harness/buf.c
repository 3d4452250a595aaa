/* Band-limited buffer (C06). */
#include "BlipKit.h"
#include "BKBuffer.h"
#include "mc.h"
#include <math.h>
#include <string.h>

#define N(a) ((int) (sizeof (a) / sizeof *(a)))
#define MAXF 20000
static double Sinc [32] [32], Harm [32] [32];
/* the two kernels from their definition: windowed sinc, sum of 16 odd harmonics */
static void kernels (void)
{
	if (Sinc [0] [16]) return;
	for (int p = 0; p < 32; p ++) {
		double sum = 0, wave [33] = { 0 }, *h = Harm [p], *s = Sinc [p], win [32];
		for (int i = 0; i < 32; i ++) {
			double x = i - 16 - p / 32.0 + 1 / 64.0, a = 2 * M_PI * (i + 0.5) / 32;
			win [i] = 0.42 - 0.5 * cos (a) + 0.08 * cos (2 * a);
			s [i] = sin (x * M_PI) / (x * M_PI) * win [i];
			sum += s [i];
		}
		for (int i = 0; i < 32; i ++) s [i] = s [i] / sum * 32767;
		for (int n = 1; n <= 31; n += 2)
			for (int i = 0; i <= 32; i ++) wave [i] += sin (n * (i - 16 - p / 32.0) * M_PI / 31) / n;
		for (int i = 0; i < 32; i ++) h [i] = (wave [i + 1] - wave [i]) / (wave [32] - wave [0]) * win [i] * 32767;
	}
}
static void table (int par)
{
	int k = mc_choose (2), p = mc_choose (32), sum = 0;
	kernels ();
	const BKFrame *f = BKBufferPulseKernels [k ? BK_PULSE_KERNEL_HARM : BK_PULSE_KERNEL_SINC]->frames [p];
	double fit = 0;
	mc_log ("kernel %d, phase %d", k, p);
	for (int i = 0; i < 32; i ++) { sum += f [i]; if (i != 16) { double e = f [i] - (k ? Harm : Sinc) [p] [i]; MC_CHECK (fabs (e) < 2.01, "kernel-shape", "kernel %d, phase %d: value %d is %d, defined as %.2f", k, p, i, f [i], (k ? Harm : Sinc) [p] [i]); } else fit += f [i]; }
	MC_CHECK (sum == 32767, "kernel-sum", "kernel %d, phase %d sums up to %d", k, p, sum);
	mc_trans (1); mc_eval (33); mc_state (mc_hash (k, f, 64));
}

/* ------------------------------------------------------------- model */
typedef struct { int64_t f [MAXF + 100]; int64_t accum; int64_t pos, cap, read, last; const BKFrame (*k) [32]; } Model;       /* absolute times */
static Model M;
static BKBuffer *B;
static void begin (int kernel)
{
	static BKBuffer *b;
	if (!b) b = mc_raw_malloc (sizeof *b);
	B = b;
	memset (B, 0x5a, sizeof *B);
	if (BKBufferInit (B)) mc_fail ("init", "buffer could not be initialized");
	memset (&M, 0, sizeof M);
	M.k = BKBufferPulseKernels [kernel]->frames;
	B->pulse = BKBufferPulseKernels [kernel];
	mc_log ("buffer with kernel %d", kernel);
}
static void pulse (uint32_t t, int h)
{
	mc_log ("pulse at %u + %u/%d: %d", t >> 20, t & 0xfffff, 1 << 20, h);
	BKBufferAddPulse (B, t, h);
	int64_t a = M.pos + t;
	if (a >> 20 > M.last) M.last = a >> 20;
	for (int i = 0; i < 32; i ++) M.f [(a >> 20) + i] += (int64_t) M.k [(a & 0xfffff) >> 15] [i] * h;
	mc_trans (1);
}
static void frame (uint32_t t, int h)
{
	mc_log ("frame at %u: %d", t >> 20, h);
	BKBufferAddFrame (B, t, h);
	M.f [(M.pos + t) >> 20] += 32767 * h;
	if ((M.pos + t) >> 20 > M.last) M.last = (M.pos + t) >> 20;
	mc_trans (1);
}
static void end (uint32_t t)
{
	mc_log ("end %u + %u", t >> 20, t & 0xfffff);
	BKBufferEnd (B, t);
	int64_t c = (M.pos + t + 0xfffff) >> 20;
	if (c > M.cap) M.cap = c;
	mc_trans (1);
}
static void shift (uint32_t t)
{
	mc_log ("shift %u + %u", t >> 20, t & 0xfffff);
	BKBufferShift (B, t);
	M.pos = M.pos + t < M.cap << 20 ? M.pos + t : M.cap << 20;
	MC_CHECK (BKBufferSize (B) == (M.pos >> 20) - M.read, "size", "%d frames available instead of %d", BKBufferSize (B), (int) ((M.pos >> 20) - M.read));
	mc_trans (1);
}
static int next (void)
{
	M.accum -= M.accum >> 9;
	M.accum += M.f [M.read ++];
	if (M.accum > INT32_MAX || M.accum < INT32_MIN) mc_discard ();       /* beyond the headroom of the buffer: see headroom () */
	int64_t a = M.accum >> 14;
	return a > 32767 ? 32767 : a < -32768 ? -32768 : (int) a;
}
static int16_t Out [MAXF * 4];
static int rd (int n, int step)
{
	int have = (int) ((M.pos >> 20) - M.read), e = n < have ? n : have, s = step ? step : 1;
	if (M.last > M.cap) mc_discard ();         /* a unit ended its run before its last step */
	memset (Out, 0x77, sizeof *Out * (e + 2) * s);
	int r = BKBufferRead (B, Out, n, step);
	mc_log ("read %d frames, interlace %d: %d", n, step, r);
	MC_CHECK (r == e, "count", "%d frames read instead of %d", r, e);
	for (int i = 0; i < e; i ++) {
		int x = next ();
		MC_CHECK (Out [i * s] == x, "value", "frame %d is %d instead of %d", (int) M.read - 1, Out [i * s], x);
		for (int j = 1; j < s; j ++) MC_CHECK (Out [i * s + j] == 0x7777, "interlace", "frame of another channel was written");
	}
	MC_CHECK (Out [e * s] == 0x7777, "overrun", "more frames written than read");
	mc_trans (1); mc_eval (e);
	return e;
}
static void done (void) { mc_state (mc_hash (mc_hash64 (M.pos, M.accum), M.f, 400 * 8)); BKBufferDispose (B); MC_CHECK (mc_heap_live == 0, "leak", "memory leaked"); }

static const int Heights [] = { 1, -1, 2, 100, -100, 16383, 32767, -32767, 32766, -32768, 48000, -48000, 52000, -52000 };
/* every step position, every height: only there, in total h, then decaying to silence */
static void single (int par)
{
	int k = mc_choose (2), p = mc_choose (32), low = mc_choose (3), off = mc_choose (4), h = Heights [mc_choose (N (Heights))];
	static const int Low [] = { 0, 1, 0x7fff }, Off [] = { 0, 1, 50, 900 };
	int len = par, e0 = Off [off];
	begin (k);
	pulse ((uint32_t) Off [off] << 20 | p << 15 | Low [low], h);
	int64_t level = 0;
	for (int i = e0; i < e0 + 32; i ++) level += M.f [i];
	MC_CHECK (level == (int64_t) h * 32767, "level", "pulse of height %d changes the level by %lld/32767", h, (long long) level);
	int pos = 0, last = 0;
	while (pos < len) {
		end (1000 << 20); shift (1000 << 20);
		int n = rd (1000, 1);
		for (int i = 0; i < n; i ++, pos ++) {
			if (pos < e0) MC_CHECK (Out [i] == 0, "silence", "frame %d before the pulse at %d is %d", pos, e0, Out [i]);
			if (pos >= e0 + 32) MC_CHECK (h > 0 ? Out [i] >= 0 && (pos == e0 + 32 || Out [i] <= last) : Out [i] <= 0 && (pos == e0 + 32 || Out [i] >= last), "decay", "frame %d after the pulse of %d: %d after %d", pos, h, Out [i], last);
			last = Out [i];
		}
	}
	if (len > 10000) MC_CHECK (last == 0, "silence", "level is %d after %d frames", last, len);
	done ();
}
static void pair (int par)
{
	static const int At [] = { 0, 1 << 15, (1 << 15) - 1, 1 << 19, 1 << 20, 5 << 20 | 77777, 31 << 20, 32 << 20, 63 << 20 | 0xfffff };
	int k = mc_choose (2), a = At [mc_choose (N (At))], b = At [mc_choose (N (At))], h = Heights [mc_choose (N (Heights))], g = Heights [mc_choose (N (Heights))], cut = mc_choose (3);
	if (abs (h) + abs (g) > 65000) mc_discard ();
	begin (k);
	pulse (a, h);
	if (cut == 1) { end (64 << 20); shift (7 << 20); rd (7, 1); }
	if (cut == 2) { end (5 << 20); shift (5 << 20 | 1234); rd (3, 2); }
	pulse (b, g);
	end (200 << 20); shift (200 << 20);
	rd (300, 1);
	done ();
}
/* saturation: levels around the limits, growing and shrinking */
static void saturate (int par)
{
	static const int H [] = { 32767, 20000, 65534, -65534, -32767, -20000, 16384, -16384, 32800, -32800 };
	int a = H [mc_choose (N (H))], b = H [mc_choose (N (H))], c = H [mc_choose (N (H))], at = mc_choose (3), p = mc_choose (4) * 8 << 15;
	/* overshoot of the kernels is below 1.3 of the steps */
	if (abs (a) > 50000 || abs (a + b) > 50000 || abs (a + b + c) > 50000 || abs (b) > 50000 || abs (c) > 50000) if (abs (a) > 65534 || abs (a + b) > 65534 || abs (a + b + c) > 65534) mc_discard ();
	begin (at & 1);
	int64_t lo = 0, hi = 0, s = 0;
	pulse (p, a);
	pulse ((at * 20) << 20 | p, b);
	pulse (90 << 20, c);
	for (int i = 0; i < 400; i ++) { s += M.f [i]; if (s < lo) lo = s; if (s > hi) hi = s; }
	if (hi > 2147000000 || lo < -2147000000) mc_discard ();
	end (400 << 20); shift (400 << 20);
	rd (400, 1);
	done ();
}
/* more than the headroom of the buffer: must still saturate */
static void headroom (int par)
{
	int k = mc_choose (2), n = 3 + mc_choose (6), s = mc_choose (2) ? 1 : -1;
	begin (k);
	for (int i = 0; i < n; i ++) pulse (0, s * 32767);
	end (200 << 20); shift (200 << 20);
	BKBufferRead (B, Out, 200, 1);
	for (int i = 40; i < 100; i ++) MC_CHECK (s > 0 ? Out [i] == 32767 : Out [i] == -32768, "headroom", "%d full scale steps at once: frame %d is %d", n, i, Out [i]);
	done ();
}
enum { Ops = 18 };
static void op (int o)
{
	switch (o) {
		case 0: pulse (0, 10000); break;
		case 1: pulse (3 << 20 | 555555, -20000); break;
		case 2: pulse (40 << 20 | 1, 7); break;
		case 3: end (1 << 20); shift (1 << 20); break;
		case 4: end (33 << 20 | 1); shift (33 << 20); break;
		case 5: end (10 << 20); shift (9 << 20 | 1 << 19); break;
		case 6: rd (1, 1); break;
		case 7: rd (20, 2); break;
		case 8: rd (5000, 1); break;
		case 9: end (300 << 20); break;
		case 10: shift (1000 << 20); break;
		case 11: rd (0, 1); break;
		case 12: frame (2 << 20, 12000); break;
		case 13: rd (3, 0); break;
		case 14: rd (7, 3); break;
		case 15: mc_log ("clear"); BKBufferClear (B); { const BKFrame (*k) [32] = M.k; memset (&M, 0, sizeof M); M.k = k; } break;
		case 16: pulse (1 << 19, -12345); break;
		case 17: frame (5 << 20 | 0xc0000, -9000); break;
	}
}
static void history (int depth)
{
	int k = mc_choose (2);
	begin (k);
	for (int i = 0; i < depth; i ++) op (mc_choose (Ops));
	end (50 << 20); shift (50 << 20);
	rd (3000, 1);
	done ();
}
/* the same frames read in all portions */
static void portions (int max)
{
	int k = mc_choose (2), left = max;
	begin (k);
	pulse (0, 30000); pulse (2 << 20 | 300000, -25000); pulse (5 << 20, 60000); pulse (9 << 20 | 999999, -60000);
	end (100 << 20); shift ((max + 20) << 20);
	while (left) { int n = 1 + mc_choose (left); left -= rd (n, 1); }
	rd (100, 1);
	done ();
}
/* single frames at all fractions of the time and of the position of the buffer */
static void single_frames (int par)
{
	static const int T [] = { 0, 1, 1 << 19, 0xfffff, 1 << 20, 5 << 20 | 0x80000, 600 << 20 | 0xc0000 }, S [] = { 0, 1, 1 << 19, 0xfffff, 3 << 20 | 0x80001, 20 << 20 };
	begin (mc_choose (2));
	pulse (9 << 20 | 4444, 7000);
	end (700 << 20); shift (S [mc_choose (N (S))]);
	if (mc_choose (2)) rd (2, 1);
	frame (T [mc_choose (N (T))], 20000);
	frame (T [mc_choose (N (T))], -15000);
	end (700 << 20); shift (700 << 20);
	rd (1000, 1);
	done ();
}
/* frames of one channel between the frames of others */
static void interlace (int par)
{
	static const int Reads [] = { 1, 2, 3, 50, 200 };
	int s = mc_choose (18), a = Reads [mc_choose (N (Reads))], b = Reads [mc_choose (N (Reads))], t = mc_choose (4);
	begin (mc_choose (2));
	pulse (0, 30000); pulse (2 << 20 | 300000, -25000); pulse (60 << 20, 60000); pulse (190 << 20 | 999999, -60000);
	end (260 << 20); shift (250 << 20);
	rd (a, s); rd (b, t == 0 ? s : t == 1 ? 1 : t == 2 ? 8 : 17 - s);
	rd (1000, 2);
	done ();
}
/* a long history does not run out of the buffer */
static void stream (int par)
{
	int k = mc_choose (2), n = 1 + mc_choose (16) * 67, p = mc_choose (4), extra = mc_choose (3);
	begin (k);
	uint32_t t = 0;
	for (int i = 0; M.read < MAXF - 5000; i ++) {
		uint32_t e = (uint32_t) n << 20;
		int h = i & 1 ? -20000 : 20000;
		for (; t < e; t += (p * 37 + 5) << 17) { pulse (t, h); h = -h; }
		t -= e;
		if (t > 2000u << 20) t = 0;
		end (e + (extra << 20)); shift (e);
		rd (n, 1);
		if (n < 60 && i > 400) break;
	}
	done ();
}
static const McScenario Scen [] = {
	{ "C06", "kernel", table, 0, MC_QUICK },
	{ "C06", "single", single, 2000, MC_QUICK },
	{ "C06", "pairs", pair, 0, MC_QUICK },
	{ "C06", "saturation", saturate, 0, MC_QUICK },
	{ "C06", "headroom", headroom, 0, MC_QUICK },
	{ "C06", "portions-11", portions, 11, MC_QUICK },
	{ "C06", "interlace", interlace, 0, MC_QUICK },
	{ "C06", "frames", single_frames, 0, MC_QUICK },
	{ "C06", "stream", stream, 0, MC_QUICK },
	{ "C06", "history-5", history, 5, MC_QUICK },
	{ "C06", "single-long", single, 12000, MC_THOROUGH },
	{ "C06", "history-6", history, 6, MC_THOROUGH },
	{ "C06", "portions-16", portions, 16, MC_THOROUGH },
};
static const McPropInfo Props [] = {
	{ "C06", "model_checking", "each execution is one sequence of pulses, ends, shifts and reads on a buffer; states are distinct buffer contents",
	  "2 kernels x 32 step phases against their defining formula; single pulses: 2 x 32 phases x 3 x 4 positions x 14 heights; all pairs of 9 x 14 pulses x 3 portions; 10^3 x 12 saturating levels; all portions of 11 (16) frames; 18 interlaces; frames at fractions of 7 times and 6 positions; all histories of 5 (6) of 18 operations",
	  "64 bit model of the buffer with absolute times and clamped output; formulas of the kernels" },
};
int main (int argc, char **argv) { return mc_main (argc, argv, Scen, N (Scen), Props, N (Props)); }
