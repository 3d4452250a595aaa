/* C18 import, conversion, normalisation */
#define _GNU_SOURCE
#include "BlipKit.h"
#include "mc.h"
#include <math.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <unistd.h>
#include "data_model.h"

/* ------------------------------------------------------------------ C18 */
/* all byte values of each 8 bit or packed format, all words of 16 bit */
static void import_values (int unused)
{
	int fmt = 1 + mc_choose (6), en = mc_choose (3), ch = 1 + mc_choose (8), hi = mc_choose (fmt == 6 ? 256 : 1), viafile = mc_choose (2);
	uint8_t src [512];
	BKData d;
	Model m;
	for (int i = 0; i < 256; i ++) { if (fmt == 6) { src [2 * i] = i; src [2 * i + 1] = hi; } else { src [2 * i] = i; src [2 * i + 1] = 255 - i; } }
	mc_log ("all bytes, %s, endian %d, %d channels, high byte %d, %s", FmtName [fmt], en, ch, hi, viafile ? "file" : "memory");
	model_init (&m);
	if (BKDataInit (&d)) mc_harness_error ("init");
	int r = viafile ? load_raw (&d, src, 512, ch, fmt | en << 16, mc_choose (2) * 5) : BKDataSetData (&d, src, 512, ch, fmt | en << 16);
	int w = model_set_data (&m, src, 512, ch, fmt | en << 16);
	MC_CHECK (r == w, "import-status", "%s, %d channels returned %d instead of %d", FmtName [fmt], ch, r, w);
	model_check (&m, &d, "import");
	BKDispose (&d);
	MC_CHECK (mc_heap_live == 0, "leak", "%ld blocks leaked", mc_heap_live);
	mc_trans (1); mc_eval (512);
	mc_state (mc_hash64 (fmt * 8 + ch, hi * 4 + en));
}
/* all sizes x channels x formats (also unknown ones), on empty, referencing and owning objects */
static void import_sizes (int maxsize)
{
	int fmt = mc_choose (16), en = mc_choose (4), ch = (int []) { 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, -1, 0x10000 } [mc_choose (12)], prev = mc_choose (3), viafile = mc_choose (2);
	int size = mc_choose (maxsize + 1);
	static BKFrame ext [6] = { 5, -6, 7, -8, 9, -10 };
	uint8_t *src = mc_raw_malloc (size ? size : 1);
	BKData d;
	Model m;
	for (int i = 0; i < size; i ++) src [i] = i * 37 + 11;
	model_init (&m);
	if (BKDataInit (&d)) mc_harness_error ("init");
	if (prev) {
		if (BKDataSetFrames (&d, ext, 3, 2, prev == 2)) mc_harness_error ("frames");
		model_set_frames (&m, ext, 3, 2, prev == 2);
	}
	mc_log ("%d bytes, format %d, endian %d, %d channels, %s, %s", size, fmt, en, ch, prev == 0 ? "empty" : prev == 1 ? "referencing" : "owning", viafile ? "file" : "memory");
	int r = viafile ? load_raw (&d, src, size, ch, fmt | en << 16, 0) : BKDataSetData (&d, src, size, ch, fmt | en << 16);
	int w = model_set_data (&m, src, size, ch, fmt | en << 16);
	MC_CHECK ((r == 0) == (w == 0), "import-status", "%d bytes, format %d, %d channels returned %d", size, fmt, ch, r);
	MC_CHECK (r == 0 || r == w || viafile, "import-status", "%d bytes, format %d, %d channels returned %d instead of %d", size, fmt, ch, r, w);
	model_check (&m, &d, "import-size");
	BKDispose (&d);
	BKDispose (&d);
	MC_CHECK (mc_heap_live == 0, "leak", "%ld blocks leaked", mc_heap_live);
	mc_raw_free (src);
	mc_trans (1); mc_eval (1);
	mc_cover ("%s %s", r ? "refused" : "imported", fmt < 7 ? FmtName [fmt] : "unknown");
	mc_state (mc_hash64 (mc_hash64 (size, fmt * 16 + ch), r));
}
/* frames given directly: counts and channels */
static void frames_args (int unused)
{
	static const int nfs [] = { 0, 1, 2, 3, 7, 700 };
	int nf = nfs [mc_choose (N (nfs))], ch = (int []) { 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, -1 } [mc_choose (11)], copy = mc_choose (2), prev = mc_choose (3), null = mc_choose (2);
	static BKFrame ext [6] = { 5, -6, 7, -8, 9, -10 };
	BKFrame *src = mc_raw_malloc ((nf + 1) * 8 * sizeof (BKFrame));
	BKData d;
	Model m;
	for (int i = 0; i < (nf + 1) * 8; i ++) src [i] = i * 7919;
	model_init (&m);
	if (BKDataInit (&d)) mc_harness_error ("init");
	if (prev) {
		if (BKDataSetFrames (&d, ext, 3, 2, prev == 2)) mc_harness_error ("frames");
		model_set_frames (&m, ext, 3, 2, prev == 2);
	}
	mc_log ("set %d frames, %d channels, %s", nf, ch, null ? "NULL" : copy ? "copied" : "referenced");
	int r = BKDataSetFrames (&d, null ? NULL : src, nf, ch, copy);
	int w = model_set_frames (&m, null ? NULL : src, nf, ch, copy);
	MC_CHECK ((r == 0) == (w == 0) && r <= 0, "frames-status", "%d frames, %d channels%s returned %d", nf, ch, null ? ", NULL" : "", r);
	if (r == 0 && copy) memset (src, 0x33, (nf + 1) * 8 * sizeof (BKFrame));
	model_check (&m, &d, "frames");
	BKDispose (&d);
	MC_CHECK (mc_heap_live == 0, "leak", "%ld blocks leaked", mc_heap_live);
	mc_raw_free (src);
	mc_trans (1); mc_eval (1);
	mc_state (mc_hash64 (mc_hash64 (nf, ch), prev * 4 + copy));
}
/* normalize for every loudest value */
static void normalize_all (int unused)
{
	int hi = mc_choose (257), copy = mc_choose (2), ch = (int []) { 1, 2, 3, 4, 6 } [mc_choose (5)], sign = mc_choose (2), lone = mc_choose (2);
	mc_log ("normalize, loudest frames %d ..", hi * 128);
	for (int mx = hi * 128; mx < hi * 128 + 128 && mx <= 32768; mx ++) {
		BKFrame f [12], keep [12];
		BKData d;
		int top = sign ? -mx : mx;
		if (top == 32768) continue;
		f [0] = mx / 2; f [1] = -(mx / 3); f [2] = top; f [3] = 0; f [4] = -(mx > 1); f [5] = mx > 1; f [6] = mx - (mx == 32768); f [7] = -(mx - (mx > 0)); f [8] = mx / 5; f [9] = -(mx / 7); f [10] = mx / 4; f [11] = -(mx / 2);
		if (lone) { f [6] = mx / 3; f [7] = -(mx / 9); }     /* nothing else is nearly as loud */
		memcpy (keep, f, sizeof f);
		if (BKDataInit (&d) || BKDataSetFrames (&d, f, 12 / ch, ch, copy)) mc_harness_error ("frames");
		for (int pass = 0; pass < 2; pass ++) {
			MC_CHECK (BKDataNormalize (&d) == 0, "normalize-status", "loudest %d: error", mx);
			MC_CHECK (d.numFrames == 12u / ch && d.numChannels == (BKUInt) ch, "normalize-shape", "frame count changed");
			int loud = 0;
			for (int i = 0; i < 12; i ++) {
				double ideal = mx ? keep [i] * 32767.0 / mx : 0;
				MC_CHECK (d.frames [i] < ideal + 1 + pass && d.frames [i] > ideal - 2 - pass, "normalize-value", "loudest %d: frame %d becomes %d, ideal %.3f", mx, keep [i], d.frames [i], ideal);
				MC_CHECK ((d.frames [i] < 0) == (keep [i] < 0), "normalize-sign", "loudest %d: frame %d becomes %d", mx, keep [i], d.frames [i]);
				if (abs (d.frames [i]) > loud) loud = abs (d.frames [i]);
			}
			MC_CHECK (mx == 0 ? loud == 0 : loud >= 32766, "normalize-loudest", "loudest %d is scaled to %d", mx, loud);
		}
		if (d.frames != f || memcmp (f, keep, sizeof f)) MC_CHECK (!memcmp (f, keep, sizeof f), "normalize-source", "the caller's frames were changed");
		BKDispose (&d);
		MC_CHECK (mc_heap_live == 0, "leak", "%ld blocks leaked", mc_heap_live);
		mc_eval (24); mc_trans (2);
		mc_state (mc_hash64 (18, mx * 2 + sign));
	}
}
/* bit reduction of every frame value */
static void convert_all (int unused)
{
	int bits = 1 + mc_choose (16), hi = mc_choose (64), copy = mc_choose (2), rnd = mc_choose (2), thr = mc_choose (3), slope = mc_choose (2);
	BKFrame f [1024], keep [1024];
	BKData d;
	BKDataConvertInfo info;
	memset (&info, 0, sizeof info);
	info.targetNumBits = bits;
	info.threshold = thr == 1 ? 0.5f : thr == 2 ? 1e-7f : 0;
	info.ditherSlope = slope ? 0.5f : 0;
	mc_rand_value = rnd;
	for (int i = 0; i < 1024; i ++) keep [i] = f [i] = hi * 1024 + i - 32768;
	mc_log ("reduce frames %d .. to %d bits, threshold %g, rand %d", hi * 1024 - 32768, bits, info.threshold, rnd);
	if (BKDataInit (&d) || BKDataSetFrames (&d, f, 512, 2, copy)) mc_harness_error ("frames");
	MC_CHECK (BKDataConvert (&d, &info) == 0, "convert-status", "%d bits: error", bits);
	MC_CHECK (d.numFrames == 512 && d.numChannels == 2, "convert-shape", "frame count changed");
	int b = bits > 15 ? 15 : bits, threshold = (thr == 1 ? 0.5f : thr == 2 ? 1e-7f : 0.02f) * 32767;
	for (int i = 0; i < 1024; i ++) {
		int v = keep [i], out = d.frames [i];
		if (b > 8) {
			/* no dither: exact */
			int x = abs (v) >= threshold ? v : 0;
			if (x < -32767) x = -32767;
			int q = -(x >> (16 - b));                     /* b bits, inverted */
			int w = q * 32767 / (1 << (b - 1));
			MC_CHECK (out == w, "convert-value", "%d bits: frame %d becomes %d instead of %d", bits, v, out, w);
		} else {
			/* levels 0 .. 2^b of full scale, inverted, plus at most the dither */
			int step = 1 << (15 - b), lev = 1 << b;
			int k = (int) lround ((double) out * lev / 32767);
			MC_CHECK (k >= 0 && k <= lev && out == k * 32767 / lev, "convert-grid", "%d bits: frame %d becomes %d which is no multiple of 1/%d", bits, v, out, lev);
			int x = abs (v) >= threshold ? v : 0;
			double amp = 0;
			if (abs (v) >= threshold) {
				double fac = fabs ((float) v / 64) / 32767;
				amp = slope ? 0.5 + fac * 0.5 : fac;
				amp = ((1 << (16 - b)) - 1) * amp + 1;
			}
			/* ideal level, in units of a step */
			double lo, hi2;
			double a = x - amp, z = x + amp;
			if (abs (v) >= threshold && mc_rand_value & 1) z = x; else a = x;
			if (a < -32767) a = -32767;
			if (z > 32767) z = 32767;
			lo = (16384 - z / 2) / step - 0.02; hi2 = (16384 - a / 2) / step + 1.02;
			if (hi2 > lev) hi2 = lev;
			MC_CHECK (k >= lo && k <= hi2, "convert-value", "%d bits: frame %d becomes level %d of %d, expected %.3f .. %.3f", bits, v, k, lev, lo, hi2);
		}
	}
	if (!copy) MC_CHECK (!memcmp (f, keep, sizeof f), "convert-source", "the caller's frames were changed");
	BKDispose (&d);
	MC_CHECK (mc_heap_live == 0, "leak", "%ld blocks leaked", mc_heap_live);
	mc_eval (1024); mc_trans (1);
	mc_state (mc_hash64 (mc_hash64 (bits, hi), thr * 8 + rnd * 2 + slope));
}
/* large objects of all sources and what is done with them */
static void large (int depth)
{
	static const int nfs [] = { 1024, 4097, 32768, 65535, 65536, 70001 };
	static const int where [] = { 0, 1, 32767, 65535, 65536 };
	static int16_t src [70001 * 2], keep [70001 * 2];
	static uint8_t raw [44 + sizeof src];
	int nf = nfs [mc_choose (N (nfs))], ch = 1 + mc_choose (2), from = mc_choose (5), at = mc_choose (N (where) + 1), n = nf * ch;
	BKData d;
	Model m;
	model_init (&m);
	if (BKDataInit (&d)) mc_harness_error ("init");
	for (int i = 0; i < n; i ++) src [i] = (int16_t) (i * 40503u >> 3) / 4;
	at = at < N (where) ? where [at] : n - 1;
	if (at < n) src [at] = at & 1 ? 16000 : -16000;
	memcpy (keep, src, sizeof src);
	int r, w;
	if (from < 2) { r = BKDataSetFrames (&d, src, nf, ch, from); w = model_set_frames (&m, src, nf, ch, from); }
	else if (from == 2) { size_t k = wav_image (raw, src, nf, ch); FILE *f = temp_file (raw, k, 0); r = BKDataLoadWAVE (&d, f); fclose (f); w = model_set_frames (&m, src, nf, ch, 1); }
	else if (from == 3) { for (int i = 0; i < n; i ++) { raw [2 * i] = src [i] >> 8; raw [2 * i + 1] = src [i]; } r = BKDataSetData (&d, raw, n * 2, ch, BK_16_BIT_SIGNED | BK_BIG_ENDIAN); w = model_set_data (&m, raw, n * 2, ch, BK_16_BIT_SIGNED | BK_BIG_ENDIAN); }
	else { for (int i = 0; i < n / 2; i ++) raw [i] = src [i]; r = load_raw (&d, raw, n / 2, ch, BK_4_BIT_UNSIGNED, 0); w = model_set_data (&m, raw, n / 2, ch, BK_4_BIT_UNSIGNED); }
	mc_log ("%d frames, %d channels, source %d, loudest frame %d", nf, ch, from, at);
	MC_CHECK (r == 0 && w == 0, "large-status", "%d frames, %d channels returned %d", nf, ch, r);
	model_check (&m, &d, "large");
	for (int k = 0; k < depth; k ++) {
		int op = mc_choose (4);
		mc_log ("%s", (const char *[]) { "normalize", "convert", "range", "copy" } [op]);
		switch (op) {
			case 0: MC_CHECK (BKDataNormalize (&d) == 0, "large-status", "normalize"); model_normalize (&m); break;
			case 1: { BKDataConvertInfo info; memset (&info, 0, sizeof info); info.targetNumBits = 12; info.threshold = 0.1f; MC_CHECK (BKDataConvert (&d, &info) == 0, "large-status", "convert"); model_convert (&m, 12, 0.1f * 32767); break; }
			case 2: { BKInt rg [2] = { nf - 3, 40000 }; MC_CHECK (BKSetPtr (&d, BK_SAMPLE_SUSTAIN_RANGE, rg, sizeof rg) == 0, "large-status", "range"); model_range (&m, nf - 3, 40000); break; }
			case 3: { BKData c; if (BKDataInitCopy (&c, &d)) mc_fail ("large-status", "copy"); model_check (&m, &c, "large copy"); BKDispose (&c); break; }
		}
		model_check (&m, &d, "large");
	}
	BKDispose (&d);
	model_free (&m);
	MC_CHECK (!memcmp (src, keep, sizeof src), "caller-frames", "the caller's frames were changed");
	MC_CHECK (mc_heap_live == 0, "leak", "%ld blocks leaked", mc_heap_live);
	mc_eval (n); mc_trans (depth + 1);
	mc_state (mc_hash64 (n * 8 + from, at));
}
static void single_history (int depth)
{
	BKData d;
	Model m;
	Ext e;
	ext_init (&e);
	model_init (&m);
	BKData *pd = &d;
	int heap = mc_choose (2);
	if (heap) { if (BKDataAlloc (&pd)) mc_harness_error ("alloc"); }
	else if (BKDataInit (&d)) mc_harness_error ("init");
	for (int k = 0; k < depth; k ++) {
		int op = mc_choose (DataOps + 1);
		if (op == DataOps) break;
		data_op (pd, &m, &e, op, 0);
		model_check (&m, pd, "object");
		ext_check (&e);
		mc_state (model_hash (&m));
		mc_trans (1); mc_eval (1);
	}
	BKDispose (pd);
	model_free (&m);
	ext_check (&e);
	MC_CHECK (mc_heap_live == 0, "leak", "%ld blocks leaked", mc_heap_live);
}

/* more data than 32 bits can count in bits: nothing of it may be taken for a short sample; there is no memory for it */
static void huge (int unused)
{
	static const uint32_t Sizes [] = { 0x0fffffff, 0x10000000, 0x10000005, 0x1fffffff, 0x20000000, 0x20000040, 0x40000010, 0x7fffffff, 0x80000000, 0x80000080, 0xa0000100, 0xffffffff };
	static BKFrame ext [6] = { 5, -6, 7, -8, 9, -10 };
	static void *zero;
	uint32_t size = Sizes [mc_choose (N (Sizes))];
	int fmt = 1 + mc_choose (7), ch = 1 + mc_choose (8), prev = mc_choose (3);
	BKData d; Model m;
	if (!zero) zero = mmap (NULL, 0x100000000, PROT_READ, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	if (zero == MAP_FAILED) { zero = NULL; mc_discard (); }
	model_init (&m);
	if (BKDataInit (&d)) mc_harness_error ("init");
	if (prev) { if (BKDataSetFrames (&d, ext, 3, 2, prev == 2)) mc_harness_error ("frames"); model_set_frames (&m, ext, 3, 2, prev == 2); }
	mc_log ("%u %s, %d channels, %s", size, fmt == 7 ? "frames" : FmtName [fmt], ch, prev == 0 ? "empty" : prev == 1 ? "referencing" : "owning");
	mc_heap_limit = 1 << 20;
	int r = fmt == 7 ? BKDataSetFrames (&d, zero, size, ch, 1) : BKDataSetData (&d, zero, size, ch, fmt);
	mc_heap_limit = 256 << 20;
	MC_CHECK (r < 0, "huge", "%u %s, %d channels are taken for %d frames", size, fmt == 7 ? "frames" : FmtName [fmt], ch, (int) d.numFrames);
	model_check (&m, &d, "huge");
	BKDispose (&d);
	MC_CHECK (mc_heap_live == 0, "leak", "%ld blocks leaked", mc_heap_live);
	mc_trans (1); mc_eval (1);
	mc_state (mc_hash64 (fmt * 8 + ch, size));
}

/* a file of more than 4 GiB is not one of the remainder */
static void huge_file (int unused)
{
	int fmt = mc_choose (2) ? BK_8_BIT_SIGNED : BK_16_BIT_SIGNED, fd = memfd_create ("bk", 0);
	FILE *f = fd < 0 ? NULL : fdopen (fd, "r+");
	BKData d; Model m;
	if (!f || ftruncate (fd, 0x100000000 + 40)) mc_discard ();
	model_init (&m);
	if (BKDataInit (&d)) mc_harness_error ("init");
	mc_log ("file of 2^32 + 40 bytes");
	mc_heap_limit = SIZE_MAX; mc_heap_fill = 0;
	int r = BKDataLoadRaw (&d, f, 1, fmt);
	mc_heap_limit = 256 << 20;
	fclose (f);
	MC_CHECK (r < 0, "huge", "a file of 2^32 + 40 bytes is taken for %d frames", (int) d.numFrames);
	model_check (&m, &d, "huge");
	BKDispose (&d);
	mc_trans (1); mc_eval (1);
}

static const McScenario Scen [] = {
	{ "C18", "values", import_values, 0, MC_QUICK },
	{ "C18", "sizes-20", import_sizes, 20, MC_QUICK },
	{ "C18", "sizes-80", import_sizes, 80, MC_THOROUGH },
	{ "C18", "frames", frames_args, 0, MC_QUICK },
	{ "C18", "normalize", normalize_all, 0, MC_QUICK },
	{ "C18", "convert", convert_all, 0, MC_QUICK },
	{ "C18", "huge", huge, 0, MC_QUICK },
	{ "C18", "huge-file", huge_file, 0, MC_QUICK },
	{ "C18", "large-1", large, 1, MC_QUICK },
	{ "C18", "large-3", large, 3, MC_THOROUGH },
	{ "C18", "history-3", single_history, 3, MC_QUICK },
	{ "C18", "history-5", single_history, 5, MC_THOROUGH },
};
static const McPropInfo Props [] = {
	{ "C18", "model_checking", "each execution imports or transforms one input (or one history of operations) and compares every frame with the formula of the format; states are distinct object contents",
	  "every byte (word) value x 6 formats x 3 byte orders x 8 channel counts; all sizes 0..20 (80) bytes x 16 format codes x 12 channel counts x 3 previous states; 12 sizes up to 2^32 bytes; every loudest value for normalisation; every frame value x 16 bit depths x dither directions; up to 70001 frames from 5 sources with 1 (3) following operations; histories of 3 (5) operations",
	  "per-format formulas in the harness, AddressSanitizer, block accounting" },
};
int main (int argc, char **argv) { return mc_main (argc, argv, Scen, N (Scen), Props, N (Props)); }
