/* reference model of a data object: plain frames, no sharing */
#ifndef N
#define N(a) ((int) (sizeof (a) / sizeof *(a)))
#endif
#define MODELMAX (1 << 20)
typedef struct { int nf, ch, pitch, s0, s1; int16_t *f; } Model;

static const char *FmtName [] = { "none", "1 bit", "2 bit", "4 bit", "8 bit signed", "8 bit unsigned", "16 bit" };

static void model_init (Model *m) { memset (m, 0, sizeof *m); }
static void model_free (Model *m) { mc_raw_free (m->f); m->f = NULL; m->nf = m->ch = 0; }
static void model_store (Model *m, const int16_t *f, int nf, int ch)
{
	int16_t *n = mc_raw_malloc (nf * ch * 2);
	memcpy (n, f, nf * ch * 2);
	mc_raw_free (m->f);
	m->f = n; m->nf = nf; m->ch = ch;
}
static void model_copy (Model *to, const Model *from)
{
	*to = *from;
	to->f = NULL;
	if (from->f) model_store (to, from->f, from->nf, from->ch);
}
static int model_set_frames (Model *m, const int16_t *f, int nf, int ch, int copy)
{
	if (!f) return -1;
	if (nf < 2) return BK_INVALID_NUM_FRAMES;
	if (ch < 1 || ch > 8) return BK_INVALID_NUM_CHANNELS;
	model_store (m, f, nf, ch);
	return 0;
}
static int model_set_data (Model *m, const uint8_t *b, int size, int ch, uint32_t params)
{
	static const int bits [] = { 0, 1, 2, 4, 8, 8, 16 };
	static int16_t out [MODELMAX];
	int fmt = params & 15, big = (params >> 16 & 3) == 1;
	if (ch < 1 || ch > 8) return BK_INVALID_NUM_CHANNELS;
	if (fmt < 1 || fmt > 6) return BK_INVALID_NUM_BITS;
	int k = bits [fmt], ns = size * 8 / k;
	if (ns > MODELMAX) mc_harness_error ("model too small");
	int nf = ns / ch;
	if (nf < 2) return BK_INVALID_NUM_FRAMES;
	for (int i = 0; i < nf * ch; i ++) {
		int v;
		switch (fmt) {
			case 1: v = (b [i / 8] >> (7 - i % 8) & 1) * 32767; break;
			case 2: v = (b [i / 4] >> (6 - i % 4 * 2) & 3) * 32767 / 3; break;
			case 3: v = (b [i / 2] >> (4 - i % 2 * 4) & 15) * 32767 / 15; break;
			case 4: v = (int8_t) b [i] * 32767 / 127; if (v < -32768) v = -32768; break;
			case 5: v = b [i] * 32767 / 255; break;
			default: v = big ? (int16_t) (b [2 * i] << 8 | b [2 * i + 1]) : (int16_t) (b [2 * i + 1] << 8 | b [2 * i]); break;
		}
		out [i] = v;
	}
	model_store (m, out, nf, ch);
	return 0;
}
static void model_normalize (Model *m)
{
	int mx = 0;
	for (int i = 0; i < m->nf * m->ch; i ++) if (abs (m->f [i]) > mx) mx = abs (m->f [i]);
	if (mx) for (int i = 0; i < m->nf * m->ch; i ++) m->f [i] = (int16_t) ((int64_t) m->f [i] * ((32767 << 16) / mx) >> 16);
}
/* only more than 8 bits (no dither) */
static void model_convert (Model *m, int bits, int threshold)
{
	for (int i = 0; i < m->nf * m->ch; i ++) {
		int x = abs (m->f [i]) >= threshold ? m->f [i] : 0;
		if (x < -32767) x = -32767;
		m->f [i] = -(x >> (16 - bits)) * 32767 / (1 << (bits - 1));
	}
}
static void model_range (Model *m, int a, int b)
{
	if (a == b) a = b = 0;
	if (a < 0) a += m->nf + 1;
	if (b < 0) b += m->nf + 1;
	a = a < 0 ? 0 : a > m->nf ? m->nf : a;
	b = b < 0 ? 0 : b > m->nf ? m->nf : b;
	m->s0 = a < b ? a : b; m->s1 = a < b ? b : a;
}
static uint64_t model_hash (const Model *m)
{
	return mc_hash (mc_hash64 (mc_hash64 (m->nf * 16 + m->ch, m->pitch), m->s0 * 4096 + m->s1), m->f, m->nf * m->ch * 2);
}
static void model_check (const Model *m, BKData *d, const char *what)
{
	BKInt v = -1, r [2] = { -1, -1 };
	MC_CHECK (BKGetAttr (d, BK_NUM_FRAMES, &v) == 0 && v == m->nf, what, "%s: %d frames instead of %d", what, v, m->nf);
	MC_CHECK (BKGetAttr (d, BK_NUM_CHANNELS, &v) == 0 && v == m->ch, what, "%s: %d channels instead of %d", what, v, m->ch);
	MC_CHECK (BKGetAttr (d, BK_SAMPLE_PITCH, &v) == 0 && v == m->pitch, what, "%s: pitch %d instead of %d", what, v, m->pitch);
	MC_CHECK (BKGetPtr (d, BK_SAMPLE_SUSTAIN_RANGE, r, sizeof r) == 0 && r [0] == m->s0 && r [1] == m->s1, what, "%s: sustain range %d..%d instead of %d..%d", what, r [0], r [1], m->s0, m->s1);
	for (int i = 0; i < m->nf * m->ch; i ++)
		if (d->frames [i] != m->f [i]) mc_fail (what, "%s: frame %d is %d instead of %d", what, i, d->frames [i], m->f [i]);
}
static FILE *temp_file (const void *b, size_t n, long off)
{
	int fd = memfd_create ("bk", 0);
	if (fd < 0) {
		char t [] = "/tmp/bkdatXXXXXX";
		fd = mkstemp (t);
		if (fd >= 0) unlink (t);
	}
	FILE *f = fd < 0 ? NULL : fdopen (fd, "w+");
	if (!f) mc_harness_error ("cannot create a scratch file");
	for (long i = 0; i < off; i ++) fputc (0x5a, f);
	if (n && fwrite (b, 1, n, f) != n) mc_harness_error ("write");
	fflush (f);
	fseek (f, off, SEEK_SET);
	return f;
}
static int load_raw (BKData *d, const void *b, size_t n, int ch, uint32_t params, long off)
{
	FILE *f = temp_file (b, n, off);
	int r = BKDataLoadRaw (d, f, ch, params);
	fclose (f);
	return r;
}
/* a WAV file image with 16 bit frames */
static size_t wav_image (uint8_t *p, const int16_t *f, int nf, int ch)
{
	int n = nf * ch * 2;
	memset (p, 0, 44);
	memcpy (p, "RIFF", 4); memcpy (p + 8, "WAVEfmt \x10\0\0\0\1\0", 14);
	for (int i = 0; i < 4; i ++) { p [4 + i] = (36 + n) >> 8 * i; p [40 + i] = n >> 8 * i; } p [22] = ch; p [24] = 0x44; p [25] = 0xac; p [32] = ch * 2; p [34] = 16;
	memcpy (p + 36, "data", 4);
	for (int i = 0; i < nf * ch; i ++) { p [44 + 2 * i] = f [i]; p [45 + 2 * i] = f [i] >> 8; }
	return 44 + n;
}
/* memory owned by the caller */
typedef struct { int16_t a [2][12], keep [2][12]; } Ext;
static void ext_init (Ext *e)
{
	for (int k = 0; k < 2; k ++) for (int i = 0; i < 12; i ++) e->a [k][i] = e->keep [k][i] = (i % 2 ? -1 : 1) * (i * 2311 + 500 * k + 77);
}
static void ext_check (Ext *e) { MC_CHECK (!memcmp (e->a, e->keep, sizeof e->a), "caller-frames", "the caller's frames were changed"); }

enum { DataOps = 14 };
static void data_op (BKData *d, Model *m, Ext *e, int op, int who)
{
	uint8_t img [200];
	int r = 0, w = 0, c = 'A' + who;
	switch (op) {
		case 0: mc_log ("%c: set 4 frames, 2 channels, referenced", c); r = BKDataSetFrames (d, e->a [0], 4, 2, 0); w = model_set_frames (m, e->a [0], 4, 2, 0); break;
		case 1: mc_log ("%c: set 5 frames, copied", c); r = BKDataSetFrames (d, e->a [1], 5, 1, 1); w = model_set_frames (m, e->a [1], 5, 1, 1); break;
		case 2: mc_log ("%c: set 12 frames, copied", c); r = BKDataSetFrames (d, e->a [0], 12, 1, 1); w = model_set_frames (m, e->a [0], 12, 1, 1); break;
		case 3: mc_log ("%c: set 4 bit data", c); r = BKDataSetData (d, "\x12\x8f\x70", 3, 2, BK_4_BIT_UNSIGNED); w = model_set_data (m, (uint8_t *) "\x12\x8f\x70", 3, 2, BK_4_BIT_UNSIGNED); break;
		case 4: mc_log ("%c: load raw big endian file", c); r = load_raw (d, "\x12\x34\xff\xfe\x80\x01", 6, 1, BK_16_BIT_SIGNED | BK_BIG_ENDIAN, 3); w = model_set_data (m, (uint8_t *) "\x12\x34\xff\xfe\x80\x01", 6, 1, BK_16_BIT_SIGNED | BK_BIG_ENDIAN); break;
		case 5: {
			size_t n = wav_image (img, e->a [1], 3, 2);
			FILE *f = temp_file (img, n, 1);
			mc_log ("%c: load WAV file", c); r = BKDataLoadWAVE (d, f);
			fclose (f);
			w = model_set_frames (m, e->a [1], 3, 2, 1);
			break;
		}
		case 6: {
			mc_log ("%c: normalize", c); r = BKDataNormalize (d);
			if (m->nf) model_normalize (m); else r = 0;      /* nothing to normalize: any status */
			break;
		}
		case 7: {
			BKDataConvertInfo info;
			memset (&info, 0, sizeof info);
			info.targetNumBits = 12; info.threshold = 0.1f;
			mc_log ("%c: convert to 12 bits", c); r = BKDataConvert (d, &info);
			if (m->nf) model_convert (m, 12, 0.1f * 32767); else r = 0;
			break;
		}
		case 8: mc_log ("%c: set pitch", c); r = BKSetAttr (d, BK_SAMPLE_PITCH, 3 << 20); m->pitch = 3 << 20; break;
		case 9: { BKInt rg [2] = { m->s0 ? 0 : -1, m->s0 ? -1 : 1 }; mc_log ("%c: set sustain range %d..%d", c, rg [0], rg [1]); r = BKSetPtr (d, BK_SAMPLE_SUSTAIN_RANGE, rg, sizeof rg); model_range (m, rg [0], rg [1]); break; }
		case 10: mc_log ("%c: unusable data", c); r = BKDataSetData (d, "\x12\x8f\x70", 3, 4, BK_8_BIT_SIGNED); w = -1; break;
		case 11: {
			FILE *f = temp_file ("RIFF", 4, 0);
			mc_log ("%c: load truncated WAV file", c); r = BKDataLoadWAVE (d, f); w = -1;
			fclose (f);
			break;
		}
		case 12: mc_log ("%c: set 1 frame", c); r = BKDataSetFrames (d, e->a [0], 1, 1, 1); w = -1; break;
		case 13:
			if (m->nf < 3) return;
			mc_log ("%c: keep all but the first frame", c);
			r = BKDataSetFrames (d, d->frames + m->ch, m->nf - 1, m->ch, 1);
			memmove (m->f, m->f + m->ch, --m->nf * m->ch * 2);
			break;
	}
	MC_CHECK ((r < 0) == (w < 0) && r <= 0, "operation-status", "operation %d returned %d, expected %d", op, r, w);
}
