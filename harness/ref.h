/*
 * Reference synthesizer: the executable model of BlipKit used as oracle.
 *
 * Independent of the library: all times are absolute 44.20 fixed point frames
 * in 64 bit, buffers are never shifted, waveforms, tone tables, slides,
 * intervals, sequences, clocks and dividers are defined here.  Only the pulse
 * kernel is taken from the library (property C06 decides it separately).
 */
#ifndef REF_H
#define REF_H
#include "BlipKit.h"
#include "BKUnit_internal.h"
#include "mc.h"
#include <math.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

#define N(a) ((int) (sizeof (a) / sizeof *(a)))
#define RMAXV 32767
#define RUNIT ((int64_t) 1 << 20)
#define RFRAC (RUNIT - 1)
#define RSTEP (0x7fffffff / 3)      /* longest step of the scheduler */
#define RNOTEMAX (96 << 20)
#define RPITCHMIN (-(48 << 20))
#define RPITCHMAX (48 << 20)
#define RINF 0x7fffffff

static int rclamp (int v, int lo, int hi) { return v < lo ? lo : v > hi ? hi : v; }
static int64_t rmin64 (int64_t a, int64_t b) { return a < b ? a : b; }
static int64_t rmax64 (int64_t a, int64_t b) { return a > b ? a : b; }
static int32_t radd (int32_t a, int32_t b) { return (int32_t) ((uint32_t) a + (uint32_t) b); }
static int32_t rmul (int32_t a, int32_t b) { return (int32_t) ((uint32_t) a * (uint32_t) b); }
static int32_t rshl (int32_t a, int n) { return (int32_t) ((uint32_t) a << n); }

static const char *attr_name (int a)
{
	static const struct { int a; const char *n; } t [] = {
#define A(x) { BK_##x, #x },
	A(WAVEFORM) A(DUTY_CYCLE) A(PERIOD) A(PHASE) A(PHASE_WRAP) A(NUM_PHASES) A(MASTER_VOLUME) A(VOLUME) A(VOLUME_0) A(VOLUME_1) A(VOLUME_2) A(VOLUME_3) A(VOLUME_4)
	A(VOLUME_5) A(VOLUME_6) A(VOLUME_7) A(MUTE) A(PITCH) A(SAMPLE_RANGE) A(SAMPLE_REPEAT) A(SAMPLE_SUSTAIN_RANGE) A(SAMPLE_IMMED_RELEASE) A(SAMPLE_PERIOD) A(SAMPLE_PITCH)
	A(SAMPLE_CALLBACK) A(FLAG_RELEASE) A(NOTE) A(ARPEGGIO) A(PANNING) A(INSTRUMENT) A(ARPEGGIO_DIVIDER) A(EFFECT_DIVIDER) A(INSTRUMENT_DIVIDER) A(TRIANGLE_IGNORES_VOLUME)
	A(NUM_FRAMES) A(EFFECT_VOLUME_SLIDE) A(EFFECT_PANNING_SLIDE) A(EFFECT_PORTAMENTO) A(EFFECT_TREMOLO) A(EFFECT_VIBRATO) A(SAMPLE_RATE) A(NUM_CHANNELS) A(SAMPLE)
#undef A
	};
	static char b [20];
	for (int i = 0; i < N (t); i ++) if (t [i].a == a) return t [i].n;
	snprintf (b, sizeof b, "%#x", a);
	return b;
}

/* ---------------------------------------------------------------- tone */
static uint32_t RToneTab [97], RLogTab [97];
static void rtone_init (void)
{
	if (RToneTab [0]) return;
	for (int i = 0; i < 97; i ++) {
		RToneTab [i] = (uint32_t) (524288 / (440 * pow (2, (i - 57) / 12.0)));
		RLogTab [i] = i % 12 ? (uint32_t) (65536 * pow (2, i / 12.0)) : 65536u << (i / 12);
	}
}
static int64_t rtone_period (int note, int rate)
{
	note = rclamp (note, 0, RNOTEMAX);
	uint64_t f = (note & RFRAC) >> 4, i = note >> 20, j = i < 96 ? i + 1 : 96;
	uint64_t p = RToneTab [i] * (65536 - f) + RToneTab [j] * f;
	return (int64_t) ((p >> 18) * rate << 2);
}
static int rlog_period (int note)
{
	note = rclamp (note, 0, RNOTEMAX);
	uint32_t f = (note & RFRAC) >> 12, i = note >> 20, j = i < 96 ? i + 1 : 96;
	return ((RLogTab [i] >> 2) * (256 - f) + (RLogTab [j] >> 2) * f) >> 6;
}

/* -------------------------------------------------- slides and intervals */
typedef struct { int end, steps, value, delta, bias, shift, step; } RSlide;
typedef struct { int delta, steps, value, sd, bias, shift, phase, step; } RInterval;

static int rshift_for (int max)
{
	int s = 0;
	if (!max) return 0;
	while ((1 << s) < max && s < 30) s ++;
	return 30 - s;
}
static int rbias (int steps, int delta, int shift, int sd)
{
	int d = delta >> shift;
	return d ? rmul ((steps << 8) / d / 2, sd / 256) : 0;
}
static void rslide_init (RSlide *s, int max) { memset (s, 0, sizeof *s); s->shift = rshift_for (max); }
static void rslide_set (RSlide *s, int end, int steps)
{
	steps = rclamp (steps, 0, 1 << 23);
	end = rshl (end, s->shift);
	s->end = end; s->steps = s->step = steps;
	if (steps) {
		int d = end - s->value;
		s->delta = d / steps;
		s->bias = rbias (steps, d, s->shift, s->delta);
	}
	else { s->value = end; s->delta = 0; }
}
static void rslide_value (RSlide *s, int end) { rslide_set (s, end, s->steps); }
static void rslide_steps (RSlide *s, int steps) { rslide_set (s, s->end >> s->shift, steps); }
static void rslide_halt (RSlide *s, int atend) { s->step = 0; if (atend) s->value = s->end; }
static void rslide_tick (RSlide *s)
{
	if (s->step <= 0) return;
	s->value += s->delta;
	if (-- s->step == 0) s->value = s->end;
}
static int rslide_get (const RSlide *s) { return radd (s->value, s->bias) >> s->shift; }

static void rint_init (RInterval *s, int max) { memset (s, 0, sizeof *s); s->shift = rclamp (rshift_for (max) - 1, 0, 30); }
static void rint_set (RInterval *s, int delta, int steps)
{
	int step = 0;
	steps = rclamp (steps, 0, 1 << 23);
	if (!steps) { s->delta = s->steps = s->value = s->sd = s->phase = s->step = 0; return; }
	delta = rshl (delta, s->shift);
	if (steps == s->steps && delta == s->delta) return;
	if (s->steps) step = rmul ((rshl (s->step, 8) + 128) / s->steps, steps) >> 8;
	int sd = delta / steps;
	s->bias = (delta >> s->shift) ? rbias (steps, delta, s->shift, sd) : 0;
	s->value = rmul (sd, s->phase & 1 ? steps - step : step);
	if (s->phase & 2) s->value = -s->value;
	s->sd = s->phase == 1 || s->phase == 2 ? -sd : sd;
	s->delta = delta; s->steps = steps; s->step = step;
}
static void rint_tick (RInterval *s)
{
	if (!s->steps) return;
	if (s->step < s->steps - 1) { s->value = radd (s->value, s->sd); s->step ++; return; }
	s->phase = (s->phase + 1) & 3;
	s->step = 0;
	s->value = s->phase == 1 ? s->delta : s->phase == 3 ? -s->delta : 0;
	if (s->phase & 1) s->sd = -s->sd;
}
static int rint_get (const RInterval *s) { return radd (s->value, s->bias) >> s->shift; }

/* ------------------------------------------------------------- objects */
typedef struct RUnit RUnit;
typedef struct RCtx RCtx;
typedef struct RClock RClock;
typedef struct RDiv RDiv;
typedef struct RTrack RTrack;
typedef struct { int nf, ch, pitch, s0, s1; const int16_t *f; RUnit *user [24]; int nuser; BKData *real; } RData;

enum { RNO, RREP, RPAL };
struct RUnit {
	RCtx *ctx;
	RTrack *track;              /* NULL for a plain unit */
	BKUnit *real;               /* puppet: a unit of the library which follows this one */
	int64_t time, period;
	int last [8], wave, duty, vol [8], mute;
	int phase, wrap, wrapcount, count;
	RData *data;
	struct { int nch, len, off, end, mode, nrep, s0, s1, hassus, jump, rel, per; int64_t frac; const int16_t *f; } s;
	int (*cb) (void *user, int event);     /* sample callback */
	void *user;
};
struct RDiv {
	RDiv **group; int *ngroup;
	int divider, counter;
	int (*cb) (void *user, int divider);   /* returns the new divider */
	void *user;
};
struct RClock {
	RCtx *ctx;
	int64_t period, time, next;
	int64_t (*cb) (void *user, RClock *c); /* returns the next time, <= time: keep period */
	void *user;
	RDiv *div [24]; int ndiv;
};
struct RCtx {
	int nch, rate;
	const BKFrame (*kernel) [32];
	int64_t now, end;                      /* time run to, time requested so far */
	int64_t bufpos, lost, cap, readpos;    /* buffer time, time without units, end of the valid buffer, frames read */
	int32_t *buf [8]; int size; int32_t accum [8];
	RClock *clock [12]; int nclock, reset;
	RClock master;
	RDiv *eff [24], *beat [24]; int neff, nbeat;
	RUnit *unit [12]; int nunit;
};

/* -------------------------------------------------------------- buffer */
static void rbuf_need (RCtx *c, int64_t frame)
{
	if (frame + 40 < c->size) return;
	int n = (int) (frame + 2048);
	for (int i = 0; i < c->nch; i ++) {
		int32_t *p = mc_raw_malloc (n * sizeof *p);
		memset (p, 0, n * sizeof *p);
		if (c->buf [i]) memcpy (p, c->buf [i], c->size * sizeof *p);
		mc_raw_free (c->buf [i]);
		c->buf [i] = p;
	}
	c->size = n;
}
static void rbuf_pulse (RCtx *c, int ch, int64_t t, int h)
{
	t -= c->lost;
	rbuf_need (c, t >> 20);
	const BKFrame *k = c->kernel [(t & RFRAC) >> 15];
	int32_t *b = c->buf [ch] + (t >> 20);
	for (int i = 0; i < 32; i ++) b [i] = radd (b [i], rmul (k [i], h));
}
static int16_t rbuf_next (RCtx *c, int ch, int64_t frame)
{
	int32_t a = c->accum [ch];
	a -= a >> 9;
	a = radd (a, c->buf [ch] [frame]);
	c->accum [ch] = a;
	a >>= 14;
	return a > 32767 ? 32767 : a < -32768 ? -32768 : a;
}
static void rbuf_clear (RCtx *c)
{
	for (int i = 0; i < c->nch; i ++) { if (c->buf [i]) memset (c->buf [i], 0, c->size * sizeof (int32_t)); c->accum [i] = 0; }
	c->bufpos = c->lost = c->cap = c->readpos = 0;
}

/* ---------------------------------------------------------------- unit */
static const int RCount [] = { 16, 16, 32, 8, 7, 32 };   /* none, square, triangle, noise, sawtooth, sine */
static int rwave_level (RUnit *u)                        /* level of the next phase, advances */
{
	int p = u->phase, v = 0;
	if ((u->wave == BK_NOISE || u->wave == BK_CUSTOM) && u->wrap) {
		if (-- u->wrapcount <= 0) { u->wrapcount = u->wrap; p = 0; }
	}
	switch (u->wave) {
		case BK_SQUARE: {
			int d = u->duty;
			if (d <= 8) v = p >= d / 2 + 1 && p < d / 2 + 1 + d ? RMAXV : 0;
			else v = p >= 15 - d && p < 15 ? -RMAXV : 0;
			if (d == 1) v = p == 1 ? RMAXV : 0;
			p = (p + 1) % 16;
			break;
		}
		case BK_TRIANGLE: {
			static const int top = 16383;
			int q = p % 16, s = q < 8 ? q : 15 - q;      /* 0 .. 7 .. 0 */
			v = p < 16 ? (s ? 2048 * s - 1 : 0) : -(2048 * (s + 1) - 1);
			if (v < -top) v = -top;
			p = (p + 1) % 32;
			break;
		}
		case BK_NOISE: {
			unsigned r = p ? p : 0x4a41, bit = (r ^ r >> 2 ^ r >> 3 ^ r >> 5) & 1;
			p = r >> 1 | bit << 15;
			v = bit ? 16383 : -16383;
			break;
		}
		case BK_SAWTOOTH:
			v = 32766 - 5461 * p;
			p = (p + 1) % 7;
			break;
		case BK_SINE:
			v = (int) (32767 * sin (2 * M_PI * p / 32)) / 2;
			p = (p + 1) % 32;
			break;
		case BK_CUSTOM:
			v = u->s.f [p];
			p = (p + 1) % u->count;
			break;
	}
	u->phase = p;
	return v;
}
static void runit_add (RUnit *u, int ch, int64_t t, int level)
{
	int d = (level * u->vol [ch]) >> 15;
	rbuf_pulse (u->ctx, ch, t, d - u->last [ch]);
	u->last [ch] = d;
}
static void runit_run_wave (RUnit *u, int64_t end)
{
	int any = 0;
	for (int i = 0; i < u->ctx->nch; i ++) any |= u->vol [i];
	if (u->mute || !any) { u->time = end; return; }
	if (u->wave == BK_NOISE && !u->phase) u->phase = 0x4a41;   /* 0 and this value are the same state */
	for (; u->time < end; u->time += u->period) {
		int v = rwave_level (u);
		for (int i = 0; i < u->ctx->nch; i ++) if (u->vol [i]) runit_add (u, i, u->time, v);
	}
}
static int runit_sample_end (RUnit *u)     /* 1: the sample stops */
{
	int mode = u->s.mode, len, dir = 0;
	if (u->cb) mode = u->cb (u->user, BK_EVENT_SAMPLE_RESET);
	if (u->wave != BK_SAMPLE) { u->mute = 1; return 1; }      /* not a sample any more */
	len = u->s.len;                                /* the callback may change the range */
	if (len <= 0) u->phase = 0;
	else if (u->phase >= len) { dir = 1; u->phase %= len; }
	else if (u->phase < 0) { dir = -1; u->phase = (len - -u->phase % len) % len; }
	switch (mode) {
		case BK_REPEAT: break;
		case BK_PALINDROME:
			if (dir == 1) u->phase = len - 1 - u->phase;
			else if (dir == -1) u->phase = u->phase ? len - u->phase : len - 1;
			dir = -dir;
			break;
		default: dir = 0;
	}
	if (dir) u->s.per = dir * abs (u->s.per);
	u->s.nrep ++;
	if (!dir) u->mute = 1;
	return !dir;
}
static void runit_run_sample (RUnit *u, int64_t end)
{
	if (u->mute || abs (u->s.end - u->s.off) < 2) { u->time = end; return; }
	for (; u->time < end; u->time += RUNIT) {
		for (int i = 0; i < u->ctx->nch; i ++)
			runit_add (u, i, u->time + u->s.frac, u->s.f [u->phase * u->s.nch + (u->s.nch == 1 ? 0 : i)]);
		int64_t f = u->s.frac + u->s.per;
		u->phase += (int) (f >> 20);
		u->s.frac = f & RFRAC;
		if (u->s.hassus && !u->s.rel) {           /* held: only the sustain range repeats */
			if (u->s.per > 0) { if (u->phase >= u->s.s1) u->phase = u->s.s0; }
			else if (u->phase < u->s.s0) u->phase = u->s.s1 - 1;
		}
		if ((u->phase < 0 || u->phase >= u->s.len) && runit_sample_end (u)) return;
	}
}
static void runit_run (RUnit *u, int64_t end)
{
	RCtx *c = u->ctx;
	if (u->period && u->wave == BK_SAMPLE) runit_run_sample (u, end);
	else if (u->period && u->wave) runit_run_wave (u, end);
	if (u->time < end) u->time = end;
	int64_t f = (u->time - c->lost + RFRAC) >> 20;
	if (f > c->cap) c->cap = f;
}
static void rdata_drop (RUnit *u)
{
	RData *d = u->data;
	if (!d) return;
	for (int i = 0; i < d->nuser; i ++) if (d->user [i] == u) {
		memmove (&d->user [i], &d->user [i + 1], (-- d->nuser - i) * sizeof *d->user);
		break;
	}
	u->data = NULL;
}
static void rdata_use (RUnit *u, RData *d)
{
	rdata_drop (u);
	if (d) { d->user [d->nuser ++] = u; u->data = d; }
}
static void runit_clear_sustain (RUnit *u) { u->s.hassus = u->s.jump = u->s.rel = 0; }
/* apply data; gone: the data was disposed */
static int runit_try_data (RUnit *u, RData *d, int type, int gone)
{
	if (!u->ctx) return BK_INVALID_STATE;
	if (gone) d = NULL;
	if (type == BK_WAVEFORM) {
		if (d) {
			if (d->nf < 2) return BK_INVALID_NUM_FRAMES;
			u->wave = BK_CUSTOM; u->count = d->nf < 64 ? d->nf : 64; u->phase = 0;
			u->s.off = 0; u->s.end = d->nf; u->s.f = d->f; u->s.nrep = 0;
			u->s.hassus = u->s.rel = 0;
		}
		else if (u->wave == BK_CUSTOM) { u->wave = 0; u->s.off = u->s.end = 0; u->s.f = NULL; }
	}
	else {
		if (d) {
			if (d->ch != 1 && d->ch != u->ctx->nch) return BK_INVALID_NUM_CHANNELS;
			if (d->nf < 2) return BK_INVALID_NUM_FRAMES;
			u->wave = BK_SAMPLE; u->count = 1; u->phase = 0;
			u->s.len = u->s.end = d->nf; u->s.off = 0; u->s.nch = d->ch; u->s.f = d->f;
			u->s.per = abs (u->s.per);
			u->s.mode = u->s.nrep = u->s.s0 = u->s.s1 = 0;
			runit_clear_sustain (u);
			if (d->s0 < (d->s1 < d->nf ? d->s1 : d->nf)) { u->s.s0 = d->s0; u->s.s1 = d->s1 < d->nf ? d->s1 : d->nf; u->s.hassus = 1; }
			if (u->data != d) rdata_use (u, d);
			if (u->cb) u->cb (u->user, BK_EVENT_SAMPLE_BEGIN);
		}
		else if (u->wave == BK_SAMPLE) {
			u->wave = 0; u->phase = 0;
			u->s.off = u->s.end = u->s.s0 = u->s.s1 = u->s.mode = 0; u->s.f = NULL;
			runit_clear_sustain (u);
		}
	}
	return 0;
}
static int runit_set_data (RUnit *u, int type, RData *d)
{
	if (u->real) BKUnitSetPtr (u->real, type, d ? d->real : NULL);
	int r = runit_try_data (u, d, type, 0);
	if (r == 0) {
		if (d ? type != BK_SAMPLE : (u->wave != BK_CUSTOM && u->wave != BK_SAMPLE)) rdata_use (u, d);      /* a sample is in use since before its callback */
	}
	else if (u->wave == BK_CUSTOM || u->wave == BK_SAMPLE) u->wave = 0;
	return r;
}
static void rtrack_update_note (RTrack *t);
/* content of d changed (gone: disposed) */
static void rdata_notify (RData *d, int gone)
{
	RUnit *list [24];
	int n = d->nuser;
	memcpy (list, d->user, sizeof list);
	for (int i = 0; i < n; i ++) {
		RUnit *u = list [i];
		int r = -1;
		if (u->data != d) continue;      /* a callback of another user took it off */
		if (u->wave == BK_CUSTOM || u->wave == BK_SAMPLE) {
			r = runit_try_data (u, d, u->wave == BK_CUSTOM ? BK_WAVEFORM : BK_SAMPLE, gone);
			if (r < 0) { u->wave = 0; u->s.f = NULL; }
		}
		if (r == 0 && u->track) rtrack_update_note (u->track);
		if ((r < 0 || gone) && u->data == d) rdata_drop (u);
	}
}
static void runit_clear (RUnit *u)
{
	BKUnit *real = u->real;
	if (real) BKUnitClear (real);
	u->real = NULL;
	runit_set_data (u, BK_WAVEFORM, NULL);
	runit_set_data (u, BK_SAMPLE, NULL);
	rdata_drop (u);
	u->real = real;
	runit_clear_sustain (u);
	u->wrap = u->wrapcount = 0;
	u->s.off = u->s.end = u->s.mode = u->s.nrep = u->s.s0 = u->s.s1 = 0;
	u->s.per = RUNIT; u->s.frac = 0;
	if (u->data) u->s.end = u->data->nf;
}
static void runit_reset (RUnit *u)
{
	if (u->real) BKUnitReset (u->real);
	runit_clear (u);
	u->wave = 0; u->phase = 0; u->time = u->ctx ? u->ctx->now : 0;
	memset (u->last, 0, sizeof u->last);
}
static int runit_set_attr (RUnit *u, int attr, int v)
{
	if (u->real) BKUnitSetAttr (u->real, attr, v);
	switch (attr) {
		case BK_DUTY_CYCLE:
			v = rclamp (v, 1, 15);
			if (u->wave == BK_SQUARE && v > u->duty && u->phase < v) u->phase = 0;
			u->duty = v;
			return 0;
		case BK_WAVEFORM:
			if (v && (v < BK_SQUARE || v > BK_SINE)) return BK_INVALID_VALUE;
			u->count = RCount [v ? v - BK_SQUARE + 1 : 0];
			if (v != u->wave) { u->wave = v; u->phase = 0; }
			u->s.hassus = u->s.rel = 0;
			rdata_drop (u);
			return 0;
		case BK_PHASE:
			if (u->wave == BK_SAMPLE && u->cb) u->cb (u->user, BK_EVENT_SAMPLE_BEGIN);
			if (u->wave == BK_SAMPLE) {
				if (v < 0) {                       /* start of the sample in its direction */
					int fwd = u->s.end > u->s.off;
					v = fwd ? 0 : u->s.len - 1;
					u->s.per = fwd ? abs (u->s.per) : -abs (u->s.per);
				}
				v = rclamp (v, 0, u->s.len ? u->s.len - 1 : 0x7fffffff);
			}
			else v = rclamp (v, 0, u->count - 1);
			u->phase = v;
			return 0;
		case BK_PHASE_WRAP:
			u->wrap = u->wrapcount = v ? (v > 2 ? v : 2) : 0;
			if (u->wave != BK_SAMPLE) u->phase = 0;
			return 0;
		case BK_PERIOD: u->period = v < 0 ? -v : v; return 0;
		case BK_VOLUME: v = rclamp (v, 0, RMAXV); for (int i = 0; i < 8; i ++) u->vol [i] = v; return 0;
		case BK_VOLUME_0: case BK_VOLUME_1: case BK_VOLUME_2: case BK_VOLUME_3:
		case BK_VOLUME_4: case BK_VOLUME_5: case BK_VOLUME_6: case BK_VOLUME_7:
			u->vol [attr - BK_VOLUME_0] = rclamp (v, 0, RMAXV); return 0;
		case BK_MUTE: u->mute = v != 0; return 0;
		case BK_SAMPLE_REPEAT: u->s.mode = v == BK_REPEAT || v == BK_PALINDROME ? v : BK_NO_REPEAT; return 0;
		case BK_SAMPLE_PERIOD:
			v = rclamp (abs (v), 1 << 12, 1 << 28);
			u->s.per = u->s.per < 0 ? -v : v;
			return 0;
		case BK_SAMPLE_IMMED_RELEASE: u->s.jump = v != 0; return 0;
		case BK_FLAG_RELEASE:
			if (!u->s.hassus) return 0;
			u->s.rel = v != 0;
			if (v && u->s.jump && !u->mute) {
				if (u->s.per > 0) u->phase = u->s.s1 < u->s.len - 1 ? u->s.s1 : u->s.len - 1;
				else u->phase = u->s.s0 > 0 ? u->s.s0 - 1 : 0;
			}
			return 0;
	}
	return BK_INVALID_ATTRIBUTE;
}
static int runit_get_attr (const RUnit *u, int attr, int *v)
{
	if (u->real) return BKUnitGetAttr (u->real, attr, v);
	switch (attr) {
		case BK_DUTY_CYCLE: *v = u->duty; return 0;
		case BK_WAVEFORM: *v = u->wave; return 0;
		case BK_PHASE: *v = u->phase; return 0;
		case BK_PHASE_WRAP: *v = u->wrap; return 0;
		case BK_NUM_PHASES: *v = u->wave == BK_SAMPLE ? u->s.len : u->count; return 0;
		case BK_PERIOD: *v = (int) u->period; return 0;
		case BK_VOLUME_0: case BK_VOLUME_1: case BK_VOLUME_2: case BK_VOLUME_3:
		case BK_VOLUME_4: case BK_VOLUME_5: case BK_VOLUME_6: case BK_VOLUME_7:
			*v = u->vol [attr - BK_VOLUME_0]; return 0;
		case BK_MUTE: *v = u->mute; return 0;
		case BK_SAMPLE_REPEAT: *v = u->s.mode; return 0;
		case BK_SAMPLE_PERIOD: *v = abs (u->s.per); return 0;
		case BK_SAMPLE_IMMED_RELEASE: *v = u->s.jump; return 0;
		case BK_FLAG_RELEASE: *v = u->s.rel; return 0;
	}
	return BK_INVALID_ATTRIBUTE;
}
static void runit_sustain (RUnit *u, int a, int b)
{
	if (!u->data) return;
	int n = u->s.len;
	a = rclamp (a < 0 ? a + n + 1 : a, 0, n);
	b = rclamp (b < 0 ? b + n + 1 : b, 0, n);
	u->s.s0 = a < b ? a : b;
	u->s.s1 = a < b ? b : a;
	u->s.hassus = a != b;
}
static int runit_set_range (RUnit *u, const int *r)
{
	if (u->real) BKUnitSetPtr (u->real, BK_SAMPLE_RANGE, (void *) r);
	if (u->wave != BK_SAMPLE) return BK_INVALID_STATE;
	if (u->data) {
		int n = u->data->nf, a = r ? r [0] : 0, b = r ? r [1] : -1;
		a = rclamp (a < 0 ? a + n + 1 : a, 0, n);
		b = rclamp (b < 0 ? b + n + 1 : b, 0, n);
		int lo = a < b ? a : b, len = abs (a - b);
		int old = u->s.off < u->s.end ? u->s.off : u->s.end;
		int p = u->phase + old - lo;              /* same frame as before */
		if (p < 0 || p >= len) p = 0;
		u->s.off = a; u->s.end = b; u->s.len = len;
		u->s.f = u->data->f + lo * u->s.nch;
		u->s.per = a > b ? -abs (u->s.per) : abs (u->s.per);
		if (u->s.nrep == 0) {                     /* not played yet: start at the proper end */
			if (a < b && u->phase == len - 1) p = 0;
			else if (a > b && u->phase == 0) p = len - 1;
		}
		u->phase = p;
	}
	runit_sustain (u, 0, 0);
	return 0;
}
static int runit_set_sustain (RUnit *u, const int *r)
{
	if (u->real) BKUnitSetPtr (u->real, BK_SAMPLE_SUSTAIN_RANGE, (void *) r);
	if (u->wave != BK_SAMPLE) return BK_INVALID_STATE;
	if (!r || r [0] == r [1]) runit_sustain (u, 0, 0);
	else runit_sustain (u, r [0], r [1]);
	return 0;
}
static BKUnit *RRealUnit;
static void runit_init (RUnit *u, int wave)
{
	memset (u, 0, sizeof *u);
	u->real = RRealUnit;
	runit_set_attr (u, BK_DUTY_CYCLE, 2);
	runit_set_attr (u, BK_WAVEFORM, wave);
	u->s.per = RUNIT;
}
static int runit_attach (RUnit *u, RCtx *c)
{
	if (u->ctx) return BK_INVALID_STATE;
	u->ctx = c;
	u->time = c->now;
	if (u->wave == BK_SAMPLE && u->s.nch != 1 && u->s.nch != c->nch) runit_set_data (u, BK_SAMPLE, NULL);
	c->unit [c->nunit ++] = u;
	return 0;
}
static void runit_detach (RUnit *u)
{
	RCtx *c = u->ctx;
	if (!c) return;
	for (int i = 0; i < c->nunit; i ++) if (c->unit [i] == u) {
		memmove (&c->unit [i], &c->unit [i + 1], (-- c->nunit - i) * sizeof *c->unit);
		break;
	}
	u->ctx = NULL; u->time = 0;
}

/* --------------------------------------------------- dividers and clocks */
static void rdiv_init (RDiv *d, int n, int (*cb) (void *, int), void *user)
{
	memset (d, 0, sizeof *d);
	d->divider = n > 1 ? n : 1; d->cb = cb; d->user = user;
}
static int rdiv_attach (RDiv *d, RDiv **group, int *n)
{
	if (d->group) return BK_INVALID_STATE;
	d->group = group; d->ngroup = n;
	group [(*n) ++] = d;
	return 0;
}
static void rdiv_detach (RDiv *d)
{
	if (!d->group) return;
	for (int i = 0; i < *d->ngroup; i ++) if (d->group [i] == d) {
		memmove (&d->group [i], &d->group [i + 1], (-- *d->ngroup - i) * sizeof *d->group);
		break;
	}
	d->group = NULL;
}
/* position in list to continue at after handling old [i]: behind it, or, when it was
   removed, at the first remaining one of those which followed it */
static int rnext (void **list, int n, void **old, int nold, int i)
{
	for (int first = 1; i < nold; i ++, first = 0)
		for (int j = 0; j < n; j ++) if (list [j] == old [i]) return j + first;
	return n;
}
static void rdiv_tick_all (RDiv **g, int *n)
{
	/* dividers attached or detached from a callback: continue behind the current one */
	for (int i = 0; i < *n; i ++) {
		RDiv *d = g [i], *old [24];
		int k = *n;
		memcpy (old, g, k * sizeof *old);
		if (d->counter <= 0) {
			if (d->cb) { int v = d->cb (d->user, d->divider); d->divider = v > 1 ? v : 1; }
			d->counter = d->divider;
		}
		d->counter --;
		i = rnext ((void **) g, *n, (void **) old, k, i) - 1;
	}
}
static void rclock_init (RClock *c, int64_t period, int64_t (*cb) (void *, RClock *), void *user)
{
	memset (c, 0, sizeof *c);
	c->period = period; c->cb = cb; c->user = user;
}
static void rclock_reset (RClock *c)
{
	if (c->ctx) c->ctx->reset = 1;
	for (int i = 0; i < c->ndiv; i ++) c->div [i]->counter = 0;
	c->time = c->next = 0;
}
static int rclock_attach (RClock *c, RCtx *x, RClock *before, int first)
{
	int pos = x->nclock;
	if (c->ctx) return BK_INVALID_STATE;
	if (first) pos = 0;
	else if (before) {
		for (pos = 0; pos < x->nclock && x->clock [pos] != before; pos ++);
		if (pos == x->nclock) return BK_INVALID_VALUE;
	}
	memmove (&x->clock [pos + 1], &x->clock [pos], (x->nclock ++ - pos) * sizeof *x->clock);
	x->clock [pos] = c;
	c->ctx = x;
	rclock_reset (c);
	return 0;
}
static void rclock_detach (RClock *c)
{
	RCtx *x = c->ctx;
	if (!x) return;
	for (int i = 0; i < x->nclock; i ++) if (x->clock [i] == c) {
		memmove (&x->clock [i], &x->clock [i + 1], (-- x->nclock - i) * sizeof *x->clock);
		break;
	}
	c->ctx = NULL;
	rclock_reset (c);
}
static void rclock_tick (RClock *c)
{
	if (c->time != c->next) return;
	int64_t next = c->time, now = next;
	if (c->cb) next = c->cb (c->user, c);
	rdiv_tick_all (c->div, &c->ndiv);
	if (next > now) c->period = next - now;
	c->next = c->time + c->period;              /* the callback may have reset the clock */
}

/* ------------------------------------------------------------- context */
static int64_t rctx_master_cb (void *user, RClock *k)
{
	RCtx *c = user;
	rdiv_tick_all (c->beat, &c->nbeat);
	rdiv_tick_all (c->eff, &c->neff);
	return 0;
}
static void rctx_init (RCtx *c, int nch, int rate)
{
	rtone_init ();
	memset (c, 0, sizeof *c);
	c->nch = nch < 0 ? 8 : rclamp (nch, 1, 8);
	c->rate = rate < 0 ? 96000 : rclamp (rate, 16000, 96000);
	c->kernel = BKBufferPulseKernels [BK_PULSE_KERNEL_HARM]->frames;
	rclock_init (&c->master, (int64_t) ((double) ((int64_t) c->rate * RUNIT) * (1.0 / 240)), rctx_master_cb, c);
	rbuf_need (c, 0);
}
static void rctx_free (RCtx *c) { for (int i = 0; i < 8; i ++) { mc_raw_free (c->buf [i]); c->buf [i] = NULL; } }
static void rtrack_run (RTrack *t, int64_t end);
static void rctx_units (RCtx *c, int64_t end)
{
	for (int i = 0; i < c->nunit; i ++) {
		if (c->unit [i]->track) rtrack_run (c->unit [i]->track, end);
		else runit_run (c->unit [i], end);
	}
}
static void rctx_run (RCtx *c, int64_t end)
{
	if (!c->nclock) {
		rctx_units (c, end);
		if (c->now < end) c->now = end;
		return;
	}
	while (c->now < end) {
		int64_t d;
		do {
			d = INT64_MAX;
			c->reset = 0;
			for (int i = 0; i < c->nclock; i ++) {
				RClock *k = c->clock [i];
				rclock_tick (k);
				if (k->ctx != c) { c->reset = 1; break; }      /* detached by its callback */
				d = rmin64 (d, k->next - k->time);
				while (c->clock [i] != k) i = (i + 1) % c->nclock;
			}
		} while (c->reset);
		if (d >= RSTEP) d = RSTEP;
		for (int i = 0; i < c->nclock; i ++) c->clock [i]->time += d;
		c->now += d;
		rctx_units (c, c->now);
	}
}
static void rctx_end (RCtx *c, int64_t d)
{
	c->end += d;
	rctx_run (c, c->end);
	int64_t pos = rmin64 (c->bufpos + d, c->cap << 20);
	c->lost += d - (pos - c->bufpos);
	c->bufpos = pos;
}
static int rctx_read (RCtx *c, int16_t *out, int n)
{
	int64_t have = (c->bufpos >> 20) - c->readpos;
	if (n > have) n = (int) have;
	rbuf_need (c, c->readpos + n);
	for (int i = 0; i < n; i ++)
		for (int ch = 0; ch < c->nch; ch ++) *out ++ = rbuf_next (c, ch, c->readpos + i);
	c->readpos += n;
	return n;
}
static int rctx_generate (RCtx *c, int16_t *out, int n)
{
	int sum = 0;
	do {
		int k = n < 1024 ? n : 1024;
		rctx_end (c, (int64_t) k << 20);
		k = rctx_read (c, out, k);
		sum += k; out += k * c->nch;
		n = k ? n - k : 0;
	} while (n);
	return sum;
}
/* returns number of frames appended to out */
static int rctx_generate_to (RCtx *c, int64_t to, int16_t *out, int max)
{
	if (c->end >= to) return 0;
	rctx_end (c, to - c->end);
	return rctx_read (c, out, max);
}
static void rtrack_reset (RTrack *t);
static void rctx_reset (RCtx *c)
{
	c->now = c->end = 0;
	for (int i = 0; i < c->nunit; i ++) { if (c->unit [i]->track) rtrack_reset (c->unit [i]->track); else runit_reset (c->unit [i]); }
	for (int i = 0; i < c->nclock; i ++) rclock_reset (c->clock [i]);
	for (int i = 0; i < c->nbeat; i ++) c->beat [i]->counter = 0;
	for (int i = 0; i < c->neff; i ++) c->eff [i]->counter = 0;
	rbuf_clear (c);
}
static int rctx_attach_div (RCtx *c, RDiv *d, int type)
{
	if (type != BK_CLOCK_TYPE_EFFECT && type != BK_CLOCK_TYPE_BEAT) return BK_INVALID_ATTRIBUTE;
	int r = type == BK_CLOCK_TYPE_EFFECT ? rdiv_attach (d, c->eff, &c->neff) : rdiv_attach (d, c->beat, &c->nbeat);
	if (r) return r;
	rclock_attach (&c->master, c, NULL, 1);
	return 0;
}

/* --------------------------------------------------------- instruments */
enum { RMUTE, RATTACK, RRELEASE };
typedef struct { int on, env, len, s0, sn, shift; const int *v; const unsigned *st; } RSeq;
/* values of sequences; older ones are not in use any more when the ring is full */
static int RArena [1 << 17]; static int RArenaPos;
typedef struct { RSeq q [4]; struct RIState *user [24]; int nuser; } RInstr;
typedef struct { RSeq *q; int phase, off, value, steps, sv, ev, delta; } RQState;
typedef struct RIState { RInstr *in; RTrack *track; int phase, active; RQState s [4]; } RIState;
static const int RSeqDefault [] = { RMAXV, 0, 0, 0 };

/* one envelope step; 1 when it has ended */
static int rq_env_step (RQState *s)
{
	RSeq *q = s->q;
	int fin = 0;
	if (s->off == RINF) return 0;
	do {
		if (s->steps) {
			if (-- s->steps > 0) { s->sv += s->delta; s->value = s->sv >> q->shift; return 0; }
			s->sv = s->ev; s->value = s->sv >> q->shift; s->off ++;
		}
		if (s->phase == RATTACK && s->off >= q->s0 + q->sn) s->off = q->s0;
		if (s->off >= q->len) { s->off = RINF; fin = 1; break; }
		int to = rshl (q->v [s->off], q->shift);
		if (q->st [s->off]) {
			s->steps = q->st [s->off] < INT32_MAX ? q->st [s->off] : INT32_MAX;
			s->ev = to;
			s->delta = (to - s->sv) / s->steps;
		}
		else { s->sv = to; s->off ++; }
		s->value = s->sv >> q->shift;
	} while (!s->steps);
	return fin;
}
/* returns 1 when the sequence has ended */
static int rq_phase (RQState *s, int phase)
{
	RSeq *q = s->q;
	if (!q->env) {
		s->off = phase == RMUTE ? q->len : phase == RATTACK ? 0 : q->s0 + q->sn;
		s->phase = phase;
		if (s->off < q->len) { s->value = q->v [s->off]; return 0; }
		s->off = RINF;
		return 1;
	}
	s->phase = phase; s->steps = 0;
	if (phase == RMUTE) { s->delta = s->ev = 0; s->off = q->len; s->sv = rshl (s->value, q->shift); return 1; }
	s->off = phase == RATTACK ? 0 : q->s0 + q->sn;
	return rq_env_step (s);
}
static int rq_tick (RQState *s, int level)
{
	RSeq *q = s->q;
	if (q->env) return level == 0 || level == 1 ? rq_env_step (s) : 0;
	if (!level || s->off == RINF) return 0;
	if (s->phase == RATTACK && s->off >= q->s0 + q->sn) s->off = q->s0;
	if (s->off < q->len) { s->value = q->v [s->off ++]; return 0; }
	s->off = RINF;
	return 1;
}
static void rq_value (RQState *s, int v)
{
	s->value = v;
	if (s->q && s->q->env) {
		s->sv = rshl (v, s->q->shift);
		if (s->steps) s->delta = (s->ev - s->sv) / s->steps;
	}
}
static void rtrack_event_mute (RTrack *t);
static void rtrack_event_reset (RTrack *t);
static void ri_defaults (RIState *s) { for (int i = 0; i < 4; i ++) rq_value (&s->s [i], s->s [i].q ? 0 : RSeqDefault [i]); }
static void ri_phase (RIState *s, int phase)
{
	if (!s->in || (s->phase == RRELEASE && phase == RRELEASE)) return;
	s->active = 0;
	for (int i = 0; i < 4; i ++) if (s->s [i].q && !rq_phase (&s->s [i], phase)) s->active ++;
	if (!s->active && phase == RRELEASE) phase = RMUTE;
	if (phase != RMUTE) s->phase = phase;
	else if (s->phase != RMUTE) { s->phase = RMUTE; if (s->track) rtrack_event_mute (s->track); }
}
static void ri_tick (RIState *s, int level)
{
	for (int i = 0; i < 4; i ++) if (s->s [i].q && rq_tick (&s->s [i], level)) {
		if (-- s->active == 0) ri_phase (s, RMUTE);
	}
}
static void ri_set (RIState *s, RInstr *in)
{
	if (s->in) {
		RInstr *o = s->in;
		for (int i = 0; i < o->nuser; i ++) if (o->user [i] == s) { memmove (&o->user [i], &o->user [i + 1], (-- o->nuser - i) * sizeof *o->user); break; }
	}
	s->in = in;
	for (int i = 0; i < 4; i ++) s->s [i].q = in && in->q [i].on ? &in->q [i] : NULL;
	if (in) {
		memmove (&in->user [1], &in->user [0], in->nuser ++ * sizeof *in->user);   /* newest first */
		in->user [0] = s;
		ri_defaults (s);
		ri_phase (s, RATTACK);
	}
}
/* env: values are pairs of steps and value */
static int rinstr_set (RInstr *in, unsigned slot, int env, const int *values, int len, int s0, int sn)
{
	RSeq q;
	memset (&q, 0, sizeof q);
	if (slot >= 4) return BK_INVALID_ATTRIBUTE;
	if (values && len) {
		q.on = 1; q.env = env; q.len = len;
		q.s0 = s0 < 0 || s0 > len ? len : s0;
		q.sn = sn < 0 || sn > len - q.s0 ? len - q.s0 : sn;
		if (RArenaPos + 2 * len > N (RArena)) RArenaPos = 0;
		int *qv = RArena + RArenaPos; unsigned *qs = (unsigned *) qv + len;
		RArenaPos += 2 * len; q.v = qv; q.st = qs;
		for (int i = 0; i < len; i ++) { qv [i] = values [env ? 2 * i + 1 : i]; qs [i] = env ? values [2 * i] : 0; }
		if (env) {
			int64_t sum = 0;
			for (int i = q.s0; i < q.s0 + q.sn; i ++) sum += q.st [i];
			if (q.s0 != len && !sum) return BK_INVALID_VALUE;
			int max = 15, sh = 0;
			for (int i = 0; i < len; i ++) if (abs (q.v [i]) > max) max = abs (q.v [i]);
			while ((1 << sh) <= max && sh < 30) sh ++;
			q.shift = 30 - sh;
		}
	}
	in->q [slot] = q;
	for (int i = 0; i < in->nuser; i ++) in->user [i]->s [slot].q = q.on ? &in->q [slot] : NULL;
	for (int i = 0; i < in->nuser; i ++) { ri_defaults (in->user [i]); ri_phase (in->user [i], RMUTE); }
	for (int i = 0; i < in->nuser; i ++) rtrack_event_reset (in->user [i]->track);
	return 0;
}

/* --------------------------------------------------------------- tracks */
enum { TF_VOL = 1, TF_NOTE = 2, TF_DUTY = 4 };
typedef struct { int divider, counter; } RTDiv;
struct RTrack {
	RUnit u;
	RDiv div;
	int dirty, pan2, tri, ignvol;        /* panning enabled, triangle ignores volume, volume ignored */
	RTDiv darp, dins, deff;
	int wave, duty, master, cur, pitch, spitch;
	RSlide vol, pan, note;
	RInterval trem, vib;
	RSlide tremd, trems, vibd, vibs;
	int fx [5];                          /* volume slide, panning slide, portamento, tremolo, vibrato on */
	int arp [8], arpn, arpo, arpd;
	RIState is;
};
static int rtdiv (RTDiv *d) { int t = d->counter == 0; if (t) d->counter = d->divider; d->counter --; return t; }

static void rtrack_update_volume (RTrack *t)
{
	int v = rslide_get (&t->vol), p = rslide_get (&t->pan);
	if (t->ignvol && v) v = RMAXV;
	if (t->is.in) {
		int s = t->is.s [0].value;
		if (!t->ignvol || !s) v = rmul (v, s) >> 15;
		p += t->is.s [1].value;
	}
	if (t->fx [3] && !t->ignvol) v = rmul (v, RMAXV - abs (rint_get (&t->trem))) >> 15;
	v = rclamp (v, 0, RMAXV) * t->master >> 15;
	if (t->pan2 && p) {
		p = rclamp (p, -RMAXV, RMAXV);
		runit_set_attr (&t->u, BK_VOLUME_0, p > 0 ? (RMAXV - p) * v >> 15 : v);
		runit_set_attr (&t->u, BK_VOLUME_1, p < 0 ? (RMAXV + p) * v >> 15 : v);
	}
	else runit_set_attr (&t->u, BK_VOLUME, v);
}
static void rtrack_update_note (RTrack *t)
{
	if (!t->u.ctx) return;
	int n = rslide_get (&t->note);
	if (t->arpn) n = radd (n, t->arpd);
	if (t->fx [4]) n = radd (n, rint_get (&t->vib));
	if (t->is.in) n = radd (n, t->is.s [2].value);
	n = radd (n, t->pitch);
	if (t->wave != BK_SAMPLE) {
		int k = t->u.count < 64 ? t->u.count : 64;
		runit_set_attr (&t->u, BK_PERIOD, (int) ((t->u.real ? BKTonePeriodLookup (n, t->u.ctx->rate) : rtone_period (n, t->u.ctx->rate)) / k));
	}
	else runit_set_attr (&t->u, BK_SAMPLE_PERIOD, t->u.real ? BKLog2PeriodLookup (radd (n, t->spitch)) : rlog_period (radd (n, t->spitch)));
}
static void rtrack_update (RTrack *t)
{
	int d = t->dirty;
	t->dirty = 0;
	if (d & TF_VOL) rtrack_update_volume (t);
	if (d & TF_NOTE) rtrack_update_note (t);
	if (d & TF_DUTY) runit_set_attr (&t->u, BK_DUTY_CYCLE, t->is.in && t->is.s [3].value ? t->is.s [3].value : t->duty);
}
static void rtrack_run (RTrack *t, int64_t end) { rtrack_update (t); runit_run (&t->u, end); }
static void rtrack_instr_dirty (RTrack *t)
{
	if (t->is.s [0].q || t->is.s [1].q) t->dirty |= TF_VOL;
	if (t->is.s [2].q) t->dirty |= TF_NOTE;
	if (t->is.s [3].q) t->dirty |= TF_DUTY;
}
static void rtrack_ignvol (RTrack *t) { t->ignvol = t->tri && t->wave == BK_TRIANGLE; t->dirty |= TF_VOL; }
static void rtrack_initvals (RTrack *t) { if (t->is.in && t->is.s [3].q) rq_value (&t->is.s [3], t->duty); }
static void rtrack_attack (RTrack *t)
{
	rtrack_initvals (t);
	t->dins.counter = 0;
	ri_phase (&t->is, RATTACK);
	rtrack_instr_dirty (t);
}
static void rtrack_note (RTrack *t, int n)
{
	if (n >= 0) {
		int fresh = t->cur == -1;
		n = rclamp (n, 0, RNOTEMAX);
		rslide_value (&t->note, n);
		if (fresh) {
			rslide_halt (&t->note, 1);
			if (t->is.in) rtrack_attack (t);
			t->arpo = t->darp.counter = 0;
			t->arpd = t->arpn ? t->arp [0] : 0;
			if (t->wave == BK_SAMPLE) runit_set_attr (&t->u, BK_PHASE, -1);
		}
		t->cur = n;
		runit_set_attr (&t->u, BK_MUTE, 0);
		runit_set_attr (&t->u, BK_FLAG_RELEASE, 0);
	}
	else if (n == BK_NOTE_RELEASE) {
		t->cur = -1;
		if (t->is.in) {
			ri_phase (&t->is, RRELEASE);
			rtrack_instr_dirty (t);
			runit_set_attr (&t->u, BK_FLAG_RELEASE, 1);
		}
		else if (t->u.s.hassus) runit_set_attr (&t->u, BK_FLAG_RELEASE, 1);
		else { rslide_halt (&t->note, 0); runit_set_attr (&t->u, BK_MUTE, 1); }
	}
	else if (n == BK_NOTE_MUTE) {
		t->cur = -1;
		rslide_halt (&t->note, 1);
		if (t->is.in) { ri_phase (&t->is, RMUTE); rtrack_instr_dirty (t); }
		runit_set_attr (&t->u, BK_MUTE, 1);
		runit_set_attr (&t->u, BK_FLAG_RELEASE, 0);
	}
	t->dirty |= TF_NOTE;
}
static void rtrack_event_mute (RTrack *t) { rtrack_note (t, BK_NOTE_MUTE); }
static void rtrack_event_reset (RTrack *t) { t->dirty |= TF_VOL | TF_NOTE | TF_DUTY; rtrack_update (t); }
static void rtrack_instr (RTrack *t, RInstr *in)
{
	if (in != t->is.in) {
		ri_set (&t->is, in);
		if (in) {
			t->dins.counter = 0;
			rtrack_initvals (t);
			if (t->cur == -1) { ri_phase (&t->is, RMUTE); rtrack_instr_dirty (t); }
			else rtrack_attack (t);
		}
		else if (t->cur == -1) rtrack_note (t, BK_NOTE_MUTE);
	}
	t->dirty |= TF_VOL | TF_NOTE | TF_DUTY;
}
static void rinstr_dispose (RInstr *in)
{
	while (in->nuser) rtrack_instr (in->user [0]->track, NULL);
	memset (in, 0, sizeof *in);
}
static int rtrack_tick (void *user, int divider)
{
	RTrack *t = user;
	if (t->fx [2] || t->fx [4]) t->dirty |= TF_NOTE;
	if (t->fx [0] || t->fx [1] || t->fx [3]) t->dirty |= TF_VOL;
	if (t->arpn && rtdiv (&t->darp)) {
		t->arpd = t->arp [t->arpo ++];
		if (t->arpo >= t->arpn) t->arpo = 0;
		t->dirty |= TF_NOTE;
	}
	if (t->is.in) {
		ri_tick (&t->is, rtdiv (&t->dins));
		rtrack_instr_dirty (t);
	}
	rtrack_update (t);
	if ((t->fx [0] || t->fx [1] || t->fx [2] || t->fx [3] || t->fx [4]) && rtdiv (&t->deff)) {
		if (t->fx [2]) rslide_tick (&t->note);
		if (t->fx [0]) rslide_tick (&t->vol);
		if (t->fx [1]) rslide_tick (&t->pan);
		if (t->fx [3]) {
			if (t->tremd.steps) { rslide_tick (&t->tremd); rslide_tick (&t->trems); rint_set (&t->trem, rslide_get (&t->tremd), rslide_get (&t->trems)); }
			rint_tick (&t->trem);
		}
		if (t->fx [4]) {
			if (t->vibd.steps) { rslide_tick (&t->vibd); rslide_tick (&t->vibs); rint_set (&t->vib, rslide_get (&t->vibd), rslide_get (&t->vibs)); }
			rint_tick (&t->vib);
		}
	}
	return divider;
}
static int rtrack_set_effect (RTrack *t, int fx, const int *in, int n);
static int rtrack_set_attr (RTrack *t, int attr, int v)
{
	int r;
	switch (attr) {
		case BK_MASTER_VOLUME: t->master = rclamp (v, 0, RMAXV); t->dirty |= TF_VOL; return 0;
		case BK_VOLUME: rslide_value (&t->vol, rclamp (v, 0, RMAXV)); t->dirty |= TF_VOL; return 0;
		case BK_PANNING: rslide_value (&t->pan, rclamp (v, -RMAXV, RMAXV)); t->dirty |= TF_VOL; return 0;
		case BK_WAVEFORM:
			r = runit_set_attr (&t->u, attr, v);
			if (r == 0) { t->wave = t->u.wave; rtrack_ignvol (t); rtrack_update_note (t); }
			return r;
		case BK_DUTY_CYCLE:
			runit_set_attr (&t->u, attr, v);
			t->duty = t->u.duty;
			t->dirty |= TF_DUTY;
			return 0;
		case BK_NOTE: rtrack_note (t, v); return 0;
		case BK_PITCH: t->pitch = rclamp (v, RPITCHMIN, RPITCHMAX); t->dirty |= TF_NOTE; return 0;
		case BK_SAMPLE_PITCH: t->spitch = rclamp (v, RPITCHMIN, RPITCHMAX); t->dirty |= TF_NOTE; return 0;
		case BK_ARPEGGIO_DIVIDER: t->darp = (RTDiv) { v > 1 ? v : 1, 0 }; return 0;
		case BK_EFFECT_DIVIDER: t->deff = (RTDiv) { v > 1 ? v : 1, 0 }; return 0;
		case BK_INSTRUMENT_DIVIDER: t->dins = (RTDiv) { v > 1 ? v : 1, 0 }; return 0;
		case BK_TRIANGLE_IGNORES_VOLUME: t->tri = v != 0; rtrack_ignvol (t); return 0;
		case BK_EFFECT_VOLUME_SLIDE: case BK_EFFECT_PANNING_SLIDE: case BK_EFFECT_PORTAMENTO: return rtrack_set_effect (t, attr, &v, 1);
	}
	return runit_set_attr (&t->u, attr, v);
}
static int rtrack_set_effect (RTrack *t, int fx, const int *in, int n)
{
	int v [3] = { 0, 0, 0 };
	for (int i = 0; in && i < n && i < 3; i ++) v [i] = in [i];
	int steps = rclamp (v [0], 0, 1 << 16), slide = rclamp (v [2], 0, 1 << 16), d = v [1];
	switch (fx) {
		case BK_EFFECT_VOLUME_SLIDE: rslide_steps (&t->vol, steps); t->dirty |= TF_VOL; break;
		case BK_EFFECT_PANNING_SLIDE: rslide_steps (&t->pan, steps); t->dirty |= TF_VOL; break;
		case BK_EFFECT_PORTAMENTO: rslide_steps (&t->note, steps); t->dirty |= TF_NOTE; break;
		case BK_EFFECT_TREMOLO:
			d = rclamp (d, 0, RMAXV);
			rslide_set (&t->tremd, d, slide); rslide_set (&t->trems, steps, slide);
			if (!slide) rint_set (&t->trem, d, steps);
			t->dirty |= TF_VOL;
			break;
		case BK_EFFECT_VIBRATO:
			rslide_set (&t->vibd, d, slide); rslide_set (&t->vibs, steps, slide);
			if (!slide) rint_set (&t->vib, d, steps);
			t->dirty |= TF_NOTE;
			break;
		default: return BK_INVALID_ATTRIBUTE;
	}
	t->fx [fx - BK_EFFECT_VOLUME_SLIDE] = v [0] != 0;
	return 0;
}
static int rtrack_get_effect (const RTrack *t, int fx, int *v)
{
	v [0] = v [1] = v [2] = 0;
	switch (fx) {
		case BK_EFFECT_VOLUME_SLIDE: v [0] = t->vol.steps; return 0;
		case BK_EFFECT_PANNING_SLIDE: v [0] = t->pan.steps; return 0;
		case BK_EFFECT_PORTAMENTO: v [0] = t->note.steps; return 0;
		case BK_EFFECT_TREMOLO: v [0] = t->trems.end >> t->trems.shift; v [1] = t->tremd.end >> t->tremd.shift; v [2] = t->tremd.steps; return 0;
		case BK_EFFECT_VIBRATO: v [0] = t->vibs.end >> t->vibs.shift; v [1] = t->vibd.end >> t->vibd.shift; v [2] = t->vibd.steps; return 0;
	}
	return BK_INVALID_ATTRIBUTE;
}
static int rtrack_get_attr (const RTrack *t, int attr, int *v)
{
	int e [3];
	switch (attr) {
		case BK_MASTER_VOLUME: *v = t->master; return 0;
		case BK_VOLUME: *v = t->vol.end >> t->vol.shift; return 0;
		case BK_PANNING: *v = t->pan.end >> t->pan.shift; return 0;
		case BK_NOTE: *v = t->cur; return 0;
		case BK_PITCH: *v = t->pitch; return 0;
		case BK_SAMPLE_PITCH: *v = t->spitch; return 0;
		case BK_ARPEGGIO_DIVIDER: *v = t->darp.divider; return 0;
		case BK_EFFECT_DIVIDER: *v = t->deff.divider; return 0;
		case BK_INSTRUMENT_DIVIDER: *v = t->dins.divider; return 0;
		case BK_TRIANGLE_IGNORES_VOLUME: *v = t->tri; return 0;
		case BK_EFFECT_VOLUME_SLIDE: case BK_EFFECT_PANNING_SLIDE: case BK_EFFECT_PORTAMENTO:
			rtrack_get_effect (t, attr, e); *v = e [0]; return 0;
	}
	return runit_get_attr (&t->u, attr, v);
}
/* type: BK_WAVEFORM or BK_SAMPLE */
static int rtrack_set_data (RTrack *t, int type, RData *d)
{
	if (!(type == BK_SAMPLE && t->u.wave == BK_SAMPLE && d == t->u.data)) {
		int r = runit_set_data (&t->u, type, d);
		if (r) return r;
	}
	t->wave = t->u.wave;
	rtrack_ignvol (t);
	t->spitch = t->u.data ? t->u.data->pitch : 0;
	rtrack_update_note (t);
	return 0;
}
static void rtrack_arpeggio (RTrack *t, const int *a)       /* a [0]: number of notes */
{
	t->arpn = a ? rclamp (a [0], 0, 8) : 0;
	if (t->arpo >= t->arpn) t->arpo = 0;
	if (!t->arpn) t->arpd = 0;
	for (int i = 0; i < t->arpn; i ++) t->arp [i] = a [i + 1];
	t->dirty |= TF_NOTE;
}
static void rtrack_clear (RTrack *t)
{
	runit_clear (&t->u);
	rtrack_instr (t, NULL);
	memset (t->fx, 0, sizeof t->fx);
	memset (t->arp, 0, sizeof t->arp);
	t->arpn = t->arpo = t->arpd = 0;
	t->dirty = 0;
	t->spitch = t->pitch = 0;
	memset (&t->is, 0, sizeof t->is);
	t->is.track = t;
	t->darp = (RTDiv) { 4, 0 }; t->dins = (RTDiv) { 4, 0 }; t->deff = (RTDiv) { 1, 0 };
	rslide_init (&t->vol, RMAXV); rslide_init (&t->pan, RMAXV); rslide_init (&t->note, 0);
	rint_init (&t->trem, RMAXV); rslide_init (&t->tremd, RMAXV); rslide_init (&t->trems, 1 << 16);
	rint_init (&t->vib, 0); rslide_init (&t->vibd, 0); rslide_init (&t->vibs, 1 << 16);
	rtrack_set_attr (t, BK_VOLUME, RMAXV);
	rtrack_set_attr (t, BK_MASTER_VOLUME, t->master);
	/* memset cleared the waveform before it is set again: fails for sample and custom */
	{ int w = t->wave; t->wave = 0; rtrack_set_attr (t, BK_WAVEFORM, w); }
	rtrack_set_attr (t, BK_DUTY_CYCLE, t->duty);
	rtrack_set_attr (t, BK_NOTE, BK_NOTE_MUTE);
	runit_set_attr (&t->u, BK_MUTE, 1);
}
static void rtrack_reset (RTrack *t)
{
	runit_reset (&t->u);
	rtrack_set_attr (t, BK_DUTY_CYCLE, 4);
	rtrack_clear (t);
}
static void rtrack_init (RTrack *t, int wave)
{
	memset (t, 0, sizeof *t);
	runit_init (&t->u, wave);
	t->u.track = t;
	t->is.track = t;
	t->tri = 1;
	rtrack_set_attr (t, BK_WAVEFORM, wave);
	rtrack_reset (t);
	rdiv_init (&t->div, 1, rtrack_tick, t);
}
static int rtrack_attach (RTrack *t, RCtx *c)
{
	int r = runit_attach (&t->u, c);
	if (r) return r;
	rctx_attach_div (c, &t->div, BK_CLOCK_TYPE_EFFECT);
	t->pan2 = c->nch == 2;
	t->dirty |= TF_VOL | TF_NOTE;
	rtrack_update (t);
	return 0;
}
static void rtrack_detach (RTrack *t) { rdiv_detach (&t->div); runit_detach (&t->u); t->pan2 = 0; }
static void rtrack_dispose (RTrack *t)
{
	ri_set (&t->is, NULL);
	rtrack_detach (t);
	rdata_drop (&t->u);
}
static void rctx_dispose (RCtx *c)
{
	while (c->nunit) runit_detach (c->unit [0]);
	while (c->nclock) rclock_detach (c->clock [0]);
	while (c->nbeat) rdiv_detach (c->beat [0]);
	while (c->neff) rdiv_detach (c->eff [0]);
	rctx_free (c);
}
#endif
