/*
 * A world holds contexts, tracks, plain units, instruments, data, clocks and
 * dividers and runs the same script in one of several modes:
 *   LIB   everything is the library
 *   REF   everything is the reference synthesizer of ref.h
 *   PUP   tracks and instruments are the reference, driving units, clocks and
 *         buffers of the library: isolates the behaviour of tracks
 * Everything observed (status codes, attribute values, callbacks, PCM) is
 * logged; the logs of two runs of a script are compared afterwards.
 * A script takes its decisions through w_choose: asked of the explorer in the
 * first run, repeated in the following runs.
 */
#ifndef WORLD_H
#define WORLD_H
#define _GNU_SOURCE
#include "ref.h"
#include "BKUnit_internal.h"

enum { LIB, REF, PUP };
#ifndef W_NT
#define W_NT 12
#endif
enum { NC = 2, NT = W_NT, NI = 4, ND = 4, NK = 5, NV = 6, MAXPCM = 1 << 19, MAXEV = 1 << 16 };
typedef struct { uint16_t c [256]; int n, recorded; } Tape;
typedef struct { int kind, a, b; int64_t v; } Ev;
enum { E_RET = 1, E_GET = 2, E_CLOCK = 4, E_DIV = 8, E_SAMPLE = 16, E_GEN = 32, E_USER = 64, E_ALL = 127 };
static const char *EvName (int k) { return k == E_RET ? "status of operation" : k == E_GET ? "value of attribute" : k == E_CLOCK ? "tick of clock" : k == E_DIV ? "tick of divider" : k == E_SAMPLE ? "sample callback of track" : k == E_GEN ? "frames generated" : "value"; }

typedef struct World World;
typedef struct { World *w; int i, n; } Who;          /* callback user data; n: calls so far */
typedef struct { int live, unit; BKTrack *t; BKUnit *u, *pu; RTrack r; RUnit ru; BKDivider pd; Who who; int ret [8], nret; } Trk;
struct World {
	int mode, quiet, fill, alloc, typed, nocb;          /* nocb: clocks (bits 0 to 7) and dividers (8 to 15) without a function */
	Tape *tape; int pos;
	Ev *ev; int nev;
	int16_t *pcm [NC]; int n [NC];             /* frames generated */
	int nch [NC], rate [NC];
	BKContext *c [NC]; RCtx rc [NC];
	Trk t [NT];
	BKInstrument *in [NI]; RInstr ri [NI];
	BKData *d [ND]; RData rd [ND];
	BKClock *k [NK]; RClock rk [NK]; Who wk [NK]; int64_t kret [NK];
	BKDivider *v [NV]; RDiv rv [NV]; Who wv [NV]; int vret [NV];
	void (*on_clock) (World *w, int i, int n);
	void (*on_div) (World *w, int i, int n);
	int (*on_sample) (World *w, int i, int event, int n);
	int var;                                   /* variant of the script */
	uint64_t ops;
};
#define RC(w) ((w)->mode == REF)                /* contexts, clocks, units, data are the reference */
#define RT(w) ((w)->mode != LIB)                /* tracks and instruments are the reference */

static World W [4];
static Tape TapeMain;

static void w_log (World *w, const char *fmt, ...)
{
	char b [300];
	va_list a;
	w->ops ++;
	if (w->quiet || !mc_replaying ()) return;
	va_start (a, fmt); vsnprintf (b, sizeof b, fmt, a); va_end (a);
	mc_log ("%s", b);
}
static int w_choose (World *w, int n)
{
	Tape *t = w->tape;
	if (w->pos < t->n) return t->c [w->pos ++];
	if (t->recorded) mc_harness_error ("script asks for more decisions than recorded");
	if (t->n >= 256) mc_harness_error ("tape too short");
	t->c [t->n ++] = mc_choose (n);
	return t->c [w->pos ++];
}
static void w_ev (World *w, int kind, int a, int b, int64_t v)
{
	if (w->nev >= MAXEV) { if (w->mode == REF) mc_harness_error ("too many events"); mc_fail ("too-many-events", "more events (ticks, values, frames) than there can be in this history"); }
	if (mc_replaying () && getenv ("MC_EVENTS")) mc_log ("    [%d] %s %d %d: %lld", w->mode, EvName (kind), a, b, (long long) v);
	w->ev [w->nev ++] = (Ev) { kind, a, b, v };
}
static int w_ret (World *w, int a, int r) { w_ev (w, E_RET, a, 0, r); return r; }

/* ---------------------------------------------------- memory of objects */
static void *w_obj (World *w, size_t n)
{
	char *p = mc_raw_malloc (n);
	memset (p, w->fill, n);
	return p;
}
static void w_forget (World *w)
{
	for (int i = 0; i < NC; i ++) { rctx_free (&w->rc [i]); w->pcm [i] = NULL; }
	if (!w->alloc) {
		for (int i = 0; i < NC; i ++) mc_raw_free (w->c [i]);
		for (int i = 0; i < NT; i ++) { mc_raw_free (w->t [i].t); mc_raw_free (w->t [i].u); mc_raw_free (w->t [i].pu); }
		for (int i = 0; i < NI; i ++) mc_raw_free (w->in [i]);
		for (int i = 0; i < ND; i ++) mc_raw_free (w->d [i]);
		for (int i = 0; i < NK; i ++) mc_raw_free (w->k [i]);
		for (int i = 0; i < NV; i ++) mc_raw_free (w->v [i]);
	}
}
static World *w_new (int slot, int mode, Tape *tape)
{
	World *w = &W [slot];
	static int used [4];
	if (used [slot]) w_forget (w);         /* left by an aborted execution */
	used [slot] = 1;
	memset (w, 0, sizeof *w);
	w->mode = mode; w->tape = tape; w->quiet = slot != 0;
	static Ev *ev [4];                     /* kept between executions */
	if (!ev [slot]) ev [slot] = mc_raw_malloc (MAXEV * sizeof **ev);
	w->ev = ev [slot];
	rtone_init ();
	return w;
}
static int16_t *w_pcm (World *w, int c, int n)
{
	static int16_t *pcm [4][NC];           /* kept between executions */
	if (!w->pcm [c]) {
		int16_t **p = &pcm [w - W][c];
		if (!*p) *p = mc_raw_malloc (MAXPCM * 8 * sizeof (int16_t));
		w->pcm [c] = *p;
	}
	if (w->n [c] + n > MAXPCM) mc_harness_error ("too many frames");
	return w->pcm [c] + w->n [c] * w->nch [c];
}

/* ------------------------------------------------------------- contexts */
static void w_ctx (World *w, int c, int nch, int rate)
{
	w_log (w, "context %d: init, %d channels, %d Hz", c, nch, rate);
	if (w->pcm [c] && w->nch [c] != nch) { w->pcm [c] = NULL; w->n [c] = 0; }
	w->nch [c] = nch; w->rate [c] = rate;
	if (RT (w)) rctx_init (&w->rc [c], nch, rate);
	if (RC (w)) { w_ret (w, 1, 0); return; }
	if (w->alloc) { w_ret (w, 1, BKContextAlloc (&w->c [c], nch, rate)); return; }
	if (!w->c [c]) w->c [c] = w_obj (w, sizeof (BKContext));
	w_ret (w, 1, BKContextInit (w->c [c], nch, rate));
}
static void w_ctx_dispose (World *w, int c)
{
	w_log (w, "context %d: dispose", c);
	if (RT (w)) rctx_dispose (&w->rc [c]);
	if (!RC (w)) { BKDispose (w->c [c]); if (w->alloc) w->c [c] = NULL; }
}
static void w_ctx_reset (World *w, int c)
{
	w_log (w, "context %d: reset", c);
	if (RC (w)) rctx_reset (&w->rc [c]); else BKContextReset (w->c [c]);
}
static void w_kernel (World *w, int c, int k)
{
	w_log (w, "context %d: kernel %d", c, k);
	if (RC (w)) w->rc [c].kernel = BKBufferPulseKernels [k]->frames;
	else w_ret (w, 2, BKSetPtr (w->c [c], BK_PULSE_KERNEL, (void *) BKBufferPulseKernels [k], sizeof (void *)));
	if (RC (w)) w_ret (w, 2, 0);
}
static void w_master (World *w, int c, int64_t period)
{
	w_log (w, "context %d: clock period %lld", c, (long long) period);
	BKTime t = period;
	if (RC (w)) { if (period > 0) w->rc [c].master.period = period; w_ret (w, 3, period > 0 ? 0 : BK_INVALID_VALUE); }
	else w_ret (w, 3, BKSetPtr (w->c [c], BK_CLOCK_PERIOD, &t, sizeof t));
}
static int64_t w_time (World *w, int c)
{
	BKTime t = 0;
	if (RC (w)) return w->rc [c].now;
	BKGetPtr (w->c [c], BK_TIME, &t, sizeof t);
	return t;
}
static int w_gen (World *w, int c, int n)
{
	int16_t *p = w_pcm (w, c, n);
	w_log (w, "context %d: generate %d frames", c, n);
	int r = RC (w) ? rctx_generate (&w->rc [c], p, n) : BKContextGenerate (w->c [c], p, n);
	if (r > n) mc_fail ("too-many-frames", "%d frames delivered instead of %d", r, n);
	w_ev (w, E_GEN, c, 0, r);
	if (r > 0) w->n [c] += r;
	return r;
}
static struct { World *w; int c, fail, calls; int64_t bad; } WriteTo;
static BKInt w_write (BKFrame f [], BKUInt n, void *user)
{
	World *w = WriteTo.w;
	int16_t *p = w_pcm (w, WriteTo.c, n);
	if (user != &WriteTo) mc_fail ("callback-argument", "write callback got another argument");
	if (++ WriteTo.calls == WriteTo.fail) return 1;
	memcpy (p, f, n * w->nch [WriteTo.c] * sizeof *f);
	w->n [WriteTo.c] += n;
	return 0;
}
/* fail: number of the write call which returns an error, 0 none */
static int w_gento (World *w, int c, int64_t to, int fail)
{
	int r;
	w_log (w, "context %d: generate to time %lld + %lld/%d%s", c, (long long) (to >> 20), (long long) (to & RFRAC), (int) RUNIT, fail ? ", write fails" : "");
	WriteTo.w = w; WriteTo.c = c; WriteTo.fail = fail; WriteTo.calls = 0;
	if (RC (w)) {
		int n = (int) ((to >> 20) + 64);
		r = rctx_generate_to (&w->rc [c], to, w_pcm (w, c, n), n);
		w->n [c] += r;
	}
	else r = BKContextGenerateToTime (w->c [c], (BKTime) to, w_write, &WriteTo);
	w_ev (w, E_GEN, c, 1, r);
	return r;
}

/* ------------------------------------------------------ data and samples */
static void w_data_init (World *w, int d)
{
	if (RT (w)) memset (&w->rd [d], 0, sizeof w->rd [d]);
	if (RC (w)) return;
	if (w->alloc) { if (BKDataAlloc (&w->d [d])) mc_fail ("data-init", "data could not be allocated"); }
	else {
		if (!w->d [d]) w->d [d] = w_obj (w, sizeof (BKData));
		if (BKDataInit (w->d [d])) mc_fail ("data-init", "data could not be initialized");
	}
	w->rd [d].real = w->d [d];
}
/* frames must stay valid; they are referenced by the reference */
static void w_data_frames (World *w, int d, const int16_t *f, int nf, int ch, int copy)
{
	int r = 0;
	w_log (w, "data %d: set %d frames, %d channels", d, nf, ch);
	if (!RC (w)) r = BKDataSetFrames (w->d [d], f, nf, ch, copy);
	else r = nf < 2 ? BK_INVALID_NUM_FRAMES : 0;
	w_ret (w, 4, r);
	if (RT (w) && r == 0) { w->rd [d].f = f; w->rd [d].nf = nf; w->rd [d].ch = ch; rdata_notify (&w->rd [d], 0); }
}
static void w_data_pitch (World *w, int d, int pitch)
{
	w_log (w, "data %d: pitch %d", d, pitch);
	if (!RC (w)) w_ret (w, 5, BKSetAttr (w->d [d], BK_SAMPLE_PITCH, pitch)); else w_ret (w, 5, 0);
	if (RT (w)) w->rd [d].pitch = pitch;
}
static void w_data_dispose (World *w, int d)
{
	w_log (w, "data %d: dispose", d);
	if (!RC (w)) { BKDispose (w->d [d]); if (w->alloc) w->d [d] = NULL; }
	if (RT (w)) rdata_notify (&w->rd [d], 1);
}

/* ----------------------------------------------------------- instruments */
static void w_instr_init (World *w, int i)
{
	if (RT (w)) memset (&w->ri [i], 0, sizeof w->ri [i]);
	else if (w->alloc) { if (BKInstrumentAlloc (&w->in [i])) mc_fail ("instrument-init", "instrument could not be allocated"); }
	else {
		if (!w->in [i]) w->in [i] = w_obj (w, sizeof (BKInstrument));
		if (BKInstrumentInit (w->in [i])) mc_fail ("instrument-init", "instrument could not be initialized");
	}
}
static void w_seq (World *w, int i, int slot, const int *v, int n, int s0, int sn)
{
	int r;
	w_log (w, "instrument %d: sequence %d: %d values (%d %d %d..), sustain offset %d, length %d", i, slot, n, n > 0 && v ? v [0] : 0, n > 1 && v ? v [1] : 0, n > 2 && v ? v [2] : 0, s0, sn);
	if (RT (w)) r = rinstr_set (&w->ri [i], slot, 0, v, n, s0, sn);
	else r = BKInstrumentSetSequence (w->in [i], slot, v, n, s0, sn);
	w_ret (w, 6, r);
}
/* v: pairs of steps and value */
static void w_env (World *w, int i, int slot, const int *v, int n, int s0, int sn)
{
	int r;
	BKSequencePhase p [128];
	if (n > 128) mc_harness_error ("envelope too long");
	w_log (w, "instrument %d: envelope %d: %d points, sustain offset %d, length %d", i, slot, n, s0, sn);
	for (int k = 0; v && k < n; k ++) { p [k].steps = v [2 * k]; p [k].value = v [2 * k + 1]; w_log (w, "  %d steps to %d", v [2 * k], v [2 * k + 1]); }
	if (RT (w)) r = rinstr_set (&w->ri [i], slot, 1, v, n, s0, sn);
	else r = BKInstrumentSetEnvelope (w->in [i], slot, v ? p : NULL, n, s0, sn);
	w_ret (w, 7, r);
}
static void w_adsr (World *w, int i, int a, int d, int s, int r)
{
	int e [] = { a, RMAXV, d, s, 240, s, r, 0 };
	w_log (w, "instrument %d: ADSR %d %d %d %d", i, a, d, s, r);
	if (RT (w)) w_ret (w, 8, rinstr_set (&w->ri [i], 0, 1, e, 4, 2, 1));
	else w_ret (w, 8, BKInstrumentSetEnvelopeADSR (w->in [i], a, d, s, r));
}
static void w_instr_dispose (World *w, int i)
{
	w_log (w, "instrument %d: dispose", i);
	if (RT (w)) rinstr_dispose (&w->ri [i]);
	else { BKDispose (w->in [i]); if (w->alloc) w->in [i] = NULL; }
}

/* ------------------------------------------------------ tracks and units */
static BKEnum w_sample_event (BKCallbackInfo *info, void *user)
{
	Who *a = user;
	w_ev (a->w, E_SAMPLE, a->i, 0, info->event);
	return a->w->on_sample ? a->w->on_sample (a->w, a->i, info->event, a->n ++) : 0;
}
static int w_sample_event_ref (void *user, int event)
{
	Who *a = user;
	w_ev (a->w, E_SAMPLE, a->i, 0, event);
	return a->w->on_sample ? a->w->on_sample (a->w, a->i, event, a->n ++) : 0;
}
static BKInt w_pup_run (void *unit, BKFUInt20 end)
{
	for (int s = 0; s < 4; s ++) for (int i = 0; i < NT; i ++) if (W [s].t [i].pu == unit) rtrack_update (&W [s].t [i].r);
	return BKUnitRun (unit, end);
}
static void w_pup_reset (void *unit)
{
	for (int s = 0; s < 4; s ++) for (int i = 0; i < NT; i ++) if (W [s].t [i].pu == unit) rtrack_reset (&W [s].t [i].r);
}
static BKEnum w_pup_tick (BKCallbackInfo *info, void *user) { rtrack_tick (user, 1); return 0; }

/* object attributes are set on */
static void *w_o (World *w, int i) { return w->t [i].unit ? (void *) w->t [i].u : (void *) w->t [i].t; }
static RUnit *w_ru (World *w, int i) { return w->t [i].unit ? &w->t [i].ru : &w->t [i].r.u; }
#define REFT(w, i) ((w)->t [i].unit ? RC (w) : RT (w))

static void w_track (World *w, int i, int wave)
{
	Trk *t = &w->t [i];
	w_log (w, "track %d: init, waveform %d", i, wave ? wave - BK_WAVEFORM_TYPE : 0);
	t->unit = 0; t->live = 1;
	t->who = (Who) { w, i, 0 };
	if (w->mode == LIB) {
		if (w->alloc) { w_ret (w, 10, BKTrackAlloc (&t->t, wave)); return; }
		if (!t->t) t->t = w_obj (w, sizeof (BKTrack));
		w_ret (w, 10, BKTrackInit (t->t, wave));
		return;
	}
	if (w->mode == PUP) {
		BKCallback cb = { w_pup_tick, &t->r };
		if (!t->pu) t->pu = w_obj (w, sizeof (BKUnit));
		BKUnitInit (t->pu, wave);
		t->pu->run = (void *) w_pup_run; t->pu->reset = (void *) w_pup_reset;
		BKDividerInit (&t->pd, 1, &cb);
	}
	RRealUnit = t->pu;
	rtrack_init (&t->r, wave);
	RRealUnit = NULL;
	w_ret (w, 10, 0);
}
static void w_unit (World *w, int i, int wave)
{
	Trk *t = &w->t [i];
	w_log (w, "unit %d: init, waveform %d", i, wave ? wave - BK_WAVEFORM_TYPE : 0);
	t->unit = t->live = 1;
	t->who = (Who) { w, i, 0 };
	if (RC (w)) runit_init (&t->ru, wave);
	else {
		if (!t->u) t->u = w_obj (w, sizeof (BKUnit));
		BKUnitInit (t->u, wave);
	}
}
static int w_attach (World *w, int i, int c)
{
	Trk *t = &w->t [i];
	int r;
	w_log (w, "track %d: attach to context %d", i, c);
	if (t->unit) r = RC (w) ? runit_attach (&t->ru, &w->rc [c]) : BKUnitAttach (t->u, w->c [c]);
	else if (w->mode == LIB) r = BKTrackAttach (t->t, w->c [c]);
	else if (w->mode == REF) r = rtrack_attach (&t->r, &w->rc [c]);
	else {
		r = BKUnitAttach (t->pu, w->c [c]);
		if (r == 0) {
			runit_attach (&t->r.u, &w->rc [c]);
			BKContextAttachDivider (w->c [c], &t->pd, BK_CLOCK_TYPE_EFFECT);
			t->r.pan2 = w->rc [c].nch == 2;
			t->r.dirty |= TF_VOL | TF_NOTE;
			rtrack_update (&t->r);
		}
	}
	return w_ret (w, 11, r);
}
static void w_detach (World *w, int i)
{
	Trk *t = &w->t [i];
	w_log (w, "track %d: detach", i);
	if (t->unit) { if (RC (w)) runit_detach (&t->ru); else BKUnitDetach (t->u); }
	else if (w->mode == LIB) BKTrackDetach (t->t);
	else {
		rtrack_detach (&t->r);
		if (w->mode == PUP) { BKDividerDetach (&t->pd); BKUnitDetach (t->pu); }
	}
}
static void w_clear (World *w, int i)
{
	w_log (w, "track %d: clear", i);
	if (w->mode == LIB) BKTrackClear (w->t [i].t); else rtrack_clear (&w->t [i].r);
}
static void w_reset (World *w, int i)
{
	w_log (w, "track %d: reset", i);
	if (w->mode == LIB) BKTrackReset (w->t [i].t); else rtrack_reset (&w->t [i].r);
}
static void w_dispose (World *w, int i)
{
	Trk *t = &w->t [i];
	w_log (w, "track %d: dispose", i);
	t->live = 0;
	if (t->unit) { if (RC (w)) { rdata_drop (&t->ru); runit_detach (&t->ru); } else { BKDispose (t->u); } }
	else if (w->mode == LIB) { BKDispose (t->t); if (w->alloc) t->t = NULL; }
	else {
		rtrack_dispose (&t->r);
		if (w->mode == PUP) { BKDividerDetach (&t->pd); BKDispose (t->pu); }
	}
}
static int w_set (World *w, int i, int attr, int v)
{
	w_log (w, "track %d: set %s to %d", i, attr_name (attr), v);
	int r = !REFT (w, i) ? (!w->typed ? BKSetAttr (w_o (w, i), attr, v) : w->t [i].unit ? BKUnitSetAttr (w->t [i].u, attr, v) : BKTrackSetAttr (w->t [i].t, attr, v)) : w->t [i].unit ? runit_set_attr (&w->t [i].ru, attr, v) : rtrack_set_attr (&w->t [i].r, attr, v);
	return w_ret (w, 12, r);
}
static int w_get (World *w, int i, int attr)
{
	BKInt v = 0x5a5a5a;
	int r = !REFT (w, i) ? (!w->typed ? BKGetAttr (w_o (w, i), attr, &v) : w->t [i].unit ? BKUnitGetAttr (w->t [i].u, attr, &v) : BKTrackGetAttr (w->t [i].t, attr, &v)) : w->t [i].unit ? runit_get_attr (&w->t [i].ru, attr, &v) : rtrack_get_attr (&w->t [i].r, attr, &v);
	w_ev (w, E_GET, i, attr, r ? r : v);
	return v;
}
static int w_effect (World *w, int i, int fx, const int *v, int n)
{
	w_log (w, "track %d: effect %d: %d %d %d", i, fx - BK_EFFECT_TYPE, v && n > 0 ? v [0] : 0, v && n > 1 ? v [1] : 0, v && n > 2 ? v [2] : 0);
	return w_ret (w, 13, RT (w) ? rtrack_set_effect (&w->t [i].r, fx, v, n) : w->typed ? BKTrackSetEffect (w->t [i].t, fx, v, n * sizeof *v) : BKSetPtr (w->t [i].t, fx, (void *) v, n * sizeof *v));
}
static void w_get_effect (World *w, int i, int fx)
{
	/* into room for all values, less and more: what has no value becomes 0, what is beyond the room stays */
	static const int Room [] = { 3, 1, 2, 0, 6 };
	for (int m = 0; m < 5; m ++) {
		int v [6] = { 77, 77, 77, 77, 77, 77 }, x [3] = { 77, 77, 77 }, r;
		if (RT (w)) {
			r = rtrack_get_effect (&w->t [i].r, fx, x);
			if (!r) for (int k = 0; k < Room [m]; k ++) v [k] = k < 3 ? x [k] : 0;
		}
		else r = BKGetPtr (w->t [i].t, fx, v, Room [m] * sizeof *v);
		w_ev (w, E_GET, i, fx, r);
		for (int k = 0; k < (m ? 6 : 3); k ++) w_ev (w, E_GET, i, fx, v [k]);
	}
}
static int w_arp (World *w, int i, const int *v)
{
	w_log (w, "track %d: arpeggio of %d notes", i, v ? v [0] : -1);
	if (RT (w)) { rtrack_arpeggio (&w->t [i].r, v); return w_ret (w, 14, 0); }
	if (w->typed) return w_ret (w, 14, BKTrackSetPtr (w->t [i].t, BK_ARPEGGIO, (void *) v));
	return w_ret (w, 14, BKSetPtr (w->t [i].t, BK_ARPEGGIO, (void *) v, v ? (v [0] > 0 && v [0] <= 8 ? v [0] + 1 : 9) * sizeof *v : 0));
}
static void w_get_arp (World *w, int i)
{
	int v [9];
	memset (v, 0, sizeof v);
	if (RT (w)) { v [0] = w->t [i].r.arpn; memcpy (v + 1, w->t [i].r.arp, v [0] * sizeof *v); }
	else BKGetPtr (w->t [i].t, BK_ARPEGGIO, v, sizeof v);
	for (int k = 0; k < 9; k ++) w_ev (w, E_GET, i, BK_ARPEGGIO, v [k]);
}
static int w_instr (World *w, int i, int in)
{
	w_log (w, "track %d: set instrument %d", i, in);
	if (RT (w)) { rtrack_instr (&w->t [i].r, in < 0 ? NULL : &w->ri [in]); return w_ret (w, 15, 0); }
	if (w->typed) return w_ret (w, 15, BKTrackSetPtr (w->t [i].t, BK_INSTRUMENT, in < 0 ? NULL : w->in [in]));
	return w_ret (w, 15, BKSetPtr (w->t [i].t, BK_INSTRUMENT, in < 0 ? NULL : w->in [in], sizeof (void *)));
}
static int w_set_ptr (World *w, int i, int attr, void *p, int size)
{
	return !w->typed ? BKSetPtr (w_o (w, i), attr, p, size) : w->t [i].unit ? BKUnitSetPtr (w->t [i].u, attr, p) : BKTrackSetPtr (w->t [i].t, attr, p);
}
/* type: BK_SAMPLE or BK_WAVEFORM */
static int w_data (World *w, int i, int type, int d)
{
	w_log (w, "track %d: set %s to data %d", i, type == BK_SAMPLE ? "sample" : "waveform", d);
	if (REFT (w, i)) {
		RData *rd = d < 0 ? NULL : &w->rd [d];
		return w_ret (w, 16, w->t [i].unit ? runit_set_data (&w->t [i].ru, type, rd) : rtrack_set_data (&w->t [i].r, type, rd));
	}
	return w_ret (w, 16, w_set_ptr (w, i, type, d < 0 ? NULL : w->d [d], sizeof (void *)));
}
static int w_range (World *w, int i, int sustain, int a, int b)
{
	int v [2] = { a, b };
	w_log (w, "track %d: %s range %d .. %d", i, sustain ? "sustain" : "sample", a, b);
	if (REFT (w, i)) return w_ret (w, 17, sustain ? runit_set_sustain (w_ru (w, i), v) : runit_set_range (w_ru (w, i), v));
	return w_ret (w, 17, w_set_ptr (w, i, sustain ? BK_SAMPLE_SUSTAIN_RANGE : BK_SAMPLE_RANGE, v, sizeof v));
}
static void w_get_range (World *w, int i, int sustain)
{
	int v [2] = { -7, -7 };
	RUnit *u = w_ru (w, i);
	if (RC (w)) { v [0] = sustain ? u->s.s0 : u->s.off; v [1] = sustain ? u->s.s1 : u->s.end; }
	else BKGetPtr (w->mode == PUP && !w->t [i].unit ? (void *) w->t [i].pu : w_o (w, i), sustain ? BK_SAMPLE_SUSTAIN_RANGE : BK_SAMPLE_RANGE, v, sizeof v);
	for (int k = 0; k < 2; k ++) w_ev (w, E_GET, i, BK_SAMPLE_RANGE + sustain, v [k]);
}
static void w_sample_cb (World *w, int i, int on)
{
	BKCallback cb = { w_sample_event, &w->t [i].who };
	w_log (w, "track %d: sample callback %s", i, on ? "set" : "removed");
	if (RC (w)) { w_ru (w, i)->cb = on ? w_sample_event_ref : NULL; w_ru (w, i)->user = &w->t [i].who; }
	else BKSetPtr (w->mode == PUP && !w->t [i].unit ? (void *) w->t [i].pu : w_o (w, i), BK_SAMPLE_CALLBACK, on ? &cb : NULL, sizeof cb);
}
/* objects which can be read: instrument, data */
static void w_get_ptrs (World *w, int i)
{
	int v = -1, r;
	void *p = NULL;
	if (!w->t [i].unit) {
		if (RT (w)) { for (int k = 0; k < NI; k ++) if (w->t [i].r.is.in == &w->ri [k]) v = k; r = 0; }
		else { r = w->typed ? BKTrackGetPtr (w->t [i].t, BK_INSTRUMENT, &p) : BKGetPtr (w->t [i].t, BK_INSTRUMENT, &p, sizeof p); for (int k = 0; k < NI; k ++) if (p && p == w->in [k]) v = k; }
		w_ev (w, E_GET, i, BK_INSTRUMENT, v * 1000 + r);
	}
	v = -1; p = NULL;
	if (RC (w)) { RUnit *u = w_ru (w, i); for (int k = 0; k < ND; k ++) if ((u->wave == BK_SAMPLE || u->wave == BK_CUSTOM) && u->data == &w->rd [k]) v = k; r = 0; }
	else { r = BKGetPtr (w->mode == PUP && !w->t [i].unit ? (void *) w->t [i].pu : w_o (w, i), BK_SAMPLE, &p, sizeof p); for (int k = 0; k < ND; k ++) if (p && p == w->d [k]) v = k; }
	w_ev (w, E_GET, i, BK_SAMPLE, v * 1000 + r);
	/* the sample callback: 0 none, 1 the one which has been set */
	if (RC (w)) v = w_ru (w, i)->cb != NULL;
	else {
		void *o = w->mode == PUP && !w->t [i].unit ? (void *) w->t [i].pu : w_o (w, i);
		BKCallback *cb = NULL;
		r = !w->typed || o == w->t [i].pu ? BKGetPtr (o, BK_SAMPLE_CALLBACK, &cb, sizeof cb) : w->t [i].unit ? BKUnitGetPtr (o, BK_SAMPLE_CALLBACK, &cb) : BKTrackGetPtr (o, BK_SAMPLE_CALLBACK, &cb);
		v = r || !cb ? 9 : !cb->func ? 0 : cb->func == w_sample_event && cb->userInfo == &w->t [i].who ? 1 : 8;
	}
	w_ev (w, E_GET, i, BK_SAMPLE_CALLBACK, v);
}
/* all attributes which can be read */
static const int TrackAttrs [] = { BK_MASTER_VOLUME, BK_VOLUME, BK_PANNING, BK_NOTE, BK_PITCH, BK_SAMPLE_PITCH, BK_ARPEGGIO_DIVIDER, BK_EFFECT_DIVIDER,
	BK_INSTRUMENT_DIVIDER, BK_TRIANGLE_IGNORES_VOLUME, BK_EFFECT_VOLUME_SLIDE, BK_EFFECT_PANNING_SLIDE, BK_EFFECT_PORTAMENTO };
static const int UnitAttrs [] = { BK_DUTY_CYCLE, BK_WAVEFORM, BK_PHASE, BK_PHASE_WRAP, BK_NUM_PHASES, BK_PERIOD, BK_MUTE, BK_SAMPLE_REPEAT,
	BK_SAMPLE_PERIOD, BK_SAMPLE_IMMED_RELEASE, BK_FLAG_RELEASE, BK_VOLUME_0, BK_VOLUME_1, BK_VOLUME_2, BK_VOLUME_3, BK_VOLUME_4, BK_VOLUME_5, BK_VOLUME_6, BK_VOLUME_7 };
static void w_get_all (World *w, int i)
{
	for (int k = 0; k < N (UnitAttrs); k ++) w_get (w, i, UnitAttrs [k]);
	w_get_range (w, i, 0); w_get_range (w, i, 1); w_get_ptrs (w, i);
	if (w->t [i].unit) return;
	for (int k = 0; k < N (TrackAttrs); k ++) w_get (w, i, TrackAttrs [k]);
	for (int k = 0; k < 5; k ++) w_get_effect (w, i, BK_EFFECT_VOLUME_SLIDE + k);
	w_get_arp (w, i);
}

/* --------------------------------------------------- clocks and dividers */
static int64_t w_clock_time (World *w, int i)
{
	int c;
	if (RC (w)) { c = w->rk [i].ctx ? (int) (w->rk [i].ctx - w->rc) : 0; return w->rc [c].now; }
	for (c = 0; c < NC - 1 && w->c [c] != w->k [i]->ctx; c ++);
	return w->c [c] ? w_time (w, c) : 0;
}
static BKEnum w_clock_event (BKCallbackInfo *info, void *user)
{
	Who *a = user;
	World *w = a->w;
	BKTime t = info->nextTime;
	w_ev (w, E_CLOCK, a->i, a->n, w_clock_time (w, a->i));
	w->kret [a->i] = 0;
	if (info->object != w->k [a->i] || info->event != BK_EVENT_CLOCK) mc_fail ("callback-info", "callback of clock %d got another object or event", a->i);
	a->n ++;
	if (w->on_clock) w->on_clock (w, a->i, a->n - 1);
	if (w->kret [a->i]) info->nextTime = t + w->kret [a->i];
	return 0;
}
static int64_t w_clock_event_ref (void *user, RClock *k)
{
	Who *a = user;
	World *w = a->w;
	int64_t t = k->time;
	w_ev (w, E_CLOCK, a->i, a->n, w_clock_time (w, a->i));
	w->kret [a->i] = 0;
	a->n ++;
	if (w->on_clock) w->on_clock (w, a->i, a->n - 1);
	return t + w->kret [a->i];
}
static void w_clock (World *w, int i, int64_t period)
{
	BKCallback cb = { w_clock_event, &w->wk [i] };
	w_log (w, "clock %d: init, period %lld + %lld/%d", i, (long long) (period >> 20), (long long) (period & RFRAC), (int) RUNIT);
	w->wk [i] = (Who) { w, i, 0 };
	int no = w->nocb >> i & 1;
	if (no) cb.func = NULL;
	if (RC (w)) { rclock_init (&w->rk [i], period, no ? NULL : w_clock_event_ref, &w->wk [i]); return; }
	if (w->alloc) { if (BKClockAlloc (&w->k [i], period, no ? NULL : &cb)) mc_fail ("clock-init", "clock"); return; }
	if (!w->k [i]) w->k [i] = w_obj (w, sizeof (BKClock));
	BKClockInit (w->k [i], period, &cb);
}
/* before: -1 last, -2 first, else clock */
static int w_clock_attach (World *w, int i, int c, int before)
{
	w_log (w, "clock %d: attach to context %d %s %d", i, c, before == -1 ? "at end" : before == -2 ? "first" : "before", before);
	if (RC (w)) return w_ret (w, 20, rclock_attach (&w->rk [i], &w->rc [c], before >= 0 ? &w->rk [before] : NULL, before == -2));
	return w_ret (w, 20, BKClockAttach (w->k [i], w->c [c], before == -1 ? NULL : before == -2 ? BK_FIRST_ELEMENT_PTR : w->k [before]));
}
static void w_clock_detach (World *w, int i)
{
	w_log (w, "clock %d: detach", i);
	if (RC (w)) rclock_detach (&w->rk [i]); else BKClockDetach (w->k [i]);
}
static void w_clock_period (World *w, int i, int64_t p)
{
	w_log (w, "clock %d: period %lld + %lld/%d", i, (long long) (p >> 20), (long long) (p & RFRAC), (int) RUNIT);
	if (RC (w)) w->rk [i].period = p; else BKClockSetPeriod (w->k [i], p);
}
static void w_clock_reset (World *w, int i)
{
	w_log (w, "clock %d: reset", i);
	if (RC (w)) rclock_reset (&w->rk [i]); else BKClockReset (w->k [i]);
}
static void w_clock_dispose (World *w, int i)
{
	w_log (w, "clock %d: dispose", i);
	if (RC (w)) { rclock_detach (&w->rk [i]); while (w->rk [i].ndiv) rdiv_detach (w->rk [i].div [0]); }
	else { BKDispose (w->k [i]); if (w->alloc) w->k [i] = NULL; }
}
static BKEnum w_div_event (BKCallbackInfo *info, void *user)
{
	Who *a = user;
	World *w = a->w;
	w_ev (w, E_DIV, a->i, a->n, info->divider);
	w->vret [a->i] = 0;
	if (info->event != BK_EVENT_DIVIDER) mc_fail ("callback-info", "callback of divider %d got another event", a->i);
	a->n ++;
	if (w->on_div) w->on_div (w, a->i, a->n - 1);
	if (w->vret [a->i]) info->divider = w->vret [a->i] == INT32_MIN ? 0 : w->vret [a->i];
	return 0;
}
static int w_div_event_ref (void *user, int divider)
{
	Who *a = user;
	World *w = a->w;
	w_ev (w, E_DIV, a->i, a->n, divider);
	w->vret [a->i] = 0;
	a->n ++;
	if (w->on_div) w->on_div (w, a->i, a->n - 1);
	return w->vret [a->i] == INT32_MIN ? 0 : w->vret [a->i] ? w->vret [a->i] : divider;
}
static void w_div (World *w, int i, int n)
{
	BKCallback cb = { w_div_event, &w->wv [i] };
	w_log (w, "divider %d: init, %d", i, n);
	w->wv [i] = (Who) { w, i, 0 };
	int no = w->nocb >> (8 + i) & 1;
	if (no) cb.func = NULL;
	if (RC (w)) { rdiv_init (&w->rv [i], n, no ? NULL : w_div_event_ref, &w->wv [i]); return; }
	if (w->alloc) { if (BKDividerAlloc (&w->v [i], n, no ? NULL : &cb)) mc_fail ("divider-init", "divider"); return; }
	if (!w->v [i]) w->v [i] = w_obj (w, sizeof (BKDivider));
	BKDividerInit (w->v [i], n, &cb);
}
static int w_div_clock (World *w, int i, int k)
{
	w_log (w, "divider %d: attach to clock %d", i, k);
	if (RC (w)) return w_ret (w, 21, rdiv_attach (&w->rv [i], w->rk [k].div, &w->rk [k].ndiv));
	return w_ret (w, 21, BKDividerAttachToClock (w->v [i], w->k [k]));
}
static int w_div_ctx (World *w, int i, int c, int type)
{
	w_log (w, "divider %d: attach to context %d, type %d", i, c, type);
	if (RC (w)) return w_ret (w, 22, rctx_attach_div (&w->rc [c], &w->rv [i], type));
	return w_ret (w, 22, BKContextAttachDivider (w->c [c], w->v [i], type));
}
static void w_div_detach (World *w, int i)
{
	w_log (w, "divider %d: detach", i);
	if (RC (w)) rdiv_detach (&w->rv [i]); else BKDividerDetach (w->v [i]);
}
static void w_div_reset (World *w, int i)
{
	w_log (w, "divider %d: reset", i);
	if (RC (w)) w->rv [i].counter = 0; else BKDividerReset (w->v [i]);
}
static void w_div_dispose (World *w, int i)
{
	w_log (w, "divider %d: dispose", i);
	if (RC (w)) rdiv_detach (&w->rv [i]);
	else { BKDispose (w->v [i]); if (w->alloc) w->v [i] = NULL; }
}

/* ------------------------------------------------------------ the verdict */
/* dispose everything; the library must not keep memory */
static void w_end (World *w)
{
	if (!RC (w)) {
		for (int i = 0; i < NT; i ++) if (w->t [i].live) w_dispose (w, i);
		for (int i = 0; i < NV; i ++) if (w->v [i]) BKDispose (w->v [i]);
		for (int i = 0; i < NK; i ++) if (w->k [i]) BKDispose (w->k [i]);
		for (int i = 0; i < NI; i ++) if (w->in [i]) BKDispose (w->in [i]);
		for (int i = 0; i < ND; i ++) if (w->d [i]) BKDispose (w->d [i]);
		for (int i = 0; i < NC; i ++) if (w->c [i]) BKDispose (w->c [i]);
		if (w->alloc) {
			for (int i = 0; i < NT; i ++) w->t [i].t = NULL;
			memset (w->v, 0, sizeof w->v); memset (w->k, 0, sizeof w->k); memset (w->in, 0, sizeof w->in); memset (w->d, 0, sizeof w->d); memset (w->c, 0, sizeof w->c);
		}
	}
	w->tape->recorded = 1;
	mc_trans (w->ops);
	for (int c = 0; c < NC; c ++) mc_eval (w->n [c]);
}
static void w_leak (const char *key) { MC_CHECK (mc_heap_live == 0, key, "%ld blocks of memory leaked", mc_heap_live); }
static uint64_t w_hash (World *w)
{
	uint64_t h = w->nev;
	for (int c = 0; c < NC; c ++) if (w->pcm [c]) h = mc_hash (h, w->pcm [c], w->n [c] * w->nch [c] * 2);
	for (int i = 0; i < w->nev; i ++) h = mc_hash64 (mc_hash64 (h, w->ev [i].kind * 65536 + w->ev [i].a), w->ev [i].v);
	return h;
}
static void w_cmp_ev (World *a, World *b, int mask, const char *key, const char *an, const char *bn)
{
	for (int i = 0, j = 0, n = 0;; i ++, j ++, n ++) {
		while (i < a->nev && !(a->ev [i].kind & mask)) i ++;
		while (j < b->nev && !(b->ev [j].kind & mask)) j ++;
		if (i >= a->nev && j >= b->nev) return;
		if (i >= a->nev || j >= b->nev) mc_fail (key, "event %d (%s %d) is missing in %s", n, EvName (i >= a->nev ? b->ev [j].kind : a->ev [i].kind), i >= a->nev ? b->ev [j].a : a->ev [i].a, i >= a->nev ? an : bn);
		Ev *x = &a->ev [i], *y = &b->ev [j];
		if (x->kind != y->kind || x->a != y->a || x->b != y->b) mc_fail (key, "event %d is %s %d/%s in %s, %s %d/%s in %s", n, EvName (x->kind), x->a, x->kind == E_GET ? attr_name (x->b) : "", an, EvName (y->kind), y->a, y->kind == E_GET ? attr_name (y->b) : "", bn);
		if (x->v != y->v) mc_fail (key, "event %d, %s %d %s: %lld in %s, %lld in %s", n, EvName (x->kind), x->a, x->kind == E_GET ? attr_name (x->b) : "", (long long) x->v, an, (long long) y->v, bn);
	}
}
static void w_cmp_pcm (World *a, int ca, World *b, int cb, const char *key, const char *an, const char *bn)
{
	if (a->n [ca] != b->n [cb]) mc_fail (key, "%d frames in %s, %d frames in %s", a->n [ca], an, b->n [cb], bn);
	for (int i = 0; i < a->n [ca] * a->nch [ca]; i ++)
		if (a->pcm [ca] [i] != b->pcm [cb] [i])
			mc_fail (key, "frame %d, channel %d: %d in %s, %d in %s", i / a->nch [ca], i % a->nch [ca], a->pcm [ca] [i], an, b->pcm [cb] [i], bn);
}
static int w_tail (World *a, World *b, const char *key, const char *an, const char *bn, int mask)
{
	w_cmp_ev (a, b, mask, key, an, bn);
	for (int c = 0; c < NC; c ++) if (a->pcm [c] || b->pcm [c]) {
		if (!a->pcm [c] || !b->pcm [c]) { if (a->n [c] != b->n [c]) mc_fail (key, "no frames in one run"); }
		else w_cmp_pcm (a, c, b, c, key, an, bn);
	}
	return 0;
}
typedef void Script (World *w);
/* run the script with library and model, compare */
static World *w_run (int slot, int mode, Script *s, int var, Tape *t)
{
	World *w = w_new (slot, mode, t);
	w->var = var;
	s (w);
	w_end (w);
	return w;
}
static void w_check (Script *s, int var, int mode, int mask, const char *key)
{
	memset (&TapeMain, 0, sizeof TapeMain);
	World *a = w_run (0, LIB, s, var, &TapeMain);
	w_leak ("leak");
	World *b = w_run (1, mode, s, var, &TapeMain);
	w_tail (a, b, key, "the library", "the model", mask);
	mc_state (w_hash (a));
}

/* Does the library render plain held notes like the reference does?  If not, something below
   the tracks is broken (decided by other properties) and only PUP is used for track properties. */
static Tape TapeCal;
static void w_cal_script (World *w)
{
	for (int k = 0; k < 6; k ++) {
		w_ctx (w, 0, 2, 44100);
		w_master (w, 0, 20 * RUNIT);
		w_track (w, 0, BK_SQUARE + k % 6);
		w_attach (w, 0, 0);
		w_set (w, 0, BK_MASTER_VOLUME, 20000);
		w_set (w, 0, BK_VOLUME, 30000);
		w_set (w, 0, BK_NOTE, (70 + 3 * k) << 20);
		w_gen (w, 0, 200);
		w_set (w, 0, BK_VOLUME, 9000);
		w_set (w, 0, BK_NOTE, (60 + 5 * k) << 20);
		w_gen (w, 0, 100);
		w_dispose (w, 0);
		w_ctx_dispose (w, 0);
	}
}
static int w_calibrated (void)
{
	static int ok = -1;
	if (ok >= 0) return ok;
	ok = 1;
	World *w [2];
	for (int k = 0; k < 2; k ++) {
		memset (&TapeCal, 0, sizeof TapeCal);
		w [k] = w_new (2 + k, k ? REF : LIB, &TapeCal);
		w_cal_script (w [k]);
	}
	if (w [0]->n [0] != w [1]->n [0] || memcmp (w [0]->pcm [0], w [1]->pcm [0], w [0]->n [0] * 4)) ok = 0;
	return ok;
}
/* tracks of the library against the model of tracks on units of the library, and against the whole model */
static void w_check_track (Script *s, int var, const char *key)
{
	int cal = w_calibrated ();
	memset (&TapeMain, 0, sizeof TapeMain);
	World *a = w_run (0, LIB, s, var, &TapeMain);
	w_leak ("leak");
	World *b = w_run (1, PUP, s, var, &TapeMain);
	w_tail (a, b, key, "the library", "the model of tracks", E_ALL);
	if (cal) {
		b = w_run (2, REF, s, var, &TapeMain);
		w_tail (a, b, key, "the library", "the model", E_ALL);
	}
	mc_state (w_hash (a));
}
#endif
