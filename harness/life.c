/* Lifetime of objects (C09) and failing allocations (C25). */
#include "ops.h"
#include <sys/mman.h>
#include <unistd.h>

static int Depth, Start, Ops [8], Alloc, Perm;

/* ------------------------------------------------------------- C09 */
typedef struct { int c [2], t [3], k [2], v [2], in, d [2]; } Live;
/* an object has been disposed: once more is harmless, then its memory goes */
#define GONE(p) do { if (w->mode == LIB && !w->alloc) { BKDispose (p); BKDispose (p); mc_raw_free (p); (p) = NULL; } } while (0)
static void need_c (World *w, Live *l, int c) { if (l->c [c]) return; l->c [c] = 1; w_ctx (w, c, 1 + c, 44100); w_master (w, c, F (11) + 300 * c); }
static void need_t (World *w, Live *l, int t)
{
	if (l->t [t]) return;
	l->t [t] = 1;
	if (t == 2) { w_unit (w, t, BK_SAWTOOTH); w_set (w, t, BK_VOLUME, 4000); w_set (w, t, BK_PERIOD, F (3) + 4444); w_set (w, t, BK_MUTE, 0); return; }
	w_track (w, t, t ? BK_TRIANGLE : BK_SQUARE);
	w_set (w, t, BK_MASTER_VOLUME, 9000 + 2000 * t); w_set (w, t, BK_VOLUME, 30000); w_set (w, t, BK_NOTE, NOTE (70 + 4 * t));
}
static void need_k (World *w, Live *l, int k) { if (!l->k [k]) { l->k [k] = 1; w_clock (w, k, k ? F (9) / 2 : F (7)); } }
static void need_v (World *w, Live *l, int v) { if (!l->v [v]) { l->v [v] = 1; w_div (w, v, 1 + v); } }
static void need_i (World *w, Live *l) { if (!l->in) { l->in = 1; w_instr_init (w, 0); mat_instr0 (w, 0); } }
static void need_d (World *w, Live *l, int d) { if (!l->d [d]) { l->d [d] = 1; w_data_init (w, d); w_data_frames (w, d, d ? Wav : Smp, d ? 6 : 40, 1, 1); } }
static void life_clock (World *w, int i, int n) { if (n % 4 == 1 && w->var & 1) for (int t = 0; t < 2; t ++) if (w->t [t].live) w_set (w, t, BK_NOTE, NOTE (60 + 3 * (n % 5) + t)); }
enum { LOps = 57 };
static void life_op (World *w, Live *l, int o)
{
	switch (o) {
		/* 12: tracks and a plain unit, two contexts */
		case 0: case 1: case 2: case 3: case 4: case 5: need_t (w, l, o / 2); need_c (w, l, o % 2); w_attach (w, o / 2, o % 2); break;
		case 6: case 7: case 8: need_t (w, l, o - 6); w_detach (w, o - 6); break;
		case 9: case 10: case 11: { int i = o - 9; if (!l->t [i]) mc_discard (); w_dispose (w, i); l->t [i] = 0; if (i == 2) { if (w->t [i].u) { BKDispose (w->t [i].u); mc_raw_free (w->t [i].u); w->t [i].u = NULL; } } else GONE (w->t [i].t); break; }
		/* 10: clocks */
		case 12: case 13: need_k (w, l, 0); need_c (w, l, o - 12); w_clock_attach (w, 0, o - 12, -1); break;
		case 14: case 15: need_k (w, l, 1); need_c (w, l, o - 14); w_clock_attach (w, 1, o - 14, -2); break;
		case 16: case 17: need_k (w, l, 0); need_k (w, l, 1); need_c (w, l, 0); w_clock_attach (w, o - 16, 0, 17 - o); break;
		case 18: case 19: need_k (w, l, o - 18); w_clock_detach (w, o - 18); break;
		case 20: case 21: if (!l->k [o - 20]) mc_discard (); w_clock_dispose (w, o - 20); l->k [o - 20] = 0; GONE (w->k [o - 20]); break;
		/* 12: dividers */
		case 22: case 23: case 24: case 25: need_v (w, l, o % 2); need_k (w, l, (o - 22) / 2); w_div_clock (w, o % 2, (o - 22) / 2); break;
		case 26: case 27: need_v (w, l, o % 2); need_c (w, l, o % 2); w_div_ctx (w, o % 2, o % 2, BK_CLOCK_TYPE_EFFECT); break;
		case 28: case 29: need_v (w, l, o % 2); need_c (w, l, 0); w_div_ctx (w, o % 2, 0, BK_CLOCK_TYPE_BEAT); break;
		case 30: case 31: need_v (w, l, o - 30); w_div_detach (w, o - 30); break;
		case 32: case 33: if (!l->v [o - 32]) mc_discard (); w_div_dispose (w, o - 32); l->v [o - 32] = 0; GONE (w->v [o - 32]); break;
		/* 6: instrument */
		case 34: case 35: need_i (w, l); need_t (w, l, o - 34); w_instr (w, o - 34, 0); break;
		case 36: need_t (w, l, 0); w_instr (w, 0, -1); break;
		case 37: if (!l->in) mc_discard (); w_instr_dispose (w, 0); l->in = 0; GONE (w->in [0]); break;
		case 38: need_i (w, l); w_log (w, "instrument 0: detach"); if (RT (w)) while (w->ri [0].nuser) rtrack_instr (w->ri [0].user [0]->track, NULL); else BKInstrumentDetach (w->in [0]); break;
		case 39: need_i (w, l); mat_instr1 (w, 0); break;
		/* 9: data */
		case 40: case 41: case 42: need_d (w, l, 0); need_t (w, l, o - 40); w_data (w, o - 40, BK_SAMPLE, 0); if (o == 42) w_set (w, 2, BK_SAMPLE_PERIOD, RUNIT / 2); break;
		case 43: case 44: case 45: need_d (w, l, 1); need_t (w, l, o - 43); w_data (w, o - 43, BK_WAVEFORM, 1); break;
		case 46: case 47: { int d = o - 46; if (!l->d [d]) mc_discard (); w_data_dispose (w, d); l->d [d] = 0; GONE (w->d [d]); break; }
		case 48: need_d (w, l, 0); w_log (w, "data 0: detach"); if (!RC (w)) BKDataDetach (w->d [0]); if (RT (w)) rdata_notify (&w->rd [0], 1); break;
		case 49: need_d (w, l, 1); w_data_frames (w, 1, Smp, 20, 1, 1); break;
		/* 5: contexts */
		case 50: case 51: if (!l->c [o - 50]) mc_discard (); w_ctx_dispose (w, o - 50); l->c [o - 50] = 0; GONE (w->c [o - 50]); break;
		case 52: need_c (w, l, 0); w_ctx_reset (w, 0); break;
		case 53: need_c (w, l, 1); w_gen (w, 1, 170); break;
		case 54: need_c (w, l, 0); w_gento (w, 0, w_time (w, 0) + F (40) + 5000, 0); break;
		/* notes */
		case 55: need_t (w, l, 0); w_set (w, 0, BK_NOTE, NOTE (81)); break;
		case 56: need_t (w, l, 1); w_set (w, 1, BK_NOTE, BK_NOTE_RELEASE); break;
	}
}
static void life_start (World *w, Live *l)
{
	/* everything attached to context 0; spread over both; nothing exists; shared objects are used by all */
	static const int S0 [] = { 0, 2, 4, 12, 14, 22, 25, -1 }, S1 [] = { 0, 3, 5, 12, 15, 26, 27, 34, 41, -1 }, S2 [] = { -1 }, S3 [] = { 0, 2, 5, 34, 35, 40, 44, 45, 22, 23, 13, -1 };
	static const int *const All [] = { S0, S1, S2, S3 };
	w->on_clock = life_clock;
	w->var = Start & 1;
	memset (l, 0, sizeof *l);
	for (const int *s = All [Start]; *s >= 0; s ++) life_op (w, l, *s);
}
static void life_gen (World *w, Live *l) { for (int c = 0; c < 2; c ++) if (l->c [c]) { w_gen (w, c, 37); w_ev (w, E_USER, c, 0, w_time (w, c)); } }
static void life_script (World *w)
{
	Live l;
	w->alloc = w->mode == LIB ? Alloc : 0;
	w->fill = 0xee;
	life_start (w, &l);
	life_gen (w, &l);
	for (int k = 0; k < Depth; k ++) { life_op (w, &l, Ops [k]); life_gen (w, &l); }
	/* what is left still works */
	for (int t = 0; t < 2; t ++) if (l.t [t]) { w_set (w, t, BK_NOTE, NOTE (66 + t)); w_get (w, t, BK_NOTE); w_get_ptrs (w, t); }
	life_gen (w, &l); life_gen (w, &l);
	/* dispose the rest in the chosen order */
	int used = 0, perm = Perm;
	for (int s = 5; s; s --) {
		int x = perm % s, kind = 0;
		perm /= s;
		for (;; kind ++) if (!(used >> kind & 1) && x -- == 0) break;
		used |= 1 << kind;
		switch (kind) {
			case 0: for (int c = 0; c < 2; c ++) if (l.c [c]) life_op (w, &l, 50 + c); break;
			case 1: for (int t = 2; t >= 0; t --) if (l.t [t]) life_op (w, &l, 9 + t); break;
			case 2: for (int k = 0; k < 2; k ++) if (l.k [k]) life_op (w, &l, 20 + k); break;
			case 3: for (int k = 0; k < 2; k ++) if (l.v [k]) life_op (w, &l, 32 + k); break;
			case 4: for (int k = 0; k < 2; k ++) if (l.d [k]) life_op (w, &l, 46 + k); if (l.in) life_op (w, &l, 37); break;
		}
		life_gen (w, &l);
	}
}
static void life (int par)
{
	Depth = par % 10;
	Start = mc_choose (4);
	Alloc = par >= 100 ? Start & 1 : mc_choose (2);
	for (int k = 0; k < Depth; k ++) Ops [k] = mc_choose (LOps);
	Perm = par % 100 >= 10 ? mc_choose (120) : (Ops [0] * 7 + Ops [1] + 11 * Start) % 120;
	int cal = w_calibrated ();
	memset (&TapeMain, 0, sizeof TapeMain);
	World *a = w_run (0, LIB, life_script, 0, &TapeMain);
	w_leak ("leak");
	World *b = w_run (1, REF, life_script, 0, &TapeMain);
	if (cal) w_tail (a, b, "lifetime", "the library", "the model", E_ALL);
	else w_cmp_ev (a, b, E_RET | E_GET, "lifetime", "the library", "the model");
	mc_state (w_hash (a));
}

/* ------------------------------------------------------------- C25 */
static FILE *temp25 (const void *b, size_t n)
{
	int fd = memfd_create ("bk", 0);
	FILE *f = fd < 0 ? NULL : fdopen (fd, "w+");
	if (!f) f = tmpfile ();
	if (!f || fwrite (b, 1, n, f) != n) mc_harness_error ("cannot create a scratch file");
	rewind (f);
	return f;
}
/* Run 0: the allocations succeed.  Run 1: allocation Pos of operation Fault fails, later the operation is
   done again.  Run 2: like run 0, but the operation is done where it has been attempted in run 1 (it may
   cope without the memory). */
static int Run, Fault, Pos, Pos2, Injected, Coped, Init25;
static BKFrame Mine [40];
enum { AOps = 36 };
/* new objects are number 2 */
static void drop2 (World *w, int kind)
{
	void **p = kind == 0 ? (void **) &w->c [1] : kind == 1 ? (void **) &w->t [2].t : kind == 2 ? (void **) &w->in [2] : kind == 3 ? (void **) &w->d [2] : kind == 4 ? (void **) &w->k [2] : (void **) &w->v [2];
	if (*p) BKDispose (*p);
	*p = NULL;
	if (kind == 1) w->t [2].live = 0;
}
static BKEnum tick25 (BKCallbackInfo *info, void *user) { w_ev (user, E_USER, 25, 0, 1); return 0; }
static int alloc_op (World *w, int o)
{
	BKCallback cb = { tick25, w };
	BKDataConvertInfo info;
	static const BKSequencePhase Env [] = { { 3, 30000 }, { 4, 9000 }, { 5, 0 } };
	uint8_t img [64];
	int r;
	FILE *f;
	memset (&info, 0, sizeof info);
	info.targetNumBits = 9;
	switch (o) {
		/* objects */
		case 0: r = BKContextAlloc (&w->c [1], 3, 22050); return r;
		case 1: r = BKTrackAlloc (&w->t [2].t, BK_SAWTOOTH); if (r >= 0) { w->t [2].live = 1; w_attach (w, 2, 0); w_set (w, 2, BK_MASTER_VOLUME, 9000); w_set (w, 2, BK_VOLUME, 9000); w_set (w, 2, BK_NOTE, NOTE (80)); } return r;
		case 2: r = BKInstrumentAlloc (&w->in [2]); if (r >= 0) w_instr (w, 0, 2); return r;
		case 3: r = BKDataAlloc (&w->d [2]); return r;
		case 4: r = BKClockAlloc (&w->k [2], F (9), &cb); if (r >= 0) BKClockAttach (w->k [2], w->c [0], NULL); return r;
		case 5: r = BKDividerAlloc (&w->v [2], 2, &cb); if (r >= 0) BKContextAttachDivider (w->c [0], w->v [2], BK_CLOCK_TYPE_BEAT); return r;
		/* sequences of instrument 0, which is played, and 1, which has none */
		case 6: case 7: return BKInstrumentSetSequence (w->in [o - 6], 0, SeqV, 4, 1, 2);
		case 8: case 9: return BKInstrumentSetEnvelope (w->in [o - 8], 0, Env, 3, 1, 1);
		case 10: case 11: return BKInstrumentSetSequence (w->in [o - 10], 2, SeqP, 3, 0, 3);
		case 12: case 13: return BKInstrumentSetEnvelopeADSR (w->in [o - 12], 3, 4, 20000, 5);
		/* data 0 owns its frames and is played, data 1 refers to ours and is played */
		case 14: case 15: return BKDataSetFrames (w->d [o - 14], Smp + 3, 20, 1, 1);
		case 16: case 17: return BKDataSetFrames (w->d [o - 16], Mine, 24, 1, 0);
		case 18: case 19: return BKDataSetData (w->d [o - 18], Smp, 30, 1, BK_8_BIT_SIGNED);
		case 20: case 21: return BKDataSetData (w->d [o - 20], Smp, 9, 1, BK_1_BIT_UNSIGNED);
		case 22: case 23: f = temp25 (Smp, 60); r = BKDataLoadRaw (w->d [o - 22], f, 1, BK_16_BIT_SIGNED); fclose (f); return r;
		case 24: case 25:
			memset (img, 0, 44);
			memcpy (img, "RIFF\x3c\0\0\0WAVEfmt \x10\0\0\0\1\0\1\0\x44\xac\0\0\x88\x58\1\0\2\0\x10\0data\x14\0\0", 43);
			memcpy (img + 44, Smp + 7, 20);
			f = temp25 (img, 64); r = BKDataLoadWAVE (w->d [o - 24], f); fclose (f); return r;
		case 26: case 27: return BKDataNormalize (w->d [o - 26]);
		case 28: case 29: return BKDataConvert (w->d [o - 28], &info);
		/* copies */
		case 30: case 31: w->d [2] = mc_raw_malloc (sizeof (BKData)); memset (w->d [2], 0xee, sizeof (BKData)); r = BKDataInitCopy (w->d [2], w->d [o - 30]); if (r >= 0) { w_data (w, 0, BK_SAMPLE, 2); } else { BKDispose (w->d [2]); } break;
		case 32: case 33: w->in [2] = mc_raw_malloc (sizeof (BKInstrument)); memset (w->in [2], 0xee, sizeof (BKInstrument)); r = BKInstrumentInitCopy (w->in [2], w->in [o - 32]); if (r >= 0) w_instr (w, 1, 2); else BKDispose (w->in [2]); break;
		/* in the caller's memory */
		case 34: w->c [1] = mc_raw_malloc (sizeof (BKContext)); memset (w->c [1], 0xee, sizeof (BKContext)); r = BKContextInit (w->c [1], 2, 44100); if (r < 0) BKDispose (w->c [1]); break;
		case 35: w_data (w, 0, BK_WAVEFORM, 1); return 0;
	}
	/* released in drop_mem */
	return r;
}
static int kind_of (int o) { return o < 6 ? o : o == 30 || o == 31 ? 3 : o == 32 || o == 33 ? 2 : o == 34 ? 0 : -1; }
static int own_mem (int o) { return o >= 30 && o <= 34; }
static void forget25 (World *w, int o, int *mem)
{
	/* remove object 2 of the kind; mem: it lives in memory of ours */
	int k = kind_of (o);
	if (k < 0) return;
	void *p = k == 0 ? (void *) w->c [1] : k == 2 ? (void *) w->in [2] : k == 3 ? (void *) w->d [2] : NULL;
	if (k == 0 && p) for (int t = 0; t < 3; t ++) if (w->t [t].live && w->t [t].t->unit.ctx == w->c [1]) BKTrackDetach (w->t [t].t);
	drop2 (w, k);
	if (mem [k] && p) mc_raw_free (p);
	mem [k] = own_mem (o);
}
static void observe25 (World *w)
{
	for (int d = 0; d < 3; d ++) if (w->d [d]) {
		BKInt n = 0, c = 0, p = 0, s [2] = { 0, 0 };
		BKGetAttr (w->d [d], BK_NUM_FRAMES, &n); BKGetAttr (w->d [d], BK_NUM_CHANNELS, &c); BKGetAttr (w->d [d], BK_SAMPLE_PITCH, &p); BKGetPtr (w->d [d], BK_SAMPLE_SUSTAIN_RANGE, s, sizeof s);
		w_ev (w, E_USER, d, 1, mc_hash64 (mc_hash64 (n * 16 + c, p), s [0] * 65536 + s [1]));
		w_ev (w, E_USER, d, 2, n ? mc_hash (0, w->d [d]->frames, n * c * 2) : 0);
	}
	for (int i = 0; i < 3; i ++) if (w->in [i]) {
		for (int k = 0; k < 4; k ++) {
			BKSequence const *q = BKInstrumentGetSequence (w->in [i], k);
			w_ev (w, E_USER, i, 10 + k, q ? q->length * 4096 + q->sustainOffset * 64 + q->sustainLength : -1);
		}
	}
	for (int t = 0; t < 3; t ++) if (w->t [t].live) w_get_all (w, t);
	w_gen (w, 0, 41);
	if (w->c [1]) {
		BKFrame b [90];
		BKTrackDetach (w->t [3].t);
		w_ev (w, E_USER, 30, 0, BKTrackAttach (w->t [3].t, w->c [1]));
		w_ev (w, E_USER, 31, 0, BKContextGenerate (w->c [1], b, 30));
		w_ev (w, E_USER, 32, 0, mc_hash (0, b, 30 * w->c [1]->numChannels * 2));
	}
}
static void do25 (World *w, int o, int fail, int *mem)
{
	int r;
	long live;
	forget25 (w, o, mem);
	w_log (w, "operation %d%s", o, fail >= 0 ? ", an allocation fails" : "");
	live = mc_heap_live;
	if (fail >= 0) { mc_heap_fail_at = mc_heap_allocs + fail; mc_heap_failed = 0; }
	r = alloc_op (w, o);
	mc_heap_fail_at = -1;
	if (fail >= 0) {
		Injected = mc_heap_failed;
		Coped = r >= 0;
		if (Injected && !Coped) {
			MC_CHECK (mc_heap_live == live, "alloc-leak", "%ld blocks more after the failed operation", mc_heap_live - live);
			int k = kind_of (o);
			void *p = k == 0 ? (void *) w->c [1] : k == 1 ? (void *) w->t [2].t : k == 2 ? (void *) w->in [2] : k == 3 ? (void *) w->d [2] : k == 4 ? (void *) w->k [2] : k == 5 ? (void *) w->v [2] : NULL;
			if (k >= 0 && !own_mem (o)) MC_CHECK (p == NULL, "alloc-pointer", "the failed operation has left a pointer");
			if (own_mem (o)) { mc_raw_free (p); w->c [1] = k == 0 ? NULL : w->c [1]; if (k == 2) w->in [2] = NULL; if (k == 3) w->d [2] = NULL; mem [k] = 0; }
			return;
		}
	}
	w_ret (w, 60, r);
}
static void alloc_steps (World *w, int *mem)
{
	w->fill = 0xee;
	for (int i = 0; i < 40; i ++) Mine [i] = Smp [39 - i];
	w_ctx (w, 0, 2, 44100);
	w_master (w, 0, F (7));
	w_instr_init (w, 0); w_instr_init (w, 1); w_data_init (w, 0); w_data_init (w, 1);
	if (Init25 == 1) mat_instr1 (w, 0); else mat_instr0 (w, 0);
	w_data_frames (w, 0, Smp, 40, 1, 1); w_data_frames (w, 1, Mine, 30, 1, 0);
	for (int t = 0; t < 4; t ++) {
		if (t == 2) continue;
		w_track (w, t, BK_SQUARE + t % 3);
		if (t < 3) w_attach (w, t, 0);
		w_set (w, t, BK_MASTER_VOLUME, 12000); w_set (w, t, BK_VOLUME, 20000);
		if (Init25 != 2) { w_instr (w, t, t == 1 ? 1 : 0); if (t < 2) w_data (w, t, BK_SAMPLE, t); }
		w_set (w, t, BK_NOTE, NOTE (61 + 5 * t));
	}
	w_gen (w, 0, 35);
	for (int k = 0; k < Depth; k ++) {
		if (k == Fault) {
			int two = Run == 1 && Pos2 >= 0;
			if (Run == 1) {
				do25 (w, Ops [k], Pos, mem);
				if (!Injected) return;               /* there are not that many allocations */
			} else if (Run == 2) do25 (w, Ops [k], -1, mem);
			else forget25 (w, Ops [k], mem);
			observe25 (w);
			if (Run == 2 || (Run == 1 && Coped)) continue;
			if (two) { do25 (w, Ops [k], Pos2, mem); if (!Injected || Coped) { Injected = 0; return; } }
		}
		do25 (w, Ops [k], -1, mem);
		observe25 (w);
	}
	for (int t = 0; t < 2; t ++) w_set (w, t, BK_NOTE, NOTE (70 + t));
	observe25 (w);
}
static void alloc_script (World *w)
{
	static const int Rep [6] = { 34, 1, 32, 30, 4, 5 };
	int mem [6] = { 0 };
	alloc_steps (w, mem);
	for (int k = 0; k < 6; k ++) forget25 (w, Rep [k], mem);
}
static void alloc_fail (int par)
{
	Depth = par % 10;
	Init25 = mc_choose (3);
	Fault = mc_choose (Depth);
	for (int k = 0; k < Depth; k ++) Ops [k] = mc_choose (AOps);
	Pos = mc_choose (8); Pos2 = par >= 10 ? mc_choose (4) - 1 : -1;
	memset (&TapeMain, 0, sizeof TapeMain);
	Run = 1; Injected = Coped = 0;
	World *b = w_run (0, LIB, alloc_script, 0, &TapeMain);
	w_leak ("alloc-leak");
	if (!Injected) mc_discard ();
	mc_cover ("%s, operation %d, allocation %d", Coped ? "coped" : "reported", Ops [Fault], Pos);
	Run = Coped ? 2 : 0;
	World *a = w_run (1, LIB, alloc_script, 0, &TapeMain);
	w_leak ("leak");
	w_tail (b, a, "alloc", "the run with the failed allocation", "the run without", E_ALL);
	mc_state (w_hash (a));
}
/* ------------------------------------------- many users of one object (C09) */
/* four users of one object leave it in every order and in every way; the object is used between */
enum { MKinds = 8 };
static int MOrder, MWay [4], MKind, MLast;
static void m_enter (World *w, int i)
{
	switch (MKind) {
		case 0: w_attach (w, i, 0); break;
		case 1: w_clock_attach (w, i, 0, -1); break;
		case 2: w_div_clock (w, i, 0); break;
		case 3: w_div_ctx (w, i, 0, BK_CLOCK_TYPE_EFFECT); break;
		case 4: w_div_ctx (w, i, 0, BK_CLOCK_TYPE_BEAT); break;
		case 5: w_instr (w, i, 0); break;
		case 6: w_data (w, i, BK_SAMPLE, 0); break;
		case 7: w_data (w, i, BK_WAVEFORM, 1); break;
	}
}
static void m_leave (World *w, int i, int way)
{
	int track = MKind == 0 || MKind >= 5;
	switch (MKind) {
		case 0: w_detach (w, i); break;
		case 1: w_clock_detach (w, i); break;
		case 2: case 3: case 4: w_div_detach (w, i); break;
		case 5: if (way == 0) w_instr (w, i, -1); if (way == 2) w_instr (w, i, 1); break;
		case 6: if (way == 0) w_set (w, i, BK_WAVEFORM, BK_SAWTOOTH); if (way == 2) w_data (w, i, BK_SAMPLE, 2); break;
		case 7: if (way == 0) w_data (w, i, BK_WAVEFORM, -1); if (way == 2) w_data (w, i, BK_WAVEFORM, 2); break;
	}
	if (way == 1) {
		if (track) { w_dispose (w, i); GONE (w->t [i].t); }
		else if (MKind == 1) { w_clock_dispose (w, i); GONE (w->k [i]); }
		else { w_div_dispose (w, i); GONE (w->v [i]); }
	}
	else if (way == 2) switch (MKind) {
		case 0: w_attach (w, i, 1); break;
		case 1: w_clock_attach (w, i, 1, -1); break;
		case 2: w_div_clock (w, i, 4); break;
		case 3: case 4: w_div_ctx (w, i, 1, MKind == 3 ? BK_CLOCK_TYPE_EFFECT : BK_CLOCK_TYPE_BEAT); break;
	}
	else if (way == 3) m_enter (w, i);         /* back at once */
}
static void m_use (World *w, int n)
{
	if (MKind == 5) { if (n & 1) w_seq (w, 0, 0, SeqV, 4, 1, 2); else mat_instr1 (w, 0); }
	if (MKind >= 6) w_data_frames (w, MKind - 6, n & 1 ? Smp : Smp + 9, n & 1 ? 20 : 30, 1, 1);
	w_gen (w, 0, 25); w_gen (w, 1, 25);
}
static void members_script (World *w)
{
	int left = 15, order = MOrder;
	w->alloc = w->mode == LIB ? Alloc : 0;
	w->fill = 0xee;
	for (int c = 0; c < 2; c ++) { w_ctx (w, c, 1 + c, 44100); w_master (w, c, F (11)); }
	for (int d = 0; d < 3; d ++) { w_data_init (w, d); w_data_frames (w, d, Smp + 3 * d, 24, 1, 1); }
	w_instr_init (w, 0); mat_instr0 (w, 0); w_instr_init (w, 1); mat_instr1 (w, 1);
	for (int i = 0; i < 4; i ++) {
		if (MKind == 0 || MKind >= 5) {
			w_track (w, i, i % 2 ? BK_TRIANGLE : BK_SQUARE);
			w_set (w, i, BK_MASTER_VOLUME, 7000 + 300 * i); w_set (w, i, BK_VOLUME, 30000); w_set (w, i, BK_NOTE, NOTE (70 + 4 * i));
			if (MKind >= 5) w_attach (w, i, 0);
			if (MKind == 6) w_range (w, i, 1, 5, 12);
		}
		if (MKind == 1 || (MKind == 2 && i == 0)) w_clock (w, i, F (7) + F (2) * i);
		if (MKind == 2 && i == 0) { w_clock_attach (w, 0, 0, -1); w_clock (w, 4, F (9)); w_clock_attach (w, 4, 1, -1); }
		if (MKind >= 2 && MKind <= 4) w_div (w, i, 1 + i % 2);
		m_enter (w, i);
	}
	m_use (w, 0);
	for (int s = 4; s; s --) {
		int x = order % s, i = 0;
		order /= s;
		for (;; i ++) if (left >> i & 1 && x -- == 0) break;
		left &= ~(1 << i);
		m_leave (w, i, MWay [4 - s]);
		m_use (w, s);
	}
	/* the object goes, or everything else does */
	if (MLast == 0) { for (int c = 1; c >= 0; c --) { w_ctx_dispose (w, c); GONE (w->c [c]); } }
	if (MLast == 1) { if (MKind == 5) { w_instr_dispose (w, 0); GONE (w->in [0]); } if (MKind >= 6) { w_data_dispose (w, MKind - 6); GONE (w->d [MKind - 6]); } if (MKind == 2) { w_clock_dispose (w, 0); GONE (w->k [0]); } }
	if (MLast) { w_gen (w, 0, 40); w_gen (w, 1, 40); }
}
static void members (int par)
{
	MKind = mc_choose (MKinds);
	MOrder = mc_choose (24);
	for (int k = 0; k < 4; k ++) MWay [k] = par ? mc_choose (4) : k < 3 ? mc_choose (3 + (k == 1)) : 1;
	Alloc = mc_choose (2);
	MLast = mc_choose (2);
	if (MLast == 1 && MKind != 2 && MKind < 5) mc_discard ();
	if (MLast == 1) for (int k = 0; k < 4; k ++) if (MWay [k] == 1) mc_cover ("object %d disposed after users", MKind);
	int cal = w_calibrated ();
	memset (&TapeMain, 0, sizeof TapeMain);
	World *a = w_run (0, LIB, members_script, 0, &TapeMain);
	w_leak ("leak");
	World *b = w_run (1, REF, members_script, 0, &TapeMain);
	if (cal) w_tail (a, b, "lifetime", "the library", "the model", E_ALL);
	else w_cmp_ev (a, b, E_RET | E_GET, "lifetime", "the library", "the model");
	mc_state (w_hash (a));
}

static const McScenario Scen [] = {
	{ "C09", "members", members, 0, MC_QUICK },
	{ "C09", "members-all", members, 1, MC_THOROUGH },
	{ "C09", "orders-1", life, 11, MC_QUICK },
	{ "C09", "history-2", life, 2, MC_QUICK },
	{ "C09", "history-3h", life, 103, MC_QUICK },
	{ "C09", "history-3", life, 3, MC_THOROUGH },
	{ "C09", "orders-2", life, 12, MC_THOROUGH },
	{ "C09", "history-4", life, 104, MC_THOROUGH },
	{ "C25", "fail-2", alloc_fail, 2, MC_QUICK },
	{ "C25", "fail-3", alloc_fail, 3, MC_QUICK },
	{ "C25", "fail-twice-2", alloc_fail, 12, MC_QUICK },
	{ "C25", "fail-twice-3", alloc_fail, 13, MC_THOROUGH },
};
static const McPropInfo Props [] = {
	{ "C09", "model_checking", "each execution is one history of attaching, detaching, using and disposing objects, followed by the disposal of what is left; states are distinct runs (status codes, ticks and frames of both contexts)",
	  "two contexts, two tracks, a plain unit, two clocks, two dividers, an instrument, two data objects; 4 starting points x objects on the heap or in the caller's memory x histories of 3 (4) operations out of 57; memory of disposed objects is given back at once; four users of one context, clock, instrument or data object leaving in all 24 orders x 4 ways (detached, disposed, moved elsewhere, back at once)",
	  "reference synthesizer in harness/ref.h; AddressSanitizer; block accounting" },
	{ "C25", "model_checking", "each execution is one history of operations in which one (or two successive attempts') allocation fails; the operation is done again later; everything heard and read must be as in the run in which it was not attempted before; states are distinct runs",
	  "3 set-ups of a context with playing tracks, instruments and data x histories of 2 to 3 operations out of 36 x operation which fails x position of its failing allocation (all)",
	  "the same history without failure; AddressSanitizer; block accounting before and after the failed operation" },
};
int main (int argc, char **argv) { return mc_main (argc, argv, Scen, N (Scen), Props, N (Props)); }
