/* C20: copies of data objects and instruments */
#include "ops.h"
#include <sys/mman.h>
#include <unistd.h>
#include "data_model.h"

/* -------------------------------------------- histories over two objects */
/* A is set up in all ways, B is a copy which may be taken and disposed at any time */
static void object_history (int depth)
{
	BKData d [2];
	Model m [2];
	int live [2] = { 1, 0 };
	Ext e;
	memset (d, 0, sizeof d);
	ext_init (&e);
	model_init (&m [0]);
	if (BKDataInit (&d [0])) mc_harness_error ("init");
	for (int k = 0; k < depth; k ++) {
		int o = live [1] ? mc_choose (2) : 0;
		if (!live [0]) o = 1;
		int nops = DataOps + 2;
		int op = mc_choose (nops);
		if (op < DataOps) {
			data_op (&d [o], &m [o], &e, op, o);
		} else if (op == DataOps) {
			/* copy */
			if (live [1 - o]) { mc_log ("dispose %c", 'A' + 1 - o); BKDispose (&d [1 - o]); model_free (&m [1 - o]); }
			mc_log ("copy %c to %c", 'A' + o, 'A' + 1 - o);
			memset (&d [1 - o], mc_heap_fill, sizeof (BKData));
			int r = BKDataInitCopy (&d [1 - o], &d [o]);
			MC_CHECK (r == 0, "copy-status", "copy returned %d", r);
			model_copy (&m [1 - o], &m [o]);
			if (m [o].nf) MC_CHECK (d [1 - o].frames != d [o].frames, "copy-shared", "the copy uses the frames of the original");
			live [1 - o] = 1;
		} else {
			if (!live [1 - o]) break;
			mc_log ("dispose %c", 'A' + o);
			BKDispose (&d [o]);
			MC_CHECK (!(d [o].object.flags & BKObjectFlagInitialized), "dispose-flag", "object is still initialized after dispose");
			BKDispose (&d [o]);
			model_free (&m [o]);
			live [o] = 0;
		}
		mc_trans (1);
		uint64_t h = 0;
		for (int i = 0; i < 2; i ++) if (live [i]) { model_check (&m [i], &d [i], i ? "object-B" : "object-A"); h = mc_hash64 (h, model_hash (&m [i]) + i); }
		ext_check (&e);
		MC_CHECK (!live [0] || (d [0].object.flags & BKObjectFlagInitialized), "copy-flag", "object A is not initialized");
		MC_CHECK (!live [1] || (d [1].object.flags & BKObjectFlagInitialized), "copy-flag", "object B is not initialized");
		mc_state (h);
		mc_eval (1);
	}
	for (int i = 0; i < 2; i ++) if (live [i]) { BKDispose (&d [i]); model_free (&m [i]); }
	ext_check (&e);
	MC_CHECK (mc_heap_live == 0, "leak", "%ld blocks leaked", mc_heap_live);
}

/* ------------------------------------------- copies while they are played */
/* Run 0: copies are made by the library.  Run 1: instead of a copy a new object is built
   from scratch which gets the same content.  Everything heard and read must be the same. */
static int Run, Ops [8], Depth, Init0;
/* what an instrument was given */
typedef struct { int env, n, s0, sn, v [8]; } Slot;
typedef struct { int live; Slot s [4]; } Content;
static void c_set (World *w, Content *c, int i, int slot, int env, const int *v, int n, int s0, int sn)
{
	if (slot < 4) {
		Slot *s = &c [i].s [slot];
		s->env = env; s->n = v ? n : 0; s->s0 = s0; s->sn = sn;
		if (v) memcpy (s->v, v, n * (env ? 2 : 1) * sizeof *v);
	}
	if (env) w_env (w, i, slot, v, n, s0, sn); else w_seq (w, i, slot, v, n, s0, sn);
}
static void instr_copy (World *w, Content *c, int to, int from)
{
	w_log (w, "instrument %d: copy of instrument %d", to, from);
	c [to] = c [from];
	if (Run == 0) {
		if (!w->in [to]) w->in [to] = w_obj (w, sizeof (BKInstrument));
		memset (w->in [to], w->fill, sizeof (BKInstrument));
		int r = BKInstrumentInitCopy (w->in [to], w->in [from]);
		MC_CHECK (r == 0, "copy-status", "copy of instrument returned %d", r);
		MC_CHECK (w->in [to]->object.flags & BKObjectFlagInitialized, "copy-flag", "the copy is not initialized");
		return;
	}
	w_instr_init (w, to);
	for (int k = 0; k < 4; k ++) {
		Slot *s = &c [from].s [k];
		BKSequencePhase p [4];
		for (int i = 0; i < 4; i ++) { p [i].steps = s->v [2 * i]; p [i].value = s->v [2 * i + 1]; }
		if (s->n && (s->env ? BKInstrumentSetEnvelope (w->in [to], k, p, s->n, s->s0, s->sn) : BKInstrumentSetSequence (w->in [to], k, s->v, s->n, s->s0, s->sn))) mc_harness_error ("rebuild");
	}
}
static void data_copy (World *w, int to, int from)
{
	w_log (w, "data %d: copy of data %d", to, from);
	if (!w->d [to]) w->d [to] = w_obj (w, sizeof (BKData));
	if (Run == 0) {
		memset (w->d [to], w->fill, sizeof (BKData));
		int r = BKDataInitCopy (w->d [to], w->d [from]);
		MC_CHECK (r == 0, "copy-status", "copy of data returned %d", r);
		MC_CHECK (w->d [to]->object.flags & BKObjectFlagInitialized, "copy-flag", "the copy is not initialized");
		return;
	}
	BKData *a = w->d [from], *b = w->d [to];
	BKInt nf = 0, nc = 0, p = 0, s [2] = { 0, 0 };
	if (BKDataInit (b)) mc_harness_error ("init");
	BKGetAttr (a, BK_NUM_FRAMES, &nf); BKGetAttr (a, BK_NUM_CHANNELS, &nc); BKGetAttr (a, BK_SAMPLE_PITCH, &p); BKGetPtr (a, BK_SAMPLE_SUSTAIN_RANGE, s, sizeof s);
	if (BKSetAttr (b, BK_SAMPLE_PITCH, p)) mc_harness_error ("rebuild");
	/* a range survives shorter frames: set it while there are enough of them */
	if (nf && s [0] != s [1] && (BKDataSetFrames (b, Smp, 40, 1, 1) || BKSetPtr (b, BK_SAMPLE_SUSTAIN_RANGE, s, sizeof s))) mc_harness_error ("rebuild");
	if (nf && BKDataSetFrames (b, a->frames, nf, nc, 1)) mc_harness_error ("rebuild");
}
/* two tracks in two contexts */
static void tracks (World *w, int nch)
{
	for (int i = 0; i < 2; i ++) {
		w_ctx (w, i, nch, 44100);
		w_master (w, i, F (7));
		w_track (w, i, BK_SQUARE);
		w_attach (w, i, i);
		w_set (w, i, BK_MASTER_VOLUME, 20000);
		w_set (w, i, BK_VOLUME, 30000);
		w_set (w, i, BK_INSTRUMENT_DIVIDER, 2);
	}
}
static void both (World *w, int n) { w_gen (w, 0, n); w_gen (w, 1, n); }
static int align (World *w)
{
	int n = BKMax (w->n [0], w->n [1]);
	for (int c = 0; c < 2; c ++) { memset (w_pcm (w, c, n - w->n [c]), 0, (n - w->n [c]) * w->nch [c] * 2); w->n [c] = n; }
	return n;
}
static void same (World *w, int from, const char *what)
{
	int n = w->n [0] - from;
	if (memcmp (w->pcm [0] + from * w->nch [0], w->pcm [1] + from * w->nch [0], n * w->nch [0] * 2)) mc_fail ("copy-sound", "%s: the copy does not sound like the original", what);
}

enum { IOps = 12, IAll = 2 * IOps + 4 };
static void instr_init_content (World *w, Content *c, int kind)
{
	static const int E2 [] = { 2, 3000, 0, 32767, 3, 9000, 4, 0 }, Ep [] = { 3, 1 << 20, 2, -(1 << 20) };
	w_instr_init (w, 0);
	memset (c, 0, 2 * sizeof *c);
	c [0].live = 1;
	switch (kind) {
		case 0: break;
		case 1: c_set (w, c, 0, 0, 0, SeqV, 4, 1, 2); break;
		case 2: c_set (w, c, 0, 0, 1, EnvV, 4, 1, 2); break;
		case 3: for (int k = 0; k < 4; k ++) c_set (w, c, 0, k, 0, k == 0 ? SeqV : k == 1 ? SeqPan : k == 2 ? SeqP : SeqD, 3, k == 1 ? -1 : 0, k == 2 ? 3 : -2); break;
		case 4: c_set (w, c, 0, 0, 1, E2, 4, 2, 1); c_set (w, c, 0, 2, 1, Ep, 2, 0, 2); c_set (w, c, 0, 3, 0, SeqD, 4, 0, 0); break;
		case 5: c_set (w, c, 0, 3, 0, SeqD, 4, 2, 2); break;
		case 6: c_set (w, c, 0, 1, 1, Ep, 2, 1, 1); break;
		case 7: c_set (w, c, 0, 2, 0, SeqP, 1, 0, 1); break;
	}
}
static void instr_script (World *w)
{
	Content c [2];
	w->fill = Run ? 0x11 : 0xee;
	instr_init_content (w, c, Init0);
	tracks (w, 2);
	w_instr (w, 0, 0);
	w_set (w, 0, BK_NOTE, NOTE (70));
	w_gen (w, 0, 33);
	for (int k = 0; k < Depth; k ++) {
		int o = Ops [k], i = o < 2 * IOps ? o / IOps : 0;
		if (o >= 2 * IOps) {
			o -= 2 * IOps;
			if (o < 2) w_set (w, o, BK_NOTE, NOTE (70 + 3 * o));
			else w_set (w, o - 2, BK_NOTE, BK_NOTE_RELEASE);
		} else {
			o %= IOps;
			if (o != 11 && !c [i].live) mc_discard ();
			switch (o) {
				case 0: c_set (w, c, i, 0, 0, SeqV, 2, 0, 2); break;
				case 1: c_set (w, c, i, 0, 1, EnvV, 4, 0, 1); break;
				case 2: c_set (w, c, i, 2, 0, SeqP, 3, 0, 3); break;
				case 3: c_set (w, c, i, 2, 1, EnvV + 2, 2, 0, 2); break;
				case 4: c_set (w, c, i, 0, 0, NULL, 0, 0, 0); break;
				case 5: c_set (w, c, i, 3, 0, SeqD + 1, 3, 0, 1); break;
				case 6: { int e [] = { 3, RMAXV, 4, 20000, 240, 20000, 5, 0 }; memcpy (c [i].s [0].v, e, sizeof e); c [i].s [0].env = 1; c [i].s [0].n = 4; c [i].s [0].s0 = 2; c [i].s [0].sn = 1; w_adsr (w, i, 3, 4, 20000, 5); break; }
				case 7: c_set (w, c, i, 9, 0, SeqV, 2, 0, 0); break;
				case 8: w_instr (w, 0, i); break;
				case 9: w_instr (w, 1, i); break;
				case 10: w_instr_dispose (w, i); BKDispose (w->in [i]); c [i].live = 0; break;
				/* copy the other one */
				case 11: {
					if (!c [1 - i].live) mc_discard ();
					if (c [i].live) w_instr_dispose (w, i);
					instr_copy (w, c, i, 1 - i);
					/* both are heard from the beginning: same sound */
					int from;
					w_ctx_reset (w, 0); w_ctx_reset (w, 1);
					for (int t = 0; t < 2; t ++) { w_reset (w, t); w_set (w, t, BK_VOLUME, 30000); w_instr (w, t, t == 0 ? 1 - i : i); w_set (w, t, BK_NOTE, NOTE (65)); }
					from = align (w);
					both (w, 80);
					w_set (w, 0, BK_NOTE, BK_NOTE_RELEASE); w_set (w, 1, BK_NOTE, BK_NOTE_RELEASE);
					both (w, 70);
					same (w, from, "instrument");
					break;
				}
			}
		}
		both (w, 61);
	}
	for (int t = 0; t < 2; t ++) w_set (w, t, BK_NOTE, NOTE (80));
	both (w, 120);
	for (int t = 0; t < 2; t ++) { w_get_ptrs (w, t); w_get (w, t, BK_NOTE); }
}
static void run_both (Script *s)
{
	memset (&TapeMain, 0, sizeof TapeMain);
	Run = 0;
	World *a = w_run (0, LIB, s, 0, &TapeMain);
	w_leak ("leak");
	Run = 1;
	World *b = w_run (1, LIB, s, 0, &TapeMain);
	w_tail (a, b, "copy", "the run with copies", "the run with objects built from scratch", E_ALL);
	mc_state (w_hash (a));
}
/* the first operation which matters is the copy: it may come first or after others */
static void instr_copies (int depth)
{
	Depth = depth; Init0 = mc_choose (8);
	int copied = 0;
	for (int k = 0; k < depth; k ++) {
		Ops [k] = mc_choose (IAll);
		if (Ops [k] == 2 * IOps - 1) copied = 1;
		/* nothing can be done with the copy before it exists */
		else if (!copied && (Ops [k] / IOps == 1 || Ops [k] == IOps - 1)) mc_discard ();
	}
	if (!copied) mc_discard ();
	run_both (instr_script);
}

enum { DOps = 14, DAll = 2 * DOps + 4 };
static void data_script (World *w)
{
	static BKFrame mine [40];
	int live [2] = { 1, 0 };
	for (int i = 0; i < 40; i ++) mine [i] = Smp [i];
	w->fill = Run ? 0x11 : 0xee;
	tracks (w, 2);
	w_data_init (w, 0);
	if (Init0) w_data_frames (w, 0, Init0 == 1 ? Smp : mine, Init0 == 1 ? 40 : 12, Init0 == 3 ? 2 : 1, Init0 == 1);
	if (Init0 == 1) { BKInt s [2] = { 8, 20 }; BKSetPtr (w->d [0], BK_SAMPLE_SUSTAIN_RANGE, s, sizeof s); w_data_pitch (w, 0, NOTE (2)); }
	if (Init0 == 2) { BKInt s [2] = { 10, -4 }; BKSetPtr (w->d [0], BK_SAMPLE_SUSTAIN_RANGE, s, sizeof s); }
	if (Init0) { w_data (w, 0, BK_SAMPLE, 0); w_set (w, 0, BK_NOTE, NOTE (62)); w_set (w, 0, BK_SAMPLE_REPEAT, BK_REPEAT); }
	w_gen (w, 0, 33);
	for (int k = 0; k < Depth; k ++) {
		int o = Ops [k], i = o < 2 * DOps ? o / DOps : 0;
		BKDataConvertInfo info;
		if (o >= 2 * DOps) {
			o -= 2 * DOps;
			if (o < 2) w_set (w, o, BK_NOTE, NOTE (62 + 3 * o));
			else w_set (w, o - 2, BK_NOTE, BK_NOTE_RELEASE);
		} else {
			BKInt rg [2] = { 2, 7 };
			o %= DOps;
			if (o != 13 && !live [i]) mc_discard ();
			memset (&info, 0, sizeof info); info.targetNumBits = 9;
			switch (o) {
				case 0: w_data_frames (w, i, Wav, 6, 1, 1); break;
				case 1: w_data_frames (w, i, mine + 5, 16, 1, 0); break;
				case 2: w_data_frames (w, i, mine, 20, 2, 1); break;
				case 3: w_ret (w, 50, BKDataNormalize (w->d [i])); break;
				case 4: w_ret (w, 50, BKDataConvert (w->d [i], &info)); break;
				case 5: w_data_pitch (w, i, -NOTE (3)); break;
				case 6: w_ret (w, 50, BKSetPtr (w->d [i], BK_SAMPLE_SUSTAIN_RANGE, rg, sizeof rg)); break;
				case 7: w_ret (w, 50, BKDataSetData (w->d [i], Smp, 30, 1, BK_8_BIT_UNSIGNED)); break;
				case 8: w_data (w, 0, BK_SAMPLE, i); break;
				case 9: w_data (w, 1, BK_SAMPLE, i); break;
				case 10: w_data (w, 1, BK_WAVEFORM, i); break;
				case 11: w_data_dispose (w, i); BKDispose (w->d [i]); live [i] = 0; break;
				case 12: BKDataDetach (w->d [i]); break;
				case 13: {
					if (!live [1 - i]) mc_discard ();
					if (live [i]) w_data_dispose (w, i);
					data_copy (w, i, 1 - i);
					live [i] = 1;
					int from;
					w_ctx_reset (w, 0); w_ctx_reset (w, 1);
					for (int t = 0; t < 2; t ++) { w_reset (w, t); w_set (w, t, BK_VOLUME, 30000); w_data (w, t, BK_SAMPLE, t == 0 ? 1 - i : i); w_set (w, t, BK_SAMPLE_REPEAT, BK_REPEAT); w_set (w, t, BK_NOTE, NOTE (65)); }
					from = align (w);
					both (w, 70);
					w_set (w, 0, BK_NOTE, BK_NOTE_RELEASE); w_set (w, 1, BK_NOTE, BK_NOTE_RELEASE);
					both (w, 40);
					BKInt nf = 0;
					BKGetAttr (w->d [i], BK_NUM_FRAMES, &nf);
					if (nf) same (w, from, "data");      /* else none of them is taken by the track */
					break;
				}
			}
		}
		both (w, 41);
		/* the content of both */
		for (int d = 0; d < 2; d ++) if (live [d]) {
			BKInt v = 0, s [2] = { 0, 0 };
			BKGetAttr (w->d [d], BK_NUM_FRAMES, &v); w_ev (w, E_USER, d, 1, v);
			if (v) w_ev (w, E_USER, d, 2, mc_hash (0, w->d [d]->frames, v * w->d [d]->numChannels * 2));
			BKGetAttr (w->d [d], BK_NUM_CHANNELS, &v); w_ev (w, E_USER, d, 3, v);
			BKGetAttr (w->d [d], BK_SAMPLE_PITCH, &v); w_ev (w, E_USER, d, 4, v);
			BKGetPtr (w->d [d], BK_SAMPLE_SUSTAIN_RANGE, s, sizeof s); w_ev (w, E_USER, d, 5, s [0] * 65536 + s [1]);
		}
	}
	both (w, 60);
	for (int t = 0; t < 2; t ++) { w_get_ptrs (w, t); w_get (w, t, BK_NOTE); }
	for (int i = 0; i < 40; i ++) if (mine [i] != Smp [i]) mc_fail ("caller-frames", "the caller's frames were changed");
}
static void data_copies (int depth)
{
	Depth = depth; Init0 = mc_choose (4);
	int copied = 0;
	for (int k = 0; k < depth; k ++) {
		Ops [k] = mc_choose (DAll);
		if (Ops [k] == 2 * DOps - 1) copied = 1;
		else if (!copied && (Ops [k] / DOps == 1 || Ops [k] == DOps - 1)) mc_discard ();
	}
	if (!copied) mc_discard ();
	run_both (data_script);
}
/* long sequences and envelopes, several per instrument */
static int Len20, Kind20, After20;
static void long_content (World *w, int i, int n, int other)
{
	static int v [4] [2048];
	for (int k = 0; k < n; k ++) {
		v [0] [k] = 3000 + (k * 7919 + other * 555) % 29000;
		v [1] [k] = (k * 4001 + other * 77) % 60000 - 30000;
		v [2] [k] = ((k * 13 + other) % 9 - 4) << 20;
		v [3] [k] = 1 + (k * 5 + other) % 15;
	}
	int at = n * 2 / 3, len = n / 4;
	if (Kind20 == 1) {
		int m = n > 128 ? 128 : n, e [256];
		for (int k = 0; k < m; k ++) { e [2 * k] = 1 + k % 5; e [2 * k + 1] = v [0] [k]; }
		w_env (w, i, 0, e, m, m / 2, m / 4);
		for (int k = 0; k < m; k ++) { e [2 * k] = k % 4; e [2 * k + 1] = v [2] [k]; }
		w_env (w, i, 2, e, m, m / 2, m / 4);
		w_seq (w, i, 3, v [3], n, at, len);
	}
	else for (int s = 0; s < 4; s ++) if (Kind20 == 0 || s == Kind20 - 2) w_seq (w, i, s, v [s], n, at, len);
}
static void long_script (World *w)
{
	w->fill = Run ? 0x11 : 0xee;
	w_instr_init (w, 0);
	long_content (w, 0, Len20, 0);
	if (Run == 0) {
		if (!w->in [1]) w->in [1] = w_obj (w, sizeof (BKInstrument));
		memset (w->in [1], w->fill, sizeof (BKInstrument));
		MC_CHECK (BKInstrumentInitCopy (w->in [1], w->in [0]) == 0, "copy-status", "copy of instrument failed");
	}
	else { int n = w->nev; w_instr_init (w, 1); long_content (w, 1, Len20, 0); w->nev = n; }
	if (After20 == 1) w_instr_dispose (w, 0);
	if (After20 == 2) long_content (w, 0, Len20 / 2 + 1, 9);
	if (After20 == 3) long_content (w, 0, 2 * Len20, 9);
	tracks (w, 2);
	for (int t = 0; t < 2; t ++) { w_set (w, t, BK_INSTRUMENT_DIVIDER, 1); if (t || After20 != 1) w_instr (w, t, t); w_set (w, t, BK_NOTE, NOTE (60)); }
	both (w, 7 * (Len20 + 20));
	w_set (w, 0, BK_NOTE, BK_NOTE_RELEASE); w_set (w, 1, BK_NOTE, BK_NOTE_RELEASE);
	both (w, 7 * (Len20 / 2 + 20));
	if (After20 == 0) same (w, 0, "instrument");
}
static void long_copies (int unused)
{
	static const int L [] = { 1, 2, 9, 31, 32, 33, 64, 127, 255, 256, 1000 };
	Len20 = L [mc_choose (N (L))]; Kind20 = mc_choose (6); After20 = mc_choose (4);
	run_both (long_script);
}
static const McScenario Scen [] = {
	{ "C20", "object-4", object_history, 4, MC_QUICK },
	{ "C20", "instrument-4", instr_copies, 4, MC_QUICK },
	{ "C20", "sample-4", data_copies, 4, MC_QUICK },
	{ "C20", "long", long_copies, 0, MC_QUICK },
	{ "C20", "object-5", object_history, 5, MC_THOROUGH },
	{ "C20", "instrument-5", instr_copies, 5, MC_THOROUGH },
	{ "C20", "sample-5", data_copies, 5, MC_THOROUGH },
};
static const McPropInfo Props [] = {
	{ "C20", "model_checking", "each execution is one history of changes, copies and disposals of an object and its copy while two tracks play them; it is run with copies made by the library and with objects built from scratch, and both runs must be heard and read the same; states are distinct runs",
	  "8 instruments and 4 data objects x histories of 4 (5) operations out of 28 (32) on original and copy, sequences of up to 1000 values, and data object histories of 4 (5) operations out of 15",
	  "the same history with objects built from scratch instead of copies; comparison of original and copy rendered side by side; plain frame model of data objects; AddressSanitizer and block accounting" },
};
int main (int argc, char **argv) { return mc_main (argc, argv, Scen, N (Scen), Props, N (Props)); }
