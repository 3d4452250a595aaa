/* Relations between runs: replay (C02), isolation (C03), mixing (C04). */
#define W_NT 20
#include "ops.h"

static int Depth, Run;

/* ------------------------------------------------------------- C02 */
static int Set2, Mode2, Dirty [4], NDirty, Body [4], NBody;
static void clock2 (World *w, int i, int n) { if (n % 3 == 2) w_set (w, 1, BK_NOTE, NOTE (60 + 5 * (n % 7))); if (n == 1) w_set (w, 0, BK_PITCH, NOTE (1)); }
static int sample2 (World *w, int i, int ev, int n) { return n < 2 ? BK_REPEAT : BK_PALINDROME; }
static void attach2 (World *w)
{
	w_attach (w, 0, 0); w_attach (w, 1, 0); w_attach (w, 2, 0);
	w_clock_attach (w, 0, 0, -1);
	w_clock_attach (w, 1, 0, -2);
	w_div_clock (w, 0, 0); w_div_ctx (w, 1, 0, BK_CLOCK_TYPE_BEAT);
	w_div_ctx (w, 2, 0, BK_CLOCK_TYPE_EFFECT); w_div_clock (w, 3, 0);
}
static void detach2 (World *w)
{
	for (int i = 0; i < 3; i ++) w_detach (w, i);
	for (int i = 0; i < 2; i ++) w_clock_detach (w, i);
	for (int i = 0; i < 4; i ++) w_div_detach (w, i);
}
static void init2 (World *w)
{
	int s = Set2;
	w->on_clock = clock2; w->on_sample = sample2;
	w_ctx (w, 0, s == 2 ? 2 : s == 3 ? 3 : 1, 44100);
	mat_data (w, 0, 1);
	w_instr_init (w, 0); w_instr_init (w, 1);
	w_track (w, 0, Waves5 [s]); w_track (w, 1, BK_SQUARE); w_unit (w, 2, BK_SAWTOOTH);
	w_clock (w, 0, F (33)); w_clock (w, 1, F (29) + 9); w_div (w, 0, 3); w_div (w, 1, 2); w_div (w, 2, 5); w_div (w, 3, 2);
	attach2 (w);
}
/* settings of the context and of clocks outlive a reset */
static void lasting2 (World *w)
{
	w_kernel (w, 0, Set2 & 1);
	w_master (w, 0, F (20) + 5555);
	w_clock_period (w, 0, F (33) + 777 * Set2);
}
static int Lasting2;
static void setup2 (World *w)
{
	int s = Set2;
	if (!Lasting2) lasting2 (w);
	Lasting2 = 0;
	mat_instr0 (w, 0); mat_instr1 (w, 1);
	for (int i = 0; i < 2; i ++) {
		w_set (w, i, BK_WAVEFORM, Waves5 [(s + 3 * i) % 5]);
		w_set (w, i, BK_TRIANGLE_IGNORES_VOLUME, 0);
		w_sample_cb (w, i, s == 3);
		w_set (w, i, BK_MASTER_VOLUME, 9000 + 1000 * i);
		w_set (w, i, BK_VOLUME, 30000);
	}
	w_set (w, 2, BK_WAVEFORM, BK_SAWTOOTH); w_set (w, 2, BK_VOLUME, 4000); w_set (w, 2, BK_PERIOD, F (3) + 4444 * s); w_set (w, 2, BK_MUTE, 0); w_set (w, 2, BK_DUTY_CYCLE, 4);
	switch (s) {
		case 0: w_set (w, 0, BK_NOTE, NOTE (70)); break;
		case 1: w_data (w, 0, BK_WAVEFORM, 1); w_instr (w, 0, 0); w_set (w, 0, BK_NOTE, NOTE (77)); break;
		case 2: w_instr (w, 0, 1); w_set (w, 0, BK_NOTE, NOTE (62)); break;
		case 3: w_data (w, 0, BK_SAMPLE, 0); w_set (w, 0, BK_NOTE, NOTE (67)); break;
	}
}
enum { Ops2 = TOps + 10 };
static void op2 (World *w, int o)
{
	if (o < TOps) { top (w, 0, o, 0, 1, 0, 1); return; }
	switch (o - TOps) {
		case 0: w_gen (w, 0, 1); break;
		case 1: w_gen (w, 0, 777); break;
		case 2: w_clock_reset (w, 0); break;
		case 3: w_clock_period (w, 0, F (7)); break;
		case 4: w_master (w, 0, F (3)); break;
		case 5: w_kernel (w, 0, 0); break;
		case 6: w_set (w, 2, BK_PHASE, 5); w_set (w, 2, BK_WAVEFORM, BK_NOISE); w_set (w, 2, BK_DUTY_CYCLE, 1); break;
		case 7: w_data (w, 2, BK_SAMPLE, 0); w_range (w, 2, 1, 3, 9); w_set (w, 2, BK_SAMPLE_PERIOD, -RUNIT / 3); w_set (w, 2, BK_SAMPLE_IMMED_RELEASE, 1); break;
		case 8: w_detach (w, 0); break;
		case 9: w_sample_cb (w, 0, 1); w_set (w, 0, BK_MASTER_VOLUME, 333); w_set (w, 2, BK_PHASE_WRAP, 3); break;
	}
}
static void mark (World *w)
{
	w->nev = 0; w->n [0] = 0;
	for (int i = 0; i < NT; i ++) w->t [i].who.n = 0;
	for (int i = 0; i < NK; i ++) w->wk [i].n = 0;
	for (int i = 0; i < NV; i ++) w->wv [i].n = 0;
	w_log (w, "-- from here like a fresh run --");
}
static void replay_script (World *w)
{
	Lasting2 = 0;
	w->fill = Run == 0 ? 0 : Mode2 == 0 ? 0xff : 0x5b;
	init2 (w);
	if (Run && Mode2) {
		w_set (w, 0, BK_MASTER_VOLUME, 12000); w_set (w, 0, BK_VOLUME, 20000); w_set (w, 0, BK_NOTE, NOTE (66)); w_set (w, 2, BK_VOLUME, 3000); w_set (w, 2, BK_PERIOD, F (2)); w_set (w, 2, BK_MUTE, 0);
		w_gen (w, 0, 45);
		for (int k = 0; k < NDirty; k ++) { op2 (w, Dirty [k]); w_gen (w, 0, 30); }
		if (Mode2 < 4 && NBody && !(Body [0] & 1)) { lasting2 (w); Lasting2 = 1; }
		if (Mode2 == 1) { w_ctx_reset (w, 0); w_reset (w, 0); w_reset (w, 1); if (w->c [0]) BKUnitReset (w->t [2].u); }
		if (Mode2 == 2) { w_reset (w, 1); w_reset (w, 0); BKUnitReset (w->t [2].u); w_ctx_reset (w, 0); }
		if (Mode2 == 3) {
			detach2 (w);
			w_ctx_reset (w, 0);
			w_reset (w, 0); w_reset (w, 1); BKUnitReset (w->t [2].u);
			for (int i = 0; i < 4; i ++) w_div_reset (w, i);        /* detached dividers are not reset by the context */
		}
		if (Mode2 == 4) {                          /* everything disposed and created again in the same memory */
			for (int i = 0; i < 3; i ++) w_dispose (w, i);
			w_clock_dispose (w, 0); w_clock_dispose (w, 1); for (int i = 0; i < 4; i ++) w_div_dispose (w, i);
			w_ctx_dispose (w, 0);
			w_data_dispose (w, 0); w_data_dispose (w, 1); w_instr_dispose (w, 0); w_instr_dispose (w, 1);
			memset (w->c [0], 0xff, sizeof (BKContext)); memset (w->t [0].t, 0xee, sizeof (BKTrack)); memset (w->k [0], 0xdd, sizeof (BKClock));
			init2 (w);
		}
		/* what an operation has detached is attached again */
		int gone = w->t [0].t->unit.ctx == NULL;
		if (Mode2 < 3 && gone) detach2 (w);
		if (Mode2 == 3 || gone) {
			/* the master clock stays attached as in a fresh context after the first track */
			attach2 (w);
		}
	}
	/* the fresh run gets them here */
	if (Mode2 && Mode2 < 4 && !Run && NBody && !(Body [0] & 1)) { lasting2 (w); Lasting2 = 1; }
	mark (w);
	setup2 (w);
	for (int k = 0; k < NBody; k ++) { w_gen (w, 0, 50); op2 (w, Body [k]); }
	w_gen (w, 0, 150);
	w_get_all (w, 0); w_get_all (w, 1); w_get_all (w, 2);
	w_ev (w, E_USER, 0, 0, w_time (w, 0));
}
static void replay (int par)
{
	NDirty = par / 10; NBody = par % 10;
	Set2 = mc_choose (4);
	Mode2 = mc_choose (5);
	if (Mode2) for (int k = 0; k < NDirty; k ++) Dirty [k] = mc_choose (Ops2);
	for (int k = 0; k < NBody; k ++) Body [k] = mc_choose (Ops2);
	memset (&TapeMain, 0, sizeof TapeMain);
	Run = 0; mc_heap_fill = 0;
	World *a = w_run (1, LIB, replay_script, 0, &TapeMain);
	Run = 1; mc_heap_fill = 0xd7;
	w_leak ("leak");
	World *b = w_run (0, LIB, replay_script, 0, &TapeMain);
	w_leak ("leak");
	w_tail (b, a, "replay", Mode2 ? "the reset context" : "other memory", "a fresh context", E_ALL);
	mc_state (w_hash (a));
}
/* the same calls twice in one process: nothing is kept in static memory */
static int Twice [3];
static void twice_script (World *w)
{
	init2 (w); setup2 (w);
	for (int k = 0; k < Depth; k ++) { w_gen (w, 0, 40); op2 (w, Twice [k]); }
	w_gen (w, 0, 100);
}
static void twice (int depth)
{
	Depth = depth; Set2 = mc_choose (4);
	for (int k = 0; k < depth; k ++) Twice [k] = mc_choose (Ops2);
	memset (&TapeMain, 0, sizeof TapeMain);
	World *a = w_run (0, LIB, twice_script, 0, &TapeMain);
	World *b = w_run (1, LIB, twice_script, 0, &TapeMain);
	w_tail (b, a, "replay", "the second run", "the first run", E_ALL);
	mc_state (w_hash (a));
}

/* ------------------------------------------------------------- C03 */
static int OpC [2] [4], Order [16], Share;
static void clock3 (World *w, int i, int n) { w_set (w, i, BK_NOTE, NOTE (58 + 4 * (n % 9))); }
static void setup3 (World *w, int c, int s)
{
	int t = 2 * c;
	w->on_sample = sample2;
	w_ctx (w, c, 1 + (s & 1), c ? 32000 : 44100);
	w_kernel (w, c, s & 1);
	w_master (w, c, F (20 + 3 * c));
	for (int i = t; i < t + 2; i ++) {
		w_track (w, i, Waves5 [(s + i) % 5]);
		w_attach (w, i, c);
		w_set (w, i, BK_MASTER_VOLUME, 9000);
		w_set (w, i, BK_VOLUME, 30000);
		w_set (w, i, BK_NOTE, NOTE (65 + 5 * i));
	}
	w->on_clock = clock3;
	w_clock (w, t, F (77)); w_clock_attach (w, t, c, -1);
	w_sample_cb (w, t, 1);
}
static void material3 (World *w)
{
	mat_data (w, 0, 1);
	w_instr_init (w, 0); w_instr_init (w, 1); mat_instr0 (w, 0); mat_instr1 (w, 1);
	mat_data (w, 2, 3);
	w_instr_init (w, 2); w_instr_init (w, 3); mat_instr0 (w, 2); mat_instr1 (w, 3);
}
static int Set3 [2], N3;
static void isolated_script (World *w)
{
	int k [2] = { 0, 0 };
	material3 (w);
	for (int i = 0; i < N3; i ++) {
		int c = Order [i], n = k [c] ++, own = 2 * c;
		if (Run < 2 && c != Run) continue;
		if (n == 0) setup3 (w, c, Set3 [c]);
		else if (OpC [c] [n - 1] < TOps) top (w, 2 * c, OpC [c] [n - 1], own, own + 1, own, own + 1);
		else if (OpC [c] [n - 1] == TOps) w_ctx_reset (w, c);
		else if (OpC [c] [n - 1] == TOps + 1) { w_dispose (w, 2 * c + 1); w_clock_dispose (w, 2 * c); w_clock (w, 2 * c, F (5)); }
		else if (OpC [c] [n - 1] == TOps + 2) w_gento (w, c, w_time (w, c) + F (55) / 2, 0);
		else w_data_frames (w, own, Wav, 6, 1, 0);
		w_gen (w, c, 60);
	}
}
static void isolated (int par)
{
	int na = par / 10, nb = par % 10, left [2] = { na + 1, nb + 1 };
	static const int Few [] = { 0, 4, 6, 8, TOps, TOps + 1, TOps + 2, TOps + 3 };
	for (int k = 0; k < na; k ++) OpC [0] [k] = mc_choose (TOps + 4);
	for (int k = 0; k < nb; k ++) OpC [1] [k] = Few [mc_choose (N (Few))];
	Set3 [0] = mc_choose (2) * 2; Set3 [1] = Set3 [0] + 1;
	N3 = 0;
	while (left [0] || left [1]) { int c = left [0] && left [1] ? mc_choose (2) : left [0] ? 0 : 1; Order [N3 ++] = c; left [c] --; }
	World *r [3];
	for (Run = 0; Run < 3; Run ++) {
		memset (&TapeMain, 0, sizeof TapeMain);
		r [Run] = w_run (Run == 2 ? 0 : Run + 1, LIB, isolated_script, 0, &TapeMain);
	}
	for (int c = 0; c < 2; c ++) w_cmp_pcm (r [2], c, r [c], c, "isolation", "the alternating run", c ? "context 1 alone" : "context 0 alone");
	mc_state (w_hash (r [2]));
}
/* tracks of one context share instruments and data or have their own */
static int Ops3 [4] [2];
enum { SOps = TOps + 8 };
static void both_seq (World *w, int i) { static const int v [] = { 5000, 32767, 800 }; w_seq (w, i, 0, v, 3, 1, 2); }
static void share_script (World *w)
{
	int d = Run ? 2 : 0;                            /* objects of track 1 */
	w->on_sample = sample2;
	w_ctx (w, 0, 1, 44100);
	w_master (w, 0, F (20));
	material3 (w);
	for (int i = 0; i < 2; i ++) {
		w_track (w, i, i ? BK_SAWTOOTH : BK_SQUARE);
		w_attach (w, i, 0);
		w_set (w, i, BK_MASTER_VOLUME, 9000 + 3000 * i);
		w_set (w, i, BK_VOLUME, 30000);
		if (Share == 0) w_instr (w, i, i ? d : 0);
		if (Share == 1) w_instr (w, i, i ? d + 1 : 1);
		if (Share == 2) w_data (w, i, BK_SAMPLE, i ? d : 0);
		if (Share == 3) { w_data (w, i, BK_WAVEFORM, i ? d + 1 : 1); w_instr (w, i, i ? d : 0); }
		w_set (w, i, BK_NOTE, NOTE (65 + 8 * i));
		/* the first one wears its sample out before the second one gets it */
		if (Share == 4 && i == 0) {
			w_data (w, 0, BK_SAMPLE, 0); w_set (w, 0, BK_SAMPLE_REPEAT, BK_REPEAT);
			w_gen (w, 0, 333); w_set (w, 0, BK_SAMPLE_REPEAT, BK_PALINDROME); w_gen (w, 0, 200);
			w_range (w, 0, 1, 5, 9); w_gen (w, 0, 100); w_set (w, 0, BK_NOTE, BK_NOTE_RELEASE); w_range (w, 0, 0, 20, 3); w_set (w, 0, BK_NOTE, NOTE (90)); w_gen (w, 0, 100);
		}
		if (Share == 4 && i == 1) w_data (w, 1, BK_SAMPLE, d);
		w_gen (w, 0, 15);
	}
	for (int k = 0; k < Depth; k ++) {
		int t = Ops3 [k] [0], o = Ops3 [k] [1], own = t ? d : 0;
		if (o < TOps) top (w, t, o, own, own + 1, own, own + 1);
		/* operations on both copies */
		else for (int i = 0; i < 4; i += 2) {
			if (i && !Run) break;
			switch (o - TOps) {
				case 0: mat_instr1 (w, i); break;
				case 1: both_seq (w, i); break;
				case 2: w_instr_dispose (w, i); w_instr_init (w, i); mat_instr0 (w, i); break;
				case 3: w_data_frames (w, i, Wav, 6, 1, 1); break;
				case 4: w_data_dispose (w, i); w_data_init (w, i); w_data_frames (w, i, Smp, 20, 1, 0); break;
				case 5: w_data_frames (w, i + 1, Smp, 16, 1, 1); break;
				case 6: w_data_frames (w, i + 1, Smp, 20, 2, 0); break;
				case 7: w_data_pitch (w, i, -NOTE (3)); break;
			}
		}
		w_gen (w, 0, 50);
	}
	w_gen (w, 0, 40);
	for (int i = 0; i < 2; i ++) { for (int k = 0; k < N (UnitAttrs); k ++) w_get (w, i, UnitAttrs [k]); w_get_range (w, i, 0); w_get_range (w, i, 1); }
}
static void share (int depth)
{
	Depth = depth; Share = mc_choose (5);
	for (int k = 0; k < depth; k ++) { Ops3 [k] [1] = mc_choose (SOps); Ops3 [k] [0] = Ops3 [k] [1] < TOps ? mc_choose (2) : 0; }
	memset (&TapeMain, 0, sizeof TapeMain);
	Run = 0;
	World *a = w_run (0, LIB, share_script, 0, &TapeMain);
	w_leak ("leak");
	Run = 1;
	World *b = w_run (1, LIB, share_script, 0, &TapeMain);
	w_tail (a, b, "sharing", "the run with shared objects", "the run with own objects", E_GET | E_SAMPLE);
	mc_state (w_hash (a));
}

/* ------------------------------------------------------------- C04 */
static int Set4, Ops4 [4] [2], Only, NT4, Nch4, Perm4 [4];
static void begin4 (World *w)
{
	w->on_sample = sample2;
	w_ctx (w, 0, Nch4, 44100);
	w_kernel (w, 0, Set4 & 1);
	w_master (w, 0, F (20));
	mat_data (w, 0, 1);
	w_instr_init (w, 0); w_instr_init (w, 1); mat_instr0 (w, 0); mat_instr1 (w, 1);
}
static void track4 (World *w, int i)
{
	static const int Vol [4] = { 9000, 5000, 12000, 3000 };
	w_set (w, i, BK_MASTER_VOLUME, (Set4 == 3 ? 2 : 1) * Vol [i % 4] / (NT4 > 4 ? 3 : 1));
	w_set (w, i, BK_VOLUME, 30000);
	if (Nch4 == 2) w_set (w, i, BK_PANNING, 9000 * (i % 4 - 1));
	if (i % 4 == 2) w_data (w, i, BK_SAMPLE, 0);
	if (i % 4 == 3) { w_data (w, i, BK_WAVEFORM, 1); }
	if (Set4 == 1 && i % 4 < 2) w_instr (w, i, i % 4);
	if (Set4 == 2) { static const int e [] = { 7, NOTE (1) }; w_effect (w, i, BK_EFFECT_VIBRATO, e, 2); }
	w_set (w, i, BK_NOTE, NOTE (i % 4 == 2 ? 60 + i / 4 : 64 + 7 * i % 29));
}
static int bit (int x, int y) { return (x >> y) & 1; }
/* tracks of mask Only sound, all are attached */
static void mix_script (World *w)
{
	begin4 (w);
	w_unit (w, NT - 1, BK_SQUARE); w_attach (w, NT - 1, 0);       /* silent; without any track there are no frames */
	for (int i = 0; i < NT4; i ++) { w_track (w, i, Waves5 [(Set4 + i) % 5]); w_attach (w, i, 0); if (bit (Only, i)) track4 (w, i); }
	for (int k = 0; k < Depth; k ++) {
		w_gen (w, 0, 37);
		int t = Ops4 [k] [0], o = Ops4 [k] [1];
		if (!bit (Only, t)) continue;
		if (o < TOps) top (w, t, o, 0, 1, 0, 1);
		else if (o == TOps) w_set (w, t, BK_MUTE, 1);
		else if (o == TOps + 1) w_detach (w, t);
		else if (o == TOps + 2) w_set (w, t, BK_MASTER_VOLUME, 700);
		else if (o == TOps + 3) { w_reset (w, t); w_set (w, t, BK_MASTER_VOLUME, 5000); w_set (w, t, BK_NOTE, NOTE (77)); }
	}
	w_gen (w, 0, 120);
}
static void mix_sum (void)
{
	Only = (1 << NT4) - 1;
	World *a = w_run (0, LIB, mix_script, 0, &TapeMain);
	static int32_t sum [MAXPCM];
	int n = a->n [0] * Nch4;
	memset (sum, 0, n * sizeof *sum);
	for (int i = 0; i < NT4; i ++) {
		Only = 1 << i;
		World *b = w_run (1, LIB, mix_script, 0, &TapeMain);
		MC_CHECK (b->n [0] == a->n [0], "mix", "%d frames with one track, %d with all", b->n [0], a->n [0]);
		for (int k = 0; k < n; k ++) {
			if (b->pcm [0] [k] == 32767 || b->pcm [0] [k] == -32768) mc_discard ();
			sum [k] += b->pcm [0] [k];
		}
	}
	for (int k = 0; k < n; k ++) {
		int s = rclamp (sum [k], -32768, 32767);
		MC_CHECK (abs (a->pcm [0] [k] - s) <= NT4, "mix", "frame %d, channel %d: %d, sum of single tracks is %d", k / Nch4, k % Nch4, a->pcm [0] [k], s);
	}
	mc_state (w_hash (a));
}
static void mix (int par)
{
	NT4 = par / 10; Depth = par % 10;
	Set4 = mc_choose (4); Nch4 = 1 + mc_choose (2);
	for (int k = 0; k < Depth; k ++) { Ops4 [k] [0] = mc_choose (NT4); Ops4 [k] [1] = mc_choose (TOps + 4); }
	memset (&TapeMain, 0, sizeof TapeMain);
	mix_sum ();
}
/* many tracks: together, alone and in another order */
static void crowd_order_script (World *w)
{
	begin4 (w);
	for (int k = 0; k < NT4; k ++) { int i = Run ? (Run % 2 ? k + Run / 2 : NT4 - 1 - k + Run / 2) % NT4 : k; w_track (w, i, Waves5 [(Set4 + i) % 5]); w_attach (w, i, 0); track4 (w, i); }
	for (int k = 0; k < Depth; k ++) { w_gen (w, 0, 37); top (w, Ops4 [k] [0], Ops4 [k] [1], 0, 1, 0, 1); }
	w_gen (w, 0, 100);
}
static void crowd (int depth)
{
	static const int Many [] = { 5, 8, 9, 16 };
	NT4 = Many [mc_choose (N (Many))]; Depth = depth;
	Set4 = mc_choose (3); Nch4 = 1 + mc_choose (2);
	for (int k = 0; k < Depth; k ++) { int t [4] = { 0, NT4 / 2, NT4 - 1, 3 }; Ops4 [k] [0] = t [mc_choose (4)]; Ops4 [k] [1] = mc_choose (TOps); }
	int turns = mc_choose (4);
	memset (&TapeMain, 0, sizeof TapeMain);
	if (turns) {
		Run = 0;
		World *a = w_run (0, LIB, crowd_order_script, 0, &TapeMain);
		Run = turns == 1 ? 2 : turns == 2 ? 3 : 2 * (NT4 / 2) + 1;
		World *b = w_run (1, LIB, crowd_order_script, 0, &TapeMain);
		w_cmp_pcm (a, 0, b, 0, "order", "one order of many tracks", "another order");
		mc_state (w_hash (a));
		return;
	}
	mix_sum ();
}
/* order of attachment */
static void order_script (World *w)
{
	begin4 (w);
	for (int i = 0; i < NT4; i ++) { int t = Run ? Perm4 [i] : i; w_track (w, t, Waves5 [(Set4 + t) % 5]); w_attach (w, t, 0); }
	for (int i = 0; i < NT4; i ++) { int t = Run ? Perm4 [i] : i; track4 (w, t); }
	for (int k = 0; k < Depth; k ++) { w_gen (w, 0, 37); top (w, Ops4 [k] [0], Ops4 [k] [1], 0, 1, 0, 1); }
	w_gen (w, 0, 100);
}
static void order (int par)
{
	int used = 0;
	NT4 = par / 10; Depth = par % 10;
	Set4 = mc_choose (3); Nch4 = 2;
	for (int i = 0; i < NT4; i ++) { int k = mc_choose (NT4 - i), t = 0; for (;; t ++) if (!bit (used, t) && k -- == 0) break; Perm4 [i] = t; used |= 1 << t; }
	for (int k = 0; k < Depth; k ++) { Ops4 [k] [0] = mc_choose (NT4); Ops4 [k] [1] = mc_choose (TOps); }
	memset (&TapeMain, 0, sizeof TapeMain);
	Run = 0;
	World *a = w_run (0, LIB, order_script, 0, &TapeMain);
	Run = 1;
	World *b = w_run (1, LIB, order_script, 0, &TapeMain);
	w_cmp_pcm (a, 0, b, 0, "order", "one order of tracks", "another order");
	mc_state (w_hash (a));
}
/* tracks which add nothing */
static int Silent;
static const int SeqZero [] = { 0, 0 };
static void silent_script (World *w)
{
	begin4 (w);
	w_track (w, 0, Waves5 [Set4]); w_attach (w, 0, 0);
	if (Run) {
		w_track (w, 1, Waves5 [(Set4 + 1) % 5]); w_attach (w, 1, 0);
		if (Silent != 1) w_set (w, 1, BK_MASTER_VOLUME, 20000);
		switch (Silent) {
			case 0: break;                             /* no note */
			case 1: w_set (w, 1, BK_NOTE, NOTE (77)); break;
			case 2: w_set (w, 1, BK_VOLUME, 0); w_set (w, 1, BK_NOTE, NOTE (77)); break;
			case 3: w_set (w, 1, BK_NOTE, NOTE (77)); w_set (w, 1, BK_NOTE, BK_NOTE_MUTE); break;
			case 4: w_set (w, 1, BK_NOTE, NOTE (77)); w_set (w, 1, BK_MUTE, 1); break;
			case 5: w_set (w, 1, BK_NOTE, NOTE (77)); w_detach (w, 1); break;
			case 6: w_set (w, 1, BK_NOTE, NOTE (77)); w_set (w, 1, BK_NOTE, BK_NOTE_RELEASE); break;
			case 7: w_data (w, 1, BK_SAMPLE, 0); break;
			case 8: w_set (w, 1, BK_NOTE, NOTE (77)); w_dispose (w, 1); break;
			case 9: w_set (w, 1, BK_NOTE, NOTE (77)); w_clear (w, 1); break;
			case 10: w_set (w, 1, BK_NOTE, NOTE (77)); w_reset (w, 1); break;
			case 12: { static const int e [] = { 60000 }; w_set (w, 1, BK_WAVEFORM, BK_TRIANGLE); w_set (w, 1, BK_VOLUME, 0); w_set (w, 1, BK_NOTE, NOTE (77)); w_effect (w, 1, BK_EFFECT_VOLUME_SLIDE, e, 1); w_set (w, 1, BK_VOLUME, 50); } break;   /* still 0 */
			case 13: w_instr_init (w, 2); w_seq (w, 2, 0, SeqZero, 2, 0, 2); w_instr (w, 1, 2); w_set (w, 1, BK_WAVEFORM, BK_TRIANGLE); w_set (w, 1, BK_NOTE, NOTE (77)); break;
			case 11: w_instr (w, 1, 0); { static const int e [] = { 5, 20000 }; w_effect (w, 1, BK_EFFECT_TREMOLO, e, 2); } break;
		}
	}
	track4 (w, 0);
	for (int k = 0; k < Depth; k ++) {
		w_gen (w, 0, 37);
		int t = Ops4 [k] [0], o = Ops4 [k] [1];
		if (!t) top (w, 0, o, 0, 1, 0, 1);
		else if (Run && Silent != 8) top (w, 1, o, 0, 1, 0, 1);
	}
	w_gen (w, 0, 100);
}
static void silent (int depth)
{
	/* operations on the silent track which keep it silent */
	static const int Quiet [] = { 4, 5, 6, 7, 8, 10, 11, 13, 15, 16, 17, 18, 19, 21, 24, 25 };
	Depth = depth; Set4 = mc_choose (4); Nch4 = 1 + mc_choose (2); Silent = mc_choose (14);
	for (int k = 0; k < depth; k ++) { Ops4 [k] [0] = mc_choose (2); Ops4 [k] [1] = Ops4 [k] [0] ? Quiet [mc_choose (N (Quiet))] : mc_choose (TOps); }
	for (int k = 0; k < depth && Silent == 13; k ++) if (Ops4 [k] [0] && (Ops4 [k] [1] == 4 || Ops4 [k] [1] == 5 || Ops4 [k] [1] == 25)) mc_discard ();      /* instrument makes it silent */
	memset (&TapeMain, 0, sizeof TapeMain);
	Run = 0;
	World *a = w_run (0, LIB, silent_script, 0, &TapeMain);
	Run = 1;
	World *b = w_run (1, LIB, silent_script, 0, &TapeMain);
	w_cmp_pcm (b, 0, a, 0, "silent", "with a silent track", "without");
	mc_state (w_hash (a));
}
/* channels of a unit: each one like a mono context with the volume of that channel */
static int Vol4 [8], Ch4;
static const int UOps4 [] [2] = { { BK_PERIOD, 5 << 20 | 12345 }, { BK_PHASE, 3 }, { BK_WAVEFORM, BK_NOISE }, { BK_PHASE_WRAP, 4 }, { BK_WAVEFORM, BK_TRIANGLE }, { BK_DUTY_CYCLE, 7 }, { BK_MUTE, 1 }, { BK_WAVEFORM, BK_SINE }, { BK_SAMPLE_PERIOD, -700000 }, { BK_VOLUME, 15000 }, { BK_VOLUME_0 + 5, 4000 }, { BK_VOLUME_0 + 1, 0 } };
static int UOp4 [3];
static const int UVol [] = { 0, 1, 9000, 32767, 20000 };
static void channel_script (World *w)
{
	int nch = Run ? 1 : Nch4;
	w_ctx (w, 0, nch, 44100);
	w_data_init (w, 0);
	if (Set4 == 7) {                                    /* a sample with another wave in each channel */
		static int16_t many [20 * 8];
		for (int i = 0; i < 20; i ++) for (int c = 0; c < nch; c ++) many [i * nch + c] = ((i + 1) * (Run ? Ch4 + 1 : c + 1) * 7919) % 60000 - 30000;
		w_data_frames (w, 0, many, 20, nch, 1);
	}
	else w_data_frames (w, 0, Smp, 40, 1, 1);
	w_data_init (w, 1); w_data_frames (w, 1, Wav, 6, 1, 1);
	w_unit (w, 0, Set4 < 5 ? Waves5 [Set4] : 0);
	if (Set4 == 8) { w_ctx (w, 1, 1, 44100); w_attach (w, 0, 1); w_set (w, 0, BK_VOLUME, 8000); w_gen (w, 1, 3); w_detach (w, 0); }      /* was attached to a context with one channel */
	w_attach (w, 0, 0);
	if (Set4 == 5) w_data (w, 0, BK_WAVEFORM, 1);
	if (Set4 == 6 || Set4 == 7) { w_data (w, 0, BK_SAMPLE, 0); w_set (w, 0, BK_SAMPLE_REPEAT, BK_PALINDROME); w_set (w, 0, BK_SAMPLE_PERIOD, 700000); }
	w_set (w, 0, BK_PERIOD, 3 << 20 | 54321);
	if (Set4 != 8) for (int c = 0; c < nch; c ++) w_set (w, 0, BK_VOLUME_0 + c, Vol4 [Run ? Ch4 : c]);
	w_set (w, 0, BK_MUTE, 0);
	for (int k = 0; k < Depth; k ++) {
		int a = UOps4 [UOp4 [k]] [0];
		w_gen (w, 0, 33);
		if (Run && a > BK_VOLUME_0 && a <= BK_VOLUME_0 + 7) { if (a != BK_VOLUME_0 + Ch4) continue; a = BK_VOLUME_0; }
		w_set (w, 0, a, UOps4 [UOp4 [k]] [1]);
	}
	w_gen (w, 0, 80);
}
static void channels (int depth)
{
	Depth = depth; Set4 = mc_choose (9); Nch4 = 1 + mc_choose (8);
	int pattern = Set4 == 8 ? 0 : mc_choose (25);
	for (int c = 0; c < 8; c ++) Vol4 [c] = UVol [c % 2 ? pattern / 5 : (pattern + c / 2) % 5];
	int zero = 0;                                       /* a unit without any volume stands still: no volume after silence */
	for (int c = 0; c < Nch4; c ++) if (Set4 != 8 && !Vol4 [c]) zero |= 1 << c;
	for (int k = 0; k < depth; k ++) {
		UOp4 [k] = mc_choose (N (UOps4));
		int a = UOps4 [UOp4 [k]] [0] - BK_VOLUME_0, v = UOps4 [UOp4 [k]] [1];
		if (a + BK_VOLUME_0 == BK_VOLUME && zero) mc_discard ();
		if (a >= 0 && a < 8) { if (v && bit (zero, a)) mc_discard (); if (!v) zero |= 1 << a; }
	}
	memset (&TapeMain, 0, sizeof TapeMain);
	Run = 0;
	World *a = w_run (0, LIB, channel_script, 0, &TapeMain);
	Run = 1;
	for (Ch4 = 0; Ch4 < Nch4; Ch4 ++) {
		World *b = w_run (1, LIB, channel_script, 0, &TapeMain);
		MC_CHECK (a->n [0] == b->n [0], "channels", "%d frames in %d channels, %d in one", a->n [0], Nch4, b->n [0]);
		for (int k = 0; k < a->n [0]; k ++) MC_CHECK (a->pcm [0] [k * Nch4 + Ch4] == b->pcm [0] [k], "channels", "frame %d: channel %d of %d is %d, alone it is %d", k, Ch4, Nch4, a->pcm [0] [k * Nch4 + Ch4], b->pcm [0] [k]);
	}
	mc_state (w_hash (a));
}
/* volumes of the channels of a track */
static const int V4 [] = { 0, 1, 2, 77, 8191, 16384, 20000, 32766, 32767 }, Pan4 [] = { 0, 1, -1, 5, 8192, -8192, 16384, -16384, 30000, -30000, 32766, -32766, 32767, -32767 };
static void scale_script (World *w)
{
	int m = V4 [w_choose (w, N (V4))], v = V4 [w_choose (w, N (V4))], p = Pan4 [w_choose (w, N (Pan4))], nch = 1 + w_choose (w, 8), order = w_choose (w, 3);
	w_ctx (w, 0, nch, 44100);
	w_track (w, 0, BK_SAWTOOTH);
	if (order != 1) w_attach (w, 0, 0);
	w_set (w, 0, order == 2 ? BK_PANNING : BK_MASTER_VOLUME, order == 2 ? p : m);
	w_set (w, 0, BK_VOLUME, v);
	w_set (w, 0, order == 2 ? BK_MASTER_VOLUME : BK_PANNING, order == 2 ? m : p);
	w_set (w, 0, BK_NOTE, NOTE (80));
	if (order == 1) w_attach (w, 0, 0);
	w_gen (w, 0, 30);
	for (int c = 0; c < nch; c ++) {
		/* volume and master volume are factors; panning lowers the volume of the far channel */
		double x = (double) v * m / 32768;
		if (nch == 2 && p) x *= c == 0 ? (p > 0 ? (32767.0 - p) / 32767 : 1) : p < 0 ? (32767.0 + p) / 32767 : 1;
		BKInt got = -1;
		if (BKUnitGetAttr (&w->t [0].t->unit, BK_VOLUME_0 + c, &got)) mc_fail ("volume", "volume of channel %d cannot be read", c);
		MC_CHECK (fabs (got - x) < 3.01, "volume", "master volume %d, volume %d, panning %d: channel %d of %d is %d, expected %.2f", m, v, p, c, nch, got, x);
	}
}
static void scaling (int par)
{
	memset (&TapeMain, 0, sizeof TapeMain);
	World *a = w_run (0, LIB, scale_script, 0, &TapeMain);
	mc_state (w_hash (a));
}
static const McScenario Scen [] = {
	{ "C02", "replay-1-1", replay, 11, MC_QUICK },
	{ "C02", "replay-2-0", replay, 20, MC_QUICK },
	{ "C02", "twice-1", twice, 1, MC_QUICK },
	{ "C02", "twice-2", twice, 2, MC_QUICK },
	{ "C02", "replay-2-1", replay, 21, MC_QUICK },
	{ "C02", "replay-1-2", replay, 12, MC_QUICK },
	{ "C02", "replay-3-1", replay, 31, MC_THOROUGH },
	{ "C03", "contexts-1-1", isolated, 11, MC_QUICK },
	{ "C03", "contexts-2-1", isolated, 21, MC_QUICK },
	{ "C03", "sharing-2", share, 2, MC_QUICK },
	{ "C03", "sharing-3", share, 3, MC_THOROUGH },
	{ "C03", "contexts-2-2", isolated, 22, MC_THOROUGH },
	{ "C04", "scaling", scaling, 0, MC_QUICK },
	{ "C04", "channels-1", channels, 1, MC_QUICK },
	{ "C04", "silent-1", silent, 1, MC_QUICK },
	{ "C04", "order-3-1", order, 31, MC_QUICK },
	{ "C04", "mix-2-2", mix, 22, MC_QUICK },
	{ "C04", "mix-4-1", mix, 41, MC_QUICK },
	{ "C04", "channels-2", channels, 2, MC_QUICK },
	{ "C04", "silent-2", silent, 2, MC_QUICK },
	{ "C04", "crowd-1", crowd, 1, MC_QUICK },
	{ "C04", "order-4-2", order, 42, MC_THOROUGH },
	{ "C04", "mix-3-3", mix, 33, MC_THOROUGH },
};
static const McPropInfo Props [] = {
	{ "C02", "model_checking", "each execution runs one history on a fresh context and on used or differently filled memory; states are distinct outputs",
	  "4 set-ups with two clocks and four dividers x 5 ways (other memory contents, reset of context and tracks in both orders, detached and attached again, disposed and created again) x histories of 1-2 earlier and 0-2 following operations of 36",
	  "bit-identical PCM, events and attribute values" },
	{ "C03", "model_checking", "each execution runs two contexts alternately and alone, or tracks with shared and own objects; states are distinct outputs",
	  "all interleavings of histories of 2-3 and 2-3 steps of 30 operations; all histories of 2 (3) of 60 operations on two tracks sharing instruments or data (fresh or worn out by the first track), including changes of the shared objects",
	  "bit-identical PCM, events and attribute values" },
	{ "C04", "model_checking", "each execution runs tracks together, alone and in another order; states are distinct outputs",
	  "2-4 and 5-16 tracks x 4 set-ups x histories of 1-2 (3) of 30 operations; all orders of 3 (4) tracks; 14 kinds of silent tracks; 1-8 channels x 25 volume patterns x 7 waveforms; 9 x 9 volumes x 14 pannings x 8 channel counts",
	  "sum of the single tracks; mono contexts; formula of volume and panning" },
};
int main (int argc, char **argv) { return mc_main (argc, argv, Scen, N (Scen), Props, N (Props)); }
