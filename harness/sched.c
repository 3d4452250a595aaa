/* Scheduling: requests (C01), clocks and dividers (C07), generating to a time (C08). */
#include "world.h"

#define NOTE(n) ((n) << 20)
#define F(n) ((int64_t) (n) * RUNIT)
static int Depth, Kind, Var;

/* ------------------------------------------------------------- C07 */
static void now (World *w, int c) { w_ev (w, E_USER, c, 1, w_time (w, c)); }
enum { Ops7 = 24, Hist7 = 34, Move7 = 34 };
static int InCb;                                 /* 0 none, 1 clock, 2 divider */
static int CbIdx;
static void op7 (World *w, int o)
{
	switch (o) {
		case 0: w_clock_detach (w, 1); break;
		case 1: w_clock_detach (w, 0); break;
		case 2: w_clock_detach (w, 2); break;
		case 3: w_clock_reset (w, 0); break;
		case 4: w_clock_reset (w, 1); break;
		case 5: w_clock_reset (w, 2); break;
		case 6: w_clock_attach (w, 3, 0, -1); break;
		case 7: w_clock_attach (w, 3, 0, -2); break;
		case 8: w_clock_attach (w, 3, 0, 1); break;
		case 9: w_clock_attach (w, 1, 0, -1); break;
		case 10: w_clock_period (w, 0, F (5)); break;
		case 11: w_clock_period (w, 1, F (5) / 2); break;
		case 12: w_div_detach (w, 0); break;
		case 13: w_div_detach (w, 1); break;
		case 14: w_div_detach (w, 2); break;
		case 15: w_div_clock (w, 0, 1); break;
		case 16: w_div_clock (w, 4, 0); break;
		case 17: w_div_ctx (w, 1, 0, BK_CLOCK_TYPE_EFFECT); break;
		case 18: w_div_ctx (w, 5, 0, BK_CLOCK_TYPE_BEAT); break;
		case 19: w_div_reset (w, 0); break;
		case 20: w_div_reset (w, 2); break;
		case 21: w_master (w, 0, F (7) / 2); break;
		case 22: w_clock_attach (w, 0, 0, 2); break;
		case 23:
			if (InCb == 1) { w_log (w, "clock %d: next tick in %lld", CbIdx, (long long) (F (17) / 4)); w->kret [CbIdx] = F (17) / 4; }
			else if (InCb == 2) { w_log (w, "divider %d: now 3", CbIdx); w->vret [CbIdx] = 3; }
			else w_clock_detach (w, 3);
			break;
		/* not from callbacks */
		case 24: w_gen (w, 0, 1); break;
		case 25: w_gen (w, 0, 4); break;
		case 26: w_gen (w, 0, 700); break;
		case 27: w_gento (w, 0, (w_time (w, 0) & ~(int64_t) RFRAC) + F (5) / 2, 0); break;
		case 28: w_ctx_reset (w, 0); break;
		case 29: w_clock_attach (w, 3, 1, 0); break;         /* refused: clock 0 is in another context */
		case 30: w_clock_attach (w, 3, 1, -1); break;
		case 31: w_gen (w, 1, 3); break;
		case 32: w_div_ctx (w, 0, 0, 77); break;
		/* a clock goes to another context from its own callback */
		case Move7: if (InCb == 1) { w_clock_detach (w, CbIdx); w_clock_attach (w, CbIdx, 1, -1); } break;
		case 33: w_clock_dispose (w, 1); w_clock (w, 1, F (3)); break;
	}
	now (w, 0);
}
static struct { int src, n, op; } Plan [3];
static int NPlan;
static void fire (World *w, int src, int n, int in, int i)
{
	for (int k = 0; k < NPlan; k ++) if (Plan [k].src == src && Plan [k].n == n) {
		InCb = in; CbIdx = i;
		w_log (w, "  in tick %d of %s %d:", n, in == 1 ? "clock" : "divider", i);
		op7 (w, Plan [k].op);
		InCb = 0;
	}
}
static void on_clock (World *w, int i, int n) { fire (w, i, n, 1, i); }
static void on_div (World *w, int i, int n) { fire (w, 5 + i, n, 2, i); }
static void setup7 (World *w)
{
	w->on_clock = on_clock; w->on_div = on_div;
	w_ctx (w, 0, 1, 44100); w_ctx (w, 1, 1, 44100);
	w_master (w, 0, F (2));
	w_track (w, 5, BK_SQUARE); w_attach (w, 5, 1);
	w_set (w, 5, BK_MASTER_VOLUME, 9000);
	w_clock (w, 0, F (2)); w_clock (w, 1, F (2)); w_clock (w, 2, F (3)); w_clock (w, 3, F (1)); w_clock (w, 4, F (1000));
	for (int i = 0; i < 6; i ++) w_div (w, i, i == 1 ? 2 : 1);
	for (int i = 0; i < 3; i ++) { w_clock_attach (w, i, 0, -1); w_div_clock (w, i, 0); }
	w_div_ctx (w, 3, 0, BK_CLOCK_TYPE_EFFECT);
}
/* an operation which makes a divider move to another list in the course of its own callback is not supported */
static int unsupported (void)
{
	for (int a = 0; a < NPlan; a ++) for (int b = a + 1; b < NPlan; b ++)
		if (Plan [a].src == Plan [b].src && Plan [a].n == Plan [b].n) {
			int x = Plan [a].op, y = Plan [b].op, s = Plan [a].src;
			if (s == 5 && x == 12 && y == 15) return 1;
			if (s == 6 && x == 13 && y == 17) return 1;
			/* whether a divider attached behind one which detaches itself ticks at once is not defined */
			if (s >= 5 && (x == 16 || y == 16) && (x == s + 7 || y == s + 7)) return 1;
			/* nor a clock */
			if (s == 1 && x == 0 && y == 9) return 1;
			if (s == 0 && x == 1 && y == 22) return 1;
			if (s >= 5 && ((x == 0 && y == 9) || (x == 1 && y == 22))) return 1;
		}
	return 0;
}
static void callback_script (World *w)
{
	setup7 (w);
	w_gen (w, 0, 7); now (w, 0);
	w_gen (w, 0, 8); now (w, 0);
	w_gen (w, 1, 4);
}
static void callbacks (int par)
{
	static const int Src [] = { 0, 1, 2, 5, 6, 7, 8 };
	NPlan = par % 10;
	for (int k = 0; k < NPlan; k ++) { Plan [k].src = Src [mc_choose (N (Src))]; Plan [k].n = mc_choose (par >= 10 ? 2 : 3); Plan [k].op = mc_choose (Ops7 + 1); if (Plan [k].op == Ops7) Plan [k].op = Move7; }
	if (unsupported ()) mc_discard ();
	w_check (callback_script, 0, REF, E_ALL, "schedule");
}
static void hist7_script (World *w)
{
	NPlan = 0;
	setup7 (w);
	for (int k = 0; k < Depth; k ++) op7 (w, w_choose (w, Hist7));
	w_gen (w, 0, 9); now (w, 0);
}
/* clocks and dividers which call nothing */
static void silent_script (World *w)
{
	static const int Sil [] = { 0x01, 0x02, 0x07, 0x100, 0x200, 0x700, 0x107, 0xf0f };
	NPlan = 0;
	w->nocb = Sil [w_choose (w, N (Sil))]; w->alloc = w_choose (w, 2);
	setup7 (w);
	for (int k = 0; k < Depth; k ++) op7 (w, w_choose (w, Hist7));
	w_gen (w, 0, 9); now (w, 0);
	w_div_detach (w, 0); w_clock_detach (w, 0);
	w_gen (w, 0, 9); now (w, 0);
}
static void silent7 (int depth) { Depth = depth; w_check (silent_script, 0, REF, E_ALL, "schedule"); }
static void hist7 (int depth) { Depth = depth; w_check (hist7_script, 0, REF, E_ALL, "schedule"); }
/* a callback operation after a history */
static void mixed7_script (World *w)
{
	setup7 (w);
	for (int k = 0; k < Depth; k ++) op7 (w, w_choose (w, Hist7));
	w_gen (w, 0, 9); now (w, 0);
}
static void mixed7 (int depth)
{
	static const int Src [] = { 0, 1, 2, 3, 5, 6, 7, 8 };
	NPlan = 1;
	Plan [0].src = Src [mc_choose (N (Src))]; Plan [0].n = mc_choose (2); Plan [0].op = mc_choose (Ops7);
	Depth = depth;
	w_check (mixed7_script, 0, REF, E_ALL, "schedule");
}
/* the plain rule, without any model: tick n of a clock is n periods after it was attached, every d-th tick fires a divider */
static const int64_t P7 [] = { RUNIT, 3 * RUNIT / 2, 2 * RUNIT, 7 * RUNIT / 3, 10 * RUNIT, 7 * RUNIT - 1, 7 * RUNIT + 1, 100 * RUNIT + 1, 681 * RUNIT, 700 * RUNIT, 3000 * RUNIT, RUNIT / 2 };
static void plain7_script (World *w)
{
	static const int At [] = { 0, 1, 5, 800 }, Step [] = { 1, 7, 2000 };
	int nk = 1 + w_choose (w, 3), step = Step [w_choose (w, 3)], at [3], dv [3], total = step == 1 ? 12 : step == 7 ? 1500 : 4000;
	int64_t p [3], attached [3];
	int firsts [3];
	for (int i = 0; i < nk; i ++) {
		p [i] = P7 [w_choose (w, N (P7))];
		if (p [i] < 3 * RUNIT && total > 12) mc_discard ();
		at [i] = i ? At [w_choose (w, Depth)] : 0;
		firsts [i] = i ? w_choose (w, 2) : 0;
		dv [i] = 1 + w_choose (w, nk < 3 ? 3 : 1);
	}
	w_ctx (w, 0, 1, 44100);
	w_track (w, 0, BK_SQUARE);
	BKDispose (NULL);
	int order [3], no = 0, t = 0;
	for (int i = 0; i < nk; i ++) {
		w_clock (w, i, p [i]);
		w_div (w, i, dv [i]);
		w_div_clock (w, i, i);
	}
	for (int i = 0; i < nk; i ++) {
		while (t < at [i]) { int n = at [i] - t < step ? at [i] - t : step; w_gen (w, 0, n); t += n; }
		attached [i] = w_time (w, 0);
		w_clock_attach (w, i, 0, firsts [i] ? -2 : -1);
		if (firsts [i]) { memmove (order + 1, order, no * sizeof *order); order [0] = i; no ++; } else order [no ++] = i;
	}
	while (t < total) { int n = total - t < step ? total - t : step; w_gen (w, 0, n); t += n; }
	/* ticks sorted by time and order */
	int64_t end = w_time (w, 0);
	int e = 0, cnt [3] = { 0 };
	for (;;) {
		int best = -1;
		int64_t bt = end;
		for (int o = 0; o < nk; o ++) { int i = order [o]; int64_t x = attached [i] + cnt [i] * p [i]; if (x < bt) { bt = x; best = i; } }
		while (e < w->nev && w->ev [e].kind != E_CLOCK && w->ev [e].kind != E_DIV) e ++;
		if (best < 0) { MC_CHECK (e >= w->nev, "schedule-rule", "clock %d ticks at %lld", w->ev [e].a, (long long) w->ev [e].v); break; }
		/* two clocks attached at different times may be due at the same time: the order of attachment decides */
		MC_CHECK (e < w->nev && w->ev [e].kind == E_CLOCK && w->ev [e].a == best && w->ev [e].v == bt, "schedule-rule", "tick %d of clock %d at %lld/2^20 is missing or late: %s %d at %lld", cnt [best], best, (long long) bt, e < w->nev ? EvName (w->ev [e].kind) : "nothing", e < w->nev ? w->ev [e].a : 0, e < w->nev ? (long long) w->ev [e].v : 0);
		e ++;
		if (cnt [best] % dv [best] == 0) {
			MC_CHECK (e < w->nev && w->ev [e].kind == E_DIV && w->ev [e].a == best, "schedule-rule", "divider %d did not fire at tick %d of its clock", best, cnt [best]);
			e ++;
		}
		cnt [best] ++;
	}
}
/* the plain rule over millions of frames, with up to 6 dividers on one clock and large divider values */
static void long7_script (World *w)
{
	static const int64_t P [] = { 700 * (int64_t) RUNIT, 333 * RUNIT + 1, 12345 * (int64_t) RUNIT + 77777, 100000 * (int64_t) RUNIT, 1000003 * (int64_t) RUNIT - 1 };
	static const int Chunk [] = { 1024, 3777, 99991, 262144 }, Few [6] = { 1, 2, 3, 65, 300, 1000 }, Large [6] = { 1, 0x1000003, INT32_MAX, 32771, 65539, 65537 };
	static const int64_t Fast [] = { 2 * RUNIT, 3 * RUNIT / 2 + 1 };
	int many = Depth < 200, np = many ? 2 : N (P);         /* more than 65536 ticks */
	const int64_t *ps = many ? Fast : P;
	const int *Dv = many && w_choose (w, 2) ? Large : Few;
	int64_t p [2] = { ps [w_choose (w, np)], ps [w_choose (w, np)] };
	int chunk = Chunk [w_choose (w, many ? 2 : N (Chunk))], how = w_choose (w, 2), total = Depth * 1000, cnt [2] = { 0, 0 }, t = 0;
	w_ctx (w, 0, 1, 44100);
	w_track (w, 0, BK_SQUARE);
	w_attach (w, 0, 0);
	for (int i = 0; i < 2; i ++) w_clock (w, i, p [i]);
	for (int i = 0; i < 6; i ++) { w_div (w, i, Dv [i]); w_div_clock (w, i, i == 5); }
	for (int i = 0; i < 2; i ++) w_clock_attach (w, i, 0, -1);
	while (t < total) {
		int got = how ? w_gento (w, 0, F (t + chunk), 0) : w_gen (w, 0, chunk), e = 0;
		MC_CHECK (got == chunk, "frames", "%d frames instead of %d at frame %d", got, chunk, t);
		t += chunk;
		MC_CHECK (w_time (w, 0) >= F (t), "time", "time is %lld after %d frames", (long long) w_time (w, 0), t);
		int64_t end = w_time (w, 0);
		for (;;) {
			int64_t a = cnt [0] * p [0], b = cnt [1] * p [1];
			int k = b < a;
			if ((k ? b : a) >= end) break;
			while (e < w->nev && w->ev [e].kind != E_CLOCK && w->ev [e].kind != E_DIV) e ++;
			MC_CHECK (e < w->nev && w->ev [e].kind == E_CLOCK && w->ev [e].a == k && w->ev [e].v == (k ? b : a), "schedule-rule", "tick %d of clock %d at %lld/2^20 is missing or late: %s %d at %lld", cnt [k], k, (long long) (k ? b : a), e < w->nev ? EvName (w->ev [e].kind) : "nothing", e < w->nev ? w->ev [e].a : 0, e < w->nev ? (long long) w->ev [e].v : 0);
			e ++;
			for (int i = k ? 5 : 0; i < (k ? 6 : 5); i ++) if (cnt [k] % Dv [i] == 0) {
				MC_CHECK (e < w->nev && w->ev [e].kind == E_DIV && w->ev [e].a == i, "schedule-rule", "divider %d did not fire at tick %d of its clock", i, cnt [k]);
				e ++;
			}
			cnt [k] ++;
		}
		while (e < w->nev && w->ev [e].kind != E_CLOCK && w->ev [e].kind != E_DIV) e ++;
		MC_CHECK (e >= w->nev, "schedule-rule", "%s %d fires when it should not", EvName (w->ev [e].kind), w->ev [e].a);
		w->nev = 0; w->n [0] = 0;
		mc_trans (1);
	}
}
static void long7 (int kframes)
{
	Depth = kframes;
	memset (&TapeMain, 0, sizeof TapeMain);
	World *a = w_run (0, LIB, long7_script, 0, &TapeMain);
	mc_eval (1);
	(void) a;
	mc_state (mc_hash (0, TapeMain.c, TapeMain.n * 2));
}
static void plain7 (int ats)
{
	Depth = ats;
	memset (&TapeMain, 0, sizeof TapeMain);
	World *a = w_run (0, LIB, plain7_script, 0, &TapeMain);
	w_leak ("leak");
	mc_state (w_hash (a));
}
/* callbacks which give a new period or divider each time: all sequences */
static int Ret [5];
static void ret_clock (World *w, int i, int n) { static const int64_t R [] = { 0, RUNIT, 5 * RUNIT / 2, 4 * RUNIT, -RUNIT, 690 * RUNIT }; if (i == 0 && n < 5) w->kret [i] = R [Ret [n]]; }
static void ret_div (World *w, int i, int n) { static const int R [] = { INT32_MIN, 1, 2, 5, 0, 7 }; if (i == 1 && n < 5) w->vret [i] = R [Ret [n]]; }
static void ret_script (World *w)
{
	w->on_clock = ret_clock; w->on_div = ret_div;
	w_ctx (w, 0, 1, 44100);
	w_clock (w, 0, F (3)); w_clock (w, 1, F (2));
	w_div (w, 0, 2); w_div (w, 1, 3); w_div (w, 2, 1);
	for (int i = 0; i < 3; i ++) w_div_clock (w, i, i / 2);
	w_clock_attach (w, 0, 0, -1); w_clock_attach (w, 1, 0, -1);
	for (int i = 0; i < 9; i ++) { w_gen (w, 0, 4); now (w, 0); }
}
static void returns (int n)
{
	memset (Ret, 0, sizeof Ret);
	for (int i = 0; i < n; i ++) Ret [i] = mc_choose (6);
	w_check (ret_script, 0, REF, E_ALL, "schedule");
}

/* ------------------------------------------------------------- C08 */
static const int64_t Targets [] = { 0, -5, 1, RUNIT / 2, RUNIT - 1, RUNIT, RUNIT + 1, 3 * RUNIT + 99999, 63 * RUNIT + RUNIT / 2, 681 * RUNIT, 682 * RUNIT + 699050, 682 * RUNIT + 699051, 683 * RUNIT, 1023 * RUNIT + 5, 1024 * RUNIT, 1025 * RUNIT, 1365 * RUNIT + 1, 2047 * RUNIT + 777, 3001 * RUNIT + RUNIT / 3 };
enum { Setups8 = 9 };
static void setup8 (World *w, int s)
{
	static const int64_t P [] = { 0, 0, 33 * RUNIT / 10, RUNIT / 2, 700 * RUNIT + 5, 682 * RUNIT + 699050, 5000 * RUNIT, 341 * RUNIT, 0 };
	w_ctx (w, 0, 1 + (s == 4), 44100);
	w_master (w, 0, s == 8 ? 5000 * RUNIT : 183 * RUNIT + 786432);
	if (s == 0) { w_unit (w, 0, BK_SQUARE); w_attach (w, 0, 0); w_set (w, 0, BK_VOLUME, 12000); w_set (w, 0, BK_PERIOD, 3 * RUNIT + 12345); w_set (w, 0, BK_MUTE, 0); }
	else {
		w_track (w, 0, s & 1 ? BK_SAWTOOTH : BK_SQUARE); w_attach (w, 0, 0);
		w_set (w, 0, BK_MASTER_VOLUME, 20000);
		w_set (w, 0, BK_VOLUME, 30000);
		w_set (w, 0, BK_NOTE, NOTE (70 + s));
	}
	if (P [s]) { w_clock (w, 0, P [s]); w_clock_attach (w, 0, 0, s & 1 ? -1 : -2); }
	if (s == 5) { w_clock (w, 1, 33 * RUNIT); w_clock_attach (w, 1, 0, -1); }
}
static int Start8, Set8, T8 [4], Fail8;
static const int Starts [] = { 0, 1, 3, 600, 1024, 1500 };
static void to_script (World *w)
{
	setup8 (w, Set8);
	if (Starts [Start8]) w_gen (w, 0, Starts [Start8]);
	int64_t t = F (Starts [Start8]);
	for (int k = 0; k < Depth; k ++) {
		if (Targets [T8 [k]] >= 0) { int before = w->n [0]; int64_t from = t; t += Targets [T8 [k]]; w_gento (w, 0, t, 0);
			if (!RC (w)) MC_CHECK (w->n [0] - before == (t >> 20) - (from >> 20), "frames", "%d frames delivered from time %lld/2^20 to %lld/2^20", w->n [0] - before, (long long) from, (long long) t); }
		else w_gento (w, 0, t + Targets [T8 [k]], 0);
		now (w, 0);
	}
	int last = w_gen (w, 0, 40);
	if (!RC (w)) MC_CHECK (last == 40, "frames", "%d frames instead of 40", last);
}
static void to_time (int par)
{
	Depth = par % 10; Set8 = mc_choose (Setups8); Start8 = mc_choose (par >= 10 ? 3 : N (Starts));
	for (int k = 0; k < Depth; k ++) T8 [k] = mc_choose (N (Targets));
	w_check (to_script, 0, REF, E_ALL, "time");
}
/* the same frames as direct generation: whole and fractional targets to one end */
static int Direct, Nch1, Set1, Long8;                   /* Nch1: number of channels, 0: as the set-up says */
static void setup1_channels (World *w);
static void same_script (World *w)
{
	int total = 0;
	int64_t t = F (Long8);
	if (Nch1) setup1_channels (w); else setup8 (w, Set8);
	if (Long8 && !Direct) { int n = w_gento (w, 0, t, 0); MC_CHECK (n == Long8 && w->n [0] == n, "frames", "%d frames delivered, %d reported, instead of %d", w->n [0], n, Long8); }
	for (int k = 0; k < Depth; k ++) { t += Targets [T8 [k]] > 0 ? Targets [T8 [k]] : 0; if (!Direct) w_gento (w, 0, t, 0); }
	total = (int) (t >> 20) + 1;
	if (!Direct) w_gento (w, 0, F (total), 0); else if (w_gen (w, 0, total) != total) mc_fail ("frames", "not all frames delivered");
}
static void same_runs (int n)
{
	Depth = n;
	for (int k = 0; k < n; k ++) T8 [k] = mc_choose (N (Targets));
	memset (&TapeMain, 0, sizeof TapeMain);
	Direct = 0;
	World *a = w_run (0, LIB, same_script, 0, &TapeMain);
	Direct = 1;
	World *b = w_run (1, LIB, same_script, 0, &TapeMain);
	w_tail (a, b, "same-frames", "generating to times", "direct generation", E_CLOCK);
	mc_state (w_hash (a));
}
static void same (int n) { Nch1 = Long8 = 0; Set8 = mc_choose (Setups8); same_runs (n); }
static void same_channels (int n) { Long8 = 0; Nch1 = 1 + mc_choose (8); Set1 = mc_choose (4); same_runs (n); }
/* many frames by one call */
static void same_long (int par)
{
	static const int L [] = { 32767, 65535, 65536, 131073, 204801, 400000 };
	Long8 = L [mc_choose (par)]; Nch1 = 0; Set8 = mc_choose (Setups8);
	if ((Set8 == 3 && Long8 > 30000) || (Set8 == 2 && Long8 > 190000)) mc_discard ();      /* more ticks than events fit */
	same_runs (1);
}
/* the write callback fails: generation stops, the error is reported, and the context can be used further */
static void fail_script (World *w)
{
	static const int D [] = { 1, 500, 1024, 1025, 3000, 6000 };
	setup8 (w, Set8);
	w_gen (w, 0, 30);
	int before = w->n [0], r = w_gento (w, 0, F (30 + D [T8 [0]]), Fail8), calls = WriteTo.calls;
	if (Fail8) {
		if (calls < Fail8) mc_discard ();               /* there were not so many calls */
		MC_CHECK (r < 0, "write-error", "error of the write callback was not reported: %d", r);
		MC_CHECK (calls == Fail8, "write-error", "write callback was called %d times although call %d failed", calls, Fail8);
		int n = w->n [0];
		w_gen (w, 0, 100);
		w->n [0] = n;
	}
	else MC_CHECK (r == D [T8 [0]] && w->n [0] - before == r, "frames", "%d frames delivered, %d reported, instead of %d", w->n [0] - before, r, D [T8 [0]]);
}
static void fails (int par)
{
	Set8 = mc_choose (Setups8); T8 [0] = mc_choose (6);
	int f = 1 + mc_choose (8);
	memset (&TapeMain, 0, sizeof TapeMain);
	Fail8 = 0;
	World *a = w_run (0, LIB, fail_script, 0, &TapeMain);
	Fail8 = f;
	World *b = w_run (1, LIB, fail_script, 0, &TapeMain);
	MC_CHECK (b->n [0] <= a->n [0] && !memcmp (a->pcm [0], b->pcm [0], b->n [0] * 2 * a->nch [0]), "write-error", "frames delivered before the error differ");
	mc_state (w_hash (b));
}

/* ------------------------------------------------------------- C01 */
static const int16_t Smp [40] = { 0, 3000, 6000, 9000, 12000, 15000, 18000, 21000, 24000, 27000, 30000, 32000, 30000, 20000, 10000, 0,
	-3000, -6000, -9000, -12000, -15000, -18000, -21000, -24000, -27000, -30000, -32000, -20000, -10000, -7000, -4000, -1000, 0, 1, 2, 3, 4, 5, 6, 7 };
static const int16_t Wav [6] = { 0, 20000, 32767, -12000, -32768, 9000 };
static const int SeqV [] = { 32767, 20000, 12000, 6000 }, SeqP [] = { 0, 1 << 20, -(1 << 20) }, SeqD [] = { 2, 5, 8, 12 }, SeqPan [] = { -20000, 0, 20000 };
static const int EnvV [] = { 3, 32767, 2, 16000, 1, 10000, 3, 0 };
static void tune_clock (World *w, int i, int n)
{
	static const int Notes [] = { 60, 64, 67, 72, 55, 84 };
	w_set (w, 0, BK_NOTE, n % 5 == 4 ? BK_NOTE_RELEASE : NOTE (Notes [n % 6]));
	if (n % 3 == 1) w_set (w, 0, BK_VOLUME, 10000 + 3000 * (n % 7));
	if (n == 2) w_set (w, 0, BK_DUTY_CYCLE, 3);
}
static void tune_div (World *w, int i, int n) { w_set (w, 1, BK_NOTE, n & 1 ? NOTE (77) : NOTE (65 + n)); if (n == 3) w->vret [i] = 2; }
static int rep_sample (World *w, int i, int ev, int n) { return n < 3 ? BK_REPEAT : 0; }
enum { Setups1 = 13, Ops1 = 12 };
static void setup1 (World *w, int s)
{
	static const int Waves [] = { BK_SQUARE, BK_TRIANGLE, BK_NOISE, BK_SAWTOOTH, BK_SINE };
	w->on_sample = rep_sample;
	w_ctx (w, 0, s & 1 ? 2 : 1, 44100);
	w_data_init (w, 0); w_data_frames (w, 0, Smp, 40, 1, 1);
	w_data_init (w, 1); w_data_frames (w, 1, Wav, 6, 1, 1);
	w_instr_init (w, 0);
	w_seq (w, 0, 0, SeqV, 4, 1, 2); w_seq (w, 0, 2, SeqP, 3, 0, 3); w_seq (w, 0, 3, SeqD, 4, 0, 2); w_seq (w, 0, 1, SeqPan, 3, 0, 3);
	w_instr_init (w, 1);
	w_env (w, 1, 0, EnvV, 4, 1, 2);
	w_master (w, 0, s == 8 ? 900 * RUNIT : s == 9 ? RUNIT : 3 * RUNIT + 400000);
	for (int i = 0; i < 2; i ++) {
		w_track (w, i, Waves [(s + i) % 5]);
		w_attach (w, i, 0);
		w_set (w, i, BK_MASTER_VOLUME, 9000 - 2000 * i);
		w_set (w, i, BK_VOLUME, 30000);
		w_set (w, i, BK_NOTE, NOTE (80 + 9 * i));
	}
	w_set (w, 1, BK_NOTE, BK_NOTE_MUTE);
	switch (s) {
		case 5: w_data (w, 0, BK_SAMPLE, 0); w_range (w, 0, 1, 8, 20); w_set (w, 0, BK_NOTE, NOTE (60)); break;
		case 6: w_data (w, 0, BK_SAMPLE, 0); w_sample_cb (w, 0, 1); w_set (w, 0, BK_SAMPLE_REPEAT, BK_PALINDROME); w_set (w, 0, BK_NOTE, NOTE (66)); break;
		case 7: w_data (w, 0, BK_WAVEFORM, 1); w_instr (w, 0, 0); w_set (w, 0, BK_NOTE, NOTE (71)); break;
		case 8: w_instr (w, 0, 1); w_set (w, 0, BK_NOTE, NOTE (71)); break;
		case 9: { static const int a [] = { 3, 0, NOTE (4), NOTE (7) }, v [] = { 3, 12000 }, b [] = { 2, NOTE (1) }; w_arp (w, 0, a); w_effect (w, 0, BK_EFFECT_TREMOLO, v, 2); w_effect (w, 0, BK_EFFECT_VIBRATO, b, 2); break; }
		case 10: w->on_clock = tune_clock; w_clock (w, 0, 7 * RUNIT + 300000); w_clock_attach (w, 0, 0, -1); break;
		case 11: w->on_clock = tune_clock; w->on_div = tune_div; w_clock (w, 0, 5 * RUNIT); w_clock_attach (w, 0, 0, -2); w_div (w, 0, 3); w_div_clock (w, 0, 0); w_div (w, 1, 2); w_div_ctx (w, 1, 0, BK_CLOCK_TYPE_BEAT); break;
		/* ticks directly before and after the end of frames */
		case 12: w->on_clock = tune_clock; w_clock (w, 0, 4 * RUNIT - 1); w_clock (w, 1, 3 * RUNIT + 1); w_clock_attach (w, 0, 0, -1); w_clock_attach (w, 1, 0, -1); break;
		/* plain unit, no clock at all */
		case 0: w_dispose (w, 0); w_dispose (w, 1); w_ctx_dispose (w, 0); w_ctx (w, 0, 1, 44100); w_unit (w, 0, BK_NOISE); w_attach (w, 0, 0); w_set (w, 0, BK_VOLUME, 20000); w_set (w, 0, BK_PERIOD, RUNIT * 4 / 3); w_set (w, 0, BK_MUTE, 0); break;
	}
}
static void op1 (World *w, int s, int o)
{
	int u = s == 0;
	switch (o) {
		case 0: break;
		case 1: w_set (w, 0, u ? BK_PERIOD : BK_NOTE, u ? RUNIT * 7 / 2 : NOTE (67) + 5555); break;
		case 2: w_set (w, 0, u ? BK_MUTE : BK_NOTE, u ? 1 : BK_NOTE_RELEASE); break;
		case 3: w_set (w, 0, BK_VOLUME, 11111); break;
		case 4: w_set (w, 0, BK_WAVEFORM, BK_TRIANGLE); break;
		case 5: w_set (w, 0, u ? BK_PERIOD : BK_NOTE, u ? RUNIT * 20 : NOTE (30)); break;
		case 6: if (u) w_set (w, 0, BK_DUTY_CYCLE, 2); else w_set (w, 1, BK_NOTE, NOTE (90)); break;
		case 7: if (u) w_set (w, 0, BK_PHASE, 7); else { w_detach (w, 0); w_attach (w, 0, 0); } break;
		case 8: if (!u) w_set (w, 0, BK_NOTE, BK_NOTE_MUTE); break;
		case 9: if (!u) { static const int p [] = { 5 }; w_effect (w, 0, BK_EFFECT_PORTAMENTO, p, 1); w_set (w, 0, BK_NOTE, NOTE (90)); } break;
		case 10: if (!u) { if (!w->wk [2].w) w_clock (w, 2, 3 * RUNIT / 2); w_clock_attach (w, 2, 0, -2); } break;
		case 11: if (!u) { w_reset (w, 0); w_set (w, 0, BK_MASTER_VOLUME, 7000); w_set (w, 0, BK_NOTE, NOTE (75)); } break;
	}
}
/* requests of one segment: Req [] frames each, by the given method */
static struct { int n, method; } Req [3] [64];
static int NReq [3], At1, Total1, Op1 [2], Split;
static void segment (World *w, int s, int n)
{
	if (!Split) { int r = w_gen (w, 0, n); MC_CHECK (r == n, "request-size", "%d frames delivered instead of %d", r, n); return; }
	int k = 0, done = 0, before = w->n [0];
	for (; done < n; k ++) {
		int m = k < NReq [s] ? Req [s] [k].n : n - done, how = k < NReq [s] ? Req [s] [k].method : 0, r;
		if (m > n - done) m = n - done;
		if (how == 0) { r = w_gen (w, 0, m); MC_CHECK (r == m, "request-size", "%d frames delivered instead of %d", r, m); }
		if (how == 7) {                                        /* let run a part of the time first */
			if (m > 2000) m = 2000;
			w_log (w, "context 0: run to %d/2 and %d/3 frames", m, m);
			BKContextRun (w->c [0], (BKFUInt20) m << 19); BKContextRun (w->c [0], (BKFUInt20) m * (RUNIT / 3));
		}
		if (how == 1 || how == 7) { BKTime t = 0; BKGetPtr (w->c [0], BK_TIME, &t, sizeof t); r = w_gento (w, 0, F (before + done + m), 0); MC_CHECK (r == m, "request-size", "%d frames delivered instead of %d", r, m); }
		if (how == 2 || how == 3) {                            /* end, then read in two portions, or later */
			if (m > 2000) m = 2000;
			w_log (w, "context 0: end %d frames", m);
			r = BKContextEnd (w->c [0], (BKFUInt20) m << 20);
			MC_CHECK (r >= 0, "request-size", "could not be ended");
			int h = how == 3 ? m / 2 : m;
			int16_t *p = w_pcm (w, 0, m);
			w_log (w, "context 0: read %d + %d frames", h, m - h);
			MC_CHECK (BKContextSize (w->c [0]) == m, "request-size", "%d frames are ready instead of %d", BKContextSize (w->c [0]), m);
			r = h ? BKContextRead (w->c [0], p, h) : 0;
			r += BKContextRead (w->c [0], p + h * w->nch [0], m - h + (how == 3 ? 500 : 0));
			MC_CHECK (r == m, "request-size", "%d frames read instead of %d", r, m);
			w->n [0] += m;
		}
		if (how == 6) {                                        /* run in portions, then end */
			if (m > 2000) m = 2000;
			w_log (w, "context 0: run to %d/3, 2/3 %d, %d/2, end %d frames", m, m, m, m);
			r = BKContextRun (w->c [0], (BKFUInt20) m * (RUNIT / 3));
			if (r >= 0) r = BKContextRun (w->c [0], (BKFUInt20) m * (RUNIT / 3) * 2);
			if (r >= 0) r = BKContextRun (w->c [0], (BKFUInt20) m * (RUNIT / 2));
			if (r >= 0) r = BKContextEnd (w->c [0], (BKFUInt20) m << 20);
			MC_CHECK (r >= 0, "request-size", "could not be run");
			r = BKContextRead (w->c [0], w_pcm (w, 0, m), 4096);
			MC_CHECK (r == m, "request-size", "%d frames read instead of %d", r, m);
			w->n [0] += m;
		}
		if (how == 4 || how == 5) {                            /* end at times which are not at whole frames */
			if (m > 2000) m = 2000;
			static const BKFUInt20 Cut [3] = { RUNIT / 3, 1, RUNIT - 1 };
			BKFUInt20 all = (BKFUInt20) m << 20, at = 0;
			int16_t *p = w_pcm (w, 0, m);
			int got = 0;
			for (int c = 0; at < all; c ++) {
				BKFUInt20 step = c < 3 ? (BKFUInt20) (m / 4) * RUNIT + Cut [(c + m) % 3] : all - at;
				if (step > all - at) step = all - at;
				w_log (w, "context 0: end %u + %u/2^20 frames", step >> 20, step & (RUNIT - 1));
				r = BKContextEnd (w->c [0], step);
				MC_CHECK (r >= 0, "request-size", "could not be ended");
				at += step;
				MC_CHECK (BKContextSize (w->c [0]) == (BKInt) (at >> 20) - got, "request-size", "%d frames are ready instead of %d", BKContextSize (w->c [0]), (int) (at >> 20) - got);
				if (how == 5 && at < all) continue;
				r = BKContextRead (w->c [0], p + got * w->nch [0], m - got);
				MC_CHECK (r == (int) (at >> 20) - got, "request-size", "%d frames read instead of %d", r, (int) (at >> 20) - got);
				got += r;
			}
			w->n [0] += m;
		}
		done += m;
		if (Set1 == 0 && !Nch1 && !w->wk [2].w) { BKTime t = 0; BKGetPtr (w->c [0], BK_TIME, &t, sizeof t); MC_CHECK (BKTimeGetTime (t) == before + done && BKTimeGetFrac (t) == 0, "request-size", "time of the context is %d after %d frames", (int) BKTimeGetTime (t), before + done); }
	}
}
static void setup1_channels (World *w)
{
	static int16_t many [24 * 8];
	for (int i = 0; i < 24 * Nch1; i ++) many [i] = (i * 7919) % 60000 - 30000;
	w_ctx (w, 0, Nch1, 44100);
	w_master (w, 0, 3 * RUNIT + 400000);
	w_data_init (w, 0); w_data_frames (w, 0, many, 24, Nch1, 1);
	w_track (w, 0, BK_SAWTOOTH); w_attach (w, 0, 0);
	w_unit (w, 1, BK_NOISE); w_attach (w, 1, 0);
	w_set (w, 0, BK_MASTER_VOLUME, 9000); w_set (w, 0, BK_VOLUME, 30000);
	if (Set1 & 1) { w_data (w, 0, BK_SAMPLE, 0); w_set (w, 0, BK_SAMPLE_REPEAT, BK_PALINDROME); w_set (w, 0, BK_NOTE, NOTE (66)); }
	else w_set (w, 0, BK_NOTE, NOTE (80));
	for (int c = 0; c < Nch1; c ++) w_set (w, 1, BK_VOLUME_0 + c, (Set1 & 2 ? Nch1 - c : c) * 2500);
	w_set (w, 1, BK_PERIOD, RUNIT * 5 / 2); w_set (w, 1, BK_MUTE, 0);
}
static void split_script (World *w)
{
	if (Nch1) setup1_channels (w); else setup1 (w, Set1);
	segment (w, 0, At1);
	op1 (w, Nch1 ? 1 : Set1, Op1 [0]);
	segment (w, 1, Total1 - At1);
	if (Op1 [1]) { op1 (w, Set1, Op1 [1]); segment (w, 2, 30); }
	w_gen (w, 0, 20);
}
static void compare1 (void)
{
	memset (&TapeMain, 0, sizeof TapeMain);
	Split = 0;
	World *a = w_run (0, LIB, split_script, 0, &TapeMain);
	w_leak ("leak");
	Split = 1;
	World *b = w_run (1, LIB, split_script, 0, &TapeMain);
	w_tail (b, a, "split", "split requests", "one request", E_CLOCK | E_DIV | E_SAMPLE);
	mc_state (w_hash (a));
}
static void tiny (int total)
{
	Nch1 = 0;
	Set1 = mc_choose (Setups1); At1 = mc_choose (3) * 5 % total; Total1 = total; Op1 [0] = mc_choose (Ops1); Op1 [1] = 0;
	for (int s = 0; s < 2; s ++) {
		int n = s ? total - At1 : At1, left = n;
		NReq [s] = 0;
		while (left) { int m = 1 + mc_choose (left); Req [s] [NReq [s]].n = m; Req [s] [NReq [s] ++].method = 0; left -= m; }
	}
	compare1 ();
}
/* one frame at a time, two, ..., 13, blocks, around the internal sizes; all ways to get frames */
static void blocks (int nop)
{
	static const int B [] = { 1, 2, 3, 5, 13, 64, 441, 682, 683, 1023, 1024, 1025, 2047, 2049, 4000 }, A [] = { 0, 7, 701, 1600 };
	Nch1 = 0;
	Set1 = mc_choose (Setups1); At1 = A [mc_choose (4)]; Total1 = 2600; Op1 [0] = mc_choose (Ops1); Op1 [1] = nop ? mc_choose (Ops1) : 0;
	int b = B [mc_choose (N (B))], method = mc_choose (8);
	if (method > 1 && b > 2000) mc_discard ();
	for (int s = 0; s < 3; s ++) {
		NReq [s] = 0;
		int n = (s == 2 ? 30 : s ? Total1 - At1 : At1), m = b < 50 ? 50 : 64;
		while (n > 0 && NReq [s] < m) { Req [s] [NReq [s]].n = b; Req [s] [NReq [s] ++].method = method; n -= b; }
	}
	compare1 ();
}
static void channels1 (int par)
{
	static const int B [] = { 1, 64, 683, 1023, 1024, 1025, 1900 };
	Nch1 = 1 + mc_choose (8); Set1 = mc_choose (4); At1 = 50; Total1 = 2700; Op1 [0] = mc_choose (6); Op1 [1] = 0;
	int b = B [mc_choose (N (B))], method = mc_choose (8);
	for (int s = 0; s < 2; s ++) {
		NReq [s] = 0;
		for (int n = s ? Total1 - At1 : At1; n > 0 && NReq [s] < 50; n -= b) { Req [s] [NReq [s]].n = b; Req [s] [NReq [s] ++].method = method; }
	}
	compare1 ();
}
static void sizes (int depth)
{
	Nch1 = 0;
	static const int B [] = { 1, 2, 63, 682, 683, 1023, 1024, 1025, 2047, 2048, 2049, 341 };
	Set1 = mc_choose (Setups1); At1 = 0; Total1 = 4300; Op1 [0] = 0; Op1 [1] = 1;
	NReq [0] = NReq [2] = 0; NReq [1] = depth;
	for (int i = 0; i < depth; i ++) { Req [1] [i].n = B [mc_choose (N (B))]; Req [1] [i].method = mc_choose (8); }
	compare1 ();
}
static const McScenario Scen [] = {
	{ "C07", "plain", plain7, 2, MC_QUICK },
	{ "C07", "callbacks-1", callbacks, 1, MC_QUICK },
	{ "C07", "callbacks-2", callbacks, 2, MC_QUICK },
	{ "C07", "returns-5", returns, 5, MC_QUICK },
	{ "C07", "long", long7, 2500, MC_QUICK },
	{ "C07", "many-ticks", long7, 136, MC_QUICK },
	{ "C07", "long-60", long7, 60000, MC_THOROUGH },
	{ "C07", "plain-4", plain7, 4, MC_THOROUGH },
	{ "C07", "silent", silent7, 2, MC_QUICK },
	{ "C07", "silent-3", silent7, 3, MC_THOROUGH },
	{ "C07", "history-callback-2", mixed7, 2, MC_QUICK },
	{ "C07", "history-4", hist7, 4, MC_QUICK },
	{ "C07", "callbacks-3", callbacks, 13, MC_THOROUGH },
	{ "C07", "history-5", hist7, 5, MC_THOROUGH },
	{ "C08", "to-time-2", to_time, 2, MC_QUICK },
	{ "C08", "same-2", same, 2, MC_QUICK },
	{ "C08", "write-error", fails, 0, MC_QUICK },
	{ "C08", "same-channels", same_channels, 1, MC_QUICK },
	{ "C08", "same-long", same_long, 6, MC_QUICK },
	{ "C08", "same-channels-2", same_channels, 2, MC_THOROUGH },
	{ "C08", "same-3", same, 3, MC_THOROUGH },
	{ "C08", "to-time-3", to_time, 13, MC_THOROUGH },
	{ "C01", "compositions-8", tiny, 8, MC_QUICK },
	{ "C01", "channels", channels1, 0, MC_QUICK },
	{ "C01", "blocks", blocks, 0, MC_QUICK },
	{ "C01", "sizes-2", sizes, 2, MC_QUICK },
	{ "C01", "compositions-13", tiny, 13, MC_THOROUGH },
	{ "C01", "blocks-2", blocks, 1, MC_THOROUGH },
	{ "C01", "sizes-3", sizes, 3, MC_THOROUGH },
};
static const McPropInfo Props [] = {
	{ "C01", "model_checking", "each execution is a history run with two different ways to request its frames; states are distinct outputs",
	  "13 set-ups (all waveforms, samples, instruments, effects, clocks with callbacks) x 12 operations at up to 4 positions; all compositions of 8 (13) frames; 1 to 8 channels with different content; blocks of 15 sizes; all sequences of 2 (3) of 12 sizes; 8 ways to get frames (generate, generate to time with or without running ahead, end and read, run in portions and end, end and read in portions, end at fractions of frames and read at each or only at the last)",
	  "bit-identical PCM and events, exact number of frames" },
	{ "C07", "model_checking", "each execution is a history of clock operations between requests and from callbacks; states are distinct tick histories",
	  "rule t + n * p for up to 3 clocks with 12 periods; 2 clocks and 6 dividers (up to 2^31 - 1) over 2.5 (60) million frames and more than 65536 ticks; 5 clocks, 6 dividers; operations from callbacks: all pairs (triples) of 7 callbacks x 3 ticks x 24 operations; all sequences of 5 returned periods and dividers; all histories of 4 (5) of 34 operations; histories followed by a callback operation; clocks and dividers without functions and a clock which moves to another context in its own callback",
	  "event-list scheduler; the plain rule" },
	{ "C08", "model_checking", "each execution generates to a sequence of times; states are distinct outputs",
	  "9 clock set-ups x 6 start positions x all sequences of 2 (3) of 19 distances; write errors at calls 1 to 8 of 6 lengths",
	  "reference synthesizer with absolute times; direct generation; number of frames between two times" },
};
int main (int argc, char **argv) { return mc_main (argc, argv, Scen, N (Scen), Props, N (Props)); }
