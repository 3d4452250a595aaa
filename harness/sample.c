/* Sample playback (C17) and changes of sample data in use (C19). */
#include "ops.h"
#include "data_model.h"

static int Depth, Par;

/* compare everything; if the library does not even render plain notes like the reference,
   frames cannot be compared: positions, callbacks and attributes remain */
static void check (Script *s, const char *key)
{
	int cal = w_calibrated ();
	memset (&TapeMain, 0, sizeof TapeMain);
	World *a = w_run (0, LIB, s, 0, &TapeMain);
	w_leak ("leak");
	World *b = w_run (1, REF, s, 0, &TapeMain);
	if (cal) w_tail (a, b, key, "the library", "the model", E_ALL);
	else w_cmp_ev (a, b, E_GET | E_SAMPLE | E_RET, key, "the library", "the model");
	mc_state (w_hash (a));
}
/* frames with all different values in a block of exactly this size */
static const int16_t *ramp (int nf, int ch)
{
	static int16_t *cache [100][9], *big;
	static int bn;
	if (nf >= 100) {
		if (bn != nf * ch) { mc_raw_free (big); bn = nf * ch; big = mc_raw_malloc (bn * sizeof *big); for (int i = 0; i < bn; i ++) big [i] = (int16_t) (i * 40503u >> 2); }
		return big;
	}
	if (!cache [nf][ch]) {
		int16_t *f = cache [nf][ch] = mc_raw_malloc (nf * ch * sizeof *f);
		for (int i = 0; i < nf * ch; i ++) f [i] = (i % 2 ? -1 : 1) * (2000 + 23000 * i / (nf * ch));
	}
	return cache [nf][ch];
}
static const int Modes [] = { BK_NO_REPEAT, BK_REPEAT, BK_PALINDROME };
static int Plan [6], NPlan;
static int answer (World *w, int i, int event, int n)
{
	if (event != BK_EVENT_SAMPLE_RESET) return 0;
	return NPlan ? Plan [w->t [i].nret ++ % NPlan] : 0;
}
static void steps (World *w, int i, int n) { while (n --) { w_gen (w, 0, 1); w_get (w, i, BK_PHASE); } w_get (w, i, BK_MUTE); }

/* ------------------------------------------------ C17: ranges and repeat */
static const int Per [] = { RUNIT, RUNIT / 2, RUNIT * 3 / 2, RUNIT / 3, RUNIT * 5, RUNIT * 37 / 10 };
static void range_script (World *w)
{
	static const int Nf [] = { 2, 3, 5, 8 };
	int nf = Nf [w_choose (w, Par)], nch = 1 + w_choose (w, 2), dch = nch == 2 ? 1 + w_choose (w, 2) : 1, n = 2 * nf + 5;
	int a = w_choose (w, n) - nf - 2, b = w_choose (w, n) - nf - 2;
	int per = Per [w_choose (w, N (Per))], k = w_choose (w, 4 + (Par > 3)), at = w_choose (w, 3);
	w->on_sample = answer;
	NPlan = 0;
	if (k == 3) { NPlan = 2; Plan [0] = BK_PALINDROME; Plan [1] = BK_REPEAT; }
	if (k == 4) { NPlan = 3; Plan [0] = BK_REPEAT; Plan [1] = BK_PALINDROME; Plan [2] = 0; }
	w_ctx (w, 0, nch, 44100);
	w_data_init (w, 0); w_data_frames (w, 0, ramp (nf, dch), nf, dch, 0);
	w_unit (w, 0, 0); w_attach (w, 0, 0);
	w_set (w, 0, BK_PERIOD, RUNIT);
	w_set (w, 0, BK_VOLUME, 30000);
	w_data (w, 0, BK_SAMPLE, 0);
	if (k >= 3) w_sample_cb (w, 0, 1); else w_set (w, 0, BK_SAMPLE_REPEAT, Modes [k]);
	w_set (w, 0, BK_SAMPLE_PERIOD, per);
	if (at == 2) { steps (w, 0, 2); }
	w_range (w, 0, 0, a, b);
	if (at == 1) w_set (w, 0, BK_PHASE, -1);
	w_set (w, 0, BK_MUTE, 0);
	steps (w, 0, 2 * nf + 3);
	w_gen (w, 0, 30);
	w_get_all (w, 0);
	w_set (w, 0, BK_PHASE, -1); w_set (w, 0, BK_MUTE, 0);
	steps (w, 0, 3);
}
static void ranges (int par) { Par = par; check (range_script, "range"); }
/* sustain range, release, jump */
static void sustain_script (World *w)
{
	static const int R [][2] = { { 0, -1 }, { 1, 4 }, { 4, 1 }, { -1, 0 }, { 3, 5 } };
	int nf = 5, r = w_choose (w, 5), mode = w_choose (w, 3), n = 2 * nf + 3;
	int a = w_choose (w, n) - nf - 1, b = w_choose (w, n) - nf - 1;
	int per = Per [w_choose (w, Par ? 6 : 3)], jump = w_choose (w, 2), rel = w_choose (w, Par ? 6 : 3), data = r ? 0 : w_choose (w, 2), again = w_choose (w, 2) * 3;
	w_ctx (w, 0, 1, 44100);
	w_data_init (w, 0); w_data_frames (w, 0, ramp (nf, 1), nf, 1, 0);
	if (data) {
		BKInt v [2] = { a, b };
		Model m = { nf };
		model_range (&m, a, b);
		w->rd [0].s0 = m.s0; w->rd [0].s1 = m.s1;
		if (!RC (w)) w_ret (w, 50, BKSetPtr (w->d [0], BK_SAMPLE_SUSTAIN_RANGE, v, sizeof v)); else w_ret (w, 50, 0);
	}
	w_unit (w, 0, 0); w_attach (w, 0, 0);
	w_set (w, 0, BK_PERIOD, RUNIT);
	w_set (w, 0, BK_VOLUME, 30000);
	w_data (w, 0, BK_SAMPLE, 0);
	if (r) w_range (w, 0, 0, R [r][0], R [r][1]);
	if (!data) w_range (w, 0, 1, a, b);
	w_get_range (w, 0, 1);
	w_set (w, 0, BK_SAMPLE_REPEAT, Modes [mode]);
	w_set (w, 0, BK_SAMPLE_PERIOD, per);
	w_set (w, 0, BK_SAMPLE_IMMED_RELEASE, jump);
	w_set (w, 0, BK_MUTE, 0);
	steps (w, 0, (int []) { 7, 0, 2, 3, 1, 13 } [rel]);
	w_set (w, 0, BK_FLAG_RELEASE, 1);
	if (again) { steps (w, 0, again); w_set (w, 0, BK_FLAG_RELEASE, 1); }
	steps (w, 0, 12);
	w_set (w, 0, BK_FLAG_RELEASE, 0); w_set (w, 0, BK_PHASE, -1); w_set (w, 0, BK_MUTE, 0);
	steps (w, 0, 5);
	w_get_all (w, 0);
}
static void sustain (int par) { Par = par; check (sustain_script, "sustain"); }
/* histories */
enum { UOps = 36 };
static int Hook;
static int hook (World *w, int i, int event, int n)
{
	if (event == BK_EVENT_SAMPLE_BEGIN) {
		if (Hook == 6) w_range (w, i, 0, 4, 1);
		if (Hook == 7) w_range (w, i, 1, 1, 3);
		if (Hook > 14 && n % 3 == 1) switch (Hook) {
			case 15: w_data (w, i, BK_SAMPLE, 1); break;
			case 16: w_set (w, i, BK_WAVEFORM, BK_SQUARE); break;
			case 17: w_data (w, i, BK_WAVEFORM, 1); break;
			case 18: w_data (w, i, BK_SAMPLE, -1); break;
		}
		return 0;
	}
	switch (Hook) {
		case 0: return BK_REPEAT;
		case 1: return n % 3 == 2 ? BK_NO_REPEAT : BK_PALINDROME;
		case 2: w_range (w, i, 0, n % 4, 4); return BK_REPEAT;
		case 3: w_range (w, i, 0, 2, 2); return n & 1 ? BK_PALINDROME : BK_REPEAT;
		case 4: w_range (w, i, 1, 1, 3); return BK_REPEAT;
		case 5: w_set (w, i, BK_MUTE, 1); return BK_REPEAT;
		case 6: return n > 5 ? 0 : BK_PALINDROME;
		case 7: w_set (w, i, BK_PHASE, n % 7 - 1); return BK_REPEAT;
		case 8: w_set (w, i, BK_SAMPLE_PERIOD, RUNIT * (1 + n % 5) / 2); return BK_PALINDROME;
		case 9: w_data (w, i, BK_SAMPLE, n & 1); return BK_REPEAT;
		case 10: w_data (w, i, BK_SAMPLE, -1); return BK_REPEAT;
		case 11: w_set (w, i, BK_SAMPLE_REPEAT, BK_PALINDROME); return 77;
		case 12: w_set (w, i, BK_WAVEFORM, BK_SQUARE); w_set (w, i, BK_PHASE, 15); return BK_REPEAT;
		case 13: w_data (w, i, BK_WAVEFORM, 0); w_set (w, i, BK_PHASE, n & 1 ? 2 : 6); return BK_PALINDROME;
		case 14: w_range (w, i, 0, -1, 0); w_set (w, i, BK_PHASE, 1); return BK_REPEAT;
	}
	return 0;
}
static void uop (World *w, int o)
{
	switch (o) {
		case 0: w_set (w, 0, BK_FLAG_RELEASE, 1); break;
		case 1: w_set (w, 0, BK_FLAG_RELEASE, 0); break;
		case 2: w_set (w, 0, BK_MUTE, 1); break;
		case 3: w_set (w, 0, BK_MUTE, 0); break;
		case 4: w_set (w, 0, BK_PHASE, -1); break;
		case 5: w_set (w, 0, BK_PHASE, 3); break;
		case 6: w_set (w, 0, BK_PHASE, 99); break;
		case 7: w_range (w, 0, 0, 1, 4); break;
		case 8: w_range (w, 0, 0, 6, 2); break;
		case 9: w_range (w, 0, 0, 3, 3); break;
		case 10: w_range (w, 0, 0, -1, -3); break;
		case 11: w_range (w, 0, 1, 1, 3); break;
		case 12: w_range (w, 0, 1, 2, -1); break;
		case 13: w_range (w, 0, 1, 0, 1); break;
		case 14: w_set (w, 0, BK_SAMPLE_IMMED_RELEASE, 1); break;
		case 15: w_set (w, 0, BK_SAMPLE_REPEAT, BK_REPEAT); break;
		case 16: w_set (w, 0, BK_SAMPLE_REPEAT, BK_PALINDROME); break;
		case 17: w_set (w, 0, BK_SAMPLE_REPEAT, BK_NO_REPEAT); break;
		case 18: w_set (w, 0, BK_SAMPLE_PERIOD, RUNIT * 7 / 3); break;
		case 19: w_set (w, 0, BK_SAMPLE_PERIOD, -RUNIT / 5); break;
		case 20: w_set (w, 0, BK_SAMPLE_PERIOD, RUNIT * 300); break;
		case 21: w_set (w, 0, BK_SAMPLE_PERIOD, 0); break;
		case 22: w_data (w, 0, BK_SAMPLE, 1); break;
		case 23: w_data (w, 0, BK_SAMPLE, 0); break;
		case 24: w_data (w, 0, BK_WAVEFORM, 1); break;
		case 25: w_data (w, 0, BK_SAMPLE, -1); break;
		case 26: w_data (w, 0, BK_WAVEFORM, -1); break;
		case 27: w_set (w, 0, BK_WAVEFORM, BK_SAWTOOTH); break;
		case 28: w_sample_cb (w, 0, 1); break;
		case 29: w_sample_cb (w, 0, 0); break;
		case 30: w_set (w, 0, BK_PHASE_WRAP, 3); break;
		case 31: w_detach (w, 0); w_attach (w, 0, 0); break;
		case 32: w_range (w, 0, 0, 2, 3); break;
		case 33: w_set (w, 0, BK_VOLUME_0, 7000); break;
		case 34: w_data (w, 0, BK_SAMPLE, 2); break;
		case 35: { w_log (w, "range reset"); w_ret (w, 51, RC (w) ? runit_set_range (w_ru (w, 0), NULL) : BKSetPtr (w_o (w, 0), BK_SAMPLE_RANGE, NULL, 0)); break; }
	}
}
static void history_script (World *w)
{
	int set = w_choose (w, Par ? 4 : 2);
	Hook = -1;
	w->on_sample = hook;
	w_ctx (w, 0, set == 1 ? 2 : 1, 44100);
	w_data_init (w, 0); w_data_frames (w, 0, ramp (7, 1), 7, 1, 0);
	w_data_init (w, 1); w_data_frames (w, 1, ramp (4, set == 1 ? 2 : 1), 4, set == 1 ? 2 : 1, 0);
	w_data_init (w, 2); w_data_frames (w, 2, ramp (3, 3), 3, 3, 0);
	w_unit (w, 0, 0); w_attach (w, 0, 0);
	w_set (w, 0, BK_PERIOD, RUNIT * 2 / 3);
	w_set (w, 0, BK_VOLUME, 30000);
	w_data (w, 0, BK_SAMPLE, 0);
	if (set == 1) w_set (w, 0, BK_SAMPLE_REPEAT, BK_REPEAT);
	if (set == 2) { w_range (w, 0, 0, 6, 1); w_set (w, 0, BK_SAMPLE_REPEAT, BK_PALINDROME); }
	if (set == 3) { w_range (w, 0, 1, 2, 5); w_set (w, 0, BK_SAMPLE_IMMED_RELEASE, 1); }
	w_set (w, 0, BK_MUTE, 0);
	for (int k = 0; k < Depth; k ++) {
		steps (w, 0, 3);
		int o = w_choose (w, UOps);
		if (o == 28) Hook = w_choose (w, 19);
		uop (w, o);
	}
	steps (w, 0, 4);
	w_gen (w, 0, 25);
	w_get_all (w, 0);
}
static void history (int par) { Depth = par % 10; Par = par / 10; check (history_script, "history"); }
/* samples played by the notes of tracks: with and without instruments of all kinds */
enum { POps = 26 };
static const int PHooks [] = { 15, 16, 17, 18, 12, 13, 2, 0, 5, 7 };
static void play (World *w) { for (int i = 0; i < 2; i ++) { w_gen (w, 0, 1); w_get (w, 0, BK_PHASE); } w_gen (w, 0, 13); w_get (w, 0, BK_PHASE); w_get (w, 0, BK_MUTE); }
static void pop (World *w, int o)
{
	switch (o) {
		case 0: w_set (w, 0, BK_NOTE, NOTE (48)); break;
		case 1: w_set (w, 0, BK_NOTE, NOTE (60)); break;
		case 2: w_set (w, 0, BK_NOTE, NOTE (36) + 4000); break;
		case 3: w_set (w, 0, BK_NOTE, BK_NOTE_RELEASE); break;
		case 4: w_set (w, 0, BK_NOTE, BK_NOTE_MUTE); break;
		case 5: w_range (w, 0, 0, 5, 30); break;
		case 6: w_range (w, 0, 0, 0, 0); break;
		case 7: w_range (w, 0, 1, 20, 32); break;
		case 8: w_range (w, 0, 1, 0, 0); break;
		case 9: case 10: case 11: case 12: case 13: w_instr (w, 0, o - 10); break;
		case 14: { static const int a [] = { 2, 0, NOTE (12) }; w_arp (w, 0, a); break; }
		case 15: w_set (w, 0, BK_SAMPLE_IMMED_RELEASE, 1); break;
		case 16: w_data (w, 0, BK_SAMPLE, 1); break;
		case 17: w_data (w, 0, BK_SAMPLE, 0); break;
		case 18: w_clear (w, 0); break;
		case 19: w_set (w, 0, BK_WAVEFORM, BK_SQUARE); break;
		case 20: w_set (w, 0, BK_SAMPLE_REPEAT, BK_PALINDROME); break;
		case 21: w_set (w, 0, BK_SAMPLE_REPEAT, BK_NO_REPEAT); break;
		case 22: w_set (w, 0, BK_PITCH, -NOTE (7)); break;
		case 23: { static const int e [] = { 3 }; w_effect (w, 0, BK_EFFECT_PORTAMENTO, e, 1); break; }
		case 24: w_detach (w, 0); w_attach (w, 0, 0); break;
		case 25: w_reset (w, 0); break;
	}
}
static void track_script (World *w)
{
	static const int Vol [] = { 32767, 20000, 9000, 4000 }, Pan [] = { 0, 5000, -5000, 0, 10000, 0, 1, 2, 3, 4 }, Pit [] = { 0, 1 << 20 }, En [] = { 1, 32767, 2, 16000, 9, 3000, 3, 0 };
	int in = w_choose (w, 5), mode = w_choose (w, 3), sus = w_choose (w, 3), rel = w_choose (w, 2);
	w->on_sample = hook;
	Hook = Par ? PHooks [w_choose (w, N (PHooks))] : -1;
	w_ctx (w, 0, 2, 44100);
	w_master (w, 0, 20 * RUNIT);
	w_data_init (w, 0); w_data_frames (w, 0, ramp (40, 1), 40, 1, 0);
	w_data_init (w, 1); w_data_frames (w, 1, ramp (9, 2), 9, 2, 0);
	w_instr_init (w, 0); w_seq (w, 0, 0, Vol, 4, 1, 1);
	w_instr_init (w, 1); w_seq (w, 1, 2, Pan, 10, 0, 1);
	w_instr_init (w, 2); w_seq (w, 2, 1, Pit, 2, -1, -1);
	w_instr_init (w, 3); w_env (w, 3, 0, En, 4, 1, 1);
	w_track (w, 0, 0); w_attach (w, 0, 0);
	w_set (w, 0, BK_INSTRUMENT_DIVIDER, 1); w_set (w, 0, BK_ARPEGGIO_DIVIDER, 1); w_set (w, 0, BK_EFFECT_DIVIDER, 1);
	w_set (w, 0, BK_MASTER_VOLUME, 30000);
	w_data (w, 0, BK_SAMPLE, 0);
	if (sus) w_range (w, 0, 1, sus == 1 ? 10 : 0, sus == 1 ? 17 : 40);
	w_set (w, 0, BK_SAMPLE_REPEAT, Modes [mode]);
	if (in) w_instr (w, 0, in - 1);
	if (Hook >= 0) w_sample_cb (w, 0, 1);
	w_set (w, 0, BK_NOTE, NOTE (48));
	play (w); play (w);
	if (rel) { w_set (w, 0, BK_NOTE, BK_NOTE_RELEASE); play (w); }
	for (int k = 0; k < Depth; k ++) { pop (w, w_choose (w, POps)); play (w); play (w); }
	for (int i = 0; i < 3; i ++) play (w);
	w_set (w, 0, BK_NOTE, BK_NOTE_RELEASE);
	for (int i = 0; i < 5; i ++) play (w);
	w_set (w, 0, BK_NOTE, NOTE (50)); play (w);
	w_get_all (w, 0);
}
static void track (int par) { Depth = par % 10; Par = par / 10; check (track_script, "track"); }
/* speed: note and pitch of tracks */
static void speed_script (World *w)
{
	static const int Sp [] = { 0, NOTE (12), -NOTE (12), NOTE (5) + 123456, -NOTE (48), NOTE (48), NOTE (60), -NOTE (7) };
	static const int Dp [] = { 0, NOTE (3) + 7000, -NOTE (24) };
	int n = w_choose (w, 97), f = w_choose (w, 3) * 349525, sp = Sp [w_choose (w, N (Sp))], dp = Dp [w_choose (w, N (Dp))], pi = w_choose (w, 3) * NOTE (2) - NOTE (2), via = w_choose (w, 2);
	int rate = Par ? (int []) { 16000, 44100, 96000 } [w_choose (w, 3)] : 44100;
	w_ctx (w, 0, 1, rate);
	w_data_init (w, 0); w_data_frames (w, 0, ramp (90, 1), 90, 1, 0);
	if (dp) w_data_pitch (w, 0, dp);
	w_track (w, 0, 0); w_attach (w, 0, 0);
	w_set (w, 0, BK_MASTER_VOLUME, 30000);
	if (via) w_set (w, 0, BK_NOTE, NOTE (n) + f);
	w_data (w, 0, BK_SAMPLE, 0);
	if (sp) w_set (w, 0, BK_SAMPLE_PITCH, sp);
	w_set (w, 0, BK_PITCH, pi);
	if (!via) w_set (w, 0, BK_NOTE, NOTE (n) + f);
	w_gen (w, 0, 40);
	int per = w_get (w, 0, BK_SAMPLE_PERIOD), used = sp ? rclamp (sp, -NOTE (48), NOTE (48)) : dp;
	double note = rclamp (rclamp (NOTE (n) + f, 0, NOTE (96)) + pi + used, 0, NOTE (96)) / (double) RUNIT, ideal = RUNIT * pow (2, (note - 48) / 12);
	MC_CHECK (fabs (per - ideal) <= 8 + ideal * 1e-3, "speed", "note %g, pitch %g, sample pitch %g: the sample advances %.5f frames per frame, expected %.5f", n + f / (double) RUNIT, pi / (double) RUNIT, used / (double) RUNIT, per / (double) RUNIT, ideal / RUNIT);
	w_get (w, 0, BK_PHASE); w_get (w, 0, BK_MUTE);
}
static void speed (int par) { Par = par; check (speed_script, "speed"); }
/* closed form: frames visited by plain repetition */
/* samples of realistic size */
static void large_script (World *w)
{
	static const int Nf [] = { 100, 1000, 1025, 2048, 4097, 70001, 682, 2047, 4096, 32768, 65535, 65536 }, P [] = { RUNIT, RUNIT * 5 / 3, RUNIT * 20, 99 * RUNIT + 12345, RUNIT * 2047 };
	int nf = Nf [w_choose (w, Par)], r = w_choose (w, 6), per = P [w_choose (w, N (P))], mode = w_choose (w, 3), sus = w_choose (w, 3), ch = w_choose (w, 3), track = w_choose (w, 2), chunk = w_choose (w, 2) ? 1500 : 97;
	int nch = ch == 2 ? 8 : 1 + ch, dch = ch == 2 ? 8 : 1, R [][2] = { { 0, -1 }, { nf - 7, nf }, { -1, 0 }, { nf / 2, nf / 2 + 1500 }, { 3, nf - 3 }, { nf, nf - nf / 3 } };
	if (track && per != RUNIT && per != RUNIT * 20) mc_discard ();
	if (sus && (mode == 1 || r > 2)) mc_discard ();
	if (ch == 2 && nf > 5000) mc_discard ();
	w_ctx (w, 0, nch, 44100);
	w_data_init (w, 0); w_data_frames (w, 0, ramp (nf, dch), nf, dch, 0);
	if (track) w_track (w, 0, 0); else w_unit (w, 0, 0);
	w_attach (w, 0, 0);
	if (!track) w_set (w, 0, BK_PERIOD, RUNIT);
	w_set (w, 0, track ? BK_MASTER_VOLUME : BK_VOLUME, 30000);
	w_data (w, 0, BK_SAMPLE, 0);
	if (r) w_range (w, 0, 0, R [r][0], R [r][1]);
	if (sus) w_range (w, 0, 1, sus == 1 ? nf / 3 : nf - 5, sus == 1 ? nf / 3 + 33 : nf - 1);
	w_set (w, 0, BK_SAMPLE_REPEAT, Modes [mode]);
	if (track) { w_set (w, 0, BK_SAMPLE_PITCH, per == RUNIT ? 0 : NOTE (48)); w_set (w, 0, BK_NOTE, NOTE (60)); }
	else w_set (w, 0, BK_SAMPLE_PERIOD, per);
	w_set (w, 0, BK_MUTE, 0);
	for (int i = 0; i < 4; i ++) { w_gen (w, 0, chunk); w_get (w, 0, BK_PHASE); }
	if (track) w_set (w, 0, BK_NOTE, BK_NOTE_RELEASE); else w_set (w, 0, BK_FLAG_RELEASE, 1);
	for (int i = 0; i < 3; i ++) { w_gen (w, 0, chunk); w_get (w, 0, BK_PHASE); }
	w_get_all (w, 0);
}
static void large (int par) { Par = par; check (large_script, "large"); }
/* hundreds of repetitions */
static void repeats_script (World *w)
{
	static const int Plans [][3] = { { 0 }, { BK_REPEAT, BK_PALINDROME, BK_PALINDROME }, { BK_PALINDROME, BK_REPEAT, BK_REPEAT }, { BK_PALINDROME, BK_PALINDROME, BK_REPEAT } };
	int nf = 2 + w_choose (w, 4), r = w_choose (w, 4), per = Per [w_choose (w, N (Per))], mode = w_choose (w, 6), sus = w_choose (w, 3), end = w_choose (w, 4);
	int R [][2] = { { 0, -1 }, { -1, 0 }, { 0, 2 }, { nf, nf - 2 } };
	w->on_sample = answer;
	NPlan = 0;
	if (mode > 2) { NPlan = 3; memcpy (Plan, Plans [mode - 2], sizeof Plans [0]); }
	w_ctx (w, 0, 1, 44100);
	w_data_init (w, 0); w_data_frames (w, 0, ramp (nf, 1), nf, 1, 0);
	w_unit (w, 0, 0); w_attach (w, 0, 0);
	w_set (w, 0, BK_PERIOD, RUNIT);
	w_set (w, 0, BK_VOLUME, 30000);
	w_data (w, 0, BK_SAMPLE, 0);
	if (r) w_range (w, 0, 0, R [r][0], R [r][1]);
	if (sus) w_range (w, 0, 1, sus - 1, sus + 1);
	if (mode > 2) w_sample_cb (w, 0, 1); else w_set (w, 0, BK_SAMPLE_REPEAT, Modes [mode]);
	w_set (w, 0, BK_SAMPLE_PERIOD, per);
	w_set (w, 0, BK_MUTE, 0);
	for (int i = 0; i < 30; i ++) { w_gen (w, 0, 1 + 7 * i); w_get (w, 0, BK_PHASE); if (end == 1 && i == 20) w_set (w, 0, BK_SAMPLE_REPEAT, mode ? BK_REPEAT : BK_PALINDROME); if (end > 1 && i > 4) w_range (w, 0, 0, R [(r + i) % 4][0], R [(r + i) % 4 ][end == 2]); }
	w_set (w, 0, BK_FLAG_RELEASE, 1);
	for (int i = 0; i < 12; i ++) { w_gen (w, 0, 1 + 5 * i); w_get (w, 0, BK_PHASE); }
	w_get_all (w, 0);
	w_set (w, 0, BK_PHASE, -1); w_set (w, 0, BK_MUTE, 0); w_set (w, 0, BK_FLAG_RELEASE, 0);
	steps (w, 0, 20);
}
static void repeats (int par) { check (repeats_script, "repeats"); }
static void visited (int par)
{
	int nf = 2 + mc_choose (par), a = mc_choose (nf + 1), b = mc_choose (nf + 1), nch = 1 + mc_choose (3), dch = mc_choose (2) ? nch : 1, rep = mc_choose (2);
	static const int P [] = { RUNIT, RUNIT / 2, RUNIT / 3, RUNIT * 2, RUNIT * 5 / 2, RUNIT * 7 / 3, RUNIT * 9 };
	int per = P [mc_choose (N (P))], len = abs (a - b), lo = a < b ? a : b, split = mc_choose (3);
	if (len < 2) mc_discard ();
	static World w0;
	BKContext c; BKUnit u; BKData d; BKFrame out [64 * 4];
	const int16_t *f = ramp (nf, dch);
	BKInt r [2] = { a, b };
	mc_log ("%d frames of %d channels, range %d..%d, %s, %.3f frames per frame", nf, dch, a, b, rep ? "repeated" : "once", per / (double) RUNIT);
	if (BKContextInit (&c, nch, 44100) || BKUnitInit (&u, 0) || BKUnitAttach (&u, &c) || BKDataInit (&d) || BKDataSetFrames (&d, f, nf, dch, 0)) mc_harness_error ("init");
	BKSetAttr (&u, BK_PERIOD, RUNIT); BKSetAttr (&u, BK_VOLUME, 32767);
	if (BKSetPtr (&u, BK_SAMPLE, &d, sizeof (void *))) mc_fail ("visited", "sample was refused");
	BKSetPtr (&u, BK_SAMPLE_RANGE, r, sizeof r);
	BKSetAttr (&u, BK_SAMPLE_REPEAT, rep ? BK_REPEAT : BK_NO_REPEAT);
	BKSetAttr (&u, BK_SAMPLE_PERIOD, per);
	BKSetAttr (&u, BK_MUTE, 0);
	int dir = a < b ? 1 : -1, start = a < b ? 0 : len - 1;
	for (int k = 0, n = 0; k < 40; k += n) {
		int64_t x = start + (((int64_t) dir * per * k) >> 20);
		int ended = x < 0 || x >= len;
		BKInt phase, mute;
		BKGetAttr (&u, BK_PHASE, &phase); BKGetAttr (&u, BK_MUTE, &mute);
		if (rep) MC_CHECK (phase == (x % len + len) % len && !mute, "visited", "after %d frames the position is %d%s, expected %d", k, phase, mute ? " (stopped)" : "", (int) ((x % len + len) % len));
		else MC_CHECK (mute == ended && (ended || phase == x), "visited", "after %d frames the position is %d%s, expected %d%s", k, phase, mute ? " (stopped)" : "", (int) x, ended ? " (stopped)" : "");
		if (!mute) for (int i = 0; i < nch; i ++) { int idx = (lo + phase) * dch + (dch == 1 ? 0 : i); if (idx < 0 || idx >= nf * dch) mc_fail ("visited", "position %d is outside", phase); }
		n = split == 0 ? 1 : split == 1 ? 3 : 8;
		BKContextGenerate (&c, out, n);
		/* the level reached is the frame of the data */
		if (!mute) { BKGetAttr (&u, BK_MUTE, &mute); if (n == 1) for (int i = 0; i < nch; i ++) MC_CHECK (u.lastPulse [i] == ((f [(lo + phase) * dch + (dch == 1 ? 0 : i)] * 32767) >> 15), "visited", "position %d: channel %d is at level %d instead of frame %d", phase, i, u.lastPulse [i], f [(lo + phase) * dch + (dch == 1 ? 0 : i)]); }
		mc_eval (1);
	}
	mc_trans (40);
	mc_state (mc_hash64 (mc_hash64 (a * 100 + b, nf * 10 + dch), per));
	BKDispose (&u); BKDispose (&d); BKDispose (&c);
	w_leak ("leak");
}

/* ----------------------------------------------------------------- C19 */
static Model DM [4][ND];
static int16_t Big [70], Two [40], Pair [2] = { 31000, -31000 };
static const uint8_t Bytes [24] = { 0, 255, 10, 240, 20, 230, 30, 220, 40, 210, 50, 200, 60, 190, 70, 180, 80, 170, 90, 160, 100, 150, 110, 140 };
enum { DOps = 15 };
static void d_sync (World *w, int d, Model *m)
{
	if (!RC (w)) return;
	w->rd [d].f = m->f; w->rd [d].nf = m->nf; w->rd [d].ch = m->ch;
	rdata_notify (&w->rd [d], 0);
}
static void d_frames (World *w, int d, const int16_t *f, int nf, int ch, int copy)
{
	Model *m = &DM [w - W][d];
	w_log (w, "data %d: set %d frames, %d channels%s", d, nf, ch, copy ? ", copied" : "");
	if (!RC (w)) { w_ret (w, 4, BKDataSetFrames (w->d [d], f, nf, ch, copy)); return; }
	int r = model_set_frames (m, f, nf, ch, copy);
	if (r == 0) d_sync (w, d, m);
	w_ret (w, 4, r);
}
static void dop (World *w, int d, int o)
{
	Model *m = &DM [w - W][d];
	int r = 0;
	switch (o) {
		case 0: d_frames (w, d, Smp, 40, 1, 1); return;
		case 1: d_frames (w, d, Wav, 6, 1, 0); return;
		case 2: d_frames (w, d, Two, 20, 2, 1); return;
		case 3: d_frames (w, d, Smp, 1, 1, 1); return;
		case 4: d_frames (w, d, Big, 70, 1, 1); return;
		case 5: d_frames (w, d, Pair, 2, 1, 0); return;
		case 6:
			w_log (w, "data %d: set 24 bytes", d);
			r = RC (w) ? model_set_data (m, Bytes, 24, 1, BK_8_BIT_UNSIGNED) : BKDataSetData (w->d [d], Bytes, 24, 1, BK_8_BIT_UNSIGNED);
			break;
		case 7:
			w_log (w, "data %d: load 24 bytes of 4 bit, 2 channels", d);
			r = RC (w) ? model_set_data (m, Bytes, 24, 2, BK_4_BIT_UNSIGNED) : load_raw (w->d [d], Bytes, 24, 2, BK_4_BIT_UNSIGNED, 2);
			break;
		case 8: {
			uint8_t img [200];
			w_log (w, "data %d: load WAV file", d);
			if (RC (w)) r = model_set_frames (m, Smp + 8, 16, 1, 1);
			else { FILE *f = temp_file (img, wav_image (img, Smp + 8, 16, 1), 0); r = BKDataLoadWAVE (w->d [d], f); fclose (f); }
			break;
		}
		case 9:
			w_log (w, "data %d: normalize", d);
			if (RC (w)) model_normalize (m); else r = BKDataNormalize (w->d [d]);
			break;
		case 10: {
			BKDataConvertInfo info;
			memset (&info, 0, sizeof info);
			info.targetNumBits = 10; info.threshold = 0.1f;
			w_log (w, "data %d: convert to 10 bits", d);
			if (RC (w)) model_convert (m, 10, 0.1f * 32767); else r = BKDataConvert (w->d [d], &info);
			break;
		}
		case 11:
			w_data_dispose (w, d); w_data_init (w, d);
			if (RC (w)) { model_free (m); model_init (m); }
			return;
		case 12:
			w_log (w, "data %d: set unusable data", d);
			r = RC (w) ? model_set_data (m, Bytes, 3, 4, BK_8_BIT_SIGNED) : BKDataSetData (w->d [d], Bytes, 3, 4, BK_8_BIT_SIGNED);
			break;
		case 13: w_data_pitch (w, d, NOTE (2)); return;
		case 14: {                                       /* the frames come from a copy which is disposed */
			BKData c;
			w_log (w, "data %d: set to frames of another object, which is then disposed", d);
			if (RC (w)) r = model_set_frames (m, Smp + 5, 9, 1, 1);
			else { if (BKDataInit (&c) || BKDataSetFrames (&c, Smp + 5, 9, 1, 1)) mc_harness_error ("data"); r = BKDataSetFrames (w->d [d], c.frames, c.numFrames, c.numChannels, 1); BKDispose (&c); }
			break;
		}
	}
	if (r >= 0) d_sync (w, d, m);
	w_ret (w, 60 + o, r < 0 ? -1 : 0);
}
enum { COps = 19 };
static void cop (World *w, int o)
{
	switch (o) {
		case 0: w_data (w, 0, BK_SAMPLE, 1); break;
		case 1: w_data (w, 0, BK_WAVEFORM, 0); break;
		case 2: w_set (w, 0, BK_WAVEFORM, BK_TRIANGLE); break;
		case 3: w_data (w, 0, BK_SAMPLE, -1); break;
		case 4: w_data (w, 1, BK_WAVEFORM, 1); break;
		case 5: w_data (w, 1, BK_WAVEFORM, -1); break;
		case 6: w_detach (w, 0); break;
		case 7: w_detach (w, 0); w_attach (w, 0, 0); break;
		case 8: w_dispose (w, 0); w_track (w, 0, BK_SINE); w_attach (w, 0, 0); w_set (w, 0, BK_MASTER_VOLUME, 9000); break;
		case 9: w_reset (w, 0); w_set (w, 0, BK_MASTER_VOLUME, 9000); break;
		case 10: w_clear (w, 1); break;
		case 11: w_range (w, 0, 0, 5, 15); break;
		case 12: w_range (w, 0, 1, 3, 9); break;
		case 13: w_set (w, 0, BK_NOTE, BK_NOTE_RELEASE); break;
		case 14: w_set (w, 0, BK_NOTE, NOTE (72)); break;
		case 15: w_set (w, 3, BK_WAVEFORM, BK_NOISE); break;
		case 16: w_data (w, 3, BK_SAMPLE, 0); w_set (w, 3, BK_SAMPLE_PERIOD, RUNIT * 2); break;
		case 17: w_attach (w, 0, 1); w_gen (w, 1, 10); break;
		case 18: w_set (w, 0, BK_SAMPLE_REPEAT, BK_PALINDROME); break;
	}
}
static int dsample (World *w, int i, int event, int n) { return event == BK_EVENT_SAMPLE_RESET && n < 12 ? BK_REPEAT : 0; }
static void use_script (World *w)
{
	static const int Sets [8] = { 3, 4, 6, 1, 0, 7, 2, 5 };
	int set = Sets [w_choose (w, Par)], slot = w - W;
	for (int i = 0; i < 70; i ++) Big [i] = i * 877 - 30000;
	for (int i = 0; i < 40; i ++) Two [i] = (i & 1 ? -700 : 650) * (i + 1);
	for (int i = 0; i < ND; i ++) { model_free (&DM [slot][i]); model_init (&DM [slot][i]); }
	w->on_sample = dsample;
	w_ctx (w, 0, 1 + (set & 1), 44100);
	w_ctx (w, 1, 1, 32000);
	for (int d = 0; d < 2; d ++) w_data_init (w, d);
	d_frames (w, 0, Smp, 40, 1, set & 2 ? 0 : 1);
	d_frames (w, 1, Wav, 6, 1, 1);
	for (int i = 0; i < 3; i ++) { w_track (w, i, BK_SQUARE + i); w_attach (w, i, 0); w_set (w, i, BK_MASTER_VOLUME, 6000 + 2000 * i); }
	w_unit (w, 3, BK_SAWTOOTH); w_attach (w, 3, 0);
	w_data (w, 0, BK_SAMPLE, 0);
	w_data (w, 1, BK_WAVEFORM, 0);
	w_data (w, 2, set & 4 ? BK_SAMPLE : BK_WAVEFORM, 1);
	w_data (w, 3, set & 4 ? BK_WAVEFORM : BK_SAMPLE, set & 4 ? 0 : 0);
	w_sample_cb (w, 0, set & 1);
	if (set & 2) w_set (w, 0, BK_SAMPLE_REPEAT, BK_REPEAT);
	w_set (w, 3, BK_PERIOD, RUNIT * 3); w_set (w, 3, BK_VOLUME, 2000); w_set (w, 3, BK_MUTE, 0);
	for (int i = 0; i < 3; i ++) w_set (w, i, BK_NOTE, NOTE (60 + 7 * i));
	w_gen (w, 0, 20);
	for (int k = 0; k < Depth; k ++) {
		int o = w_choose (w, 2 * DOps + COps);
		if (o < 2 * DOps) dop (w, o / DOps, o % DOps); else cop (w, o - 2 * DOps);
		w_gen (w, 0, 25);
		for (int i = 0; i < 4; i ++) { w_get (w, i, BK_PHASE); w_get (w, i, BK_WAVEFORM); w_get_range (w, i, 0); w_get_ptrs (w, i); }
	}
	w_gen (w, 0, 60);
	for (int i = 0; i < 4; i ++) w_get_all (w, i);
}
/* four users of one data object of every kind, of which some cannot go on with the new content */
static int Kind [NT], NUsers;
static int usample (World *w, int i, int event, int n)
{
	if (event == BK_EVENT_SAMPLE_RESET) return BK_REPEAT;
	if (n & 1) return 0;
	if (Kind [i] == 4) { w_set (w, i, BK_WAVEFORM, BK_SAWTOOTH); if (n & 2 && w->t [(i + 1) % NUsers].live) w_set (w, (i + 1) % NUsers, BK_WAVEFORM, BK_TRIANGLE); }
	else w_data (w, i, BK_SAMPLE, 1);
	return 0;
}
static void users_script (World *w)
{
	int slot = w - W, *kind = Kind;
	w->on_sample = usample;
	NUsers = 4;
	for (int i = 0; i < 70; i ++) Big [i] = i * 877 - 30000;
	for (int i = 0; i < 40; i ++) Two [i] = (i & 1 ? -700 : 650) * (i + 1);
	for (int i = 0; i < ND; i ++) { model_free (&DM [slot][i]); model_init (&DM [slot][i]); }
	w_ctx (w, 0, 2, 44100);
	w_ctx (w, 1, 1, 32000);
	w_data_init (w, 0); w_data_init (w, 1);
	d_frames (w, 0, Smp, 20, 1, 1);
	d_frames (w, 1, Wav, 6, 1, 1);
	for (int i = 0; i < 4; i ++) {
		kind [i] = w_choose (w, 6);                      /* nothing, waveform, sample, sample in a mono context, samples whose callbacks choose another waveform or data */
		if (i < 3) { w_track (w, i, BK_SQUARE + i); w_set (w, i, BK_MASTER_VOLUME, 6000 + 2000 * i); w_set (w, i, BK_NOTE, NOTE (60 + 7 * i)); }
		else { w_unit (w, i, BK_SAWTOOTH); w_set (w, 3, BK_PERIOD, RUNIT * 3); w_set (w, 3, BK_VOLUME, 2000); w_set (w, 3, BK_SAMPLE_PERIOD, RUNIT / 2); w_set (w, 3, BK_MUTE, 0); }
		w_attach (w, i, kind [i] == 3);
		if (kind [i]) w_data (w, i, kind [i] == 1 ? BK_WAVEFORM : BK_SAMPLE, 0);
		if (kind [i] > 1) w_set (w, i, BK_SAMPLE_REPEAT, BK_REPEAT);
		if (kind [i] > 3) w_sample_cb (w, i, 1);
	}
	w_gen (w, 0, 20); w_gen (w, 1, 20);
	for (int k = 0; k < Depth; k ++) {
		dop (w, 0, (int []) { 0, 1, 2, 4, 11, 9 } [w_choose (w, k ? 6 : 4)]);
		w_gen (w, 0, 25); w_gen (w, 1, 25);
	}
	for (int i = 0; i < 4; i ++) w_get_all (w, i);
	w_data_dispose (w, 0);
	w_gen (w, 0, 30); w_gen (w, 1, 30);
	w_data_dispose (w, 1);
	w_gen (w, 0, 30);
	for (int i = 0; i < 4; i ++) w_get_all (w, i);
}
/* up to 12 users of one data object, some of which stop using it, from callbacks or not */
static void many_script (World *w)
{
	static const int Users [] = { 5, 8, 12 };
	int slot = w - W, *kind = Kind, n = Users [w_choose (w, N (Users))], mul = 1 + w_choose (w, 6), drop = w_choose (w, 6);
	w->on_sample = usample;
	NUsers = n;
	for (int i = 0; i < 70; i ++) Big [i] = i * 877 - 30000;
	for (int i = 0; i < 40; i ++) Two [i] = (i & 1 ? -700 : 650) * (i + 1);
	for (int i = 0; i < ND; i ++) { model_free (&DM [slot][i]); model_init (&DM [slot][i]); }
	w_ctx (w, 0, 2, 44100);
	w_ctx (w, 1, 1, 32000);
	w_data_init (w, 0); w_data_init (w, 1);
	d_frames (w, 0, Smp, 20, 1, 1);
	d_frames (w, 1, Wav, 6, 1, 1);
	for (int i = 0; i < n; i ++) {
		kind [i] = 1 + i * mul / 2 % 5;
		if (i & 1) { w_track (w, i, BK_SQUARE + i % 3); w_set (w, i, BK_MASTER_VOLUME, 2000 + 300 * i); w_set (w, i, BK_NOTE, NOTE (40 + 5 * i)); }
		else { w_unit (w, i, BK_SAWTOOTH); w_set (w, i, BK_PERIOD, RUNIT * (3 + i)); w_set (w, i, BK_VOLUME, 2000); w_set (w, i, BK_SAMPLE_PERIOD, RUNIT / (2 + i)); w_set (w, i, BK_MUTE, 0); }
		w_attach (w, i, kind [i] == 3);
		w_data (w, i, kind [i] == 1 ? BK_WAVEFORM : BK_SAMPLE, 0);
		if (kind [i] > 1) w_set (w, i, BK_SAMPLE_REPEAT, BK_REPEAT);
		if (kind [i] > 3) w_sample_cb (w, i, 1);
	}
	w_gen (w, 0, 20); w_gen (w, 1, 20);
	if (drop == 1) w_dispose (w, 0);
	if (drop == 2) w_dispose (w, n - 1);
	if (drop == 3) for (int i = 1; i < n; i += 2) w_data (w, i, BK_SAMPLE, 1);
	if (drop == 4) w_dispose (w, n / 2);
	if (drop == 5) w_ctx_dispose (w, 1);
	for (int k = 0; k < Depth; k ++) {
		dop (w, 0, (int []) { 0, 1, 2, 4, 11, 9, 3 } [w_choose (w, 7)]);
		w_gen (w, 0, 25); if (drop != 5) w_gen (w, 1, 25);
	}
	for (int i = 0; i < n; i ++) if (w->t [i].live) w_get_all (w, i);
	w_data_dispose (w, 0);
	w_gen (w, 0, 30); if (drop != 5) w_gen (w, 1, 30);
	w_data_dispose (w, 1);
	w_gen (w, 0, 30);
	for (int i = 0; i < n; i ++) if (w->t [i].live) w_get_all (w, i);
}
/* a sample with a sustain range and more than one channel: its data is replaced, its user moves between contexts of different channels */
static void reused_script (World *w)
{
	static const int Nch [][2] = { { 2, 3 }, { 3, 2 }, { 2, 8 }, { 8, 1 }, { 1, 4 } }, Nf [] = { 40, 20, 9, 6, 2 };
	int p = w_choose (w, N (Nch)), mono = w_choose (w, 2), unit = w_choose (w, 2), slot = w - W, c = 0, cur;
	Model *m = &DM [slot][0];
	for (int i = 0; i < ND; i ++) { model_free (&DM [slot][i]); model_init (&DM [slot][i]); }
	w->on_sample = dsample;
	w_ctx (w, 0, Nch [p][0], 44100);
	w_ctx (w, 1, Nch [p][1], 24000);
	w_data_init (w, 0);
	if (unit) { w_unit (w, 0, BK_SAWTOOTH); w_attach (w, 0, 0); w_set (w, 0, BK_PERIOD, RUNIT * 3); w_set (w, 0, BK_VOLUME, 20000); }
	else { w_track (w, 0, BK_SQUARE); w_attach (w, 0, 0); w_set (w, 0, BK_MASTER_VOLUME, 20000); }
	cur = mono ? 1 : Nch [p][0];
	d_frames (w, 0, ramp (20, cur), 20, cur, 1);
	w_data (w, 0, BK_SAMPLE, 0);
	w_set (w, 0, BK_SAMPLE_REPEAT, BK_REPEAT);
	w_set (w, 0, unit ? BK_MUTE : BK_NOTE, unit ? 0 : NOTE (60));
	for (int k = 0; k < Depth; k ++) {
		int o = w_choose (w, 20), ch = o < 8 ? cur : o == 8 ? Nch [p][1] : 1;
		if (o > 2 && o < 10) cur = ch;
		switch (o) {
			case 0: case 1: case 2: {
				BKInt rg [][2] = { { 8, 16 }, { -4, -1 }, { 0, 0 } };
				w_log (w, "data 0: sustain range %d..%d", rg [o][0], rg [o][1]);
				model_range (m, rg [o][0], rg [o][1]);
				w->rd [0].s0 = m->s0; w->rd [0].s1 = m->s1;
				w_ret (w, 50, RC (w) ? 0 : BKSetPtr (w->d [0], BK_SAMPLE_SUSTAIN_RANGE, rg [o], sizeof rg [o]));
				break;
			}
			case 3: case 4: case 5: case 6: case 7: d_frames (w, 0, ramp (Nf [o - 3], ch), Nf [o - 3], ch, 1); break;
			case 8: d_frames (w, 0, ramp (20, ch), 20, ch, 1); break;
			case 9: d_frames (w, 0, ramp (12, ch), 12, ch, 1); break;
			case 10: w_detach (w, 0); w_attach (w, 0, c); break;
			case 11: w_detach (w, 0); c = !c; w_attach (w, 0, c); break;
			case 12: w_data (w, 0, BK_SAMPLE, 0); break;
			case 13: w_data (w, 0, BK_WAVEFORM, 0); break;
			case 14: w_set (w, 0, unit ? BK_FLAG_RELEASE : BK_NOTE, unit ? 1 : BK_NOTE_RELEASE); break;
			case 15: w_set (w, 0, unit ? BK_MUTE : BK_NOTE, unit ? 0 : NOTE (67)); break;
			case 16: w_set (w, 0, BK_SAMPLE_REPEAT, BK_PALINDROME); break;
			case 17: w_range (w, 0, 1, 1, 5); break;
			case 18: w_detach (w, 0); break;
			case 19: w_sample_cb (w, 0, 1); break;
		}
		w_gen (w, 0, 25); w_gen (w, 1, 25);
		w_get (w, 0, BK_PHASE); w_get (w, 0, BK_WAVEFORM); w_get_range (w, 0, 0); w_get_range (w, 0, 1);
	}
	w_gen (w, 0, 40); w_gen (w, 1, 40);
	w_get_all (w, 0);
}
static void reused (int depth) { Depth = depth; check (reused_script, "changed-data"); }
static void many (int depth) { Depth = depth; check (many_script, "changed-data"); }
static void users (int depth) { Depth = depth; check (users_script, "changed-data"); }
static void use (int par) { Depth = par % 10; Par = par / 10; check (use_script, "changed-data"); }

static const McScenario Scen [] = {
	{ "C17", "large-6", large, 6, MC_QUICK },
	{ "C17", "large", large, 12, MC_THOROUGH },
	{ "C17", "repeats", repeats, 0, MC_QUICK },
	{ "C17", "visited-6", visited, 5, MC_QUICK },
	{ "C17", "ranges-3", ranges, 3, MC_QUICK },
	{ "C17", "sustain", sustain, 0, MC_QUICK },
	{ "C17", "speed", speed, 0, MC_QUICK },
	{ "C17", "track-3", track, 3, MC_QUICK },
	{ "C17", "track-callbacks-1", track, 11, MC_QUICK },
	{ "C17", "track-callbacks-3", track, 13, MC_THOROUGH },
	{ "C17", "track-4", track, 4, MC_THOROUGH },
	{ "C17", "history-2", history, 12, MC_QUICK },
	{ "C17", "history-3", history, 3, MC_QUICK },
	{ "C17", "visited-10", visited, 9, MC_THOROUGH },
	{ "C17", "ranges-4", ranges, 4, MC_THOROUGH },
	{ "C17", "sustain-all", sustain, 1, MC_THOROUGH },
	{ "C17", "speed-rates", speed, 1, MC_THOROUGH },
	{ "C17", "history-4", history, 14, MC_THOROUGH },
	{ "C19", "users-3", users, 3, MC_QUICK },
	{ "C19", "many-users", many, 2, MC_QUICK },
	{ "C19", "reused-3", reused, 3, MC_QUICK },
	{ "C19", "reused-4", reused, 4, MC_THOROUGH },
	{ "C19", "many-users-3", many, 3, MC_THOROUGH },
	{ "C19", "users-4", users, 4, MC_THOROUGH },
	{ "C19", "change-1", use, 81, MC_QUICK },
	{ "C19", "change-2", use, 82, MC_QUICK },
	{ "C19", "change-3", use, 43, MC_QUICK },
	{ "C19", "change-4", use, 24, MC_THOROUGH },
};
static const McPropInfo Props [] = {
	{ "C17", "model_checking", "each execution plays one sample configuration or history; position and level are compared after each frame; states are distinct outputs",
	  "2-5 (8) frames x all ranges from -n-2 to n+2 x 6 speeds x repeat modes and callback answers x 3 moments; 5 ranges x all sustain ranges x release moments, once or twice; all notes x pitches; samples of up to 70001 frames; hundreds of repetitions in 6 modes with changes between them; histories of 3 (4) of 36 operations with 19 callbacks; samples under notes of tracks with 5 instruments x 3 repeat modes x sustain ranges x histories of 3 (4) of 26 operations, with 10 callbacks of 1 (3)",
	  "reference synthesizer, closed form of the position, AddressSanitizer on frames of exact size" },
	{ "C19", "model_checking", "each execution changes data objects used by tracks; all frames and attributes are compared; states are distinct outputs",
	  "4 users x 2 data objects x histories of 3 (4) of 49 operations (15 changes of each data object, 19 changes of users); 4 users of all 6 kinds each (two of them with a callback which chooses another waveform or other data) in two contexts x 3 (4) changes after which some of them cannot go on; up to 12 users of one data object x 2 (3) changes; 5 pairs of contexts of different channels x mono or not x track or unit x histories of 3 (4) of 20 changes of range, frames, channels, context and user",
	  "reference synthesizer with value semantics for data, AddressSanitizer, block accounting" },
};
int main (int argc, char **argv) { return mc_main (argc, argv, Scen, N (Scen), Props, N (Props)); }
