/* Tracks: notes (C10), instrument sequences (C11), envelopes (C12), effects (C14), arpeggio (C16). */
#include "world.h"

#define TICK 20                     /* frames per effect tick */
#define NOTE(n) ((n) << 20)
static void ticks (World *w, int n) { w_gen (w, 0, n * TICK); w_get_all (w, 0); }
static const int16_t Smp [32] = { 0, 3000, 6000, 9000, 12000, 15000, 18000, 21000, 24000, 27000, 30000, 32000, 30000, 20000, 10000, 0,
	-3000, -6000, -9000, -12000, -15000, -18000, -21000, -24000, -27000, -30000, -32000, -20000, -10000, -7000, -4000, -1000 };
static void setup (World *w, int nch, int wave)
{
	w_ctx (w, 0, nch, 44100);
	w_master (w, 0, TICK * RUNIT);
	w_track (w, 0, wave);
	w_attach (w, 0, 0);
	w_set (w, 0, BK_MASTER_VOLUME, 30000);
}
static void finish (World *w) { w_gen (w, 0, 4 * TICK + 50); w_get_all (w, 0); }

/* -------------------------------------------------------------- notes */
static const int SeqRel [] = { 32767, 20000, 12000, 6000 }, SeqPitch [] = { 0, 1 << 20, -(1 << 20) };
static const int EnvRel [] = { 1, 32767, 2, 16000, 1, 10000, 3, 0 };
static void note_instruments (World *w)
{
	w_instr_init (w, 0);                            /* sustained, releases in 3 steps */
	w_seq (w, 0, 0, SeqRel, 4, 1, 1);
	w_instr_init (w, 1);                            /* no sustain: ends by itself */
	w_seq (w, 1, 0, SeqRel, 3, -1, -1);
	w_seq (w, 1, 2, SeqPitch, 3, 0, 3);
	w_instr_init (w, 2);                            /* released envelope */
	w_env (w, 2, 0, EnvRel, 4, 1, 2);
	w_data_init (w, 0);
	w_data_frames (w, 0, Smp, 32, 1, 1);
}
enum { NoteOps = 21 };
static void note_op (World *w, int op)
{
	switch (op) {
		case 0: w_set (w, 0, BK_NOTE, NOTE (80)); break;
		case 1: w_set (w, 0, BK_NOTE, NOTE (67) + 300000); break;
		case 2: w_set (w, 0, BK_NOTE, BK_NOTE_RELEASE); break;
		case 3: w_set (w, 0, BK_NOTE, BK_NOTE_MUTE); break;
		case 4: ticks (w, 1); break;
		case 5: ticks (w, 5); break;
		case 6: w_instr (w, 0, 0); break;
		case 7: w_instr (w, 0, 1); break;
		case 8: w_instr (w, 0, -1); break;
		case 9: w_set (w, 0, BK_WAVEFORM, BK_SAWTOOTH); break;
		case 10: w_set (w, 0, BK_NOTE, NOTE (96) + 1); break;
		case 11: w_set (w, 0, BK_NOTE, -3); break;
		case 12: w_instr (w, 0, 2); break;
		case 13: w_data (w, 0, BK_SAMPLE, 0); break;
		case 14: w_range (w, 0, 1, 8, 16); break;
		case 15: w_set (w, 0, BK_NOTE, 0); break;
		case 16: { static const int e [] = { 4 }; w_effect (w, 0, BK_EFFECT_PORTAMENTO, e, 1); break; }
		case 17: w_set (w, 0, BK_NOTE, INT32_MAX); break;
		case 18: w_set (w, 0, BK_SAMPLE_IMMED_RELEASE, 1); break;
		case 19: w_set (w, 0, BK_MUTE, 0); break;
		case 20: w_set (w, 0, BK_PITCH, NOTE (5)); break;
	}
	w_get_all (w, 0);
}
static const int NoteShort [] = { 0, 1, 2, 3, 4, 6, 8 };
static const int NoteSample [] = { 0, 1, 2, 3, 4, 5, 14, 8, 0 };
static int Depth, Kind;
static void note_script (World *w)
{
	int pre = Kind == 3 ? 4 : w_choose (w, Kind == 2 ? 2 : 4);
	setup (w, 1, BK_SQUARE);
	note_instruments (w);
	if (pre == 1) w_instr (w, 0, 0);
	if (pre == 2) w_instr (w, 0, 2);
	if (pre == 3 || pre == 4) { w_data (w, 0, BK_SAMPLE, 0); w_range (w, 0, 1, 8, 16); }
	if (pre == 4) { if (w_choose (w, 2)) w_set (w, 0, BK_SAMPLE_IMMED_RELEASE, 1); if (w_choose (w, 2)) w_instr (w, 0, 0); w_set (w, 0, BK_SAMPLE_REPEAT, w_choose (w, 2) ? BK_REPEAT : 0); }
	for (int k = 0; k < Depth; k ++)
		note_op (w, Kind == 1 ? w_choose (w, NoteOps) : Kind == 2 ? NoteShort [w_choose (w, 7)] : NoteSample [w_choose (w, 7)]);
	finish (w);
}
static void notes (int p) { Depth = p % 100; Kind = p / 100; w_check_track (note_script, 0, "note"); }

/* all note values of a boundary set, with every way to start */
static void note_values_script (World *w)
{
	static const int V [] = { 0, 1, -1, -2, -3, INT32_MIN, INT32_MAX, 96 << 20, (96 << 20) + 1, (96 << 20) - 1, 48 << 20, 97 << 20, 2047 << 20, 57 << 20 };
	int a = w_choose (w, N (V)), b = w_choose (w, N (V)), mid = w_choose (w, 3), ins = w_choose (w, 2);
	setup (w, 1, BK_TRIANGLE);
	note_instruments (w);
	if (ins) w_instr (w, 0, 0);
	w_set (w, 0, BK_NOTE, V [a]); ticks (w, 2);
	if (mid) w_set (w, 0, BK_NOTE, mid == 1 ? BK_NOTE_RELEASE : BK_NOTE_MUTE);
	if (mid) ticks (w, 2);
	w_set (w, 0, BK_NOTE, V [b]); ticks (w, 2);
	finish (w);
}
static void note_values (int p) { w_check_track (note_values_script, 0, "note"); }

/* the same note from every kind of source: waveforms, waves and samples of many lengths */
static void source_script (World *w)
{
	static const int L [] = { 2, 3, 7, 8, 15, 16, 17, 31, 32, 33, 47, 63, 64 }, Nt [] = { 0, NOTE (29) + 77, NOTE (60), NOTE (81) + 500000, NOTE (96) }, P [] = { 0, NOTE (7), -NOTE (3) - 1234 };
	static int16_t f [300];
	int src = w_choose (w, 2), first = w_choose (w, 5 + 2 * N (L)), a = Nt [w_choose (w, N (Nt))], b = Nt [w_choose (w, N (Nt))], pitch = P [w_choose (w, 3)], when = w_choose (w, 4), ch = 1 + w_choose (w, 2);
	for (int i = 0; i < 300; i ++) f [i] = (i * 7919 + 4000) % 30000 - 15000;
	setup (w, ch, BK_SQUARE);
	w_data_init (w, 0);
	if (first >= 5 + N (L) && when == 1) w_data_pitch (w, 0, -NOTE (2) + 99);
	if (src) w_set (w, 0, BK_NOTE, a);
	if (when == 2) w_set (w, 0, BK_PITCH, pitch);
	if (first < 5) { if (first) w_set (w, 0, BK_WAVEFORM, first == 1 ? BK_TRIANGLE : first == 2 ? BK_NOISE : first == 3 ? BK_SAWTOOTH : BK_SINE); }
	else {
		int len = L [(first - 5) % N (L)], smp = first >= 5 + N (L);
		w_data_frames (w, 0, f, len, smp ? ch : 1, 1);
		w_data (w, 0, smp ? BK_SAMPLE : BK_WAVEFORM, 0);
		if (smp) w_set (w, 0, BK_SAMPLE_REPEAT, BK_REPEAT);
	}
	if (!src) w_set (w, 0, BK_NOTE, a);
	w_get_all (w, 0);
	ticks (w, 2);
	if (when != 2) w_set (w, 0, BK_PITCH, pitch);
	if (when == 3) w_set (w, 0, BK_NOTE, BK_NOTE_RELEASE);
	w_set (w, 0, BK_NOTE, b);
	ticks (w, 2);
	finish (w);
}
static void sources (int p) { w_check_track (source_script, 0, "note"); }
/* releasing a sustained sample while every kind of instrument plays it */
static void release_script (World *w)
{
	static const int q [4] [4] = { { 32767, 20000, 12000, 6000 }, { 0, 20000, -20000, 5 }, { 0, 1 << 20, -(1 << 20), 5 << 19 }, { 2, 5, 8, 3 } };
	int mask = w_choose (w, 16), env = w_choose (w, 2), jump = w_choose (w, 2), rep = w_choose (w, 2), first = w_choose (w, 3), hold = w_choose (w, 3), sust = w_choose (w, 2), end = w_choose (w, 4);
	setup (w, 2, BK_SQUARE);
	w_set (w, 0, BK_INSTRUMENT_DIVIDER, 1);
	w_data_init (w, 0); w_data_frames (w, 0, Smp, 32, 1, 1);
	w_instr_init (w, 0);
	for (int k = 0; k < 4; k ++) if (mask & 1 << k) {
		int e [8]; for (int i = 0; i < 4; i ++) { e [2 * i] = i & 1 ? 2 : 1; e [2 * i + 1] = q [k] [i]; }
		if (env && k != 3) w_env (w, 0, k, e, 4, 1, 1); else w_seq (w, 0, k, q [k], 4, 1, 1);
	}
	w_data (w, 0, BK_SAMPLE, 0);
	if (sust) w_range (w, 0, 1, 8, 12);
	w_set (w, 0, BK_SAMPLE_IMMED_RELEASE, jump);
	if (rep) w_set (w, 0, BK_SAMPLE_REPEAT, BK_REPEAT);
	if (first == 0) w_instr (w, 0, 0);
	w_set (w, 0, BK_NOTE, NOTE (86));
	if (hold) ticks (w, hold);
	if (first == 1) { w_instr (w, 0, 0); ticks (w, 1); }
	w_set (w, 0, BK_NOTE, BK_NOTE_RELEASE);
	ticks (w, 1);
	if (first == 2) w_instr (w, 0, 0);
	if (end == 1) w_set (w, 0, BK_NOTE, NOTE (80));
	if (end == 2) w_instr (w, 0, -1);
	if (end == 3) w_set (w, 0, BK_NOTE, BK_NOTE_RELEASE);
	ticks (w, 2);
	if (end) { w_set (w, 0, BK_NOTE, BK_NOTE_RELEASE); ticks (w, 1); }
	w_set (w, 0, BK_NOTE, NOTE (90));
	finish (w);
}
static void releases (int p) { w_check_track (release_script, 0, "note"); }

/* ---------------------------------------------------------- sequences */
static const int SlotVal [4] [5] = { { 30000, 12000, 0, 32767, 5000 }, { -20000, 15000, 32767, -32768, 0 }, { 3 << 20, -(2 << 20), 12 << 20, 0, 1 << 19 }, { 2, 8, 13, 0, 20 } };
static int MaxLen;
/* every shape of a sequence: attack, hold, release, attack again */
static void seq_shape_script (World *w)
{
	int slot = w_choose (w, 4), tri = slot == 0 ? w_choose (w, 2) : 0, len = w_choose (w, MaxLen + 1), s0 = w_choose (w, len + 3) - 1, sn = w_choose (w, len + 3) - 1;
	int hold = w_choose (w, 4), end = w_choose (w, 3), div = 1 + w_choose (w, 2), keep = w_choose (w, 2);
	int v [6];
	for (int i = 0; i < len; i ++) v [i] = SlotVal [slot] [i];
	setup (w, 2, tri ? BK_TRIANGLE : BK_SQUARE);
	w_set (w, 0, BK_DUTY_CYCLE, 5);
	w_set (w, 0, BK_INSTRUMENT_DIVIDER, div);
	w_instr_init (w, 0);
	w_seq (w, 0, slot, v, len, s0, sn);
	if (keep) { static const int one [] = { 25000 }; w_seq (w, 0, slot ? 0 : 1, one, 1, 0, 1); }     /* another one that sounds until released */
	w_instr (w, 0, 0);
	w_set (w, 0, BK_NOTE, NOTE (80));
	for (int i = 0; i < 2 * hold * div; i ++) ticks (w, 1);
	if (hold == 3) ticks (w, 1);
	if (end == 1) w_set (w, 0, BK_NOTE, BK_NOTE_RELEASE);
	if (end == 2) w_set (w, 0, BK_NOTE, BK_NOTE_MUTE);
	for (int i = 0; i < (len + 1) * div; i ++) ticks (w, 1);
	w_set (w, 0, BK_NOTE, NOTE (84));
	ticks (w, 3);
	finish (w);
}
static void seq_shape (int p) { MaxLen = p; w_check_track (seq_shape_script, 0, "sequence"); }

/* histories over two tracks sharing instruments which are changed meanwhile */
enum { SeqOps = 24 };
static void seq_op (World *w, int op)
{
	static const int a [] = { 32767, 16000, 8000, 4000 }, d [] = { 2, 8, 15 }, p [] = { 0, 4 << 20, -(4 << 20) }, n [] = { -32767, 32767 };
	switch (op) {
		case 0: w_set (w, 0, BK_NOTE, NOTE (80)); break;
		case 1: w_set (w, 0, BK_NOTE, BK_NOTE_RELEASE); break;
		case 2: w_set (w, 0, BK_NOTE, BK_NOTE_MUTE); break;
		case 3: ticks (w, 1); break;
		case 4: ticks (w, 3); break;
		case 5: w_instr (w, 0, 0); break;
		case 6: w_instr (w, 0, -1); break;
		case 7: w_seq (w, 0, 0, a, 4, 1, 2); break;
		case 8: w_seq (w, 0, 0, a + 1, 3, -1, 0); break;
		case 9: w_seq (w, 0, 0, NULL, 0, 0, 0); break;
		case 10: w_seq (w, 0, 3, d, 3, 0, 3); break;
		case 11: w_seq (w, 0, 2, p, 3, 2, 1); break;
		case 12: w_seq (w, 0, 1, n, 2, 0, 2); break;
		case 13: w_set (w, 1, BK_NOTE, NOTE (85)); break;
		case 14: w_set (w, 1, BK_NOTE, BK_NOTE_RELEASE); break;
		case 15: w_instr (w, 1, 0); break;
		case 16: w_instr_dispose (w, 0); w_instr_init (w, 0); break;
		case 17: w_instr (w, 0, 1); break;
		case 18: w_set (w, 0, BK_INSTRUMENT_DIVIDER, 2); break;
		case 19: w_set (w, 0, BK_VOLUME, 12000); break;
		case 20: w_set (w, 0, BK_DUTY_CYCLE, 7); break;
		case 21: { static const int e [] = { 1, 20000, 2, 5000 }; w_env (w, 0, 0, e, 2, 0, 2); break; }
		case 22: w_seq (w, 0, 4, a, 4, 0, 1); break;
		case 23: w_set (w, 0, BK_NOTE, NOTE (70)); break;
	}
	w_get_all (w, 0); w_get_all (w, 1);
}
static const int SeqShort [] = { 0, 1, 2, 3, 5, 6, 7, 9 };
static void seq_hist_script (World *w)
{
	int pre = w_choose (w, Kind == 2 ? 2 : 3);
	setup (w, 2, BK_SQUARE);
	w_track (w, 1, BK_SAWTOOTH);
	w_attach (w, 1, 0);
	w_set (w, 1, BK_MASTER_VOLUME, 10000);
	w_set (w, 0, BK_INSTRUMENT_DIVIDER, 1); w_set (w, 1, BK_INSTRUMENT_DIVIDER, 1);
	w_instr_init (w, 0); w_instr_init (w, 1);
	w_seq (w, 1, 0, SeqRel, 4, 3, 0);
	if (pre) seq_op (w, 7);
	if (pre == 2) { seq_op (w, 11); w_instr (w, 0, 0); w_instr (w, 1, 0); w_set (w, 0, BK_NOTE, NOTE (80)); ticks (w, 2); }
	for (int k = 0; k < Depth; k ++) seq_op (w, Kind == 2 ? SeqShort [w_choose (w, N (SeqShort))] : w_choose (w, SeqOps));
	finish (w);
}
static void seq_hist (int p) { Depth = p % 100; Kind = p / 100; w_check_track (seq_hist_script, 0, "sequence"); }

/* long sequences */
static void seq_long_script (World *w)
{
	static const int L [] = { 5, 6, 7, 8, 9, 15, 16, 17, 31, 33, 64, 100, 127, 128, 129, 255, 256, 257, 1000 };
	static int v [1000];
	int slot = w_choose (w, 4), len = L [w_choose (w, N (L))], r = w_choose (w, 5), hold = w_choose (w, 4), div = 1 + w_choose (w, 2);
	int R [][2] = { { len, 0 }, { 0, len }, { len / 2, 1 }, { len - 1, 1 }, { len / 3, len / 2 } };
	for (int i = 0; i < len; i ++) v [i] = slot == 0 ? (i * 7919 + 3) & 32767 : slot == 1 ? (i * 7919 & 65535) - 32768 : slot == 2 ? ((i * 37) % 48 - 24) << 20 : i % 16;
	setup (w, 2, BK_SQUARE);
	w_set (w, 0, BK_INSTRUMENT_DIVIDER, div);
	w_instr_init (w, 0);
	w_seq (w, 0, slot, v, len, R [r][0], R [r][1]);
	if (slot) { static const int one [] = { 32000 }; w_seq (w, 0, 0, one, 1, 0, 1); }
	w_instr (w, 0, 0);
	w_set (w, 0, BK_NOTE, NOTE (70));
	w_gen (w, 0, TICK * div * (hold == 0 ? 3 : hold == 1 ? len / 2 : hold == 2 ? len - 1 : 2 * len + 3)); w_get_all (w, 0);
	w_set (w, 0, BK_NOTE, BK_NOTE_RELEASE);
	w_gen (w, 0, TICK * div * (len + 2)); w_get_all (w, 0);
	w_set (w, 0, BK_NOTE, NOTE (84)); ticks (w, 3);
	finish (w);
}
static void seq_long (int p) { w_check_track (seq_long_script, 0, "sequence"); }
/* two sequences at once */
static void seq_pair_script (World *w)
{
	int s = w_choose (w, 4), t = w_choose (w, 4), la = 1 + w_choose (w, 3), lb = 1 + w_choose (w, 3), ra = w_choose (w, la + 1), rb = w_choose (w, lb + 1), hold = w_choose (w, 5), rel = w_choose (w, 2);
	if (s == t) mc_discard ();
	setup (w, 2, BK_SQUARE);
	w_set (w, 0, BK_INSTRUMENT_DIVIDER, 1);
	w_instr_init (w, 0);
	w_seq (w, 0, s, SlotVal [s], la, ra, ra < la);
	w_seq (w, 0, t, SlotVal [t], lb, rb, rb < lb);
	w_instr (w, 0, 0);
	w_set (w, 0, BK_NOTE, NOTE (80));
	for (int i = 0; i < hold; i ++) ticks (w, 1);
	if (rel) w_set (w, 0, BK_NOTE, BK_NOTE_RELEASE);
	for (int i = 0; i < 4; i ++) ticks (w, 1);
	w_set (w, 0, BK_NOTE, NOTE (75));
	ticks (w, 2);
	finish (w);
}
/* up to 12 tracks play one instrument, which changes; some of them stop using it before */
static void crowd_script (World *w)
{
	static const int Tracks [] = { 2, 5, 12 }, L [] = { 5000, 32767, 800, 20000, 100 }, P [] = { 0, 7 << 20 }, Pan [] = { -20000, 20000, 0 }, En [] = { 2, 32767, 3, 4000, 2, 9000 };
	int n = Tracks [w_choose (w, N (Tracks))], drop = w_choose (w, 5);
	setup (w, 2, BK_SQUARE);
	w_instr_init (w, 0); w_instr_init (w, 1);
	w_seq (w, 0, 0, SeqRel, 4, 1, 1); w_seq (w, 0, 2, SeqPitch, 3, 0, 3);
	w_seq (w, 1, 0, L, 5, 0, 5);
	for (int i = 0; i < n; i ++) {
		if (i) { w_track (w, i, i & 1 ? BK_SAWTOOTH : BK_SQUARE); w_attach (w, i, 0); }
		w_set (w, i, BK_MASTER_VOLUME, 2500); w_set (w, i, BK_VOLUME, 30000); w_set (w, i, BK_INSTRUMENT_DIVIDER, 1 + i % 2);
		w_instr (w, i, 0);
		w_set (w, i, BK_NOTE, NOTE (50 + 3 * i));
		if (i % 3 == 1) w_gen (w, 0, TICK);
	}
	ticks (w, 1);
	if (drop == 1) w_instr (w, 0, -1);
	if (drop == 2) w_instr (w, n / 2, 1);
	if (drop == 3) w_dispose (w, n - 1);
	if (drop == 4) for (int i = 0; i < n; i += 2) w_set (w, i, BK_NOTE, BK_NOTE_RELEASE);
	for (int k = 0; k < Depth; k ++) {
		switch (w_choose (w, 12)) {
			case 0: w_seq (w, 0, 0, L, 5, 1, 3); break;
			case 1: w_seq (w, 0, 0, NULL, 0, 0, 0); break;
			case 2: w_seq (w, 0, 2, P, 2, 0, 2); break;
			case 3: w_seq (w, 0, 2, NULL, 0, 0, 0); break;
			case 4: w_seq (w, 0, 1, Pan, 3, 0, 3); break;
			case 5: w_env (w, 0, 0, En, 3, 1, 2); break;
			case 6: w_adsr (w, 0, 2, 3, 9000, 4); break;
			case 7: w_instr_dispose (w, 0); w_instr_init (w, 0); w_seq (w, 0, 0, SeqRel, 4, 1, 1); break;
			case 8: for (int i = 0; i < n; i ++) if (w->t [i].live) w_instr (w, i, i & 1); break;
			case 9: if (w->t [n / 2].live) w_set (w, n / 2, BK_NOTE, BK_NOTE_RELEASE); break;
			case 10: w_seq (w, 1, 0, SeqRel, 4, 1, 1); break;
			case 11: if (w->t [1].live) w_set (w, 1, BK_NOTE, NOTE (60)); break;
		}
		ticks (w, 1); w_gen (w, 0, 3 * TICK);
		for (int i = 0; i < n; i ++) if (w->t [i].live) { w_get (w, i, BK_VOLUME_0); w_get (w, i, BK_PERIOD); w_get (w, i, BK_MUTE); }
	}
	finish (w);
}
static void crowd (int p) { Depth = p; w_check_track (crowd_script, 0, "sequence"); }
static void seq_pair (int p) { w_check_track (seq_pair_script, 0, "sequence"); }

/* ---------------------------------------------------------- envelopes */
static const int EnvSteps [] = { 0, 1, 3, 2, 7 };
static const int EnvVal [4] [3] = { { 32767, 0, 10000 }, { -32767, 20000, 0 }, { 12 << 20, -(3 << 20), 0 }, { 2, 15, 9 } };
static int NSteps;
static void env_shape_script (World *w)
{
	int slot = w_choose (w, 4), len = 1 + w_choose (w, MaxLen), s0 = w_choose (w, len + 3) - 1, sn = w_choose (w, len + 3) - 1;
	int e [8], hold;
	for (int i = 0; i < len; i ++) { e [2 * i] = EnvSteps [w_choose (w, NSteps)]; e [2 * i + 1] = EnvVal [slot] [(w_choose (w, 2) + i) % 3]; }
	hold = w_choose (w, 4);
	setup (w, 2, BK_SQUARE);
	w_instr_init (w, 0);
	w_env (w, 0, slot, e, len, s0, sn);
	w_instr (w, 0, 0);
	w_set (w, 0, BK_NOTE, NOTE (80));
	for (int i = 0; i < 2 * hold; i ++) ticks (w, 1);
	if (hold == 3) ticks (w, 1);
	w_set (w, 0, BK_NOTE, BK_NOTE_RELEASE);
	for (int i = 0; i < 5; i ++) { ticks (w, 1); if (i == 1 && hold == 1) w_set (w, 0, BK_NOTE, BK_NOTE_RELEASE); }
	w_set (w, 0, BK_NOTE, NOTE (84));
	ticks (w, 2);
	finish (w);
}
static void env_shape (int p) { MaxLen = p % 100; NSteps = p / 100; w_check_track (env_shape_script, 0, "envelope"); }
static void env_long_script (World *w)
{
	static const int St [] = { 1, 2, 3, 5, 7, 10, 16, 31, 100, 255, 256, 257 }, Va [] = { 32767, 32766, 1, 0, 16384, 100 };
	int a = St [w_choose (w, N (St))], b = St [w_choose (w, N (St))], v = Va [w_choose (w, N (Va))], slot = w_choose (w, 2) * 2, rel = w_choose (w, 4);
	int e [] = { a, v, b, 20000, 1, 0 };
	if (slot) { e [1] = v << 8; e [3] = -(5 << 20); }
	setup (w, 1, BK_SAWTOOTH);
	w_instr_init (w, 0);
	w_env (w, 0, slot, e, 3, 1, 1);
	w_instr (w, 0, 0);
	w_set (w, 0, BK_NOTE, NOTE (80));
	int len = a + b + 3 < 60 ? a + b + 3 : 60;
	for (int i = 0; i < len; i ++) { if (i == rel * len / 4 && rel) w_set (w, 0, BK_NOTE, BK_NOTE_RELEASE); w_gen (w, 0, TICK); }
	if (a + b > 57) w_gen (w, 0, TICK * (a + b - 55));
	finish (w);
}
static void env_long (int p) { w_check_track (env_long_script, 0, "envelope"); }
/* envelopes with many points */
static void env_many_script (World *w)
{
	static const int L [] = { 4, 5, 7, 8, 9, 16, 17, 33, 64, 100 };
	int slot = w_choose (w, 4), len = L [w_choose (w, N (L))], r = w_choose (w, 5), hold = w_choose (w, 4), st = w_choose (w, 7);
	int R [][2] = { { len, 0 }, { 0, len }, { len / 2, 1 }, { len - 1, 1 }, { len / 3, len / 2 } }, e [200];
	for (int i = 0; i < len; i ++) {
		e [2 * i] = st == 0 ? 1 + i % 3 : st == 1 ? (i % 4 ? 2 : 0) : st == 2 ? (i * 5) % 11 : st > 4 ? 1 + i % 2 : 0;      /* 3: the only time passes at the last point of the sustain range, 4: none at all */
		if (st < 3 ? i == R [r][0] : st == 3 && i == (R [r][1] ? R [r][0] + R [r][1] : len) - 1) e [2 * i] += !e [2 * i];
		if (st > 4) {                                          /* small values, and extreme ones at the end (5) or in the middle (6) */
			static const int Hi [4][2] = { { 32767, 32000 }, { -32768, 32767 }, { 96 << 20, -(96 << 20) }, { 15, 1 } };
			int ex = st == 5 ? i >= len - 2 : i == len / 2;
			e [2 * i + 1] = ex ? Hi [slot][i & 1] : slot == 2 ? i % 3 << 10 : i & 3;
			continue;
		}
		e [2 * i + 1] = slot == 0 ? (i * 7919 + 3) & 32767 : slot == 1 ? (i * 7919 & 65535) - 32768 : slot == 2 ? ((i * 37) % 48 - 24) << 20 : i % 16;
	}
	setup (w, 2, BK_SQUARE);
	w_set (w, 0, BK_INSTRUMENT_DIVIDER, 1);
	w_instr_init (w, 0);
	w_env (w, 0, slot, e, len, R [r][0], R [r][1]);
	if (slot) { static const int one [] = { 32000 }; w_seq (w, 0, 0, one, 1, 0, 1); }
	w_instr (w, 0, 0);
	w_set (w, 0, BK_NOTE, NOTE (70));
	w_gen (w, 0, TICK * (hold == 0 ? 3 : hold == 1 ? len / 2 : hold == 2 ? len + 1 : 9 * len)); w_get_all (w, 0);
	w_set (w, 0, BK_NOTE, BK_NOTE_RELEASE);
	w_gen (w, 0, TICK * (3 * len + 2)); w_get_all (w, 0);
	w_set (w, 0, BK_NOTE, NOTE (84)); ticks (w, 3);
	finish (w);
}
static void env_many (int p) { w_check_track (env_many_script, 0, "envelope"); }
/* envelopes between extreme values: every pair, all step counts where shifts and rounding matter */
static void env_extreme_script (World *w)
{
	static const int V [4] [12] = {
		{ 0, 1, 2, 32767, 32766, 32768, 16384, 16383, -1, 8192, 255, 40000 }, { 0, 1, -1, 32767, -32767, -32768, 16384, -16384, 32768, 255, -256, 40000 },
		{ 0, 1, -1, 1 << 24, -(1 << 24), (1 << 24) - 1, -(1 << 24) + 1, 1 << 23, 96 << 20, -(96 << 20), 1 << 26, 8 << 20 }, { 0, 1, 2, 3, 15, 16, 8, 7, 255, 256, -1, 14 } };
	static const int St [] = { 1, 2, 3, 4, 5, 8, 12, 0 };
	int slot = w_choose (w, 4), a = w_choose (w, 12), b = w_choose (w, 12), s = St [w_choose (w, N (St))], rel = w_choose (w, 3);
	int e [] = { 1, V [slot] [a], s, V [slot] [b], s > 4 ? 2 : s + 1, V [slot] [a], 1, 0 };
	setup (w, 2, BK_SQUARE);
	w_set (w, 0, BK_INSTRUMENT_DIVIDER, 1);
	w_instr_init (w, 0);
	w_env (w, 0, slot, e, rel == 2 ? 2 : 4, rel ? 2 : 0, rel == 2 ? 0 : rel ? 1 : 3);
	w_instr (w, 0, 0);
	w_set (w, 0, BK_NOTE, NOTE (rel ? 40 : 60));
	ticks (w, 2);
	for (int i = 0; i < s + 2; i ++) ticks (w, 1);
	w_set (w, 0, BK_NOTE, BK_NOTE_RELEASE);
	for (int i = 0; i < s; i ++) ticks (w, 1);
	finish (w);
}
static void env_extreme (int p) { w_check_track (env_extreme_script, 0, "envelope"); }
static void adsr_script (World *w)
{
	static const int T [] = { 0, 1, 2, 5, -1, 300 }, L [] = { 32767, 10000, 0, 40000, -5 };
	int a = T [w_choose (w, 6)], d = T [w_choose (w, 6)], s = L [w_choose (w, 5)], r = T [w_choose (w, 6)], h = w_choose (w, 5), how = w_choose (w, 2);
	setup (w, 1, BK_TRIANGLE);
	w_set (w, 0, BK_TRIANGLE_IGNORES_VOLUME, 0);
	w_instr_init (w, 0);
	if (how) { int e [] = { a, 32767, d, s, 240, s, r, 0 }; w_env (w, 0, 0, e, 4, 2, 1); }
	else w_adsr (w, 0, a, d, s, r);
	w_instr (w, 0, 0);
	w_set (w, 0, BK_NOTE, NOTE (80));
	for (int i = 0; i < 3 * h; i ++) ticks (w, 1);
	w_set (w, 0, BK_NOTE, BK_NOTE_RELEASE);
	for (int i = 0; i < 7; i ++) ticks (w, 1);
	finish (w);
}
/* points of billions of ticks */
static void env_long_steps_script (World *w)
{
	static const int T [] = { 0, 1, 3, INT32_MAX, INT32_MIN, -1, -2 }, L [] = { 0, 32767, -5, 40000, 12000 };
	int t [3], e [6], n = 1 + w_choose (w, 3), slot = w_choose (w, 4), h = w_choose (w, 4), s0 = w_choose (w, n + 1), sn = w_choose (w, n - s0 + 1);
	for (int i = 0; i < n; i ++) { t [i] = T [w_choose (w, N (T))]; e [2 * i] = t [i]; e [2 * i + 1] = slot == 2 ? i * NOTE (3) - NOTE (1) : slot == 3 ? i + 1 : L [(i + h + s0) % N (L)]; }
	setup (w, 2, BK_SQUARE);
	w_set (w, 0, BK_INSTRUMENT_DIVIDER, 1);
	w_instr_init (w, 0);
	w_env (w, 0, slot, e, n, s0, sn);
	w_instr (w, 0, 0);
	w_set (w, 0, BK_NOTE, NOTE (80));
	for (int i = 0; i < 3 * h; i ++) ticks (w, 1);
	w_set (w, 0, BK_NOTE, BK_NOTE_RELEASE);
	for (int i = 0; i < 5; i ++) ticks (w, 1);
	finish (w);
}
static void env_long_steps (int p) { w_check_track (env_long_steps_script, 0, "envelope"); }
static void adsr (int p) { w_check_track (adsr_script, 0, "adsr"); }
enum { EnvOps = 18 };
static void env_op (World *w, int op)
{
	static const int a [] = { 2, 32767, 3, 8000, 2, 16000, 4, 0 }, z [] = { 0, 20000, 0, 10000, 5, 0 }, p [] = { 3, 12 << 20, 2, -(12 << 20), 1, 0 }, bad [] = { 0, 1, 0, 2 };
	switch (op) {
		case 0: w_set (w, 0, BK_NOTE, NOTE (80)); break;
		case 1: w_set (w, 0, BK_NOTE, BK_NOTE_RELEASE); break;
		case 2: w_set (w, 0, BK_NOTE, BK_NOTE_MUTE); break;
		case 3: ticks (w, 1); break;
		case 4: ticks (w, 4); break;
		case 5: w_instr (w, 0, 0); break;
		case 6: w_instr (w, 0, -1); break;
		case 7: w_env (w, 0, 0, a, 4, 1, 2); break;
		case 8: w_env (w, 0, 0, z, 3, 2, 0); break;
		case 9: w_env (w, 0, 0, bad, 2, 0, 2); break;
		case 10: w_env (w, 0, 2, p, 3, 0, 2); break;
		case 11: w_env (w, 0, 0, NULL, 0, 0, 0); break;
		case 12: w_adsr (w, 0, 2, 2, 12000, 3); break;
		case 13: w_set (w, 1, BK_NOTE, NOTE (85)); break;
		case 14: w_seq (w, 0, 0, SeqRel, 4, 1, 1); break;
		case 15: w_set (w, 0, BK_INSTRUMENT_DIVIDER, 3); break;
		case 16: w_set (w, 0, BK_NOTE, NOTE (70)); break;
		case 17: w_instr (w, 1, 0); break;
	}
	w_get_all (w, 0);
}
static const int EnvShort [] = { 0, 1, 2, 3, 5, 6, 7 };
static void env_hist_script (World *w)
{
	int pre = w_choose (w, 3);
	setup (w, 2, BK_SQUARE);
	w_track (w, 1, BK_SAWTOOTH);
	w_attach (w, 1, 0);
	w_set (w, 1, BK_MASTER_VOLUME, 10000);
	w_instr_init (w, 0);
	if (pre) env_op (w, 7);
	if (pre == 2) { env_op (w, 5); env_op (w, 17); env_op (w, 0); ticks (w, 2); }
	for (int k = 0; k < Depth; k ++) env_op (w, Kind == 2 ? EnvShort [w_choose (w, N (EnvShort))] : w_choose (w, EnvOps));
	finish (w);
}
static void env_hist (int p) { Depth = p % 100; Kind = p / 100; w_check_track (env_hist_script, 0, "envelope"); }

/* ------------------------------------------------------------ effects */
static void fx (World *w, int e, int a, int b, int c) { int v [] = { a, b, c }; w_effect (w, 0, e, v, 3); }
enum { FxOps = 28 };
static void fx_op (World *w, int op)
{
	switch (op) {
		case 0: ticks (w, 1); break;
		case 1: ticks (w, 4); break;
		case 2: w_set (w, 0, BK_NOTE, NOTE (80)); break;
		case 3: w_set (w, 0, BK_NOTE, NOTE (68)); break;
		case 4: fx (w, BK_EFFECT_VOLUME_SLIDE, 3, 0, 0); break;
		case 5: w_set (w, 0, BK_VOLUME, 3000); break;
		case 6: w_set (w, 0, BK_VOLUME, 32767); break;
		case 7: fx (w, BK_EFFECT_PANNING_SLIDE, 3, 0, 0); break;
		case 8: w_set (w, 0, BK_PANNING, -30000); break;
		case 9: w_set (w, 0, BK_PANNING, 20000); break;
		case 10: fx (w, BK_EFFECT_PORTAMENTO, 4, 0, 0); break;
		case 11: fx (w, BK_EFFECT_TREMOLO, 2, 20000, 0); break;
		case 12: fx (w, BK_EFFECT_TREMOLO, 3, 32767, 2); break;
		case 13: fx (w, BK_EFFECT_VIBRATO, 2, 1 << 20, 0); break;
		case 14: fx (w, BK_EFFECT_VIBRATO, 3, -(3 << 20), 3); break;
		case 15: fx (w, BK_EFFECT_VOLUME_SLIDE, 0, 0, 0); break;
		case 16: fx (w, BK_EFFECT_PANNING_SLIDE, 0, 0, 0); break;
		case 26: w_set (w, 0, BK_VOLUME, 0); break;
		case 27: w_set (w, 0, BK_WAVEFORM, BK_TRIANGLE); break;
		case 17: fx (w, BK_EFFECT_PORTAMENTO, 0, 0, 0); break;
		case 18: fx (w, BK_EFFECT_TREMOLO, 0, 0, 0); break;
		case 19: fx (w, BK_EFFECT_VIBRATO, 0, 0, 0); break;
		case 20: w_effect (w, 0, BK_EFFECT_TREMOLO, NULL, 0); break;
		case 21: w_set (w, 0, BK_EFFECT_DIVIDER, 2); break;
		case 22: w_set (w, 0, BK_NOTE, BK_NOTE_RELEASE); break;
		case 23: w_set (w, 0, BK_NOTE, BK_NOTE_MUTE); break;
		case 24: fx (w, BK_EFFECT_VIBRATO, 1, 2 << 20, 0); break;
		case 25: fx (w, BK_EFFECT_TREMOLO, 1, 10000, 1); break;
	}
	w_get_all (w, 0);
}
/* short alphabets: one effect each */
static const int FxShort [] [8] = { { 0, 1, 4, 5, 6, 15, 26, 21 }, { 0, 1, 7, 8, 9, 16, 2, 21 }, { 0, 1, 10, 2, 3, 17, 22, 23 }, { 0, 1, 11, 12, 18, 25, 26, 5 }, { 0, 1, 13, 14, 19, 24, 3, 21 } };
static void fx_hist_script (World *w)
{
	int which = Kind == 2 ? w_choose (w, N (FxShort)) : 0, nch = 1 + (Kind != 2 || which == 1 ? w_choose (w, 2) : 0), tri = nch == 1 || Kind == 2 ? w_choose (w, 2) : 0;
	setup (w, nch, tri ? BK_TRIANGLE : BK_SQUARE);
	w_set (w, 0, BK_NOTE, NOTE (75));
	for (int k = 0; k < Depth; k ++) fx_op (w, Kind == 2 ? FxShort [which] [w_choose (w, 8)] : w_choose (w, FxOps));
	w_gen (w, 0, 12 * TICK);
	finish (w);
}
static void fx_hist (int p) { Depth = p % 100; Kind = p / 100; w_check_track (fx_hist_script, 0, "effect"); }
static const int FxVal [] = { 0, 1, 2, 3, 7, 16, 255, 256, 32767, 65535, 65536, 65537, -1, INT32_MIN, INT32_MAX, 1 << 20, -(1 << 20), 100 << 20 };
/* every combination of arguments of a boundary set: stored, audible */
static void fx_args_script (World *w)
{
	int e = w_choose (w, 6), a = FxVal [w_choose (w, N (FxVal))], b = FxVal [w_choose (w, N (FxVal))], c = FxVal [w_choose (w, N (FxVal))], n = w_choose (w, 4);
	int v [] = { a, b, c };
	setup (w, 2, w_choose (w, 2) ? BK_TRIANGLE : BK_SAWTOOTH);
	w_set (w, 0, BK_NOTE, NOTE (75));
	w_set (w, 0, BK_VOLUME, 20000);
	ticks (w, 1);
	w_effect (w, 0, BK_EFFECT_VOLUME_SLIDE + e, v, n);
	w_get_all (w, 0);
	w_set (w, 0, BK_NOTE, NOTE (80)); w_set (w, 0, BK_VOLUME, 10000); w_set (w, 0, BK_PANNING, -15000);
	ticks (w, 3);
	w_gen (w, 0, 5 * TICK);
	fx (w, BK_EFFECT_VOLUME_SLIDE + e, 0, 0, 0);
	finish (w);
}
static void fx_args (int p) { w_check_track (fx_args_script, 0, "effect"); }
/* length of slides: all numbers of steps up to 40 */
static void fx_length_script (World *w)
{
	int e = w_choose (w, 3), steps = w_choose (w, Depth), div = 1 + w_choose (w, 3), ins = w_choose (w, 2), mid = w_choose (w, 3), tri = e == 0 ? w_choose (w, 2) : 0;
	setup (w, 2, tri ? BK_TRIANGLE : BK_SQUARE);
	if (tri && mid) w_set (w, 0, BK_VOLUME, 0);
	w_set (w, 0, BK_NOTE, NOTE (70));
	w_set (w, 0, BK_EFFECT_DIVIDER, div);
	if (ins) { w_instr_init (w, 0); w_seq (w, 0, e, SlotVal [e], 3, 0, 3); w_instr (w, 0, 0); }
	fx (w, BK_EFFECT_VOLUME_SLIDE + e, steps, 0, 0);
	w_set (w, 0, e == 0 ? BK_VOLUME : e == 1 ? BK_PANNING : BK_NOTE, e == 2 ? NOTE (84) : 9000);
	w_gen (w, 0, TICK * div * (mid ? (steps + 1) / 2 : steps + 2));
	if (mid == 1) w_set (w, 0, e == 0 ? BK_VOLUME : e == 1 ? BK_PANNING : BK_NOTE, e == 2 ? NOTE (60) : 22000);
	if (mid == 2) fx (w, BK_EFFECT_VOLUME_SLIDE + e, steps / 2, 0, 0);
	w_get_all (w, 0);
	w_gen (w, 0, TICK * div * (steps + 2));
	finish (w);
}
static void fx_length (int p) { Depth = p; w_check_track (fx_length_script, 0, "effect"); }

/* slides and periods of thousands of steps */
static void fx_slow_script (World *w)
{
	static const int St [] = { 256, 1000, 4096, 20000, 32768, 65535, 65536, 70000 };
	int e = w_choose (w, 5), s = St [w_choose (w, N (St))], up = w_choose (w, 2), third = e > 2 ? w_choose (w, 2) * 3000 : 0, m = s < 65536 ? s : 65536;
	int at = e == 0 ? BK_VOLUME : e == 1 ? BK_PANNING : BK_NOTE;
	w_ctx (w, 0, 2, 44100);
	w_master (w, 0, 2 * RUNIT);
	w_track (w, 0, BK_SQUARE);
	w_attach (w, 0, 0);
	w_set (w, 0, BK_MASTER_VOLUME, 30000);
	w_set (w, 0, BK_EFFECT_DIVIDER, 1);
	w_set (w, 0, BK_NOTE, e == 2 && !up ? NOTE (90) : NOTE (60));
	w_set (w, 0, at, e == 2 ? NOTE (up ? 60 : 90) : up ? -20000 : 30000);
	fx (w, BK_EFFECT_VOLUME_SLIDE + e, s, e == 3 ? 20000 : up ? 5 << 20 : -(3 << 20), third);
	if (e < 3) w_set (w, 0, at, e == 2 ? NOTE (up ? 84 : 62) : up ? 31000 : 10);
	for (int i = 0; i < 5; i ++) { w_gen (w, 0, m / 2 + 1); w_get_all (w, 0); }
	finish (w);
}
static void fx_slow (int p) { w_check_track (fx_slow_script, 0, "effect"); }
/* slides between every pair of extreme values */
static void fx_extreme_script (World *w)
{
	static const int V [3] [10] = { { 0, 1, 2, 32767, 32766, 16384, 16383, 255, 256, 8192 }, { 0, 1, -1, 32767, -32767, 16384, -16384, 255, -256, 8191 }, { 0, 1, 96 << 20, (96 << 20) - 1, 48 << 20, 1 << 24, 1 << 20, 95 << 20, 16 << 20, 64 << 20 } };
	static const int St [] = { 1, 2, 3, 4, 5, 8, 16, 33 };
	int e = w_choose (w, 3), a = V [e] [w_choose (w, 10)], b = V [e] [w_choose (w, 10)], s = St [w_choose (w, N (St))], late = w_choose (w, 2), tri = e == 0 ? w_choose (w, 2) : 0;
	int at = e == 0 ? BK_VOLUME : e == 1 ? BK_PANNING : BK_NOTE;
	setup (w, 2, tri ? BK_TRIANGLE : BK_SQUARE);
	w_set (w, 0, BK_EFFECT_DIVIDER, 1);
	w_set (w, 0, BK_NOTE, NOTE (70));
	w_set (w, 0, at, a);
	if (!late) fx (w, BK_EFFECT_VOLUME_SLIDE + e, s, 0, 0);
	ticks (w, 1);
	if (late) fx (w, BK_EFFECT_VOLUME_SLIDE + e, s, 0, 0);
	w_set (w, 0, at, b);
	for (int i = 0; i < s + 2; i ++) ticks (w, 1);
	if (late) fx (w, BK_EFFECT_VOLUME_SLIDE + e, 0, 0, 0);
	w_set (w, 0, at, a);
	ticks (w, 2);
	finish (w);
}
static void fx_extreme (int p) { w_check_track (fx_extreme_script, 0, "effect"); }

/* ----------------------------------------------------------- arpeggio */
static const int Arp [] [10] = { { 0 }, { 1, 5 << 20 }, { 2, 0, 12 << 20 }, { 3, 0, 4 << 20, 7 << 20 }, { 4, -(5 << 20), 0, 1 << 19, 3 << 20 }, { 8, 0, 1 << 20, 2 << 20, 3 << 20, 4 << 20, 5 << 20, 6 << 20, 7 << 20 },
	{ 9, 0, 1 << 20, 2 << 20, 3 << 20, 4 << 20, 5 << 20, 6 << 20, 7 << 20, 8 << 20 }, { -1, 1 << 20 }, { 2, 100 << 20, -(100 << 20) }, { 3, 30 << 20, -(30 << 20), 70 << 20 } };
enum { ArpOps = 22 };
static void arp_op (World *w, int op)
{
	switch (op) {
		case 0: ticks (w, 1); break;
		case 1: ticks (w, 3); break;
		case 2: w_set (w, 0, BK_NOTE, NOTE (80)); break;
		case 3: w_set (w, 0, BK_NOTE, NOTE (68)); break;
		case 4: w_set (w, 0, BK_NOTE, BK_NOTE_RELEASE); break;
		case 5: w_arp (w, 0, Arp [2]); break;
		case 6: w_arp (w, 0, Arp [3]); break;
		case 7: w_arp (w, 0, Arp [0]); break;
		case 8: w_arp (w, 0, Arp [4]); break;
		case 9: w_set (w, 0, BK_ARPEGGIO_DIVIDER, 1); break;
		case 10: w_set (w, 0, BK_ARPEGGIO_DIVIDER, 2); break;
		case 11: w_arp (w, 0, NULL); break;
		case 12: w_arp (w, 0, Arp [1]); break;
		case 13: w_arp (w, 0, Arp [5]); break;
		case 14: w_set (w, 0, BK_PITCH, 1 << 19); break;
		case 15: w_instr (w, 0, 0); break;
		case 16: w_set (w, 0, BK_NOTE, BK_NOTE_MUTE); break;
		case 17: w_arp (w, 0, Arp [6]); break;
		case 18: w_arp (w, 0, Arp [7]); break;
		case 19: w_data (w, 0, BK_SAMPLE, 0); break;
		case 20: w_set (w, 0, BK_PITCH, NOTE (90)); break;
		case 21: w_set (w, 0, BK_PITCH, -NOTE (83) - 77); break;
	}
	w_get_all (w, 0);
}
static void arp_hist_script (World *w)
{
	int pre = w_choose (w, 2);
	setup (w, 1, BK_SQUARE);
	w_instr_init (w, 0); w_seq (w, 0, 2, SeqPitch, 3, 0, 3);
	w_data_init (w, 0);
	w_data_frames (w, 0, Smp, 32, 1, 1);
	w_set (w, 0, BK_ARPEGGIO_DIVIDER, 1);
	if (pre) { w_set (w, 0, BK_NOTE, NOTE (75)); w_arp (w, 0, Arp [3]); ticks (w, 2); }
	for (int k = 0; k < Depth; k ++) arp_op (w, w_choose (w, Kind ? 9 : ArpOps));
	w_gen (w, 0, 4 * TICK);
	finish (w);
}
static void arp_hist (int p) { Depth = p % 100; Kind = p / 100; w_check_track (arp_hist_script, 0, "arpeggio"); }
/* all lengths and dividers, change of length after every number of ticks */
static void arp_len_script (World *w)
{
	int a = w_choose (w, N (Arp) + 1), b = w_choose (w, N (Arp) + 1), div = 1 + w_choose (w, 4), t = w_choose (w, Depth), order = w_choose (w, 2), again = w_choose (w, 3);
	setup (w, 1, BK_SAWTOOTH);
	w_set (w, 0, BK_ARPEGGIO_DIVIDER, div);
	if (order) w_set (w, 0, BK_NOTE, NOTE (75));
	w_arp (w, 0, a < N (Arp) ? Arp [a] : NULL);
	w_get_all (w, 0);
	if (!order) w_set (w, 0, BK_NOTE, NOTE (75));
	w_gen (w, 0, t * TICK);
	w_arp (w, 0, b < N (Arp) ? Arp [b] : NULL);
	w_get_all (w, 0);
	w_gen (w, 0, 3 * TICK);
	if (again) { w_set (w, 0, BK_NOTE, again == 1 ? BK_NOTE_RELEASE : BK_NOTE_MUTE); w_gen (w, 0, TICK); w_set (w, 0, BK_NOTE, NOTE (79)); }
	w_gen (w, 0, 10 * TICK);
	finish (w);
}
static void arp_len (int p) { Depth = p; w_check_track (arp_len_script, 0, "arpeggio"); }

/* dividers of hundreds and thousands of ticks */
static void rare_script (World *w)
{
	static const int D [] = { 255, 256, 257, 1000, 32768, 65535, 65536, 65537, 70000 };
	int d = D [w_choose (w, N (D))], var = w_choose (w, 3), mid = w_choose (w, 2), at [] = { 1, d - 2, 1, 1, d / 2, d - d / 2 - 1, 1, 1 };
	if (d == 70000 && mid) d = 60000;
	w_ctx (w, 0, 2, 44100);
	w_master (w, 0, 2 * RUNIT);
	w_track (w, 0, BK_SQUARE);
	w_attach (w, 0, 0);
	w_set (w, 0, BK_MASTER_VOLUME, 30000);
	w_set (w, 0, Kind == 16 ? BK_ARPEGGIO_DIVIDER : Kind == 14 ? BK_EFFECT_DIVIDER : BK_INSTRUMENT_DIVIDER, mid ? 3 : d);
	if (Kind == 16) w_arp (w, 0, Arp [2 + var]);
	else if (Kind == 14) {
		if (var == 0) { w_set (w, 0, BK_VOLUME, 9000); fx (w, BK_EFFECT_VOLUME_SLIDE, 2, 0, 0); w_set (w, 0, BK_VOLUME, 20000); }
		else fx (w, var == 1 ? BK_EFFECT_TREMOLO : BK_EFFECT_VIBRATO, 2, var == 1 ? 20000 : 3 << 20, 0);
	}
	else {
		static const int V [3] = { 20000, 10000, 30000 }, Q [3] = { 0, 7 << 20, 2 << 20 }, E [6] = { 1, 20000, 1, 5000, 2, 30000 };
		w_instr_init (w, 0);
		if (var < 2) w_seq (w, 0, var ? BK_SEQUENCE_PITCH : BK_SEQUENCE_VOLUME, var ? Q : V, 3, 0, 3);
		else w_env (w, 0, BK_SEQUENCE_VOLUME, E, 3, 0, 3);
		w_instr (w, 0, 0);
	}
	w_set (w, 0, BK_NOTE, NOTE (70));
	if (mid) { w_gen (w, 0, 9); w_set (w, 0, Kind == 16 ? BK_ARPEGGIO_DIVIDER : Kind == 14 ? BK_EFFECT_DIVIDER : BK_INSTRUMENT_DIVIDER, d); }
	for (int i = 0; i < N (at); i ++) { w_gen (w, 0, 2 * at [i]); w_get_all (w, 0); }
	finish (w);
}
static void rare (int p) { Kind = p; w_check_track (rare_script, 0, p == 16 ? "arpeggio" : p == 14 ? "effect" : "sequence"); }

static const McScenario Scen [] = {
	{ "C10", "values", note_values, 0, MC_QUICK },
	{ "C10", "sources", sources, 0, MC_QUICK },
	{ "C10", "sample-release", releases, 0, MC_QUICK },
	{ "C10", "history-4", notes, 104, MC_QUICK },
	{ "C10", "short-history-6", notes, 206, MC_QUICK },
	{ "C10", "sample-history-5", notes, 305, MC_QUICK },
	{ "C10", "history-5", notes, 105, MC_THOROUGH },
	{ "C10", "short-history-8", notes, 208, MC_THOROUGH },
	{ "C10", "sample-history-7", notes, 307, MC_THOROUGH },
	{ "C11", "shapes-4", seq_shape, 4, MC_QUICK },
	{ "C11", "crowd", crowd, 2, MC_QUICK },
	{ "C11", "crowd-3", crowd, 3, MC_THOROUGH },
	{ "C11", "pairs", seq_pair, 0, MC_QUICK },
	{ "C11", "long", seq_long, 0, MC_QUICK },
	{ "C11", "rare", rare, 11, MC_QUICK },
	{ "C11", "history-3", seq_hist, 103, MC_QUICK },
	{ "C11", "short-history-6", seq_hist, 206, MC_QUICK },
	{ "C11", "shapes-5", seq_shape, 5, MC_THOROUGH },
	{ "C11", "history-5", seq_hist, 105, MC_THOROUGH },
	{ "C11", "short-history-8", seq_hist, 208, MC_THOROUGH },
	{ "C12", "shapes-2", env_shape, 402, MC_QUICK },
	{ "C12", "shapes-3", env_shape, 203, MC_QUICK },
	{ "C12", "long", env_long, 0, MC_QUICK },
	{ "C12", "many", env_many, 0, MC_QUICK },
	{ "C12", "extremes", env_extreme, 0, MC_QUICK },
	{ "C12", "adsr", adsr, 0, MC_QUICK },
	{ "C12", "long-steps", env_long_steps, 0, MC_QUICK },
	{ "C12", "history-3", env_hist, 103, MC_QUICK },
	{ "C12", "short-history-6", env_hist, 206, MC_QUICK },
	{ "C12", "shapes-3-thorough", env_shape, 503, MC_THOROUGH },
	{ "C12", "history-5", env_hist, 105, MC_THOROUGH },
	{ "C12", "short-history-8", env_hist, 208, MC_THOROUGH },
	{ "C14", "arguments", fx_args, 0, MC_QUICK },
	{ "C14", "length", fx_length, 40, MC_QUICK },
	{ "C14", "rare", rare, 14, MC_QUICK },
	{ "C14", "slow", fx_slow, 0, MC_QUICK },
	{ "C14", "extremes", fx_extreme, 0, MC_QUICK },
	{ "C14", "history-3", fx_hist, 103, MC_QUICK },
	{ "C14", "short-history-5", fx_hist, 205, MC_QUICK },
	{ "C14", "length-300", fx_length, 300, MC_THOROUGH },
	{ "C14", "history-5", fx_hist, 105, MC_THOROUGH },
	{ "C14", "short-history-7", fx_hist, 207, MC_THOROUGH },
	{ "C16", "lengths", arp_len, 16, MC_QUICK },
	{ "C16", "rare", rare, 16, MC_QUICK },
	{ "C16", "history-4", arp_hist, 4, MC_QUICK },
	{ "C16", "short-history-5", arp_hist, 105, MC_QUICK },
	{ "C16", "lengths-40", arp_len, 40, MC_THOROUGH },
	{ "C16", "history-5", arp_hist, 5, MC_THOROUGH },
	{ "C16", "short-history-7", arp_hist, 107, MC_THOROUGH },
};
#define RULE "each execution is one history of operations on tracks; every status, every readable attribute after every operation and every frame are compared; states are distinct observed behaviours (all events and PCM)"
#define ORACLE "reference model of tracks and instruments driving the library's units, clocks and buffers, and (when plain held notes are rendered correctly) the complete reference synthesizer"
static const McPropInfo Props [] = {
	{ "C10", "model_checking", RULE, "all pairs of 14 boundary note values x release/mute between x instrument; notes and pitches from every waveform and from waves and samples of 13 lengths; releases of sustained samples under all sets of sequences and envelopes; all histories of 4 (5) of 21 operations after 4 set-ups, of 6 (8) of 7 operations, of 5 (7) of 7 operations on sustained samples", ORACLE },
	{ "C11", "model_checking", RULE, "all sequences of length 0..4 (5) x all sustain offsets and lengths incl. out of range x 4 slots x hold times x release/mute x dividers; all pairs of two sequences; sequences of up to 1000 values; instruments used by up to 12 tracks under 2 (3) of 12 changes; dividers of up to 70000 ticks; all histories of 3 (5) of 24 operations over two tracks and two instruments, of 6 (8) of 8 operations", ORACLE },
	{ "C12", "model_checking", RULE, "all envelopes of 1..3 points over small step/value alphabets x sustain ranges x slots x hold times; long envelopes; all envelopes of 1..3 points over 7 step counts up to 2^32-1 x sustain ranges; envelopes of up to 100 points; all pairs of 12 extreme values x steps x slots; all ADSR over {0,1,2,5,-1,300} x 5 sustain values beyond the range too; all histories of 3 (5) of 18 operations, of 6 (8) of 7 operations", ORACLE },
	{ "C14", "model_checking", RULE, "all effects x all triples of 18 boundary arguments x argument counts; all slide lengths 0..39 (299) x dividers x retargeting; slides and periods of up to 70000 steps, dividers of up to 70000 ticks; all pairs of 10 extreme values x steps x slide; all histories of 3 (5) of 28 operations, of 5 (7) of 8 operations per effect, with waveforms that follow and ignore volume", ORACLE },
	{ "C16", "model_checking", RULE, "all pairs of 11 arpeggios x dividers 1..4 x change after 0..15 (39) ticks x restart; dividers of up to 70000 ticks; all histories of 4 (5) of 22 operations, of 5 (7) of 9 operations", ORACLE },
};
int main (int argc, char **argv) { return mc_main (argc, argv, Scen, N (Scen), Props, N (Props)); }
