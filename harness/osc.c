/* Waveforms, pitch and level (C05); attributes (C15). */
#include "world.h"

#define TICK 20
#define NOTE(n) ((n) << 20)
static const int16_t Wave [8] = { 0, 20000, 32767, 12000, -32768, -9000, 5000, -20000 }, Wave2 [5] = { -30000, 10000, -5, 32767, 700 };
static int16_t Long [70];
static int Depth, Kind;

/* ------------------------------------------------------ held notes (C05) */
static void note_script (World *w)
{
	static const int Rates [] = { 16000, 22050, 44100, 96000, 8000, 200000, 32000, 48000 }, Frac [] = { 0, 1 << 19, (1 << 20) - 1, 77777 };
	int wave = BK_SQUARE + w_choose (w, 6), n = w_choose (w, 25) * 4, rate = Rates [w_choose (w, Kind ? 8 : 4)], f = Frac [w_choose (w, Kind ? 4 : 2)];
	int nch = Kind ? 1 + w_choose (w, 3) : 1;
	if (Kind) n = n / 4 * 4 + w_choose (w, 4);
	if (n > 96) mc_discard ();
	w_ctx (w, 0, nch, rate);
	w_data_init (w, 0);
	w_data_frames (w, 0, Wave, 8, 1, 1);
	w_track (w, 0, wave <= BK_SINE ? wave : 0);
	w_attach (w, 0, 0);
	if (wave == BK_CUSTOM) w_data (w, 0, BK_WAVEFORM, 0);
	w_set (w, 0, BK_MASTER_VOLUME, 23456);
	w_set (w, 0, BK_NOTE, NOTE (n) + f);
	w_gen (w, 0, 700);
	w_get_all (w, 0);
}
static void held (int k) { Kind = k; w_check (note_script, 0, REF, E_ALL, "waveform"); }
/* a track moves between contexts of different rates and channels while it sounds, is set while it belongs to none */
static void moved_script (World *w)
{
	static const int Rates [][4] = { { 44100, 16000, 1, 2 }, { 22050, 96000, 2, 1 }, { 48000, 44100, 2, 3 } };
	int wave = BK_SQUARE + w_choose (w, 7), p = w_choose (w, N (Rates)), early = w_choose (w, 2), c = 0;
	w_ctx (w, 0, Rates [p][2], Rates [p][0]); w_ctx (w, 1, Rates [p][3], Rates [p][1]);
	w_data_init (w, 0); w_data_frames (w, 0, Wave, 8, 1, 1);
	w_track (w, 0, wave <= BK_SINE ? wave : 0);
	if (early) { w_set (w, 0, BK_NOTE, NOTE (81) + 1234); w_set (w, 0, BK_MASTER_VOLUME, 23456); w_set (w, 0, BK_PANNING, 9000); }
	w_attach (w, 0, 0);
	if (wave > BK_SINE) { w_data (w, 0, wave == BK_CUSTOM ? BK_WAVEFORM : BK_SAMPLE, 0); w_set (w, 0, BK_SAMPLE_REPEAT, BK_PALINDROME); }
	if (!early) { w_set (w, 0, BK_MASTER_VOLUME, 23456); w_set (w, 0, BK_NOTE, NOTE (81) + 1234); }
	w_gen (w, 0, 40);
	for (int k = 0; k < Depth; k ++) {
		switch (w_choose (w, 11)) {
			case 0: w_detach (w, 0); w_attach (w, 0, c); break;
			case 1: w_detach (w, 0); c = !c; w_attach (w, 0, c); break;
			case 2: w_detach (w, 0); break;
			case 3: w_attach (w, 0, c); break;
			case 4: w_set (w, 0, BK_NOTE, NOTE (64)); break;
			case 5: w_set (w, 0, BK_NOTE, BK_NOTE_RELEASE); break;
			case 6: w_set (w, 0, BK_VOLUME, 12345); break;
			case 7: w_set (w, 0, BK_PANNING, -20000); break;
			case 8: w_set (w, 0, BK_DUTY_CYCLE, 3); break;
			case 9: w_set (w, 0, BK_PITCH, NOTE (2) - 99); break;
			case 10: w_set (w, 0, BK_WAVEFORM, BK_TRIANGLE); break;
		}
		w_gen (w, 0, 50); w_gen (w, 1, 50);
		w_get_all (w, 0);
	}
	w_gen (w, 0, 60); w_gen (w, 1, 60);
	w_get_all (w, 0);
}
static void moved (int p) { Depth = p; w_check (moved_script, 0, REF, E_ALL, "waveform"); }
static void duty_script (World *w)
{
	static const int D [] = { 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16 };
	static const int V [] = { 32767, 1, 12345, 0, 2 };
	int d = D [w_choose (w, N (D))], d2 = D [w_choose (w, N (D))], v = V [w_choose (w, 5)], k = w_choose (w, 2), at = w_choose (w, 3);
	w_ctx (w, 0, 1, 44100);
	w_kernel (w, 0, k);
	w_track (w, 0, BK_SQUARE);
	w_attach (w, 0, 0);
	w_set (w, 0, BK_MASTER_VOLUME, 32767);
	w_set (w, 0, BK_VOLUME, v);
	w_set (w, 0, BK_DUTY_CYCLE, d);
	w_set (w, 0, BK_NOTE, NOTE (76));
	w_gen (w, 0, 150 + 3 * at);
	w_set (w, 0, BK_DUTY_CYCLE, d2);
	w_gen (w, 0, 160);
	w_get_all (w, 0);
}
static void duty (int p) { w_check (duty_script, 0, REF, E_ALL, "waveform"); }
/* every volume; panning; several channels */
static void level_script (World *w)
{
	static const int V [] = { 0, 1, 2, 100, 16383, 16384, 20000, 32766, 32767, 32768, -1 }, P [] = { 0, 1, -1, 16384, -16384, 32767, -32767, 32768, -40000 };
	int wave = BK_SQUARE + w_choose (w, 6), v = V [w_choose (w, N (V))], m = V [w_choose (w, N (V))], nch = w_choose (w, 5), p = w_choose (w, N (P)), tri = w_choose (w, 2);
	nch = nch < 3 ? nch + 1 : nch == 3 ? 5 : 8;
	if (nch != 2 && p > 3) mc_discard ();
	if (tri && wave != BK_TRIANGLE) mc_discard ();
	w_ctx (w, 0, nch, 44100);
	if ((v ^ m) & 1) w_kernel (w, 0, p & 1);
	w_data_init (w, 0);
	w_data_frames (w, 0, Wave, 8, 1, 1);
	w_track (w, 0, wave <= BK_SINE ? wave : 0);
	w_attach (w, 0, 0);
	if (wave == BK_CUSTOM) w_data (w, 0, BK_WAVEFORM, 0);
	if (tri) w_set (w, 0, BK_TRIANGLE_IGNORES_VOLUME, 0);
	w_set (w, 0, BK_NOTE, NOTE (80));
	w_set (w, 0, BK_MASTER_VOLUME, m);
	w_set (w, 0, BK_VOLUME, v);
	w_set (w, 0, BK_PANNING, P [p]);
	w_gen (w, 0, 60);
	w_set (w, 0, BK_PANNING, 0);
	w_gen (w, 0, 40);
	if (m & 2) w_kernel (w, 0, v >> 1 & 1);
	w_set (w, 0, BK_VOLUME, 32767);
	w_gen (w, 0, 60);
	w_get_all (w, 0);
}
static void level (int p) { w_check (level_script, 0, REF, E_ALL, "level"); }

/* ------------------------------------------ changes while sounding (C05) */
enum { Ops = 34 };
static void op (World *w, int o)
{
	switch (o) {
		case 0: w_gen (w, 0, 1); break;
		case 1: w_gen (w, 0, 13); break;
		case 2: w_gen (w, 0, 90); break;
		case 3: case 4: case 5: case 6: case 7: w_set (w, 0, BK_WAVEFORM, BK_SQUARE + o - 3); break;
		case 8: w_set (w, 0, BK_DUTY_CYCLE, 4); break;
		case 9: w_set (w, 0, BK_DUTY_CYCLE, 13); break;
		case 10: w_set (w, 0, BK_NOTE, NOTE (82)); break;
		case 11: w_set (w, 0, BK_NOTE, NOTE (57) + 333333); break;
		case 12: w_set (w, 0, BK_NOTE, NOTE (96)); break;
		case 13: w_set (w, 0, BK_PITCH, -(12 << 20)); break;
		case 14: w_set (w, 0, BK_PITCH, 1 << 18); break;
		case 15: w_set (w, 0, BK_VOLUME, 8000); break;
		case 16: w_set (w, 0, BK_VOLUME, 0); break;
		case 17: w_set (w, 0, BK_VOLUME, 32767); break;
		case 18: w_set (w, 0, BK_PHASE, 5); break;
		case 19: w_set (w, 0, BK_PHASE, 100); break;
		case 20: w_set (w, 0, BK_PHASE_WRAP, 3); break;
		case 21: w_set (w, 0, BK_PHASE_WRAP, 11); break;
		case 22: w_set (w, 0, BK_PHASE_WRAP, 0); break;
		case 23: w_set (w, 0, BK_PANNING, 20000); break;
		case 24: w_set (w, 0, BK_MUTE, 1); break;
		case 25: w_set (w, 0, BK_MUTE, 0); break;
		case 26: w_data (w, 0, BK_WAVEFORM, 0); break;
		case 27: w_data (w, 0, BK_WAVEFORM, 1); break;
		case 28: w_data (w, 0, BK_WAVEFORM, 2); break;
		case 29: w_set (w, 0, BK_TRIANGLE_IGNORES_VOLUME, 0); break;
		case 30: w_set (w, 0, BK_WAVEFORM, 0); break;
		case 31: w_set (w, 0, BK_NOTE, BK_NOTE_RELEASE); break;
		case 32: w_set (w, 0, BK_PHASE, -4); break;
		case 33: w_set (w, 0, BK_VOLUME_0, 15000); break;
	}
	w_get_all (w, 0);
}
static const int Noise [] = { 1, 0, 20, 21, 22, 10, 18, 26, 28, 5, 2 }, Sq [] = { 1, 0, 8, 9, 3, 15, 10, 24, 25, 4, 2 };
static void change_script (World *w)
{
	int nch = 1 + w_choose (w, Kind ? 1 : 2), wave = Kind == 1 ? BK_NOISE : BK_SQUARE, fast = w_choose (w, 2);
	w_ctx (w, 0, nch, 44100);
	if (fast) w_master (w, 0, 5 * RUNIT + 77777);      /* changes sound from the next clock tick on */
	w_data_init (w, 0); w_data_frames (w, 0, Wave, 8, 1, 1);
	w_data_init (w, 1); w_data_frames (w, 1, Wave2, 5, 1, 1);
	w_data_init (w, 2); w_data_frames (w, 2, Long, 70, 1, 1);
	w_track (w, 0, wave);
	w_attach (w, 0, 0);
	w_set (w, 0, BK_MASTER_VOLUME, 32767);
	w_set (w, 0, BK_NOTE, NOTE (79));
	w_gen (w, 0, 7);
	for (int k = 0; k < Depth; k ++) op (w, Kind == 0 ? w_choose (w, Ops) : Kind == 1 ? Noise [w_choose (w, N (Noise))] : Sq [w_choose (w, N (Sq))]);
	w_gen (w, 0, 150);
	w_get_all (w, 0);
}
static void change (int p) { Depth = p % 100; Kind = p / 100; w_check (change_script, 0, REF, E_ALL, "change"); }

/* every phase wrap */
static void wrap_script (World *w)
{
	int wave = w_choose (w, 6), wrap = w_choose (w, 70), at = w_choose (w, 3);
	w_ctx (w, 0, 2, 44100);
	w_data_init (w, 0); w_data_frames (w, 0, Wave, 8, 1, 1);
	w_track (w, 0, BK_SQUARE + wave % 5);
	w_attach (w, 0, 0);
	w_master (w, 0, 5 * RUNIT + 77777);
	if (wave == 5) w_data (w, 0, BK_WAVEFORM, 0);
	w_set (w, 0, BK_MASTER_VOLUME, 32767);
	w_set (w, 0, BK_VOLUME, 20000);
	w_set (w, 0, BK_NOTE, NOTE (96));
	w_gen (w, 0, at * 17);
	w_set (w, 0, BK_PHASE_WRAP, wrap < 67 ? wrap - 1 : wrap == 67 ? 127 : wrap == 68 ? 32767 : 65536);
	w_get_all (w, 0);
	w_gen (w, 0, 400);
}
static void wraps (int p) { w_check (wrap_script, 0, REF, E_ALL, "wrap"); }

/* custom waveforms of every length, other frames than the first ones used */
static void length_script (World *w)
{
	static int16_t Any [80];
	static const int Nn [] = { 24, 57, 69, 90 };
	int len = 2 + w_choose (w, 68), n = Nn [w_choose (w, 4)], unit = w_choose (w, 2), ch = w_choose (w, 2), other = w_choose (w, 3);
	for (int i = 0; i < 80; i ++) Any [i] = (int16_t) (i * 25717 + 991);
	w_ctx (w, 0, ch ? 3 : 1, 44100);
	w_data_init (w, 0); w_data_frames (w, 0, Any, len, 1, 1);
	if (unit) w_unit (w, 0, 0); else w_track (w, 0, 0);
	w_attach (w, 0, 0);
	w_data (w, 0, BK_WAVEFORM, 0);
	w_set (w, 0, unit ? BK_VOLUME : BK_MASTER_VOLUME, 30000);
	if (unit) { w_set (w, 0, BK_PERIOD, (2 + n / 8) * RUNIT + 4321); w_set (w, 0, BK_MUTE, 0); }
	else w_set (w, 0, BK_NOTE, NOTE (n));
	w_gen (w, 0, 500);
	if (other) { w_data_frames (w, 0, Any + 7, other == 1 ? len / 2 + 2 : 80 - len, 1, 1); w_gen (w, 0, 500); }
	w_get_all (w, 0);
}
static void lengths (int p) { w_check (length_script, 0, REF, E_ALL, "custom"); }
/* plain units with any period */
static void unit_script (World *w)
{
	static const int64_t P [] = { 1 << 12, 100000, (1 << 20) - 1, 1 << 20, (1 << 20) + 1, 3 << 20, (17 << 20) + 12345, 100 << 20, 1500ll << 20, 2047 << 20, -(1 << 20), 0 };
	int wave = w_choose (w, 7), a = w_choose (w, N (P)), b = w_choose (w, N (P)), g = w_choose (w, 3);
	w_ctx (w, 0, 1, 44100);
	w_data_init (w, 0); w_data_frames (w, 0, Wave, 8, 1, 1);
	w_unit (w, 0, wave < 6 && wave ? BK_SQUARE + wave - 1 : 0);
	w_attach (w, 0, 0);
	if (wave == 6) w_data (w, 0, BK_WAVEFORM, 0);
	w_set (w, 0, BK_VOLUME, 20000);
	w_set (w, 0, BK_PERIOD, (int) P [a]);
	w_gen (w, 0, g == 0 ? 100 : g == 1 ? 1 : 1500);
	w_set (w, 0, BK_PERIOD, (int) P [b]);
	w_get_all (w, 0);
	w_gen (w, 0, g == 2 ? 3000 : 300);
	w_set (w, 0, BK_PERIOD, 5 << 20);
	w_gen (w, 0, 200);
}
static void units (int p) { w_check (unit_script, 0, REF, E_ALL, "unit"); }
/* long notes: no drift, whole cycles of noise */
static void long_script (World *w)
{
	int wave = BK_SQUARE + w_choose (w, 6), n = 12 * w_choose (w, 9), rate = w_choose (w, 2) ? 44100 : 96000;
	w_ctx (w, 0, 1, rate);
	w_data_init (w, 0); w_data_frames (w, 0, Long, 70, 1, 1);
	w_track (w, 0, wave <= BK_SINE ? wave : 0);
	w_attach (w, 0, 0);
	if (wave == BK_CUSTOM) w_data (w, 0, BK_WAVEFORM, 0);
	w_set (w, 0, BK_MASTER_VOLUME, 32767);
	w_set (w, 0, BK_NOTE, NOTE (n) + n * 1111);
	w_gen (w, 0, 100000);
}
static void longn (int p) { w_check (long_script, 0, REF, E_ALL, "long"); }

/* ----------------------------------------------------------- attributes */
static const int Val [] = { 0, 1, -1, 2, 3, -2, INT32_MIN, INT32_MIN + 1, INT32_MAX, INT32_MAX - 1, 7, 8, 15, 16, 17, 63, 64, 255, 4095, 4096, 32766, 32767, 32768, 32769, -32766, -32767, -32768, -32769, 65535, 65536, 65537,
	1 << 20, (96 << 20) - 1, 96 << 20, (96 << 20) + 1, (48 << 20) - 1, 48 << 20, (48 << 20) + 1, -(48 << 20), -(48 << 20) - 1, (1 << 28) - 1, 1 << 28, (1 << 28) + 1, -(1 << 28) - 1,
	BK_SQUARE, BK_TRIANGLE, BK_NOISE, BK_SAWTOOTH, BK_SINE, BK_CUSTOM, BK_SAMPLE, BK_SAMPLE + 1, BK_NO_REPEAT, BK_REPEAT, BK_PALINDROME, BK_PALINDROME + 1, BK_REPEAT - 2 };
static const int Short [] = { 0, 1, -1, INT32_MIN, INT32_MAX, 8, 20000, -20000, 40000, 50 << 20, BK_NOISE, BK_PALINDROME };
static const int Attr [] = { BK_WAVEFORM, BK_DUTY_CYCLE, BK_PERIOD, BK_PHASE, BK_PHASE_WRAP, BK_NUM_PHASES, BK_MASTER_VOLUME, BK_VOLUME, BK_VOLUME_0, BK_VOLUME_1, BK_VOLUME_2, BK_VOLUME_3, BK_VOLUME_4, BK_VOLUME_5, BK_VOLUME_6, BK_VOLUME_7,
	BK_MUTE, BK_PITCH, BK_SAMPLE_RANGE, BK_SAMPLE_REPEAT, BK_SAMPLE_SUSTAIN_RANGE, BK_SAMPLE_IMMED_RELEASE, BK_SAMPLE_PERIOD, BK_SAMPLE_PITCH, BK_SAMPLE_CALLBACK, BK_FLAG_RELEASE, BK_NOTE, BK_ARPEGGIO, BK_PANNING, BK_INSTRUMENT, BK_CLOCK_PERIOD,
	BK_ARPEGGIO_DIVIDER, BK_EFFECT_DIVIDER, BK_INSTRUMENT_DIVIDER, BK_TRIANGLE_IGNORES_VOLUME, BK_NUM_FRAMES, BK_SAMPLE_RATE, BK_NUM_CHANNELS, BK_TIME, BK_EFFECT_VOLUME_SLIDE, BK_EFFECT_TREMOLO, 0, -1, INT32_MAX, BK_TRACK_ATTR_TYPE, BK_TRIANGLE_IGNORES_VOLUME + 1, BK_SQUARE };
/* state of the object before */
enum { States = 12 };
static void attr_setup (World *w, int unit, int st)
{
	w_ctx (w, 0, 2, 44100);
	w_master (w, 0, TICK * RUNIT);
	w_data_init (w, 0); w_data_frames (w, 0, Long, 70, 1, 1);
	w_instr_init (w, 0); { static const int v [] = { 30000, 10000 }; w_seq (w, 0, 0, v, 2, 1, 1); w_seq (w, 0, 3, v, 1, 0, 1); }
	int wave = st == 0 ? 0 : st < 6 ? BK_SQUARE + st - 1 : BK_SQUARE;
	if (unit) w_unit (w, 0, wave); else w_track (w, 0, wave);
	if (st != 9) w_attach (w, 0, 0);
	if (st == 6) w_data (w, 0, BK_WAVEFORM, 0);
	if (st == 7) { w_data (w, 0, BK_SAMPLE, 0); w_range (w, 0, 1, 10, 20); if (!unit) w_set (w, 0, BK_NOTE, NOTE (60)); w_set (w, 0, BK_SAMPLE_REPEAT, BK_REPEAT); w_gen (w, 0, 12); }
	if (st >= 10 && !unit) { w_set (w, 0, BK_VOLUME, 20000); w_set (w, 0, BK_PANNING, 9000); w_gen (w, 0, 12); if (st == 10) w_clear (w, 0); else w_reset (w, 0); }
	if (st >= 10 && unit) mc_discard ();
	if (st == 8 && !unit) { w_instr (w, 0, 0); w_set (w, 0, BK_NOTE, NOTE (60)); w_gen (w, 0, 30); }
}
static void attr_script (World *w)
{
	int unit = w_choose (w, 2), st = w_choose (w, Kind == 2 ? 4 : States);
	if (Kind == 2) st = st == 0 ? 1 : st == 1 ? 7 : st == 2 ? 9 : 10;
	w->typed = Kind == 2 ? 0 : w_choose (w, 2);
	attr_setup (w, unit, st);
	for (int k = 0; k < Depth; k ++) {
		int a = Attr [w_choose (w, N (Attr))], v = Kind == 1 ? Val [w_choose (w, N (Val))] : Short [w_choose (w, N (Short))];
		if (v == INT32_MIN && (a == BK_PERIOD || a == BK_SAMPLE_PERIOD)) v ++;      /* has no magnitude */
		if (Depth > 1 && a == BK_PERIOD && v && abs (v) < 1 << 15) v = v < 0 ? -(1 << 15) : 1 << 15;                   /* a million steps per frame: "single" has it */
		w_set (w, 0, a, v);
		w_get_all (w, 0);
	}
	for (int k = 0; k < N (Attr); k ++) {          /* unknown attributes read nothing */
		int a = Attr [k];
		if (a >= BK_EFFECT_TYPE && !unit) continue;
		w_get (w, 0, a);
	}
	/* what is stored is what is used */
	w_gen (w, 0, 25);
	w_get_all (w, 0);
	w->n [0] = 0;
}
/* what is read while it is on its way to the new value is what has been set: slides, instruments, arpeggio, ticks */
static void moving_script (World *w)
{
	static const int Sl [] = { 0, 1, 3, 50, 65535 }, Va [3] [5] = { { 0, 32767, 20000, -5, 40000 }, { 0, -32767, 32767, 12345, -40000 }, { 0, 96 << 20, (60 << 20) + 777, BK_NOTE_RELEASE, BK_NOTE_MUTE } };
	int e = w_choose (w, 3), s1 = Sl [w_choose (w, 5)], a = Va [e] [w_choose (w, 5)], b = Va [e] [w_choose (w, 5)], s2 = Sl [w_choose (w, 5)], ins = w_choose (w, 2), t = w_choose (w, 3), nch = 1 + w_choose (w, 2);
	int at = e == 0 ? BK_VOLUME : e == 1 ? BK_PANNING : BK_NOTE, v [] = { s1, 0, 0 };
	w->typed = w_choose (w, 2);
	w_ctx (w, 0, nch, 44100);
	w_master (w, 0, TICK * RUNIT);
	w_track (w, 0, BK_SQUARE);
	w_attach (w, 0, 0);
	w_set (w, 0, BK_EFFECT_DIVIDER, 1);
	if (ins) { static const int q [] = { 20000, 9000 }, p [] = { 1 << 20, -(5 << 20) }, ar [] = { 2, 0, 3 << 20 }; w_instr_init (w, 0); w_seq (w, 0, 0, q, 2, 0, 2); w_seq (w, 0, 1, q, 2, 0, 2); w_seq (w, 0, 2, p, 2, 0, 2); w_instr (w, 0, 0); w_arp (w, 0, ar); }
	w_set (w, 0, BK_NOTE, NOTE (50));
	w_effect (w, 0, BK_EFFECT_VOLUME_SLIDE + e, v, 3);
	w_gen (w, 0, t * TICK + 3);
	w_set (w, 0, at, a); w_get_all (w, 0);
	w_gen (w, 0, t * TICK); w_get_all (w, 0);
	w_set (w, 0, at, b); w_get_all (w, 0);
	w_gen (w, 0, t * TICK); w_get_all (w, 0);
	v [0] = s2;
	w_effect (w, 0, BK_EFFECT_VOLUME_SLIDE + e, v, 1); w_get_all (w, 0);
	w_gen (w, 0, t * TICK); w_get_all (w, 0);
	w->n [0] = 0;
}
static void moving (int p) { w_check (moving_script, 0, REF, E_RET | E_GET, "attribute"); }
static void attrs (int p) { Depth = p % 100; Kind = p / 100; w_check (attr_script, 0, REF, E_RET | E_GET, "attribute"); }
/* what a cleared or reset track keeps and what it forgets */
static void forget_op (World *w, int op)
{
	static const int e3 [] = { 3, 15000, 2 }, e1 [] = { 4 }, ar [] = { 3, 0, NOTE (4), NOTE (7) }, q [] = { 20000, 9000, 15000 };
	switch (op) {
		case 0: w_set (w, 0, BK_DUTY_CYCLE, 3); break;
		case 1: w_set (w, 0, BK_DUTY_CYCLE, 13); break;
		case 2: w_set (w, 0, BK_MASTER_VOLUME, 9000); break;
		case 3: w_set (w, 0, BK_VOLUME, 9001); break;
		case 4: w_set (w, 0, BK_PANNING, -14000); break;
		case 5: w_set (w, 0, BK_NOTE, NOTE (70)); break;
		case 6: w_set (w, 0, BK_PITCH, NOTE (3)); break;
		case 7: w_set (w, 0, BK_PHASE_WRAP, 5); break;
		case 8: w_set (w, 0, BK_PHASE, 3); break;
		case 9: w_set (w, 0, BK_SAMPLE_REPEAT, BK_REPEAT); break;
		case 10: w_range (w, 0, 0, 60, 5); break;
		case 11: w_range (w, 0, 1, 3, 9); break;
		case 12: w_set (w, 0, BK_SAMPLE_IMMED_RELEASE, 1); break;
		case 13: w_arp (w, 0, ar); break;
		case 14: w_effect (w, 0, BK_EFFECT_TREMOLO, e3, 3); break;
		case 15: w_effect (w, 0, BK_EFFECT_VIBRATO, e3, 3); break;
		case 16: w_effect (w, 0, BK_EFFECT_PORTAMENTO, e1, 1); break;
		case 17: w_effect (w, 0, BK_EFFECT_VOLUME_SLIDE, e1, 1); break;
		case 18: w_effect (w, 0, BK_EFFECT_PANNING_SLIDE, e1, 1); break;
		case 19: w_set (w, 0, BK_ARPEGGIO_DIVIDER, 2); break;
		case 20: w_set (w, 0, BK_EFFECT_DIVIDER, 3); break;
		case 21: w_set (w, 0, BK_INSTRUMENT_DIVIDER, 2); break;
		case 22: w_seq (w, 0, 0, q, 3, 1, 1); w_seq (w, 0, 3, (int []) { 9, 2 }, 2, 0, 1); w_instr (w, 0, 0); break;
		case 23: w_set (w, 0, BK_TRIANGLE_IGNORES_VOLUME, 0); break;
		case 24: w_set (w, 0, BK_SAMPLE_PITCH, NOTE (2)); break;
		case 25: w_set (w, 0, BK_MUTE, 0); break;
		case 26: w_set (w, 0, BK_VOLUME_1, 5000); break;
		case 27: w_set (w, 0, BK_NOTE, BK_NOTE_RELEASE); break;
	}
}
static void forget_script (World *w)
{
	enum { Ops = 28 };
	int src = w_choose (w, 8), how = w_choose (w, 4), t = w_choose (w, 2), op [3];
	for (int k = 0; k < Depth; k ++) op [k] = w_choose (w, Ops);
	for (int k = 1; k < Depth; k ++) if (op [k] == op [k - 1]) mc_discard ();
	w_ctx (w, 0, 2, 44100);
	w_master (w, 0, TICK * RUNIT);
	w_data_init (w, 0); w_data_frames (w, 0, Long, 70, 1, 1);
	w_track (w, 0, src < 6 ? src ? BK_SQUARE + src - 1 : 0 : BK_SQUARE);
	w_attach (w, 0, 0);
	w_instr_init (w, 0);
	if (src == 6) w_data (w, 0, BK_WAVEFORM, 0);
	if (src == 7) w_data (w, 0, BK_SAMPLE, 0);
	w_set (w, 0, BK_MASTER_VOLUME, 20000);
	for (int k = 0; k < Depth; k ++) { forget_op (w, op [k]); if (k == 0 && t) w_gen (w, 0, 2 * TICK + 3); }
	w_gen (w, 0, TICK);
	if (how == 3) w_detach (w, 0);
	if (how == 0) w_reset (w, 0); else w_clear (w, 0);
	if (how == 3) w_attach (w, 0, 0);
	if (how == 2) { if (src == 7) w_data (w, 0, BK_SAMPLE, 0); else if (src != 6) w_set (w, 0, BK_WAVEFORM, BK_SQUARE + 1 + (src + 1) % 3); }
	w_get_all (w, 0);
	w_gen (w, 0, TICK);
	w_set (w, 0, BK_NOTE, NOTE (75));
	w_gen (w, 0, 3 * TICK); w_get_all (w, 0);
	w_set (w, 0, BK_VOLUME, 11111);
	if (how == 1) forget_op (w, op [0]);
	w_gen (w, 0, 3 * TICK); w_get_all (w, 0);
	w_set (w, 0, BK_NOTE, BK_NOTE_RELEASE);
	w_gen (w, 0, 4 * TICK); w_get_all (w, 0);
}
static void forgets (int p) { Depth = p; w_check (forget_script, 0, REF, E_ALL, "cleared"); }
/* pointer attributes: refused ones change nothing */
static void ptr_script (World *w)
{
	static const int R [] = { 0, 1, -1, 5, 70, 71, -70, -71, -72, INT32_MIN, INT32_MAX, 69 };
	int unit = w_choose (w, 2), st = w_choose (w, States), o = w_choose (w, 9), a = R [w_choose (w, N (R))], b = R [w_choose (w, N (R))], c = R [w_choose (w, 3)], len = o >= 2 && o <= 7 && st % 5 == 0 && !unit ? w_choose (w, 5) : 3;
	w->typed = w_choose (w, 2);
	attr_setup (w, unit, st);
	if (st == 3 || st == 7) w_sample_cb (w, 0, 1);
	int v [10] = { a, b, c, a, b, c, a, b, c, a };
	if (unit && o > 1) mc_discard ();
	if (o < 2) w_range (w, 0, o, a, b);
	else if (o <= 7) w_effect (w, 0, BK_EFFECT_VOLUME_SLIDE + o - 2, len < 4 ? v : NULL, len < 4 ? len : 3);   /* 5: an unknown effect */
	else w_arp (w, 0, v);
	w_get_all (w, 0);
	w_gen (w, 0, 60);
	w_get_all (w, 0);
	if (st == 3) { w_sample_cb (w, 0, 0); w_get_all (w, 0); }
	w->n [0] = 0;
}
static void ptrs (int p) { w_check (ptr_script, 0, REF, E_RET | E_GET, "pointer-attribute"); }

/* contexts, data, dividers: the model is written out here */
static void ctx_attrs (int p)
{
	static const unsigned CH [] = { 0, 1, 2, 3, 7, 8, 9, 255, 0x7fffffff, 0x80000000, 0xffffffff }, RT_ [] = { 0, 1, 15999, 16000, 16001, 44100, 95999, 96000, 96001, 0x7fffffff, 0x80000000, 0xffffffff };
	static const int A [] = { BK_NUM_CHANNELS, BK_SAMPLE_RATE, BK_TIME, BK_PULSE_KERNEL, BK_CLOCK_PERIOD, BK_WAVEFORM, 0, -1, BK_ARPEGGIO_DIVIDER, BK_EFFECT_DIVIDER, BK_INSTRUMENT_DIVIDER, BK_NUM_FRAMES };
	unsigned ch = CH [mc_choose (N (CH))], rate = RT_ [mc_choose (N (RT_))];
	int a = A [mc_choose (N (A))], v = Val [mc_choose (N (Val))], typed = mc_choose (2);
	static const int64_t PP [] = { 0, 1, -1, INT64_MIN, INT64_MAX, 1 << 20, 100ll << 20, -(1 << 20) };
	int64_t per = PP [mc_choose (N (PP))];
	BKContext *c = NULL;
	int ech = ch > 0x7fffffff ? 8 : rclamp (ch, 1, 8), er = rate > 0x7fffffff ? 96000 : rclamp (rate, 16000, 96000);
	mc_log ("context with %u channels, %u Hz; set attribute %s to %d through %s function; clock period %lld", ch, rate, attr_name (a), v, typed ? "typed" : "generic", (long long) per);
	if (BKContextAlloc (&c, ch, rate)) mc_fail ("context", "context could not be created");
	for (int k = 0; k < 2; k ++) {
		BKInt x = 99, r;
		const void *kern = NULL;
		BKTime t = per, q = -5;
		MC_CHECK ((typed ? BKContextGetAttr (c, BK_NUM_CHANNELS, &x) : BKGetAttr (c, BK_NUM_CHANNELS, &x)) == 0 && x == ech, "context", "%d channels instead of %d", x, ech);
		MC_CHECK ((typed ? BKContextGetAttr (c, BK_SAMPLE_RATE, &x) : BKGetAttr (c, BK_SAMPLE_RATE, &x)) == 0 && x == er, "context", "sample rate %d instead of %d", x, er);
		MC_CHECK ((typed ? BKContextGetPtr (c, BK_TIME, &q) : BKGetPtr (c, BK_TIME, &q, sizeof q)) == 0 && q == 0, "context", "time is %lld", (long long) q);
		MC_CHECK ((typed ? BKContextGetPtr (c, BK_PULSE_KERNEL, &kern) : BKGetPtr (c, BK_PULSE_KERNEL, &kern, sizeof kern)) == 0, "context", "kernel can not be read");
		MC_CHECK (kern == BKBufferPulseKernels [k ? BK_PULSE_KERNEL_SINC : BK_PULSE_KERNEL_HARM], "context", "wrong pulse kernel");
		if (k) {
			MC_CHECK ((typed ? BKContextGetPtr (c, BK_CLOCK_PERIOD, &q) : BKGetPtr (c, BK_CLOCK_PERIOD, &q, sizeof q)) == 0 && (per <= 0 || q == per), "context", "clock period %lld instead of %lld", (long long) q, (long long) per);
			if (per <= 0) MC_CHECK (q == (int64_t) ((double) er * RUNIT * (1.0 / 240)), "context", "refused clock period changed it to %lld", (long long) q);
			break;
		}
		x = 99;
		if (a != BK_NUM_CHANNELS && a != BK_SAMPLE_RATE) MC_CHECK ((typed ? BKContextGetAttr (c, a, &x) : BKGetAttr (c, a, &x)) == BK_INVALID_ATTRIBUTE && x == 99, "context", "unknown attribute could be read");
		r = typed ? BKContextSetAttr (c, a, v) : BKSetAttr (c, a, v);
		MC_CHECK (r == BK_INVALID_ATTRIBUTE, "context", "attribute %d could be set (%d)", a, r);
		if (a != BK_CLOCK_PERIOD && a != BK_PULSE_KERNEL) MC_CHECK ((typed ? BKContextSetPtr (c, a, &t) : BKSetPtr (c, a, &t, sizeof t)) == BK_INVALID_ATTRIBUTE, "context", "pointer attribute %d could be set", a);
		if (a != BK_CLOCK_PERIOD && a != BK_PULSE_KERNEL && a != BK_TIME) MC_CHECK ((typed ? BKContextGetPtr (c, a, &q) : BKGetPtr (c, a, &q, sizeof q)) == BK_INVALID_ATTRIBUTE && q == 0, "context", "unknown pointer attribute could be read");
		r = typed ? BKContextSetPtr (c, BK_CLOCK_PERIOD, &t) : BKSetPtr (c, BK_CLOCK_PERIOD, &t, sizeof t);
		MC_CHECK (r == (per > 0 ? 0 : BK_INVALID_VALUE), "context", "setting the clock period returned %d", r);
		r = typed ? BKContextSetPtr (c, BK_PULSE_KERNEL, (void *) BKBufferPulseKernels [BK_PULSE_KERNEL_SINC]) : BKSetPtr (c, BK_PULSE_KERNEL, (void *) BKBufferPulseKernels [BK_PULSE_KERNEL_SINC], 0);
		MC_CHECK (r == 0, "context", "kernel could not be set");
	}
	BKSetPtr (c, BK_PULSE_KERNEL, NULL, 0);
	const void *kern;
	BKGetPtr (c, BK_PULSE_KERNEL, &kern, sizeof kern);
	MC_CHECK (kern == BKBufferPulseKernels [BK_PULSE_KERNEL_HARM], "context", "no pulse kernel does not restore the default");
	BKDispose (c);
	MC_CHECK (mc_heap_live == 0, "leak", "%ld blocks leaked", mc_heap_live);
	mc_trans (20); mc_eval (12); mc_state (mc_hash64 (ech * 100000 + er, mc_hash64 (a, mc_hash64 (v, per))));
}
static void data_attrs (int p)
{
	static const int A [] = { BK_SAMPLE_PITCH, BK_NUM_FRAMES, BK_NUM_CHANNELS, BK_SAMPLE_SUSTAIN_RANGE, 0, -1, BK_WAVEFORM, BK_DATA_ATTR_TYPE, BK_SAMPLE_RATE };
	int a = A [mc_choose (N (A))], v = Val [mc_choose (N (Val))], typed = mc_choose (2), n = mc_choose (3);
	int s0 = Val [mc_choose (N (Val))], s1 = Short [mc_choose (N (Short))], nul = mc_choose (2);
	BKData d;
	BKInt x, q [2];
	if (BKDataInit (&d)) mc_harness_error ("init");
	if (n) BKDataSetFrames (&d, Long, n == 1 ? 8 : 5, n, 1);
	int len = n == 1 ? 8 : n ? 5 : 0, pitch = a == BK_SAMPLE_PITCH ? rclamp (v, RPITCHMIN, RPITCHMAX) : 0;
	mc_log ("data with %d frames: set %s to %d through %s function, sustain range %d %d", len, attr_name (a), v, typed ? "typed" : "generic", s0, s1);
	BKInt r = typed ? BKDataSetAttr (&d, a, v) : BKSetAttr (&d, a, v);
	MC_CHECK (r == (a == BK_SAMPLE_PITCH ? 0 : BK_INVALID_ATTRIBUTE), "data", "setting %s returned %d", attr_name (a), r);
	q [0] = s0; q [1] = s1;
	MC_CHECK (BKSetPtr (&d, BK_SAMPLE_SUSTAIN_RANGE, nul ? NULL : q, sizeof q) == 0, "data", "sustain range refused");
	if (a != BK_SAMPLE_SUSTAIN_RANGE) {
		MC_CHECK (BKSetPtr (&d, a, q, sizeof q) == BK_INVALID_ATTRIBUTE, "data", "pointer attribute %s accepted", attr_name (a));
		MC_CHECK (BKGetPtr (&d, a, q, sizeof q) == BK_INVALID_ATTRIBUTE, "data", "pointer attribute %s can be read", attr_name (a));
	}
	int e0 = 0, e1 = 0;
	if (!nul && s0 != s1) {
		e0 = rclamp (s0 < 0 ? s0 + len + 1 : s0, 0, len); e1 = rclamp (s1 < 0 ? s1 + len + 1 : s1, 0, len);
		if (e1 < e0) { int t = e0; e0 = e1; e1 = t; }
	}
	MC_CHECK (BKGetPtr (&d, BK_SAMPLE_SUSTAIN_RANGE, q, sizeof q) == 0 && q [0] == e0 && q [1] == e1, "data", "sustain range is %d..%d instead of %d..%d", q [0], q [1], e0, e1);
	for (int k = 0; k < N (A); k ++) {
		int e = A [k] == BK_SAMPLE_PITCH ? pitch : A [k] == BK_NUM_FRAMES ? len : A [k] == BK_NUM_CHANNELS ? n : 99, er = k < 3 ? 0 : BK_INVALID_ATTRIBUTE;
		x = 99;
		r = typed ? BKDataGetAttr (&d, A [k], &x) : BKGetAttr (&d, A [k], &x);
		MC_CHECK (r == er && (A [k] == BK_NUM_CHANNELS && !n ? 1 : x == e), "data", "reading %s returned %d, value %d instead of %d", attr_name (A [k]), r, x, e);
	}
	BKDispose (&d);
	MC_CHECK (mc_heap_live == 0, "leak", "%ld blocks leaked", mc_heap_live);
	mc_trans (12); mc_eval (10); mc_state (mc_hash64 (a + n, mc_hash64 (v, e0 * 100 + e1)));
}
/* objects without attributes, and no object at all */
static void none_attrs (int p)
{
	int o = mc_choose (4), a = Attr [mc_choose (N (Attr))], v = Short [mc_choose (N (Short))];
	BKClock k; BKDivider d; BKInstrument in;
	BKCallback cb = { 0 };
	BKInt x = 99, q [4] = { 1, 2, 3, 4 };
	void *obj = NULL;
	if (o == 1) { BKClockInit (&k, 1 << 20, &cb); obj = &k; }
	if (o == 2) { BKDividerInit (&d, 3, &cb); obj = &d; }
	if (o == 3) { BKInstrumentInit (&in); obj = &in; }
	mc_log ("object %d, attribute %s", o, attr_name (a));
	MC_CHECK (BKSetAttr (obj, a, v) < 0, "none", "attribute accepted");
	MC_CHECK (BKGetAttr (obj, a, &x) < 0 && x == 99, "none", "attribute read");
	MC_CHECK (BKSetPtr (obj, a, q, 8) < 0, "none", "pointer attribute accepted");
	MC_CHECK (BKGetPtr (obj, a, q, 8) < 0 && q [0] == 1 && q [1] == 2, "none", "pointer attribute read");
	BKDispose (obj);
	mc_trans (4); mc_eval (4); mc_state (mc_hash64 (o, a));
}
/* dividers: set and read through ticks */
static void div_script (World *w)
{
	static const int D [] = { 0, 1, 2, 3, 5, INT32_MAX, 4 };
	int a = D [w_choose (w, N (D))], b = D [w_choose (w, N (D))], at = w_choose (w, 6);
	w_ctx (w, 0, 1, 44100);
	w_clock (w, 0, RUNIT * 10); w_clock_attach (w, 0, 0, -1);
	w_div (w, 0, a); w_div_clock (w, 0, 0);
	w_gen (w, 0, 10 * at + 1);
	w_div_detach (w, 0); w_div (w, 0, b); w_div_clock (w, 0, 0);
	w_gen (w, 0, 200);
}
static void divs (int p) { w_check (div_script, 0, REF, E_RET | E_DIV, "divider"); }

static const McScenario Scen [] = {
	{ "C05", "wraps", wraps, 0, MC_QUICK },
	{ "C05", "held", held, 0, MC_QUICK },
	{ "C05", "moved-3", moved, 3, MC_QUICK },
	{ "C05", "moved-4", moved, 4, MC_THOROUGH },
	{ "C05", "duty", duty, 0, MC_QUICK },
	{ "C05", "level", level, 0, MC_QUICK },
	{ "C05", "units", units, 0, MC_QUICK },
	{ "C05", "long", longn, 0, MC_QUICK },
	{ "C05", "lengths", lengths, 0, MC_QUICK },
	{ "C05", "change-3", change, 3, MC_QUICK },
	{ "C05", "noise-5", change, 105, MC_QUICK },
	{ "C05", "square-5", change, 205, MC_QUICK },
	{ "C05", "held-all", held, 1, MC_THOROUGH },
	{ "C05", "change-4", change, 4, MC_THOROUGH },
	{ "C05", "noise-7", change, 107, MC_THOROUGH },
	{ "C05", "square-7", change, 207, MC_THOROUGH },
	{ "C15", "single", attrs, 101, MC_QUICK },
	{ "C15", "pairs", attrs, 202, MC_QUICK },
	{ "C15", "moving", moving, 0, MC_QUICK },
	{ "C15", "cleared", forgets, 2, MC_QUICK },
	{ "C15", "cleared-3", forgets, 3, MC_THOROUGH },
	{ "C15", "pointers", ptrs, 0, MC_QUICK },
	{ "C15", "context", ctx_attrs, 0, MC_QUICK },
	{ "C15", "data", data_attrs, 0, MC_QUICK },
	{ "C15", "none", none_attrs, 0, MC_QUICK },
	{ "C15", "divider", divs, 0, MC_QUICK },
	{ "C15", "pairs-all", attrs, 102, MC_THOROUGH },
};
static const McPropInfo Props [] = {
	{ "C05", "model_checking", "each execution is one history of settings of a track or unit; all frames and attributes are compared; states are distinct observed behaviours",
	  "6 waveforms x notes x rates x channels; 17x17 duty cycles x volumes x kernels; volumes x master volumes x pannings x channel counts; plain units with 12x12 periods; notes of 100000 frames; custom waveforms of all lengths 2..69; tracks of all 7 sources which move between 3 pairs of contexts of different rates and channels, histories of 3 (4) of 11 operations; all histories of 3 (4) of 34 changes, 5 (7) of 10 changes for noise/custom and square", "reference synthesizer (ref.h)" },
	{ "C15", "model_checking", "each execution sets attributes of an object and reads all attributes after each; states are distinct sets of values read",
	  "47 attributes x 57 boundary values x 12 object states x track/unit x generic/typed functions; all pairs of (attribute, value) over 12 (57) values; 12x12x3 pointer arguments by generic and typed functions; values read while slides of 5x5 lengths, instruments and arpeggios are under way; all pairs (triples) of 28 settings, then a reset, a clear, a change of waveform or an attach, for 8 sources; contexts: 11 channel counts x 12 rates x attributes x values; data; clocks, dividers, instruments, no object", "reference model of attributes (ref.h) and tables in the harness" },
};
int main (int argc, char **argv)
{
	for (int i = 0; i < 70; i ++) Long [i] = (int16_t) ((i * 7919 % 1000 - 500) * 60);
	return mc_main (argc, argv, Scen, N (Scen), Props, N (Props));
}
