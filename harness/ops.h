/* Material and operations on tracks shared by several harnesses. */
#ifndef OPS_H
#define OPS_H
#include "world.h"
#define NOTE(n) ((n) << 20)
#define F(n) ((int64_t) (n) * RUNIT)
static const int16_t Smp [40] = { 0, 3000, 6000, 9000, 12000, 15000, 18000, 21000, 24000, 27000, 30000, 32000, 30000, 20000, 10000, 0,
	-3000, -6000, -9000, -12000, -15000, -18000, -21000, -24000, -27000, -30000, -32000, -20000, -10000, -7000, -4000, -1000, 0, 1, 2, 3, 4, 5, 6, 7 };
static const int16_t Wav [6] = { 0, 20000, 32767, -12000, -32768, 9000 };
static const int SeqV [] = { 32767, 20000, 12000, 6000 }, SeqP [] = { 0, 1 << 20, -(1 << 20) }, SeqD [] = { 2, 5, 8, 12 }, SeqPan [] = { -20000, 0, 20000 };
static const int EnvV [] = { 3, 32767, 2, 16000, 1, 10000, 3, 0 };
static void mat_data (World *w, int s, int c) { w_data_init (w, s); w_data_frames (w, s, Smp, 40, 1, 1); w_data_init (w, c); w_data_frames (w, c, Wav, 6, 1, 1); }
static void mat_instr0 (World *w, int i) { w_seq (w, i, 0, SeqV, 4, 1, 2); w_seq (w, i, 2, SeqP, 3, 0, 3); w_seq (w, i, 3, SeqD, 4, 0, 2); w_seq (w, i, 1, SeqPan, 3, 0, 3); }
static void mat_instr1 (World *w, int i) { w_env (w, i, 0, EnvV, 4, 1, 2); w_seq (w, i, 1, NULL, 0, 0, 0); w_seq (w, i, 2, NULL, 0, 0, 0); w_seq (w, i, 3, NULL, 0, 0, 0); }
static const int Waves5 [] = { BK_SQUARE, BK_TRIANGLE, BK_NOISE, BK_SAWTOOTH, BK_SINE };
enum { TOps = 26 };
/* smp, wav, i0, i1: data objects and instruments the track uses */
static void top (World *w, int i, int o, int smp, int wav, int i0, int i1)
{
	switch (o) {
		case 0: w_set (w, i, BK_NOTE, NOTE (76 + i)); break;
		case 1: w_set (w, i, BK_NOTE, NOTE (60) + 400000); break;
		case 2: w_set (w, i, BK_NOTE, BK_NOTE_RELEASE); break;
		case 3: w_set (w, i, BK_NOTE, BK_NOTE_MUTE); break;
		case 4: w_instr (w, i, i0); break;
		case 5: w_instr (w, i, i1); break;
		case 6: w_data (w, i, BK_SAMPLE, smp); break;
		case 7: w_data (w, i, BK_WAVEFORM, wav); break;
		case 8: w_set (w, i, BK_WAVEFORM, BK_NOISE); break;
		case 9: w_set (w, i, BK_VOLUME, 7777); break;
		case 10: w_set (w, i, BK_PANNING, -12000); break;
		case 11: { static const int e [] = { 7, NOTE (1) }; w_effect (w, i, BK_EFFECT_VIBRATO, e, 2); break; }
		case 12: { static const int e [] = { 5, 20000 }; w_effect (w, i, BK_EFFECT_TREMOLO, e, 2); break; }
		case 13: { static const int e [] = { 6 }; w_effect (w, i, BK_EFFECT_PORTAMENTO, e, 1); break; }
		case 14: { static const int e [] = { 9 }; w_effect (w, i, BK_EFFECT_VOLUME_SLIDE, e, 1); break; }
		case 15: { static const int a [] = { 3, 0, NOTE (4), NOTE (7) }; w_arp (w, i, a); break; }
		case 16: w_set (w, i, BK_DUTY_CYCLE, 9); break;
		case 17: w_set (w, i, BK_PITCH, NOTE (3) + 33333); break;
		case 18: w_set (w, i, BK_SAMPLE_REPEAT, BK_PALINDROME); break;
		case 19: w_range (w, i, 1, 8, 20); break;
		case 20: w_range (w, i, 0, 30, 5); break;
		case 21: w_set (w, i, BK_SAMPLE_PITCH, -NOTE (2)); break;
		case 22: w_set (w, i, BK_WAVEFORM, BK_TRIANGLE); w_set (w, i, BK_TRIANGLE_IGNORES_VOLUME, 1); break;
		case 23: w_set (w, i, BK_PHASE_WRAP, 5); break;
		case 24: w_set (w, i, BK_EFFECT_DIVIDER, 2); w_set (w, i, BK_INSTRUMENT_DIVIDER, 3); w_set (w, i, BK_ARPEGGIO_DIVIDER, 1); break;
		case 25: w_instr (w, i, -1); break;
	}
}
#endif
