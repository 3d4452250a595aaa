/* C23 WAV writer, C24 WAV reader */
#define _GNU_SOURCE
#include "BlipKit.h"
#include "mc.h"
#include <fcntl.h>
#include <signal.h>
#include <string.h>
#include <stdlib.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <unistd.h>

#define N(a) ((int) (sizeof (a) / sizeof *(a)))

static int make_fd (void)
{
	int fd = memfd_create ("bk", 0);
	if (fd < 0) {
		char t [] = "/tmp/bkwavXXXXXX";
		fd = mkstemp (t);
		if (fd >= 0) unlink (t);
	}
	if (fd < 0) mc_harness_error ("cannot create a scratch file");
	return fd;
}
static FILE *open_fd (int fd, const char *mode)
{
	FILE *f = fdopen (fd, mode);
	if (!f) mc_harness_error ("fdopen");
	return f;
}
static uint32_t le32 (const uint8_t *p) { return p [0] | p [1] << 8 | p [2] << 16 | (uint32_t) p [3] << 24; }
static uint32_t le16 (const uint8_t *p) { return p [0] | p [1] << 8; }
static void w32 (uint8_t *p, uint32_t v) { p [0] = v; p [1] = v >> 8; p [2] = v >> 16; p [3] = v >> 24; }
static void w16 (uint8_t *p, uint32_t v) { p [0] = v; p [1] = v >> 8; }

/* content of frame number i of a file: covers the extremes and all byte patterns */
static int16_t pattern (uint32_t i)
{
	static const int16_t first [] = { 32767, -32768, -1, 0, 1, 255, 256, -256, -257, 127, -128, 0x1234 };
	if (i < N (first)) return first [i];
	return (int16_t) (i * 40503u >> 3);
}

/* ------------------------------------------------------------------ C23 */
typedef struct { long off; int32_t rate; int ch, bits; } Fmt;

static long OldLen;                /* bytes which the file had from `off` before anything was written */
/* is the file from `off` a valid WAV file with exactly the frames? */
static const char *check_file (int fd, const Fmt *f, const int16_t *want, uint32_t n, char *why, size_t wn)
{
	int bytes = f->bits == 8 ? 1 : 2;
	struct stat st;
	if (fstat (fd, &st)) mc_harness_error ("fstat");
	long len = st.st_size;           /* the position is shared with the stream */
	long size = len - f->off;
	uint8_t *b = mc_raw_malloc (len + 1);
	if (pread (fd, b, len, 0) != len) mc_harness_error ("pread");
	const char *r = why;
	uint8_t *p = b + f->off;
	#define BAD(...) do { snprintf (why, wn, __VA_ARGS__); goto out; } while (0)
	for (long i = 0; i < f->off; i ++) if (b [i] != (uint8_t) (i * 7 + 3)) BAD ("byte %ld before the file was changed", i);
	if (OldLen) {                                /* the rest of a longer file stays */
		long own = 44 + (((long) n * bytes + 1) & ~1L);
		if (size != (own > OldLen ? own : OldLen)) BAD ("the file has %ld bytes; %ld were written over %ld", size, own, OldLen);
		for (long i = own; i < size; i ++) if (p [i] != (uint8_t) ((f->off + i) * 7 + 3)) BAD ("byte %ld behind the written ones was changed", i - own);
		size = own;
	}
	if (size < 44) BAD ("only %ld bytes", size);
	if (memcmp (p, "RIFF", 4) || memcmp (p + 8, "WAVE", 4)) BAD ("no RIFF/WAVE header");
	if (le32 (p + 4) != size - 8) BAD ("RIFF size %u, file has %ld bytes after it", le32 (p + 4), size - 8);
	/* chunks */
	long o = 12; int seenfmt = 0, seendata = 0;
	while (o + 8 <= size) {
		uint32_t cs = le32 (p + o + 4);
		if (cs > size - o - 8) BAD ("chunk at %ld exceeds the file: %u bytes", o, cs);
		uint8_t *c = p + o + 8;
		if (!memcmp (p + o, "fmt ", 4)) {
			seenfmt = 1;
			if (cs < 16) BAD ("fmt chunk of %u bytes", cs);
			if (le16 (c) != 1) BAD ("format %u", le16 (c));
			if (le16 (c + 2) != (uint32_t) f->ch) BAD ("%u channels instead of %d", le16 (c + 2), f->ch);
			if (le32 (c + 4) != (uint32_t) f->rate) BAD ("sample rate %u instead of %d", le32 (c + 4), f->rate);
			if (le32 (c + 8) != (uint32_t) f->rate * (uint32_t) (f->ch * bytes)) BAD ("byte rate %u", le32 (c + 8));
			if (le16 (c + 12) != (uint32_t) (f->ch * bytes)) BAD ("block align %u", le16 (c + 12));
			if (le16 (c + 14) != (uint32_t) (8 * bytes)) BAD ("%u bits", le16 (c + 14));
		}
		if (!memcmp (p + o, "data", 4)) {
			if (!seenfmt) BAD ("data before fmt");
			if (seendata ++) BAD ("two data chunks");
			if (cs != n * bytes) BAD ("data chunk has %u bytes, %u frames of %d bytes were appended", cs, n, bytes);
			for (uint32_t i = 0; i < n; i ++) {
				int v = bytes == 1 ? c [i] : (int16_t) le16 (c + 2 * i);
				int w = bytes == 1 ? (want [i] >> 8) + 128 : want [i];
				if (v != w) BAD ("frame %u is %d instead of %d", i, v, w);
			}
		}
		o += 8 + cs;
		if (cs & 1) {          /* chunks are aligned to 2 bytes */
			if (o >= size) BAD ("chunk of %u bytes is not followed by a pad byte", cs);
			if (p [o]) BAD ("pad byte is %d", p [o]);
			o ++;
		}
	}
	if (!seendata) BAD ("no data chunk");
	if (o < size) BAD ("%ld bytes after the last chunk", size - o);
	r = NULL;
out:
	mc_raw_free (b);
	return r;
}
/* read back with the library */
static const char *read_back (int fd, const Fmt *f, const int16_t *want, uint32_t n, char *why, size_t wn)
{
	FILE *file = open_fd (dup (fd), "r");
	BKWaveFileReader rd;
	BKInt ch = -1, rate = -1, frames = -1;
	const char *r = why;
	BKFrame *buf = NULL;
	fseek (file, f->off, SEEK_SET);
	if (BKWaveFileReaderInit (&rd, file) != 0) { snprintf (why, wn, "reader refused the file"); goto out; }
	if (f->rate != 0 && BKWaveFileReaderReadHeader (&rd, &ch, &rate, &frames) != 0) { snprintf (why, wn, "reader refused the header"); goto out; }
	if (BKWaveFileReaderReadHeader (&rd, &ch, &rate, &frames) != 0) { snprintf (why, wn, "reader refused the header the second time"); goto out; }
	if (ch != f->ch || rate != f->rate || frames != (BKInt) (n / f->ch)) { snprintf (why, wn, "header reads %d channels, %d Hz, %d frames", ch, rate, frames); goto out; }
	n = n / f->ch * f->ch;
	buf = mc_raw_malloc (n * sizeof (BKFrame) + 1);
	if (BKWaveFileReaderReadFrames (&rd, buf) != 0) { snprintf (why, wn, "reader refused the frames"); goto out; }
	for (uint32_t i = 0; i < n; i ++) {
		int w = f->bits == 8 ? (want [i] >> 8) * 256 : want [i];
		if (buf [i] != w) { snprintf (why, wn, "frame %u is read as %d instead of %d", i, buf [i], w); goto out; }
	}
	r = NULL;
out:
	BKDispose (&rd);
	mc_raw_free (buf);
	fclose (file);
	return r;
}
static Fmt choose_fmt (int small)
{
	static const long offs [] = { 0, 1, 13, 44, 4096, 70001 };
	static const int32_t rates [] = { 44100, 1, 96000, 0x7fffffff, 16000 };
	static const int chs [] = { 1, 2, 3, 8 };
	static const int bits [] = { 16, 8, 0 };
	Fmt f;
	f.off  = offs [mc_choose (small ? 2 : 6)];
	f.rate = rates [mc_choose (small ? 1 : 5)];
	f.ch   = chs [mc_choose (small ? 2 : 4)];
	f.bits = bits [mc_choose (small ? 2 : 3)];
	return f;
}
static FILE *start_file (const Fmt *f, int *fd)
{
	*fd = make_fd ();
	FILE *file = open_fd (dup (*fd), "w+");
	for (long i = 0; i < f->off + OldLen; i ++) fputc ((uint8_t) (i * 7 + 3), file);
	fflush (file);
	if (OldLen) fseek (file, f->off, SEEK_SET);
	return file;
}
#define MAXF 20000000
static int16_t Want [MAXF];
static const int Sizes [] = { 1, 2, 0, 3, 1023, 1024, 1025, 2500 };

static void writer_history (int depth)
{
	static const long Olds [] = { 1, 44, 47, 300, 9000 };
	OldLen = depth >= 10 ? Olds [mc_choose (N (Olds))] : 0;
	Fmt f = choose_fmt (depth >= 10);
	depth %= 10;
	int fd, term = 0; uint32_t n = 0;
	char why [200];
	FILE *file = start_file (&f, &fd);
	BKWaveFileWriter w;
	mc_log ("writer: offset %ld, %d Hz, %d channels, %d bits", f.off, f.rate, f.ch, f.bits);
	memset (&w, mc_heap_fill, sizeof w);
	int r = BKWaveFileWriterInit (&w, file, f.ch, f.rate, f.bits);
	MC_CHECK (r == 0, "init-refused", "init returned %d (%ld %d %d %d)", r, f.off, f.rate, f.ch, f.bits);
	for (int d = 0; d < depth; d ++) {
		int op = mc_choose (N (Sizes) + 2);
		if (op == 0) break;
		if (op == 1) {
			mc_log ("terminate");
			r = BKWaveFileWriterTerminate (&w);
			MC_CHECK (r == 0, "terminate", "terminate returned %d", r);
			term = 1;
			const char *e = check_file (fd, &f, Want, n, why, sizeof why);
			MC_CHECK (!e, "file-after-terminate", "%s (offset %ld, %d Hz, %d ch, %d bits, %u frames)", why, f.off, f.rate, f.ch, f.bits, n);
		} else {
			int k = Sizes [op - 2];
			mc_log ("append %d", k);
			BKFrame *tmp = malloc (k * sizeof (BKFrame) + 1);
			for (int i = 0; i < k; i ++) tmp [i] = Want [n + i] = pattern (n + i);
			r = BKWaveFileWriterAppendFrames (&w, tmp, k);
			MC_CHECK (r == 0, "append", "append returned %d", r);
			for (int i = 0; i < k; i ++) MC_CHECK (tmp [i] == Want [n + i], "append", "append changed the given frames");
			free (tmp);
			n += k;
			term = 0;
		}
		mc_trans (1);
	}
	mc_log ("dispose (%u frames, %s)", n, term ? "terminated" : "not terminated");
	BKDispose (&w);
	BKDispose (&w);
	MC_CHECK (!ferror (file) && fclose (file) == 0, "file", "stream is in error state or was closed");
	const char *e = check_file (fd, &f, Want, n, why, sizeof why);
	MC_CHECK (!e, "file-after-dispose", "%s (offset %ld, %d Hz, %d ch, %d bits, %u frames)", why, f.off, f.rate, f.ch, f.bits, n);
	/* the reader takes all following bytes for frames where the data chunk has none */
	e = n || !OldLen ? read_back (fd, &f, Want, n, why, sizeof why) : NULL;
	MC_CHECK (!e, "read-back", "%s (offset %ld, %d Hz, %d ch, %d bits, %u frames)", why, f.off, f.rate, f.ch, f.bits, n);
	MC_CHECK (mc_heap_live == 0, "leak", "%ld blocks leaked", mc_heap_live);
	mc_eval (2);
	mc_state (mc_hash64 (mc_hash64 (f.off * 8 + f.ch, f.rate), n * 32 + f.bits));
	close (fd);
}
/* long files: many frames and blocks of all magnitudes */
static void writer_large (int depth)
{
	static const int Few [] = { 255, 4096, 8191, 32768, 33001, 65535, 65537, 70000, 131072 }, Huge [] = { 1 << 20, (1 << 23) + 8, (1 << 24) + 5 };
	const int *sz = depth ? Few : Huge;
	int nsz = depth ? N (Few) : N (Huge);
	Fmt f = { mc_choose (2) * 13, 44100, (int []) { 1, 2, 7 } [mc_choose (3)], mc_choose (2) ? 8 : 16 };
	if (!depth) depth = 1;
	int fd; uint32_t n = 0;
	char why [200];
	FILE *file = start_file (&f, &fd);
	BKWaveFileWriter w;
	memset (&w, mc_heap_fill, sizeof w);
	mc_log ("writer: offset %ld, %d channels, %d bits", f.off, f.ch, f.bits);
	MC_CHECK (BKWaveFileWriterInit (&w, file, f.ch, f.rate, f.bits) == 0, "init-refused", "init");
	for (int d = 0; d < depth; d ++) {
		int o = mc_choose (nsz + 1), k = o < nsz ? sz [o] : 0;
		for (int i = 0; i < k; i ++) Want [n + i] = pattern (n + i);
		mc_log ("append %d", k);
		MC_CHECK (BKWaveFileWriterAppendFrames (&w, Want + n, k) == 0, "append", "append");
		n += k;
		if (d == 0 && o % 2) { mc_log ("terminate"); MC_CHECK (BKWaveFileWriterTerminate (&w) == 0, "terminate", "terminate"); }
	}
	BKDispose (&w);
	fclose (file);
	MC_CHECK (!check_file (fd, &f, Want, n, why, sizeof why), "file-after-dispose", "%s", why);
	MC_CHECK (!read_back (fd, &f, Want, n, why, sizeof why), "read-back", "%s", why);
	MC_CHECK (mc_heap_live == 0, "leak", "%ld blocks leaked", mc_heap_live);
	mc_eval (n); mc_trans (depth);
	mc_state (mc_hash64 (n, f.ch * 32 + f.bits));
	close (fd);
}
/* every frame value through both bit depths */
static void writer_values (int unused)
{
	Fmt f = { mc_choose (2), 44100, 1 + mc_choose (2), mc_choose (2) ? 8 : 16 };
	int hi = mc_choose (64), fd;
	int16_t v [1024];
	char why [200];
	mc_log ("frame values %d ..", hi * 1024 - 32768);
	FILE *file = start_file (&f, &fd);
	BKWaveFileWriter w;
	if (BKWaveFileWriterInit (&w, file, f.ch, f.rate, f.bits) != 0) mc_fail ("init-refused", "init");
	for (int i = 0; i < 1024; i ++) v [i] = hi * 1024 + i - 32768;
	MC_CHECK (BKWaveFileWriterAppendFrames (&w, v, 1024) == 0, "append", "append");
	BKDispose (&w);
	fclose (file);
	MC_CHECK (!check_file (fd, &f, v, 1024, why, sizeof why), "file-after-dispose", "%s", why);
	MC_CHECK (!read_back (fd, &f, v, 1024, why, sizeof why), "read-back", "%s", why);
	mc_eval (1024); mc_trans (1024);
	mc_state (mc_hash64 (hi, f.bits));
	close (fd);
}
/* whole data objects */
static void write_data (int unused)
{
	Fmt f = choose_fmt (0);
	int n = (int []) { 2, 3, 511, 1024, 1500, 33000 } [mc_choose (6)], fd;
	char why [200];
	BKData data;
	int copy = mc_choose (2);
	mc_log ("write data object: offset %ld, %d Hz, %d channels, %d bits, %d frames", f.off, f.rate, f.ch, f.bits, n);
	for (int i = 0; i < n * f.ch; i ++) Want [i] = pattern (i);
	if (BKDataInit (&data) != 0 || BKDataSetFrames (&data, Want, n, f.ch, copy) != 0) mc_harness_error ("data");
	FILE *file = start_file (&f, &fd);
	int r = BKWaveFileWriteData (file, &data, f.rate, f.bits);
	MC_CHECK (r == 0, "write-data", "returned %d", r);
	BKDispose (&data);
	MC_CHECK (fclose (file) == 0, "file", "stream was closed");
	MC_CHECK (!check_file (fd, &f, Want, n * f.ch, why, sizeof why), "write-data", "%s (%d Hz, %d ch, %d bits, %d frames)", why, f.rate, f.ch, f.bits, n);
	MC_CHECK (!read_back (fd, &f, Want, n * f.ch, why, sizeof why), "read-back", "%s", why);
	MC_CHECK (mc_heap_live == 0, "leak", "%ld blocks leaked", mc_heap_live);
	mc_eval (2); mc_trans (1);
	mc_state (mc_hash64 (mc_hash64 (f.off * 8 + f.ch, f.rate), n * 32 + f.bits));
	close (fd);
}
/* the file cannot grow beyond `limit` bytes: real write errors from the kernel */
static rlim_t OldLimit;
static void limit_on (rlim_t n) { struct rlimit l; getrlimit (RLIMIT_FSIZE, &l); OldLimit = l.rlim_cur; l.rlim_cur = n; setrlimit (RLIMIT_FSIZE, &l); }
static void limit_off (void) { struct rlimit l; getrlimit (RLIMIT_FSIZE, &l); l.rlim_cur = OldLimit; setrlimit (RLIMIT_FSIZE, &l); }

static void writer_faults (int depth)
{
	static const int sz [] = { 1, 5, 12, 1030 };
	Fmt f = choose_fmt (1);
	int fd; uint32_t n = 0;
	int mode = mc_choose (3), api = mc_choose (2), ops [4], nops = 0;
	char why [200], iobuf [64];
	signal (SIGXFSZ, SIG_IGN);
	uint32_t total = 0;
	if (api == 0) {
		while (nops < depth) {
			int o = mc_choose (N (sz) + 1);
			if (o == N (sz)) break;
			ops [nops ++] = sz [o]; total += sz [o];
		}
	} else { nops = 1; ops [0] = sz [1 + mc_choose (N (sz) - 1)] * f.ch; total = ops [0]; }
	uint32_t size = 44 + total * (f.bits == 8 ? 1 : 2);
	size += size & 1;
	/* all positions of small files; around block ends of large ones */
	int pos = mc_choose (size < 130 ? size + 1 : 140);
	uint32_t lim = size < 130 || pos < 100 ? pos : size - (140 - 1 - pos);
	FILE *file = start_file (&f, &fd);
	setvbuf (file, mode == 1 ? iobuf : NULL, mode == 0 ? _IONBF : _IOFBF, mode == 1 ? sizeof iobuf : 4096);
	mc_log ("writer: offset %ld, %d channels, %d bits, %s, file limited to %u of %u bytes", f.off, f.ch, f.bits,
		mode == 0 ? "unbuffered" : mode == 1 ? "64 byte buffer" : "4096 byte buffer", lim, size);
	int err = 0, r;
	if (api == 0) {
		BKWaveFileWriter w;
		limit_on (f.off + lim);
		r = BKWaveFileWriterInit (&w, file, f.ch, f.rate, f.bits);
		if (r == 0) {
			for (int i = 0; i < nops; i ++) {
				for (int k = 0; k < ops [i]; k ++) Want [n + k] = pattern (n + k);
				r = BKWaveFileWriterAppendFrames (&w, Want + n, ops [i]);
				mc_log ("append %d: %d", ops [i], r);
				n += ops [i];
				if (r) { err = 1; break; }
				mc_trans (1);
			}
			if (!err) { r = BKWaveFileWriterTerminate (&w); mc_log ("terminate: %d", r); if (r) err = 1; }
			BKDispose (&w);
		} else err = 1;
		limit_off ();
	} else {
		BKData data;
		for (int k = 0; k < ops [0]; k ++) Want [k] = pattern (k);
		n = ops [0];
		if (BKDataInit (&data) != 0 || BKDataSetFrames (&data, Want, n / f.ch, f.ch, 0) != 0) mc_harness_error ("data");
		limit_on (f.off + lim);
		r = BKWaveFileWriteData (file, &data, f.rate, f.bits);
		limit_off ();
		mc_log ("write data: %d", r);
		err = r != 0;
		BKDispose (&data);
	}
	if (!err) {
		MC_CHECK (!check_file (fd, &f, Want, n, why, sizeof why), "error-not-reported", "every call succeeded although the file is limited to %u of %u bytes: %s", lim, size, why);
		mc_cover ("no error");
	} else {
		MC_CHECK (lim < size, "spurious-error", "error without a failing write");
		mc_cover (lim < 44 ? "error in header" : "error in data");
	}
	fclose (file);
	MC_CHECK (mc_heap_live == 0, "leak", "%ld blocks leaked", mc_heap_live);
	mc_eval (1); mc_trans (1);
	mc_state (mc_hash64 (mc_hash64 (lim, size), mode * 64 + f.ch * 2 + err));
	close (fd);
}
static void writer_refused (int unused)
{
	static const int bits [] = { -1, 1, 7, 9, 12, 15, 17, 24, 32, 0x7fffffff };
	int kind = mc_choose (3), b = bits [mc_choose (N (bits))], fd, p [2];
	BKWaveFileWriter w;
	Fmt f = { 5, 44100, 2, 16 };
	int live;
	if (kind == 0) {
		FILE *file = start_file (&f, &fd);
		mc_log ("writer with %d bits", b);
		MC_CHECK (BKWaveFileWriterInit (&w, file, 2, 44100, b) < 0, "bits-accepted", "%d bits were accepted", b);
		BKData d;
		if (BKDataInit (&d) || BKDataSetFrames (&d, Want, 2, 2, 1)) mc_harness_error ("data");
		MC_CHECK (BKWaveFileWriteData (file, &d, 44100, b) < 0, "bits-accepted", "%d bits were accepted", b);
		BKDispose (&d);
		fclose (file);
		MC_CHECK (lseek (fd, 0, SEEK_END) == 5, "bits-accepted", "refused writer wrote something");
		close (fd);
	} else if (kind == 1) {
		fd = make_fd ();
		char path [64];
		snprintf (path, sizeof path, "/proc/self/fd/%d", fd);
		FILE *file = fopen (path, "r");
		if (!file) mc_discard ();
		mc_log ("writer on read only file");
		MC_CHECK (BKWaveFileWriterInit (&w, file, 2, 44100, 16) == BK_FILE_NOT_WRITABLE_ERROR, "readonly-accepted", "read only file was accepted");
		fclose (file); close (fd);
	} else {
		if (pipe (p)) mc_harness_error ("pipe");
		FILE *file = open_fd (p [1], "w");
		mc_log ("writer on pipe");
		MC_CHECK (BKWaveFileWriterInit (&w, file, 2, 44100, 16) == BK_FILE_NOT_SEEKABLE_ERROR, "pipe-accepted", "pipe was accepted");
		fclose (file); close (p [0]);
	}
	(void) live;
	MC_CHECK (mc_heap_live == 0, "leak", "%ld blocks leaked", mc_heap_live);
	mc_eval (1); mc_trans (1); mc_state (mc_hash64 (kind, b));
}

/* ------------------------------------------------------------------ C24 */
/* independent decoder of the part of RIFF/WAVE a reader has to understand */
typedef struct {
	int must_refuse;      /* not a PCM WAV file with at least one channel                 */
	int must_accept;      /* completely consistent file                                   */
	uint32_t rate, ch, bits, nsamp, declared;   /* nsamp: whole frames * channels declared */
	size_t data;          /* offset of the first data byte                                */
} Dec;
static Dec decode (const uint8_t *b, size_t n)
{
	Dec d = { 0 };
	size_t o = 12;
	int fmt = 0;
	d.must_refuse = 1;
	if (n < 12 || memcmp (b, "RIFF", 4) || memcmp (b + 8, "WAVE", 4)) return d;
	d.must_accept = le32 (b + 4) + 8ull == n;
	int first = 1;
	while (o + 8 <= n) {
		uint32_t cs = le32 (b + o + 4);
		const uint8_t *c = b + o + 8;
		size_t rest = n - o - 8;
		if (!memcmp (b + o, "fmt ", 4) && !fmt) {
			if (cs < 16 || rest < 16) return d;
			if (cs > rest) d.must_accept = 0;
			if (!first) d.must_accept = 0;
			fmt = 1;
			d.ch = le16 (c + 2); d.rate = le32 (c + 4); d.bits = le16 (c + 14);
			if (le16 (c) != 1 || d.ch == 0 || (d.bits != 8 && d.bits != 16)) return d;
			if (d.rate == 0 || d.rate > 0x7fffffff || le16 (c + 12) != d.ch * d.bits / 8 || le32 (c + 8) != d.rate * (d.ch * d.bits / 8)) d.must_accept = 0;
		}
		else if (!memcmp (b + o, "data", 4)) {
			if (!fmt) return d;
			uint64_t bytes = cs;
			if (cs > rest) d.must_accept = 0;
			if (cs == 0) bytes = rest;
			d.declared = (uint32_t) bytes;
			uint64_t ns = bytes / (d.bits / 8);
			if (ns > 0x7fffffff) { d.must_accept = 0; d.must_refuse = 0; d.nsamp = 0; d.data = o + 8; return d; }
			d.nsamp = (uint32_t) (ns / d.ch * d.ch);
			d.data = o + 8;
			d.must_refuse = 0;
			return d;
		}
		first = 0;
		uint64_t next = o + 8ull + cs + (cs & 1);
		if (next > n) return d;
		o = next;
	}
	return d;
}
static uint8_t Img [1 << 20];
static size_t ImgUsed;
static size_t ImgLen;

static void check_reading (const uint8_t *img, size_t len, long off)
{
	static BKFrame zero;
	char path [64];
	int fd = make_fd ();
	Dec d = decode (img, len);
	if (d.must_refuse) d.must_accept = 0;
	for (long i = 0; i < off; i ++) if (write (fd, "R", 1) != 1) mc_harness_error ("write");
	if (write (fd, img, len) != (ssize_t) len) mc_harness_error ("write");
	FILE *file = open_fd (dup (fd), "r+");
	BKWaveFileReader rd;
	BKInt ch = 1, rate = 1, nf = 1;
	fseek (file, off, SEEK_SET);
	memset (&rd, mc_heap_fill, sizeof rd);
	MC_CHECK (BKWaveFileReaderInit (&rd, file) == 0, "init-refused", "reader refused a readable file");
	int r = BKWaveFileReaderReadHeader (&rd, &ch, &rate, &nf);
	mc_log ("read header: %d (%d channels, %d Hz, %d frames); decoder: %s, %u channels, %u Hz, %u bits, %u samples", r, ch, rate, nf,
		d.must_refuse ? "invalid" : d.must_accept ? "valid" : "questionable", d.ch, d.rate, d.bits, d.nsamp);
	if (d.must_accept) MC_CHECK (r == 0, "valid-refused", "valid file refused: %d", r);
	if (d.must_refuse) MC_CHECK (r < 0, "invalid-accepted", "file which is not a supported WAV file was accepted (%d channels, %d Hz, %d frames)", ch, rate, nf);
	if (r == 0) {
		MC_CHECK (ch == (BKInt) d.ch && rate == (BKInt) d.rate, "header", "read %d channels, %d Hz instead of %u, %u", ch, rate, d.ch, d.rate);
		MC_CHECK (nf >= 0 && (uint64_t) nf * ch == d.nsamp, "header", "%d frames of %d channels declared, file says %u samples", nf, ch, d.nsamp);
		BKInt c2 = 0, r2 = 0, n2 = 0;
		if (rate) {
			MC_CHECK (BKWaveFileReaderReadHeader (&rd, &c2, &r2, &n2) == 0 && c2 == ch && r2 == rate && n2 == nf, "header-twice", "reading the header twice differs: %d %d %d", c2, r2, n2);
		}
		if (d.nsamp < 4 << 20) {
			BKFrame *buf = mc_raw_malloc (d.nsamp * sizeof (BKFrame) + (d.nsamp == 0));
			memset (buf, 0x77, d.nsamp * sizeof (BKFrame));
			int rr = BKWaveFileReaderReadFrames (&rd, buf);
			MC_CHECK (rr <= 0, "frames-status", "read frames returned %d", rr);
			if (d.must_accept) MC_CHECK (rr == 0, "valid-refused", "frames of a valid file refused: %d", rr);
			if (rr == 0) for (uint32_t i = 0; i < d.nsamp; i ++) {
				int bytes = d.bits / 8;
				size_t o = d.data + (size_t) i * bytes;
				int w = o + bytes > len ? 0 : bytes == 1 ? (img [o] - 128) * 256 : (int16_t) le16 (img + o);
				if (buf [i] != w) mc_fail ("frames", "frame %u read as %d instead of %d", i, buf [i], w);
			}
			mc_raw_free (buf);
			mc_eval (1);
			mc_cover ("read: %s", d.must_accept ? "valid" : "questionable");
		}
	} else mc_cover ("refused: %s", d.must_refuse ? "invalid" : "questionable");
	BKDispose (&rd);
	mc_trans (3);

	/* load into a data object which already has content */
	BKData data;
	BKFrame old [6] = { 1, 2, 3, 4, 5, 6 };
	BKInt v = 0;
	if (BKDataInit (&data) || BKDataSetFrames (&data, old, 3, 2, 1)) mc_harness_error ("data");
	fseek (file, off, SEEK_SET);
	mc_heap_limit = 16 << 20;
	r = BKDataLoadWAVE (&data, file);
	mc_heap_limit = 256 << 20;
	uint32_t nf2 = d.ch ? d.nsamp / d.ch : 0;
	if (r == 0) {
		MC_CHECK (!d.must_refuse, "invalid-accepted", "data loaded from an invalid file");
		MC_CHECK (d.ch <= 8 && nf2 >= 2, "unusable-accepted", "data with %u channels, %u frames was accepted", d.ch, nf2);
		MC_CHECK (BKGetAttr (&data, BK_NUM_FRAMES, &v) == 0 && v == (BKInt) nf2, "load", "%d frames loaded instead of %u", v, nf2);
		MC_CHECK (BKGetAttr (&data, BK_NUM_CHANNELS, &v) == 0 && v == (BKInt) d.ch, "load", "%d channels loaded instead of %u", v, d.ch);
		for (uint32_t i = 0; i < d.nsamp; i ++) {
			int bytes = d.bits / 8;
			size_t o = d.data + (size_t) i * bytes;
			int w = o + bytes > len ? 0 : bytes == 1 ? (img [o] - 128) * 256 : (int16_t) le16 (img + o);
			if (data.frames [i] != w) mc_fail ("load", "frame %u loaded as %d instead of %d", i, data.frames [i], w);
		}
		mc_cover ("loaded");
	} else {
		MC_CHECK (r < 0, "load-status", "load returned %d", r);
		if (d.must_accept && d.ch <= 8 && nf2 >= 2) mc_fail ("valid-refused", "valid file not loaded: %d", r);
		MC_CHECK (BKGetAttr (&data, BK_NUM_FRAMES, &v) == 0 && v == 3, "failed-load", "failed load changed the number of frames to %d", v);
		MC_CHECK (BKGetAttr (&data, BK_NUM_CHANNELS, &v) == 0 && v == 2, "failed-load", "failed load changed the number of channels to %d", v);
		MC_CHECK (!memcmp (data.frames, old, sizeof old), "failed-load", "failed load changed the frames");
		MC_CHECK (BKDataSetFrames (&data, old, 2, 2, 1) == 0, "failed-load", "data cannot be set after a failed load");
	}
	BKDispose (&data);
	fclose (file);
	MC_CHECK (mc_heap_live == 0, "leak", "%ld blocks leaked", mc_heap_live);
	close (fd);
	mc_trans (2); mc_eval (1);
	(void) path; (void) zero;
	mc_state (mc_hash (r, img, len < 400 ? len : 400));
}
/* small files in different layouts; returns header size */
static int BigExt, BigN, BigSize;       /* layout 11 */
static size_t build (int layout, int ch, int bits, int nf)
{
	static const int ext [] = { 0, 2, 24, 1, 0, 0, 0, 0, 3, 0, 0 };
	int bytes = bits / 8, ns = nf * ch, e = layout == 11 ? BigExt : ext [layout];
	uint8_t *p = Img;
	memset (Img, 0, ImgUsed ? ImgUsed : sizeof Img);
	memcpy (p, "RIFF", 4); memcpy (p + 8, "WAVEfmt ", 8);
	w32 (p + 16, 16 + e); w16 (p + 20, 1); w16 (p + 22, ch); w32 (p + 24, 44100); w32 (p + 28, 44100 * ch * bytes); w16 (p + 32, ch * bytes); w16 (p + 34, bits);
	p += 36;
	memset (p, 'd', e + (e & 1)); p += e + (e & 1);
	/* other chunks before the data */
	static const int extra [][3] = { { -1 }, { -1 }, { -1 }, { -1 }, { 4, -1 }, { 5, -1 }, { 0, 7, -1 }, { 1, 2, -1 }, { 3, -1 }, { -1 }, { -1 } };
	for (int i = 0; layout == 11 ? i < BigN : i < 3 && extra [layout][i] >= 0; i ++) {
		int s = layout == 11 ? BigSize + i : extra [layout][i];
		memcpy (p, i ? "fact" : "LIST", 4); w32 (p + 4, s); memset (p + 8, 'a', s); p += 8 + s + (s & 1);
	}
	memcpy (p, "data", 4); w32 (p + 4, layout == 9 ? 0 : ns * bytes); p += 8;
	size_t h = p - Img;
	for (int i = 0; i < ns; i ++) {
		int v = pattern (i);
		if (bytes == 1) *p ++ = v >> 8; else { w16 (p, v); p += 2; }
	}
	if (layout != 9 && (p - Img) & 1) *p ++ = 0;
	if (layout == 10) { memcpy (p, "LIST", 4); w32 (p + 4, 6); memset (p + 8, 'z', 6); p += 14; }
	ImgLen = p - Img;
	ImgUsed = ImgLen + 64;
	w32 (Img + 4, ImgLen - 8);
	return h;
}
static const struct { int ch, bits, nf; } Forms [] = { { 1, 16, 2 }, { 2, 16, 3 }, { 1, 8, 3 }, { 2, 8, 2 }, { 8, 16, 2 }, { 3, 8, 5 }, { 1, 16, 1 }, { 1, 16, 0 }, { 1, 16, 700 }, { 3, 16, 400 }, { 1, 8, 1500 }, { 3, 8, 700 }, { 9, 16, 3 }, { 2, 16, 256 }, { 1, 8, 1024 } };

static void reader_valid (int unused)
{
	int layout = mc_choose (11), fi = mc_choose (N (Forms));
	long off = (int []) { 0, 1, 6, 44, 70001 } [mc_choose (5)];
	build (layout, Forms [fi].ch, Forms [fi].bits, Forms [fi].nf);
	mc_log ("layout %d, %d channels, %d bits, %d frames, offset %ld", layout, Forms [fi].ch, Forms [fi].bits, Forms [fi].nf, off);
	check_reading (Img, ImgLen, off);
}
/* large and many chunks, large format extensions */
static void reader_chunks (int unused)
{
	static const int ext [] = { 0, 2, 63, 64, 100, 255, 256, 1000, 32768, 65535, 65536, 70001 }, size [] = { 0, 1, 255, 256, 1023, 32767, 32768, 65535, 65536, 70001 }, n [] = { 0, 1, 2, 3, 9, 300 };
	int fi = mc_choose (4);
	BigExt = ext [mc_choose (N (ext))]; BigN = n [mc_choose (N (n))]; BigSize = BigN ? size [mc_choose (N (size))] : 0;
	if (BigN * (size_t) BigSize > 700000) mc_discard ();
	build (11, Forms [fi].ch, Forms [fi].bits, Forms [fi].nf);
	mc_log ("format extension of %d bytes, %d chunks of %d bytes, %d channels, %d bits, %d frames", BigExt, BigN, BigSize, Forms [fi].ch, Forms [fi].bits, Forms [fi].nf);
	check_reading (Img, ImgLen, 0);
}
static void reader_large (int unused)
{
	static const int nfs [] = { 8191, 32767, 32768, 65535, 65536, 65537, 70001 };
	int layout = mc_choose (11), ch = 1 + mc_choose (3), bits = mc_choose (2) ? 16 : 8, nf = nfs [mc_choose (N (nfs))];
	build (layout, ch, bits, nf);
	int cut = mc_choose (4), bytes = ch * bits / 8;
	if (cut == 1) ImgLen -= 1;
	if (cut == 2) ImgLen -= nf / 2 * bytes;
	if (cut == 3) ImgLen -= 1024 * bits / 8;
	mc_log ("layout %d, %d channels, %d bits, %d frames, cut %d", layout, ch, bits, nf, cut);
	check_reading (Img, ImgLen, 0);
}
static void reader_truncated (int big)
{
	int layout = mc_choose (11), fi = mc_choose (big ? N (Forms) : 7);
	long off = mc_choose (2) * 3;
	build (layout, Forms [fi].ch, Forms [fi].bits, Forms [fi].nf);
	int cut = mc_choose ((int) ImgLen + 1);
	mc_log ("layout %d, %d channels, %d bits, %d frames, cut after %d of %zu bytes", layout, Forms [fi].ch, Forms [fi].bits, Forms [fi].nf, cut, ImgLen);
	check_reading (Img, cut, off);
}
static void reader_byte (int unused)
{
	static const int form [] = { 1, 2, 4, 5 };
	int layout = mc_choose (11), fi = form [mc_choose (4)];
	size_t h = build (layout, Forms [fi].ch, Forms [fi].bits, Forms [fi].nf);
	int pos = mc_choose ((int) h + 2), val = mc_choose (256);
	mc_log ("layout %d, %d channels, %d bits, byte %d set to %d", layout, Forms [fi].ch, Forms [fi].bits, pos, val);
	Img [pos] = val;
	check_reading (Img, ImgLen, 0);
}
static const uint32_t FieldV [] = { 0, 1, 2, 3, 4, 7, 8, 15, 16, 17, 24, 36, 40, 44, 0x7f, 0x80, 0xff, 0x100, 0x7fff, 0x8000, 0xffff, 0x10000, 44100, 0x7ffffffe, 0x7fffffff, 0x80000000u, 0x80000001u, 0xfffffff0u, 0xfffffffdu, 0xfffffffeu, 0xffffffffu };
static const struct { int o, n; const char *name; } Fields [] = { { 4, 4, "riff size" }, { 16, 4, "fmt size" }, { 20, 2, "format" }, { 22, 2, "channels" }, { 24, 4, "rate" }, { 28, 4, "byte rate" }, { 32, 2, "block align" }, { 34, 2, "bits" }, { -4, 4, "data size" }, { -8, 4, "data id" } };
/* two header fields (or one field and the length of the file) are changed */
static void reader_fields (int thorough)
{
	static const int form [] = { 1, 2, 8, 5 };
	static const int lay [] = { 0, 3, 5, 9 };
	int layout = lay [mc_choose (thorough ? 4 : 2)], fi = form [mc_choose (thorough ? 4 : 3)];
	size_t h = build (layout, Forms [fi].ch, Forms [fi].bits, Forms [fi].nf);
	int a = mc_choose (N (Fields)), b = mc_choose (N (Fields) + 1);
	if (b <= a) mc_discard ();
	for (int k = 0; k < 2; k ++) {
		int f = k ? b : a;
		if (f == N (Fields)) {
			int c = mc_choose (6);
			ImgLen = c < 3 ? ImgLen - 1 - c : c == 3 ? h + 1 : c == 4 ? h : h - 1;
			mc_log ("file cut to %zu", ImgLen);
			continue;
		}
		uint32_t v = FieldV [mc_choose (N (FieldV))];
		uint8_t *p = Img + (Fields [f].o < 0 ? (long) h + Fields [f].o : Fields [f].o);
		if (Fields [f].n == 2) w16 (p, v); else w32 (p, v);
		mc_log ("%s = %u", Fields [f].name, v);
	}
	check_reading (Img, ImgLen, 0);
}
/* every header byte pair with boundary values */
static void reader_byte_pairs (int unused)
{
	static const uint8_t bv [] = { 0, 1, 2, 8, 16, 0x7f, 0x80, 0xff };
	int fi = (int []) { 1, 2 } [mc_choose (2)];
	size_t h = build (0, Forms [fi].ch, Forms [fi].bits, Forms [fi].nf);
	int a = mc_choose (h), b = mc_choose (h);
	if (b <= a) mc_discard ();
	Img [a] = bv [mc_choose (N (bv))]; Img [b] = bv [mc_choose (N (bv))];
	mc_log ("bytes %d = %d, %d = %d", a, Img [a], b, Img [b]);
	check_reading (Img, ImgLen, 0);
}
/* frame values */
static void reader_values (int unused)
{
	int bits = mc_choose (2) ? 8 : 16, hi = mc_choose (64);
	build (0, 1, bits, 1024);
	for (int i = 0; i < 1024; i ++) if (bits == 16) w16 (Img + 44 + 2 * i, hi * 1024 + i); else Img [44 + i] = i;
	mc_log ("%d bit frames, values %d ..", bits, hi * 1024);
	check_reading (Img, ImgLen, 0);
}
/* short arbitrary files made of tokens */
static void reader_tokens (int depth)
{
	static const struct { const char *b; int n; } tok [] = {
		{ "RIFF\x40\0\0\0WAVE", 12 }, { "fmt \x10\0\0\0", 8 }, { "\1\0\2\0\x44\xac\0\0\x10\xb1\2\0\4\0\x10\0", 16 }, { "data\x8\0\0\0", 8 }, { "\1\2\3\4\5\6\7\x88", 8 },
		{ "LIST\4\0\0\0abcd", 12 }, { "data\0\0\0\0", 8 }, { "\1\0\1\0\x44\xac\0\0\x44\xac\0\0\1\0\x8\0", 16 }, { "x", 1 }, { "fmt \x12\0\0\0", 8 }, { "JUNK\xff\xff\xff\xff", 8 }, { "data\xff\xff\xff\x7f", 8 } };
	size_t n = 0;
	for (int d = 0; d < depth; d ++) {
		int t = mc_choose (N (tok) + 1);
		if (t == N (tok)) break;
		memcpy (Img + n, tok [t].b, tok [t].n); n += tok [t].n;
		mc_log ("token %d", t);
	}
	check_reading (Img, n, 0);
}
static void reader_refused (int unused)
{
	int kind = mc_choose (2), p [2], fd;
	BKWaveFileReader rd;
	if (kind == 0) {
		fd = make_fd ();
		char path [64];
		snprintf (path, sizeof path, "/proc/self/fd/%d", fd);
		FILE *file = fopen (path, "w");
		if (!file) mc_discard ();
		mc_log ("reader on write only file");
		MC_CHECK (BKWaveFileReaderInit (&rd, file) == BK_FILE_NOT_READABLE_ERROR, "writeonly-accepted", "write only file was accepted");
		fclose (file); close (fd);
	} else {
		if (pipe (p)) mc_harness_error ("pipe");
		FILE *file = open_fd (p [0], "r");
		mc_log ("reader on pipe");
		MC_CHECK (BKWaveFileReaderInit (&rd, file) == BK_FILE_NOT_SEEKABLE_ERROR, "pipe-accepted", "pipe was accepted");
		BKData d;
		if (BKDataInit (&d)) mc_harness_error ("data");
		MC_CHECK (BKDataLoadWAVE (&d, file) < 0, "pipe-accepted", "pipe was accepted");
		BKDispose (&d);
		fclose (file); close (p [1]);
	}
	MC_CHECK (mc_heap_live == 0, "leak", "%ld blocks leaked", mc_heap_live);
	mc_eval (1); mc_trans (1); mc_state (kind);
}
static const McScenario Scen [] = {
	{ "C23", "history-3", writer_history, 3, MC_QUICK },
	{ "C23", "overwrite-4", writer_history, 14, MC_QUICK },
	{ "C23", "overwrite-5", writer_history, 15, MC_THOROUGH },
	{ "C23", "history-4", writer_history, 4, MC_THOROUGH },
	{ "C23", "large-1", writer_large, 1, MC_QUICK },
	{ "C23", "millions", writer_large, 0, MC_QUICK },
	{ "C23", "large-3", writer_large, 3, MC_THOROUGH },
	{ "C23", "values", writer_values, 0, MC_QUICK },
	{ "C23", "write-data", write_data, 0, MC_QUICK },
	{ "C23", "write-errors-2", writer_faults, 2, MC_QUICK },
	{ "C23", "write-errors-3", writer_faults, 3, MC_THOROUGH },
	{ "C23", "refused", writer_refused, 0, MC_QUICK },
	{ "C24", "valid", reader_valid, 0, MC_QUICK },
	{ "C24", "large", reader_large, 0, MC_QUICK },
	{ "C24", "chunks", reader_chunks, 0, MC_QUICK },
	{ "C24", "truncated", reader_truncated, 0, MC_QUICK },
	{ "C24", "truncated-large", reader_truncated, 1, MC_THOROUGH },
	{ "C24", "one-byte", reader_byte, 0, MC_QUICK },
	{ "C24", "two-fields", reader_fields, 0, MC_QUICK },
	{ "C24", "two-fields-all", reader_fields, 1, MC_THOROUGH },
	{ "C24", "two-bytes", reader_byte_pairs, 0, MC_THOROUGH },
	{ "C24", "values", reader_values, 0, MC_QUICK },
	{ "C24", "tokens-4", reader_tokens, 4, MC_QUICK },
	{ "C24", "tokens-6", reader_tokens, 6, MC_THOROUGH },
	{ "C24", "refused", reader_refused, 0, MC_QUICK },
};
static const McPropInfo Props [] = {
	{ "C23", "model_checking", "every execution is one history of calls; the written bytes are decoded independently and read back; states are distinct (format, length, outcome)",
	  "all histories of 3 (4) append/terminate/dispose operations over 8 block sizes x 6 offsets x 5 rates x 4 channel counts x 3 bit depths; histories of 4 (5) over files which were longer or shorter before (5 lengths); 1 (3) blocks of up to 131072 frames, one of up to 2^24 frames; all 2^16 frame values; every byte position at which the file cannot grow any more x 3 buffering modes",
	  "independent RIFF decoder in the harness; write errors are produced by the kernel (RLIMIT_FSIZE)" },
	{ "C24", "model_checking", "every execution is one file image; states are distinct (image, outcome) pairs",
	  "11 chunk layouts x 15 formats x 5 offsets; files of up to 70001 frames, whole and cut; up to 300 chunks and format extensions of up to 70001 bytes; every truncation; every header byte with all 256 values; all pairs of header fields with 31 boundary values (thorough: all byte pairs with 8 values); all files of 4 (6) tokens out of 12",
	  "independent RIFF decoder in the harness, AddressSanitizer, block accounting, 20 s hang limit" },
};
int main (int argc, char **argv) { return mc_main (argc, argv, Scen, N (Scen), Props, N (Props)); }
