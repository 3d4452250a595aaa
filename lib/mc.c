#define _GNU_SOURCE
#include "mc.h"
#include <errno.h>
#include <fcntl.h>
#include <pthread.h>
#include <setjmp.h>
#include <signal.h>
#include <stdatomic.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#define MAXCH   256
#define QCAP    8192
#define MAXW    16
#define HISTORY 48
#define SETBITS 23
#define MAXTAGS 512
#define MAXKNOWN 64

typedef struct { uint16_t scen, len; uint16_t ch [MAXCH]; } Prefix;

typedef struct {
	atomic_long start_ms;       /* 0: idle */
	Prefix cur;
	Prefix hist [HISTORY];
	uint32_t nhist;
	int failed, harness_error;
	char key [128];
	char msg [1024];
} Slot;

typedef struct {
	pthread_mutex_t lock;
	int qlen, idle, nworkers, stop;
	Prefix q [QCAP];
	Slot slot [MAXW];
	atomic_ullong execs, points, trans, evals, states, discards, known_hits;
	atomic_int known_seen [MAXKNOWN];
	atomic_ullong scen_execs [2048];
	int scen_pending [2048];      /* parts of the tree that are queued or being run */
	int expired;                  /* the time was up before everything had been run */
	int ntags;
	char tags [MAXTAGS][64];
	int nsamples;
	char samples [6][700];
	atomic_ullong set [1u << SETBITS];
} Shared;

static Shared *S;
static const McScenario *Scen;
static int NScen, Tier, Replaying, Me = -1, SampleLog;
static const char *Prop;
static char Known [MAXKNOWN][128];
static char KnownText [MAXKNOWN][400];
static int NKnown;
static jmp_buf Jmp;
static Prefix Path;             /* choices of the running execution */
static uint16_t Arity [MAXCH];
static int Pos, Forced;         /* position; number of forced choices */
static char LogBuf [60000];
static size_t LogLen;
static FILE *LogFile;

/* ------------------------------------------------------------------ heap */
long mc_heap_live, mc_heap_allocs, mc_heap_fail_at = -1;
int mc_heap_failed, mc_heap_fill = 0xa5;
size_t mc_heap_max_request, mc_heap_limit = (size_t) 256 << 20;
void *__real_malloc (size_t);
void *__real_calloc (size_t, size_t);
void *__real_realloc (void *, size_t);
void __real_free (void *);
char *__real_strdup (const char *);

void mc_heap_reset (void)
{
	mc_heap_live = mc_heap_allocs = 0;
	mc_heap_fail_at = -1;
	mc_heap_failed = 0;
	mc_heap_max_request = 0;
}
static int inject (size_t n)
{
	long i = mc_heap_allocs ++;
	if (n > mc_heap_max_request) mc_heap_max_request = n;
	if (i == mc_heap_fail_at) { mc_heap_failed = 1; return 1; }
	return n > mc_heap_limit;
}
/* blocks in use, so that an abandoned execution can give them back */
#define MAXBLOCKS 4096
static void *Block [MAXBLOCKS];
static int NBlock;
static void block_add (void *p) { if (NBlock < MAXBLOCKS) Block [NBlock ++] = p; }
static void block_drop (void *p) { for (int i = NBlock; i --;) if (Block [i] == p) { Block [i] = Block [-- NBlock]; return; } }
static void block_release (void) { while (NBlock) __real_free (Block [-- NBlock]); }
void *__wrap_malloc (size_t n)
{
	if (inject (n)) return NULL;
	void *p = __real_malloc (n);
	if (p) { mc_heap_live ++; memset (p, mc_heap_fill, n); block_add (p); }
	return p;
}
void *__wrap_calloc (size_t a, size_t b)
{
	if (inject (a * b)) return NULL;
	void *p = __real_calloc (a, b);
	if (p) { mc_heap_live ++; block_add (p); }
	return p;
}
void *__wrap_realloc (void *q, size_t n)
{
	if (inject (n)) return NULL;
	if (q) block_drop (q);
	void *p = __real_realloc (q, n);
	if (p && !q) mc_heap_live ++;
	if (p || n) block_add (p ? p : q);
	return p;
}
void __wrap_free (void *p)
{
	if (p) { mc_heap_live --; block_drop (p); }
	__real_free (p);
}
char *__wrap_strdup (const char *s)
{
	size_t n = strlen (s) + 1;
	char *p = __wrap_malloc (n);
	return p ? memcpy (p, s, n) : NULL;
}
int mc_rand_value = 0;
int __wrap_rand (void);
int __wrap_rand (void) { return mc_rand_value; }
void *mc_raw_malloc (size_t n) { return __real_malloc (n); }
void mc_raw_free (void *p) { __real_free (p); }

const char *__asan_default_options (void);
const char *__asan_default_options (void)
{
	return "detect_leaks=0:exitcode=99:abort_on_error=0:quarantine_size_mb=4:"
	       "allocator_may_return_null=1:malloc_context_size=8:handle_abort=1";
}
const char *__ubsan_default_options (void);
const char *__ubsan_default_options (void) { return "halt_on_error=1:exitcode=99:print_stacktrace=1"; }

/* --------------------------------------------------------------- helpers */
static long now_ms (void)
{
	struct timespec t;
	clock_gettime (CLOCK_MONOTONIC, &t);
	return t.tv_sec * 1000 + t.tv_nsec / 1000000;
}
/* time of the processor a child has taken */
static long cpu_ms (pid_t pid)
{
	clockid_t c;
	struct timespec t;
	if (clock_getcpuclockid (pid, &c) || clock_gettime (c, &t)) return 0;
	return t.tv_sec * 1000 + t.tv_nsec / 1000000;
}
uint64_t mc_hash64 (uint64_t h, uint64_t v)
{
	h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
	h *= 0xff51afd7ed558ccdull;
	return h ^ (h >> 32);
}
uint64_t mc_hash (uint64_t h, const void *p, size_t n)
{
	const unsigned char *b = p;
	while (n >= 8) { uint64_t v; memcpy (&v, b, 8); h = mc_hash64 (h, v); b += 8; n -= 8; }
	uint64_t v = n; while (n) v = (v << 8) | b [-- n];
	return mc_hash64 (h, v);
}
void mc_state (uint64_t h)
{
	if (!h) h = 1;
	uint32_t mask = (1u << SETBITS) - 1, i = (uint32_t) (h >> 20) & mask;
	for (int k = 0; k < 64; k ++, i = (i + 1) & mask) {
		unsigned long long cur = atomic_load_explicit (&S->set [i], memory_order_relaxed);
		if (cur == h) return;
		if (cur == 0) {
			if (atomic_compare_exchange_strong (&S->set [i], &cur, h)) { atomic_fetch_add (&S->states, 1); return; }
			if (cur == h) return;
		}
	}
}
static uint64_t LTrans, LEvals;
void mc_trans (uint64_t n) { LTrans += n; }
void mc_eval (uint64_t n) { LEvals += n; }
int mc_tier (void) { return Tier; }
int mc_replaying (void) { return Replaying; }
void mc_cover (const char *fmt, ...)
{
	char t [64];
	va_list a; va_start (a, fmt); vsnprintf (t, sizeof t, fmt, a); va_end (a);
	int n = *(volatile int *) &S->ntags;
	for (int i = 0; i < n; i ++) if (!strcmp (S->tags [i], t)) return;
	pthread_mutex_lock (&S->lock);
	for (int i = 0; i < S->ntags; i ++) if (!strcmp (S->tags [i], t)) goto out;
	if (S->ntags < MAXTAGS) { strcpy (S->tags [S->ntags], t); S->ntags ++; }
out:
	pthread_mutex_unlock (&S->lock);
}
void mc_log (const char *fmt, ...)
{
	va_list a;
	if (LogFile) { va_start (a, fmt); vfprintf (LogFile, fmt, a); va_end (a); fputc ('\n', LogFile); fflush (LogFile); }
	else if (SampleLog && LogLen < 640) {
		va_start (a, fmt);
		int n = vsnprintf (LogBuf + LogLen, sizeof LogBuf - LogLen - 2, fmt, a);
		va_end (a);
		if (n > 0) { LogLen += n; LogBuf [LogLen ++] = ';'; LogBuf [LogLen ++] = ' '; LogBuf [LogLen] = 0; }
	}
}
int mc_choose (int n)
{
	if (n < 1 || n > 65535) mc_harness_error ("mc_choose(%d)", n);
	if (Pos >= MAXCH) mc_harness_error ("execution too deep");
	int c;
	if (Pos < Forced) {
		c = Path.ch [Pos];
		if (c >= n) mc_harness_error ("replay diverged at choice %d (%d of %d)", Pos, c, n);
		if (Pos < Path.len && Arity [Pos] && Arity [Pos] != n)
			mc_harness_error ("replay diverged at choice %d: arity %d, was %d", Pos, n, Arity [Pos]);
	} else c = 0;
	Arity [Pos] = n;
	Path.ch [Pos] = c;
	if (Me >= 0) { S->slot [Me].cur.ch [Pos] = c; S->slot [Me].cur.len = Pos + 1; }
	Pos ++;
	return c;
}
void mc_fail (const char *key, const char *fmt, ...)
{
	char m [1024];
	va_list a; va_start (a, fmt); vsnprintf (m, sizeof m, fmt, a); va_end (a);
	for (int i = 0; i < NKnown; i ++)
		if (!strcmp (Known [i], key)) {
			atomic_fetch_add (&S->known_hits, 1);
			atomic_store (&S->known_seen [i], 1);
			mc_log ("known finding: %s (%s)", key, m);
			longjmp (Jmp, 3);
		}
	Slot *s = &S->slot [Me];
	snprintf (s->key, sizeof s->key, "%s", key);
	snprintf (s->msg, sizeof s->msg, "%s", m);
	s->failed = 1;
	mc_log ("FAIL [%s] %s", key, m);
	_exit (42);
}
void mc_harness_error (const char *fmt, ...)
{
	char m [1024];
	va_list a; va_start (a, fmt); vsnprintf (m, sizeof m, fmt, a); va_end (a);
	if (Me >= 0) {
		snprintf (S->slot [Me].msg, sizeof S->slot [Me].msg, "%s", m);
		S->slot [Me].harness_error = 1;
	}
	fprintf (stderr, "HARNESS ERROR: %s\n", m);
	_exit (43);
}
void mc_discard (void) { longjmp (Jmp, 2); }

/* run one execution with the first `forced` choices fixed by Path */
static void run_one (void)
{
	Slot *s = &S->slot [Me];
	Pos = 0;
	LogLen = 0; LogBuf [0] = 0;
	s->cur.scen = Path.scen; s->cur.len = 0;
	atomic_store (&s->start_ms, now_ms ());
	mc_heap_reset ();
	int r = setjmp (Jmp);
	if (r == 0) {
		Scen [Path.scen].run (Scen [Path.scen].param);
	}
	atomic_store (&s->start_ms, 0);
	if (r) block_release ();            /* abandoned half way */
	NBlock = 0;
	if (Pos < Forced) mc_harness_error ("replay diverged: execution ended at choice %d of %d", Pos, Forced);
	Path.len = Pos;
	if (r == 2) atomic_fetch_add (&S->discards, 1);
	else if (r == 0) {
		atomic_fetch_add (&S->execs, 1);
		atomic_fetch_add (&S->scen_execs [Path.scen], 1);
	}
	atomic_fetch_add (&S->points, Pos);
	atomic_fetch_add (&S->trans, LTrans); LTrans = 0;
	atomic_fetch_add (&S->evals, LEvals); LEvals = 0;
	s->hist [s->nhist ++ % HISTORY] = Path;
	if (SampleLog && r == 0) {
		pthread_mutex_lock (&S->lock);
		if (S->nsamples < 6) snprintf (S->samples [S->nsamples ++], sizeof S->samples [0], "%s: %s", Scen [Path.scen].name, LogBuf);
		pthread_mutex_unlock (&S->lock);
		SampleLog = 0;
	}
}

static int q_pop (Prefix *out)
{
	int waiting = 0;
	for (;;) {
		pthread_mutex_lock (&S->lock);
		if (S->stop) { pthread_mutex_unlock (&S->lock); return 0; }
		if (S->qlen) {
			*out = S->q [-- S->qlen];
			if (waiting) S->idle --;
			pthread_mutex_unlock (&S->lock);
			return 1;
		}
		if (!waiting) { waiting = 1; S->idle ++; }
		if (S->idle == S->nworkers) { S->stop = 1; pthread_mutex_unlock (&S->lock); return 0; }
		pthread_mutex_unlock (&S->lock);
		usleep (300);
	}
}

static void worker (void)
{
	Prefix p;
	unsigned long n = 0;
	while (q_pop (&p)) {
		int fixed = p.len;
		Path = p;
		Forced = fixed;
		memset (Arity, 0, sizeof Arity);
		for (;;) {
			unsigned long e = n ++;
			SampleLog = (e == 0 || e == 37 || e == 501) && S->nsamples < 6;
			run_one ();
			if (*(volatile int *) &S->stop) return;
			/* give away work if somebody is idle */
			if (*(volatile int *) &S->idle && *(volatile int *) &S->qlen < S->nworkers) {
				pthread_mutex_lock (&S->lock);
				int i = fixed;
				while (i < Path.len && Path.ch [i] + 1 >= Arity [i]) i ++;
				if (i < Path.len && S->qlen + (Arity [i] - Path.ch [i]) < QCAP) {
					for (int c = Arity [i] - 1; c > Path.ch [i]; c --) {
						Prefix *d = &S->q [S->qlen ++];
						S->scen_pending [Path.scen] ++;
						d->scen = Path.scen; d->len = i + 1;
						memcpy (d->ch, Path.ch, sizeof (uint16_t) * i);
						d->ch [i] = c;
					}
					fixed = i + 1;
				}
				pthread_mutex_unlock (&S->lock);
			}
			/* next path in depth-first order */
			int i = Path.len - 1;
			while (i >= fixed && Path.ch [i] + 1 >= Arity [i]) i --;
			if (i < fixed) break;
			Path.ch [i] ++;
			Forced = i + 1;
			memset (Arity + i + 1, 0, sizeof (uint16_t) * (MAXCH - i - 1));
		}
		pthread_mutex_lock (&S->lock);
		S->scen_pending [p.scen] --;
		pthread_mutex_unlock (&S->lock);
	}
}

/* child: run the given paths in order, the last one is the one of interest */
static int replay_child (const Prefix *paths, int n, const char *logpath, int limit_s)
{
	memset (&S->slot [MAXW - 1], 0, sizeof (Slot));
	pid_t pid = fork ();
	if (pid == 0) {
		Me = MAXW - 1;
		int fd = open (logpath, O_WRONLY | O_CREAT | O_APPEND, 0644);
		dup2 (fd, 2);
		for (int i = 0; i < n; i ++) {
			if (i == n - 1) { LogFile = fdopen (fd, "a"); Replaying = 1; }
			Path = paths [i];
			Forced = Path.len;
			memset (Arity, 0, sizeof Arity);
			run_one ();
		}
		_exit (0);
	}
	long t0 = now_ms ();
	int st;
	for (;;) {
		pid_t r = waitpid (pid, &st, WNOHANG);
		if (r == pid) break;
		if (cpu_ms (pid) > limit_s * 1000L || now_ms () - t0 > limit_s * 5000L) {
			kill (pid, SIGKILL);
			waitpid (pid, &st, 0);
			return 2;           /* hang */
		}
		usleep (2000);
	}
	if (WIFEXITED (st) && WEXITSTATUS (st) == 0) return 0;
	if (WIFEXITED (st) && WEXITSTATUS (st) == 43) return 3;
	return 1;
}

static void jstr (FILE *f, const char *s)
{
	fputc ('"', f);
	for (; *s; s ++) {
		unsigned char c = *s;
		if (c == '"' || c == '\\') fprintf (f, "\\%c", c);
		else if (c < 0x20 || c > 0x7e) fprintf (f, "\\u%04x", c);
		else fputc (c, f);
	}
	fputc ('"', f);
}

static void load_known (const char *path)
{
	FILE *f = fopen (path, "r");
	char line [1024];
	if (!f) return;
	while (fgets (line, sizeof line, f)) {
		char id [16], key [128];
		int off = 0;
		line [strcspn (line, "\n")] = 0;
		if (sscanf (line, "known: property=%15s key=%127s %n", id, key, &off) >= 2 && off && !strcmp (id, Prop) && NKnown < MAXKNOWN) {
			snprintf (Known [NKnown], sizeof Known [0], "%s", key);
			snprintf (KnownText [NKnown], sizeof KnownText [0], "%s", line + off);
			NKnown ++;
		}
	}
	fclose (f);
}

int mc_main (int argc, char **argv, const McScenario *scen, int nscen, const McPropInfo *props, int nprops)
{
	const char *evidence = NULL, *replaydir = ".", *known = NULL, *replay = NULL, *only = NULL;
	int nw = 8, hang_s = 20, limit_s = 0;
	Tier = MC_QUICK;
	for (int i = 1; i < argc; i ++) {
		if (!strcmp (argv [i], "--prop")) Prop = argv [++ i];
		else if (!strcmp (argv [i], "--tier")) Tier = strcmp (argv [++ i], "thorough") ? MC_QUICK : MC_THOROUGH;
		else if (!strcmp (argv [i], "--evidence")) evidence = argv [++ i];
		else if (!strcmp (argv [i], "--replaydir")) replaydir = argv [++ i];
		else if (!strcmp (argv [i], "--known")) known = argv [++ i];
		else if (!strcmp (argv [i], "--replay")) replay = argv [++ i];
		else if (!strcmp (argv [i], "--only")) only = argv [++ i];
		else if (!strcmp (argv [i], "--limit")) limit_s = atoi (argv [++ i]);
		else if (!strcmp (argv [i], "--jobs")) nw = atoi (argv [++ i]);
		else { fprintf (stderr, "bad argument %s\n", argv [i]); return 2; }
	}
	if (!Prop) { fprintf (stderr, "--prop missing\n"); return 2; }
	Scen = scen; NScen = nscen;
	if (nw > MAXW - 1) nw = MAXW - 1;
	const McPropInfo *info = NULL;
	for (int i = 0; i < nprops; i ++) if (!strcmp (props [i].prop, Prop)) info = &props [i];
	if (!info) { fprintf (stderr, "unknown property %s\n", Prop); return 2; }

	S = mmap (NULL, sizeof (Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	if (S == MAP_FAILED) { perror ("mmap"); return 2; }
	pthread_mutexattr_t ma;
	pthread_mutexattr_init (&ma);
	pthread_mutexattr_setpshared (&ma, PTHREAD_PROCESS_SHARED);
	pthread_mutex_init (&S->lock, &ma);
	if (known) load_known (known);

	if (replay) {
		FILE *f = fopen (replay, "r");
		char line [8192], name [256] = "";
		static Prefix paths [HISTORY + 1];
		int n = 0;
		if (!f) { perror (replay); return 2; }
		while (fgets (line, sizeof line, f)) {
			if (!strncmp (line, "path ", 5)) {
				int off = 0;
				Prefix *p = &paths [n ++];
				sscanf (line, "path %255s%n", name, &off);
				p->scen = 65535;
				for (int i = 0; i < nscen; i ++) if (!strcmp (scen [i].prop, Prop) && !strcmp (scen [i].name, name)) p->scen = i;
				if (p->scen == 65535) { fprintf (stderr, "unknown scenario %s\n", name); return 2; }
				char *q = line + off; int v, k;
				p->len = 0;
				while (sscanf (q, "%d%n", &v, &k) == 1) { p->ch [p->len ++] = v; q += k; }
			}
		}
		fclose (f);
		if (!n) return 2;
		char tmp [] = "/tmp/mc_replay_XXXXXX";
		int fd = mkstemp (tmp);
		close (fd);
		int r = replay_child (paths, n, tmp, 60);
		f = fopen (tmp, "r");
		while (f && fgets (line, sizeof line, f)) fputs (line, stdout);
		unlink (tmp);
		printf ("replay result: %s\n", r == 0 ? "passes" : r == 1 ? "fails" : r == 2 ? "hangs" : "harness error");
		return r == 0 ? 0 : r == 3 ? 2 : 1;
	}

	int total = 0;
	for (int t = Tier; t >= MC_QUICK; t --) for (int i = nscen - 1; i >= 0; i --) {
		if (strcmp (scen [i].prop, Prop)) continue;
		if (scen [i].tier != t) continue;
		if (only && !strstr (scen [i].name, only)) continue;
		S->q [S->qlen].scen = i; S->q [S->qlen ++].len = 0;
		S->scen_pending [i] = 1;
		total ++;
	}
	if (!limit_s) limit_s = Tier == MC_QUICK ? 800 : 3600;
	if (!total) { fprintf (stderr, "no scenario for %s\n", Prop); return 2; }
	/* reverse so that the listed order is popped first */
	long t0 = now_ms ();
	pid_t pid [MAXW];
	int alive [MAXW];
	char errpath [MAXW][300];
	S->nworkers = nw;
	fflush (NULL);
	for (int w = 0; w < nw; w ++) {
		snprintf (errpath [w], sizeof errpath [w], "%s/.err.%s.%d.%d", replaydir, Prop, (int) getpid (), w);
		pid [w] = fork ();
		if (pid [w] == 0) {
			Me = w;
			prctl (PR_SET_PDEATHSIG, SIGKILL);
			int fd = open (errpath [w], O_WRONLY | O_CREAT | O_TRUNC, 0644);
			dup2 (fd, 2); close (fd);
			worker ();
			_exit (0);
		}
		alive [w] = 1;
	}
	int left = nw, bad = -1, badkind = 0;
	static long seen [MAXW], cpu [MAXW];
	while (left && bad < 0) {
		int st;
		for (int w = 0; w < nw && bad < 0; w ++) {
			if (!alive [w]) continue;
			if (waitpid (pid [w], &st, WNOHANG) == pid [w]) {
				alive [w] = 0; left --;
				if (!(WIFEXITED (st) && WEXITSTATUS (st) == 0)) {
					bad = w;
					badkind = (WIFEXITED (st) && WEXITSTATUS (st) == 43) ? 3 : 1;
				}
				continue;
			}
			/* an execution hangs if it has taken that much time of the processor, or ten times as much time in all */
			long sm = atomic_load (&S->slot [w].start_ms), used = cpu_ms (pid [w]);
			if (sm != seen [w]) { seen [w] = sm; cpu [w] = used; }
			if (sm && ((now_ms () - sm > hang_s * 1000L && used - cpu [w] > hang_s * 1000L) || now_ms () - sm > hang_s * 10000L)) { bad = w; badkind = 2; }
		}
		if (!S->expired && now_ms () - t0 > limit_s * 1000L) { S->expired = 1; S->stop = 1; }
		usleep (3000);
	}
	for (int w = 0; w < nw; w ++) if (alive [w]) { kill (pid [w], SIGKILL); waitpid (pid [w], NULL, 0); }

	int violation = 0;
	if (bad >= 0 && badkind == 3) {
		fprintf (stderr, "harness error: %s\n", S->slot [bad].msg);
		return 2;
	}
	if (bad >= 0) {
		static Slot s;
		s = S->slot [bad];
		char rp [400], lp [400];
		snprintf (rp, sizeof rp, "%s/%s.replay", replaydir, Prop);
		snprintf (lp, sizeof lp, "%s/%s.replay.log", replaydir, Prop);
		static Prefix paths [HISTORY + 1];
		int tries [] = { 0, 1, 4, 16, HISTORY - 1 }, r = 0, n = 0;
		for (unsigned t = 0; t < sizeof tries / sizeof *tries; t ++) {
			int k = tries [t];
			if (k > (int) s.nhist) k = s.nhist;
			n = 0;
			for (int i = k; i > 0; i --) paths [n ++] = s.hist [(s.nhist - i) % HISTORY];
			paths [n ++] = s.cur;
			unlink (lp);
			r = replay_child (paths, n, lp, 60);
			if (r == 1 || r == 2) break;
			if (k < tries [t]) break;
		}
		if (r == 3) { fprintf (stderr, "harness error while replaying: %s\n", S->slot [MAXW - 1].msg); return 2; }
		if (r == 0 && badkind == 2) {
			/* slow machine: not a hang when run alone.  No verdict. */
			fprintf (stderr, "an execution exceeded %d s but passes alone: no verdict\n", hang_s);
			return 2;
		}
		if (r == 0) { fprintf (stderr, "failure of worker does not replay (%s): no verdict\n", s.msg); return 2; }
		FILE *f = fopen (rp, "w");
		if (!f) { perror (rp); return 2; }
		fprintf (f, "property %s\n", Prop);
		for (int i = 0; i < n; i ++) {
			fprintf (f, "path %s", scen [paths [i].scen].name);
			for (int k = 0; k < paths [i].len; k ++) fprintf (f, " %d", paths [i].ch [k]);
			fputc ('\n', f);
		}
		Slot *rs = &S->slot [MAXW - 1];
		if (r == 2) fprintf (f, "result: does not terminate within 60 s\n");
		else if (rs->failed) fprintf (f, "result: [%s] %s\n", rs->key, rs->msg);
		else fprintf (f, "result: crash (see log)\n");
		fprintf (f, "--- trace ---\n");
		FILE *l = fopen (lp, "r");
		char line [2048];
		for (int k = 0; l && k < 400 && fgets (line, sizeof line, l); k ++) fputs (line, f);
		if (l) fclose (l);
		fclose (f);
		unlink (lp);
		printf ("VIOLATION property=%s replay=%s\n", Prop, rp);
		printf ("  scenario %s: %s\n", scen [s.cur.scen].name, r == 2 ? "does not terminate" : rs->failed ? rs->msg : "crash");
		violation = 1;
	}
	for (int w = 0; w < nw; w ++) unlink (errpath [w]);
	for (int i = 0; i < NKnown; i ++)
		if (S->known_seen [i]) printf ("KNOWN-FINDING: property=%s %s\n", Prop, KnownText [i]);

	double wall = (now_ms () - t0) / 1000.0;
	if (evidence) {
		FILE *f = fopen (evidence, "w");
		if (!f) { perror (evidence); return 2; }
		fprintf (f, "{\n \"property\": \"%s\",\n \"tier\": \"%s\",\n \"seed\": %s,\n \"level\": \"%s\",\n \"coverage\": {\n",
			Prop, Tier == MC_QUICK ? "quick" : "thorough", getenv ("VERIF_SEED") && *getenv ("VERIF_SEED") ? getenv ("VERIF_SEED") : "1", info->level);
		if (!strcmp (info->level, "model_checking"))
			fprintf (f, "  \"states\": %llu,\n  \"transitions\": %llu,\n  \"traces_validated_against_impl\": %llu,\n  \"oracle_comparisons\": %llu,\n",
				(unsigned long long) S->states, (unsigned long long) S->trans, (unsigned long long) S->execs, (unsigned long long) S->evals);
		else
			fprintf (f, "  \"evaluations\": %llu,\n  \"distinct_nontrivial\": %llu,\n  \"executions\": %llu,\n  \"operations\": %llu,\n",
				(unsigned long long) S->evals, (unsigned long long) S->states, (unsigned long long) S->execs, (unsigned long long) S->trans);
		fprintf (f, "  \"choice_points\": %llu,\n  \"infeasible_paths\": %llu,\n", (unsigned long long) S->points, (unsigned long long) S->discards);
		fprintf (f, "  \"exhaustive\": %s,\n", violation || S->expired ? "false" : "true");
		fprintf (f, "  \"not_finished\": [");
		for (int i = 0, k = 0; i < nscen; i ++) if (S->scen_pending [i] && !violation) { fprintf (f, "%s", k ++ ? ", " : ""); jstr (f, scen [i].name); }
		fprintf (f, "],\n  \"rule\": "); jstr (f, info->rule);
		fprintf (f, ",\n  \"bounds\": "); jstr (f, info->bounds);
		fprintf (f, ",\n  \"oracle\": "); jstr (f, info->oracle);
		fprintf (f, ",\n  \"scenarios\": {");
		int first = 1;
		for (int i = 0; i < nscen; i ++) if (S->scen_execs [i]) {
			fprintf (f, "%s\n   ", first ? "" : ","); jstr (f, scen [i].name);
			fprintf (f, ": %llu", (unsigned long long) S->scen_execs [i]); first = 0;
		}
		fprintf (f, "\n  },\n  \"outcomes\": [");
		for (int i = 0; i < S->ntags; i ++) { fprintf (f, "%s", i ? ", " : ""); jstr (f, S->tags [i]); }
		fprintf (f, "],\n  \"samples\": [");
		for (int i = 0; i < S->nsamples; i ++) { fprintf (f, "%s\n   ", i ? "," : ""); jstr (f, S->samples [i]); }
		fprintf (f, "\n  ]\n },\n \"wall_s\": %.2f,\n \"violations\": %d\n}\n", wall, violation);
		fclose (f);
	}
	printf ("%s %s: %llu executions, %llu operations, %llu evaluations, %llu distinct states, %.1f s%s\n", Prop,
		Tier == MC_QUICK ? "quick" : "thorough", (unsigned long long) S->execs, (unsigned long long) S->trans,
		(unsigned long long) S->evals, (unsigned long long) S->states, wall, violation ? " (VIOLATED)" : "");
	if (S->expired && !violation) {
		printf ("  time limit of %d s: not finished:", limit_s);
		for (int i = 0; i < nscen; i ++) if (S->scen_pending [i]) printf (" %s", scen [i].name);
		printf ("\n");
	}
	return violation;
}
