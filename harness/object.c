/* The object model (C27): creation, dispatch and disposal of objects of any class. */
#include "BlipKit.h"
#include "mc.h"
#include <stdlib.h>
#include <string.h>
#define N(x) ((int) (sizeof (x) / sizeof *(x)))

typedef struct { BKObject object; BKInt attr, value; void *link; unsigned char body [1]; } Obj;
enum { Slots = 3, Room = 400, Canary = 0xc5 };

/* ------------------------------------------------------------ classes of the harness */
/* what the last dispatched call has seen */
static struct { int calls, kind; void const *obj; BKEnum attr; BKInt value; void const *ptr; BKSize size; BKInt ret; } Seen;
static int Disposals; static void *Disposed; static unsigned char Image [Room]; static size_t ImageSize;
static BKInt saw (int kind, void const *o, BKEnum a, BKInt v, void const *p, BKSize n)
{
	Seen.calls ++; Seen.kind = kind; Seen.obj = o; Seen.attr = a; Seen.value = v; Seen.ptr = p; Seen.size = n;
	return Seen.ret;
}
static BKInt on_set (void *o, BKEnum a, BKInt v) { return saw (0, o, a, v, NULL, 0); }
static BKInt on_get (void const *o, BKEnum a, BKInt *v) { *v = 4711; return saw (1, o, a, 0, v, 0); }
static BKInt on_setp (void *o, BKEnum a, void *p, BKSize n) { return saw (2, o, a, 0, p, n); }
static BKInt on_getp (void const *o, BKEnum a, void *p, BKSize n) { *(void **) p = &Seen; return saw (3, o, a, 0, p, n); }
static void on_dispose (void *o) { Disposals ++; Disposed = o; memcpy (Image, o, ImageSize); }

static BKClass const Class [] = {
	{ 0, sizeof (Obj), on_dispose, on_set, on_get, on_setp, on_getp },
	{ 0, sizeof (BKObject), NULL, NULL, NULL, NULL, NULL },
	{ 0, 300, NULL, on_set, NULL, NULL, on_getp },
	{ 0, sizeof (Obj) + 8, on_dispose, NULL, on_get, on_setp, NULL },
	{ 0, 0, on_dispose, on_set, on_get, on_setp, on_getp },
};
enum { Classes = 4, Empty = 4 };

/* ------------------------------------------------------------ model */
typedef struct { int cls, alloc; BKObject *p; size_t extra; unsigned flags; unsigned char img [Room]; } Slot;
static Slot S [Slots];
static unsigned char Mem [Slots] [Room] __attribute__ ((aligned (16)));
static unsigned char Snap [Room];
static long Live0;

static void check_slot (int i)
{
	Slot *s = &S [i];
	if (s->cls < 0) return;
	BKClass const *c = &Class [s->cls];
	MC_CHECK (s->p->isa == c, "class", "object %d: class changed", i);
	MC_CHECK ((s->p->flags & BKObjectFlagUsableMask) == s->flags, "flags", "object %d: private flags are %#x, set to %#x", i, s->p->flags & BKObjectFlagUsableMask, s->flags);
	MC_CHECK (s->p->flags & BKObjectFlagInitialized, "flags", "object %d: not marked as initialized", i);
	MC_CHECK (!(s->p->flags & BKObjectFlagAllocated) == !s->alloc, "flags", "object %d: %s", i, s->alloc ? "not marked as allocated" : "marked as allocated");
	MC_CHECK (!memcmp ((char *) s->p + sizeof (BKObject), s->img + sizeof (BKObject), c->instanceSize + s->extra - sizeof (BKObject)), "content", "object %d: content changed", i);
}
static void check_all (void)
{
	long live = 0;
	for (int i = 0; i < Slots; i ++) {
		check_slot (i);
		live += S [i].cls >= 0 && S [i].alloc;
		/* memory outside of an object in the caller's memory is not touched */
		size_t from = S [i].cls >= 0 && !S [i].alloc ? Class [S [i].cls].instanceSize : Room;
		for (size_t k = from; k < Room; k ++) MC_CHECK (Mem [i] [k] == Canary, "overflow", "memory behind object %d changed at %d", i, (int) k);
		mc_eval (1);
	}
	MC_CHECK (mc_heap_live - Live0 == live, "leak", "%ld blocks are allocated, %ld objects", mc_heap_live - Live0, live);
}
static void scribble (int i, int seed)
{
	Slot *s = &S [i];
	size_t n = Class [s->cls].instanceSize + s->extra;
	s->flags = seed * 0x5a5a5 & BKObjectFlagUsableMask;
	s->p->flags = (s->p->flags & BKObjectFlagMask) | s->flags;
	for (size_t k = sizeof (BKObject); k < n; k ++) s->img [k] = ((unsigned char *) s->p) [k] = (unsigned char) (seed * 31 + k * 7);
}
static void fresh (int i, int cls, int alloc, void *p, size_t extra)
{
	Slot *s = &S [i];
	s->cls = cls; s->alloc = alloc; s->p = p; s->extra = extra; s->flags = 0;
	memset (s->img, 0, sizeof s->img);
	for (size_t k = sizeof (BKObject); k < Class [cls].instanceSize; k ++) MC_CHECK (((unsigned char *) p) [k] == 0, "not-empty", "object %d is not empty at byte %d", i, (int) k);
	/* extra bytes are the caller's */
	for (size_t k = Class [cls].instanceSize; k < Class [cls].instanceSize + extra; k ++) s->img [k] = ((unsigned char *) p) [k] = (unsigned char) (k * 3 + 1);
}
static void dispose (int i)
{
	Slot *s = &S [i];
	int had = s->cls >= 0 && Class [s->cls].dispose, before = Disposals;
	if (s->cls < 0) {
		/* an object which is not (or no more) initialized, and nothing at all */
		mc_log ("dispose %s", i ? "NULL" : "empty memory");
		static Obj none;
		BKDispose (i ? NULL : (void *) &none);
		MC_CHECK (Disposals == before, "dispose", "the dispose function has been called for nothing");
		return;
	}
	mc_log ("dispose %d (class %d%s)", i, s->cls, s->alloc ? ", allocated" : "");
	size_t n = Class [s->cls].instanceSize;
	void *p = s->p;
	ImageSize = n;
	BKDispose (p);
	MC_CHECK (Disposals - before == had, "dispose", "object %d: the dispose function has been called %d times", i, Disposals - before);
	if (had) {
		MC_CHECK (Disposed == p, "dispose", "object %d: dispose of another object", i);
		MC_CHECK (((BKObject *) Image)->isa == &Class [s->cls] && (((BKObject *) Image)->flags & BKObjectFlagUsableMask) == s->flags && !memcmp (Image + sizeof (BKObject), s->img + sizeof (BKObject), n - sizeof (BKObject)),
			"dispose", "object %d: its dispose function sees a changed object", i);
	}
	s->cls = -1;
	if (s->alloc) return;
	for (size_t k = 0; k < n; k ++) MC_CHECK (((unsigned char *) p) [k] == 0, "not-emptied", "disposed object %d is not empty at byte %d", i, (int) k);
	/* once more does nothing */
	BKDispose (p);
	MC_CHECK (Disposals - before == had, "dispose-twice", "object %d is disposed twice", i);
	for (size_t k = 0; k < n; k ++) MC_CHECK (((unsigned char *) p) [k] == 0, "dispose-twice", "object %d changed", i);
	for (size_t k = n; k < Room; k ++) MC_CHECK (Mem [i] [k] == Canary, "overflow", "memory behind object %d changed at %d", i, (int) k);
	memset (Mem [i], Canary, Room);
}
static void dispatch (int i, int kind, int v)
{
	static BKEnum const A [] = { 0, BK_VOLUME, 0x7fffffff };
	static BKInt const V [] = { 0, -1, 0x7fffffff, -0x7fffffff - 1 };
	static BKInt const R [] = { 0, BK_INVALID_ATTRIBUTE, 5 };
	Slot *s = i < Slots ? &S [i] : NULL;
	void *o = s && s->cls >= 0 ? s->p : NULL;
	BKClass const *c = o ? &Class [s->cls] : NULL;
	BKInt x = 99; void *y = &x; BKInt ret;
	int has = c && (kind == 0 ? c->setAttr != NULL : kind == 1 ? c->getAttr != NULL : kind == 2 ? c->setPtr != NULL : c->getPtr != NULL);
	int before = Seen.calls;
	BKSize size = (BKSize []) { 0, 8, 0xfffffff }[v % 3];
	Seen.ret = R [v % 3];
	mc_log ("%s of %s", (const char *[]) { "BKSetAttr", "BKGetAttr", "BKSetPtr", "BKGetPtr" } [kind], o ? "object" : "NULL");
	switch (kind) {
		case 0: ret = BKSetAttr (o, A [v % 3], V [v % 4]); break;
		case 1: ret = BKGetAttr (o, A [v % 3], &x); break;
		case 2: ret = BKSetPtr (o, A [v % 3], v & 1 ? &x : NULL, size); break;
		default: ret = BKGetPtr (o, A [v % 3], &y, size); break;
	}
	if (!has) {
		MC_CHECK (ret == BK_INVALID_STATE, "dispatch", "returns %d where nothing can handle the call", ret);
		MC_CHECK (Seen.calls == before && x == 99 && y == &x, "dispatch", "a function of another kind is called");
		return;
	}
	MC_CHECK (Seen.calls == before + 1 && Seen.kind == kind, "dispatch", "function of class is called %d times", Seen.calls - before);
	MC_CHECK (ret == Seen.ret, "dispatch", "returns %d instead of %d", ret, Seen.ret);
	MC_CHECK (Seen.obj == o && Seen.attr == A [v % 3], "dispatch", "object or attribute differ");
	switch (kind) {
		case 0: MC_CHECK (Seen.value == V [v % 4], "dispatch", "value %d instead of %d", Seen.value, V [v % 4]); break;
		case 1: MC_CHECK (Seen.ptr == &x && x == 4711, "dispatch", "value is lost"); break;
		case 2: MC_CHECK (Seen.ptr == (v & 1 ? &x : NULL) && Seen.size == size, "dispatch", "pointer or size differ"); break;
		default: MC_CHECK (Seen.ptr == &y && y == &Seen && Seen.size == size, "dispatch", "pointer or size differ"); break;
	}
}
static void init (int i, int cls, int g)
{
	Slot *s = &S [i];
	if (s->cls >= 0 && s->alloc) mc_discard ();
	BKClass const *c = &Class [cls];
	static int const Guard [] = { 0, -1, 1, 8, -1000 };
	BKSize guard = g == 4 ? 0 : c->instanceSize + Guard [g];
	mc_log ("init %d with class %d, size %u", i, cls, guard);
	memcpy (Snap, Mem [i], Room);
	int before = Disposals;
	BKInt ret = BKObjectInit (Mem [i], c, guard);
	MC_CHECK (Disposals == before, "dispose", "initializing disposes");
	if (g) {
		MC_CHECK (ret == BK_ALLOCATION_ERROR, "guard", "returns %d for a wrong size", ret);
		MC_CHECK (!memcmp (Snap, Mem [i], Room), "guard", "memory of wrong size is changed");
		return;
	}
	MC_CHECK (ret == 0, "init", "returns %d", ret);
	MC_CHECK (!memcmp (Snap + c->instanceSize, Mem [i] + c->instanceSize, Room - c->instanceSize), "overflow", "memory behind object is changed");
	memset (Mem [i] + c->instanceSize, Canary, Room - c->instanceSize);
	fresh (i, cls, 0, Mem [i], 0);
}
static void alloc (int i, int cls, size_t extra, int fail)
{
	if (S [i].cls >= 0) mc_discard ();
	void *p = &p;
	mc_log ("alloc %d with class %d, %d bytes extra%s", i, cls, (int) extra, fail ? ", no memory" : "");
	if (fail) { mc_heap_failed = 0; mc_heap_fail_at = mc_heap_allocs; }
	BKInt ret = BKObjectAlloc (&p, &Class [cls], extra);
	mc_heap_fail_at = -1;
	if (cls == Empty || fail) {
		MC_CHECK (ret == BK_ALLOCATION_ERROR && p == NULL, "alloc-fail", "returns %d and %s", ret, p ? "an object" : "NULL");
		return;
	}
	MC_CHECK (ret == 0 && p && p != &p, "alloc", "returns %d", ret);
	fresh (i, cls, 1, p, extra);
}
static void nothing (int k)
{
	void *p = &p;
	mc_log ("call %d without object or class", k);
	memcpy (Snap, Mem [0], Room);
	switch (k) {
		case 0: MC_CHECK (BKObjectInit (NULL, &Class [0], Class [0].instanceSize) == BK_ALLOCATION_ERROR, "null", "NULL initialized"); break;
		case 1: MC_CHECK (BKObjectInit (Mem [0], NULL, 16) == BK_ALLOCATION_ERROR, "null", "initialized without class"); break;
		case 2: MC_CHECK (BKObjectAlloc (NULL, &Class [0], 0) == BK_ALLOCATION_ERROR, "null", "allocated to nowhere"); break;
		case 3: MC_CHECK (BKObjectAlloc (&p, NULL, 0) == BK_ALLOCATION_ERROR && p == NULL, "null", "allocated without class"); break;
	}
	MC_CHECK (!memcmp (Snap, Mem [0], Room), "null", "memory changed");
}
enum { ObjOps = 4 * 5 + 4 * 4 + Slots + Slots + (Slots + 1) * 4 + 4 };
static void history (int depth)
{
	memset (Mem, Canary, sizeof Mem);
	for (int i = 0; i < Slots; i ++) S [i].cls = -1;
	Seen.calls = Disposals = 0;
	mc_heap_fill = 0xee;
	Live0 = mc_heap_live;
	uint64_t h = 0;
	for (int d = 0; d < depth; d ++) {
		int o = mc_choose (ObjOps + 1), q = o;
		if (q < 20) init (d & 1 ? 1 : 0, q / 5, q % 5);
		else if ((q -= 20) < 16) alloc (q % 8 / 4 ? 2 : 1, q % 4, (size_t []) { 0, 1, 100, 16 } [(q + q / 8) % 4], q >= 8 && q % 8 >= 6);
		else if ((q -= 16) < Slots) dispose (q);
		else if ((q -= Slots) < Slots) { if (S [q].cls < 0) mc_discard (); mc_log ("write to object %d", q); scribble (q, d + 1); }
		else if ((q -= Slots) < (Slots + 1) * 4) dispatch (q / 4, q % 4, d + q);
		else if ((q -= (Slots + 1) * 4) < 4) nothing (q);
		else alloc (2, Empty, 8, 0);
		check_all ();
		mc_trans (1);
		h = mc_hash64 (h, o);
		h = 0;
		for (int i = 0; i < Slots; i ++) h = mc_hash64 (h, S [i].cls < 0 ? 0 : 1 + S [i].cls * 64 + S [i].alloc * 8 + (S [i].flags & 7) + S [i].extra * 1000);
		mc_state (h);
	}
	for (int i = 0; i < Slots; i ++) { dispose (i); check_all (); }
	MC_CHECK (mc_heap_live == Live0, "leak", "%ld blocks are left", mc_heap_live - Live0);
}

/* ------------------------------------------------------------ classes of the library */
enum { Ctx, Track, Data, Instr, Clock, Div, Kinds };
static const char *const Kind [] = { "context", "track", "data", "instrument", "clock", "divider" };
static size_t ksize (int k) { return (size_t []) { sizeof (BKContext), sizeof (BKTrack), sizeof (BKData), sizeof (BKInstrument), sizeof (BKClock), sizeof (BKDivider) } [k]; }
static BKInt knew (int k, void *mem, void **out)
{
	BKTime t = BKTimeMake (100, 7);
	switch (k) {
		case Ctx: return mem ? BKContextInit (mem, 2, 44100) : BKContextAlloc ((BKContext **) out, 2, 44100);
		case Track: return mem ? BKTrackInit (mem, BK_SQUARE) : BKTrackAlloc ((BKTrack **) out, BK_SQUARE);
		case Data: return mem ? BKDataInit (mem) : BKDataAlloc ((BKData **) out);
		case Instr: return mem ? BKInstrumentInit (mem) : BKInstrumentAlloc ((BKInstrument **) out);
		case Clock: return mem ? BKClockInit (mem, t, NULL) : BKClockAlloc ((BKClock **) out, t, NULL);
		default: return mem ? BKDividerInit (mem, 3, NULL) : BKDividerAlloc ((BKDivider **) out, 3, NULL);
	}
}
static int handles (int k, int f) { return k == Ctx || k == Track || k == Data ? 1 : 0; }
/* a little work for an object, so that it owns memory */
static void kuse (int k, void *o)
{
	static BKFrame f [40]; static BKInt v [3] = { 100, -100, 0 };
	switch (k) {
		case Ctx: { static BKFrame out [2 * 64]; BKContextGenerate (o, out, 64); break; }
		case Track: BKSetAttr (o, BK_VOLUME, 1000); break;
		case Data: BKDataSetFrames (o, f, 40, 1, 1); break;
		case Instr: BKInstrumentSetSequence (o, BK_SEQUENCE_PITCH, v, 3, 0, 3); break;
	}
}
static void library (int depth)
{
	static unsigned char mem [2] [32768] __attribute__ ((aligned (16)));
	int k = mc_choose (Kinds), cls [2] = { 0, 0 };
	void *p [2] = { NULL, NULL };
	size_t n = ksize (k);
	if (n + 64 > sizeof mem [0]) mc_harness_error ("object is too large");
	mc_heap_fill = 0xa7;
	memset (mem, Canary, sizeof mem);
	long live0 = mc_heap_live;
	mc_log ("objects of type %s", Kind [k]);
	for (int d = 0; d < depth; d ++) {
		int i = mc_choose (2), o = mc_choose (7);
		mc_log ("object %d: %s", i, (const char *[]) { "init", "alloc", "dispose", "use", "unknown attribute", "unknown pointer", "private flags" } [o]);
		if (o < 2) {
			if (cls [i]) mc_discard ();
			p [i] = o ? NULL : mem [i];
			MC_CHECK (knew (k, o ? NULL : mem [i], &p [i]) == 0 && p [i], "init", "%s cannot be created", Kind [k]);
			cls [i] = 1 + o;
		}
		else if (o == 2) {
			if (!cls [i]) BKDispose (i ? p [i] && p [i] == mem [i] ? p [i] : NULL : NULL);
			else BKDispose (p [i]);
			if (cls [i] == 1) {
				for (size_t b = 0; b < n; b ++) MC_CHECK (mem [i] [b] == 0, "not-emptied", "disposed %s is not empty at byte %d", Kind [k], (int) b);
				BKDispose (p [i]);
			}
			else p [i] = NULL;
			cls [i] = 0;
		}
		else if (!cls [i]) mc_discard ();
		else if (o == 3) kuse (k, p [i]);
		else if (o == 4 || o == 5) {
			BKInt x = 99, a, b; void *y = &x;
			if (o == 4) { a = BKSetAttr (p [i], 0x7fff, 1); b = BKGetAttr (p [i], 0x7fff, &x); }
			else { a = BKSetPtr (p [i], 0x7fff, &x, sizeof x); b = BKGetPtr (p [i], 0x7fff, &y, sizeof y); }
			BKInt want = handles (k, o) ? BK_INVALID_ATTRIBUTE : BK_INVALID_STATE;
			MC_CHECK (a == want && b == want, "unknown", "%s: unknown attribute returns %d and %d, not %d", Kind [k], a, b, want);
		}
		else {
			unsigned f = ((BKObject *) p [i])->flags;
			MC_CHECK ((f & BKObjectFlagInitialized) && !(f & BKObjectFlagAllocated) == (cls [i] == 1), "flags", "%s has flags %#x", Kind [k], f);
		}
		for (int j = 0; j < 2; j ++) for (size_t b = n; b < n + 64; b ++) MC_CHECK (mem [j] [b] == Canary, "overflow", "memory behind %s changed", Kind [k]);
		if (!cls [0] && !cls [1]) MC_CHECK (mc_heap_live == live0, "leak", "%ld blocks are left of %s", mc_heap_live - live0, Kind [k]);
		mc_trans (1); mc_eval (1);
		mc_state (mc_hash64 (k * 16 + cls [0] * 4 + cls [1], o));
	}
	for (int i = 0; i < 2; i ++) if (cls [i]) BKDispose (p [i]);
	MC_CHECK (mc_heap_live == live0, "leak", "%ld blocks are left of %s", mc_heap_live - live0, Kind [k]);
	mc_eval (1);
}

static const McScenario Scen [] = {
	{ "C27", "own-classes-3", history, 3, MC_QUICK },
	{ "C27", "own-classes-4", history, 4, MC_QUICK },
	{ "C27", "library-classes-5", library, 5, MC_QUICK },
	{ "C27", "own-classes-5", history, 5, MC_THOROUGH },
	{ "C27", "library-classes-6", library, 6, MC_THOROUGH },
};
static const McPropInfo Props [] = {
	{ "C27", "model_checking", "each execution is one history of operations on three (two) objects; states are distinct combinations of class, kind of memory, flags and extra size of all objects",
	  "4 classes with different sizes and functions (and an invalid one) x all histories of 4 (5) operations out of 63 on 3 objects; 6 classes of the library x all histories of 5 (6) operations out of 14 on 2 objects",
	  "plain model of the content and flags of each object, record of the calls received by the functions of the class, bytes around the objects, block accounting, AddressSanitizer" },
};
int main (int argc, char **argv) { return mc_main (argc, argv, Scen, N (Scen), Props, N (Props)); }
