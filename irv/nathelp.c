/* support for replaying counterexamples natively: allocation schedule and
   stand-ins for user callbacks; not part of the verified text */
#include <stdlib.h>
#include <stdio.h>
#include <string.h>
#include <stdint.h>
#include <malloc.h>

static unsigned char plan[4096];
static int planLen, planPos;
int vt_allocs, vt_frees;
static void * live [4096];
static int numLive;
static void * note (void * p) { if (p && numLive < 4096) live [numLive ++] = p; return p; }
static void forget (void * p) { for (int i = 0; i < numLive; i ++) if (live [i] == p) { live [i] = live [-- numLive]; break; } }
static void * gone [4096];
static int numGone;
static void went (void * p) { if (p && numGone < 4096) gone [numGone ++] = p; }
int vt_gone (void * p) { for (int i = 0; i < numGone; i ++) if (gone [i] == p) return 1; return 0; }
int vt_live (void * * out) { memcpy (out, live, sizeof (* live) * numLive); return numLive; }

void vt_plan (unsigned char const * p, int n) { memcpy (plan, p, n); planLen = n; planPos = numLive = numGone = 0; vt_allocs = vt_frees = 0; }
static int ok (void) { int i = planPos ++; return i < planLen ? plan [i] : 1; }
void * vt_malloc (size_t n) { if (!ok () || n > ((size_t) 1 << 31)) return NULL; vt_allocs ++; void * p = malloc (n ? n : 1); if (p) memset (p, 0xA5, n); return note (p); }
void * vt_calloc (size_t a, size_t b) { if (!ok () || a * b > ((size_t) 1 << 31)) return NULL; vt_allocs ++; return note (calloc (a, b)); }
void * vt_realloc (void * q, size_t n) { if (!ok () || n > ((size_t) 1 << 31)) return NULL; vt_allocs ++; void * p = malloc (n ? n : 1); if (p) { size_t m = q ? malloc_usable_size (q) : 0; memset (p, 0xA5, n); if (q) memcpy (p, q, m < n ? m : n); forget (q); went (q); free (q); } return note (p); }
void vt_free (void * p) { if (p) vt_frees ++; forget (p); went (p); free (p); }
void * vt_raw (size_t n) { return malloc (n); }
size_t vt_size (void * p) { return malloc_usable_size (p); }

// replaced by the contract which is checked; large enough for a jump
#define EXT(name) __attribute__ ((noinline)) long name (void) { fprintf (stderr, #name "\n"); abort (); return 0; }
EXT (vt_fwrite) EXT (vt_fread) EXT (vt_fseek) EXT (vt_ftell) EXT (vt_fflush) EXT (vt_fileno) EXT (vt_fcntl)
