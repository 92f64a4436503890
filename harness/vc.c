/*
 * vc: monitors of the containers.  vc KIND SEED COUNT OPS runs COUNT random
 * histories of OPS operations on the real container next to a plain model;
 * prints "VIOL <what>" and exits with 1 at the first difference, otherwise
 * "OK <operations> <checks>".  Run under ASan/UBSan.
 */
#define _GNU_SOURCE
#include <buzz/buzzdarray.h>
#include <buzz/buzzdict.h>
#include <buzz/buzzset.h>
#include <buzz/buzzstrman.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <inttypes.h>

static uint64_t RS;
static uint32_t rnd(uint32_t n) {
   RS = RS * 6364136223846793005ULL + 1442695040888963407ULL;
   return n ? (uint32_t)((RS >> 33) % n) : 0;
}
static uint64_t NOPS, NCHK;
static uint64_t SEED; static int STEP;
static void viol(const char* f, ...) {
   va_list a; va_start(a, f);
   printf("VIOL history %" PRIu64 " operation %d: ", SEED, STEP);
   vprintf(f, a); printf("\n"); fflush(stdout);
   _Exit(1);
}
#define CHK(c, ...) do { ++NCHK; if(!(c)) viol(__VA_ARGS__); } while(0)

/* ---- dynamic arrays ---- */

#define MAXE 4096
struct marr { uint8_t d[MAXE][32]; int n; };
static uint32_t DEST[65536]; static int NDEST; static uint8_t DESTV[MAXE * 2][32];
static uint32_t ES;
static void da_dest(uint32_t pos, void* data, void* p) {
   if(NDEST < MAXE * 2) memcpy(DESTV[NDEST], data, ES);
   ++NDEST;
}
static int da_cmp(const void* a, const void* b) { return memcmp(a, b, ES); }
static struct marr* FE; static int FEN;
static void da_each(uint32_t pos, void* data, void* p) {
   if(p != &FEN) viol("foreach passes a wrong parameter");
   if((int)pos != FEN || FEN >= FE->n || memcmp(data, FE->d[FEN], ES)) viol("foreach visits a wrong element at %u", pos);
   ++FEN;
}
static void da_check(buzzdarray_t a, struct marr* m) {
   CHK(buzzdarray_size(a) == m->n, "size %" PRId64 ", expected %d", (int64_t)buzzdarray_size(a), m->n);
   CHK(buzzdarray_isempty(a) == (m->n == 0), "isempty");
   CHK(buzzdarray_capacity(a) >= (uint32_t)m->n, "the capacity is smaller than the size");
   for(int i = 0; i < m->n; ++i)
      CHK(!memcmp((uint8_t*)a->data + (size_t)i * ES, m->d[i], ES), "element %d differs", i);
}
static void da_expect_dest(uint8_t (*e)[32], int n) {
   CHK(NDEST == n, "%d elements destroyed, expected %d", NDEST, n);
   for(int i = 0; i < n; ++i) CHK(!memcmp(DESTV[i], e[i], ES), "a wrong element was destroyed (%d)", i);
   NDEST = 0;
}
static void run_darray(int ops) {
   static const uint32_t SZ[] = {1, 2, 4, 8, 12, 16, 24};
   ES = SZ[rnd(7)];
   static struct marr M;
   memset(&M, 0, sizeof(M));
   NDEST = 0;
   int dst = rnd(4) != 0;
   int big = rnd(3) ? 40 : 1500;
   buzzdarray_t a = buzzdarray_new(1 + rnd(5), ES, dst ? da_dest : NULL);
   for(STEP = 0; STEP < ops; ++STEP) {
      ++NOPS;
      uint8_t v[32];
      for(int i = 0; i < 32; ++i) v[i] = rnd(rnd(2) ? 3 : 256);
      uint32_t op = rnd(20);
      if(M.n >= big && op < 8) op = 8 + rnd(4);
      if(op < 5) { buzzdarray_push(a, v); memcpy(M.d[M.n++], v, 32); }
      else if(op < 8) {
         int p = rnd(M.n + 1);
         buzzdarray_insert(a, p, v);
         memmove(M.d[p+1], M.d[p], (size_t)(M.n - p) * 32); memcpy(M.d[p], v, 32); ++M.n;
      }
      else if(op < 10) {
         int p = rnd(M.n + 2);
         buzzdarray_remove(a, p);
         if(p < M.n) {
            if(dst) { uint8_t e[1][32]; memcpy(e[0], M.d[p], 32); da_expect_dest(e, 1); }
            memmove(M.d[p], M.d[p+1], (size_t)(M.n - p - 1) * 32); --M.n;
         }
         else if(dst) da_expect_dest(NULL, 0);
      }
      else if(op < 12) {
         if(M.n) {
            buzzdarray_pop(a);
            --M.n;
            if(dst) { uint8_t e[1][32]; memcpy(e[0], M.d[M.n], 32); da_expect_dest(e, 1); }
         }
      }
      else if(op < 14) {
         int p = rnd(M.n + 1);
         buzzdarray_set(a, p, v);
         memcpy(M.d[p], v, 32);
         if(p == M.n) ++M.n;
      }
      else if(op == 14 && rnd(8) == 0) {
         buzzdarray_clear(a, 1 + rnd(20));
         if(dst) da_expect_dest(M.d, M.n);
         M.n = 0;
      }
      else if(op == 15) {
         buzzdarray_t c = buzzdarray_clone(a);
         da_check(c, &M);
         if(rnd(2)) { buzzdarray_push(c, v); if(dst && 0) NDEST = 0; }
         int n = buzzdarray_size(c);
         buzzdarray_destroy(&c);
         CHK(!c, "destroy does not clear the handle");
         if(dst) { CHK(NDEST == n, "destroying a clone destroyed %d elements of %d", NDEST, n); NDEST = 0; }
      }
      else if(op == 16) {
         int i; for(i = 0; i < M.n; ++i) if(!memcmp(M.d[i], v, ES)) break;
         CHK(buzzdarray_find(a, da_cmp, v) == (uint32_t)i, "find of an arbitrary value");
         if(M.n) {
            int k = rnd(M.n);
            for(i = 0; i < M.n; ++i) if(!memcmp(M.d[i], M.d[k], ES)) break;
            CHK(buzzdarray_find(a, da_cmp, M.d[k]) == (uint32_t)i, "find of a stored value");
         }
      }
      else if(op == 17) {
         FE = &M; FEN = 0;
         buzzdarray_foreach(a, da_each, &FEN);
         CHK(FEN == M.n, "foreach visited %d elements of %d", FEN, M.n);
      }
      else if(op == 18 && rnd(3) == 0) {
         buzzdarray_sort(a, da_cmp);
         /* insertion sort of the model */
         for(int i = 1; i < M.n; ++i) {
            uint8_t t[32]; memcpy(t, M.d[i], 32);
            int j = i;
            while(j > 0 && memcmp(M.d[j-1], t, ES) > 0) { memcpy(M.d[j], M.d[j-1], 32); --j; }
            memcpy(M.d[j], t, 32);
         }
      }
      else if(op == 19 && M.n) {
         static uint8_t flat[MAXE * 32];
         for(int i = 0; i < M.n; ++i) memcpy(flat + (size_t)i * ES, M.d[i], ES);
         buzzdarray_t c = buzzdarray_frombuffer(flat, M.n * ES, ES, NULL);
         da_check(c, &M);
         buzzdarray_push(c, v);
         CHK(buzzdarray_size(c) == M.n + 1, "push after frombuffer");
         CHK(!memcmp((uint8_t*)c->data + (size_t)M.n * ES, v, ES), "element pushed after frombuffer");
         buzzdarray_destroy(&c);
      }
      if(dst && NDEST) viol("%d elements destroyed by an operation that removes none", NDEST);
      if(M.n < 50 || rnd(10) == 0) da_check(a, &M);
   }
   da_check(a, &M);
   buzzdarray_destroy(&a);
   CHK(!a, "destroy does not clear the handle");
   if(dst) da_expect_dest(M.d, M.n);
}

/* ---- dictionaries ---- */

static int KT; /* 0 u16 1 i16 2 i32 3 u32 4 str */
#define NKEY 300
static char KS[NKEY][12]; static int64_t KV[NKEY];
struct md { int in; uint64_t v; int seen; };
static struct md D[NKEY];
static uint64_t DD[NKEY * 4]; static int NDD;
static int DSIZE, FREED;
static uint64_t getv(const void* d) { uint64_t v = 0; memcpy(&v, d, DSIZE); return v; }
static int keyidx(const void* k) {
   for(int i = 0; i < NKEY; ++i) {
      if(KT == 4) { if(!strcmp(*(char* const*)k, KS[i])) return i; }
      else {
         int64_t v = KT == 0 ? (int64_t)*(const uint16_t*)k : KT == 1 ? (int64_t)*(const int16_t*)k : KT == 2 ? (int64_t)*(const int32_t*)k : (int64_t)*(const uint32_t*)k;
         if(v == KV[i]) return i;
      }
   }
   return -1;
}
static void mkkey(int i, void* k) {
   if(KT == 0) *(uint16_t*)k = KV[i];
   else if(KT == 1) *(int16_t*)k = KV[i];
   else if(KT == 2) *(int32_t*)k = KV[i];
   else if(KT == 3) *(uint32_t*)k = KV[i];
   else *(char**)k = KS[i];
}
static void d_dest(const void* key, void* data, void* params) {
   if(NDD < NKEY * 4) DD[NDD] = getv(data);
   ++NDD;
   free((void*)key);
   free(data);
}
static buzzdict_t DT; static int DMODE, NSEEN;
static void d_each(const void* key, void* data, void* params) {
   if(params != &NSEEN) viol("foreach passes a wrong parameter");
   int i = keyidx(key);
   if(i < 0) viol("foreach visits an unknown key");
   if(!D[i].in) viol("foreach visits a key that is not present");
   if(getv(data) != D[i].v) viol("foreach passes a wrong value");
   if(D[i].seen) viol("foreach visits an element twice");
   D[i].seen = 1;
   ++NSEEN;
}
static void run_dict(int ops) {
   static const uint32_t KSZ[] = {2, 2, 4, 4, sizeof(char*)};
   KT = rnd(5);
   int nk = rnd(2) ? 12 : NKEY;
   for(int i = 0; i < NKEY; ++i) {
      int dup;
      do {
         if(KT == 4) { snprintf(KS[i], 12, "%s%u", rnd(2) ? "k" : "", rnd(100000)); KV[i] = 0; }
         else {
            uint32_t r = rnd(3) == 0 ? rnd(0xffffffff) * 2u : rnd(3) ? rnd(600) : rnd(65536);
            KV[i] = KT == 0 ? (int64_t)(uint16_t)r : KT == 1 ? (int64_t)(int16_t)(r * (rnd(2) ? 1 : -1)) : KT == 2 ? (int64_t)(int32_t)(r * (rnd(2) ? 1 : -1)) : (int64_t)r;
         }
         dup = 0;
         for(int j = 0; j < i && !dup; ++j) dup = KT == 4 ? !strcmp(KS[i], KS[j]) : KV[i] == KV[j];
      } while(dup);
   }
   memset(D, 0, sizeof(D)); NDD = 0;
   DSIZE = rnd(2) ? 4 : 8;
   int own = rnd(4) != 0, n = 0;
   static const buzzdict_hashfunp H[] = {buzzdict_uint16keyhash, buzzdict_int16keyhash, buzzdict_int32keyhash, buzzdict_uint32keyhash, buzzdict_strkeyhash};
   static const buzzdict_key_cmpp C[] = {buzzdict_uint16keycmp, buzzdict_int16keycmp, buzzdict_int32keycmp, buzzdict_uint32keycmp, buzzdict_strkeycmp};
   buzzdict_t d = buzzdict_new(rnd(3) ? 1 + rnd(50) : 1, KSZ[KT], DSIZE, H[KT], C[KT], own ? d_dest : NULL);
   uint64_t k;
   for(STEP = 0; STEP < ops; ++STEP) {
      ++NOPS;
      uint32_t op = rnd(20);
      int i = rnd(nk);
      mkkey(i, &k);
      if(op < 8) {
         uint64_t v = ((uint64_t)rnd(0xffffffff) << 20) + STEP;
         if(DSIZE == 4) v &= 0xffffffffu;
         buzzdict_set(d, &k, &v);
         if(own) {
            CHK(NDD == D[i].in, "set destroyed %d elements, expected %d", NDD, D[i].in);
            if(NDD) CHK(DD[0] == D[i].v, "set destroyed a wrong element");
            NDD = 0;
         }
         if(!D[i].in) ++n;
         D[i].in = 1; D[i].v = v;
      }
      else if(op < 12) {
         int r = buzzdict_remove(d, &k);
         CHK(!!r == D[i].in, "remove returned %d", r);
         if(own) {
            CHK(NDD == D[i].in, "remove destroyed %d elements, expected %d", NDD, D[i].in);
            if(NDD) CHK(DD[0] == D[i].v, "remove destroyed a wrong element");
            NDD = 0;
         }
         if(D[i].in) --n;
         D[i].in = 0;
      }
      else if(op < 18) {
         const void* x = buzzdict_rawget(d, &k);
         CHK(!!x == D[i].in, "get %s", x ? "finds an absent key" : "misses a present key");
         CHK(buzzdict_exists(d, &k) == D[i].in, "exists");
         if(x) CHK(getv(x) == D[i].v, "get returns a wrong value");
      }
      else {
         NSEEN = 0;
         for(int j = 0; j < NKEY; ++j) D[j].seen = 0;
         buzzdict_foreach(d, d_each, &NSEEN);
         CHK(NSEEN == n, "foreach visited %d elements of %d", NSEEN, n);
         if(NDD) viol("foreach destroyed elements");
      }
      CHK(buzzdict_size(d) == (uint32_t)n, "size %u, expected %d", buzzdict_size(d), n);
      CHK(buzzdict_isempty(d) == (n == 0), "isempty");
   }
   for(int i = 0; i < NKEY; ++i) {
      mkkey(i, &k);
      const void* x = buzzdict_rawget(d, &k);
      CHK(!!x == D[i].in && (!x || getv(x) == D[i].v), "final content");
   }
   buzzdict_destroy(&d);
   CHK(!d, "destroy does not clear the handle");
   if(own) {
      CHK(NDD == n, "destroy destroyed %d elements of %d", NDD, n);
      for(int i = 0; i < NKEY; ++i) if(D[i].in) {
         int c = 0;
         for(int j = 0; j < NDD; ++j) c += DD[j] == D[i].v;
         CHK(c >= 1, "destroy missed an element");
      }
   }
}

/* ---- sets ---- */

static int SIN[200], SSEEN[200], SN, SDEST[2000], SND;
struct se { int32_t k; void* p; };
static int s_cmp(const void* a, const void* b) { int32_t x = ((const struct se*)a)->k, y = ((const struct se*)b)->k; return x < y ? -5 : x > y ? 7 : 0; }
static void s_dest(void* data, void* p) {
   struct se* e = data;
   if(SND < 2000) SDEST[SND] = e->k;
   ++SND;
   free(e->p);
}
static void s_each(void* data, void* p) {
   struct se* e = data;
   if(e->k < 0 || e->k >= 200 || !SIN[e->k]) viol("foreach visits an element that is not in the set");
   if(SSEEN[e->k]) viol("foreach visits an element twice");
   if(*(int32_t*)e->p != e->k) viol("foreach visits a corrupted element");
   SSEEN[e->k] = 1; ++SN;
}
static void run_set(int ops) {
   memset(SIN, 0, sizeof(SIN)); SND = 0;
   int n = 0, range = rnd(2) ? 8 : 200;
   buzzset_t s = buzzset_new(sizeof(struct se), s_cmp, s_dest);
   for(STEP = 0; STEP < ops; ++STEP) {
      ++NOPS;
      int op = rnd(12), k = rnd(range);
      struct se e = {k, NULL};
      if(op < 5) {
         e.p = malloc(4); *(int32_t*)e.p = k;
         buzzset_insert(s, &e);
         if(SIN[k]) free(e.p); else { SIN[k] = 1; ++n; }
         CHK(SND == 0, "insert destroyed elements");
      }
      else if(op < 9) {
         buzzset_remove(s, &e);
         CHK(SND == SIN[k], "remove destroyed %d elements, expected %d", SND, SIN[k]);
         if(SND) CHK(SDEST[0] == k, "remove of %d destroyed %d", k, SDEST[0]);
         SND = 0;
         if(SIN[k]) { SIN[k] = 0; --n; }
      }
      else if(op < 11) {
         const struct se* f = buzzset_find(s, &e);
         CHK(!!f == SIN[k], "find %s", f ? "finds an absent element" : "misses a present element");
         if(f) CHK(f->k == k && *(int32_t*)f->p == k, "find returns a wrong element");
      }
      else {
         SN = 0; memset(SSEEN, 0, sizeof(SSEEN));
         buzzset_foreach(s, s_each, NULL);
         CHK(SN == n, "foreach visited %d elements of %d", SN, n);
      }
      CHK(buzzset_size(s) == (uint32_t)n, "size %u, expected %d", buzzset_size(s), n);
   }
   buzzset_destroy(&s);
   CHK(SND == n, "destroy destroyed %d elements of %d", SND, n);
   SND = 0;
}

/* ---- interned strings ---- */

#define NS 2000
static struct { int in, prot, mark; uint16_t id; } ST[NS];
static int OWNER[65536];
static void mkstr(int i, char* b) {
   /* many strings with the same hash ("aC" and "bB"), prefixes of each other, and the empty one */
   if(i == 0) { b[0] = 0; return; }
   int n = 0, j = i;
   while(j) { b[n++] = "ab"[j & 1]; b[n++] = "CB"[j & 1]; j >>= 1; }
   b[n] = 0;
   if(i % 3 == 0) sprintf(b, "s%d", i);
   if(i % 7 == 0) { memset(b, 'x', i % 60); b[i % 60] = 0; sprintf(b + i % 60, "%d", i); }
}
static void run_strman(int ops, int churn) {
   static unsigned TN = 0;
   memset(ST, 0, sizeof(ST));
   for(int i = 0; i < 65536; ++i) OWNER[i] = -1;
   int range = rnd(2) ? 20 : NS;
   char b[128];
   buzzstrman_t sm = buzzstrman_new();
   for(STEP = 0; STEP < ops; ++STEP) {
      ++NOPS;
      int op = rnd(40), k = rnd(range);
      mkstr(k, b);
      if(churn && rnd(ops) < 180) {
         /* short-lived strings, until the ids are used again */
         int n = rnd(1600);
         unsigned from = TN;
         uint16_t* ids = malloc((n + 1) * sizeof(*ids));
         for(int j = 0; j < n; ++j) {
            sprintf(b, "t%u", TN++);
            ids[j] = buzzstrman_register(sm, b, 0);
            CHK(OWNER[ids[j]] == -1, "two strings have the id %u", ids[j]);
            OWNER[ids[j]] = -2;
         }
         for(int j = 0; j < n; ++j) {
            sprintf(b, "t%u", from + j);
            const char* g = buzzstrman_get(sm, ids[j]);
            CHK(g && !strcmp(g, b), "id %u is \"%s\", expected \"%s\"", ids[j], g ? g : "(null)", b);
            if(rnd(16) == 0) CHK(buzzstrman_register(sm, b, 0) == ids[j], "the id of \"%s\" changed", b);
         }
         buzzstrman_gc_clear(sm);
         for(int j = 0; j < NS; ++j) if(ST[j].in) buzzstrman_gc_mark(sm, ST[j].id);
         buzzstrman_gc_prune(sm);
         for(int j = 0; j < n; ++j) {
            CHK(buzzstrman_get(sm, ids[j]) == NULL, "the unmarked string %d was not collected", j);
            OWNER[ids[j]] = -1;
         }
         free(ids);
      }
      else if(op < 26) {
         int p = rnd(6) == 0;
         uint16_t id = buzzstrman_register(sm, b, p);
         if(ST[k].in) CHK(ST[k].id == id, "the id of \"%s\" changed from %u to %u", b, ST[k].id, id);
         else {
            CHK(OWNER[id] < 0, "two strings have the id %u", id);
            ST[k].in = 1; ST[k].id = id; OWNER[id] = k; ST[k].prot = 0;
         }
         if(p) ST[k].prot = 1;
         const char* g = buzzstrman_get(sm, id);
         CHK(g && !strcmp(g, b), "id %u is \"%s\", expected \"%s\"", id, g ? g : "(null)", b);
         CHK(g != b, "the string is not copied");
      }
      else if(op < 38) {
         int j = rnd(range);
         char c[128];
         if(ST[j].in) {
            mkstr(j, c);
            const char* g = buzzstrman_get(sm, ST[j].id);
            CHK(g && !strcmp(g, c), "id %u is \"%s\", expected \"%s\"", ST[j].id, g ? g : "(null)", c);
         }
         uint16_t x = rnd(65536);
         if(OWNER[x] < 0) CHK(buzzstrman_get(sm, x) == NULL, "the unused id %u has a string", x);
      }
      else if(op == 38) {
         int keep = rnd(101);
         const char* before[NS];
         buzzstrman_gc_clear(sm);
         for(int j = 0; j < NS; ++j) {
            ST[j].mark = 0;
            if(ST[j].in && (int)rnd(100) < keep) { ST[j].mark = 1; buzzstrman_gc_mark(sm, ST[j].id); if(rnd(3) == 0) buzzstrman_gc_mark(sm, ST[j].id); }
            before[j] = ST[j].in ? buzzstrman_get(sm, ST[j].id) : NULL;
         }
         buzzstrman_gc_prune(sm);
         for(int j = 0; j < NS; ++j) if(ST[j].in) {
            const char* g = buzzstrman_get(sm, ST[j].id);
            char c[128]; mkstr(j, c);
            if(ST[j].mark || ST[j].prot) {
               CHK(g && !strcmp(g, c), "the %s string \"%s\" was collected", ST[j].prot ? "protected" : "marked", c);
               CHK(g == before[j], "the %s string \"%s\" moved", ST[j].prot ? "protected" : "marked", c);
            }
            else {
               CHK(g == NULL, "the unmarked string \"%s\" was not collected", c);
               OWNER[ST[j].id] = -1;
               ST[j].in = 0; ST[j].prot = 0;
            }
         }
      }
   }
   for(int j = 0; j < NS; ++j) if(ST[j].in) {
      char c[128]; mkstr(j, c);
      const char* g = buzzstrman_get(sm, ST[j].id);
      CHK(g && !strcmp(g, c), "final content of \"%s\"", c);
   }
   buzzstrman_destroy(&sm);
}

/* ---- containers with very many elements ---- */

static uint8_t* LSEEN; static uint64_t LNSEEN, NGONE; static uint32_t NBIG;
static int u32_cmp(const void* a, const void* b) {
   uint32_t x = *(const uint32_t*)a, y = *(const uint32_t*)b;
   return x < y ? -1 : x > y;
}
static uint32_t u32_hash(const void* k) { return *(const uint32_t*)k % 7; }
static void la_each(uint32_t pos, void* data, void* p) {
   uint32_t v = *(uint32_t*)data;
   if(pos != LNSEEN || v >= NBIG || LSEEN[v]) viol("foreach visits %u at %u", v, pos);
   LSEEN[v] = 1; ++LNSEEN;
}
static void la_dest(uint32_t pos, void* data, void* p) { ++NGONE; }
static void ld_each(const void* key, void* data, void* p) {
   uint32_t k = *(const uint32_t*)key, v = *(uint32_t*)data;
   if(k >= NBIG || LSEEN[k] || v != k * 3 + 1) viol("foreach visits %u -> %u", k, v);
   LSEEN[k] = 1; ++LNSEEN;
}
static void ld_dest(const void* key, void* data, void* p) { ++NGONE; free((void*)key); free(data); }
static void run_large(void) {
   /* arrays */
   NBIG = 65530 + rnd(9000);
   LSEEN = calloc(NBIG, 1); LNSEEN = NGONE = 0;
   buzzdarray_t a = buzzdarray_new(1 + rnd(9), sizeof(uint32_t), la_dest);
   uint32_t* perm = malloc(NBIG * sizeof(uint32_t));
   for(uint32_t i = 0; i < NBIG; ++i) { uint32_t j = rnd(i + 1); perm[i] = perm[j]; perm[j] = i; }
   for(uint32_t i = 0; i < NBIG; ++i) { uint32_t v = perm[i]; buzzdarray_push(a, &v); ++NOPS; }
   CHK(buzzdarray_size(a) == NBIG, "size %" PRId64 " after %u insertions", (int64_t)buzzdarray_size(a), NBIG);
   for(uint32_t i = 0; i < NBIG; ++i) CHK(buzzdarray_get(a, i, uint32_t) == perm[i], "element %u differs", i);
   for(int k = 0; k < 30; ++k) {
      uint32_t i = k == 0 ? NBIG - 1 : k == 1 ? 0 : rnd(NBIG), v = perm[i];
      CHK(buzzdarray_find(a, u32_cmp, &v) == i, "the element at %u of %u is not found", i, NBIG);
   }
   uint32_t none = NBIG + 5;
   CHK(buzzdarray_find(a, u32_cmp, &none) == NBIG, "an element that is not there is found");
   buzzdarray_foreach(a, la_each, NULL);
   CHK(LNSEEN == NBIG, "foreach visits %" PRIu64 " of %u elements", LNSEEN, NBIG);
   buzzdarray_t b = buzzdarray_clone(a);
   CHK(buzzdarray_size(b) == NBIG && !memcmp(a->data, b->data, NBIG * sizeof(uint32_t)), "the clone differs");
   if(NBIG > 1) {
      buzzdarray_sort(b, u32_cmp);
      for(uint32_t i = 0; i < NBIG; ++i) CHK(buzzdarray_get(b, i, uint32_t) == i, "sorted: %u at %u", buzzdarray_get(b, i, uint32_t), i);
   }
   NGONE = 0;
   buzzdarray_destroy(&b);
   for(int k = 0; k < 40000; ++k) buzzdarray_pop(a);
   CHK(NGONE >= 40000, "%" PRIu64 " elements of 40000 destroyed", NGONE);
   CHK(buzzdarray_size(a) == NBIG - 40000 && buzzdarray_get(a, NBIG - 40001, uint32_t) == perm[NBIG - 40001], "the last element after many removals");
   buzzdarray_destroy(&a);
   free(perm);
   free(LSEEN);
   /* dictionaries with long buckets */
   NBIG = 1500 + rnd(4000);
   LSEEN = calloc(NBIG, 1); LNSEEN = NGONE = 0;
   buzzdict_t d = buzzdict_new(1 + rnd(20), sizeof(uint32_t), sizeof(uint32_t), u32_hash, u32_cmp, ld_dest);
   for(uint32_t i = 0; i < NBIG; ++i) { uint32_t v = i * 3 + 1; buzzdict_set(d, &i, &v); ++NOPS; }
   CHK(buzzdict_size(d) == NBIG, "size %u after %u insertions", (unsigned)buzzdict_size(d), NBIG);
   for(uint32_t i = 0; i < NBIG; ++i) { const uint32_t* v = buzzdict_get(d, &i, uint32_t); CHK(v && *v == i * 3 + 1, "key %u", i); }
   buzzdict_foreach(d, ld_each, NULL);
   CHK(LNSEEN == NBIG, "foreach visits %" PRIu64 " of %u entries", LNSEEN, NBIG);
   uint32_t rem = 0;
   for(uint32_t i = 0; i < NBIG; i += 1 + rnd(5)) { CHK(buzzdict_remove(d, &i), "key %u is not removed", i); ++rem; CHK(!buzzdict_exists(d, &i), "key %u stays", i); }
   CHK(NGONE == rem && buzzdict_size(d) == NBIG - rem, "%" PRIu64 " of %u removed entries destroyed, size %u", NGONE, rem, (unsigned)buzzdict_size(d));
   memset(LSEEN, 0, NBIG); LNSEEN = 0;
   buzzdict_foreach(d, ld_each, NULL);
   CHK(LNSEEN == NBIG - rem, "foreach visits %" PRIu64 " of %u entries", LNSEEN, NBIG - rem);
   buzzdict_destroy(&d);
   CHK(NGONE == NBIG, "%" PRIu64 " of %u entries destroyed", NGONE, NBIG);
   free(LSEEN);
}

int main(int argc, char** argv) {
   if(argc < 5) return 2;
   uint64_t seed = strtoull(argv[2], NULL, 10);
   int count = atoi(argv[3]), ops = atoi(argv[4]);
   for(int i = 0; i < count; ++i) {
      SEED = seed + i;
      RS = (seed + i) * 0x9E3779B97F4A7C15ULL + 77;
      for(int k = 0; k < 4; ++k) rnd(2);
      int o = 1 + rnd(ops);
      if(!strcmp(argv[1], "darray")) run_darray(o);
      else if(!strcmp(argv[1], "dict")) run_dict(o);
      else if(!strcmp(argv[1], "set")) run_set(o);
      else if(!strcmp(argv[1], "strman")) run_strman(o, 0);
      else if(!strcmp(argv[1], "strids")) run_strman(o, 1);
      else if(!strcmp(argv[1], "large")) run_large();
      else return 2;
   }
   printf("OK %" PRIu64 " %" PRIu64 "\n", NOPS, NCHK);
   return 0;
}
