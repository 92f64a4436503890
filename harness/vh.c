/*
 * vh: the command-driven monitor harness.
 *
 * Drives the real Buzz toolchain and virtual machine through their public
 * API and prints what it observes, one event per line, on stdout.  It takes
 * commands from stdin (see the table at the end of this file).  All values
 * are printed as JSON: nil -> null, int -> 5, float -> {"f":"0x1.8p+0"},
 * string -> "..", table -> {"t":[[k,v],..]}, closure -> {"c":"n@12"},
 * userdata -> {"u":"0x.."}, and a table nested in itself -> {"r":level}.
 */
#define _GNU_SOURCE
#include <buzz/buzzasm.h>
#include <buzz/buzzdebug.h>
#include <buzz/buzzparser.h>
#include <buzz/buzzvm.h>
#include <buzz/buzzneighbors.h>
#include <buzz/buzzswarm.h>
#include <buzz/buzzvstig.h>
#include <ctype.h>
#include <inttypes.h>
#include <math.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>

#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#define VH_ASAN 1
#include <sanitizer/lsan_interface.h>
#include <sanitizer/allocator_interface.h>
#endif
#endif

/****************************************/

#define MAXVM 64
#define MAXPROG 64

struct prog_s { uint8_t* bc; uint32_t size; buzzdebug_t dbg; };
static struct prog_s PROG[MAXPROG];

struct slot_s { buzzvm_t vm; int prog; uint64_t gcs; int udata; };
static struct slot_s VM[MAXVM];

static char TMPDIR_[256];
static FILE* O;

/****************************************/
/* Allocation monitor: number of live heap blocks of this process */

static int64_t LIVE, LIVEB;
static int LIVE_ON = 0;
#ifdef VH_ASAN
static void hook_m(const volatile void* p, size_t s) { ++LIVE; LIVEB += s; }
static void hook_f(const volatile void* p) {
   if(p) { --LIVE; LIVEB -= __sanitizer_get_allocated_size((const void*)p); }
}
#endif

/****************************************/
/* GC monitor: GC_MODE 0: as is; 1: collect at every instruction;
 * 2: never collect; N>2: collect every N instructions */

static int GC_MODE = 0;
static uint64_t GC_CALLS = 0, GC_FORCED = 0;
void __real_buzzheap_gc(struct buzzvm_s* vm);
static uint64_t LIMIT = 0, LIMIT_AT = 0; /* instructions per command */
void __wrap_buzzheap_gc(struct buzzvm_s* vm) {
   ++GC_CALLS;
   if(LIMIT && GC_CALLS - LIMIT_AT > LIMIT && vm->state == BUZZVM_STATE_READY) {
      if(GC_CALLS - LIMIT_AT == LIMIT + 1) fprintf(O, "# limited\n");
      buzzvm_seterror(vm, BUZZVM_ERROR_INSTR, "too many instructions");
   }
   if(GC_MODE == 1) { vm->heap->max_objs = 0; ++GC_FORCED; }
   else if(GC_MODE == 2) return;
   else if(GC_MODE > 2 && GC_CALLS % GC_MODE == 0) { vm->heap->max_objs = 0; ++GC_FORCED; }
   __real_buzzheap_gc(vm);
}

/****************************************/
/* Printing values */

static void jstr(const char* s) {
   fputc('"', O);
   for(; *s; ++s) {
      unsigned char c = *s;
      if(c == '"' || c == '\\') fprintf(O, "\\%c", c);
      else if(c < 32 || c > 126) fprintf(O, "\\u%04x", c);
      else fputc(c, O);
   }
   fputc('"', O);
}

static void jval(buzzobj_t o);
static buzzobj_t PATH_[512];
static int NPATH = 0;
static int JFIRST;

static void jelem(const void* k, void* d, void* p) {
   if(!*(int*)p) fputc(',', O);
   *(int*)p = 0;
   fputc('[', O);
   jval(*(buzzobj_t*)k);
   fputc(',', O);
   jval(*(buzzobj_t*)d);
   fputc(']', O);
}

static void jval(buzzobj_t o) {
   switch(o->o.type) {
      case BUZZTYPE_NIL: fprintf(O, "null"); break;
      case BUZZTYPE_INT: fprintf(O, "%d", o->i.value); break;
      case BUZZTYPE_FLOAT:
         if(isnan(o->f.value)) fprintf(O, "{\"f\":\"nan\"}");
         else if(isinf(o->f.value)) fprintf(O, "{\"f\":\"%sinf\"}", o->f.value < 0 ? "-" : "");
         else fprintf(O, "{\"f\":\"%a\"}", o->f.value);
         break;
      case BUZZTYPE_STRING: jstr(o->s.value.str); break;
      case BUZZTYPE_CLOSURE:
         fprintf(O, "{\"c\":\"%c\"}", o->c.value.isnative ? 'n' : 'c');
         break;
      case BUZZTYPE_USERDATA: fprintf(O, "{\"u\":\"%d\"}", o->u.value ? 1 : 0); break;
      case BUZZTYPE_TABLE: {
         for(int i = 0; i < NPATH; ++i)
            if(PATH_[i] == o) { fprintf(O, "{\"r\":%d}", NPATH - i); return; }
         if(NPATH >= 500) { fprintf(O, "{\"deep\":1}"); return; }
         PATH_[NPATH++] = o;
         int first = 1;
         fprintf(O, "{\"t\":[");
         buzzdict_foreach(o->t.value, jelem, &first);
         fprintf(O, "]}");
         --NPATH;
         break;
      }
      default: fprintf(O, "{\"?\":%d}", o->o.type);
   }
}

static void jhex(const uint8_t* b, size_t n) {
   if(n == 0) fputc('-', O);
   for(size_t i = 0; i < n; ++i) fprintf(O, "%02x", b[i]);
}

static uint8_t* unhex(const char* s, size_t* n) {
   size_t l = strlen(s);
   if(strcmp(s, "-") == 0) l = 0;
   *n = l / 2;
   uint8_t* b = malloc(*n + 1);
   for(size_t i = 0; i < *n; ++i) {
      unsigned x; sscanf(s + 2*i, "%2x", &x); b[i] = x;
   }
   b[*n] = 0;
   return b;
}

/****************************************/
/* Functions offered to the scripts */

static int vmidx(buzzvm_t vm) {
   for(int i = 0; i < MAXVM; ++i) if(VM[i].vm == vm) return i;
   return -1;
}

/* trace(...): prints its arguments as an event */
static uint64_t NTRACE;                        /* calls of trace() */
static int f_trace(buzzvm_t vm) {
   ++NTRACE;
   int64_t n = buzzvm_lnum(vm);
   fprintf(O, "T %d [", vmidx(vm));
   for(int64_t i = 1; i <= n; ++i) {
      buzzvm_lload(vm, i);
      buzzobj_t o = buzzvm_stack_at(vm, 1);
      buzzvm_pop(vm);
      if(i > 1) fputc(',', O);
      jval(o);
   }
   fprintf(O, "]\n");
   return buzzvm_ret0(vm);
}

/* cadd(a,b): C closure that returns its first argument twice removed */
static int f_cfirst(buzzvm_t vm) {
   buzzvm_lnum_assert(vm, 1);
   buzzvm_lload(vm, 1);
   return buzzvm_ret1(vm);
}

/* ccall(f, x): C function that calls back into the script */
static int f_ccall(buzzvm_t vm) {
   buzzvm_lnum_assert(vm, 2);
   buzzvm_lload(vm, 1);
   buzzvm_type_assert(vm, 1, BUZZTYPE_CLOSURE);
   buzzvm_lload(vm, 2);
   if(buzzvm_closure_call(vm, 1) != BUZZVM_STATE_READY) return vm->state;
   /* the result is at the top of the stack */
   return buzzvm_ret1(vm);
}

/* gc(): force a full collection at the next instruction */
static int f_gc(buzzvm_t vm) {
   vm->heap->max_objs = 0;
   return buzzvm_ret0(vm);
}

/* udata(): returns a userdata */
static int f_udata(buzzvm_t vm) {
   buzzvm_pushu(vm, &VM[0].udata);
   return buzzvm_ret1(vm);
}

/* failc(): a C function that signals an error */
static int f_failc(buzzvm_t vm) {
   buzzvm_seterror(vm, BUZZVM_ERROR_TYPE, "failc %d", 42);
   return vm->state;
}

static void reg(buzzvm_t vm, const char* n, buzzvm_funp f) {
   buzzvm_pushs(vm, buzzvm_string_register(vm, n, 1));
   buzzvm_pushcc(vm, buzzvm_function_register(vm, f));
   buzzvm_gstore(vm);
}

/****************************************/

static const char* st(buzzvm_t vm) {
   switch(vm->state) {
      case BUZZVM_STATE_NOCODE: return "nocode";
      case BUZZVM_STATE_READY: return "ready";
      case BUZZVM_STATE_DONE: return "done";
      case BUZZVM_STATE_ERROR: return "error";
      case BUZZVM_STATE_STOPPED: return "stopped";
   }
   return "?";
}

static void jstate(const char* tag, int i) {
   buzzvm_t vm = VM[i].vm;
   fprintf(O, "%s %d {\"state\":\"%s\",\"err\":%d,\"msg\":", tag, i, st(vm), vm->error);
   if(vm->state == BUZZVM_STATE_ERROR && vm->errormsg) jstr(vm->errormsg);
   else fprintf(O, "null");
   if(vm->state == BUZZVM_STATE_ERROR || vm->state == BUZZVM_STATE_STOPPED) {
      int32_t pc = vm->state == BUZZVM_STATE_ERROR ? vm->oldpc : vm->pc;
      buzzdebug_t dbg = PROG[VM[i].prog].dbg;
      const buzzdebug_entry_t* e = dbg ? buzzdebug_info_get_fromoffset(dbg, &pc) : NULL;
      if(e) {
         fprintf(O, ",\"line\":%" PRIu64 ",\"col\":%" PRIu64 ",\"file\":", (*e)->line, (*e)->col);
         jstr((*e)->fname);
      }
   }
   fprintf(O, "}\n");
}

/* Number of objects waiting in the queues of incoming messages */
static void countin(const void* k, void* d, void* p) {
   *(uint64_t*)p += buzzdarray_size(*(buzzdarray_t*)d);
}

static void objstats(uint32_t pos, void* data, void* params) {
   uint64_t* c = (uint64_t*)params;
   buzzobj_t o = *(buzzobj_t*)data;
   c[0]++;
   if(o->o.type < 7) c[1 + o->o.type]++;
}

static void cmd_stat(int i) {
   buzzvm_t vm = VM[i].vm;
   uint64_t c[8] = {0}, nin = 0;
   buzzdarray_foreach(vm->heap->objs, objstats, c);
   buzzdict_foreach(vm->inmsgs, countin, &nin);
   fprintf(O, "S %d {\"objs\":%" PRIu64 ",\"stacks\":%d,\"stack\":%d,\"lsymts\":%d,\"flist\":%d,"
           "\"strings\":%d,\"out\":%u,\"in\":%" PRIu64 ",\"gsyms\":%u,\"swarmstack\":%d,\"swarms\":%u,\"listeners\":%u,\"base\":%d,\"isswarm\":%d}\n",
           i, c[0],
           (int)buzzdarray_size(vm->stacks), (int)buzzdarray_size(vm->stack),
           (int)buzzdarray_size(vm->lsymts), (int)buzzdarray_size(vm->flist),
           (int)buzzdict_size(vm->strings->str2id),
           buzzoutmsg_queue_size(vm), nin, buzzdict_size(vm->gsyms),
           (int)buzzdarray_size(vm->swarmstack), buzzdict_size(vm->swarms),
           buzzdict_size(vm->listeners),
           buzzdarray_size(vm->lsymts) ? (int)buzzdarray_size(vm->lsyms->syms) : -1,
           buzzdarray_size(vm->lsymts) ? vm->lsyms->isswarm : -1);
}

/****************************************/
/* Commands */

static char* ARG[4096];
static int NARG;

static int compile(int p, const char* src, const char* symt) {
   char a[512];
   snprintf(a, sizeof(a), "%s/p%d.basm", TMPDIR_, p);
   if(PROG[p].bc) { free(PROG[p].bc); PROG[p].bc = NULL; }
   if(PROG[p].dbg) buzzdebug_destroy(&PROG[p].dbg);
#ifdef VH_ASAN
   __lsan_disable();
#endif
   int ok = 0;
   char* argv[4] = { "bzzparse", (char*)src, a, (char*)symt };
   buzzparser_t par = buzzparser_new(symt ? 4 : 3, argv);
   if(par) {
      ok = buzzparser_parse(par) ? 1 : 0;
      buzzparser_destroy(&par);
   }
   int r = ok;
   if(ok) {
      if(buzz_asm(a, &PROG[p].bc, &PROG[p].size, &PROG[p].dbg) != 0) r = -1;
   }
#ifdef VH_ASAN
   __lsan_enable();
#endif
   return r;
}

static void pushval(buzzvm_t vm, const char* s) {
   switch(s[0]) {
      case 'i': buzzvm_pushi(vm, (int32_t)strtoll(s+2, NULL, 10)); break;
      case 'f': buzzvm_pushf(vm, strtof(s+2, NULL)); break;
      case 's': {
         size_t n; char* b = (char*)unhex(s+2, &n);
         buzzvm_pushs(vm, buzzvm_string_register(vm, b, 0));
         free(b);
         break;
      }
      case 't': buzzvm_pusht(vm); break;
      case '/': buzzvm_pushs(vm, buzzvm_string_register(vm, s, 0)); break; /* a path */
      case 'g': /* a global */
         buzzvm_pushs(vm, buzzvm_string_register(vm, s+2, 0));
         buzzvm_gload(vm);
         break;
      default: buzzvm_pushnil(vm);
   }
}

struct gdump_s { buzzvm_t vm; int first; };
static void jglob(const void* k, void* d, void* p) {
   struct gdump_s* g = (struct gdump_s*)p;
   const char* n = buzzvm_string_get(g->vm, *(const uint16_t*)k);
   if(!g->first) fputc(',', O);
   g->first = 0;
   jstr(n ? n : "<dangling>");
   fputc(':', O);
   jval(*(buzzobj_t*)d);
}

#include "vh_ext.h"

static int run_cmd(void) {
   const char* c = ARG[0];
   int i = NARG > 1 ? atoi(ARG[1]) : 0;
   LIMIT_AT = GC_CALLS;
#define NEED(n) if(NARG < (n)) { fprintf(O, "! bad command %s\n", c); return 1; }
#define V() if(i < 0 || i >= MAXVM || !VM[i].vm) { fprintf(O, "! no vm %d\n", i); return 1; } buzzvm_t vm = VM[i].vm; (void)vm
   if(!strcmp(c, "case")) {
      for(int k = 0; k < MAXVM; ++k) if(VM[k].vm) { buzzvm_destroy(&VM[k].vm); }
      GC_MODE = 0; LIMIT = 0;
      ext_case();
      fprintf(O, "== %s\n", NARG > 1 ? ARG[1] : "");
   }
   else if(!strcmp(c, "compile")) {
      NEED(3);
      int r = compile(i, ARG[2], NARG > 3 ? ARG[3] : NULL);
      fprintf(O, "C %d %d %u\n", i, r, r == 1 ? PROG[i].size : 0);
   }
   else if(!strcmp(c, "asm")) {
      NEED(3);
      if(PROG[i].bc) { free(PROG[i].bc); PROG[i].bc = NULL; }
      if(PROG[i].dbg) buzzdebug_destroy(&PROG[i].dbg);
#ifdef VH_ASAN
      __lsan_disable();
#endif
      int r = buzz_asm(ARG[2], &PROG[i].bc, &PROG[i].size, &PROG[i].dbg);
#ifdef VH_ASAN
      __lsan_enable();
#endif
      fprintf(O, "A %d %d %u\n", i, r, r == 0 ? PROG[i].size : 0);
   }
   else if(!strcmp(c, "bcode")) {
      fprintf(O, "BC %d ", i);
      jhex(PROG[i].bc, PROG[i].size);
      fputc('\n', O);
   }
   else if(!strcmp(c, "new")) {
      NEED(4); /* new vm robot prog */
      int p = atoi(ARG[3]);
      if(!PROG[p].bc) { fprintf(O, "! no prog\n"); return 1; }
      VM[i].vm = buzzvm_new(atoi(ARG[2]));
      VM[i].prog = p;
      buzzvm_t vm = VM[i].vm;
      buzzvm_set_bcode(vm, PROG[p].bc, PROG[p].size);
      if(vm->state == BUZZVM_STATE_READY) {
         reg(vm, "trace", f_trace);
         reg(vm, "cfirst", f_cfirst);
         reg(vm, "ccall", f_ccall);
         reg(vm, "gc", f_gc);
         reg(vm, "udata", f_udata);
         reg(vm, "failc", f_failc);
      }
      jstate("N", i);
   }
   else if(!strcmp(c, "run")) {
      V();
      int64_t max = NARG > 2 ? atoll(ARG[2]) : -1, n = 0;
      while(buzzvm_step(vm) == BUZZVM_STATE_READY && (max < 0 || ++n < max));
      jstate("R", i);
   }
   else if(!strcmp(c, "exec")) {
      V();
      buzzvm_execute_script(vm);
      jstate("R", i);
   }
   else if(!strcmp(c, "call")) {
      V(); NEED(3);
      for(int k = 3; k < NARG; ++k) pushval(vm, ARG[k]);
      buzzvm_state s = buzzvm_function_call(vm, ARG[2], NARG - 3);
      fprintf(O, "K %d {\"ret\":\"%s\",\"state\":\"%s\"", i, s == BUZZVM_STATE_READY ? "ready" : "other", st(vm));
      if(vm->state == BUZZVM_STATE_READY && buzzdarray_size(vm->stack) > 0) {
         fprintf(O, ",\"top\":");
         jval(buzzvm_stack_at(vm, 1));
         buzzvm_pop(vm);
      }
      fprintf(O, "}\n");
      if(vm->state == BUZZVM_STATE_ERROR) jstate("R", i);
   }
   else if(!strcmp(c, "setg")) {
      V(); NEED(4);
      buzzvm_pushs(vm, buzzvm_string_register(vm, ARG[2], 1));
      pushval(vm, ARG[3]);
      buzzvm_gstore(vm);
   }
   else if(!strcmp(c, "getg")) {
      V(); NEED(3);
      buzzvm_pushs(vm, buzzvm_string_register(vm, ARG[2], 0));
      buzzvm_gload(vm);
      fprintf(O, "G %d ", i); jval(buzzvm_stack_at(vm, 1)); fputc('\n', O);
      buzzvm_pop(vm);
   }
   else if(!strcmp(c, "globals")) {
      V();
      struct gdump_s g = { vm, 1 };
      fprintf(O, "GS %d {", i);
      buzzdict_foreach(vm->gsyms, jglob, &g);
      fprintf(O, "}\n");
   }
   else if(!strcmp(c, "state")) { V(); jstate("R", i); }
   else if(!strcmp(c, "strerror")) {
      V();
      const char* e = buzzvm_strerror(vm);
      fprintf(O, "E %d ", i); jstr(e ? e : "<null>"); fputc('\n', O);
   }
   else if(!strcmp(c, "neigh")) {
      V();
      if(NARG == 2) buzzneighbors_reset(vm);
      else {
         NEED(6);
         buzzneighbors_add(vm, atoi(ARG[2]), strtof(ARG[3], NULL), strtof(ARG[4], NULL), strtof(ARG[5], NULL));
      }
   }
   else if(!strcmp(c, "in")) {
      V(); NEED(4);
      size_t n; uint8_t* b = unhex(ARG[3], &n);
      buzzmsg_payload_t m = buzzmsg_payload_new(n ? n : 1);
      for(size_t k = 0; k < n; ++k) buzzmsg_serialize_u8(m, b[k]);
      buzzinmsg_queue_append(vm, atoi(ARG[2]), m);
      free(b);
   }
   else if(!strcmp(c, "procin")) {
      V();
      buzzvm_process_inmsgs(vm);
      jstate("P", i);
   }
   else if(!strcmp(c, "procout")) { V(); buzzvm_process_outmsgs(vm); }
   else if(!strcmp(c, "out")) {
      V();
      int64_t max = NARG > 2 ? atoll(ARG[2]) : -1, n = 0;
      while((max < 0 || n < max) && !buzzoutmsg_queue_isempty(vm)) {
         buzzmsg_payload_t m = buzzoutmsg_queue_first(vm);
         fprintf(O, "M %d ", i);
         jhex((const uint8_t*)m->data, buzzmsg_payload_size(m));
         fputc('\n', O);
         buzzmsg_payload_destroy(&m);
         buzzoutmsg_queue_next(vm);
         ++n;
      }
      fprintf(O, "MZ %d %" PRId64 "\n", i, n);
   }
   else if(!strcmp(c, "peek")) {
      V();
      if(!buzzoutmsg_queue_isempty(vm)) {
         buzzmsg_payload_t m = buzzoutmsg_queue_first(vm);
         fprintf(O, "MP %d ", i);
         jhex((const uint8_t*)m->data, buzzmsg_payload_size(m));
         fputc('\n', O);
         buzzmsg_payload_destroy(&m);
      }
      else fprintf(O, "MP %d none\n", i);
   }
   else if(!strcmp(c, "stat")) { V(); cmd_stat(i); }
   else if(!strcmp(c, "gcnow")) {
      V();
      vm->heap->max_objs = 0;
      __real_buzzheap_gc(vm);
   }
   else if(!strcmp(c, "gcmode")) { GC_MODE = i; }
   else if(!strcmp(c, "limit")) { LIMIT = i; }
   else if(!strcmp(c, "gcstat")) { fprintf(O, "GC %" PRIu64 " %" PRIu64 "\n", GC_CALLS, GC_FORCED); }
   else if(!strcmp(c, "destroy")) {
      V();
      buzzvm_destroy(&VM[i].vm);
      VM[i].vm = NULL;
   }
   else if(!strcmp(c, "live")) {
      fflush(O);
#ifdef VH_ASAN
      fprintf(O, "L %" PRId64 " %" PRId64 "\n", LIVE, LIVEB);
#else
      fprintf(O, "L 0 0\n");
#endif
   }
   else if(!strcmp(c, "echo")) { fprintf(O, "# %s\n", NARG > 1 ? ARG[1] : ""); }
   else if(ext_cmd(c, i)) { }
   else { fprintf(O, "! unknown command %s\n", c); return 1; }
   return 0;
}

int main(int argc, char** argv) {
   snprintf(TMPDIR_, sizeof(TMPDIR_), "%s", argc > 1 ? argv[1] : ".");
   O = stdout;
   static char obuf[1 << 20];
   setvbuf(stdout, obuf, _IOFBF, sizeof(obuf));
#ifdef VH_ASAN
   __sanitizer_install_malloc_and_free_hooks(hook_m, hook_f);
#endif
   char* line = NULL;
   size_t cap = 0;
   ssize_t l;
   while((l = getline(&line, &cap, stdin)) >= 0) {
      if(l > 0 && line[l-1] == '\n') line[l-1] = 0;
      NARG = 0;
      char* s = line;
      char* t;
      while((t = strsep(&s, " ")) && NARG < 4096) if(*t) ARG[NARG++] = t;
      if(NARG == 0) continue;
      run_cmd();
      if(!strcmp(ARG[0], "case") || !strcmp(ARG[0], "flush")) fflush(O);
   }
   for(int k = 0; k < MAXVM; ++k) if(VM[k].vm) buzzvm_destroy(&VM[k].vm);
   for(int k = 0; k < MAXPROG; ++k) {
      free(PROG[k].bc); PROG[k].bc = NULL;
      if(PROG[k].dbg) buzzdebug_destroy(&PROG[k].dbg);
   }
   free(line);
   ext_done();
   fprintf(O, "== END\n");
   fflush(O);
   return 0;
}
