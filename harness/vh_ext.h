/*
 * Network of robots: messages leave a VM with `fetch`, wait in its outbox and
 * are delivered by `net` with loss, duplication, delay and reordering that
 * depend only on the seed in the command.
 */
struct nmsg_s { uint8_t* b; size_t n; int from; };
struct nbox_s { struct nmsg_s* m; int n, cap; };
static struct nbox_s OUTBOX[MAXVM];            /* messages of the last fetch */
static struct nbox_s DELAY[MAXVM];             /* delayed messages, per receiver */

static void nbox_add(struct nbox_s* x, const uint8_t* b, size_t n, int from) {
   if(x->n == x->cap) { x->cap = x->cap ? 2 * x->cap : 16; x->m = realloc(x->m, x->cap * sizeof(struct nmsg_s)); }
   x->m[x->n].b = malloc(n + 1);
   memcpy(x->m[x->n].b, b, n);
   x->m[x->n].n = n;
   x->m[x->n].from = from;
   ++x->n;
}
static void nbox_clear(struct nbox_s* x) {
   for(int i = 0; i < x->n; ++i) free(x->m[i].b);
   x->n = 0;
}
static void nbox_free(struct nbox_s* x) { nbox_clear(x); free(x->m); x->m = NULL; x->cap = 0; }

static uint64_t RS;
static uint32_t rnd(void) {
   RS = RS * 6364136223846793005ULL + 1442695040888963407ULL;
   return (uint32_t)(RS >> 33);
}

static void deliver(int dst, const uint8_t* b, size_t n, int from) {
   buzzmsg_payload_t m = buzzmsg_payload_new(n ? n : 1);
   for(size_t k = 0; k < n; ++k) buzzmsg_serialize_u8(m, b[k]);
   buzzinmsg_queue_append(VM[dst].vm, VM[from].vm ? VM[from].vm->robot : 0, m);
   fprintf(O, "X %d %d ", from, dst);
   jhex(b, n);
   fputc('\n', O);
}

static void ext_case(void);

static void vst_elem(const void* k, void* d, void* p) {
   buzzvstig_elem_t e = *(buzzvstig_elem_t*)d;
   if(!*(int*)p) fputc(',', O);
   *(int*)p = 0;
   fputc('[', O);
   jval(*(buzzobj_t*)k);
   fputc(',', O);
   jval(e->data);
   fprintf(O, ",%u,%u]", (unsigned)e->timestamp, (unsigned)e->robot);
}

/* Debugger: last trace of program counters, breakpoints, stops */
static int32_t* PCS; static int NPCS, CPCS;
static void pcs_add(int32_t x) {
   if(NPCS == CPCS) { CPCS = CPCS ? 2 * CPCS : 1024; PCS = realloc(PCS, CPCS * sizeof(int32_t)); }
   PCS[NPCS++] = x;
}
static void jbps(int i) {
   buzzdebug_t d = PROG[VM[i].prog].dbg;
   fprintf(O, "Q %d {\"bps\":[", i);
   for(int64_t k = 0; k < (int64_t)buzzdebug_breakpoint_count(d); ++k) fprintf(O, "%s%d", k ? "," : "", buzzdebug_breakpoint_get_offset(d, k));
   fprintf(O, "]}\n");
}
static void jdbg_elem(const void* k, void* d, void* p) {
   buzzdebug_t dbg = *(buzzdebug_t*)p;
   buzzdebug_entry_t e = *(buzzdebug_entry_t*)d;
   const int32_t* f = buzzdebug_info_get_fromscript(dbg, e->line, e->col, e->fname);
   const int32_t* g = buzzdebug_info_get_fromscript(dbg, e->line + 100000, e->col, e->fname);
   const int32_t* h = buzzdebug_info_get_fromscript(dbg, e->line, e->col, "no such file");
   int32_t o = *(const int32_t*)k + 1000000;
   fprintf(O, "[%d,%" PRIu64 ",%" PRIu64 ",", *(const int32_t*)k, e->line, e->col);
   jstr(e->fname);
   fprintf(O, ",%d,%d],", f ? *f : -1, g || h || buzzdebug_info_exists_offset(dbg, &o) ? 1 : 0);
}
static void jdbg(int p, buzzdebug_t dbg) {
   fprintf(O, "Q %d {\"info\":[", p);
   buzzdict_foreach(dbg->off2script, jdbg_elem, &dbg);
   fprintf(O, "0],\"count\":%d}\n", (int)buzzdebug_info_count(dbg));
}

static int ext_cmd(const char* c, int i) {
   if(!strcmp(c, "raw")) { /* raw PROG file: any bytes as bytecode, in a block of exactly that size */
      if(PROG[i].bc) { free(PROG[i].bc); PROG[i].bc = NULL; }
      if(PROG[i].dbg) buzzdebug_destroy(&PROG[i].dbg);
      FILE* f = fopen(ARG[2], "rb");
      if(!f) { fprintf(O, "! no file\n"); return 1; }
      fseek(f, 0, SEEK_END);
      PROG[i].size = ftell(f);
      rewind(f);
      PROG[i].bc = malloc(PROG[i].size);
      if(fread(PROG[i].bc, 1, PROG[i].size, f) != PROG[i].size) fprintf(O, "! short read\n");
      fclose(f);
      PROG[i].dbg = buzzdebug_new();
      return 1;
   }
   if(!strcmp(c, "mut")) { /* mut PROG seed n: n random changes of the bytecode */
      if(!PROG[i].bc) { fprintf(O, "! no prog\n"); return 1; }
      RS = strtoull(ARG[2], NULL, 10) * 2654435761u + 77;
      for(int k = 0; k < 8; ++k) rnd();
      uint32_t n = PROG[i].size;
      uint8_t* b = malloc(n + 64);
      memcpy(b, PROG[i].bc, n);
      static const int32_t ODD[] = { -1, 0, 1, 2, 3, 255, 256, 65535, 65536, 2147483647, -2147483647 - 1, 1000000, -2 };
      for(int k = atoi(ARG[3]); k > 0 && n > 0; --k) {
         uint32_t at = rnd() % n;
         switch(rnd() % 8) {
            case 0: b[at] = rnd(); break;
            case 1: case 2: b[at] = rnd() % 48; break;
            case 3: b[at] += (rnd() % 2) ? 1 : -1; break;
            case 4: { int32_t v = (rnd() % 3) ? ODD[rnd() % 13] : (int32_t)(rnd() % (n + 4)); if(at + 4 <= n) memcpy(b + at, &v, 4); break; }
            case 5: { uint32_t f = rnd() % n, l = rnd() % 8; if(f + l <= n && at + l <= n) memmove(b + at, b + f, l); break; }
            case 6: if(rnd() % 4 == 0) n = at; break;
            case 7: if(rnd() % 4 == 0) { memmove(b + at, b + at + 1, n - at - 1); --n; } break;
         }
      }
      free(PROG[i].bc);
      PROG[i].bc = malloc(n);
      memcpy(PROG[i].bc, b, n);
      PROG[i].size = n;
      free(b);
      return 1;
   }
   if(!strcmp(c, "steps")) { /* steps VM max: executes instruction by instruction, recording where */
      if(!VM[i].vm) { fprintf(O, "! no vm\n"); return 1; }
      buzzvm_t vm = VM[i].vm;
      int max = atoi(ARG[2]), n = 0;
      NPCS = 0; NTRACE = 0;
      uint64_t* tr = malloc(sizeof(uint64_t) * (max + 1));
      while(n < max && vm->state == BUZZVM_STATE_READY) { pcs_add(vm->pc); tr[n++] = NTRACE; buzzvm_step(vm); }
      fprintf(O, "Q %d {\"state\":\"%s\",\"steps\":[", i, st(vm));
      for(int k = 0; k < n; ++k) fprintf(O, "%s[%d,%" PRIu64 "]", k ? "," : "", PCS[k], tr[k]);
      fprintf(O, "],\"traces\":%" PRIu64 "}\n", NTRACE);
      free(tr);
      return 1;
   }
   if(!strcmp(c, "bp")) { /* bp VM rand seed permille | all | del idx | clear */
      if(!VM[i].vm) { fprintf(O, "! no vm\n"); return 1; }
      buzzdebug_t d = PROG[VM[i].prog].dbg;
      if(!strcmp(ARG[2], "rand")) {
         RS = strtoull(ARG[3], NULL, 10) * 2654435761u + 99;
         for(int k = 0; k < NPCS; ++k) { rnd(); rnd(); if((int)(rnd() % 1000) < atoi(ARG[4])) buzzdebug_breakpoint_set_offset(d, PCS[k]); }
      }
      else if(!strcmp(ARG[2], "all")) for(uint32_t k = 0; k < PROG[VM[i].prog].size; ++k) buzzdebug_breakpoint_set_offset(d, k);
      else if(!strcmp(ARG[2], "pick")) {
         RS = strtoull(ARG[3], NULL, 10) * 2654435761u + 99;
         for(uint32_t k = 0; k < PROG[VM[i].prog].size; ++k) { rnd(); rnd(); if((int)(rnd() % 1000) < atoi(ARG[4])) buzzdebug_breakpoint_set_offset(d, k); }
      }
      else if(!strcmp(ARG[2], "del")) { if(buzzdebug_breakpoint_count(d) > 0) buzzdebug_breakpoint_remove(d, atoi(ARG[3]) % buzzdebug_breakpoint_count(d)); }
      else if(!strcmp(ARG[2], "clear")) buzzdebug_breakpoint_clear(d);
      jbps(i);
      return 1;
   }
   if(!strcmp(c, "cont")) { /* cont VM n: continues up to n times, or until it does not stop at a breakpoint */
      if(!VM[i].vm) { fprintf(O, "! no vm\n"); return 1; }
      buzzvm_t vm = VM[i].vm;
      int n = atoi(ARG[2]);
      if(NARG > 3) NTRACE = 0;
      fprintf(O, "Q %d {\"stops\":[0", i);
      buzzvm_state r = vm->state;
      FILE* save = O;
      char* buf = NULL; size_t bn = 0;
      O = open_memstream(&buf, &bn);
      while(n-- > 0) {
         r = buzzdebug_continue(vm, PROG[VM[i].prog].dbg);
         if(r != vm->state) fprintf(save, ",\"returned %d in state %d\"", (int)r, (int)vm->state);
         if(vm->state != BUZZVM_STATE_STOPPED) break;
         fprintf(save, ",[%d,%" PRIu64 "]", vm->pc, NTRACE);
      }
      fclose(O);
      O = save;
      fprintf(O, "],\"state\":\"%s\",\"traces\":%" PRIu64 ",\"top\":", st(vm), NTRACE);
      if(vm->state != BUZZVM_STATE_ERROR && buzzdarray_size(vm->stack) > 0) jval(buzzvm_stack_at(vm, 1)); else fprintf(O, "null");
      fprintf(O, "}\n");
      fputs(buf, O);
      free(buf);
      return 1;
   }
   if(!strcmp(c, "dcall")) { /* dcall VM function arg..: calls with breakpoints */
      if(!VM[i].vm) { fprintf(O, "! no vm\n"); return 1; }
      buzzvm_t vm = VM[i].vm;
      NTRACE = 0;
      for(int k = 3; k < NARG; ++k) pushval(vm, ARG[k]);
      buzzvm_state r = buzzdebug_function_call(vm, ARG[2], NARG - 3, PROG[VM[i].prog].dbg);
      fprintf(O, "Q %d {\"call\":[%d,%" PRIu64 "],\"state\":\"%s\",\"same\":%d,\"top\":", i, vm->pc, NTRACE, st(vm), r == vm->state);
      if(vm->state == BUZZVM_STATE_READY && buzzdarray_size(vm->stack) > 0) jval(buzzvm_stack_at(vm, 1)); else fprintf(O, "null");
      fprintf(O, "}\n");
      return 1;
   }
   if(!strcmp(c, "memb")) { /* memb VM: what the robot knows of its neighbours' swarms */
      if(!VM[i].vm) { fprintf(O, "! no vm\n"); return 1; }
      char* buf = NULL; size_t bn = 0;
      FILE* f = open_memstream(&buf, &bn);
      buzzswarm_members_print(f, VM[i].vm->swarmmembers, VM[i].vm->robot);
      fclose(f);
      fprintf(O, "Q %d {\"members\":", i);
      jstr(buf);
      fprintf(O, "}\n");
      free(buf);
      return 1;
   }
   if(!strcmp(c, "vdump")) { /* vdump VM: the state as buzzvm_dump prints it on the error stream */
      if(!VM[i].vm) { fprintf(O, "! no vm\n"); return 1; }
      char* buf = NULL; size_t bn = 0;
      FILE* f = open_memstream(&buf, &bn);
      FILE* old = stderr;
      fflush(stderr);
      stderr = f;
      buzzvm_dump(VM[i].vm);
      stderr = old;
      fclose(f);
      fprintf(O, "Q %d {\"vdump\":", i);
      jstr(buf);
      fprintf(O, ",\"stack\":[");
      for(int64_t k = 0; k < (int64_t)buzzdarray_size(VM[i].vm->stack); ++k) { if(k) fputc(',', O); jval(buzzdarray_get(VM[i].vm->stack, k, buzzobj_t)); }
      fprintf(O, "],\"refs\":[");
      for(int64_t k = 0; k < (int64_t)buzzdarray_size(VM[i].vm->stack); ++k) {
         buzzobj_t o = buzzdarray_get(VM[i].vm->stack, k, buzzobj_t);
         fprintf(O, "%s[%d,%d]", k ? "," : "", o->o.type == BUZZTYPE_CLOSURE ? o->c.value.ref : o->o.type == BUZZTYPE_STRING ? o->s.value.sid : 0, o->o.type == BUZZTYPE_CLOSURE ? o->c.value.isnative : 0);
      }
      fprintf(O, "],\"pc\":%d,\"size\":%u,\"st\":[%d,%d,%d]}\n", VM[i].vm->pc, VM[i].vm->bcode_size, (int)VM[i].vm->state, (int)VM[i].vm->error, (int)buzzdarray_size(VM[i].vm->stacks));
      free(buf);
      return 1;
   }
   if(!strcmp(c, "dump")) { /* dump VM: prints the current stack with the debugger (not observed) */
      if(!VM[i].vm) { fprintf(O, "! no vm\n"); return 1; }
      char* buf = NULL; size_t bn = 0;
      FILE* f = open_memstream(&buf, &bn);
      buzzdebug_stack_dump(VM[i].vm, 1, f);
      fclose(f);
      fprintf(O, "Q %d {\"dump\":", i);
      jstr(buf);
      fprintf(O, ",\"stack\":[");
      for(int64_t k = 0; k < (int64_t)buzzdarray_size(VM[i].vm->stack); ++k) { if(k) fputc(',', O); jval(buzzdarray_get(VM[i].vm->stack, k, buzzobj_t)); }
      fprintf(O, "],\"pc\":%d,\"state\":\"%s\"}\n", VM[i].vm->pc, st(VM[i].vm));
      free(buf);
      return 1;
   }
   if(!strcmp(c, "dbginfo")) { /* dbginfo PROG: the debug information; dbginfo PROG file: after a round trip through a file */
      if(!PROG[i].dbg) { fprintf(O, "! no prog\n"); return 1; }
      if(NARG > 2) {
         buzzdebug_t d = buzzdebug_new();
         buzzdebug_tofile(ARG[2], PROG[i].dbg);
         int ok = buzzdebug_fromfile(d, ARG[2]);
         fprintf(O, "# read %d\n", ok);
         jdbg(i, d);
         buzzdebug_destroy(&d);
      }
      else jdbg(i, PROG[i].dbg);
      return 1;
   }
   if(!strcmp(c, "flush")) return 1;
   if(!strcmp(c, "fcat")) { /* fcat 0 path: the content of a file */
      FILE* f = fopen(ARG[2], "rb");
      fprintf(O, "Q %d {\"file\":", i);
      if(!f) fprintf(O, "null");
      else {
         int b;
         fputc('"', O);
         while((b = fgetc(f)) != EOF) fprintf(O, "%02x", b);
         fputc('"', O);
         fclose(f);
      }
      fprintf(O, "}\n");
      return 1;
   }
   if(!strcmp(c, "frm")) { unlink(ARG[2]); return 1; }
   if(!strcmp(c, "netreset")) { ext_case(); return 1; } /* empties all outboxes */
   if(!strcmp(c, "fetch")) { /* fetch VM [max]: takes the messages the robot sends now */
      if(!VM[i].vm) { fprintf(O, "! no vm\n"); return 1; }
      int64_t max = NARG > 2 ? atoll(ARG[2]) : -1, n = 0;
      nbox_clear(&OUTBOX[i]);
      while((max < 0 || n < max) && !buzzoutmsg_queue_isempty(VM[i].vm)) {
         buzzmsg_payload_t m = buzzoutmsg_queue_first(VM[i].vm);
         nbox_add(&OUTBOX[i], (const uint8_t*)m->data, buzzmsg_payload_size(m), i);
         fprintf(O, "M %d ", i);
         jhex((const uint8_t*)m->data, buzzmsg_payload_size(m));
         fputc('\n', O);
         buzzmsg_payload_destroy(&m);
         buzzoutmsg_queue_next(VM[i].vm);
         ++n;
      }
      return 1;
   }
   if(!strcmp(c, "net")) { /* net SRC DST seed loss% dup% delay% shuffle */
      int dst = atoi(ARG[2]);
      if(!VM[i].vm || !VM[dst].vm) { fprintf(O, "! no vm\n"); return 1; }
      RS = strtoull(ARG[3], NULL, 10) * 2654435761u + 12345;
      unsigned loss = atoi(ARG[4]), dup = atoi(ARG[5]), dly = atoi(ARG[6]), shuf = atoi(ARG[7]);
      struct nbox_s tmp = {0};
      for(int k = 0; k < OUTBOX[i].n; ++k) {
         struct nmsg_s* m = &OUTBOX[i].m[k];
         rnd(); rnd();
         if(rnd() % 100 < loss) continue;
         int copies = rnd() % 100 < dup ? 2 : 1;
         while(copies--) {
            if(rnd() % 100 < dly) nbox_add(&DELAY[dst], m->b, m->n, i);
            else nbox_add(&tmp, m->b, m->n, i);
         }
      }
      if(shuf) for(int k = tmp.n - 1; k > 0; --k) {
         int j = rnd() % (k + 1);
         struct nmsg_s t = tmp.m[k]; tmp.m[k] = tmp.m[j]; tmp.m[j] = t;
      }
      for(int k = 0; k < tmp.n; ++k) deliver(dst, tmp.m[k].b, tmp.m[k].n, i);
      nbox_free(&tmp);
      return 1;
   }
   if(!strcmp(c, "undelay")) { /* undelay DST seed: delivers the delayed messages, in random order */
      if(!VM[i].vm) { fprintf(O, "! no vm\n"); return 1; }
      RS = strtoull(ARG[2], NULL, 10) * 2654435761u + 777;
      struct nbox_s* x = &DELAY[i];
      for(int k = x->n - 1; k > 0; --k) {
         rnd();
         int j = rnd() % (k + 1);
         struct nmsg_s t = x->m[k]; x->m[k] = x->m[j]; x->m[j] = t;
      }
      for(int k = 0; k < x->n; ++k) deliver(i, x->m[k].b, x->m[k].n, x->m[k].from);
      nbox_clear(x);
      return 1;
   }
   if(!strcmp(c, "vst")) { /* vst VM id: the entries of a stigmergy: V vm id [[key,value,timestamp,robot]..] */
      if(!VM[i].vm) { fprintf(O, "! no vm\n"); return 1; }
      uint16_t id = atoi(ARG[2]);
      const buzzvstig_t* vs = buzzdict_get(VM[i].vm->vstigs, &id, buzzvstig_t);
      fprintf(O, "V %d ", i);
      if(!vs) fprintf(O, "null\n");
      else {
         int first = 1;
         fprintf(O, "[");
         buzzdict_foreach((*vs)->data, vst_elem, &first);
         fprintf(O, "]\n");
      }
      return 1;
   }
   if(!strcmp(c, "op")) { /* op VM name [arg [arg]]: an operation of the host API; prints the operand stack */
      if(!VM[i].vm) { fprintf(O, "! no vm\n"); return 1; }
      buzzvm_t vm = VM[i].vm;
      const char* o = ARG[2];
      static const struct { const char* n; buzzvm_state (*f)(buzzvm_t); } OP[] = {
         {"pop", buzzvm_pop}, {"dup", buzzvm_dup}, {"add", buzzvm_add}, {"sub", buzzvm_sub}, {"mul", buzzvm_mul}, {"div", buzzvm_div},
         {"mod", buzzvm_mod}, {"pow", buzzvm_pow}, {"unm", buzzvm_unm}, {"land", buzzvm_land}, {"lor", buzzvm_lor}, {"lnot", buzzvm_lnot},
         {"band", buzzvm_band}, {"bor", buzzvm_bor}, {"bnot", buzzvm_bnot}, {"lshift", buzzvm_lshift}, {"rshift", buzzvm_rshift},
         {"eq", buzzvm_eq}, {"neq", buzzvm_neq}, {"gt", buzzvm_gt}, {"gte", buzzvm_gte}, {"lt", buzzvm_lt}, {"lte", buzzvm_lte},
         {"tput", buzzvm_tput}, {"tget", buzzvm_tget}, {"gload", buzzvm_gload}, {"gstore", buzzvm_gstore}, {"pushnil", buzzvm_pushnil} };
      int k, ret = -1;
      for(k = 0; k < (int)(sizeof(OP)/sizeof(*OP)); ++k) if(!strcmp(o, OP[k].n)) { ret = OP[k].f(vm); break; }
      if(k == (int)(sizeof(OP)/sizeof(*OP))) {
         if(!strcmp(o, "push")) { pushval(vm, ARG[3]); ret = vm->state; }
         else if(!strcmp(o, "pushu")) ret = buzzvm_pushu(vm, &VM[i].udata);
         else if(!strcmp(o, "pushcc")) ret = buzzvm_pushcc(vm, buzzvm_function_register(vm, !strcmp(ARG[3], "cfirst") ? f_cfirst : !strcmp(ARG[3], "ccall") ? f_ccall : f_trace));
         else if(!strcmp(o, "copy")) ret = buzzvm_push(vm, buzzvm_stack_at(vm, atoi(ARG[3])));
         else if(!strcmp(o, "fcall")) ret = buzzvm_function_call(vm, ARG[3], atoi(ARG[4]));
         else if(!strcmp(o, "ccall")) ret = buzzvm_closure_call(vm, atoi(ARG[3]));
         else { fprintf(O, "! bad op %s\n", o); return 1; }
      }
      if(ret != (int)vm->state) fprintf(O, "! the operation returned state %d in state %d\n", ret, (int)vm->state);
      fprintf(O, "D %d {\"state\":\"%s\",\"err\":%d,\"stacks\":%d,\"stack\":[", i, st(vm), vm->error, (int)buzzdarray_size(vm->stacks));
      if(vm->state != BUZZVM_STATE_ERROR)
         for(int64_t k = 0; k < (int64_t)buzzdarray_size(vm->stack); ++k) { if(k) fputc(',', O); jval(buzzdarray_get(vm->stack, k, buzzobj_t)); }
      fprintf(O, "]}\n");
      return 1;
   }
   if(!strcmp(c, "push")) { /* push VM v..: pushes values on the VM stack (host API) */
      if(!VM[i].vm) { fprintf(O, "! no vm\n"); return 1; }
      for(int k = 2; k < NARG; ++k) pushval(VM[i].vm, ARG[k]);
      return 1;
   }
   return 0;
}

static void ext_case(void) {
   for(int i = 0; i < MAXVM; ++i) { nbox_free(&OUTBOX[i]); nbox_free(&DELAY[i]); }
}
static void ext_done(void) { ext_case(); free(PCS); PCS = NULL; NPCS = CPCS = 0; }
