/*
 * bzh - replay/record harness for the Buzz library.
 *
 * Reads scenarios (op sequences) from a file, runs each in a forked child
 * against the real library through its public C API and prints one JSON line
 * per op with what an embedding program can observe.  No hook in the library
 * is needed: everything is read through public functions and public structs.
 *
 *   bzh SCENARIOS WORKDIR
 *
 * Scenario file:   "S <id>" starts a scenario, one op per line, "E" ends it.
 * Output:          "S <id>" then one JSON object per op, then
 *                  "X ok" | "X sig <n>" | "X exit <n>" | "X timeout".
 */
#include <buzz/buzzvm.h>
#include <buzz/buzzdebug.h>
#include <buzz/buzzasm.h>
#include <buzz/buzzparser.h>
#include <buzz/buzzmath.h>
#include <buzz/buzzset.h>
#include <stdio.h>
#include <stdarg.h>
#include <stdlib.h>
#include <string.h>
#include <ctype.h>
#include <signal.h>
#include <unistd.h>
#include <fcntl.h>
#include <errno.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <sys/resource.h>
#include <dlfcn.h>

#define MAXVM 64
typedef struct {
   int rid;
   buzzvm_t vm;
   uint8_t* bc;
   uint32_t bcsize;
   buzzdebug_t dbg;
} slot_t;
static slot_t slots[MAXVM];
static int nslots = 0;
static const char* workdir = ".";
static unsigned tmo = 20;

/* ------------------------------------------------------------------ */
/* growing text buffer                                                  */
typedef struct { char* p; size_t n, cap; } sb_t;
static void sb_need(sb_t* b, size_t k) {
   if(b->n + k + 1 > b->cap) {
      b->cap = (b->n + k + 1) * 2;
      b->p = realloc(b->p, b->cap);
   }
}
static void sb_puts(sb_t* b, const char* s) {
   size_t k = strlen(s);
   sb_need(b, k);
   memcpy(b->p + b->n, s, k);
   b->n += k;
   b->p[b->n] = 0;
}
static void sb_putc(sb_t* b, char c) { char s[2] = { c, 0 }; sb_puts(b, s); }
static void sb_printf(sb_t* b, const char* fmt, ...) {
   va_list ap;
   char* s;
   va_start(ap, fmt);
   if(vasprintf(&s, fmt, ap) < 0) abort();
   va_end(ap);
   sb_puts(b, s);
   free(s);
}
static void sb_reset(sb_t* b) { b->n = 0; sb_need(b, 0); b->p[0] = 0; }
static void sb_json(sb_t* b, const char* s) {
   sb_putc(b, '"');
   for(; *s; ++s) {
      unsigned char c = (unsigned char)*s;
      if(c == '"' || c == '\\') { sb_putc(b, '\\'); sb_putc(b, c); }
      else if(c < 32 || c >= 127) sb_printf(b, "\\u%04x", c);
      else sb_putc(b, c);
   }
   sb_putc(b, '"');
}

/* ------------------------------------------------------------------ */
/* collections at chosen moments: this definition stands in front of the
 * library's, which it calls; every gc_period-th time it is made to collect */
static int gc_period = 0, gc_tick = 0;
void buzzheap_gc(struct buzzvm_s* vm) {
   static void (*lib)(struct buzzvm_s*) = NULL;
   if(!lib) lib = (void (*)(struct buzzvm_s*))dlsym(RTLD_NEXT, "buzzheap_gc");
   if(gc_period && ++gc_tick % gc_period == 0) vm->heap->max_objs = 1;
   lib(vm);
}

static sb_t out;      /* response of the current op            */
static sb_t logbuf;   /* values recorded by rec()/log() so far */
static int logcount = 0;

/* ------------------------------------------------------------------ */
/* value -> JSON                                                        */
typedef struct { buzzobj_t seen[64]; int n; sb_t* b; int first; } vctx_t;
static void val_json(vctx_t* c, buzzobj_t o);
static void val_entry(const void* key, void* data, void* params) {
   vctx_t* c = (vctx_t*)params;
   if(!c->first) sb_putc(c->b, ',');
   c->first = 0;
   sb_putc(c->b, '[');
   int f = c->first;
   val_json(c, *(buzzobj_t*)key);
   sb_putc(c->b, ',');
   val_json(c, *(buzzobj_t*)data);
   sb_putc(c->b, ']');
   c->first = f;
}
static void val_json(vctx_t* c, buzzobj_t o) {
   sb_t* b = c->b;
   switch(o->o.type) {
      case BUZZTYPE_NIL: sb_puts(b, "[\"n\"]"); break;
      case BUZZTYPE_INT: sb_printf(b, "[\"i\",%d]", o->i.value); break;
      case BUZZTYPE_FLOAT: {
         uint32_t u;
         memcpy(&u, &o->f.value, 4);
         sb_printf(b, "[\"f\",%u]", u);
         break;
      }
      case BUZZTYPE_STRING:
         sb_puts(b, "[\"s\",");
         sb_json(b, o->s.value.str);
         sb_putc(b, ']');
         break;
      case BUZZTYPE_TABLE: {
         for(int i = 0; i < c->n; ++i)
            if(c->seen[i] == o) { sb_printf(b, "[\"up\",%d]", c->n - i); return; }
         if(c->n >= 60) { sb_puts(b, "[\"deep\"]"); return; }
         c->seen[c->n++] = o;
         int f = c->first;
         c->first = 1;
         sb_puts(b, "[\"t\",[");
         buzzdict_foreach(o->t.value, val_entry, c);
         sb_printf(b, "],%u]", buzzdict_size(o->t.value));
         c->first = f;
         c->n--;
         break;
      }
      case BUZZTYPE_CLOSURE:
         sb_printf(b, "[\"c\",%d]", o->c.value.isnative ? 1 : 0);
         break;
      case BUZZTYPE_USERDATA: sb_puts(b, "[\"u\"]"); break;
      default: sb_printf(b, "[\"?\",%d]", o->o.type);
   }
}
static void put_val(sb_t* b, buzzobj_t o) {
   vctx_t c;
   c.n = 0; c.b = b; c.first = 1;
   val_json(&c, o);
}

/* rec(...) : C closure that records its arguments */
static int hook_rec(buzzvm_t vm) {
   if(logcount++) sb_putc(&logbuf, ',');
   sb_putc(&logbuf, '[');
   for(int i = 1; i < buzzdarray_size(vm->lsyms->syms); ++i) {
      buzzobj_t o = buzzdarray_get(vm->lsyms->syms, i, buzzobj_t);
      if(i > 1) sb_putc(&logbuf, ',');
      put_val(&logbuf, o);
   }
   sb_putc(&logbuf, ']');
   return buzzvm_ret0(vm);
}
/* cid(x) : C closure returning its argument */
static int hook_cid(buzzvm_t vm) {
   buzzvm_lnum_assert(vm, 1);
   buzzvm_lload(vm, 1);
   return buzzvm_ret1(vm);
}
/* cargs(...) : C closure returning its number of arguments, recording self */
static int hook_cargs(buzzvm_t vm) {
   int n = (int)buzzvm_lnum(vm);
   buzzvm_pushi(vm, n);
   return buzzvm_ret1(vm);
}
/* cself(...) : C closure returning its self */
static int hook_cself(buzzvm_t vm) {
   buzzvm_lload(vm, 0);
   return buzzvm_ret1(vm);
}
/* gcnow() : C closure making the next collection happen at the next step */
static int hook_gcnow(buzzvm_t vm) {
   vm->heap->max_objs = 1;
   return buzzvm_ret0(vm);
}

/* ------------------------------------------------------------------ */
static char* pct(const char* s) {
   char* r = malloc(strlen(s) + 1);
   char* q = r;
   while(*s) {
      if(*s == '%' && s[1] && s[2]) {
         char h[3] = { s[1], s[2], 0 };
         *q++ = (char)strtol(h, NULL, 16);
         s += 3;
      }
      else *q++ = *s++;
   }
   *q = 0;
   return r;
}

static slot_t* slot(int rid) {
   for(int i = 0; i < nslots; ++i) if(slots[i].rid == rid) return &slots[i];
   fprintf(stderr, "bzh: no vm %d\n", rid);
   exit(97);
}

static void push_val(buzzvm_t vm, const char* v) {
   switch(v[0]) {
      case 'n': buzzvm_pushnil(vm); break;
      case 'i': buzzvm_pushi(vm, (int32_t)strtol(v + 2, NULL, 10)); break;
      case 'f': {
         uint32_t u = (uint32_t)strtoul(v + 2, NULL, 10);
         float f;
         memcpy(&f, &u, 4);
         buzzvm_pushf(vm, f);
         break;
      }
      case 's': {
         char* s = pct(v + 2);
         buzzvm_pushs(vm, buzzvm_string_register(vm, s, 0));
         free(s);
         break;
      }
      default: fprintf(stderr, "bzh: bad value %s\n", v); exit(97);
   }
}

static void reg(buzzvm_t vm, const char* name, buzzvm_funp f) {
   buzzvm_pushs(vm, buzzvm_string_register(vm, name, 1));
   buzzvm_pushcc(vm, buzzvm_function_register(vm, f));
   buzzvm_gstore(vm);
}

static uint8_t* slurp(const char* fn, uint32_t* n) {
   FILE* f = fopen(fn, "rb");
   if(!f) return NULL;
   fseek(f, 0, SEEK_END);
   long k = ftell(f);
   rewind(f);
   uint8_t* b = malloc(k + 1);
   if(fread(b, 1, k, f) != (size_t)k) { fclose(f); free(b); return NULL; }
   fclose(f);
   *n = k;
   return b;
}

static void st_json(buzzvm_t vm) {
   sb_printf(&out, ",\"st\":%d,\"err\":%d,\"dep\":[%d,%d,%d,%d]",
             vm->state, vm->error,
             (int)buzzdarray_size(vm->stacks),
             (int)buzzvm_stack_top(vm),
             (int)buzzdarray_size(vm->lsymts),
             (int)buzzdarray_size(vm->swarmstack));
   if(vm->state == BUZZVM_STATE_ERROR) {
      const char* m = buzzvm_strerror(vm);
      sb_puts(&out, ",\"msg\":");
      sb_json(&out, m ? m : "(null)");
   }
}
static void log_json() {
   sb_printf(&out, ",\"log\":[%s]", logcount ? logbuf.p : "");
   sb_reset(&logbuf);
   logcount = 0;
}

/* redirect fd 2 so that diagnostics do not mix with results */
static void newvm(int rid) {
   slot_t* s = NULL;
   for(int i = 0; i < nslots; ++i) if(slots[i].rid == rid) s = &slots[i];
   if(s) {
      buzzvm_destroy(&s->vm);
      free(s->bc);
      s->bc = NULL;
      if(s->dbg) buzzdebug_destroy(&s->dbg);
   }
   else {
      if(nslots >= MAXVM) exit(97);
      s = &slots[nslots++];
   }
   memset(s, 0, sizeof(*s));
   s->rid = rid;
   s->vm = buzzvm_new(rid);
}

static void setcode(slot_t* s, const char* bo, const char* bdb) {
   s->bc = slurp(bo, &s->bcsize);
   if(!s->bc) { fprintf(stderr, "bzh: cannot read %s\n", bo); exit(97); }
   s->dbg = buzzdebug_new();
   if(bdb) buzzdebug_fromfile(s->dbg, bdb);
   buzzvm_set_bcode(s->vm, s->bc, s->bcsize);
   reg(s->vm, "rec", hook_rec);
   reg(s->vm, "log", hook_rec);
   reg(s->vm, "cid", hook_cid);
   reg(s->vm, "cargs", hook_cargs);
   reg(s->vm, "cself", hook_cself);
   reg(s->vm, "gcnow", hook_gcnow);
}

static uint8_t* unhex(const char* h, int* n) {
   int k = (int)strlen(h) / 2;
   uint8_t* b = malloc(k + 1);
   for(int i = 0; i < k; ++i) {
      char x[3] = { h[2*i], h[2*i+1], 0 };
      b[i] = (uint8_t)strtol(x, NULL, 16);
   }
   *n = k;
   return b;
}

static void err_at(slot_t* s) {
   if(s->dbg && s->vm->state == BUZZVM_STATE_ERROR) {
      const buzzdebug_entry_t* d = buzzdebug_info_get_fromoffset(s->dbg, &s->vm->oldpc);
      if(d) {
         const char* bn = strrchr((*d)->fname, '/');
         sb_puts(&out, ",\"at\":[");
         sb_json(&out, bn ? bn + 1 : (*d)->fname);
         sb_printf(&out, ",%d,%d]", (int)(*d)->line, (int)(*d)->col);
      }
   }
}

/* where the first complaint of the compiler points to */
static void complaint(const char* fn) {
   FILE* f = fopen(fn, "r");
   char line[4096];
   int found = 0;
   while(f && !found && fgets(line, sizeof line, f)) {
      char* c = strchr(line, ':');
      if(line[0] != '/' || !c) continue;
      *c = 0;
      char* b = strrchr(line, '/');
      sb_puts(&out, ",\"perr\":[");
      sb_json(&out, b + 1);
      sb_printf(&out, ",%d]", atoi(c + 1));
      found = 1;
   }
   if(f) fclose(f);
   if(!found) sb_puts(&out, ",\"perr\":[\"\",-1]");
}

/* in-process compilation, from the directory of the source; returns 0 on success */
static int compile(const char* src, const char* base) {
   char dir[4096];
   snprintf(dir, sizeof dir, "%s", src);
   if(strrchr(dir, '/')) { *strrchr(dir, '/') = 0; if(chdir(dir) != 0) return 1; }
   char basm[4096], bo[4096], bdb[4096];
   snprintf(basm, sizeof basm, "%s.basm", base);
   snprintf(bo, sizeof bo, "%s.bo", base);
   snprintf(bdb, sizeof bdb, "%s.bdb", base);
   char* av[4] = { "bzzparse", (char*)src, basm, NULL };
   char errfn[4096];
   snprintf(errfn, sizeof errfn, "%s.err", base);
   int keep = dup(2), efd = open(errfn, O_CREAT | O_TRUNC | O_WRONLY, 0600);
   dup2(efd, 2);
   buzzparser_t p = buzzparser_new(3, av);
   int ok = p ? buzzparser_parse(p) : -1;
   if(p) buzzparser_destroy(&p);
   fflush(stderr);
   dup2(keep, 2);
   close(keep);
   close(efd);
   if(ok != 1) complaint(errfn);
   unlink(errfn);
   if(ok != 1) return 2;
   uint8_t* buf;
   uint32_t size;
   buzzdebug_t dbg;
   if(buzz_asm(basm, &buf, &size, &dbg) != 0) return 3;
   FILE* f = fopen(bo, "wb");
   fwrite(buf, 1, size, f);
   fclose(f);
   buzzdebug_tofile(bdb, dbg);
   free(buf);
   buzzdebug_destroy(&dbg);
   return 0;
}

typedef struct { uint8_t* p; int n, from; } kept_t;
static kept_t kept[4096];

#include "bzh_vm.inc"
#include "bzh_cont.inc"
#include "bzh_asm.inc"

static void do_op(char* line) {
   char* av[64];
   int ac = 0;
   for(char* t = strtok(line, " \n"); t && ac < 64; t = strtok(NULL, " \n")) av[ac++] = t;
   if(ac == 0) return;
   const char* op = av[0];
   sb_reset(&out);
   sb_printf(&out, "{\"op\":\"%s\"", op);
   if(!strcmp(op, "vm")) {                 /* vm R BASE : new vm with BASE.bo, run it */
      newvm(atoi(av[1]));
      slot_t* s = slot(atoi(av[1]));
      if(ac > 2) {
         char bo[4096], bdb[4096];
         snprintf(bo, sizeof bo, "%s.bo", av[2]);
         snprintf(bdb, sizeof bdb, "%s.bdb", av[2]);
         setcode(s, bo, access(bdb, R_OK) == 0 ? bdb : NULL);
         buzzvm_execute_script(s->vm);
      }
      st_json(s->vm);
      err_at(s);
      log_json();
   }
   else if(!strcmp(op, "compile")) {       /* compile SRC BASE */
      char* src = pct(av[1]);
      int rc = compile(src, av[2]);
      free(src);
      sb_printf(&out, ",\"rc\":%d", rc);
   }
   else if(!strcmp(op, "prog")) {          /* prog R SRC BASE : compile + run */
      newvm(atoi(av[1]));
      int rc = compile(av[2], av[3]);
      sb_printf(&out, ",\"rc\":%d", rc);
      if(rc == 0) {
         slot_t* s = slot(atoi(av[1]));
         char bo[4096], bdb[4096];
         snprintf(bo, sizeof bo, "%s.bo", av[3]);
         snprintf(bdb, sizeof bdb, "%s.bdb", av[3]);
         setcode(s, bo, bdb);
         if(ac > 4) s->vm->heap->max_objs = atoi(av[4]);
         /* run with a step budget */
         long budget = 2000000;
         int gcevery = ac > 5 ? atoi(av[5]) : 0;
         while(budget-- > 0 && s->vm->state == BUZZVM_STATE_READY) {
            if(gcevery && budget % gcevery == 0) s->vm->heap->max_objs = 1;
            buzzvm_step(s->vm);
         }
         if(s->vm->state == BUZZVM_STATE_READY) sb_puts(&out, ",\"budget\":1");
         st_json(s->vm);
         err_at(s);
         log_json();
         unlink(bo); unlink(bdb);
         snprintf(bo, sizeof bo, "%s.basm", av[3]);
         unlink(bo);
      }
   }
   else if(!strcmp(op, "set")) {           /* set R NAME VAL */
      buzzvm_t vm = slot(atoi(av[1]))->vm;
      buzzvm_pushs(vm, buzzvm_string_register(vm, av[2], 1));
      push_val(vm, av[3]);
      buzzvm_gstore(vm);
   }
   else if(!strcmp(op, "call")) {          /* call R FNAME : zero-argument call; RET global */
      slot_t* s = slot(atoi(av[1]));
      int before = (int)buzzvm_stack_top(s->vm);
      buzzvm_function_call(s->vm, av[2], 0);
      int after = (int)buzzvm_stack_top(s->vm);
      sb_printf(&out, ",\"grow\":%d", after - before);
      if(s->vm->state == BUZZVM_STATE_READY) {
         while(buzzvm_stack_top(s->vm) > before) buzzvm_pop(s->vm);
      }
      st_json(s->vm);
      err_at(s);
      log_json();
   }
   else if(!strcmp(op, "callargs")) {      /* callargs R FNAME VAL... : buzzvm_function_call with arguments */
      slot_t* s = slot(atoi(av[1]));
      int before = (int)buzzvm_stack_top(s->vm);
      for(int i = 3; i < ac; ++i) push_val(s->vm, av[i]);
      buzzvm_function_call(s->vm, av[2], ac - 3);
      sb_printf(&out, ",\"grow\":%d", (int)buzzvm_stack_top(s->vm) - before);
      if(s->vm->state == BUZZVM_STATE_READY && buzzvm_stack_top(s->vm) > before) {
         sb_puts(&out, ",\"ret\":");
         put_val(&out, buzzvm_stack_at(s->vm, 1));
         while(buzzvm_stack_top(s->vm) > before) buzzvm_pop(s->vm);
      }
      st_json(s->vm);
      err_at(s);
      log_json();
   }
   else if(!strcmp(op, "gget")) {          /* gget R NAME */
      buzzvm_t vm = slot(atoi(av[1]))->vm;
      buzzvm_pushs(vm, buzzvm_string_register(vm, av[2], 1));
      buzzvm_gload(vm);
      sb_puts(&out, ",\"v\":");
      put_val(&out, buzzvm_stack_at(vm, 1));
      buzzvm_pop(vm);
   }
   else if(!strcmp(op, "feed")) {          /* feed R FROM HEX */
      buzzvm_t vm = slot(atoi(av[1]))->vm;
      int n = 0;
      uint8_t* b = unhex(ac > 3 ? av[3] : "", &n);
      buzzmsg_payload_t m = buzzmsg_payload_new(n > 0 ? n : 1);
      for(int i = 0; i < n; ++i) buzzmsg_serialize_u8(m, b[i]);
      free(b);
      buzzinmsg_queue_append(vm, atoi(av[2]), m);
   }
   else if(!strcmp(op, "procin")) {
      slot_t* s = slot(atoi(av[1]));
      int before = (int)buzzvm_stack_top(s->vm);
      buzzvm_process_inmsgs(s->vm);
      sb_printf(&out, ",\"grow\":%d,\"left\":%d",
                (int)buzzvm_stack_top(s->vm) - before,
                (int)buzzinmsg_queue_size(s->vm->inmsgs));
      if(s->vm->state == BUZZVM_STATE_READY)
         while(buzzvm_stack_top(s->vm) > before) buzzvm_pop(s->vm);
      st_json(s->vm);
      err_at(s);
      log_json();
   }
   else if(!strcmp(op, "procout")) {
      slot_t* s = slot(atoi(av[1]));
      buzzvm_process_outmsgs(s->vm);
      sb_printf(&out, ",\"q\":%d", (int)buzzoutmsg_queue_size(s->vm));
   }
   else if(!strcmp(op, "qsize")) {
      slot_t* s = slot(atoi(av[1]));
      sb_printf(&out, ",\"q\":%d", (int)buzzoutmsg_queue_size(s->vm));
   }
   else if(!strcmp(op, "pop")) {           /* pop R : first message (hex), removed */
      slot_t* s = slot(atoi(av[1]));
      buzzmsg_payload_t m = buzzoutmsg_queue_first(s->vm);
      sb_puts(&out, ",\"m\":\"");
      if(m) {
         for(int i = 0; i < (int)buzzmsg_payload_size(m); ++i)
            sb_printf(&out, "%02x", buzzmsg_payload_get(m, i));
         buzzmsg_payload_destroy(&m);
         buzzoutmsg_queue_next(s->vm);
      }
      sb_printf(&out, "\",\"q\":%d", (int)buzzoutmsg_queue_size(s->vm));
   }
   else if(!strcmp(op, "keep")) {          /* keep R SLOT : as pop, and remember the bytes */
      slot_t* s = slot(atoi(av[1]));
      kept_t* kp = &kept[atoi(av[2])];
      buzzmsg_payload_t m = buzzoutmsg_queue_first(s->vm);
      free(kp->p);
      kp->p = NULL; kp->n = -1; kp->from = atoi(av[1]);
      sb_puts(&out, ",\"m\":\"");
      if(m) {
         kp->n = (int)buzzmsg_payload_size(m);
         kp->p = malloc(kp->n + 1);
         for(int i = 0; i < kp->n; ++i) {
            kp->p[i] = buzzmsg_payload_get(m, i);
            sb_printf(&out, "%02x", kp->p[i]);
         }
         buzzmsg_payload_destroy(&m);
         buzzoutmsg_queue_next(s->vm);
      }
      sb_printf(&out, "\",\"q\":%d", (int)buzzoutmsg_queue_size(s->vm));
   }
   else if(!strcmp(op, "give")) {          /* give SLOT TO : append the kept message to TO's incoming queue */
      kept_t* kp = &kept[atoi(av[1])];
      buzzvm_t vm = slot(atoi(av[2]))->vm;
      if(kp->n >= 0) {
         buzzmsg_payload_t m = buzzmsg_payload_new(kp->n > 0 ? kp->n : 1);
         for(int i = 0; i < kp->n; ++i) buzzmsg_serialize_u8(m, kp->p[i]);
         buzzinmsg_queue_append(vm, kp->from, m);
      }
   }
   else if(!strcmp(op, "settle")) {        /* settle MAX R1:a,b R2:c ... : exchange until quiet */
      int max = atoi(av[1]), quiet = 0, first = 1;
      sb_puts(&out, ",\"ev\":[");
      for(int round = 0; round < max && !quiet; ++round) {
         quiet = 1;
         for(int a = 2; a < ac; ++a) {
            int r = atoi(av[a]);
            slot_t* s = slot(r);
            int before = (int)buzzvm_stack_top(s->vm);
            if(!buzzinmsg_queue_isempty(s->vm->inmsgs)) {
               quiet = 0;
               buzzvm_process_inmsgs(s->vm);
               sb_printf(&out, "%s[\"p\",%d,%d,%d,[%s],%d]", first ? "" : ",", r, s->vm->state, s->vm->error,
                         logcount ? logbuf.p : "", (int)buzzvm_stack_top(s->vm) - before);
               sb_reset(&logbuf); logcount = 0;
               first = 0;
            }
            while(buzzoutmsg_queue_size(s->vm) > 0) {
               quiet = 0;
               buzzmsg_payload_t m = buzzoutmsg_queue_first(s->vm);
               sb_printf(&out, "%s[\"k\",%d,\"", first ? "" : ",", r);
               first = 0;
               for(int i = 0; i < (int)buzzmsg_payload_size(m); ++i)
                  sb_printf(&out, "%02x", buzzmsg_payload_get(m, i));
               buzzoutmsg_queue_next(s->vm);
               sb_printf(&out, "\",%d]", (int)buzzoutmsg_queue_size(s->vm));
               char* to = strdup(strchr(av[a], ':') + 1);
               char* sv = NULL;
               for(char* t = strtok_r(to, ",", &sv); t; t = strtok_r(NULL, ",", &sv)) {
                  buzzmsg_payload_t c = buzzmsg_payload_new(1 + buzzmsg_payload_size(m));
                  for(int i = 0; i < (int)buzzmsg_payload_size(m); ++i)
                     buzzmsg_serialize_u8(c, buzzmsg_payload_get(m, i));
                  buzzinmsg_queue_append(slot(atoi(t))->vm, r, c);
               }
               free(to);
               buzzmsg_payload_destroy(&m);
            }
         }
      }
      sb_printf(&out, "],\"quiet\":%d", quiet);
   }
   else if(!strcmp(op, "next")) {          /* next R : drop the first message */
      slot_t* s = slot(atoi(av[1]));
      buzzoutmsg_queue_next(s->vm);
      sb_printf(&out, ",\"q\":%d", (int)buzzoutmsg_queue_size(s->vm));
   }
   else if(!strcmp(op, "peek")) {
      slot_t* s = slot(atoi(av[1]));
      buzzmsg_payload_t m = buzzoutmsg_queue_first(s->vm);
      sb_puts(&out, ",\"m\":\"");
      if(m) {
         for(int i = 0; i < (int)buzzmsg_payload_size(m); ++i)
            sb_printf(&out, "%02x", buzzmsg_payload_get(m, i));
         buzzmsg_payload_destroy(&m);
      }
      sb_puts(&out, "\"");
   }
   else if(!strcmp(op, "members")) {       /* members R r1,r2 s1,s2 : who does R believe is where */
      slot_t* s = slot(atoi(av[1]));
      sb_puts(&out, ",\"in\":[");
      int first = 1;
      char* rs = strdup(av[2]);
      char* sv1 = NULL;
      for(char* r = strtok_r(rs, ",", &sv1); r; r = strtok_r(NULL, ",", &sv1)) {
         char* ss = strdup(av[3]);
         char* sv2 = NULL;
         for(char* w = strtok_r(ss, ",", &sv2); w; w = strtok_r(NULL, ",", &sv2)) {
            if(buzzswarm_members_isrobotin(s->vm->swarmmembers, atoi(r), atoi(w))) {
               sb_printf(&out, "%s[%s,%s]", first ? "" : ",", r, w);
               first = 0;
            }
         }
         free(ss);
      }
      free(rs);
      sb_puts(&out, "]");
   }
   else if(!strcmp(op, "nbrreset")) {
      slot_t* s = slot(atoi(av[1]));
      int before = (int)buzzvm_stack_top(s->vm);
      buzzneighbors_reset(s->vm);
      sb_printf(&out, ",\"grow\":%d", (int)buzzvm_stack_top(s->vm) - before);
      st_json(s->vm);
   }
   else if(!strcmp(op, "nbradd")) {        /* nbradd R ID D AZ EL (floats in 1/64) */
      slot_t* s = slot(atoi(av[1]));
      int before = (int)buzzvm_stack_top(s->vm);
      buzzneighbors_add(s->vm, atoi(av[2]), atoi(av[3]) / 64.0f,
                        atoi(av[4]) / 64.0f, atoi(av[5]) / 64.0f);
      sb_printf(&out, ",\"grow\":%d", (int)buzzvm_stack_top(s->vm) - before);
      st_json(s->vm);
   }
   else if(!strcmp(op, "heap")) {          /* heap R : number of live heap objects after a forced collection */
      slot_t* s = slot(atoi(av[1]));
      s->vm->heap->max_objs = 1;
      buzzheap_gc(s->vm);
      sb_printf(&out, ",\"n\":%d,\"strs\":%d", (int)buzzdarray_size(s->vm->heap->objs), (int)buzzdict_size(s->vm->strings->str2id));
   }
   else if(!strcmp(op, "gcmode")) {        /* gcmode K : from now on collect at every Kth step (0: as the library likes) */
      gc_period = atoi(av[1]);
      gc_tick = 0;
   }
   else if(!strcmp(op, "put") || !strcmp(op, "unput")) {  /* put PATH TEXT | unput PATH : a data file */
      unlink(av[1]);
      if(op[0] == 'p') { char* t = pct(ac > 2 ? av[2] : ""); FILE* f = fopen(av[1], "w"); if(f) { fputs(t, f); fclose(f); } free(t); }
   }
   else if(!strcmp(op, "cat")) {           /* cat PATH : what is in it */
      FILE* f = fopen(av[1], "r");
      sb_puts(&out, ",\"text\":[");
      if(f) {
         static char buf[65536];
         size_t n = fread(buf, 1, sizeof buf - 1, f);
         buf[n] = 0;
         sb_json(&out, buf);
         fclose(f);
      }
      sb_puts(&out, "]");
   }
   else if(!strcmp(op, "destroy")) {
      slot_t* s = slot(atoi(av[1]));
      buzzvm_destroy(&s->vm);
      free(s->bc);
      if(s->dbg) buzzdebug_destroy(&s->dbg);
      *s = slots[--nslots];
   }
   else if(vm_op(ac, av)) {}
   else if(cont_op(ac, av)) {}
   else if(asm_op(ac, av)) {}
   else { fprintf(stderr, "bzh: unknown op %s\n", op); exit(97); }
   sb_puts(&out, "}\n");
   fwrite(out.p, 1, out.n, stdout);
   fflush(stdout);
}

int main(int argc, char** argv) {
   if(argc < 3) return 97;
   workdir = argv[2];
   if(argc > 3) tmo = atoi(argv[3]);
   FILE* f = fopen(argv[1], "r");
   if(!f) { perror(argv[1]); return 97; }
   signal(SIGPIPE, SIG_DFL);
   char* line = NULL;
   size_t cap = 0;
   char** lines = NULL;
   size_t nl = 0, cl = 0;
   while(getline(&line, &cap, f) >= 0) {
      if(line[0] == 'S' && line[1] == ' ') {
         printf("%s", line);
         fflush(stdout);
         for(size_t i = 0; i < nl; ++i) free(lines[i]);
         nl = 0;
      }
      else if(line[0] == 'E' && (line[1] == '\n' || line[1] == 0)) {
         pid_t p = fork();
         if(p == 0) {
            alarm(tmo);
            struct rlimit rl = { 0, 0 };
            setrlimit(RLIMIT_CORE, &rl);
            sb_reset(&out);
            sb_reset(&logbuf);
            for(size_t i = 0; i < nl; ++i) do_op(lines[i]);
            fflush(stdout);
            _exit(0);
         }
         int st;
         waitpid(p, &st, 0);
         if(WIFEXITED(st) && WEXITSTATUS(st) == 0) printf("X ok\n");
         else if(WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM) printf("X timeout\n");
         else if(WIFSIGNALED(st)) printf("X sig %d\n", WTERMSIG(st));
         else printf("X exit %d\n", WEXITSTATUS(st));
         fflush(stdout);
      }
      else {
         if(nl >= cl) { cl = cl ? cl * 2 : 64; lines = realloc(lines, cl * sizeof(char*)); }
         lines[nl++] = strdup(line);
      }
   }
   return 0;
}
