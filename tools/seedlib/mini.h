/* Helpers for demonstrations: robots in one process, driven through the public API. */
#include <buzz/buzzvm.h>
#include <buzz/buzzasm.h>
#include <buzz/buzzdebug.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

static int failures = 0;
#define CHECK(c) do { if(!(c)) { ++failures; printf("FAILED line %d: %s\n", __LINE__, #c); } } while(0)

static uint8_t* code; static uint32_t codesize;
static void loadcode(const char* fn) {
   FILE* f = fopen(fn, "rb");
   if(!f) { perror(fn); exit(2); }
   fseek(f, 0, SEEK_END); codesize = ftell(f); rewind(f);
   code = malloc(codesize);
   if(fread(code, 1, codesize, f) != codesize) exit(2);
   fclose(f);
}

/* The trace of what scripts report with rec(x) */
static char seen[65536];
static void addobj(buzzobj_t o) {
   char b[4096];
   switch(o->o.type) {
      case BUZZTYPE_NIL:    strcpy(b, "nil"); break;
      case BUZZTYPE_INT:    sprintf(b, "%d", o->i.value); break;
      case BUZZTYPE_FLOAT:  sprintf(b, "%g", o->f.value); break;
      case BUZZTYPE_STRING: snprintf(b, sizeof(b), "'%s'", o->s.value.str); break;
      case BUZZTYPE_TABLE:  sprintf(b, "table%d", (int)buzzdict_size(o->t.value)); break;
      default: strcpy(b, "other");
   }
   strcat(seen, b); strcat(seen, " ");
}
static int rec(buzzvm_t vm) {
   int i;
   for(i = 1; i <= buzzdarray_size(vm->lsyms->syms)-1; ++i)
      addobj(buzzdarray_get(vm->lsyms->syms, i, buzzobj_t));
   return buzzvm_ret0(vm);
}

static buzzvm_t robot(uint16_t id) {
   buzzvm_t vm = buzzvm_new(id);
   buzzvm_set_bcode(vm, code, codesize);
   buzzvm_pushs(vm, buzzvm_string_register(vm, "rec", 1));
   buzzvm_pushcc(vm, buzzvm_function_register(vm, rec));
   buzzvm_gstore(vm);
   while(vm->state == BUZZVM_STATE_READY) buzzvm_step(vm);
   if(vm->state != BUZZVM_STATE_DONE) { printf("script failed: %s\n", vm->errormsg); exit(2); }
   return vm;
}
static int call(buzzvm_t vm, const char* f) {
   int r = buzzvm_function_call(vm, f, 0);
   return r;
}
/* moves up to n outgoing messages of a into b's incoming queue (b NULL: lost) */
static int move(buzzvm_t a, buzzvm_t b, int n) {
   int k = 0;
   while(n-- > 0 && !buzzoutmsg_queue_isempty(a)) {
      buzzmsg_payload_t m = buzzoutmsg_queue_first(a);
      buzzoutmsg_queue_next(a);
      if(b) buzzinmsg_queue_append(b, a->robot, m); else buzzmsg_payload_destroy(&m);
      ++k;
   }
   return k;
}
static void feed(buzzvm_t b, uint16_t from, const char* hex) {
   buzzmsg_payload_t m = buzzmsg_payload_new(10);
   unsigned x;
   for(; *hex; hex += 2) {
      if(*hex == ' ') { --hex; continue; }
      sscanf(hex, "%2x", &x); buzzmsg_serialize_u8(m, x);
   }
   buzzinmsg_queue_append(b, from, m);
}
#define PROC(vm) buzzvm_process_inmsgs(vm)
#define SEEN(what) do { if(strcmp(seen, what)) { ++failures; printf("FAILED line %d: saw [%s] wanted [%s]\n", __LINE__, seen, what); } seen[0] = 0; } while(0)
