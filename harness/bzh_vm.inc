/* ------------------------------------------------------------------ */
/* stepping a machine over raw bytecode with full dumps of its state    */
static buzzobj_t known[8192];
static int nknown = 0;
static char** gnames = NULL;
static int ngnames = 0;

static const struct { const char* n; buzzvm_funp f; } hooks[] = {
   { "rec", hook_rec }, { "cid", hook_cid }, { "cargs", hook_cargs }, { "cself", hook_cself }
};
static int objid(buzzobj_t o) {
   for(int i = 0; i < nknown; ++i) if(known[i] == o) return i + 1;
   if(nknown >= 8192) exit(96);
   known[nknown++] = o;
   return nknown;
}
static void dump_val(buzzobj_t o) {
   switch(o->o.type) {
      case BUZZTYPE_TABLE: sb_printf(&out, "[\"t\",%d]", objid(o)); break;
      case BUZZTYPE_CLOSURE: sb_printf(&out, "[\"c\",%d]", objid(o)); break;
      default: put_val(&out, o);
   }
}
static void dump_seq(buzzdarray_t d) {
   sb_putc(&out, '[');
   for(int i = 0; i < buzzdarray_size(d); ++i) {
      if(i) sb_putc(&out, ',');
      dump_val(buzzdarray_get(d, i, buzzobj_t));
   }
   sb_putc(&out, ']');
}
static void dump_entry(const void* key, void* data, void* params) {
   int* first = (int*)params;
   sb_puts(&out, *first ? "[" : ",[");
   *first = 0;
   dump_val(*(buzzobj_t*)key);
   sb_putc(&out, ',');
   dump_val(*(buzzobj_t*)data);
   sb_putc(&out, ']');
}
static buzzdebug_t dbgs = NULL;
static int scanned = -1;                     /* objects of the heap numbered so far */
static void scan_heap(buzzvm_t vm) {
   /* nothing is collected here, so the heap lists the objects in order of creation */
   int n = (int)buzzdarray_size(vm->heap->objs);
   if(scanned >= 0)
      for(int i = scanned; i < n; ++i) {
         buzzobj_t o = buzzdarray_get(vm->heap->objs, i, buzzobj_t);
         if(o->o.type == BUZZTYPE_TABLE || o->o.type == BUZZTYPE_CLOSURE) objid(o);
      }
   scanned = n;
}
static void dump_vm(buzzvm_t vm) {
   scan_heap(vm);
   const char* m = vm->state == BUZZVM_STATE_ERROR ? buzzvm_strerror(vm) : "x";
   sb_printf(&out, "{\"pc\":%d,\"op\":%d,\"st\":%d,\"er\":%d,\"m\":%d,\"ss\":[", (int)vm->pc, (int)vm->oldpc, vm->state, vm->error,
             m && *m ? 1 : 0);
   for(int i = 0; i < buzzdarray_size(vm->stacks); ++i) {
      if(i) sb_putc(&out, ',');
      dump_seq(buzzdarray_get(vm->stacks, i, buzzdarray_t));
   }
   sb_puts(&out, "],\"ls\":[");
   for(int i = 0; i < buzzdarray_size(vm->lsymts); ++i) {
      buzzvm_lsyms_t l = buzzdarray_get(vm->lsymts, i, buzzvm_lsyms_t);
      sb_printf(&out, "%s[%d,", i ? "," : "", l->isswarm ? 1 : 0);
      dump_seq(l->syms);
      sb_putc(&out, ']');
   }
   /* the machine's own idea of the current frame */
   sb_printf(&out, "],\"cur\":[%d,%d],\"g\":[",
             vm->stack == buzzdarray_last(vm->stacks, buzzdarray_t) ? 1 : 0,
             !buzzdarray_isempty(vm->lsymts) && vm->lsyms == buzzdarray_last(vm->lsymts, buzzvm_lsyms_t) ? 1 : 0);
   for(int i = 0; i < ngnames; ++i) {
      int32_t sid = buzzvm_string_register(vm, gnames[i], 1);   /* the symbol table has int32 keys */
      const buzzobj_t* o = buzzdict_get(vm->gsyms, &sid, buzzobj_t);
      if(i) sb_putc(&out, ',');
      if(o) dump_val(*o); else sb_puts(&out, "[\"none\"]");
   }
   sb_puts(&out, "],\"o\":[");
   for(int i = 0; i < nknown; ++i) {
      buzzobj_t o = known[i];
      if(i) sb_putc(&out, ',');
      if(o->o.type == BUZZTYPE_TABLE) {
         int first = 1;
         sb_puts(&out, "[\"t\",[");
         buzzdict_foreach(o->t.value, dump_entry, &first);
         sb_printf(&out, "],%u]", buzzdict_size(o->t.value));
      }
      else {
         const char* n = "";
         if(!o->c.value.isnative) {
            n = "oob";
            if(o->c.value.ref >= 0 && o->c.value.ref < buzzdarray_size(vm->flist)) {
               n = "other";
               for(unsigned k = 0; k < sizeof(hooks) / sizeof(hooks[0]); ++k)
                  if(buzzdarray_get(vm->flist, o->c.value.ref, buzzvm_funp) == hooks[k].f) n = hooks[k].n;
            }
         }
         sb_printf(&out, "[\"c\",%d,%d,\"%s\",", o->c.value.isnative ? 1 : 0, o->c.value.isnative ? (int)o->c.value.ref : 0, n);
         dump_seq(o->c.value.actrec);
         sb_putc(&out, ']');
      }
   }
   sb_printf(&out, "],\"l\":[%s]}", logcount ? logbuf.p : "");
   sb_reset(&logbuf);
   logcount = 0;
}

static int vm_op(int ac, char** av) {
   if(!strcmp(av[0], "vload")) {           /* vload R HEX|@file NAME... : bytecode in, machine ready; dump */
      newvm(atoi(av[1]));
      slot_t* s = slot(atoi(av[1]));
      if(av[2][0] == '@') {
         s->bc = slurp(av[2] + 1, &s->bcsize);
         if(!s->bc) exit(97);
      }
      else {
         int n;
         uint8_t* b = unhex(av[2], &n);
         s->bc = malloc(n);                /* exact size: reads past the end are seen */
         memcpy(s->bc, b, n);
         free(b);
         s->bcsize = n;
      }
      ngnames = 0;
      gnames = malloc(sizeof(char*) * (ac + 1));
      for(int i = 3; i < ac; ++i) gnames[ngnames++] = pct(av[i]);
      s->vm->heap->max_objs = 100000000;
      buzzvm_set_bcode(s->vm, s->bc, s->bcsize);
      if(s->vm->state == BUZZVM_STATE_READY)
         for(unsigned k = 0; k < sizeof(hooks) / sizeof(hooks[0]); ++k) reg(s->vm, hooks[k].n, hooks[k].f);
      sb_puts(&out, ",\"s\":");
      dump_vm(s->vm);
      sb_printf(&out, ",\"nf\":%d", (int)buzzdarray_size(s->vm->flist));
      sb_puts(&out, ",\"bc\":\"");
      if(av[2][0] == '@') for(uint32_t i = 0; i < s->bcsize; ++i) sb_printf(&out, "%02x", s->bc[i]);
      sb_putc(&out, '"');
      return 1;
   }
   if(!strcmp(av[0], "vstep")) {           /* vstep R N : N steps, a dump after each (stops two steps after the end) */
      slot_t* s = slot(atoi(av[1]));
      int n = atoi(av[2]), extra = 2;
      sb_puts(&out, ",\"ss\":[");
      for(int i = 0; i < n; ++i) {
         if(s->vm->state != BUZZVM_STATE_READY && extra-- == 0) break;
         buzzvm_state r = buzzvm_step(s->vm);
         if(i) sb_putc(&out, ',');
         sb_printf(&out, "{\"r\":%d,\"s\":", r == s->vm->state ? 1 : 0);
         dump_vm(s->vm);
         sb_putc(&out, '}');
      }
      sb_putc(&out, ']');
      return 1;
   }
   if(!strcmp(av[0], "vcall")) {           /* vcall R NAME VAL... : buzzvm_function_call, then a dump */
      slot_t* s = slot(atoi(av[1]));
      /* nobody prepares arguments on a machine that failed */
      int argc = s->vm->state == BUZZVM_STATE_ERROR ? 0 : ac - 3;
      for(int i = 0; i < argc; ++i) push_val(s->vm, av[3 + i]);
      buzzvm_state r = buzzvm_function_call(s->vm, av[2], argc);
      sb_printf(&out, ",\"r\":%d,\"s\":", r == s->vm->state ? 1 : 0);
      dump_vm(s->vm);
      return 1;
   }
   if(!strcmp(av[0], "vclos")) {           /* vclos R NAME VAL... : buzzvm_closure_call of a global's value */
      slot_t* s = slot(atoi(av[1]));
      buzzvm_state r = s->vm->state;
      if(r == BUZZVM_STATE_READY) {        /* to be called on a machine that is ready */
         buzzvm_pushs(s->vm, buzzvm_string_register(s->vm, av[2], 1));
         buzzvm_gload(s->vm);
         for(int i = 3; i < ac; ++i) push_val(s->vm, av[i]);
         r = buzzvm_closure_call(s->vm, ac - 3);
      }
      sb_printf(&out, ",\"r\":%d,\"s\":", r == s->vm->state ? 1 : 0);
      dump_vm(s->vm);
      return 1;
   }
   if(!strcmp(av[0], "vbp")) {             /* vbp R set|rm|clr N : breakpoints; lists them, and asks for those around */
      static int32_t asked[64];
      static int nasked = 0;
      slot_t* s = slot(atoi(av[1]));
      if(!dbgs) dbgs = buzzdebug_new();
      int32_t n = ac > 3 ? atoi(av[3]) : 0;
      if(!strcmp(av[2], "set")) {
         buzzdebug_breakpoint_set_offset(dbgs, n);
         if(nasked < 64) asked[nasked++] = n;
      }
      else if(!strcmp(av[2], "rm")) { if(n < buzzdebug_breakpoint_count(dbgs)) buzzdebug_breakpoint_remove(dbgs, n); }
      else buzzdebug_breakpoint_clear(dbgs);
      sb_puts(&out, ",\"bps\":[");
      for(int i = 0; i < (int)buzzdebug_breakpoint_count(dbgs); ++i) sb_printf(&out, "%s%d", i ? "," : "", (int)buzzdebug_breakpoint_get_offset(dbgs, i));
      sb_puts(&out, "],\"has\":[");
      for(int i = 0; i < nasked; ++i)
         sb_printf(&out, "%s[%d,%d],[%d,%d]", i ? "," : "", (int)asked[i], buzzdebug_breakpoint_exists(dbgs, asked[i]) ? 1 : 0,
                   (int)asked[i] + 1, buzzdebug_breakpoint_exists(dbgs, asked[i] + 1) ? 1 : 0);
      sb_puts(&out, "],\"s\":");
      dump_vm(s->vm);
      return 1;
   }
   if(!strcmp(av[0], "vcont")) {           /* vcont R : buzzdebug_continue, then a dump */
      slot_t* s = slot(atoi(av[1]));
      if(!dbgs) dbgs = buzzdebug_new();
      buzzvm_state r = buzzdebug_continue(s->vm, dbgs);
      sb_printf(&out, ",\"r\":%d,\"s\":", r == s->vm->state ? 1 : 0);
      dump_vm(s->vm);
      return 1;
   }
   if(!strcmp(av[0], "vdcall")) {          /* vdcall R NAME VAL... : buzzdebug_function_call, then a dump */
      slot_t* s = slot(atoi(av[1]));
      if(!dbgs) dbgs = buzzdebug_new();
      int argc = s->vm->state == BUZZVM_STATE_ERROR ? 0 : ac - 3;
      for(int i = 0; i < argc; ++i) push_val(s->vm, av[3 + i]);
      buzzvm_state r = buzzdebug_function_call(s->vm, av[2], argc, dbgs);
      sb_printf(&out, ",\"r\":%d,\"s\":", r == s->vm->state ? 1 : 0);
      dump_vm(s->vm);
      return 1;
   }
   if(!strcmp(av[0], "vpush")) {           /* vpush R VAL... : host pushes values; dump */
      slot_t* s = slot(atoi(av[1]));
      if(s->vm->state != BUZZVM_STATE_ERROR)
         for(int i = 2; i < ac; ++i) push_val(s->vm, av[i]);
      sb_puts(&out, ",\"s\":");
      dump_vm(s->vm);
      return 1;
   }
   return 0;
}
