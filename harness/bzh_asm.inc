/* assembler, disassembler, debug information */
static uint8_t* a_buf;
static uint32_t a_size;
static buzzdebug_t a_dbg;

static void a_entry(const void* key, void* data, void* params) {
   buzzdebug_entry_t e = *(buzzdebug_entry_t*)data;
   const char* bn = strrchr(e->fname, '/');
   sb_printf(&out, "%s[%d,%lld,%lld,", (*(int*)params)++ ? "," : "", *(const int32_t*)key, (long long)e->line, (long long)e->col);
   sb_json(&out, bn ? bn + 1 : e->fname);
   sb_puts(&out, "]");
}
static void a_entries(buzzdebug_t d) {
   int n = 0;
   sb_puts(&out, ",\"dbg\":[");
   buzzdict_foreach(d->off2script, a_entry, &n);
   sb_puts(&out, "]");
}
static void a_hex(const uint8_t* b, uint32_t n) {
   sb_puts(&out, ",\"bytes\":\"");
   for(uint32_t i = 0; i < n; ++i) sb_printf(&out, "%02x", b[i]);
   sb_puts(&out, "\"");
}
static void unpct(char* s) {
   char* w = s;
   for(; *s; ++s) {
      if(*s == '%' && s[1] && s[2]) { char x[3] = { s[1], s[2], 0 }; *w++ = (char)strtol(x, NULL, 16); s += 2; }
      else *w++ = *s;
   }
   *w = 0;
}

static void a_lines(const char* fn) {
   FILE* f = fopen(fn, "r");
   char* l = NULL;
   size_t cap = 0;
   ssize_t r;
   int n = 0;
   sb_puts(&out, ",\"lines\":[");
   while(f && (r = getline(&l, &cap, f)) > 0) {
      if(l[r-1] == '\n') l[r-1] = 0;
      if(n++) sb_puts(&out, ",");
      sb_json(&out, l);
   }
   free(l);
   if(f) fclose(f);
   sb_puts(&out, "]");
}
static int a_start(void) {
   int n = a_buf[0] + 256 * a_buf[1], p = 2;
   for(; n > 0; --n) p += strlen((char*)a_buf + p) + 1;
   return p;
}
#define A_ARG(OP) ((OP) >= BUZZVM_INSTR_PUSHF ? 5 : 1)
static int a_jump(const char* t) { return strncmp(t, "jump ", 5) == 0 || strncmp(t, "jumpz ", 6) == 0 || strncmp(t, "jumpnz ", 7) == 0; }
/* a listing as assembly again: offsets dropped, jump targets as labels */
static void a_relabel(const char* from, const char* to) {
   FILE* f = fopen(from, "r");
   FILE* g = fopen(to, "w");
   char* l = NULL;
   size_t cap = 0;
   char* target = calloc(1, a_size + 1);
   for(uint32_t p = a_start(); p < a_size && a_buf[p] < BUZZVM_INSTR_COUNT; p += A_ARG(a_buf[p]))
      if(a_buf[p] == BUZZVM_INSTR_JUMP || a_buf[p] == BUZZVM_INSTR_JUMPZ || a_buf[p] == BUZZVM_INSTR_JUMPNZ) {
         int32_t x;
         memcpy(&x, a_buf + p + 1, 4);
         if(x >= 0 && (uint32_t)x < a_size) target[x] = 1;
      }
   while(getline(&l, &cap, f) > 0) {
      if(l[0] == '!' || l[0] == '\'') { fputs(l, g); continue; }
      uint32_t o = atoi(l);
      char* t = strchr(l, '\t');
      if(!t) continue;
      ++t;
      if(o < a_size && target[o]) fprintf(g, "@to%u\n", o);
      if(a_jump(t)) {
         char* b = strchr(t, ' ');
         *b++ = 0;
         fprintf(g, "\t%s @to%s", t, b);
      }
      else fprintf(g, "\t%s", t);
   }
   free(l);
   free(target);
   fclose(f);
   fclose(g);
}

/* ascat FILE: assemble and show; relab LISTING OUT; l1all; as FILE: assemble; asx FILE: assemble, keep nothing; ls OUT: list what was assembled; l1 OFF: one instruction;
   co SRC BASE: compile; dn; ds OFF LINE COL FILE; do OFF; dp LINE COL FILE; df FILE: to the file and back */
static int asm_op(int ac, char** av) {
   const char* op = av[0];
   if(strcmp(op, "as") == 0 || strcmp(op, "asx") == 0 || strcmp(op, "ascat") == 0) {
      uint8_t* b = NULL;
      uint32_t n = 0;
      buzzdebug_t d = NULL;
      int rc = buzz_asm(av[1], &b, &n, &d);
      sb_printf(&out, ",\"rc\":%d", rc);
      if(rc == 0) { a_hex(b, n); a_entries(d); }
      if(op[2] == 'c') a_lines(av[1]);
      if(op[2] != 'x' && rc == 0) { a_buf = realloc(b, n); a_size = n; a_dbg = d; }
   }
   else if(strcmp(op, "ls") == 0) {
      if(!a_buf) return 1;
      int rc = buzz_deasm(a_buf, a_size, a_dbg, av[1]);
      sb_printf(&out, ",\"rc\":%d", rc);
      a_lines(av[1]);
   }
   else if(strcmp(op, "relab") == 0) { if(a_buf) a_relabel(av[1], av[2]); }
   else if(strcmp(op, "l1all") == 0) {
      int n = 0;
      sb_puts(&out, ",\"all\":[");
      for(uint32_t p = a_buf ? a_start() : 0; a_buf && p < a_size && a_buf[p] < BUZZVM_INSTR_COUNT; p += A_ARG(a_buf[p])) {
         char* t = NULL;
         int rc = buzz_instruction_deasm(a_buf, p, &t);
         sb_printf(&out, "%s[%u,", n++ ? "," : "", p);
         sb_json(&out, rc ? t : "?");
         sb_puts(&out, "]");
         if(rc) free(t);
      }
      sb_puts(&out, "]");
   }
   else if(strcmp(op, "co") == 0) {
      int rc = compile(av[1], av[2]);
      sb_printf(&out, ",\"rc\":%d", rc);
   }
   else if(strcmp(op, "dn") == 0) { a_dbg = buzzdebug_new();  }
   else if(strcmp(op, "ds") == 0) {
      unpct(av[4]);
      buzzdebug_info_set(a_dbg, atoi(av[1]), atoi(av[2]), atoi(av[3]), av[4]);
      
   }
   else if(strcmp(op, "do") == 0) {
      int32_t o = atoi(av[1]);
      const buzzdebug_entry_t* e = buzzdebug_info_get_fromoffset(a_dbg, &o);
      int x = buzzdebug_info_exists_offset(a_dbg, &o) ? 1 : 0;
      if(x != (e ? 1 : 0)) sb_puts(&out, ",\"r\":[\"exists\"]");
      else if(!e) sb_puts(&out, ",\"r\":[]");
      else {
         sb_printf(&out, ",\"r\":[%lld,%lld,", (long long)(*e)->line, (long long)(*e)->col);
         sb_json(&out, (*e)->fname);
         sb_puts(&out, "]");
      }
   }
   else if(strcmp(op, "dp") == 0) {
      unpct(av[3]);
      const int32_t* o = buzzdebug_info_get_fromscript(a_dbg, atoi(av[1]), atoi(av[2]), av[3]);
      sb_printf(&out, ",\"r\":%d", o ? *o : -1);
   }
   else if(strcmp(op, "df") == 0) {
      int w = buzzdebug_tofile(av[1], a_dbg);
      buzzdebug_destroy(&a_dbg);
      a_dbg = buzzdebug_new();
      int r = buzzdebug_fromfile(a_dbg, av[1]);
      sb_printf(&out, ",\"w\":%d,\"r\":%d", w, r);
      a_entries(a_dbg);
   }
   else return 0;
   return 1;
}
