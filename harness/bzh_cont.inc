/* ------------------------------------------------------------------ */
/* containers: dynamic arrays, dictionaries, sets, the string manager   */
/* Elements carry a uid; every byte of an element is derived from it.   */
static struct { int kind; void* p; uint32_t es; char key[8]; } conts[16];
static sb_t gone;                 /* uids handed to a destructor, in order */
static void gone_add(long u) { sb_printf(&gone, "%s%ld", gone.n ? "," : "", u); }
static void el_put(uint8_t* b, uint32_t es, int u) { for(uint32_t i = 0; i < es; ++i) b[i] = (uint8_t)(u + 37 * i); }
static int el_get(const uint8_t* b, uint32_t es) {
   for(uint32_t i = 1; i < es; ++i) if(b[i] != (uint8_t)(b[0] + 37 * i)) return -1;
   return b[0];
}
static uint32_t cur_es;
static void da_gone(uint32_t pos, void* data, void* params) { gone_add(el_get(data, cur_es)); }
static void da_each(uint32_t pos, void* data, void* params) {
   sb_printf(&out, "%s[%u,%d]", *(int*)params ? "," : "", pos, el_get(data, cur_es));
   *(int*)params = 1;
}
static int da_cmp(const void* a, const void* b) {
   int x = el_get(a, cur_es), y = el_get(b, cur_es);
   return x < y ? -1 : x > y;
}
static void gone_out() { sb_printf(&out, ",\"gone\":[%s]", gone.p); }
static void da_dump(buzzdarray_t d, uint32_t es) {
   int f = 0;
   sb_printf(&out, ",\"size\":%lld,\"each\":[", (long long)buzzdarray_size(d));
   cur_es = es;
   buzzdarray_foreach(d, da_each, &f);
   sb_puts(&out, "],\"get\":[");
   for(int64_t i = 0; i < buzzdarray_size(d); ++i)
      sb_printf(&out, "%s%d", i ? "," : "", el_get((uint8_t*)d->data + i * es, es));
   sb_printf(&out, "],\"empty\":%d,\"room\":%d", buzzdarray_isempty(d) ? 1 : 0, buzzdarray_capacity(d) >= buzzdarray_size(d));
   if(es == 4 && !buzzdarray_isempty(d)) {
      uint32_t x = buzzdarray_last(d, uint32_t);
      sb_printf(&out, ",\"last\":%d", el_get((uint8_t*)&x, 4));
   }
}
/* dictionaries */
typedef union { int16_t i16; uint16_t u16; int32_t i32; uint32_t u32; const char* str; } dkey_t;
static uint32_t same_hash(const void* k) { return 7; }
static uint32_t big_hash(const void* k) { return 0xFFFFFFF0u + *(const uint32_t*)k * 3; }
static const char* strpool[256]; static int nstrpool;
static const char* pool(const char* s) {
   for(int i = 0; i < nstrpool; ++i) if(!strcmp(strpool[i], s)) return strdup(s);   /* a different pointer, same text */
   if(nstrpool < 256) strpool[nstrpool++] = strdup(s);
   return strdup(s);
}
static uint32_t key_size(const char* k) { return k[0] == 's' ? sizeof(char*) : strstr(k, "16") ? 2 : 4; }
static void key_put(dkey_t* d, const char* kind, const char* s) {
   memset(d, 0, sizeof(*d));
   if(kind[0] == 's') d->str = pool(s);
   else {
      long long v = atoll(s);
      if(strstr(kind, "16")) d->u16 = (uint16_t)v; else d->u32 = (uint32_t)v;
   }
}
static void key_json(const char* kind, const void* k) {
   if(kind[0] == 's') sb_json(&out, *(const char**)k);
   else if(!strncmp(kind, "i16", 3)) sb_printf(&out, "\"%d\"", *(const int16_t*)k);
   else if(!strncmp(kind, "u16", 3)) sb_printf(&out, "\"%u\"", *(const uint16_t*)k);
   else if(!strncmp(kind, "i32", 3)) sb_printf(&out, "\"%d\"", *(const int32_t*)k);
   else sb_printf(&out, "\"%u\"", *(const uint32_t*)k);
}
static void di_gone(const void* key, void* data, void* params) {
   gone_add(*(int32_t*)data);
   free((void*)key); free(data);
}
typedef struct { int f; const char* kind; } dump_t;
static void di_each(const void* key, void* data, void* params) {
   dump_t* d = params;
   sb_puts(&out, d->f ? ",[" : "["); d->f = 1;
   key_json(d->kind, key);
   sb_printf(&out, ",%d]", *(int32_t*)data);
}
/* sets: ordered by key only */
typedef struct { int32_t key, uid; } sel_t;
static int se_cmp(const void* a, const void* b) {
   int32_t x = ((const sel_t*)a)->key, y = ((const sel_t*)b)->key;
   return x < y ? -1 : x > y;
}
static void se_gone(void* data, void* params) { gone_add(((sel_t*)data)->uid); }
static void se_each(void* data, void* params) {
   dump_t* d = params;
   sb_printf(&out, "%s[\"%d\",%d]", d->f ? "," : "", ((sel_t*)data)->key, ((sel_t*)data)->uid);
   d->f = 1;
}
static uint16_t smids[16][512]; static int nsmids[16];   /* ids ever handed out */
static char* smtext[16][512]; static uint16_t smtid[16][512]; static int nsmtext[16];   /* text -> last id */
static int sm_last(int ix, const char* t) {
   for(int i = 0; i < nsmtext[ix]; ++i) if(!strcmp(smtext[ix][i], t)) return smtid[ix][i];
   return -1;
}
static void sm_saw(int ix, uint16_t id, const char* t) {
   int i = 0;
   while(i < nsmtext[ix] && strcmp(smtext[ix][i], t)) ++i;
   if(i == nsmtext[ix] && i < 512) { smtext[ix][i] = strdup(t); ++nsmtext[ix]; }
   smtid[ix][i] = id;
   for(i = 0; i < nsmids[ix]; ++i) if(smids[ix][i] == id) return;
   if(nsmids[ix] < 512) smids[ix][nsmids[ix]++] = id;
}
static int cont_op(int ac, char** av) {
   static const char* const names[] = { "da", "di", "se", "sm" };
   int kind = -1;
   for(int i = 0; i < 4; ++i) if(!strcmp(av[0], names[i])) kind = i;
   if(kind < 0) return 0;
   int ix = atoi(av[1]);
   const char* op = av[2];
   void** pp = &conts[ix].p;
   sb_reset(&gone);
   sb_printf(&out, ",\"c\":%d", ix);
   if(kind == 0) {
      uint32_t es = conts[ix].es;
      uint8_t el[64];
      if(!strcmp(op, "new")) {
         conts[ix].es = es = atoi(av[4]);
         *pp = buzzdarray_new(atoi(av[3]), es, atoi(av[5]) ? da_gone : NULL);
      }
      else if(!strcmp(op, "buf")) {
         conts[ix].es = es = atoi(av[3]);
         uint8_t* b = malloc(64 * es + 1);
         for(int i = 5; i < ac; ++i) el_put(b + (i - 5) * es, es, atoi(av[i]));
         *pp = buzzdarray_frombuffer(b, (ac - 5) * es, es, atoi(av[4]) ? da_gone : NULL);
         free(b);
      }
      cur_es = es;
      buzzdarray_t d = *pp;
      int u = ac > 4 ? atoi(av[4]) : 0;
      uint32_t pos = ac > 3 ? (uint32_t)strtoul(av[3], 0, 10) : 0;
      if(!strcmp(op, "ins"))       { el_put(el, es, u); buzzdarray_insert(d, pos, el); }
      else if(!strcmp(op, "slot")) { uint8_t* p = buzzdarray_makeslot(d, pos); el_put(p, es, u); }
      else if(!strcmp(op, "push")) { el_put(el, es, atoi(av[3])); buzzdarray_push(d, el); }
      else if(!strcmp(op, "pop"))  buzzdarray_pop(d);
      else if(!strcmp(op, "rem"))  buzzdarray_remove(d, pos);
      else if(!strcmp(op, "clear")) buzzdarray_clear(d, pos);
      else if(!strcmp(op, "set"))  { el_put(el, es, u); buzzdarray_set(d, pos, el); }
      else if(!strcmp(op, "find")) { el_put(el, es, atoi(av[3])); sb_printf(&out, ",\"ret\":%u", buzzdarray_find(d, da_cmp, el)); }
      else if(!strcmp(op, "sort")) buzzdarray_sort(d, da_cmp);
      else if(!strcmp(op, "clone")) {
         int j = atoi(av[3]);
         conts[j].es = es;
         conts[j].p = buzzdarray_clone(d);
         sb_puts(&out, ",\"other\":{\"x\":0");
         da_dump(conts[j].p, es);
         sb_puts(&out, "}");
      }
      else if(!strcmp(op, "free")) { buzzdarray_destroy((buzzdarray_t*)pp); sb_printf(&out, ",\"null\":%d", *pp == NULL); }
      gone_out();
      if(*pp) da_dump(*pp, es);
      return 1;
   }
   if(kind == 1) {
      char* k = conts[ix].key;
      if(!strcmp(op, "new")) {
         strncpy(k, av[3], 7);
         buzzdict_hashfunp h = 0; buzzdict_key_cmpp c = 0;
         if(k[0] == 's')                { h = buzzdict_strkeyhash;    c = buzzdict_strkeycmp; }
         else if(!strncmp(k, "i16", 3)) { h = buzzdict_int16keyhash;  c = buzzdict_int16keycmp; }
         else if(!strncmp(k, "u16", 3)) { h = buzzdict_uint16keyhash; c = buzzdict_uint16keycmp; }
         else if(!strncmp(k, "i32", 3)) { h = buzzdict_int32keyhash;  c = buzzdict_int32keycmp; }
         else                           { h = buzzdict_uint32keyhash; c = buzzdict_uint32keycmp; }
         if(strchr(k, '=')) h = same_hash;
         if(strchr(k, '+')) h = big_hash;
         *pp = buzzdict_new(atoi(av[4]), key_size(k), sizeof(int32_t), h, c, atoi(av[5]) ? di_gone : NULL);
      }
      buzzdict_t d = *pp;
      dkey_t key;
      char* ks = ac > 3 ? pct(av[3]) : NULL;
      if(ks) key_put(&key, k, ks);
      if(!strcmp(op, "set"))      { int32_t u = atoi(av[4]); buzzdict_set(d, &key, &u); }
      else if(!strcmp(op, "rem")) sb_printf(&out, ",\"ret\":%d", buzzdict_remove(d, &key));
      else if(!strcmp(op, "get")) {
         const int32_t* v = buzzdict_get(d, &key, int32_t);
         sb_printf(&out, ",\"has\":%d,\"ret\":%d", buzzdict_exists(d, &key) ? 1 : 0, v ? *v : -1);
      }
      else if(!strcmp(op, "free")) { buzzdict_destroy((buzzdict_t*)pp); sb_printf(&out, ",\"null\":%d", *pp == NULL); }
      gone_out();
      if(*pp) {
         dump_t dd = { 0, k };
         sb_printf(&out, ",\"size\":%u,\"empty\":%d,\"each\":[", buzzdict_size((buzzdict_t)*pp), buzzdict_isempty((buzzdict_t)*pp) ? 1 : 0);
         buzzdict_foreach(*pp, di_each, &dd);
         sb_puts(&out, "]");
      }
      return 1;
   }
   if(kind == 2) {
      sel_t e = { ac > 3 ? atoi(av[3]) : 0, ac > 4 ? atoi(av[4]) : 0 };
      if(!strcmp(op, "new")) *pp = buzzset_new(sizeof(sel_t), se_cmp, e.key ? se_gone : NULL);
      else if(!strcmp(op, "ins")) buzzset_insert(*pp, &e);
      else if(!strcmp(op, "rem")) buzzset_remove(*pp, &e);
      else if(!strcmp(op, "get")) { const sel_t* r = buzzset_fetch(*pp, &e, sel_t); sb_printf(&out, ",\"has\":%d,\"ret\":%d", r != NULL, r ? r->uid : -1); }
      else if(!strcmp(op, "free")) { buzzset_destroy((buzzset_t*)pp); sb_printf(&out, ",\"null\":%d", *pp == NULL); }
      gone_out();
      if(*pp) {
         dump_t dd = { 0, 0 };
         sb_printf(&out, ",\"size\":%u,\"empty\":%d,\"each\":[", buzzset_size((buzzset_t)*pp), buzzset_isempty((buzzset_t)*pp) ? 1 : 0);
         buzzset_foreach(*pp, se_each, &dd);
         sb_puts(&out, "]");
      }
      return 1;
   }
   /* string manager */
   if(!strcmp(op, "new")) *pp = buzzstrman_new();
   buzzstrman_t m = *pp;
   if(!strcmp(op, "reg")) {
      char* s = pct(av[3]);
      uint16_t id = buzzstrman_register(m, s, atoi(av[4]));
      sb_printf(&out, ",\"id\":%u", id);
      sm_saw(ix, id, s);
      memset(s, 'Z', strlen(s));           /* the manager keeps its own copy */
      free(s);
   }
   else if(!strcmp(op, "get")) {
      int id = av[3][0] == '#' ? atoi(av[3] + 1) : sm_last(ix, pct(av[3]));
      const char* s = buzzstrman_get(m, (uint16_t)id);
      sb_printf(&out, ",\"id\":%d", id < 0 ? 65535 : id);
      sb_printf(&out, ",\"has\":%d,\"ret\":", s != NULL);
      sb_json(&out, s ? s : "");
   }
   else if(!strcmp(op, "clear")) buzzstrman_gc_clear(m);
   else if(!strcmp(op, "mark")) {
      int id = sm_last(ix, pct(av[3]));
      if(id >= 0) buzzstrman_gc_mark(m, (uint16_t)id);
      sb_printf(&out, ",\"id\":%d", id);
   }
   else if(!strcmp(op, "prune")) buzzstrman_gc_prune(m);
   else if(!strcmp(op, "burn")) {
      /* burn ROUNDS N IDS : in every round N short-lived strings are registered, then
         everything but the given ids and what is protected is collected; reports the ids
         they got as ranges, and how many did not denote their own text */
      int rounds = atoi(av[3]), n = atoi(av[4]), wrong = 0;
      uint16_t* ids = malloc(2 * n);
      char* seen = calloc(65536, 1);
      char b[32];
      for(int r = 0; r < rounds; ++r) {
         for(int i = 0; i < n; ++i) { sprintf(b, "~burn%d", i); ids[i] = buzzstrman_register(m, b, 0); seen[ids[i]] = 1; }
         for(int i = 0; i < n; ++i) {
            sprintf(b, "~burn%d", i);
            const char* t = buzzstrman_get(m, ids[i]);
            if(!t || strcmp(t, b)) ++wrong;
         }
         buzzstrman_gc_clear(m);
         for(char* q = av[5]; q && *q; q = strchr(q, ',') ? strchr(q, ',') + 1 : NULL)
            {
               char t[1024]; int k = 0;
               for(; q[k] && q[k] != ',' && k < 1023; ++k) t[k] = q[k];
               t[k] = 0;
               char* t2 = pct(t);
               int id = sm_last(ix, t2);
               const char* now = id >= 0 ? buzzstrman_get(m, (uint16_t)id) : NULL;
               if(now && !strcmp(now, t2)) buzzstrman_gc_mark(m, (uint16_t)id);
            }
         buzzstrman_gc_prune(m);
         for(int i = 0; i < n; ++i) {
            const char* t = buzzstrman_get(m, ids[i]);
            if(t) ++wrong;
         }
      }
      sb_printf(&out, ",\"wrong\":%d,\"runs\":[", wrong);
      for(int i = 0, f = 0; i < 65536; ) {
         if(!seen[i]) { ++i; continue; }
         int j = i;
         while(j + 1 < 65536 && seen[j + 1]) ++j;
         sb_printf(&out, "%s[%d,%d]", f ? "," : "", i, j); f = 1;
         i = j + 1;
      }
      sb_puts(&out, "]");
      free(ids);
      free(seen);
   }
   else if(!strcmp(op, "free")) { buzzstrman_destroy((buzzstrman_t*)pp); sb_printf(&out, ",\"null\":%d", *pp == NULL); return 1; }
   /* what every id handed out so far denotes now */
   sb_puts(&out, ",\"all\":[");
   for(int i = 0, f = 0; i < nsmids[ix]; ++i) {
      const char* t = buzzstrman_get(m, smids[ix][i]);
      if(!t) continue;
      sb_printf(&out, "%s[%u,", f ? "," : "", smids[ix][i]); f = 1;
      sb_json(&out, t);
      sb_puts(&out, "]");
   }
   sb_puts(&out, "]");
   return 1;
}
