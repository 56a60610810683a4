/* Native implementation of the symbolic-input API.
   Under the symbolic engine these functions are intercepted by name; natively
   (replay) the inputs come from the file named by $SYM_INPUTS: one
   "<name> <value>" pair per line, consumed by name in order of occurrence. */
#define _GNU_SOURCE
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
struct ent { char name[96]; uint64_t v; int used; };
static struct ent *ents; static int n_ents, loaded;
static void load(void) {
  loaded = 1;
  const char *p = getenv("SYM_INPUTS");
  if (!p) return;
  FILE *f = fopen(p, "r");
  if (!f) { fprintf(stderr, "SYM: cannot open %s\n", p); _exit(97); }
  ents = calloc(100000, sizeof *ents);
  while (n_ents < 100000 && fscanf(f, "%95s %lu", ents[n_ents].name, &ents[n_ents].v) == 2) n_ents++;
  fclose(f);
}
uint64_t __sym_u64(const char *name, uint64_t len, uint32_t bits) {
  if (!loaded) load();
  char b[96]; if (len > 95) len = 95; memcpy(b, name, len); b[len] = 0;
  for (int i = 0; i < n_ents; i++)
    if (!ents[i].used && !strcmp(ents[i].name, b)) { ents[i].used = 1;
      return bits >= 64 ? ents[i].v : ents[i].v & ((1ull << bits) - 1); }
  return 0;
}
void __sym_assume(uint32_t c) { if (!c) { fprintf(stderr, "SYM: assume-failed\n"); _exit(96); } }
void __sym_fail(const char *m, uint64_t len) { printf("SYM-FAIL: %.*s\n", (int)len, m); fflush(stdout); _exit(98); }
void __sym_reach(const char *m, uint64_t len) { printf("SYM-REACH: %.*s\n", (int)len, m); fflush(stdout); }
uint64_t __sym_concretize(uint64_t v) { return v; }
uint32_t __sym_is_symbolic(void) { return 0; }
void __sym_note(const char *k, uint64_t kl, const char *m, uint64_t len) { printf("SYM-NOTE: %.*s: %.*s\n", (int)kl, k, (int)len, m); fflush(stdout);}
/* hand (kind, source text, produced text) to the oracle.  Natively: dump them
   to $SYM_ORACLE_DIR/<n>.{kind,src,out} for the replaying driver. */
static int n_or;
static void dump(const char *ext, const char *p, uint64_t l) {
  const char *d = getenv("SYM_ORACLE_DIR"); if (!d) return;
  char path[512]; snprintf(path, sizeof path, "%s/%d.%s", d, n_or, ext);
  FILE *f = fopen(path, "wb"); if (!f) _exit(97);
  fwrite(p, 1, l, f); fclose(f);
}
void __sym_oracle(const char *k, uint64_t kl, const char *a, uint64_t al, const char *b, uint64_t bl) {
  dump("kind", k, kl); dump("src", a, al); dump("out", b, bl); n_or++;
}
