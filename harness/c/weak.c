//@use rt.inc
//@entry weak q=90 shards=8 depth=7 covers=done,cleared
//@entry chain q=90 shards=8 depth=7 covers=done,cleared
//@bounds weak pointers to pairs, records, strings, refs and weak pointers; targets and weak pointers aged by up to 3 collections at levels 0-2, heaps of 3 generations; up to 3 weak pointers
#include "rt.inc"
#include "shadow.inc"
void entry_weak(void) {
  rt_init(256 * ONE_K, 3); sh_reset();
  static const int tg[] = { K_PAIR, K_REC3, K_STR, K_REF, K_WEAK };
  int k = tg[sym_choose(5)];
  int x = sh_new(k, -1, -1); sh_root(0, x);
  int na = sym_choose(4); for (int i = 0; i < na; i++) sh_gc(i);
  int w = sh_new(K_WEAK, x, -1); sh_root(1, w);
  int w2 = sh_new(K_WEAK, x, -1); sh_root(2, w2);
  int nb = sym_choose(3); for (int i = 0; i < nb; i++) sh_gc(sym_choose(3));
  int keep = sym_choose(2); if (! keep) sh_root(0, -1);
  else if (sym_choose(2)) { int h = sh_new(K_REC1, x, -1); sh_root(3, h); sh_root(0, -1); }
  sh_gc(sym_choose(3)); sh_gc(3);
  if (! keep) sym_assert(O[w].dead && O[w2].dead, "a full collection left a weak pointer to an unreachable object");
  sym_cover("done");
}

/* weak pointers reachable only through other objects, targets that die or live at any time, two targets */
void entry_chain(void) {
  rt_init(256 * ONE_K, 3); sh_reset();
  int x = sh_new(sym_choose(2) ? K_PAIR : K_STR, -1, -1); sh_root(0, x);
  int y = sh_new(K_REC3, sym_choose(2) ? x : -1, -1); sh_root(1, y);
  int w = sh_new(K_WEAK, x, -1); sh_root(2, w);
  int na = sym_choose(3); for (int i = 0; i < na; i++) sh_gc(i);
  int h = sh_new(K_REF, w, -1); sh_root(3, h); sh_root(2, -1);
  int v = sh_new(K_WEAK, y, -1); sh_root(4, v);
  int u = sh_new(K_WEAK, -1, -1); sh_root(5, u);
  int n = BOUND(3, 4);
  for (int i = 0; i < n; i++) switch (sym_choose(5)) {
    case 0: sh_gc(0); break; case 1: sh_gc(1); break; case 2: sh_gc(2); break;
    case 3: sh_root(0, -1); break; case 4: sh_root(1, -1); break; }
  sh_gc(3); sh_gc(3); sh_reachable();
  if (! sh_reach[x]) sym_assert(O[w].dead, "a full collection left a weak pointer to an unreachable object");
  if (! sh_reach[y]) sym_assert(O[v].dead, "a full collection left a weak pointer to an unreachable object");
  sym_assert(! O[u].dead, "a weak pointer to an unboxed value was cleared");
  sym_cover("done");
}
