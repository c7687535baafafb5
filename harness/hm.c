/* executes a stream of map operations and answers each: op u8, pad[7], key u64, value u64 (host order) */
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include "interflop/hashmap/vfc_hashmap.h"
#include "interflop/interflop_stdlib.h"
typedef struct { uint64_t op, key, val; } rec;
static int cmp(const void *a, const void *b) { const uint64_t *x = a, *y = b; return x[0] < y[0] ? -1 : x[0] > y[0] ? 1 : x[1] < y[1] ? -1 : x[1] > y[1]; }
int main(void) {
  interflop_set_handler("malloc", malloc); interflop_set_handler("calloc", calloc); interflop_set_handler("free", free);
  rec r; vfc_hashmap_t m[4]; for (int i = 0; i < 4; i++) m[i] = vfc_hashmap_create();
  while (fread(&r, sizeof r, 1, stdin) == 1) {
    vfc_hashmap_t h = m[(r.op >> 8) & 3]; uint64_t a;
    switch (r.op & 255) {
    case 0: vfc_hashmap_insert(h, r.key, (void *)r.val); break;
    case 1: vfc_hashmap_remove(h, r.key); break;
    case 2: a = (unsigned char)vfc_hashmap_have(h, r.key) != 0; fwrite(&a, 8, 1, stdout); break;
    case 3: a = (uint64_t)vfc_hashmap_get(h, r.key); fwrite(&a, 8, 1, stdout); break;
    case 4: a = vfc_hashmap_num_items(h); fwrite(&a, 8, 1, stdout); break;
    case 5: { /* enumeration as the wrapper and the backends do it */
      uint64_t n = 0, *t = malloc(16 * (h->capacity + 1));
      for (uint64_t i = 0; i < h->capacity; i++) if (get_value_at(h->items, i) != 0 && get_value_at(h->items, i) != 1) { t[2 * n] = get_key_at(h->items, i); t[2 * n + 1] = get_value_at(h->items, i); n++; }
      qsort(t, n, 16, cmp); fwrite(&n, 8, 1, stdout); fwrite(t, 16, n, stdout); free(t); break; }
    case 6: vfc_hashmap_destroy(h); m[(r.op >> 8) & 3] = vfc_hashmap_create(); break;
    }
  }
  for (int i = 0; i < 4; i++) vfc_hashmap_destroy(m[i]);
  return 0;
}
