/* Stand-in for hash table of hat-util, which is not available offline

   Interface used by src_c of hat-event: table owns copies of its keys, set
   replaces value of existing key, iteration visits each entry once. */

#ifndef HAT_HT_H
#define HAT_HT_H

#include <stddef.h>

typedef struct hat_allocator_t hat_allocator_t;
typedef struct hat_ht_t hat_ht_t;
typedef struct hat_ht_entry_t *hat_ht_iter_t;

hat_ht_t *hat_ht_create(hat_allocator_t *allocator);
void hat_ht_destroy(hat_ht_t *ht);
size_t hat_ht_count(hat_ht_t *ht);
int hat_ht_set(hat_ht_t *ht, void *key, size_t key_size, void *value);
void *hat_ht_get(hat_ht_t *ht, void *key, size_t key_size);
hat_ht_iter_t hat_ht_iter_next(hat_ht_t *ht, hat_ht_iter_t iter);
void *hat_ht_iter_key(hat_ht_iter_t iter);
size_t hat_ht_iter_key_size(hat_ht_iter_t iter);
void *hat_ht_iter_value(hat_ht_iter_t iter);

#endif
