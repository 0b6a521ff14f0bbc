#include <stdlib.h>
#include <string.h>
#include <hat/py_allocator.h>

struct hat_allocator_t {
    int unused;
};

typedef struct hat_ht_entry_t {
    struct hat_ht_entry_t *next;
    void *value;
    size_t key_size;
    char *key;
} entry_t;

struct hat_ht_t {
    entry_t *head;
};

hat_allocator_t hat_py_allocator;

hat_ht_t *hat_ht_create(hat_allocator_t *allocator) {
    if (allocator != &hat_py_allocator)
        return NULL;
    return calloc(1, sizeof(hat_ht_t));
}

void hat_ht_destroy(hat_ht_t *ht) {
    entry_t *entry = ht->head;
    while (entry) {
        entry_t *next = entry->next;
        memset(entry->key, 0xDD, entry->key_size);
        free(entry->key);
        memset(entry, 0xDD, sizeof(*entry));
        free(entry);
        entry = next;
    }
    memset(ht, 0xDD, sizeof(*ht));
    free(ht);
}

static entry_t *find(hat_ht_t *ht, void *key, size_t key_size) {
    for (entry_t *entry = ht->head; entry; entry = entry->next)
        if (entry->key_size == key_size &&
            !memcmp(entry->key, key, key_size))
            return entry;
    return NULL;
}

size_t hat_ht_count(hat_ht_t *ht) {
    size_t result = 0;
    for (entry_t *entry = ht->head; entry; entry = entry->next)
        result += 1;
    return result;
}

int hat_ht_set(hat_ht_t *ht, void *key, size_t key_size, void *value) {
    entry_t *entry = find(ht, key, key_size);
    if (!entry) {
        entry = malloc(sizeof(entry_t));
        char *copy = malloc(key_size + 1);
        if (!entry || !copy) {
            free(entry);
            free(copy);
            return 1;
        }
        memcpy(copy, key, key_size);
        copy[key_size] = 0x7F;
        *entry = (entry_t){
            .next = ht->head, .key_size = key_size, .key = copy};
        ht->head = entry;
    }
    entry->value = value;
    return 0;
}

void *hat_ht_get(hat_ht_t *ht, void *key, size_t key_size) {
    entry_t *entry = find(ht, key, key_size);
    return entry ? entry->value : NULL;
}

hat_ht_iter_t hat_ht_iter_next(hat_ht_t *ht, hat_ht_iter_t iter) {
    return iter ? iter->next : ht->head;
}

void *hat_ht_iter_key(hat_ht_iter_t iter) { return iter->key; }

size_t hat_ht_iter_key_size(hat_ht_iter_t iter) { return iter->key_size; }

void *hat_ht_iter_value(hat_ht_iter_t iter) { return iter->value; }
