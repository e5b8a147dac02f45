// Walk over the live structure of a tree, see verify.c.
#pragma once
#include <stddef.h>
struct betree;
struct betree_verify_result {
    size_t walked, cdirs, pnodes, leaves, max_depth;
};
void betree_verify_walk(const struct betree* tree, void (*on_sub)(void*, const void*), void (*on_violation)(void*, const char*), void* user, struct betree_verify_result* res);
