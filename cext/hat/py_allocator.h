#ifndef HAT_PY_ALLOCATOR_H
#define HAT_PY_ALLOCATOR_H

#include <hat/ht.h>

extern hat_allocator_t hat_py_allocator;

#endif
