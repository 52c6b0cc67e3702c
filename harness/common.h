#ifndef COMMON_H
#define COMMON_H
#include <axl.h>
#include <stdlib.h>
#include <string.h>
#include <stdio.h>
#include "sym.h"
/* a private heap snapshot for leak checks */
#define HEAP_MARK long heap_mark_ = sym_live ()
#define HEAP_CHECK CHECK (sym_live () == heap_mark_, "every block allocated has been released")
static int str_eq (const char * a, const char * b) { return (a == NULL || b == NULL) ? a == b : strcmp (a, b) == 0; }
#endif
