/* /repo's generator as one translation unit together with code, generated from its symbol table by tools in checks.py (rbg_state.h), that
 * saves, restores and scribbles over its file-level state: what other threads may do to it while the lock is free. */
#include "rbg.c"
#include "rbg_state.h"
