/* For harnesses which include a source file of the library, so that its
   private types are available for typed storage: route its heap to the model. */
#ifndef REPO_H
#define REPO_H
#include "vt.h"
#define malloc vt_malloc
#define calloc vt_calloc
#define realloc vt_realloc
#define free vt_free
#define posix_memalign vt_posix_memalign
#define abort vt_abort
#ifdef VT_CBMC
#define memcpy vt_memcpy
#define memmove vt_memmove
#endif
#endif
