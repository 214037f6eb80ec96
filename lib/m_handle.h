/* Contract model of the handle layer (handle.c is verified on its own). */
#ifndef M_HANDLE_H
#define M_HANDLE_H
#define DILL_DISABLE_RAW_NAMES
#include "libdillimpl.h"
extern int mh_may_fail;      /* hmake/hown may fail (ENOMEM, ECANCELED) */
extern int mh_fail_at;       /* if n > 0, the n-th hmake from now on fails */
extern int mh_open;          /* number of open handles */
int mh_isopen(int h);
#endif
