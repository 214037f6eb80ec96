/* Message socket at the bottom of a protocol stack: delivers a queue of
   arbitrary messages, records sent messages, may fail at any call. */
#ifndef FAKEM_H
#define FAKEM_H
#include "m_handle.h"
#ifndef FM_N
#define FM_N 2        /* inbound messages */
#endif
#ifndef FM_SZ
#define FM_SZ 4       /* largest message */
#endif
#ifndef FM_LIST
#define FM_LIST 4
#endif
struct fakem {
    struct dill_hvfs hvfs;
    struct dill_msock_vfs mvfs;
    uint8_t rx[FM_N * FM_SZ];
    size_t rxlen[FM_N];
    int rxpos;                    /* messages consumed */
    uint8_t tx[FM_N * FM_SZ];
    size_t txlen[FM_N];
    int ntx;
    int rxmayfail, txmayfail;
    int rxfailed, txfailed;
    int rxtrunc, rxbig, badlist, closed;
    int64_t deadline;
    int nrecv, nsend;
};
/* One-dimensional on purpose: cbmc mishandles symbolic updates of nested arrays. */
#define FMRX(f, k) ((f).rx + (k) * FM_SZ)
#define FMTX(f, k) ((f).tx + (k) * FM_SZ)
int fakem_open(struct fakem *f);
#endif
