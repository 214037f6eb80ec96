/* Bytestream socket at the bottom of a protocol stack: delivers an arbitrary
   byte string, records what is sent, may fail at any call. */
#ifndef FAKEB_H
#define FAKEB_H
#include "m_handle.h"
#ifndef FB_RX
#define FB_RX 16
#endif
#ifndef FB_TX
#define FB_TX 32
#endif
#ifndef FB_LIST
#define FB_LIST 4      /* longest list passed down */
#endif
#ifndef FB_ITEM
#define FB_ITEM 4      /* largest buffer passed down */
#endif
struct fakeb {
    struct dill_hvfs hvfs;
    struct dill_bsock_vfs bvfs;
    uint8_t rx[FB_RX];
    size_t rxlen, rxpos;
    uint8_t tx[FB_TX];
    size_t txlen;
    int rxmayfail, txmayfail;     /* environment may inject failures */
    int rxfailed, txfailed;       /* errno of the first failure, sticky */
    int rxtrunc;                  /* recv ran past the end of the input */
    int badlist;                  /* a malformed list was passed down */
    int closed;                   /* number of times closed */
    int64_t deadline;             /* deadline passed by the last call */
    int nrecv, nsend;
};
int fakeb_open(struct fakeb *f);  /* returns handle */
int fakeb_openl(struct fakeb *f); /* same, not a bytestream (no bsock type) */
#endif
