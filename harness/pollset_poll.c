/* Waiting on descriptors, poll backend. */
//@ prop: P02
//@ engine: symx
//@ nosrc: bsock msock iol utils
//@ lib: cstr
//@ config: ERR=1 PRE=-1 N=2
//@ config: PRE=0 N=3
//@ config: PRE=1 N=3
//@ config: PRE=0,2 N=3 SET=4,6,1,8,9
//@ config: PRE=0,1,2 N=3 SET=4,5,6,8,9
//@ config: PRE=0,2,4,6 N=3 SET=1,2,8,9
//@ config: PRE=1,9 N=3 SET=0,1,2,8,5,9
//@ thorough: PRE=0 N=4
//@ thorough: PRE=1 N=4
//@ thorough: PRE=0,1,2 N=4 SET=4,5,6,8,9
//@ thorough: PRE=0,2,4,6 N=4 SET=1,2,8,9,7
//@ thorough: PRE=1,9 N=4 SET=0,1,2,8,5,9
//@ bound: waiting on descriptors, poll backend: 2 descriptors, histories of up to 8 operations, 2 or 3 of them free and the rest given by the configuration; every subset of IN, OUT, ERR, HUP the kernel may report, in any order; interrupted polls and timeouts; invalid, closed and unsupported descriptors; failing initialisation. The caller closes a descriptor only after fdclean (as documented)
#define BACK 1
#include "pollset_ops.h"
