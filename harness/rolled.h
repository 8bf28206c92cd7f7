// selects the rolled digest loops: the public header switches unrolling on, this switches it off again after it
#include <racrypt.h>
#undef RACRYPT_DIGEST_UNROLL
