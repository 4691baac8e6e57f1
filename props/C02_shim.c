#include <stdlib.h>
#include "embc/collections/intmap.h"
EMBC_INTMAP_DECLARE(tmap, embc_size_t)
EMBC_INTMAP_DEFINE_STRUCT(tmap)
EMBC_INTMAP_DEFINE(tmap, embc_size_t)
