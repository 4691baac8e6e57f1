/* The bundled formatter, straight from the tree (found next to the uthash include directory). */
#include "../../tinyprintf/tinyprintf.c"
