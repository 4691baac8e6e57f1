#include <stddef.h>
struct c44_node { int id, key; struct c44_node * next, * prev, * nx2, * pv2; };
void c44_spoil(struct c44_node * e, int alt);
#include "utlist.h"
#define FN(x) c44_ ## x
#include "C44_lists.inc"
