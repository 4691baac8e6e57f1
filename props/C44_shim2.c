/* the variant for compilers without typeof */
#include <stddef.h>
struct c44_node { int id, key; struct c44_node * next, * prev, * nx2, * pv2; };
void c44_spoil(struct c44_node * e, int alt);
#include <assert.h>
#define __ICCARM__ 1
#include "utlist.h"
#define FN(x) c44b_ ## x
#include "C44_lists.inc"
