// Every public list macro used as documented. Only compiled when the C01 harness does not build (see check.py).
#include "embc.h"
#include "embc/collections/list.h"
struct el { int v; struct embc_list_s node; };
int seen;
// uses
void u0(struct embc_list_s * list) { struct embc_list_s * item; embc_list_foreach(list, item) { struct el * e = embc_list_entry(item, struct el, node); seen += e->v; } }
void u1(struct embc_list_s * list) { struct embc_list_s * item; embc_list_foreach_unsafe(list, item) { struct el * e = embc_list_entry(item, struct el, node); seen += e->v; } }
void u2(struct embc_list_s * list) { struct embc_list_s * item; embc_list_foreach_reverse(list, item) { struct el * e = embc_list_entry(item, struct el, node); seen += e->v; } }
void u3(struct embc_list_s * list) { struct embc_list_s * item; embc_list_foreach_reverse_unsafe(list, item) { struct el * e = embc_list_entry(item, struct el, node); seen += e->v; } }
