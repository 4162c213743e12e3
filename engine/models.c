/* C models of the GLib container walkers.  Linked with the daemon's bitcode and inlined so that every walk - whether
 * written with a foreach call or with an explicit iterator - has the same shape for the analyses. Never executed. */
#include <glib.h>
#undef g_hash_table_foreach
#undef g_slist_foreach
#undef g_list_foreach
#undef g_ptr_array_foreach
#undef g_slist_prepend
#undef g_slist_append
#undef g_slist_reverse
#undef g_list_prepend

void g_hash_table_foreach (GHashTable *h, GHFunc f, gpointer d)
{ GHashTableIter it; gpointer k, v; g_hash_table_iter_init (&it, h); while (g_hash_table_iter_next (&it, &k, &v)) f (k, v, d); }

guint g_hash_table_foreach_remove (GHashTable *h, GHRFunc f, gpointer d)
{ GHashTableIter it; gpointer k, v; guint n = 0; g_hash_table_iter_init (&it, h);
  while (g_hash_table_iter_next (&it, &k, &v)) if (f (k, v, d)) { g_hash_table_iter_remove (&it); n++; } return n; }

guint g_hash_table_foreach_steal (GHashTable *h, GHRFunc f, gpointer d)
{ GHashTableIter it; gpointer k, v; guint n = 0; g_hash_table_iter_init (&it, h);
  while (g_hash_table_iter_next (&it, &k, &v)) if (f (k, v, d)) { g_hash_table_iter_steal (&it); n++; } return n; }

gpointer g_hash_table_find (GHashTable *h, GHRFunc f, gpointer d)
{ GHashTableIter it; gpointer k, v; g_hash_table_iter_init (&it, h);
  while (g_hash_table_iter_next (&it, &k, &v)) if (f (k, v, d)) return v; return NULL; }

void g_slist_foreach (GSList *l, GFunc f, gpointer d)
{ while (l) { GSList *n = l->next; f (l->data, d); l = n; } }

void g_list_foreach (GList *l, GFunc f, gpointer d)
{ while (l) { GList *n = l->next; f (l->data, d); l = n; } }

void g_slist_free_full (GSList *l, GDestroyNotify f)
{ GSList *x = l; while (x) { f (x->data); x = x->next; } g_slist_free (l); }

void g_list_free_full (GList *l, GDestroyNotify f)
{ GList *x = l; while (x) { f (x->data); x = x->next; } g_list_free (l); }

void g_ptr_array_foreach (GPtrArray *a, GFunc f, gpointer d)
{ guint i; for (i = 0; i < a->len; i++) f (a->pdata[i], d); }

GSList *g_slist_prepend (GSList *l, gpointer d)
{ GSList *n = g_malloc (sizeof (GSList)); n->data = d; n->next = l; return n; }

GSList *g_slist_append (GSList *l, gpointer d)
{ GSList *n = g_malloc (sizeof (GSList)), *p = l; n->data = d; n->next = NULL;
  if (!l) return n; while (p->next) p = p->next; p->next = n; return l; }

GSList *g_slist_reverse (GSList *l)
{ GSList *r = NULL; while (l) { GSList *n = l->next; l->next = r; r = l; l = n; } return r; }

GList *g_list_prepend (GList *l, gpointer d)
{ GList *n = g_malloc (sizeof (GList)); n->data = d; n->next = l; n->prev = NULL; if (l) l->prev = n; return n; }
