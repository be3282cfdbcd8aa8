/* Runs histories of operations on wcc's containers, read from stdin, and prints what each operation returns.
   Slots hold containers; one line is one operation: kind op slot args... */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "wcc.h"

#define SLOTS 6
static Set *sets[SLOTS];
static LongSet *longsets[SLOTS];
static LongMap *longmaps[SLOTS];
static StrMap *strmaps[SLOTS];
static StrSet *strsets[SLOTS];
static List *lists[SLOTS];
static Stack *stacks[SLOTS];
static Graph *graphs[SLOTS];
static CircularLinkedList *clls[SLOTS];

static long hash_constant(long l) { return 7; }
static long hash_low(long l) { return l & 3; }
static long hash_not(long l) { return ~l; }
static long hash_mul(long l) { return l * 0x9e3779b97f4a7c15ul >> 7; }

static int compare_longs(const void *a, const void *b) {
    long x = *(const long *) a, y = *(const long *) b;
    return x < y ? -1 : x > y;
}

static int compare_strings(const void *a, const void *b) { return strcmp(*(char * const *) a, *(char * const *) b); }

static char *unhex(char *s) {
    /* a fresh buffer, so that keys are compared by contents; freed at the end of the history */
    int n = strlen(s) / 2;
    char *r = malloc(n + 1);
    for (int i = 0; i < n; i++) { unsigned v; sscanf(s + 2 * i, "%2x", &v); r[i] = v; }
    r[n] = 0;
    return r;
}

static void print_longs(long *v, int n) {
    qsort(v, n, sizeof(long), compare_longs);
    for (int i = 0; i < n; i++) printf("%ld ", v[i]);
}

static void clear(void) {
    for (int i = 0; i < SLOTS; i++) {
        if (sets[i]) free_set(sets[i]);
        if (longsets[i]) free_longset(longsets[i]);
        if (longmaps[i]) free_longmap(longmaps[i]);
        if (strmaps[i]) free_strmap(strmaps[i]);
        if (strsets[i]) free_strset(strsets[i]);
        if (lists[i]) free_list(lists[i]);
        if (stacks[i]) free_stack(stacks[i]);
        if (graphs[i]) free_graph(graphs[i]);
        if (clls[i]) free_circular_linked_list(clls[i]);
        sets[i] = 0; longsets[i] = 0; longmaps[i] = 0; strmaps[i] = 0; strsets[i] = 0; lists[i] = 0; stacks[i] = 0; graphs[i] = 0; clls[i] = 0;
    }
}

int main(void) {
    static char line[1 << 16];
    while (fgets(line, sizeof line, stdin)) {
        char kind[20], op[20], str[1000] = "";
        long a = 0, b = 0, c = 0;
        int n = sscanf(line, "%19s %19s %ld %ld %ld", kind, op, &a, &b, &c);
        (void) n;
#define IS(k, o) (!strcmp(kind, k) && !strcmp(op, o))
        if (!strcmp(kind, "end")) { clear(); printf("end %s\n", op); fflush(stdout); continue; }

        if (!strncmp(kind, "str", 3)) sscanf(line, "%*s %*s %ld %999s %ld", &a, str, &c);

        /* -- sets: max is the same for all slots of a history */
             if (IS("set", "new")) { if (sets[a]) free_set(sets[a]); sets[a] = new_set(b); }
        else if (IS("set", "add")) { Set *s = sets[a]; add_to_set(s, b); }
        else if (IS("set", "del")) delete_from_set(sets[a], b);
        else if (IS("set", "in")) printf("%d", in_set(sets[a], b));
        else if (IS("set", "len")) printf("%d", set_len(sets[a]));
        else if (IS("set", "eq")) printf("%d", set_eq(sets[a], sets[b]));
        else if (IS("set", "empty")) empty_set(sets[a]);
        else if (IS("set", "copy")) { Set *s = copy_set(sets[b]); if (sets[a]) free_set(sets[a]); sets[a] = s; }
        else if (IS("set", "copyto")) copy_set_to(sets[a], sets[b]);
        else if (IS("set", "union")) { Set *s = set_union(sets[b], sets[c]); free_set(sets[a]); sets[a] = s; }
        else if (IS("set", "inter")) { Set *s = set_intersection(sets[b], sets[c]); free_set(sets[a]); sets[a] = s; }
        else if (IS("set", "diff")) { Set *s = set_difference(sets[b], sets[c]); free_set(sets[a]); sets[a] = s; }
        else if (IS("set", "unionto")) set_union_to(sets[a], sets[b], sets[c]);
        else if (IS("set", "interto")) set_intersection_to(sets[a], sets[b], sets[c]);
        else if (IS("set", "diffto")) set_difference_to(sets[a], sets[b], sets[c]);
        else if (IS("set", "cache")) {
            cache_set_elements(sets[a]);
            for (int i = 0; i < sets[a]->cached_element_count; i++) printf("%d ", sets[a]->cached_elements[i]);
        }
        else if (IS("set", "print")) print_set(sets[a]);

        /* -- long sets */
        else if (IS("lset", "new")) { if (longsets[a]) free_longset(longsets[a]); longsets[a] = new_longset(); }
        else if (IS("lset", "add")) longset_add(longsets[a], b);
        else if (IS("lset", "del")) longset_delete(longsets[a], b);
        else if (IS("lset", "in")) printf("%d", longset_in(longsets[a], b));
        else if (IS("lset", "len")) printf("%d", longset_len(longsets[a]));
        else if (IS("lset", "eq")) printf("%d", longset_eq(longsets[a], longsets[b]));
        else if (IS("lset", "empty")) longset_empty(longsets[a]);
        else if (IS("lset", "copy")) { LongSet *s = longset_copy(longsets[b]); if (longsets[a]) free_longset(longsets[a]); longsets[a] = s; }
        else if (IS("lset", "union")) { LongSet *s = longset_union(longsets[b], longsets[c]); free_longset(longsets[a]); longsets[a] = s; }
        else if (IS("lset", "inter")) { LongSet *s = longset_intersection(longsets[b], longsets[c]); free_longset(longsets[a]); longsets[a] = s; }
        else if (IS("lset", "iter")) {
            int count = 0;
            longset_foreach(longsets[a], it) count++;
            long *v = malloc((count + 1) * sizeof(long));
            int i = 0;
            longset_foreach(longsets[a], it) v[i++] = longset_iterator_element(&it);
            print_longs(v, count);
            free(v);
        }
        else if (IS("lset", "prune")) {
            /* delete some elements while iterating */
            longset_foreach(longsets[a], it) {
                long e = longset_iterator_element(&it);
                if (((e % b) + b) % b == 0) longset_delete(longsets[a], e);
            }
        }

        /* -- long maps */
        else if (IS("lmap", "new")) {
            if (longmaps[a]) free_longmap(longmaps[a]);
            longmaps[a] = new_longmap();
            if (b == 1) longmaps[a]->hashfunc = hash_constant;
            if (b == 2) longmaps[a]->hashfunc = hash_low;
            if (b == 3) longmaps[a]->hashfunc = hash_not;
            if (b == 4) longmaps[a]->hashfunc = hash_mul;
        }
        else if (IS("lmap", "put")) longmap_put(longmaps[a], b, (void *) c);
        else if (IS("lmap", "get")) printf("%ld", (long) longmap_get(longmaps[a], b));
        else if (IS("lmap", "del")) longmap_delete(longmaps[a], b);
        else if (IS("lmap", "empty")) longmap_empty(longmaps[a]);
        else if (IS("lmap", "copy")) { LongMap *m = longmap_copy(longmaps[b]); if (longmaps[a]) free_longmap(longmaps[a]); longmaps[a] = m; }
        else if (IS("lmap", "keys")) {
            int *keys;
            int count = longmap_keys(longmaps[a], &keys);
            long *v = malloc((count + 1) * sizeof(long));
            for (int i = 0; i < count; i++) v[i] = keys[i];
            print_longs(v, count);
            free(v);
            wfree(keys);
        }
        else if (IS("lmap", "iter")) {
            int count = 0;
            longmap_foreach(longmaps[a], it) count++;
            long *v = malloc((count + 1) * sizeof(long));
            int i = 0;
            longmap_foreach(longmaps[a], it) v[i++] = longmap_iterator_key(&it);
            print_longs(v, count);
            for (i = 0; i < count; i++) printf(":%ld", (long) longmap_get(longmaps[a], v[i]));
            free(v);
        }

        /* -- string maps */
        else if (IS("strmap", "new")) { if (strmaps[a]) free_strmap(strmaps[a]); strmaps[a] = new_strmap(); }
        else if (IS("strmap", "put")) strmap_put(strmaps[a], unhex(str + 1), (void *) c);
        else if (IS("strmap", "get")) { char *k = unhex(str + 1); printf("%ld", (long) strmap_get(strmaps[a], k)); free(k); }
        else if (IS("strmap", "del")) { char *k = unhex(str + 1); strmap_delete(strmaps[a], k); free(k); }
        else if (IS("strmap", "iter") || IS("strset", "iter")) {
            StrMap *m = !strcmp(kind, "strmap") ? strmaps[a] : strsets[a]->strmap;
            int count = 0;
            strmap_foreach(m, it) count++;
            char **v = malloc((count + 1) * sizeof(char *));
            int i = 0;
            strmap_foreach(m, it) v[i++] = strmap_iterator_key(&it);
            qsort(v, count, sizeof(char *), compare_strings);
            for (i = 0; i < count; i++) {
                printf("x");
                for (char *p = v[i]; *p; p++) printf("%02x", (unsigned char) *p);
                printf(":%ld ", (long) strmap_get(m, v[i]));
            }
            free(v);
        }
        else if (IS("strset", "new")) { if (strsets[a]) free_strset(strsets[a]); strsets[a] = new_strset(); }
        else if (IS("strset", "add")) strset_add(strsets[a], unhex(str + 1));
        else if (IS("strset", "in")) { char *k = unhex(str + 1); printf("%d", strset_in(strsets[a], k)); free(k); }
        else if (IS("strset", "dup")) { b = str[0] - '0'; StrSet *s = dup_strset(strsets[b]); if (strsets[a]) free_strset(strsets[a]); strsets[a] = s; }
        else if (IS("strset", "union")) { b = str[0] - '0'; StrSet *s = strset_union(strsets[b], strsets[c]); free_strset(strsets[a]); strsets[a] = s; }
        else if (IS("strset", "inter")) { b = str[0] - '0'; StrSet *s = strset_intersection(strsets[b], strsets[c]); free_strset(strsets[a]); strsets[a] = s; }

        /* -- lists, stacks, circular linked lists */
        else if (IS("list", "new")) { if (lists[a]) free_list(lists[a]); lists[a] = new_list(b); }
        else if (IS("list", "add")) append_to_list(lists[a], (void *) b);
        else if (IS("list", "all")) { printf("%d:", lists[a]->length); for (int i = 0; i < lists[a]->length; i++) printf(" %ld", (long) lists[a]->elements[i]); }
        else if (IS("stack", "new")) { if (stacks[a]) free_stack(stacks[a]); stacks[a] = new_stack(); }
        else if (IS("stack", "push")) push_onto_stack(stacks[a], b);
        else if (IS("stack", "pushn")) for (long i = 0; i < b; i++) push_onto_stack(stacks[a], c + i);
        else if (IS("stack", "popn")) { unsigned h = 0; for (long i = 0; i < b; i++) h = h * 31 + pop_from_stack(stacks[a]); printf("%u", h); }
        else if (IS("stack", "pop")) printf("%d", pop_from_stack(stacks[a]));
        else if (IS("stack", "top")) printf("%d", stack_top(stacks[a]));
        else if (IS("cll", "add")) { CircularLinkedList *cll = clls[a]; append_to_cll(cll, (void *) b); clls[a] = cll; }
        else if (IS("cll", "all")) {
            if (clls[a]) {
                CircularLinkedList *l = clls[a]->next, *head = l;
                do { printf("%ld ", (long) l->target); l = l->next; } while (l != head);
            }
        }

        /* -- graphs */
        else if (IS("graph", "new")) { if (graphs[a]) free_graph(graphs[a]); graphs[a] = new_graph(b, c); }
        else if (IS("graph", "nodes")) add_graph_nodes(graphs[a], b);
        else if (IS("graph", "edge")) printf("%d", add_graph_edge(graphs[a], b, c)->id);
        else if (IS("graph", "all")) {
            Graph *g = graphs[a];
            printf("%d %d:", g->node_count, g->edge_count);
            for (int i = 0; i < g->node_count; i++) {
                printf(" %d(", g->nodes[i].id);
                for (GraphEdge *e = g->nodes[i].succ; e; e = e->next_succ) printf("%d>%d,", e->from->id, e->to->id);
                printf(";");
                for (GraphEdge *e = g->nodes[i].pred; e; e = e->next_pred) printf("%d>%d,", e->from->id, e->to->id);
                printf(")");
            }
        }
        else { printf("? %s", line); return 3; }
        printf("\n");
    }
    return 0;
}
