// process groups: derived groups, id mappings
#include "mk.h"

static Laik_Backend be;
static int updated;
static void stub_update(Laik_Group* g) { (void) g; updated++; }

static void consistent(Laik_Group* g)
{
    PROP(g->size >= 0 && g->size <= g->maxsize, "size");
    PROP(g->myid >= -1 && g->myid < g->size, "own id");
    int cnt = 0;
    for(int i = 0; i < g->size; i++) {
        // member ids are ordered by location
        if (i > 0) PROP(g->locationid[i] > g->locationid[i-1], "no process twice, ordered by location");
        cnt += (g->locationid[i] == mk_inst.mylocationid);
    }
    PROP(cnt == (g->myid >= 0), "own process in the group if and only if it has an id");
    if (g->myid >= 0) PROP(g->locationid[g->myid] == mk_inst.mylocationid, "own id is own location");
    for(int k = 0; k < 2; k++) {
        Laik_Group* p = k ? g->parent2 : g->parent;
        int* from = k ? g->fromParent2 : g->fromParent;
        int* to = k ? g->toParent2 : g->toParent;
        if (!p) continue;
        for(int i = 0; i < p->size; i++) {
            PROP(from[i] >= -1 && from[i] < g->size, "id in derived group");
            if (from[i] >= 0) {
                PROP(g->locationid[from[i]] == p->locationid[i], "same process");
                PROP(to[from[i]] == i, "mapping of ids to parent is the inverse");
            }
            else for(int j = 0; j < g->size; j++)
                PROP(g->locationid[j] != p->locationid[i], "process without id is not in the derived group");
        }
        for(int j = 0; j < g->size; j++) {
            PROP(to[j] >= -1 && to[j] < p->size, "id in parent");
            if (to[j] >= 0) PROP(from[to[j]] == j, "mapping of ids from parent is the inverse");
        }
    }
}
static bool member(Laik_Group* g, int lid)
{
    for(int i = 0; i < g->size; i++) if (g->locationid[i] == lid) return true;
    return false;
}
static Laik_Group* shrink(Laik_Group* g)
{
    int rem[TASKS + 1], n = 0;
    for(int i = 0; i < g->size; i++) if (CONC(nd_int(0, 1))) rem[n++] = i;
    // order does not matter, duplicates are fine
    if (n > 1 && CONC(nd_int(0, 1))) { int x = rem[0]; rem[0] = rem[n-1]; rem[n-1] = x; }
    if (n > 0 && CONC(nd_int(0, 1))) { rem[n] = rem[0]; n++; }
    bool gone[TASKS] = { 0 };
    for(int i = 0; i < n; i++) gone[g->locationid[rem[i]]] = true;
    Laik_Group* s = laik_new_shrinked_group(g, n, rem);
    for(int l = 0; l < TASKS; l++)
        PROP(member(s, l) == (member(g, l) && !gone[l]), "exactly the given processes removed");
    PROP(s->parent == g && laik_group_parent(s) == g, "parent");
    for(int i = 0; i < s->size; i++) PROP(s->toParent[i] >= 0, "all have an id in the parent");
    consistent(s);
    return s;
}
void h_group(void)
{
    int me = (int) CONC(nd_int(0, TASKS - 1));
    mk_world(TASKS, me);
    be.updateGroup = stub_update;
    mk_inst.backend = &be;
    Laik_Group* a = shrink(mk_g);
    Laik_Group* b = shrink(CONC(nd_int(0, 1)) ? mk_g : a);
    PROP(updated == 2, "backend informed about new groups");
    Laik_Group* u = CONC(nd_int(0, 1)) ? laik_new_union_group(a, b) : laik_new_union_group(b, a);
    for(int l = 0; l < TASKS; l++)
        PROP(member(u, l) == (member(a, l) | member(b, l)), "union has processes of both groups");
    consistent(u);
    // there is a mapping of ids between union and both groups
    PROP((u == a) || (u->parent == a) || (u->parent2 == a) || (a->parent == u) || (a->parent2 == u), "first group related to union");
    PROP((u == b) || (u->parent == b) || (u->parent2 == b) || (b->parent == u) || (b->parent2 == u), "second group related to union");
    PROP(updated == ((u == a || u == b) ? 2 : 3), "backend informed about new groups");
    consistent(a);
    consistent(b);
    consistent(mk_g);
    // queries
    for(int i = 0; i < u->size; i++) PROP(laik_group_locationid(u, i) == u->locationid[i], "location of process");
    Laik_Group* c = laik_clone_group(u);
    PROP(c->size == u->size && c->myid == u->myid && c->parent == u, "clone");
    consistent(c);
    // world change
    int e = laik_epoch(&mk_inst);
    laik_set_world(&mk_inst, a);
    PROP(laik_world(&mk_inst) == a, "new world");
    PROP(laik_epoch(&mk_inst) == e + (a != mk_g), "epoch counts changes of world");
    PROP(laik_size(a) == a->size && laik_myid(a) == a->myid, "size and id");
    REACHED("end");
}
