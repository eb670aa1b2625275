// Names of objects: long names, high ID numbers
#include "h.h"
#include <limits.h>
#include <string.h>
#include <stdlib.h>
#include <stdio.h>
#include <laik-internal.h>

// OBJ selects the kind of object; the source file is included to start with
// high numbers of objects created before
#if OBJ == 1
#include "src/action.c"
#define ID aseq_id
#define NAME "aseq-"
#elif OBJ == 2 || OBJ == 3
#include "src/data.c"
#if OBJ == 2
#define ID data_id
#define NAME "data-"
#else
#define ID res_id
#define NAME "res-"
#endif
#elif OBJ == 4
#include "src/space.c"
#define ID space_id
#define NAME "space-"
#elif OBJ == 5
#include "src/type.c"
#define ID type_id
#define NAME "type-"
#elif OBJ == 6
#include "src/partitioning.c"
#define ID partitioning_id
#elif OBJ == 7
#include "src/space.c"
#define ID trans_id
#define NAME "trans-"
#endif
#include "mk.h"

#if OBJ == 7
static Laik_Partitioning* none_part(Laik_Group* g, Laik_Space* s)
{
    return laik_new_partitioning(laik_new_all_partitioner(), g, s, 0);
}
#endif
static const char* create(Laik_Instance* i, Laik_Group* g, Laik_Space* s, int* id)
{
    (void) i; (void) g; (void) s;
#if OBJ == 1
    Laik_ActionSeq* as = laik_aseq_new(i);
    *id = as->id;
    return as->name;
#elif OBJ == 2 || OBJ == 3
    Laik_Data* d = laik_new_data(s, laik_Double);
#if OBJ == 2
    *id = d->id;
    return d->name;
#else
    Laik_Reservation* r = laik_reservation_new(d);
    *id = r->id;
    return r->name;
#endif
#elif OBJ == 4
    Laik_Space* n = laik_new_space(i);
    *id = n->id;
    return n->name;
#elif OBJ == 5
    Laik_Type* t = laik_type_new(0, LAIK_TK_POD, 8, 0, 0);
    *id = t->id;
    return t->name;
#elif OBJ == 7
    Laik_Transition* t = laik_calc_transition(s, none_part(g, s), none_part(g, s), LAIK_DF_None, LAIK_RO_None);
    *id = t->id;
    return t->name;
#endif
    return 0;
}
static int parse(const char* s)
{
    int64_t v = 0;
    int n = 0;
    for(; s[n]; n++) {
        PROP(s[n] >= '0' && s[n] <= '9' && n < 10, "ID is last part of the name");
        v = v * 10 + (s[n] - '0');
    }
    PROP(n > 0, "ID in name");
    return (int) v;
}
void h_names(void)
{
    static const int start[] = { 0, 9, 99, 99998, 999999, 9999999, 99999999, 999999999, INT_MAX - 2 };
    mk_world(2, 0);
    mk_space_s(&mk_sp, 1, 4);
    Laik_Instance* i = &mk_inst;
    Laik_Group* g = mk_g;
    Laik_Space* s = &mk_sp;
    laik_data_init();
    ID = start[CONC(nd_int(0, 8))];
#if OBJ == 6
    int n = (int) CONC(nd_int(0, 40));
    char* b = (char*) malloc(n + 1);
    for(int k = 0; k < n; k++) b[k] = (char) nd_in(1, 255);
    b[n] = 0;
    bool null = CONC(nd_bool());
    Laik_Partitioning* p = laik_partitioning_new(null ? 0 : b, g, s, 0, 0), *p2 = laik_partitioning_new(null ? 0 : b, g, s, 0, 0);
    const char* exp = null ? "part" : b;
    int l = null ? 4 : n < 10 ? n : 10;
    PROP(strlen(p->name) > l && p->name[l] == '-', "name followed by ID");
    for(int k = 0; k < l; k++) PROP(p->name[k] == exp[k], "start of name kept");
    PROP(parse(p->name + l + 1) == p->id, "ID in name");
    PROP(p->id != p2->id && strcmp(p->name, p2->name) != 0, "names are different");
#else
    int i1, i2;
    const char* n1 = create(i, g, s, &i1);
    const char* n2 = create(i, g, s, &i2);
    PROP(strncmp(n1, NAME, strlen(NAME)) == 0, "kind of object in name");
    PROP(parse(n1 + strlen(NAME)) == i1 && parse(n2 + strlen(NAME)) == i2, "ID in name");
    PROP(i1 != i2 && strcmp(n1, n2) != 0, "names are different");
#endif
    REACHED("names");
}
