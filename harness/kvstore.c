// Key-value store: content after any sequence of changes, and what other
// processes see after a synchronization
#ifdef KVS_MPI
#include "backend-mpi.c"
#endif
#include "mk.h"
#ifndef NK
#define NK 2            // keys
#endif
#ifndef OPS
#define OPS 2           // changes between synchronizations
#endif
#ifndef ROUNDS
#define ROUNDS 2
#endif
#ifndef KLEN
#define KLEN 1          // maximal length of keys (0: fixed keys)
#endif
#ifndef VLEN
#define VLEN 2          // maximal length of values
#endif

static char key[NK][KLEN + 4];
typedef struct { int len; char v[VLEN]; } Val;      // len 0: not existing

static void mk_keys(void)
{
    for(int i = 0; i < NK; i++) {
        if (KLEN == 0) {
            // one key prefix of the other, other order than creation
            strcpy(key[i], i == 0 ? "ab" : i == 1 ? "a" : "b");
            continue;
        }
        int n = (int) CONC(nd_int(1, KLEN));
        for(int j = 0; j < n; j++) key[i][j] = (char) nd_in(1, 255);
        key[i][n] = 0;
    }
    for(int i = 0; i < NK; i++) for(int j = 0; j < i; j++) ASSUME(strcmp(key[i], key[j]) != 0);
}
static bool same(const Val* a, const Val* b)
{
    bool s = (a->len == b->len);
    for(int i = 0; i < VLEN; i++) s &= (i >= a->len) | (a->v[i] == b->v[i]);
    return s;
}
static void check(Laik_KVStore* s, int k, const Val* m)
{
    unsigned size = 77;
    char* v = laik_kvs_get(s, key[k], &size);
    Laik_KVS_Entry* e = laik_kvs_entry(s, key[k]);
    if (m->len == 0) {
        PROP(v == 0, "removed or never set key has no value");
        return;
    }
    PROP(v != 0 && e != 0, "key set has a value");
    PROP(size == (unsigned) m->len && laik_kvs_size(e) == size, "size of value as set");
    for(int i = 0; i < m->len; i++) PROP(v[i] == m->v[i], "value as set");
    PROP(strcmp(laik_kvs_key(e), key[k]) == 0, "key of entry");
    char tmp[VLEN];
    unsigned c = laik_kvs_copy(e, tmp, VLEN);
    PROP(c == size && memcmp(tmp, v, size) == 0, "copy of value");
    if (m->len > 1) PROP(laik_kvs_copy(e, tmp, 1) == 1, "copy limited to size of buffer");
    // enumeration
    int found = 0;
    for(unsigned i = 0; i < laik_kvs_count(s); i++) {
        Laik_KVS_Entry* n = laik_kvs_getn(s, i);
        PROP(n != 0, "entry for each number below count");
        found += (strcmp(laik_kvs_key(n), key[k]) == 0);
    }
    PROP(found == 1, "key enumerated once");
    PROP(laik_kvs_getn(s, laik_kvs_count(s)) == 0, "no entry for number out of range");
}
// one change; updates model. Returns key changed or -1
static int do_op(Laik_KVStore* s, Val* m)
{
    int what = (int) CONC(nd_int(0, 2 * NK));
    if (what == 2 * NK) return -1;
    int k = what % NK;
    if (what >= NK) {
        bool r = laik_kvs_remove(s, key[k]);
        PROP(r == (m[k].len > 0), "remove tells if there was a value");
        bool ch = m[k].len > 0;
        m[k].len = 0;
        return ch ? k : -1;
    }
    Val n;
    n.len = (int) CONC(nd_int(1, VLEN));
    for(int i = 0; i < VLEN; i++) n.v[i] = (i < n.len) ? (char) nd_byte() : 0;
    // value not terminated by 0
    char* v = malloc(n.len);
    memcpy(v, n.v, n.len);
    Laik_KVS_Entry* e = laik_kvs_set(s, key[k], n.len, v);
    for(int i = 0; i < n.len; i++) v[i] = 0x55;  // deep copy required
    free(v);
    PROP(e != 0 && e == laik_kvs_entry(s, key[k]), "set returns entry");
    bool ch = !same(&n, &m[k]);
    m[k] = n;
    return ch ? k : -1;
}

// calls of callbacks, per key; the one of the store currently synced
static int cbC[NK], cbU[NK], cbR[NK];
static void clear_cb(int* c, int* u, int* r) { for(int i = 0; i < NK; i++) c[i] = u[i] = r[i] = 0; }
static int keyno(char* k) { for(int i = 0; i < NK; i++) if (strcmp(k, key[i]) == 0) return i; PROP(0, "callback for own key"); return 0; }

#ifndef KVS_MPI
// ---- one process changing, another one getting the changes
static Laik_KVStore *A, *B;
static int inSync;
static void f_created(Laik_KVStore* s, Laik_KVS_Entry* e) { PROP(s == B, "callback in other process only"); cbC[keyno(e->key)]++; }
static void f_changed(Laik_KVStore* s, Laik_KVS_Entry* e) { PROP(s == B, "callback in other process only"); cbU[keyno(e->key)]++; }
static void f_removed(Laik_KVStore* s, char* k) { PROP(s == B, "callback in other process only"); cbR[keyno(k)]++; }
static void my_sync(Laik_KVStore* s)
{
    inSync++;
    Laik_KVS_Changes *c = &s->changes, d, all, none;
    PROP((c->offUsed == 0) == (c->dataUsed == 0), "journal consistent");
    laik_kvs_changes_sort(c);
    // transfer as a backend does
    laik_kvs_changes_init(&d);
    laik_kvs_changes_init(&all);
    laik_kvs_changes_init(&none);
    laik_kvs_changes_ensure_size(&d, c->offUsed, c->dataUsed);
    for(int i = 0; i < c->offUsed; i++) d.off[i] = c->off[i];
    for(int i = 0; i < c->dataUsed; i++) d.data[i] = c->data[i];
    laik_kvs_changes_set_size(&d, c->offUsed, c->dataUsed);
    laik_kvs_changes_sort(&d);
    // merging same changes, and no changes
    laik_kvs_changes_merge(&all, c, &d);
    laik_kvs_changes_merge(&none, &all, &d);
    PROP(all.offUsed == c->offUsed && all.dataUsed == c->dataUsed, "merge of same changes");
    PROP(none.offUsed == c->offUsed && none.dataUsed == c->dataUsed, "merge of same changes");
    laik_kvs_changes_apply(&all, s);     // own changes: no effect
    B->in_sync = true;
    laik_kvs_changes_apply(&all, B);
    B->in_sync = false;
    laik_kvs_sort(B);
    laik_kvs_changes_free(&d);
    laik_kvs_changes_free(&all);
    laik_kvs_changes_free(&none);
}
#ifndef CBS
#define CBS 0
#endif
static Laik_Backend my_backend;
void h_kvs(void)
{
    mk_world(2, 0);
    my_backend.sync = my_sync;
    mk_inst.backend = &my_backend;
    mk_keys();
    A = laik_kvs_new("A", &mk_inst);
    B = laik_kvs_new("B", &mk_inst);
    // any subset of callbacks may be registered (or none at all)
    int cb = CBS ? (int) CONC(nd_in(0, 7)) : 7;
    if (cb) {
        laik_kvs_reg_callbacks(A, (cb & 1) ? f_created : 0, (cb & 2) ? f_changed : 0, (cb & 4) ? f_removed : 0);
        laik_kvs_reg_callbacks(B, (cb & 1) ? f_created : 0, (cb & 2) ? f_changed : 0, (cb & 4) ? f_removed : 0);
    }
    Val m[NK], last[NK];
    memset(m, 0, sizeof(m));
    memset(last, 0, sizeof(last));
    for(int r = 0; r < ROUNDS; r++) {
        for(int o = 0; o < OPS; o++) do_op(A, m);
        if (r == 1 && CONC(nd_bool())) { laik_kvs_clean(A); for(int k = 0; k < NK; k++) m[k].len = 0; REACHED("clean"); }
        for(int k = 0; k < NK; k++) { check(A, k, &m[k]); check(B, k, &last[k]); }
        clear_cb(cbC, cbU, cbR);
        laik_kvs_sync(A);
        PROP(inSync == r + 1, "sync of backend called");
        for(int k = 0; k < NK; k++) {
            check(A, k, &m[k]);
            check(B, k, &m[k]);
            bool ch = !same(&last[k], &m[k]);
            PROP(cbC[k] == ((cb & 1) && ch && last[k].len == 0), "callback for creation");
            PROP(cbU[k] == ((cb & 2) && ch && last[k].len > 0 && m[k].len > 0), "callback for change");
            PROP(cbR[k] == ((cb & 4) && ch && last[k].len > 0 && m[k].len == 0), "callback for removal");
            last[k] = m[k];
        }
    }
    laik_kvs_free(A);
    laik_kvs_free(B);
    REACHED("end");
}
#else
// ---- all processes with the MPI backend
#include "mpisim.h"
typedef struct {
    Laik_Instance* save_inst;
    Laik_Instance inst;
    Laik_Group* g;
    MPIGroupData gd;
    MPIData md;
    Laik_KVStore* s;
    int c[NK], u[NK], r[NK];
} Proc;
static Proc P[TASKS];
static void sim_save(int t) { P[t].save_inst = mpi_instance; }
static void sim_restore(int t) { mpi_instance = P[t].save_inst; }
static MPI_Comm sim_comm(int t, MPI_Comm c) { (void) c; return P[t].md.comm; }
static void f_created(Laik_KVStore* s, Laik_KVS_Entry* e) { PROP(s == P[cur].s, "store of process"); P[cur].c[keyno(e->key)]++; }
static void f_changed(Laik_KVStore* s, Laik_KVS_Entry* e) { PROP(s == P[cur].s, "store of process"); P[cur].u[keyno(e->key)]++; }
static void f_removed(Laik_KVStore* s, char* k) { PROP(s == P[cur].s, "store of process"); P[cur].r[keyno(k)]++; }

static Val glob[NK];                // content before current round
static Val next[ROUNDS][NK];        // content after round
static bool changed[ROUNDS][NK];
static bool conflict[ROUNDS];
static int arrived[ROUNDS];
static void process(int t)
{
    Proc* p = &P[t];
    mpi_instance = &p->inst;
    p->s = laik_kvs_new("test", &p->inst);
    laik_kvs_reg_callbacks(p->s, f_created, f_changed, f_removed);
    Val m[NK], old[NK];
    memset(m, 0, sizeof(m));
    for(int r = 0; r < ROUNDS; r++) {
        bool dirty[NK];
        for(int k = 0; k < NK; k++) { old[k] = m[k]; dirty[k] = false; }
        for(int o = 0; o < OPS; o++) { int k = do_op(p->s, m); if (k >= 0) dirty[k] = true; }
        for(int k = 0; k < NK; k++) {
            if (!dirty[k]) continue;
            if (changed[r][k] && !same(&next[r][k], &m[k])) conflict[r] = true;
            changed[r][k] = true;
            next[r][k] = m[k];
        }
        clear_cb(p->c, p->u, p->r);
        Val mine[NK];
        for(int k = 0; k < NK; k++) mine[k] = m[k];
        arrived[r]++;
        progress++;
        while(arrived[r] < TASKS) sched_yield_();
        if (conflict[r]) verif_panic_ok = 1;
        laik_kvs_sync(p->s);
        // all processes must get aware: at least the one merging the changes
        PROP(!(conflict[r] && t == 0), "inconsistent changes detected");
        if (conflict[r]) while(1) { progress++; sched_yield_(); }
        for(int k = 0; k < NK; k++) {
            if (changed[r][k]) m[k] = next[r][k];
            check(p->s, k, &m[k]);
            bool ch = !same(&mine[k], &m[k]);
            PROP(p->c[k] == (ch && mine[k].len == 0), "callback for creation");
            PROP(p->u[k] == (ch && mine[k].len > 0 && m[k].len > 0), "callback for change");
            PROP(p->r[k] == (ch && mine[k].len > 0 && m[k].len == 0), "callback for removal");
        }
        (void) old;
    }
    sim[t].done = true;
    progress++;
}
void h_kvs_mpi(void)
{
    (void) glob;
    mk_keys();
    for(int t = 0; t < TASKS; t++) {
        Proc* p = &P[t];
        p->inst.locations = TASKS;
        p->inst.mylocationid = t;
        p->inst.mylocation = "loc";
        p->inst.backend = &laik_backend_mpi;
        p->gd.comm = (MPI_Comm) &p->gd;
        p->md.comm = (MPI_Comm) &P;
        p->inst.backend_data = &p->md;
        p->g = mk_group(TASKS, t);
        p->g->inst = &p->inst;
        p->g->backend_data = &p->gd;
        p->inst.world = p->g;
        p->inst.group[0] = p->g;
        p->inst.group_count = 1;
        sim[t].co = sym_co_new(process, t);
    }
    run_all();
    no_left();
    REACHED("end");
}
#endif
