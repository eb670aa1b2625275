from verif import Query

PROPS = {}
ASSUME = {}
ASSUME_COMMON = [
    "The real sources are translated unmodified on every run (clang -O0 LLVM IR + mem2reg/simplifycfg for symex, goto-cc for CBMC; 64-bit x86 Linux data model)",
    "malloc/calloc/realloc do not fail (out-of-memory is outside the claim)",
    "log output (formatting) is replaced by empty stand-ins; a LAIK panic ends the run and counts as violation unless the harness says the input must be rejected",
    "libc functions (string.h, qsort as stable sort, printf/scanf family) are executed from plain C models in harness/libc.c; the native replay uses the real libc",
    "memory from malloc and uninitialised stack memory reads as 0xbe bytes (as in the sanitizer replay)",
]


def Q(pid, name, harness, func, **kw):
    PROPS.setdefault(pid, []).append(Query(name, harness, func, **kw))


RL = ["rangelist.c", "space.c", "partitioning.c"]

# ---------------------------------------------------------------- C01 range algebra
for d in (1, 2, 3):
    for f in ("intersect", "within", "expand", "equal_empty", "index_init"):
        Q("C01", f"{f}_{d}d", "space_alg.c", "h_" + f, srcs=["space.c"], defs=[f"DIMS={d}"], engine="cbmc",
          unwind=5, timeout=120, bounds=f"{d}-dimensional ranges, all 64-bit borders",
          what="range algebra against the pointwise definition")
    Q("C01", f"size_{d}d", "space_alg.c", "h_size", srcs=["space.c"], engine="cbmc", defs=[f"DIMS={d}", "SIZEMAX=" + {1: "0x7fffffffffLL", 2: "31", 3: "7"}[d]],
      unwind=5, timeout=120, bounds=f"{d}-dimensional, extents up to {['2^39','31','7'][d-1]}, start in -64..63", what="size of ranges")

# ---------------------------------------------------------------- C02 range lists
for n, s, d, t in ((3, 6, 1, 3), (2, 4, 2, 2), (2, 3, 3, 2)):
    Q("C02", f"freeze_n{n}_{d}d", "rangelist.c", "h_freeze", srcs=RL, defs=[f"N={n}", f"S={s}", f"DIMS={d}", f"TASKS={t}"],
      bounds=f"{n} ranges, {d}d space of {s} indexes per dimension, {t} tasks, tags 0..2, any order", what="freeze keeps owners; queries consistent")
for n in (3,):
    Q("C02", f"merge_n{n}", "rangelist.c", "h_merge", srcs=RL, defs=[f"N={n}", "S=6", "TASKS=2"],
      bounds=f"{n} ranges, 1d space of 6 indexes, 2 tasks, tags 0..2", what="freeze with merging")
Q("C02", "single_n3", "rangelist.c", "h_single", srcs=RL, defs=["N=3", "S=6", "TASKS=2"],
  bounds="3 single indexes, 1d space of 6 indexes, 2 tasks", what="single-index lists")
Q("C02", "compare_n1", "rangelist.c", "h_compare", srcs=RL, defs=["N=1", "S=3", "TASKS=2", "DIMS=2"], bounds="1 range, 2d, 2 tasks", what="isSingle/isAll")
Q("C02", "compare_n2", "rangelist.c", "h_compare", srcs=RL, defs=["N=2", "S=3", "TASKS=2", "DIMS=2"], bounds="2 ranges, 2d, 2 tasks", what="isSingle/isAll")
Q("C02", "equal_n2", "rangelist.c", "h_equal", srcs=RL, defs=["N=2", "S=3", "TASKS=2", "DIMS=2"], bounds="2 ranges, 2d, 2 tasks", what="equality of range lists")

Q("C02", "equal_other", "rangelist.c", "h_equal_other", srcs=RL, defs=["N=2", "S=3", "TASKS=2"], bounds="2 ranges, compared with list of 1..3 ranges, 2..4 tasks, same or other space", what="equality of range lists")

# ---------------------------------------------------------------- C03 coverage check
for d, s, n in ((1, 6, 2), (2, 2, 3), (2, 3, 2), (3, 2, 2)):
    Q("C03", f"covers_{d}d_n{n}_s{s}", "rangelist.c", "h_covers", srcs=RL, defs=[f"N={n}", f"S={s}", f"DIMS={d}", "TASKS=2", "TAGS=1"],
      bounds=f"{n} arbitrary ranges in {d}d space with {s} indexes per dimension", what="coverage check against definition")
Q("C03", "covers_wide", "rangelist.c", "h_covers_wide", srcs=RL, defs=["N=2", "TASKS=2"],
  bounds="2 ranges in 1d space, all 64-bit borders", what="coverage check against definition")

# ---------------------------------------------------------------- C10 migration
for nc in (1, 2, 3):
    for n, h in (("", "h_migrate"), ("_single", "h_migrate_single")):
        for k in (2, 3):
            Q("C10", f"migrate{n}_n{k}_to{nc}", "rangelist.c", h, srcs=RL, defs=[f"N={k}", "S=6", "TASKS=2", f"NEWC={nc}"],
              tier="thorough" if (k == 3 and nc > 1 and not (n and nc == 2)) else "quick",
              bounds=f"{k} {'single indexes' if n else 'ranges'}, 2 old tasks, {nc} new tasks, any id mapping", what="migrate range list")

# ---------------------------------------------------------------- C11 transitions in 1d
def T1(pid, name, f, t, nf, nt, s=4, tier="quick", **kw):
    dd = [f"{k}={v}" for k, v in kw.items() if k in ("EMPTY", "TAGS", "MERGE", "DIMS", "ONE_EACH")]
    Q(pid, name, "transition.c", f, srcs=RL, defs=[f"TASKS={t}", f"NF={nf}", f"NT={nt}", f"S={s}"] + dd, tier=tier,
      timeout=600 if tier == "thorough" else 300,
      bounds=f"{t} processes, {nf} ranges before, {nt} ranges after, {kw.get('DIMS',1)}d space with {s} indexes per dimension"
             + (", empty ranges" if kw.get("EMPTY") else "") + (", merging" if kw.get("MERGE") else "")
             + (", tags 0..%s" % kw["TAGS"] if kw.get("TAGS") else ""),
      what="operations calculated in all processes, for any index")


T1("C11", "copy_t2_2_2_empty", "h_trans_1d", 2, 2, 2, 4, EMPTY=1)
T1("C11", "copy_t2_2_2_merge", "h_trans_1d", 2, 2, 2, 4, MERGE=1)
T1("C11", "copy_t2_wide", "h_trans_1d", 2, 1, 1, "0x3fffffffffffffffLL")
T1("C11", "copy_t3_2_1", "h_trans_1d", 3, 2, 1, 4)
T1("C11", "copy_t2_1_2_tags", "h_trans_1d", 2, 1, 2, 4, TAGS=2)
T1("C11", "red_t2_2_2", "h_trans_1d_red", 2, 2, 2, 3)
T1("C11", "red_t3_2_1", "h_trans_1d_red", 3, 2, 1, 4)
T1("C11", "red_t4_groups", "h_trans_1d_red", 4, 4, 1, 2, TAGS=0, ONE_EACH=1)
T1("C11", "red_t4_groups_s3", "h_trans_1d_red", 4, 4, 1, 3, TAGS=0, ONE_EACH=1, tier="thorough")
T1("C11", "red_t5_groups", "h_trans_1d_red", 5, 5, 1, 2, TAGS=0, ONE_EACH=1, tier="thorough")
T1("C11", "copy_t3_2_2", "h_trans_1d", 3, 2, 2, 4, tier="thorough")
T1("C11", "copy_t3_3_1", "h_trans_1d", 3, 3, 1, 4, tier="thorough")
T1("C11", "copy_t3_1_3", "h_trans_1d", 3, 1, 3, 4, tier="thorough")
T1("C11", "copy_t2_2_2_tags", "h_trans_1d", 2, 2, 2, 4, TAGS=2, tier="thorough")
T1("C11", "red_t3_3_1", "h_trans_1d_red", 3, 3, 1, 3, tier="thorough")
T1("C11", "red_t3_2_2", "h_trans_1d_red", 3, 2, 2, 3, tier="thorough")
# ---------------------------------------------------------------- C12 transitions in 2d/3d
T1("C12", "copy_2d_t2_2_2", "h_trans_nd", 2, 2, 2, 2, DIMS=2)
T1("C12", "copy_3d_t3_2_1", "h_trans_nd", 3, 2, 1, 2, DIMS=3)
T1("C12", "copy_2d_t2_1_2", "h_trans_nd", 2, 1, 2, 3, DIMS=2)
T1("C12", "multi_2d_t2_2_1", "h_trans_nd_multi", 2, 2, 1, 3, DIMS=2)
T1("C12", "multi_2d_t3_2_1", "h_trans_nd_multi", 3, 2, 1, 2, DIMS=2)
T1("C12", "copy_2d_t2_2_2_s3", "h_trans_nd", 2, 2, 2, 3, DIMS=2, tier="thorough")
T1("C12", "copy_3d_t3_2_1_s3", "h_trans_nd", 3, 2, 1, 3, DIMS=3, tier="thorough")
T1("C12", "multi_2d_t2_2_2_s3", "h_trans_nd_multi", 2, 2, 2, 3, DIMS=2, tier="thorough")
for d in (2, 3):
    for t in (1, 2, 3):
        T1("C12", f"red_{d}d_t{t}", "h_trans_nd_red", t, t, t, 4, DIMS=d)
# ---------------------------------------------------------------- C13 matching of operations
T1("C13", "match_2d_t2_2_2", "h_match", 2, 2, 2, 4, DIMS=2)
T1("C13", "match_2d_t2_3_2", "h_match", 2, 3, 2, 2, DIMS=2)
T1("C13", "match_1d_t3_2_1", "h_match", 3, 2, 1, 4)
T1("C13", "match_1d_t2_2_2", "h_match", 2, 2, 2, 3)
T1("C13", "match_2d_t3_2_2", "h_match", 3, 2, 2, 3, DIMS=2)
T1("C13", "match_2d_t2_3_2_s3", "h_match", 2, 3, 2, 3, DIMS=2, tier="thorough")
T1("C13", "match_1d_t3_2_2", "h_match", 3, 2, 2, 4, tier="thorough")

# ---------------------------------------------------------------- C04..C07 partitioners
PA = RL + ["partitioner.c"]


def QP(pid, name, f, bounds, tier="quick", timeout=300, what="partitioner output", **d):
    Q(pid, name, "partitioner.c", f, srcs=PA, defs=[f"{k}={v}" for k, v in d.items()], tier=tier, timeout=timeout, bounds=bounds, what=what)


QP("C04", "block_1d", "h_block", "1..6 processes, 1..16 indexes, 1..3 cycles, any start", TASKS=6, S=16, CYC=3)
QP("C04", "block_3d", "h_block", "3d, any split dimension, 1..3 processes, 1..5 indexes, 1..2 cycles", TASKS=3, S=5, CYC=2, DIMS=3)
QP("C04", "block_1d_large", "h_block", "1..12 processes, 1..40 indexes, 1..2 cycles", tier="thorough", TASKS=12, S=40, CYC=2)
QP("C04", "weights", "h_block_weights", "3 processes, 5 indexes, index weights 0..3 and/or process weights 0..2, 1..2 cycles", TASKS=3, S=5, CYC=2, WMAX=3)
QP("C04", "weights_small", "h_block_weights", "3 processes, 4 indexes, index weights 0, 1/4, 1/2, 3/4, 1..2 cycles", TASKS=3, S=4, CYC=2, WMAX=3, SCALE="0.25")
QP("C04", "weights_large", "h_block_weights", "4 processes, 6 indexes, index weights 0..3 and/or process weights 0..2", tier="thorough", timeout=900, TASKS=4, S=6, CYC=1, WMAX=3)
QP("C05", "bisection_1d", "h_bisection", "5 processes, 1..12 indexes, any start", TASKS=5, S=12, DIMS=1)
QP("C05", "bisection_2d", "h_bisection", "3 processes, up to 6x6 indexes", TASKS=3, S=6, DIMS=2)
QP("C05", "bisection_3d", "h_bisection", "4 processes, up to 4x4x4 indexes", TASKS=4, S=4, DIMS=3)
QP("C05", "bisection_2d_t7", "h_bisection", "7 processes, up to 7x7 indexes", tier="thorough", timeout=600, TASKS=7, S=7, DIMS=2)
QP("C05", "grid", "h_grid", "up to 2x2x2 blocks, up to 4x3x3 indexes, starts -1..1", TASKS=1, S=4, DIMS=3, XB=2, YB=2, ZB=2)
QP("C05", "grid_larger", "h_grid", "up to 3x2x2 blocks, up to 6x3x3 indexes", tier="thorough", TASKS=1, S=6, DIMS=3, XB=3, YB=2, ZB=2)
QP("C05", "grid_rounding", "h_grid_long", "46..50 blocks, 46..52 indexes in one of the dimensions", TASKS=1, DIMS=3, S=52, BMIN=46, SMIN=46, XB=50, YB=1, ZB=1)
QP("C05", "grid_rounding_all", "h_grid_long", "1..60 blocks, 1..64 indexes in one of the dimensions", tier="thorough", timeout=1800, TASKS=1, DIMS=3, S=64, XB=60, YB=1, ZB=1)
for d in (1, 2, 3):
    QP("C06", f"all_master_{d}d", "h_all_master", f"{d}d spaces with any borders in -4..4, 3 processes", TASKS=3, DIMS=d)
QP("C06", "copy_1d_to_2d", "h_copy", "2 ranges, 2 processes, 1d to any dimension of 2d", TASKS=2, DIMS=2, ODIMS=1)
QP("C06", "copy_2d_to_3d", "h_copy", "2 ranges, 2 processes, any dimension of 2d to any of 3d", TASKS=2, DIMS=3, ODIMS=2)
QP("C06", "halo_1d", "h_halo", "2 ranges, 2 processes, 6 indexes from -2, depth 0..2", TASKS=2, DIMS=1, B0=-2)
QP("C06", "halo_2d", "h_halo", "2 ranges, 2 processes, 3x3 indexes, depth 1", TASKS=2, DIMS=2, S=3, DMIN=1, DMAX=1)
QP("C06", "halo_2d_s4", "h_halo", "2 ranges, 2 processes, 4x4 indexes, depth 0..2", tier="thorough", timeout=600, TASKS=2, DIMS=2, S=4)
QP("C06", "halo_3d", "h_halo", "1 range, 4x4x4 indexes from 16, depth 0..2", TASKS=1, DIMS=3, N=1, S=4)
QP("C06", "halo_3d_neg", "h_halo", "1 range, 4x4x4 indexes from -2, depth 0..2", TASKS=1, DIMS=3, N=1, S=4, B0=-2)
QP("C06", "cornerhalo_2d", "h_cornerhalo", "2 ranges, 2 processes, 5x5 indexes from -2, depth 0..2", TASKS=2, DIMS=2, S=5, B0=-2)
QP("C06", "cornerhalo_3d", "h_cornerhalo", "1 range, 5x5x5 indexes, depth 0..2", TASKS=1, DIMS=3, N=1, S=5)
QP("C07", "reassign", "h_reassign", "3 processes, any removed, 3 blocks, 4 indexes, weights 0..2", TASKS=3, DIMS=1, N=3, S=4, WMAX=2)
QP("C07", "reassign_s5", "h_reassign", "3 processes, any removed, 3 blocks, 5 indexes, weights 0..1", TASKS=3, DIMS=1, N=3, S=5, WMAX=1)
QP("C07", "reassign_one_block", "h_reassign", "5 processes, any removed, 1 block (one owner), 6 indexes, weights 0..1", TASKS=5, DIMS=1, N=1, S=6, WMAX=1)
QP("C07", "reassign_one_block_s9", "h_reassign", "6 processes, any removed, 1 block, 8 indexes, weights 0..1", TASKS=6, DIMS=1, N=1, S=8, WMAX=1)
QP("C07", "reassign_t4", "h_reassign", "4 processes, any removed, 4 blocks, 6 indexes, weights 0..1", tier="thorough", timeout=900, TASKS=4, DIMS=1, N=4, S=6, WMAX=1)

# ---------------------------------------------------------------- C08 filters
def QF(name, f, bounds, tier="quick", **d):
    Q("C08", name, "filter.c", f, srcs=PA, defs=[f"{k}={v}" for k, v in d.items()], tier=tier, timeout=600 if tier == "thorough" else 300,
      bounds=bounds, what="filtered runs against complete run")


QF("my_ranges", "h_my", "4 ranges, 2 processes, 4 indexes, tags 0..1, any own id (or none)", TASKS=2, N=4, S=4)
QF("my_ranges_t3", "h_my", "3 ranges, 3 processes, 6 indexes, tags 0..2", TASKS=3, N=3, S=6, TAGS=2)
QF("my_single", "h_my", "4 single indexes, 2 processes, 5 indexes", TASKS=2, N=4, S=5, SINGLE=1)
QF("my_2d", "h_my", "3 ranges, 2 processes, 3x3 indexes", TASKS=2, N=3, S=3, DIMS=2)
QF("idx_n2_m1", "h_idx", "2+1 ranges, 2 processes, 5 indexes, tags 0..1", TASKS=2, N=2, M=1)
QF("idx_n3_m1", "h_idx", "3+1 ranges, 1 process, 7 indexes", TASKS=1, N=3, M=1, TAGS=0, S=7)
QF("idx_n4", "h_idx", "4+1 ranges, 1 process, 8 indexes", TASKS=1, N=4, M=1, TAGS=0, S=8)
QF("inter_t2_1_2", "h_inter", "1 range before, 2 after, 2 processes, 4 indexes", TASKS=2, N=1, M=2, S=4)
QF("inter_t2_3", "h_inter", "2 ranges before, 1 after, 2 processes, 4 indexes", TASKS=2, N=2, M=1, S=4)
QF("inter_t2", "h_inter", "2 ranges before, 2 after, 2 processes, 3 indexes", tier="thorough", TASKS=2, N=2, M=2, S=3)
QF("inter_t3_merge", "h_inter", "2 ranges before, 1 after, 3 processes, 3 indexes, merged", TASKS=3, N=2, M=1, S=3, MERGE=1)
QF("inter_t2_s4", "h_inter", "2 ranges before, 2 after, 2 processes, 4 indexes", tier="thorough", TASKS=2, N=2, M=2, S=4)

# ---------------------------------------------------------------- C14 / C15 layouts
LA = ["layout.c", "layout_lex.c", "space.c", "data.c"]
for d, s in ((1, 5), (2, 3), (3, 2)):
    Q("C14", f"offset_{d}d", "layout.c", "h_offset", srcs=LA, defs=[f"DIMS={d}", f"S={s}"],
      bounds=f"2 mappings, any ranges in {d}d space of {s} indexes per dimension, negative borders, any two indexes", what="offsets, strides, search of index")
    Q("C14", f"offset_wide_{d}d", "layout.c", "h_offset_wide", srcs=LA, defs=[f"DIMS={d}"],
      bounds=f"{d}d ranges with widths 1, 5, 65537, 2^20 per dimension, start in +-10^10, any index", what="offsets beyond 32 bit")
Q("C14", "reuse_1d", "layout.c", "h_reuse", srcs=LA, defs=["DIMS=1", "S=4"], bounds="2 old and 2 new mappings, 1d space of 4 indexes", what="reuse keeps addresses")
Q("C14", "reuse_2d", "layout.c", "h_reuse", srcs=LA, defs=["DIMS=2", "S=2"], bounds="2 old and 2 new mappings, 2x2 space", what="reuse keeps addresses")
Q("C14", "reuse_3d", "layout.c", "h_reuse", srcs=LA, defs=["DIMS=3", "S=2", "MAPS=1"], bounds="1 old and 1 new mapping, 2x2x2 space", what="reuse keeps addresses")
for kf, kt, n in ((0, 0, "lex"), (1, 0, "usr_lex"), (0, 1, "lex_usr"), (1, 1, "usr")):
    for d, s, es in ((1, 4, 2), (2, 3, 1), (2, 2, 8), (3, 2, 2)):
        if d == 3 and kf != kt: continue
        Q("C15", f"pack_{n}_{d}d_es{es}", "layout.c", "h_pack", srcs=LA, defs=[f"DIMS={d}", f"S={s}", f"KF={kf}", f"KT={kt}", f"ES={es}"],
          bounds=f"2 mappings per layout, any range in {d}d space of {s} indexes per dimension, any sub-range, chunks of 1..3 elements (+1 byte), element size {es}, layouts {n}", what="pack/unpack in chunks")
        Q("C15", f"copy_{n}_{d}d_es{es}", "layout.c", "h_copy", srcs=LA, defs=[f"DIMS={d}", f"S={s}", f"KF={kf}", f"KT={kt}", f"ES={es}"],
          bounds=f"as above, mappings around the copied range", what="copy between mappings")

# ---------------------------------------------------------------- C16-C18 switching of containers
SW = ["layout.c", "layout_lex.c", "space.c", "data.c", "rangelist.c", "partitioning.c", "action.c", "core.c", "type.c"]
def QS(pid, name, func, tier="quick", what="", bounds="", **kw):
    Q(pid, name, "switch.c", func, srcs=SW, defs=[f"{k}={v}" for k, v in kw.items()], tier=tier, what=what,
      bounds=bounds + f"{kw.get('DIMS', 1)}d space with {kw.get('S', 3)} indexes per dimension, {kw.get('TASKS', 2)} processes, any ownership, any grouping into {kw.get('NTAGS', 2)} mappings, receives before or after sends")
for me in (0, 1):
    QS("C16", f"switch_1d_me{me}", "h_switch", DIMS=1, S=3, ME=me, what="values preserved by a switch")
QS("C16", "switch_1d_merged", "h_switch", DIMS=1, S=4, MERGE="true", what="values preserved by a switch")
QS("C16", "switch_1d_maps3_t2", "h_switch", DIMS=1, S=3, NTAGS=3, tier="thorough", timeout=900, what="values preserved by a switch")
QS("C16", "switch_1d_maps3", "h_switch", DIMS=1, S=3, NTAGS=3, TASKS=1, what="values preserved by a switch")
QS("C16", "switch_1d_maps4", "h_switch", DIMS=1, S=4, NTAGS=4, TASKS=1, tier="thorough", timeout=900, what="values preserved by a switch")
QS("C16", "switch_2d", "h_switch", DIMS=2, S=2, what="values preserved by a switch")
QS("C16", "switch_3d", "h_switch", DIMS=3, S=2, NTAGS=1, tier="thorough", what="values preserved by a switch")
QS("C16", "switch2_1d", "h_switch", DIMS=1, S=3, STEPS=2, tier="thorough", what="values preserved by two switches")
QS("C16", "switch2_1d_s2", "h_switch", DIMS=1, S=2, STEPS=2, what="values preserved by two switches")
QS("C16", "switch3_1d_s2", "h_switch", DIMS=1, S=2, STEPS=3, what="values preserved by three switches")
QS("C16", "init", "h_init", DIMS=1, S=3, what="initialization")
QS("C16", "init_offset", "h_init", DIMS=1, S=3, MERGE="true", OFFSET="3000000000LL", what="initialization, indexes above 2^31")
for me in (0, 1):
    QS("C16", f"groups_me{me}", "h_groups", DIMS=1, S=2, TASKS=3, ME=me, what="switch between any two sub groups of 3 processes")
    QS("C16", f"groups_back_me{me}", "h_groups", DIMS=1, S=2, TASKS=3, ME=me, BACK=1, what="switch between any two sub groups and back")
for ex in (0, 1, 2):
    QS("C17", f"reserve_1d_exec{ex}", "h_reserve", DIMS=1, S=3, EXEC=ex, what="reservation, " + ["switch", "prepared transition", "prepared actions"][ex])
    QS("C17", f"reserve_2d_exec{ex}", "h_reserve", DIMS=2, S=2, EXEC=ex, tier="thorough", what="reservation")
QS("C17", "reserve_2d_n1", "h_reserve", DIMS=2, S=2, NTAGS=1, what="reservation")
QS("C17", "provide_1d", "h_provide", DIMS=1, S=3, what="memory provided by application")
QS("C17", "provide_2d", "h_provide", DIMS=2, S=2, NTAGS=1, what="memory provided by application")

# ---------------------------------------------------------------- C09 groups
for t, tier in ((3, "quick"), (4, "quick"), (5, "quick")):
    Q("C09", f"group_t{t}", "group.c", "h_group", srcs=["core.c"], defs=[f"TASKS={t}"], tier=tier,
      bounds=f"world of {t} processes, any two derived sub groups (any removal list, also with duplicates), union in any order, any own id", what="shrink, union, clone, world change")

# ---------------------------------------------------------------- C19 types
for lt, ct, fp in (("laik_Char", "signed char", 0), ("laik_UChar", "unsigned char", 0), ("laik_Int32", "int32_t", 0), ("laik_UInt32", "uint32_t", 0),
                   ("laik_Int64", "int64_t", 0), ("laik_UInt64", "uint64_t", 0), ("laik_Float", "float", 1), ("laik_Double", "double", 1)):
    for op in range(4 if fp else 6):
        sm = fp and op < 2
        kw = dict(engine="cbmc", unwind=12, timeout=200, nocheck=("signed-overflow", "conversion")) if fp and not sm else {}
        Q("C19", f"{lt[5:].lower()}_op{op}", "type.c", "h_type", srcs=["type.c"],
          defs=[f"LT={lt}", f"CT={ct}", f"FP={fp}", f"OP={op}"] + (["SMALL=1"] if sm else []),
          bounds="vectors of 2 elements, all values of the type" + (" k/4 with -6 <= k <= 6" if sm else " (finite)" if fp else ""), what="reduction, neutral element", **kw)

# ---------------------------------------------------------------- C20 / C21 parallel runs with the MPI backend
MP = ["layout.c", "layout_lex.c", "space.c", "data.c", "rangelist.c", "partitioning.c", "action.c", "core.c", "type.c"]
MPI_MODE = ["switch", "prepared actions", "prepared actions with reservation"]


def QM(pid, name, tier="quick", timeout=300, bounds="", what=None, conc=600, **kw):
    Q(pid, name, "mpi.c", "h_mpi", srcs=MP, mpi=True, extra=("mpisyms.c",), defs=[f"{k}={v}" for k, v in kw.items()], tier=tier, timeout=timeout, conc=conc,
      bounds=bounds or f"{kw.get('TASKS')} processes, {kw.get('DIMS', 1)}d space with {kw.get('S')} indexes per dimension, any ownership before/after, {kw.get('NTAGS', 1)} mappings per process, {kw.get('ITER', 1)} executions, all values",
      what=what or "simulated parallel run of all processes: " + MPI_MODE[kw.get("MODE", 0)])


for m in (0, 1, 2):
    QM("C20", f"copy_t3_mode{m}", TASKS=3, S=3, MODE=m)
    QM("C20", f"copy_t2_maps_mode{m}", TASKS=2, S=2, MODE=m, NTAGS=2, ITER=2)
    QM("C20", f"copy_t4_merge_mode{m}", TASKS=4, S=2, MODE=m, MERGE="true")
    QM("C20", f"copy_2d_mode{m}", TASKS=2, S=2, MODE=m, DIMS=2)
    QM("C20", f"copy_partial_mode{m}", TASKS=3, S=2, MODE=m, HOLES=1)
    QM("C20", f"copy_sync_mode{m}", TASKS=3, S=2, MODE=m, MASYNC=0, ITER=2)
    QM("C20", f"copy_2d_maps_mode{m}", TASKS=2, S=2, MODE=m, DIMS=2, NTAGS=2, tier="thorough", timeout=900)
    QM("C20", f"copy_3d_mode{m}", TASKS=2, S=2, MODE=m, DIMS=3, tier="thorough", timeout=900)
    QM("C20", f"copy_t3_maps_mode{m}", TASKS=3, S=3, MODE=m, NTAGS=2, tier="thorough", timeout=900)
for mr in (0, 1):
    for ma in (0, 1):
        for m in (0, 2):
            QM("C21", f"red_t3_mode{m}_allreduce{mr}_async{ma}", TASKS=3, S=2, MODE=m, RED=1, MREDUCE=mr, MASYNC=ma)
    QM("C21", f"red_t9_allreduce{mr}", TASKS=9, S=1, MODE=0, RED=2, MREDUCE=mr, conc=1100)
    QM("C21", f"red_t9_reserved_allreduce{mr}", TASKS=9, S=1, MODE=2, RED=2, MREDUCE=mr, tier="thorough", conc=1100)
MPI_TYPES = (("char", "int8_t", "INT8_T", "Char"), ("uchar", "uint8_t", "UINT8_T", "UChar"), ("uint32", "uint32_t", "UINT32_T", "UInt32"), ("int32", "int32_t", "INT32_T", "Int32"),
             ("int64", "int64_t", "INT64_T", "Int64"), ("uint64", "uint64_t", "UINT64_T", "UInt64"), ("float", "float", "FLOAT", "Float"), ("double", "double", "DOUBLE", "Double"))
for n, ct, mt, lt in MPI_TYPES:
    fp = dict(SIM_FP=1) if lt in ("Float", "Double") else {}
    tk = dict(SIM_CT=ct, SIM_MT="MPI_" + mt, SIM_LT="laik_" + lt, **fp)
    QM("C20", f"copy_{n}", TASKS=2, S=3, MODE=0, **tk)
    for mr in (0, 1):
        QM("C21", f"red_{n}_allreduce{mr}", TASKS=2, S=1, MODE=2 * mr, RED=1, MREDUCE=mr, ALLOPS=4 if fp else 6, **tk)
QM("C21", "red_t2_s3", TASKS=2, S=3, MODE=0, RED=1)
QM("C21", "red_t4_s2", TASKS=4, S=2, MODE=0, RED=1, tier="thorough", timeout=900)
QM("C21", "red_t4_s1", TASKS=4, S=1, MODE=2, RED=1, ITER=2)
for mr in (0, 1):
    QM("C21", f"red_noinput_allreduce{mr}", TASKS=3, S=1, MODE=2, RED=1, HOLES=1, MREDUCE=mr)
QM("C21", "red_noinput_s2", TASKS=2, S=2, MODE=0, RED=1, HOLES=1)
QM("C21", "red_all_t3", TASKS=3, S=4, MODE=2, RED=3, MERGE="true")
QM("C21", "red_t2_maps", TASKS=2, S=2, MODE=0, RED=1, NTAGS=2)
QM("C21", "red_t2_maps_merge", TASKS=2, S=3, MODE=0, RED=1, NTAGS=2, MERGE="true", tier="thorough")
QM("C21", "red_t10_sync", TASKS=10, S=1, MODE=2, RED=2, MASYNC=0, tier="thorough", conc=1100)
QM("C21", "red_prepared_unreserved", TASKS=2, S=1, MODE=1, RED=1)
QM("C21", "red_2d", TASKS=2, S=2, MODE=0, RED=3, DIMS=2)

# ---------------------------------------------------------------- C23-C26 key-value store
def QK(pid, name, tier="quick", timeout=300, **kw):
    mpi = "TASKS" in kw
    Q(pid, name, "kvstore.c", "h_kvs_mpi" if mpi else "h_kvs", srcs=(["kvs.c"] + MP) if mpi else ["kvs.c"], mpi=mpi, extra=("mpisyms.c",) if mpi else (),
      defs=(["KVS_MPI=1"] if mpi else []) + [f"{k}={v}" for k, v in kw.items()], tier=tier, timeout=timeout,
      bounds=f"{kw.get('NK', 2)} keys " + (f"of up to {kw['KLEN']} symbolic characters" if kw.get("KLEN") else "(one a prefix of another)") +
             f", values of 1..{kw.get('VLEN', 2)} symbolic bytes, {kw.get('ROUNDS', 2)} rounds of {kw.get('OPS', 2)} changes (set, remove) and synchronization" + (f" of {kw['TASKS']} processes" if mpi else "") + ("; any subset of callbacks registered" if kw.get("CBS") else ""),
      what="simulated parallel run of all processes with MPI" if mpi else "local content, journal and its application in another process")


QK("C23", "fixed_keys", KLEN=0)
QK("C23", "any_keys", KLEN=2, VLEN=1)
QK("C23", "keys3", KLEN=1, NK=3, VLEN=1)
QK("C23", "ops3", KLEN=0, NK=1, OPS=3, VLEN=3)
QK("C23", "rounds3", KLEN=0, OPS=1, ROUNDS=3, VLEN=2)
QK("C23", "callbacks", KLEN=0, NK=1, OPS=1, ROUNDS=3, VLEN=1, CBS=1)
QK("C23", "keys3_ops3", KLEN=0, NK=3, OPS=3, VLEN=1, tier="thorough", timeout=900)
QK("C24", "t2", KLEN=0, TASKS=2, OPS=1)
QK("C24", "t2_ops2", KLEN=0, TASKS=2, OPS=2, ROUNDS=1)
QK("C24", "t2_rounds3", KLEN=0, TASKS=2, OPS=1, ROUNDS=3, VLEN=1)
QK("C24", "t3", KLEN=0, TASKS=3, OPS=1, ROUNDS=1)
QK("C24", "t3_rounds2", KLEN=0, TASKS=3, OPS=1, NK=1, VLEN=1)
QK("C24", "t4", KLEN=0, TASKS=4, OPS=1, ROUNDS=1, VLEN=1)
QK("C24", "t3_ops2", KLEN=0, TASKS=3, OPS=2, ROUNDS=1, VLEN=1, tier="thorough", timeout=900)
QK("C24", "t3_rounds2_keys2", KLEN=0, TASKS=3, OPS=1, ROUNDS=2, VLEN=1, tier="thorough", timeout=900)


def QS(pid, name, func, bounds, tier="quick", timeout=300, **kw):
    Q(pid, name, "store.c", func, srcs=["kvs.c"] + MP, mpi=True, extra=("mpisyms.c",), defs=["FMT_TOKEN=1"] + [f"{k}={v}" for k, v in kw.items()], tier=tier, timeout=timeout, conc=600,
      bounds=bounds, what="simulated parallel run of all processes with MPI")


for d in (1, 2, 3):
    QS("C25", f"spaces_{d}d", "h_spaces", f"3 processes, {d}d space with any 64-bit borders, changed once by any process", DIMS=d, TASKS=3)
QS("C25", "spaces_owner1", "h_spaces", "3 processes, 2d space of process 1 with any 64-bit borders, changed once by any process", DIMS=2, TASKS=3, OWNER=1)
QS("C26", "locations_t3", "h_locations", "3 processes, location strings of up to 2 symbolic characters, synchronized twice", TASKS=3)
QS("C26", "locations_grow", "h_locations", "3 processes, third one joining later, location strings of up to 2 symbolic characters", TASKS=3, FIRST=2)
QS("C26", "locations_grow_t4", "h_locations", "4 processes, 3 joining later, location strings of up to 2 symbolic characters", TASKS=4, FIRST=1)

# ---------------------------------------------------------------- C27 life cycle
LI = ["core.c", "space.c", "data.c", "action.c", "rangelist.c", "partitioning.c", "type.c", "layout.c", "layout_lex.c", "program.c", "profiling.c", "external.c", "partitioner.c", "debug.c"]
for n, tier in ((5, "quick"), (6, "thorough")):
    Q("C27", f"objects_s{n}", "life.c", "h_objects", srcs=LI, defs=[f"STEPS={n}"], stubs=("QSORT", "REALLOC"), tier=tier, timeout=300 if tier == "quick" else 900,
      bounds=f"any sequence of up to {n} creations and removals of containers and spaces, then finalization with all log output", what="objects of the instance")
for n, tier in ((4, "quick"), (5, "thorough")):
    Q("C27", f"resize_s{n}", "life.c", "h_resize", srcs=LI, defs=[f"STEPS={n}"], stubs=("QSORT", "REALLOC"), tier=tier, timeout=300 if tier == "quick" else 900,
      bounds=f"any sequence of up to {n} join/remove requests, resize phases (with or without new world) and ends of resize phases, then finalization", what="resize of the world")

# ---------------------------------------------------------------- C30 groups of processes with MPI
def QG(name, tier="quick", timeout=300, **kw):
    Q("C30", name, "shrink.c", "h_shrink", srcs=MP, mpi=True, extra=("mpisyms.c",), defs=[f"{k}={v}" for k, v in kw.items()], tier=tier, timeout=timeout, conc=600,
      bounds=f"{kw['TASKS']} processes, any list of processes to remove" + (", twice" if kw.get("TWICE") else "") + f", {kw.get('DIMS', 1)}d space with {kw['S']} indexes per dimension, any owner before and after, all values",
      what="simulated parallel run: shrink" + (", reduction in smaller group" if kw.get("REDUCE") else ", switch in smaller group") + (", back" if kw.get("BACK", 1) else ""))


QG("shrink_t3", TASKS=3, S=1)
QG("shrink_t3_s2", TASKS=3, S=2, BACK=0)
QG("shrink_t2_s2", TASKS=2, S=2)
QG("shrink_2d", TASKS=3, S=1, DIMS=2)
QG("reduce_t3", TASKS=3, S=1, REDUCE=1)
QG("reduce_t3_s2", TASKS=3, S=2, REDUCE=1, BACK=0)
QG("twice_t4", TASKS=4, S=1, TWICE=1)
QG("twice_reduce_t4", TASKS=4, S=1, TWICE=1, REDUCE=1, BACK=0)
QG("shrink_t3_s2_back", TASKS=3, S=2, tier="thorough", timeout=900)
QG("shrink_2d_s2", TASKS=2, S=2, DIMS=2, BACK=0, tier="thorough", timeout=900)
QG("twice_reduce_t4_back", TASKS=4, S=1, TWICE=1, REDUCE=1, tier="thorough", timeout=900)

# ---------------------------------------------------------------- C31 sequential run
def QSI(name, tier="quick", timeout=300, **kw):
    Q("C31", name, "single.c", "h_single", srcs=LI + ["backend-single.c", "kvs.c"], defs=[f"{k}={v}" for k, v in kw.items()], tier=tier, timeout=timeout, conc=100,
      bounds=f"{kw.get('DIMS', 1)}d space with {kw['S']} indexes per dimension, any sequence of up to {kw.get('STEPS', 3)} switches between partitionings of library partitioners" +
             (f" and any sets of indexes with {kw.get('NTAGS', 2)} mappings" if kw.get("USER", 1) else "") + ", any data flow and reduction, direct or prepared, all values", what="sequential program")


QSI("1d_s2", S=2, STEPS=2)
QSI("1d_s3", S=3, STEPS=2, NTAGS=1)
QSI("1d_steps3", S=2, STEPS=3, USER=0)
QSI("2d", S=2, DIMS=2, STEPS=2)
QSI("2d_steps3", S=2, DIMS=2, STEPS=3, USER=0)
QSI("3d", S=2, DIMS=3, STEPS=2, USER=0)
QSI("1d_s3_maps", S=3, STEPS=2, tier="thorough", timeout=900)
QSI("1d_s2_steps3", S=2, STEPS=3, NTAGS=1, tier="thorough", timeout=900)

# ---------------------------------------------------------------- C32 agents and program control
Q("C32", "agents", "ext.c", "h_agents", srcs=["program.c"], defs=["AGENTS=2", "FAILS=2"], bounds="2 agents of any kind, up to 2 failures each, any size of the result buffer", what="loading, failures, iterations, cleanup")
Q("C32", "agents_3", "ext.c", "h_agents", srcs=["program.c"], defs=["AGENTS=3", "FAILS=1"], tier="thorough", timeout=900, bounds="3 agents of any kind, up to 1 failure each, any size of the result buffer", what="loading, failures, iterations, cleanup")
Q("C32", "limit", "ext.c", "h_limit", srcs=["program.c"], bounds="up to the maximal number of agents", what="loading, failures, cleanup")
Q("C32", "control", "ext.c", "h_control", srcs=["program.c"], bounds="any sequence of 3 operations", what="iteration and phase")

# ---------------------------------------------------------------- C33 log output and names
for pre in (-1, 0, 1, 2):
    if pre >= 0:
        Q("C33", f"message_p{pre}", "log.c", "h_message", stubs=("QSORT", "REALLOC"), defs=[f"PRE={pre}"], tier="quick" if pre < 2 else "thorough",
          bounds="messages of three parts: 8 lengths up to 2100 characters or spaces, 4 arbitrary characters, 8 lengths of a long word", what="complete output, no overflow")
    if pre == 0:
        Q("C33", "message_border", "log.c", "h_border", stubs=("QSORT", "REALLOC"), defs=["PRE=0"], conc=200, bounds="messages of one or two parts with 1020..1028 or 2044..2052 characters", what="complete output, no overflow")
    Q("C33", f"level_p{pre}", "log.c", "h_level", stubs=("QSORT", "REALLOC"), defs=[f"PRE={pre}"], bounds="any level, filter and location", what="shown exactly if wanted")
    Q("C33", f"panic_p{pre}", "log.c", "h_panic", stubs=("QSORT", "REALLOC"), defs=[f"PRE={pre}"], bounds="any level, filter and location", what="panic ends program")
Q("C33", "environment", "log.c", "h_env", stubs=("QSORT", "REALLOC"), conc=200, bounds="LAIK_LOG with option, level 0..9, locations 0..99", what="configuration")
NM = {1: ("actions", "action"), 2: ("container", "data"), 3: ("reservation", "data"), 4: ("space", "space"), 5: ("type", "type"), 6: ("partitioning", "partitioning"), 7: ("transition", "space")}
for o, (n, inc) in NM.items():
    Q("C33", f"name_{n}", "names.c", "h_names", defs=[f"OBJ={o}"],
      srcs=[x + ".c" for x in ("space", "data", "action", "rangelist", "partitioning", "partitioner", "core", "type", "layout", "layout_lex") if x != inc],
      bounds="IDs up to INT_MAX" + (", names of up to 40 characters" if o == 6 else ""), what="names of objects")


# ---------------------------------------------------------------- C28, C29, C34, C35 TCP2 backend
TC = ["kvs.c", "layout.c", "layout_lex.c", "space.c", "data.c", "rangelist.c", "partitioning.c", "partitioner.c", "action.c", "core.c", "type.c", "program.c", "profiling.c", "external.c"]


def QT(pid, name, func, bounds, tier="quick", timeout=300, conc=600, **kw):
    free = []
    if kw.get("NSCHED"): free.append(f"{kw['NSCHED']} free choices of the process to run next")
    if kw.get("NEVENT"): free.append(f"{kw['NEVENT']} free choices of the connection served first")
    if kw.get("NREAD"): free.append(f"{kw['NREAD']} reads of any size" if not kw.get("RSIZES") else f"{kw['NREAD']} reads with one of {kw['RSIZES']} sizes around the borders of buffers")
    if kw.get("NWRITE"): free.append(f"{kw['NWRITE']} writes accepting any part of the data")
    Q(pid, name, "tcp2.c", func, srcs=TC, defs=[f"{k}={v}" for k, v in kw.items()], tier=tier, timeout=timeout, conc=conc,
      bounds=bounds + ("; " + ", ".join(free) if free else ""), what="simulated parallel run of all processes with TCP sockets")


ST = "commands and data blocks, data of any content"
QT("C28", "stream_i3", "h_stream", f"3 {ST}, stream cut at any position", ITEMS=3, CUTS=1, S=3)
QT("C28", "stream_i2_cuts2", "h_stream", f"2 {ST}, stream cut at any 2 positions", ITEMS=2, CUTS=2, S=3)
QT("C28", "close_i1_cuts2", "h_stream", f"1 {ST}, stream cut at any 2 positions, then closed in any way", ITEMS=1, CUTS=2, CLOSE=1, S=3)
QT("C28", "close_i2", "h_stream", f"2 {ST}, stream cut at any position, then closed in any way", ITEMS=2, CUTS=1, CLOSE=1, S=3)
QT("C28", "switch_split", "h_switch", "2 processes, 2 indexes, connection set up on demand, all owners and values", TASKS=2, S=2, CONNECTED="false", NREAD=1, NWRITE=1, SKIP=8)
QT("C28", "stream_i3_cuts2", "h_stream", f"3 {ST}, stream cut at any 2 positions", tier="thorough", timeout=900, ITEMS=3, CUTS=2, S=3)
QT("C28", "close_i2_cuts2", "h_stream", f"2 {ST}, stream cut at any 2 positions, then closed in any way", tier="thorough", timeout=900, ITEMS=2, CUTS=2, CLOSE=1, S=3)
QT("C28", "big_split", "h_big", "2 processes, 2100 elements of 4 bytes", conc=20000, ES=4, S=2100, QLEN=20000, NREAD=2, SKIP=6, RSIZES=6, BIN=1)

SW = "any owner of each index before and after, all values"
QT("C29", "t2_s3", "h_switch", f"2 processes, 1d with 3 indexes, {SW}, text or binary", TASKS=2, S=3, BIN=2, NSCHED=1)
QT("C29", "t2_2d", "h_switch", f"2 processes, 2d with 2 indexes per dimension, {SW}, connection set up on demand", TASKS=2, S=2, DIMS=2, BIN=1, CONNECTED="false")
QT("C29", "t2_2d_text", "h_switch", f"2 processes, 2d with 2 indexes per dimension from -2, {SW}, text", TASKS=2, S=2, DIMS=2, BIN=0, B0=-2)
QT("C29", "t2_3d_text", "h_switch", f"2 processes, 3d with 1 index per dimension from -2, {SW}, text", TASKS=2, S=1, DIMS=3, BIN=0, B0=-2)
QT("C29", "t3_s2", "h_switch", f"3 processes, 1d with 2 indexes, {SW}, connections set up on demand", TASKS=3, S=2, CONNECTED="false", NSCHED=2, NEVENT=2)
QT("C29", "red_t3_s2", "h_switch", "3 processes, 1d with 2 indexes, reduction of any kind, all values", TASKS=3, S=2, BIN=1, RED=1)
QT("C29", "red_t3_s1", "h_switch", "3 processes, 1d with 1 index, reduction of any kind, all values, connections set up on demand", TASKS=3, S=1, RED=1, CONNECTED="false", NSCHED=2, NEVENT=2)
QT("C29", "red_t2_text", "h_switch", "2 processes, 1d with 2 indexes, reduction of any kind, all values, text", TASKS=2, S=2, BIN=0, RED=1)
QT("C29", "red_t2_iter", "h_switch", "2 processes, 1d with 2 indexes, reduction of any kind, all values, executed twice", TASKS=2, S=2, BIN=1, RED=1, ITER=2)
QT("C29", "maps_t2_s3", "h_switch", f"2 processes, 1d with 3 indexes in 2 mappings per process, {SW}, text or binary", TASKS=2, S=3, BIN=2, NSCHED=1, NTAG=2)
QT("C29", "maps_red_t2", "h_switch", "2 processes, 1d with 2 indexes in 2 mappings per process, reduction of any kind, all values, text or binary", TASKS=2, S=2, BIN=2, RED=1, NTAG=2)
QT("C29", "maps_red_t3", "h_switch", "3 processes, 1d with 2 indexes in 2 mappings per process, reduction of any kind, all values", TASKS=3, S=2, BIN=1, RED=1, NTAG=2)
QT("C29", "elem40_text", "h_big", "2 processes, 3 elements of 40 bytes, text", ES=40, S=3, BIN=0)
QT("C29", "elem120_text", "h_big", "2 processes, 3 elements of 120 bytes, text", ES=120, S=3, BIN=0)
QT("C29", "elem40", "h_big", "2 processes, 3 elements of 40 bytes, binary", ES=40, S=3, BIN=1)
QT("C29", "elem8189", "h_big", "2 processes, 2 elements of 8189 bytes, binary", conc=20000, ES=8189, S=2, BIN=1, QLEN=20000)
QT("C29", "elem8190", "h_big", "2 processes, 2 elements of 8190 bytes, binary", conc=20000, ES=8190, S=2, BIN=1, QLEN=20000)
QT("C29", "t3_s3", "h_switch", f"3 processes, 1d with 3 indexes, {SW}", tier="thorough", timeout=900, TASKS=3, S=3, BIN=1, NSCHED=2, NEVENT=2)

KV = "names, keys and values with any letters"
QT("C34", "t3_k2", "h_kvs", f"3 processes, 2 keys, {KV}, any process sets or removes any key, synchronized once", TASKS=3, NK=2, ROUNDS=1, NEVENT=2, NSCHED=1)
QT("C34", "t2_rounds2", "h_kvs", f"2 processes, 1 key, {KV}, synchronized twice", TASKS=2, NK=1, ROUNDS=2, NREAD=1, SKIP=8)
QT("C34", "t3_long", "h_kvs", f"3 processes, 1 key, {KV}, key with 60 and value with 200 more characters, synchronized twice", TASKS=3, NK=1, ROUNDS=2, KPAD=60, VPAD=200)
QT("C34", "t2_binary", "h_kvs", "2 processes, 1 key, values of 1..2 bytes of any content, synchronized once", TASKS=2, NK=1, ROUNDS=1, VBIN=1, OPMAX=2)
QT("C34", "t2_k2_rounds2", "h_kvs", f"2 processes, 2 keys, {KV}, synchronized twice", tier="thorough", timeout=900, TASKS=2, NK=2, ROUNDS=2)

ME = "any processes joining or removed in each resize phase"
QT("C35", "t2_p4", "h_member", f"2 processes at start, up to 4, {ME}", TASKS=2, PROCS=4, NEVENT=2, SKIP=12, SYNC=1)
QT("C35", "t2_p3_split", "h_member", f"2 processes at start, up to 3, {ME}", TASKS=2, PROCS=3, NREAD=1, SKIP=10, SYNC=1)
QT("C35", "t3_p5_data", "h_member", f"3 processes at start, up to 5, {ME}, data moved to all processes", TASKS=3, PROCS=5, NEVENT=2, NSCHED=2, SYNC=1, DATA=1, S=5)
QT("C35", "t2_p4_rounds3", "h_member", f"2 processes at start, up to 4, {ME}, 3 phases, data moved to all processes", TASKS=2, PROCS=4, NEVENT=1, NSCHED=1, DATA=1, S=4, ROUNDS_M=3)
QT("C35", "t1_p3", "h_member", f"1 process at start, up to 3, {ME}, data moved to all processes", TASKS=1, PROCS=3, NEVENT=1, SYNC=1, DATA=1, S=3)
QT("C35", "t2_p3_exit", "h_member", f"2 processes at start, up to 3, {ME}, processes exit without finalization", TASKS=2, PROCS=3, NEVENT=1, SYNC=1, FINISH=0)


# ---------------------------------------------------------------- C18 own ranges and mappings
def QO(name, f, bounds, tier="quick", timeout=300, **kw):
    Q("C18", name, "own.c", f, srcs=PA, defs=[f"{k}={v}" for k, v in kw.items()], tier=tier, timeout=timeout, bounds=bounds, what="queries about own and all ranges, mappings, coverage, equality")


for d, n, s, tier in ((1, 3, 4, "quick"), (2, 3, 4, "quick"), (3, 2, 3, "quick"), (1, 4, 5, "thorough"), (3, 3, 2, "thorough")):
    QO(f"own_{d}d_n{n}", "h_own", f"{n} ranges in {d}d space with {s} indexes per dimension, 2 processes, tags 0..2", tier=tier, timeout=900 if tier != "quick" else 300, DIMS=d, N=n, S=s)
QO("own_t3", "h_own", "3 ranges in 1d space with 4 indexes, 3 processes, tags 0..2", TASKS=3)
QO("own_wide_tags", "h_own", "3 ranges in 1d space with 4 indexes, 2 processes, tags 0..4", TAGS=4)
for t, d in ((2, 1), (3, 1), (2, 2)):
    QO(f"all_t{t}_{d}d", "h_all", f"3 ranges in {d}d space with 4 indexes per dimension, {t} processes", TASKS=t, DIMS=d)
QO("compare_1d", "h_compare", "2 partitionings with 2 ranges each in 1d space with 4 indexes, 2 processes", N=2)
QO("compare_2d", "h_compare", "2 partitionings with 1 range each in 2d space with 2 indexes per dimension, 2 processes", N=1, DIMS=2, S=2)
