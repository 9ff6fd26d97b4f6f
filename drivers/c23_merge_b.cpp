#include "c23_merge.h"
using namespace c23;
VP_SCENARIO(record_unstable, 400, 8000) { merge_case<R, PtrStore<R>, false, false>(ctx); }
VP_SCENARIO(record_stable, 400, 8000) { merge_case<R, PtrStore<R>, true, false>(ctx); }
VP_SCENARIO(record_sentinels, 400, 8000) { merge_case<R, PtrStore<R>, false, true>(ctx); }
VP_SCENARIO(record_stable_sentinels, 400, 8000) { merge_case<R, DequeStore<R>, true, true>(ctx); }
VP_SCENARIO(deque_stable, 200, 4000) { merge_case<R, DequeStore<R>, true, false>(ctx); }
VP_SCENARIO(owning_stable, 100, 2000) { long l = Live::n(); merge_case<Own, PtrStore<Own>, true, false>(ctx); VP_EQ((long)Live::n(), l, "merge-instances", "objects constructed and not destroyed"); }
VP_SCENARIO(partition_record, 80, 2000) { partition_case<R>(ctx); }
VP_SCENARIO(tree_pointer, 300, 6000) { if (ctx.rng.chance(1, 2)) guarded_tree<N64, sp::LoserTreePointer<true, N64, Cmp<N64> > >(ctx, true); else guarded_tree<R, sp::LoserTreePointer<false, R, Cmp<R> > >(ctx, false); }
VP_SCENARIO(tree_pointer_unguarded, 300, 6000) { if (ctx.rng.chance(1, 2)) unguarded_tree<N64, sp::LoserTreePointerUnguarded<true, N64, Cmp<N64> > >(ctx, true); else unguarded_tree<R, sp::LoserTreePointerUnguarded<false, R, Cmp<R> > >(ctx, false); }
#if STXXL_PARALLEL
VP_SCENARIO(mwms_record, 200, 4000) { if (ctx.rng.chance(1, 2)) mwms_case<R, true>(ctx); else mwms_case<R, false>(ctx); }
VP_SCENARIO(mwms_owning, 100, 2000) { if (ctx.rng.chance(1, 2)) mwms_case<Own, true>(ctx); else mwms_case<Own, false>(ctx); }
#endif
