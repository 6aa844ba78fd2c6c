"""Plan generators: PLANS[property](rng, tier, shard, nshards) yields sessions."""
import plans_reach
import plans_weighted
import plans_props
import plans_cluster
import plans_sub
import plans_cuts
import plans_operators
import plans_degree
import plans_matrices
import plans_ranking
import plans_containers
import plans_convert
import plans_labels
import plans_chunk
import plans_invalid
import plans_agree
import plans_hist
import plans_gobj
import plans_multi

PLANS = {}
for m in (plans_reach, plans_weighted, plans_props, plans_cluster, plans_sub, plans_cuts, plans_operators, plans_degree, plans_matrices, plans_ranking, plans_containers, plans_convert, plans_labels, plans_chunk, plans_invalid, plans_agree, plans_hist, plans_gobj, plans_multi):
    PLANS.update(m.PLANS)
