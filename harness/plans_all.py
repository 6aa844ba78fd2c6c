"""One random call from any family (used by history properties)."""
import plans_reach
import plans_weighted
import plans_cluster
import plans_sub
import plans_cuts
import plans_operators
import plans_degree
import plans_matrices
import plans_ranking

ADDERS = []


def add_any(s, g, gr, rng):
    f = rng.choice(ADDERS)
    f(s, g, gr, rng)


ADDERS += [plans_reach.add_reach, plans_reach.add_dist, plans_weighted.add_bf, plans_weighted.add_fw,
           plans_cluster.add_cluster, plans_cluster.add_cluster,
           plans_sub.add_sub,
           plans_cuts.add_cuts,
           plans_operators.add_operators,
           plans_degree.add_deg,
           plans_degree.add_pred,
           plans_matrices.add_mat,
           plans_ranking.add_rank]
