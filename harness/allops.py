import ops_reach, ops_weighted, ops_props, ops_cluster, ops_sub, ops_cuts, ops_operators, ops_degree, ops_predicates, ops_matrices, ops_ranking, ops_containers, ops_convert, ops_labels, ops_chunk, ops_invalid, ops_agree, ops_gobj  # noqa: F401
