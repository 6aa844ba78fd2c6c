"""Argument shapes of the public functions."""
N2 = {"has_path", "bellman_ford_path", "bellman_ford_path_length", "efficiency", "mutual_weight", "lowest_common_ancestor"}
N1 = {"single_source_shortest_path_length", "single_target_shortest_path_length",
      "single_source_bellman_ford_path_length", "descendants", "ancestors", "node_connected_component", "is_isolate",
      "ego_graph", "descendants_at_distance"}
OPT1 = {"triangles", "clustering", "square_clustering", "generalized_degree"}
S1 = {"volume", "is_dominating_set", "node_expansion", "boundary_expansion", "bfs_layers", "is_simple_path"}
S2 = {"cut_size", "normalized_cut_size", "conductance", "edge_expansion", "mixing_expansion", "edge_boundary",
      "node_boundary"}
PART = {"inter_community_edges", "intra_community_edges"}
BIN = {"compose", "difference", "disjoint_union", "full_join", "intersection", "symmetric_difference", "union",
       "fast_could_be_isomorphic", "faster_could_be_isomorphic"}
NL = {"adjacency_matrix", "laplacian_matrix", "normalized_laplacian_matrix", "bethe_hessian_matrix", "modularity_matrix",
      "directed_modularity_matrix", "google_matrix", "floyd_warshall_numpy"}
IT = {"eigenvector_centrality", "katz_centrality", "pagerank", "hits"}
