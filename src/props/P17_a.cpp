#include "P17.hpp"
GRAPH(chain_all, 1, 3) GRAPH(top_only, 11) GRAPH(top_and_leaf, 11, 1) GRAPH(diamond, 7) GRAPH(diamond_kept_leaf, 7, 0) GRAPH(diamond_kept_side, 7, 2)
