#include "P17.hpp"
GRAPH(two_roots, 7, 9) GRAPH(two_roots_one_kept, 7, 8) GRAPH(everything, 1, 3, 5, 7, 9, 11, 13) GRAPH(alternating, 0, 3, 4, 7, 8, 11, 13) GRAPH(top_kept, 10, 7, 3, 1) GRAPH(reversed, 11, 9, 7, 5, 3, 1)
