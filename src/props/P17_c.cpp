#include "P17.hpp"
GRAPH(sides, 3, 5) GRAPH(side_and_top, 5, 11, 12) GRAPH(middle_kept, 6, 11) GRAPH(leaf_twice, 1, 5, 9) GRAPH(unrelated, 13, 7) GRAPH(kept_reversed, 11, 8, 3, 0)
