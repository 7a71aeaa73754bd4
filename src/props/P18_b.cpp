#include "P18_graph.hpp"
GRAPH18(6)
GRAPH18(7)
GRAPH18(8)
GRAPH18(9)
GRAPH18(10)
