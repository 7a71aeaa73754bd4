#include "P18_graph.hpp"
GRAPH18(1)
GRAPH18(2)
GRAPH18(3)
GRAPH18(4)
GRAPH18(5)
