#include "P18_graph.hpp"
GRAPH18(16)
GRAPH18(17)
GRAPH18(18)
GRAPH18(19)
GRAPH18(20)
