#include "P18_graph.hpp"
GRAPH18(36)
GRAPH18(37)
GRAPH18(38)
GRAPH18(39)
GRAPH18(40)
