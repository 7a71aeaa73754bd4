#include "P18_graph.hpp"
GRAPH18(21)
GRAPH18(22)
GRAPH18(23)
GRAPH18(24)
GRAPH18(25)
