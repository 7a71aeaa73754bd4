#include "P18_graph.hpp"
GRAPH18(26)
GRAPH18(27)
GRAPH18(28)
GRAPH18(29)
GRAPH18(30)
