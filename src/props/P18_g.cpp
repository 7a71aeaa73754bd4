#include "P18_graph.hpp"
GRAPH18(31)
GRAPH18(32)
GRAPH18(33)
GRAPH18(34)
GRAPH18(35)
