#include "P18_graph.hpp"
GRAPH18(11)
GRAPH18(12)
GRAPH18(13)
GRAPH18(14)
GRAPH18(15)
