#pragma once
// docc includes <boost/graph/graphviz.hpp> without using it
