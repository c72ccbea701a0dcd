// the Python module of the repository, compiled against the stand-in of pybind11
#include "../python/pyopengv.cpp"
