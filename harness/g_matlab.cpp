// the gateway of the repository, compiled against the stand-in of mex.h
#include "../matlab/opengv.cpp"
// every container access of the gateway is checked (-D_GLIBCXX_ASSERTIONS, tools/vbuild.py)
//
