#define IKFAST_NAMESPACE irb4600_ik
#define IKFAST_NO_MAIN
#define IKFAST_HAS_LIBRARY
#include "ct_models/src/Irb4600/transform6d.cpp"
