#define IKFAST_NAMESPACE hya_ik
#define IKFAST_NO_MAIN
#define IKFAST_HAS_LIBRARY
#include "ct_models/src/HyA/transform6d.cpp"
