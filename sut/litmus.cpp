#define LITMUS 1
#include "litmus.h"
#include <boost/atomic/fences.hpp>
#include "wrap.cpp"
