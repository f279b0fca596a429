#define LEAK
#include "p15.hpp"
