#include "vp_random.h"
