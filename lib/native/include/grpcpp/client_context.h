#include "vp_grpc.h"
