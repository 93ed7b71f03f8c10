#pragma once
#include "logging.h"
