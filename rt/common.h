// Shared by all harnesses.
#pragma once
#include "symx.h"
#include "xmm.h"
#include <cmath>
#include <stdexcept>
#include <string>
#include <vector>
#include <memory>
typedef std::vector<float> VF;
typedef std::vector<double> VD;
