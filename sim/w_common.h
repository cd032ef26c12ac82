#pragma once
#include "plan.h"
void run_cvec(const Plan* p);
