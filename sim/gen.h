#pragma once
#include "plan.h"
void gen_plan(Plan& p); // fills everything from p.prop and p.seed
extern uint64_t g_scale; // 0 quick, 1 thorough: larger inputs and longer histories
