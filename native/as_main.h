#pragma once
#include "prelude.h"
#define exit(x) vc_exit(x)
