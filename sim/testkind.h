#pragma once
#include "exec.h"
