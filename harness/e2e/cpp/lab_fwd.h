#pragma once
#include "lab.h"
