#pragma once
#include "rbdl.h"
