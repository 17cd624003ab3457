#pragma once
#include "mc.h"
#include <string>
#include <vector>
#include <stdio.h>
