#pragma once
#include <tf2/LinearMath/Transform.h>
