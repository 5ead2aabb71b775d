#pragma once
#include <lifecycle_msgs/msg/state.hpp>
