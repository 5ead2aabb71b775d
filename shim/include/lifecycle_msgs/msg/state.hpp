#pragma once
#include <cstdint>
#include <string>
namespace lifecycle_msgs { namespace msg {
struct State { static constexpr std::uint8_t PRIMARY_STATE_UNKNOWN = 0, PRIMARY_STATE_UNCONFIGURED = 1,
  PRIMARY_STATE_INACTIVE = 2, PRIMARY_STATE_ACTIVE = 3, PRIMARY_STATE_FINALIZED = 4; std::uint8_t id = 0; std::string label; };
struct Transition { static constexpr std::uint8_t TRANSITION_CREATE = 0, TRANSITION_CONFIGURE = 1, TRANSITION_CLEANUP = 2,
  TRANSITION_ACTIVATE = 3, TRANSITION_DEACTIVATE = 4, TRANSITION_UNCONFIGURED_SHUTDOWN = 5, TRANSITION_INACTIVE_SHUTDOWN = 6,
  TRANSITION_ACTIVE_SHUTDOWN = 7; std::uint8_t id = 0; std::string label; };
} }
