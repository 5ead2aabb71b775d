#pragma once
namespace rosidl_runtime_cpp
{
enum class MessageInitialization { ALL, SKIP, ZERO, DEFAULTS_ONLY };
}
