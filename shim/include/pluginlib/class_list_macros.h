#pragma once
#include <pluginlib/class_loader.hpp>
#define SHIM_CAT2_(a, b) a##b
#define SHIM_CAT_(a, b) SHIM_CAT2_(a, b)
#define PLUGINLIB_EXPORT_CLASS(DERIVED, BASE)                                              \
  namespace {                                                                              \
  const bool SHIM_CAT_(shim_plugin_, __LINE__) = (                                         \
    pluginlib::registry<BASE>()[#DERIVED] = [] { return std::shared_ptr<BASE>(new DERIVED()); }, true); \
  }
