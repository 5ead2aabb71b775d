#ifndef COLOR_NAMES_SHIM_HPP_
#define COLOR_NAMES_SHIM_HPP_
#include <std_msgs/msg/color_rgba.hpp>
#include <string>
namespace color_names
{
inline std_msgs::msg::ColorRGBA makeColorMsg(const std::string & name, double alpha = 1)
{
  std_msgs::msg::ColorRGBA c;
  unsigned h = 5381;
  for (const char x : name) h = h * 33 + static_cast<unsigned char>(x);
  if (name == "red") c.r = 1;
  else if (name == "green") c.g = 1;
  else if (name == "yellow") c.r = c.g = 1;
  else if (name == "white") c.r = c.g = c.b = 1;
  else if (name == "gray") c.r = c.g = c.b = 0.5;
  else c.r = (h & 255) / 255.0f, c.g = (h >> 8 & 255) / 255.0f, c.b = (h >> 16 & 255) / 255.0f;
  c.a = static_cast<float>(alpha);
  return c;
}
inline std_msgs::msg::ColorRGBA fromRgba(double r, double g, double b, double a)
{
  std_msgs::msg::ColorRGBA c;
  c.r = r, c.g = g, c.b = b, c.a = a;
  return c;
}
}  // namespace color_names
#endif
