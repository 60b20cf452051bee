#ifndef VERIF_COLOR_NAMES_HPP_
#define VERIF_COLOR_NAMES_HPP_
#include <std_msgs/msg/color_rgba.hpp>
#include <boost/lexical_cast.hpp>
#include <string>
namespace color_names
{
inline auto makeColorMsg(const std::string & name, double alpha = 1.0)
{
  std_msgs::msg::ColorRGBA c;
  c.r = name == "red" || name == "yellow" || name == "white";
  c.g = name == "green" || name == "yellow" || name == "white";
  c.b = name == "white";
  c.a = float(alpha);
  return c;
}
}  // namespace color_names
#endif
