// Stand-in for pluginlib: plugins are registered by name in the process.
#ifndef VERIF_PLUGINLIB_HPP_
#define VERIF_PLUGINLIB_HPP_
#include <functional>
#include <map>
#include <memory>
#include <stdexcept>
#include <string>
namespace vshim
{
template <typename B> std::map<std::string, std::function<std::shared_ptr<B>()>> & plugins() { static std::map<std::string, std::function<std::shared_ptr<B>()>> m; return m; }
}
namespace pluginlib
{
struct PluginlibException : std::runtime_error { using std::runtime_error::runtime_error; };
struct LibraryLoadException : PluginlibException { using PluginlibException::PluginlibException; };
struct CreateClassException : PluginlibException { using PluginlibException::PluginlibException; };
template <typename B> class ClassLoader
{
public:
  ClassLoader(const std::string &, const std::string &) {}
  std::shared_ptr<B> createSharedInstance(const std::string & n)
  {
    auto & m = vshim::plugins<B>();
    auto i = m.find(n);
    if (i == m.end()) throw LibraryLoadException("no plugin " + n);
    return i->second();
  }
};
}  // namespace pluginlib
#endif
