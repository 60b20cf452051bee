// Stand-in: package directories live below $VERIF_SHARE.
#ifndef VERIF_AMENT_HPP_
#define VERIF_AMENT_HPP_
#include <cstdlib>
#include <filesystem>
#include <stdexcept>
#include <string>
namespace ament_index_cpp
{
struct PackageNotFoundError : std::out_of_range
{
  std::string package_name;
  explicit PackageNotFoundError(const std::string & n) : std::out_of_range("package '" + n + "' not found, searching: []"), package_name(n) {}
};
inline std::string get_package_prefix(const std::string & n)
{
  const char * r = std::getenv("VERIF_SHARE");
  std::string p = std::string(r ? r : "/nonexistent") + "/" + n;
  if (n.empty() || !std::filesystem::exists(p)) throw PackageNotFoundError(n);
  return p;
}
inline std::string get_package_share_directory(const std::string & n) { return get_package_prefix(n) + "/share/" + n; }
}  // namespace ament_index_cpp
#endif
