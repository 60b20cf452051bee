#include <ament_index_cpp/get_package_share_directory.hpp>
