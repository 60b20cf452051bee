// Runs a scenario in the project's interpreter node against the stand-in world, one frame at
// a time on a simulated clock.
#ifndef INTERP_HPP_
#define INTERP_HPP_
#include <functional>
#include <string>
#include <vector>
#include <vworld.hpp>
namespace interp
{
struct Frame { long index; double time; const std::string & context; };
struct Options
{
  std::string osc, out;
  double frame_rate = 20;
  long max_frames = 400;
  std::function<bool(const Frame &)> on_frame;   // after every frame; false deactivates the node
  std::function<void()> after_configure, after_activate;
};
struct Result
{
  std::string configured, activated, ended, finalized;   // life-cycle state labels
  std::string verdict = "none";      // pass | failure | error | none
  std::string kind, message, junit;
  long cases = 0, frames = 0;
  bool by_itself = false;            // the node left the active state without being told to
};
void prepare();                       // node, map, parameters; once per process
void reset_world();
Result run(const Options &);
std::string map_dir();
std::string scratch();                // a directory of this process's own, removed at exit
void write(const std::string & path, const std::string & text);
std::string slurp(const std::string & path);
Result verdict_of(const std::string & junit_path);
std::vector<std::string> & log();     // everything the project logged since reset_world
}  // namespace interp
#endif
