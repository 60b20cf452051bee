// C11: external commands, recorded by the program that is started (c11_child).
#include <atomic>
#include <dirent.h>
#include <fstream>
#include <iostream>
#include <memory>
#include <signal.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <system_error>
#include <thread>

#include <concealer/execute.hpp>
#include <concealer/launch.hpp>
#include <openscenario_interpreter/posix/fork_exec.hpp>
#include <openscenario_interpreter/record.hpp>

#include "vh.hpp"
using namespace vh;

static std::string scratch;
static pid_t self;

static std::string slurp(const std::string & p)
{
  std::ifstream f(p, std::ios::binary);
  return {std::istreambuf_iterator<char>(f), {}};
}
static std::vector<std::string> list(const std::string & dir, const std::string & prefix)
{
  std::vector<std::string> out;
  if (DIR * d = opendir(dir.c_str())) {
    while (auto * e = readdir(d))
      if (std::string(e->d_name).rfind(prefix, 0) == 0) out.push_back(e->d_name);
    closedir(d);
  }
  return out;
}
static std::vector<std::string> argv_of(const std::string & blob)
{
  std::vector<std::string> out;
  for (std::size_t i = 0; i < blob.size();) { out.push_back(blob.c_str() + i); i += out.back().size() + 1; }
  return out;
}
static void must_be_parent(const char * where)
{
  if (getpid() != self) {
    std::ofstream(scratch + "/escaped." + std::to_string(getpid())) << where;
    _exit(0);
  }
}
static std::string show(const std::vector<std::string> & v)
{
  std::string s;
  for (auto & x : v) s += cat(" '", x.substr(0, 80), x.size() > 80 ? cat("...' (", x.size(), ")") : "'");
  return s;
}
static void purge(const std::string & dir)
{
  for (auto & f : list(dir, "")) if (f != "." && f != "..") ::unlink((dir + "/" + f).c_str());
}
static std::string argument(Rng & r)
{
  static const std::vector<std::string> parts = {"a", "Z9", " ", "\t", "\n", "'", "\"", "\\", "$HOME", "`id`", "*", "?", ";", "|", "&", "é", "日本", "-", "--", "=", "/", "\x01", "\xff"};
  if (r.chance(0.1)) return "";
  if (r.chance(0.03)) return std::string(std::size_t(r.i(1000, 100000)), 'x');
  std::string s;
  for (int i = 0, m = int(r.i(1, 8)); i < m; ++i) s += r.pick(parts);
  return s;
}
static std::string word(Rng & r)
{
  static const std::vector<std::string> parts = {"a", "Z9", "'", "\"", "\\", "$HOME", "*", ";", "é", "-", "--", "=", "/", "12"};
  std::string s;
  for (int i = 0, m = int(r.i(1, 6)); i < m; ++i) s += r.pick(parts);
  return s;
}

// judge what the started program recorded in `dir`
static void judge(const std::string & key, const std::string & dir, pid_t pid, const std::vector<std::string> & want, const std::string & story)
{
  auto starts = list(dir, "start."), ends = list(dir, "end.");
  if (starts.size() != 1) return fail(key + "-starts", cat("the program was started ", starts.size(), " times\n", story));
  if (starts[0] != cat("start.", pid)) fail(key + "-pid", cat("process ", pid, " was reported but ", starts[0], " ran\n", story));
  auto got = argv_of(slurp(dir + "/" + starts[0]));
  if (got != want) fail(key + "-arguments", cat("given", show(got), "\nwanted", show(want), "\n", story));
  if (ends.size() != 1) fail(key + "-not-awaited", cat("the caller went on before the program had ended\n", story));
  int status;
  const pid_t w = waitpid(pid, &status, WNOHANG);
  if (w == pid || w == 0) fail(key + "-not-reaped", cat("the ended program was left as a zombie\n", story));
  count("arguments compared", want.size());
}

static void runs(Rng & r, const std::string & child, const std::string & tag, int rounds)
{
  // one directory and environment at a time: children of one round are told by VH_CHILD_DIR
  const std::string dir = scratch + "/" + tag;
  mkdir(dir.c_str(), 0755);
  static const std::vector<std::string> modes = {"", "", "sleep", "fail", "signal", "stop", "sleepfail", "sleepsignal"};
  for (int i = 0; i < rounds; ++i) {
    const auto mode = r.pick(modes);
    setenv("VH_CHILD_DIR", dir.c_str(), 1);
    setenv("VH_CHILD_MODE", mode.c_str(), 1);
    std::vector<std::string> want{child};
    const int form = int(r.i(0, 2));
    for (int k = 0, m = int(r.chance(0.05) ? r.i(50, 400) : r.i(0, 6)); k < m; ++k) want.push_back(form == 0 ? argument(r) : word(r));
    const std::string story = cat("form ", form, " mode '", mode, "'", show(want));
    current(story);
    pid_t pid = 0;
    if (form == 0) pid = openscenario_interpreter::fork_exec(want);
    else {
      static const std::vector<std::string> ws = {" ", " ", "\t", "\n"};
      std::string rest;
      for (std::size_t k = 1; k < want.size(); ++k) rest += (k > 1 ? r.pick(ws) : "") + want[k];
      pid = form == 1 ? openscenario_interpreter::fork_exec(child + (rest.empty() ? "" : r.pick(ws) + rest)) : openscenario_interpreter::fork_exec(child, rest);
    }
    must_be_parent("fork_exec");
    judge("exec", dir, pid, want, story);
    count(cat("children with mode '", mode, "'"));
    observed(story);
    if (i < 3) sample(story);
    purge(dir);
  }
  rmdir(dir.c_str());
}

static void missing(Rng & r, int rounds)
{
  for (int i = 0; i < rounds; ++i) {
    std::vector<std::string> want{r.chance(0.3) ? std::string("no-such-program") : scratch + "/" + word(r) + "/nothing"};
    for (int k = 0, m = int(r.i(0, 3)); k < m; ++k) want.push_back(argument(r));
    const std::string story = cat("missing program", show(want)), err = scratch + "/stderr";
    current(story);
    std::cout.flush();
    std::cerr.flush();
    const int keep = dup(2), fd = open(err.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
    dup2(fd, 2);
    close(fd);
    bool threw = false;
    try {
      openscenario_interpreter::fork_exec(want);
    } catch (const std::exception &) {
      threw = true;
    }
    must_be_parent("fork_exec of a missing program");
    dup2(keep, 2);
    close(keep);
    if (!threw && slurp(err).empty()) fail("missing-unreported", story);
    int status;
    if (waitpid(-1, &status, WNOHANG) >= 0) fail("missing-not-reaped", story);
    if (!list(scratch, "escaped.").empty()) { fail("copy-continues", cat("a copy of the program went on after ", slurp(scratch + "/" + list(scratch, "escaped.")[0]), "\n", story)); purge(scratch); }
    count("missing programs");
    observed(story);
  }
}

static std::atomic<int> alarms{0};
static void interrupted(Rng & r, const std::string & child, int rounds)
{
  // signals arrive while the caller waits
  struct sigaction a {}, old {};
  a.sa_handler = [](int) { ++alarms; };
  sigaction(SIGUSR1, &a, &old);
  const std::string dir = scratch + "/interrupted";
  mkdir(dir.c_str(), 0755);
  for (int i = 0; i < rounds; ++i) {
    setenv("VH_CHILD_DIR", dir.c_str(), 1);
    setenv("VH_CHILD_MODE", "sleep", 1);
    std::vector<std::string> want{child, word(r)};
    std::atomic<bool> done{false};
    const pthread_t me = pthread_self();
    std::thread pest([&]() {
      while (!done) { std::this_thread::sleep_for(std::chrono::milliseconds(5)); if (!done) pthread_kill(me, SIGUSR1); }
    });
    const std::string story = cat("interrupted wait", show(want));
    current(story);
    const pid_t pid = openscenario_interpreter::fork_exec(want);
    must_be_parent("fork_exec");
    done = true;
    pest.join();
    judge("interrupted", dir, pid, want, story);
    int status;
    waitpid(pid, &status, 0);
    observed(story + cat(i));
    purge(dir);
  }
  sigaction(SIGUSR1, &old, nullptr);
  rmdir(dir.c_str());
  count("signals while waiting", std::uint64_t(alarms.load()));
}

static void concurrent(Rng & r, const std::string & child, int rounds)
{
  const std::string dir = scratch + "/concurrent";
  mkdir(dir.c_str(), 0755);
  setenv("VH_CHILD_DIR", dir.c_str(), 1);
  for (int i = 0; i < rounds; ++i) {
    setenv("VH_CHILD_MODE", r.chance(0.5) ? "sleep" : "", 1);
    const int threads = int(r.i(2, 6));
    struct Call { std::vector<std::string> argv; pid_t pid = 0; bool ended = false; };
    std::vector<Call> calls(std::size_t(threads) * 3);
    for (std::size_t k = 0; k < calls.size(); ++k) {
      calls[k].argv = {child, cat("call ", k)};
      for (int j = 0, m = int(r.i(0, 3)); j < m; ++j) calls[k].argv.push_back(argument(r));
    }
    current("concurrent callers");
    std::vector<std::thread> pool;
    for (int t = 0; t < threads; ++t)
      pool.emplace_back([&, t]() {
        for (int k = 0; k < 3; ++k) {
          auto & c = calls[std::size_t(t * 3 + k)];
          c.pid = openscenario_interpreter::fork_exec(c.argv);
          must_be_parent("fork_exec");
          c.ended = access(cat(dir, "/end.", c.pid).c_str(), F_OK) == 0;
        }
      });
    for (auto & t : pool) t.join();
    for (auto & c : calls) {
      const std::string f = cat(dir, "/start.", c.pid);
      if (access(f.c_str(), F_OK) != 0) { fail("concurrent-starts", cat("process ", c.pid, " of", show(c.argv), " recorded nothing")); continue; }
      auto got = argv_of(slurp(f));
      if (got != c.argv) fail("concurrent-arguments", cat("given", show(got), "\nwanted", show(c.argv)));
      if (!c.ended) fail("concurrent-not-awaited", show(c.argv));
      observed("concurrent" + show(c.argv));
    }
    if (list(dir, "start.").size() != calls.size()) fail("concurrent-starts", cat(list(dir, "start.").size(), " programs ran for ", calls.size(), " calls"));
    int status;
    if (waitpid(-1, &status, WNOHANG) >= 0) fail("concurrent-not-reaped", "a child is left");
    count("concurrent calls", calls.size());
    purge(dir);
  }
  rmdir(dir.c_str());
}

static void outputs(Rng & r, int rounds)
{
  const std::string f = scratch + "/payload";
  for (int i = 0; i < rounds; ++i) {
    std::string data;
    const int size = r.chance(0.2) ? int(r.i(100, 200000)) : r.chance(0.3) ? int(r.i(120, 135)) + 128 * int(r.i(0, 3)) : int(r.i(0, 300));
    const int kind = int(r.i(0, 3));
    for (int k = 0; k < size; ++k)
      data += kind == 0 ? 'x' : kind == 1 ? char(r.i(32, 126)) : kind == 2 ? (r.chance(0.1) ? '\n' : char(r.i(32, 126))) : char(r.u());
    std::ofstream(f, std::ios::binary) << data;
    const std::string story = cat("output of ", size, " bytes of kind ", kind);
    current(story);
    const int how = int(r.i(0, 2));
    const auto got = concealer::dollar(how == 0 ? "cat '" + f + "'" : how == 1 ? "cat < '" + f + "'; exit 7" : "head -c " + cat(size / 2) + " '" + f + "'; sleep 0.002; tail -c +" + cat(size / 2 + 1) + " '" + f + "'");
    must_be_parent("dollar");
    if (got != data) {
      std::size_t k = 0;
      while (k < got.size() && k < data.size() && got[k] == data[k]) ++k;
      fail(kind == 3 ? "output-binary" : "output", cat(story, ": ", got.size(), " bytes captured, first difference at ", k));
    }
    int status;
    if (waitpid(-1, &status, WNOHANG) >= 0) fail("output-not-reaped", story);
    observed(cat(story, " ", how, " ", hash(data)));
    count("bytes of output compared", std::uint64_t(size));
  }
  ::unlink(f.c_str());
}

static void launches(Rng & r, const std::string & child, int rounds)
{
  const std::string bin = scratch + "/bin", dir = scratch + "/launch";
  mkdir(bin.c_str(), 0755);
  mkdir(dir.c_str(), 0755);
  [[maybe_unused]] int x = symlink(child.c_str(), (bin + "/python3").c_str());
  std::ofstream(bin + "/ros2") << "#!/bin/sh\n";
  chmod((bin + "/ros2").c_str(), 0755);
  const std::string path = getenv("PATH");
  setenv("PATH", (bin + ":" + path).c_str(), 1);
  setenv("VH_CHILD_DIR", dir.c_str(), 1);
  setenv("VH_CHILD_MODE", "", 1);
  for (int i = 0; i < rounds; ++i) {
    const std::string package = argument(r), file = argument(r);
    std::vector<std::string> parameters, want{"python3", bin + "/ros2", "launch", package, file};
    for (int k = 0, m = int(r.i(0, 20)); k < m; ++k) { parameters.push_back(argument(r)); want.push_back(parameters.back()); }
    const std::string story = cat("launch", show(want));
    current(story);
    const pid_t pid = concealer::ros2_launch(package, file, parameters);
    must_be_parent("ros2_launch");
    int status = -1;
    if (waitpid(pid, &status, 0) != pid || status != 0) fail("launch-status", cat("wait status ", status, "\n", story));
    judge("launch", dir, pid, want, story);
    observed(story);
    purge(dir);
  }
  // recording starts once and is interrupted and awaited on stop
  setenv("VH_CHILD_MODE", "interruptible", 1);
  std::vector<std::string> args{"-a", "-o", argument(r)}, want{"python3", bin + "/ros2", "bag", "record"};
  want.insert(want.end(), args.begin(), args.end());
  current("record" + show(want));
  const pid_t pid = openscenario_interpreter::record::start(args);
  must_be_parent("record::start");
  openscenario_interpreter::record::stop();
  judge("record", dir, pid, want, "record" + show(want));
  purge(dir);
  // a launcher that cannot be started must not go on as a copy of the caller
  ::unlink((bin + "/python3").c_str());
  setenv("PATH", bin.c_str(), 1);
  std::cout.flush();
  try {
    const pid_t p = concealer::ros2_launch("package", "file", std::vector<std::string>{});
    must_be_parent("ros2_launch without python3");
    int status = 0;
    waitpid(p, &status, 0);
    if (WIFEXITED(status) && WEXITSTATUS(status) == 0 ) fail("launch-unreported", "a launch that cannot start ends as a success");
  } catch (const std::exception &) {
    must_be_parent("ros2_launch without python3");
  }
  setenv("PATH", path.c_str(), 1);
  if (!list(scratch, "escaped.").empty()) fail("copy-continues", "a copy of the program went on after a failed launch");
  purge(bin);
  rmdir(bin.c_str());
  rmdir(dir.c_str());
}

int main(int argc, char ** argv)
{
  init(argc, argv);
  self = getpid();
  const char * s = getenv("VERIF_SCRATCH");
  scratch = cat(s ? s : "/tmp", "/exec", self);
  mkdir(scratch.c_str(), 0755);
  std::string exe(4096, 0);
  exe.resize(std::size_t(readlink("/proc/self/exe", exe.data(), exe.size())));
  const std::string child = exe.substr(0, exe.rfind('/')) + "/c11_child";
  Rng r(st().seed);
  runs(r, child, "plain", int(n(250, 5000)));
  missing(r, int(n(40, 500)));
  interrupted(r, child, int(n(15, 200)));
  concurrent(r, child, int(n(12, 200)));
  outputs(r, int(n(200, 3000)));
  launches(r, child, int(n(40, 600)));
  if (!list(scratch, "escaped.").empty()) fail("copy-continues", "a copy of the program went on");
  purge(scratch);
  rmdir(scratch.c_str());
  finish();
}
