// The external command the C11 harness starts: records what it was given.
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <signal.h>
#include <string>
#include <sys/wait.h>
#include <unistd.h>
static volatile sig_atomic_t interrupted = 0;
int main(int argc, char ** argv)
{
  const char * dir = std::getenv("VH_CHILD_DIR");
  const char * mode = std::getenv("VH_CHILD_MODE");
  if (!dir) return 97;
  std::string m = mode ? mode : "";
  std::string p = std::string(dir) + "/start." + std::to_string(getpid());
  std::string all;
  for (int i = 0; i < argc; ++i) all += std::string(argv[i]) + '\0';
  int fd = open((p + ".tmp").c_str(), O_WRONLY | O_CREAT | O_APPEND, 0644);
  if (fd < 0 || write(fd, all.data(), all.size()) != ssize_t(all.size())) return 98;
  close(fd);
  if (m == "interruptible") signal(SIGINT, [](int) { interrupted = 1; });
  rename((p + ".tmp").c_str(), p.c_str());
  if (m.find("sleep") != std::string::npos) usleep(30000);
  if (m.find("stop") != std::string::npos) {
    const pid_t self = getpid();
    const pid_t c = fork();
    if (c == 0) { usleep(20000); kill(self, SIGCONT); _exit(0); }
    raise(SIGSTOP);
    waitpid(c, nullptr, 0);
  }
  if (m == "interruptible") for (int i = 0; i < 1000 && !interrupted; ++i) usleep(10000);
  std::string q = std::string(dir) + (m == "interruptible" && !interrupted ? "/late." : "/end.") + std::to_string(getpid());
  fd = open(q.c_str(), O_WRONLY | O_CREAT, 0644);
  close(fd);
  if (m.find("signal") != std::string::npos) { signal(SIGTERM, SIG_DFL); raise(SIGTERM); }
  if (m.find("fail") != std::string::npos) return 3;
  return 0;
}
