#pragma once
// Runs a piece of work in a child process, so that a crash, failed assertion
// or endless loop of the code under test is observed instead of ending the
// check. The child leaves notes on its progress in shared memory.

#include <fcntl.h>
#include <sys/prctl.h>
#include <csignal>
#include <cstdio>
#include <cstring>
#include <functional>
#include <string>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

struct Notes {
  char text[1 << 16];
};

inline Notes& notes() {
  static auto n = static_cast<Notes*>(mmap(nullptr, sizeof(Notes),
    PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  return *n;
}

inline void note(const std::string& s) {
  const auto n = std::min(s.size(), sizeof(Notes::text) - 1);
  std::memcpy(notes().text, s.data(), n);
  notes().text[n] = 0;
}

// allow that much time until called again
inline void alive(int seconds = 20) {
  alarm(seconds);
}

// returns an empty string on success, otherwise how it ended
inline std::string guarded(const std::function<void(FILE* out)>& work, std::string& result) {
  int fds[2];
  if (pipe2(fds, O_CLOEXEC))
    throw std::runtime_error("pipe");
  note("");
  std::fflush(nullptr);
  const auto pid = fork();
  if (pid < 0)
    throw std::runtime_error("fork");
  if (!pid) {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    close(fds[0]);
    signal(SIGALRM, SIG_DFL);
    alive();
    auto out = fdopen(fds[1], "w");
    try {
      work(out);
    }
    catch (const std::exception& ex) {
      std::fprintf(stderr, "exception: %s\n", ex.what());
      std::fflush(nullptr);
      _exit(99);
    }
    std::fflush(nullptr);
    _exit(0);
  }
  close(fds[1]);
  result.clear();
  char buffer[1 << 16];
  for (;;) {
    const auto n = read(fds[0], buffer, sizeof(buffer));
    if (n > 0)
      result.append(buffer, n);
    else if (n == 0 || errno != EINTR)
      break;
  }
  close(fds[0]);
  auto status = 0;
  while (waitpid(pid, &status, 0) < 0 && errno == EINTR)
    ;
  if (WIFSIGNALED(status))
    return (WTERMSIG(status) == SIGALRM ? std::string("does not terminate") :
      std::string("terminated by signal ") + std::to_string(WTERMSIG(status)) +
      " (" + strsignal(WTERMSIG(status)) + ")");
  if (WEXITSTATUS(status) != 0)
    return "ended with exit code " + std::to_string(WEXITSTATUS(status));
  return "";
}
