// Runs a misuse in a forked process and checks that it ends in a fatal check or an exception.
#pragma once
#include <csignal>
#include <functional>
#include <sys/wait.h>
#include <unistd.h>
#include <glog/logging.h>
#include "mon.hpp"
using namespace mon;

static void fatalCheck() { _exit(77); }

static void mustDie(const std::string& kind, const std::string& detail, const std::function<void()>& f) {
  int fd[2];
  if (pipe(fd) != 0) { fprintf(stderr, "pipe failed\n"); exit(3); }
  fflush(nullptr);
  const pid_t p = fork();
  if (p < 0) { fprintf(stderr, "fork failed\n"); exit(3); }
  if (p == 0) {
    close(fd[0]);
    dup2(fd[1], 1); dup2(fd[1], 2);
    alarm(30);
    google::InstallFailureFunction(&fatalCheck);
    try { f(); } catch (...) { _exit(42); }
    _exit(0);
  }
  close(fd[1]);
  std::string err;
  char buf[4096];
  ssize_t n;
  while ((n = read(fd[0], buf, sizeof buf)) > 0) if (err.size() < 20000) err.append(buf, size_t(n));
  close(fd[0]);
  int st = 0;
  waitpid(p, &st, 0);
  const bool fatal = WIFEXITED(st) && WEXITSTATUS(st) == 77, threw = WIFEXITED(st) && WEXITSTATUS(st) == 42, aborted = WIFSIGNALED(st) && WTERMSIG(st) == SIGABRT;
  for (const char* bad : {"AddressSanitizer", "runtime error:", "Error: attempt to", "LeakSanitizer"})
    MON_CHECK(err.find(bad) == std::string::npos, kind << ": undefined behaviour instead of an error (" << detail << "): " << err.substr(err.find(bad), 300));
  if (aborted) MON_CHECK(err.find("Assertion '") == std::string::npos, kind << ": undefined behaviour instead of an error (" << detail << "): " << err.substr(0, 300));
  MON_CHECK(!(WIFEXITED(st) && WEXITSTATUS(st) == 0), kind << ": returned normally (" << detail << ")");
  MON_CHECK(fatal || threw || aborted, kind << ": ended with status " << st << " (" << detail << "): " << err.substr(0, 300));
  count(kind.c_str());
  count(fatal ? "ended_by_fatal_check" : threw ? "ended_by_exception" : "ended_by_abort");
}
