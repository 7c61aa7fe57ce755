#include "probe.h"

#include <cerrno>

#include "maidsafe/common/config.h"
#include "maidsafe/common/process.h"

namespace probe {

using maidsafe::CommonErrors;
using Args = std::vector<std::string>;

// Asking about this process gives this error, 0 if it runs.
void process(pid_t id, int error);
void self(pid_t id);
// What /proc/self/exe points to; that it cannot be read; that paths cannot be made absolute.
void link(const std::string& to);
void no_link(int);
void no_directory(int);

// ---------------------------------------------------------------- command lines
std::string quoted(const std::string& s) { return s[0] == '"' ? s : '"' + s + '"'; }
void p_command(const std::string& exe, const std::string& a, const std::string& b) {
  given(exe[0] != 0);
  std::string expected(quoted(exe) + ' ');
  if (a.empty() || b.empty())
    expected += a + b;
  else
    expected += a + ' ' + b;
  claim(maidsafe::process::ConstructCommandLine(Args{exe, a, b}) == expected,
        "the command line is the path of the program in quotes, followed by its arguments");
  claim(maidsafe::process::ConstructCommandLine(Args{exe, a, "", b}) == expected, "empty arguments leave no trace in the command line");
  claim(maidsafe::process::ConstructCommandLine(Args{exe, a}) == quoted(exe) + ' ' + a, "one argument follows the path");
  claim(maidsafe::process::ConstructCommandLine(Args{exe}) == quoted(exe) + ' ', "without arguments there is the path only");
}
void p_no_command() { claim(maidsafe::process::ConstructCommandLine(Args{}).empty(), "no arguments make an empty command line"); }

// ---------------------------------------------------------------- processes
void p_running(pid_t id, int n_error) {
  process(id, n_error);
  try {
    const bool running(maidsafe::process::IsRunning(id));
    claim(running == (n_error != ESRCH), "a process runs unless there is none of that number");
  } catch (const maidsafe::maidsafe_error& e) {
    claim(n_error != 0 && n_error != ESRCH, "whether a process runs is told if the system tells it");
    claim(n_error != EPERM, "a process that must not be signalled runs");
    claim(carries(e, CommonErrors::invalid_argument), "what cannot be found out is refused with invalid_argument");
  }
}
void p_self(pid_t id) {
  given(id > 0);
  self(id);
  claim(maidsafe::process::GetProcessId() == static_cast<uint64_t>(id), "the process id is that of this process");
}

// ---------------------------------------------------------------- the path of this program
template <typename Function>
void refused(Function function) {
  try {
    function();
  } catch (const maidsafe::maidsafe_error& e) {
    claim(carries(e, CommonErrors::uninitialised), "before the path is set, asking for it is refused as uninitialised");
    return;
  }
  unreachable("before the path is set, asking for it is refused");
}
void p_unset() {
  refused([] { maidsafe::ThisExecutablePath(); });
  refused([] { maidsafe::ThisExecutableDir(); });
  refused([] { maidsafe::process::GetOtherExecutablePath("other"); });
  link("/a/b.c");
  const char* const argv[] = {"bin/given.exe", nullptr};
  maidsafe::SetThisExecutablePath(argv);
  claim(maidsafe::ThisExecutablePath().string() == "/a/b.c", "the path is the one the system knows");
  claim(maidsafe::ThisExecutableDir().string() == "/a", "the directory is that of the path");
  claim(maidsafe::process::GetOtherExecutablePath("other").string() == "/a/other.c", "another program is beside this one, with the same extension");
}
void p_path(uint32_t n_length, bool lost) {
  if (lost) no_directory(1);
  const std::string to("/" + std::string(n_length - 3, 'a') + "/b");
  link(to);
  const char* const argv[] = {"bin/given.exe", nullptr};
  maidsafe::SetThisExecutablePath(argv);
  claim(maidsafe::ThisExecutablePath().string() == to, "the path is the one the system knows");
  const char* const other[] = {"/else/where", nullptr};
  link("/some/where/else");
  maidsafe::SetThisExecutablePath(other);
  claim(maidsafe::ThisExecutablePath().string() == to, "the path is set once");
}
void p_cut(uint32_t n_length) {
  const std::string to(n_length, '/');
  link(to);
  const char* const argv[] = {"/bin/given.exe", nullptr};
  maidsafe::SetThisExecutablePath(argv);
  claim(!maidsafe::ThisExecutablePath().empty(), "whatever the system says, there is a path");
}
void p_argv(bool lost) {
  if (lost) no_directory(1);
  no_link(0);
  const char* const argv[] = {"/bin/given.exe", nullptr};
  maidsafe::SetThisExecutablePath(argv);
  claim(maidsafe::ThisExecutablePath().string() == "/bin/given.exe", "the path is the one given if the system does not know it");
  claim(maidsafe::ThisExecutableDir().string() == "/bin", "the directory is that of the path");
  claim(maidsafe::process::GetOtherExecutablePath("other").string() == "/bin/other.exe", "another program is beside this one, with the same extension");
  claim(maidsafe::process::GetOtherExecutablePath("sub/other.old").string() == "/bin/sub/other.exe", "another program is beside this one, with the same extension");
}
void p_relative() {
  no_link(0);
  const char* const argv[] = {"given", nullptr};
  maidsafe::SetThisExecutablePath(argv);
  claim(maidsafe::ThisExecutablePath().string() == "/here/given", "the path is made absolute");
  claim(maidsafe::process::GetOtherExecutablePath("other").string() == "/here/other", "another program is beside this one");
  claim(maidsafe::process::GetOtherExecutablePath("other.old").string() == "/here/other", "another program has the same extension, or none");
}

}  // namespace probe
