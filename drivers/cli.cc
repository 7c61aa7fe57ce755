#include "console.h"

#include <termios.h>

#include "maidsafe/common/cli.h"
#include "maidsafe/common/crypto.h"

namespace probe {

using maidsafe::CLI;
using maidsafe::CommonErrors;
using maidsafe::maidsafe_error;

const unsigned int kEcho = ECHO;

// 0 a terminal that echoes, 1 a terminal that does not, 2 none
void console(int n_kind, unsigned int others) {
  if (n_kind == 0) terminal(others | kEcho);
  if (n_kind == 1) terminal(others & ~kEcho);
}
void restored(int n_kind, unsigned int others) {
  if (n_kind != 2)
    claim(flags() == (others | kEcho), "afterwards the terminal echoes, and its other flags are as they were");
}
void read_with(int n_kind, int read, bool echo, unsigned int others) {
  if (n_kind != 2)
    claim(flags_at(read) == (echo ? others | kEcho : others & ~kEcho),
          "while it is read the terminal echoes if asked to, and its other flags are as they were");
}

const char* number(int n) {
  const char* const lines[] = {"0", "7", "-3", "  12 ", "2147483647", "-2147483648", "4x", "5 6", "+9"};
  return lines[n];
}
int meaning(int n) {
  const int values[] = {0, 7, -3, 12, 2147483647, -2147483647 - 1, 4, 5, 9};
  return values[n];
}
const char* none(int n) {
  const char* const lines[] = {"", " ", "x", "-", "2147483648", "-2147483649", "99999999999999999999", "x5", "- 5"};
  return lines[n];
}

void p_number(int n_line, int n_echo, int n_kind, unsigned int others) {
  console(n_kind, others);
  CLI cli;
  types(number(n_line));
  types("1");
  claim(cli.Get<int>("Number", n_echo != 0) == meaning(n_line), "a line beginning with a number gives the number");
  claim(reads() == 1 && lines_left(), "exactly one line is read");
  read_with(n_kind, 0, n_echo != 0, others);
  restored(n_kind, others);
}

void p_no_number(int n_line, int n_echo, int n_kind, unsigned int others) {
  console(n_kind, others);
  CLI cli("> ");
  types(none(n_line));
  types("1");
  try {
    cli.Get<int>("Number", n_echo != 0);
    unreachable("a line without a number that fits is refused");
  } catch (const maidsafe_error& e) {
    claim(carries(e, CommonErrors::invalid_argument), "the error for a line of the wrong kind is invalid_argument");
  }
  claim(reads() == 1 && lines_left(), "exactly one line is read");
  read_with(n_kind, 0, n_echo != 0, others);
  restored(n_kind, others);
}

void p_no_line(int n_text, int n_echo, int n_kind, unsigned int others) {
  console(n_kind, others);
  CLI cli;
  try {
    if (n_text)
      cli.Get<std::string>("Text", n_echo != 0);
    else
      cli.Get<int>("Number", n_echo != 0);
    unreachable("without another line an exception is thrown");
  } catch (const maidsafe_error& e) {
    claim(carries(e, CommonErrors::unknown), "the error for the end of the input is unknown");
  }
  read_with(n_kind, 0, n_echo != 0, others);
  restored(n_kind, others);
}

void p_word(const std::string& word, int n_before, int n_after, int n_echo, int n_kind, unsigned int others) {
  for (char c : word) given(c != '\n' && c != ' ' && (c < '\t' || c > '\r'));
  console(n_kind, others);
  CLI cli;
  types(std::string(n_before, ' ') + word + std::string(n_after ? " z" : ""));
  try {
    std::string got = cli.Get<std::string>("Text", n_echo != 0);
    claim(!word.empty() ? got == word : n_after != 0, "the first word of the line is what was typed");
  } catch (const maidsafe_error& e) {
    claim(word.empty() && !n_after && carries(e, CommonErrors::invalid_argument), "a line without a word is refused");
  }
  read_with(n_kind, 0, n_echo != 0, others);
  restored(n_kind, others);
}

void p_echo(int n_kind, int n_on, unsigned int others) {
  console(n_kind, others);
  CLI cli;
  cli.Echo(n_on != 0);
  if (n_kind != 2)
    claim(flags() == (n_on ? others | kEcho : others & ~kEcho), "Echo sets the echo and leaves the other flags alone");
  cli.Echo();
  restored(n_kind, others);
  claim(true, "without a terminal nothing is done");
}

std::string hashed(const std::string& text) {
  return maidsafe::crypto::Hash<maidsafe::crypto::SHA512>(text).string();
}

void p_password(const std::string& a, const std::string& b, const std::string& c, int n_repeat, int n_kind,
                unsigned int others) {
  for (char x : a) given(x != '\n' && x != ' ' && (x < '\t' || x > '\r'));
  for (char x : b) given(x != '\n' && x != ' ' && (x < '\t' || x > '\r'));
  for (char x : c) given(x != '\n' && x != ' ' && (x < '\t' || x > '\r'));
  given(!a.empty() && !b.empty() && !c.empty());
  console(n_kind, others);
  CLI cli;
  types(a);
  types(b);
  types(c);
  types(c);
  std::string got = cli.GetPassword(n_repeat != 0);
  int used = !n_repeat ? 1 : a == b ? 2 : 4;
  claim(reads() == used, "a password is read once, or twice until both are the same");
  claim(got == hashed(used == 4 ? c : a), "the hash of the password typed is given");
  for (int i = 0; i < used; ++i) read_with(n_kind, i, false, others);
  restored(n_kind, others);
}

void p_password_ends(int n_lines, int n_kind, unsigned int others) {
  console(n_kind, others);
  CLI cli;
  for (int i = 0; i < n_lines; ++i) types(i == 0 ? "a" : "b");
  try {
    cli.GetPassword();
    unreachable("a password that was not typed is not given");
  } catch (const maidsafe_error& e) {
    claim(carries(e, CommonErrors::unknown), "the error for the end of the input is unknown");
  }
  restored(n_kind, others);
}

void p_tokens(int n_line) {
  const char* const lines[] = {"this is five small tokens", "one", "two  words", "a b ", " a", "", "   ", "a\tb c"};
  const int counts[] = {5, 1, 2, 2, 2, 1, 1, 2};
  CLI cli;
  std::vector<std::string> got = cli.TokeniseLine(lines[n_line]);
  claim(static_cast<int>(got.size()) == counts[n_line], "there is one token for every word, the first led by --");
  claim(got[0].substr(0, 2) == "--", "the first token begins with two dashes");
  if (n_line == 0) claim(got[0] == "--this" && got[4] == "tokens", "tokens keep their order");
  if (n_line == 2) claim(got[0] == "--two" && got[1] == "words", "spaces are not part of a token");
  if (n_line == 4) claim(got[0] == "--" && got[1] == "a", "a leading space ends the first token");
  if (n_line == 7) claim(got[0] == "--a\tb" && got[1] == "c", "only spaces part tokens");
}

}  // namespace probe
