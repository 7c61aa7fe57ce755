#ifndef MSA_CONSOLE_H_
#define MSA_CONSOLE_H_
#include "probe.h"
namespace probe {
// A line typed at the console.
void types(const std::string& line);
bool lines_left();
// The console is a terminal with these flags (otherwise it is none).
void terminal(unsigned int flags);
unsigned int flags();
// Lines asked for so far, and the flags at each of them.
int reads();
unsigned int flags_at(int read);
}
#endif
