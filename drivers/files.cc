#include "probe.h"

#include <ios>

#include "boost/filesystem/path.hpp"

#include "maidsafe/common/utils.h"

namespace probe {

using maidsafe::byte;
using maidsafe::CommonErrors;
using maidsafe::ReadFile;
using maidsafe::WriteFile;

// What the only file holds, and what goes wrong: 0 nothing, 1 opening, 2 every read or write, 3 writing what was buffered,
// 4 asking for the size, 5 the file is shorter than its size.
void disk(const std::vector<byte>& content, int fault);
std::vector<byte> content_on_disk();

void p_read(const std::vector<byte>& content, int n_fault) {
  disk(content, n_fault);
  const auto read = ReadFile(boost::filesystem::path("/tmp/f"));
  if (n_fault == 0) {
    claim(read.valid() && *read == content, "a file that can be read is read whole");
  } else if (!content.empty() || n_fault == 4) {
    claim(!read.valid(), "a file that cannot be read whole is reported");
    if (!read.valid())
      claim(carries(read.error(), CommonErrors::filesystem_io_error), "the error for a file that cannot be read is filesystem_io_error");
  } else if (read.valid()) {
    claim(read->empty(), "an empty file has no content");
  }
}

void p_write(const std::vector<byte>& content, const std::vector<byte>& old, int n_fault) {
  disk(old, n_fault);
  const bool written = WriteFile(boost::filesystem::path("/tmp/f"), content);
  if (n_fault == 0) {
    claim(written, "a file that can be written is written");
  } else if (!content.empty() || n_fault == 1) {
    claim(!written, "a file that cannot be written whole is reported");
  }
  claim(written || n_fault != 0, "a file that can be written is written");
  if (written) claim(content_on_disk() == content, "a file written holds the content and nothing else");
}

void p_no_name(const std::vector<byte>& content, const std::vector<byte>& old) {
  disk(old, 0);
  claim(!WriteFile(boost::filesystem::path("/tmp/"), content), "a path without file name is refused");
  claim(!WriteFile(boost::filesystem::path(), content), "an empty path is refused");
  claim(content_on_disk() == old, "a refused write changes nothing");
}

void p_round(const std::vector<byte>& content, const std::vector<byte>& old) {
  disk(old, 0);
  if (!WriteFile(boost::filesystem::path("/tmp/f"), content)) return;
  const auto read = ReadFile(boost::filesystem::path("/tmp/f"));
  claim(read.valid() && read.value() == content, "what was written is what is read");
}

}  // namespace probe
