// Instantiations of the encoders, for analysis only.
#include <string>
#include <vector>

#include "maidsafe/common/encode.h"

namespace maidsafe {
namespace hex {
template std::string Encode<std::string>(const std::string&);
template std::string Encode<std::vector<unsigned char>>(const std::vector<unsigned char>&);
template std::string Substr<std::string>(const std::string&);
}
namespace base64 {
template std::string Encode<std::string>(const std::string&);
template std::string Encode<std::vector<unsigned char>>(const std::vector<unsigned char>&);
template std::string Substr<std::string>(const std::string&);
}
}
