// Instantiations of the header-only synchronisation templates, for analysis only.
#include <functional>
#include <memory>
#include <string>

#include "maidsafe/common/active.h"
#include "maidsafe/common/asio_service.h"
#include "maidsafe/common/on_scope_exit.h"
#include "maidsafe/common/safe_queue.h"

template class SafeQueue<int>;
template class SafeQueue<std::string>;
namespace maidsafe {
template class IoService<asio::io_service>;
template class IoService<boost::asio::io_service>;
}
