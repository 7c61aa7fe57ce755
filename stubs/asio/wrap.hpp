// asio/wrap.hpp existed only in a development snapshot of asio.
