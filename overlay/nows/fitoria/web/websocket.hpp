// Websockets are outside the checked behaviour: a stand-in without an
// implementation, so that the server compiles quickly.
#pragma once
#include <fitoria/core/expected.hpp>
#include <fitoria/core/net.hpp>
#include <fitoria/web/response.hpp>
FITORIA_NAMESPACE_BEGIN
namespace web {
class websocket {
public:
  template <class Stream>
  explicit websocket(const Stream&)
  {
  }
  bool has_handler() const noexcept { return true; }
  void set_response(response) { }
  template <class R>
  auto run(const R&) -> awaitable<expected<void, std::error_code>>
  {
    co_return expected<void, std::error_code>();
  }
};
}
FITORIA_NAMESPACE_END
