// Stand-in for Boost.Asio's system thread pool: work posted to it is kept in a
// list until the harness runs it, in an order of the harness's choosing.
#ifndef BOOST_ASIO_SYSTEM_CONTEXT_HPP
#define BOOST_ASIO_SYSTEM_CONTEXT_HPP
#include <boost/asio/detail/config.hpp>
#include <boost/asio/detail/scheduler_operation.hpp>
#include <boost/asio/execution.hpp>
#include <boost/asio/execution_context.hpp>

#include <boost/asio/detail/push_options.hpp>

namespace boost {
namespace asio {

template <typename Blocking, typename Relationship, typename Allocator>
class basic_system_executor;

class system_context : public execution_context {
public:
  typedef basic_system_executor<execution::blocking_t::possibly_t, execution::relationship_t::fork_t, std::allocator<void> >
      executor_type;
  executor_type get_executor() noexcept;
  void stop() { }
  bool stopped() const noexcept { return false; }
  void join() { }
  struct work_list {
    enum { room = 32 };
    detail::scheduler_operation* op[room];
    std::size_t n = 0;
    void post_immediate_completion(detail::scheduler_operation* o, bool)
    {
      if (n == room) __builtin_abort();
      op[n++] = o;
    }
    // run the i-th piece of work
    void run(std::size_t i)
    {
      detail::scheduler_operation* o = op[i];
      --n;
      for (std::size_t j = i; j < n; ++j) op[j] = op[j + 1];
      o->complete(this, boost::system::error_code(), 0);
    }
  };
  work_list scheduler_;
  std::size_t num_threads_ = 2;
};

} // namespace asio
} // namespace boost

#include <boost/asio/detail/pop_options.hpp>

#include <boost/asio/impl/system_context.hpp>
#endif
