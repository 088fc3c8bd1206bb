// Stand-in for Boost.Asio's timers: time never passes, a wait ends when it is
// cancelled or the timer set anew. The durations set are kept.
#ifndef BOOST_ASIO_BASIC_WAITABLE_TIMER_HPP
#define BOOST_ASIO_BASIC_WAITABLE_TIMER_HPP
#include <boost/asio/any_io_executor.hpp>
#include <boost/asio/detail/chrono_time_traits.hpp>
#include <boost/asio/async_result.hpp>
#include <boost/asio/error.hpp>
#include <boost/asio/wait_traits.hpp>
#include <chrono>
#include <memory>
#include <vector>

namespace boost {
namespace asio {

namespace stand_in {
struct wait_op {
  virtual ~wait_op() = default;
  virtual void go() = 0;
};
inline std::vector<long long>& durations()
{
  static std::vector<long long>* v = new std::vector<long long>;
  return *v;
}
}

#if !defined(BOOST_ASIO_BASIC_WAITABLE_TIMER_FWD_DECL)
#define BOOST_ASIO_BASIC_WAITABLE_TIMER_FWD_DECL
template <typename Clock, typename WaitTraits = boost::asio::wait_traits<Clock>, typename Executor = any_io_executor>
class basic_waitable_timer;
#endif

template <typename Clock, typename WaitTraits, typename Executor>
class basic_waitable_timer {
public:
  using executor_type = Executor;
  using clock_type = Clock;
  using duration = typename Clock::duration;
  using time_point = typename Clock::time_point;
  using traits_type = WaitTraits;
  template <typename E1>
  struct rebind_executor {
    using other = basic_waitable_timer<Clock, WaitTraits, E1>;
  };

private:
  template <class H>
  struct op : stand_in::wait_op {
    H h;
    Executor ex;
    op(H&& h_, Executor e)
        : h(std::move(h_))
        , ex(e)
    {
    }
    void go() override
    {
      ex.execute([h = std::move(h)]() mutable { std::move(h)(boost::system::error_code(boost::asio::error::operation_aborted)); });
    }
  };
  Executor ex_;
  time_point at_ {};
  std::vector<std::unique_ptr<stand_in::wait_op>> waits_;
  std::size_t drop()
  {
    auto w = std::move(waits_);
    waits_.clear();
    for (auto& o : w) o->go();
    return w.size();
  }

public:
  explicit basic_waitable_timer(const executor_type& ex)
      : ex_(ex)
  {
  }
  template <class T>
  basic_waitable_timer(const executor_type& ex, const T&)
      : ex_(ex)
  {
  }
  basic_waitable_timer(basic_waitable_timer&&) = default;
  basic_waitable_timer& operator=(basic_waitable_timer&&) = default;
  ~basic_waitable_timer() { }
  const executor_type& get_executor() const noexcept { return ex_; }
  std::size_t cancel() { return drop(); }
  std::size_t cancel(boost::system::error_code& ec)
  {
    ec = {};
    return drop();
  }
  time_point expiry() const { return at_; }
  std::size_t expires_at(const time_point& t)
  {
    auto n = drop();
    at_ = t;
    return n;
  }
  std::size_t expires_after(const duration& d)
  {
    auto n = drop();
    stand_in::durations().push_back((long long) std::chrono::nanoseconds(d).count());
    at_ = time_point(d);
    return n;
  }
  template <class T>
  auto async_wait(T&& t)
  {
    return boost::asio::async_initiate<T, void(boost::system::error_code)>(
        [this](auto h) { waits_.push_back(std::make_unique<op<std::decay_t<decltype(h)>>>(std::move(h), ex_)); }, t);
  }
  void wait() { }
};

}
}
#endif
