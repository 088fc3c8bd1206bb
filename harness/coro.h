// Runs fitoria's coroutines in the calling thread: an executor with a queue of
// its own, used as the library's executor through FITORIA_USE_CUSTOM_EXECUTOR.
// Everything else (awaitable, co_spawn, ...) is the real Boost.Asio.
#pragma once
#include <cstring>
#include <span>
#include <string>
#include <boost/asio/execution.hpp>
#include <boost/asio/execution_context.hpp>
#include <boost/asio/any_io_executor.hpp>
#include <memory>

struct sym_context : boost::asio::execution_context {
  struct op {
    op* next = nullptr;
    virtual ~op() = default;
    virtual void call() = 0;
  };
  op* head = nullptr;
  op* tail = nullptr;
  static sym_context& get()
  {
    static sym_context* c = new sym_context;
    return *c;
  }
  template <class F>
  struct op_of : op {
    F f;
    explicit op_of(F g)
        : f(std::move(g))
    {
    }
    void call() override { std::move(f)(); }
  };
  template <class F>
  void push(F f)
  {
    op* o = new op_of<F>(std::move(f));
    (tail ? tail->next : head) = o;
    tail = o;
  }
  void run()
  {
    while (head) {
      std::unique_ptr<op> o(head);
      head = o->next;
      if (!head) tail = nullptr;
      o->call();
    }
  }
};
struct sym_executor {
  sym_context* c = &sym_context::get();
  boost::asio::execution_context& query(boost::asio::execution::context_t) const noexcept { return *c; }
  static constexpr boost::asio::execution::blocking_t query(boost::asio::execution::blocking_t) noexcept { return boost::asio::execution::blocking.never; }
  sym_executor require(boost::asio::execution::blocking_t::never_t) const { return *this; }
  template <class F>
  void execute(F&& f) const
  {
    c->push(std::decay_t<F>(std::forward<F>(f)));
  }
  bool operator==(const sym_executor& o) const noexcept { return c == o.c; }
  bool operator!=(const sym_executor& o) const noexcept { return c != o.c; }
};
#define FITORIA_USE_CUSTOM_EXECUTOR sym_executor
#include <fitoria/core/net.hpp>
#include <fitoria/core/optional.hpp>

template <class T>
T run(fitoria::awaitable<T> a)
{
  fitoria::optional<T> r;
  std::exception_ptr x;
  boost::asio::co_spawn(sym_executor {}, std::move(a), [&](std::exception_ptr e, T v) {
    if (e) x = e;
    else r.emplace(std::move(v));
  });
  sym_context::get().run();
  if (x) std::rethrow_exception(x);
  if (!r) std::abort();
  return std::move(*r);
}
inline void run(fitoria::awaitable<void> a)
{
  bool done = false;
  std::exception_ptr x;
  boost::asio::co_spawn(sym_executor {}, std::move(a), [&](std::exception_ptr e) {
    x = e;
    done = true;
  });
  sym_context::get().run();
  if (x) std::rethrow_exception(x);
  if (!done) std::abort();
}
