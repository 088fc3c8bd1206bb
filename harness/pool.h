// The stand-in of the system thread pool (overlay/pool), run by the harness:
// any piece of the work waiting may be the next one.
#pragma once
#include "sym.h"
#include <chrono>
#include <future>
#include <boost/asio/system_executor.hpp>
#include <boost/asio/use_future.hpp>

namespace {
unsigned g_choices = 0;
bool g_stuck = false;
boost::asio::system_context::work_list& pool()
{
  return boost::asio::detail::global<boost::asio::system_context>().scheduler_;
}
// one piece of work, any of those waiting (the oldest when no choice is left)
void step()
{
  auto& p = pool();
  size_t i = 0;
  if (p.n > 1 && g_choices > 0) {
    --g_choices;
    i = (size_t) sym_choice(p.n);
  }
  p.run(i);
}
void settle()
{
  for (unsigned k = 0; pool().n > 0; ++k) {
    sym_assert(k < 200, "the work of the pool comes to an end");
    step();
  }
}
}
// waiting for the future: the pool goes on until there is nothing to do
bool std::__atomic_futex_unsigned_base::_M_futex_wait_until_steady(unsigned* a, unsigned v, bool, std::chrono::seconds, std::chrono::nanoseconds)
{
  while (*(volatile unsigned*) a == v) {
    if (pool().n == 0) {
      g_stuck = true;
      return false;
    }
    step();
  }
  return true;
}
void std::__atomic_futex_unsigned_base::_M_futex_notify_all(unsigned*) { }
