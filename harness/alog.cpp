// The asynchronous logger over a stand-in of the system thread pool
// (overlay/pool): the real channel, coroutines and futures run, the harness
// decides which piece of the pool's work runs next and when.
#include "pool.h"
#include <functional>
#include <memory>
#include <vector>
#include <fitoria/log.hpp>
#include <fitoria/log/async_stream_file_writer.hpp>
using namespace fitoria;
using log::filter;
using log::level;

namespace {
// the pool runs nothing, one piece, or everything it has
void some()
{
  if (pool().n == 0) return;
  switch (sym_choice(3)) {
  case 0: return;
  case 1: step(); return;
  default: settle();
  }
}
}
namespace {
struct seen {
  level lv;
  std::string msg;
  unsigned line;
  std::string file;
};
struct writer : log::async_writer {
  std::vector<seen>& out;
  bool slow;
  writer(std::vector<seen>& o, bool s)
      : out(o)
      , slow(s)
  {
  }
  auto async_write(log::record_ptr r) -> log::awaitable<void> override
  {
    if (slow) co_await boost::asio::post(boost::asio::use_awaitable_t<log::executor_type> {});
    out.push_back({ r->lv, r->msg, r->line, std::string(r->file_name) });
    co_return;
  }
};
bool ends_with(std::string_view s, std::string_view e) { return s.size() >= e.size() && s.substr(s.size() - e.size()) == e; }
void same(const std::vector<seen>& got, const std::vector<seen>& want)
{
  sym_assert(got.size() == want.size(), "as many records are written as were let through");
  for (size_t i = 0; i < got.size() && i < want.size(); ++i) {
    sym_assert(got[i].lv == want[i].lv, "a record is written with its level, in the order of the calls");
    check_eq(got[i].msg, want[i].msg, "a record is written with its text, in the order of the calls");
    sym_assert(got[i].line == want[i].line, "a record carries the line it was logged at");
    sym_assert(ends_with(got[i].file, "alog.cpp"), "a record carries the file it was logged in");
  }
}
}
// parameter: records + 10 * size of the buffer + 100 * writers
HARNESS(lo_deliver)
{
  unsigned prm = (unsigned) sym_param();
  unsigned calls = prm % 10, buf = prm / 10 % 10, writers = prm / 100;
  unsigned least = (unsigned) sym_choice(3);
  g_choices = sym_thorough() ? 8 : 4;
  g_stuck = false;
  filter f = least == 0 ? filter::all() : least == 1 ? filter::at_least(level::warning) : filter { level::debug, level::fatal };
  std::vector<seen> out[3], want;
  {
    log::async_logger::builder b;
    b.set_filter(f).set_max_buffer_size(buf);
    auto l = b.build();
    for (unsigned w = 0; w < writers; ++w) l->add_writer(std::make_shared<writer>(out[w], sym_choice(2) == 1));
    some();
    for (unsigned i = 0; i < calls; ++i) {
      uint8_t n = sym_u8();
      sym_assume(n < 6);
      level lv = (level) n;
      bool through = least == 0 ? true : least == 1 ? n >= 3 : (n == 1) | (n == 5);
      sym_str s(1);
      unsigned line = __LINE__ + 1;
      l->log(source_location::current(), lv, "{}<{}>", i, s.sv());
      if (through) want.push_back({ lv, std::string(1, (char) ('0' + i)) + "<" + std::string(s.sv()) + ">", line, "" });
      some();
    }
  }
  sym_assert(!g_stuck, "destroying a logger does not wait for something that never comes");
  for (unsigned w = 0; w < writers; ++w) same(out[w], want);
  settle();
  for (unsigned w = 0; w < writers; ++w) same(out[w], want);
  for (auto& s : want) sym_observe((unsigned) s.lv);
  sym_cover(want.size() == calls ? "all" : want.empty() ? "none" : "some");
}
namespace {
level some_level()
{
  uint8_t n = sym_u8();
  sym_assume(n < 6);
  return (level) n;
}
}
// the functions that write to the default logger
HARNESS(lo_global)
{
  g_choices = 2;
  std::vector<seen> out[2], want[2];
  unsigned cur = 2;
  log::registry::global().set_default_logger(nullptr);
  for (unsigned i = 0; i < 2; ++i) {
    unsigned c = (unsigned) sym_choice(3); // 0, 1: a new default logger, 2: none
    if (c < 2) {
      auto l = log::async_logger::builder().set_filter(c ? filter::all() : filter::at_least(level::info)).build();
      l->add_writer(std::make_shared<writer>(out[i], false));
      log::registry::global().set_default_logger(std::move(l));
      cur = i;
    }
    else {
      log::registry::global().set_default_logger(nullptr);
      cur = 2;
    }
    sym_assert((bool) log::registry::global().default_logger() == (c < 2), "the default logger is the one set");
    level lv;
    unsigned line;
    unsigned k = (unsigned) sym_choice(7);
    sym_str tx(1);
    std::string_view ad = tx.sv();
    // clang-format off
    switch (k) {
    case 0: lv = level::trace; line = __LINE__; log::trace("{}!", ad); break;
    case 1: lv = level::debug; line = __LINE__; log::debug("{}!", ad); break;
    case 2: lv = level::info; line = __LINE__; log::info("{}!", ad); break;
    case 3: lv = level::warning; line = __LINE__; log::warning("{}!", ad); break;
    case 4: lv = level::error; line = __LINE__; log::error("{}!", ad); break;
    case 5: lv = level::fatal; line = __LINE__; log::fatal("{}!", ad); break;
    default: lv = some_level(); line = __LINE__; log::log(lv, "{}!", ad); break;
    }
    // clang-format on
    if (cur == i && lv >= (c ? level::trace : level::info)) want[i].push_back({ lv, std::string(ad) + "!", line, "" });
    some();
  }
  log::registry::global().set_default_logger(nullptr);
  sym_assert(!g_stuck, "destroying a logger does not wait for something that never comes");
  settle();
  for (unsigned i = 0; i < 2; ++i) same(out[i], want[i]);
  sym_observe(want[0].size() * 2 + want[1].size());
  sym_cover(want[0].size() + want[1].size() ? "written" : "nothing");
}

// the writer to a file: parameter: bytes written at once (0: any)
HARNESS(lo_file)
{
  g_choices = 3;
  g_stuck = false;
  auto& f = *(sym_files::all()["log.txt"] = std::make_shared<sym_files::file>());
  f.step = (size_t) sym_param();
  std::string want;
  if (sym_choice(2)) f.data = want = "old\n";
  if (sym_choice(3) == 1) {
    sym_files::all().erase("log.txt");
    want.clear();
  }
  // one logger after the other
  for (unsigned k = 0; k < 2; ++k) {
    auto w = log::make_async_stream_file_writer("log.txt");
    w->set_formatter(log::formatter::builder().set_pattern("{LV:}|{MSG:}|{FILE:}:{LINE:}").set_newline_style(k ? log::newline_style::crlf : log::newline_style::lf).build());
    auto l = log::async_logger::builder().build();
    l->add_writer(w);
    w.reset();
    for (unsigned i = 0; i < 2 - k; ++i) {
      sym_str s(2);
      l->log(source_location::current(), i ? level::error : level::debug, "{}", s.sv());
      want += std::string(i ? "ERROR|" : "DEBUG|") + std::string(s.sv()) + "|alog.cpp:" + std::to_string(__LINE__ - 1) + (k ? "\r\n" : "\n");
      some();
    }
    l.reset();
    sym_assert(!g_stuck, "destroying a logger does not wait for something that never comes");
  }
  settle();
  check_eq(sym_files::all()["log.txt"]->data, want, "the file ends with the line of each record, in the order of the calls");
  observe(want);
  sym_cover("file");
}
