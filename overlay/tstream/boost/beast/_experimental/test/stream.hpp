// Stand-in for Boost.Beast's in-memory test stream: the same interface and
// documented behaviour, without its I/O context service.
#ifndef BOOST_BEAST_TEST_STREAM_HPP
#define BOOST_BEAST_TEST_STREAM_HPP
#include <boost/asio/async_result.hpp>
#include <boost/asio/buffer.hpp>
#include <boost/asio/error.hpp>
#include <boost/beast/core/role.hpp>
#include <boost/beast/core/string.hpp>
#include <cstring>
#include <memory>
#include <string>

namespace boost {
namespace beast {
namespace test {

namespace stand_in {
struct read_op {
  virtual ~read_op() = default;
  virtual void go() = 0;
};
struct side {
  std::string in;
  std::size_t at = 0;
  bool eof = false, reset = false;
  boost::system::error_code end = boost::asio::error::eof;
  std::size_t read_max = 0, write_max = 0; // 0: any
  std::size_t limit = ~std::size_t(0), written = 0; // writing fails after that
  std::unique_ptr<read_op> pending;
  void wake()
  {
    if (!pending) return;
    auto p = std::move(pending);
    p->go();
  }
};
}

template <class Executor>
class basic_stream {
  std::shared_ptr<stand_in::side> in_ = std::make_shared<stand_in::side>();
  std::weak_ptr<stand_in::side> out_;
  Executor ex_;

  template <class Handler, class Buffers>
  struct op : stand_in::read_op {
    Handler h;
    Buffers b;
    Executor ex;
    std::weak_ptr<stand_in::side> s;
    op(Handler&& h_, const Buffers& b_, Executor e, std::weak_ptr<stand_in::side> s_)
        : h(std::move(h_))
        , b(b_)
        , ex(e)
        , s(std::move(s_))
    {
    }
    void go() override
    {
      // as Boost.Beast's, the data are taken when the posted function runs
      ex.execute([h = std::move(h), b = b, s = s]() mutable { finish(h, b, s); });
    }
    static void finish(Handler& h, const Buffers& b, const std::weak_ptr<stand_in::side>& s)
    {
      boost::system::error_code ec;
      std::size_t n = 0;
      auto p = s.lock();
      if (!p) ec = boost::asio::error::operation_aborted;
      else {
        std::size_t left = p->in.size() - p->at;
        if (p->read_max && left > p->read_max) left = p->read_max;
        for (auto it = boost::asio::buffer_sequence_begin(b); it != boost::asio::buffer_sequence_end(b); ++it) {
          boost::asio::mutable_buffer m(*it);
          std::size_t k = m.size() < left ? m.size() : left;
          if (k) std::memcpy(m.data(), p->in.data() + p->at, k);
          p->at += k;
          left -= k;
          n += k;
        }
        if (n == 0 && boost::asio::buffer_size(b) != 0) ec = p->reset ? boost::system::error_code(boost::asio::error::connection_reset) : p->end;
      }
      p.reset();
      std::move(h)(ec, n);
    }
  };

public:
  using executor_type = Executor;
  using buffer_type = std::string;
  template <class E1>
  struct rebind_executor {
    using other = basic_stream<E1>;
  };
  explicit basic_stream(executor_type ex)
      : ex_(std::move(ex))
  {
  }
  basic_stream(basic_stream&&) = default;
  basic_stream& operator=(basic_stream&&) = default;
  ~basic_stream()
  {
    if (!in_) return;
    if (auto o = out_.lock()) {
      o->eof = true;
      if (!in_->eof) o->reset = true;
      o->wake();
    }
  }
  void connect(basic_stream& remote)
  {
    out_ = remote.in_;
    remote.out_ = in_;
  }
  executor_type get_executor() noexcept { return ex_; }
  void read_size(std::size_t n) noexcept { in_->read_max = n; }
  void write_size(std::size_t n) noexcept { in_->write_max = n; }
  string_view str() const { return string_view(in_->in.data() + in_->at, in_->in.size() - in_->at); }
  void append(string_view s)
  {
    in_->in.append(s.data(), s.size());
    if (s.size()) in_->wake();
  }
  void clear() { in_->at = in_->in.size(); }
  stand_in::side& side() { return *in_; }
  void close()
  {
    in_->eof = true;
    if (auto o = out_.lock()) {
      o->eof = true;
      o->wake();
    }
    in_->wake();
  }
  void close_remote()
  {
    in_->eof = true;
    in_->wake();
  }
  template <class B, class T>
  auto async_read_some(const B& b, T&& t)
  {
    return boost::asio::async_initiate<T, void(boost::system::error_code, std::size_t)>(
        [s = in_, ex = ex_](auto h, const B& b) {
          auto p = std::make_unique<op<std::decay_t<decltype(h)>, B>>(std::move(h), b, ex, s);
          if (s->at < s->in.size() || s->eof || boost::asio::buffer_size(b) == 0) p->go();
          else s->pending = std::move(p);
        },
        t, b);
  }
  template <class B, class T>
  auto async_write_some(const B& b, T&& t)
  {
    return boost::asio::async_initiate<T, void(boost::system::error_code, std::size_t)>(
        [s = in_, w = out_, ex = ex_](auto h, const B& b) {
          boost::system::error_code ec;
          std::size_t n = 0;
          auto o = w.lock();
          if (!o || s->eof) ec = boost::asio::error::connection_reset;
          else {
            std::size_t room = s->limit - s->written;
            for (auto it = boost::asio::buffer_sequence_begin(b); it != boost::asio::buffer_sequence_end(b); ++it) {
              boost::asio::const_buffer c(*it);
              std::size_t k = c.size();
              if (s->write_max && k > s->write_max - n) k = s->write_max - n;
              if (k > room) k = room;
              if (k) o->in.append((const char*) c.data(), k);
              n += k;
              room -= k;
              if (k != c.size()) break;
            }
            s->written += n;
            if (n == 0 && room == 0 && boost::asio::buffer_size(b) != 0) ec = boost::asio::error::broken_pipe;
            if (n) o->wake();
          }
          ex.execute([h = std::move(h), ec, n]() mutable { std::move(h)(ec, n); });
        },
        t, b);
  }
};
using stream = basic_stream<boost::asio::any_io_executor>;

template <class E>
void connect(basic_stream<E>& a, basic_stream<E>& b)
{
  a.connect(b);
}
template <class E>
void teardown(role_type, basic_stream<E>& s, boost::system::error_code& ec)
{
  s.close();
  ec = {};
}
template <class E, class H>
void async_teardown(role_type, basic_stream<E>& s, H&& h)
{
  s.close();
  auto ex = s.get_executor();
  ex.execute([h = std::decay_t<H>(std::forward<H>(h))]() mutable { std::move(h)(boost::system::error_code()); });
}

}
}
}
#endif
