// Stand-in for Boost.Asio's stream files (which need io_uring or Windows): files
// in memory with the documented behaviour of the operations.
#ifndef BOOST_ASIO_BASIC_STREAM_FILE_HPP
#define BOOST_ASIO_BASIC_STREAM_FILE_HPP
#include <boost/asio/any_io_executor.hpp>
#include <boost/asio/async_result.hpp>
#include <boost/asio/buffer.hpp>
#include <boost/asio/error.hpp>
#include <boost/asio/file_base.hpp>
#include <boost/asio/post.hpp>
#include <cstring>
#include <map>
#include <memory>
#include <string>

namespace sym_files {
struct file {
  std::string data;
  long long mtime = 0; // nanoseconds since 1970
  bool no_open = false, no_time = false;
  std::size_t fail_at = ~std::size_t(0); // reading or writing there fails
  std::size_t step = 0; // at most that many bytes at once (0: any)
  std::size_t opened = 0;
};
inline std::map<std::string, std::shared_ptr<file>>& all()
{
  static auto* m = new std::map<std::string, std::shared_ptr<file>>;
  return *m;
}
}

namespace boost {
namespace asio {

template <typename Executor = any_io_executor>
class basic_stream_file : public file_base {
  Executor ex_;
  std::shared_ptr<sym_files::file> f_;
  flags mode_ = read_only;
  std::uint64_t at_ = 0;

public:
  using executor_type = Executor;
  using native_handle_type = int;
  template <typename E1>
  struct rebind_executor {
    using other = basic_stream_file<E1>;
  };
  explicit basic_stream_file(const executor_type& ex)
      : ex_(ex)
  {
  }
  basic_stream_file(const executor_type& ex, const std::string& p, flags m)
      : ex_(ex)
  {
    open(p, m);
  }
  basic_stream_file(basic_stream_file&& o) noexcept
      : ex_(o.ex_)
      , f_(std::move(o.f_))
      , mode_(o.mode_)
      , at_(o.at_)
  {
  }
  basic_stream_file& operator=(basic_stream_file&& o) noexcept
  {
    f_ = std::move(o.f_);
    mode_ = o.mode_;
    at_ = o.at_;
    return *this;
  }
  const executor_type& get_executor() const noexcept { return ex_; }
  bool is_open() const noexcept { return f_ != nullptr; }
  boost::system::error_code open(const char* p, flags m, boost::system::error_code& ec)
  {
    ec = {};
    if (f_) {
      ec = boost::asio::error::already_open;
      return ec;
    }
    auto it = sym_files::all().find(p);
    if (it == sym_files::all().end()) {
      if (!(m & create)) {
        ec = boost::system::error_code(ENOENT, boost::system::system_category());
        return ec;
      }
      it = sym_files::all().emplace(p, std::make_shared<sym_files::file>()).first;
    } else if (it->second->no_open || ((m & create) && (m & exclusive))) {
      ec = boost::system::error_code(it->second->no_open ? EACCES : EEXIST, boost::system::system_category());
      return ec;
    }
    f_ = it->second;
    ++f_->opened;
    mode_ = m;
    if (m & truncate) f_->data.clear();
    at_ = 0;
    return ec;
  }
  boost::system::error_code open(const std::string& p, flags m, boost::system::error_code& ec) { return open(p.c_str(), m, ec); }
  void open(const char* p, flags m)
  {
    boost::system::error_code ec;
    open(p, m, ec);
    if (ec) throw boost::system::system_error(ec);
  }
  void open(const std::string& p, flags m) { open(p.c_str(), m); }
  boost::system::error_code close(boost::system::error_code& ec)
  {
    f_.reset();
    ec = {};
    return ec;
  }
  void close() { f_.reset(); }
  std::uint64_t size(boost::system::error_code& ec) const
  {
    ec = {};
    if (!f_) ec = boost::asio::error::bad_descriptor;
    return f_ ? f_->data.size() : 0;
  }
  std::uint64_t size() const
  {
    boost::system::error_code ec;
    auto n = size(ec);
    if (ec) throw boost::system::system_error(ec);
    return n;
  }
  std::uint64_t seek(std::int64_t o, seek_basis w, boost::system::error_code& ec)
  {
    ec = {};
    std::int64_t b = w == seek_set ? 0 : w == seek_cur ? (std::int64_t) at_ : (std::int64_t) f_->data.size();
    if (!f_ || b + o < 0) {
      ec = boost::asio::error::invalid_argument;
      return 0;
    }
    at_ = (std::uint64_t) (b + o);
    return at_;
  }
  std::uint64_t seek(std::int64_t o, seek_basis w)
  {
    boost::system::error_code ec;
    auto n = seek(o, w, ec);
    if (ec) throw boost::system::system_error(ec);
    return n;
  }
  template <class B, class T>
  auto async_read_some(const B& b, T&& t)
  {
    return boost::asio::async_initiate<T, void(boost::system::error_code, std::size_t)>(
        [this](auto h, const B& b) {
          boost::system::error_code ec;
          std::size_t n = 0;
          if (!f_ || (mode_ & 3) == O_WRONLY) ec = boost::asio::error::bad_descriptor;
          else {
            std::size_t left = at_ < f_->data.size() ? f_->data.size() - (std::size_t) at_ : 0;
            if (f_->step && left > f_->step) left = f_->step;
            if (f_->fail_at <= at_) ec = boost::system::error_code(EIO, boost::system::system_category());
            else if (left > f_->fail_at - at_) left = f_->fail_at - (std::size_t) at_;
            if (!ec) {
              for (auto it = boost::asio::buffer_sequence_begin(b); it != boost::asio::buffer_sequence_end(b); ++it) {
                boost::asio::mutable_buffer m(*it);
                std::size_t k = m.size() < left ? m.size() : left;
                if (k) std::memcpy(m.data(), f_->data.data() + at_, k);
                at_ += k;
                left -= k;
                n += k;
              }
              if (n == 0 && boost::asio::buffer_size(b) != 0) ec = boost::asio::error::eof;
            }
          }
          boost::asio::post(ex_, [h = std::move(h), ec, n]() mutable { std::move(h)(ec, n); });
        },
        t, b);
  }
  template <class B, class T>
  auto async_write_some(const B& b, T&& t)
  {
    return boost::asio::async_initiate<T, void(boost::system::error_code, std::size_t)>(
        [this](auto h, const B& b) {
          boost::system::error_code ec;
          std::size_t n = 0;
          if (!f_ || (mode_ & 3) == O_RDONLY) ec = boost::asio::error::bad_descriptor;
          else {
            if (mode_ & append) at_ = f_->data.size();
            std::size_t room = f_->fail_at > at_ ? f_->fail_at - (std::size_t) at_ : 0;
            if (f_->step && room > f_->step) room = f_->step;
            for (auto it = boost::asio::buffer_sequence_begin(b); it != boost::asio::buffer_sequence_end(b); ++it) {
              boost::asio::const_buffer c(*it);
              std::size_t k = c.size() < room ? c.size() : room;
              if (f_->data.size() < at_ + k) f_->data.resize((std::size_t) at_ + k);
              if (k) std::memcpy(f_->data.data() + at_, c.data(), k);
              at_ += k;
              room -= k;
              n += k;
            }
            if (n == 0 && boost::asio::buffer_size(b) != 0) ec = boost::system::error_code(ENOSPC, boost::system::system_category());
          }
          boost::asio::post(ex_, [h = std::move(h), ec, n]() mutable { std::move(h)(ec, n); });
        },
        t, b);
  }
};

}
}
#endif
