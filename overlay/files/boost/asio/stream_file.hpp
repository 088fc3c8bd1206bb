#pragma once
#include <boost/asio/basic_stream_file.hpp>
namespace boost::asio {
using stream_file = basic_stream_file<>;
}
