// Boost.PFR before 1.84 has no field names: the harness gives those of its own
// types in sym_pfr::names.
#pragma once
#include_next <boost/pfr.hpp>
#include <string_view>
namespace sym_pfr {
template <class T>
struct names;
}
namespace boost::pfr {
template <std::size_t I, class T>
constexpr std::string_view get_name()
{
  return sym_pfr::names<T>::value[I];
}
}
