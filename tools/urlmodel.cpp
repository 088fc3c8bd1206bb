// Development tool: compares overlay/url with the installed Boost.URL.
//   g++ -std=c++20 -DREAL tools/urlmodel.cpp -lboost_url -o real; g++ -std=c++20 -Ioverlay/url tools/urlmodel.cpp -o model
//   diff <(./real) <(./model)
#include <boost/url.hpp>
#include <cstdio>
#include <random>
static void esc(const std::string& s)
{
  for (unsigned char c : s) std::printf("%02x", c);
  std::printf(" ");
}
template <class P>
static void show(const P& ps)
{
  for (auto p : ps) {
    esc(std::string(p.key));
    esc(p.has_value ? std::string(p.value) : "-");
  }
}
int main()
{
  std::mt19937 g(1);
  const char al[] = "ab/?&=+%2041#[]{} .:@!$'()*,;\"<>\\^`|~-_\x7f\x80\xff\x01";
  for (int i = 0; i < 300000; ++i) {
    std::string s;
    int n = g() % 9;
    int small = g() % 3;
    for (int j = 0; j < n; ++j) s += al[small ? g() % 12 : g() % (sizeof al - 1)];
    if (i < 256) s = std::string("a") + (char) i + "b";
    else if (i < 512) s = std::string("/") + (char) (i - 256) + "b";
    else if (i < 768) s = std::string("/a?") + (char) (i - 512) + "=b";
    auto q = boost::urls::parse_query(s);
    std::printf("%d q%d ", i, (int) q.has_value());
    if (q) show(static_cast<boost::urls::params_view>(*q));
    std::string t = i % 2 && i >= 768 ? "/" + s : s;
    auto o = boost::urls::parse_origin_form(t);
    std::printf(" o%d ", (int) o.has_value());
    if (o) {
      esc(std::string(o->path()));
      show(o->params());
    }
    std::printf(" e");
    esc(boost::urls::encode(s, boost::urls::unreserved_chars));
    boost::urls::url u;
    u.set_path("/" + s);
    esc(std::string(u.encoded_target()));
    u.set_query(s);
    esc(std::string(u.encoded_target()));
    u.set_encoded_query(boost::urls::encode(s, boost::urls::unreserved_chars));
    esc(std::string(u.encoded_target()));
    std::printf("\n");
  }
}
