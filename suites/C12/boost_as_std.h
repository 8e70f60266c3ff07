// Lets the harnesses written against std::optional/variant/string_view run against the Boost flavour of the generated API.
// Include after every other header.
namespace boost { void throw_exception(std::exception const &) { __builtin_trap(); } void throw_exception(std::exception const &, boost::source_location const &) { __builtin_trap(); } }
namespace vpstd {
using namespace std;
using std::get;
template <class T> using optional = boost::optional<T>;
template <class... T> using variant = boost::variant<T...>;
using string_view = boost::string_view;
static const boost::none_t nullopt = boost::none;
template <class T, class... A> T *get_if(boost::variant<A...> *v) { return boost::get<T>(v); }
template <size_t I, class... A> auto *get_if(boost::variant<A...> *v) { return boost::get<std::tuple_element_t<I, std::tuple<A...>>>(v); }
template <class T, class... A> T &get(boost::variant<A...> &v) { return *boost::get<T>(&v); }
}
#define std vpstd
#define index() which()
#define to_string_view to_boost_string_view
