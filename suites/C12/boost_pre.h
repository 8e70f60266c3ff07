#define BOOST_NO_EXCEPTIONS 1
#include <exception>
#include <memory>
#include <optional>
#include <string>
#include <string_view>
#include <tuple>
#include <utility>
#include <variant>
#include <boost/optional.hpp>
#include <boost/variant.hpp>
#include <boost/utility/string_view.hpp>
#include "vh.h"
#include <string.h>
