// The compiler-dependent branches of the library for gcc, analysed with clang's front end: the standard headers
// see clang, the library does not.
#include <cstring>
#include <ciso646>
#include <type_traits>
#include <utility>
#include <limits>
#include <exception>
#include <cstdint>
#include <initializer_list>
#include <memory>
#include <string>
#include <string_view>
#include <vector>
#include <array>
#include <tuple>
#include <functional>
#include <iterator>
#include <new>
#include <map>
#include <unordered_map>
#include <variant>
#include <any>
#include <iosfwd>
#include <ostream>
#include <istream>
#include <typeindex>
#include <thread>
#undef __clang__
