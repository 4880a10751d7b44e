// docc includes <boost/lexical_cast.hpp> without calling it; the conversions it does use (UUIDs to strings) are in uuid_io.hpp.
#pragma once
#include <sstream>
#include <string>
#include <typeinfo>
namespace boost {
class bad_lexical_cast : public std::bad_cast {};
template<class T, class U> inline T lexical_cast(const U& u) { std::stringstream s; s << u; if constexpr (std::is_same_v<T, std::string>) return s.str(); else { T t; if (!(s >> t)) throw bad_lexical_cast(); return t; } }
}
