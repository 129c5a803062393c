// C21: the library configured without boost (conversions go through streams), as namespace strtk_plain.
#define strtk_no_tr1_or_boost
#define strtk strtk_plain
#include "strtk.hpp"
#include "c21_money.hpp"
namespace c21
{
   bool plain_to_string(const Money& m, std::string& s) { return strtk_plain::type_to_string(m,s); }
   bool plain_to_string(double d, std::string& s) { return strtk_plain::type_to_string(d,s); }
   std::string plain_join(const std::string& sep, const std::vector<Money>& v) { return strtk_plain::join(sep,v); }
}
