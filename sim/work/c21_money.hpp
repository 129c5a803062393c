// a user type with its own conversions, shared by the two configurations of C21
#ifndef C21_MONEY_HPP
#define C21_MONEY_HPP
#include <ostream>
#include <string>
#include <vector>
namespace c21
{
   struct Money { int cents; std::string currency; Money() : cents(0) {} };
   inline std::ostream& operator<<(std::ostream& os, const Money& m) { return os << m.cents << " of the currency called " << m.currency; }
   inline void put(std::string& s, const Money& m) { s += std::to_string(m.cents) + "$" + m.currency + " "; }
   bool plain_to_string(const Money& m, std::string& s);
   std::string plain_join(const std::string& sep, const std::vector<Money>& v);
   bool plain_to_string(double d, std::string& s);
}
#endif
