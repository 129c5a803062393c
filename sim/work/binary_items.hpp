// Typed values that a binary writer stores and a reader loads back (C09, C10, C11).
#ifndef BINARY_ITEMS_HPP
#define BINARY_ITEMS_HPP
#include "models.hpp"
#include <cmath>
#include <memory>
namespace items
{
   using sim::Rng;
   typedef strtk::binary::writer Writer;
   typedef strtk::binary::reader Reader;
   // ---- nested user objects ----
   struct Inner
   {
      int id; std::string name;
      bool operator==(const Inner& o) const { return id == o.id && name == o.name; }
      bool operator<(const Inner& o) const { return id != o.id ? id < o.id : name < o.name; }
      Inner() : id(0) {}
      strtk_binary_reader_begin()
         strtk_binary_reader(id)
         strtk_binary_reader(name)
      strtk_binary_reader_end()
      strtk_binary_writer_begin()
         strtk_binary_writer(id)
         strtk_binary_writer(name)
      strtk_binary_writer_end()
   };
   struct Outer
   {
      Inner head; std::vector<Inner> parts; double ratio[3]; std::deque<std::string> notes; std::set<int> ids; unsigned char tag; std::list<unsigned short> codes;
      std::pair<int,std::string> label;
      Outer() : tag(0) { ratio[0] = ratio[1] = ratio[2] = 0; label.first = 0; }
      bool operator==(const Outer& o) const
      {
         return head == o.head && parts == o.parts && ratio[0] == o.ratio[0] && ratio[1] == o.ratio[1] && ratio[2] == o.ratio[2]
             && notes == o.notes && ids == o.ids && tag == o.tag && codes == o.codes && label == o.label;
      }
      strtk_binary_reader_begin()
         strtk_binary_reader(head)
         strtk_binary_reader(parts)
         strtk_binary_reader(ratio)
         strtk_binary_reader(notes)
         strtk_binary_reader(ids)
         strtk_binary_reader(tag)
         strtk_binary_reader(codes)
         strtk_binary_reader(label)
      strtk_binary_reader_end()
      strtk_binary_writer_begin()
         strtk_binary_writer(head)
         strtk_binary_writer(parts)
         strtk_binary_writer(ratio)
         strtk_binary_writer(notes)
         strtk_binary_writer(ids)
         strtk_binary_writer(tag)
         strtk_binary_writer(codes)
         strtk_binary_writer(label)
      strtk_binary_writer_end()
   };
   // ---- values ----
   template <typename T> void make(T& t, Rng& r, int)
   {
      switch (r.below(5))
      {
         case 0 : t = T(r.below(3)); break;
         case 1 : t = std::numeric_limits<T>::max(); break;
         case 2 : t = std::numeric_limits<T>::min(); break;
         default: t = T(r.next());
      }
   }
   inline void make(bool& t, Rng& r, int) { t = r.below(2); }
   inline void make(float& t, Rng& r, int) { t = float(int(r.below(200000)) - 100000) / 64; }
   inline void make(double& t, Rng& r, int) { t = double(int64_t(r.next()) >> 12) / 4096; }
   inline void make(long double& t, Rng& r, int) { t = (long double)(int64_t(r.next()) >> 2) / 1024; }
   inline size_t count(Rng& r, int size) { return size <= 0 ? r.below(3) : size == 1 ? r.below(9) : r.below(6) == 0 ? r.below(700) : r.below(20); }
   inline void make(std::string& t, Rng& r, int size) { t.resize(count(r,size)); for (size_t i = 0; i < t.size(); ++i) t[i] = char(r.below(4) ? 'a' + r.below(26) : r.below(256)); }
   template <typename A, typename B> void make(std::pair<A,B>& t, Rng& r, int size);
   template <typename T> void make(std::vector<T>& t, Rng& r, int size);
   template <typename T> void make(std::deque<T>& t, Rng& r, int size);
   template <typename T> void make(std::list<T>& t, Rng& r, int size);
   template <typename T> void make(std::set<T>& t, Rng& r, int size);
   template <typename T> void make(std::multiset<T>& t, Rng& r, int size);
   inline void make(Inner& t, Rng& r, int size) { make(t.id,r,0); make(t.name,r,size); }
   inline void make(Outer& t, Rng& r, int size)
   {
      make(t.head,r,size - 1); make(t.parts,r,size - 1); for (int i = 0; i < 3; ++i) make(t.ratio[i],r,0);
      make(t.notes,r,size - 1); make(t.ids,r,size - 1); make(t.tag,r,0); make(t.codes,r,size - 1); make(t.label,r,size - 1);
   }
   template <typename A, typename B> void make(std::pair<A,B>& t, Rng& r, int size) { make(t.first,r,size - 1); make(t.second,r,size - 1); }
   template <typename C> void fill(C& c, Rng& r, int size) { for (size_t n = count(r,size); n; --n) { typename C::value_type v = typename C::value_type(); make(v,r,size - 1); c.insert(c.end(),v); } }
   template <typename T> void make(std::vector<T>& t, Rng& r, int size) { fill(t,r,size); }
   template <typename T> void make(std::deque<T>& t, Rng& r, int size) { fill(t,r,size); }
   template <typename T> void make(std::list<T>& t, Rng& r, int size) { fill(t,r,size); }
   template <typename T> void make(std::set<T>& t, Rng& r, int size) { fill(t,r,size); }
   template <typename T> void make(std::multiset<T>& t, Rng& r, int size) { fill(t,r,size); }
   // ---- items ----
   struct Item
   {
      const char* name;
      Item() : name("") {}
      virtual ~Item() {}
      virtual bool write(Writer& w) = 0;
      virtual bool read(Reader& r) = 0;        // into its target, fresh or used before
      virtual bool equal() = 0;                // target of the last read equals the written value
      virtual std::string form() { return ""; } // exact bytes where the form is defined by the interface
      virtual uint64_t digest() { return 0; }  // of the target of the last read, where cheap
   };
   // what reading v into a variable that holds something gives: values are replaced, sequences and sets grow
   template <typename T> T after(const T&, const T& v) { return v; }
   template <typename T> std::deque<T> after(std::deque<T> old, const std::deque<T>& v) { old.insert(old.end(),v.begin(),v.end()); return old; }
   template <typename T> std::list<T> after(std::list<T> old, const std::list<T>& v) { old.insert(old.end(),v.begin(),v.end()); return old; }
   template <typename T> std::set<T> after(std::set<T> old, const std::set<T>& v) { old.insert(v.begin(),v.end()); return old; }
   template <typename T> std::multiset<T> after(std::multiset<T> old, const std::multiset<T>& v) { old.insert(v.begin(),v.end()); return old; }
   template <typename A, typename B> std::pair<A,B> after(const std::pair<A,B>& old, const std::pair<A,B>& v) { return std::pair<A,B>(after(old.first,v.first),after(old.second,v.second)); }
   inline Outer after(const Outer& old, const Outer& v) { Outer x(v); x.notes = after(old.notes,v.notes); x.ids = after(old.ids,v.ids); x.codes = after(old.codes,v.codes); return x; }
   template <typename T> struct Plain : Item
   {
      T v, got, old; bool used;
      Plain(Rng& r, int size) : v(), got(), old() { make(v,r,size); used = r.below(3) == 0; if (used) make(old,r,r.below(2) ? size : 1); }
      bool write(Writer& w) { const T& c = v; return w(c); }
      bool read(Reader& r) { if (used) { sim::NoFault nf; got = old; } else got = T(); return r(got); }
      bool equal() { return got == (used ? after(old,v) : v); }
   };
   template <typename T> struct Endian : Item
   {
      T v, got; bool big;
      Endian(Rng& r, bool b) : v(), got(), big(b) { make(v,r,0); }
      bool write(Writer& w) { return big ? w.native_to_be(v) : w.native_to_le(v); }
      bool read(Reader& r) { got = T(); return big ? r.be_to_native(got) : r.le_to_native(got); }
      bool equal() { return v == got; }
      std::string form()
      {
         std::string s;
         for (size_t i = 0; i < sizeof(T); ++i) { char c = char((unsigned long long)(v) >> (8 * i)); s = big ? c + s : s + c; }
         return s;
      }
   };
   template <typename T, size_t N> struct Fixed : Item
   {
      T v[N], got[N];
      Fixed(Rng& r) { for (size_t i = 0; i < N; ++i) make(v[i],r,0); }
      bool write(Writer& w) { return w(v); }
      bool read(Reader& r) { memset(got,0x77,sizeof got); return r(got); }
      bool equal() { return std::equal(v,v + N,got); }
   };
   template <typename T, typename L> struct Range : Item   // pointer and length
   {
      std::vector<T> v; bool with_length; std::vector<T> got; bool as64;
      Range(Rng& r, int size, bool wl) : with_length(wl), as64(r.below(2)) { make(v,r,size); if (sizeof(L) == 1 && v.size() > 255) v.resize(255); }
      bool write(Writer& w) { const L n = L(v.size()); const T* p = v.data(); return w(p,n,with_length); }
      bool read(Reader& r)
      {
         got.clear();
         if (with_length)
         {
            T* p = nullptr; bool ok; size_t m;
            if (as64) { Reader::uint64_t n = 0; ok = r(p,n); m = size_t(n); } else { Reader::uint32_t n = 0; ok = r(p,n); m = n; }
            if (ok) { sim::NoFault nf; got.assign(p,p + m); }
            delete[] p;
            return ok;
         }
         { sim::NoFault nf; got.resize(v.size() + 1); } T* p = got.data(); bool ok;
         if (as64) { Reader::uint64_t n = v.size(); ok = r(p,n,false); } else { Reader::uint32_t n = Reader::uint32_t(v.size()); ok = r(p,n,false); }
         got.resize(v.size());
         return ok;
      }
      bool equal() { return v == got; }
   };
   struct Padded : Item
   {
      int number; std::string text; bool is_text, left; size_t width; char pad; std::string want, got; int num;
      Padded(Rng& r)
      {
         make(number,r,0); number %= 100000; is_text = r.below(2); left = is_text ? r.below(2) : true; pad = is_text ? "_ 0"[r.below(3)] : '0';
         if (is_text) make(text,r,1); else { if (number < 0) number = -number; text = std::to_string(number); }
         width = text.size() + (r.below(3) ? r.below(12) : 0);
         want = left ? std::string(width - text.size(),pad) + text : text + std::string(width - text.size(),pad);
      }
      bool write(Writer& w)
      {
         const Writer::padding_mode m = left ? Writer::left_padding : Writer::right_padding;
         return is_text ? w(text,width,m,pad) : w(number,width,m,pad);
      }
      bool read(Reader& r)
      {
         got.clear(); num = -1;
         if (is_text || width == 0) return r(got,width);
         return r(num,width);
      }
      bool equal() { return is_text || width == 0 ? got == want : num == number; }
      std::string form() { return want; }
   };
   template <typename S> struct Short : Item     // a string with a length of one or two bytes
   {
      std::string v, got;
      Short(Rng& r, int size) { make(v,r,size); if (v.size() > 255 && std::is_same<S,strtk::binary::pascal_string>::value) v.resize(255); }
      bool write(Writer& w) { S s(v); return w(s); }
      bool read(Reader& r) { { sim::NoFault nf; got = "before"; } S s(got); return r(s); }
      bool equal() { return v == got; }
      std::string form() { std::string s(1,char(v.size())); if (!std::is_same<S,strtk::binary::pascal_string>::value) s += char(v.size() >> 8); return s + v; }
   };
   template <typename T> Item* plain(Rng& r, int size, const char* n) { Item* i = new Plain<T>(r,size); i->name = n; return i; }
   template <typename T> Item* endian(Rng& r, const char* n) { Item* i = new Endian<T>(r,r.below(2)); i->name = n; return i; }
   template <typename T, size_t N> Item* fixed_(Rng& r, const char* n) { Item* i = new Fixed<T,N>(r); i->name = n; return i; }
   template <typename T, typename L> Item* range(Rng& r, int size, const char* n) { Item* i = new Range<T,L>(r,size,r.below(2)); i->name = n; return i; }
   const uint32_t kinds = 56;
   inline Item* make_item(uint32_t kind, int size, Rng& r)
   {
      #define P(T) return plain<T >(r,size,#T)
      switch (kind)
      {
         case 0 : P(int); case 1 : P(unsigned char); case 2 : P(std::string); case 3 : P(std::vector<int>); case 4 : P(bool); case 5 : P(char);
         case 6 : P(short); case 7 : P(unsigned short); case 8 : P(unsigned int); case 9 : P(long); case 10: P(unsigned long); case 11: P(long long);
         case 12: P(unsigned long long); case 13: P(float); case 14: P(double); case 15: P(long double); case 16: P(signed char);
         case 17: P(std::vector<double>); case 18: P(std::vector<std::string>); case 19: P(std::vector<Inner>); case 20: P(std::vector<Outer>);
         case 21: P(std::vector<std::list<int> >); case 22: P(std::deque<int>); case 23: P(std::deque<std::string>); case 24: P(std::list<std::string>);
         case 25: P(std::list<double>); case 26: P(std::set<int>); case 27: P(std::set<std::string>); case 28: P(std::multiset<short>);
         case 29: P(std::multiset<std::string>); case 30: { typedef std::pair<int,std::string> p; P(p); }
         case 31: { typedef std::pair<std::string,std::vector<int> > p; P(p); }
         case 32: { typedef std::vector<std::pair<int,std::string> > p; P(p); }
         case 33: P(Inner); case 34: P(Outer); case 35: P(std::list<Inner>); case 36: P(std::deque<std::set<int> >); case 37: P(std::set<Inner>);
         case 38: P(std::list<std::vector<short> >); case 39: P(std::vector<unsigned char>);
         case 40: return endian<short>(r,"endian short"); case 41: return endian<unsigned short>(r,"endian ushort"); case 42: return endian<int>(r,"endian int");
         case 43: return endian<unsigned int>(r,"endian uint"); case 44: return endian<long long>(r,"endian ll"); case 45: return endian<unsigned long long>(r,"endian ull");
         case 46: return fixed_<int,5>(r,"int[5]"); case 47: return fixed_<double,3>(r,"double[3]"); case 48: return fixed_<unsigned short,1>(r,"ushort[1]");
         case 49: return range<int,unsigned int>(r,size,"int range"); case 50: return range<double,unsigned long long>(r,size,"double range/64");
         case 51: return range<unsigned char,unsigned short>(r,size,"byte range/16"); case 52: return range<short,unsigned char>(r,size,"short range/8");
         case 53: { Item* i = new Short<strtk::binary::short_string>(r,size); i->name = "short string"; return i; }
         case 54: { Item* i = new Short<strtk::binary::pascal_string>(r,size); i->name = "pascal string"; return i; }
         default: { Item* i = new Padded(r); i->name = "padded"; return i; }
      }
      #undef P
   }
   inline Item* draw_item()
   {
      const uint32_t kind = sim::draw(kinds,"item");
      const int size = 1 + int(sim::draw(3,"item-size"));
      Rng r(sim::draw(0xffffffffu,"item-value"));
      sim::NoFault nf;
      return make_item(kind,size,r);
   }
   inline size_t encoded_size(Item& i)      // by writing into a generous buffer
   {
      static std::vector<char> big(1 << 20);
      Writer w(big.data(),big.size());
      if (!i.write(w)) sim::violate("write-refused","%s does not fit a megabyte",i.name);
      return w.amount_written();
   }
}
#endif
