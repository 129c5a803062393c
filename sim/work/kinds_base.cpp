#include "kinds.hpp"
// tokenising, parsing, conversion, encoding, joining, replacing, grids, filters, serialisation, tries, key-value parsing, files
namespace {
struct EachRow { strings* o; void operator()(const strtk::token_grid::row_type& x) const { o->push_back(x.as_string()); } };
int take(std::vector<int>& c) { const int v = c.back(); c.pop_back(); return v; }
int take(std::queue<int>& c) { const int v = c.front(); c.pop(); return v; }
int take(std::stack<int>& c) { const int v = c.top(); c.pop(); return v; }
int take(std::priority_queue<int>& c) { const int v = c.top(); c.pop(); return v; }
int take(std::set<int>& c) { const int v = *c.begin(); c.erase(c.begin()); return v; }
template <typename C> void rest(const std::string& s, strings& o, size_t heads) { int a = 0, b = 0; C c; const bool ok = heads == 1 ? strtk::parse(s,",;",a,c) : strtk::parse(s,",;",a,b,c); size_t n = 0; std::string l; for (; !c.empty() && n < 200; ++n) { l += dig(take(c)); } o.push_back(dig(ok,a,b,n,l)); }
}
KIND(base0)
{ const std::string d = delims[r.pick(5)], s = field_text(r,n * 4,d); strings o; const size_t k = strtk::split(d,s,ins(o),copt(r)); return dig(k,o); }
KIND(base1)
{ const std::string d = delims[r.pick(5)], s = field_text(r,n * 4,d); strings o; const size_t k = strtk::split_n(d,s,r.below(12),ins(o),copt(r)); return dig(k,o); }
KIND(base2)
{ const std::string d = delims[r.pick(5)], s = field_text(r,n * 4,d); strings o;
                 typedef strtk::std_string::tokenizer<strtk::multiple_char_delimiter_predicate>::type T; strtk::multiple_char_delimiter_predicate p(d); T t(s,p,r.below(2));
                 for (T::iterator i = t.begin(); i != t.end(); ++i) o.push_back(std::string((*i).first,(*i).second));
                 strtk::for_each_token(s,d,Keep{&o}); return dig(o); }
KIND(base3)
{ std::string s; for (size_t i = 0; i < n; ++i) s += (i ? "," : "") + std::to_string(r.num()) + (r.below(8) ? "" : "x"); std::vector<int> v; std::deque<long long> q; std::set<std::string> st;
                 const size_t a = strtk::parse(s,",",v), b = strtk::parse(s,",x",q), e = strtk::parse(s,",",st); return dig(a,v,b,q,e,st); }
KIND(base4)
{ int i = 0; std::string t; double x = 0; unsigned short us = 0; bool ok = true; strings o;
                 for (size_t k = 0; k < 1 + n / 8; ++k) { const std::string s = std::to_string(r.num()) + "|" + r.word(20) + "|" + std::to_string(r.real()) + "|" + std::to_string(r.below(65536)); ok = strtk::parse(s,"|",i,t,x,us) && ok; o.push_back(dig(i,t,x,us)); } return dig(ok,o); }
KIND(base5)
{ const std::string w = r.word(12); std::string t1 = r.word(15), t2 = r.word(15), l, u; int i = 0;
                 const std::string s = t1 + ",##" + std::to_string(r.num()) + "#," + w + "," + t2 + "," + r.word(8);
                 strtk::details::conv_to_lcase_impl lc = strtk::as_lcase(l); strtk::details::conv_to_ucase_impl uc = strtk::as_ucase(u); std::string rest;
                 const bool ok = strtk::parse(s,",",lc,strtk::trim("#",i).ref(),strtk::like(w.substr(0,1) + "*").ref(),uc,rest); return dig(ok,l,i,u,rest); }
KIND(base6)
{ std::string s = r.word(9) + "|"; for (size_t i = 0; i < n; ++i) s += (i ? "," : "") + r.word(9); s += "|"; for (size_t i = 0; i < n; ++i) s += (i ? " " : "") + std::to_string(r.num());
                 std::string h; strings v; std::list<int> l; strtk::vector_sink<std::string>::type vs(","); strtk::list_sink<int>::type ls(" ");
                 const bool ok = strtk::parse(s,"|",h,vs(v).reference(),ls(l).reference()); return dig(ok,h,v,l); }
KIND(base7)
{ const size_t idx[3] = { r.below(3), 3 + r.below(2), 5 + r.below(3) }; std::string s; for (int i = 0; i < 8; ++i) s += (i ? "," : "") + r.word(10); std::string a, b, e; const bool ok = strtk::parse_columns(s,",",strtk::column_list(idx),a,b,e); return dig(ok,a,b,e); }
KIND(base8)
{ strings o; for (size_t i = 0; i < n; ++i) { std::string s; const int v = r.num(); const ull u = r.next(); const double x = r.real();
                    strtk::type_to_string(v,s); o.push_back(s); strtk::type_to_string(u,s); o.push_back(s); o.push_back(strtk::type_to_string(x)); o.push_back(strtk::type_to_string((short)v)); o.push_back(strtk::type_to_string(v % 2 == 0)); } return dig(o); }
KIND(base9)
{ strings o; for (size_t i = 0; i < n; ++i) { char b[64]; snprintf(b,sizeof b,r.below(2) ? "%.9g" : "%e",r.real() * std::pow(10.0,int(r.below(30)) - 15)); double x = 0; float f = 0; long long ll = 0; unsigned short us = 0; const bool ok = strtk::string_to_type_converter(std::string(b),x);
                    const std::string t = std::to_string((long long)r.next() >> r.below(63)); const bool ok2 = strtk::string_to_type_converter(t,ll), ok3 = strtk::string_to_type_converter(t,us), ok4 = strtk::string_to_type_converter(std::string(b),f); o.push_back(dig(ok,x,ok2,ll,ok3,us,ok4,f)); } return dig(o); }
KIND(base10)
{ const std::string s = r.bytes(1 + n * 3); std::string h, b, p(s), u, v; strtk::convert_bin_to_hex(s,h); const bool ok = strtk::convert_hex_to_bin(h,u); strtk::convert_bin_to_base64(s,b); strtk::convert_base64_to_bin(b,v); strtk::convert_to_printable_chars(p); return dig(h,ok,u,b,v,p); }
KIND(base11)
{ const std::string h = strtk::convert_bin_to_hex(r.bytes(2 * (1 + n))), b = r.word(4); std::string o, tail; strtk::hex_to_string_sink k(o); const bool ok = strtk::parse("0x" + h + "," + b,",",k,tail);
                 unsigned int x = 0; strtk::hex_to_number_sink<unsigned int> hs(x); char t[20]; snprintf(t,sizeof t,"0x%08X",unsigned(r.next())); const bool ok2 = strtk::string_to_type_converter(std::string(t),hs); return dig(ok,o,tail,ok2,x); }
KIND(base12)
{ const std::string s = r.text(n * 4,"aab"), p = r.text(1 + r.below(3),"ab"), q = r.text(r.below(6),"abXY"); std::string o, o2; strtk::replace_pattern(s,p,q,o); strtk::remove_pattern(s,p,o2); std::string t(s); strtk::replace('a','Q',t);
                 strtk::ext_string e(s); e.replace(p,q); const std::string m = (strtk::ext_string(s) - p).as_string(), k = (strtk::ext_string(p) * size_t(3)).as_string(); return dig(o,o2,t,e.as_string(),m,k); }
KIND(base13)
{ const std::string s = r.text(n * 4,"abcXYZ019._-"); std::string a(s), b(s), d(s), e(s), f(s), g(s), h(s); strtk::remove_inplace('.',a); strtk::remove_consecutives_inplace("._-",b); strtk::remove_leading("._-a",d); strtk::remove_trailing("._-a",e);
                 strtk::remove_leading_trailing("._-",f); strtk::convert_to_lowercase(g); strtk::convert_to_uppercase(h); return dig(a,b,d,e,f,g,h,strtk::remove_duplicates(s),strtk::as_lowercase(s),strtk::as_uppercase(s)); }
KIND(base14)
{ const strings v = r.words(n,12); strings bv(v); std::vector<int> iv; for (size_t i = 0; i < n; ++i) iv.push_back(r.num()); const std::string sep = r.word(4); std::string o; strtk::construct(o,sep,r.num(),v.empty() ? sep : v[0],r.num(),r.real());
                 strtk::build_string bs(20); bs << sep << r.num() << sep; return dig(strtk::join(sep,v),strtk::join(sep,iv),strtk::join_if(sep,Odd(),iv.begin(),iv.end()),strtk::bracketize(std::string("<"),std::string(">"),bv),o,strtk::replicate(n % 7,sep),bs.to_str()); }
KIND(base15)
{ std::string t; for (size_t i = 0; i < n; ++i) { for (uint32_t j = r.below(5); j; --j) t += std::to_string(r.below(2000)) + (r.below(6) ? "," : ",,"); t += std::to_string(i) + "\n"; }
                 strtk::token_grid g(t,t.size(),","); strings o; std::string row, col; double sum = 0; int isum = 0;
                 for (size_t i = 0; i < g.row_count(); ++i) { strtk::token_grid::row_type x = g.row(i); for (size_t j = 0; j < x.size(); ++j) o.push_back(x.get<std::string>(j)); g.join_row(i,"|",row); o.push_back(row); }
                 g.join_column(0,"/",col); const bool k = g.accumulate_column(0,sum) != 0; g.remove_row_if(OddRow()); return dig(g.row_count(),o,col,k,sum,isum); }
KIND(base16)
{ std::string t; for (size_t i = 0; i < 2 + n; ++i) { t += r.word(6) + ";\"" + r.word(4) + ";" + r.word(3) + "\";" + std::to_string(r.num()) + "\n"; } strtk::token_grid::options go; go.column_delimiters = ";"; go.support_dquotes = true; go.trim_dquotes = r.below(2);
                 strtk::token_grid g(t,t.size(),go); strings o; for (size_t i = 0; i < g.row_count(); ++i) for (size_t j = 0; j < g.row(i).size(); ++j) o.push_back(g.get<std::string>(i,j)); std::vector<int> ci; g.extract_column_checked(2,strtk::back_inserter_with_valuetype(ci)); std::deque<size_t> w; g.get_column_widths(w); return dig(o,ci,w); }
KIND(base17)
{ strtk::bloom::parameters p; p.projected_element_count = 20 + n * 4; static const double fp[] = { 0.01, 0.1, 1e-4, 1e-30, 1e-45 }; p.false_positive_probability = fp[r.pick(5)]; p.random_seed = r.next() | 1; p.compute_optimal_parameters();
                 strtk::bloom::filter f(p); const strings k = r.words(n,12); f.insert(k.begin(),k.end()); std::string hit; for (int i = 0; i < 40; ++i) hit += f.contains(r.word(3)) ? '1' : '0'; f.insert(r.num());
                 strtk::bloom::filter g(p); g.insert(r.num()); g |= f; const bool same = g == f; std::string tab(reinterpret_cast<const char*>(f.table()),size_t(f.size() / 8)); return dig(hit,same,f.element_count(),tab,f.hash_count(),f.effective_fpp()); }
KIND(base18)
{ strtk::bloom::parameters p; p.projected_element_count = 50 + n; p.false_positive_probability = 0.001; p.random_seed = r.next() | 1; p.compute_optimal_parameters(); strtk::bloom::compressible_filter f(p); for (size_t i = 0; i < n; ++i) f.insert(r.num()); const bool k = f.compress(30); std::string hit; for (int i = 0; i < 40; ++i) hit += f.contains(int(r.below(30))) ? '1' : '0'; return dig(k,f.size(),hit); }
KIND(base19)
{ std::vector<unsigned char> b(20000,'\0'); strtk::binary::writer w(&b[0],b.size()); std::vector<int> v; for (size_t i = 0; i < n; ++i) v.push_back(r.num()); std::map<std::string,int> dummy; const strings s = r.words(n,10); Obj o; o.a = r.num(); o.b = r.word(30); o.c.assign(n,short(r.num()));
                 const unsigned int be = unsigned(r.next()); bool ok = w(v) && w(s) && w(o) && w.native_to_be(be) && w(std::string("end")); const size_t k = w.amount_written();
                 strtk::binary::reader rd(&b[0],k); std::vector<int> v2; strings s2; Obj o2; unsigned int be2 = 0; std::string e; ok = rd(v2) && rd(s2) && rd(o2) && rd.be_to_native(be2) && rd(e) && ok; return dig(ok,k,v2,s2,o2.a,o2.b,o2.c,be2,e,std::string(b.begin(),b.begin() + long(k))); }
KIND(base20)
{ strtk::prefix_trie<std::string>::std_string t; const strings k = r.words(1 + n,6); for (const std::string& x : k) strtk::trie::insert(t,x,x + "!"); strings o; for (int i = 0; i < 30; ++i) { const std::string x = i % 2 ? k[r.below(uint32_t(k.size()))] : r.word(4); std::string v; const bool ok = strtk::trie::find(t,x,v); o.push_back(dig(ok,v,strtk::trie::find_prefix(t,x.substr(0,2)))); } return dig(o); }
KIND(base21)
{ strtk::keyvalue::options<unsigned char> ko; ko.pair_block_delimiter = '|'; ko.pair_delimiter = '='; strtk::keyvalue::parser<strtk::keyvalue::stringkey_map> p(ko); int i = 0; std::string s; std::vector<int> v; double x = 0; strtk::vector_sink<int>::type vs(","); p.register_keyvalue("int",i); p.register_keyvalue("str",s); p.register_keyvalue("vec",vs(v)); p.register_keyvalue("dbl",x);
                 std::string t = "int=" + std::to_string(r.num()) + "|str=" + r.word(20) + "|vec="; for (size_t k = 0; k < n; ++k) t += (k ? "," : "") + std::to_string(r.num()); t += "|dbl=" + std::to_string(r.real()); const bool ok = p(t); return dig(ok,i,s,v,x); }
KIND(base22)
{ strtk::keyvalue::uintkey_map::options ko; ko.key_count = 16; ko.pair_block_delimiter = '|'; ko.pair_delimiter = '='; strtk::keyvalue::parser<strtk::keyvalue::uintkey_map> p(ko); int v[16] = { 0 }; for (unsigned k = 0; k < 16; ++k) p.register_keyvalue(k,v[k]); std::string t; for (unsigned k = 0; k < 1 + n; ++k) t += (k ? "|" : "") + std::to_string(r.below(18)) + "=" + std::to_string(r.num()); const bool ok = p(t); return dig(ok,std::vector<int>(v,v + 16)); }
KIND(base23)
{ const std::string f = dir + "whole", s = r.bytes(r.pick(3) ? n * 50 : n * 800); std::string both; const bool a = strtk::fileio::write_file(f,s); std::string o; const bool b = strtk::fileio::load_file(f,o); const bool e = strtk::fileio::copy_file(f,dir + "copy"), g = strtk::fileio::files_identical(f,dir + "copy"), h = strtk::fileio::concatenate(f,dir + "copy",dir + "both"); strtk::fileio::load_file(dir + "both",both); return dig(a,b,o == s,both == s + s,e,g,h,strtk::fileio::file_size(dir + "both"),strtk::fileio::file_exists(dir + "none")); }
KIND(base24)
{ const std::string f = dir + "lines"; std::vector<int> v; for (size_t i = 0; i < n; ++i) v.push_back(r.num()); const size_t a = strtk::write_to_text_file(f,v,"\n"); std::vector<int> u; const size_t b = strtk::load_from_text_file(f,u); strings o; Collect k(o); const size_t e = strtk::for_each_line(f,k), g = strtk::for_each_line_n(f,1 + n / 2,k); return dig(a,b,u,e,g,o); }
KIND(base25)
{ const std::string f = dir + "pods"; bool ok; { std::ofstream os(f.c_str(),std::ios::binary); std::vector<int> v; for (size_t i = 0; i < n; ++i) v.push_back(r.num()); ok = strtk::fileio::write_pod(os,int(n),r.num(),r.real()) && strtk::fileio::write_pod(os,v); } std::ifstream is(f.c_str(),std::ios::binary); int k = 0, q = 0; double x = 0; std::vector<int> u; const bool ok2 = strtk::fileio::read_pod(is,k,q,x) && strtk::fileio::read_pod(is,(const size_t&)n,u); return dig(ok,ok2,k,q,x,u); }
KIND(base26)
{ const std::string f = dir + "grid"; std::string t; for (size_t i = 0; i < n + 1; ++i) t += r.word(5) + "," + std::to_string(r.num()) + "," + r.word(7) + "\n"; strtk::fileio::write_file(f,t); strtk::token_grid g(f,","); strings o; for (size_t i = 0; i < g.row_count(); ++i) for (size_t j = 0; j < g.row(i).size(); ++j) o.push_back(g.get<std::string>(i,j)); return dig(o); }
KIND(base27)
{ const std::string f = dir + "records"; std::string t; for (size_t i = 0; i < n + 1; ++i) t += std::to_string(r.num()) + "," + r.word(9) + "," + std::to_string(r.real()) + "\n"; strtk::fileio::write_file(f,t); std::ifstream is(f.c_str()); strings o; for (size_t i = 0; i < n + 1; ++i) { int a = 0; std::string b; double x = 0; const bool ok = strtk::parse_line(is,",",a,b,x); o.push_back(dig(ok,a,b,x)); } return dig(o); }
KIND(base28)
{ const std::string f = dir + "bloom"; strtk::bloom::parameters p; p.projected_element_count = 100; p.false_positive_probability = 0.01; p.random_seed = r.next() | 1; p.compute_optimal_parameters(); strtk::bloom::filter a(p); for (size_t i = 0; i < n; ++i) a.insert(r.num()); const bool ok = a.write_to_file(f); strtk::bloom::filter b; const bool ok2 = b.read_from_file(f); return dig(ok,ok2,a == b,b.element_count()); }
KIND(base29)
{ std::string d(n * 3,'\0'); if (n) strtk::generate_random_data(reinterpret_cast<unsigned char*>(&d[0]),d.size(),r.below(3),unsigned(1 + r.below(1000))); std::vector<int> v; strtk::generate_random_values<int>(n,-100,100,v,1 + r.below(1000)); std::vector<double> x; strtk::generate_random_values<double>(n,-1,1,x,1 + r.below(1000)); return dig(d,v,x); }
KIND(base30)
{ std::vector<int> v, p, k; for (size_t i = 0; i < n; ++i) v.push_back(int(i)); strtk::random_permutation(v.begin(),v.end(),std::back_inserter(p),1 + r.below(1000)); strtk::random_combination(v.begin(),v.end(),n / 2,std::back_inserter(k),1 + r.below(1000)); strtk::uniform_real_rng rng(1 + r.below(1000),r.below(4)); std::vector<double> y; for (size_t i = 0; i < n; ++i) y.push_back(rng()); int one = 0; int* po = &one; if (n) strtk::select_1_randomly(v.begin(),v.end(),po,rng); return dig(p,k,y,one); }
KIND(base31)
{ strings o; for (size_t i = 0; i < n; ++i) { const std::string s = r.text(r.below(12),"abAB"), w = r.text(r.below(5),"ab*?"); o.push_back(dig(strtk::match(w,s),strtk::imatch(s,r.text(uint32_t(s.size()),"abAB")),strtk::begins_with(w,s),strtk::ends_with(w,s),strtk::ibegins_with(w,s))); } return dig(o); }
KIND(base32)
{ std::vector<ull> o; for (size_t i = 0; i < n; ++i) { const ull a = r.below(40), b = r.below(uint32_t(a + 1)); o.push_back(strtk::n_choose_k(a,b)); } std::vector<size_t> q; const size_t rr = 4 + r.below(6), k = 1 + r.below(3); strtk::nth_combination_sequence(r.below(4),rr,k,std::back_inserter(q)); return dig(o,q); }
KIND(base33)
{ std::string s("abcdefg"); strings o; const size_t k = 2 + r.below(3); do { o.push_back(s.substr(0,k)); } while (strtk::next_combination(s.begin(),s.begin() + long(k),s.end())); for (size_t i = 0; i < n; ++i) o.push_back(strtk::nth_permutation_sequence(size_t(r.below(5040)),std::string("abcdefg"))); return dig(o); }
KIND(base34)
{ const std::string t = r.text(n * 3,"ab=12 "); strings o, q; const size_t k = strtk::split_regex("([a-z]+)=([0-9]+)",t,ins(o)); const size_t m = strtk::split_regex_n("[ab]+",t,3,ins(q)); return dig(k,o,m,q); }
KIND(base35)
{ strings o; static const int of[3] = { 5, 8, 13 }; const std::string s = r.text(40 + n,"abcdef"); strtk::offset_splitter(s,strtk::offsets(of[0],of[1],of[2],bool(r.below(2))),ins(o)); const std::string t = r.text(n * 3,"aab1"); strings q; strtk::split_on_consecutive(2,strtk::find_type::letters,strtk::find_mode::atleast_n,t.data(),t.data() + t.size(),ins(q)); std::vector<std::pair<const char*,const char*> > fa; const size_t k = strtk::find_all("aa",t,std::back_inserter(fa)); return dig(o,q,k,strtk::ifind_all("AA",t,std::back_inserter(fa))); }
KIND(base36)
{ std::string from = r.text(6,"abcdef"), to = r.text(6,"uvwxyz"); const strtk::translation_table tt(from,to); const std::string s = r.text(n * 4,"abcdefgh"); std::string g(s); strtk::translate_inplace(tt,g); return dig(strtk::translate(tt,s),g,strtk::text::left_align(20,'.',s),strtk::text::center(n,'*',s),strtk::text::right_align(12,r.num()),strtk::text::remaining_string(n,s),strtk::hash(s)); }
KIND(base37)
{ strings o; o.push_back(strtk::type_name(int(n))); o.push_back(strtk::type_name(o)); o.push_back(strtk::type_name(std::string())); o.push_back(strtk::type_name(std::make_pair(1,2.0))); const strings v = r.words(n,5); std::set<double> sd; o.push_back(strtk::type_name(sd)); o.push_back(strtk::type_name(std::deque<unsigned int>())); o.push_back(strtk::ext_string::all_digits().as_string()); o.push_back(strtk::ext_string::all_lowercase_letters().as_string());
                 o.push_back(strtk::ext_string::all_uppercase_letters().as_string()); o.push_back(strtk::ext_string::all_letters().as_string()); return dig(o,v); }
KIND(base38)
{ std::map<std::string,int> m; std::multimap<int,std::string> mm; for (size_t i = 0; i < n; ++i) { m[r.word(4)] = int(i); mm.insert(std::make_pair(int(r.below(3)),r.word(5))); } strings k, v; strtk::util::make_key_list(m,k); strtk::util::make_value_list(mm,1,v); strings u; strtk::extract_unique(k.begin(),k.end(),std::back_inserter(u)); std::vector<int> it; strtk::iota(it,n,r.num() / 2); strings cu; strtk::cut(1,3,k.begin(),k.end(),std::back_inserter(cu)); return dig(k,v,u,it,cu); }
KIND(base39)
{ const std::string s = r.bytes(n * 4), t = r.bytes(n * 4); std::string il, x(s.size(),'\0'); const bool ok = n && strtk::twoway_bitwise_interleave(s,t,il); strtk::bitwise_transform(strtk::bitwise_operation::eXOR,s,t,x); return dig(ok,il,x,strtk::high_bit_count(s),strtk::hamming_distance(s,t),strtk::first_non_repeated_char(s)); }
KIND(base40)
{ strings o; int i = 0; std::string s; strtk::util::value v0(i), v1(s); for (size_t k = 0; k < n; ++k) { const bool ok = v0(std::to_string(r.num())), ok2 = v1(r.word(10)); std::string b; strtk::type_to_string(v0,b); o.push_back(dig(ok,ok2,i,s,b)); } strtk::util::attribute<int> at(0); strtk::string_to_type_converter(std::to_string(r.num()),at); return dig(o,at()); }
KIND(base41)
{ std::string s = "5," ; std::vector<int> got; Text t; strtk::util::semantic_action_impl act = strtk::util::semantic_action(t); std::string w = r.word(9); bool ok = strtk::parse(w + "," + std::to_string(r.num()),",",act,s); std::string as; strtk::type_to_string(act,as); size_t cnt = 0; std::vector<int> cb; std::copy(w.begin(),w.end(),strtk::counting_back_inserter<char>(cnt)); return dig(ok,s,as,cnt); }
KIND(base42)
{ std::vector<int> v; for (size_t i = 0; i < n; ++i) v.push_back(r.num()); std::vector<int> sorted(v), inv(v); std::string ss = r.text(n,"zyxabc"); strtk::sort(ss); int mn = 0, mx = 0; if (n) strtk::min_max_of_cont(v,mn,mx); std::string lc = r.text(n,"bca"); strtk::lexicographically_canonicalize(lc); std::vector<int> odd; strtk::copy_if(Odd(),v.begin(),v.end(),std::back_inserter(odd)); return dig(ss,mn,mx,lc,odd); }
KIND(base43)
{ std::string s = std::to_string(r.num()) + ";" + std::to_string(r.num()); for (size_t i = 0; i < n; ++i) s += (i % 3 ? "," : ";") + std::to_string(r.num()); strings o; const size_t h = 1 + r.below(2); rest<std::vector<int> >(s,o,h); rest<std::queue<int> >(s,o,h); rest<std::stack<int> >(s,o,h); rest<std::priority_queue<int> >(s,o,h); rest<std::set<int> >(s,o,h); return dig(o); }
KIND(base49)
{ std::string a, b, e; const std::string s = "##" + r.word(8) + "#," + "##" + r.word(8) + "##,#" + r.word(6) + "#"; const bool ok = strtk::parse(s,",",strtk::trim_leading("#",a).ref(),strtk::trim_trailing("#",b).ref(),strtk::trim("#",e).ref()); const std::string t = r.text(n * 2,"aabB1 "); std::vector<std::pair<const char*,const char*> > cons; strings o; strtk::split_on_consecutive_n(2,3,strtk::find_type::letters,strtk::find_mode::atleast_n,t.data(),t.data() + t.size(),ins(o)); return dig(ok,a,b,e,o,strtk::index_of(std::string("ab"),t)); }
KIND(base50)
{ std::vector<std::string> o; const std::string data = r.text(n * 2,"abc,"); strtk::filter_non_empty_range<strtk::range_to_type_back_inserter_iterator<strings> > k0(ins(o)); strtk::for_each_token(data,",",k0); Keep kp = { &o }; const strtk::filter_on_wildcard_match<Keep> k1("a*",kp,true); const strings o2(o); for (const std::string& x : o2) k1(x); return dig(o,strtk::count_consecutive_duplicates(data.begin(),data.end())); }
