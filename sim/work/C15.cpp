// C15: token grid edits and queries against a plain table, with throwing and stopping callbacks.
#include "grid.hpp"
#include <memory>
#include <queue>
#include <stack>
using namespace w;
PROPERTY("C15","one run: a grid loaded from a drawn text and a history of row/token removals, column enforcement, visits, partitions, joins, extractions, aggregations and row parsing over drawn row ranges, "
               "with callbacks that throw or stop at a drawn call and failing allocations; after every step the whole grid is compared with a plain table given the same history; "
               "non-trivial: a callback threw or stopped, or an allocation failed, or rows were removed; distinct: different sequence of operations, faults and outcomes");
using grid::G; using grid::Opt; using grid::Table;
typedef std::vector<std::string> Row;
struct Thrown {};
// the callbacks of one operation share this
struct Calls
{
   uint32_t n, at; bool threw; uint64_t salt; uint32_t kind;
   void count() { if (++n == at) { threw = true; throw Thrown(); } }
   bool pick(const std::string& s) const
   {
      switch (kind)
      {
         case 0 : return (sim::hash(s) ^ salt) % 3 == 0;
         case 1 : return s.empty();
         case 2 : return true;
         case 3 : return false;
         case 4 : return s.size() == salt % 8;
         default: return !s.empty() && (unsigned(s[0]) + salt) % 2;
      }
   }
   bool pick(const Row& r) const
   {
      switch (kind)
      {
         case 0 : { std::string all; for (const std::string& t : r) { all += t; all += '\1'; } return (sim::hash(all) ^ salt) % 3 == 0; }
         case 1 : return r.size() < 2 + salt % 4;
         case 2 : return true;
         case 3 : return false;
         case 4 : return r.size() % 2 == salt % 2;
         default: return pick(r.back());
      }
   }
};
static Calls* g_calls;
static Row cells(const G::row_type& r)
{
   sim::NoFault nf;
   Row out; for (size_t i = 0; i < r.size(); ++i) out.push_back(grid::str(r.token(i)));
   return out;
}
struct RowPred { bool operator()(const G::row_type& r) const { g_calls->count(); sim::NoFault nf; return g_calls->pick(cells(r)); } };
struct TokPred { bool operator()(const G::range_t& t) const { g_calls->count(); sim::NoFault nf; return g_calls->pick(grid::str(t)); } };
struct Visit
{
   Table* seen; std::vector<size_t>* idx;
   void operator()(const G::row_type& r) const { g_calls->count(); sim::NoFault nf; seen->push_back(cells(r)); idx->push_back(r.index()); }
   void operator()(const G::range_t& t) const { g_calls->count(); sim::NoFault nf; seen->push_back(Row(1,grid::str(t))); }
};
struct Part
{
   std::vector<std::pair<size_t,size_t> >* seen; uint32_t stop;
   bool operator()(const G&, const G::row_range_t& r) const
   {
      g_calls->count(); sim::NoFault nf;
      seen->push_back(std::make_pair(size_t(r.first),size_t(r.second)));
      return seen->size() != stop;
   }
};
static std::string joined(const std::vector<std::string>& parts, const std::string& d)
{
   std::string s; bool any = false;
   for (const std::string& p : parts) if (!p.empty()) { if (any) s += d; s += p; any = true; }
   return s;
}
static std::pair<size_t,size_t> widths(const Table& t)
{
   size_t lo = size_t(-1), hi = 0;
   for (const Row& r : t) { lo = std::min(lo,r.size()); hi = std::max(hi,r.size()); }
   return std::make_pair(lo,hi);
}
template <typename T> static void same(const T& a, const T& b, const char* cls, const char* what) { if (!(a == b)) violate(cls,"%s: %zu items instead of %zu or other values",what,a.size(),b.size()); }
static void same_text(const std::string& a, const std::string& b, const char* cls, const char* what) { if (a != b) violate(cls,"%s: %s",what,w::diff(a,b).c_str()); }
void sim_run()
{
   sim::want_second_pass();
   Opt o = grid::draw_options();
   const bool numeric = flip("numeric");
   const std::string text = grid::draw_text(o,flip("many-rows") ? 14 : 4,numeric);
   std::unique_ptr<G> gp;
   { sim::Op op("load"); sim::AllocWindow aw(0); G* n = new G(text,text.size(),o.lib(flip("setters"))); sim::NoFault nf; gp.reset(n); }
   G& g = *gp;
   Table t = grid::dump(g);
   grid::compare(t,grid::table(text,o),"wrong-cells","load");
   for (int k = 0; k < 30 && more(8,"more"); ++k)
   {
      const size_t rows = t.size();
      size_t lo = 0, hi = rows; bool whole = true;
      if (flip("range"))
      {
         whole = false;
         lo = draw(uint32_t(rows + 2),"from"); hi = flip("to-end") ? rows : draw(uint32_t(rows + 3),"to");
      }
      const bool valid = lo <= rows && hi <= rows && lo <= hi;
      const G::row_range_t rr(static_cast<G::index_t>(lo),static_cast<G::index_t>(hi));
      Calls c = { 0, 0, false, sim::draw(1000,"salt"), draw(6,"predicate") };
      g_calls = &c;
      if (sim::one_in(3,"throw?")) c.at = 1 + draw(6,"throw-at");
      const uint32_t af = sim::one_in(6,"alloc?") ? sim::draw_alloc_fault(12,"alloc-at") : 0;
      const size_t col = draw(9,"column");
      const Table before = t;
      bool oom = false, threw = false, conv_threw = false, range_threw = false;
      const uint32_t what = draw(17,"op");
      static const char* const names[] = { "for_each_row", "remove_row", "remove_row_if", "remove_token_if", "remove_empty_tokens", "enforce_column_count", "enforce_min_max_column_count",
                                           "sequential_partition", "join_row", "join_column", "extract_column", "extract_column_checked", "accumulate_row", "accumulate_column", "column_width", "range", "row parse" };
      sim::Op op(names[what]);
      const std::pair<size_t,size_t> wd = widths(t);
      // a query for a column that no row has: either answer
      const bool col_ok = !t.empty() && col < wd.second;
      Table seen; std::vector<size_t> idx; std::vector<std::pair<size_t,size_t> > parts; std::string text_out = flip("result-in-use") ? "x:" : ""; const std::string text_was = text_out;
      bool rv = false; size_t n = 0, sum_n = 0; long long sum = 5, sum_want = 5;
      std::vector<std::string> s0, s1, s2, s3, s4; std::vector<int> ints; std::set<std::string> sset; std::multiset<int> ms;
      const uint32_t variant = draw(6,"variant");
      size_t row = draw(uint32_t(rows + 2),"row");
      const uint32_t stop = sim::one_in(3,"stop") ? 1 + draw(3,"stop-at") : 0;
      const size_t cc = draw(6,"column-count"), cmin = draw(4,"min"), cmax = cmin + draw(4,"max");
      static const char* const delims[] = { ",", "", "; ", "--" };
      const std::string delim = delims[draw(4,"delimiter")];
      size_t cols[5]; for (size_t& x : cols) x = variant == 0 ? col : draw(5,"column");
      std::string srow; int ival[3] = { -77, -77, -77 }; std::string sval[3] = { "u", "u", "u" };
      std::vector<size_t> cw; std::vector<std::pair<size_t,size_t> > cwp; size_t cwn = 0;
      {
         sim::AllocWindow aw(af);
         try
         {
            const Visit v = { &seen, &idx }; const Part p = { &parts, stop };
            switch (what)
            {
               case 0 : n = whole ? g.for_each_row(v) : g.for_each_row(rr,v); break;
               case 1 : g.remove_row(row); break;
               case 2 : rv = whole ? g.remove_row_if(RowPred()) : g.remove_row_if(rr,RowPred()); break;
               case 3 : n = whole ? g.remove_token_if(g.all_rows(),TokPred()) : g.remove_token_if(rr,TokPred()); break;
               case 4 : n = whole ? g.remove_empty_tokens() : g.remove_empty_tokens(rr); break;
               case 5 : if (whole) g.enforce_column_count(cc); else g.enforce_column_count(rr,cc); break;
               case 6 : if (whole) g.enforce_min_max_column_count(cmin,cmax); else g.enforce_min_max_column_count(rr,cmin,cmax); break;
               case 7 : rv = whole ? g.sequential_partition(RowPred(),p) : g.sequential_partition(rr,RowPred(),p); break;
               case 8 : rv = variant < 3 ? g.join_row(row,delim,text_out) : variant < 5 ? g.join_row(row,TokPred(),delim,text_out) : g.join_row(row,TokPred(),delim.c_str(),text_out); break;
               case 9 : rv = variant < 3 ? (whole ? g.join_column(col,delim,text_out) : g.join_column(col,rr,delim,text_out))
                                         : (whole ? g.join_column(col,RowPred(),delim,text_out) : g.join_column(col,rr,RowPred(),delim,text_out)); break;
               case 10: switch (variant)
                        {
                           case 0 : rv = whole ? g.extract_column(col,strtk::back_inserter_with_valuetype(s0)) : g.extract_column(rr,col,strtk::back_inserter_with_valuetype(s0)); break;
                           case 1 : rv = g.extract_column(rr,cols[0],cols[1],strtk::back_inserter_with_valuetype(s0),strtk::back_inserter_with_valuetype(s1)); break;
                           case 2 : rv = g.extract_column(rr,cols[0],cols[1],cols[2],strtk::back_inserter_with_valuetype(s0),strtk::back_inserter_with_valuetype(s1),strtk::back_inserter_with_valuetype(s2)); break;
                           case 3 : rv = g.extract_column(rr,cols[0],cols[1],cols[2],cols[3],strtk::back_inserter_with_valuetype(s0),strtk::back_inserter_with_valuetype(s1),strtk::back_inserter_with_valuetype(s2),strtk::back_inserter_with_valuetype(s3)); break;
                           case 4 : rv = g.extract_column(rr,cols[0],cols[1],cols[2],cols[3],cols[4],strtk::back_inserter_with_valuetype(s0),strtk::back_inserter_with_valuetype(s1),strtk::back_inserter_with_valuetype(s2),strtk::back_inserter_with_valuetype(s3),strtk::back_inserter_with_valuetype(s4)); break;
                           default: rv = g.extract_column(rr,col,strtk::back_inserter_with_valuetype(ints)); break;
                        }
                        break;
               case 11: if (variant < 2) rv = whole ? g.extract_column_checked(col,strtk::back_inserter_with_valuetype(ints)) : g.extract_column_checked(rr,col,strtk::back_inserter_with_valuetype(ints));
                        else if (variant < 3) { g.extract_column_checked(col,ints); rv = true; }
                        else if (variant < 4) { g.extract_column_checked(col,sset); rv = true; }
                        else { g.extract_column_checked(col,ms); rv = true; }
                        break;
               case 12: n = g.accumulate_row(row,sum); break;
               case 13: n = variant < 3 ? (whole ? g.accumulate_column(col,sum) : g.accumulate_column(col,rr,sum))
                                        : (whole ? g.accumulate_column(col,RowPred(),sum) : g.accumulate_column(col,rr,RowPred(),sum)); break;
               case 14: if (variant < 3) cwn = whole ? g.column_width(col) : g.column_width(col,rr); else if (variant < 5) g.get_column_widths(cw); else g.get_column_widths(cwp); break;
               default: break;
            }
         }
         catch (const Thrown&) { threw = true; }
         catch (const std::bad_alloc&) { oom = true; sim::NoFault nf; if (!aw.fired()) violate("spurious-bad-alloc","%s threw bad_alloc",names[what]); }
         catch (const std::invalid_argument&) { conv_threw = true; }
         catch (const std::out_of_range&) { range_threw = true; }
      }
      if (threw != c.threw && !oom && !conv_threw) violate("swallowed-exception","%s swallowed an exception of its callback",names[what]);
      if (threw) { sim::fault_fired("callback throws"); sim::mark_nontrivial(); }
      sim::shape(oom ? "oom" : threw ? "threw" : conv_threw ? "conversion" : rv ? "true" : "done");
      logf("%s rows %zu..%zu of %zu -> %s",names[what],lo,hi,rows,oom ? "bad_alloc" : threw ? "callback threw" : rv ? "true" : "done");
      const bool done = !threw && !oom && !conv_threw && !range_threw;
      if ((conv_threw || range_threw) && what != 10) violate("unexpected-exception","%s threw a conversion error",names[what]);
      // ---- what the table does ----
      Table after = before, alt = before; bool mutating = what >= 1 && what <= 6;
      std::vector<std::string> sel;
      const size_t l = lo, h = valid ? hi : lo;       // an invalid range is refused
      switch (what)
      {
         case 0 :
         {
            Table want; for (size_t i = l; i < h; ++i) want.push_back(before[i]);
            if (c.at && c.at <= want.size()) want.resize(c.at - 1);
            if (!oom) { same(seen,want,"visits","for_each_row"); if (done && n != want.size()) violate("visits","for_each_row visited %zu rows and returned %zu",want.size(),n); }
            for (size_t i = 0; i < idx.size(); ++i) if (idx[i] != l + i) violate("visits","visited row %zu claims to be row %zu",l + i,idx[i]);
            break;
         }
         case 1 : if (row < rows) after.erase(after.begin() + row); break;
         case 2 : case 5 : case 6 :
         {
            after.clear(); alt.clear(); uint32_t asked = 0;
            for (size_t i = 0; i < rows; ++i)
            {
               const bool in = i >= l && i < h;
               const bool gone = in && (what == 2 ? c.pick(before[i]) : what == 5 ? before[i].size() != cc : before[i].size() < cmin || before[i].size() > cmax);
               if (in) ++asked;
               if (!gone) after.push_back(before[i]);
               if (!(gone && asked < c.at)) alt.push_back(before[i]);
            }
            if (what == 2 && done && rv != valid) violate("result","remove_row_if over rows %zu..%zu of %zu returned %d",lo,hi,rows,int(rv));
            break;
         }
         case 3 : case 4 :
         {
            after.clear(); alt.clear(); uint32_t asked = 0; size_t count = 0;
            for (size_t i = 0; i < rows; ++i)
            {
               const bool in = i >= l && i < h; Row r1, r2;
               for (const std::string& s : before[i])
               {
                  const bool gone = in && (what == 4 ? s.empty() : c.pick(s));
                  if (in) ++asked;
                  if (gone) ++count; else r1.push_back(s);
                  if (!(gone && asked < c.at)) r2.push_back(s);
               }
               if (!r1.empty()) after.push_back(r1);
               if (!r2.empty()) alt.push_back(r2);
            }
            if (done && n != count) violate("result","%s returned %zu for %zu removed tokens",names[what],n,count);
            break;
         }
         case 7 :
         {
            std::vector<std::pair<size_t,size_t> > want; size_t start = l; bool stopped = false;
            for (size_t i = l; i <= h && !stopped; ++i)
               if (i == h || (i > l && c.pick(before[i])))
               {
                  if (start != i) { want.push_back(std::make_pair(start,i)); stopped = stop && want.size() == stop; }
                  start = i;
               }
            if (done)
            {
               same(parts,want,"partitions","sequential_partition");
               if (rv != (valid && !stopped)) violate("result","sequential_partition returned %d",int(rv));
               if (stopped) { sim::fault_fired("callback stops"); sim::mark_nontrivial(); }
            }
            else
            {
               if (parts.size() > want.size()) violate("partitions","more partitions than there are");
               for (size_t i = 0; i < parts.size(); ++i) if (parts[i] != want[i]) violate("partitions","partition %zu is wrong",i);
            }
            break;
         }
         case 8 : case 9 :
         {
            bool must = what == 8 ? row < rows : valid && col_ok, may = what == 8 ? row < rows : valid && (col_ok || col == wd.second || t.empty());
            if (what == 8) { if (row < rows) for (const std::string& s : before[row]) { if (variant < 3 || c.pick(s)) sel.push_back(s); } }
            else for (size_t i = l; i < h; ++i) if (col < before[i].size() && (variant < 3 || c.pick(before[i]))) sel.push_back(before[i][col]);
            if (done)
            {
               if ((must && !rv) || (rv && !may)) violate("result","%s returned %d",names[what],int(rv));
               const std::string want = text_was + joined(sel,delim);
               if (rv && text_out != want && text_out != want + delim) violate("joined-text","%s: %s",names[what],w::diff(text_out,want).c_str());
               if (!rv) same_text(text_out,text_was,"joined-text","refused join");
            }
            break;
         }
         case 10: case 11:
         {
            const bool full = what == 11 && variant >= 2;   // variants without a range cover the whole grid
            const size_t a = full ? 0 : l, b = full ? rows : h;
            std::vector<std::string> w[5]; std::vector<int> wi; bool stop_conv = false;
            const int nc = what == 10 ? (variant < 5 ? int(variant) + 1 : 1) : 1;
            if (nc == 1) cols[0] = col;
            size_t m = 0; for (int j = 0; j < nc; ++j) m = std::max(m,cols[j]);
            for (size_t i = a; i < b; ++i) if (m < before[i].size())
            {
               for (int j = 0; j < nc; ++j) w[j].push_back(before[i][cols[j]]);
               int x; if (model::integer(before[i][cols[0]],x)) { if (!stop_conv) wi.push_back(x); } else if (what == 10) stop_conv = true;
            }
            const bool ints_op = (what == 10 && variant == 5) || (what == 11 && variant < 3);
            const bool must = valid && m < wd.second && !t.empty(), may = valid && (m <= wd.second || t.empty());
            if (what == 10 && variant == 5 && (valid && (m <= wd.second)) && stop_conv != conv_threw && !oom) violate("conversion","extraction of unconvertible tokens: %s",conv_threw ? "threw without a cause" : "no exception");
            if (what == 10 && variant != 5 && (conv_threw || range_threw)) violate("conversion","extraction of strings threw");
            if (done && !full && ((must && !rv) || (rv && !may))) violate("result","%s of column %zu (of %zu) over rows %zu..%zu of %zu returned %d",names[what],m,wd.second,lo,hi,rows,int(rv));
            if (!oom)
            {
               if (ints_op) same(ints,(valid || full) ? wi : std::vector<int>(),"extracted",names[what]);
               else if (what == 10) { const std::vector<std::string>* got[] = { &s0, &s1, &s2, &s3, &s4 }; for (int j = 0; j < nc; ++j) same(*got[j],valid ? w[j] : std::vector<std::string>(),"extracted",names[what]); }
               else if (variant == 3) same(sset,std::set<std::string>(w[0].begin(),w[0].end()),"extracted",names[what]);
               else same(ms,std::multiset<int>(wi.begin(),wi.end()),"extracted",names[what]);
            }
            break;
         }
         case 12: case 13:
         {
            bool bad = false; sel.clear();
            if (what == 12) { if (row < rows) sel = before[row]; }
            else for (size_t i = l; i < h; ++i) if (col < before[i].size() && (variant < 3 || c.pick(before[i]))) sel.push_back(before[i][col]);
            for (const std::string& s : sel) { long long x; if (!model::integer(s,x)) { bad = true; break; } sum_want += x; ++sum_n; }
            if (done)
            {
               if (n != (bad ? 0 : sum_n)) violate("aggregate","%s counted %zu instead of %zu",names[what],n,bad ? size_t(0) : sum_n);
               if (!bad && sum != sum_want) violate("aggregate","%s summed to %lld instead of %lld",names[what],sum,sum_want);
            }
            break;
         }
         case 14:
         {
            size_t want = 0; for (size_t i = l; i < h; ++i) if (col < before[i].size()) want = std::max(want,before[i][col].size());
            if (done && variant < 3 && cwn != want) violate("column-width","column_width(%zu) is %zu instead of %zu",col,cwn,want);
            if (done && variant >= 3)
            {
               std::vector<size_t> all(t.empty() ? 0 : wd.second);
               for (const Row& r : before) for (size_t j = 0; j < r.size(); ++j) all[j] = std::max(all[j],r[j].size());
               if (variant == 5) for (size_t j = 0; j < cwp.size(); ++j) { if (cwp[j].first != j) violate("column-width","get_column_widths numbers column %zu as %zu",j,cwp[j].first); cw.push_back(cwp[j].second); }
               if (!t.empty()) same(cw,all,"column-width","get_column_widths");
            }
            break;
         }
         case 15:
         {
            const G::row_range_t all = g.all_rows();
            if (all.first != 0 || all.second != rows) violate("range","all_rows is %u..%u of %zu",all.first,all.second,rows);
            const G::row_range_t r = g.range(static_cast<G::index_t>(lo),static_cast<G::index_t>(hi));
            const unsigned mx = unsigned(-1);
            const bool none = r.first == mx && r.second == mx;
            if (valid ? (r.first != lo || r.second != hi) : !none) violate("range","range(%zu,%zu) of %zu rows is %u..%u",lo,hi,rows,r.first,r.second);
            if (lo <= rows) { const G::row_range_t e = g.range(static_cast<G::index_t>(lo)); if (e.first != lo || e.second != rows) violate("range","range(%zu) of %zu rows is %u..%u",lo,rows,e.first,e.second); }
            break;
         }
         default: break;
      }
      if (what == 16 && rows)
      {  // one row, parsed in every way
         if (row >= rows) row = rows - 1;
         const Row& r = before[row]; const size_t cn = r.size();
         size_t a = draw(uint32_t(cn + 2),"first-column"), b = flip("to-last") ? cn : draw(uint32_t(cn + 3),"last-column");
         const bool okr = a <= cn && b <= cn && a <= b;
         std::vector<int> iv; std::vector<std::string> sv; bool all_num = true, bad_seen = false; int x; size_t visits = 0;
         const size_t pn = draw(6,"n");
         Table tv; std::queue<int> q; std::stack<std::string> st; std::priority_queue<int> pq; std::multiset<std::string> mset;
         std::string as; bool ok = false; oom = threw = false;
         const size_t i0 = draw(uint32_t(cn),"c0"), i1 = draw(uint32_t(cn),"c1"), i2 = draw(uint32_t(cn),"c2");
         const uint32_t way = draw(11,"way");
         {
            sim::AllocWindow aw(af);
            try
            {
               const G::row_type rt = g.row(row); const Visit v = { &tv, &idx };
               const G::col_range_t cr = rt.range(static_cast<G::index_t>(a),static_cast<G::index_t>(b));
               switch (way)
               {
                  case 0 : ok = rt.parse(cr,iv); break;
                  case 1 : ok = rt.parse(cr,sv); break;
                  case 2 : ok = rt.parse_with_index(i0,i1,i2,ival[0],sval[1],ival[2]); break;
                  case 3 : if (cn >= 3) ok = rt.parse(sval[0],ival[1],sval[2]); else if (cn == 2) ok = rt.parse(sval[0],ival[1]); else ok = rt.parse(cr,sv); break;
                  case 4 : n = rt.parse_n(pn,iv); break;
                  case 5 : rt.parse_checked(iv); break;
                  case 6 : n = rt.for_each_column(cr,v); break;
                  case 7 : if (variant & 1) as = rt.as_string(); else rt.as_string(as); break;
                  case 8 : ok = rt.parse(mset); break;
                  case 9 : ok = rt.parse(cr,st); break;
                  default: rt.parse_checked(q); break;
               }
            }
            catch (const std::bad_alloc&) { oom = true; sim::NoFault nf; if (!aw.fired()) violate("spurious-bad-alloc","row parse threw bad_alloc"); }
            catch (const Thrown&) { threw = true; }
         }
         if (threw) { sim::fault_fired("callback throws"); sim::mark_nontrivial(); }
         if (threw != c.threw && !oom) violate("swallowed-exception","for_each_column swallowed an exception");
         const Row part = okr ? Row(r.begin() + a,r.begin() + b) : Row();
         std::vector<int> pre; for (const std::string& s : part) { if (!model::integer(s,x)) { all_num = false; bad_seen = true; } else if (!bad_seen) pre.push_back(x); }
         std::vector<int> good; std::vector<int> firstn; size_t fn = 0; bool fbad = false;
         for (const std::string& s : r) { const bool isn = model::integer(s,x); if (isn) good.push_back(x); if (fn < pn && !fbad) { if (isn) { firstn.push_back(x); ++fn; } else fbad = true; } }
         size_t len = 0; std::string cat; for (const std::string& s : r) { len += s.size(); cat += s; }
         const G::row_type rt = g.row(row);
         if (rt.raw_length() != len) violate("row-query","raw_length is %zu instead of %zu",rt.raw_length(),len);
         if (rt.raw_length(i0) != r[i0].size() || rt.is_null(i0) != r[i0].empty()) violate("row-query","raw_length(%zu) or is_null",i0);
         if (rt.get<std::string>(i1) != r[i1]) violate("row-query","get<string>(%zu)",i1);
         if (rt.range().first != rt.token(0).first || rt.range().second != rt.token(cn - 1).second) violate("row-query","range of the row");
         if (rt.all_columns().first != 0 || rt.all_columns().second != cn) violate("row-query","all_columns");
         if (!oom && !threw) switch (way)
         {
            case 0 : if (ok != (okr && all_num)) violate("row-parse","parse of columns %zu..%zu of %zu returned %d",a,b,cn,int(ok)); same(iv,pre,"row-parse","integers of a row"); break;
            case 1 : if (ok != okr) violate("row-parse","parse of columns %zu..%zu of %zu returned %d",a,b,cn,int(ok)); same(sv,part,"row-parse","strings of a row"); break;
            case 2 :
            {
               int e0 = -77, e2 = -77; std::string e1 = "u"; bool eok = model::integer(r[i0],e0); if (eok) { e1 = r[i1]; eok = model::integer(r[i2],e2); }
               if (ok != eok || ival[0] != e0 || sval[1] != e1 || ival[2] != e2) violate("row-parse","parse_with_index(%zu,%zu,%zu) returned %d with %d %s %d",i0,i1,i2,int(ok),ival[0],show(sval[1]).c_str(),ival[2]);
               break;
            }
            case 3 :
               if (cn < 2) break;
               {
                  int e1 = -77; std::string e2 = "u"; bool eok = model::integer(r[1],e1); if (eok && cn >= 3) e2 = r[2];
                  if (ok != eok || sval[0] != r[0] || ival[1] != e1 || sval[2] != e2) violate("row-parse","parse of %zu columns returned %d with %s %d %s",cn,int(ok),show(sval[0]).c_str(),ival[1],show(sval[2]).c_str());
               }
               break;
            case 4 : if (n != (fbad ? 0 : fn)) violate("row-parse","parse_n(%zu) returned %zu instead of %zu",pn,n,fbad ? size_t(0) : fn); same(iv,firstn,"row-parse","parse_n"); break;
            case 5 : same(iv,good,"row-parse","parse_checked"); break;
            case 6 : for (const std::string& s : part) { if (visits >= tv.size() || tv[visits][0] != s) violate("visits","for_each_column missed column %zu",a + visits); ++visits; }
                     if (tv.size() != part.size() || n != part.size()) violate("visits","for_each_column visited %zu columns of %zu and returned %zu",tv.size(),part.size(),n); break;
            case 7 : same_text(as,cat,"row-query","as_string"); break;
            case 8 : if (!ok) violate("row-parse","parse into a multiset failed"); same(mset,std::multiset<std::string>(r.begin(),r.end()),"row-parse","multiset"); break;
            case 9 : { if (ok != okr) violate("row-parse","parse into a stack returned %d",int(ok)); Row back; while (!st.empty()) { back.push_back(st.top()); st.pop(); } std::reverse(back.begin(),back.end()); same(back,part,"row-parse","stack"); break; }
            default: { std::vector<int> out; while (!q.empty()) { out.push_back(q.front()); q.pop(); } same(out,good,"row-parse","queue"); break; }
         }
         if (threw && way == 6) { if (tv.size() != c.at - 1) violate("visits","for_each_column visited %zu columns before the throw at %u",tv.size(),c.at); }
      }
      // ---- the grid afterwards ----
      const Table got = grid::dump(g);
      if (mutating && !done)
      {
         if (got == before) t = before;
         else if (threw && got == alt) t = alt;
         else if (oom && got == after) t = after;
         else grid::compare(got,before,"rows-after-failure",threw ? "after a throwing predicate" : "after a failed allocation");
      }
      else
      {
         t = mutating ? after : before;
         grid::compare(got,t,mutating ? "wrong-rows" : "query-changed-grid",names[what]);
         if (mutating && got != before) sim::mark_nontrivial();
      }
      if (!t.empty())
      {
         const std::pair<size_t,size_t> now = widths(t);
         if (done && (g.min_column_count() != now.first || g.max_column_count() != now.second)) violate("column-counts","%s: columns %zu..%zu instead of %zu..%zu",names[what],g.min_column_count(),g.max_column_count(),now.first,now.second);
      }
   }
   if (!t.empty())
   {  // once the faults are over everything works
      sim::Op op("finally");
      Calls c = { 0, 0, false, 0, 3 }; g_calls = &c;
      Table seen; std::vector<size_t> idx; const Visit v = { &seen, &idx };
      if (g.for_each_row(v) != t.size() || seen != t) violate("no-progress","final walk of the grid");
   }
   gp.reset();
}
