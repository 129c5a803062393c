// token_grid: reference table and generators shared by C14 and C15
#ifndef GRID_HPP
#define GRID_HPP
#include "models.hpp"
namespace grid
{
   using namespace w;
   typedef strtk::token_grid G;
   typedef std::vector<std::vector<std::string> > Table;
   struct Opt
   {
      std::string rd, cd; uint32_t col_mode; bool dq, trim;
      Opt() : rd("\n\r"), cd(",|;\t "), col_mode(1), dq(false), trim(false) {}
      G::options lib(bool by_setters) const
      {
         if (!by_setters) return G::options(strtk::split_options::compress_delimiters,col_mode,rd,cd,dq,trim);
         G::options o; o.set_row_delimiters(rd).set_column_delimiters(cd).set_column_split_option(col_mode).set_row_split_option(1);
         o.support_dquotes = dq; o.trim_dquotes = trim;
         return o;
      }
   };
   inline Opt draw_options()
   {
      static const char* const rds[] = { "\n\r", "\n", ";", "|\n", "#" };
      static const char* const cds[] = { ",", ",|;\t ", "|", ",;", "\t", "\xE4," };
      Opt o;
      o.rd = rds[draw(5,"row-delimiters")]; o.cd = cds[draw(6,"column-delimiters")];
      static const uint32_t modes[] = { 1, 0, 2, 3, 4, 5 };
      o.col_mode = modes[draw(6,"column-mode")];
      o.dq = sim::one_in(3,"dquotes"); o.trim = o.dq && flip("trim");
      return o;
   }
   inline std::vector<std::string> columns(const std::string& row, const Opt& o)
   {
      std::vector<bool> d(row.size()); bool in = false;
      for (size_t i = 0; i < row.size(); ++i)
      {
         if (o.dq && row[i] == '"') { in = !in; d[i] = false; }
         else d[i] = !in && model::is_delim(o.cd,row[i]);
      }
      std::vector<std::string> out; size_t start = 0, i = 0; const size_t n = row.size();
      const bool compress = o.col_mode & 1, first = o.col_mode & 2, all = !first && (o.col_mode & 4);
      while (i < n)
      {
         if (!d[i]) { ++i; continue; }
         if (first) { ++i; out.push_back(row.substr(start,i - start)); if (compress) while (i < n && d[i]) ++i; }
         else if (all) { while (i < n && d[i]) ++i; out.push_back(row.substr(start,i - start)); }
         else { out.push_back(row.substr(start,i - start)); ++i; if (compress) while (i < n && d[i]) ++i; }
         start = i;
      }
      if (start < n || d[n - 1]) out.push_back(row.substr(start));
      if (o.dq && o.trim) for (std::string& t : out) if (t.size() > 1 && t[0] == '"' && t[t.size() - 1] == '"') t = t.substr(1,t.size() - 2);
      return out;
   }
   inline Table table(const std::string& text, const Opt& o)
   {
      Table t; std::string cur;
      for (size_t i = 0; i <= text.size(); ++i)
         if (i == text.size() || model::is_delim(o.rd,text[i])) { if (!cur.empty()) t.push_back(columns(cur,o)); cur.clear(); }
         else cur += text[i];
      return t;
   }
   // text whose rows have balanced quotes if quotes matter (a quote left open has no defined end)
   inline std::string draw_text(const Opt& o, uint32_t avg_rows, bool numeric, bool balanced = true)
   {
      std::string text;
      for (uint32_t r = 0; r < 60 && more(avg_rows,"another-row"); ++r)
      {
         std::string row;
         const uint32_t cols = draw(7,"columns");
         for (uint32_t c = 0; c < cols; ++c)
         {
            if (c) { row += o.cd[draw(uint32_t(o.cd.size()),"which-delimiter")]; if (sim::one_in(6,"double-delimiter")) row += o.cd[draw(uint32_t(o.cd.size()),"which-delimiter")]; }
            switch (draw(7,"token"))
            {
               case 0 : break;
               case 1 : case 2 : row += std::to_string(int(draw(2000,"number")) - 1000); break;
               case 3 : row += numeric ? std::to_string(draw(100,"number")) : sim::bytes(sim::size_upto(30,"token-size"),"token-bytes"); break;
               case 4 : if (o.dq) { std::string q = "\"" + std::string(draw(4,"quoted"),'q'); if (flip("delimiter-inside")) q += o.cd[draw(uint32_t(o.cd.size()),"which-delimiter")]; row += q + (flip("more-inside") ? "in\"" : "\""); break; }  // fall through
               default: row += std::string(1 + draw(5,"word"),char('a' + draw(26,"letter"))); break;
            }
         }
         if (o.dq && balanced && std::count(row.begin(),row.end(),'"') % 2) row += '"';
         if (o.dq && balanced)
         {  // raw bytes may have brought row delimiters into the row
            std::string clean; for (char ch : row) if (!model::is_delim(o.rd,ch)) clean += ch;
            row = clean;
            if (std::count(row.begin(),row.end(),'"') % 2) row += '"';
         }
         text += row;
         if (!sim::one_in(12,"last-row-open")) text += o.rd[draw(uint32_t(o.rd.size()),"which-row-delimiter")];
      }
      if (o.dq && balanced)
      {  // rows glued together stay balanced; nothing to do
      }
      return text;
   }
   inline std::string str(const G::range_t& r) { return std::string(r.first,r.second); }
   inline Table dump(const G& g)
   {
      sim::NoFault nf;
      Table t(g.row_count());
      for (size_t i = 0; i < t.size(); ++i)
      {
         const G::row_type row = g.row(i);
         if (row.index() != i) violate("row-query","row(%zu).index() is %zu",i,row.index());
         if (row.size() > 100000) violate("row-query","row %zu claims %zu columns",i,row.size());
         for (size_t j = 0; j < row.size(); ++j)
         {
            const G::range_t a = g.token(i,j), b = row.token(j);
            if (a != b) violate("row-query","token(%zu,%zu) and row(%zu).token(%zu) are different places",i,j,i,j);
            if (a.second < a.first) violate("row-query","token(%zu,%zu) ends before it begins",i,j);
            t[i].push_back(str(a));
         }
      }
      return t;
   }
   inline std::string show(const Table& t)
   {
      std::string s; size_t n = 0;
      for (const auto& r : t) { s += "["; for (size_t j = 0; j < r.size(); ++j) s += (j ? " " : "") + sim::show(r[j],20); s += "]"; if (++n > 6) { s += "..."; break; } }
      return s;
   }
   inline void compare(const Table& got, const Table& want, const char* cls, const char* when)
   {
      if (got == want) return;
      sim::NoFault nf;
      size_t i = 0; while (i < got.size() && i < want.size() && got[i] == want[i]) ++i;
      Table g1, w1; if (i < got.size()) g1.push_back(got[i]); if (i < want.size()) w1.push_back(want[i]);
      violate(cls,"%s: %zu rows instead of %zu, first difference in row %zu: %s instead of %s",when,got.size(),want.size(),i,show(g1).c_str(),show(w1).c_str());
   }
}
#endif
