// C09: binary writer -> disk -> reader round trip.
#include "binary_items.hpp"
using namespace w;
PROPERTY("C09","one run: a history of typed writes (54 kinds of scalars, strings, containers, nested objects, arrays, ranges, padded and byte-ordered values) into an exactly fitting or larger "
               "buffer with marks, stored to a simulated disk and loaded into a fresh reader, with write errors, full disks, failing closes, kills, truncation, read errors, short and "
               "interrupted transfers, failing allocations while reading; non-trivial: a fault fired or a container was involved; distinct: different sequence of operations, faults and outcomes");
void sim_run()
{
   fs::profile(fs::draw_profile((fs::rd_faults | fs::wr_faults | fs::kill) & ~fs::seek_fail));
   const std::string F = "/sim/image";
   for (int k = 0; k < 3 && (k == 0 || more(2,"more-images")); ++k)
   {
      typedef std::unique_ptr<items::Item> ItemPtr;
      std::vector<ItemPtr> it; std::vector<size_t> size; size_t total = 0;
      for (int i = 0; i < 40 && (i == 0 || more(7,"more-items")); ++i)
      {
         it.emplace_back(items::draw_item()); size.push_back(items::encoded_size(*it.back())); total += size.back();
         if (total > 300000) break;
      }
      const size_t cap = total + (flip("exact") ? 0 : draw(100,"spare"));
      std::unique_ptr<char[]> buf(new char[cap ? cap : 1]);
      items::Writer wr(buf.get(),cap);
      {
         sim::Op op("write");
         size_t at = 0;
         for (size_t i = 0; i < it.size(); ++i)
         {
            sim::shape(it[i]->name);
            if (sim::one_in(6,"scrap") )
            {  // write something, take it back by a mark
               wr.mark(); const size_t j = draw(uint32_t(it.size()),"scrap-item");
               it[j]->write(wr);
               if (!wr.reset_to_mark() || wr.amount_written() != at) violate("mark","reset to the mark at %zu left the writer at %zu",at,wr.amount_written());
            }
            if (!it[i]->write(wr)) violate("write-refused","item %zu (%s, %zu bytes) refused with %zu of %zu bytes free",i,it[i]->name,size[i],cap - at,cap);
            if (wr.amount_written() != at + size[i]) violate("wrong-amount","item %zu (%s) moved the writer by %zu, %zu expected",i,it[i]->name,wr.amount_written() - at,size[i]);
            const std::string f = it[i]->form();
            if (!f.empty() && std::string(buf.get() + at,size[i]) != f) violate("wrong-form","item %zu (%s) stored as %s, its form is %s",i,it[i]->name,show(std::string(buf.get() + at,size[i])).c_str(),show(f).c_str());
            at += size[i];
         }
         logf("%zu items, %zu bytes",it.size(),total);
      }
      const std::string image(buf.get(),total);
      bool stored = false;
      {
         sim::Op op("store");
         size_t r; bool failed, opened;
         {
            fs::Window win;
            std::ofstream s(F.c_str(),std::ios::binary); opened = bool(s);
            r = wr(s); failed = s.fail(); s.close(); stored = opened && !s.fail() && r == total;
         }
         logf("store -> %zu of %zu, stream %s, file %zu bytes",r,total,failed ? "failed" : "ok",fs::get(F).size());
         sim::shape(stored ? "stored" : "store-failed");
         if (fs::killed()) { fs::restart(); stored = false; }
         else
         {
            if (failed && r == total && total) violate("store-lies","storing reports all %zu bytes although the stream failed",total);
            if (!failed && r != total) violate("store-lies","storing reports %zu of %zu bytes although the stream took them",r,total);
            if (stored && fs::get(F) != image) violate("store-lies","stored image: %s",diff(fs::get(F),image).c_str());
            if (!fs::hard_fired() && !stored) violate("failure-without-cause","storing failed on a healthy disk");
            no_open_files("store");
         }
      }
      if (!stored) { if (flip("use-anyway")) { if (!fs::exists(F)) fs::put(F,""); } else fs::put(F,image); }
      if (sim::one_in(4,"cut") && total) { std::string t = fs::get(F); t.resize(draw(uint32_t(t.size()) + 1,"cut-at")); fs::put(F,t); sim::probe("image cut"); sim::mark_nontrivial(); }
      const std::string disk = fs::get(F);
      std::unique_ptr<char[]> back(new char[cap ? cap : 1]); memset(back.get(),0x11,cap ? cap : 1);
      items::Reader rd(back.get(),cap);
      bool ok = false;
      {
         sim::Op op("load");
         { fs::Window win; std::ifstream s(F.c_str(),std::ios::binary); ok = rd(s,total); }
         logf("load -> %d",int(ok)); sim::shape(ok ? "loaded" : "load-failed");
         const bool complete = disk.size() >= total && disk.compare(0,total,image) == 0;
         if (ok && std::string(back.get(),total) != disk.substr(0,total)) violate("load-lies","loading reports success: %s",diff(std::string(back.get(),total),disk.substr(0,total)).c_str());
         if (!ok && !fs::hard_fired() && disk.size() >= total) violate("failure-without-cause","loading failed on a healthy disk");
         if (fs::killed()) { fs::restart(); ok = false; }
         no_open_files("load");
         if (!complete) ok = false;
      }
      if (!ok) memcpy(back.get(),image.data(),total);
      // read back, with marks and rewinds
      sim::Op op("read");
      size_t at = 0;
      for (size_t i = 0; i < it.size(); ++i)
      {
         const bool twice = sim::one_in(5,"twice");
         if (twice) rd.mark();
         const uint32_t af = sim::one_in(12,"alloc?") ? sim::draw_alloc_fault(20,"alloc-at") : 0;
         bool r = false, oom = false, fired;
         { sim::AllocWindow aw(af); try { r = it[i]->read(rd); } catch (const std::bad_alloc&) { oom = true; } fired = aw.fired(); }
         if (oom && !fired) violate("spurious-bad-alloc","bad_alloc without an allocation failure");
         if (fired) { rd.reset(); if (at && !rd.seek(int(at))) violate("seek","seek to %zu refused",at); if (twice) { rd.mark(); } r = it[i]->read(rd); }
         if (!r) violate("read-refused","item %zu (%s) of %zu bytes at %zu cannot be read back",i,it[i]->name,size[i],at);
         if (!it[i]->equal()) violate("wrong-value","item %zu (%s) reads back different from what was written",i,it[i]->name);
         if (rd.amount_read() != at + size[i]) violate("wrong-amount","item %zu (%s) moved the reader by %zu, %zu expected",i,it[i]->name,rd.amount_read() - at,size[i]);
         if (twice)
         {
            if (flip("by-rewind")) { rd.reset_to_mark(); rd.seek(int(size[i])); if (!rd.rewind(size[i])) violate("seek","rewind refused"); }
            else if (!rd.reset_to_mark()) violate("mark","mark lost");
            if (rd.position() != at) violate("mark","reset to the mark at %zu left the reader at %zu",at,rd.position());
            if (!it[i]->read(rd) || !it[i]->equal()) violate("wrong-value","item %zu (%s) cannot be read a second time",i,it[i]->name);
         }
         at += size[i];
      }
      // reload as many bytes as have been read
      if (flip("reload"))
      {
         const bool cut = flip("cut-reload") && total;
         fs::put(F,cut ? image.substr(0,draw(uint32_t(total),"cut-at")) : image);
         sim::Op op2("reload");
         memset(back.get(),0x22,cap ? cap : 1);
         bool r;
         { fs::Window win; std::ifstream s(F.c_str(),std::ios::binary); r = rd(s); }
         logf("reload -> %d",int(r));
         if (fs::killed()) { fs::restart(); continue; }
         if (r && (cut || std::string(back.get(),total) != image)) violate("load-lies","reloading %zu bytes from a file of %zu reports success: %s",total,fs::get(F).size(),diff(std::string(back.get(),total),image).c_str());
         if (!r && total && !cut && !fs::hard_fired()) violate("failure-without-cause","reloading failed on a healthy disk");
         if (r) { rd.reset(); if (!it[0]->read(rd) || !it[0]->equal()) violate("wrong-value","after reloading, the first item reads back different"); }
      }
   }
}
