// C11: binary writer with any capacity.
#include "binary_items.hpp"
using namespace w;
PROPERTY("C11","one run: a writer over a buffer of drawn capacity (often exactly full or one byte short; the buffer is the device that fills up) and a history of typed, padded, ranged and "
               "byte-ordered writes, resets, clears and marks, interleaved with refused writes and failing allocations; "
               "non-trivial: a write was refused; distinct: different sequence of operations, refusals and outcomes");
void sim_run()
{
   for (int k = 0; k < 3 && (k == 0 || more(2,"more-buffers")); ++k)
   {
      typedef std::unique_ptr<items::Item> ItemPtr;
      std::vector<ItemPtr> it; std::vector<size_t> size; size_t total = 0;
      for (int i = 0; i < 24 && (i == 0 || more(6,"more-items")); ++i) { it.emplace_back(items::draw_item()); size.push_back(items::encoded_size(*it.back())); total += size.back(); }
      size_t cap;
      switch (draw(4,"capacity"))
      {
         case 0 : { size_t part = 0; for (uint32_t n = 1 + draw(uint32_t(it.size()),"exact-after"), i = 0; i < n; ++i) part += size[i]; cap = part; break; }
         case 1 : { size_t part = 0; for (uint32_t n = 1 + draw(uint32_t(it.size()),"short-after"), i = 0; i < n; ++i) part += size[i]; const size_t s = 1 + draw(9,"short"); cap = part > s ? part - s : 0; break; }
         case 2 : cap = draw(uint32_t(total) + 8,"any"); break;
         default: cap = draw(16,"tiny");
      }
      char* const raw = static_cast<char*>(malloc(cap));
      const char junk = char(0xC3); if (cap) memset(raw,junk,cap);
      items::Writer wr(raw,cap);
      sim::Op op("writes");
      struct Kept { size_t at; size_t i; };
      std::vector<Kept> kept;                  // successful writes still in the buffer
      std::vector<std::pair<size_t,size_t> > marks; // position, kept count
      size_t pos = 0; std::string shadow(raw,cap);
      for (int j = 0; j < 60 && more(14,"more-writes"); ++j)
      {
         const uint32_t what = draw(10,"step");
         if (what < 7)
         {
            const size_t i = j < int(it.size()) && what < 5 ? size_t(j) : draw(uint32_t(it.size()),"item");
            const uint32_t af = sim::one_in(14,"alloc?") ? sim::draw_alloc_fault(6,"alloc-at") : 0;
            bool r = false, oom = false, fired;
            { sim::AllocWindow aw(af); try { r = it[i]->write(wr); } catch (const std::bad_alloc&) { oom = true; } fired = aw.fired(); }
            if (oom && !fired) violate("spurious-bad-alloc","bad_alloc without an allocation failure");
            const size_t now = wr.amount_written();
            sim::shape(it[i]->name); sim::shape(r ? "y" : "n");
            logf("write %s (%zu bytes) at %zu of %zu -> %d",it[i]->name,size[i],pos,cap,int(r));
            if (!r) { sim::mark_nontrivial(); if (!oom) sim::fault_fired("write refused: buffer full"); }
            if (now > cap) violate("position","amount written %zu exceeds the capacity %zu",now,cap);
            if (now < pos) violate("position","a write moved the position from %zu back to %zu",pos,now);
            if (r && now != pos + size[i]) violate("incomplete-write","%s of %zu bytes reported as written, the position moved by %zu",it[i]->name,size[i],now - pos);
            if (!r && !fired && pos + size[i] <= cap) violate("write-refused","%s of %zu bytes refused with %zu bytes free",it[i]->name,size[i],cap - pos);
            if (r && pos + size[i] > cap) violate("incomplete-write","%s of %zu bytes reported as written into %zu bytes",it[i]->name,size[i],cap - pos);
            // nothing before the write changed, nothing behind the new position
            if (shadow.compare(0,pos,raw,pos) != 0) violate("earlier-data-changed","writing %s at %zu changed earlier bytes",it[i]->name,pos);
            if (memcmp(raw + now,shadow.data() + now,cap - now) != 0) violate("bytes-beyond-changed","writing %s changed bytes behind the position %zu",it[i]->name,now);
            if (r) { Kept kp = { pos, i }; kept.push_back(kp); }
            pos = now;
         }
         else if (what == 7)
         {
            if (flip("mark") || marks.empty()) { wr.mark(); marks.push_back(std::make_pair(pos,kept.size())); }
            else
            {
               const bool r = wr.reset_to_mark();
               if (!r || wr.amount_written() != marks.back().first) violate("mark","reset to the mark at %zu gives %d and position %zu",marks.back().first,int(r),wr.amount_written());
               pos = marks.back().first;
               while (!kept.empty() && kept.back().at + size[kept.back().i] > pos) kept.pop_back();
               marks.pop_back();
            }
         }
         else if (sim::one_in(4,"restart"))
         {
            const uint32_t m = draw(3,"restart-mode");
            if (m == 0) wr.reset(); else if (m == 1) wr.reset(true); else wr.clear();
            if (wr.amount_written() != 0) violate("position","%zu bytes written after a reset",wr.amount_written());
            for (size_t b = 0; b < cap; ++b) if (raw[b] != (m ? 0 : shadow[b])) violate(m ? "not-cleared" : "earlier-data-changed","byte %zu of %zu after reset mode %u",b,cap,m);
            pos = 0; kept.clear(); marks.clear(); while (wr.reset_to_mark()) wr.reset();
            wr.reset();
         }
         else if (draw(2,"flaky") == 1) { /* nothing */ }
         if (wr.position() != pos || wr.position_ptr() != raw + pos) violate("position","position %zu, pointer %ld, expected %zu",wr.position(),long(wr.position_ptr() - raw),pos);
         if ((!wr) != (cap == 0)) violate("position","operator! is %d for a capacity of %zu",int(!wr),cap);
         shadow.assign(raw,cap);
         // now and then: everything kept reads back from its place
         if (sim::one_in(5,"verify"))
            for (size_t q = 0; q < kept.size(); ++q)
            {
               items::Reader rd(raw,cap);
               if (kept[q].at && !rd.seek(int(kept[q].at))) violate("seek","seek refused");
               if (!it[kept[q].i]->read(rd) || !it[kept[q].i]->equal()) violate("earlier-data-changed","%s written successfully at %zu does not read back",it[kept[q].i]->name,kept[q].at);
            }
      }
      for (size_t q = 0; q < kept.size(); ++q)
      {
         items::Reader rd(raw,cap);
         if (kept[q].at && !rd.seek(int(kept[q].at))) violate("seek","seek refused");
         if (!it[kept[q].i]->read(rd) || !it[kept[q].i]->equal()) violate("earlier-data-changed","%s written successfully at %zu does not read back",it[kept[q].i]->name,kept[q].at);
      }
      free(raw);
   }
}
