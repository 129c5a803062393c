// C10: binary reader on damaged images.
#include "binary_items.hpp"
using namespace w;
PROPERTY("C10","one run: a real image truncated, bit-flipped, length-corrupted, torn in blocks or replaced by noise (partly by a faulty disk while storing or loading), then a random history of "
               "typed reads, seeks, rewinds and marks on it, with failing allocations, inside a buffer of exactly the image's size; "
               "non-trivial: at least one read failed; distinct: different sequence of operations, damage and outcomes");
namespace {
typedef std::unique_ptr<items::Item> ItemPtr;
struct Result { bool ok; size_t pos; };
}
void sim_run()
{
   for (int k = 0; k < 3 && (k == 0 || more(2,"more-images")); ++k)
   {
      std::vector<ItemPtr> it; std::vector<size_t> start; std::string image;
      for (int i = 0; i < 20 && (i == 0 || more(5,"more-items")); ++i)
      {
         it.emplace_back(items::draw_item());
         static std::vector<char> big(1 << 20);
         items::Writer wr(big.data(),big.size());
         if (!it.back()->write(wr)) violate("write-refused","item does not fit a megabyte");
         start.push_back(image.size());
         image.append(big.data(),wr.amount_written());
         if (image.size() > 60000) break;
      }
      start.push_back(image.size());
      std::string bad = image;
      std::vector<std::pair<size_t,size_t> > hit;                 // damaged ranges
      for (int d = 0; d < 6 && (d == 0 || more(2,"more-damage")); ++d)
      {
         if (bad.empty()) break;
         const uint32_t kind = draw(6,"damage");
         const size_t at = draw(uint32_t(bad.size()),"at");
         switch (kind)
         {
            case 0 : bad.resize(at); sim::fault_fired("image truncated"); break;
            case 1 : bad[at] = char(bad[at] ^ (1 << draw(8,"bit"))); hit.push_back(std::make_pair(at,at + 1)); sim::fault_fired("image bit flipped"); break;
            case 2 :
            {  // a length field of an item (every container starts with one)
               const size_t p = start[draw(uint32_t(it.size()),"field")]; if (p + 4 > bad.size()) break;
               static const uint32_t vals[] = { 0xffffffffu, 0x7fffffffu, 0x80000000u, 0x40000000u, 0x20000001u, 0x10000000u, 0 };
               uint32_t v; const uint32_t c = draw(9,"length");
               if (c < 7) v = vals[c]; else { memcpy(&v,&bad[p],4); v += c == 7 ? 1 : uint32_t(-1); }
               memcpy(&bad[p],&v,4); hit.push_back(std::make_pair(p,p + 4)); sim::fault_fired("image length field corrupted"); break;
            }
            case 3 :
            {  // a block that was never written
               const size_t n = std::min<size_t>(bad.size() - at,1 + sim::size_upto(512,"block"));
               for (size_t j = 0; j < n; ++j) bad[at + j] = 0; hit.push_back(std::make_pair(at,at + n)); sim::fault_fired("image block lost"); break;
            }
            case 4 :
            {
               const std::string n = sim::bytes(1 + draw(40,"noise-len"),"noise");
               for (size_t j = 0; j < n.size() && at + j < bad.size(); ++j) bad[at + j] = n[j];
               hit.push_back(std::make_pair(at,at + n.size())); sim::fault_fired("image overwritten with noise"); break;
            }
            default:
            {
               const uint32_t v = uint32_t(sim::u64("value")); const size_t n = std::min<size_t>(4,bad.size() - at);
               memcpy(&bad[at],&v,n); hit.push_back(std::make_pair(at,at + n)); sim::fault_fired("image word overwritten");
            }
         }
      }
      // the image in a buffer of exactly its size, at any alignment the allocator gives
      const size_t n = bad.size();
      char* const raw = static_cast<char*>(malloc(n));
      memcpy(raw,bad.data(),n);
      items::Reader rd(raw,n);
      {
         sim::Op op("intact prefix");
         // items before the first damage read back as written
         size_t at = 0;
         for (size_t i = 0; i < it.size(); ++i)
         {
            if (start[i + 1] > n) break;
            bool clean = true;
            for (size_t j = 0; j < hit.size(); ++j) clean = clean && !(hit[j].first < start[i + 1] && start[i] < hit[j].second);
            // a truncation inside a later damage does not matter: the bytes are compared
            if (!clean && memcmp(raw + start[i],image.data() + start[i],start[i + 1] - start[i]) != 0) continue;
            rd.reset(); if (start[i] && !rd.seek(int(start[i]))) violate("seek","seek to %zu of %zu refused",start[i],n);
            if (!it[i]->read(rd)) violate("read-refused","undamaged item %zu (%s) at %zu..%zu of %zu cannot be read",i,it[i]->name,start[i],start[i + 1],n);
            if (!it[i]->equal()) violate("wrong-value","undamaged item %zu (%s) reads back different",i,it[i]->name);
            ++at;
         }
         logf("%zu of %zu items undamaged",at,it.size());
      }
      // a random history of typed reads, performed twice
      sim::Op op("random reads");
      struct Step { int kind; int arg; items::Item* item; uint32_t af; };
      std::vector<Step> steps; std::vector<ItemPtr> extra;
      for (int i = 0; i < 60 && more(14,"more-steps"); ++i)
      {
         Step s; s.kind = int(draw(8,"step")); s.arg = 0; s.item = nullptr; s.af = 0;
         if (s.kind < 4)
         {
            if (s.kind < 2 || it.empty()) s.item = it[draw(uint32_t(it.size()),"as")].get();
            else { extra.emplace_back(items::draw_item()); s.item = extra.back().get(); }
            if (sim::one_in(10,"alloc?")) s.af = sim::draw_alloc_fault(20,"alloc-at");
         }
         else if (s.kind == 4) s.arg = flip("small") ? int(draw(40,"seek")) - 20 : int(draw(uint32_t(n) * 2 + 2,"seek")) - int(n);
         else if (s.kind == 5) s.arg = int(flip("small") ? draw(20,"rewind") : draw(uint32_t(n) + 2,"rewind"));
         else if (s.kind == 6 && !start.empty()) s.arg = int(start[draw(uint32_t(start.size()),"boundary")]);
         steps.push_back(s);
      }
      std::vector<Result> first;
      for (int pass = 0; pass < 2; ++pass)
      {
         rd.reset();
         std::vector<size_t> marks;
         size_t pos = 0;
         for (size_t i = 0; i < steps.size(); ++i)
         {
            const Step& s = steps[i];
            Result r = { false, 0 };
            if (s.item)
            {
               bool oom = false, fired; uint64_t largest;
               { sim::AllocWindow aw(s.af); try { r.ok = s.item->read(rd); } catch (const std::bad_alloc&) { oom = true; } fired = aw.fired(); largest = aw.largest(); }
               if (s.af) r.ok = false;
               if (oom && !fired) violate("unbounded-allocation","reading %s at %zu of %zu asked for more memory than exists",s.item->name,pos,n);
               if (largest > 4096 + 512 * uint64_t(n) + (strstr(s.item->name,"short string") ? 140000 : 0)) violate("unbounded-allocation","reading %s at %zu of an image of %zu bytes allocated %llu bytes",s.item->name,pos,n,(unsigned long long)largest);
               if (pass == 0) { sim::shape(s.item->name); sim::shape(r.ok ? "y" : "n"); if (!r.ok) sim::mark_nontrivial(); sim::probe(r.ok ? "read accepted" : "read refused"); }
               if (r.ok)
               {
                  if (rd.position() < pos) violate("position","a successful read moved the position from %zu back to %zu",pos,rd.position());
                  // a value is built from the bytes it consumed: writing it again gives these bytes, for plain values
                  if (rd.position() > n) violate("position","position %zu after a read, image has %zu bytes",rd.position(),n);
               }
               if (s.af) { rd.reset(); if (pos && !rd.seek(int(pos))) violate("seek","seek refused after bad_alloc"); r.ok = false; }
            }
            else if (s.kind == 4)
            {
               r.ok = rd.seek(s.arg);
               const bool want = s.arg < 0 ? size_t(-(long)s.arg) <= pos : pos + size_t(s.arg) <= n;
               if (r.ok != want || rd.position() != (want ? pos + s.arg : pos)) violate("seek","seek by %d at %zu of %zu gives %d and position %zu",s.arg,pos,n,int(r.ok),rd.position());
            }
            else if (s.kind == 5)
            {
               r.ok = rd.rewind(size_t(s.arg));
               const bool want = size_t(s.arg) <= pos;
               if (r.ok != want || rd.position() != (want ? pos - s.arg : pos)) violate("seek","rewind by %d at %zu gives %d and position %zu",s.arg,pos,int(r.ok),rd.position());
            }
            else if (s.kind == 6)
            {
               rd.reset(); r.ok = rd.seek(s.arg);
               if (r.ok != (size_t(s.arg) <= n)) violate("seek","seek to %d of %zu gives %d",s.arg,n,int(r.ok));
            }
            else if (!marks.empty() && (i & 1))
            {
               r.ok = rd.reset_to_mark();
               if (!r.ok || rd.position() != marks.back()) violate("mark","reset to the mark at %zu gives %d and position %zu",marks.back(),int(r.ok),rd.position());
               marks.pop_back();
            }
            else { rd.mark(); marks.push_back(pos); r.ok = true; }
            r.pos = rd.position();
            if (r.pos > n) violate("position","position %zu beyond the image of %zu bytes",r.pos,n);
            if (rd.position_ptr() != raw + r.pos) violate("position","the position says %zu, the pointer %ld",r.pos,long(rd.position_ptr() - raw));
            if (rd.amount_read() != r.pos) violate("position","amount read %zu, position %zu",rd.amount_read(),r.pos);
            if (pass == 0) first.push_back(r);
            else if (first[i].ok != r.ok || first[i].pos != r.pos) violate("unrepeatable","step %zu gave %d at %zu, repeated it gives %d at %zu",i,int(first[i].ok),first[i].pos,int(r.ok),r.pos);
            pos = r.pos;
         }
         if (memcmp(raw,bad.data(),n) != 0) violate("image-changed","reading changed the image");
         while (!marks.empty()) { rd.reset_to_mark(); marks.pop_back(); }
         if (rd.reset_to_mark()) violate("mark","a mark appeared from nowhere");
      }
      // repair the image: everything reads back
      if (n == image.size())
      {
         memcpy(raw,image.data(),n); rd.reset();
         for (size_t i = 0; i < it.size(); ++i)
            if (!it[i]->read(rd) || !it[i]->equal()) violate("not-usable","after failed reads, a reset and a repaired image item %zu (%s) does not read back",i,it[i]->name);
      }
      free(raw);
   }
}
