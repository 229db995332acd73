// C13: the shared-memory byte ring between one writer and one reader, each of which may die and be replaced.
#include "common.h"
#include "CBufferQueue.h"
using namespace lce;
namespace {
struct Rec { size_t len; int state; /*1 being pushed, 2 stored, 3 taken, 4 refused, 5 writer died inside*/ };
struct World {
  char *mem; size_t size, B; std::vector<Rec> recs; uint32_t next; /*first record not yet taken*/ int unsure; /*readers that died inside a pop since the last delivery*/
  bool writer_done; size_t taking; int todo; bool writer_in, reader_in; uint64_t deaths_w, deaths_r; int two, mode; size_t maxlen;
} *w;
char byte_at(uint32_t id, size_t i) { return (char)(id * 37 + i * 11 + (i >> 8) + 1); }
std::string make(uint32_t id, size_t n) { std::string s(n, 0); for (size_t i = 0; i < n; i++) s[i] = byte_at(id, i); return s; }
size_t used(bool upper) { size_t u = 0; for (auto &r : w->recs) if (r.state == 2 || (upper && (r.state == 1 || r.state == 5))) u += r.len + 8; return u; }
void attach(CBufferQueue &q) {
  bool bad = sim::chance(W, 1, 4), threw = false; char *m = w->mem; size_t n = w->size;
  if (bad) { size_t n2 = n; while (n2 == n || n2 > n) n2 = sim::chance(W, 1, 2) ? n - 1 - sim::draw(W, 8) : 1 + sim::draw(W, n); { sim::User u; CBufferQueue p; try { p.attach(m, n2); } catch (std::runtime_error &e) { threw = true; } } if (!threw) sim::violate("attach-wrong-size", "attaching with size %zu to a queue of size %zu was accepted", n2, n); }
  std::string err; { sim::User u; try { q.attach(m, n); } catch (std::runtime_error &e) { sim::Kern k; err = e.what(); } }
  if (!err.empty()) sim::violate("attach-failed", "attaching to the existing queue failed: %s", err.c_str());
}
void writer() {
  CBufferQueue *q; { sim::User u; q = new CBufferQueue; } attach(*q);
  while (w->todo > 0) {
    w->todo--; uint32_t id = w->recs.size(); size_t len = sim::pick(W, {5, 2, 1}); len = len == 0 ? 1 + sim::draw(W, std::min<size_t>(w->B, 24)) : len == 1 ? 1 + sim::draw(W, w->B) : w->B - std::min<size_t>(w->B - 1, 8 + sim::draw(W, 20));
    if (w->maxlen && len > w->maxlen) len = 1 + len % w->maxlen;
    if (sim::chance(W, 1, 20)) { std::string none; UR(q->push(none.data(), 0)); continue; }
    // the record is in the table before it can become visible
    w->recs.push_back(Rec{len, 1}); w->recs[id].state = 0; size_t up = used(true), lo; w->recs[id].state = 1;
    std::string d = make(id, len); bool threw = false; bool two = w->two == 1 || (w->two == 2 && sim::chance(W, 1, 2)); size_t cut = sim::draw(W, len + 1);
    bool asked = sim::chance(W, 1, 5), full = false;
    if (asked) UR(full = q->full(len));
    size_t up2 = up; // only the reader changes the fill level meanwhile, downwards
    if (asked && full && up2 + len + 16 <= w->B) sim::violate("full-untrue", "full(%zu) with at most %zu of %zu bytes in use", len, up2, w->B);
    w->writer_in = true;
    { sim::User u; char *a = new char[two ? cut + 1 : len], *b = two ? new char[len - cut + 1] : nullptr;
      if (two) { memcpy(a, d.data(), cut); memcpy(b, d.data() + cut, len - cut); } else memcpy(a, d.data(), len);
      try { if (two) q->push(a, (unsigned)cut, b, (unsigned)(len - cut)); else q->push(a, len); } catch (std::runtime_error &e) { threw = true; }
      delete[] a; delete[] b; }
    w->writer_in = false; lo = 0; (void)lo; sim::op_done();
    if (threw) {
      sim::probe("full");
      if (w->recs[id].state == 3) sim::violate("refused-delivered", "record %u was refused and yet delivered", id);
      w->recs[id].state = 4;
      if (up + len + 16 <= w->B) sim::violate("refused-early", "a record of %zu bytes was refused with at most %zu of %zu bytes in use", len, up, w->B);
      sim::sleep_for(sim::draw(W, 60) * US); if (sim::chance(W, 1, 2)) w->todo = w->todo;
    } else {
      if (asked && !full) ; 
      if (w->recs[id].state == 1) w->recs[id].state = 2;
      if (len + 8 > w->B) sim::violate("overfull", "a record of %zu bytes was accepted into a queue of %zu", len, w->B);
    }
    if (w->mode == 1 && sim::chance(W, 1, 3)) sim::sleep_for(sim::draw(W, 100) * US);
  }
  w->writer_done = true;
}
// the record that must come next; 0 if none is certain
uint32_t first_stored() { for (uint32_t i = w->next; i < w->recs.size(); i++) if (w->recs[i].state == 2) return i; return 0; }
void took(uint32_t id, bool dropped) {
  // each reader that died may have taken one record with it (stored, or one its writer died on)
  for (uint32_t i = w->next; i < id; i++) { Rec &r = w->recs[i]; if (r.state == 2) { if (w->unsure-- <= 0) sim::violate("lost", "record %u was delivered before the stored record %u", id, i); r.state = 3; } }
  w->recs[id].state = 3; w->next = id + 1; w->unsure = 0; if (dropped) sim::probe("too_long"); sim::op_done();
}
void reader() {
  CBufferQueue *q; { sim::User u; q = new CBufferQueue; } attach(*q);
  int idle = 0;
  while (true) {
    bool done = w->writer_done; uint32_t must = w->unsure ? 0 : first_stored();
    size_t cap = sim::chance(W, 1, 8) ? sim::draw(W, 40) : w->B + sim::draw(W, 20); bool two = w->two == 1 || (w->two == 2 && sim::chance(W, 1, 2)); size_t cut = two ? sim::draw(W, cap + 1) : 0;
    unsigned long n1 = two ? cut : cap, n2 = cap - cut; bool got = false, threw = false; std::string out; bool bad = false;
    w->reader_in = true;
    { sim::User u; char *a = new char[n1 + 1], *b = two ? new char[n2 + 1] : nullptr;
      try { got = two ? q->pop(a, n1, b, n2) : q->pop(a, n1); } catch (std::runtime_error &e) { threw = true; }
      if (got) { sim::Kern k; if (n1 > cap || (two && n1 + n2 > cap)) bad = true; else { out.assign(a, n1); if (two) out.append(b, n2); } }
      delete[] a; delete[] b; }
    w->reader_in = false;
    if (bad) sim::violate("length-wrong", "a pop into %zu bytes reports %lu", cap, n1 + n2);
    if (got) {
      uint32_t id = 0; for (uint32_t i = w->next; i < w->recs.size(); i++) if (w->recs[i].len == out.size() && (w->recs[i].state == 1 || w->recs[i].state == 2 || w->recs[i].state == 5) && make(i, out.size()) == out) { id = i; break; }
      if (!id) sim::violate("record-wrong", "%zu bytes were delivered that are no stored record (the next one is %u)", out.size(), first_stored());
      took(id, false); idle = 0;
    } else if (threw) {
      // the record that was dropped: a stored one (past those that dead readers may hold), or one whose writer is still inside or died
      int skip = w->unsure, cand = 0; uint32_t id = 0;
      for (uint32_t i = w->next; i < w->recs.size(); i++) { int s = w->recs[i].state; if (s != 1 && s != 2 && s != 5) continue; if (w->recs[i].len > cap) { cand++; id = i; } if (s == 2 && skip-- <= 0) break; }
      if (!cand) sim::violate("dropped-untrue", "a pop into %zu bytes claims that the record is too long", cap);
      if (cand == 1) took(id, true); else w->unsure++;
      idle = 0;
    } else {
      sim::probe("empty");
      if (must) sim::violate("empty-untrue", "the queue claims to be empty with record %u stored", must);
      if (done) { for (uint32_t i = w->next; i < w->recs.size(); i++) if (w->recs[i].state == 2 && w->unsure-- <= 0) sim::violate("lost", "record %u was never delivered", i); break; }
      if (sim::chance(W, 1, 3)) { bool e; uint32_t m = first_stored(); UR(e = q->empty()); if (e && m && !w->unsure) sim::violate("empty-untrue", "empty() with record %u stored", m); UR(q->size()); }
      sim::sleep_for((++idle > 3 ? 20 : 1) * sim::draw(W, 10) * US + 1000);
    }
    if (w->mode == 2 && sim::chance(W, 1, 3)) sim::sleep_for(sim::draw(W, 100) * US);
  }
}
}
SCENARIO("C13", byte_ring, 1) {
  w = new World(); sim::default_schedule(); if (sim::chance(S, 3, 4)) sim::set_preempt(2 + sim::draw(S, 40));
  if (sim::chance(W, 1, 8)) sim::fault_rate(sim::FT_thread_stall, 1, 300);
  size_t B = sim::pick(W, {20, 12, 4, 1}); w->B = B == 3 ? 66000 + sim::draw(W, 200000) : B == 0 ? 17 + sim::draw(W, 60) : B == 1 ? 17 + sim::draw(W, 400) : 500 + sim::draw(W, 5000);
  w->size = w->B + 40; w->two = sim::draw(W, 3); w->mode = sim::draw(W, 3); w->todo = sim::range(W, 1, 50); w->maxlen = sim::chance(W, 1, 2) ? 1 + sim::draw(W, 30) : 0; w->next = 1; w->recs.push_back(Rec{0, 0});
  std::string err; size_t n = w->size; { sim::User u; w->mem = new char[n]; memset(w->mem, 0xa5, n); CBufferQueue q; try { q.create(w->mem, n); } catch (std::runtime_error &e) { sim::Kern k; err = e.what(); } } if (!err.empty()) sim::violate("create-failed", "%s", err.c_str());
  sim::Fid wr = sim::spawn("writer", writer), rd = sim::spawn("reader", reader);
  bool kill_w = sim::chance(W, 1, 2), kill_r = sim::chance(W, 1, 3); int kills = (kill_w || kill_r) ? sim::range(W, 1, 4) : 0;
  for (; kills > 0; kills--) {
    int steps = sim::draw(W, 400); if (sim::chance(W, 1, 2)) sim::sleep_for(sim::draw(W, 300) * US); while (steps-- > 0 && !sim::fiber_done(wr)) { sim::yield(); if (sim::chance(W, 1, 30)) break; }
    if (kill_w && (!kill_r || sim::chance(W, 1, 2))) {
      if (sim::fiber_done(wr)) continue;
      if (w->writer_in) { sim::probe("writer_died_inside"); w->deaths_w++; Rec &r = w->recs.back(); if (r.state == 1) r.state = 5; }
      bool in = w->writer_in; sim::kill_fiber(wr); (void)in; w->writer_in = false;
      for (auto &r : w->recs) if (r.state == 1) r.state = 5;
      wr = sim::spawn("writer", writer);
    } else if (kill_r) {
      if (sim::fiber_done(rd)) continue;
      if (w->reader_in) { sim::probe("reader_died_inside"); w->unsure++; w->deaths_r++; }
      sim::kill_fiber(rd); w->reader_in = false; rd = sim::spawn("reader", reader);
    }
  }
  ns_t lim = in(600 * SEC);
  while (!sim::fiber_done(rd)) if (sim::now() > lim) sim::violate("no-progress", "the reader did not finish"); else sim::sleep_for(SEC);
  int f = 0; for (auto &r : w->recs) f = f * 3 + r.state; sim::state_mark(w->B * 1000003 + f); sim::state_mark(w->deaths_w * 64 + w->deaths_r * 8 + w->two);
}
// One thread uses the queue alone, through one or several attached objects: every answer is exact.
SCENARIO("C13", ring_alone, 1) {
  sim::default_schedule(); int two = sim::draw(W, 3);
  size_t k = sim::pick(W, {20, 12, 4, 1}), B = k == 3 ? 66000 + sim::draw(W, 200000) : k == 0 ? 17 + sim::draw(W, 60) : k == 1 ? 17 + sim::draw(W, 400) : 500 + sim::draw(W, 5000), n = B + 40;
  char *mem; std::vector<CBufferQueue *> qs; std::deque<std::string> model; size_t used = 0; uint32_t id = 1; int ops = sim::range(W, 1, 80), bias = sim::draw(W, 3); uint64_t h = B;
  { bool thrown = false, small = false; { sim::User u; mem = new char[n]; memset(mem, 0x5a, n); CBufferQueue q; try { q.create(mem, 40 + 1 + 16 - 1); } catch (std::runtime_error &e) { small = true; } try { q.create(mem, n); } catch (std::runtime_error &e) { thrown = true; } }
    if (!small) sim::violate("create-untrue", "a queue was created in 56 bytes, which hold no record"); if (thrown) sim::violate("create-failed", "create failed"); }
  while (ops-- > 0) {
    if (qs.empty() || sim::chance(W, 1, 12)) { bool thrown = false; CBufferQueue *q; { sim::User u; q = new CBufferQueue; try { q->attach(mem, n); } catch (std::runtime_error &e) { thrown = true; } } if (thrown) sim::violate("attach-failed", "attaching to the existing queue failed"); qs.push_back(q); }
    CBufferQueue *q = qs[sim::draw(W, qs.size())]; bool t2 = two == 1 || (two == 2 && sim::chance(W, 1, 2));
    if (sim::chance(W, 1 + bias, 4)) {
      size_t len = sim::pick(W, {5, 2, 1, 1}); len = len == 0 ? 1 + sim::draw(W, std::min<size_t>(B, 24)) : len == 1 ? 1 + sim::draw(W, B) : len == 2 ? B - std::min<size_t>(B - 1, 8 + sim::draw(W, 20)) : B - used > 16 ? B - used - 16 + sim::draw(W, 2) : 1;
      bool fits = used + len + 16 <= B, full, threw = false; std::string d = make(id++, len); size_t cut = sim::pick(W, {4, 1, 1}); cut = cut == 0 ? sim::draw(W, len + 1) : cut == 1 ? 0 : len;
      UR(full = q->full(len)); if (full == fits) sim::violate("full-untrue", "full(%zu) is %d with %zu of %zu bytes in use", len, full, used, B);
      { sim::User u; char *a = new char[t2 ? cut + 1 : len], *b = t2 ? new char[len - cut + 1] : nullptr;
        if (t2) { memcpy(a, d.data(), cut); memcpy(b, d.data() + cut, len - cut); } else memcpy(a, d.data(), len);
        try { if (t2) q->push(a, (unsigned)cut, b, (unsigned)(len - cut)); else q->push(a, len); } catch (std::runtime_error &e) { threw = true; }
        delete[] a; delete[] b; }
      if (threw == fits) sim::violate(fits ? "refused-early" : "overfull", "a record of %zu bytes was %s with %zu of %zu bytes in use", len, threw ? "refused" : "accepted", used, B);
      if (!threw) { model.push_back(d); used += len + 8; }
      h = h * 31 + threw;
    } else {
      size_t want = model.empty() ? sim::draw(W, 30) : model.front().size(), c = sim::pick(W, {4, 2, 1}); size_t cap = c == 0 ? want : c == 1 ? want + 1 + sim::draw(W, 20) : want - std::min<size_t>(want, 1 + sim::draw(W, 8));
      size_t cut = sim::pick(W, {4, 1, 1}); cut = !t2 ? 0 : cut == 0 ? sim::draw(W, cap + 1) : cut == 1 ? 0 : cap; unsigned long n1 = t2 ? cut : cap, n2 = cap - cut; bool got = false, threw = false; std::string out; bool wrong = false;
      { sim::User u; char *a = new char[n1 + 1], *b = t2 ? new char[n2 + 1] : nullptr;
        try { got = t2 ? q->pop(a, n1, b, n2) : q->pop(a, n1); } catch (std::runtime_error &e) { threw = true; }
        if (got) { sim::Kern k; if (n1 > (t2 ? cut : cap) || (t2 && n2 > cap - cut)) wrong = true; else { out.assign(a, n1); if (t2) out.append(b, n2); } }
        delete[] a; delete[] b; }
      if (wrong) sim::violate("length-wrong", "a pop into %zu bytes reports %lu and %lu", cap, n1, n2);
      if (model.empty()) { if (got || threw) sim::violate("record-wrong", "a pop from the empty queue %s", got ? "gave a record" : "threw"); }
      else if (threw) { if (model.front().size() <= cap) sim::violate("dropped-untrue", "a pop into %zu bytes claims that a record of %zu is too long", cap, model.front().size()); }
      else if (!got) sim::violate("empty-untrue", "the queue claims to be empty with %zu records stored", model.size());
      else if (out != model.front()) sim::violate("record-wrong", "a pop gave %zu bytes, not the next record of %zu", out.size(), model.front().size());
      if (!model.empty()) { used -= model.front().size() + 8; model.pop_front(); }
      h = h * 31 + 2 + got + 2 * threw;
    }
    sim::op_done();
    unsigned long s; bool e; UR(s = q->size()); UR(e = q->empty());
    if (e != model.empty()) sim::violate("empty-untrue", "empty() is %d with %zu records stored", e, model.size());
    if (s != model.size()) sim::violate("size-untrue", "size() is %lu with %zu records stored", s, model.size());
    if (sim::chance(W, 1, 30)) { { sim::User u; memset(mem, 0x77, 8); CBufferQueue p; p.create(mem, n); } model.clear(); used = 0; sim::probe("recreated"); }
  }
  sim::state_mark(h);
}
