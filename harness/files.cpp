// File checkpoints: complete, replaced, flushed, closed; or the failure is reported and nothing stays open.
#define GROUP POLY
#include "fakefs.h"
#include "fault.h"
using namespace checkpoint;
using zoo::make;
namespace {
const std::string kP = "ckpt.bin";
struct Rec3 { int a = 0; std::string s; std::vector<short> v; std::unique_ptr<long> p; template <class S> void serialize(S& z) { z | a; z | s; z | v; z | p; } static Rec3 gen() { Rec3 r; r.a = make<int>(); r.s = make<std::string>(); r.v = make<std::vector<short>>(); r.p = make<std::unique_ptr<long>>(); return r; } bool same(const Rec3& o) const { return (a == o.a) & gen::same(s, o.s) & gen::same(v, o.v) & gen::same(p, o.p); } };
void smallShape() { gen::C = gen::Ctx(); gen::C.small = 2; gen::C.maxPicks = VP_N(2, 4); }
template <class T> T small() { smallShape(); return gen::make<T>(); }
void older() { size_t k = vp::pick("older", 2); if (k == 1) fsim::put(3); else if (k == 2) { fsim::put(700); vp_cover("a longer file from before"); } }
template <class T> void good() {
  strm::warm<T>(); fsim::reset(); older();
  smallShape(); gen::Mark m; T src = make<T>(); T ref = m.ref<T>(); auto r = serialize(src); const char* b = r->getBuffer(); size_t n = r->getSize(); long l0 = vp_live();
  serializeToFile(src, kP);
  CHECK(fsim::openFds() == 0); CHECK(fsim::liveMaps() == 0); CHECK(vp_live() == l0);
  CHECK(fsim::gSize == n); vp_check(fsim::holds(b, n), "the file holds exactly the serialized bytes"); vp_check(fsim::stored(b, n), "the bytes are in durable storage"); vp_cover("written");
  fsim::gWrote = false;
  { auto o = deserializeFromFile<T>(kP); CHECK(gen::same(ref, *o)); CHECK(fsim::openFds() == 0); CHECK(fsim::liveMaps() == 0); }
  if constexpr (std::is_default_constructible_v<T>) { T f{}; deserializeInPlaceFromFile<T>(kP, &f); CHECK(gen::same(ref, f)); CHECK(fsim::openFds() == 0); CHECK(fsim::liveMaps() == 0); vp_cover("in place"); }
  CHECK(vp_live() == l0); CHECK(!fsim::gWrote); CHECK(fsim::holds(b, n)); CHECK(fsim::stored(b, n)); vp_cover("read back unchanged");
  T again = small<T>(); auto q = serialize(again); serializeToFile(again, kP); CHECK(fsim::holds(q->getBuffer(), q->getSize())); CHECK(fsim::stored(q->getBuffer(), q->getSize())); CHECK(fsim::openFds() + fsim::liveMaps() == 0); // over the previous one
}
bool is(const char* a) { return strcmp(fsim::gHitCall, a) == 0; }
template <class T> void faults() {
  strm::warm<T>(); fsim::reset(); if (vp::pick("older", 1)) fsim::put(40);
  gen::C = gen::Ctx(); gen::C.big = true; gen::C.outer = 3; gen::Mark m; T src = gen::make<T>(); T ref = m.ref<T>(); auto r = serialize(src); const char* b = r->getBuffer(); size_t n = r->getSize(); long l0 = vp_live();
  size_t op = vp::pick("op", 2); if (op) { serializeToFile(src, kP); fsim::gFds = fsim::gMaps = 0; }
  fsim::gFaultAt = (long)vp::pick("fault", 12); fsim::gErr = vp::any<int>("errno"); vp_assume(fsim::gErr > 0); vp_assume(fsim::gErr < 134); fsim::gWrote = false;
  bool thrown = false;
  try {
    if (op == 0) serializeToFile(src, kP);
    else if (op == 1) { auto o = deserializeFromFile<T>(kP); CHECK(gen::same(ref, *o)); }
    else { T f{}; deserializeInPlaceFromFile<T>(kP, &f); CHECK(gen::same(ref, f)); }
  } catch (std::runtime_error const& e) { thrown = true; vp_cover("failure reported"); vp_check(e.what()[0] != 0, "the report says something"); }
  fsim::gFaultAt = -1;
  if (!fsim::gHit) { CHECK(!thrown); vp_cover("no failure"); }
  if (thrown) { CHECK(fsim::gHit); }
  else if (op == 0) { vp_check(fsim::holds(b, n), "returned normally: the file is complete"); vp_check(fsim::stored(b, n), "returned normally: the file is flushed"); }
  if (fsim::gHit) {
    bool must = is("open") || is("fstat") || is("ftruncate") || is("fsync") || is("mmap") || is("msync") || is("write") || is("read");
    if (must) CHECK(thrown);
    if (is("fallocate") && fsim::gErr == ENOSPC) { CHECK(thrown); vp_cover("no space"); }
  }
  CHECK(fsim::openFds() == 0); if (!is("munmap")) CHECK(fsim::liveMaps() == 0); CHECK(vp_live() == l0);
  fsim::drop(); if (op) { CHECK(!fsim::gWrote); CHECK(fsim::holds(b, n)); }
  fsim::gHit = false; serializeToFile(src, kP); CHECK(fsim::holds(b, n)); CHECK(fsim::stored(b, n)); { auto o = deserializeFromFile<T>(kP); CHECK(gen::same(ref, *o)); } CHECK(fsim::openFds() + fsim::liveMaps() == 0); // and a retry works
}
}
#define G(n, ...) HARNESS(good_##n) { good<__VA_ARGS__>(); }
#define FT(n, ...) HARNESS(faults_##n) { faults<__VA_ARGS__>(); }
G(int, int) G(str, std::string) G(vec, std::vector<int>) G(rec, Rec3) G(map, std::map<int, std::string>) G(poly, std::unique_ptr<zoo::PBase>) G(nodef, zoo::NoDef) G(vbool, std::vector<bool>) G(umap, zoo::um_is) G(bytes, zoo::ByteB)
FT(int, int) FT(rec, Rec3) FT(poly, zoo::RefBase) FT(list, std::list<std::string>)
HARNESS(missing_file) { // nothing to read
  fsim::reset(); long l0 = vp_live(); bool thrown = false;
  size_t op = vp::pick("op", 1); if (vp::pick("empty", 1)) { fsim::gExists = true; vp_cover("an empty file"); }
  try { if (op) { int x = 3; deserializeInPlaceFromFile<int>(kP, &x); } else auto o = deserializeFromFile<int>(kP); } catch (std::runtime_error const&) { thrown = true; }
  CHECK(thrown); CHECK(fsim::openFds() == 0); CHECK(fsim::liveMaps() == 0); CHECK(vp_live() == l0); CHECK(!fsim::gWrote);
}
HARNESS(wrong_type_file) { // a checkpoint of another type is refused and released
  fsim::reset(); std::string s = "a string"; serializeToFile(s, kP); bool thrown = false; long l0 = vp_live();
  try { auto o = deserializeFromFile<zoo::Pt>(kP); } catch (std::runtime_error const&) { thrown = true; } CHECK(thrown); CHECK(fsim::openFds() + fsim::liveMaps() == 0); CHECK(vp_live() == l0);
}
namespace { template <class T> void userError() { // the user's own error keeps everything released, also when closing fails on top of it
  strm::warm<T>(); fsim::reset(); flt::gAt = -1; T src; src.v.resize(2); for (auto& f : src.v) f = flt::Fz(flt::num()); long l0 = vp_live(); size_t op = vp::pick("op", 1);
  if (op) { serializeToFile(src, kP); fsim::gFds = fsim::gMaps = 0; }
  fsim::gCalls = 0; size_t bad = vp::pick("closing", 3); // which of msync, munmap, close also fails
  flt::gKind = (int)vp::pick("kind", 3); flt::gId = vp::any<unsigned long>("id"); flt::gAt = (long)(op ? 0 : 4) + (long)vp::pick("at", 3); fsim::gFaultAt = bad ? (long)(op ? 2 : 4) + (long)bad : -1;
  bool thrown = false;
  try { if (op) { T f; deserializeInPlaceFromFile<T>(kP, &f); } else serializeToFile(src, kP); }
  catch (flt::Boom const& b) { thrown = true; CHECK(flt::gKind == 0); CHECK(b.id == flt::gId); } catch (flt::UserError const& e) { thrown = true; CHECK(flt::gKind == 1); CHECK(e.id == flt::gId); } catch (std::bad_alloc const&) { thrown = true; CHECK(flt::gKind == 2); } catch (int i) { thrown = true; CHECK(i == 7); CHECK(flt::gKind == 3); vp_cover("user error"); }
  CHECK(thrown); fsim::gFaultAt = flt::gAt = -1; CHECK(fsim::openFds() == 0); if (!is("munmap")) CHECK(fsim::liveMaps() == 0); fsim::drop(); CHECK(vp_live() == l0);
} }
struct HoldFz { std::vector<flt::Fz> v; static HoldFz gen() { HoldFz h; h.v.resize(1); h.v[0] = flt::Fz(flt::num()); return h; } template <class S> void serialize(S& s) { s | v; } };
HARNESS(user_error) { userError<HoldFz>(); }
