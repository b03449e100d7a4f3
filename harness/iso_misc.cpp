// Shared state outside the zoo: footprinting of non-serializable types, error reports for unknown tags, nested failures.
#include "streams.h"
#include "tags.h"
using namespace checkpoint;
namespace {
struct Opaque { int a; double b; }; struct Opaque2 { long l[3]; };
struct Holder { Opaque o[2]; Opaque2* p = nullptr; std::shared_ptr<int> sp; int x = 0; template <class S> void serialize(S& s) { dispatch::serializeArray(s, o, 2); s | p; s | sp; s | x; } };
}
HARNESS(footprint_first_use) { // also the very first use of a type modifies nothing
  Holder h; Opaque2 q{}; h.x = vp::any<int>("x"); if (vp::pick("ptr", 1)) h.p = &q; if (vp::pick("shared", 1)) h.sp = std::make_shared<int>(3);
  vp_freeze(1);
  size_t f = getMemoryFootprint(h); vp_cover("footprint"); Opaque2 o2{}; size_t g = getMemoryFootprint(o2);
  vp_freeze(0);
  CHECK(f >= sizeof(Holder)); CHECK(g == sizeof(Opaque2));
}
HARNESS(unknown_tag) {
  zoo::L3 src; auto r = serialize(src); uint32_t t = vp::any<uint32_t>("tag"); uint32_t own; memcpy(&own, r->getBuffer(), 4); vp_assume(t != own);
  strm::warm<zoo::Deep>();
  memcpy(r->getBuffer(), &t, 4);
  vp_freeze(1); bool thrown = false;
  try { auto o = deserialize<zoo::L3>(r->getBuffer()); } catch (dispatch::serialization_error const&) { thrown = true; vp_cover("reported"); }
  vp_freeze(0); CHECK(thrown);
}
