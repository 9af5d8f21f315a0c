// Generic object harness: every value type of the public API behind one interface, with random operations, deep
// copies made only through the public read API and content digests.
#pragma once
#include "common.h"
#include <memory>
#include <functional>
namespace objs {
using namespace sim;
struct Obj;
typedef std::unique_ptr<Obj> Ptr;
typedef std::function<BLResult(Obj&)> Op;
struct Obj {
  virtual ~Obj() {}
  virtual const char* kind() const = 0;
  virtual Ptr weak() const = 0;                       // shares the implementation
  virtual Ptr deep() const = 0;                       // rebuilt through the public read API; shares nothing (null: out of memory)
  virtual Ptr fresh() const = 0;                      // default constructed object of the same kind
  virtual u64 digest() const = 0;                     // everything which can be observed
  virtual u64 reads(u64 seed) const = 0;              // expensive const operations (lazy caches)
  virtual Op prep(u64 seed, std::string* name) = 0;   // a random modification; arguments are built here, executing it only calls one function
  virtual void assign(const Obj& o) = 0;              // o has the same kind
  virtual void move_from(Obj& o) = 0;
  virtual void reset() = 0;
};
u32 nkinds();
Ptr make(u32 kind, u64 seed);                         // random content; may be backed by external memory
struct Ext { u32 created, destroyed; };               // external memory handed to the library / given back
Ext ext_counts();
u32 ext_double();                                     // destroy function called twice for one block
void ext_reset();
}
