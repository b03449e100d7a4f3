From 947854e0afda94205f04536999b1140377978c51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:54 +0000
Subject: [PATCH 01/11] fix: (de)serialize every element of an array of
 virtually serializable objects

The virtual dispatch ignored the element count, so arrays and vectors of
objects with virtual serialization only transferred their first element.
---
 src/checkpoint/dispatch/dispatch_serializer_nonbyte.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/checkpoint/dispatch/dispatch_serializer_nonbyte.h b/src/checkpoint/dispatch/dispatch_serializer_nonbyte.h
index 247e0c4..c8ac236 100644
--- a/src/checkpoint/dispatch/dispatch_serializer_nonbyte.h
+++ b/src/checkpoint/dispatch/dispatch_serializer_nonbyte.h
@@ -222,7 +222,10 @@ struct SerializerDispatchNonByte {
       s.setVirtualDisabled(false);
       applyStatic(s, val, num);
     } else {
-      dispatch::vrt::virtualSerialize(val, s);
+      for (SerialSizeType i = 0; i < num; i++) {
+        T* elm = val + i;
+        dispatch::vrt::virtualSerialize(elm, s);
+      }
     }
   }
 
-- 
2.43.0


From e75d9307058666927fdd5a43010c64d5ba38df0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:53 +0000
Subject: [PATCH 02/11] fix: destroy the temporaries container deserialization
 constructs

Deserializing list, deque, set, map, queue, optional, variant and vectors of
non-default-constructible elements constructs a prototype or an intermediate
element in an Allocator buffer, but only the buffer was released: whatever the
element owned leaked and its destructor never ran.
---
 src/checkpoint/container/list_serialize.h     |  2 ++
 src/checkpoint/container/map_serialize.h      |  1 +
 src/checkpoint/container/optional_serialize.h |  1 +
 src/checkpoint/container/queue_serialize.h    |  1 +
 src/checkpoint/container/variant_serialize.h  |  1 +
 src/checkpoint/container/vector_serialize.h   |  2 ++
 src/checkpoint/dispatch/allocator.h           | 16 ++++++++++++++++
 7 files changed, 24 insertions(+)

diff --git a/src/checkpoint/container/list_serialize.h b/src/checkpoint/container/list_serialize.h
index 262a08d..632a327 100644
--- a/src/checkpoint/container/list_serialize.h
+++ b/src/checkpoint/container/list_serialize.h
@@ -68,6 +68,7 @@ deserializeOrderedElems(
 
   Alloc allocated;
   auto* reconstructed = Reconstructor::construct(allocated.buf);
+  dispatch::ScopedDestroy<ElmT> destroy{reconstructed};
   cont.resize(size, *reconstructed);
   for (auto& val : cont) {
     s | val;
@@ -89,6 +90,7 @@ deserializeOrderedElems(
   Alloc allocated;
   for (typename ContainerT::size_type i = 0; i < size; ++i) {
     auto* reconstructed = Reconstructor::construct(allocated.buf);
+    dispatch::ScopedDestroy<ElmT> destroy{reconstructed};
     s | *reconstructed;
     cont.emplace_back(std::move(*reconstructed));
   }
diff --git a/src/checkpoint/container/map_serialize.h b/src/checkpoint/container/map_serialize.h
index a1a2a88..0a37ae1 100644
--- a/src/checkpoint/container/map_serialize.h
+++ b/src/checkpoint/container/map_serialize.h
@@ -70,6 +70,7 @@ inline typename std::enable_if_t<
   Alloc allocated;
   for (typename ContainerT::size_type i = 0; i < size; i++) {
     auto* reconstructed = Reconstructor::construct(allocated.buf);
+    dispatch::ScopedDestroy<ElmT> destroy{reconstructed};
     s | *reconstructed;
     cont.emplace(std::move(*reconstructed));
   }
diff --git a/src/checkpoint/container/optional_serialize.h b/src/checkpoint/container/optional_serialize.h
index c996286..97c95f7 100644
--- a/src/checkpoint/container/optional_serialize.h
+++ b/src/checkpoint/container/optional_serialize.h
@@ -64,6 +64,7 @@ void deserializeOptional(SerializerT& s, std::optional<T>& optional) {
   s | *has_value;
   if (*has_value) {
     auto* value = ValReconstructor::construct(valAllocated.buf);
+    dispatch::ScopedDestroy<T> destroy{value};
     s | *value;
     optional = *value;
   } else {
diff --git a/src/checkpoint/container/queue_serialize.h b/src/checkpoint/container/queue_serialize.h
index 485fbcc..2927cf2 100644
--- a/src/checkpoint/container/queue_serialize.h
+++ b/src/checkpoint/container/queue_serialize.h
@@ -59,6 +59,7 @@ void deserializeQueueElems(SerializerT& s, std::queue<T>& q, typename std::queue
   dispatch::Allocator<T> allocated;
   for (typename std::queue<T>::size_type i = 0; i < size; ++i) {
     auto* reconstructed = Reconstructor::construct(allocated.buf);
+    dispatch::ScopedDestroy<T> destroy{reconstructed};
     s | *reconstructed;
     q.push(std::move(*reconstructed));
   }
diff --git a/src/checkpoint/container/variant_serialize.h b/src/checkpoint/container/variant_serialize.h
index 7c0e69a..623c15c 100644
--- a/src/checkpoint/container/variant_serialize.h
+++ b/src/checkpoint/container/variant_serialize.h
@@ -69,6 +69,7 @@ struct SerializeEntry<Arg, Args...> {
           dispatch::Reconstructor<typename dispatch::CleanType<Arg>::CleanT>;
         Alloc allocated;
         auto* reconstructed = Reconstructor::construct(allocated.buf);
+        dispatch::ScopedDestroy<Arg> destroy{reconstructed};
         s | *reconstructed;
         v = std::move(*reconstructed);
       } else {
diff --git a/src/checkpoint/container/vector_serialize.h b/src/checkpoint/container/vector_serialize.h
index ed4478c..8f61321 100644
--- a/src/checkpoint/container/vector_serialize.h
+++ b/src/checkpoint/container/vector_serialize.h
@@ -87,6 +87,7 @@ void constructVectorData(
 
   Alloc allocated;
   auto* reconstructed = Reconstructor::construct(allocated.buf);
+  dispatch::ScopedDestroy<T> destroy{reconstructed};
   vec.resize(vec_size, *reconstructed);
 }
 
@@ -102,6 +103,7 @@ void constructVectorData(
   Alloc allocated;
   for (SerialSizeType i = 0; i < vec_size; ++i) {
     auto* reconstructed = Reconstructor::construct(allocated.buf);
+    dispatch::ScopedDestroy<T> destroy{reconstructed};
     vec.emplace_back(std::move(*reconstructed));
   }
 }
diff --git a/src/checkpoint/dispatch/allocator.h b/src/checkpoint/dispatch/allocator.h
index 1083c55..22c53cb 100644
--- a/src/checkpoint/dispatch/allocator.h
+++ b/src/checkpoint/dispatch/allocator.h
@@ -58,6 +58,22 @@ struct Allocator {
   SerialByteType* buf;
 };
 
+/**
+ * \struct ScopedDestroy
+ *
+ * \brief Destroys, at the end of the scope, an object that was constructed in
+ * memory it does not own (typically the buffer of an \c Allocator)
+ */
+template <typename T>
+struct ScopedDestroy {
+  explicit ScopedDestroy(T* in_obj) : obj(in_obj) { }
+  ScopedDestroy(ScopedDestroy const&) = delete;
+  ScopedDestroy& operator=(ScopedDestroy const&) = delete;
+  ~ScopedDestroy() { obj->~T(); }
+
+  T* obj;
+};
+
 }} // namespace checkpoint::dispatch
 
 #endif /*INCLUDED_SRC_CHECKPOINT_DISPATCH_ALLOCATOR_H*/
-- 
2.43.0


From 94d46b443b7f5fb442d00885876442dd7205c7df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:24 +0000
Subject: [PATCH 03/11] fix: drop the previous content when deserializing a
 container in place

map, set, multimap, multiset, their unordered forms, queue, and vector, list and
deque of move-only elements were appended to (or kept old entries) when the
target of an in-place deserialization was not empty.
---
 src/checkpoint/container/list_serialize.h   | 1 +
 src/checkpoint/container/map_serialize.h    | 1 +
 src/checkpoint/container/queue_serialize.h  | 1 +
 src/checkpoint/container/vector_serialize.h | 1 +
 4 files changed, 4 insertions(+)

diff --git a/src/checkpoint/container/list_serialize.h b/src/checkpoint/container/list_serialize.h
index 632a327..6e904ec 100644
--- a/src/checkpoint/container/list_serialize.h
+++ b/src/checkpoint/container/list_serialize.h
@@ -88,6 +88,7 @@ deserializeOrderedElems(
     dispatch::Reconstructor<typename dispatch::CleanType<ElmT>::CleanT>;
 
   Alloc allocated;
+  cont.clear();
   for (typename ContainerT::size_type i = 0; i < size; ++i) {
     auto* reconstructed = Reconstructor::construct(allocated.buf);
     dispatch::ScopedDestroy<ElmT> destroy{reconstructed};
diff --git a/src/checkpoint/container/map_serialize.h b/src/checkpoint/container/map_serialize.h
index 0a37ae1..697f5f2 100644
--- a/src/checkpoint/container/map_serialize.h
+++ b/src/checkpoint/container/map_serialize.h
@@ -68,6 +68,7 @@ inline typename std::enable_if_t<
     dispatch::Reconstructor<typename dispatch::CleanType<ElmT>::CleanT>;
 
   Alloc allocated;
+  cont.clear();
   for (typename ContainerT::size_type i = 0; i < size; i++) {
     auto* reconstructed = Reconstructor::construct(allocated.buf);
     dispatch::ScopedDestroy<ElmT> destroy{reconstructed};
diff --git a/src/checkpoint/container/queue_serialize.h b/src/checkpoint/container/queue_serialize.h
index 2927cf2..13f5d31 100644
--- a/src/checkpoint/container/queue_serialize.h
+++ b/src/checkpoint/container/queue_serialize.h
@@ -57,6 +57,7 @@ void deserializeQueueElems(SerializerT& s, std::queue<T>& q, typename std::queue
     dispatch::Reconstructor<typename dispatch::CleanType<T>::CleanT>;
 
   dispatch::Allocator<T> allocated;
+  q = {};
   for (typename std::queue<T>::size_type i = 0; i < size; ++i) {
     auto* reconstructed = Reconstructor::construct(allocated.buf);
     dispatch::ScopedDestroy<T> destroy{reconstructed};
diff --git a/src/checkpoint/container/vector_serialize.h b/src/checkpoint/container/vector_serialize.h
index 8f61321..099c254 100644
--- a/src/checkpoint/container/vector_serialize.h
+++ b/src/checkpoint/container/vector_serialize.h
@@ -101,6 +101,7 @@ void constructVectorData(
     dispatch::Reconstructor<typename dispatch::CleanType<T>::CleanT>;
 
   Alloc allocated;
+  vec.clear();
   for (SerialSizeType i = 0; i < vec_size; ++i) {
     auto* reconstructed = Reconstructor::construct(allocated.buf);
     dispatch::ScopedDestroy<T> destroy{reconstructed};
-- 
2.43.0


From 7fa2826046dc9e570e7ec2c7b1387da1ed3b7e2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:12 +0000
Subject: [PATCH 04/11] fix: do not modify shared tables when reporting an
 unknown tag or footprinting

---
 .../dispatch/dispatch_serializer_nonbyte.h         | 14 +++++---------
 src/checkpoint/dispatch/type_registry.h            |  8 +++++---
 2 files changed, 10 insertions(+), 12 deletions(-)

diff --git a/src/checkpoint/dispatch/dispatch_serializer_nonbyte.h b/src/checkpoint/dispatch/dispatch_serializer_nonbyte.h
index c8ac236..23ef01e 100644
--- a/src/checkpoint/dispatch/dispatch_serializer_nonbyte.h
+++ b/src/checkpoint/dispatch/dispatch_serializer_nonbyte.h
@@ -158,15 +158,11 @@ struct SerializerDispatchNonByte {
       static_cast<void*>(&val),
       typeid(val).name()
     );
-    static bool firstCall = true;
-    if (firstCall) {
-      firstCall = false;
-      debug_checkpoint(
-        "SerializerDispatch: warning: simplified footprinting in use!\n"
-        "Objects of type: typeid=%s will not be traversed\n",
-        typeid(val).name()
-      );
-    }
+    debug_checkpoint(
+      "SerializerDispatch: warning: simplified footprinting in use!\n"
+      "Objects of type: typeid=%s will not be traversed\n",
+      typeid(val).name()
+    );
 
     s.contiguousBytes(val, sizeof(T), num);
   }
diff --git a/src/checkpoint/dispatch/type_registry.h b/src/checkpoint/dispatch/type_registry.h
index 69881a9..c0f33ef 100644
--- a/src/checkpoint/dispatch/type_registry.h
+++ b/src/checkpoint/dispatch/type_registry.h
@@ -123,12 +123,14 @@ inline DecodedIndex getTypeIdx() {
   return Type<ObjT>::idx;
 }
 
-inline std::string const& getTypeNameForIdx(DecodedIndex const typeIdx) {
-  return getRegisteredNames()[typeIdx];
+inline std::string getTypeNameForIdx(DecodedIndex const typeIdx) {
+  auto const& names = getRegisteredNames();
+  auto const iter = names.find(typeIdx);
+  return iter != names.end() ? iter->second : std::string{};
 }
 
 template <typename ObjT>
-inline std::string const& getTypeName() {
+inline std::string getTypeName() {
   return getTypeNameForIdx(getTypeIdx<ObjT>());
 }
 
-- 
2.43.0


From 2a64f718d26d170489fe95ff2958c2ce49924654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:38 +0000
Subject: [PATCH 05/11] fix: release exactly what was allocated when
 deserialization throws

---
 src/checkpoint/checkpoint_api.impl.h    | 14 ++++-------
 src/checkpoint/dispatch/dispatch.h      | 14 +++++++++++
 src/checkpoint/dispatch/dispatch.impl.h | 32 ++++++++++++++++++++-----
 3 files changed, 45 insertions(+), 15 deletions(-)

diff --git a/src/checkpoint/checkpoint_api.impl.h b/src/checkpoint/checkpoint_api.impl.h
index 863472e..fca164f 100644
--- a/src/checkpoint/checkpoint_api.impl.h
+++ b/src/checkpoint/checkpoint_api.impl.h
@@ -108,11 +108,9 @@ void serializeToFile(T& target, std::string const& file) {
 
 template <typename T>
 std::unique_ptr<T> deserializeFromFile(std::string const& file) {
-  auto mem = dispatch::Standard::allocate<T>();
-  T* t_buf = dispatch::Standard::construct<T>(mem);
-  auto t = dispatch::Standard::unpack<T, UnpackerBuffer<buffer::IOBuffer>>(
-    t_buf, buffer::IOBuffer::ReadFromFileTag{}, file
-  );
+  auto t = dispatch::Standard::constructAndUnpack<
+    T, UnpackerBuffer<buffer::IOBuffer>
+  >(nullptr, buffer::IOBuffer::ReadFromFileTag{}, file);
   return std::unique_ptr<T>(t);
 }
 
@@ -133,10 +131,8 @@ void serializeToStream(T& target, StreamT& stream) {
 
 template <typename T, typename StreamT>
 std::unique_ptr<T> deserializeFromStream(StreamT& stream) {
-  auto mem = dispatch::Standard::allocate<T>();
-  T* t_buf = dispatch::Standard::construct<T>(mem);
-  auto t = dispatch::Standard::unpack<T, StreamUnpacker<StreamT>>(
-    t_buf, stream
+  auto t = dispatch::Standard::constructAndUnpack<T, StreamUnpacker<StreamT>>(
+    nullptr, stream
   );
   return std::unique_ptr<T>(t);
 }
diff --git a/src/checkpoint/dispatch/dispatch.h b/src/checkpoint/dispatch/dispatch.h
index e5c6da1..4c2d977 100644
--- a/src/checkpoint/dispatch/dispatch.h
+++ b/src/checkpoint/dispatch/dispatch.h
@@ -169,6 +169,20 @@ struct Standard {
   template <typename T, typename UnpackerT, typename... Args>
   static T* unpack(T* mem, Args&&... args);
 
+  /**
+   * \brief Construct a \c T and unpack into it. If this fails with an exception,
+   * whatever was constructed is destroyed and only memory that was allocated
+   * here is released.
+   *
+   * \param[in] user_mem memory to construct \c T in, which remains owned by the
+   * caller; if it is \c nullptr memory is allocated
+   * \param[in] args arguments to the unpacker's constructor
+   *
+   * \return pointer to the unpacked \c T
+   */
+  template <typename T, typename UnpackerT, typename... Args>
+  static T* constructAndUnpack(SerialByteType* user_mem, Args&&... args);
+
   /**
    * \brief Construct \c T on allocate memory \c mem
    *
diff --git a/src/checkpoint/dispatch/dispatch.impl.h b/src/checkpoint/dispatch/dispatch.impl.h
index 44aac6a..b0935e5 100644
--- a/src/checkpoint/dispatch/dispatch.impl.h
+++ b/src/checkpoint/dispatch/dispatch.impl.h
@@ -48,6 +48,7 @@
 #include "checkpoint/dispatch/dispatch.h"
 #include "checkpoint/dispatch/type_registry.h"
 
+#include <memory>
 #include <stdexcept>
 #include <string>
 
@@ -226,6 +227,28 @@ T* Standard::construct(SerialByteType* mem) {
   return Traverse::reconstruct<T>(mem);
 }
 
+template <typename T, typename UnpackerT, typename... Args>
+T* Standard::constructAndUnpack(SerialByteType* user_mem, Args&&... args) {
+  struct Deallocate {
+    void operator()(SerialByteType* mem) const {
+      std::allocator<T>{}.deallocate(reinterpret_cast<T*>(mem), 1);
+    }
+  };
+  struct Destroy {
+    void operator()(T* obj) const { obj->~T(); }
+  };
+
+  std::unique_ptr<SerialByteType, Deallocate> owned_mem(
+    user_mem == nullptr ? Standard::allocate<T>() : nullptr
+  );
+  std::unique_ptr<T, Destroy> obj(
+    Standard::construct<T>(user_mem == nullptr ? owned_mem.get() : user_mem)
+  );
+  Standard::unpack<T, UnpackerT>(obj.get(), std::forward<Args>(args)...);
+  owned_mem.release();
+  return obj.release();
+}
+
 template <typename Serializer, typename T>
 inline void serializeArray(Serializer& s, T* array, SerialSizeType const len) {
   if (len > 0) {
@@ -274,12 +297,9 @@ buffer::ImplReturnType serializeType(T& target, BufferObtainFnType fn) {
 
 template <typename T>
 T* deserializeType(SerialByteType* data, SerialByteType* allocBuf) {
-  auto mem = allocBuf ? allocBuf : Standard::allocate<T>();
-  auto t_buf = std::unique_ptr<T>(Standard::construct<T>(mem));
-  T* traverser =
-    Standard::unpack<T, UnpackerBuffer<buffer::UserBuffer>>(t_buf.get(), data);
-  t_buf.release();
-  return traverser;
+  return Standard::constructAndUnpack<T, UnpackerBuffer<buffer::UserBuffer>>(
+    allocBuf, data
+  );
 }
 
 template <typename T>
-- 
2.43.0


From 3ef2b7a234a0385bab41f9fc8a9eaa71aeb497e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:04 +0000
Subject: [PATCH 06/11] fix: release the pointee's memory when its construction
 throws

---
 src/checkpoint/dispatch/vrt/object_registry.h  | 11 ++++++++++-
 .../dispatch/vrt/virtual_serialize.h           | 18 ++++++++++++++----
 2 files changed, 24 insertions(+), 5 deletions(-)

diff --git a/src/checkpoint/dispatch/vrt/object_registry.h b/src/checkpoint/dispatch/vrt/object_registry.h
index 54da0de..d82bc42 100644
--- a/src/checkpoint/dispatch/vrt/object_registry.h
+++ b/src/checkpoint/dispatch/vrt/object_registry.h
@@ -58,21 +58,24 @@ namespace objregistry {
 template <typename T>
 struct ObjectEntry {
 
-  template <typename Allocator, typename Constructor>
+  template <typename Allocator, typename Deallocator, typename Constructor>
   ObjectEntry(
     TypeIdx in_idx,
     std::size_t in_size,
     Allocator&& in_allocator,
+    Deallocator&& in_deallocator,
     Constructor&& in_constructor
   ) : idx_(in_idx),
       size_(in_size),
       allocator_(in_allocator),
+      deallocator_(in_deallocator),
       constructor_(in_constructor)
   { }
 
   TypeIdx idx_ = no_type_idx;              /**< The type index for this ObjT */
   std::size_t size_ = 0;                   /**< The registered object size */
   std::function<void*(void)> allocator_;   /**< Do standard allocation for object */
+  std::function<void(void*)> deallocator_; /**< Release memory from allocator_ */
   std::function<T*(void*)> constructor_;   /**< Construct object on memory */
 };
 
@@ -110,6 +113,7 @@ Registrar<ObjT>::Registrar() {
       index,
       sizeof(ObjT),
       []()          -> void*       { return std::allocator<ObjT>{}.allocate(1); },
+      [](void* buf) -> void        { std::allocator<ObjT>{}.deallocate(static_cast<ObjT*>(buf), 1); },
       [](void* buf) -> BaseType*   { return dispatch::Reconstructor<ObjT>::constructAllowFail(buf); }
     }
   );
@@ -134,6 +138,11 @@ inline auto allocateConcreteType(TypeIdx han) {
   return getRegistry<T>().at(han).allocator_();
 }
 
+template <typename T>
+inline void deallocateConcreteType(TypeIdx han, void* buf) {
+  getRegistry<T>().at(han).deallocator_(buf);
+}
+
 template <typename T>
 inline auto constructConcreteType(TypeIdx han, void* buf) {
   return getRegistry<T>().at(han).constructor_(buf);
diff --git a/src/checkpoint/dispatch/vrt/virtual_serialize.h b/src/checkpoint/dispatch/vrt/virtual_serialize.h
index 2082dd4..80dcc92 100644
--- a/src/checkpoint/dispatch/vrt/virtual_serialize.h
+++ b/src/checkpoint/dispatch/vrt/virtual_serialize.h
@@ -152,7 +152,12 @@ struct ReconstructAsVirtualIfNeeded<
   static T* apply(SerializerT&, dispatch::vrt::TypeIdx) {
     // no type idx needed in this case, static construction in default case
     auto t = std::allocator<T>{}.allocate(1);
-    return dispatch::Reconstructor<T>::construct(t);
+    try {
+      return dispatch::Reconstructor<T>::construct(t);
+    } catch (...) {
+      std::allocator<T>{}.deallocate(t, 1);
+      throw;
+    }
   }
 };
 
@@ -181,9 +186,14 @@ struct ReconstructAsVirtualIfNeeded<
 
     // use type idx here, registration needed for proper type re-construction
     auto t = dispatch::vrt::objregistry::allocateConcreteType<BaseT>(entry);
-    return static_cast<T*>(
-                           dispatch::vrt::objregistry::constructConcreteType<BaseT>(entry, t)
-                           );
+    try {
+      return static_cast<T*>(
+                             dispatch::vrt::objregistry::constructConcreteType<BaseT>(entry, t)
+                             );
+    } catch (...) {
+      dispatch::vrt::objregistry::deallocateConcreteType<BaseT>(entry, t);
+      throw;
+    }
   }
 };
 
-- 
2.43.0


From 2db4b77adcf7beb64889c08dc4fff924ad14f036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:40 +0000
Subject: [PATCH 07/11] fix: destroy the components already constructed when
 constructing a tuple fails

---
 src/checkpoint/container/tuple_serialize.h | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/checkpoint/container/tuple_serialize.h b/src/checkpoint/container/tuple_serialize.h
index 5efe06e..784741c 100644
--- a/src/checkpoint/container/tuple_serialize.h
+++ b/src/checkpoint/container/tuple_serialize.h
@@ -60,11 +60,21 @@ void tuple_helper(Serializer& s, std::tuple<T...>& tup, std::index_sequence<Idxs
   );
 }
 
+// Destroys a constructed component unless all of them could be constructed
+template <typename T>
+struct TupleComponentGuard {
+  ~TupleComponentGuard() { if (obj) { obj->~T(); } }
+  T* obj = nullptr;
+};
+
 template <typename... T, size_t... Idxs>
 void tuple_helper_reconstruct(std::tuple<T...>*& tup, std::index_sequence<Idxs...>) {
+  std::tuple<TupleComponentGuard<T>...> guards;
   std::forward_as_tuple(
-    (dispatch::Reconstructor<T>::construct(&std::get<Idxs>(*tup)))...
+    (std::get<Idxs>(guards).obj =
+      dispatch::Reconstructor<T>::construct(&std::get<Idxs>(*tup)))...
   );
+  std::forward_as_tuple((std::get<Idxs>(guards).obj = nullptr)...);
 }
 
 template <typename Serializer, typename... Args>
-- 
2.43.0


From e4d51244c17cf9de36d5e291930fee18b07abb40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:24 +0000
Subject: [PATCH 08/11] fix: never pack more bytes than were sized, and report
 the mismatch for files

---
 src/checkpoint/checkpoint_api.impl.h     |  3 ++-
 src/checkpoint/serializers/packer.impl.h | 10 ++++++++++
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/checkpoint/checkpoint_api.impl.h b/src/checkpoint/checkpoint_api.impl.h
index fca164f..8397c67 100644
--- a/src/checkpoint/checkpoint_api.impl.h
+++ b/src/checkpoint/checkpoint_api.impl.h
@@ -101,9 +101,10 @@ std::size_t getMemoryFootprint(T& target, std::size_t size_offset) {
 template <typename T>
 void serializeToFile(T& target, std::string const& file) {
   auto len = getSize<T>(target);
-  dispatch::Standard::pack<T, PackerBuffer<buffer::IOBuffer>>(
+  auto p = dispatch::Standard::pack<T, PackerBuffer<buffer::IOBuffer>>(
     target, len, buffer::IOBuffer::WriteToFileTag{}, len, file
   );
+  dispatch::validatePackerBufferSize<T>(p, len);
 }
 
 template <typename T>
diff --git a/src/checkpoint/serializers/packer.impl.h b/src/checkpoint/serializers/packer.impl.h
index 8754cb6..3956f88 100644
--- a/src/checkpoint/serializers/packer.impl.h
+++ b/src/checkpoint/serializers/packer.impl.h
@@ -119,6 +119,16 @@ void PackerBuffer<BufferT>::contiguousBytes(
   );
 
   SerialSizeType const len = size * num_elms;
+
+  /*
+   * Never write past the end of the buffer when more bytes are packed than were
+   * sized: only count them so the mismatch is reported once packing is done
+   */
+  if (usedSize_ > size_ or len > size_ - usedSize_) {
+    usedSize_ += len;
+    return;
+  }
+
   SerialByteType* spot = this->getSpotIncrement(len);
   #pragma GCC diagnostic push
 #if !defined(__has_warning)
-- 
2.43.0


From d4a464018447ab6dba81da3587a12b8eeb626491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:58:39 +0000
Subject: [PATCH 09/11] fix: report errors when a file is flushed and closed,
 and release it when opening it fails

---
 src/checkpoint/buffer/io_buffer.cc   | 42 ++++++++++++++++++++--------
 src/checkpoint/buffer/io_buffer.h    | 13 +++++++--
 src/checkpoint/checkpoint_api.impl.h |  1 +
 3 files changed, 43 insertions(+), 13 deletions(-)

diff --git a/src/checkpoint/buffer/io_buffer.cc b/src/checkpoint/buffer/io_buffer.cc
index 7cad8ec..ed08f54 100644
--- a/src/checkpoint/buffer/io_buffer.cc
+++ b/src/checkpoint/buffer/io_buffer.cc
@@ -218,12 +218,22 @@ void IOBuffer::setupForWrite() {
 void IOBuffer::setupFile() {
   debug_checkpoint("IOBuffer: opening file: %s\n", file_.c_str());
 
-  if (mode_ == ModeEnum::ReadFromFile) {
-    setupForRead();
-  } else if (mode_ == ModeEnum::WriteToFile) {
-    setupForWrite();
-  } else {
-    throw std::runtime_error("Invalid IOBuffer mode");
+  try {
+    if (mode_ == ModeEnum::ReadFromFile) {
+      setupForRead();
+    } else if (mode_ == ModeEnum::WriteToFile) {
+      setupForWrite();
+    } else {
+      throw std::runtime_error("Invalid IOBuffer mode");
+    }
+  } catch (...) {
+    /*
+     * The destructor will not run: do not leave the file open
+     */
+    if (fd_ != -1) {
+      close(fd_);
+    }
+    throw;
   }
 }
 
@@ -239,6 +249,11 @@ void IOBuffer::closeFile() {
 
   int ret = 0;
 
+  /*
+   * The first error: reported after everything has been released
+   */
+  std::string error = "";
+
   /*
    * msync/msync64 the mapped file causing the file to be written out
    */
@@ -251,7 +266,7 @@ void IOBuffer::closeFile() {
     if (ret != 0) {
       auto err = std::string("msync64 failed on file after write: errno=") +
                  std::to_string(errno) + ": " + strerror(errno);
-      throw std::runtime_error(err);
+      error = err;
     }
 
 #   else
@@ -260,7 +275,7 @@ void IOBuffer::closeFile() {
     if (ret != 0) {
       auto err = std::string("msync failed on file after write: errno=") +
                  std::to_string(errno) + ": " + strerror(errno);
-      throw std::runtime_error(err);
+      error = err;
     }
 #   endif
   }
@@ -276,7 +291,7 @@ void IOBuffer::closeFile() {
   if (ret != 0) {
     auto err = std::string("munmap64 failed on after write: errno=") +
                std::to_string(errno) + ": " + strerror(errno);
-    throw std::runtime_error(err);
+    error = error.empty() ? err : error;
   }
 
 # else
@@ -285,7 +300,7 @@ void IOBuffer::closeFile() {
   if (ret != 0) {
     auto err = std::string("munmap failed on file after write: errno=") +
                std::to_string(errno) + ": " + strerror(errno);
-    throw std::runtime_error(err);
+    error = error.empty() ? err : error;
   }
 # endif
 
@@ -299,10 +314,15 @@ void IOBuffer::closeFile() {
   if (ret != 0) {
     auto err = std::string("close on file descriptor failed: errno=") +
                std::to_string(errno) + ": " + strerror(errno);
-    throw std::runtime_error(err);
+    error = error.empty() ? err : error;
   }
 
   fd_ = -1;
+  buffer_ = nullptr;
+
+  if (not error.empty()) {
+    throw std::runtime_error(error);
+  }
 }
 
 }} /* end namespace checkpoint::buffer */
diff --git a/src/checkpoint/buffer/io_buffer.h b/src/checkpoint/buffer/io_buffer.h
index 43a5db6..65582d9 100644
--- a/src/checkpoint/buffer/io_buffer.h
+++ b/src/checkpoint/buffer/io_buffer.h
@@ -79,13 +79,22 @@ public:
 
 private:
   void setupFile();
-  void closeFile();
   void setupForRead();
   void setupForWrite();
 
 public:
 
-  virtual ~IOBuffer() { closeFile(); }
+  /*
+   * An error that nobody asked for with closeFile() cannot be reported here
+   */
+  virtual ~IOBuffer() { try { closeFile(); } catch (...) { } }
+
+  /**
+   * \brief Flush the file (after a write), unmap and close it
+   *
+   * Throws \c std::runtime_error if any of this fails
+   */
+  void closeFile();
 
   virtual SerialByteType* getBuffer() const override {
     return buffer_;
diff --git a/src/checkpoint/checkpoint_api.impl.h b/src/checkpoint/checkpoint_api.impl.h
index 8397c67..49f6d4f 100644
--- a/src/checkpoint/checkpoint_api.impl.h
+++ b/src/checkpoint/checkpoint_api.impl.h
@@ -105,6 +105,7 @@ void serializeToFile(T& target, std::string const& file) {
     target, len, buffer::IOBuffer::WriteToFileTag{}, len, file
   );
   dispatch::validatePackerBufferSize<T>(p, len);
+  p.extractPackedBuffer()->closeFile();
 }
 
 template <typename T>
-- 
2.43.0


From 3c5b51fe907f97251f9cf0740284a2707719bb87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:27:16 +0000
Subject: [PATCH 10/11] fix: move the deserialized value into an optional, so
 that it keeps its capacity

---
 src/checkpoint/container/optional_serialize.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/checkpoint/container/optional_serialize.h b/src/checkpoint/container/optional_serialize.h
index 97c95f7..9eefa20 100644
--- a/src/checkpoint/container/optional_serialize.h
+++ b/src/checkpoint/container/optional_serialize.h
@@ -66,7 +66,7 @@ void deserializeOptional(SerializerT& s, std::optional<T>& optional) {
     auto* value = ValReconstructor::construct(valAllocated.buf);
     dispatch::ScopedDestroy<T> destroy{value};
     s | *value;
-    optional = *value;
+    optional = std::move(*value);
   } else {
     optional.reset();
   }
-- 
2.43.0


From bded3112486d8c86f14e7ed8d69f3bde0e0b1769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:27:16 +0000
Subject: [PATCH 11/11] fix: serialize a queue's own elements instead of those
 of a copy

---
 src/checkpoint/container/queue_serialize.h | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/checkpoint/container/queue_serialize.h b/src/checkpoint/container/queue_serialize.h
index 13f5d31..0c9cddd 100644
--- a/src/checkpoint/container/queue_serialize.h
+++ b/src/checkpoint/container/queue_serialize.h
@@ -45,6 +45,7 @@
 #define INCLUDED_SRC_CHECKPOINT_CONTAINER_QUEUE_SERIALIZE_H
 
 #include "checkpoint/common.h"
+#include "checkpoint/container/container_serialize.h"
 
 #include <queue>
 #include <stack>
@@ -66,12 +67,17 @@ void deserializeQueueElems(SerializerT& s, std::queue<T>& q, typename std::queue
   }
 }
 
-template<typename SerializerT, typename T>
-void serializeQueueElems(SerializerT& s, std::queue<T> q) {
-  while(!q.empty()) {
-    s | q.front();
-    q.pop();
+// Gives access to the underlying container, as a queue cannot be iterated
+template <typename T>
+struct QueueElems : std::queue<T> {
+  static typename std::queue<T>::container_type& get(std::queue<T>& q) {
+    return q.*&QueueElems::c;
   }
+};
+
+template<typename SerializerT, typename T>
+void serializeQueueElems(SerializerT& s, std::queue<T>& q) {
+  serializeContainerElems(s, QueueElems<T>::get(q));
 }
 
 template <
-- 
2.43.0

