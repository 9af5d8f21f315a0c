From 37812663facec72700b19046987f6ebdc238b4fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:58 +0000
Subject: [PATCH 001/132] fix: restore the whole arena state when an edge
 builder is reverted

ArenaAllocator::restore_state() only restored the pointer, so reverting a
rejected asynchronous command after a new block was added made the allocator
reuse memory that holds edges of commands already in the queue.
---
 blend2d/support/arenaallocator_p.h | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/blend2d/support/arenaallocator_p.h b/blend2d/support/arenaallocator_p.h
index f6628b7..04c75d5 100644
--- a/blend2d/support/arenaallocator_p.h
+++ b/blend2d/support/arenaallocator_p.h
@@ -50,7 +50,13 @@ public:
     }
   };
 
-  typedef uint8_t* StatePtr;
+  //! Saved state of the arena allocator.
+  //!
+  //! Both pointers must be saved as memory can be allocated from both ends of the current block, see \ref set_end().
+  struct StatePtr {
+    uint8_t* ptr;
+    uint8_t* end;
+  };
 
   static inline constexpr size_t kMinBlockSize = 1024; // Safe bet - it must be greater than `kMaxAlignment`.
   static inline constexpr size_t kMaxBlockSize = size_t(1) << (sizeof(size_t) * 8 - 1);
@@ -369,7 +375,7 @@ public:
   //! Stores the current state to `state`.
   [[nodiscard]]
   BL_INLINE StatePtr save_state() noexcept {
-    return _ptr;
+    return StatePtr { _ptr, _end };
   }
 
   //! Restores the state of `ArenaAllocator` from the previously saved `state`.
@@ -377,20 +383,22 @@ public:
     Block* block = _block;
     size_t alignment = block_alignment();
 
-    while (p < block->data() || p >= block->end()) {
+    // NOTE: The saved pointer can be equal to the end of the block if the block was full.
+    while (p.ptr < block->data() || p.ptr > block->end()) {
       if (!block->prev) {
         // Special case - can happen in case that the allocator didn't have allocated any block when `save_state()`
         // was called. In that case we won't restore to the shared null block, instead we restore to the first block
         // the allocator has.
-        p = IntOps::align_up(block->data(), alignment);
+        p.ptr = IntOps::align_up(block->data(), alignment);
+        p.end = block->end();
         break;
       }
       block = block->prev;
     }
 
     _block = block;
-    _ptr = p;
-    _end = block->end();
+    _ptr = p.ptr;
+    _end = p.end;
   }
 
   //! \}
-- 
2.43.0


From 0d83ba94122a398db5a4932c844cda036aa932aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:58 +0000
Subject: [PATCH 002/132] fix: use the global alpha when it is present in
 synchronous masked box fills

---
 blend2d/raster/rendercommandprocsync_p.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blend2d/raster/rendercommandprocsync_p.h b/blend2d/raster/rendercommandprocsync_p.h
index 56ab2cf..ed4a151 100644
--- a/blend2d/raster/rendercommandprocsync_p.h
+++ b/blend2d/raster/rendercommandprocsync_p.h
@@ -70,7 +70,7 @@ static BL_INLINE BLResult fill_box_masked_a(WorkData& work_data, const Pipeline:
   const BLBoxI& box_i = payload.box_i;
 
   Pipeline::MaskCommand mask_commands[2];
-  Pipeline::MaskCommandType vMaskCmd = alpha >= 255 ? Pipeline::MaskCommandType::kVMaskA8WithGA : Pipeline::MaskCommandType::kVMaskA8WithoutGA;
+  Pipeline::MaskCommandType vMaskCmd = alpha >= 255 ? Pipeline::MaskCommandType::kVMaskA8WithoutGA : Pipeline::MaskCommandType::kVMaskA8WithGA;
 
   mask_commands[0].init_vmask(vMaskCmd, uint32_t(box_i.x0), uint32_t(box_i.x1), mask_data, mask_impl->stride);
   mask_commands[1].init_repeat();
-- 
2.43.0


From 881e5bf00a51d5905dae96362ca268bfece5f441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:58 +0000
Subject: [PATCH 003/132] fix: read reference counts atomically

The plain reads raced with concurrent retain/release of the same impl.
---
 blend2d/core/object_p.h | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/blend2d/core/object_p.h b/blend2d/core/object_p.h
index 59191c8..bae011e 100644
--- a/blend2d/core/object_p.h
+++ b/blend2d/core/object_p.h
@@ -91,7 +91,7 @@ struct BLObjectImplHeader {
   BL_INLINE_NODEBUG size_t alignment_offset() const noexcept { return flags & kAlignmentOffsetMask; }
 
   //! Tests whether this object impl is reference counted.
-  BL_INLINE_NODEBUG bool is_ref_counted() const noexcept { return ref_count != 0u; }
+  BL_INLINE_NODEBUG bool is_ref_counted() const noexcept { return bl_atomic_fetch_relaxed(&ref_count) != 0u; }
   //! Tests whether this object impl is immutable.
   BL_INLINE_NODEBUG bool is_immutable() const noexcept { return (flags & kRefCountedAndImmutableFlags) != kRefCountedFlag; }
   //! Tests whether this object impl holds external data.
@@ -306,7 +306,7 @@ static BL_INLINE void call_external_destroy_func(BLObjectImpl* impl, void* exter
 //! Tests whether the `impl` is mutable.
 static BL_INLINE bool is_impl_mutable(const BLObjectImpl* impl) noexcept {
   const BLObjectImplHeader* header = get_impl_header(impl);
-  return header->ref_count == 1;
+  return bl_atomic_fetch_strong(&header->ref_count) == 1;
 }
 
 //! Tests whether the `impl` is reference counted.
@@ -320,7 +320,7 @@ static BL_INLINE bool is_impl_ref_counted(const BLObjectImpl* impl) noexcept {
 //! This check essentially checks whether these is only a single remaining reference to the `impl`.
 static BL_INLINE bool is_impl_ref_count_equal_to_base(const BLObjectImpl* impl) noexcept {
   const BLObjectImplHeader* header = get_impl_header(impl);
-  return header->ref_count == header->base_ref_count_value();
+  return bl_atomic_fetch_strong(&header->ref_count) == header->base_ref_count_value();
 }
 
 //! Initializes the reference count of `impl` to its base value, considering the passed `immediate` flag.
@@ -335,7 +335,7 @@ static BL_INLINE void init_ref_count_to_base(BLObjectImpl* impl, bool immutable)
 
 //! Returns a reference count of `impl`.
 static BL_INLINE size_t get_impl_ref_count(const BLObjectImpl* impl) noexcept {
-  return get_impl_header(impl)->ref_count;
+  return bl_atomic_fetch_strong(&get_impl_header(impl)->ref_count);
 }
 
 template<RCMode kRCMode>
@@ -371,13 +371,13 @@ static BL_INLINE BLResult release_virtual_impl(BLObjectImpl* impl) noexcept {
 //! whether the object is dynamic and that dynamic object has a mutable impl, use `is_instance_impl_mutable()` instead.
 static BL_INLINE bool is_instance_mutable(const BLObjectCore* self) noexcept {
   const BLObjectImplHeader* header = self->_d.sso() ? &bl_object_header_with_ref_count_eq_1 : get_impl_header(self->_d.impl);
-  return header->ref_count == 1u;
+  return bl_atomic_fetch_strong(&header->ref_count) == 1u;
 }
 
 //! Tests whether an untyped object is dynamic and has a mutable Impl.
 static BL_INLINE bool is_instance_dynamic_and_mutable(const BLObjectCore* self) noexcept {
   const BLObjectImplHeader* header = self->_d.sso() ? &bl_object_header_with_ref_count_eq_0 : get_impl_header(self->_d.impl);
-  return header->ref_count == 1u;
+  return bl_atomic_fetch_strong(&header->ref_count) == 1u;
 }
 
 //! Tests whether an object that always has a dynamic Impl is mutable.
@@ -385,7 +385,7 @@ static BL_INLINE bool is_dynamic_instance_mutable(const BLObjectCore* self) noex
   BL_ASSERT(self->_d.is_dynamic_object());
 
   const BLObjectImplHeader* header = get_impl_header(self->_d.impl);
-  return header->ref_count == 1u;
+  return bl_atomic_fetch_strong(&header->ref_count) == 1u;
 }
 
 template<typename T>
-- 
2.43.0


From 2cf4189cfff48688efc66e1fd0c665d8ba7f899f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:58 +0000
Subject: [PATCH 004/132] fix: save all edge builder state when the user thread
 processes jobs

The clip box in pixels and the flattening tolerance were left as set by the
last job, which changed how the following operations were rasterized.
---
 blend2d/raster/rastercontext.cpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/blend2d/raster/rastercontext.cpp b/blend2d/raster/rastercontext.cpp
index 342c53a..8fada4a 100644
--- a/blend2d/raster/rastercontext.cpp
+++ b/blend2d/raster/rastercontext.cpp
@@ -190,9 +190,20 @@ public:
 class SyncWorkState {
 public:
   BLBox _clip_box_d;
+  BLBoxI _clip_box_i;
+  double _flatten_tolerance_sq;
 
-  BL_INLINE_NODEBUG void save(const WorkData& work_data) noexcept { _clip_box_d = work_data.edge_builder._clip_box_d; }
-  BL_INLINE_NODEBUG void restore(WorkData& work_data) const noexcept { work_data.edge_builder._clip_box_d = _clip_box_d; }
+  BL_INLINE_NODEBUG void save(const WorkData& work_data) noexcept {
+    _clip_box_d = work_data.edge_builder._clip_box_d;
+    _clip_box_i = work_data.edge_builder._clip_box_i;
+    _flatten_tolerance_sq = work_data.edge_builder._flatten_tolerance_sq;
+  }
+
+  BL_INLINE_NODEBUG void restore(WorkData& work_data) const noexcept {
+    work_data.edge_builder._clip_box_d = _clip_box_d;
+    work_data.edge_builder._clip_box_i = _clip_box_i;
+    work_data.edge_builder._flatten_tolerance_sq = _flatten_tolerance_sq;
+  }
 };
 
 // bl::RasterEngine - ContextImpl - Internals - Core State
-- 
2.43.0


From 564a39b0678e7e8742e1a3ff6b93bb610af019cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:58 +0000
Subject: [PATCH 005/132] fix: release styles correctly when a context ends
 with unrestored states

A style changed after save() was leaked (or a wrong one released).
---
 blend2d/raster/rastercontext.cpp | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/blend2d/raster/rastercontext.cpp b/blend2d/raster/rastercontext.cpp
index 8fada4a..1b448ad 100644
--- a/blend2d/raster/rastercontext.cpp
+++ b/blend2d/raster/rastercontext.cpp
@@ -1599,20 +1599,20 @@ static void discard_states(BLRasterContextImpl* ctx_impl, SavedState* top_state)
   // NOTE: No need to handle parts of states that don't use dynamically allocated memory.
   ContextFlags context_flags = ctx_impl->context_flags;
   do {
-    if ((context_flags & (ContextFlags::kFetchDataFill | ContextFlags::kWeakStateFillStyle)) == ContextFlags::kFetchDataFill) {
-      constexpr uint32_t kSlot = BL_CONTEXT_STYLE_SLOT_FILL;
-      if (saved_state->style[kSlot].has_fetch_data()) {
-        RenderFetchData* fetch_data = saved_state->style[kSlot].get_render_fetch_data();
-        fetch_data->release(ctx_impl);
-      }
+    // NOTE: If the style was changed after the state was saved both the current and saved states hold their own style.
+    // Release the current one and make the saved one current, so it always matches the flags of the saved state.
+    if (!bl_test_flag(context_flags, ContextFlags::kWeakStateFillStyle)) {
+      StyleData* style = &ctx_impl->internal_state.style[BL_CONTEXT_STYLE_SLOT_FILL];
+      if (bl_test_flag(context_flags, ContextFlags::kFetchDataFill))
+        destroy_valid_style(ctx_impl, style);
+      style->copy_from(saved_state->style[BL_CONTEXT_STYLE_SLOT_FILL]);
     }
 
-    if ((context_flags & (ContextFlags::kFetchDataStroke | ContextFlags::kWeakStateStrokeStyle)) == ContextFlags::kFetchDataStroke) {
-      constexpr uint32_t kSlot = BL_CONTEXT_STYLE_SLOT_STROKE;
-      if (saved_state->style[kSlot].has_fetch_data()) {
-        RenderFetchData* fetch_data = saved_state->style[kSlot].get_render_fetch_data();
-        fetch_data->release(ctx_impl);
-      }
+    if (!bl_test_flag(context_flags, ContextFlags::kWeakStateStrokeStyle)) {
+      StyleData* style = &ctx_impl->internal_state.style[BL_CONTEXT_STYLE_SLOT_STROKE];
+      if (bl_test_flag(context_flags, ContextFlags::kFetchDataStroke))
+        destroy_valid_style(ctx_impl, style);
+      style->copy_from(saved_state->style[BL_CONTEXT_STYLE_SLOT_STROKE]);
     }
 
     if (!bl_test_flag(context_flags, ContextFlags::kWeakStateStrokeOptions)) {
-- 
2.43.0


From 93b7a52d5c6f5656f2770ebad93e7ae11e2ac9d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:58 +0000
Subject: [PATCH 006/132] fix: invalidate the shared stroke state when
 approximation options change

---
 blend2d/raster/rastercontext.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/blend2d/raster/rastercontext.cpp b/blend2d/raster/rastercontext.cpp
index 1b448ad..5e96663 100644
--- a/blend2d/raster/rastercontext.cpp
+++ b/blend2d/raster/rastercontext.cpp
@@ -1700,7 +1700,7 @@ static BLResult BL_CDECL restore_impl(BLContextImpl* base_impl, const BLContextC
       on_after_flatten_tolerance_changed(ctx_impl);
       on_after_offset_parameter_changed(ctx_impl);
 
-      context_flags_to_keep &= ~ContextFlags::kSharedStateFill;
+      context_flags_to_keep &= ~(ContextFlags::kSharedStateFill | ContextFlags::kSharedStateStrokeBase);
     }
 
     if (!bl_test_flag(current_flags, ContextFlags::kWeakStateClip)) {
@@ -1871,7 +1871,7 @@ static BLResult BL_CDECL set_flatten_mode_impl(BLContextImpl* base_impl, BLFlatt
     return bl_make_error(BL_ERROR_INVALID_VALUE);
 
   on_before_config_change(ctx_impl);
-  ctx_impl->context_flags &= ~ContextFlags::kWeakStateConfig;
+  ctx_impl->context_flags &= ~(ContextFlags::kWeakStateConfig | ContextFlags::kSharedStateStrokeBase);
 
   ctx_impl->internal_state.approximation_options.flatten_mode = uint8_t(mode);
   return BL_SUCCESS;
@@ -1884,7 +1884,7 @@ static BLResult BL_CDECL set_flatten_tolerance_impl(BLContextImpl* base_impl, do
     return bl_make_error(BL_ERROR_INVALID_VALUE);
 
   on_before_config_change(ctx_impl);
-  ctx_impl->context_flags &= ~(ContextFlags::kWeakStateConfig | ContextFlags::kSharedStateFill);
+  ctx_impl->context_flags &= ~(ContextFlags::kWeakStateConfig | ContextFlags::kSharedStateFill | ContextFlags::kSharedStateStrokeBase);
 
   tolerance = bl_clamp(tolerance, ContextInternal::kMinimumTolerance, ContextInternal::kMaximumTolerance);
   BL_ASSERT(Math::is_finite(tolerance));
@@ -1911,7 +1911,7 @@ static BLResult BL_CDECL set_approximation_options_impl(BLContextImpl* base_impl
     return bl_make_error(BL_ERROR_INVALID_VALUE);
 
   on_before_config_change(ctx_impl);
-  ctx_impl->context_flags &= ~(ContextFlags::kWeakStateConfig | ContextFlags::kSharedStateFill);
+  ctx_impl->context_flags &= ~(ContextFlags::kWeakStateConfig | ContextFlags::kSharedStateFill | ContextFlags::kSharedStateStrokeBase);
 
   BLApproximationOptions& dst = ctx_impl->internal_state.approximation_options;
   dst.flatten_mode = uint8_t(flatten_mode);
-- 
2.43.0


From 0ca87d775fb9e03616c85388d0895ec7966ec9e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:58 +0000
Subject: [PATCH 007/132] fix: retain the saved stroke style based on its own
 flag in swap_styles()

---
 blend2d/raster/rastercontext.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blend2d/raster/rastercontext.cpp b/blend2d/raster/rastercontext.cpp
index 5e96663..7054aea 100644
--- a/blend2d/raster/rastercontext.cpp
+++ b/blend2d/raster/rastercontext.cpp
@@ -1976,7 +1976,7 @@ static BLResult BL_CDECL swap_styles_impl(BLContextImpl* base_impl, BLContextSty
 
     if (bl_test_flag(context_flags, ContextFlags::kWeakStateStrokeStyle)) {
       ctx_impl->saved_state->style[kStrokeSlot].copy_from(state.style[kStrokeSlot]);
-      if (bl_test_flag(context_flags, ContextFlags::kFetchDataFill))
+      if (bl_test_flag(context_flags, ContextFlags::kFetchDataStroke))
         state.style[kStrokeSlot].get_render_fetch_data()->ref_count++;
     }
 
-- 
2.43.0


From 8e054022b501da1e4cd116bd598f824b6d5a8708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:58 +0000
Subject: [PATCH 008/132] fix: release mask images retained by asynchronous
 masked box fills

---
 blend2d/raster/rastercontext.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/blend2d/raster/rastercontext.cpp b/blend2d/raster/rastercontext.cpp
index 7054aea..f596991 100644
--- a/blend2d/raster/rastercontext.cpp
+++ b/blend2d/raster/rastercontext.cpp
@@ -3181,6 +3181,10 @@ BL_NOINLINE BLResult fill_clipped_box_masked_a<kAsync>(
 
   return enqueue_command(ctx_impl, command, qy0, ds.fetch_data, [&](RenderCommand* command) noexcept {
     ObjectInternal::retain_impl<RCMode::kMaybe>(command->_payload.box_mask_a.mask_image_i.ptr);
+
+    // The mask must be released when the batch is finalized.
+    command->add_flags(RenderCommandFlags::kRetainsMaskImageData);
+    ctx_impl->worker_mgr()._command_appender.mark_fetch_data();
   });
 }
 
-- 
2.43.0


From c9123ea6f76ad0bde534661ed90f812033f0164c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:58 +0000
Subject: [PATCH 009/132] fix: save stroke options before caps and join are
 changed

set_stroke_cap(), set_stroke_caps(), and set_stroke_join() kept the weak-state
flag, so restore() did not restore them and the dash array was leaked.
---
 blend2d/raster/rastercontext.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/blend2d/raster/rastercontext.cpp b/blend2d/raster/rastercontext.cpp
index f596991..7d0bc51 100644
--- a/blend2d/raster/rastercontext.cpp
+++ b/blend2d/raster/rastercontext.cpp
@@ -2093,7 +2093,7 @@ static BLResult BL_CDECL set_stroke_cap_impl(BLContextImpl* base_impl, BLStrokeC
     return bl_make_error(BL_ERROR_INVALID_VALUE);
 
   on_before_stroke_change(ctx_impl);
-  ctx_impl->context_flags &= ~ContextFlags::kSharedStateStrokeBase;
+  ctx_impl->context_flags &= ~(ContextFlags::kWeakStateStrokeOptions | ContextFlags::kSharedStateStrokeBase);
 
   ctx_impl->internal_state.stroke_options.caps[position] = uint8_t(stroke_cap);
   return BL_SUCCESS;
@@ -2106,7 +2106,7 @@ static BLResult BL_CDECL set_stroke_caps_impl(BLContextImpl* base_impl, BLStroke
     return bl_make_error(BL_ERROR_INVALID_VALUE);
 
   on_before_stroke_change(ctx_impl);
-  ctx_impl->context_flags &= ~ContextFlags::kSharedStateStrokeBase;
+  ctx_impl->context_flags &= ~(ContextFlags::kWeakStateStrokeOptions | ContextFlags::kSharedStateStrokeBase);
 
   for (uint32_t i = 0; i <= BL_STROKE_CAP_POSITION_MAX_VALUE; i++)
     ctx_impl->internal_state.stroke_options.caps[i] = uint8_t(stroke_cap);
@@ -2120,7 +2120,7 @@ static BLResult BL_CDECL set_stroke_join_impl(BLContextImpl* base_impl, BLStroke
     return bl_make_error(BL_ERROR_INVALID_VALUE);
 
   on_before_stroke_change(ctx_impl);
-  ctx_impl->context_flags &= ~ContextFlags::kSharedStateStrokeBase;
+  ctx_impl->context_flags &= ~(ContextFlags::kWeakStateStrokeOptions | ContextFlags::kSharedStateStrokeBase);
 
   ctx_impl->internal_state.stroke_options.join = uint8_t(stroke_join);
   return BL_SUCCESS;
-- 
2.43.0


From 256148e2a8a73053d146699bab38a1b2bae99610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:28 +0000
Subject: [PATCH 010/132] fix: access lazily created gradient lookup tables and
 info atomically

The plain loads raced with the compare-exchange done by other threads that use
the same gradient.
---
 blend2d/core/gradient.cpp        | 24 ++++++++++++------------
 blend2d/raster/rastercontext.cpp |  2 +-
 2 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/blend2d/core/gradient.cpp b/blend2d/core/gradient.cpp
index ba5fd61..299d79f 100644
--- a/blend2d/core/gradient.cpp
+++ b/blend2d/core/gradient.cpp
@@ -202,7 +202,7 @@ static BL_INLINE BLResult invalidate_lut_cache(BLGradientPrivateImpl* impl) noex
 BLGradientInfo ensure_info(BLGradientPrivateImpl* impl) noexcept {
   BLGradientInfo info;
 
-  info.packed = impl->info32.packed;
+  info.packed = bl_atomic_fetch_relaxed(&impl->info32.packed);
 
   constexpr uint32_t FLAG_ALPHA_NOT_ONE  = 0x1; // Has alpha that is not 1.0.
   constexpr uint32_t FLAG_ALPHA_NOT_ZERO = 0x2; // Has alpha that is not 0.0.
@@ -278,8 +278,8 @@ BLGradientInfo ensure_info(BLGradientPrivateImpl* impl) noexcept {
       info.format = uint8_t(flags & FLAG_ALPHA_NOT_ONE ? FormatExt::kPRGB32 : FormatExt::kFRGB32);
       info._lut_size = uint16_t(lut_size);
 
-      // Update the info. It doesn't have to be atomic.
-      impl->info32.packed = info.packed;
+      // Update the info - all threads would calculate the same value, so it doesn't matter which one wins.
+      bl_atomic_store_relaxed(&impl->info32.packed, info.packed);
     }
   }
 
@@ -287,7 +287,7 @@ BLGradientInfo ensure_info(BLGradientPrivateImpl* impl) noexcept {
 }
 
 BLGradientLUT* ensure_lut32(BLGradientPrivateImpl* impl, uint32_t lut_size) noexcept {
-  BLGradientLUT* lut = impl->lut32;
+  BLGradientLUT* lut = bl_atomic_fetch_strong(&impl->lut32);
   if (lut) {
     BL_ASSERT(lut->size == lut_size);
     return lut;
@@ -312,7 +312,7 @@ BLGradientLUT* ensure_lut32(BLGradientPrivateImpl* impl, uint32_t lut_size) noex
 }
 
 BLGradientLUT* ensure_lut64(BLGradientPrivateImpl* impl, uint32_t lut_size) noexcept {
-  BLGradientLUT* lut = impl->lut64;
+  BLGradientLUT* lut = bl_atomic_fetch_strong(&impl->lut64);
   if (lut) {
     BL_ASSERT(lut->size == lut_size);
     return lut;
@@ -375,9 +375,9 @@ static BL_NOINLINE BLResult deep_copy(BLGradientCore* self, const BLGradientCore
   new_impl->size = copy_stops(new_impl->stops, other_impl->stops, other_impl->size);
 
   if (copy_cache) {
-    new_impl->lut32 = copyMaybeNullLUT(other_impl->lut32);
-    new_impl->lut64 = copyMaybeNullLUT(other_impl->lut64);
-    new_impl->info32.packed = other_impl->info32.packed;
+    new_impl->lut32 = copyMaybeNullLUT(bl_atomic_fetch_strong(&other_impl->lut32));
+    new_impl->lut64 = copyMaybeNullLUT(bl_atomic_fetch_strong(&other_impl->lut64));
+    new_impl->info32.packed = bl_atomic_fetch_relaxed(&other_impl->info32.packed);
   }
 
   return replace_instance(self, &newO);
@@ -547,8 +547,8 @@ BL_API_IMPL BLResult bl_gradient_shrink(BLGradientCore* self) noexcept {
   BLGradientPrivateImpl* new_impl = get_impl(&newO);
   newO._d.info.set_fields(self->_d.fields());
   new_impl->size = copy_stops(new_impl->stops, self_impl->stops, self_impl->size);
-  new_impl->lut32 = copyMaybeNullLUT(self_impl->lut32);
-  new_impl->lut64 = copyMaybeNullLUT(self_impl->lut64);
+  new_impl->lut32 = copyMaybeNullLUT(bl_atomic_fetch_strong(&self_impl->lut32));
+  new_impl->lut64 = copyMaybeNullLUT(bl_atomic_fetch_strong(&self_impl->lut64));
 
   return replace_instance(self, &newO);
 }
@@ -571,8 +571,8 @@ BL_API_IMPL BLResult bl_gradient_reserve(BLGradientCore* self, size_t n) noexcep
   BLGradientPrivateImpl* new_impl = get_impl(&newO);
   newO._d.info.set_fields(self->_d.fields());
   new_impl->size = copy_stops(new_impl->stops, self_impl->stops, self_impl->size);
-  new_impl->lut32 = copyMaybeNullLUT(self_impl->lut32);
-  new_impl->lut64 = copyMaybeNullLUT(self_impl->lut64);
+  new_impl->lut32 = copyMaybeNullLUT(bl_atomic_fetch_strong(&self_impl->lut32));
+  new_impl->lut64 = copyMaybeNullLUT(bl_atomic_fetch_strong(&self_impl->lut64));
 
   return replace_instance(self, &newO);
 }
diff --git a/blend2d/raster/rastercontext.cpp b/blend2d/raster/rastercontext.cpp
index 7d0bc51..c671bad 100644
--- a/blend2d/raster/rastercontext.cpp
+++ b/blend2d/raster/rastercontext.cpp
@@ -474,7 +474,7 @@ static BL_INLINE bool init_non_solid_fetch_data(
         const void* lut_data = nullptr;
         uint32_t lut_size = gradient_info.lut_size(quality >= BL_GRADIENT_QUALITY_DITHER);
 
-        BLGradientLUT* lut = gradient_impl->lut[size_t(quality >= BL_GRADIENT_QUALITY_DITHER)];
+        BLGradientLUT* lut = bl_atomic_fetch_strong(&gradient_impl->lut[size_t(quality >= BL_GRADIENT_QUALITY_DITHER)]);
         if (lut)
           lut_data = lut->data();
 
-- 
2.43.0


From 8875315d3398faab9a9e87e276adf052db152981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:48 +0000
Subject: [PATCH 011/132] fix: release the dash array when a rendering context
 is destroyed

---
 blend2d/raster/rastercontext.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blend2d/raster/rastercontext.cpp b/blend2d/raster/rastercontext.cpp
index c671bad..f3d5f8f 100644
--- a/blend2d/raster/rastercontext.cpp
+++ b/blend2d/raster/rastercontext.cpp
@@ -4469,7 +4469,7 @@ static BLResult detach(BLRasterContextImpl* ctx_impl) noexcept {
   // Important as the user doesn't have to restore all states, in that case we basically need to iterate
   // over all of them and release resources they hold.
   discard_states(ctx_impl, nullptr);
-  bl_call_dtor(ctx_impl->internal_state.stroke_options);
+  bl_call_dtor(ctx_impl->internal_state.stroke_options.dcast());
 
   ContextFlags context_flags = ctx_impl->context_flags;
   if (bl_test_flag(context_flags, ContextFlags::kFetchDataFill))
-- 
2.43.0


From e6daa1a7f24b86fb5788cbc4642303303caad71d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:48 +0000
Subject: [PATCH 012/132] fix: destroy shared stroke states when a render batch
 is finished

---
 blend2d/raster/rastercontext.cpp |  2 ++
 blend2d/raster/statedata_p.h     |  3 +++
 blend2d/raster/workermanager.cpp |  2 ++
 blend2d/raster/workermanager_p.h | 20 ++++++++++++++++++++
 4 files changed, 27 insertions(+)

diff --git a/blend2d/raster/rastercontext.cpp b/blend2d/raster/rastercontext.cpp
index f3d5f8f..a87882c 100644
--- a/blend2d/raster/rastercontext.cpp
+++ b/blend2d/raster/rastercontext.cpp
@@ -1069,6 +1069,7 @@ static BL_NOINLINE BLResult flush_render_batch(BLRasterContextImpl* ctx_impl) no
     }
 
     release_batch_fetch_data(ctx_impl, batch->_command_list.first());
+    mgr.release_shared_stroke_states();
 
     mgr._allocator.clear();
     mgr.init_first_batch();
@@ -2377,6 +2378,7 @@ static BL_INLINE SharedBaseStrokeState* get_shared_stroke_state(BLRasterContextI
     shared_stroke_state = ctx_impl->worker_mgr().allocate_from_shared_data_pool<SharedBaseStrokeState>(state_size);
 
     bl_call_ctor(*shared_stroke_state, ctx_impl->stroke_options(), ctx_impl->approximation_options());
+    ctx_impl->worker_mgr().add_shared_stroke_state(shared_stroke_state);
 
     if (transform_order != BL_STROKE_TRANSFORM_ORDER_AFTER) {
       const BLMatrix2D& ut = ctx_impl->user_transform();
diff --git a/blend2d/raster/statedata_p.h b/blend2d/raster/statedata_p.h
index deb8b40..156f9bf 100644
--- a/blend2d/raster/statedata_p.h
+++ b/blend2d/raster/statedata_p.h
@@ -150,6 +150,9 @@ struct SharedFillState {
 
 //! A shared stroke state is used by asynchronous rendering context and can be shared between multiple rendering jobs.
 struct SharedBaseStrokeState {
+  //! Link to the previously created state, used to destroy all states when a batch is finished.
+  SharedBaseStrokeState* prev_state {};
+
   BLStrokeOptions stroke_options;
   BLApproximationOptions approximation_options;
 
diff --git a/blend2d/raster/workermanager.cpp b/blend2d/raster/workermanager.cpp
index a13c711..3080b08 100644
--- a/blend2d/raster/workermanager.cpp
+++ b/blend2d/raster/workermanager.cpp
@@ -145,6 +145,8 @@ void WorkerManager::reset() noexcept {
 
   _is_active = false;
 
+  release_shared_stroke_states();
+
   if (_thread_pool) {
     for (uint32_t i = 0; i < _thread_count; i++)
       bl_call_dtor(*_work_data_storage[i]);
diff --git a/blend2d/raster/workermanager_p.h b/blend2d/raster/workermanager_p.h
index 3fcff36..60dedba 100644
--- a/blend2d/raster/workermanager_p.h
+++ b/blend2d/raster/workermanager_p.h
@@ -167,6 +167,9 @@ public:
   //! Preallocated shared data pool - used by shared fill and stroke states.
   PreallocatedBytePool _shared_data_pool;
 
+  //! All shared stroke states of the current batch (they hold a reference to a dash array).
+  SharedBaseStrokeState* _shared_stroke_states;
+
   //! Thread-pool that owns worker threads.
   BLThreadPool* _thread_pool;
   //! Worker threads acquired from `_thread_pool`.
@@ -204,6 +207,7 @@ public:
       _job_appender{},
       _fetch_data_pool{},
       _shared_data_pool{},
+      _shared_stroke_states{},
       _thread_pool{},
       _worker_threads{},
       _work_data_storage{},
@@ -399,6 +403,22 @@ public:
     return static_cast<T*>(_shared_data_pool.alloc(size));
   }
 
+  BL_INLINE void add_shared_stroke_state(SharedBaseStrokeState* state) noexcept {
+    state->prev_state = _shared_stroke_states;
+    _shared_stroke_states = state;
+  }
+
+  BL_INLINE void release_shared_stroke_states() noexcept {
+    SharedBaseStrokeState* state = _shared_stroke_states;
+    _shared_stroke_states = nullptr;
+
+    while (state) {
+      SharedBaseStrokeState* prev_state = state->prev_state;
+      bl_call_dtor(*state);
+      state = prev_state;
+    }
+  }
+
   //! \}
 
   //! \name Work Batch
-- 
2.43.0


From 603e752a813b0841adf2f869b7e3a1504c288469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:37 +0000
Subject: [PATCH 013/132] fix: advance the buffer after short reads and writes

---
 blend2d/core/filesystem.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/blend2d/core/filesystem.cpp b/blend2d/core/filesystem.cpp
index 13d3f15..c946bd6 100644
--- a/blend2d/core/filesystem.cpp
+++ b/blend2d/core/filesystem.cpp
@@ -743,7 +743,7 @@ BL_API_IMPL BLResult bl_file_read(BLFileCore* self, void* buffer, size_t n, size
   size_t bytes_read = 0;
 
   for (;;) {
-    SignedSizeT result = read(fd, buffer, n - bytes_read);
+    SignedSizeT result = read(fd, bl::PtrOps::offset(buffer, bytes_read), n - bytes_read);
     if (result < 0) {
       int e = errno;
       *bytes_read_out = bytes_read;
@@ -779,7 +779,7 @@ BL_API_IMPL BLResult bl_file_write(BLFileCore* self, const void* buffer, size_t
   size_t bytes_written = 0;
 
   for (;;) {
-    SignedSizeT result = write(fd, buffer, n - bytes_written);
+    SignedSizeT result = write(fd, bl::PtrOps::offset(buffer, bytes_written), n - bytes_written);
     if (result < 0) {
       int e = errno;
       *bytes_written_out = bytes_written;
-- 
2.43.0


From 6182ca941cfbb3b2442dea727af58bb3a48529c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:38 +0000
Subject: [PATCH 014/132] fix: convert seconds to microseconds in modified_time
 of BLFileInfo

---
 blend2d/core/filesystem.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blend2d/core/filesystem.cpp b/blend2d/core/filesystem.cpp
index c946bd6..891531a 100644
--- a/blend2d/core/filesystem.cpp
+++ b/blend2d/core/filesystem.cpp
@@ -579,7 +579,7 @@ static BL_INLINE int64_t unix_micro_from_file_time(const T& t) noexcept {
 #if defined(BL_FS_STAT_MTIMESPEC)
 template<typename T>
 static BL_INLINE int64_t unix_micro_from_time_spec(const T& ts) noexcept {
-  return int64_t(uint64_t(ts.tv_sec) + (uint32_t(ts.tv_nsec) / 1000u));
+  return int64_t(uint64_t(ts.tv_sec) * 1000000u + (uint32_t(ts.tv_nsec) / 1000u));
 }
 #endif
 
-- 
2.43.0


From 5422427f6e092388a9d8297c4adb7c430064acce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:03 +0000
Subject: [PATCH 015/132] fix: clear all bands when an edge builder is reverted

---
 blend2d/raster/edgestorage_p.h | 9 +++++++++
 blend2d/raster/workdata_p.h    | 3 +--
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/blend2d/raster/edgestorage_p.h b/blend2d/raster/edgestorage_p.h
index 9d50a5f..96298b3 100644
--- a/blend2d/raster/edgestorage_p.h
+++ b/blend2d/raster/edgestorage_p.h
@@ -117,6 +117,15 @@ public:
     }
   }
 
+  //! Clears all bands regardless of the bounding box - must be used when adding edges has failed, because the bounding
+  //! box of partially added edges doesn't have to be up to date in such case.
+  BL_INLINE void clear_all_bands() noexcept {
+    for (size_t i = 0; i < _band_count; i++)
+      _band_edges[i].reset();
+
+    reset_bounding_box();
+  }
+
   BL_INLINE bool is_empty() const noexcept { return _bounding_box.y0 == Traits::max_value<int>(); }
 
   BL_INLINE EdgeList<CoordT>* band_edges() const noexcept { return _band_edges; }
diff --git a/blend2d/raster/workdata_p.h b/blend2d/raster/workdata_p.h
index 136d1b3..cf50d58 100644
--- a/blend2d/raster/workdata_p.h
+++ b/blend2d/raster/workdata_p.h
@@ -124,8 +124,7 @@ public:
   }
 
   BL_INLINE void revert_edge_builder() noexcept {
-    edge_builder.merge_bounding_box();
-    edge_storage.clear();
+    edge_storage.clear_all_bands();
     work_zone.restore_state(work_state);
   }
 
-- 
2.43.0


From f6d9e043d15b6788506f69f25ced497a31c8e2cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:03 +0000
Subject: [PATCH 016/132] fix: zero rasterized cells when fill_analytic runs
 out of memory

---
 blend2d/raster/rendercommandprocasync_p.h | 5 ++++-
 blend2d/raster/rendercommandprocsync_p.h  | 7 ++++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/blend2d/raster/rendercommandprocasync_p.h b/blend2d/raster/rendercommandprocasync_p.h
index fbf204c..c960200 100644
--- a/blend2d/raster/rendercommandprocasync_p.h
+++ b/blend2d/raster/rendercommandprocasync_p.h
@@ -388,7 +388,10 @@ SaveState:
     if (!pooled) {
       pooled = static_cast<AnalyticActiveEdge<int>*>(work_zone->alloc(sizeof(AnalyticActiveEdge<int>)));
       if (BL_UNLIKELY(!pooled)) {
-        // Failed to allocate memory for the current edge.
+        // Failed to allocate memory for the current edge - some edges could have been already rasterized, so cells must
+        // be zeroed. In addition, all pooled edges have been used at this point.
+        memset(work_data.zero_buffer.data, 0, cells_start + required_height * cell_stride);
+        proc_data._pooled_edges = nullptr;
         proc_data.work_data()->accumulate_error_flag(BL_CONTEXT_ERROR_FLAG_OUT_OF_MEMORY);
         return CommandStatus::kDone;
       }
diff --git a/blend2d/raster/rendercommandprocsync_p.h b/blend2d/raster/rendercommandprocsync_p.h
index ed4a151..a230857 100644
--- a/blend2d/raster/rendercommandprocsync_p.h
+++ b/blend2d/raster/rendercommandprocsync_p.h
@@ -194,8 +194,13 @@ SaveState:
     if (edges) {
       if (!pooled) {
         pooled = static_cast<AnalyticActiveEdge<int>*>(work_zone->alloc(sizeof(AnalyticActiveEdge<int>)));
-        if (BL_UNLIKELY(!pooled))
+        if (BL_UNLIKELY(!pooled)) {
+          // Some edges could have been already rasterized, so cells must be zeroed and remaining edges dropped.
+          memset(work_data.zero_buffer.data, 0, cells_start + required_height * cell_stride);
+          work_data.edge_storage.clear_all_bands();
+          work_zone->clear();
           return bl_make_error(BL_ERROR_OUT_OF_MEMORY);
+        }
         pooled->next = nullptr;
       }
 
-- 
2.43.0


From 16c9f7d21825d6cc88a5f5fb45ec1e446283b88a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:03 +0000
Subject: [PATCH 017/132] fix: report out of memory in text and stroke jobs

---
 blend2d/raster/rastercontextops_p.h |  6 +++++-
 blend2d/raster/renderjobproc_p.h    | 22 ++++++++++++++++++----
 blend2d/raster/workerproc.cpp       |  1 +
 3 files changed, 24 insertions(+), 5 deletions(-)

diff --git a/blend2d/raster/rastercontextops_p.h b/blend2d/raster/rastercontextops_p.h
index 5f5e490..e04774e 100644
--- a/blend2d/raster/rastercontextops_p.h
+++ b/blend2d/raster/rastercontextops_p.h
@@ -111,7 +111,11 @@ static BL_INLINE BLResult add_stroked_path_edges(
 
   if (accessor.stroke_options().transform_order != BL_STROKE_TRANSFORM_ORDER_AFTER) {
     a->clear();
-    BL_PROPAGATE(a->add_path(*path, accessor.user_transform()));
+    BLResult result = a->add_path(*path, accessor.user_transform());
+
+    if (BL_UNLIKELY(result != BL_SUCCESS)) {
+      return work_data->accumulate_error(result);
+    }
 
     path = a;
     a = &work_data->tmp_path[3];
diff --git a/blend2d/raster/renderjobproc_p.h b/blend2d/raster/renderjobproc_p.h
index 3f48d91..bade2b5 100644
--- a/blend2d/raster/renderjobproc_p.h
+++ b/blend2d/raster/renderjobproc_p.h
@@ -158,13 +158,20 @@ static void process_fill_text_job(WorkData* work_data, RenderJob_TextOp* job) no
 
     if (data_type != RenderJob::kTextDataGlyphBuffer) {
       glyph_buffer = &work_data->glyph_buffer;
-      glyph_buffer->set_text(job->text_data(), job->text_size(), (BLTextEncoding)data_type);
+      result = glyph_buffer->set_text(job->text_data(), job->text_size(), (BLTextEncoding)data_type);
     }
     else {
       glyph_buffer = &job->_glyph_buffer.dcast();
     }
 
-    result = font.shape(*glyph_buffer);
+    if (result == BL_SUCCESS) {
+      result = font.shape(*glyph_buffer);
+    }
+
+    if (BL_UNLIKELY(result != BL_SUCCESS)) {
+      work_data->accumulate_error(result);
+    }
+
     glyph_run = &glyph_buffer->glyph_run();
   }
   else {
@@ -218,13 +225,20 @@ static void process_stroke_text_job(WorkData* work_data, RenderJob_TextOp* job)
 
     if (data_type != RenderJob::kTextDataGlyphBuffer) {
       glyph_buffer = &work_data->glyph_buffer;
-      glyph_buffer->set_text(job->text_data(), job->text_size(), (BLTextEncoding)data_type);
+      result = glyph_buffer->set_text(job->text_data(), job->text_size(), (BLTextEncoding)data_type);
     }
     else {
       glyph_buffer = &job->_glyph_buffer.dcast();
     }
 
-    result = font.shape(*glyph_buffer);
+    if (result == BL_SUCCESS) {
+      result = font.shape(*glyph_buffer);
+    }
+
+    if (BL_UNLIKELY(result != BL_SUCCESS)) {
+      work_data->accumulate_error(result);
+    }
+
     glyph_run = &glyph_buffer->glyph_run();
   }
   else {
diff --git a/blend2d/raster/workerproc.cpp b/blend2d/raster/workerproc.cpp
index c24fdd6..41d8963 100644
--- a/blend2d/raster/workerproc.cpp
+++ b/blend2d/raster/workerproc.cpp
@@ -264,6 +264,7 @@ static void process_commands(WorkData* work_data, RenderBatch* batch) noexcept {
   BLResult result = proc_data.init_proc_data();
   if (result != BL_SUCCESS) {
     work_data->accumulate_error(result);
+    work_data->work_zone.restore_state(zone_state);
     return;
   }
 
-- 
2.43.0


From 2e80d84d4c4e86e1bf37099b8650696b495dafbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:48 +0000
Subject: [PATCH 018/132] fix: copy bits when a modified BLBitArray is shared

---
 blend2d/core/bitarray.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/blend2d/core/bitarray.cpp b/blend2d/core/bitarray.cpp
index c6da037..a37f3df 100644
--- a/blend2d/core/bitarray.cpp
+++ b/blend2d/core/bitarray.cpp
@@ -94,14 +94,19 @@ static BL_NOINLINE BLResult make_mutable_for_modify_op(BLBitArrayCore* self, siz
     }
 
     BLBitArrayCore newO;
+    size_t word_count = word_count_from_bit_count(size);
+
     if (size <= kSSOBitCapacity) {
       init_sso(&newO, size);
+      MemOps::copy_forward_inline_t(newO._d.u32_data, self_impl->data(), word_count);
 
       *out = BitData{self->_d.u32_data, size};
       return replace_instance(self, &newO);
     }
 
-    BL_PROPAGATE(init_dynamic(&newO, impl_size_from_word_capacity(word_count_from_bit_count(size)), size));
+    BL_PROPAGATE(init_dynamic(&newO, impl_size_from_word_capacity(word_count), size));
+    MemOps::copy_forward_inline_t(get_impl(&newO)->data(), self_impl->data(), word_count);
+
     *out = BitData{get_impl(&newO)->data(), size};
     return replace_instance(self, &newO);
   }
-- 
2.43.0


From 7ea934d25a2249bb65e2cb175fdda0a7218861eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:48 +0000
Subject: [PATCH 019/132] fix: do not read words when a BLBitArray is combined
 with no words

---
 blend2d/core/bitarray.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/blend2d/core/bitarray.cpp b/blend2d/core/bitarray.cpp
index a37f3df..9001a91 100644
--- a/blend2d/core/bitarray.cpp
+++ b/blend2d/core/bitarray.cpp
@@ -202,6 +202,10 @@ static BL_INLINE BLResult combine_word_data(BitData d, size_t bit_index, const u
     return BL_SUCCESS;
   }
 
+  // Nothing to combine - `word_data` must not be accessed.
+  if (bit_count == 0u)
+    return BL_SUCCESS;
+
   uint32_t w = word_data[0];
   uint32_t bit_shift_inv = BitArrayOps::kNumBits - bit_shift;
 
-- 
2.43.0


From 278736e0a147fbdf18d185eb728cf1eaf4f5b6ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:48 +0000
Subject: [PATCH 020/132] fix: bl_bit_set_get_range() returns false when a SSO
 range is empty

---
 blend2d/core/bitset.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blend2d/core/bitset.cpp b/blend2d/core/bitset.cpp
index d7fc868..7df1dd0 100644
--- a/blend2d/core/bitset.cpp
+++ b/blend2d/core/bitset.cpp
@@ -1798,7 +1798,7 @@ BL_API_IMPL bool bl_bit_set_get_range(const BLBitSetCore* self, uint32_t* start_
       Range range = get_sso_range(self);
       *start_out = range.start;
       *end_out = range.end;
-      return true;
+      return !range.is_empty();
     }
     else {
       SSODenseInfo info = get_sso_dense_info(self);
-- 
2.43.0


From 075b7168cfcb442b43107a72c008c6b101b1d4ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:11 +0000
Subject: [PATCH 021/132] fix: bl_array_replace_data() must grow the array and
 move its tail

---
 blend2d/core/array.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/blend2d/core/array.cpp b/blend2d/core/array.cpp
index 5ecfb55..8c5fe85 100644
--- a/blend2d/core/array.cpp
+++ b/blend2d/core/array.cpp
@@ -1187,7 +1187,7 @@ BL_API_IMPL BLResult bl_array_replace_data(BLArrayCore* self, size_t r_start, si
   size_t tail_size = u.size - end;
   size_t size_after = u.size - range_size + n;
 
-  if (is_instance_mutable(self)) {
+  if (size_after <= u.capacity && is_instance_mutable(self)) {
     // 0           |<-Start   End->|          | <- Size
     // ^***********^***************^**********^
     // | Unchanged |  Replacement  | TailSize |
@@ -1198,15 +1198,20 @@ BL_API_IMPL BLResult bl_array_replace_data(BLArrayCore* self, size_t r_start, si
     const uint8_t* items_ptr = static_cast<const uint8_t*>(items);
     const uint8_t* items_end = items_ptr + item_size * n;
 
-    if (BL_LIKELY(items_ptr >= u.data + u.size * n || items_end <= u.data)) {
+    if (BL_LIKELY(items_ptr >= u.data + u.size * item_size || items_end <= u.data)) {
       // Non-overlaping case (the expected one).
       if (range_size == n) {
         assign_content_by_type(u.data + index * item_size, items, n * item_size, array_type);
       }
       else {
         release_content_by_type(u.data + index * item_size, range_size * item_size, array_type);
-        memmove(u.data + (index + range_size) * item_size, u.data + end * item_size, tail_size * item_size);
+        memmove(u.data + (index + n) * item_size, u.data + end * item_size, tail_size * item_size);
         init_content_by_type(u.data + index * item_size, items, n * item_size, array_type);
+
+        // Unused SSO bytes must be zero.
+        if (self->_d.sso() && size_after < u.size)
+          bl::MemOps::fill_small_t(u.data + size_after * item_size, uint8_t(0), (u.size - size_after) * item_size);
+
         set_size(self, size_after);
       }
       return BL_SUCCESS;
-- 
2.43.0


From 1c468c3facfacdf0e89016fb944ff574ba2d3d78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:52 +0000
Subject: [PATCH 022/132] fix: bl_array_assign_data() must size the new array
 by n and initialise added objects

---
 blend2d/core/array.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/blend2d/core/array.cpp b/blend2d/core/array.cpp
index 8c5fe85..a7e6642 100644
--- a/blend2d/core/array.cpp
+++ b/blend2d/core/array.cpp
@@ -883,7 +883,7 @@ BL_API_IMPL BLResult bl_array_assign_data(BLArrayCore* self, const void* items,
     if (BL_UNLIKELY(n > maximum_capacity_table[array_type]))
       return bl_make_error(BL_ERROR_OUT_OF_MEMORY);
 
-    BLObjectImplSize impl_size = impl_size_from_capacity(u.size, item_size);
+    BLObjectImplSize impl_size = impl_size_from_capacity(n, item_size);
     BLArrayCore newO;
     BL_PROPAGATE(init_dynamic(&newO, array_type, n, impl_size));
 
@@ -902,7 +902,11 @@ BL_API_IMPL BLResult bl_array_assign_data(BLArrayCore* self, const void* items,
     const uint8_t* src = static_cast<const uint8_t*>(items);
 
     assign_content_objects(u.data, src, replace_size * item_size);
-    release_content_objects(u.data + replace_size * item_size, (u.size - replace_size) * item_size);
+
+    if (n > replace_size)
+      init_content_objects(u.data + replace_size * item_size, src + replace_size * item_size, (n - replace_size) * item_size);
+    else
+      release_content_objects(u.data + replace_size * item_size, (u.size - replace_size) * item_size);
 
     return BL_SUCCESS;
   }
-- 
2.43.0


From 0e46c5e809eb75d0d35f5445a810cb9f8b2b5bf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:34 +0000
Subject: [PATCH 023/132] fix: destroying an array of objects must release its
 items

---
 blend2d/core/array.cpp  | 16 ++++++++++++----
 blend2d/core/array_p.h  | 10 +++++-----
 blend2d/core/object.cpp |  2 +-
 3 files changed, 18 insertions(+), 10 deletions(-)

diff --git a/blend2d/core/array.cpp b/blend2d/core/array.cpp
index a7e6642..590bc86 100644
--- a/blend2d/core/array.cpp
+++ b/blend2d/core/array.cpp
@@ -280,6 +280,11 @@ static BL_NOINLINE BLResult init_array(BLArrayCore* self, BLObjectType array_typ
   }
 }
 
+//! Tests whether items of `self` can be moved to another Impl, which means that nothing else references or owns them.
+static BL_INLINE bool is_content_movable(const BLArrayCore* self) noexcept {
+  return is_instance_dynamic_and_mutable(self) && !ObjectInternal::is_impl_external(get_impl(self));
+}
+
 static BL_NOINLINE BLResult realloc_to_dynamic(BLArrayCore* self, BLObjectType array_type, BLObjectImplSize impl_size) noexcept {
   BL_ASSERT(self->_d.raw_type() == array_type);
 
@@ -290,7 +295,7 @@ static BL_NOINLINE BLResult realloc_to_dynamic(BLArrayCore* self, BLObjectType a
   BL_PROPAGATE(init_dynamic(&newO, array_type, size, impl_size));
 
   uint8_t* dst = get_impl(&newO)->data_as<uint8_t>();
-  if (is_instance_dynamic_and_mutable(self)) {
+  if (is_content_movable(self)) {
     BLArrayImpl* tmp_impl = get_impl(self);
     memcpy(dst, tmp_impl->data, size * item_size);
     tmp_impl->size = 0;
@@ -302,9 +307,12 @@ static BL_NOINLINE BLResult realloc_to_dynamic(BLArrayCore* self, BLObjectType a
   return replace_instance(self, &newO);
 }
 
-BLResult free_impl(BLArrayImpl* impl) noexcept {
+BLResult free_impl(BLArrayImpl* impl, BLObjectType array_type) noexcept {
+  // Items stored in external memory are owned by whoever provided the memory.
   if (ObjectInternal::is_impl_external(impl))
     ObjectInternal::call_external_destroy_func(impl, impl->data);
+  else
+    release_content_by_type(impl->data, impl->size * item_size_table[array_type], array_type);
   return ObjectInternal::free_impl(impl);
 }
 
@@ -761,7 +769,7 @@ BL_API_IMPL BLResult bl_array_modify_op(BLArrayCore* self, BLModifyOp op, size_t
     BL_PROPAGATE(init_dynamic(&newO, array_type, size_after, impl_size));
 
     uint8_t* dst = get_impl(&newO)->data_as<uint8_t>();
-    if (self->_d.is_dynamic_object() && bl::ObjectInternal::is_impl_mutable(self->_d.impl)) {
+    if (is_content_movable(self)) {
       // Use memcpy() instead of weak copying if the original data is gonna be destroyed.
       memcpy(dst, u.data, index * item_size);
       // We have to patch the source Impl as release_instance() as we have moved the content.
@@ -809,7 +817,7 @@ BL_API_IMPL BLResult bl_array_insert_op(BLArrayCore* self, size_t index, size_t
       dst = get_impl(self)->data_as<uint8_t>();
     }
 
-    if (!immutable_msk) {
+    if (is_content_movable(&tmp)) {
       // Move if `tmp` will be destroyed.
       memcpy(dst, src, index * item_size);
       memcpy(dst + (index + n) * item_size, src + index * item_size, (u.size - index) * item_size);
diff --git a/blend2d/core/array_p.h b/blend2d/core/array_p.h
index 410c40a..adea4df 100644
--- a/blend2d/core/array_p.h
+++ b/blend2d/core/array_p.h
@@ -23,11 +23,11 @@ static BL_INLINE bool is_impl_mutable(const BLArrayImpl* impl) noexcept {
   return ObjectInternal::is_impl_mutable(impl);
 }
 
-BL_HIDDEN BLResult free_impl(BLArrayImpl* impl) noexcept;
+BL_HIDDEN BLResult free_impl(BLArrayImpl* impl, BLObjectType array_type) noexcept;
 
 template<RCMode kRCMode>
-static BL_INLINE BLResult release_impl(BLArrayImpl* impl) noexcept {
-  return ObjectInternal::deref_impl_and_test<kRCMode>(impl) ? free_impl(impl) : BLResult(BL_SUCCESS);
+static BL_INLINE BLResult release_impl(BLArrayImpl* impl, BLObjectType array_type) noexcept {
+  return ObjectInternal::deref_impl_and_test<kRCMode>(impl) ? free_impl(impl, array_type) : BLResult(BL_SUCCESS);
 }
 
 //! \}
@@ -56,7 +56,7 @@ static BL_INLINE BLResult retain_instance(const BLArrayCore* self, size_t n = 1)
 }
 
 static BL_INLINE BLResult release_instance(BLArrayCore* self) noexcept {
-  return self->_d.is_ref_counted_object() ? release_impl<RCMode::kForce>(get_impl(self)) : BLResult(BL_SUCCESS);
+  return self->_d.is_ref_counted_object() ? release_impl<RCMode::kForce>(get_impl(self), self->_d.raw_type()) : BLResult(BL_SUCCESS);
 }
 
 static BL_INLINE BLResult replace_instance(BLArrayCore* self, const BLArrayCore* other) noexcept {
@@ -65,7 +65,7 @@ static BL_INLINE BLResult replace_instance(BLArrayCore* self, const BLArrayCore*
   BLObjectInfo info = self->_d.info;
 
   self->_d = other->_d;
-  return info.is_ref_counted_object() ? release_impl<RCMode::kForce>(static_cast<BLArrayImpl*>(impl)) : BLResult(BL_SUCCESS);
+  return info.is_ref_counted_object() ? release_impl<RCMode::kForce>(static_cast<BLArrayImpl*>(impl), info.raw_type()) : BLResult(BL_SUCCESS);
 }
 
 //! \}
diff --git a/blend2d/core/object.cpp b/blend2d/core/object.cpp
index aca6a10..e1a5c62 100644
--- a/blend2d/core/object.cpp
+++ b/blend2d/core/object.cpp
@@ -148,7 +148,7 @@ BLResult bl_object_destroy_unknown_impl(BLObjectImpl* impl, BLObjectInfo info) n
     case BL_OBJECT_TYPE_ARRAY_STRUCT_20:
     case BL_OBJECT_TYPE_ARRAY_STRUCT_24:
     case BL_OBJECT_TYPE_ARRAY_STRUCT_32:
-      return bl::ArrayInternal::free_impl(static_cast<BLArrayImpl*>(impl));
+      return bl::ArrayInternal::free_impl(static_cast<BLArrayImpl*>(impl), type);
 
     case BL_OBJECT_TYPE_BIT_SET:
       // NOTE: It's guaranteed that this BitSet is dynamic, so we don't have to correct the type.
-- 
2.43.0


From 90615d06d5d566aeb5fcb9ef4d4ad28c8a5d2158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:34 +0000
Subject: [PATCH 024/132] fix: bl_gradient_remove_stops_by_index() must keep
 the other stops of a shared gradient

---
 blend2d/core/gradient.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/blend2d/core/gradient.cpp b/blend2d/core/gradient.cpp
index 299d79f..7811f57 100644
--- a/blend2d/core/gradient.cpp
+++ b/blend2d/core/gradient.cpp
@@ -874,6 +874,8 @@ BL_API_IMPL BLResult bl_gradient_remove_stops_by_index(BLGradientCore* self, siz
     BLGradientStop* new_stops = new_impl->stops;
     copy_stops(new_stops, stops, index);
     copy_stops(new_stops + index, stops + end, shifted_count);
+
+    new_impl->size = after_count;
     return replace_instance(self, &newO);
   }
   else {
-- 
2.43.0


From 8b00371900e0b4b6cabe7f47e00a004aac58024f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:34 +0000
Subject: [PATCH 025/132] fix: copying a shared gradient must keep all its
 values

---
 blend2d/core/gradient.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blend2d/core/gradient.cpp b/blend2d/core/gradient.cpp
index 7811f57..38316ed 100644
--- a/blend2d/core/gradient.cpp
+++ b/blend2d/core/gradient.cpp
@@ -368,7 +368,7 @@ static BL_NOINLINE BLResult deep_copy(BLGradientCore* self, const BLGradientCore
   const BLGradientPrivateImpl* other_impl = get_impl(other);
 
   BLGradientCore newO;
-  BL_PROPAGATE(alloc_impl(&newO, impl_size_from_capacity(other_impl->capacity), other_impl->values, value_count_table[get_gradient_type(other)], &other_impl->transform));
+  BL_PROPAGATE(alloc_impl(&newO, impl_size_from_capacity(other_impl->capacity), other_impl->values, BL_GRADIENT_VALUE_MAX_VALUE + 1u, &other_impl->transform));
 
   newO._d.info.set_fields(fields);
   BLGradientPrivateImpl* new_impl = get_impl(&newO);
-- 
2.43.0


From bfa6623adb00d5f7964b463c59a20c8b003b074b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:26 +0000
Subject: [PATCH 026/132] fix: scaling a narrow A8 image vertically must not
 write past its rows

---
 blend2d/core/imagescale.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/blend2d/core/imagescale.cpp b/blend2d/core/imagescale.cpp
index 6429df3..8a63fa1 100644
--- a/blend2d/core/imagescale.cpp
+++ b/blend2d/core/imagescale.cpp
@@ -640,7 +640,7 @@ static void BL_CDECL bl_image_scale_vert_bytes(const ImageScaleContext::Data* d,
 
       if (((intptr_t)dp & 0x7) == 0)
         goto BoundLarge;
-      i = 8u - uint32_t((uintptr_t)dp & 0x7u);
+      i = bl_min(8u - uint32_t((uintptr_t)dp & 0x7u), x);
 
 BoundSmall:
       x -= i;
@@ -718,7 +718,7 @@ BoundLarge:
 
       if (((size_t)dp & 0x3) == 0)
         goto UnboundLarge;
-      i = 4u - uint32_t((uintptr_t)dp & 0x3u);
+      i = bl_min(4u - uint32_t((uintptr_t)dp & 0x3u), x);
 
 UnboundSmall:
       x -= i;
-- 
2.43.0


From 0a173aef9a9b954089a77fa6740876d3e2da98d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:58 +0000
Subject: [PATCH 027/132] fix: assigning a short text to a shared BLString must
 initialise the new string

---
 blend2d/core/string.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/blend2d/core/string.cpp b/blend2d/core/string.cpp
index 92beef7..446d229 100644
--- a/blend2d/core/string.cpp
+++ b/blend2d/core/string.cpp
@@ -119,8 +119,8 @@ static BLResult modify_and_copy(BLStringCore* self, BLModifyOp op, const char* s
     char* dst = nullptr;
 
     if (size_after <= BLString::kSSOCapacity && !bl_modify_op_does_grow(op)) {
-      init_sso(self, size_after);
-      dst = self->_d.char_data;
+      init_sso(&newO, size_after);
+      dst = newO._d.char_data;
     }
     else {
       BLObjectImplSize impl_size = expand_impl_size_with_modify_op(impl_size_from_capacity(size_after), op);
-- 
2.43.0


From 410a88783104ddee608e7b96b463d3dbd8ac9df4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:23 +0000
Subject: [PATCH 028/132] fix: bl_gradient_reserve() must not shrink a shared
 gradient below its size

---
 blend2d/core/gradient.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blend2d/core/gradient.cpp b/blend2d/core/gradient.cpp
index 38316ed..75b8373 100644
--- a/blend2d/core/gradient.cpp
+++ b/blend2d/core/gradient.cpp
@@ -565,7 +565,7 @@ BL_API_IMPL BLResult bl_gradient_reserve(BLGradientCore* self, size_t n) noexcep
 
   BLGradientCore newO;
 
-  BLObjectImplSize impl_size = bl_max(impl_size_from_capacity(n), BLObjectImplSize(kInitialImplSize));
+  BLObjectImplSize impl_size = bl_max(impl_size_from_capacity(bl_max(n, self_impl->size)), BLObjectImplSize(kInitialImplSize));
   BL_PROPAGATE(alloc_impl(&newO, impl_size, self_impl->values, BL_GRADIENT_VALUE_MAX_VALUE + 1u, &self_impl->transform));
 
   BLGradientPrivateImpl* new_impl = get_impl(&newO);
-- 
2.43.0


From 3ad4402a61ff741d7da7d66c0fc8869a1cf2d337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:23 +0000
Subject: [PATCH 029/132] fix: bl_path_clear() must not keep boxes of the
 previous content

---
 blend2d/core/path.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blend2d/core/path.cpp b/blend2d/core/path.cpp
index b7af701..19b2ef6 100644
--- a/blend2d/core/path.cpp
+++ b/blend2d/core/path.cpp
@@ -352,7 +352,7 @@ BL_API_IMPL BLResult bl_path_clear(BLPathCore* self) noexcept {
     return replace_instance(self, static_cast<BLPathCore*>(&bl_object_defaults[BL_OBJECT_TYPE_PATH]));
 
   self_impl->size = 0;
-  self_impl->flags = 0;
+  self_impl->flags = BL_PATH_FLAG_DIRTY;
   return BL_SUCCESS;
 }
 
-- 
2.43.0


From 218decb83d72f5dab74443630955d3c3b6244a21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:20 +0000
Subject: [PATCH 030/132] fix: bl_array_resize() must release the truncated
 items and not the kept ones

---
 blend2d/core/array.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blend2d/core/array.cpp b/blend2d/core/array.cpp
index 590bc86..0bbdf9a 100644
--- a/blend2d/core/array.cpp
+++ b/blend2d/core/array.cpp
@@ -585,7 +585,7 @@ BL_API_IMPL BLResult bl_array_resize(BLArrayCore* self, size_t n, const void* fi
     }
     else {
       set_size(self, n);
-      release_content_by_type(u.data, (u.size - n) * item_size, array_type);
+      release_content_by_type(u.data + n * item_size, (u.size - n) * item_size, array_type);
       return BL_SUCCESS;
     }
   }
-- 
2.43.0


From 50dce59a22d6159ef1123e82a5992d4b9ab1e376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:20 +0000
Subject: [PATCH 031/132] fix: items of external arrays are copied and not
 moved

---
 blend2d/core/array.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/blend2d/core/array.cpp b/blend2d/core/array.cpp
index 0bbdf9a..6db409a 100644
--- a/blend2d/core/array.cpp
+++ b/blend2d/core/array.cpp
@@ -973,7 +973,7 @@ BL_API_IMPL BLResult bl_array_append_item(BLArrayCore* self, const void* item) n
 
     // Copy the existing data to a new place / move if the data will be destroyed.
     uint8_t* dst = get_impl(&newO)->data_as<uint8_t>();
-    if (!immutable_msk) {
+    if (is_content_movable(self)) {
       set_size(self, 0);
       memcpy(dst, u.data, u.size * item_size);
     }
@@ -1013,7 +1013,7 @@ BL_API_IMPL BLResult bl_array_append_data(BLArrayCore* self, const void* items,
 
     // Copy the existing data to a new place / move if the data will be destroyed.
     uint8_t* dst = get_impl(&newO)->data_as<uint8_t>();
-    if (!immutable_msk) {
+    if (is_content_movable(self)) {
       set_size(self, 0);
       memcpy(dst, u.data, u.size * item_size);
     }
@@ -1064,7 +1064,7 @@ BL_API_IMPL BLResult bl_array_insert_data(BLArrayCore* self, size_t index, const
     BL_PROPAGATE(init_dynamic(&newO, array_type, size_after, impl_size));
 
     uint8_t* dst = get_impl(&newO)->data_as<uint8_t>();
-    if (!immutable_msk) {
+    if (is_content_movable(self)) {
       set_size(self, 0);
       memcpy(dst, u.data, index * item_size);
       memcpy(dst + end_index * item_size, u.data + index * item_size, (u.size - index) * item_size);
-- 
2.43.0


From 82a85a04f328e6883ad58b010a7fb6fa8f4781ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:19 +0000
Subject: [PATCH 032/132] fix: bl_array_modify_op() must release the previous
 items when they are replaced

---
 blend2d/core/array.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blend2d/core/array.cpp b/blend2d/core/array.cpp
index 6db409a..e61f9e9 100644
--- a/blend2d/core/array.cpp
+++ b/blend2d/core/array.cpp
@@ -769,7 +769,7 @@ BL_API_IMPL BLResult bl_array_modify_op(BLArrayCore* self, BLModifyOp op, size_t
     BL_PROPAGATE(init_dynamic(&newO, array_type, size_after, impl_size));
 
     uint8_t* dst = get_impl(&newO)->data_as<uint8_t>();
-    if (is_content_movable(self)) {
+    if (index != 0 && is_content_movable(self)) {
       // Use memcpy() instead of weak copying if the original data is gonna be destroyed.
       memcpy(dst, u.data, index * item_size);
       // We have to patch the source Impl as release_instance() as we have moved the content.
-- 
2.43.0


From 946acb3de9e6110608e238ffec7a8c6427565eb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:48 +0000
Subject: [PATCH 033/132] fix: image scaling must report that memory for its
 weights could not be allocated

---
 blend2d/core/imagescale.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/blend2d/core/imagescale.cpp b/blend2d/core/imagescale.cpp
index 8a63fa1..f6082c4 100644
--- a/blend2d/core/imagescale.cpp
+++ b/blend2d/core/imagescale.cpp
@@ -891,8 +891,8 @@ BLResult ImageScaleContext::create(const BLSizeI& to, const BLSizeI& from, uint3
 
   // Built-in filters will probably never fail, however, custom filters can and
   // it wouldn't be safe to just continue.
-  image_scale_ops.weights(d, kDirHorz, filter_func);
-  image_scale_ops.weights(d, kDirVert, filter_func);
+  BL_PROPAGATE(image_scale_ops.weights(d, kDirHorz, filter_func));
+  BL_PROPAGATE(image_scale_ops.weights(d, kDirVert, filter_func));
 
   return BL_SUCCESS;
 }
-- 
2.43.0


From 0c2d9460ae5bfde955eea8c7acb153091e68474d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:24 +0000
Subject: [PATCH 034/132] fix: bl_path_add_stroked_path() must not keep an
 incomplete stroke when it fails

---
 blend2d/core/path.cpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/blend2d/core/path.cpp b/blend2d/core/path.cpp
index 19b2ef6..e0405f0 100644
--- a/blend2d/core/path.cpp
+++ b/blend2d/core/path.cpp
@@ -1998,16 +1998,28 @@ BL_API_IMPL BLResult bl_path_add_stroked_path(BLPathCore* self, const BLPathCore
   BLPath b_path;
   BLPath c_path;
 
+  size_t initial_size = get_impl(self)->size;
+  BLResult result;
+
   if (self == other) {
     // Border case, we don't want anything to happen to the `other` path during
     // processing. And since stroking may need to reallocate the output path it
     // would be unsafe.
     BLPath tmp(other->dcast());
-    return stroke_path(input, options->dcast(), *approx, self->dcast(), b_path, c_path, append_stroked_path_sink, nullptr);
+    result = stroke_path(input, options->dcast(), *approx, self->dcast(), b_path, c_path, append_stroked_path_sink, nullptr);
   }
   else {
-    return stroke_path(input, options->dcast(), *approx, self->dcast(), b_path, c_path, append_stroked_path_sink, nullptr);
+    result = stroke_path(input, options->dcast(), *approx, self->dcast(), b_path, c_path, append_stroked_path_sink, nullptr);
   }
+
+  // Don't keep an incomplete stroke - stroking only appends figures to `self`.
+  if (BL_UNLIKELY(result != BL_SUCCESS) && get_impl(self)->size > initial_size) {
+    BLPathPrivateImpl* self_impl = get_impl(self);
+    self_impl->size = initial_size;
+    self_impl->flags = BL_PATH_FLAG_DIRTY;
+  }
+
+  return result;
 }
 
 BL_API_IMPL BLResult BL_CDECL bl_path_stroke_to_sink(
-- 
2.43.0


From 2406ae82aca3c97f0f9a770182cd3e81a4bd5271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:53 +0000
Subject: [PATCH 035/132] fix: bl_bit_array_resize() must clear words it adds

---
 blend2d/core/bitarray.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/blend2d/core/bitarray.cpp b/blend2d/core/bitarray.cpp
index 9001a91..b824a98 100644
--- a/blend2d/core/bitarray.cpp
+++ b/blend2d/core/bitarray.cpp
@@ -683,6 +683,7 @@ BL_API_IMPL BLResult bl_bit_array_resize(BLBitArrayCore* self, uint32_t n_bits)
   size_t word_count = word_count_from_bit_count(bit_count);
 
   bl::MemOps::copy_forward_inline_t(dst, d.data, word_count);
+  bl::MemOps::fill_inline_t(dst + word_count, uint32_t(0), word_count_from_bit_count(n_bits) - word_count);
   uint32_t last_word_bit_count = uint32_t(bit_count & bl::BitArrayOps::kBitMask);
 
   if (last_word_bit_count)
-- 
2.43.0


From 1158c3370ef6f422557832e7202cb3c6aa30f853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:53 +0000
Subject: [PATCH 036/132] fix: bl_bit_array_reserve() must not shrink a shared
 bit array below its size

---
 blend2d/core/bitarray.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blend2d/core/bitarray.cpp b/blend2d/core/bitarray.cpp
index b824a98..ef6ac7e 100644
--- a/blend2d/core/bitarray.cpp
+++ b/blend2d/core/bitarray.cpp
@@ -716,7 +716,7 @@ BL_API_IMPL BLResult bl_bit_array_reserve(BLBitArrayCore* self, uint32_t n_bits)
     d = BitData{self_impl->data(), self_impl->size};
   }
 
-  BLObjectImplSize impl_size = impl_size_from_word_capacity(word_count_from_bit_count(n_bits));
+  BLObjectImplSize impl_size = impl_size_from_word_capacity(word_count_from_bit_count(bl_max<size_t>(n_bits, d.size)));
   BLBitArrayCore newO;
   BL_PROPAGATE(init_dynamic(&newO, impl_size, d.size));
 
-- 
2.43.0


From 9efa8223696102d44eb59170da792fed6e47c4da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:32 +0000
Subject: [PATCH 037/132] fix: bl_bit_array_assign_words() must set the size
 and not overflow static storage

---
 blend2d/core/bitarray.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/blend2d/core/bitarray.cpp b/blend2d/core/bitarray.cpp
index ef6ac7e..ce5a687 100644
--- a/blend2d/core/bitarray.cpp
+++ b/blend2d/core/bitarray.cpp
@@ -335,7 +335,13 @@ BL_API_IMPL BLResult bl_bit_array_assign_words(BLBitArrayCore* self, const uint3
     size_t capacity_in_words = word_count_from_bit_count(self_impl->capacity);
     size_t immutable_msk = bl::IntOps::bool_as_mask<size_t>(!is_impl_mutable(self_impl));
 
-    if ((word_count | immutable_msk) > capacity_in_words) {
+    if ((word_count | immutable_msk) <= capacity_in_words) {
+      self_impl->size = uint32_t(bit_count_from_word_count(word_count));
+      bl::MemOps::copy_forward_inline_t(self_impl->data(), word_data, word_count);
+      return BL_SUCCESS;
+    }
+
+    if (word_count <= kSSOWordCapacity) {
       BLBitArrayCore newO;
       init_sso(&newO, size_t(word_count) * bl::BitArrayOps::kNumBits);
       bl::MemOps::copy_forward_inline_t(newO._d.u32_data, word_data, word_count);
@@ -345,7 +351,7 @@ BL_API_IMPL BLResult bl_bit_array_assign_words(BLBitArrayCore* self, const uint3
   }
 
   BLBitArrayCore newO;
-  BL_PROPAGATE(init_dynamic(&newO, impl_size_from_word_capacity(word_count)));
+  BL_PROPAGATE(init_dynamic(&newO, impl_size_from_word_capacity(word_count), bit_count_from_word_count(word_count)));
 
   BLBitArrayImpl* new_impl = get_impl(&newO);
   bl::MemOps::copy_forward_inline_t(new_impl->data(), word_data, word_count);
-- 
2.43.0


From 3d7fc7edbb8602591e3ef12b4ed5901fff65423a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:58 +0000
Subject: [PATCH 038/132] fix: bl_bit_set_chop() must keep the remaining
 segments of a shared bit set

---
 blend2d/core/bitset.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/blend2d/core/bitset.cpp b/blend2d/core/bitset.cpp
index 7df1dd0..c8dfc22 100644
--- a/blend2d/core/bitset.cpp
+++ b/blend2d/core/bitset.cpp
@@ -2373,6 +2373,14 @@ BL_API_IMPL BLResult bl_bit_set_chop(BLBitSetCore* self, uint32_t start_bit, uin
     BLBitSetCore tmp;
     BL_PROPAGATE(init_dynamic(&tmp, impl_size_from_capacity(final_count)));
 
+    BLBitSetImpl* tmp_impl = get_impl(&tmp);
+    BLBitSetSegment* tmp_data = tmp_impl->segment_data();
+
+    bl::MemOps::copy_forward_inline_t(tmp_data, chopped.leading_data(), chopped.leading_count());
+    bl::MemOps::copy_forward_inline_t(tmp_data + chopped.leading_count(), segment_data + chopped.middle_index(), chopped.middle_count());
+    bl::MemOps::copy_forward_inline_t(tmp_data + chopped.leading_count() + chopped.middle_count(), chopped.trailing_data(), chopped.trailing_count());
+
+    tmp_impl->segment_count = final_count;
     return replace_instance(self, &tmp);
   }
 }
-- 
2.43.0


From 32093df0955c5f22b43ac9c57eb096ac890a5873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:58 +0000
Subject: [PATCH 039/132] fix: bl_bit_set_assign_words() must not read past
 words which fit the leading segment

---
 blend2d/core/bitset.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blend2d/core/bitset.cpp b/blend2d/core/bitset.cpp
index c8dfc22..f725abb 100644
--- a/blend2d/core/bitset.cpp
+++ b/blend2d/core/bitset.cpp
@@ -1440,7 +1440,7 @@ BL_API_IMPL BLResult bl_bit_set_assign_words(BLBitSetCore* self, uint32_t start_
     }
 
     // Trailing segment requires special handling, if it doesn't end on a segment boundary.
-    if (word_index != word_index_end) {
+    if (word_index < word_index_end) {
       init_dense_segment(*dst_segment, word_index);
       bl::MemOps::copy_forward_inline_t(dst_segment->data(), word_data, (size_t)(word_index_end - word_index));
 
-- 
2.43.0


From b9b3c8b5eef1207d12292a067fe7e81f496477aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:26 +0000
Subject: [PATCH 040/132] fix: reused external image data must reset the
 reference count when its access flags change

---
 blend2d/core/object_p.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/blend2d/core/object_p.h b/blend2d/core/object_p.h
index bae011e..fd24354 100644
--- a/blend2d/core/object_p.h
+++ b/blend2d/core/object_p.h
@@ -331,6 +331,7 @@ static BL_INLINE void init_ref_count_to_base(BLObjectImpl* impl, bool immutable)
 
   BLObjectImplHeader* header = get_impl_header(impl);
   header->flags = (header->flags & ~BLObjectImplHeader::kImmutableFlag) | ri_flags;
+  header->ref_count = header->base_ref_count_value();
 }
 
 //! Returns a reference count of `impl`.
-- 
2.43.0


From 2380b5aa852c90633dcd71ee29f7153e5604a2c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:26 +0000
Subject: [PATCH 041/132] fix: formatting a string must not change it when
 memory cannot be allocated

---
 blend2d/core/string.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/blend2d/core/string.cpp b/blend2d/core/string.cpp
index 446d229..da10f00 100644
--- a/blend2d/core/string.cpp
+++ b/blend2d/core/string.cpp
@@ -642,7 +642,9 @@ BL_API_IMPL BLResult bl_string_apply_op_format_v(BLStringCore* self, BLModifyOp
   va_list ap_copy;
   va_copy(ap_copy, ap);
 
-  if ((remaining & mutable_msk) >= 64) {
+  // The content can only be formatted in place when it's appended, otherwise it would be lost if there is not enough
+  // space and a new buffer cannot be allocated.
+  if (bl_modify_op_is_append(op) && (remaining & mutable_msk) >= 64) {
     // vsnprintf() expects null terminator to be included in the size of the buffer.
     char* dst = u.data;
     fmt_result = vsnprintf(dst + index, remaining + 1, fmt, ap);
@@ -658,6 +660,9 @@ BL_API_IMPL BLResult bl_string_apply_op_format_v(BLStringCore* self, BLModifyOp
       set_size(self, index + output_size);
       return BL_SUCCESS;
     }
+
+    // Restore the null terminator as the string must stay unchanged if a new buffer cannot be allocated.
+    dst[index] = '\0';
   }
   else {
     fmt_result = vsnprintf(buf, BL_ARRAY_SIZE(buf), fmt, ap);
-- 
2.43.0


From 156a58183e676b6dc228d601b49550934fb5615a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:26 +0000
Subject: [PATCH 042/132] fix: values and presence of features stored inline in
 BLFontFeatureSettings

---
 blend2d/core/fontfeaturesettings.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/blend2d/core/fontfeaturesettings.cpp b/blend2d/core/fontfeaturesettings.cpp
index 7ccd6f2..b89c946 100644
--- a/blend2d/core/fontfeaturesettings.cpp
+++ b/blend2d/core/fontfeaturesettings.cpp
@@ -114,7 +114,7 @@ static BL_INLINE void remove_sso_fat_tag(BLFontFeatureSettingsCore* self, uint32
   uint32_t vals_lsb_mask = ((1u << val_offset) - 1u);
 
   tags = (tags & tags_lsb_mask) | ((tags >> kSSOFatFeatureTagBitCount) & ~tags_lsb_mask) | (kSSOInvalidFatFeatureId << ((kSSOFatFeatureCount - 1) * kSSOFatFeatureTagBitCount));
-  vals = (vals & vals_lsb_mask) | ((vals >> kSSOFatFeatureValueBitCount) & ~tags_lsb_mask);
+  vals = (vals & vals_lsb_mask) | ((vals >> kSSOFatFeatureValueBitCount) & ~vals_lsb_mask);
 
   self->_d.u32_data[2] = tags;
   self->_d.info.bits = ((self->_d.info.bits & ~kValueDataMask) - (1u << BL_OBJECT_INFO_A_SHIFT)) | (vals & kValueDataMask);
@@ -467,7 +467,7 @@ BL_API_IMPL bool bl_font_feature_settings_has_value(const BLFontFeatureSettingsC
     }
     else {
       uint32_t dummy_index;
-      return find_sso_fat_tag(self, feature_info.bit_id, &dummy_index);
+      return find_sso_fat_tag(self, id, &dummy_index);
     }
   }
 
@@ -525,7 +525,7 @@ BL_API_IMPL BLResult bl_font_feature_settings_set_value(BLFontFeatureSettingsCor
           return BL_SUCCESS;
         }
       }
-      else if (value <= kSSOFatFeatureTagBitMask) {
+      else if (value <= kSSOFatFeatureValueBitMask) {
         uint32_t index;
         if (find_sso_fat_tag(self, feature_id, &index)) {
           update_sso_fat_value(self, index, value);
-- 
2.43.0


From 1253f91a6884e86a20746d9b75f289827df7bbc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:53 +0000
Subject: [PATCH 043/132] fix: adding a counter-clockwise polygon must not read
 past its points

---
 blend2d/core/path.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/blend2d/core/path.cpp b/blend2d/core/path.cpp
index e0405f0..2d1de67 100644
--- a/blend2d/core/path.cpp
+++ b/blend2d/core/path.cpp
@@ -1621,7 +1621,7 @@ AddBoxD:
           appender.line_to(*src++);
       }
       else {
-        src += n - 1;
+        src += n - 2;
         for (size_t i = n - 1; i; i--)
           appender.line_to(*src--);
       }
@@ -1640,7 +1640,7 @@ AddBoxD:
           appender.line_to(*src++);
       }
       else {
-        src += n - 1;
+        src += n - 2;
         for (size_t i = n - 1; i; i--)
           appender.line_to(*src--);
       }
-- 
2.43.0


From 81e63c676488349d75124609eda7a9824128280e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:33 +0000
Subject: [PATCH 044/132] fix: bl_object_atomic_content_move() must publish the
 content after it was written

---
 blend2d/core/object_p.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/blend2d/core/object_p.h b/blend2d/core/object_p.h
index fd24354..c703364 100644
--- a/blend2d/core/object_p.h
+++ b/blend2d/core/object_p.h
@@ -545,9 +545,11 @@ static BL_NOINLINE bool bl_object_atomic_content_move(BLObjectCore* self, BLObje
   uint32_t self_info = 0;
 
   if (bl_atomic_compare_exchange(&self->_d.info.bits, &self_info, 1u)) {
-    // We have successfully acquired the info so we can perform the move.
-    self->_d = other_d;
-    bl_atomic_thread_fence();
+    // We have successfully acquired the info so we can perform the move. The content must be written before `info`,
+    // which publishes it to other threads.
+    self->_d.u64_data[0] = other_d.u64_data[0];
+    self->_d.u32_data[2] = other_d.u32_data[2];
+    bl_atomic_store_strong(&self->_d.info.bits, other_d.info.bits);
 
     other->_d = bl_object_defaults[other_d.raw_type()]._d;
     return true;
-- 
2.43.0


From c104384fa6389fb047b1092aea2e7fd5bd5eb95b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:33 +0000
Subject: [PATCH 045/132] fix: access lazily calculated path info atomically

---
 blend2d/core/path.cpp | 59 ++++++++++++++++++++++++++++++-------------
 1 file changed, 42 insertions(+), 17 deletions(-)

diff --git a/blend2d/core/path.cpp b/blend2d/core/path.cpp
index 2d1de67..c932e57 100644
--- a/blend2d/core/path.cpp
+++ b/blend2d/core/path.cpp
@@ -16,6 +16,7 @@
 #include <blend2d/support/math_p.h>
 #include <blend2d/support/ptrops_p.h>
 #include <blend2d/support/traits_p.h>
+#include <blend2d/threading/atomic_p.h>
 
 const BLApproximationOptions bl_default_approximation_options = bl::PathInternal::make_default_approximation_options();
 
@@ -2218,10 +2219,32 @@ BL_API_IMPL bool bl_path_equals(const BLPathCore* a, const BLPathCore* b) noexce
 namespace bl {
 namespace PathInternal {
 
-static BL_NOINLINE BLResult update_info(BLPathPrivateImpl* self_impl) noexcept {
+// NOTE: Path info is calculated lazily, so it can be calculated by multiple threads that share the same path at the same
+// time. All of them calculate the same values, so it's only required that boxes are always stored before `flags` that
+// publish them, and that all accesses are atomic.
+
+static BL_INLINE void store_info_box(BLBox& dst, const BLBox& src) noexcept {
+  uint64_t values[4];
+  memcpy(values, &src, sizeof(BLBox));
+
+  for (uint32_t i = 0; i < 4; i++)
+    bl_atomic_store_relaxed(reinterpret_cast<uint64_t*>(&dst) + i, values[i]);
+}
+
+static BL_INLINE BLBox fetch_info_box(const BLBox& src) noexcept {
+  uint64_t values[4];
+  for (uint32_t i = 0; i < 4; i++)
+    values[i] = bl_atomic_fetch_relaxed(reinterpret_cast<const uint64_t*>(&src) + i);
+
+  BLBox dst;
+  memcpy(&dst, values, sizeof(BLBox));
+  return dst;
+}
+
+static BL_NOINLINE BLResult update_info(BLPathPrivateImpl* self_impl, uint32_t flags) noexcept {
   // Special-case. The path info is valid, but the path is invalid. We handle it here to simplify `ensure_info()`
   // and to make it a bit shorter.
-  if (self_impl->flags & BL_PATH_FLAG_INVALID)
+  if (flags & BL_PATH_FLAG_INVALID)
     return bl_make_error(BL_ERROR_INVALID_GEOMETRY);
 
   PathInfoUpdater updater;
@@ -2229,31 +2252,33 @@ static BL_NOINLINE BLResult update_info(BLPathPrivateImpl* self_impl) noexcept {
 
   // Path is invalid.
   if (result != BL_SUCCESS) {
-    self_impl->flags = updater.flags | BL_PATH_FLAG_INVALID;
-    self_impl->control_box.reset();
-    self_impl->bounding_box.reset();
+    store_info_box(self_impl->control_box, BLBox(0.0, 0.0, 0.0, 0.0));
+    store_info_box(self_impl->bounding_box, BLBox(0.0, 0.0, 0.0, 0.0));
+    bl_atomic_store_strong(&self_impl->flags, updater.flags | BL_PATH_FLAG_INVALID);
     return result;
   }
 
   // Path is empty.
   if (!(updater.bounding_box.x0 <= updater.bounding_box.x1 &&
         updater.bounding_box.y0 <= updater.bounding_box.y1)) {
-    self_impl->flags = updater.flags | BL_PATH_FLAG_EMPTY;
-    self_impl->control_box.reset();
-    self_impl->bounding_box.reset();
+    store_info_box(self_impl->control_box, BLBox(0.0, 0.0, 0.0, 0.0));
+    store_info_box(self_impl->bounding_box, BLBox(0.0, 0.0, 0.0, 0.0));
+    bl_atomic_store_strong(&self_impl->flags, updater.flags | BL_PATH_FLAG_EMPTY);
     return BL_SUCCESS;
   }
 
   // Path is valid.
-  self_impl->flags = updater.flags;
-  self_impl->control_box = updater.control_box;
-  self_impl->bounding_box = updater.bounding_box;
+  store_info_box(self_impl->control_box, updater.control_box);
+  store_info_box(self_impl->bounding_box, updater.bounding_box);
+  bl_atomic_store_strong(&self_impl->flags, updater.flags);
   return BL_SUCCESS;
 }
 
 static BL_INLINE BLResult ensure_info(BLPathPrivateImpl* self_impl) noexcept {
-  if (self_impl->flags & (BL_PATH_FLAG_INVALID | BL_PATH_FLAG_DIRTY))
-    return update_info(self_impl);
+  uint32_t flags = bl_atomic_fetch_strong(&self_impl->flags);
+
+  if (flags & (BL_PATH_FLAG_INVALID | BL_PATH_FLAG_DIRTY))
+    return update_info(self_impl, flags);
 
   return BL_SUCCESS;
 }
@@ -2268,7 +2293,7 @@ BL_API_IMPL BLResult bl_path_get_info_flags(const BLPathCore* self, uint32_t* fl
   BLPathPrivateImpl* self_impl = get_impl(self);
   BLResult result = ensure_info(self_impl);
 
-  *flags_out = self_impl->flags;
+  *flags_out = bl_atomic_fetch_relaxed(&self_impl->flags);
   return result;
 }
 
@@ -2282,7 +2307,7 @@ BL_API_IMPL BLResult bl_path_get_control_box(const BLPathCore* self, BLBox* box_
   BLPathPrivateImpl* self_impl = get_impl(self);
   BLResult result = ensure_info(self_impl);
 
-  *box_out = self_impl->control_box;
+  *box_out = fetch_info_box(self_impl->control_box);
   return result;
 }
 
@@ -2293,7 +2318,7 @@ BL_API_IMPL BLResult bl_path_get_bounding_box(const BLPathCore* self, BLBox* box
   BLPathPrivateImpl* self_impl = get_impl(self);
   BLResult result = ensure_info(self_impl);
 
-  *box_out = self_impl->bounding_box;
+  *box_out = fetch_info_box(self_impl->bounding_box);
   return result;
 }
 
@@ -2414,7 +2439,7 @@ BL_API_IMPL BLResult bl_path_get_closest_vertex(const BLPathCore* self, const BL
     if (ensure_info(self_impl) != BL_SUCCESS) {
       // If the given point is outside of the path bounding-box extended by
       // `max_distance` then there is no matching vertex to possibly return.
-      const BLBox& b_box = self_impl->control_box;
+      BLBox b_box = fetch_info_box(self_impl->control_box);
       if (!(pt.x >= b_box.x0 - best_distance && pt.y >= b_box.y0 - best_distance &&
             pt.x <= b_box.x1 + best_distance && pt.y <= b_box.y1 + best_distance))
         return bl_make_error(BL_ERROR_NO_MATCHING_VERTEX);
-- 
2.43.0


From 3c3a64e0b55bac6a8f3da67cb03431d8b53fa811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:13 +0000
Subject: [PATCH 046/132] fix: a BitSet expanded to segments must fill each
 segment once

---
 blend2d/core/bitset.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/blend2d/core/bitset.cpp b/blend2d/core/bitset.cpp
index f725abb..b7f397b 100644
--- a/blend2d/core/bitset.cpp
+++ b/blend2d/core/bitset.cpp
@@ -905,6 +905,8 @@ static BL_NOINLINE uint32_t init_segments_from_dense_data(BLBitSetSegment* dst,
     do {
       dst->_data[i] = *words++;
     } while(++i != n);
+
+    dst++;
   }
 
   return last_segment_id - first_segment_id + 1u;
-- 
2.43.0


From fea30677742b28868995384b8ec7745cee1435e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:14 +0000
Subject: [PATCH 047/132] fix: cache the cardinality of a shared BitSet
 atomically

---
 blend2d/core/bitset.cpp | 104 ++++++++--------------------------------
 1 file changed, 19 insertions(+), 85 deletions(-)

diff --git a/blend2d/core/bitset.cpp b/blend2d/core/bitset.cpp
index b7f397b..b784174 100644
--- a/blend2d/core/bitset.cpp
+++ b/blend2d/core/bitset.cpp
@@ -13,6 +13,7 @@
 #include <blend2d/support/intops_p.h>
 #include <blend2d/support/memops_p.h>
 #include <blend2d/support/scopedbuffer_p.h>
+#include <blend2d/threading/atomic_p.h>
 
 namespace bl {
 namespace BitSetInternal {
@@ -339,7 +340,7 @@ static BL_NOINLINE BLResult init_dynamic_with_data(BLBitSetCore* self, BLObjectI
 //! If the returned value is zero it means that the cardinality is either not cached or zero. This means that zero
 //! is always an unreliable value, which cannot be trusted. The implementation in general resets cardinality to zero
 //! every time the BitSet is modified.
-static BL_INLINE uint32_t get_cached_cardinality(const BLBitSetCore* self) noexcept { return self->_d.u32_data[2]; }
+static BL_INLINE uint32_t get_cached_cardinality(const BLBitSetCore* self) noexcept { return bl_atomic_fetch_relaxed(&self->_d.u32_data[2]); }
 
 //! Resets cached cardinality to zero, which signalizes that it's not valid.
 static BL_INLINE BLResult reset_cached_cardinality(BLBitSetCore* self) noexcept {
@@ -349,7 +350,7 @@ static BL_INLINE BLResult reset_cached_cardinality(BLBitSetCore* self) noexcept
 
 //! Updates cached cardinality to `cardinality` after the cardinality has been calculated.
 static BL_INLINE void update_cached_cardinality(const BLBitSetCore* self, uint32_t cardinality) noexcept {
-  const_cast<BLBitSetCore*>(self)->_d.u32_data[2] = cardinality;
+  bl_atomic_store_relaxed(&const_cast<BLBitSetCore*>(self)->_d.u32_data[2], cardinality);
 }
 
 // bl::BitSet - Dynamic - Segment Utilities
@@ -3424,96 +3425,29 @@ BL_API_IMPL BLResult bl_bit_set_clear_range(BLBitSetCore* self, uint32_t range_s
       // +--------+--------+--------+--------+                 +--------+--------+--------+--------+
       // |    New leading range     |DenseSeg| Cleared entirely|DenseSeg|    New trailing range    | <- Output Segments
       // +--------+--------+--------+--------+                 +--------+--------+--------+--------+
-      //
-      // NOTE: Every time we insert a new segment, `segment_start_word` gets updated to reflect the remaining slice.
-
-      // Handle a possible leading segment, which won't be cleared.
-      uint32_t range_start_segment_word = align_word_down_to_segment(range_start_word);
-      if (segment_start_word < range_start_segment_word) {
-        if (range_start_segment_word - segment_start_word >= kSegmentWordCount * 2) {
-          // If the leading range spans across two or more segments, insert a Range segment.
-          init_range_segment(inserter.current(), segment_start_word, range_start_segment_word);
-          inserter.advance();
-        }
-        else {
-          // If the learing range covers only a single segment, insert a Dense segment.
-          init_dense_segment_with_ones(inserter.current(), segment_start_word);
-          inserter.advance();
-        }
-
-        // NOTE: There must be an intersection. This is just a leading segment we have to keep, but it's guaranteed
-        // that at least one additional segment will be inserted. This is the main reason there is no `continue` here.
-        segment_start_word = range_start_segment_word;
-        BL_ASSERT(segment_start_word < segment_end_word);
-      }
-
-      // Handle the intersection with the beginning of the range to clear (if any), if it's not at the segment boundary.
-      if (!is_bit_aligned_to_segment(range_start_bit)) {
-        uint32_t dense_range_index = range_start_bit & kSegmentBitMask;
-        uint32_t dense_range_count = bl_min(kSegmentBitCount - dense_range_index, range_end_bit - range_start_bit);
-
-        init_dense_segment_with_ones(inserter.current(), segment_start_word);
-        bl::BitSetOps::bit_array_clear(inserter.current().data(), dense_range_index, dense_range_count);
-        inserter.advance();
-
-        range_start_word = segment_start_word;
-        range_start_bit = bit_index_of(range_start_word);
-
-        // Nothing else to do with this segment if the rest is cleared entirely.
-        if (segment_start_word >= segment_end_word || range_last_word >= segment_end_word)
-          continue;
-      }
-
-      // Handle the intersection with the end of the range to clear (if any), if it's not at the segment boundary.
-      segment_start_word = word_index_of(align_bit_down_to_segment(range_end_bit));
-      if (segment_start_word >= segment_end_word)
-        continue;
+      uint32_t first_segment_word = align_word_down_to_segment(word_index_of(first_bit));
+      uint32_t last_segment_word = align_word_down_to_segment(word_index_of(last_bit));
 
-      if (!is_bit_aligned_to_segment(range_end_bit) && range_start_word <= range_last_word) {
-        uint32_t dense_range_index = 0;
-        uint32_t dense_range_count = range_end_bit & kSegmentBitMask;
+      insert_ones(segment_start_word, first_segment_word);
 
-        init_dense_segment_with_ones(inserter.current(), segment_start_word);
-        bl::BitSetOps::bit_array_clear(inserter.current().data(), dense_range_index, dense_range_count);
-        inserter.advance();
-
-        segment_start_word += kSegmentWordCount;
-        range_start_word = segment_start_word;
-        range_start_bit = bit_index_of(range_start_word);
-
-        // Nothing else to do with this segment if the rest is cleared entirely.
-        if (segment_start_word >= segment_end_word || range_last_word >= segment_end_word)
-          continue;
-      }
-
-      // Handle a possible trailing segment, which won't be cleared.
-      uint32_t trailing_word_count = segment_end_word - segment_start_word;
-      BL_ASSERT(trailing_word_count >= 1);
-
-      if (trailing_word_count >= kSegmentWordCount * 2) {
-        // If the trailing range spans across two or more segments, insert a Range segment.
-        init_range_segment(inserter.current(), segment_start_word, segment_end_word);
-        inserter.advance();
+      if (first_segment_word == last_segment_word) {
+        insert_ones_and_clear(first_segment_word, first_bit & kSegmentBitMask, last_bit - first_bit + 1u);
       }
       else {
-        // If the trailing range covers only a single segment, insert a Dense segment.
-        init_dense_segment_with_ones(inserter.current(), segment_start_word);
-        inserter.advance();
+        insert_ones_and_clear(first_segment_word, first_bit & kSegmentBitMask, kSegmentBitCount - (first_bit & kSegmentBitMask));
+        insert_ones_and_clear(last_segment_word, 0u, (last_bit & kSegmentBitMask) + 1u);
       }
+
+      insert_ones(last_segment_word + kSegmentWordCount, segment_end_word);
     }
     else {
-      uint32_t segment_start_bit = range_start_bit & kSegmentBitMask;
-      uint32_t segment_range = range_end_bit - range_start_bit;
-
-      if (range_last_word < segment.end_word()) {
-        // If this is the only segment to touch, and the BitSet is mutable, do it in place and return
-        if (can_modify && insert_index == segment_index && inserter.is_empty()) {
-          bl::BitSetOps::bit_array_clear(segment_data[segment_index].data(), segment_start_bit, segment_range);
-          return reset_cached_cardinality(self);
-        }
-      }
-      else {
-        segment_range = kSegmentBitCount - segment_start_bit;
+      uint32_t clear_index = first_bit & kSegmentBitMask;
+      uint32_t clear_count = last_bit - first_bit + 1u;
+
+      // If this is the only segment to touch, and the BitSet is mutable, do it in place and return.
+      if (can_modify && insert_index == segment_index && range_last_word < segment_end_word) {
+        bl::BitSetOps::bit_array_clear(segment_data[segment_index].data(), clear_index, clear_count);
+        return reset_cached_cardinality(self);
       }
 
       inserter.current() = segment;
-- 
2.43.0


From ba6c374487cc78d02903c92077a4eeed3b57a2fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:14 +0000
Subject: [PATCH 048/132] fix: optimizing or shrinking a BitSet must keep its
 content

---
 blend2d/core/bitset.cpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/blend2d/core/bitset.cpp b/blend2d/core/bitset.cpp
index b784174..3640c5d 100644
--- a/blend2d/core/bitset.cpp
+++ b/blend2d/core/bitset.cpp
@@ -2158,16 +2158,17 @@ static bool test_segments_for_range(const BLBitSetSegment* segment_data, uint32_
   Range range{};
 
   for (uint32_t i = 0; i < segment_count; i++) {
-    uint32_t start_word = segment_data->start_word();
-    uint32_t end_word = segment_data->end_word();
+    const BLBitSetSegment& segment = segment_data[i];
+    uint32_t start_word = segment.start_word();
+    uint32_t end_word = segment.end_word();
 
     Range local;
 
-    if (segment_data->all_ones()) {
+    if (segment.all_ones()) {
       local.reset(start_word * BitSetOps::kNumBits, end_word * BitSetOps::kNumBits);
     }
     else {
-      PreciseDataAnalysis pa = precise_data_analysis(start_word, segment_data->data(), kSegmentWordCount);
+      PreciseDataAnalysis pa = precise_data_analysis(start_word, segment.data(), kSegmentWordCount);
       if (!pa.is_range())
         return false;
       local.reset(pa.start, pa.end);
@@ -2226,8 +2227,8 @@ static BLResult optimize_internal(BLBitSetCore* self, bool shrink) noexcept {
       return replace_instance(self, &tmp);
     }
 
-    // Try SSO dense representation.
-    if (optimized_segment_count <= 2) {
+    // Try SSO dense representation - Range segments don't hold words and would never fit.
+    if (optimized_segment_count <= 2 && !optimized_segment_data[0].all_ones() && !(optimized_segment_count == 2 && optimized_segment_data[1].all_ones())) {
       if (optimized_segment_count == 1 || optimized_segment_data[0].end_word() == optimized_segment_data[1].start_word()) {
         uint32_t optimized_word_data[kSegmentWordCount * 2];
         bl::MemOps::copy_forward_inline_t(optimized_word_data, optimized_segment_data[0].data(), kSegmentWordCount);
-- 
2.43.0


From 78454ee9c45471461d60265ac8358e961c865330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:15 +0000
Subject: [PATCH 049/132] fix: a BitSet must verify all words before it becomes
 a range

---
 blend2d/core/bitset.cpp | 13 ++-----------
 1 file changed, 2 insertions(+), 11 deletions(-)

diff --git a/blend2d/core/bitset.cpp b/blend2d/core/bitset.cpp
index 3640c5d..0b46891 100644
--- a/blend2d/core/bitset.cpp
+++ b/blend2d/core/bitset.cpp
@@ -1102,17 +1102,8 @@ static bool get_range_from_analyzed_word_data(uint32_t start_word, const uint32_
     return false;
   }
 
-  // Now verify that all other words that form first, middle, and last segment are all ones.
-  //
-  // NOTE: This function is only called after `analyze_word_data_for_assignment()`, which means that we know that there
-  // are no zero segments and we know that the maximum number of segments all words form are 3. This means that we
-  // don't have to process all words, only those that describe the first two segments and the last one (because there
-  // are no other segments). If the range is really large, we can skip a lot of words.
-  uint32_t first_words_to_check = bl_min<uint32_t>(word_count - 2, kSegmentWordCount * 2 - 1);
-  uint32_t last_words_to_check = bl_min<uint32_t>(word_count - 2, kSegmentWordCount - 1);
-
-  return MemOps::test_small_t(word_data + 1, first_words_to_check, BitSetOps::ones()) &&
-         MemOps::test_small_t(word_data + word_count - 1 - last_words_to_check, last_words_to_check, BitSetOps::ones());
+  // Now verify that all other words are all ones.
+  return MemOps::test_small_t(word_data + 1, word_count - 2u, BitSetOps::ones());
 }
 
 // bl::BitSet - Dynamic - Splice Operation
-- 
2.43.0


From 4f5ffb7a53386ee116da4601f091690f301bbd31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:15 +0000
Subject: [PATCH 050/132] fix: bl_bit_set_chop() must not use uninitialized
 words

---
 blend2d/core/bitset.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/blend2d/core/bitset.cpp b/blend2d/core/bitset.cpp
index 0b46891..3f14a34 100644
--- a/blend2d/core/bitset.cpp
+++ b/blend2d/core/bitset.cpp
@@ -2320,6 +2320,9 @@ BL_API_IMPL BLResult bl_bit_set_chop(BLBitSetCore* self, uint32_t start_bit, uin
       uint32_t tmp[kSSOWordCount + 2];
       SSODenseInfo info = chop_sso_dense_data(self, tmp, start_bit, end_bit);
 
+      if (!info.word_count())
+        return init_sso_empty(self);
+
       uint32_t i = 0;
       BL_NOUNROLL
       while (tmp[i] == 0)
-- 
2.43.0


From d22cd060d8f23633cdd4c62e93363b63eb106577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:15 +0000
Subject: [PATCH 051/132] fix: bl_bit_set_add_range() must stay within inline
 words and not duplicate segments

---
 blend2d/core/bitset.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/blend2d/core/bitset.cpp b/blend2d/core/bitset.cpp
index 3f14a34..bfe918c 100644
--- a/blend2d/core/bitset.cpp
+++ b/blend2d/core/bitset.cpp
@@ -2636,7 +2636,7 @@ BL_API_IMPL BLResult bl_bit_set_add_range(BLBitSetCore* self, uint32_t range_sta
         // necessary.
         uint32_t n = get_sso_word_count_from_data(self->_d.u32_data, info.word_count());
 
-        if ((range_last_word - range_start_word) < kSSOWordCount && range_last_word < iStartWord + n) {
+        if (iStartWord + n - range_start_word <= kSSOWordCount && range_last_word - range_start_word < kSSOWordCount) {
           uint32_t tmp[kSSOWordCount];
           bl::MemOps::copy_forward_inline_t(tmp, self->_d.u32_data, kSSOWordCount);
 
@@ -2796,8 +2796,7 @@ InitRange:
   if (segment_index < segment_count) {
     BLBitSetSegment& next = segment_data[segment_index];
     if (next.all_ones() && next.start_word() <= inserter.prev().start_word()) {
-      init_range_segment(inserter.current(), inserter.prev().start_word(), next.end_word());
-      inserter.advance();
+      init_range_segment(inserter.prev(), inserter.prev().start_word(), next.end_word());
       segment_index++;
     }
   }
-- 
2.43.0


From 0811b1624003732301bece4c31f1fb9f45785472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:15 +0000
Subject: [PATCH 052/132] fix: bl_bit_set_add_words() must not lose or overflow
 segments

---
 blend2d/core/bitset.cpp | 6 +++---
 blend2d/core/bitset.h   | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/blend2d/core/bitset.cpp b/blend2d/core/bitset.cpp
index bfe918c..6cd3945 100644
--- a/blend2d/core/bitset.cpp
+++ b/blend2d/core/bitset.cpp
@@ -2870,12 +2870,12 @@ BL_API_IMPL BLResult bl_bit_set_add_words(BLBitSetCore* self, uint32_t start_wor
 
       if (start_word < sso_word_index) {
         uint32_t distance = sso_word_index - start_word;
-        if (distance + sso_word_count <= kSSOWordCount) {
+        if (distance + sso_word_count <= kSSOWordCount && word_count <= kSSOWordCount) {
           BLBitSetCore tmp;
           init_sso_dense(&tmp, start_word);
 
           bl::MemOps::copy_forward_inline_t(tmp._d.u32_data, word_data, word_count);
-          bl::MemOps::combine_small<bl::BitOperator::Or>(tmp._d.u32_data, self->_d.u32_data + distance, sso_word_count);
+          bl::MemOps::combine_small<bl::BitOperator::Or>(tmp._d.u32_data + distance, self->_d.u32_data, sso_word_count);
 
           self->_d = tmp._d;
           return BL_SUCCESS;
@@ -3059,7 +3059,7 @@ BL_API_IMPL BLResult bl_bit_set_add_words(BLBitSetCore* self, uint32_t start_wor
       }
 
       // Create a Range segment if two or more full segments are next to each other.
-      if (initial_word_index - word_index > kSegmentWordCount) {
+      if (word_index - initial_word_index > kSegmentWordCount) {
         if (next) {
           if (next->all_ones() && word_index >= next->start_word()) {
             next->_set_range_start_word(initial_word_index);
diff --git a/blend2d/core/bitset.h b/blend2d/core/bitset.h
index e381243..219e7fb 100644
--- a/blend2d/core/bitset.h
+++ b/blend2d/core/bitset.h
@@ -61,7 +61,7 @@ struct BLBitSetSegment {
   BL_INLINE_NODEBUG uint32_t _dense_start_word() const noexcept { return _start_word; }
   BL_INLINE_NODEBUG uint32_t _dense_end_word() const noexcept { return _start_word + BL_BIT_SET_SEGMENT_WORD_COUNT; }
 
-  BL_INLINE_NODEBUG void _set_range_start_word(uint32_t index) noexcept { _start_word = index; }
+  BL_INLINE_NODEBUG void _set_range_start_word(uint32_t index) noexcept { _start_word = index | BL_BIT_SET_RANGE_MASK; }
   BL_INLINE_NODEBUG void _set_range_end_word(uint32_t index) noexcept { _data[0] = index; }
 
   BL_INLINE_NODEBUG uint32_t start_word() const noexcept { return _start_word & ~BL_BIT_SET_RANGE_MASK; }
-- 
2.43.0


From 2ba71d1a40c3bee5bcc6c1b000956ec9fd12243d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:15 +0000
Subject: [PATCH 053/132] fix: clearing bits of a BitSet must not write past
 its words and segments

---
 blend2d/core/bitset.cpp | 51 +++++++++++++++++++++++++++++------------
 1 file changed, 36 insertions(+), 15 deletions(-)

diff --git a/blend2d/core/bitset.cpp b/blend2d/core/bitset.cpp
index 6cd3945..d438456 100644
--- a/blend2d/core/bitset.cpp
+++ b/blend2d/core/bitset.cpp
@@ -3155,12 +3155,12 @@ BL_API_IMPL BLResult bl_bit_set_clear_bit(BLBitSetCore* self, uint32_t bit_index
 
       // We know that the bit_index is somewhere inside the SSO range, but not at the start/end. If the range can
       // be represented as a dense SSO BitSet then it's guaranteed that the result would also fit in SSO storage.
-      uint32_t first_word = word_index_of(rSSO.start);
+      uint32_t first_word = bl_min<uint32_t>(word_index_of(rSSO.start), kSSOLastWord);
       uint32_t last_word = word_index_of(rSSO.end - 1u);
 
       if (last_word - first_word < kSSOWordCount) {
         init_sso_dense(self, first_word);
-        bl::BitSetOps::bit_array_fill(self->_d.u32_data, rSSO.start % bl::BitSetOps::kNumBits, rSSO.size());
+        bl::BitSetOps::bit_array_fill(self->_d.u32_data, rSSO.start - bit_index_of(first_word), rSSO.size());
         bl::BitSetOps::bit_array_clear_bit(self->_d.u32_data, bit_index - bit_index_of(first_word));
         return BL_SUCCESS;
       }
@@ -3314,12 +3314,12 @@ BL_API_IMPL BLResult bl_bit_set_clear_range(BLBitSetCore* self, uint32_t range_s
 
       // We know that the range is somewhere inside the SSO range, but not at the start/end. If the range can be
       // represented as a dense SSO BitSet then it's guaranteed that the result would also fit in SSO storage.
-      uint32_t dense_first_word = word_index_of(rSSO.start);
+      uint32_t dense_first_word = bl_min<uint32_t>(word_index_of(rSSO.start), kSSOLastWord);
       uint32_t dense_last_word = word_index_of(rSSO.end - 1u);
 
-      if (dense_first_word - dense_last_word < kSSOWordCount) {
+      if (dense_last_word - dense_first_word < kSSOWordCount) {
         init_sso_dense(self, dense_first_word);
-        bl::BitSetOps::bit_array_fill(self->_d.u32_data, rSSO.start % bl::BitSetOps::kNumBits, rSSO.size());
+        bl::BitSetOps::bit_array_fill(self->_d.u32_data, rSSO.start - bit_index_of(dense_first_word), rSSO.size());
         bl::BitSetOps::bit_array_clear(self->_d.u32_data, intersection.start - bit_index_of(dense_first_word), intersection.size());
         return BL_SUCCESS;
       }
@@ -3380,26 +3380,47 @@ BL_API_IMPL BLResult bl_bit_set_clear_range(BLBitSetCore* self, uint32_t range_s
   if (segment_index >= segment_count)
     return BL_SUCCESS;
 
-  // Build an array of segments that will replace matching segments in the BitSet.
+  // Build an array of segments that will replace matching segments in the BitSet. Only the first and the last matching
+  // segment can be cleared partially, and each of them is replaced by 4 segments at most.
   StaticSegmentInserter<8> inserter;
   uint32_t insert_index = segment_index;
 
+  auto insert_ones = [&](uint32_t start_word, uint32_t end_word) noexcept {
+    if (start_word >= end_word)
+      return;
+
+    // A Range segment has to span across two or more segments.
+    if (end_word - start_word >= kSegmentWordCount * 2u)
+      init_range_segment(inserter.current(), start_word, end_word);
+    else
+      init_dense_segment_with_ones(inserter.current(), start_word);
+    inserter.advance();
+  };
+
+  auto insert_ones_and_clear = [&](uint32_t start_word, uint32_t clear_index, uint32_t clear_count) noexcept {
+    if (clear_count == kSegmentBitCount)
+      return;
+
+    init_dense_segment_with_ones(inserter.current(), start_word);
+    bl::BitSetOps::bit_array_clear(inserter.current().data(), clear_index, clear_count);
+    inserter.advance();
+  };
+
   do {
     const BLBitSetSegment& segment = segment_data[segment_index];
     uint32_t segment_start_word = segment.start_word();
     uint32_t segment_end_word = segment.end_word();
 
-    // Discard non-intersecting areas.
-    if (range_start_word < segment_start_word) {
-      range_start_word = segment_start_word;
-      range_start_bit = bit_index_of(range_start_word);
+    // All remaining segments start after the range to clear.
+    if (segment_start_word > range_last_word)
+      break;
 
-      if (range_start_word > range_last_word)
-        break;
-    }
+    // Intersection of the range to clear and the segment.
+    uint32_t first_bit = bl_max(range_start_bit, bit_index_of(segment_start_word));
+    uint32_t last_bit = bl_min(range_end_bit - 1u, bit_index_of(segment_end_word) - 1u);
 
     // If the range to clear completely overlaps this segment, remove it.
-    if (range_last_word >= segment_end_word && range_start_bit == segment.start_bit())
+    if (first_bit == bit_index_of(segment_start_word) && last_bit == bit_index_of(segment_end_word) - 1u)
       continue;
 
     // The range to clear doesn't completely overlap this segment, so clear the bits required.
@@ -3445,7 +3466,7 @@ BL_API_IMPL BLResult bl_bit_set_clear_range(BLBitSetCore* self, uint32_t range_s
       }
 
       inserter.current() = segment;
-      bl::BitSetOps::bit_array_clear(inserter.current().data(), segment_start_bit, segment_range);
+      bl::BitSetOps::bit_array_clear(inserter.current().data(), clear_index, clear_count);
       inserter.advance();
     }
   } while (++segment_index < segment_count);
-- 
2.43.0


From cbf52cbf0e66143156da3fe226bff6a4d7a1e08d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:34 +0000
Subject: [PATCH 054/132] fix: PNG deinterlacing of 2 and 4 bit images must
 place the trailing pixels of each row

---
 blend2d/codec/pngcodec.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/blend2d/codec/pngcodec.cpp b/blend2d/codec/pngcodec.cpp
index 66cfb7f..78fc265 100644
--- a/blend2d/codec/pngcodec.cpp
+++ b/blend2d/codec/pngcodec.cpp
@@ -460,7 +460,7 @@ static void deinterlace_bits(
           a = uint32_t(*d2++);
           b = 0;
 
-          if (x >=  3) a  = (uint32_t(*d3++) << 8);
+          if (x >=  3) a += (uint32_t(*d3++) << 8);
           if (x >=  2) b  = (uint32_t(*d5++)     );
           if (x >= 10) b += (uint32_t(*d5++) << 8);
 
@@ -506,10 +506,10 @@ static void deinterlace_bits(
           if (x >= 2)
             b = uint32_t(*d5++);
 
-          tmp_data[0] = combineByte2bpp(a     , b >> 10, b >> 4, b >> 12);
+          tmp_data[0] = combineByte2bpp(a     , b >> 2, a >> 2, b >> 4);
           if (x <=  4) break;
 
-          tmp_data[1] = combineByte2bpp(a >> 8, b >>  6, b >> 2, b >>  8);
+          tmp_data[1] = combineByte2bpp(a << 4, b << 2, a << 2, b     );
           break;
         }
       }
@@ -616,7 +616,9 @@ static void deinterlace_bits(
           tmp_data[1] = combineByte4bpp(a >> 8, b);
           if (x <= 4) break;
 
-          b = uint32_t(*d5++);
+          if (x >= 6)
+            b = uint32_t(*d5++);
+
           tmp_data[2] = combineByte4bpp(a << 4, b >> 4);
           if (x <= 6) break;
 
-- 
2.43.0


From 0a2eb8a2506cbc7a689389789a6637c8906979e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:34 +0000
Subject: [PATCH 055/132] fix: DEFLATE decoder must not mix stale refill bits
 into bytes that follow an uncompressed block

---
 blend2d/compression/deflatedecoderutils_p.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/blend2d/compression/deflatedecoderutils_p.h b/blend2d/compression/deflatedecoderutils_p.h
index 1d8197f..cb74344 100644
--- a/blend2d/compression/deflatedecoderutils_p.h
+++ b/blend2d/compression/deflatedecoderutils_p.h
@@ -183,6 +183,10 @@ struct DecoderBits {
   BL_INLINE_NODEBUG void fix_length_after_fast_loop() noexcept {
     if constexpr (sizeof(BLBitWord) >= 8) {
       bit_length &= (IntOps::bit_size_of<BLBitWord>() - 1u);
+
+      // The fast loop refills the whole BitWord so there are bits above `bit_length`, which belong to bytes that haven't
+      // been consumed yet. These must be cleared as such bytes could also be consumed directly (uncompressed block).
+      bit_word &= (BLBitWord(1) << bit_length) - 1u;
     }
   }
 };
-- 
2.43.0


From c6c3ee9edf69c22fc6b14c32eba879a10529821a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:34 +0000
Subject: [PATCH 056/132] fix: APNG decoder must skip trailing chunks of the
 frame that has been decoded

---
 blend2d/codec/pngcodec.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/blend2d/codec/pngcodec.cpp b/blend2d/codec/pngcodec.cpp
index 78fc265..1e6c11b 100644
--- a/blend2d/codec/pngcodec.cpp
+++ b/blend2d/codec/pngcodec.cpp
@@ -1425,6 +1425,16 @@ static BLResult decoder_read_pixel_data(BLPngDecoderImpl* decoder_impl, BLImage*
           if (decoder_impl->png_pixel_data.size() != png_pixel_data_size) {
             return bl_make_error(BL_ERROR_INVALID_DATA);
           }
+
+          // Skip the remaining chunks of this frame - the end of the DEFLATE stream (its checksum) could be split into
+          // more chunks and empty chunks are allowed as well. These must not be treated as a data of the next frame.
+          while (chunk_reader.has_chunk() && chunk_reader.read_chunk_tag() == frame_tag) {
+            chunk_size = chunk_reader.read_chunk_size();
+            if (!chunk_reader.has_chunk_with_size(chunk_size)) {
+              break;
+            }
+            chunk_reader.advance(size_t(kPngChunkBaseSize) + chunk_size);
+          }
           break;
         }
 
-- 
2.43.0


From 3b307e7551ab9995e9f1a38e649e4bdf2b6dfde5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:34 +0000
Subject: [PATCH 057/132] fix: APNG decoder must not restore content that was
 never saved when the first frame is disposed

---
 blend2d/codec/pngcodec.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/blend2d/codec/pngcodec.cpp b/blend2d/codec/pngcodec.cpp
index 1e6c11b..73272df 100644
--- a/blend2d/codec/pngcodec.cpp
+++ b/blend2d/codec/pngcodec.cpp
@@ -1504,7 +1504,15 @@ static BLResult decoder_read_pixel_data(BLPngDecoderImpl* decoder_impl, BLImage*
     size_t bpp = image_out->depth() / 8u;
     size_t prev_area_width_in_bytes = decoder_impl->prev_ctrl.w * bpp;
 
-    switch (decoder_impl->prev_ctrl.dispose_op) {
+    uint32_t prev_dispose_op = decoder_impl->prev_ctrl.dispose_op;
+
+    // There is no content to restore if the previous frame was the first one, in that case the specification
+    // requires `kAPNGDisposeOpPrevious` to be treated as `kAPNGDisposeOpBackground`.
+    if (decoder_impl->frame_index == 1u && prev_dispose_op == kAPNGDisposeOpPrevious) {
+      prev_dispose_op = kAPNGDisposeOpBackground;
+    }
+
+    switch (prev_dispose_op) {
       case kAPNGDisposeOpBackground: {
         zero_pixels(
           dst_pixels + intptr_t(decoder_impl->prev_ctrl.y) * dst_stride + intptr_t(decoder_impl->prev_ctrl.x * bpp),
-- 
2.43.0


From 278115d3d6af7d4978b874af8b015ee3218aa87d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:34 +0000
Subject: [PATCH 058/132] fix: PNG decoder must refuse dimensions that overflow
 the size of pixel data

---
 blend2d/codec/pngcodec.cpp | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/blend2d/codec/pngcodec.cpp b/blend2d/codec/pngcodec.cpp
index 73272df..5695c74 100644
--- a/blend2d/codec/pngcodec.cpp
+++ b/blend2d/codec/pngcodec.cpp
@@ -155,11 +155,20 @@ static uint32_t calculate_interlace_steps(
     // five rows, some passes will be empty, decoders must handle this case.
     uint32_t used = sw != 0 && sh != 0;
 
-    // NOTE: No need to check for overflow at this point as we have already
-    // calculated the total BPL of the whole image, and since interlacing is
-    // splitting it into multiple images, it can't overflow the base size.
-    uint32_t bpl = ((sw * sample_depth + 7) / 8) * sample_count + 1;
-    uint32_t size = used ? bpl * sh : uint32_t(0);
+    // NOTE: The dimensions are only known to be less than 2^31, so the size of
+    // a scanline or of the whole pass could overflow.
+    uint64_t bpl64 = ((uint64_t(sw) * sample_depth + 7) / 8) * sample_count + 1;
+    if (BL_UNLIKELY(bpl64 > 0xFFFFFFFFu)) {
+      return 0;
+    }
+
+    uint64_t size64 = used ? bpl64 * sh : uint64_t(0);
+    if (BL_UNLIKELY(size64 > 0xFFFFFFFFu)) {
+      return 0;
+    }
+
+    uint32_t bpl = uint32_t(bpl64);
+    uint32_t size = uint32_t(size64);
 
     dst->used = used;
     dst->width = sw;
-- 
2.43.0


From 3ed01d2ad66c114d3765c5ce32c682b1b54b9a7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:02 +0000
Subject: [PATCH 059/132] fix: PNG decoder must construct and destroy its
 buffer of saved pixels

---
 blend2d/codec/pngcodec_p.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/blend2d/codec/pngcodec_p.h b/blend2d/codec/pngcodec_p.h
index b702121..6af7fe2 100644
--- a/blend2d/codec/pngcodec_p.h
+++ b/blend2d/codec/pngcodec_p.h
@@ -139,10 +139,12 @@ struct BLPngDecoderImpl : public BLImageDecoderImpl {
     BLImageDecoderImpl::ctor(virt_, codec_);
     bl_call_ctor(png_pixel_data);
     bl_call_ctor(pixel_converter);
+    bl_call_ctor(previous_pixel_buffer);
   }
 
   //! Explicit destructor that destructs this Impl.
   BL_INLINE void dtor() noexcept {
+    bl_call_dtor(previous_pixel_buffer);
     bl_call_dtor(pixel_converter);
     bl_call_dtor(png_pixel_data);
     BLImageDecoderImpl::dtor();
-- 
2.43.0


From 4a78452eb2f3743b3d4a09cb560d15ee069f4e77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:38 +0000
Subject: [PATCH 060/132] fix: DEFLATE decoder must account for literals that
 precede a match in its fast loop

---
 blend2d/compression/deflatedecoderfastimpl_p.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/blend2d/compression/deflatedecoderfastimpl_p.h b/blend2d/compression/deflatedecoderfastimpl_p.h
index 25e8e0b..5f86cd5 100644
--- a/blend2d/compression/deflatedecoderfastimpl_p.h
+++ b/blend2d/compression/deflatedecoderfastimpl_p.h
@@ -163,7 +163,8 @@ DecoderFastResult decode_impl(
       uint8_t* copy_ptr = dst_ptr;
       dst_ptr += length;
 
-      safe_iters -= intptr_t((length + (kDstBytesPerIter - 1)) / kDstBytesPerIter);
+      // The match could have been preceded by up to two literals in the same iteration.
+      safe_iters -= intptr_t((length + 2u + (kDstBytesPerIter - 1)) / kDstBytesPerIter);
 
       BL_DECODER_UPDATE_STATISTICS(ctx->statistics.fast.match_up_to_8 += unsigned(length <= 8));
       BL_DECODER_UPDATE_STATISTICS(ctx->statistics.fast.match_up_to_16 += unsigned(length <= 16));
-- 
2.43.0


From 732787bb33671e882c289ffec08267cd250f06bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:38 +0000
Subject: [PATCH 061/132] fix: DEFLATE decoder must have enough bits to decode
 the entry that follows a long match

---
 blend2d/compression/deflatedecoderfastimpl_p.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/blend2d/compression/deflatedecoderfastimpl_p.h b/blend2d/compression/deflatedecoderfastimpl_p.h
index 5f86cd5..f17b037 100644
--- a/blend2d/compression/deflatedecoderfastimpl_p.h
+++ b/blend2d/compression/deflatedecoderfastimpl_p.h
@@ -153,6 +153,11 @@ DecoderFastResult decode_impl(
       size_t dst_size = PtrOps::byte_offset(dst_start, dst_ptr);
       bits.consumed(entry);
 
+      // Two literals followed by a match could need up to 55 bits, which means that there is not enough bits to decode
+      // the next entry.
+      refill_data = MemOps::loadu_le<BLBitWord>(src_ptr);
+      src_ptr += bits.refill_bit_word(refill_data);
+
       if (BL_UNLIKELY(offset > dst_size)) {
         goto ErrorInvalidData;
       }
-- 
2.43.0


From 5fde99561459d759b5f23b356858e58c0099dd7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:11 +0000
Subject: [PATCH 062/132] fix: JPEG decoder must advance rows of
 non-interleaved baseline scans by whole blocks

The stride of a component is aligned to whole MCUs, but a non-interleaved
scan only has the blocks that contain effective pixels, thus rows of such
scan started at a wrong position when the last MCU was not full.
---
 blend2d/codec/jpegcodec.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blend2d/codec/jpegcodec.cpp b/blend2d/codec/jpegcodec.cpp
index 9ae5c20..10180cd 100644
--- a/blend2d/codec/jpegcodec.cpp
+++ b/blend2d/codec/jpegcodec.cpp
@@ -1052,7 +1052,7 @@ static BLResult decoder_process_stream(BLJpegDecoderImpl* decoder_impl, const ui
       run->count = count;
       run->stride = stride;
       run->advance[0] = sf_w * unit_size * kDctSize;
-      run->advance[1] = run->advance[0] + (sf_h * kDctSize - 1) * stride;
+      run->advance[1] = sf_h * kDctSize * stride - (mcu_w - 1) * run->advance[0];
     }
     else {
       uint32_t block_size = unit_size * kDctSize2;
-- 
2.43.0


From 77051fc1301baa44f5301dc1407e96eda03406cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:11 +0000
Subject: [PATCH 063/132] fix: JPEG decoder must not consume more bits than
 available

The accelerated AC decoding and AC coefficients of progressive scans did
not check whether there are enough bits in the bit buffer, so the number
of available bits underflowed when the entropy coded data was truncated.
---
 blend2d/codec/jpegcodec.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/blend2d/codec/jpegcodec.cpp b/blend2d/codec/jpegcodec.cpp
index 10180cd..57163c1 100644
--- a/blend2d/codec/jpegcodec.cpp
+++ b/blend2d/codec/jpegcodec.cpp
@@ -768,6 +768,8 @@ static BLResult decoder_read_baseline_block(BLJpegDecoderImpl* decoder_impl, Dec
       s = (ac & 15);       // Size.
       k += (ac >> 4) & 15; // Skip.
       ac >>= 8;
+
+      BL_PROPAGATE(reader.require_bits(s));
       reader.drop(s);
       dst[decoder_de_zig_zag_table[k++]] = int16_t(ac);
     }
@@ -863,6 +865,8 @@ static BLResult decoder_read_progressive_block(BLJpegDecoderImpl* decoder_impl,
         if (r) {
           int32_t s = r & 15;
           k += (r >> 4) & 15;
+
+          BL_PROPAGATE(reader.require_bits(uint32_t(s)));
           reader.drop(uint32_t(s));
 
           uint32_t zig = decoder_de_zig_zag_table[k++];
@@ -889,6 +893,8 @@ static BLResult decoder_read_progressive_block(BLJpegDecoderImpl* decoder_impl,
           }
           else {
             k += uint32_t(r);
+
+            BL_PROPAGATE(reader.require_bits(uint32_t(s)));
             r = reader.read_signed(uint32_t(s));
 
             uint32_t zig = decoder_de_zig_zag_table[k++];
-- 
2.43.0


From ebc181628b013b367c05d3363c71967cdcf48d1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:11 +0000
Subject: [PATCH 064/132] fix: JPEG decoder must restore the end of input after
 a restart marker

The bit reader ends at the restart marker, so its end was behind its
position after the marker was skipped, and the decoder then continued
reading past the end of the input data if there was no other marker.
---
 blend2d/codec/jpegcodec.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/blend2d/codec/jpegcodec.cpp b/blend2d/codec/jpegcodec.cpp
index 57163c1..ab75395 100644
--- a/blend2d/codec/jpegcodec.cpp
+++ b/blend2d/codec/jpegcodec.cpp
@@ -709,7 +709,8 @@ static BLResult decoder_handle_restart(BLJpegDecoderImpl* decoder_impl, DecoderB
   if (!reader.at_end() || (size_t)(pEnd - reader.ptr) < 2 || !is_marker_rst(reader.ptr[1]))
     return bl_make_error(BL_ERROR_DECOMPRESSION_FAILED);
 
-  // Skip the marker and flush entropy bits.
+  // Skip the marker and flush entropy bits. The end of the reader is at the marker, restore it.
+  reader.end = pEnd;
   reader.flush();
   reader.advance(2);
   reader.done(stream);
-- 
2.43.0


From 234dd312e627271a047a63f67944a3be7978effc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:11 +0000
Subject: [PATCH 065/132] fix: JPEG decoder must calculate sizes and offsets of
 component data in size_t

These overflowed 32 bits when the image was large, which resulted in too
small buffers and writes past their ends.
---
 blend2d/codec/jpegcodec.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/blend2d/codec/jpegcodec.cpp b/blend2d/codec/jpegcodec.cpp
index ab75395..9592f5c 100644
--- a/blend2d/codec/jpegcodec.cpp
+++ b/blend2d/codec/jpegcodec.cpp
@@ -223,14 +223,14 @@ static BLResult decoder_process_marker(BLJpegDecoderImpl* decoder_impl, uint32_t
       comp->os_w = comp->bl_w * kDctSize;
       comp->os_h = comp->bl_h * kDctSize;
 
-      comp->data = static_cast<uint8_t*>(decoder_impl->allocator.alloc(comp->os_w * comp->os_h));
+      comp->data = static_cast<uint8_t*>(decoder_impl->allocator.alloc(size_t(comp->os_w) * comp->os_h));
       if (comp->data == nullptr) {
         return bl_make_error(BL_ERROR_OUT_OF_MEMORY);
       }
 
       if (!is_baseline) {
         uint32_t kBlock8x8UInt16 = kDctSize2 * uint32_t(sizeof(int16_t));
-        size_t coeff_size = comp->bl_w * comp->bl_h * kBlock8x8UInt16;
+        size_t coeff_size = size_t(comp->bl_w) * comp->bl_h * kBlock8x8UInt16;
         int16_t* coeff_data = static_cast<int16_t*>(decoder_impl->allocator.alloc(coeff_size, 16));
 
         if (coeff_data == nullptr) {
@@ -1193,8 +1193,8 @@ static BLResult decoder_process_mcus(BLJpegDecoderImpl* decoder_impl) noexcept {
 
       for (uint32_t j = 0; j < h; j++) {
         for (uint32_t i = 0; i < w; i++) {
-          int16_t *data = comp.coeff + 64 * (i + j * comp.bl_w);
-          opts.idct8(comp.data + comp.os_w * j * 8 + i * 8, intptr_t(comp.os_w), data, q_table->data);
+          int16_t *data = comp.coeff + size_t(64) * (i + size_t(j) * comp.bl_w);
+          opts.idct8(comp.data + size_t(comp.os_w) * j * 8 + i * 8, intptr_t(comp.os_w), data, q_table->data);
         }
       }
     }
-- 
2.43.0


From 27a9eef7e658410636396929b0ef586d139225e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:11 +0000
Subject: [PATCH 066/132] fix: JPEG decoder must refuse sampling factors that
 do not divide the maximum

Such components were upsampled by a factor rounded down, so the decoder
read past the ends of their lines and past the end of their data.
---
 blend2d/codec/jpegcodec.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/blend2d/codec/jpegcodec.cpp b/blend2d/codec/jpegcodec.cpp
index 9592f5c..1582dd1 100644
--- a/blend2d/codec/jpegcodec.cpp
+++ b/blend2d/codec/jpegcodec.cpp
@@ -201,6 +201,14 @@ static BLResult decoder_process_marker(BLJpegDecoderImpl* decoder_impl, uint32_t
       mcu_sf_h = bl_max(mcu_sf_h, sf_h);
     }
 
+    // Each sampling factor has to divide the maximum sampling factor, other ratios are not supported by upsampling.
+    for (i = 0; i < component_count; i++) {
+      DecoderComponent* comp = &decoder_impl->comp[i];
+      if (mcu_sf_w % comp->sf_w != 0 || mcu_sf_h % comp->sf_h != 0) {
+        return bl_make_error(BL_ERROR_JPEG_UNSUPPORTED_FEATURE);
+      }
+    }
+
     // Compute interleaved MCU info.
     uint32_t mcu_px_w = mcu_sf_w * kDctSize;
     uint32_t mcu_px_h = mcu_sf_h * kDctSize;
-- 
2.43.0


From 07c9561178850faa24f51d9e047f1b17fcaacb52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:11 +0000
Subject: [PATCH 067/132] fix: JPEG decoder must not use Huffman and
 quantization tables that were not defined

A baseline scan was only checked for AC tables and quantization tables
were not checked at all, so the decoder used uninitialized tables.
---
 blend2d/codec/jpegcodec.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/blend2d/codec/jpegcodec.cpp b/blend2d/codec/jpegcodec.cpp
index 1582dd1..e700862 100644
--- a/blend2d/codec/jpegcodec.cpp
+++ b/blend2d/codec/jpegcodec.cpp
@@ -485,12 +485,18 @@ static BLResult decoder_process_marker(BLJpegDecoderImpl* decoder_impl, uint32_t
         return bl_make_error(BL_ERROR_INVALID_DATA);
       }
 
-      if (dc_id > 3 || (!IntOps::bit_test(decoder_impl->dc_table_mask, dc_id) && ss_end == 0)) {
+      if (dc_id > 3 || (!IntOps::bit_test(decoder_impl->dc_table_mask, dc_id) && ss_start == 0)) {
         return bl_make_error(BL_ERROR_INVALID_DATA);
       }
 
-      // Link the current component to the `index` and update AC & DC selectors.
       DecoderComponent* comp = &decoder_impl->comp[index];
+
+      // The quantization table of the component must be defined as well.
+      if (!IntOps::bit_test(decoder_impl->q_table_mask, comp->quant_id)) {
+        return bl_make_error(BL_ERROR_INVALID_DATA);
+      }
+
+      // Link the current component to the `index` and update AC & DC selectors.
       comp->dc_id = uint8_t(dc_id);
       comp->ac_id = uint8_t(ac_id);
       sos.sc_comp[i] = comp;
-- 
2.43.0


From 48d09530bec2c1a9011f8e815e03a0fff6cf5dd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:04 +0000
Subject: [PATCH 068/132] fix: JPEG decoder must not use uninitialized data of
 components that have no scan

If there was no scan that would define a component of a baseline JPEG the
decoded image contained whatever was in the memory allocated for it.
---
 blend2d/codec/jpegcodec.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/blend2d/codec/jpegcodec.cpp b/blend2d/codec/jpegcodec.cpp
index e700862..0a0b7f7 100644
--- a/blend2d/codec/jpegcodec.cpp
+++ b/blend2d/codec/jpegcodec.cpp
@@ -1389,6 +1389,9 @@ static BLResult decoder_read_frame_impl_internal(BLJpegDecoderImpl* decoder_impl
 
   p += decoder_impl->buffer_index;
 
+  // Mask of components that have been decoded by at least one scan.
+  uint32_t decoded_mask = 0;
+
   // Process markers.
   //
   // We are already after SOF, which was processed by `decoder_read_info_impl_internal`.
@@ -1439,9 +1442,18 @@ static BLResult decoder_read_frame_impl_internal(BLJpegDecoderImpl* decoder_impl
       BL_ASSERT((size_t)(end - p) >= consumed_bytes);
       p += consumed_bytes;
       decoder_impl->status_flags |= DecoderStatusFlags::kDoneSOS;
+
+      for (uint32_t i = 0; i < decoder_impl->sos.sc_count; i++) {
+        decoded_mask |= IntOps::lsb_bit_at<uint32_t>(size_t(decoder_impl->sos.sc_comp[i] - decoder_impl->comp));
+      }
     }
   }
 
+  // Pixels of baseline components that were not part of any scan are undefined (coefficients of progressive are zeros).
+  if (decoder_impl->sof_marker != kMarkerSOF2 && decoded_mask != (1u << decoder_impl->image_info.plane_count) - 1u) {
+    return bl_make_error(BL_ERROR_INVALID_DATA);
+  }
+
   // Process MCUs.
   BL_PROPAGATE(decoder_process_mcus(decoder_impl));
 
-- 
2.43.0


From d71ece9c79a09c6860f575cd12c073daff07dfd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:11 +0000
Subject: [PATCH 069/132] fix: JPEG decoder must not read JFXX thumbnail size
 past the end of the segment

---
 blend2d/codec/jpegcodec.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/blend2d/codec/jpegcodec.cpp b/blend2d/codec/jpegcodec.cpp
index 0a0b7f7..e3bef27 100644
--- a/blend2d/codec/jpegcodec.cpp
+++ b/blend2d/codec/jpegcodec.cpp
@@ -598,12 +598,20 @@ static BLResult decoder_process_marker(BLJpegDecoderImpl* decoder_impl, uint32_t
           break;
 
         case kThumbnailPAL8:
+          if (remain < 8) {
+            return bl_make_error(BL_ERROR_INVALID_DATA);
+          }
+
           thumb_w = p[6];
           thumb_h = p[7];
           thumb_size = 768 + thumb_w * thumb_h;
           break;
 
         case kThumbnailRGB24:
+          if (remain < 8) {
+            return bl_make_error(BL_ERROR_INVALID_DATA);
+          }
+
           thumb_w = p[6];
           thumb_h = p[7];
           thumb_size = thumb_w * thumb_h * 3;
-- 
2.43.0


From 18eadbb03a3977f4151a83fcc2dfd890d8fc377e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:11 +0000
Subject: [PATCH 070/132] fix: JPEG decoder must not succeed reading
 information of a file that has no frame header

A file that ended with padding before the frame header was reported as an
image of zero size.
---
 blend2d/codec/jpegcodec.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blend2d/codec/jpegcodec.cpp b/blend2d/codec/jpegcodec.cpp
index e3bef27..de2d809 100644
--- a/blend2d/codec/jpegcodec.cpp
+++ b/blend2d/codec/jpegcodec.cpp
@@ -1366,7 +1366,7 @@ static BLResult decoder_read_info_impl_internal(BLJpegDecoderImpl* decoder_impl,
       }
 
       if (p == end) {
-        break;
+        return bl_make_error(BL_ERROR_DATA_TRUNCATED);
       }
 
       p++;
-- 
2.43.0


From dd9f9908236095ce7b422eabba9ea4a00495d8be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:27 +0000
Subject: [PATCH 071/132] fix: BMP RLE decoder must not write past the last row
 of the image

A move that ends right after the last row was accepted, but its horizontal
part was then filled by background in a row that does not exist.
---
 blend2d/codec/bmpcodec.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/blend2d/codec/bmpcodec.cpp b/blend2d/codec/bmpcodec.cpp
index 9a638a7..e82496d 100644
--- a/blend2d/codec/bmpcodec.cpp
+++ b/blend2d/codec/bmpcodec.cpp
@@ -217,13 +217,13 @@ static BLResult decodeRLE4(uint8_t* dst_line, intptr_t dst_stride, const uint8_t
         dst_data = dst_line;
       }
 
-      for (; x < to_x; x++, dst_data += 4) {
-        MemOps::writeU32a(dst_data, kRleBackground);
-      }
-
       if (b1 == kRleStop || y == h) {
         return BL_SUCCESS;
       }
+
+      for (; x < to_x; x++, dst_data += 4) {
+        MemOps::writeU32a(dst_data, kRleBackground);
+      }
     }
   }
 }
@@ -314,13 +314,13 @@ static BLResult decodeRLE8(uint8_t* dst_line, intptr_t dst_stride, const uint8_t
         dst_data = dst_line;
       }
 
-      for (; x < to_x; x++, dst_data += 4) {
-        MemOps::writeU32a(dst_data, kRleBackground);
-      }
-
       if (b1 == kRleStop || y == h) {
         return BL_SUCCESS;
       }
+
+      for (; x < to_x; x++, dst_data += 4) {
+        MemOps::writeU32a(dst_data, kRleBackground);
+      }
     }
   }
 }
-- 
2.43.0


From a5885fefaecd05f2cf62122f2c760e2520fb8238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:27 +0000
Subject: [PATCH 072/132] fix: BMP decoder must accept version 5 info header

The size of the header is 124 bytes, but it was defined as 12 bytes, which
is the size of OS/2 header.
---
 blend2d/codec/bmpcodec_p.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blend2d/codec/bmpcodec_p.h b/blend2d/codec/bmpcodec_p.h
index 78fd5f5..4b37ae2 100644
--- a/blend2d/codec/bmpcodec_p.h
+++ b/blend2d/codec/bmpcodec_p.h
@@ -26,7 +26,7 @@ static constexpr uint32_t kHeaderSizeWIN_V1 = 40;
 static constexpr uint32_t kHeaderSizeWIN_V2 = 52;
 static constexpr uint32_t kHeaderSizeWIN_V3 = 56;
 static constexpr uint32_t kHeaderSizeWIN_V4 = 108;
-static constexpr uint32_t kHeaderSizeWIN_V5 = 12;
+static constexpr uint32_t kHeaderSizeWIN_V5 = 124;
 
 static constexpr uint32_t kCompressionRGB = 0;
 static constexpr uint32_t kCompressionRLE8 = 1;
-- 
2.43.0


From d8abf0515e293409001301e657a7af01e0c37e27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:27 +0000
Subject: [PATCH 073/132] fix: ScopedBuffer must not have capacity after a
 failed allocation

The buffer then returned null for all following allocations that fit the
capacity, so an APNG decoder that ran out of memory could not be reused.
---
 blend2d/support/scopedbuffer_p.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blend2d/support/scopedbuffer_p.h b/blend2d/support/scopedbuffer_p.h
index 547e0b2..0badd65 100644
--- a/blend2d/support/scopedbuffer_p.h
+++ b/blend2d/support/scopedbuffer_p.h
@@ -60,7 +60,7 @@ public:
       free(_mem);
 
     _mem = malloc(size);
-    _capacity = size;
+    _capacity = _mem ? size : size_t(0);
 
     return _mem;
   }
-- 
2.43.0


From 200dbec84e180f8db5c3fca4b6cab66d54845fbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:01 +0000
Subject: [PATCH 074/132] fix: DEFLATE fast decoder must not index out of the
 offset table when the offset code is invalid

---
 blend2d/compression/deflatedecoderfastimpl_p.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/blend2d/compression/deflatedecoderfastimpl_p.h b/blend2d/compression/deflatedecoderfastimpl_p.h
index f17b037..727f9b2 100644
--- a/blend2d/compression/deflatedecoderfastimpl_p.h
+++ b/blend2d/compression/deflatedecoderfastimpl_p.h
@@ -142,7 +142,8 @@ DecoderFastResult decode_impl(
       uint32_t offset = DecoderUtils::raw_payload(entry) + DecoderUtils::extract_extra(bits.bit_word, entry);
 
       if (BL_UNLIKELY(!DecoderUtils::is_off_or_len(entry))) {
-        entry = tables.offset_decode_table[offset];
+        // An invalid entry has the invalid flag right after the payload, which must not be part of the index.
+        entry = tables.offset_decode_table[offset & 0x7FFFu];
         offset = DecoderUtils::raw_payload(entry) + DecoderUtils::extract_extra(bits.bit_word, entry);
 
         if (BL_UNLIKELY(DecoderUtils::is_end_of_block(entry))) {
-- 
2.43.0


From 82894413d2e1f802423146fe1f90da7350d82ff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:01 +0000
Subject: [PATCH 075/132] fix: PNG decoder must not read past the end of data
 shorter than the IHDR chunk

---
 blend2d/codec/pngcodec.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blend2d/codec/pngcodec.cpp b/blend2d/codec/pngcodec.cpp
index 5695c74..d5d0849 100644
--- a/blend2d/codec/pngcodec.cpp
+++ b/blend2d/codec/pngcodec.cpp
@@ -940,7 +940,7 @@ static BLResult decoder_read_info_internal(BLPngDecoderImpl* decoder_impl, const
     return bl_make_error(BL_ERROR_INVALID_SIGNATURE);
   }
 
-  ChunkReader chunk_reader(p + kPngSignatureSize, p + size - kPngSignatureSize);
+  ChunkReader chunk_reader(p + kPngSignatureSize, p + size);
 
   // Already verified by `kMinSize_PNG` check - so it must be true.
   BL_ASSERT(chunk_reader.has_chunk());
-- 
2.43.0


From a5e87dd2229f85436260d5785b9de12a0e1affb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:01 +0000
Subject: [PATCH 076/132] fix: PNG decoder must refuse indexed colors without a
 palette

---
 blend2d/codec/pngcodec.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/blend2d/codec/pngcodec.cpp b/blend2d/codec/pngcodec.cpp
index d5d0849..749ffad 100644
--- a/blend2d/codec/pngcodec.cpp
+++ b/blend2d/codec/pngcodec.cpp
@@ -1245,6 +1245,11 @@ static BLResult decoder_read_important_chunks(BLPngDecoderImpl* decoder_impl, co
     png_fmt.palette = decoder_impl->palette_data;
   }
   else if (decoder_impl->color_type == kColorType3_PAL) {
+    // PLTE chunk is mandatory when using indexed colors.
+    if (!decoder_impl->has_flag(DecoderStatusFlags::kRead_PLTE)) {
+      return bl_make_error(BL_ERROR_PNG_INVALID_PLTE);
+    }
+
     png_fmt.add_flags(BLFormatFlags(BL_FORMAT_FLAG_RGBA | BL_FORMAT_FLAG_INDEXED));
     png_fmt.palette = decoder_impl->palette_data;
   }
-- 
2.43.0


From 39928d332dd2e29060516b36178d4b758bf7bfe7 Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Thu, 19 Nov 2026 23:38:12 +0000
Subject: [PATCH 077/132] fix: FontFeatureSettings must refuse invalid values
 of on/off features in dynamic mode too

---
 blend2d/core/fontfeaturesettings.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/blend2d/core/fontfeaturesettings.cpp b/blend2d/core/fontfeaturesettings.cpp
index b89c946..7244bfe 100644
--- a/blend2d/core/fontfeaturesettings.cpp
+++ b/blend2d/core/fontfeaturesettings.cpp
@@ -503,6 +503,10 @@ BL_API_IMPL BLResult bl_font_feature_settings_set_value(BLFontFeatureSettingsCor
   uint32_t feature_id = bl::FontTagData::feature_tag_to_id(feature_tag);
   bool can_modify = true;
 
+  // Features that only allow 0 and 1 values must refuse other values regardless of the storage used.
+  if (feature_id != bl::FontTagData::kInvalidId && bl::FontTagData::feature_info_table[feature_id].has_bit_id() && value > 1u)
+    return bl_make_error(BL_ERROR_INVALID_VALUE);
+
   // SSO Mode
   // --------
 
@@ -512,9 +516,6 @@ BL_API_IMPL BLResult bl_font_feature_settings_set_value(BLFontFeatureSettingsCor
     if (feature_id != bl::FontTagData::kInvalidId) {
       FeatureInfo feature_info = bl::FontTagData::feature_info_table[feature_id];
       if (feature_info.has_bit_id()) {
-        if (value > 1u)
-          return bl_make_error(BL_ERROR_INVALID_VALUE);
-
         uint32_t feature_bit_id = feature_info.bit_id;
         if (has_sso_bit_tag(self, feature_bit_id)) {
           update_sso_bit_value(self, feature_bit_id, value);
-- 
2.43.0


From da2c54ae775fa9815a3eb578a41a5b4e55a540d1 Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Thu, 19 Nov 2026 23:38:12 +0000
Subject: [PATCH 078/132] fix: BitArray must not read past the end of words to
 be combined nor lose bits of the last word

---
 blend2d/core/bitarray.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blend2d/core/bitarray.cpp b/blend2d/core/bitarray.cpp
index ce5a687..52030e6 100644
--- a/blend2d/core/bitarray.cpp
+++ b/blend2d/core/bitarray.cpp
@@ -237,7 +237,7 @@ static BL_INLINE BLResult combine_word_data(BitData d, size_t bit_index, const u
     return BL_SUCCESS;
 
   uint32_t last_word_bits = BitArrayOps::shift_to_start(w, bit_shift_inv);
-  if (bit_shift_inv < bit_count)
+  if (bit_shift < bit_count)
     last_word_bits |= BitArrayOps::shift_to_end(word_data[i], bit_shift);
 
   dst[i] = BitOp::op_masked(dst[i], last_word_bits, BitArrayOps::non_zero_start_mask(bit_count));
-- 
2.43.0


From 6281994740b8384aa4966a4a7e422d63482b5e33 Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Thu, 19 Nov 2026 23:38:12 +0000
Subject: [PATCH 079/132] fix: path closest vertex must only use bounding box
 when path info is available

---
 blend2d/core/path.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blend2d/core/path.cpp b/blend2d/core/path.cpp
index c932e57..9d634fb 100644
--- a/blend2d/core/path.cpp
+++ b/blend2d/core/path.cpp
@@ -2436,7 +2436,7 @@ BL_API_IMPL BLResult bl_path_get_closest_vertex(const BLPathCore* self, const BL
     // This code-path can be used to skip the whole path if the given point is
     // too far. We need 'max_distance' to be specified and also bounding-box to
     // be available.
-    if (ensure_info(self_impl) != BL_SUCCESS) {
+    if (ensure_info(self_impl) == BL_SUCCESS) {
       // If the given point is outside of the path bounding-box extended by
       // `max_distance` then there is no matching vertex to possibly return.
       BLBox b_box = fetch_info_box(self_impl->control_box);
-- 
2.43.0


From eaf4df0196cc360cca446678957a523d046e0e53 Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Thu, 19 Nov 2026 23:38:12 +0000
Subject: [PATCH 080/132] fix: gradient equality must consider values and
 ignore the storage

---
 blend2d/core/gradient.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/blend2d/core/gradient.cpp b/blend2d/core/gradient.cpp
index 75b8373..4aacdf9 100644
--- a/blend2d/core/gradient.cpp
+++ b/blend2d/core/gradient.cpp
@@ -1009,7 +1009,8 @@ BL_API_IMPL bool bl_gradient_equals(const BLGradientCore* a, const BLGradientCor
   const BLGradientPrivateImpl* a_impl = get_impl(a);
   const BLGradientPrivateImpl* b_impl = get_impl(b);
 
-  if (a->_d.info != b->_d.info)
+  // Don't compare the whole object info as it also describes the storage and caches transform type.
+  if (get_gradient_type(a) != get_gradient_type(b) || get_extend_mode(a) != get_extend_mode(b))
     return false;
 
   if (a_impl == b_impl)
@@ -1017,6 +1018,10 @@ BL_API_IMPL bool bl_gradient_equals(const BLGradientCore* a, const BLGradientCor
 
   size_t size = a_impl->size;
   unsigned eq = unsigned(a_impl->transform == b_impl->transform) & unsigned(size == b_impl->size);
+
+  for (size_t i = 0; i <= BL_GRADIENT_VALUE_MAX_VALUE; i++)
+    eq &= unsigned(bl_equals(a_impl->values[i], b_impl->values[i]));
+
   return eq && memcmp(a_impl->stops, b_impl->stops, size * sizeof(BLGradientStop)) == 0;
 }
 
-- 
2.43.0


From f99be153d4f1d4d1e8df49ab982a117341ac0f35 Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Thu, 19 Nov 2026 23:38:13 +0000
Subject: [PATCH 081/132] fix: BitArray has_bits_in_range must handle ranges
 ending at a word boundary

---
 blend2d/core/bitarray.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/blend2d/core/bitarray.cpp b/blend2d/core/bitarray.cpp
index 52030e6..68a3ce8 100644
--- a/blend2d/core/bitarray.cpp
+++ b/blend2d/core/bitarray.cpp
@@ -466,11 +466,11 @@ BL_API_IMPL bool bl_bit_array_has_bits_in_range(const BLBitArrayCore* self, uint
     return false;
 
   size_t start_word = word_index_of(start);
-  size_t end_word = word_index_of(end);
+  size_t last_word = word_index_of(end - 1u);
 
-  if (start_word == end_word) {
+  if (start_word == last_word) {
     // Special case - the range is within a single BitWord.
-    uint32_t mask = bl::BitArrayOps::non_zero_start_mask(end - start, start);
+    uint32_t mask = bl::BitArrayOps::non_zero_start_mask(end - start, start & bl::BitArrayOps::kBitMask);
     return (d.data[start_word] & mask) != 0u;
   }
 
@@ -478,12 +478,12 @@ BL_API_IMPL bool bl_bit_array_has_bits_in_range(const BLBitArrayCore* self, uint
   if (d.data[start_word] & start_mask)
     return true;
 
-  for (size_t i = start_word + 1; i < end_word; i++)
+  for (size_t i = start_word + 1; i < last_word; i++)
     if (d.data[i])
       return true;
 
-  uint32_t end_mask = bl::BitArrayOps::non_zero_start_mask(end & bl::BitArrayOps::kBitMask);
-  return (d.data[end_word] & end_mask) != 0u;
+  uint32_t end_mask = bl::BitArrayOps::non_zero_start_mask((uint32_t(end - 1u) & bl::BitArrayOps::kBitMask) + 1u);
+  return (d.data[last_word] & end_mask) != 0u;
 }
 
 // bl::BitArray - API - Testing
-- 
2.43.0


From 9fab0587f66a4a203d4ce9c9058b8830d046e6aa Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Thu, 19 Nov 2026 23:38:13 +0000
Subject: [PATCH 082/132] fix: BLBitArray::reserve() must reserve and not
 resize

---
 blend2d/core/bitarray.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blend2d/core/bitarray.h b/blend2d/core/bitarray.h
index 5fa6406..e705716 100644
--- a/blend2d/core/bitarray.h
+++ b/blend2d/core/bitarray.h
@@ -265,7 +265,7 @@ public:
   BL_INLINE_NODEBUG BLResult resize(uint32_t n_bits) noexcept { return bl_bit_array_resize(this, n_bits); }
 
   //! Reserves `n_bits` in the BitArray (capacity would match `n_bits`) without changing its size.
-  BL_INLINE_NODEBUG BLResult reserve(uint32_t n_bits) noexcept { return bl_bit_array_resize(this, n_bits); }
+  BL_INLINE_NODEBUG BLResult reserve(uint32_t n_bits) noexcept { return bl_bit_array_reserve(this, n_bits); }
 
   //! Shrinks the capacity of the BitArray to match the actual content with the intention to save memory.
   BL_INLINE_NODEBUG BLResult shrink() noexcept { return bl_bit_array_shrink(this); }
-- 
2.43.0


From 2fb21fe6e51b28dc0b5573a0f27056ec0d52dd8d Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Thu, 19 Nov 2026 23:38:13 +0000
Subject: [PATCH 083/132] fix: gradient must not drop the last stop of unsorted
 stops

---
 blend2d/core/gradient.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blend2d/core/gradient.cpp b/blend2d/core/gradient.cpp
index 4aacdf9..f0a3ec1 100644
--- a/blend2d/core/gradient.cpp
+++ b/blend2d/core/gradient.cpp
@@ -156,7 +156,7 @@ static BL_NOINLINE size_t copy_unsafe_stops(BLGradientStop* dst, const BLGradien
   double prev1 = -1.0; // Dummy, cannot be within [0..1] range.
   double prev2 = -1.0;
 
-  for (size_t i = 0; i < n - 1u; i++) {
+  for (size_t i = 0; i < n; i++) {
     double offset = stops[i].offset;
     BLRgba64 rgba = src[size_t(stops[i].index)].rgba;
 
-- 
2.43.0


From d8da7ec272eb46c704cdc19898eddfbf077bfd3a Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Thu, 19 Nov 2026 23:38:13 +0000
Subject: [PATCH 084/132] fix: replacing a gradient stop must validate the
 offset before removing the stop

---
 blend2d/core/gradient.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/blend2d/core/gradient.cpp b/blend2d/core/gradient.cpp
index f0a3ec1..3863366 100644
--- a/blend2d/core/gradient.cpp
+++ b/blend2d/core/gradient.cpp
@@ -924,6 +924,9 @@ BL_API_IMPL BLResult bl_gradient_replace_stop_rgba64(BLGradientCore* self, size_
   if (BL_UNLIKELY(index >= get_size(self)))
     return bl_make_error(BL_ERROR_INVALID_VALUE);
 
+  if (BL_UNLIKELY(!(offset >= 0.0 && offset <= 1.0)))
+    return bl_make_error(BL_ERROR_INVALID_VALUE);
+
   BL_PROPAGATE(make_mutable(self, false));
 
   BLGradientPrivateImpl* self_impl = get_impl(self);
-- 
2.43.0


From 30a29237dddcd0b8c8026e816aabfff083ee653a Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Thu, 19 Nov 2026 23:40:17 +0000
Subject: [PATCH 085/132] fix: shrinking a path must not fail because of its
 geometry

---
 blend2d/core/path.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/blend2d/core/path.cpp b/blend2d/core/path.cpp
index 9d634fb..006a528 100644
--- a/blend2d/core/path.cpp
+++ b/blend2d/core/path.cpp
@@ -374,9 +374,12 @@ BL_API_IMPL BLResult bl_path_shrink(BLPathCore* self) noexcept {
   if (current_impl_size - fitting_impl_size >= BL_OBJECT_IMPL_ALIGNMENT)
     BL_PROPAGATE(realloc_path(self, fitting_impl_size));
 
-  // Update path info as this this path may be kept alive for some time.
+  // Update path info as this this path may be kept alive for some time. Shrinking doesn't fail when there is no info
+  // to update, which is the case when the geometry is invalid.
   uint32_t dummy_flags;
-  return bl_path_get_info_flags(self, &dummy_flags);
+  (void)bl_path_get_info_flags(self, &dummy_flags);
+
+  return BL_SUCCESS;
 }
 
 BL_API_IMPL BLResult bl_path_reserve(BLPathCore* self, size_t n) noexcept {
-- 
2.43.0


From c3e587fd11a88d03c3b06ad7fe78329fc87178a2 Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Thu, 19 Nov 2026 23:54:42 +0000
Subject: [PATCH 086/132] fix: adding arrays of boxes in CCW direction must not
 read past the end of the array

---
 blend2d/core/path.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/blend2d/core/path.cpp b/blend2d/core/path.cpp
index 006a528..38185bc 100644
--- a/blend2d/core/path.cpp
+++ b/blend2d/core/path.cpp
@@ -1666,7 +1666,7 @@ AddBoxD:
         }
       }
       else {
-        src += n - 1;
+        src += n / 5u - 1u;
         for (size_t i = n; i != 0; i -= 5, src--) {
           if (!bl::Geometry::is_valid(*src))
             continue;
@@ -1688,7 +1688,7 @@ AddBoxD:
         }
       }
       else {
-        src += n - 1;
+        src += n / 5u - 1u;
         for (size_t i = n; i != 0; i -= 5, src--) {
           if (!bl::Geometry::is_valid(*src))
             continue;
@@ -1715,7 +1715,7 @@ AddBoxD:
         }
       }
       else {
-        src += n - 1;
+        src += n / 5u - 1u;
         for (size_t i = n; i != 0; i -= 5, src--) {
           if (!bl::Geometry::is_valid(*src))
             continue;
@@ -1747,7 +1747,7 @@ AddBoxD:
         }
       }
       else {
-        src += n - 1;
+        src += n / 5u - 1u;
         for (size_t i = n; i != 0; i -= 5, src--) {
           if (!bl::Geometry::is_valid(*src))
             continue;
-- 
2.43.0


From 8ba7044a30c4bf3367cef7ebcffe37b6d883b009 Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Thu, 19 Nov 2026 23:54:42 +0000
Subject: [PATCH 087/132] fix: path hit test must use the closest end point of
 a monotonic curve that has no root in range

---
 blend2d/core/path.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/blend2d/core/path.cpp b/blend2d/core/path.cpp
index 38185bc..6538fd7 100644
--- a/blend2d/core/path.cpp
+++ b/blend2d/core/path.cpp
@@ -2610,11 +2610,11 @@ OnLine:
               if (bl::Math::quad_roots(ti, qc.a.y, qc.b.y, qc.c.y - pt.y, bl::Math::kAfter0, bl::Math::kBefore1) >= 1) {
                 ix = (qc.a.x * ti[0] + qc.b.x) * ti[0] + qc.c.x;
               }
-              else if (pt.y - min_y < max_y - pt.y) {
-                ix = p[0].x;
+              else if (bl_abs(pt.y - spline_ptr[0].y) < bl_abs(pt.y - spline_ptr[2].y)) {
+                ix = spline_ptr[0].x;
               }
               else {
-                ix = p[2].x;
+                ix = spline_ptr[2].x;
               }
 
               if (pt.x >= ix)
@@ -2679,7 +2679,7 @@ OnLine:
               if (bl::Math::cubic_roots(ti, cc.a.y, cc.b.y, cc.c.y, cc.d.y - pt.y, bl::Math::kAfter0, bl::Math::kBefore1) >= 1) {
                 ix = ((cc.a.x * ti[0] + cc.b.x) * ti[0] + cc.c.x) * ti[0] + cc.d.x;
               }
-              else if (pt.y - min_y < max_y - pt.y) {
+              else if (bl_abs(pt.y - spline_ptr[0].y) < bl_abs(pt.y - spline_ptr[3].y)) {
                 ix = spline_ptr[0].x;
               }
               else {
-- 
2.43.0


From 5f141f07bf21c73a33240780a8a49be9706eb71d Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Thu, 19 Nov 2026 23:54:42 +0000
Subject: [PATCH 088/132] fix: fitting a path must not use a vertex before the
 first one

---
 blend2d/core/path.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blend2d/core/path.cpp b/blend2d/core/path.cpp
index 6538fd7..6983431 100644
--- a/blend2d/core/path.cpp
+++ b/blend2d/core/path.cpp
@@ -2169,7 +2169,7 @@ BL_API_IMPL BLResult bl_path_fit_to(BLPathCore* self, const BLRange* range, cons
     return bl_make_error(BL_ERROR_INVALID_VALUE);
 
   PathInfoUpdater updater;
-  BL_PROPAGATE(updater.update(BLPathView { self_impl->command_data + start, self_impl->vertex_data + start, n }, true));
+  BL_PROPAGATE(updater.update(BLPathView { self_impl->command_data + start, self_impl->vertex_data + start, n }, start != 0));
 
   // TODO: Honor `fit_flags`.
   bl_unused(fit_flags);
-- 
2.43.0


From 885dc9a8583ed7cc7a6d20e9bda195ab0225575d Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Thu, 19 Nov 2026 23:56:32 +0000
Subject: [PATCH 089/132] fix: adding a path to itself in CCW direction must
 only use vertices it had before

---
 blend2d/core/path.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blend2d/core/path.cpp b/blend2d/core/path.cpp
index 6983431..1bf26db 100644
--- a/blend2d/core/path.cpp
+++ b/blend2d/core/path.cpp
@@ -1767,7 +1767,7 @@ AddBoxD:
       BL_ASSERT(dir != BL_GEOMETRY_DIRECTION_CW);
 
       const BLPathPrivateImpl* other_impl = get_impl(static_cast<const BLPath*>(geometry_data));
-      BLResult result = copy_content_reversed(appender, bl::PathIterator(other_impl->view), BL_PATH_REVERSE_MODE_COMPLETE);
+      BLResult result = copy_content_reversed(appender, bl::PathIterator(other_impl->command_data, other_impl->vertex_data, n), BL_PATH_REVERSE_MODE_COMPLETE);
 
       if (result != BL_SUCCESS) {
         set_size(self, initial_size);
-- 
2.43.0


From 5c1e2d96879b8c0386ba3af5a38d9ac92f85a14b Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Fri, 20 Nov 2026 01:03:55 +0000
Subject: [PATCH 090/132] fix: glyf contour that has no on-curve point at its
 start and end must end where it starts

---
 blend2d/opentype/otglyf.cpp         | 1 -
 blend2d/opentype/otglyfsimdimpl_p.h | 1 -
 2 files changed, 2 deletions(-)

diff --git a/blend2d/opentype/otglyf.cpp b/blend2d/opentype/otglyf.cpp
index 7a29096..1fe0b74 100644
--- a/blend2d/opentype/otglyf.cpp
+++ b/blend2d/opentype/otglyf.cpp
@@ -437,7 +437,6 @@ static BLResult BL_CDECL get_glyph_outlines(
               if (!(f & Simple::kOnCurvePoint)) {
                 BLPoint on_pt = (current_pt + initial_pt) * 0.5;
                 appender.add_vertex(BL_PATH_CMD_ON, on_pt);
-                final_pt = (initial_pt + final_pt) * 0.5;
               }
 
               appender.add_vertex(BL_PATH_CMD_QUAD, initial_pt);
diff --git a/blend2d/opentype/otglyfsimdimpl_p.h b/blend2d/opentype/otglyfsimdimpl_p.h
index ac77c05..d6b1f64 100644
--- a/blend2d/opentype/otglyfsimdimpl_p.h
+++ b/blend2d/opentype/otglyfsimdimpl_p.h
@@ -941,7 +941,6 @@ EmitSpline3Continue:
               if (f & kVecFlagOffCurve) {
                 Vec2xF64 on_pt = (current_pt + initial_pt) * half;
                 append_vertex(appender, BL_PATH_CMD_ON, on_pt);
-                final_pt = (initial_pt + final_pt) * half;
               }
 
               appendVertex2x(appender, BL_PATH_CMD_QUAD, initial_pt, BL_PATH_CMD_ON, final_pt);
-- 
2.43.0


From 204cb1e7e74abc3d6dbda84e60e06973eb6c27db Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Fri, 20 Nov 2026 01:03:55 +0000
Subject: [PATCH 091/132] fix: kern groups of format 2 and 3 must not be stored
 as kern groups of format 0

---
 blend2d/opentype/otkern_p.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/blend2d/opentype/otkern_p.h b/blend2d/opentype/otkern_p.h
index caf73c8..16fbc01 100644
--- a/blend2d/opentype/otkern_p.h
+++ b/blend2d/opentype/otkern_p.h
@@ -173,11 +173,11 @@ struct KernGroup {
   }
 
   static BL_INLINE KernGroup make_referenced(uint32_t format, uint32_t flags, uintptr_t data_offset, uint32_t data_size) noexcept {
-    return KernGroup { flags | (format << 2) | (data_size << 6), { data_offset } };
+    return KernGroup { flags | (format << 4) | (data_size << 6), { data_offset } };
   }
 
   static BL_INLINE KernGroup make_synthesized(uint32_t format, uint32_t flags, void* data_ptr, uint32_t data_size) noexcept {
-    return KernGroup { flags | (format << 2) | (data_size << 6) | kFlagSynthesized, { (uintptr_t)data_ptr } };
+    return KernGroup { flags | (format << 4) | (data_size << 6) | kFlagSynthesized, { (uintptr_t)data_ptr } };
   }
 };
 
-- 
2.43.0


From 48e87495d9b5e6b6ffd5271ec9ca790cf4e4ddbf Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Fri, 20 Nov 2026 01:03:55 +0000
Subject: [PATCH 092/132] fix: kern groups of format 3 must not be ignored when
 they fit their table

---
 blend2d/opentype/otkern.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blend2d/opentype/otkern.cpp b/blend2d/opentype/otkern.cpp
index fa1a0b7..dad4e07 100644
--- a/blend2d/opentype/otkern.cpp
+++ b/blend2d/opentype/otkern.cpp
@@ -295,7 +295,7 @@ static BL_INLINE int32_t apply_kern_format3(const OTFaceImpl* ot_face_impl, cons
   uint32_t right_class_count = sub_table->right_class_count();
 
   uint32_t required_size = ot_face_impl->kern.header_size + uint32_t(sizeof(Format3)) + kern_value_count * 2u + glyph_count * 2u + left_class_count * right_class_count;
-  if (BL_UNLIKELY(required_size < data_size))
+  if (BL_UNLIKELY(required_size > data_size))
     return 0;
 
   const FWord* value_table = PtrOps::offset<const FWord>(sub_table, sizeof(Format3));
-- 
2.43.0


From 25bcebaf668005301abc49eacf50f765fe463908 Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Fri, 20 Nov 2026 01:05:26 +0000
Subject: [PATCH 093/132] fix: contextual lookups must skip rule sets that a
 font leaves out

---
 blend2d/opentype/otlayout.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/blend2d/opentype/otlayout.cpp b/blend2d/opentype/otlayout.cpp
index b476c5a..9a43a49 100644
--- a/blend2d/opentype/otlayout.cpp
+++ b/blend2d/opentype/otlayout.cpp
@@ -873,6 +873,8 @@ static BL_INLINE bool match_sequence_format1(Table<GSubGPosTable::SequenceContex
     return false;
 
   uint32_t rule_set_offset = table->rule_set_offsets.array()[coverage_index].value();
+  if (!rule_set_offset)
+    return false;
   BL_ASSERT_VALIDATED(rule_set_offset <= table.size - 2u);
 
   Table<Array16<Offset16>> rule_offsets(table.sub_table_unchecked(rule_set_offset));
@@ -906,6 +908,8 @@ static BL_INLINE bool match_sequence_format2(
     return false;
 
   uint32_t rule_set_offset = table->rule_set_offsets.array()[class_index].value();
+  if (!rule_set_offset)
+    return false;
   BL_ASSERT_VALIDATED(rule_set_offset <= table.size - 2u);
 
   Table<Array16<Offset16>> rule_offsets(table.sub_table_unchecked(rule_set_offset));
@@ -1346,6 +1350,8 @@ static BL_INLINE bool match_chained_sequence_format1(
     return false;
 
   uint32_t rule_set_offset = rule_set_offsets[coverage_index].value();
+  if (!rule_set_offset)
+    return false;
   BL_ASSERT_VALIDATED(rule_set_offset <= mCtx.table.size - 2u);
 
   Table<Array16<Offset16>> rule_offsets(mCtx.table.sub_table_unchecked(rule_set_offset));
@@ -1371,6 +1377,8 @@ static BL_INLINE bool match_chained_sequence_format2(
     return false;
 
   uint32_t rule_set_offset = rule_set_offsets[coverage_index].value();
+  if (!rule_set_offset)
+    return false;
   BL_ASSERT_VALIDATED(rule_set_offset <= mCtx.table.size - 2u);
 
   Table<Array16<Offset16>> rule_offsets(mCtx.table.sub_table_unchecked(rule_set_offset));
-- 
2.43.0


From 6e948a797b7dbcad7cf016b5082c97dc313b1b00 Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Fri, 20 Nov 2026 01:05:26 +0000
Subject: [PATCH 094/132] fix: contextual GSUB lookups must stay within the
 glyphs they are applied to

---
 blend2d/opentype/otlayout.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/blend2d/opentype/otlayout.cpp b/blend2d/opentype/otlayout.cpp
index 9a43a49..fb5991e 100644
--- a/blend2d/opentype/otlayout.cpp
+++ b/blend2d/opentype/otlayout.cpp
@@ -1993,7 +1993,7 @@ static BL_INLINE_IF_NOT_DEBUG BLResult apply_gsub_lookup_type5_format2(GSubConte
       // TODO: [OpenType] Context MATCH
     }
 
-    glyph_in_end++;
+    glyph_in_ptr++;
   }
 
   return BL_SUCCESS;
@@ -2004,7 +2004,7 @@ static BL_INLINE_IF_NOT_DEBUG BLResult apply_gsub_lookup_type5_format3(GSubConte
   BL_ASSERT_VALIDATED(table.fits());
 
   uint32_t glyph_count = table->glyph_count();
-  if (glyph_count < scope.size())
+  if (scope.size() < glyph_count)
     return BL_SUCCESS;
 
   uint32_t lookup_record_count = table->lookup_record_count();
@@ -2021,7 +2021,7 @@ static BL_INLINE_IF_NOT_DEBUG BLResult apply_gsub_lookup_type5_format3(GSubConte
 
   BLGlyphId* glyph_in_ptr = ctx.glyph_data() + scope.index();
   BLGlyphId* glyph_in_end = ctx.glyph_data() + scope.end();
-  BLGlyphId* glyphInEndMinusN = glyph_in_end - glyph_count;
+  BLGlyphId* glyphInEndMinusN = glyph_in_end - glyph_count + 1;
 
   do {
     if (match_sequence_format3(table, coverage_offset_array, glyph_range, cov0_it, cov0_fmt, glyph_in_ptr, glyph_count)) {
-- 
2.43.0


From a6df21084b86115c217fb6ab8e13b831b7bedd0a Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Fri, 20 Nov 2026 01:05:26 +0000
Subject: [PATCH 095/132] fix: contextual GPOS lookups must match the glyphs at
 the index they process and stop at the last one

---
 blend2d/opentype/otlayout.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/blend2d/opentype/otlayout.cpp b/blend2d/opentype/otlayout.cpp
index fb5991e..5b00d7c 100644
--- a/blend2d/opentype/otlayout.cpp
+++ b/blend2d/opentype/otlayout.cpp
@@ -2858,7 +2858,7 @@ static BL_INLINE_IF_NOT_DEBUG BLResult apply_gpos_lookup_type7_format1(GPosConte
 
   do {
     SequenceMatch match;
-    if (match_sequence_format1<kCovFmt>(table, rule_set_count, glyph_range, cov_it, glyph_ptr, end - index, &match)) {
+    if (match_sequence_format1<kCovFmt>(table, rule_set_count, glyph_range, cov_it, glyph_ptr + index, end - index, &match)) {
       BL_PROPAGATE(apply_gpos_nested_lookups(ctx, index, match));
     }
   } while (++index != end);
@@ -2878,12 +2878,12 @@ static BL_INLINE_IF_NOT_DEBUG BLResult apply_gpos_lookup_type7_format2(GPosConte
   size_t end = scope.end();
   BL_ASSERT(index < end);
 
-  const BLGlyphId* glyph_ptr = ctx.glyph_data() + scope.index();
+  const BLGlyphId* glyph_ptr = ctx.glyph_data();
   GlyphRange glyph_range = cov_it.glyph_range<kCovFmt>();
 
   do {
     SequenceMatch match;
-    if (match_sequence_format2<kCovFmt, kCDFmt>(table, rule_set_count, glyph_range, cov_it, cd_it, glyph_ptr, end - index, &match)) {
+    if (match_sequence_format2<kCovFmt, kCDFmt>(table, rule_set_count, glyph_range, cov_it, cd_it, glyph_ptr + index, end - index, &match)) {
       BL_PROPAGATE(apply_gpos_nested_lookups(ctx, index, match));
     }
   } while (++index != end);
@@ -2915,13 +2915,13 @@ static BL_INLINE_IF_NOT_DEBUG BLResult apply_gpos_lookup_type7_format3(GPosConte
   size_t end = scope.end();
   BL_ASSERT(index < end);
 
-  const BLGlyphId* glyph_ptr = ctx.glyph_data() + scope.index();
+  const BLGlyphId* glyph_ptr = ctx.glyph_data();
   GlyphRange glyph_range = cov0_it.glyph_range_with_format(cov0_fmt);
   SequenceMatch match{glyph_count, lookup_record_count, lookup_record_array};
 
-  size_t end_minus_glyph_count = end - glyph_count;
+  size_t end_minus_glyph_count = end - glyph_count + 1u;
   do {
-    if (match_sequence_format3(table, coverage_offset_array, glyph_range, cov0_it, cov0_fmt, glyph_ptr, glyph_count)) {
+    if (match_sequence_format3(table, coverage_offset_array, glyph_range, cov0_it, cov0_fmt, glyph_ptr + index, glyph_count)) {
       BL_PROPAGATE(apply_gpos_nested_lookups(ctx, index, match));
     }
   } while (++index != end_minus_glyph_count);
-- 
2.43.0


From e2c9cc02f3370f2484e6e057b5578dfaed5b9f46 Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Fri, 20 Nov 2026 01:05:26 +0000
Subject: [PATCH 096/132] fix: chained context rules must be read and matched
 with the lookahead count in front of the lookahead glyphs

---
 blend2d/opentype/otlayout.cpp | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/blend2d/opentype/otlayout.cpp b/blend2d/opentype/otlayout.cpp
index 5b00d7c..b64feaa 100644
--- a/blend2d/opentype/otlayout.cpp
+++ b/blend2d/opentype/otlayout.cpp
@@ -1019,7 +1019,7 @@ static BL_NOINLINE bool validate_chained_context_format1_2(ValidationContext& va
 
       // Verify there is a room for `lookahead_sequence + lookup_record_count`.
       uint32_t lookahead_glyph_count = rule.readU16(lookahead_offset);
-      uint32_t lookup_record_offset = lookahead_offset + lookahead_glyph_count * 2u;
+      uint32_t lookup_record_offset = lookahead_offset + 2u + lookahead_glyph_count * 2u;
       if (!rule.fits(lookup_record_offset + 2u))
         return validator.fail("%s.rule_set[%u].rule[%u] is truncated (size=%u, required=%u)", table_name, i, rule_index, rule.size, lookup_record_offset + 2u);
 
@@ -1027,6 +1027,10 @@ static BL_NOINLINE bool validate_chained_context_format1_2(ValidationContext& va
       if (!lookup_record_count)
         return validator.fail("%s.rule_set[%u].rule[%u] has invalid lookup_record_count (%u)", table_name, i, rule_index, lookup_record_count);
 
+      uint32_t rule_table_size = lookup_record_offset + 2u + lookup_record_count * GSubGPosTable::SequenceLookupRecord::kBaseSize;
+      if (!rule.fits(rule_table_size))
+        return validator.fail("%s.rule_set[%u].rule[%u] is truncated (size=%u, required=%u)", table_name, i, rule_index, rule.size, rule_table_size);
+
       const GSubGPosTable::SequenceLookupRecord* lookup_record_array = PtrOps::offset<const GSubGPosTable::SequenceLookupRecord>(rule.data, lookup_record_offset + 2u);
       if (!validate_sequence_lookup_record_array(validator, lookup_record_array, lookup_record_count))
         return false;
@@ -1263,13 +1267,13 @@ static BL_INLINE bool match_chained_sequence_rule_format1(
       continue;
 
     // Match input and lookahead glyphs.
-    if (!match_ahead_glyphs_format1(mCtx.ahead_glyph_ptr, rule.data_as<UInt16>(input_glyph_offset + 2u), input_glyph_count - 1u))
+    if (!match_ahead_glyphs_format1(mCtx.ahead_glyph_ptr + 1u, rule.data_as<UInt16>(input_glyph_offset + 2u), input_glyph_count - 1u))
       continue;
 
-    if (!match_ahead_glyphs_format1(mCtx.ahead_glyph_ptr + input_glyph_count - 1u, rule.data_as<UInt16>(lookahead_offset + 2u), lookahead_glyph_count))
+    if (!match_ahead_glyphs_format1(mCtx.ahead_glyph_ptr + input_glyph_count, rule.data_as<UInt16>(lookahead_offset + 2u), lookahead_glyph_count))
       continue;
 
-    uint32_t lookup_record_offset = lookahead_offset + lookahead_glyph_count * 2u;
+    uint32_t lookup_record_offset = lookahead_offset + 2u + lookahead_glyph_count * 2u;
     BL_ASSERT_VALIDATED(rule.fits(lookup_record_offset + 2u));
 
     uint32_t lookup_record_count = rule.readU16(lookup_record_offset);
@@ -1315,13 +1319,13 @@ static BL_INLINE bool match_chained_sequence_rule_format2(
       continue;
 
     // Match input and lookahead glyphs.
-    if (!match_ahead_glyphs_format2<kCD2Fmt>(mCtx.ahead_glyph_ptr, rule.data_as<UInt16>(input_glyph_offset + 2u), input_glyph_count - 1u, cd2_it))
+    if (!match_ahead_glyphs_format2<kCD2Fmt>(mCtx.ahead_glyph_ptr + 1u, rule.data_as<UInt16>(input_glyph_offset + 2u), input_glyph_count - 1u, cd2_it))
       continue;
 
-    if (!match_ahead_glyphs_format2<kCD3Fmt>(mCtx.ahead_glyph_ptr + input_glyph_count - 1u, rule.data_as<UInt16>(lookahead_offset + 2u), lookahead_glyph_count, cd3_it))
+    if (!match_ahead_glyphs_format2<kCD3Fmt>(mCtx.ahead_glyph_ptr + input_glyph_count, rule.data_as<UInt16>(lookahead_offset + 2u), lookahead_glyph_count, cd3_it))
       continue;
 
-    uint32_t lookup_record_offset = lookahead_offset + lookahead_glyph_count * 2u;
+    uint32_t lookup_record_offset = lookahead_offset + 2u + lookahead_glyph_count * 2u;
     BL_ASSERT_VALIDATED(rule.fits(lookup_record_offset + 2u));
 
     uint32_t lookup_record_count = rule.readU16(lookup_record_offset);
-- 
2.43.0


From 4eef2d63a49e0e0f6abafe20f3e244d2dbc5fa9e Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Fri, 20 Nov 2026 01:05:26 +0000
Subject: [PATCH 097/132] fix: validation of context rules must count 4 bytes
 for every lookup record

---
 blend2d/opentype/otlayout.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blend2d/opentype/otlayout.cpp b/blend2d/opentype/otlayout.cpp
index b64feaa..38b74d2 100644
--- a/blend2d/opentype/otlayout.cpp
+++ b/blend2d/opentype/otlayout.cpp
@@ -694,7 +694,7 @@ static BL_NOINLINE bool validate_context_format1_2(ValidationContext& validator,
       Table<SequenceRule> rule = rule_set.sub_table(rule_offset);
       uint32_t glyph_count = rule->glyph_count();
       uint32_t lookup_record_count = rule->lookup_record_count();
-      uint32_t rule_table_size = 4u + (lookup_record_count + glyph_count - 1) * 2u;
+      uint32_t rule_table_size = 4u + (glyph_count - 1) * 2u + lookup_record_count * GSubGPosTable::SequenceLookupRecord::kBaseSize;
 
       if (!rule.fits(rule_table_size))
         return validator.fail("%s.rule_set[%u].rule[%u] is truncated (size=%u, required=%u)", table_name, i, rule_index, rule.size, rule_table_size);
-- 
2.43.0


From 04e79fcbd622d824487fe5bcfc5dc6eeccf942a5 Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Fri, 20 Nov 2026 01:05:26 +0000
Subject: [PATCH 098/132] fix: validation of chained context lookups must
 refuse absent coverage tables

---
 blend2d/opentype/otlayout.cpp | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/blend2d/opentype/otlayout.cpp b/blend2d/opentype/otlayout.cpp
index 38b74d2..839bc95 100644
--- a/blend2d/opentype/otlayout.cpp
+++ b/blend2d/opentype/otlayout.cpp
@@ -599,9 +599,6 @@ static BL_NOINLINE bool validate_coverage_tables(
 
   for (uint32_t i = 0; i < count; i++) {
     uint32_t offset = offsets[i].value();
-    if (!offset)
-      continue;
-
     if (!offset_range.contains(offset))
       return validator.fail("%s.%s[%u] offset (%u) is out of range [%u:%u]", table_name, coverage_name, i, offset, offset_range.start, offset_range.end);
 
-- 
2.43.0


From 98000c91f57f1fb2e771d0ac66d60775aad835b3 Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Fri, 20 Nov 2026 01:05:26 +0000
Subject: [PATCH 099/132] fix: validation of layout lookups must refuse the
 type after the last one

---
 blend2d/opentype/otlayout.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blend2d/opentype/otlayout.cpp b/blend2d/opentype/otlayout.cpp
index 839bc95..ce705bb 100644
--- a/blend2d/opentype/otlayout.cpp
+++ b/blend2d/opentype/otlayout.cpp
@@ -3280,7 +3280,7 @@ static bool validate_lookup(ValidationContext& validator, Table<GSubGPosTable> t
   uint32_t lookup_type = lookup_table->lookup_type();
 
   // Reject unknown lookup Type+Format combinations (lookup_type 0 and values above lookup_max_value are invalid).
-  if (lookup_type - 1u > uint32_t(lookup_info.lookup_max_value))
+  if (lookup_type - 1u >= uint32_t(lookup_info.lookup_max_value))
     return validator.fail("%s[%u] invalid lookup type (%u)", table_name, lookup_index, lookup_type);
 
   uint32_t sub_table_count = lookup_table->sub_table_offsets.count();
-- 
2.43.0


From c173596e21d94f653ffac2c6776ea7668303e634 Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Fri, 20 Nov 2026 01:06:35 +0000
Subject: [PATCH 100/132] fix: truncated feature and script lists of GSUB and
 GPOS must be ignored

---
 blend2d/opentype/otlayout.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/blend2d/opentype/otlayout.cpp b/blend2d/opentype/otlayout.cpp
index ce705bb..ec42089 100644
--- a/blend2d/opentype/otlayout.cpp
+++ b/blend2d/opentype/otlayout.cpp
@@ -3604,7 +3604,7 @@ static BLResult initGSubGPos(OTFaceImpl* ot_face_impl, Table<GSubGPosTable> tabl
     Table<Array16<TagRef16>> feature_list_offsets(table.sub_table_unchecked(feature_list_offset));
     uint32_t count = feature_list_offsets->count();
 
-    if (count) {
+    if (count && feature_list_offsets.fits(2u + count * uint32_t(sizeof(TagRef16)))) {
       const TagRef16* array = feature_list_offsets->array();
       for (uint32_t i = 0; i < count; i++) {
         BLTag feature_tag = array[i].tag();
@@ -3621,7 +3621,7 @@ static BLResult initGSubGPos(OTFaceImpl* ot_face_impl, Table<GSubGPosTable> tabl
     Table<Array16<TagRef16>> script_list_offsets(table.sub_table_unchecked(script_list_offset));
     uint32_t count = script_list_offsets->count();
 
-    if (count) {
+    if (count && script_list_offsets.fits(2u + count * uint32_t(sizeof(TagRef16)))) {
       const TagRef16* array = script_list_offsets->array();
       for (uint32_t i = 0; i < count; i++) {
         BLTag script_tag = array[i].tag();
-- 
2.43.0


From b657f6e052488067bd0062a9a20d4681d6ca4d93 Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Fri, 20 Nov 2026 01:06:35 +0000
Subject: [PATCH 101/132] fix: positioning of glyphs must fail if the font face
 provides no advances

---
 blend2d/core/font.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blend2d/core/font.cpp b/blend2d/core/font.cpp
index 89a4002..160e6e9 100644
--- a/blend2d/core/font.cpp
+++ b/blend2d/core/font.cpp
@@ -469,7 +469,7 @@ BL_API_IMPL BLResult bl_font_position_glyphs(const BLFontCore* self, BLGlyphBuff
 
   if (!(gb_impl->flags & BL_GLYPH_BUFFER_GLYPH_ADVANCES)) {
     BL_PROPAGATE(gb_impl->ensure_placement());
-    face_impl->funcs.get_glyph_advances(face_impl, gb_impl->content, sizeof(uint32_t), gb_impl->placement_data, gb_impl->size);
+    BL_PROPAGATE(face_impl->funcs.get_glyph_advances(face_impl, gb_impl->content, sizeof(uint32_t), gb_impl->placement_data, gb_impl->size));
     gb_impl->glyph_run.placement_type = uint8_t(BL_GLYPH_PLACEMENT_TYPE_ADVANCE_OFFSET);
     gb_impl->flags |= BL_GLYPH_BUFFER_GLYPH_ADVANCES;
   }
-- 
2.43.0


From 795e0db30d0bab29c681d6757b8d5ebf4c0d3e84 Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Fri, 20 Nov 2026 01:09:05 +0000
Subject: [PATCH 102/132] fix: names of a font must not be dropped when there
 is no memory to decode them

---
 blend2d/opentype/otname.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/blend2d/opentype/otname.cpp b/blend2d/opentype/otname.cpp
index 730211d..e7ae6af 100644
--- a/blend2d/opentype/otname.cpp
+++ b/blend2d/opentype/otname.cpp
@@ -250,6 +250,10 @@ BLResult init(OTFaceImpl* ot_face_impl, OTFaceTables& tables) noexcept {
       const uint8_t* src = name.data + string_region_offset + string_offset;
       BLResult result = convert_name_string_to_utf8(tmp_string, BLArrayView<uint8_t> { src, string_length }, encoding);
 
+      if (BL_UNLIKELY(result == BL_ERROR_OUT_OF_MEMORY)) {
+        return result;
+      }
+
       if (result != BL_SUCCESS) {
         // Data contains either null terminator(s) or the data is corrupted. There are some fonts that store some names
         // in UTF32-BE encoding, we refuse these names as it's not anywhere in the specification and thus broken.
-- 
2.43.0


From db5f7ed04a7e4daafb39424be7af47e732325901 Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Fri, 20 Nov 2026 01:11:06 +0000
Subject: [PATCH 103/132] fix: features past the end of a truncated feature
 list must not be read when planning lookups

---
 blend2d/opentype/otlayout.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blend2d/opentype/otlayout.cpp b/blend2d/opentype/otlayout.cpp
index ec42089..c23b9bc 100644
--- a/blend2d/opentype/otlayout.cpp
+++ b/blend2d/opentype/otlayout.cpp
@@ -3770,7 +3770,7 @@ static BLResult calculateGSubGPosPlan(const OTFaceImpl* ot_face_impl, const BLFo
   }
 
   uint32_t feature_count = feature_list_offsets->count();
-  if (feature_list_offsets.size < 2u + feature_count * 2u) {
+  if (feature_list_offsets.size < 2u + feature_count * uint32_t(sizeof(TagRef16))) {
     return BL_SUCCESS;
   }
 
-- 
2.43.0


From 47c06575fb5e8a0e507f07853b9e6c16f13ea80c Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Fri, 20 Nov 2026 01:11:06 +0000
Subject: [PATCH 104/132] fix: glyph outlines that cannot be decoded must not
 leave uninitialized vertices in the path

---
 blend2d/core/font.cpp | 28 +++++++++++++++++++++++-----
 1 file changed, 23 insertions(+), 5 deletions(-)

diff --git a/blend2d/core/font.cpp b/blend2d/core/font.cpp
index 160e6e9..0330373 100644
--- a/blend2d/core/font.cpp
+++ b/blend2d/core/font.cpp
@@ -620,6 +620,25 @@ static BLResult BL_CDECL bl_font_dummy_path_sink(BLPathCore* path, const void* i
   return BL_SUCCESS;
 }
 
+// Appends outlines of a glyph to `out` - if the outlines cannot be decoded `out` keeps the content it had.
+static BLResult bl_font_append_glyph_outlines(
+  const BLFontFacePrivateImpl* face_impl,
+  BLGlyphId glyph_id,
+  const BLMatrix2D* transform,
+  BLPath* out,
+  size_t* contour_count_out,
+  bl::ScopedBuffer* tmp_buffer) noexcept {
+
+  size_t initial_size = out->size();
+  BLResult result = face_impl->funcs.get_glyph_outlines(face_impl, glyph_id, transform, out, contour_count_out, tmp_buffer);
+
+  if (BL_UNLIKELY(result != BL_SUCCESS && out->size() != initial_size)) {
+    out->remove_range(BLRange{initial_size, SIZE_MAX});
+  }
+
+  return result;
+}
+
 BL_API_IMPL BLResult bl_font_get_glyph_outlines(const BLFontCore* self, BLGlyphId glyph_id, const BLMatrix2D* user_transform, BLPathCore* out, BLPathSinkFunc sink, void* user_data) noexcept {
   using namespace bl::FontInternal;
   BL_ASSERT(self->_d.is_font());
@@ -637,7 +656,7 @@ BL_API_IMPL BLResult bl_font_get_glyph_outlines(const BLFontCore* self, BLGlyphI
 
   bl::ScopedBufferTmp<BL_FONT_GET_GLYPH_OUTLINE_BUFFER_SIZE> tmp_buffer;
   BLGlyphOutlineSinkInfo sink_info;
-  BL_PROPAGATE(face_impl->funcs.get_glyph_outlines(face_impl, glyph_id, &final_transform, static_cast<BLPath*>(out), &sink_info.contour_count, &tmp_buffer));
+  BL_PROPAGATE(bl_font_append_glyph_outlines(face_impl, glyph_id, &final_transform, static_cast<BLPath*>(out), &sink_info.contour_count, &tmp_buffer));
 
   if (!sink)
     return BL_SUCCESS;
@@ -675,7 +694,6 @@ BL_API_IMPL BLResult bl_font_get_glyph_run_outlines(const BLFontCore* self, cons
 
   uint32_t placement_type = glyph_run->placement_type;
   BLGlyphRunIterator it(*glyph_run);
-  auto get_glyph_outlines_func = face_impl->funcs.get_glyph_outlines;
 
   if (it.has_placement() && placement_type != BL_GLYPH_PLACEMENT_TYPE_NONE) {
     BLMatrix2D offset_transform(1.0, 0.0, 0.0, 1.0, final_transform.m20, final_transform.m21);
@@ -712,7 +730,7 @@ BL_API_IMPL BLResult bl_font_get_glyph_run_outlines(const BLFontCore* self, cons
         final_transform.m21 = px * offset_transform.m01 + py * offset_transform.m11 + oy;
 
         sink_info.glyph_index = it.index;
-        BL_PROPAGATE(get_glyph_outlines_func(face_impl, it.glyph_id(), &final_transform, static_cast<BLPath*>(out), &sink_info.contour_count, &tmp_buffer));
+        BL_PROPAGATE(bl_font_append_glyph_outlines(face_impl, it.glyph_id(), &final_transform, static_cast<BLPath*>(out), &sink_info.contour_count, &tmp_buffer));
         BL_PROPAGATE(sink(out, &sink_info, user_data));
         it.advance();
 
@@ -729,7 +747,7 @@ BL_API_IMPL BLResult bl_font_get_glyph_run_outlines(const BLFontCore* self, cons
         final_transform.m21 = placement.x * offset_transform.m01 + placement.y * offset_transform.m11 + offset_transform.m21;
 
         sink_info.glyph_index = it.index;
-        BL_PROPAGATE(get_glyph_outlines_func(face_impl, it.glyph_id(), &final_transform, static_cast<BLPath*>(out), &sink_info.contour_count, &tmp_buffer));
+        BL_PROPAGATE(bl_font_append_glyph_outlines(face_impl, it.glyph_id(), &final_transform, static_cast<BLPath*>(out), &sink_info.contour_count, &tmp_buffer));
         BL_PROPAGATE(sink(out, &sink_info, user_data));
         it.advance();
       }
@@ -738,7 +756,7 @@ BL_API_IMPL BLResult bl_font_get_glyph_run_outlines(const BLFontCore* self, cons
   else {
     while (!it.at_end()) {
       sink_info.glyph_index = it.index;
-      BL_PROPAGATE(get_glyph_outlines_func(face_impl, it.glyph_id(), &final_transform, static_cast<BLPath*>(out), &sink_info.contour_count, &tmp_buffer));
+      BL_PROPAGATE(bl_font_append_glyph_outlines(face_impl, it.glyph_id(), &final_transform, static_cast<BLPath*>(out), &sink_info.contour_count, &tmp_buffer));
       BL_PROPAGATE(sink(out, &sink_info, user_data));
       it.advance();
     }
-- 
2.43.0


From 814144adc116344be9d15b0c648e73c766e1dc0b Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Fri, 20 Nov 2026 01:15:49 +0000
Subject: [PATCH 105/132] fix: scripts, languages and features that lie outside
 of GSUB or GPOS must be ignored

---
 blend2d/opentype/otlayout.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/blend2d/opentype/otlayout.cpp b/blend2d/opentype/otlayout.cpp
index c23b9bc..7c96f9c 100644
--- a/blend2d/opentype/otlayout.cpp
+++ b/blend2d/opentype/otlayout.cpp
@@ -3657,7 +3657,7 @@ static Table<GSubGPosTable::ScriptTable> find_script_in_script_list(Table<Array1
     for (uint32_t i = 0; i < script_count; i++) {
       BLTag record_tag = script_list_array[i].tag();
       if (record_tag == script_tag || record_tag == default_script_tag) {
-        table_out = script_list_offsets.sub_table_unchecked(script_list_array[i].offset());
+        table_out = script_list_offsets.sub_table(script_list_array[i].offset());
         if (record_tag == script_tag) {
           break;
         }
@@ -3690,7 +3690,7 @@ static BL_INLINE void populate_gsub_gpoos_lookup_bits(
       BLTag feature_tag = feature_list_offsets->array()[feature_index].tag();
       if (FontFeatureSettingsInternal::is_feature_enabled_for_plan<kSSO>(&settings, feature_tag)) {
         uint32_t feature_offset = feature_list_offsets->array()[feature_index].offset();
-        Table<GSubGPosTable::FeatureTable> feature_table(feature_list_offsets.sub_table_unchecked(feature_offset));
+        Table<GSubGPosTable::FeatureTable> feature_table(feature_list_offsets.sub_table(feature_offset));
 
         // Don't use a feature if its offset is out of bounds.
         if (BL_LIKELY(blFontTableFitsT<GSubGPosTable::FeatureTable>(feature_table))) {
@@ -3757,7 +3757,7 @@ static BLResult calculateGSubGPosPlan(const OTFaceImpl* ot_face_impl, const BLFo
     return BL_SUCCESS;
   }
 
-  Table<GSubGPosTable::LangSysTable> lang_sys_table(script_table.sub_table_unchecked(lang_sys_offset));
+  Table<GSubGPosTable::LangSysTable> lang_sys_table(script_table.sub_table(lang_sys_offset));
   if (BL_UNLIKELY(!blFontTableFitsT<GSubGPosTable::LangSysTable>(lang_sys_table))) {
     return BL_SUCCESS;
   }
-- 
2.43.0


From 5df1e8a8eaa35a53989a2984162f0b07b1ee42e7 Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Fri, 20 Nov 2026 01:19:53 +0000
Subject: [PATCH 106/132] fix: hflex1 and flex1 must end at the coordinate they
 start at

---
 blend2d/opentype/otcff.cpp | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/blend2d/opentype/otcff.cpp b/blend2d/opentype/otcff.cpp
index 40096f6..b61adf1 100644
--- a/blend2d/opentype/otcff.cpp
+++ b/blend2d/opentype/otcff.cpp
@@ -1537,15 +1537,16 @@ OnReturn:
               x5 = x4 + m.x_by_a(v_buf[8], v_buf[9]);
               y5 = y4 + m.y_by_a(v_buf[8], v_buf[9]);
 
-              double dx = bl_abs(v_buf[0] + v_buf[2] + v_buf[4] + v_buf[6] + v_buf[8]);
-              double dy = bl_abs(v_buf[1] + v_buf[3] + v_buf[5] + v_buf[7] + v_buf[9]);
-              if (dx > dy) {
-                px = x5 + m.x_by_x(v_buf[10]);
-                py = y5 + m.y_by_x(v_buf[10]);
+              // The last argument is either X or Y, the other coordinate of the end point equals the start point.
+              double dx = v_buf[0] + v_buf[2] + v_buf[4] + v_buf[6] + v_buf[8];
+              double dy = v_buf[1] + v_buf[3] + v_buf[5] + v_buf[7] + v_buf[9];
+              if (bl_abs(dx) > bl_abs(dy)) {
+                px = x5 + m.x_by_a(v_buf[10], -dy);
+                py = y5 + m.y_by_a(v_buf[10], -dy);
               }
               else {
-                px = x5 + m.x_by_y(v_buf[10]);
-                py = y5 + m.y_by_y(v_buf[10]);
+                px = x5 + m.x_by_a(-dx, v_buf[10]);
+                py = y5 + m.y_by_a(-dx, v_buf[10]);
               }
               consumer.cubic_to(x4, y4, x5, y5, px, py);
 
@@ -1595,8 +1596,11 @@ OnReturn:
               y4 = y3 + m.y_by_x(v_buf[5]);
               x5 = x4 + m.x_by_a(v_buf[6], v_buf[7]);
               y5 = y4 + m.y_by_a(v_buf[6], v_buf[7]);
-              px = x5 + m.x_by_x(v_buf[8]);
-              py = y5 + m.y_by_x(v_buf[8]);
+
+              // The end point has the same Y coordinate as the start point.
+              double dy = v_buf[1] + v_buf[3] + v_buf[7];
+              px = x5 + m.x_by_a(v_buf[8], -dy);
+              py = y5 + m.y_by_a(v_buf[8], -dy);
               consumer.cubic_to(x4, y4, x5, y5, px, py);
 
               v_idx = 0;
-- 
2.43.0


From 5b4f33d5142ac1dc686dc1ee94a5795c344e7d3c Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Fri, 20 Nov 2026 01:35:54 +0000
Subject: [PATCH 107/132] fix: bl_glyph_buffer_set_glyphs() must advance by the
 size of a glyph id

---
 blend2d/core/glyphbuffer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blend2d/core/glyphbuffer.cpp b/blend2d/core/glyphbuffer.cpp
index d528e41..d4c7e27 100644
--- a/blend2d/core/glyphbuffer.cpp
+++ b/blend2d/core/glyphbuffer.cpp
@@ -282,7 +282,7 @@ BL_API_IMPL BLResult bl_glyph_buffer_set_glyphs(BLGlyphBufferCore* self, const u
   BL_PROPAGATE(bl_glyph_buffer_ensure_data(self, &d));
   BL_PROPAGATE(d->ensure_buffer(0, 0, size));
 
-  return bl_internal_glyph_buffer_data_set_glyph_ids(d, glyph_data, size, intptr_t(sizeof(uint16_t)));
+  return bl_internal_glyph_buffer_data_set_glyph_ids(d, glyph_data, size, intptr_t(sizeof(uint32_t)));
 }
 
 BL_API_IMPL BLResult bl_glyph_buffer_set_glyphs_from_struct(BLGlyphBufferCore* self, const void* glyph_data, size_t size, size_t glyph_id_size, intptr_t glyph_id_advance) noexcept {
-- 
2.43.0


From 0f37ab8c29698339363421fe14b4738f2463d160 Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Fri, 20 Nov 2026 01:35:54 +0000
Subject: [PATCH 108/132] fix: glyph buffer must keep the flag that reports
 invalid text

---
 blend2d/core/glyphbuffer.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/blend2d/core/glyphbuffer.cpp b/blend2d/core/glyphbuffer.cpp
index d4c7e27..ef89edd 100644
--- a/blend2d/core/glyphbuffer.cpp
+++ b/blend2d/core/glyphbuffer.cpp
@@ -124,6 +124,7 @@ static BL_INLINE BLResult bl_internal_glyph_buffer_data_set_unicode_text(BLGlyph
 
   uint32_t* text_data = d->content;
   BLGlyphInfo* info_data = d->info_data;
+  uint32_t flags = 0;
 
   while (reader.has_next()) {
     uint32_t uc;
@@ -137,12 +138,12 @@ static BL_INLINE BLResult bl_internal_glyph_buffer_data_set_unicode_text(BLGlyph
       continue;
 
     text_data[-1] = bl::Unicode::kCharReplacement;
-    d->flags |= BL_GLYPH_RUN_FLAG_INVALID_TEXT;
+    flags |= BL_GLYPH_RUN_FLAG_INVALID_TEXT;
     reader.skip_one_unit();
   }
 
   d->size = (size_t)(text_data - d->content);
-  d->flags = 0;
+  d->flags = flags;
 
   if (d->size)
     d->flags |= BL_GLYPH_RUN_FLAG_UCS4_CONTENT;
-- 
2.43.0


From 038bc911ced511c30cd0cdb60c1abde6451f3934 Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Fri, 20 Nov 2026 01:35:54 +0000
Subject: [PATCH 109/132] fix: glyph placements must not survive when the
 content of a glyph buffer is replaced

---
 blend2d/core/glyphbuffer.cpp | 3 +++
 blend2d/core/glyphbuffer_p.h | 9 +++++++--
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/blend2d/core/glyphbuffer.cpp b/blend2d/core/glyphbuffer.cpp
index ef89edd..5154396 100644
--- a/blend2d/core/glyphbuffer.cpp
+++ b/blend2d/core/glyphbuffer.cpp
@@ -97,6 +97,7 @@ static BL_INLINE BLResult bl_internal_glyph_buffer_data_set_glyph_ids(BLGlyphBuf
 
   d->size = size;
   d->flags = 0;
+  d->reset_placement();
   return BL_SUCCESS;
 }
 
@@ -111,6 +112,7 @@ static BL_INLINE BLResult bl_internal_glyph_buffer_data_set_latin1_text(BLGlyphB
 
   d->size = size;
   d->flags = 0;
+  d->reset_placement();
 
   if (d->size)
     d->flags |= BL_GLYPH_RUN_FLAG_UCS4_CONTENT;
@@ -144,6 +146,7 @@ static BL_INLINE BLResult bl_internal_glyph_buffer_data_set_unicode_text(BLGlyph
 
   d->size = (size_t)(text_data - d->content);
   d->flags = flags;
+  d->reset_placement();
 
   if (d->size)
     d->flags |= BL_GLYPH_RUN_FLAG_UCS4_CONTENT;
diff --git a/blend2d/core/glyphbuffer_p.h b/blend2d/core/glyphbuffer_p.h
index 7dbebfc..609fd3e 100644
--- a/blend2d/core/glyphbuffer_p.h
+++ b/blend2d/core/glyphbuffer_p.h
@@ -84,9 +84,8 @@ struct BLGlyphBufferPrivateImpl : public BLGlyphBufferImpl {
 
   BL_INLINE void clear() noexcept {
     size = 0;
-    glyph_run.placement_type = BL_GLYPH_PLACEMENT_TYPE_NONE;
     glyph_run.flags = 0;
-    placement_data = nullptr;
+    reset_placement();
     get_glyph_data_ptrs(0, &content, &info_data);
   }
 
@@ -98,6 +97,12 @@ struct BLGlyphBufferPrivateImpl : public BLGlyphBufferImpl {
     return BL_SUCCESS;
   }
 
+  //! Forgets glyph placements, which is necessary when the glyphs they were calculated for change.
+  BL_INLINE void reset_placement() noexcept {
+    glyph_run.placement_type = uint8_t(BL_GLYPH_PLACEMENT_TYPE_NONE);
+    placement_data = nullptr;
+  }
+
   BL_INLINE void flip() noexcept {
     BLInternal::swap(buffer[0], buffer[1]);
     BLInternal::swap(capacity[0], capacity[1]);
-- 
2.43.0


From 678a8a00c85385806878ac15c866e12141829706 Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Fri, 20 Nov 2026 01:37:32 +0000
Subject: [PATCH 110/132] fix: multiple glyph substitution must accept valid
 sequences and keep the output within its buffer

---
 blend2d/opentype/otlayout.cpp        | 118 +++++++++++++++------------
 blend2d/opentype/otlayoutcontext_p.h |  14 +++-
 2 files changed, 81 insertions(+), 51 deletions(-)

diff --git a/blend2d/opentype/otlayout.cpp b/blend2d/opentype/otlayout.cpp
index 7c96f9c..0d142ea 100644
--- a/blend2d/opentype/otlayout.cpp
+++ b/blend2d/opentype/otlayout.cpp
@@ -1545,7 +1545,7 @@ static BL_INLINE_IF_NOT_DEBUG bool validate_gsub_lookup_type2_format1(Validation
     uint32_t sequence_length = sequence->count();
     uint32_t sequence_table_size = 2u + sequence_length * 2u;
 
-    if (sequence.fits(sequence_table_size))
+    if (!sequence.fits(sequence_table_size))
       return validator.fail("%s.sequence[%u] is truncated (size=%u, required=%u)", table_name, i, sequence.size, sequence_table_size);
   }
 
@@ -1555,82 +1555,95 @@ static BL_INLINE_IF_NOT_DEBUG bool validate_gsub_lookup_type2_format1(Validation
 // bl::OpenType::LayoutImpl - GSUB - Lookup Type #2 - Multiple Substitution Lookup
 // ===============================================================================
 
-// TODO: [OpenType] [SECURITY] What if the glyph contains kSeqMask???
+//! Finds a sequence of glyphs that replaces the given `glyph_id`, returns null if the glyph is not replaced.
+template<uint32_t kCovFmt>
+static BL_INLINE const Array16<UInt16>* find_multiple_subst_sequence(Table<GSubTable::MultipleSubst1> table, uint32_t sequence_set_count, GlyphRange glyph_range, const CoverageTableIterator& cov_it, BLGlyphId glyph_id) noexcept {
+  if (!glyph_range.contains(glyph_id))
+    return nullptr;
+
+  uint32_t coverage_index;
+  if (!cov_it.find<kCovFmt>(glyph_id, coverage_index) || coverage_index >= sequence_set_count)
+    return nullptr;
+
+  uint32_t sequence_offset = table->sequence_offsets.array()[coverage_index].value();
+  BL_ASSERT_VALIDATED(sequence_offset <= table.size - 2u);
+
+  const Array16<UInt16>* sequence = PtrOps::offset<const Array16<UInt16>>(table.data, sequence_offset);
+  BL_ASSERT_VALIDATED(sequence_offset + sequence->count() * 2u <= table.size - 2u);
+
+  return sequence;
+}
+
 template<uint32_t kCovFmt, typename ApplyScope>
 static BL_INLINE_IF_NOT_DEBUG BLResult apply_gsub_lookup_type2_format1(GSubContext& ctx, Table<GSubTable::MultipleSubst1> table, ApplyScope scope, LookupFlags flags, const CoverageTableIterator& cov_it) noexcept {
   BL_ASSERT(scope.end() <= ctx.size());
   BL_ASSERT_VALIDATED(table.fits());
 
-  constexpr BLGlyphId kSequenceMarker = 0x80000000u;
-
-  BLGlyphId* glyph_in_ptr = ctx.glyph_data() + scope.index();
-  BLGlyphId* glyph_in_end = ctx.glyph_data() + scope.end();
-
   // Cannot apply a lookup if there is no data to be processed.
-  BL_ASSERT(glyph_in_ptr != glyph_in_end);
+  BL_ASSERT(scope.index() != scope.end());
 
   uint32_t sequence_set_count = table->sequence_offsets.count();
   BL_ASSERT_VALIDATED(table.fits(GSubTable::MultipleSubst1::kBaseSize + sequence_set_count * 2u));
 
-  size_t replaced_glyph_count = 0;
-  size_t replaced_sequence_size = 0;
-  GlyphRange glyph_range = cov_it.glyph_range<kCovFmt>();
+  BLGlyphId* glyph_in_data = ctx.glyph_data();
+  BLGlyphInfo* info_in_data = ctx.info_data();
 
-  do {
-    BLGlyphId glyph_id = glyph_in_ptr[0];
-    if (glyph_range.contains(glyph_id)) {
-      uint32_t coverage_index;
-      if (cov_it.find<kCovFmt>(glyph_id, coverage_index) && coverage_index < sequence_set_count) {
-        uint32_t sequence_offset = table->sequence_offsets.array()[coverage_index].value();
-        BL_ASSERT_VALIDATED(sequence_offset <= table.size - 2u);
+  size_t size_before = ctx.size();
+  size_t size_after = size_before;
 
-        uint32_t sequence_length = MemOps::readU16uBE(table.data + sequence_offset);
-        BL_ASSERT_VALIDATED(sequence_offset + sequence_length * 2u <= table.size - 2u);
+  bool has_match = false;
+  bool has_empty_sequence = false;
+  GlyphRange glyph_range = cov_it.glyph_range<kCovFmt>();
 
-        glyph_in_ptr[0] = sequence_offset | kSequenceMarker;
-        replaced_glyph_count++;
-        replaced_sequence_size += sequence_length;
-      }
+  // First loop only calculates the size of the output.
+  for (size_t i = scope.index(); i < scope.end(); i++) {
+    const Array16<UInt16>* sequence = find_multiple_subst_sequence<kCovFmt>(table, sequence_set_count, glyph_range, cov_it, glyph_in_data[i]);
+    if (sequence) {
+      uint32_t sequence_length = sequence->count();
+      size_after = size_after - 1u + sequence_length;
+
+      has_match = true;
+      has_empty_sequence |= sequence_length == 0u;
     }
-  } while (scope.is_range() && ++glyph_in_ptr != glyph_in_end);
+  }
 
-  // Not a single match if zero.
-  if (!replaced_glyph_count)
+  // Not a single match.
+  if (!has_match)
     return BL_SUCCESS;
 
-  // We could be only processing a range withing the work buffer, thus it's not safe to reuse `glyph_in_ptr`.
-  glyph_in_ptr = ctx.glyph_data() + ctx.size();
-
-  BLGlyphId* glyph_in_start = ctx.glyph_data();
-  BLGlyphInfo* info_in_ptr = ctx.info_data() + ctx.size();
-
-  size_t size_after = ctx.size() - replaced_glyph_count + replaced_sequence_size;
-  BL_PROPAGATE(ctx.ensure_work_buffer(size_after));
+  // The second loop goes from the end to the beginning. If no glyph is removed it never writes before the glyph it
+  // reads, so it can use the same buffer. Otherwise the output must be separate.
+  if (has_empty_sequence)
+    BL_PROPAGATE(ctx.prepare_output_buffer(size_after));
+  else
+    BL_PROPAGATE(ctx.ensure_work_buffer(size_after));
 
   BLGlyphId* glyph_out_ptr = ctx.glyph_data() + size_after;
   BLGlyphInfo* info_out_ptr = ctx.info_data() + size_after;
 
-  // Second loop applies all matches that were found and marked.
+  size_t i = size_before;
   do {
-    BLGlyphId glyph_id = *--glyph_in_ptr;
-    *--glyph_out_ptr = glyph_id;
-    *--info_out_ptr = *--info_in_ptr;
+    i--;
 
-    if (glyph_id & kSequenceMarker) {
-      size_t sequence_offset = glyph_id & ~kSequenceMarker;
-      size_t sequence_length = MemOps::readU16uBE(table.data + sequence_offset);
-      const UInt16* sequence_data = table.data_as<UInt16>(sequence_offset + 2u);
+    BLGlyphId glyph_id = glyph_in_data[i];
+    BLGlyphInfo info = info_in_data[i];
 
-      glyph_out_ptr -= sequence_length;
-      info_out_ptr -= sequence_length;
+    const Array16<UInt16>* sequence = nullptr;
+    if (i >= scope.index() && i < scope.end())
+      sequence = find_multiple_subst_sequence<kCovFmt>(table, sequence_set_count, glyph_range, cov_it, glyph_id);
 
+    if (sequence) {
+      uint32_t sequence_length = sequence->count();
       while (sequence_length) {
-        sequence_length--;
-        glyph_out_ptr[sequence_length] = sequence_data[sequence_length].value();
-        info_out_ptr[sequence_length] = *info_in_ptr;
+        *--glyph_out_ptr = sequence->array()[--sequence_length].value();
+        *--info_out_ptr = info;
       }
     }
-  } while (glyph_in_ptr != glyph_in_start);
+    else {
+      *--glyph_out_ptr = glyph_id;
+      *--info_out_ptr = info;
+    }
+  } while (i);
 
   BL_ASSERT(glyph_out_ptr == ctx.glyph_data());
   return BL_SUCCESS;
@@ -3508,7 +3521,12 @@ static BLResult BL_CDECL apply_lookups(const BLFontFaceImpl* face_impl, BLGlyphB
           did_process_lookup = true;
         }
 
-        BL_PROPAGATE(apply_lookup(ctx, lookup_header, lookup_type_and_format, ApplyRange{0, ctx.size()}, LookupFlags(lookup_flags)));
+        BLResult result = apply_lookup(ctx, lookup_header, lookup_type_and_format, ApplyRange{0, ctx.size()}, LookupFlags(lookup_flags));
+        if (BL_UNLIKELY(result != BL_SUCCESS)) {
+          // Lookups that were applied before the failed one could have changed the size of the content.
+          ctx.done();
+          return result;
+        }
 
         if (ctx.is_empty())
           goto done;
diff --git a/blend2d/opentype/otlayoutcontext_p.h b/blend2d/opentype/otlayoutcontext_p.h
index a04a0c6..f3bd01c 100644
--- a/blend2d/opentype/otlayoutcontext_p.h
+++ b/blend2d/opentype/otlayoutcontext_p.h
@@ -190,7 +190,12 @@ struct GSubContextPrimary : public GSubContext {
   }
 
   BL_INLINE void done() noexcept {
-    _gbd->size = _work_buffer.size;
+    if (_gbd->size != _work_buffer.size) {
+      // Placements that were calculated before don't describe the new content.
+      _gbd->reset_placement();
+      _gbd->flags &= ~BL_GLYPH_BUFFER_GLYPH_ADVANCES;
+      _gbd->size = _work_buffer.size;
+    }
   }
 
   //! \}
@@ -208,6 +213,13 @@ struct GSubContextPrimary : public GSubContext {
     self->_work_buffer.capacity = gbd->capacity[1];
     gbd->flip();
 
+    // Placements and the new content would share the same buffer.
+    gbd->reset_placement();
+    gbd->flags &= ~BL_GLYPH_BUFFER_GLYPH_ADVANCES;
+
+    gbd->content = self->_work_buffer.glyph_data;
+    gbd->info_data = self->_work_buffer.info_data;
+
     return BL_SUCCESS;
   }
 
-- 
2.43.0


From d3c581f58efc841af5b5945e29c22ca49b9c5373 Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Fri, 20 Nov 2026 01:37:32 +0000
Subject: [PATCH 111/132] fix: lookups of extension type must be validated as
 the type they refer to

---
 blend2d/opentype/otlayout.cpp | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/blend2d/opentype/otlayout.cpp b/blend2d/opentype/otlayout.cpp
index 0d142ea..8efba89 100644
--- a/blend2d/opentype/otlayout.cpp
+++ b/blend2d/opentype/otlayout.cpp
@@ -3306,6 +3306,8 @@ static bool validate_lookup(ValidationContext& validator, Table<GSubGPosTable> t
   uint32_t sub_table_min_size = lookup_type == lookup_info.extension_type ? 8u : 6u;
   OffsetRange sub_table_offset_range{lookup_table_size, lookup_table.size - sub_table_min_size};
 
+  // The same minimum that is guaranteed for sub-tables that are not of extension type.
+  constexpr uint32_t kExtensionSubTableMinSize = 6u;
   uint32_t ext_previous_lookup_type = 0u;
 
   for (uint32_t sub_table_index = 0; sub_table_index < sub_table_count; sub_table_index++) {
@@ -3317,37 +3319,40 @@ static bool validate_lookup(ValidationContext& validator, Table<GSubGPosTable> t
     Table<GSubGPosTable::LookupHeader> sub_table(lookup_table.sub_table(sub_table_offset));
     uint32_t lookup_format = sub_table->format();
 
+    // The type of the lookup must be kept as it decides about the next sub-table as well.
+    uint32_t sub_table_type = lookup_type;
+
     uint32_t lookup_type_and_format = lookup_info.type_info[lookup_type].type_and_format + lookup_format - 1u;
     if (lookup_type == lookup_info.extension_type) {
       Table<GSubGPosTable::ExtensionLookup> ext_sub_table(sub_table);
 
-      lookup_type = ext_sub_table->lookup_type();
+      sub_table_type = ext_sub_table->lookup_type();
       uint32_t ext_lookup_format = ext_sub_table->format();
       uint32_t ext_sub_table_offset = ext_sub_table->offset();
 
-      if (!ext_previous_lookup_type && lookup_type != ext_previous_lookup_type)
+      if (ext_previous_lookup_type && sub_table_type != ext_previous_lookup_type)
         return validator.fail("%s[%u].sub_table[%u] has a different type (%u) than a previous extension (%u)",
-          table_name, lookup_index, sub_table_index, lookup_type, ext_previous_lookup_type);
+          table_name, lookup_index, sub_table_index, sub_table_type, ext_previous_lookup_type);
 
-      ext_previous_lookup_type = lookup_type;
-      bool valid_type = lookup_type != lookup_info.extension_type && lookup_type - 1u < uint32_t(lookup_info.lookup_max_value);
+      ext_previous_lookup_type = sub_table_type;
+      bool valid_type = sub_table_type != lookup_info.extension_type && sub_table_type - 1u < uint32_t(lookup_info.lookup_max_value);
 
       if (!valid_type || ext_lookup_format != 1)
         return validator.fail("%s[%u].sub_table[%u] has invalid extension type (%u) & format (%u) combination",
-          table_name, lookup_index, sub_table_index, lookup_type, ext_lookup_format);
+          table_name, lookup_index, sub_table_index, sub_table_type, ext_lookup_format);
 
       sub_table = ext_sub_table.sub_table(ext_sub_table_offset);
-      if (!sub_table.fits())
+      if (!sub_table.fits(kExtensionSubTableMinSize))
         return validator.fail("%s[%u].sub_table[%u] of extension type points to a truncated table (size=%u required=%u)",
-          table_name, lookup_index, sub_table_index);
+          table_name, lookup_index, sub_table_index, sub_table.size, kExtensionSubTableMinSize);
 
       lookup_format = sub_table->format();
-      lookup_type_and_format = lookup_info.type_info[lookup_type].type_and_format + lookup_format - 1u;
+      lookup_type_and_format = lookup_info.type_info[sub_table_type].type_and_format + lookup_format - 1u;
     }
 
-    if (lookup_format - 1u >= lookup_info.type_info[lookup_type].format_count)
+    if (lookup_format - 1u >= lookup_info.type_info[sub_table_type].format_count)
       return validator.fail("%s[%u].sub_table[%u] has invalid type (%u) & format (%u) combination",
-        table_name, lookup_index, sub_table_index, lookup_type, lookup_format);
+        table_name, lookup_index, sub_table_index, sub_table_type, lookup_format);
 
     bool valid = isGSub ? validateGSubLookup(validator, sub_table, GSubLookupAndFormat(lookup_type_and_format))
                         : validateGPosLookup(validator, sub_table, GPosLookupAndFormat(lookup_type_and_format));
-- 
2.43.0


From e3bcf30bc0e348afbac574bda03c9a4fc67060d4 Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Fri, 20 Nov 2026 01:40:46 +0000
Subject: [PATCH 112/132] fix: reverse chained substitution must process the
 last glyph and stay within the glyph buffer

---
 blend2d/opentype/otlayout.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/blend2d/opentype/otlayout.cpp b/blend2d/opentype/otlayout.cpp
index 8efba89..2d7bb1d 100644
--- a/blend2d/opentype/otlayout.cpp
+++ b/blend2d/opentype/otlayout.cpp
@@ -2259,11 +2259,15 @@ static BL_INLINE_IF_NOT_DEBUG BLResult apply_gsub_lookup_type8_format1(GSubConte
   uint32_t subst_offset = lookahead_offset + 2u + lookahead_glyph_count * 2u;
   BL_ASSERT_VALIDATED(table.fits(subst_offset + 2u));
 
+  // Bail if the buffer is too small for this chained context substitution.
+  if (ctx.size() <= lookahead_glyph_count)
+    return BL_SUCCESS;
+
   // Restrict scope in a way so we would never underflow/overflow glyph buffer when matching backtrack/lookahead glyphs.
-  scope.intersect(backtrack_glyph_count, ctx.size() - lookahead_glyph_count - 1u);
+  scope.intersect(backtrack_glyph_count, ctx.size() - lookahead_glyph_count);
 
-  // Bail if the buffer or the scope is too small for this chained context substitution.
-  if (ctx.size() < lookahead_glyph_count || scope.index() >= scope.end())
+  // Bail if the scope is too small for this chained context substitution.
+  if (scope.index() >= scope.end())
     return BL_SUCCESS;
 
   uint32_t subst_glyph_count = table.readU16(subst_offset);
-- 
2.43.0


From bbbdf05f8643a29d87a3364b332679f826d8fd8e Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Fri, 20 Nov 2026 01:40:46 +0000
Subject: [PATCH 113/132] fix: validation of pair sets must count the size of
 their header

---
 blend2d/opentype/otlayout.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/blend2d/opentype/otlayout.cpp b/blend2d/opentype/otlayout.cpp
index 2d7bb1d..bd02345 100644
--- a/blend2d/opentype/otlayout.cpp
+++ b/blend2d/opentype/otlayout.cpp
@@ -2639,7 +2639,7 @@ static BL_INLINE_IF_NOT_DEBUG bool validate_gpos_lookup_type2_format1(Validation
     Table<GPosTable::PairSet> pair_set(table.sub_table(pair_set_offset));
 
     uint32_t pair_value_count = pair_set->pair_value_count();
-    uint32_t pair_set_size = pair_value_count * value_record_size;
+    uint32_t pair_set_size = 2u + pair_value_count * value_record_size;
 
     if (!pair_set.fits(pair_set_size))
       return validator.invalid_table_size("PairSet", pair_set.size, pair_set_size);
@@ -2719,7 +2719,7 @@ static BL_INLINE_IF_NOT_DEBUG BLResult apply_gpos_lookup_type2_format1(GPosConte
 
         const GPosTable::PairSet* pair_set = PtrOps::offset<const GPosTable::PairSet>(table.data, pair_set_offset);
         uint32_t pair_set_count = pair_set->pair_value_count();
-        BL_ASSERT_VALIDATED(pair_set_count * value_record_size <= table.size - pair_set_offset);
+        BL_ASSERT_VALIDATED(2u + pair_set_count * value_record_size <= table.size - pair_set_offset);
 
         const Int16* p = reinterpret_cast<const Int16*>(
           binary_search_glyph_id_in_var_struct<UInt16>(
-- 
2.43.0


From eb869942495721da7e3fe15261e30c3b828d453c Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Fri, 20 Nov 2026 01:46:54 +0000
Subject: [PATCH 114/132] fix: layout tables that end with the shortest
 possible sub-table must not be refused

---
 blend2d/opentype/otdefs_p.h   |  5 +++++
 blend2d/opentype/otlayout.cpp | 22 +++++++++++-----------
 2 files changed, 16 insertions(+), 11 deletions(-)

diff --git a/blend2d/opentype/otdefs_p.h b/blend2d/opentype/otdefs_p.h
index ca14b6e..fb1cf9a 100644
--- a/blend2d/opentype/otdefs_p.h
+++ b/blend2d/opentype/otdefs_p.h
@@ -43,6 +43,11 @@ struct OffsetRange {
   uint32_t start;
   uint32_t end;
 
+  //! Returns a range of offsets, starting at `start`, at which at least `min_size` bytes of a table of `table_size` exist.
+  static BL_INLINE_NODEBUG OffsetRange make(uint32_t start, uint32_t table_size, uint32_t min_size) noexcept {
+    return OffsetRange{start, table_size >= min_size ? table_size - min_size + 1u : uint32_t(0)};
+  }
+
   template<typename T>
   BL_INLINE_NODEBUG bool contains(const T& offset) const noexcept {
     return BLInternal::bool_and(offset >= start, offset < end);
diff --git a/blend2d/opentype/otlayout.cpp b/blend2d/opentype/otlayout.cpp
index bd02345..b4a390f 100644
--- a/blend2d/opentype/otlayout.cpp
+++ b/blend2d/opentype/otlayout.cpp
@@ -658,7 +658,7 @@ static BL_NOINLINE bool validate_context_format1_2(ValidationContext& validator,
     return validator.invalid_table_size(table_name, table.size, header_size);
 
   const Offset16* rule_set_offset_array = table->rule_set_offsets.array();
-  OffsetRange rule_set_offset_range{header_size, table.size - 4u};
+  OffsetRange rule_set_offset_range = OffsetRange::make(header_size, table.size, 4u);
 
   for (uint32_t i = 0; i < rule_set_count; i++) {
     uint32_t rule_set_offset = rule_set_offset_array[i].value();
@@ -681,7 +681,7 @@ static BL_NOINLINE bool validate_context_format1_2(ValidationContext& validator,
       return validator.fail("%s.rule_set[%u] is truncated (size=%u, required=%u)", table_name, i, rule_set.size, rule_set_header_size);
 
     const Offset16* rule_offset_array = rule_set->array();
-    OffsetRange rule_offset_range{rule_set_header_size, rule_set.size - SequenceRule::kBaseSize};
+    OffsetRange rule_offset_range = OffsetRange::make(rule_set_header_size, rule_set.size, SequenceRule::kBaseSize);
 
     for (uint32_t rule_index = 0; rule_index < rule_count; rule_index++) {
       uint32_t rule_offset = rule_offset_array[rule_index].value();
@@ -967,7 +967,7 @@ static BL_NOINLINE bool validate_chained_context_format1_2(ValidationContext& va
     return validator.invalid_table_size(table_name, table.size, header_size);
 
   const Offset16* rule_set_offset_array = table->rule_set_offsets.array();
-  OffsetRange rule_set_offset_range{header_size, table.size - 4u};
+  OffsetRange rule_set_offset_range = OffsetRange::make(header_size, table.size, 4u);
 
   for (uint32_t i = 0; i < rule_set_count; i++) {
     uint32_t rule_set_offset = rule_set_offset_array[i].value();
@@ -990,7 +990,7 @@ static BL_NOINLINE bool validate_chained_context_format1_2(ValidationContext& va
       return validator.fail("%s.rule_set[%u] is truncated (size=%u, required=%u)", table_name, i, rule_set.size, rule_set_header_size);
 
     const Offset16* rule_offset_array = rule_set->array();
-    OffsetRange rule_offset_range{rule_set_header_size, rule_set.size - ChainedSequenceRule::kBaseSize};
+    OffsetRange rule_offset_range = OffsetRange::make(rule_set_header_size, rule_set.size, ChainedSequenceRule::kBaseSize);
 
     for (uint32_t rule_index = 0; rule_index < rule_count; rule_index++) {
       uint32_t rule_offset = rule_offset_array[rule_index].value();
@@ -1531,7 +1531,7 @@ static BL_INLINE_IF_NOT_DEBUG bool validate_gsub_lookup_type2_format1(Validation
 
   // Offsets to glyph sequences.
   const Offset16* offset_array = table->sequence_offsets.array();
-  OffsetRange offset_range{header_size, table.size - 4u};
+  OffsetRange offset_range = OffsetRange::make(header_size, table.size, 2u);
 
   for (uint32_t i = 0; i < sequence_set_count; i++) {
     uint32_t sequence_offset = offset_array[i].value();
@@ -1668,7 +1668,7 @@ static BL_INLINE_IF_NOT_DEBUG bool validate_gsub_lookup_type3_format1(Validation
 
   // Offsets to AlternateSet tables.
   const Offset16* offset_array = lookup->alternate_set_offsets.array();
-  OffsetRange offset_range{header_size, table.size - 4u};
+  OffsetRange offset_range = OffsetRange::make(header_size, table.size, 4u);
 
   if (alternate_set_count < coverage_count)
     validator.warn("%s has less AlternateSet records (%u) than coverage entries (%u)", table_name, alternate_set_count, coverage_count);
@@ -1757,7 +1757,7 @@ static BL_INLINE_IF_NOT_DEBUG bool validate_gsub_lookup_type4_format1(Validation
 
   // Offsets to LigatureSet tables.
   const Offset16* ligature_set_offset_array = lookup->ligature_set_offsets.array();
-  OffsetRange ligature_set_offset_range{header_size, table.size-4u};
+  OffsetRange ligature_set_offset_range = OffsetRange::make(header_size, table.size, 4u);
 
   for (uint32_t i = 0; i < ligature_set_count; i++) {
     uint32_t ligature_set_offset = ligature_set_offset_array[i].value();
@@ -1775,7 +1775,7 @@ static BL_INLINE_IF_NOT_DEBUG bool validate_gsub_lookup_type4_format1(Validation
       return validator.fail("%s.ligature_set[%u] overflows the table size by [%u] bytes", table_name, i, ligature_set_header_size - ligature_set.size);
 
     const Offset16* ligature_offset_array = ligature_set->array();
-    OffsetRange ligature_offset_range{ligature_set_header_size, ligature_set.size - 6u};
+    OffsetRange ligature_offset_range = OffsetRange::make(ligature_set_header_size, ligature_set.size, 6u);
 
     for (uint32_t ligature_index = 0; ligature_index < ligature_count; ligature_index++) {
       uint32_t ligature_offset = ligature_offset_array[ligature_index].value();
@@ -2629,7 +2629,7 @@ static BL_INLINE_IF_NOT_DEBUG bool validate_gpos_lookup_type2_format1(Validation
     return validator.invalid_table_size(table_name, table.size, header_size);
 
   const Offset16* offset_array = table->pair_set_offsets.array();
-  OffsetRange pair_set_offset_range{header_size, table.size - 2u};
+  OffsetRange pair_set_offset_range = OffsetRange::make(header_size, table.size, 2u);
 
   for (uint32_t i = 0; i < pair_set_count; i++) {
     uint32_t pair_set_offset = offset_array[i].value();
@@ -3287,7 +3287,7 @@ static bool validate_lookup(ValidationContext& validator, Table<GSubGPosTable> t
     return validator.invalid_table_size(table_name, lookup_list.size, lookup_list_size);
 
   uint32_t lookup_offset = lookup_list->array()[lookup_index].value();
-  OffsetRange lookup_offset_range{lookup_list_size, lookup_list.size - GSubGPosTable::LookupTable::kBaseSize};
+  OffsetRange lookup_offset_range = OffsetRange::make(lookup_list_size, lookup_list.size, GSubGPosTable::LookupTable::kBaseSize);
 
   if (!lookup_offset_range.contains(lookup_offset))
     return validator.fail("%s[%u] has invalid offset (%u), valid range=[%u:%u]",
@@ -3308,7 +3308,7 @@ static bool validate_lookup(ValidationContext& validator, Table<GSubGPosTable> t
     return validator.fail("%s[%u] truncated (size=%u, required=%u)", table_name, lookup_index, lookup_table.size, lookup_table_size);
 
   uint32_t sub_table_min_size = lookup_type == lookup_info.extension_type ? 8u : 6u;
-  OffsetRange sub_table_offset_range{lookup_table_size, lookup_table.size - sub_table_min_size};
+  OffsetRange sub_table_offset_range = OffsetRange::make(lookup_table_size, lookup_table.size, sub_table_min_size);
 
   // The same minimum that is guaranteed for sub-tables that are not of extension type.
   constexpr uint32_t kExtensionSubTableMinSize = 6u;
-- 
2.43.0


From b5f2f1ad56787538e6821f1815a3608436bc2091 Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Fri, 20 Nov 2026 02:14:31 +0000
Subject: [PATCH 115/132] fix: style slots must be validated before they index
 the state of the context

---
 blend2d/raster/rastercontext.cpp | 36 ++++++++++++++++++--------------
 1 file changed, 20 insertions(+), 16 deletions(-)

diff --git a/blend2d/raster/rastercontext.cpp b/blend2d/raster/rastercontext.cpp
index a87882c..c1412db 100644
--- a/blend2d/raster/rastercontext.cpp
+++ b/blend2d/raster/rastercontext.cpp
@@ -507,10 +507,6 @@ static BL_INLINE bool init_non_solid_fetch_data(
 // bl::RasterEngine - ContextImpl - Frontend - Fill & Stroke Style
 // ===============================================================
 
-static BL_INLINE_NODEBUG uint32_t restricted_index_from_slot(BLContextStyleSlot slot) noexcept {
-  return bl_min<uint32_t>(slot, uint32_t(BL_CONTEXT_STYLE_SLOT_MAX_VALUE) + 1);
-}
-
 static BLResult BL_CDECL get_style_impl(const BLContextImpl* base_impl, BLContextStyleSlot slot, bool transformed, BLVarCore* var_out) noexcept {
   const BLRasterContextImpl* ctx_impl = static_cast<const BLRasterContextImpl*>(base_impl);
 
@@ -555,12 +551,14 @@ static BLResult BL_CDECL get_style_impl(const BLContextImpl* base_impl, BLContex
 
 static BLResult BL_CDECL disable_style_impl(BLContextImpl* base_impl, BLContextStyleSlot slot) noexcept {
   BLRasterContextImpl* ctx_impl = static_cast<BLRasterContextImpl*>(base_impl);
+
+  if (BL_UNLIKELY(slot > BL_CONTEXT_STYLE_SLOT_MAX_VALUE))
+    return bl_make_error(BL_ERROR_INVALID_VALUE);
+
   ContextFlags context_flags = ctx_impl->context_flags;
-  ContextFlags style_flags = (ContextFlags::kWeakStateBaseStyle | ContextFlags::kFetchDataBase) << restricted_index_from_slot(slot);
+  ContextFlags style_flags = (ContextFlags::kWeakStateBaseStyle | ContextFlags::kFetchDataBase) << slot;
 
   if (bl_test_flag(context_flags, style_flags)) {
-    if (BL_UNLIKELY(slot > BL_CONTEXT_STYLE_SLOT_MAX_VALUE))
-      return bl_make_error(BL_ERROR_INVALID_VALUE);
     on_before_style_change(ctx_impl, slot, ctx_impl->internal_state.style[slot], context_flags);
   }
 
@@ -571,12 +569,14 @@ static BLResult BL_CDECL disable_style_impl(BLContextImpl* base_impl, BLContextS
 
 static BLResult BL_CDECL set_style_rgba32_impl(BLContextImpl* base_impl, BLContextStyleSlot slot, uint32_t rgba32) noexcept {
   BLRasterContextImpl* ctx_impl = static_cast<BLRasterContextImpl*>(base_impl);
+
+  if (BL_UNLIKELY(slot > BL_CONTEXT_STYLE_SLOT_MAX_VALUE))
+    return bl_make_error(BL_ERROR_INVALID_VALUE);
+
   ContextFlags context_flags = ctx_impl->context_flags;
-  ContextFlags style_flags = (ContextFlags::kWeakStateBaseStyle | ContextFlags::kFetchDataBase) << restricted_index_from_slot(slot);
+  ContextFlags style_flags = (ContextFlags::kWeakStateBaseStyle | ContextFlags::kFetchDataBase) << slot;
 
   if (bl_test_flag(context_flags, style_flags)) {
-    if (BL_UNLIKELY(slot > BL_CONTEXT_STYLE_SLOT_MAX_VALUE))
-      return bl_make_error(BL_ERROR_INVALID_VALUE);
     on_before_style_change(ctx_impl, slot, ctx_impl->internal_state.style[slot], context_flags);
   }
 
@@ -598,12 +598,14 @@ static BLResult BL_CDECL set_style_rgba32_impl(BLContextImpl* base_impl, BLConte
 
 static BLResult BL_CDECL set_style_rgba64_impl(BLContextImpl* base_impl, BLContextStyleSlot slot, uint64_t rgba64) noexcept {
   BLRasterContextImpl* ctx_impl = static_cast<BLRasterContextImpl*>(base_impl);
+
+  if (BL_UNLIKELY(slot > BL_CONTEXT_STYLE_SLOT_MAX_VALUE))
+    return bl_make_error(BL_ERROR_INVALID_VALUE);
+
   ContextFlags context_flags = ctx_impl->context_flags;
-  ContextFlags style_flags = (ContextFlags::kWeakStateBaseStyle | ContextFlags::kFetchDataBase) << restricted_index_from_slot(slot);
+  ContextFlags style_flags = (ContextFlags::kWeakStateBaseStyle | ContextFlags::kFetchDataBase) << slot;
 
   if (bl_test_flag(context_flags, style_flags)) {
-    if (BL_UNLIKELY(slot > BL_CONTEXT_STYLE_SLOT_MAX_VALUE))
-      return bl_make_error(BL_ERROR_INVALID_VALUE);
     on_before_style_change(ctx_impl, slot, ctx_impl->internal_state.style[slot], context_flags);
   }
 
@@ -626,16 +628,18 @@ static BLResult BL_CDECL set_style_rgba64_impl(BLContextImpl* base_impl, BLConte
 
 static BLResult BL_CDECL set_style_rgba_impl(BLContextImpl* base_impl, BLContextStyleSlot slot, const BLRgba* rgba) noexcept {
   BLRasterContextImpl* ctx_impl = static_cast<BLRasterContextImpl*>(base_impl);
+
+  if (BL_UNLIKELY(slot > BL_CONTEXT_STYLE_SLOT_MAX_VALUE))
+    return bl_make_error(BL_ERROR_INVALID_VALUE);
+
   ContextFlags context_flags = ctx_impl->context_flags;
-  ContextFlags style_flags = (ContextFlags::kWeakStateBaseStyle | ContextFlags::kFetchDataBase) << restricted_index_from_slot(slot);
+  ContextFlags style_flags = (ContextFlags::kWeakStateBaseStyle | ContextFlags::kFetchDataBase) << slot;
 
   BLRgba norm = bl_clamp(*rgba, BLRgba(0.0f, 0.0f, 0.0f, 0.0f), BLRgba(1.0f, 1.0f, 1.0f, 1.0f));
   if (!RgbaInternal::is_valid(*rgba))
     return disable_style_impl(base_impl, slot);
 
   if (bl_test_flag(context_flags, style_flags)) {
-    if (BL_UNLIKELY(slot > BL_CONTEXT_STYLE_SLOT_MAX_VALUE))
-      return bl_make_error(BL_ERROR_INVALID_VALUE);
     on_before_style_change(ctx_impl, slot, ctx_impl->internal_state.style[slot], context_flags);
   }
 
-- 
2.43.0


From c149e6df54da69f9314913ab7010b597a40c3d1c Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Fri, 20 Nov 2026 02:16:21 +0000
Subject: [PATCH 116/132] fix: swapping styles must not move unrelated context
 flags into the style and alpha flags

---
 blend2d/raster/rastercontext.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/blend2d/raster/rastercontext.cpp b/blend2d/raster/rastercontext.cpp
index c1412db..15f868d 100644
--- a/blend2d/raster/rastercontext.cpp
+++ b/blend2d/raster/rastercontext.cpp
@@ -1993,8 +1993,9 @@ static BLResult BL_CDECL swap_styles_impl(BLContextImpl* base_impl, BLContextSty
     state.style[kFillSlot].swap(state.style[kStrokeSlot]);
     BLInternal::swap(state.style_type[kFillSlot], state.style_type[kStrokeSlot]);
 
-    constexpr ContextFlags kSwapFlags = ContextFlags::kNoFillAndStrokeStyle | ContextFlags::kFetchDataFillAndStroke;
-    context_flags = (context_flags & ~kSwapFlags) | ((context_flags >> 1) & kSwapFlags) | ((context_flags << 1) & kSwapFlags);
+    constexpr ContextFlags kFillFlags = ContextFlags::kNoFillStyle | ContextFlags::kFetchDataFill;
+    constexpr ContextFlags kStrokeFlags = ContextFlags::kNoStrokeStyle | ContextFlags::kFetchDataStroke;
+    context_flags = (context_flags & ~(kFillFlags | kStrokeFlags)) | ((context_flags & kStrokeFlags) >> 1) | ((context_flags & kFillFlags) << 1);
   }
 
   // Swap fill and stroke alphas.
@@ -2002,8 +2003,9 @@ static BLResult BL_CDECL swap_styles_impl(BLContextImpl* base_impl, BLContextSty
     BLInternal::swap(state.style_alpha[kFillSlot], state.style_alpha[kStrokeSlot]);
     BLInternal::swap(state.styleAlphaI[kFillSlot], state.styleAlphaI[kStrokeSlot]);
 
-    constexpr ContextFlags kSwapFlags = ContextFlags::kNoFillAndStrokeAlpha;
-    context_flags = (context_flags & ~kSwapFlags) | ((context_flags >> 1) & kSwapFlags) | ((context_flags << 1) & kSwapFlags);
+    constexpr ContextFlags kFillFlags = ContextFlags::kNoFillAlpha;
+    constexpr ContextFlags kStrokeFlags = ContextFlags::kNoStrokeAlpha;
+    context_flags = (context_flags & ~(kFillFlags | kStrokeFlags)) | ((context_flags & kStrokeFlags) >> 1) | ((context_flags & kFillFlags) << 1);
   }
 
   ctx_impl->context_flags = context_flags;
-- 
2.43.0


From 60949a9a6a48ee66c2ddf0b690ca485adc57f2c5 Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Fri, 20 Nov 2026 02:29:39 +0000
Subject: [PATCH 117/132] fix: synchronous fills must not leave the bounding
 box of consumed edges in the edge storage

---
 blend2d/raster/rendercommandprocsync_p.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/blend2d/raster/rendercommandprocsync_p.h b/blend2d/raster/rendercommandprocsync_p.h
index a230857..87e6539 100644
--- a/blend2d/raster/rendercommandprocsync_p.h
+++ b/blend2d/raster/rendercommandprocsync_p.h
@@ -254,6 +254,8 @@ SaveState:
     ras._band_offset = (ras._band_offset + band_height) & ~band_height_mask;
   } while (++band_id < band_end);
 
+  // All edges have been consumed, the next fill must start with an empty bounding box.
+  work_data.edge_storage.reset_bounding_box();
   work_zone->clear();
   return BL_SUCCESS;
 }
-- 
2.43.0


From 3aff61fe9211aaeff70bd5aafbe1217ee60be2ff Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Fri, 20 Nov 2026 02:53:18 +0000
Subject: [PATCH 118/132] fix: querying faces by family name must ignore case
 the same way as querying a single face

---
 blend2d/core/fontmanager.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blend2d/core/fontmanager.cpp b/blend2d/core/fontmanager.cpp
index bfc7c06..36e899b 100644
--- a/blend2d/core/fontmanager.cpp
+++ b/blend2d/core/fontmanager.cpp
@@ -442,7 +442,7 @@ BL_API_IMPL BLResult bl_font_manager_query_faces_by_family_name(const BLFontMana
     BLFontManagerPrivateImpl::FamiliesMapNode* candidate = nullptr;
 
     if (prepare_query(self_impl, name, name_size, &query)) {
-      BLFontManagerPrivateImpl::FamiliesMapNode* node = self_impl->families_map.get(query);
+      BLFontManagerPrivateImpl::FamiliesMapNode* node = self_impl->families_map.nodes_by_hash_code(query.hash_code());
       while (node) {
         uint32_t family_diff = calc_family_name_diff(node->family_name.view(), query.name());
         if (candidate_diff > family_diff) {
-- 
2.43.0


From 3b996285fba4e566d4ee941bced11ac1e17244fe Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Fri, 20 Nov 2026 03:27:32 +0000
Subject: [PATCH 119/132] fix: asynchronous contexts must not read placement
 data that a glyph run does not have

---
 blend2d/raster/rastercontext.cpp | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/blend2d/raster/rastercontext.cpp b/blend2d/raster/rastercontext.cpp
index 15f868d..1cd0fa8 100644
--- a/blend2d/raster/rastercontext.cpp
+++ b/blend2d/raster/rastercontext.cpp
@@ -2570,10 +2570,20 @@ static BL_INLINE BLResult enqueue_fill_or_stroke_glyph_run(
   uint32_t* dst_glyph_data = glyph_data;
   BLGlyphPlacementRawData* dst_placement_data = placement_data;
 
-  while (!it.at_end()) {
-    *dst_glyph_data++ = it.glyph_id();
-    *dst_placement_data++ = it.placement<BLGlyphPlacementRawData>();
-    it.advance();
+  // Placement data is optional - the glyph run doesn't have to provide it.
+  if (it.has_placement() && glyph_run->placement_type != BL_GLYPH_PLACEMENT_TYPE_NONE) {
+    while (!it.at_end()) {
+      *dst_glyph_data++ = it.glyph_id();
+      *dst_placement_data++ = it.placement<BLGlyphPlacementRawData>();
+      it.advance();
+    }
+  }
+  else {
+    placement_data = nullptr;
+    while (!it.at_end()) {
+      *dst_glyph_data++ = it.glyph_id();
+      it.advance();
+    }
   }
 
   BLPoint origin_fixed = ctx_impl->final_transform_fixed().map_point(*origin);
-- 
2.43.0


From 40bee9b646ecc4e284417276beb0dd8f67ec78c9 Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Fri, 20 Nov 2026 03:39:57 +0000
Subject: [PATCH 120/132] fix: drawing with an explicit color must honor a
 color implied by the composition operator

---
 blend2d/raster/rastercontext.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/blend2d/raster/rastercontext.cpp b/blend2d/raster/rastercontext.cpp
index 1cd0fa8..64dea2f 100644
--- a/blend2d/raster/rastercontext.cpp
+++ b/blend2d/raster/rastercontext.cpp
@@ -1433,7 +1433,11 @@ static BL_INLINE void prepare_non_solid_fetch(BLRasterContextImpl* ctx_impl, Dis
                                                                                  \
   DispatchInfo di;                                                               \
   di.init(resolved.signature, ctx_impl->internal_state.styleAlphaI[Slot]);            \
-  DispatchStyle ds{&solid}
+                                                                                 \
+  /* The composition operator could have been simplified to use another color. */ \
+  DispatchStyle ds{&solid};                                                      \
+  if (resolved.flags != ContextFlags::kNoFlagsSet)                               \
+    ds.fetch_data = ctx_impl->solid_fetch_data_override_table[size_t(resolved.flags)]
 
 // Resolves an operation that uses explicit style (fill or stroke).
 #define BL_CONTEXT_RESOLVE_EXPLICIT_STYLE_OP(NopFlags, Slot, Style, Bail)        \
-- 
2.43.0


From 1d0dc7b681ec23a42bf2cbf3cd70e5dced1b8c0d Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Fri, 20 Nov 2026 03:39:57 +0000
Subject: [PATCH 121/132] fix: filling a mask with an explicit style must not
 depend on the fill style of the context

---
 blend2d/raster/rastercontext.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/blend2d/raster/rastercontext.cpp b/blend2d/raster/rastercontext.cpp
index 64dea2f..7c0e2f3 100644
--- a/blend2d/raster/rastercontext.cpp
+++ b/blend2d/raster/rastercontext.cpp
@@ -3736,7 +3736,7 @@ static BLResult BL_CDECL fill_mask_d_rgba32_impl(BLContextImpl* base_impl, const
   BLResult bail_result = check_image_area(mask_rect, ImageInternal::get_impl(mask), mask_area);
   bool bail = bail_result != BL_SUCCESS;
 
-  BL_CONTEXT_RESOLVE_EXPLICIT_SOLID_OP(ContextFlags::kNoFillOpImplicit, BL_CONTEXT_STYLE_SLOT_FILL, rgba32, bail);
+  BL_CONTEXT_RESOLVE_EXPLICIT_SOLID_OP(ContextFlags::kNoFillOpExplicit, BL_CONTEXT_STYLE_SLOT_FILL, rgba32, bail);
   return fill_unclipped_mask_d<kRM>(ctx_impl, di, ds, *origin, mask, mask_rect);
 }
 
@@ -3750,7 +3750,7 @@ static BLResult BL_CDECL fill_mask_d_ext_impl(BLContextImpl* base_impl, const BL
   BLResult bail_result = check_image_area(mask_rect, ImageInternal::get_impl(mask), mask_area);
   bool bail = bail_result != BL_SUCCESS;
 
-  BL_CONTEXT_RESOLVE_EXPLICIT_STYLE_OP(ContextFlags::kNoFillOpImplicit, BL_CONTEXT_STYLE_SLOT_FILL, style, bail);
+  BL_CONTEXT_RESOLVE_EXPLICIT_STYLE_OP(ContextFlags::kNoFillOpExplicit, BL_CONTEXT_STYLE_SLOT_FILL, style, bail);
   BLResult result = fill_unclipped_mask_d<kRM>(ctx_impl, di, ds, *origin, mask, mask_rect);
 
   return finalize_explicit_op<kRM>(ctx_impl, fetch_data.ptr(), result);
@@ -3796,7 +3796,7 @@ static BLResult BL_CDECL fill_mask_i_rgba32_impl(BLContextImpl* base_impl, const
   BLResult bail_result;
   bool bail = !translate_and_clip_rect_to_blit_i(ctx_impl, origin, mask_area, &mask_impl->size, &bail_result, &dst_box, &src_offset);
 
-  BL_CONTEXT_RESOLVE_EXPLICIT_SOLID_OP(ContextFlags::kNoFillOpImplicit, BL_CONTEXT_STYLE_SLOT_FILL, rgba32, bail);
+  BL_CONTEXT_RESOLVE_EXPLICIT_SOLID_OP(ContextFlags::kNoFillOpExplicit, BL_CONTEXT_STYLE_SLOT_FILL, rgba32, bail);
   return fill_clipped_box_masked_a<kRM>(ctx_impl, di, ds, dst_box, mask, src_offset);
 }
 
@@ -3818,7 +3818,7 @@ static BLResult BL_CDECL fill_mask_i_ext_impl(BLContextImpl* base_impl, const BL
   BLResult bail_result;
   bool bail = !translate_and_clip_rect_to_blit_i(ctx_impl, origin, mask_area, &mask_impl->size, &bail_result, &dst_box, &src_offset);
 
-  BL_CONTEXT_RESOLVE_EXPLICIT_STYLE_OP(ContextFlags::kNoFillOpImplicit, BL_CONTEXT_STYLE_SLOT_FILL, style, bail);
+  BL_CONTEXT_RESOLVE_EXPLICIT_STYLE_OP(ContextFlags::kNoFillOpExplicit, BL_CONTEXT_STYLE_SLOT_FILL, style, bail);
   BLResult result = fill_clipped_box_masked_a<kRM>(ctx_impl, di, ds, dst_box, mask, src_offset);
 
   return finalize_explicit_op<kRM>(ctx_impl, fetch_data.ptr(), result);
-- 
2.43.0


From 07aa754513911fcb2ffa46e6ed8c5fed7b69f07c Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Fri, 20 Nov 2026 03:49:22 +0000
Subject: [PATCH 122/132] fix: BLFileSystem::write_file() must report a failed
 close()

---
 blend2d/core/filesystem.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/blend2d/core/filesystem.cpp b/blend2d/core/filesystem.cpp
index 891531a..222f341 100644
--- a/blend2d/core/filesystem.cpp
+++ b/blend2d/core/filesystem.cpp
@@ -1130,5 +1130,11 @@ BL_API_IMPL BLResult bl_file_system_write_file(const char* file_name, const void
 
   BLFile file;
   BL_PROPAGATE(file.open(file_name, BLFileOpenFlags(BL_FILE_OPEN_WRITE | BL_FILE_OPEN_CREATE | BL_FILE_OPEN_TRUNCATE)));
-  return size ? file.write(data, size , bytes_written_out) : BL_SUCCESS;
+
+  BLResult result = size ? file.write(data, size , bytes_written_out) : BL_SUCCESS;
+
+  // NOTE: The file must be closed explicitly as a failing `close()` could be the only notification of a data loss.
+  BLResult close_result = file.close();
+
+  return result != BL_SUCCESS ? result : close_result;
 }
-- 
2.43.0


From cd3f258722257796fa74bf92f725dc11c114f197 Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Fri, 20 Nov 2026 04:18:04 +0000
Subject: [PATCH 123/132] fix: shutting down the runtime must wait for worker
 threads until they stop using the thread pool

A worker decremented the number of created threads first and released its
reference to the pool later, so bl_runtime_shutdown() could return, and
bl_runtime_init() could construct the global pool again, while a thread was
still using it. The wait also ended on any wakeup of the condition, including
a spurious one, and quit() of an already terminated thread was called with the
mutex held, which the exit function acquires.
---
 blend2d/threading/threadpool.cpp | 82 +++++++++++++++++++-------------
 1 file changed, 48 insertions(+), 34 deletions(-)

diff --git a/blend2d/threading/threadpool.cpp b/blend2d/threading/threadpool.cpp
index 71edf27..cab272c 100644
--- a/blend2d/threading/threadpool.cpp
+++ b/blend2d/threading/threadpool.cpp
@@ -80,11 +80,16 @@ public:
       cleanup(BL_THREAD_QUIT_ON_EXIT);
 
       BLLockGuard<BLMutex> guard(mutex);
-      if (bl_atomic_fetch_strong(&created_thread_count) != 0) {
-        waiting_on_destroy = 1;
-        if (destroy_condition.wait_for(mutex, wait_time) == BL_SUCCESS)
+      waiting_on_destroy = 1;
+
+      // NOTE: A wakeup can be spurious, only the number of threads says whether there is something to wait for.
+      while (bl_atomic_fetch_strong(&created_thread_count) != 0) {
+        if (destroy_condition.wait_for(mutex, wait_time) != BL_SUCCESS)
           break;
       }
+
+      if (bl_atomic_fetch_strong(&created_thread_count) == 0)
+        break;
     } while (--num_tries);
   }
 };
@@ -101,12 +106,15 @@ BLThreadPool* bl_thread_pool_create() noexcept {
   return new(BLInternal::PlacementNew{p}) BLInternalThreadPool();
 }
 
+static void bl_thread_pool_destroy(BLInternalThreadPool* self) noexcept {
+  self->~BLInternalThreadPool();
+  if (self != &bl_global_thread_pool)
+    free(self);
+}
+
 static void bl_thread_pool_release_internal(BLInternalThreadPool* self) noexcept {
-  if (bl_atomic_fetch_sub_strong(&self->internal_ref_count) == 1) {
-    self->~BLInternalThreadPool();
-    if (self != &bl_global_thread_pool)
-      free(self);
-  }
+  if (bl_atomic_fetch_sub_strong(&self->internal_ref_count) == 1)
+    bl_thread_pool_destroy(self);
 }
 
 // ThreadPool - AddRef & Release
@@ -125,8 +133,7 @@ static BLResult BL_CDECL bl_thread_pool_release(BLThreadPool* self_) noexcept {
   // However, we have to first shut down all the threads, and then we can actually destroy the pool itself.
   if (bl_atomic_fetch_sub_strong(&self->ref_count) == 1) {
     // First try to destroy all threads - this could possibly fail.
-    if (bl_atomic_fetch_strong(&self->created_thread_count) != 0)
-      self->perform_exit_cleanup();
+    self->perform_exit_cleanup();
 
     bl_thread_pool_release_internal(self);
   }
@@ -173,44 +180,51 @@ static void bl_thread_pool_thread_exit_func(BLThread* thread, void* data) noexce
   BLInternalThreadPool* thread_pool = static_cast<BLInternalThreadPool*>(data);
   thread->destroy();
 
-  if (bl_atomic_fetch_sub_strong(&thread_pool->created_thread_count) == 1) {
-    thread_pool->mutex.protect([&]() {
-      if (thread_pool->waiting_on_destroy)
-        thread_pool->destroy_condition.signal();
-    });
-  }
+  // NOTE: Both counters must be decremented together when holding the mutex. A thread that waits for the number of
+  // threads to drop to zero can then destroy (or initialize again) the pool as nothing accesses it from here anymore.
+  bool last = thread_pool->mutex.protect([&]() {
+    if (bl_atomic_fetch_sub_strong(&thread_pool->created_thread_count) == 1 && thread_pool->waiting_on_destroy)
+      thread_pool->destroy_condition.signal();
+    return bl_atomic_fetch_sub_strong(&thread_pool->internal_ref_count) == 1;
+  });
 
-  bl_thread_pool_release_internal(thread_pool);
+  if (last)
+    bl_thread_pool_destroy(thread_pool);
 }
 
 static uint32_t BL_CDECL bl_thread_pool_cleanup(BLThreadPool* self_, uint32_t thread_quit_flags) noexcept {
   BLInternalThreadPool* self = static_cast<BLInternalThreadPool*>(self_);
-  BLLockGuard<BLMutex> guard(self->mutex);
+  BLThread* quitting_threads[BLInternalThreadPool::kMaxThreadCount];
 
   uint32_t n = 0;
   uint32_t bw_index = 0;
-  uint32_t pooled_thread_count = self->pooled_thread_count;
 
-  if (!pooled_thread_count)
-    return 0;
+  {
+    BLLockGuard<BLMutex> guard(self->mutex);
+    uint32_t pooled_thread_count = self->pooled_thread_count;
 
-  do {
-    BLBitWord mask = self->pooled_thread_bits.data[bw_index];
-    bl::BitWordIterator<BLBitWord> it(mask);
+    if (!pooled_thread_count)
+      return 0;
 
-    while (it.has_next()) {
-      uint32_t thread_index = bw_index * bl::IntOps::bit_size_of<BLBitWord>() + it.next();
-      BLThread* thread = self->threads[thread_index];
+    do {
+      BLBitWord mask = self->pooled_thread_bits.data[bw_index];
+      bl::BitWordIterator<BLBitWord> it(mask);
 
-      self->threads[thread_index] = nullptr;
-      thread->quit(thread_quit_flags);
+      while (it.has_next()) {
+        uint32_t thread_index = bw_index * bl::IntOps::bit_size_of<BLBitWord>() + it.next();
+        quitting_threads[n++] = self->threads[thread_index];
+        self->threads[thread_index] = nullptr;
+      }
+      self->pooled_thread_bits.data[bw_index] = 0;
+    } while (++bw_index < BLInternalThreadPool::PooledThreadBitArray::kFixedArraySize);
 
-      n++;
-    }
-    self->pooled_thread_bits.data[bw_index] = 0;
-  } while (++bw_index < BLInternalThreadPool::PooledThreadBitArray::kFixedArraySize);
+    self->pooled_thread_count = pooled_thread_count - n;
+  }
+
+  // NOTE: Must be done without holding the mutex as `quit()` can call the exit function, which acquires it.
+  for (uint32_t i = 0; i < n; i++)
+    quitting_threads[i]->quit(thread_quit_flags);
 
-  self->pooled_thread_count = pooled_thread_count - n;
   return n;
 }
 
-- 
2.43.0


From b4f89fb48feabf5d6cce92aa039e0c1447bf17c7 Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Fri, 20 Nov 2026 04:40:17 +0000
Subject: [PATCH 124/132] fix: the ifelse operator of a CFF charstring selected
 the wrong operand

"s1 s2 v1 v2 ifelse" leaves s1 if v1 <= v2 and s2 otherwise.
---
 blend2d/opentype/otcff.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blend2d/opentype/otcff.cpp b/blend2d/opentype/otcff.cpp
index b61adf1..44af52f 100644
--- a/blend2d/opentype/otcff.cpp
+++ b/blend2d/opentype/otcff.cpp
@@ -1634,7 +1634,7 @@ OnReturn:
             // s1 s2 v1 v2 ifelse (12 22) out {v1 <= v2 ? s1 : s2}
             case kCSOpIfElse & 0xFFu: {
               BL_ASSERT(v_min_operands >= 4);
-              v_buf[v_idx - 4] = v_buf[v_idx - 4 + size_t(v_buf[v_idx - 2] <= v_buf[v_idx - 1])];
+              v_buf[v_idx - 4] = v_buf[v_idx - 4 + size_t(v_buf[v_idx - 2] > v_buf[v_idx - 1])];
               v_idx -= 3;
               continue;
             }
-- 
2.43.0


From d825d8b3edd2f07b739224883f5469acd54feaf8 Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Fri, 20 Nov 2026 04:40:17 +0000
Subject: [PATCH 125/132] fix: the roll operator of a CFF charstring rotated
 values at the bottom of the stack

"n(N-1)...n0 N J roll" rotates N values at the top of the stack.
---
 blend2d/opentype/otcff.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/blend2d/opentype/otcff.cpp b/blend2d/opentype/otcff.cpp
index 44af52f..c39165b 100644
--- a/blend2d/opentype/otcff.cpp
+++ b/blend2d/opentype/otcff.cpp
@@ -1784,13 +1784,16 @@ OnReturn:
               if (shift == 0)
                 continue;
 
+              // Only `count` values at the top of the stack are rotated.
+              double* values = v_buf + (v_idx - count);
+
               double last = 0;
               uint32_t cur_idx = IntOps::negate(uint32_t(1));
               uint32_t base_idx = cur_idx;
 
               for (uint32_t i = 0; i < count; i++) {
                 if (cur_idx == base_idx) {
-                  last = v_buf[++cur_idx];
+                  last = values[++cur_idx];
                   base_idx = cur_idx;
                 }
 
@@ -1799,7 +1802,7 @@ OnReturn:
                   cur_idx -= count;
                 }
 
-                BLInternal::swap(v_buf[cur_idx], last);
+                BLInternal::swap(values[cur_idx], last);
               }
 
               continue;
-- 
2.43.0


From 8934eaa3027552c7ad071a7457fc58ea3bca218e Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Fri, 20 Nov 2026 04:41:03 +0000
Subject: [PATCH 126/132] fix: the index operator of a CFF charstring copied
 the value after the requested one

"nX...n0 I index" copies n[I], so the top element below I if I is zero.
---
 blend2d/opentype/otcff.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/blend2d/opentype/otcff.cpp b/blend2d/opentype/otcff.cpp
index c39165b..7462bc4 100644
--- a/blend2d/opentype/otcff.cpp
+++ b/blend2d/opentype/otcff.cpp
@@ -1749,10 +1749,10 @@ OnReturn:
                 val_to_push = v_buf[v_idx - 2];
               }
               else {
-                // It will overflow if idx_value is greater than `v_idx - 1`, thus,
+                // It will overflow if idx_value is greater than `v_idx - 2`, thus,
                 // `index_to_read` would become a very large number that would not
                 // pass the condition afterwards.
-                size_t index_to_read = v_idx - 1 - size_t(unsigned(idx_value));
+                size_t index_to_read = v_idx - 2 - size_t(unsigned(idx_value));
                 if (index_to_read < v_idx - 1) {
                   val_to_push = v_buf[index_to_read];
                 }
-- 
2.43.0


From bcc59824f9c8c24afa5cb0a0f276e2506e7b5730 Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Fri, 20 Nov 2026 05:05:42 +0000
Subject: [PATCH 127/132] fix: a deep copy of a pattern kept the extend mode
 and transform type of the destination

---
 blend2d/core/pattern.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blend2d/core/pattern.cpp b/blend2d/core/pattern.cpp
index 71289b2..090863f 100644
--- a/blend2d/core/pattern.cpp
+++ b/blend2d/core/pattern.cpp
@@ -45,7 +45,7 @@ static BL_NOINLINE BLResult make_mutable_copy_of(BLPatternCore* self, const BLPa
   BLPatternPrivateImpl* other_impl = get_impl(other);
 
   BLPatternCore newO;
-  BL_PROPAGATE(alloc_impl(&newO, &other_impl->image, other_impl->area, get_extend_mode(self), &other_impl->transform, get_transform_type(self)));
+  BL_PROPAGATE(alloc_impl(&newO, &other_impl->image, other_impl->area, get_extend_mode(other), &other_impl->transform, get_transform_type(other)));
 
   return replace_instance(self, &newO);
 }
-- 
2.43.0


From fa564803b8ea3cee8575560f815002effa0d613b Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Fri, 20 Nov 2026 05:05:42 +0000
Subject: [PATCH 128/132] fix: bl_var_equals() reported any two doubles as
 equal

---
 blend2d/core/var.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blend2d/core/var.cpp b/blend2d/core/var.cpp
index 8dda62c..c74e3a3 100644
--- a/blend2d/core/var.cpp
+++ b/blend2d/core/var.cpp
@@ -679,7 +679,7 @@ BL_API_IMPL bool bl_var_equals(const BLUnknown* a, const BLUnknown* b) noexcept
       return false;
 
     case BL_OBJECT_TYPE_DOUBLE:
-      return a_d.f64_data[0] == a_d.f64_data[0];
+      return bl_var_equals_double(a, b_d.f64_data[0]);
 
     case BL_OBJECT_TYPE_STRING:
       return bl_string_equals(static_cast<const BLStringCore*>(a), static_cast<const BLStringCore*>(b));
-- 
2.43.0


From 2c243b834c19e6db9058b82001ce16a7405b56ea Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Fri, 20 Nov 2026 05:05:42 +0000
Subject: [PATCH 129/132] fix: bl_var_to_bool() of a string returned the value
 as an error code

---
 blend2d/core/var.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/blend2d/core/var.cpp b/blend2d/core/var.cpp
index c74e3a3..3724809 100644
--- a/blend2d/core/var.cpp
+++ b/blend2d/core/var.cpp
@@ -217,7 +217,8 @@ BL_API_IMPL BLResult bl_var_to_bool(const BLUnknown* self, bool* out) noexcept {
     }
 
     case BL_OBJECT_TYPE_STRING: {
-      return !static_cast<const BLString*>(static_cast<const BLObjectCore*>(self))->is_empty();
+      *out = !static_cast<const BLString*>(static_cast<const BLObjectCore*>(self))->is_empty();
+      return BL_SUCCESS;
     }
 
     default: {
-- 
2.43.0


From 013bdfc0d199a30ebb28c681e6440a48b1efc951 Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Fri, 20 Nov 2026 05:05:42 +0000
Subject: [PATCH 130/132] fix: converting a double of 2^63 or 2^64 held by
 BLVar was not saturated

---
 blend2d/core/var.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/blend2d/core/var.cpp b/blend2d/core/var.cpp
index 3724809..f0fc851 100644
--- a/blend2d/core/var.cpp
+++ b/blend2d/core/var.cpp
@@ -341,7 +341,7 @@ BL_API_IMPL BLResult bl_var_to_int64(const BLUnknown* self, int64_t* out) noexce
         return bl_make_error(BL_ERROR_OVERFLOW);
       }
 
-      if (f > double(INT64_MAX)) {
+      if (f >= double(INT64_MAX)) {
         *out = INT64_MAX;
         return bl_make_error(BL_ERROR_OVERFLOW);
       }
@@ -479,7 +479,7 @@ BL_API_IMPL BLResult bl_var_to_uint64(const BLUnknown* self, uint64_t* out) noex
         return bl_make_error(BL_ERROR_OVERFLOW);
       }
 
-      if (f > double(UINT64_MAX)) {
+      if (f >= double(UINT64_MAX)) {
         *out = UINT64_MAX;
         return bl_make_error(BL_ERROR_OVERFLOW);
       }
-- 
2.43.0


From cab4fbd5c97375346c2030264994b3f28d3d7cbf Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Fri, 20 Nov 2026 05:05:42 +0000
Subject: [PATCH 131/132] fix: BLVar took a colour with a negative alpha for an
 object

---
 blend2d/core/var.h   | 2 +-
 blend2d/core/var_p.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/blend2d/core/var.h b/blend2d/core/var.h
index 83b88e4..34e9765 100644
--- a/blend2d/core/var.h
+++ b/blend2d/core/var.h
@@ -175,7 +175,7 @@ struct VarOps<BLRgba, kTypeCategoryStruct> {
     uint32_t r = bl_bit_cast<uint32_t>(value.r);
     uint32_t g = bl_bit_cast<uint32_t>(value.g);
     uint32_t b = bl_bit_cast<uint32_t>(value.b);
-    uint32_t a = bl_max<uint32_t>(bl_bit_cast<uint32_t>(value.a), 0);
+    uint32_t a = uint32_t(bl_max<int32_t>(bl_bit_cast<int32_t>(value.a), 0));
     self->_d.init_u32x4(r, g, b, a);
   }
 
diff --git a/blend2d/core/var_p.h b/blend2d/core/var_p.h
index 84f17ab..b3664ed 100644
--- a/blend2d/core/var_p.h
+++ b/blend2d/core/var_p.h
@@ -28,7 +28,7 @@ static BL_INLINE BLResult init_rgba(BLObjectCore* self, const BLRgba* rgba) noex
   uint32_t r = bl_bit_cast<uint32_t>(rgba->r);
   uint32_t g = bl_bit_cast<uint32_t>(rgba->g);
   uint32_t b = bl_bit_cast<uint32_t>(rgba->b);
-  uint32_t a = bl_max<uint32_t>(bl_bit_cast<uint32_t>(rgba->a), 0);
+  uint32_t a = uint32_t(bl_max<int32_t>(bl_bit_cast<int32_t>(rgba->a), 0));
 
   self->_d.init_u32x4(r, g, b, a);
   return BL_SUCCESS;
-- 
2.43.0


From bd9e6ea92a291b3cf94ea030df648abf1295496c Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Fri, 20 Nov 2026 05:08:01 +0000
Subject: [PATCH 132/132] fix: type tests of objects accepted every type whose
 bits include those of the tested type

---
 blend2d/core/object.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blend2d/core/object.h b/blend2d/core/object.h
index e5e0be5..cc1bd78 100644
--- a/blend2d/core/object.h
+++ b/blend2d/core/object.h
@@ -504,7 +504,7 @@ struct BLObjectInfo {
 
   //! Tests whether BLObjectInfo describes a valid BLObject of the given `type`.
   BL_INLINE_CONSTEXPR bool check_object_signature_and_raw_type(BLObjectType type) const noexcept {
-    return has_object_signature_and_flags(uint32_t(type) << BL_OBJECT_INFO_TYPE_SHIFT);
+    return has_object_signature_and_flags(BL_OBJECT_INFO_TYPE_MASK, uint32_t(type) << BL_OBJECT_INFO_TYPE_SHIFT);
   }
 
   //! \}
-- 
2.43.0

