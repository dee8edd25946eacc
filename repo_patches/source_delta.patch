From 3de3778eefd222731c2f485bae55aca7dc465e83 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:55 +0000
Subject: [PATCH 01/37] fix: continuation: resume_with() of an lvalue function
 used the wrong tuple type

---
 include/boost/context/continuation_fcontext.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/context/continuation_fcontext.hpp b/include/boost/context/continuation_fcontext.hpp
index 0977e0f..9124672 100644
--- a/include/boost/context/continuation_fcontext.hpp
+++ b/include/boost/context/continuation_fcontext.hpp
@@ -338,7 +338,7 @@ public:
                     std::exchange( fctx_, nullptr),
 #endif
                     & p,
-                    detail::context_ontop< continuation, Fn >).fctx };
+                    detail::context_ontop< continuation, typename std::decay< Fn >::type >).fctx };
     }
 
     explicit operator bool() const noexcept {
-- 
2.43.0


From d3bccdb3250ed61035e10b870767d2673c4890e7 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:55 +0000
Subject: [PATCH 02/37] fix: ucontext: function passed to resume_with() could
 be executed more than once

---
 include/boost/context/continuation_ucontext.hpp | 10 ++++++++--
 include/boost/context/fiber_ucontext.hpp        | 10 ++++++++--
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/include/boost/context/continuation_ucontext.hpp b/include/boost/context/continuation_ucontext.hpp
index 09fd311..d4d47b4 100644
--- a/include/boost/context/continuation_ucontext.hpp
+++ b/include/boost/context/continuation_ucontext.hpp
@@ -436,8 +436,11 @@ public:
         if ( BOOST_UNLIKELY( detail::activation_record::current()->force_unwind) ) {
             throw detail::forced_unwind{ ptr};
         } else if ( BOOST_UNLIKELY( nullptr != detail::activation_record::current()->ontop) ) {
-            ptr = detail::activation_record::current()->ontop( ptr);
+            // the function is taken from the record before it is executed:
+            // it might throw, or switch to another context
+            auto ontop = std::move( detail::activation_record::current()->ontop);
             detail::activation_record::current()->ontop = nullptr;
+            ptr = ontop( ptr);
         }
         return { ptr };
     }
@@ -459,8 +462,11 @@ public:
         if ( BOOST_UNLIKELY( detail::activation_record::current()->force_unwind) ) {
             throw detail::forced_unwind{ ptr};
         } else if ( BOOST_UNLIKELY( nullptr != detail::activation_record::current()->ontop) ) {
-            ptr = detail::activation_record::current()->ontop( ptr);
+            // the function is taken from the record before it is executed:
+            // it might throw, or switch to another context
+            auto ontop = std::move( detail::activation_record::current()->ontop);
             detail::activation_record::current()->ontop = nullptr;
+            ptr = ontop( ptr);
         }
         return { ptr };
     }
diff --git a/include/boost/context/fiber_ucontext.hpp b/include/boost/context/fiber_ucontext.hpp
index 927a139..970b863 100644
--- a/include/boost/context/fiber_ucontext.hpp
+++ b/include/boost/context/fiber_ucontext.hpp
@@ -490,8 +490,11 @@ public:
         if ( BOOST_UNLIKELY( detail::fiber_activation_record::current()->force_unwind) ) {
             throw detail::forced_unwind{ ptr};
         } else if ( BOOST_UNLIKELY( nullptr != detail::fiber_activation_record::current()->ontop) ) {
-            ptr = detail::fiber_activation_record::current()->ontop( ptr);
+            // the function is taken from the record before it is executed:
+            // it might throw, or switch to another context
+            auto ontop = std::move( detail::fiber_activation_record::current()->ontop);
             detail::fiber_activation_record::current()->ontop = nullptr;
+            ptr = ontop( ptr);
         }
         return { ptr };
     }
@@ -509,8 +512,11 @@ public:
         if ( BOOST_UNLIKELY( detail::fiber_activation_record::current()->force_unwind) ) {
             throw detail::forced_unwind{ ptr};
         } else if ( BOOST_UNLIKELY( nullptr != detail::fiber_activation_record::current()->ontop) ) {
-            ptr = detail::fiber_activation_record::current()->ontop( ptr);
+            // the function is taken from the record before it is executed:
+            // it might throw, or switch to another context
+            auto ontop = std::move( detail::fiber_activation_record::current()->ontop);
             detail::fiber_activation_record::current()->ontop = nullptr;
+            ptr = ontop( ptr);
         }
         return { ptr };
     }
-- 
2.43.0


From 4c8a06328dff3edb23514e4f955d79b1e90fb19c Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:55 +0000
Subject: [PATCH 03/37] fix: ucontext: switching contexts while a stack is
 unwound terminated the program

---
 include/boost/context/continuation_ucontext.hpp | 4 ++++
 include/boost/context/fiber_ucontext.hpp        | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/include/boost/context/continuation_ucontext.hpp b/include/boost/context/continuation_ucontext.hpp
index d4d47b4..3a52b59 100644
--- a/include/boost/context/continuation_ucontext.hpp
+++ b/include/boost/context/continuation_ucontext.hpp
@@ -434,6 +434,8 @@ public:
         detail::activation_record * ptr = std::exchange( ptr_, nullptr)->resume();
 #endif
         if ( BOOST_UNLIKELY( detail::activation_record::current()->force_unwind) ) {
+            // destructors executed by the unwinding might switch contexts
+            detail::activation_record::current()->force_unwind = false;
             throw detail::forced_unwind{ ptr};
         } else if ( BOOST_UNLIKELY( nullptr != detail::activation_record::current()->ontop) ) {
             // the function is taken from the record before it is executed:
@@ -460,6 +462,8 @@ public:
             std::exchange( ptr_, nullptr)->resume_with< continuation >( std::forward< Fn >( fn) );
 #endif
         if ( BOOST_UNLIKELY( detail::activation_record::current()->force_unwind) ) {
+            // destructors executed by the unwinding might switch contexts
+            detail::activation_record::current()->force_unwind = false;
             throw detail::forced_unwind{ ptr};
         } else if ( BOOST_UNLIKELY( nullptr != detail::activation_record::current()->ontop) ) {
             // the function is taken from the record before it is executed:
diff --git a/include/boost/context/fiber_ucontext.hpp b/include/boost/context/fiber_ucontext.hpp
index 970b863..2262820 100644
--- a/include/boost/context/fiber_ucontext.hpp
+++ b/include/boost/context/fiber_ucontext.hpp
@@ -488,6 +488,8 @@ public:
         detail::fiber_activation_record * ptr = std::exchange( ptr_, nullptr)->resume();
 #endif
         if ( BOOST_UNLIKELY( detail::fiber_activation_record::current()->force_unwind) ) {
+            // destructors executed by the unwinding might switch contexts
+            detail::fiber_activation_record::current()->force_unwind = false;
             throw detail::forced_unwind{ ptr};
         } else if ( BOOST_UNLIKELY( nullptr != detail::fiber_activation_record::current()->ontop) ) {
             // the function is taken from the record before it is executed:
@@ -510,6 +512,8 @@ public:
             std::exchange( ptr_, nullptr)->resume_with< fiber >( std::forward< Fn >( fn) );
 #endif
         if ( BOOST_UNLIKELY( detail::fiber_activation_record::current()->force_unwind) ) {
+            // destructors executed by the unwinding might switch contexts
+            detail::fiber_activation_record::current()->force_unwind = false;
             throw detail::forced_unwind{ ptr};
         } else if ( BOOST_UNLIKELY( nullptr != detail::fiber_activation_record::current()->ontop) ) {
             // the function is taken from the record before it is executed:
-- 
2.43.0


From 59160ac8d8e8a92858dab897d187ed74d02c5a84 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:55 +0000
Subject: [PATCH 04/37] fix: ucontext: destroying or resume_with() of a context
 that was not started

---
 include/boost/context/continuation_ucontext.hpp | 13 ++++++++++++-
 include/boost/context/fiber_ucontext.hpp        | 13 ++++++++++++-
 2 files changed, 24 insertions(+), 2 deletions(-)

diff --git a/include/boost/context/continuation_ucontext.hpp b/include/boost/context/continuation_ucontext.hpp
index 3a52b59..e8dd4ac 100644
--- a/include/boost/context/continuation_ucontext.hpp
+++ b/include/boost/context/continuation_ucontext.hpp
@@ -257,8 +257,19 @@ public:
                                          (const void **) & from->stack_bottom,
                                          & from->stack_size);
 #endif
-        Ctx c{ from };
+        Ctx c;
         try {
+            activation_record * ptr = from;
+            if ( BOOST_UNLIKELY( force_unwind) ) {
+                // destroyed without having been started
+                throw forced_unwind{ ptr};
+            } else if ( BOOST_UNLIKELY( nullptr != ontop) ) {
+                // started by resume_with()
+                auto fn = std::move( ontop);
+                ontop = nullptr;
+                ptr = fn( ptr);
+            }
+            c = Ctx{ ptr };
             // invoke context-function
 #if defined(BOOST_NO_CXX17_STD_INVOKE)
             c = boost::context::detail::invoke( fn_, std::move( c) );
diff --git a/include/boost/context/fiber_ucontext.hpp b/include/boost/context/fiber_ucontext.hpp
index 2262820..15e4135 100644
--- a/include/boost/context/fiber_ucontext.hpp
+++ b/include/boost/context/fiber_ucontext.hpp
@@ -282,8 +282,19 @@ public:
                                          (const void **) & from->stack_bottom,
                                          & from->stack_size);
 #endif
-        Ctx c{ from };
+        Ctx c;
         try {
+            fiber_activation_record * ptr = from;
+            if ( BOOST_UNLIKELY( force_unwind) ) {
+                // destroyed without having been started
+                throw forced_unwind{ ptr};
+            } else if ( BOOST_UNLIKELY( nullptr != ontop) ) {
+                // started by resume_with()
+                auto fn = std::move( ontop);
+                ontop = nullptr;
+                ptr = fn( ptr);
+            }
+            c = Ctx{ ptr };
             // invoke context-function
 #if defined(BOOST_NO_CXX17_STD_INVOKE)
             c = boost::context::detail::invoke( fn_, std::move( c) );
-- 
2.43.0


From 7bdef1e53b2ffbe7470c2b9958d58a6572fce68e Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:55 +0000
Subject: [PATCH 05/37] fix: ucontext: resume_with() rejected functions with a
 non-const call operator

---
 include/boost/context/continuation_ucontext.hpp | 2 +-
 include/boost/context/fiber_ucontext.hpp        | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/context/continuation_ucontext.hpp b/include/boost/context/continuation_ucontext.hpp
index e8dd4ac..57a22c9 100644
--- a/include/boost/context/continuation_ucontext.hpp
+++ b/include/boost/context/continuation_ucontext.hpp
@@ -172,7 +172,7 @@ struct BOOST_CONTEXT_DECL activation_record {
                 std::forward< Fn >( fn),
                 std::placeholders::_1);
 #else
-        current()->ontop = [fn=std::forward<Fn>(fn)](activation_record *& ptr){
+        current()->ontop = [fn=std::forward<Fn>(fn)](activation_record *& ptr) mutable {
             Ctx c{ ptr };
             c = fn( std::move( c) );
             if ( ! c) {
diff --git a/include/boost/context/fiber_ucontext.hpp b/include/boost/context/fiber_ucontext.hpp
index 15e4135..599cfa0 100644
--- a/include/boost/context/fiber_ucontext.hpp
+++ b/include/boost/context/fiber_ucontext.hpp
@@ -194,7 +194,7 @@ struct BOOST_CONTEXT_DECL fiber_activation_record {
                 std::forward< Fn >( fn),
                 std::placeholders::_1);
 #else
-        current()->ontop = [fn=std::forward<Fn>(fn)](fiber_activation_record *& ptr){
+        current()->ontop = [fn=std::forward<Fn>(fn)](fiber_activation_record *& ptr) mutable {
             Ctx c{ ptr };
             c = fn( std::move( c) );
             if ( ! c) {
-- 
2.43.0


From 738a276b45eb09efab04ce45be8d6644d3bc6e17 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:56 +0000
Subject: [PATCH 06/37] fix: ucontext: failing getcontext() released the stack
 through a moved-from allocator

---
 .../boost/context/continuation_ucontext.hpp    | 16 ++++++++++------
 include/boost/context/fiber_ucontext.hpp       | 18 +++++++++++-------
 2 files changed, 21 insertions(+), 13 deletions(-)

diff --git a/include/boost/context/continuation_ucontext.hpp b/include/boost/context/continuation_ucontext.hpp
index 57a22c9..5f9c2cc 100644
--- a/include/boost/context/continuation_ucontext.hpp
+++ b/include/boost/context/continuation_ucontext.hpp
@@ -306,10 +306,12 @@ static activation_record * create_context1( StackAlloc && salloc, Fn && fn) {
             reinterpret_cast< uintptr_t >( sctx.sp) - static_cast< uintptr_t >( sctx.size) );
     // create user-context
     if ( BOOST_UNLIKELY( 0 != ::getcontext( & record->uctx) ) ) {
-        record->~capture_t();
-        salloc.deallocate( sctx);
+        const int err = errno;
+        // the record owns the stack allocator: `salloc` might have been moved from
+        record->terminated = true;
+        record->deallocate();
         throw std::system_error(
-                std::error_code( errno, std::system_category() ),
+                std::error_code( err, std::system_category() ),
                 "getcontext() failed");
     }
     record->uctx.uc_stack.ss_sp = stack_bottom;
@@ -349,10 +351,12 @@ static activation_record * create_context2( preallocated palloc, StackAlloc && s
             reinterpret_cast< uintptr_t >( palloc.sctx.sp) - static_cast< uintptr_t >( palloc.sctx.size) );
     // create user-context
     if ( BOOST_UNLIKELY( 0 != ::getcontext( & record->uctx) ) ) {
-        record->~capture_t();
-        salloc.deallocate( palloc.sctx);
+        const int err = errno;
+        // the record owns the stack allocator: `salloc` might have been moved from
+        record->terminated = true;
+        record->deallocate();
         throw std::system_error(
-                std::error_code( errno, std::system_category() ),
+                std::error_code( err, std::system_category() ),
                 "getcontext() failed");
     }
     record->uctx.uc_stack.ss_sp = stack_bottom;
diff --git a/include/boost/context/fiber_ucontext.hpp b/include/boost/context/fiber_ucontext.hpp
index 599cfa0..9b2ea59 100644
--- a/include/boost/context/fiber_ucontext.hpp
+++ b/include/boost/context/fiber_ucontext.hpp
@@ -124,7 +124,7 @@ struct BOOST_CONTEXT_DECL fiber_activation_record {
 
     virtual ~fiber_activation_record() {
 #if defined(BOOST_USE_TSAN)
-        if (destroy_tsan_fiber)
+        if (destroy_tsan_fiber && nullptr != tsan_fiber)
             __tsan_destroy_fiber(tsan_fiber);
 #endif
 	}
@@ -331,10 +331,12 @@ static fiber_activation_record * create_fiber1( StackAlloc && salloc, Fn && fn)
             reinterpret_cast< uintptr_t >( sctx.sp) - static_cast< uintptr_t >( sctx.size) );
     // create user-context
     if ( BOOST_UNLIKELY( 0 != ::getcontext( & record->uctx) ) ) {
-        record->~capture_t();
-        salloc.deallocate( sctx);
+        const int err = errno;
+        // the record owns the stack allocator: `salloc` might have been moved from
+        record->terminated = true;
+        record->deallocate();
         throw std::system_error(
-                std::error_code( errno, std::system_category() ),
+                std::error_code( err, std::system_category() ),
                 "getcontext() failed");
     }
 #if BOOST_OS_BSD_FREE
@@ -382,10 +384,12 @@ static fiber_activation_record * create_fiber2( preallocated palloc, StackAlloc
             reinterpret_cast< uintptr_t >( palloc.sctx.sp) - static_cast< uintptr_t >( palloc.sctx.size) );
     // create user-context
     if ( BOOST_UNLIKELY( 0 != ::getcontext( & record->uctx) ) ) {
-        record->~capture_t();
-        salloc.deallocate( palloc.sctx);
+        const int err = errno;
+        // the record owns the stack allocator: `salloc` might have been moved from
+        record->terminated = true;
+        record->deallocate();
         throw std::system_error(
-                std::error_code( errno, std::system_category() ),
+                std::error_code( err, std::system_category() ),
                 "getcontext() failed");
     }
 #if BOOST_OS_BSD_FREE
-- 
2.43.0


From 3acb8f595de84b2c13bddaebd0463d5703599c96 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:15 +0000
Subject: [PATCH 07/37] fix: x86_64 sysv: make_fcontext() stored the stack
 guard in the frame of its caller

---
 src/asm/make_x86_64_sysv_elf_gas.S | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/asm/make_x86_64_sysv_elf_gas.S b/src/asm/make_x86_64_sysv_elf_gas.S
index 7561c08..9336210 100644
--- a/src/asm/make_x86_64_sysv_elf_gas.S
+++ b/src/asm/make_x86_64_sysv_elf_gas.S
@@ -77,7 +77,7 @@ make_fcontext:
 #if defined(BOOST_CONTEXT_TLS_STACK_PROTECTOR)
     /* save stack guard */
     movq  %fs:0x28, %rcx    /* read stack guard from TLS record */
-    movq  %rcx, 0x8(%rsp)   /* save stack guard */
+    movq  %rcx, 0x8(%rax)   /* save stack guard */
 #endif
 
     /* compute abs address of label trampoline */
-- 
2.43.0


From b0d12bd094e414c0afc33411634465e1f8e139bd Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:15 +0000
Subject: [PATCH 08/37] fix: protected_fixedsize_stack: failing mprotect() left
 the stack without guard page

---
 include/boost/context/posix/protected_fixedsize_stack.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/boost/context/posix/protected_fixedsize_stack.hpp b/include/boost/context/posix/protected_fixedsize_stack.hpp
index cc77d7d..23027fe 100644
--- a/include/boost/context/posix/protected_fixedsize_stack.hpp
+++ b/include/boost/context/posix/protected_fixedsize_stack.hpp
@@ -65,9 +65,10 @@ public:
         if ( MAP_FAILED == vp) throw std::bad_alloc();
 
         // conforming to POSIX.1-2001
-        const int result( ::mprotect( vp, traits_type::page_size(), PROT_NONE) );
-        boost::ignore_unused(result);
-        BOOST_ASSERT( 0 == result);
+        if ( 0 != ::mprotect( vp, traits_type::page_size(), PROT_NONE) ) {
+            ::munmap( vp, size__);
+            throw std::bad_alloc();
+        }
 
         stack_context sctx;
         sctx.size = size__;
-- 
2.43.0


From 7f38e7a9182442741ca83b2700b93c7247f4539a Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:15 +0000
Subject: [PATCH 09/37] fix: protected_fixedsize_stack: huge size wrapped
 around to a stack of one guard page

---
 include/boost/context/posix/protected_fixedsize_stack.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/boost/context/posix/protected_fixedsize_stack.hpp b/include/boost/context/posix/protected_fixedsize_stack.hpp
index 23027fe..a7302d4 100644
--- a/include/boost/context/posix/protected_fixedsize_stack.hpp
+++ b/include/boost/context/posix/protected_fixedsize_stack.hpp
@@ -54,6 +54,8 @@ public:
         const std::size_t pages = (size_ + traits_type::page_size() - 1) / traits_type::page_size();
         // add one page at bottom that will be used as guard-page
         const std::size_t size__ = ( pages + 1) * traits_type::page_size();
+        // too large to be represented
+        if ( size__ < size_) throw std::bad_alloc();
 
 #if defined(BOOST_CONTEXT_USE_MAP_STACK)
         void * vp = ::mmap( 0, size__, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANON | MAP_STACK, -1, 0);
-- 
2.43.0


From 5dbf2d61b1e591234e133499ec7053421205db91 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:15 +0000
Subject: [PATCH 10/37] fix: pooled_fixedsize_stack: MAP_STACK pool overwrote
 neighbouring heap memory

---
 include/boost/context/pooled_fixedsize_stack.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/boost/context/pooled_fixedsize_stack.hpp b/include/boost/context/pooled_fixedsize_stack.hpp
index c115c86..f92777f 100644
--- a/include/boost/context/pooled_fixedsize_stack.hpp
+++ b/include/boost/context/pooled_fixedsize_stack.hpp
@@ -48,10 +48,12 @@ struct map_stack_allocator {
 
     static char * malloc( const size_type bytes) {
         void * block;
-        if ( ::posix_memalign( &block, traitsT::page_size(), bytes) != 0) {
+        // mmap() replaces whole pages
+        const size_type size = ( bytes + traitsT::page_size() - 1) & ~ ( traitsT::page_size() - 1);
+        if ( ::posix_memalign( &block, traitsT::page_size(), size) != 0) {
             return 0;
         }
-        if ( mmap( block, bytes, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANON | MAP_FIXED | MAP_STACK, -1, 0) == MAP_FAILED) {
+        if ( mmap( block, size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANON | MAP_FIXED | MAP_STACK, -1, 0) == MAP_FAILED) {
             std::free( block);
             return 0;
         }
-- 
2.43.0


From 38e5109b29b0b9d13602f4c9c90f094271495a0d Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:15 +0000
Subject: [PATCH 11/37] fix: ucontext: fake stack of a terminated context was
 not released with ASan

---
 include/boost/context/continuation_ucontext.hpp | 2 +-
 include/boost/context/fiber_ucontext.hpp        | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/context/continuation_ucontext.hpp b/include/boost/context/continuation_ucontext.hpp
index 5f9c2cc..7b34783 100644
--- a/include/boost/context/continuation_ucontext.hpp
+++ b/include/boost/context/continuation_ucontext.hpp
@@ -128,7 +128,7 @@ struct BOOST_CONTEXT_DECL activation_record {
         __splitstack_setcontext( sctx.segments_ctx);
 #endif
 #if defined(BOOST_USE_ASAN)
-        if ( terminated) {
+        if ( from->terminated) {
             __sanitizer_start_switch_fiber( nullptr, stack_bottom, stack_size);
         } else {
             __sanitizer_start_switch_fiber( & from->fake_stack, stack_bottom, stack_size);
diff --git a/include/boost/context/fiber_ucontext.hpp b/include/boost/context/fiber_ucontext.hpp
index 9b2ea59..9297389 100644
--- a/include/boost/context/fiber_ucontext.hpp
+++ b/include/boost/context/fiber_ucontext.hpp
@@ -147,7 +147,7 @@ struct BOOST_CONTEXT_DECL fiber_activation_record {
         __splitstack_setcontext( sctx.segments_ctx);
 #endif
 #if defined(BOOST_USE_ASAN)
-        if ( terminated) {
+        if ( from->terminated) {
             __sanitizer_start_switch_fiber( nullptr, stack_bottom, stack_size);
         } else {
             __sanitizer_start_switch_fiber( & from->fake_stack, stack_bottom, stack_size);
-- 
2.43.0


From b4159ef1aa263749ddd585e737f06b89f975e58d Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:40 +0000
Subject: [PATCH 12/37] fix: segmented_stack returned less than requested for
 sizes libgcc truncates

---
 include/boost/context/posix/segmented_stack.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/boost/context/posix/segmented_stack.hpp b/include/boost/context/posix/segmented_stack.hpp
index e3d2efc..e21e977 100644
--- a/include/boost/context/posix/segmented_stack.hpp
+++ b/include/boost/context/posix/segmented_stack.hpp
@@ -53,6 +53,11 @@ public:
         stack_context sctx;
         void * vp = __splitstack_makecontext( size_, sctx.segments_ctx, & sctx.size);
         if ( ! vp) throw std::bad_alloc();
+        // libgcc truncates sizes it can not represent
+        if ( sctx.size < size_) {
+            __splitstack_releasecontext( sctx.segments_ctx);
+            throw std::bad_alloc();
+        }
 
         // sctx.size is already filled by __splitstack_makecontext
         sctx.sp = static_cast< char * >( vp) + sctx.size;
-- 
2.43.0


From 9ef02fdf926c4cecc8c8eae3e00d5533c0f1552c Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:48 +0000
Subject: [PATCH 13/37] fix: ucontext: resume_with() corrupted the running
 context if copying the function threw

The function is stored before anything is changed: if that throws, the handle
still refers to the suspended context and the caller remains the running one.
---
 .../boost/context/continuation_ucontext.hpp   | 25 +++++++++++--------
 include/boost/context/fiber_ucontext.hpp      | 25 +++++++++++--------
 2 files changed, 30 insertions(+), 20 deletions(-)

diff --git a/include/boost/context/continuation_ucontext.hpp b/include/boost/context/continuation_ucontext.hpp
index 7b34783..73540be 100644
--- a/include/boost/context/continuation_ucontext.hpp
+++ b/include/boost/context/continuation_ucontext.hpp
@@ -148,15 +148,11 @@ struct BOOST_CONTEXT_DECL activation_record {
 #endif
     }
 
+    // might throw: nothing was changed then
     template< typename Ctx, typename Fn >
-    activation_record * resume_with( Fn && fn) {
-		from = current();
-        // store `this` in static, thread local pointer
-        // `this` will become the active (running) context
-        // returned by continuation::current()
-        current() = this;
+    void set_ontop( Fn && fn) {
 #if defined(BOOST_NO_CXX14_GENERIC_LAMBDAS)
-        current()->ontop = std::bind(
+        ontop = std::bind(
                 [](typename std::decay< Fn >::type & fn, activation_record *& ptr){
                     Ctx c{ ptr };
                     c = fn( std::move( c) );
@@ -172,7 +168,7 @@ struct BOOST_CONTEXT_DECL activation_record {
                 std::forward< Fn >( fn),
                 std::placeholders::_1);
 #else
-        current()->ontop = [fn=std::forward<Fn>(fn)](activation_record *& ptr) mutable {
+        ontop = [fn=std::forward<Fn>(fn)](activation_record *& ptr) mutable {
             Ctx c{ ptr };
             c = fn( std::move( c) );
             if ( ! c) {
@@ -185,6 +181,14 @@ struct BOOST_CONTEXT_DECL activation_record {
 #endif
         };
 #endif
+    }
+
+    activation_record * resume_with() {
+		from = current();
+        // store `this` in static, thread local pointer
+        // `this` will become the active (running) context
+        // returned by continuation::current()
+        current() = this;
 #if defined(BOOST_USE_SEGMENTED_STACKS)
         // adjust segmented stack properties
         __splitstack_getcontext( from->sctx.segments_ctx);
@@ -469,12 +473,13 @@ public:
 
     template< typename Fn >
     continuation resume_with( Fn && fn) && {
+        ptr_->set_ontop< continuation >( std::forward< Fn >( fn) );
 #if defined(BOOST_NO_CXX14_STD_EXCHANGE)
         detail::activation_record * ptr =
-            detail::exchange( ptr_, nullptr)->resume_with< continuation >( std::forward< Fn >( fn) );
+            detail::exchange( ptr_, nullptr)->resume_with();
 #else
         detail::activation_record * ptr =
-            std::exchange( ptr_, nullptr)->resume_with< continuation >( std::forward< Fn >( fn) );
+            std::exchange( ptr_, nullptr)->resume_with();
 #endif
         if ( BOOST_UNLIKELY( detail::activation_record::current()->force_unwind) ) {
             // destructors executed by the unwinding might switch contexts
diff --git a/include/boost/context/fiber_ucontext.hpp b/include/boost/context/fiber_ucontext.hpp
index 9297389..0ddf975 100644
--- a/include/boost/context/fiber_ucontext.hpp
+++ b/include/boost/context/fiber_ucontext.hpp
@@ -170,15 +170,11 @@ struct BOOST_CONTEXT_DECL fiber_activation_record {
 #endif
     }
 
+    // might throw: nothing was changed then
     template< typename Ctx, typename Fn >
-    fiber_activation_record * resume_with( Fn && fn) {
-		from = current();
-        // store `this` in static, thread local pointer
-        // `this` will become the active (running) context
-        // returned by fiber::current()
-        current() = this;
+    void set_ontop( Fn && fn) {
 #if defined(BOOST_NO_CXX14_GENERIC_LAMBDAS)
-        current()->ontop = std::bind(
+        ontop = std::bind(
                 [](typename std::decay< Fn >::type & fn, fiber_activation_record *& ptr){
                     Ctx c{ ptr };
                     c = fn( std::move( c) );
@@ -194,7 +190,7 @@ struct BOOST_CONTEXT_DECL fiber_activation_record {
                 std::forward< Fn >( fn),
                 std::placeholders::_1);
 #else
-        current()->ontop = [fn=std::forward<Fn>(fn)](fiber_activation_record *& ptr) mutable {
+        ontop = [fn=std::forward<Fn>(fn)](fiber_activation_record *& ptr) mutable {
             Ctx c{ ptr };
             c = fn( std::move( c) );
             if ( ! c) {
@@ -207,6 +203,14 @@ struct BOOST_CONTEXT_DECL fiber_activation_record {
 #endif
         };
 #endif
+    }
+
+    fiber_activation_record * resume_with() {
+		from = current();
+        // store `this` in static, thread local pointer
+        // `this` will become the active (running) context
+        // returned by fiber::current()
+        current() = this;
 #if defined(BOOST_USE_SEGMENTED_STACKS)
         // adjust segmented stack properties
         __splitstack_getcontext( from->sctx.segments_ctx);
@@ -519,12 +523,13 @@ public:
     template< typename Fn >
     fiber resume_with( Fn && fn) && {
         BOOST_ASSERT( nullptr != ptr_);
+        ptr_->set_ontop< fiber >( std::forward< Fn >( fn) );
 #if defined(BOOST_NO_CXX14_STD_EXCHANGE)
         detail::fiber_activation_record * ptr =
-            detail::exchange( ptr_, nullptr)->resume_with< fiber >( std::forward< Fn >( fn) );
+            detail::exchange( ptr_, nullptr)->resume_with();
 #else
         detail::fiber_activation_record * ptr =
-            std::exchange( ptr_, nullptr)->resume_with< fiber >( std::forward< Fn >( fn) );
+            std::exchange( ptr_, nullptr)->resume_with();
 #endif
         if ( BOOST_UNLIKELY( detail::fiber_activation_record::current()->force_unwind) ) {
             // destructors executed by the unwinding might switch contexts
-- 
2.43.0


From db02d00e5b2b9f049985bf9b147a6931398e2fe4 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:47 +0000
Subject: [PATCH 14/37] fix: ucontext: use after free and invalid delete when a
 thread or the process ends

The record of a thread's main context was deleted by a thread-local destructor,
but contexts can be destroyed or resumed afterwards (by objects with static or
thread storage duration); and if exit() was called by a context, the record of
that context, which lives on its stack, was deleted instead.
---
 src/continuation.cpp | 10 ++++++++--
 src/fiber.cpp        | 10 ++++++++--
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/continuation.cpp b/src/continuation.cpp
index 2d77696..c1f90e5 100644
--- a/src/continuation.cpp
+++ b/src/continuation.cpp
@@ -32,9 +32,10 @@ activation_record_initializer::activation_record_initializer() noexcept {
 }
 
 activation_record_initializer::~activation_record_initializer() {
-    if ( 0 == --counter) {
-        BOOST_ASSERT( current_rec->is_main_context() );
+    // exit() might have been called by a context: its record lives on its stack
+    if ( 0 == --counter && current_rec->is_main_context() ) {
         delete current_rec;
+        current_rec = nullptr;
     }
 }
 
@@ -46,6 +47,11 @@ activation_record *&
 activation_record::current() noexcept {
     // initialized the first time control passes; per thread
     thread_local static activation_record_initializer initializer;
+    if ( BOOST_UNLIKELY( nullptr == current_rec) ) {
+        // used by the destructor of an object with static or thread storage
+        // duration that is destroyed after `initializer`
+        current_rec = new activation_record();
+    }
     return current_rec;
 }
 
diff --git a/src/fiber.cpp b/src/fiber.cpp
index b6b790d..89ecc41 100644
--- a/src/fiber.cpp
+++ b/src/fiber.cpp
@@ -32,9 +32,10 @@ fiber_activation_record_initializer::fiber_activation_record_initializer() noexc
 }
 
 fiber_activation_record_initializer::~fiber_activation_record_initializer() {
-    if ( 0 == --counter) {
-        BOOST_ASSERT( fib_current_rec->is_main_context() );
+    // exit() might have been called by a context: its record lives on its stack
+    if ( 0 == --counter && fib_current_rec->is_main_context() ) {
         delete fib_current_rec;
+        fib_current_rec = nullptr;
     }
 }
 
@@ -46,6 +47,11 @@ fiber_activation_record *&
 fiber_activation_record::current() noexcept {
     // initialized the first time control passes; per thread
     thread_local static fiber_activation_record_initializer initializer;
+    if ( BOOST_UNLIKELY( nullptr == fib_current_rec) ) {
+        // used by the destructor of an object with static or thread storage
+        // duration that is destroyed after `initializer`
+        fib_current_rec = new fiber_activation_record();
+    }
     return fib_current_rec;
 }
 
-- 
2.43.0


From f79af21e9dd47f6cbfd44a75fcfdeec0841bb039 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:04 +0000
Subject: [PATCH 15/37] fix: ucontext: current() inlined by LTO kept the
 thread-local address across a switch

With link-time optimization the compiler could inline current() into resume() and keep the address of the thread-local variable across the switch. A context resumed by another thread then read and wrote the record of the thread it had left.
---
 src/continuation.cpp | 3 +++
 src/fiber.cpp        | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/continuation.cpp b/src/continuation.cpp
index c1f90e5..e67f31b 100644
--- a/src/continuation.cpp
+++ b/src/continuation.cpp
@@ -43,6 +43,9 @@ activation_record_initializer::~activation_record_initializer() {
 
 namespace detail {
 
+// not inlined: the address of a thread-local variable must not be kept across a
+// context switch, the context might be resumed by another thread
+BOOST_NOINLINE
 activation_record *&
 activation_record::current() noexcept {
     // initialized the first time control passes; per thread
diff --git a/src/fiber.cpp b/src/fiber.cpp
index 89ecc41..b42b1d7 100644
--- a/src/fiber.cpp
+++ b/src/fiber.cpp
@@ -43,6 +43,9 @@ fiber_activation_record_initializer::~fiber_activation_record_initializer() {
 
 namespace detail {
 
+// not inlined: the address of a thread-local variable must not be kept across a
+// context switch, the context might be resumed by another thread
+BOOST_NOINLINE
 fiber_activation_record *&
 fiber_activation_record::current() noexcept {
     // initialized the first time control passes; per thread
-- 
2.43.0


From f482a1c76cc2e503ed4221576a35d6f0fd07d628 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:09 +0000
Subject: [PATCH 16/37] fix: winfib: resume_with() rejected functions with a
 non-const call operator

The lambda that stores the function is mutable now, as in the ucontext implementation.
---
 include/boost/context/continuation_winfib.hpp | 2 +-
 include/boost/context/fiber_winfib.hpp        | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/context/continuation_winfib.hpp b/include/boost/context/continuation_winfib.hpp
index 856c868..e827477 100644
--- a/include/boost/context/continuation_winfib.hpp
+++ b/include/boost/context/continuation_winfib.hpp
@@ -153,7 +153,7 @@ struct BOOST_CONTEXT_DECL activation_record {
                 std::forward< Fn >( fn),
                 std::placeholders::_1);
 #else
-        current()->ontop = [fn=std::forward<Fn>(fn)](activation_record *& ptr){
+        current()->ontop = [fn=std::forward<Fn>(fn)](activation_record *& ptr) mutable {
             Ctx c{ ptr };
             c = fn( std::move( c) );
             if ( ! c) {
diff --git a/include/boost/context/fiber_winfib.hpp b/include/boost/context/fiber_winfib.hpp
index cd496d1..78dcbe1 100644
--- a/include/boost/context/fiber_winfib.hpp
+++ b/include/boost/context/fiber_winfib.hpp
@@ -152,7 +152,7 @@ struct BOOST_CONTEXT_DECL fiber_activation_record {
                 std::forward< Fn >( fn),
                 std::placeholders::_1);
 #else
-        current()->ontop = [fn=std::forward<Fn>(fn)](fiber_activation_record *& ptr){
+        current()->ontop = [fn=std::forward<Fn>(fn)](fiber_activation_record *& ptr) mutable {
             Ctx c{ ptr };
             c = fn( std::move( c) );
             if ( ! c) {
-- 
2.43.0


From 6d512cf50bcbb70b7fc7de19c07870de96e5d87f Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:09 +0000
Subject: [PATCH 17/37] fix: winfib: function passed to resume_with() could be
 executed more than once

It stayed in the record while it was executed: executed again if it threw or
switched to another context.
---
 include/boost/context/continuation_winfib.hpp | 10 ++++++++--
 include/boost/context/fiber_winfib.hpp        | 10 ++++++++--
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/include/boost/context/continuation_winfib.hpp b/include/boost/context/continuation_winfib.hpp
index e827477..bc817aa 100644
--- a/include/boost/context/continuation_winfib.hpp
+++ b/include/boost/context/continuation_winfib.hpp
@@ -347,8 +347,11 @@ public:
         if ( BOOST_UNLIKELY( detail::activation_record::current()->force_unwind) ) {
             throw detail::forced_unwind{ ptr};
         } else if ( BOOST_UNLIKELY( nullptr != detail::activation_record::current()->ontop) ) {
-            ptr = detail::activation_record::current()->ontop( ptr);
+            // the function is taken from the record before it is executed:
+            // it might throw, or switch to another context
+            auto ontop = std::move( detail::activation_record::current()->ontop);
             detail::activation_record::current()->ontop = nullptr;
+            ptr = ontop( ptr);
         }
         return { ptr };
     }
@@ -370,8 +373,11 @@ public:
         if ( BOOST_UNLIKELY( detail::activation_record::current()->force_unwind) ) {
             throw detail::forced_unwind{ ptr};
         } else if ( BOOST_UNLIKELY( nullptr != detail::activation_record::current()->ontop) ) {
-            ptr = detail::activation_record::current()->ontop( ptr);
+            // the function is taken from the record before it is executed:
+            // it might throw, or switch to another context
+            auto ontop = std::move( detail::activation_record::current()->ontop);
             detail::activation_record::current()->ontop = nullptr;
+            ptr = ontop( ptr);
         }
         return { ptr };
     }
diff --git a/include/boost/context/fiber_winfib.hpp b/include/boost/context/fiber_winfib.hpp
index 78dcbe1..18d84dd 100644
--- a/include/boost/context/fiber_winfib.hpp
+++ b/include/boost/context/fiber_winfib.hpp
@@ -354,8 +354,11 @@ public:
         if ( BOOST_UNLIKELY( detail::fiber_activation_record::current()->force_unwind) ) {
             throw detail::forced_unwind{ ptr};
         } else if ( BOOST_UNLIKELY( nullptr != detail::fiber_activation_record::current()->ontop) ) {
-            ptr = detail::fiber_activation_record::current()->ontop( ptr);
+            // the function is taken from the record before it is executed:
+            // it might throw, or switch to another context
+            auto ontop = std::move( detail::fiber_activation_record::current()->ontop);
             detail::fiber_activation_record::current()->ontop = nullptr;
+            ptr = ontop( ptr);
         }
         return { ptr };
     }
@@ -373,8 +376,11 @@ public:
         if ( BOOST_UNLIKELY( detail::fiber_activation_record::current()->force_unwind) ) {
             throw detail::forced_unwind{ ptr};
         } else if ( BOOST_UNLIKELY( nullptr != detail::fiber_activation_record::current()->ontop) ) {
-            ptr = detail::fiber_activation_record::current()->ontop( ptr);
+            // the function is taken from the record before it is executed:
+            // it might throw, or switch to another context
+            auto ontop = std::move( detail::fiber_activation_record::current()->ontop);
             detail::fiber_activation_record::current()->ontop = nullptr;
+            ptr = ontop( ptr);
         }
         return { ptr };
     }
-- 
2.43.0


From 199868764d889da680a5e0f7fbfcc6dd92e4baac Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:09 +0000
Subject: [PATCH 18/37] fix: winfib: switching contexts while a stack is
 unwound terminated the program

force_unwind stayed set: a context switch made by a destructor during the unwinding
threw forced_unwind again.
---
 include/boost/context/continuation_winfib.hpp | 4 ++++
 include/boost/context/fiber_winfib.hpp        | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/include/boost/context/continuation_winfib.hpp b/include/boost/context/continuation_winfib.hpp
index bc817aa..2745c75 100644
--- a/include/boost/context/continuation_winfib.hpp
+++ b/include/boost/context/continuation_winfib.hpp
@@ -345,6 +345,8 @@ public:
         detail::activation_record * ptr = std::exchange( ptr_, nullptr)->resume();
 #endif
         if ( BOOST_UNLIKELY( detail::activation_record::current()->force_unwind) ) {
+            // destructors executed by the unwinding might switch contexts
+            detail::activation_record::current()->force_unwind = false;
             throw detail::forced_unwind{ ptr};
         } else if ( BOOST_UNLIKELY( nullptr != detail::activation_record::current()->ontop) ) {
             // the function is taken from the record before it is executed:
@@ -371,6 +373,8 @@ public:
             std::exchange( ptr_, nullptr)->resume_with< continuation >( std::forward< Fn >( fn) );
 #endif
         if ( BOOST_UNLIKELY( detail::activation_record::current()->force_unwind) ) {
+            // destructors executed by the unwinding might switch contexts
+            detail::activation_record::current()->force_unwind = false;
             throw detail::forced_unwind{ ptr};
         } else if ( BOOST_UNLIKELY( nullptr != detail::activation_record::current()->ontop) ) {
             // the function is taken from the record before it is executed:
diff --git a/include/boost/context/fiber_winfib.hpp b/include/boost/context/fiber_winfib.hpp
index 18d84dd..f24f5ff 100644
--- a/include/boost/context/fiber_winfib.hpp
+++ b/include/boost/context/fiber_winfib.hpp
@@ -352,6 +352,8 @@ public:
         detail::fiber_activation_record * ptr = std::exchange( ptr_, nullptr)->resume();
 #endif
         if ( BOOST_UNLIKELY( detail::fiber_activation_record::current()->force_unwind) ) {
+            // destructors executed by the unwinding might switch contexts
+            detail::fiber_activation_record::current()->force_unwind = false;
             throw detail::forced_unwind{ ptr};
         } else if ( BOOST_UNLIKELY( nullptr != detail::fiber_activation_record::current()->ontop) ) {
             // the function is taken from the record before it is executed:
@@ -374,6 +376,8 @@ public:
             std::exchange( ptr_, nullptr)->resume_with< fiber >( std::forward< Fn >( fn) );
 #endif
         if ( BOOST_UNLIKELY( detail::fiber_activation_record::current()->force_unwind) ) {
+            // destructors executed by the unwinding might switch contexts
+            detail::fiber_activation_record::current()->force_unwind = false;
             throw detail::forced_unwind{ ptr};
         } else if ( BOOST_UNLIKELY( nullptr != detail::fiber_activation_record::current()->ontop) ) {
             // the function is taken from the record before it is executed:
-- 
2.43.0


From 580755ef62bc86523b2fa5c8f7881e0e441f2f91 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:09 +0000
Subject: [PATCH 19/37] fix: winfib: destroying or resume_with() of a context
 that was not started

Destroying it executed its function; resume_with() did not execute the function on top.
---
 include/boost/context/continuation_winfib.hpp | 13 ++++++++++++-
 include/boost/context/fiber_winfib.hpp        | 13 ++++++++++++-
 2 files changed, 24 insertions(+), 2 deletions(-)

diff --git a/include/boost/context/continuation_winfib.hpp b/include/boost/context/continuation_winfib.hpp
index 2745c75..2e10586 100644
--- a/include/boost/context/continuation_winfib.hpp
+++ b/include/boost/context/continuation_winfib.hpp
@@ -220,8 +220,19 @@ public:
     }
 
     void run() {
-        Ctx c{ from };
+        Ctx c;
         try {
+            activation_record * ptr = from;
+            if ( BOOST_UNLIKELY( force_unwind) ) {
+                // destroyed without having been started
+                throw forced_unwind{ ptr};
+            } else if ( BOOST_UNLIKELY( nullptr != ontop) ) {
+                // started by resume_with()
+                auto fn = std::move( ontop);
+                ontop = nullptr;
+                ptr = fn( ptr);
+            }
+            c = Ctx{ ptr };
             // invoke context-function
 #if defined(BOOST_NO_CXX17_STD_INVOKE)
             c = boost::context::detail::invoke( fn_, std::move( c) );
diff --git a/include/boost/context/fiber_winfib.hpp b/include/boost/context/fiber_winfib.hpp
index f24f5ff..07679f1 100644
--- a/include/boost/context/fiber_winfib.hpp
+++ b/include/boost/context/fiber_winfib.hpp
@@ -219,8 +219,19 @@ public:
     }
 
     void run() {
-        Ctx c{ from };
+        Ctx c;
         try {
+            fiber_activation_record * ptr = from;
+            if ( BOOST_UNLIKELY( force_unwind) ) {
+                // destroyed without having been started
+                throw forced_unwind{ ptr};
+            } else if ( BOOST_UNLIKELY( nullptr != ontop) ) {
+                // started by resume_with()
+                auto fn = std::move( ontop);
+                ontop = nullptr;
+                ptr = fn( ptr);
+            }
+            c = Ctx{ ptr };
             // invoke context-function
 #if defined(BOOST_NO_CXX17_STD_INVOKE)
             c = boost::context::detail::invoke( fn_, std::move( c) );
-- 
2.43.0


From 0f8e988b24f883f3414e38189a21939e7f73c9b4 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:20 +0000
Subject: [PATCH 20/37] fix: winfib: resume_with() corrupted the running
 context if copying the function threw

The function was stored after the running context had been replaced and the handle
emptied.
---
 include/boost/context/continuation_winfib.hpp | 25 +++++++++++--------
 include/boost/context/fiber_winfib.hpp        | 25 +++++++++++--------
 2 files changed, 30 insertions(+), 20 deletions(-)

diff --git a/include/boost/context/continuation_winfib.hpp b/include/boost/context/continuation_winfib.hpp
index 2e10586..beb9501 100644
--- a/include/boost/context/continuation_winfib.hpp
+++ b/include/boost/context/continuation_winfib.hpp
@@ -129,15 +129,11 @@ struct BOOST_CONTEXT_DECL activation_record {
 #endif
     }
 
+    // might throw: nothing was changed then
     template< typename Ctx, typename Fn >
-    activation_record * resume_with( Fn && fn) {
-        from = current();
-        // store `this` in static, thread local pointer
-        // `this` will become the active (running) context
-        // returned by continuation::current()
-        current() = this;
+    void set_ontop( Fn && fn) {
 #if defined(BOOST_NO_CXX14_GENERIC_LAMBDAS)
-        current()->ontop = std::bind(
+        ontop = std::bind(
                 [](typename std::decay< Fn >::type & fn, activation_record *& ptr){
                     Ctx c{ ptr };
                     c = fn( std::move( c) );
@@ -153,7 +149,7 @@ struct BOOST_CONTEXT_DECL activation_record {
                 std::forward< Fn >( fn),
                 std::placeholders::_1);
 #else
-        current()->ontop = [fn=std::forward<Fn>(fn)](activation_record *& ptr) mutable {
+        ontop = [fn=std::forward<Fn>(fn)](activation_record *& ptr) mutable {
             Ctx c{ ptr };
             c = fn( std::move( c) );
             if ( ! c) {
@@ -166,6 +162,14 @@ struct BOOST_CONTEXT_DECL activation_record {
 #endif
         };
 #endif
+    }
+
+    activation_record * resume_with() {
+        from = current();
+        // store `this` in static, thread local pointer
+        // `this` will become the active (running) context
+        // returned by continuation::current()
+        current() = this;
         // context switch
         ::SwitchToFiber( fiber);
 #if defined(BOOST_NO_CXX14_STD_EXCHANGE)
@@ -376,12 +380,13 @@ public:
 
     template< typename Fn >
     continuation resume_with( Fn && fn) && {
+        ptr_->set_ontop< continuation >( std::forward< Fn >( fn) );
 #if defined(BOOST_NO_CXX14_STD_EXCHANGE)
         detail::activation_record * ptr =
-            detail::exchange( ptr_, nullptr)->resume_with< continuation >( std::forward< Fn >( fn) );
+            detail::exchange( ptr_, nullptr)->resume_with();
 #else
         detail::activation_record * ptr =
-            std::exchange( ptr_, nullptr)->resume_with< continuation >( std::forward< Fn >( fn) );
+            std::exchange( ptr_, nullptr)->resume_with();
 #endif
         if ( BOOST_UNLIKELY( detail::activation_record::current()->force_unwind) ) {
             // destructors executed by the unwinding might switch contexts
diff --git a/include/boost/context/fiber_winfib.hpp b/include/boost/context/fiber_winfib.hpp
index 07679f1..d88a50a 100644
--- a/include/boost/context/fiber_winfib.hpp
+++ b/include/boost/context/fiber_winfib.hpp
@@ -128,15 +128,11 @@ struct BOOST_CONTEXT_DECL fiber_activation_record {
 #endif
     }
 
+    // might throw: nothing was changed then
     template< typename Ctx, typename Fn >
-    fiber_activation_record * resume_with( Fn && fn) {
-        from = current();
-        // store `this` in static, thread local pointer
-        // `this` will become the active (running) context
-        // returned by fiber::current()
-        current() = this;
+    void set_ontop( Fn && fn) {
 #if defined(BOOST_NO_CXX14_GENERIC_LAMBDAS)
-        current()->ontop = std::bind(
+        ontop = std::bind(
                 [](typename std::decay< Fn >::type & fn, fiber_activation_record *& ptr){
                     Ctx c{ ptr };
                     c = fn( std::move( c) );
@@ -152,7 +148,7 @@ struct BOOST_CONTEXT_DECL fiber_activation_record {
                 std::forward< Fn >( fn),
                 std::placeholders::_1);
 #else
-        current()->ontop = [fn=std::forward<Fn>(fn)](fiber_activation_record *& ptr) mutable {
+        ontop = [fn=std::forward<Fn>(fn)](fiber_activation_record *& ptr) mutable {
             Ctx c{ ptr };
             c = fn( std::move( c) );
             if ( ! c) {
@@ -165,6 +161,14 @@ struct BOOST_CONTEXT_DECL fiber_activation_record {
 #endif
         };
 #endif
+    }
+
+    fiber_activation_record * resume_with() {
+        from = current();
+        // store `this` in static, thread local pointer
+        // `this` will become the active (running) context
+        // returned by fiber::current()
+        current() = this;
         // context switch
         ::SwitchToFiber( fiber);
 #if defined(BOOST_NO_CXX14_STD_EXCHANGE)
@@ -379,12 +383,13 @@ public:
     template< typename Fn >
     fiber resume_with( Fn && fn) && {
         BOOST_ASSERT( nullptr != ptr_);
+        ptr_->set_ontop< fiber >( std::forward< Fn >( fn) );
 #if defined(BOOST_NO_CXX14_STD_EXCHANGE)
         detail::fiber_activation_record * ptr =
-            detail::exchange( ptr_, nullptr)->resume_with< fiber >( std::forward< Fn >( fn) );
+            detail::exchange( ptr_, nullptr)->resume_with();
 #else
         detail::fiber_activation_record * ptr =
-            std::exchange( ptr_, nullptr)->resume_with< fiber >( std::forward< Fn >( fn) );
+            std::exchange( ptr_, nullptr)->resume_with();
 #endif
         if ( BOOST_UNLIKELY( detail::fiber_activation_record::current()->force_unwind) ) {
             // destructors executed by the unwinding might switch contexts
-- 
2.43.0


From 2011d39b2c6650ec9115ade4f56970afd0231877 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:36 +0000
Subject: [PATCH 21/37] fix: winfib: failing CreateFiber() was ignored

The context was created with a null fiber: SwitchToFiber() and DeleteFiber() were called
with it later. The stack is released and an exception thrown, as if getcontext() fails in
the ucontext implementation.
---
 include/boost/context/continuation_winfib.hpp | 20 ++++++++++++++++++-
 include/boost/context/fiber_winfib.hpp        | 20 ++++++++++++++++++-
 2 files changed, 38 insertions(+), 2 deletions(-)

diff --git a/include/boost/context/continuation_winfib.hpp b/include/boost/context/continuation_winfib.hpp
index beb9501..0c4fbdd 100644
--- a/include/boost/context/continuation_winfib.hpp
+++ b/include/boost/context/continuation_winfib.hpp
@@ -102,7 +102,7 @@ struct BOOST_CONTEXT_DECL activation_record {
     virtual ~activation_record() {
         if ( BOOST_UNLIKELY( main_ctx) ) {
             ::ConvertFiberToThread();
-        } else {
+        } else if ( BOOST_LIKELY( nullptr != fiber) ) {
             ::DeleteFiber( fiber);
         }
     }
@@ -271,6 +271,15 @@ static activation_record * create_context1( StackAlloc && salloc, Fn && fn) {
             sctx, std::forward< StackAlloc >( salloc), std::forward< Fn >( fn) };
     // create user-context
     record->fiber = ::CreateFiber( sctx.size, & detail::entry_func< capture_t >, record);
+    if ( BOOST_UNLIKELY( nullptr == record->fiber) ) {
+        const DWORD err = ::GetLastError();
+        // the record owns the stack allocator: `salloc` might have been moved from
+        record->terminated = true;
+        record->deallocate();
+        throw std::system_error(
+                std::error_code( static_cast< int >( err), std::system_category() ),
+                "CreateFiber() failed");
+    }
     return record;
 }
 
@@ -288,6 +297,15 @@ static activation_record * create_context2( preallocated palloc, StackAlloc && s
             palloc.sctx, std::forward< StackAlloc >( salloc), std::forward< Fn >( fn) };
     // create user-context
     record->fiber = ::CreateFiber( palloc.sctx.size, & detail::entry_func< capture_t >, record);
+    if ( BOOST_UNLIKELY( nullptr == record->fiber) ) {
+        const DWORD err = ::GetLastError();
+        // the record owns the stack allocator: `salloc` might have been moved from
+        record->terminated = true;
+        record->deallocate();
+        throw std::system_error(
+                std::error_code( static_cast< int >( err), std::system_category() ),
+                "CreateFiber() failed");
+    }
     return record;
 }
 
diff --git a/include/boost/context/fiber_winfib.hpp b/include/boost/context/fiber_winfib.hpp
index d88a50a..8b6316f 100644
--- a/include/boost/context/fiber_winfib.hpp
+++ b/include/boost/context/fiber_winfib.hpp
@@ -101,7 +101,7 @@ struct BOOST_CONTEXT_DECL fiber_activation_record {
     virtual ~fiber_activation_record() {
         if ( BOOST_UNLIKELY( main_ctx) ) {
             ::ConvertFiberToThread();
-        } else {
+        } else if ( BOOST_LIKELY( nullptr != fiber) ) {
             ::DeleteFiber( fiber);
         }
     }
@@ -270,6 +270,15 @@ static fiber_activation_record * create_fiber1( StackAlloc && salloc, Fn && fn)
             sctx, std::forward< StackAlloc >( salloc), std::forward< Fn >( fn) };
     // create user-context
     record->fiber = ::CreateFiber( sctx.size, & detail::fiber_entry_func< capture_t >, record);
+    if ( BOOST_UNLIKELY( nullptr == record->fiber) ) {
+        const DWORD err = ::GetLastError();
+        // the record owns the stack allocator: `salloc` might have been moved from
+        record->terminated = true;
+        record->deallocate();
+        throw std::system_error(
+                std::error_code( static_cast< int >( err), std::system_category() ),
+                "CreateFiber() failed");
+    }
     return record;
 }
 
@@ -287,6 +296,15 @@ static fiber_activation_record * create_fiber2( preallocated palloc, StackAlloc
             palloc.sctx, std::forward< StackAlloc >( salloc), std::forward< Fn >( fn) };
     // create user-context
     record->fiber = ::CreateFiber( palloc.sctx.size, & detail::fiber_entry_func< capture_t >, record);
+    if ( BOOST_UNLIKELY( nullptr == record->fiber) ) {
+        const DWORD err = ::GetLastError();
+        // the record owns the stack allocator: `salloc` might have been moved from
+        record->terminated = true;
+        record->deallocate();
+        throw std::system_error(
+                std::error_code( static_cast< int >( err), std::system_category() ),
+                "CreateFiber() failed");
+    }
     return record;
 }
 
-- 
2.43.0


From 2806b1ed34065936fab4a6f2007c4406ff13390f Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:36 +0000
Subject: [PATCH 22/37] fix: winfib: a thread that was a fiber before was
 converted back at its end

The program that converted the thread might still use it as a fiber.
---
 include/boost/context/continuation_winfib.hpp | 9 ++++++++-
 include/boost/context/fiber_winfib.hpp        | 9 ++++++++-
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/include/boost/context/continuation_winfib.hpp b/include/boost/context/continuation_winfib.hpp
index 0c4fbdd..49f4034 100644
--- a/include/boost/context/continuation_winfib.hpp
+++ b/include/boost/context/continuation_winfib.hpp
@@ -70,6 +70,8 @@ struct BOOST_CONTEXT_DECL activation_record {
     std::function< activation_record*(activation_record*&) >    ontop{};
     bool                                                        terminated{ false };
     bool                                                        force_unwind{ false };
+    // the thread was converted to a fiber by the record
+    bool                                                        converted{ false };
 
     static activation_record *& current() noexcept;
 
@@ -81,6 +83,7 @@ struct BOOST_CONTEXT_DECL activation_record {
             fiber = ::GetCurrentFiber();
         } else {
             fiber = ::ConvertThreadToFiber( nullptr);
+            converted = true;
         }
 #else
         fiber = ::ConvertThreadToFiber( nullptr);
@@ -90,6 +93,8 @@ struct BOOST_CONTEXT_DECL activation_record {
             fiber = ::GetCurrentFiber(); 
             BOOST_ASSERT( nullptr != fiber);
             BOOST_ASSERT( reinterpret_cast< LPVOID >( 0x1E00) != fiber);
+        } else {
+            converted = true;
         }
 #endif
     }
@@ -101,7 +106,9 @@ struct BOOST_CONTEXT_DECL activation_record {
 
     virtual ~activation_record() {
         if ( BOOST_UNLIKELY( main_ctx) ) {
-            ::ConvertFiberToThread();
+            if ( converted) {
+                ::ConvertFiberToThread();
+            }
         } else if ( BOOST_LIKELY( nullptr != fiber) ) {
             ::DeleteFiber( fiber);
         }
diff --git a/include/boost/context/fiber_winfib.hpp b/include/boost/context/fiber_winfib.hpp
index 8b6316f..90e988b 100644
--- a/include/boost/context/fiber_winfib.hpp
+++ b/include/boost/context/fiber_winfib.hpp
@@ -70,6 +70,8 @@ struct BOOST_CONTEXT_DECL fiber_activation_record {
     std::function< fiber_activation_record*(fiber_activation_record*&) >    ontop{};
     bool                                                        terminated{ false };
     bool                                                        force_unwind{ false };
+    // the thread was converted to a fiber by the record
+    bool                                                        converted{ false };
 
     static fiber_activation_record *& current() noexcept;
 
@@ -81,6 +83,7 @@ struct BOOST_CONTEXT_DECL fiber_activation_record {
             fiber = ::GetCurrentFiber();
         } else {
             fiber = ::ConvertThreadToFiber( nullptr);
+            converted = true;
         }
 #else
         fiber = ::ConvertThreadToFiber( nullptr);
@@ -89,6 +92,8 @@ struct BOOST_CONTEXT_DECL fiber_activation_record {
             fiber = ::GetCurrentFiber(); 
             BOOST_ASSERT( nullptr != fiber);
             BOOST_ASSERT( reinterpret_cast< LPVOID >( 0x1E00) != fiber);
+        } else {
+            converted = true;
         }
 #endif
     }
@@ -100,7 +105,9 @@ struct BOOST_CONTEXT_DECL fiber_activation_record {
 
     virtual ~fiber_activation_record() {
         if ( BOOST_UNLIKELY( main_ctx) ) {
-            ::ConvertFiberToThread();
+            if ( converted) {
+                ::ConvertFiberToThread();
+            }
         } else if ( BOOST_LIKELY( nullptr != fiber) ) {
             ::DeleteFiber( fiber);
         }
-- 
2.43.0


From 53ed8106ad2ee6d6b10fd7c63a5e1a6276ab7691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:08 +0000
Subject: [PATCH 23/37] fix: windows: protected_fixedsize_stack of nearly
 SIZE_MAX bytes returned a single page

---
 include/boost/context/windows/protected_fixedsize_stack.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/boost/context/windows/protected_fixedsize_stack.hpp b/include/boost/context/windows/protected_fixedsize_stack.hpp
index 30f74c2..db2dae9 100644
--- a/include/boost/context/windows/protected_fixedsize_stack.hpp
+++ b/include/boost/context/windows/protected_fixedsize_stack.hpp
@@ -47,6 +47,8 @@ public:
         const std::size_t pages = (size_ + traits_type::page_size() - 1) / traits_type::page_size();
         // add one page at bottom that will be used as guard-page
         const std::size_t size__ = ( pages + 1) * traits_type::page_size();
+        // rounding a huge size up must not wrap around
+        if ( size__ < size_) throw std::bad_alloc();
 
         void * vp = ::VirtualAlloc( 0, size__, MEM_COMMIT, PAGE_READWRITE);
         if ( ! vp) throw std::bad_alloc();
-- 
2.43.0


From b58b3cef66dcb8ddd7174b757d16472d78e6e1f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:16 +0000
Subject: [PATCH 24/37] fix: windows: protected_fixedsize_stack ignored a
 failing VirtualProtect()

---
 .../boost/context/windows/protected_fixedsize_stack.hpp   | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/boost/context/windows/protected_fixedsize_stack.hpp b/include/boost/context/windows/protected_fixedsize_stack.hpp
index db2dae9..3419012 100644
--- a/include/boost/context/windows/protected_fixedsize_stack.hpp
+++ b/include/boost/context/windows/protected_fixedsize_stack.hpp
@@ -17,7 +17,6 @@ extern "C" {
 
 #include <boost/assert.hpp>
 #include <boost/config.hpp>
-#include <boost/core/ignore_unused.hpp>
 
 #include <boost/context/detail/config.hpp>
 #include <boost/context/stack_context.hpp>
@@ -56,8 +55,11 @@ public:
         DWORD old_options;
         const BOOL result = ::VirtualProtect(
             vp, traits_type::page_size(), PAGE_READWRITE | PAGE_GUARD /*PAGE_NOACCESS*/, & old_options);
-        boost::ignore_unused(result);
-        BOOST_ASSERT( FALSE != result);
+        if ( FALSE == result) {
+            // no stack without its guard-page
+            ::VirtualFree( vp, 0, MEM_RELEASE);
+            throw std::bad_alloc();
+        }
 
         stack_context sctx;
         sctx.size = size__;
-- 
2.43.0


From 6783959c3afed3abfa730c0d5c8f8179a689aac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:03 +0000
Subject: [PATCH 25/37] fix: sparc64: make_fcontext aligns every stack top

The mask -0xf keeps the lowest bit; an odd address led to misaligned
accesses.
---
 src/asm/make_sparc64_sysv_elf_gas.S | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/asm/make_sparc64_sysv_elf_gas.S b/src/asm/make_sparc64_sysv_elf_gas.S
index 3e7ee80..8049779 100644
--- a/src/asm/make_sparc64_sysv_elf_gas.S
+++ b/src/asm/make_sparc64_sysv_elf_gas.S
@@ -23,7 +23,7 @@ make_fcontext:
 	save	%sp, -CC64FSZ, %sp
 
 	# shift address in %i0 (allocated stack) to lower 16 byte boundary
-	and	%i0, -0xf, %i0
+	and	%i0, -0x10, %i0
 
 	# reserve space for two frames on the stack
 	# the first frame is for the call the second one holds the data
-- 
2.43.0


From 4f426f35ea09c9fd9d384942b18fd51fe0f1f8f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:03 +0000
Subject: [PATCH 26/37] fix: arm64 Windows: ontop_fcontext leaves the stack
 pointer where it was

The context data occupy 0xd0 bytes (jump_fcontext), ontop_fcontext
released 0xc0: the function run on top returned with the stack pointer
of the suspended context 16 bytes too low.
---
 src/asm/ontop_arm64_aapcs_pe_armasm.asm | 2 +-
 src/asm/ontop_arm64_aapcs_pe_armclang.S | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/asm/ontop_arm64_aapcs_pe_armasm.asm b/src/asm/ontop_arm64_aapcs_pe_armasm.asm
index dc522c0..78885a7 100644
--- a/src/asm/ontop_arm64_aapcs_pe_armasm.asm
+++ b/src/asm/ontop_arm64_aapcs_pe_armasm.asm
@@ -124,7 +124,7 @@ ontop_fcontext proc BOOST_CONTEXT_EXPORT
 
     ; skip pc
     ; restore stack from GP + FPU
-    add  sp, sp, #0xc0
+    add  sp, sp, #0xd0
 
     ; jump to ontop-function
     ret x2
diff --git a/src/asm/ontop_arm64_aapcs_pe_armclang.S b/src/asm/ontop_arm64_aapcs_pe_armclang.S
index bdf097b..427b458 100644
--- a/src/asm/ontop_arm64_aapcs_pe_armclang.S
+++ b/src/asm/ontop_arm64_aapcs_pe_armclang.S
@@ -130,7 +130,7 @@ ontop_fcontext:
 
     // skip pc
     // restore stack from GP + FPU
-    add  sp, sp, #0xc0
+    add  sp, sp, #0xd0
 
     // jump to ontop-function
     ret x2
-- 
2.43.0


From 1b7bc22da3e6ba912699badab0335654fb3a9bc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:03 +0000
Subject: [PATCH 27/37] fix: mips64: the return of a context function finds the
 global pointer

It was reloaded from the context data, which are below the stack pointer
once the context has been entered: the context function overwrites them.
---
 src/asm/make_mips64_n64_elf_gas.S | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/asm/make_mips64_n64_elf_gas.S b/src/asm/make_mips64_n64_elf_gas.S
index 40f29a5..69a3369 100644
--- a/src/asm/make_mips64_n64_elf_gas.S
+++ b/src/asm/make_mips64_n64_elf_gas.S
@@ -62,13 +62,15 @@ make_fcontext:
     li $v1, 0xfffffffffffffff0
     and $v0, $v1, $a0
 
-    # reserve space for context-data on context-stack
-    daddiu $v0, $v0, -160
+    # reserve space for context-data on context-stack, and for GP above it
+    daddiu $v0, $v0, -176
 
     # third arg of make_fcontext() == address of context-function
     sd  $a2, 152($v0)
     # save global pointer in context-data
     sd  $gp, 136($v0)
+    # and above, where it is still when context-function returns
+    sd  $gp, 160($v0)
 
     # psudo instruction compute abs address of label finish based on GP
     dla  $t9, finish
@@ -81,8 +83,7 @@ make_fcontext:
 
 finish:
     # reload our gp register (needed for la)
-    daddiu $t0, $sp, -160
-    ld $gp, 136($t0)
+    ld $gp, 0($sp)
 
     # call _exit(0)
     #  the previous function should have left the 16 bytes incoming argument
-- 
2.43.0


From 54ff08a4eb85452baa058e262e47231e320cdad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:03 +0000
Subject: [PATCH 28/37] fix: i386 Mach-O: context functions are entered with an
 aligned stack

The call has to find the stack pointer on a 16-byte border; it was
8 bytes off.
---
 src/asm/make_i386_sysv_macho_gas.S | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/asm/make_i386_sysv_macho_gas.S b/src/asm/make_i386_sysv_macho_gas.S
index a5890d7..0457abc 100644
--- a/src/asm/make_i386_sysv_macho_gas.S
+++ b/src/asm/make_i386_sysv_macho_gas.S
@@ -40,7 +40,7 @@ _make_fcontext:
     andl  $-16, %eax
 
     /* reserve space for context-data on context-stack, and align the stack */
-    leal  -0x34(%eax), %eax
+    leal  -0x2c(%eax), %eax
 
     /* third arg of make_fcontext() == address of context-function */
     /* stored in EBX */
-- 
2.43.0


From af087d0173709edbe72900b38f091732e4a4e900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:03 +0000
Subject: [PATCH 29/37] fix: arm Mach-O: a new context starts without SjLj
 handlers

jump_fcontext loaded the head of the handler chain from memory that
make_fcontext had not written.
---
 src/asm/make_arm_aapcs_macho_gas.S | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/asm/make_arm_aapcs_macho_gas.S b/src/asm/make_arm_aapcs_macho_gas.S
index de93407..e749363 100644
--- a/src/asm/make_arm_aapcs_macho_gas.S
+++ b/src/asm/make_arm_aapcs_macho_gas.S
@@ -57,6 +57,10 @@ _make_fcontext:
     mov  a3, a2
     str  a3, [a1, #68]
 
+    @ no SjLj handler
+    mov  a2, #0
+    str  a2, [a1, #64]
+
     @ compute abs address of label finish
     adr  a2, finish
     @ save address of finish as return-address for context-function
-- 
2.43.0


From bea98cda60edf4f1dc5ccc90191049e21c186def Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:03 +0000
Subject: [PATCH 30/37] fix: arm Windows: stack fields of the thread block, and
 the handle on top

ontop_fcontext restored deallocation stack, limit and base in the wrong
order and used the register that held the handle of the caller; a5 in
jump_fcontext is no register.
---
 src/asm/jump_arm_aapcs_pe_armasm.asm  | 24 +++++++++++------------
 src/asm/ontop_arm_aapcs_pe_armasm.asm | 28 +++++++++++++--------------
 2 files changed, 26 insertions(+), 26 deletions(-)

diff --git a/src/asm/jump_arm_aapcs_pe_armasm.asm b/src/asm/jump_arm_aapcs_pe_armasm.asm
index bca923c..01a61c0 100644
--- a/src/asm/jump_arm_aapcs_pe_armasm.asm
+++ b/src/asm/jump_arm_aapcs_pe_armasm.asm
@@ -39,14 +39,14 @@ jump_fcontext PROC
     mrc     p15, #0, v1, c13, c0, #2
 
     ; save current stack base
-    ldr  a5, [v1, #0x04]
-    push {a5}
+    ldr  ip, [v1, #0x04]
+    push {ip}
     ; save current stack limit
-    ldr  a5, [v1, #0x08]
-    push {a5}
+    ldr  ip, [v1, #0x08]
+    push {ip}
     ; save current deallocation stack
-    ldr  a5, [v1, #0xe0c]
-    push {a5}
+    ldr  ip, [v1, #0xe0c]
+    push {ip}
 
     ; store RSP (pointing to context-data) in A1
     mov  a1, sp
@@ -55,14 +55,14 @@ jump_fcontext PROC
     mov  sp, a2
 
     ; restore deallocation stack
-    pop  {a5}
-    str  a5, [v1, #0xe0c]
+    pop  {ip}
+    str  ip, [v1, #0xe0c]
     ; restore stack limit
-    pop  {a5}
-    str  a5, [v1, #0x08]
+    pop  {ip}
+    str  ip, [v1, #0x08]
     ; restore stack base
-    pop  {a5}
-    str  a5, [v1, #0x04]
+    pop  {ip}
+    str  ip, [v1, #0x04]
 
     ; restore hidden,V1-V8,LR
     pop {a4,v1-v8,lr}
diff --git a/src/asm/ontop_arm_aapcs_pe_armasm.asm b/src/asm/ontop_arm_aapcs_pe_armasm.asm
index f360a8f..640df87 100644
--- a/src/asm/ontop_arm_aapcs_pe_armasm.asm
+++ b/src/asm/ontop_arm_aapcs_pe_armasm.asm
@@ -39,14 +39,14 @@ ontop_fcontext PROC
     mrc     p15, #0, v1, c13, c0, #2
 
     ; save current stack base
-    ldr  a1, [v1, #0x04]
-    push {a1}
+    ldr  ip, [v1, #0x04]
+    push {ip}
     ; save current stack limit
-    ldr  a1, [v1, #0x08]
-    push {a1}
+    ldr  ip, [v1, #0x08]
+    push {ip}
     ; save current deallocation stack
-    ldr  a1, [v1, #0xe0c]
-    push {a1}
+    ldr  ip, [v1, #0xe0c]
+    push {ip}
 
     ; store RSP (pointing to context-data) in A1
     mov  a1, sp
@@ -54,15 +54,15 @@ ontop_fcontext PROC
     ; restore RSP (pointing to context-data) from A2
     mov  sp, a2
 
-    ; restore stack base
-    pop  {a1}
-    str  a1, [v1, #0x04]
-    ; restore stack limit
-    pop  {a1}
-    str  a1, [v1, #0x08]
     ; restore deallocation stack
-    pop  {a1}
-    str  a1, [v1, #0xe0c]
+    pop  {ip}
+    str  ip, [v1, #0xe0c]
+    ; restore stack limit
+    pop  {ip}
+    str  ip, [v1, #0x08]
+    ; restore stack base
+    pop  {ip}
+    str  ip, [v1, #0x04]
 
     ; store parent context in A2
     mov  a2, a1
-- 
2.43.0


From 1be4e667d6c637d9579ed86ffcc3ae4bc07485ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:00 +0000
Subject: [PATCH 31/37] fix: AIX 32-bit: a new context has a defined FPSCR, R13
 is preserved

jump_fcontext loaded the FPSCR of a new context from memory that
make_fcontext had not written, and left R13, which is nonvolatile in the
32-bit ABI, as the other context had it.
---
 src/asm/jump_ppc32_sysv_xcoff_gas.S  | 8 +++++---
 src/asm/make_ppc32_sysv_xcoff_gas.S  | 7 +++++--
 src/asm/ontop_ppc32_sysv_xcoff_gas.S | 8 +++++---
 3 files changed, 15 insertions(+), 8 deletions(-)

diff --git a/src/asm/jump_ppc32_sysv_xcoff_gas.S b/src/asm/jump_ppc32_sysv_xcoff_gas.S
index 1854613..510ccb0 100644
--- a/src/asm/jump_ppc32_sysv_xcoff_gas.S
+++ b/src/asm/jump_ppc32_sysv_xcoff_gas.S
@@ -10,7 +10,7 @@
  *  -------------------------------------------------  *
  *  |  0  |  4  |  8  |  12 |  16 |  20 |  24 |  28 |  *
  *  -------------------------------------------------  *
- *  |bchai|  CR | LR  |compl| link| TOC | R14 | R15 |  *
+ *  |bchai|  CR | LR  | R13 | link| TOC | R14 | R15 |  *
  *  -------------------------------------------------  *
  *  -------------------------------------------------  *
  *  |  32 |  36 |  40 |  44 |  48 |  52 |  56 |  60 |  *
@@ -79,7 +79,8 @@ jump_fcontext:
     # save TOC
     stw   2, 20(1)
 
-    # Save registers R14 to R31.
+    # Save registers R13 to R31.
+    stw   13, 12(1)
     stw   14, 24(1)
     stw   15, 28(1)
     stw   16, 32(1)
@@ -147,7 +148,8 @@ jump_fcontext:
     # restore TOC
     lwz   2, 20(1)
 
-    # restore R14 to R31
+    # restore R13 to R31
+    lwz  13, 12(1)
     lwz  14, 24(1)
     lwz  15, 28(1)
     lwz  16, 32(1)
diff --git a/src/asm/make_ppc32_sysv_xcoff_gas.S b/src/asm/make_ppc32_sysv_xcoff_gas.S
index e803757..2d3be41 100644
--- a/src/asm/make_ppc32_sysv_xcoff_gas.S
+++ b/src/asm/make_ppc32_sysv_xcoff_gas.S
@@ -10,7 +10,7 @@
  *  -------------------------------------------------  *
  *  |  0  |  4  |  8  |  12 |  16 |  20 |  24 |  28 |  *
  *  -------------------------------------------------  *
- *  |bchai|  CR | LR  |compl| link| TOC | R14 | R15 |  *
+ *  |bchai|  CR | LR  | R13 | link| TOC | R14 | R15 |  *
  *  -------------------------------------------------  *
  *  -------------------------------------------------  *
  *  |  32 |  36 |  40 |  44 |  48 |  52 |  56 |  60 |  *
@@ -88,7 +88,10 @@ make_fcontext:
     stw  0, 256(3)
 
     # zero in r3 indicates first jump to context-function
-    std  0, 244(3)
+    stw  0, 244(3)
+
+    mffs  0  # load FPSCR
+    stfd  0, 248(3)  # save FPSCR
 
     # load LR
     mflr  0
diff --git a/src/asm/ontop_ppc32_sysv_xcoff_gas.S b/src/asm/ontop_ppc32_sysv_xcoff_gas.S
index 9dfb492..8926dc7 100644
--- a/src/asm/ontop_ppc32_sysv_xcoff_gas.S
+++ b/src/asm/ontop_ppc32_sysv_xcoff_gas.S
@@ -10,7 +10,7 @@
  *  -------------------------------------------------  *
  *  |  0  |  4  |  8  |  12 |  16 |  20 |  24 |  28 |  *
  *  -------------------------------------------------  *
- *  |bchai|  CR | LR  |compl| link| TOC | R14 | R15 |  *
+ *  |bchai|  CR | LR  | R13 | link| TOC | R14 | R15 |  *
  *  -------------------------------------------------  *
  *  -------------------------------------------------  *
  *  |  32 |  36 |  40 |  44 |  48 |  52 |  56 |  60 |  *
@@ -80,7 +80,8 @@ ontop_fcontext:
     # save TOC
     stw   2, 20(1)
 
-    # Save registers R14 to R31.
+    # Save registers R13 to R31.
+    stw   13, 12(1)
     stw   14, 24(1)
     stw   15, 28(1)
     stw   16, 32(1)
@@ -138,7 +139,8 @@ ontop_fcontext:
     lwz   0, 4(1)
     mtcr  0
 
-    # restore R14 to R31
+    # restore R13 to R31
+    lwz  13, 12(1)
     lwz  14, 24(1)
     lwz  15, 28(1)
     lwz  16, 32(1)
-- 
2.43.0


From 0e294e7180066c788303cc53dd0da32c921adf21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:00 +0000
Subject: [PATCH 32/37] fix: ppc32 Mach-O: context functions are entered with
 an aligned stack

The stack pointer was 4 bytes off a 16-byte border.
---
 src/asm/make_ppc32_sysv_macho_gas.S | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/asm/make_ppc32_sysv_macho_gas.S b/src/asm/make_ppc32_sysv_macho_gas.S
index e7b0c7a..9b4fa3a 100644
--- a/src/asm/make_ppc32_sysv_macho_gas.S
+++ b/src/asm/make_ppc32_sysv_macho_gas.S
@@ -87,7 +87,7 @@ _make_fcontext:
 
     ; reserve space for context-data on context-stack
     ; including 64 byte of linkage + parameter area (R1 % 16 == 0)
-    subi  r3, r3, 336
+    subi  r3, r3, 340
 
     ; third arg of make_fcontext() == address of context-function
     ; store as trampoline's R31
-- 
2.43.0


From 0d0f8965ee210b054d12d349750a45e435799a46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:01 +0000
Subject: [PATCH 33/37] fix: ppc64: preserve the nonvolatile floating-point
 registers

F14 to F31 belong to the caller in all 64-bit PowerPC ABIs; as the 32-bit
versions do, save and restore them.
---
 src/asm/jump_ppc64_sysv_elf_gas.S    | 83 ++++++++++++++++++++++++++--
 src/asm/jump_ppc64_sysv_xcoff_gas.S  | 83 ++++++++++++++++++++++++++--
 src/asm/make_ppc64_sysv_elf_gas.S    | 45 +++++++++++++--
 src/asm/make_ppc64_sysv_xcoff_gas.S  | 45 +++++++++++++--
 src/asm/ontop_ppc64_sysv_elf_gas.S   | 83 ++++++++++++++++++++++++++--
 src/asm/ontop_ppc64_sysv_xcoff_gas.S | 83 ++++++++++++++++++++++++++--
 6 files changed, 392 insertions(+), 30 deletions(-)

diff --git a/src/asm/jump_ppc64_sysv_elf_gas.S b/src/asm/jump_ppc64_sysv_elf_gas.S
index fc3c6d6..1ef98c5 100644
--- a/src/asm/jump_ppc64_sysv_elf_gas.S
+++ b/src/asm/jump_ppc64_sysv_elf_gas.S
@@ -47,21 +47,56 @@
  *  -------------------------------------------------  *
  *  | 160 | 164 | 168 | 172 | 176 | 180 | 184 | 188 |  *
  *  -------------------------------------------------  *
- *  |     CR    |     LR    |     PC    | back-chain|  *
+ *  |     CR    |     LR    |     PC    |    F14    |  *
  *  -------------------------------------------------  *
  *  -------------------------------------------------  *
  *  |  48 |  49 |  50 |  51 |  52 |  53 |  54 |  55 |  *
  *  -------------------------------------------------  *
  *  | 192 | 196 | 200 | 204 | 208 | 212 | 216 | 220 |  *
  *  -------------------------------------------------  *
- *  |  cr saved |  lr saved |  compiler |   linker  |  *
+ *  |    F15    |    F16    |    F17    |    F18    |  *
  *  -------------------------------------------------  *
  *  -------------------------------------------------  *
  *  |  56 |  57 |  58 |  59 |  60 |  61 |  62 |  63 |  *
  *  -------------------------------------------------  *
  *  | 224 | 228 | 232 | 236 | 240 | 244 | 248 | 252 |  *
  *  -------------------------------------------------  *
- *  | TOC saved |    FCTX   |    DATA   |           |  *
+ *  |    F19    |    F20    |    F21    |    F22    |  *
+ *  -------------------------------------------------  *
+ *  -------------------------------------------------  *
+ *  |  64 |  65 |  66 |  67 |  68 |  69 |  70 |  71 |  *
+ *  -------------------------------------------------  *
+ *  | 256 | 260 | 264 | 268 | 272 | 276 | 280 | 284 |  *
+ *  -------------------------------------------------  *
+ *  |    F23    |    F24    |    F25    |    F26    |  *
+ *  -------------------------------------------------  *
+ *  -------------------------------------------------  *
+ *  |  72 |  73 |  74 |  75 |  76 |  77 |  78 |  79 |  *
+ *  -------------------------------------------------  *
+ *  | 288 | 292 | 296 | 300 | 304 | 308 | 312 | 316 |  *
+ *  -------------------------------------------------  *
+ *  |    F27    |    F28    |    F29    |    F30    |  *
+ *  -------------------------------------------------  *
+ *  -------------------------------------------------  *
+ *  |  80 |  81 |  82 |  83 |  84 |  85 |  86 |  87 |  *
+ *  -------------------------------------------------  *
+ *  | 320 | 324 | 328 | 332 | 336 | 340 | 344 | 348 |  *
+ *  -------------------------------------------------  *
+ *  |    F31    | back-chain|  cr saved |  lr saved |  *
+ *  -------------------------------------------------  *
+ *  -------------------------------------------------  *
+ *  |  88 |  89 |  90 |  91 |  92 |  93 |  94 |  95 |  *
+ *  -------------------------------------------------  *
+ *  | 352 | 356 | 360 | 364 | 368 | 372 | 376 | 380 |  *
+ *  -------------------------------------------------  *
+ *  |  compiler |   linker  | TOC saved |    FCTX   |  *
+ *  -------------------------------------------------  *
+ *  -------------------------------------------------  *
+ *  |  96 |  97 |  98 |  99 | 100 | 101 | 102 | 103 |  *
+ *  -------------------------------------------------  *
+ *  | 384 | 388 | 392 | 396 | 400 | 404 | 408 | 412 |  *
+ *  -------------------------------------------------  *
+ *  |    DATA   |           |           |           |  *
  *  -------------------------------------------------  *
  *                                                     *
  *******************************************************/
@@ -98,7 +133,7 @@ jump_fcontext:
 # endif
 #endif
     # reserve space on stack
-    subi  %r1, %r1, 184
+    subi  %r1, %r1, 328
 
 #if _CALL_ELF != 2
     std  %r2,  0(%r1)  # save TOC
@@ -125,6 +160,25 @@ jump_fcontext:
     std  %r3,  152(%r1)  # save hidden
 #endif
 
+    stfd  %f14, 184(%r1)  # save F14
+    stfd  %f15, 192(%r1)  # save F15
+    stfd  %f16, 200(%r1)  # save F16
+    stfd  %f17, 208(%r1)  # save F17
+    stfd  %f18, 216(%r1)  # save F18
+    stfd  %f19, 224(%r1)  # save F19
+    stfd  %f20, 232(%r1)  # save F20
+    stfd  %f21, 240(%r1)  # save F21
+    stfd  %f22, 248(%r1)  # save F22
+    stfd  %f23, 256(%r1)  # save F23
+    stfd  %f24, 264(%r1)  # save F24
+    stfd  %f25, 272(%r1)  # save F25
+    stfd  %f26, 280(%r1)  # save F26
+    stfd  %f27, 288(%r1)  # save F27
+    stfd  %f28, 296(%r1)  # save F28
+    stfd  %f29, 304(%r1)  # save F29
+    stfd  %f30, 312(%r1)  # save F30
+    stfd  %f31, 320(%r1)  # save F31
+
     # save CR
     mfcr  %r0
     std   %r0, 160(%r1)
@@ -168,6 +222,25 @@ jump_fcontext:
     ld  %r3,  152(%r1)  # restore hidden
 #endif
 
+    lfd  %f14, 184(%r1)  # restore F14
+    lfd  %f15, 192(%r1)  # restore F15
+    lfd  %f16, 200(%r1)  # restore F16
+    lfd  %f17, 208(%r1)  # restore F17
+    lfd  %f18, 216(%r1)  # restore F18
+    lfd  %f19, 224(%r1)  # restore F19
+    lfd  %f20, 232(%r1)  # restore F20
+    lfd  %f21, 240(%r1)  # restore F21
+    lfd  %f22, 248(%r1)  # restore F22
+    lfd  %f23, 256(%r1)  # restore F23
+    lfd  %f24, 264(%r1)  # restore F24
+    lfd  %f25, 272(%r1)  # restore F25
+    lfd  %f26, 280(%r1)  # restore F26
+    lfd  %f27, 288(%r1)  # restore F27
+    lfd  %f28, 296(%r1)  # restore F28
+    lfd  %f29, 304(%r1)  # restore F29
+    lfd  %f30, 312(%r1)  # restore F30
+    lfd  %f31, 320(%r1)  # restore F31
+
     # restore CR
     ld  %r0, 160(%r1)
     mtcr  %r0
@@ -181,7 +254,7 @@ jump_fcontext:
     mtctr  %r12
 
     # adjust stack
-    addi  %r1, %r1, 184
+    addi  %r1, %r1, 328
 
 #if _CALL_ELF == 2
     # copy transfer_t into transfer_fn arg registers
diff --git a/src/asm/jump_ppc64_sysv_xcoff_gas.S b/src/asm/jump_ppc64_sysv_xcoff_gas.S
index f835d2a..8f7dd81 100644
--- a/src/asm/jump_ppc64_sysv_xcoff_gas.S
+++ b/src/asm/jump_ppc64_sysv_xcoff_gas.S
@@ -48,21 +48,56 @@
  *  -------------------------------------------------  *
  *  | 160 | 164 | 168 | 172 | 176 | 180 | 184 | 188 |  *
  *  -------------------------------------------------  *
- *  |     CR    |     LR    |     PC    | back-chain|  *
+ *  |     CR    |     LR    |     PC    |    F14    |  *
  *  -------------------------------------------------  *
  *  -------------------------------------------------  *
  *  |  48 |  49 |  50 |  51 |  52 |  53 |  54 |  55 |  *
  *  -------------------------------------------------  *
  *  | 192 | 196 | 200 | 204 | 208 | 212 | 216 | 220 |  *
  *  -------------------------------------------------  *
- *  |  cr saved |  lr saved |  compiler |   linker  |  *
+ *  |    F15    |    F16    |    F17    |    F18    |  *
  *  -------------------------------------------------  *
  *  -------------------------------------------------  *
  *  |  56 |  57 |  58 |  59 |  60 |  61 |  62 |  63 |  *
  *  -------------------------------------------------  *
  *  | 224 | 228 | 232 | 236 | 240 | 244 | 248 | 252 |  *
  *  -------------------------------------------------  *
- *  | TOC saved |    FCTX   |    DATA   |           |  *
+ *  |    F19    |    F20    |    F21    |    F22    |  *
+ *  -------------------------------------------------  *
+ *  -------------------------------------------------  *
+ *  |  64 |  65 |  66 |  67 |  68 |  69 |  70 |  71 |  *
+ *  -------------------------------------------------  *
+ *  | 256 | 260 | 264 | 268 | 272 | 276 | 280 | 284 |  *
+ *  -------------------------------------------------  *
+ *  |    F23    |    F24    |    F25    |    F26    |  *
+ *  -------------------------------------------------  *
+ *  -------------------------------------------------  *
+ *  |  72 |  73 |  74 |  75 |  76 |  77 |  78 |  79 |  *
+ *  -------------------------------------------------  *
+ *  | 288 | 292 | 296 | 300 | 304 | 308 | 312 | 316 |  *
+ *  -------------------------------------------------  *
+ *  |    F27    |    F28    |    F29    |    F30    |  *
+ *  -------------------------------------------------  *
+ *  -------------------------------------------------  *
+ *  |  80 |  81 |  82 |  83 |  84 |  85 |  86 |  87 |  *
+ *  -------------------------------------------------  *
+ *  | 320 | 324 | 328 | 332 | 336 | 340 | 344 | 348 |  *
+ *  -------------------------------------------------  *
+ *  |    F31    | back-chain|  cr saved |  lr saved |  *
+ *  -------------------------------------------------  *
+ *  -------------------------------------------------  *
+ *  |  88 |  89 |  90 |  91 |  92 |  93 |  94 |  95 |  *
+ *  -------------------------------------------------  *
+ *  | 352 | 356 | 360 | 364 | 368 | 372 | 376 | 380 |  *
+ *  -------------------------------------------------  *
+ *  |  compiler |   linker  | TOC saved |    FCTX   |  *
+ *  -------------------------------------------------  *
+ *  -------------------------------------------------  *
+ *  |  96 |  97 |  98 |  99 | 100 | 101 | 102 | 103 |  *
+ *  -------------------------------------------------  *
+ *  | 384 | 388 | 392 | 396 | 400 | 404 | 408 | 412 |  *
+ *  -------------------------------------------------  *
+ *  |    DATA   |           |           |           |  *
  *  -------------------------------------------------  *
  *                                                     *
  *******************************************************/
@@ -79,7 +114,7 @@ jump_fcontext:
     .csect .text[PR], 5
 .jump_fcontext:
     # reserve space on stack
-    subi  1, 1, 184
+    subi  1, 1, 328
 
     std  2, 0(1)  # save TOC
     std  14, 8(1)  # save R14
@@ -102,6 +137,25 @@ jump_fcontext:
     std  31, 144(1)  # save R31
     std  3,  152(1)  # save hidden
 
+    stfd  14, 184(1)  # save F14
+    stfd  15, 192(1)  # save F15
+    stfd  16, 200(1)  # save F16
+    stfd  17, 208(1)  # save F17
+    stfd  18, 216(1)  # save F18
+    stfd  19, 224(1)  # save F19
+    stfd  20, 232(1)  # save F20
+    stfd  21, 240(1)  # save F21
+    stfd  22, 248(1)  # save F22
+    stfd  23, 256(1)  # save F23
+    stfd  24, 264(1)  # save F24
+    stfd  25, 272(1)  # save F25
+    stfd  26, 280(1)  # save F26
+    stfd  27, 288(1)  # save F27
+    stfd  28, 296(1)  # save F28
+    stfd  29, 304(1)  # save F29
+    stfd  30, 312(1)  # save F30
+    stfd  31, 320(1)  # save F31
+
     # save CR
     mfcr  0
     std  0, 160(1)
@@ -138,6 +192,25 @@ jump_fcontext:
     ld  31, 144(1)  # restore R31
     ld  3,  152(1)  # restore hidden
 
+    lfd  14, 184(1)  # restore F14
+    lfd  15, 192(1)  # restore F15
+    lfd  16, 200(1)  # restore F16
+    lfd  17, 208(1)  # restore F17
+    lfd  18, 216(1)  # restore F18
+    lfd  19, 224(1)  # restore F19
+    lfd  20, 232(1)  # restore F20
+    lfd  21, 240(1)  # restore F21
+    lfd  22, 248(1)  # restore F22
+    lfd  23, 256(1)  # restore F23
+    lfd  24, 264(1)  # restore F24
+    lfd  25, 272(1)  # restore F25
+    lfd  26, 280(1)  # restore F26
+    lfd  27, 288(1)  # restore F27
+    lfd  28, 296(1)  # restore F28
+    lfd  29, 304(1)  # restore F29
+    lfd  30, 312(1)  # restore F30
+    lfd  31, 320(1)  # restore F31
+
     # restore CR
     ld  0, 160(1)
     mtcr  0
@@ -151,7 +224,7 @@ jump_fcontext:
     mtctr  0
 
     # adjust stack
-    addi  1, 1, 184
+    addi  1, 1, 328
 
     # zero in r3 indicates first jump to context-function
     cmpdi 3, 0
diff --git a/src/asm/make_ppc64_sysv_elf_gas.S b/src/asm/make_ppc64_sysv_elf_gas.S
index f513d36..20777d5 100644
--- a/src/asm/make_ppc64_sysv_elf_gas.S
+++ b/src/asm/make_ppc64_sysv_elf_gas.S
@@ -47,21 +47,56 @@
  *  -------------------------------------------------  *
  *  | 160 | 164 | 168 | 172 | 176 | 180 | 184 | 188 |  *
  *  -------------------------------------------------  *
- *  |     CR    |     LR    |     PC    | back-chain|  *
+ *  |     CR    |     LR    |     PC    |    F14    |  *
  *  -------------------------------------------------  *
  *  -------------------------------------------------  *
  *  |  48 |  49 |  50 |  51 |  52 |  53 |  54 |  55 |  *
  *  -------------------------------------------------  *
  *  | 192 | 196 | 200 | 204 | 208 | 212 | 216 | 220 |  *
  *  -------------------------------------------------  *
- *  |  cr saved |  lr saved |  compiler |   linker  |  *
+ *  |    F15    |    F16    |    F17    |    F18    |  *
  *  -------------------------------------------------  *
  *  -------------------------------------------------  *
  *  |  56 |  57 |  58 |  59 |  60 |  61 |  62 |  63 |  *
  *  -------------------------------------------------  *
  *  | 224 | 228 | 232 | 236 | 240 | 244 | 248 | 252 |  *
  *  -------------------------------------------------  *
- *  | TOC saved |    FCTX   |    DATA   |           |  *
+ *  |    F19    |    F20    |    F21    |    F22    |  *
+ *  -------------------------------------------------  *
+ *  -------------------------------------------------  *
+ *  |  64 |  65 |  66 |  67 |  68 |  69 |  70 |  71 |  *
+ *  -------------------------------------------------  *
+ *  | 256 | 260 | 264 | 268 | 272 | 276 | 280 | 284 |  *
+ *  -------------------------------------------------  *
+ *  |    F23    |    F24    |    F25    |    F26    |  *
+ *  -------------------------------------------------  *
+ *  -------------------------------------------------  *
+ *  |  72 |  73 |  74 |  75 |  76 |  77 |  78 |  79 |  *
+ *  -------------------------------------------------  *
+ *  | 288 | 292 | 296 | 300 | 304 | 308 | 312 | 316 |  *
+ *  -------------------------------------------------  *
+ *  |    F27    |    F28    |    F29    |    F30    |  *
+ *  -------------------------------------------------  *
+ *  -------------------------------------------------  *
+ *  |  80 |  81 |  82 |  83 |  84 |  85 |  86 |  87 |  *
+ *  -------------------------------------------------  *
+ *  | 320 | 324 | 328 | 332 | 336 | 340 | 344 | 348 |  *
+ *  -------------------------------------------------  *
+ *  |    F31    | back-chain|  cr saved |  lr saved |  *
+ *  -------------------------------------------------  *
+ *  -------------------------------------------------  *
+ *  |  88 |  89 |  90 |  91 |  92 |  93 |  94 |  95 |  *
+ *  -------------------------------------------------  *
+ *  | 352 | 356 | 360 | 364 | 368 | 372 | 376 | 380 |  *
+ *  -------------------------------------------------  *
+ *  |  compiler |   linker  | TOC saved |    FCTX   |  *
+ *  -------------------------------------------------  *
+ *  -------------------------------------------------  *
+ *  |  96 |  97 |  98 |  99 | 100 | 101 | 102 | 103 |  *
+ *  -------------------------------------------------  *
+ *  | 384 | 388 | 392 | 396 | 400 | 404 | 408 | 412 |  *
+ *  -------------------------------------------------  *
+ *  |    DATA   |           |           |           |  *
  *  -------------------------------------------------  *
  *                                                     *
  *******************************************************/
@@ -106,7 +141,7 @@ make_fcontext:
 
     # reserve space for context-data on context-stack
     # including 64 byte of linkage + parameter area (R1 % 16 == 0)
-    subi  %r3, %r3, 248
+    subi  %r3, %r3, 392
 
     # third arg of make_fcontext() == address of context-function
     # entry point (ELFv2) or descriptor (ELFv1)
@@ -124,7 +159,7 @@ make_fcontext:
 
     # set back-chain to zero
     li   %r0, 0
-    std  %r0, 184(%r3)
+    std  %r0, 328(%r3)
 
 #if _CALL_ELF != 2
     # zero in r3 indicates first jump to context-function
diff --git a/src/asm/make_ppc64_sysv_xcoff_gas.S b/src/asm/make_ppc64_sysv_xcoff_gas.S
index 2374b50..2c91813 100644
--- a/src/asm/make_ppc64_sysv_xcoff_gas.S
+++ b/src/asm/make_ppc64_sysv_xcoff_gas.S
@@ -47,21 +47,56 @@
  *  -------------------------------------------------  *
  *  | 160 | 164 | 168 | 172 | 176 | 180 | 184 | 188 |  *
  *  -------------------------------------------------  *
- *  |     CR    |     LR    |     PC    | back-chain|  *
+ *  |     CR    |     LR    |     PC    |    F14    |  *
  *  -------------------------------------------------  *
  *  -------------------------------------------------  *
  *  |  48 |  49 |  50 |  51 |  52 |  53 |  54 |  55 |  *
  *  -------------------------------------------------  *
  *  | 192 | 196 | 200 | 204 | 208 | 212 | 216 | 220 |  *
  *  -------------------------------------------------  *
- *  |  cr saved |  lr saved |  compiler |   linker  |  *
+ *  |    F15    |    F16    |    F17    |    F18    |  *
  *  -------------------------------------------------  *
  *  -------------------------------------------------  *
  *  |  56 |  57 |  58 |  59 |  60 |  61 |  62 |  63 |  *
  *  -------------------------------------------------  *
  *  | 224 | 228 | 232 | 236 | 240 | 244 | 248 | 252 |  *
  *  -------------------------------------------------  *
- *  | TOC saved |    FCTX   |    DATA   |           |  *
+ *  |    F19    |    F20    |    F21    |    F22    |  *
+ *  -------------------------------------------------  *
+ *  -------------------------------------------------  *
+ *  |  64 |  65 |  66 |  67 |  68 |  69 |  70 |  71 |  *
+ *  -------------------------------------------------  *
+ *  | 256 | 260 | 264 | 268 | 272 | 276 | 280 | 284 |  *
+ *  -------------------------------------------------  *
+ *  |    F23    |    F24    |    F25    |    F26    |  *
+ *  -------------------------------------------------  *
+ *  -------------------------------------------------  *
+ *  |  72 |  73 |  74 |  75 |  76 |  77 |  78 |  79 |  *
+ *  -------------------------------------------------  *
+ *  | 288 | 292 | 296 | 300 | 304 | 308 | 312 | 316 |  *
+ *  -------------------------------------------------  *
+ *  |    F27    |    F28    |    F29    |    F30    |  *
+ *  -------------------------------------------------  *
+ *  -------------------------------------------------  *
+ *  |  80 |  81 |  82 |  83 |  84 |  85 |  86 |  87 |  *
+ *  -------------------------------------------------  *
+ *  | 320 | 324 | 328 | 332 | 336 | 340 | 344 | 348 |  *
+ *  -------------------------------------------------  *
+ *  |    F31    | back-chain|  cr saved |  lr saved |  *
+ *  -------------------------------------------------  *
+ *  -------------------------------------------------  *
+ *  |  88 |  89 |  90 |  91 |  92 |  93 |  94 |  95 |  *
+ *  -------------------------------------------------  *
+ *  | 352 | 356 | 360 | 364 | 368 | 372 | 376 | 380 |  *
+ *  -------------------------------------------------  *
+ *  |  compiler |   linker  | TOC saved |    FCTX   |  *
+ *  -------------------------------------------------  *
+ *  -------------------------------------------------  *
+ *  |  96 |  97 |  98 |  99 | 100 | 101 | 102 | 103 |  *
+ *  -------------------------------------------------  *
+ *  | 384 | 388 | 392 | 396 | 400 | 404 | 408 | 412 |  *
+ *  -------------------------------------------------  *
+ *  |    DATA   |           |           |           |  *
  *  -------------------------------------------------  *
  *                                                     *
  *******************************************************/
@@ -86,7 +121,7 @@ make_fcontext:
 
     # reserve space for context-data on context-stack
     # including 64 byte of linkage + parameter area (R1 % 16 == 0)
-    subi  3, 3, 248
+    subi  3, 3, 392
 
     # third arg of make_fcontext() == address of context-function descriptor
     ld   4, 0(5)
@@ -97,7 +132,7 @@ make_fcontext:
 
     # set back-chain to zero
     li   0, 0
-    std  0, 184(3)
+    std  0, 328(3)
 
     # zero in r3 indicates first jump to context-function
     std  0, 152(3)
diff --git a/src/asm/ontop_ppc64_sysv_elf_gas.S b/src/asm/ontop_ppc64_sysv_elf_gas.S
index 46cf30d..c1530ce 100644
--- a/src/asm/ontop_ppc64_sysv_elf_gas.S
+++ b/src/asm/ontop_ppc64_sysv_elf_gas.S
@@ -47,21 +47,56 @@
  *  -------------------------------------------------  *
  *  | 160 | 164 | 168 | 172 | 176 | 180 | 184 | 188 |  *
  *  -------------------------------------------------  *
- *  |     CR    |     LR    |     PC    | back-chain|  *
+ *  |     CR    |     LR    |     PC    |    F14    |  *
  *  -------------------------------------------------  *
  *  -------------------------------------------------  *
  *  |  48 |  49 |  50 |  51 |  52 |  53 |  54 |  55 |  *
  *  -------------------------------------------------  *
  *  | 192 | 196 | 200 | 204 | 208 | 212 | 216 | 220 |  *
  *  -------------------------------------------------  *
- *  |  cr saved |  lr saved |  compiler |   linker  |  *
+ *  |    F15    |    F16    |    F17    |    F18    |  *
  *  -------------------------------------------------  *
  *  -------------------------------------------------  *
  *  |  56 |  57 |  58 |  59 |  60 |  61 |  62 |  63 |  *
  *  -------------------------------------------------  *
  *  | 224 | 228 | 232 | 236 | 240 | 244 | 248 | 252 |  *
  *  -------------------------------------------------  *
- *  | TOC saved |    FCTX   |    DATA   |           |  *
+ *  |    F19    |    F20    |    F21    |    F22    |  *
+ *  -------------------------------------------------  *
+ *  -------------------------------------------------  *
+ *  |  64 |  65 |  66 |  67 |  68 |  69 |  70 |  71 |  *
+ *  -------------------------------------------------  *
+ *  | 256 | 260 | 264 | 268 | 272 | 276 | 280 | 284 |  *
+ *  -------------------------------------------------  *
+ *  |    F23    |    F24    |    F25    |    F26    |  *
+ *  -------------------------------------------------  *
+ *  -------------------------------------------------  *
+ *  |  72 |  73 |  74 |  75 |  76 |  77 |  78 |  79 |  *
+ *  -------------------------------------------------  *
+ *  | 288 | 292 | 296 | 300 | 304 | 308 | 312 | 316 |  *
+ *  -------------------------------------------------  *
+ *  |    F27    |    F28    |    F29    |    F30    |  *
+ *  -------------------------------------------------  *
+ *  -------------------------------------------------  *
+ *  |  80 |  81 |  82 |  83 |  84 |  85 |  86 |  87 |  *
+ *  -------------------------------------------------  *
+ *  | 320 | 324 | 328 | 332 | 336 | 340 | 344 | 348 |  *
+ *  -------------------------------------------------  *
+ *  |    F31    | back-chain|  cr saved |  lr saved |  *
+ *  -------------------------------------------------  *
+ *  -------------------------------------------------  *
+ *  |  88 |  89 |  90 |  91 |  92 |  93 |  94 |  95 |  *
+ *  -------------------------------------------------  *
+ *  | 352 | 356 | 360 | 364 | 368 | 372 | 376 | 380 |  *
+ *  -------------------------------------------------  *
+ *  |  compiler |   linker  | TOC saved |    FCTX   |  *
+ *  -------------------------------------------------  *
+ *  -------------------------------------------------  *
+ *  |  96 |  97 |  98 |  99 | 100 | 101 | 102 | 103 |  *
+ *  -------------------------------------------------  *
+ *  | 384 | 388 | 392 | 396 | 400 | 404 | 408 | 412 |  *
+ *  -------------------------------------------------  *
+ *  |    DATA   |           |           |           |  *
  *  -------------------------------------------------  *
  *                                                     *
  *******************************************************/
@@ -98,7 +133,7 @@ ontop_fcontext:
 # endif
 #endif
     # reserve space on stack
-    subi  %r1, %r1, 184
+    subi  %r1, %r1, 328
 
 #if _CALL_ELF != 2
     std  %r2,  0(%r1)  # save TOC
@@ -125,6 +160,25 @@ ontop_fcontext:
     std  %r3,  152(%r1)  # save hidden
 #endif
 
+    stfd  %f14, 184(%r1)  # save F14
+    stfd  %f15, 192(%r1)  # save F15
+    stfd  %f16, 200(%r1)  # save F16
+    stfd  %f17, 208(%r1)  # save F17
+    stfd  %f18, 216(%r1)  # save F18
+    stfd  %f19, 224(%r1)  # save F19
+    stfd  %f20, 232(%r1)  # save F20
+    stfd  %f21, 240(%r1)  # save F21
+    stfd  %f22, 248(%r1)  # save F22
+    stfd  %f23, 256(%r1)  # save F23
+    stfd  %f24, 264(%r1)  # save F24
+    stfd  %f25, 272(%r1)  # save F25
+    stfd  %f26, 280(%r1)  # save F26
+    stfd  %f27, 288(%r1)  # save F27
+    stfd  %f28, 296(%r1)  # save F28
+    stfd  %f29, 304(%r1)  # save F29
+    stfd  %f30, 312(%r1)  # save F30
+    stfd  %f31, 320(%r1)  # save F31
+
     # save CR
     mfcr  %r0
     std   %r0, 160(%r1)
@@ -167,6 +221,25 @@ ontop_fcontext:
     ld  %r3,  152(%r1)  # restore hidden
 #endif
 
+    lfd  %f14, 184(%r1)  # restore F14
+    lfd  %f15, 192(%r1)  # restore F15
+    lfd  %f16, 200(%r1)  # restore F16
+    lfd  %f17, 208(%r1)  # restore F17
+    lfd  %f18, 216(%r1)  # restore F18
+    lfd  %f19, 224(%r1)  # restore F19
+    lfd  %f20, 232(%r1)  # restore F20
+    lfd  %f21, 240(%r1)  # restore F21
+    lfd  %f22, 248(%r1)  # restore F22
+    lfd  %f23, 256(%r1)  # restore F23
+    lfd  %f24, 264(%r1)  # restore F24
+    lfd  %f25, 272(%r1)  # restore F25
+    lfd  %f26, 280(%r1)  # restore F26
+    lfd  %f27, 288(%r1)  # restore F27
+    lfd  %f28, 296(%r1)  # restore F28
+    lfd  %f29, 304(%r1)  # restore F29
+    lfd  %f30, 312(%r1)  # restore F30
+    lfd  %f31, 320(%r1)  # restore F31
+
     # restore CR
     ld  %r0, 160(%r1)
     mtcr  %r0
@@ -204,7 +277,7 @@ return_to_ctx:
     mtlr  %r0
 
     # adjust stack
-    addi  %r1, %r1, 184
+    addi  %r1, %r1, 328
 
     # jump to context
     bctr
diff --git a/src/asm/ontop_ppc64_sysv_xcoff_gas.S b/src/asm/ontop_ppc64_sysv_xcoff_gas.S
index 546b1b2..a7af7f0 100644
--- a/src/asm/ontop_ppc64_sysv_xcoff_gas.S
+++ b/src/asm/ontop_ppc64_sysv_xcoff_gas.S
@@ -47,21 +47,56 @@
  *  -------------------------------------------------  *
  *  | 160 | 164 | 168 | 172 | 176 | 180 | 184 | 188 |  *
  *  -------------------------------------------------  *
- *  |     CR    |     LR    |     PC    | back-chain|  *
+ *  |     CR    |     LR    |     PC    |    F14    |  *
  *  -------------------------------------------------  *
  *  -------------------------------------------------  *
  *  |  48 |  49 |  50 |  51 |  52 |  53 |  54 |  55 |  *
  *  -------------------------------------------------  *
  *  | 192 | 196 | 200 | 204 | 208 | 212 | 216 | 220 |  *
  *  -------------------------------------------------  *
- *  |  cr saved |  lr saved |  compiler |   linker  |  *
+ *  |    F15    |    F16    |    F17    |    F18    |  *
  *  -------------------------------------------------  *
  *  -------------------------------------------------  *
  *  |  56 |  57 |  58 |  59 |  60 |  61 |  62 |  63 |  *
  *  -------------------------------------------------  *
  *  | 224 | 228 | 232 | 236 | 240 | 244 | 248 | 252 |  *
  *  -------------------------------------------------  *
- *  | TOC saved |    FCTX   |    DATA   |           |  *
+ *  |    F19    |    F20    |    F21    |    F22    |  *
+ *  -------------------------------------------------  *
+ *  -------------------------------------------------  *
+ *  |  64 |  65 |  66 |  67 |  68 |  69 |  70 |  71 |  *
+ *  -------------------------------------------------  *
+ *  | 256 | 260 | 264 | 268 | 272 | 276 | 280 | 284 |  *
+ *  -------------------------------------------------  *
+ *  |    F23    |    F24    |    F25    |    F26    |  *
+ *  -------------------------------------------------  *
+ *  -------------------------------------------------  *
+ *  |  72 |  73 |  74 |  75 |  76 |  77 |  78 |  79 |  *
+ *  -------------------------------------------------  *
+ *  | 288 | 292 | 296 | 300 | 304 | 308 | 312 | 316 |  *
+ *  -------------------------------------------------  *
+ *  |    F27    |    F28    |    F29    |    F30    |  *
+ *  -------------------------------------------------  *
+ *  -------------------------------------------------  *
+ *  |  80 |  81 |  82 |  83 |  84 |  85 |  86 |  87 |  *
+ *  -------------------------------------------------  *
+ *  | 320 | 324 | 328 | 332 | 336 | 340 | 344 | 348 |  *
+ *  -------------------------------------------------  *
+ *  |    F31    | back-chain|  cr saved |  lr saved |  *
+ *  -------------------------------------------------  *
+ *  -------------------------------------------------  *
+ *  |  88 |  89 |  90 |  91 |  92 |  93 |  94 |  95 |  *
+ *  -------------------------------------------------  *
+ *  | 352 | 356 | 360 | 364 | 368 | 372 | 376 | 380 |  *
+ *  -------------------------------------------------  *
+ *  |  compiler |   linker  | TOC saved |    FCTX   |  *
+ *  -------------------------------------------------  *
+ *  -------------------------------------------------  *
+ *  |  96 |  97 |  98 |  99 | 100 | 101 | 102 | 103 |  *
+ *  -------------------------------------------------  *
+ *  | 384 | 388 | 392 | 396 | 400 | 404 | 408 | 412 |  *
+ *  -------------------------------------------------  *
+ *  |    DATA   |           |           |           |  *
  *  -------------------------------------------------  *
  *                                                     *
  *******************************************************/
@@ -78,7 +113,7 @@ ontop_fcontext:
     .csect .text[PR], 5
 .ontop_fcontext:
     # reserve space on stack
-    subi  1, 1, 184
+    subi  1, 1, 328
 
     std  2, 0(1)  # save TOC
     std  14, 8(1)  # save R14
@@ -101,6 +136,25 @@ ontop_fcontext:
     std  31, 144(1)  # save R31
     std  3,  152(1)  # save hidden
 
+    stfd  14, 184(1)  # save F14
+    stfd  15, 192(1)  # save F15
+    stfd  16, 200(1)  # save F16
+    stfd  17, 208(1)  # save F17
+    stfd  18, 216(1)  # save F18
+    stfd  19, 224(1)  # save F19
+    stfd  20, 232(1)  # save F20
+    stfd  21, 240(1)  # save F21
+    stfd  22, 248(1)  # save F22
+    stfd  23, 256(1)  # save F23
+    stfd  24, 264(1)  # save F24
+    stfd  25, 272(1)  # save F25
+    stfd  26, 280(1)  # save F26
+    stfd  27, 288(1)  # save F27
+    stfd  28, 296(1)  # save F28
+    stfd  29, 304(1)  # save F29
+    stfd  30, 312(1)  # save F30
+    stfd  31, 320(1)  # save F31
+
     # save CR
     mfcr  0
     std  0, 160(1)
@@ -136,6 +190,25 @@ ontop_fcontext:
     ld  31, 144(1)  # restore R31
     ld  3,  152(1)  # restore hidden
 
+    lfd  14, 184(1)  # restore F14
+    lfd  15, 192(1)  # restore F15
+    lfd  16, 200(1)  # restore F16
+    lfd  17, 208(1)  # restore F17
+    lfd  18, 216(1)  # restore F18
+    lfd  19, 224(1)  # restore F19
+    lfd  20, 232(1)  # restore F20
+    lfd  21, 240(1)  # restore F21
+    lfd  22, 248(1)  # restore F22
+    lfd  23, 256(1)  # restore F23
+    lfd  24, 264(1)  # restore F24
+    lfd  25, 272(1)  # restore F25
+    lfd  26, 280(1)  # restore F26
+    lfd  27, 288(1)  # restore F27
+    lfd  28, 296(1)  # restore F28
+    lfd  29, 304(1)  # restore F29
+    lfd  30, 312(1)  # restore F30
+    lfd  31, 320(1)  # restore F31
+
     # restore CR
     ld  0, 160(1)
     mtcr  0
@@ -161,7 +234,7 @@ return_to_ctx:
     mtlr  0
 
     # adjust stack
-    addi  1, 1, 184
+    addi  1, 1, 328
 
     # jump to context
     bctr
-- 
2.43.0


From c3282910c1b966216d7b493a3b7e7a19cf189c90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:17 +0000
Subject: [PATCH 34/37] fix: arm Windows: preserve D8 to D15

The AAPCS (VFP, which Windows uses) lets the caller expect them back.
---
 src/asm/jump_arm_aapcs_pe_armasm.asm  | 22 +++++++++++++++++-
 src/asm/make_arm_aapcs_pe_armasm.asm  | 32 +++++++++++++++++++--------
 src/asm/ontop_arm_aapcs_pe_armasm.asm | 22 +++++++++++++++++-
 3 files changed, 65 insertions(+), 11 deletions(-)

diff --git a/src/asm/jump_arm_aapcs_pe_armasm.asm b/src/asm/jump_arm_aapcs_pe_armasm.asm
index 01a61c0..ad2fb90 100644
--- a/src/asm/jump_arm_aapcs_pe_armasm.asm
+++ b/src/asm/jump_arm_aapcs_pe_armasm.asm
@@ -12,13 +12,27 @@
 ; *  -------------------------------------------------  *
 ; *  | 0x0 | 0x4 | 0x8 | 0xc | 0x10| 0x14| 0x18| 0x1c|  *
 ; *  -------------------------------------------------  *
-; *  |deall|limit| base|hiddn|  v1 |  v2 |  v3 |  v4 |  *
+; *  |     d8    |     d9    |    d10    |    d11    |  *
 ; *  -------------------------------------------------  *
 ; *  -------------------------------------------------  *
 ; *  |  8  |  9  |  10 |  11 |  12 |  13 |  14 |  15 |  *
 ; *  -------------------------------------------------  *
 ; *  | 0x20| 0x24| 0x28| 0x2c| 0x30| 0x34| 0x38| 0x3c|  *
 ; *  -------------------------------------------------  *
+; *  |    d12    |    d13    |    d14    |    d15    |  *
+; *  -------------------------------------------------  *
+; *  -------------------------------------------------  *
+; *  |  16 |  17 |  18 |  19 |  20 |  21 |  22 |  23 |  *
+; *  -------------------------------------------------  *
+; *  | 0x40| 0x44| 0x48| 0x4c| 0x50| 0x54| 0x58| 0x5c|  *
+; *  -------------------------------------------------  *
+; *  |deall|limit| base|hiddn|  v1 |  v2 |  v3 |  v4 |  *
+; *  -------------------------------------------------  *
+; *  -------------------------------------------------  *
+; *  |  24 |  25 |  26 |  27 |  28 |  29 |  30 |  31 |  *
+; *  -------------------------------------------------  *
+; *  | 0x60| 0x64| 0x68| 0x6c| 0x70| 0x74| 0x78| 0x7c|  *
+; *  -------------------------------------------------  *
 ; *  |  v5 |  v6 |  v7 |  v8 |  lr |  pc | FCTX| DATA|  *
 ; *  -------------------------------------------------  *
 ; *                                                     *
@@ -48,12 +62,18 @@ jump_fcontext PROC
     ldr  ip, [v1, #0xe0c]
     push {ip}
 
+    ; save D8-D15
+    vpush {d8-d15}
+
     ; store RSP (pointing to context-data) in A1
     mov  a1, sp
 
     ; restore RSP (pointing to context-data) from A2
     mov  sp, a2
 
+    ; restore D8-D15
+    vpop {d8-d15}
+
     ; restore deallocation stack
     pop  {ip}
     str  ip, [v1, #0xe0c]
diff --git a/src/asm/make_arm_aapcs_pe_armasm.asm b/src/asm/make_arm_aapcs_pe_armasm.asm
index 27cbfb0..743186b 100644
--- a/src/asm/make_arm_aapcs_pe_armasm.asm
+++ b/src/asm/make_arm_aapcs_pe_armasm.asm
@@ -12,13 +12,27 @@
 ; *  -------------------------------------------------  *
 ; *  | 0x0 | 0x4 | 0x8 | 0xc | 0x10| 0x14| 0x18| 0x1c|  *
 ; *  -------------------------------------------------  *
-; *  |deall|limit| base|hiddn|  v1 |  v2 |  v3 |  v4 |  *
+; *  |     d8    |     d9    |    d10    |    d11    |  *
 ; *  -------------------------------------------------  *
 ; *  -------------------------------------------------  *
 ; *  |  8  |  9  |  10 |  11 |  12 |  13 |  14 |  15 |  *
 ; *  -------------------------------------------------  *
 ; *  | 0x20| 0x24| 0x28| 0x2c| 0x30| 0x34| 0x38| 0x3c|  *
 ; *  -------------------------------------------------  *
+; *  |    d12    |    d13    |    d14    |    d15    |  *
+; *  -------------------------------------------------  *
+; *  -------------------------------------------------  *
+; *  |  16 |  17 |  18 |  19 |  20 |  21 |  22 |  23 |  *
+; *  -------------------------------------------------  *
+; *  | 0x40| 0x44| 0x48| 0x4c| 0x50| 0x54| 0x58| 0x5c|  *
+; *  -------------------------------------------------  *
+; *  |deall|limit| base|hiddn|  v1 |  v2 |  v3 |  v4 |  *
+; *  -------------------------------------------------  *
+; *  -------------------------------------------------  *
+; *  |  24 |  25 |  26 |  27 |  28 |  29 |  30 |  31 |  *
+; *  -------------------------------------------------  *
+; *  | 0x60| 0x64| 0x68| 0x6c| 0x70| 0x74| 0x78| 0x7c|  *
+; *  -------------------------------------------------  *
 ; *  |  v5 |  v6 |  v7 |  v8 |  lr |  pc | FCTX| DATA|  *
 ; *  -------------------------------------------------  *
 ; *                                                     *
@@ -39,31 +53,31 @@ make_fcontext PROC
     bic  a1, a1, #0x0f
 
     ; reserve space for context-data on context-stack
-    sub  a1, a1, #0x48
+    sub  a1, a1, #0x88
 
     ; save top address of context_stack as 'base'
-    str  a4, [a1, #0x8]
+    str  a4, [a1, #0x48]
     ; second arg of make_fcontext() == size of context-stack
     ; compute bottom address of context-stack (limit)
     sub  a4, a4, a2
     ; save bottom address of context-stack as 'limit'
-    str  a4, [a1, #0x4]
+    str  a4, [a1, #0x44]
     ; save bottom address of context-stack as 'dealloction stack'
-    str  a4, [a1, #0x0]
+    str  a4, [a1, #0x40]
 
     ; third arg of make_fcontext() == address of context-function
-    str  a3, [a1, #0x34]
+    str  a3, [a1, #0x74]
 
     ; compute address of returned transfer_t
-    add  a2, a1, #0x38
+    add  a2, a1, #0x78
     mov  a3, a2
-    str  a3, [a1, #0xc]
+    str  a3, [a1, #0x4c]
 
     ; compute abs address of label finish
     adr  a2, finish
     ; save address of finish as return-address for context-function
     ; will be entered after context-function returns
-    str  a2, [a1, #0x30]
+    str  a2, [a1, #0x70]
 
     bx  lr ; return pointer to context-data
 
diff --git a/src/asm/ontop_arm_aapcs_pe_armasm.asm b/src/asm/ontop_arm_aapcs_pe_armasm.asm
index 640df87..825d9d7 100644
--- a/src/asm/ontop_arm_aapcs_pe_armasm.asm
+++ b/src/asm/ontop_arm_aapcs_pe_armasm.asm
@@ -12,13 +12,27 @@
 ; *  -------------------------------------------------  *
 ; *  | 0x0 | 0x4 | 0x8 | 0xc | 0x10| 0x14| 0x18| 0x1c|  *
 ; *  -------------------------------------------------  *
-; *  |deall|limit| base|hiddn|  v1 |  v2 |  v3 |  v4 |  *
+; *  |     d8    |     d9    |    d10    |    d11    |  *
 ; *  -------------------------------------------------  *
 ; *  -------------------------------------------------  *
 ; *  |  8  |  9  |  10 |  11 |  12 |  13 |  14 |  15 |  *
 ; *  -------------------------------------------------  *
 ; *  | 0x20| 0x24| 0x28| 0x2c| 0x30| 0x34| 0x38| 0x3c|  *
 ; *  -------------------------------------------------  *
+; *  |    d12    |    d13    |    d14    |    d15    |  *
+; *  -------------------------------------------------  *
+; *  -------------------------------------------------  *
+; *  |  16 |  17 |  18 |  19 |  20 |  21 |  22 |  23 |  *
+; *  -------------------------------------------------  *
+; *  | 0x40| 0x44| 0x48| 0x4c| 0x50| 0x54| 0x58| 0x5c|  *
+; *  -------------------------------------------------  *
+; *  |deall|limit| base|hiddn|  v1 |  v2 |  v3 |  v4 |  *
+; *  -------------------------------------------------  *
+; *  -------------------------------------------------  *
+; *  |  24 |  25 |  26 |  27 |  28 |  29 |  30 |  31 |  *
+; *  -------------------------------------------------  *
+; *  | 0x60| 0x64| 0x68| 0x6c| 0x70| 0x74| 0x78| 0x7c|  *
+; *  -------------------------------------------------  *
 ; *  |  v5 |  v6 |  v7 |  v8 |  lr |  pc | FCTX| DATA|  *
 ; *  -------------------------------------------------  *
 ; *                                                     *
@@ -48,12 +62,18 @@ ontop_fcontext PROC
     ldr  ip, [v1, #0xe0c]
     push {ip}
 
+    ; save D8-D15
+    vpush {d8-d15}
+
     ; store RSP (pointing to context-data) in A1
     mov  a1, sp
 
     ; restore RSP (pointing to context-data) from A2
     mov  sp, a2
 
+    ; restore D8-D15
+    vpop {d8-d15}
+
     ; restore deallocation stack
     pop  {ip}
     str  ip, [v1, #0xe0c]
-- 
2.43.0


From d073cbaa727bd66031e656f286f7e7e408e49d26 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:01 +0000
Subject: [PATCH 35/37] fix: shadow stacks: a failing map_shadow_stack() was
 ignored, its assertion did not compile

---
 .../boost/context/continuation_fcontext.hpp   | 19 +++++++++++++++++--
 include/boost/context/fiber_fcontext.hpp      | 19 +++++++++++++++++--
 2 files changed, 34 insertions(+), 4 deletions(-)

diff --git a/include/boost/context/continuation_fcontext.hpp b/include/boost/context/continuation_fcontext.hpp
index 9124672..0b4c769 100644
--- a/include/boost/context/continuation_fcontext.hpp
+++ b/include/boost/context/continuation_fcontext.hpp
@@ -46,7 +46,10 @@
 
 #if defined(__CET__) && defined(__unix__)
 #  include <cet.h>
+#  include <cerrno>
+#  include <system_error>
 #  include <sys/mman.h>
+#  include <unistd.h>
 #  define SHSTK_ENABLED (__CET__ & 0x2)
 #  define BOOST_CONTEXT_SHADOW_STACK (SHSTK_ENABLED && SHADOW_STACK_SYSCALL)
 #  define __NR_map_shadow_stack 451
@@ -194,7 +197,13 @@ fcontext_t create_context1( StackAlloc && salloc, Fn && fn) {
     ss_size = (ss_size > 4096) ? size : 4096;
     // create shadow stack
     void *ss_base = (void *)syscall(__NR_map_shadow_stack, 0, ss_size, SHADOW_STACK_SET_TOKEN);
-    BOOST_ASSERT(ss_base != -1);
+    if ( BOOST_UNLIKELY( reinterpret_cast< void * >( -1) == ss_base) ) {
+        const int err = errno;
+        record->deallocate();
+        throw std::system_error(
+                std::error_code( err, std::system_category() ),
+                "map_shadow_stack() failed");
+    }
     unsigned long ss_sp = (unsigned long)ss_base + ss_size;
     /* pass the shadow stack pointer to make_fcontext
 	 i.e., link the new shadow stack with the new fcontext
@@ -235,7 +244,13 @@ fcontext_t create_context2( preallocated palloc, StackAlloc && salloc, Fn && fn)
     ss_size = (ss_size > 4096) ? size : 4096;
     // create shadow stack
     void *ss_base = (void *)syscall(__NR_map_shadow_stack, 0, ss_size, SHADOW_STACK_SET_TOKEN);
-    BOOST_ASSERT(ss_base != -1);
+    if ( BOOST_UNLIKELY( reinterpret_cast< void * >( -1) == ss_base) ) {
+        const int err = errno;
+        record->deallocate();
+        throw std::system_error(
+                std::error_code( err, std::system_category() ),
+                "map_shadow_stack() failed");
+    }
     unsigned long ss_sp = (unsigned long)ss_base + ss_size;
     /* pass the shadow stack pointer to make_fcontext
 	 i.e., link the new shadow stack with the new fcontext
diff --git a/include/boost/context/fiber_fcontext.hpp b/include/boost/context/fiber_fcontext.hpp
index a2760cb..f297712 100644
--- a/include/boost/context/fiber_fcontext.hpp
+++ b/include/boost/context/fiber_fcontext.hpp
@@ -46,7 +46,10 @@
 
 #if defined(__CET__) && defined(__unix__)
 #  include <cet.h>
+#  include <cerrno>
+#  include <system_error>
 #  include <sys/mman.h>
+#  include <unistd.h>
 #  define SHSTK_ENABLED (__CET__ & 0x2)
 #  define BOOST_CONTEXT_SHADOW_STACK (SHSTK_ENABLED && SHADOW_STACK_SYSCALL)
 #  define __NR_map_shadow_stack 451
@@ -191,7 +194,13 @@ fcontext_t create_fiber1( StackAlloc && salloc, Fn && fn) {
     ss_size = (ss_size > 4096) ? size : 4096;
     // create shadow stack
     void *ss_base = (void *)syscall(__NR_map_shadow_stack, 0, ss_size, SHADOW_STACK_SET_TOKEN);
-    BOOST_ASSERT(ss_base != -1);
+    if ( BOOST_UNLIKELY( reinterpret_cast< void * >( -1) == ss_base) ) {
+        const int err = errno;
+        record->deallocate();
+        throw std::system_error(
+                std::error_code( err, std::system_category() ),
+                "map_shadow_stack() failed");
+    }
     unsigned long ss_sp = (unsigned long)ss_base + ss_size;
     /* pass the shadow stack pointer to make_fcontext
 	 i.e., link the new shadow stack with the new fcontext
@@ -232,7 +241,13 @@ fcontext_t create_fiber2( preallocated palloc, StackAlloc && salloc, Fn && fn) {
     ss_size = (ss_size > 4096) ? size : 4096;
     // create shadow stack
     void *ss_base = (void *)syscall(__NR_map_shadow_stack, 0, ss_size, SHADOW_STACK_SET_TOKEN);
-    BOOST_ASSERT(ss_base != -1);
+    if ( BOOST_UNLIKELY( reinterpret_cast< void * >( -1) == ss_base) ) {
+        const int err = errno;
+        record->deallocate();
+        throw std::system_error(
+                std::error_code( err, std::system_category() ),
+                "map_shadow_stack() failed");
+    }
     unsigned long ss_sp = (unsigned long)ss_base + ss_size;
     /* pass the shadow stack pointer to make_fcontext
 	 i.e., link the new shadow stack with the new fcontext
-- 
2.43.0


From b3918609264daf35c514084e1676eb6e236e22b8 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:01 +0000
Subject: [PATCH 36/37] fix: x86_64 with shadow stacks: a context function that
 returned was executed again instead of ending the process

---
 src/asm/make_x86_64_sysv_elf_gas.S | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/asm/make_x86_64_sysv_elf_gas.S b/src/asm/make_x86_64_sysv_elf_gas.S
index 9336210..f55a20b 100644
--- a/src/asm/make_x86_64_sysv_elf_gas.S
+++ b/src/asm/make_x86_64_sysv_elf_gas.S
@@ -106,9 +106,8 @@ make_fcontext:
     call  1f
     jmp  trampoline
 1:
-    /* save address of "jmp trampoline" as return-address */
-    /* for context-function */
-    pop 0x38(%rax)
+    /* remove it from the stack; the context-function returns to finish */
+    pop  %rcx
     /* Get the new SSP.  */
     rdsspq  %r9
     /* restore original shadow stack */
-- 
2.43.0


From 703b00446006058447dcb17c60da1b1000abc8ce Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:18:41 +0000
Subject: [PATCH 37/37] fix: ucontext, winfib: fiber.hpp and continuation.hpp
 could not be included together

Both defined detail::forced_unwind, differently: a program that included both
did not compile, one that used each in a translation unit of its own broke
the one definition rule. The implementations based on the assembler share
the definition in detail/exception.hpp; now all do.
---
 include/boost/context/continuation_ucontext.hpp | 11 ++---------
 include/boost/context/continuation_winfib.hpp   | 11 ++---------
 include/boost/context/fiber_ucontext.hpp        | 11 ++---------
 include/boost/context/fiber_winfib.hpp          | 11 ++---------
 4 files changed, 8 insertions(+), 36 deletions(-)

diff --git a/include/boost/context/continuation_ucontext.hpp b/include/boost/context/continuation_ucontext.hpp
index 73540be..0bf8a98 100644
--- a/include/boost/context/continuation_ucontext.hpp
+++ b/include/boost/context/continuation_ucontext.hpp
@@ -35,6 +35,7 @@ extern "C" {
 #include <boost/config.hpp>
 
 #include <boost/context/detail/disable_overload.hpp>
+#include <boost/context/detail/exception.hpp>
 #if defined(BOOST_NO_CXX14_STD_EXCHANGE)
 #include <boost/context/detail/exchange.hpp>
 #endif
@@ -220,14 +221,6 @@ struct BOOST_CONTEXT_DECL activation_record_initializer {
     ~activation_record_initializer();
 };
 
-struct forced_unwind {
-    activation_record   *   from{ nullptr };
-
-    forced_unwind( activation_record * from_) noexcept :
-        from{ from_ } {
-    }
-};
-
 template< typename Ctx, typename StackAlloc, typename Fn >
 class capture_record : public activation_record {
 private:
@@ -281,7 +274,7 @@ public:
             c = std::invoke( fn_, std::move( c) );
 #endif  
         } catch ( forced_unwind const& ex) {
-            c = Ctx{ ex.from };
+            c = Ctx{ static_cast< activation_record * >( ex.fctx) };
         }
         // this context has finished its task
 		from = nullptr;
diff --git a/include/boost/context/continuation_winfib.hpp b/include/boost/context/continuation_winfib.hpp
index 49f4034..ec7cfb8 100644
--- a/include/boost/context/continuation_winfib.hpp
+++ b/include/boost/context/continuation_winfib.hpp
@@ -27,6 +27,7 @@
 #include <boost/config.hpp>
 
 #include <boost/context/detail/disable_overload.hpp>
+#include <boost/context/detail/exception.hpp>
 #if defined(BOOST_NO_CXX14_STD_EXCHANGE)
 #include <boost/context/detail/exchange.hpp>
 #endif
@@ -195,14 +196,6 @@ struct BOOST_CONTEXT_DECL activation_record_initializer {
     ~activation_record_initializer();
 };
 
-struct forced_unwind {
-    activation_record   *   from{ nullptr };
-
-    explicit forced_unwind( activation_record * from_) :
-        from{ from_ } {
-    }
-};
-
 template< typename Ctx, typename StackAlloc, typename Fn >
 class capture_record : public activation_record {
 private:
@@ -251,7 +244,7 @@ public:
             c = std::invoke( fn_, std::move( c) );
 #endif  
         } catch ( forced_unwind const& ex) {
-            c = Ctx{ ex.from };
+            c = Ctx{ static_cast< activation_record * >( ex.fctx) };
         }
         // this context has finished its task
         from = nullptr;
diff --git a/include/boost/context/fiber_ucontext.hpp b/include/boost/context/fiber_ucontext.hpp
index 0ddf975..6a89bab 100644
--- a/include/boost/context/fiber_ucontext.hpp
+++ b/include/boost/context/fiber_ucontext.hpp
@@ -36,6 +36,7 @@ extern "C" {
 #include <boost/predef.h>
 
 #include <boost/context/detail/disable_overload.hpp>
+#include <boost/context/detail/exception.hpp>
 #if defined(BOOST_NO_CXX14_STD_EXCHANGE)
 #include <boost/context/detail/exchange.hpp>
 #endif
@@ -245,14 +246,6 @@ struct BOOST_CONTEXT_DECL fiber_activation_record_initializer {
     ~fiber_activation_record_initializer();
 };
 
-struct forced_unwind {
-    fiber_activation_record  *  from{ nullptr };
-
-    forced_unwind( fiber_activation_record * from_) noexcept :
-        from{ from_ } {
-    }
-};
-
 template< typename Ctx, typename StackAlloc, typename Fn >
 class fiber_capture_record : public fiber_activation_record {
 private:
@@ -306,7 +299,7 @@ public:
             c = std::invoke( fn_, std::move( c) );
 #endif  
         } catch ( forced_unwind const& ex) {
-            c = Ctx{ ex.from };
+            c = Ctx{ static_cast< fiber_activation_record * >( ex.fctx) };
         }
         // this context has finished its task
 		from = nullptr;
diff --git a/include/boost/context/fiber_winfib.hpp b/include/boost/context/fiber_winfib.hpp
index 90e988b..00da999 100644
--- a/include/boost/context/fiber_winfib.hpp
+++ b/include/boost/context/fiber_winfib.hpp
@@ -27,6 +27,7 @@
 #include <boost/config.hpp>
 
 #include <boost/context/detail/disable_overload.hpp>
+#include <boost/context/detail/exception.hpp>
 #if defined(BOOST_NO_CXX14_STD_EXCHANGE)
 #include <boost/context/detail/exchange.hpp>
 #endif
@@ -194,14 +195,6 @@ struct BOOST_CONTEXT_DECL fiber_activation_record_initializer {
     ~fiber_activation_record_initializer();
 };
 
-struct forced_unwind {
-    fiber_activation_record  *  from{ nullptr };
-
-    explicit forced_unwind( fiber_activation_record * from_) :
-        from{ from_ } {
-    }
-};
-
 template< typename Ctx, typename StackAlloc, typename Fn >
 class fiber_capture_record : public fiber_activation_record {
 private:
@@ -250,7 +243,7 @@ public:
             c = std::invoke( fn_, std::move( c) );
 #endif  
         } catch ( forced_unwind const& ex) {
-            c = Ctx{ ex.from };
+            c = Ctx{ static_cast< fiber_activation_record * >( ex.fctx) };
         }
         // this context has finished its task
         from = nullptr;
-- 
2.43.0

