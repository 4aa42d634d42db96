From 24be6047e9507953e72d1c8368a3cf6cb1042bb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:04:08 +0000
Subject: [PATCH 01/82] fix: check every array index against its dimension, and
 the array against null

Negative indexes, indexes beyond one dimension of a multi-dimensional array, and
assignments used as expressions were not checked, so they read or wrote outside the
element; a null array crashed the process.
---
 modules/exec/commands.cpp | 149 ++++++++++++--------------------------
 1 file changed, 48 insertions(+), 101 deletions(-)

diff --git a/modules/exec/commands.cpp b/modules/exec/commands.cpp
index 5125de2..b93ed48 100644
--- a/modules/exec/commands.cpp
+++ b/modules/exec/commands.cpp
@@ -1162,72 +1162,38 @@ namespace X_ROOT_NS::modules::exec {
 
     //-------- ---------- ---------- ---------- ----------
 
-    namespace
+    // Pops the indexes of an array element (the last dimension is on the top), and computes it's
+    // position in the array. Returns false if any index is out of the range of it's dimension.
+    __AlwaysInline static bool __pop_array_index(executor_stack_t & stack, rt_ref_t array_ref,
+                                dimension_t dimension, array_length_t * out_index)
     {
-        namespace __mul_array_index_ns
-        {
-            typedef dimension_t         __d_t;
-            typedef array_length_t      __l_t;
-            typedef executor_stack_t    __stack_t;
-
-            template<__d_t _d> struct __mul_t
-            {
-                X_ALWAYS_INLINE __l_t operator()(__stack_t & stack, __l_t * ls)
-                {
-                    return stack.pop<__l_t>() * (*ls) + __mul_t<_d - 1>()(stack, ls - 1);
-                }
-            };
+        array_length_t index = stack.pop<array_length_t>();
 
-            template<> struct __mul_t<0>
-            {
-                X_ALWAYS_INLINE __l_t operator()(__stack_t & stack, __l_t * p)
-                {
-                    return 0;
-                }
-            };
-        }
-
-        template<dimension_t _dimension>
-        X_ALWAYS_INLINE array_length_t __mul_array_index(executor_stack_t & stack,
-                                                         array_length_t * lengths)
+        if (dimension == 1)
         {
-            return __mul_array_index_ns::__mul_t<_dimension>()(stack, lengths);
+            *out_index = index;
+            return index >= 0 && index < mm::get_array_length(array_ref);
         }
-    }
 
-    __AlwaysInline static array_length_t __array_index(executor_stack_t & stack,
-                                dimension_t dimension, array_length_t * lengths)
-    {
-        array_length_t index = 0;
-        const dimension_t partical_dimension = 8;
+        // The lengths are accumulated from the last dimension to the first one.
+        array_length_t * lengths = mm::get_array_lengths(array_ref);
+        array_length_t position = 0, unit = 1;
 
         while (true)
         {
-            switch (dimension)
-            {
-                case 0: return index;
-
-                #define __Case(_d)                                                      \
-                    case _d:                                                            \
-                        return index + __mul_array_index<_d>(stack, lengths);
-
-                __Case(2)
-                __Case(3)
-                __Case(4)
-                __Case(5)
-                __Case(6)
-                __Case(7)
-                __Case(8)
+            if (index < 0 || (int64_t)index * unit >= *lengths)
+                return false;
 
-                #undef __Case
+            position += index * unit;
+            if (--dimension == 0)
+                break;
 
-                default:
-                    index += __mul_array_index<partical_dimension>(stack, lengths);
-                    lengths -= partical_dimension;
-                    dimension -= partical_dimension;
-                    continue;
-            }
+            unit  = *lengths--;
+            index = stack.pop<array_length_t>();
         }
+
+        *out_index = position;
+        return true;
     }
 
     //-------- ---------- ---------- ---------- ----------
@@ -1254,15 +1220,10 @@ namespace X_ROOT_NS::modules::exec {
         __BeginExecute(ctx)
 
             rt_ref_t array_ref = ctx.stack.pop<rt_ref_t>(); 
-            array_length_t index = ctx.stack.pop<array_length_t>();
-
-            if constexpr (_dimension >= 2)
-            {
-                array_length_t * lengths = mm::get_array_lengths(array_ref);
-                index += __mul_array_index<_dimension - 1>(ctx.stack, lengths);
-            }
+            __CheckNullReference(ctx, array_ref);
 
-            if (index >= mm::get_array_length(array_ref))
+            array_length_t index;
+            if (!__pop_array_index(ctx.stack, array_ref, _dimension, &index))
                 __RaiseOutOfRangeException(ctx);
 
             ctx.stack.push<__value2_t>(static_cast<__value2_t>(
@@ -1295,12 +1256,10 @@ namespace X_ROOT_NS::modules::exec {
         __BeginExecute(ctx)
 
             rt_ref_t array_ref = ctx.stack.pop<rt_ref_t>(); 
-            array_length_t index = ctx.stack.pop<array_length_t>();
-            array_length_t * lengths = mm::get_array_lengths(array_ref);
-
-            index += __array_index(ctx.stack, __This->__dimension - 1, lengths);
+            __CheckNullReference(ctx, array_ref);
 
-            if (index >= mm::get_array_length(array_ref))
+            array_length_t index;
+            if (!__pop_array_index(ctx.stack, array_ref, __This->__dimension, &index))
                 __RaiseOutOfRangeException(ctx);
 
             ctx.stack.push<__value2_t>(static_cast<__value2_t>(
@@ -1368,15 +1327,10 @@ namespace X_ROOT_NS::modules::exec {
         __BeginExecute(ctx)
 
             rt_ref_t array_ref = ctx.stack.pop<rt_ref_t>(); 
-            array_length_t index = ctx.stack.pop<array_length_t>();
-
-            if constexpr (_dimension >= 2)
-            {
-                array_length_t * lengths = mm::get_array_lengths(array_ref);
-                index += __mul_array_index<_dimension - 1>(ctx.stack, lengths);
-            }
+            __CheckNullReference(ctx, array_ref);
 
-            if (index >= mm::get_array_length(array_ref))
+            array_length_t index;
+            if (!__pop_array_index(ctx.stack, array_ref, _dimension, &index))
                 __RaiseOutOfRangeException(ctx);
 
             ctx.stack.push(array_ref + index * __element_size);
@@ -1408,12 +1362,10 @@ namespace X_ROOT_NS::modules::exec {
         __BeginExecute(ctx)
 
             rt_ref_t array_ref = ctx.stack.pop<rt_ref_t>(); 
-            array_length_t index = ctx.stack.pop<array_length_t>();
-            array_length_t * lengths = mm::get_array_lengths(array_ref);
+            __CheckNullReference(ctx, array_ref);
 
-            index += __array_index(ctx.stack, __This->__dimension - 1, lengths);
-
-            if (index >= mm::get_array_length(array_ref))
+            array_length_t index;
+            if (!__pop_array_index(ctx.stack, array_ref, __This->__dimension, &index))
                 __RaiseOutOfRangeException(ctx);
 
             ctx.stack.push(array_ref + index * __element_size);
@@ -2967,15 +2919,10 @@ namespace X_ROOT_NS::modules::exec {
         __BeginExecute(ctx)
 
             rt_ref_t array_ref = ctx.stack.pop<rt_ref_t>(); 
-            array_length_t index = ctx.stack.pop<array_length_t>();
+            __CheckNullReference(ctx, array_ref);
 
-            if (_dimension >= 2)
-            {
-                array_length_t * lengths = mm::get_array_lengths(array_ref);
-                index += __mul_array_index<_dimension - 1>(ctx.stack, lengths);
-            }
-
-            if (index >= mm::get_array_length(array_ref))
+            array_length_t index;
+            if (!__pop_array_index(ctx.stack, array_ref, _dimension, &index))
                 __RaiseOutOfRangeException(ctx);
 
             mm::set_array_element<__value1_t>(
@@ -3007,10 +2954,11 @@ namespace X_ROOT_NS::modules::exec {
         __BeginExecute(ctx)
 
             rt_ref_t array_ref = ctx.stack.pop<rt_ref_t>(); 
-            array_length_t index = ctx.stack.pop<array_length_t>();
-            array_length_t * lengths = mm::get_array_lengths(array_ref);
+            __CheckNullReference(ctx, array_ref);
 
-            index += __array_index(ctx.stack, __This->__dimension - 1, lengths);
+            array_length_t index;
+            if (!__pop_array_index(ctx.stack, array_ref, __This->__dimension, &index))
+                __RaiseOutOfRangeException(ctx);
 
             mm::set_array_element<__value1_t>(
                 array_ref, index, static_cast<__value1_t>(ctx.stack.pop<__value2_t>())
@@ -3541,13 +3489,11 @@ namespace X_ROOT_NS::modules::exec {
         __BeginExecute(ctx)
 
             rt_ref_t array_ref = ctx.stack.pop<rt_ref_t>(); 
-            array_length_t index = ctx.stack.pop<array_length_t>();
+            __CheckNullReference(ctx, array_ref);
 
-            if (_dimension >= 2)
-            {
-                array_length_t * lengths = mm::get_array_lengths(array_ref);
-                index += __mul_array_index<_dimension - 1>(ctx.stack, lengths);
-            }
+            array_length_t index;
+            if (!__pop_array_index(ctx.stack, array_ref, _dimension, &index))
+                __RaiseOutOfRangeException(ctx);
 
             mm::set_array_element<__value1_t>(
                 array_ref, index, static_cast<__value1_t>(ctx.stack.pick<__value2_t>())
@@ -3578,10 +3524,11 @@ namespace X_ROOT_NS::modules::exec {
         __BeginExecute(ctx)
 
             rt_ref_t array_ref = ctx.stack.pop<rt_ref_t>(); 
-            array_length_t index = ctx.stack.pop<array_length_t>();
-            array_length_t * lengths = mm::get_array_lengths(array_ref);
+            __CheckNullReference(ctx, array_ref);
 
-            index += __array_index(ctx.stack, __This->__dimension - 1, lengths);
+            array_length_t index;
+            if (!__pop_array_index(ctx.stack, array_ref, __This->__dimension, &index))
+                __RaiseOutOfRangeException(ctx);
 
             mm::set_array_element<__value1_t>(
                 array_ref, index, static_cast<__value1_t>(ctx.stack.pick<__value2_t>())
-- 
2.43.0


From e9b903650aeed78c4a4996cb530443f922f7af90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:04:08 +0000
Subject: [PATCH 02/82] fix: allocate and clear all elements of a
 multi-dimensional array

Only the length of the first dimension was allocated.
---
 modules/mm/mm.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/modules/mm/mm.cpp b/modules/mm/mm.cpp
index d05be4f..2899bfc 100644
--- a/modules/mm/mm.cpp
+++ b/modules/mm/mm.cpp
@@ -163,6 +163,8 @@ namespace X_ROOT_NS::modules::mm {
                 length *= *l;
             }
 
+            size = _alignf(length * element_size, sizeof(rt_stack_unit_t));
+
             // type info + length of each dimensions + array length.
             const size_t extern_size = _alignf(
                 sizeof(rt_type_t *) + sizeof(array_length_t) * dimension + sizeof(array_length_t),
-- 
2.43.0


From fd4fe05112331cbf240331bf3bb651bf27fb1b88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:04:27 +0000
Subject: [PATCH 03/82] fix: do not print a debug line for every struct
 argument compiled

---
 modules/compile/expression.cpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/modules/compile/expression.cpp b/modules/compile/expression.cpp
index eb964ab..77d3b0a 100644
--- a/modules/compile/expression.cpp
+++ b/modules/compile/expression.cpp
@@ -1092,8 +1092,6 @@ namespace X_ROOT_NS::modules::compile {
             ref_t type_ref = __ref_of(ctx, atype);
             pool.append<x_stack_alloc_xil_t>(type_ref);
 
-            _PP(atype);
-
             exp->compile(ctx, pool);
         }
         else
-- 
2.43.0


From 75419b67c197963863dfbb17c018da7e47b7b01d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:06:30 +0000
Subject: [PATCH 04/82] fix: allocate arrays by the size of the element
 variable

Arrays of structs larger than 8 bytes, and arrays of classes whose instances are smaller
than a reference, were allocated too small.
---
 include/modules/rt.h | 3 +++
 modules/mm/mm.cpp    | 2 +-
 modules/rt/rt.cpp    | 3 +++
 3 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/modules/rt.h b/include/modules/rt.h
index c219c6d..bc05b92 100644
--- a/include/modules/rt.h
+++ b/include/modules/rt.h
@@ -1516,6 +1516,9 @@ namespace X_ROOT_NS::modules::rt {
         // Dimension
         dimension_t dimension = 0;
 
+        // Size of an element, determined before creating arrays.
+        msize_t element_size = unknown_msize;
+
         // Gets assembly.
         virtual rt_assembly_t * get_assembly() override final;
 
diff --git a/modules/mm/mm.cpp b/modules/mm/mm.cpp
index 2899bfc..14a77a5 100644
--- a/modules/mm/mm.cpp
+++ b/modules/mm/mm.cpp
@@ -140,7 +140,7 @@ namespace X_ROOT_NS::modules::mm {
         dimension_t dimension = type->dimension;
 
         array_length_t length = *lengths;
-        size_t element_size = unit_align(1, type->element_type->get_size());
+        size_t element_size = type->element_size;
         size_t size = _alignf(length * element_size, sizeof(rt_stack_unit_t));
 
         void * obj;
diff --git a/modules/rt/rt.cpp b/modules/rt/rt.cpp
index bdcb780..0dcd20a 100644
--- a/modules/rt/rt.cpp
+++ b/modules/rt/rt.cpp
@@ -1800,6 +1800,9 @@ namespace X_ROOT_NS::modules::rt {
         _A(element_type != nullptr);
 
         element_type->pre_new(env);
+
+        if (element_size == unknown_msize)
+            element_size = element_type->get_variable_size(env);
     }
 
     // Gets ttype.
-- 
2.43.0


From 0b425ea904e6a8544b3dc7933ae0977612a2eaca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:06:30 +0000
Subject: [PATCH 05/82] fix: raise NullReferenceException for null in field
 accesses and instance calls

They crashed the process.
---
 modules/exec/commands.cpp | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/modules/exec/commands.cpp b/modules/exec/commands.cpp
index b93ed48..51d9487 100644
--- a/modules/exec/commands.cpp
+++ b/modules/exec/commands.cpp
@@ -1044,8 +1044,11 @@ namespace X_ROOT_NS::modules::exec {
 
         __BeginExecute(ctx)
 
+            rt_ref_t obj = ctx.stack.pop<rt_ref_t>();
+            __CheckNullReference(ctx, obj);
+
             ctx.stack.push(static_cast<__value2_t>(
-                __Field(__value1_t, ctx.stack.pop<rt_ref_t>(), __This->__offset)
+                __Field(__value1_t, obj, __This->__offset)
             ));
 
         __EndExecute()
@@ -1078,8 +1081,11 @@ namespace X_ROOT_NS::modules::exec {
 
         __BeginExecute(ctx)
 
+            rt_ref_t obj = ctx.stack.pop<rt_ref_t>();
+            __CheckNullReference(ctx, obj);
+
             ctx.stack.push(
-                __FieldAddress(ctx.stack.pop<rt_ref_t>(), __This->__offset)
+                __FieldAddress(obj, __This->__offset)
             );
 
         __EndExecute()
@@ -2874,7 +2880,10 @@ namespace X_ROOT_NS::modules::exec {
 
         __BeginExecute(ctx)
 
-            void * field = __FieldAddress(ctx.stack.pop<rt_ref_t>(), __This->__offset);
+            rt_ref_t obj = ctx.stack.pop<rt_ref_t>();
+            __CheckNullReference(ctx, obj);
+
+            void * field = __FieldAddress(obj, __This->__offset);
             *(__value1_t *)field = static_cast<__value1_t>(ctx.stack.pop<__value2_t>());
 
         __EndExecute()
@@ -3443,7 +3452,10 @@ namespace X_ROOT_NS::modules::exec {
 
         __BeginExecute(ctx)
 
-            void * field = __FieldAddress(ctx.stack.pop<rt_ref_t>(), __This->__offset);
+            rt_ref_t obj = ctx.stack.pop<rt_ref_t>();
+            __CheckNullReference(ctx, obj);
+
+            void * field = __FieldAddress(obj, __This->__offset);
             *(__value1_t *)field = static_cast<__value1_t>(ctx.stack.pick<__value2_t>());
 
         __EndExecute()
@@ -4141,6 +4153,7 @@ namespace X_ROOT_NS::modules::exec {
         __BeginExecute(ctx)
 
             exec_method_t * method = __This->__get_method(ctx);
+            __CheckNullReference(ctx, *(rt_ref_t *)(ctx.stack.top() - method->this_offset));
             ctx.push_calling(method);
 
         __EndExecute()
-- 
2.43.0


From 3854d0cef4bf43cdba414c98cb6e1662995dd128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:10:46 +0000
Subject: [PATCH 06/82] fix: run finally blocks and keep return values and
 exceptions when leaving a method

Returning inside try/finally evaluated no return expression; an exception leaving a method
with finally blocks crashed; an exception raised in a finally block could replace the one
delivered to an outer catch block.
---
 include/modules/exec.h         | 47 ++++++++++++++++++++++-----
 modules/compile/__xilx.h       | 30 +++--------------
 modules/compile/statements.cpp |  7 ++--
 modules/compile/xilx.cpp       | 11 ++-----
 modules/exec/commands.cpp      | 59 ++++++++++++++++++++++------------
 5 files changed, 87 insertions(+), 67 deletions(-)

diff --git a/include/modules/exec.h b/include/modules/exec.h
index ea40ec2..88425a3 100644
--- a/include/modules/exec.h
+++ b/include/modules/exec.h
@@ -608,6 +608,10 @@ namespace X_ROOT_NS::modules::exec {
                 }
             }
 
+            // Not in any block.
+            if (block >= block_end)
+                return;
+
             while ((block = block->parent) != nullptr)
             {
                 if (__MatchBlockType(block) && !f(block))
@@ -634,6 +638,9 @@ namespace X_ROOT_NS::modules::exec {
         // Executes following command.
         execute_following_command,
 
+        // Continues to raise the exception in the calling method.
+        raise_exception,
+
     X_ENUM_END
 
     //-------- ---------- ---------- ---------- ----------
@@ -649,8 +656,8 @@ namespace X_ROOT_NS::modules::exec {
 
         // Constructor.
         block_node_t(__identity_t identity, exec_method_block_t * block,
-                exception_node_t * exception_node = nullptr) _NE
-            : block(block), exception_node(exception_node), identity(identity)
+                rt_ref_t exception = nullptr) _NE
+            : block(block), exception(exception), identity(identity)
         { }
 
         // Group identity.
@@ -659,8 +666,14 @@ namespace X_ROOT_NS::modules::exec {
         // Block.
         exec_method_block_t * block;
 
-        // Exception node.
-        exception_node_t * exception_node;
+        // The exception caught by the block, or raised after the finally block executed.
+        rt_ref_t exception;
+
+        // The return value, when returns after the finally block executed.
+        rt_stack_unit_t return_value = 0;
+
+        // Unit size of the return value.
+        msize_t return_unit_size = 0;
 
         // The action after finally block executed.
         __action_t action = __action_t::default_;
@@ -692,6 +705,15 @@ namespace X_ROOT_NS::modules::exec {
             this->action = __action_t::execute_following_command;
         }
 
+        // Sets the exception to raise.
+        __AlwaysInline void set_raise_exception(rt_ref_t exception) _NE
+        {
+            _A(exception != nullptr);
+
+            this->exception = exception;
+            this->action = __action_t::raise_exception;
+        }
+
         // Next node in chain.
         __self_t * next;
 
@@ -757,9 +779,9 @@ namespace X_ROOT_NS::modules::exec {
         }
 
         // Enqueue a catch block.
-        __AlwaysInline void enque_catch(__block_t * block, exception_node_t * exception_node) _NE
+        __AlwaysInline void enque_catch(__block_t * block, rt_ref_t exception) _NE
         {
-            __enque(block, exception_node);
+            __enque(block, exception);
         }
 
         // Dequeue a block.
@@ -775,6 +797,15 @@ namespace X_ROOT_NS::modules::exec {
             return node;
         }
 
+        // Dequeue all blocks of a group.
+        __AlwaysInline void deque_group(__identity_t identity) _NE
+        {
+            while (this->head != nullptr && this->head->identity == identity)
+            {
+                this->deque();
+            }
+        }
+
         // Returns head block.
         __AlwaysInline __node_t * pick() _NE
         {
@@ -837,11 +868,11 @@ namespace X_ROOT_NS::modules::exec {
         __identity_t __identity;
 
         // Enqueue a block.
-        __AlwaysInline void __enque(__block_t * block, exception_node_t * exception_node) _NE
+        __AlwaysInline void __enque(__block_t * block, rt_ref_t exception) _NE
         {
             _A(block != nullptr);
 
-            __node_t * node = this->__acquire_node(__identity, block, exception_node);
+            __node_t * node = this->__acquire_node(__identity, block, exception);
             node->next = nullptr;
 
             if (__current == nullptr)
diff --git a/modules/compile/__xilx.h b/modules/compile/__xilx.h
index 3d59a6f..361827a 100644
--- a/modules/compile/__xilx.h
+++ b/modules/compile/__xilx.h
@@ -178,13 +178,16 @@ namespace X_ROOT_NS::modules::compile {
     public:
 
         // Constructor.
-        return_xilx_t(__region_t & region, expression_t * expression)
+        return_xilx_t(__region_t & region, expression_t * expression, bool leave = false)
             : __super_t(region)
-            , expression(expression) { }
+            , expression(expression), leave(leave) { }
 
         // Return expression.
         expression_t * expression;
 
+        // Leaves protected blocks before return.
+        bool leave;
+
         // Writes xilx to a pool.
         virtual void write(__xw_context_t & ctx, xil_pool_t & pool) override;
 
@@ -241,29 +244,6 @@ namespace X_ROOT_NS::modules::compile {
         }
     };
 
-    ////////// ////////// ////////// ////////// //////////
-    // leave_ret_xilx_t
-
-    // Leave ret xilx.
-    class leave_ret_xilx_t : public xilx_base_t
-    {
-        typedef xilx_base_t __super_t;
-
-    public:
-
-        // Consturctor.
-        leave_ret_xilx_t(__region_t & region) : __super_t(region) { }
-
-        // Writes xilx to a pool.
-        virtual void write(__xw_context_t & ctx, xil_pool_t & pool) override;
-
-        // Converts to a string.
-        virtual const string_t to_string() const override
-        {
-            return _T("leave.ret");
-        }
-    };
-
     ////////// ////////// ////////// ////////// //////////
     // end_block_xilx_t
 
diff --git a/modules/compile/statements.cpp b/modules/compile/statements.cpp
index 2ee30bf..4a8c4be 100644
--- a/modules/compile/statements.cpp
+++ b/modules/compile/statements.cpp
@@ -648,17 +648,14 @@ namespace X_ROOT_NS::modules::compile {
     // Compiles this statement.
     void return_statement_t::compile(statement_compile_context_t & ctx) 
     {
-        // Insert leave command before return in protected regions.
-        if (__need_leave(ctx))
-            xilx::append_xilx<leave_ret_xilx_t>(ctx);
-
         if (expression != nullptr)
         {
             __walk_variables(expression);
             set_assign_parent(expression);
         }
 
-        append_xilx<return_xilx_t>(ctx, expression);
+        // Insert leave command before return in protected regions.
+        append_xilx<return_xilx_t>(ctx, expression, __need_leave(ctx));
     }
 
     // Returns exit type.
diff --git a/modules/compile/xilx.cpp b/modules/compile/xilx.cpp
index 40f49e2..210ca84 100644
--- a/modules/compile/xilx.cpp
+++ b/modules/compile/xilx.cpp
@@ -492,6 +492,9 @@ namespace X_ROOT_NS::modules::compile {
             }
         }
 
+        if (leave)
+            xil::append_jmp_xil(pool, xil_jmp_model_t::leave);
+
         xil::append_ret(pool);
     }
 
@@ -513,14 +516,6 @@ namespace X_ROOT_NS::modules::compile {
 
     ////////// ////////// ////////// ////////// //////////
 
-    // Leave ret xilx.
-    void leave_ret_xilx_t::write(__xw_context_t & ctx, xil_pool_t & pool)
-    {
-        xil::append_jmp_xil(pool, xil_jmp_model_t::leave);
-    }
-
-    ////////// ////////// ////////// ////////// //////////
-
     // Writes end_block xil.
     void end_block_xilx_t::write(__xw_context_t & ctx, xil_pool_t & pool)
     {
diff --git a/modules/exec/commands.cpp b/modules/exec/commands.cpp
index 51d9487..4122d4f 100644
--- a/modules/exec/commands.cpp
+++ b/modules/exec/commands.cpp
@@ -5770,10 +5770,10 @@ namespace X_ROOT_NS::modules::exec {
             return __process_block_nodes_ret::current_empty;
 
         // Exception block.
-        if (node->exception_node != nullptr)
+        if (node->block->type == __block_type_t::catch_)
         {
             ctx.block_queue.deque();
-            ctx.stack.push(node->exception_node->exception);
+            ctx.stack.push(node->exception);
             ctx.current = node->block->entry_point;
         }
         else    // Finally block.
@@ -5818,7 +5818,7 @@ namespace X_ROOT_NS::modules::exec {
 
                     if (__is_base_type(ctx.env, exception_type, block->relation_type))
                     {
-                        ctx.block_queue.enque_catch(block, node);
+                        ctx.block_queue.enque_catch(block, exception);
                         ctx.pop_exception();
 
                         return false;
@@ -5846,10 +5846,18 @@ namespace X_ROOT_NS::modules::exec {
         block_node_t * last_node = ctx.block_queue.last_current();
         if (last_node == nullptr)
         {
+            ctx.block_queue.deque_group(ctx.stack.lp());
             __pop_calling(ctx);
             goto __continue_find__;
         }
 
+        // Not caught in this method, raises it again after finally blocks executed.
+        if (last_node->block->type == __block_type_t::finally_)
+        {
+            last_node->set_raise_exception(exception);
+            ctx.pop_exception();
+        }
+
         __process_block_nodes(ctx);
     }
 
@@ -5883,7 +5891,7 @@ namespace X_ROOT_NS::modules::exec {
 
     // Process finally blocks. ( for return )
     void __process_finally_for_return(command_execute_context_t & ctx,
-                                                     command_t * return_command)
+                                command_t * return_command, msize_t return_unit_size)
     {
         ctx.block_queue.begin_group(ctx.stack.lp());
 
@@ -5896,6 +5904,13 @@ namespace X_ROOT_NS::modules::exec {
 
         if (last_node != nullptr)
         {
+            // Saves the return value, finally blocks may discard the stack.
+            _A(return_unit_size <= 1);
+
+            last_node->return_unit_size = return_unit_size;
+            if (return_unit_size == 1)
+                last_node->return_value = ctx.stack.pop<rt_stack_unit_t>();
+
             // Executes finally blocks.
             last_node->set_following_command(return_command);
             __process_block_nodes(ctx);
@@ -5987,28 +6002,25 @@ namespace X_ROOT_NS::modules::exec {
 
                 case block_node_finally_action_t::execute_following_command:
                     _A(node->following_command != nullptr);
+                    ctx.restore_stack();
+                    if (node->return_unit_size == 1)
+                        ctx.stack.push(node->return_value);
+
                     __execute_command(ctx, node->following_command);
                     return;
 
+                case block_node_finally_action_t::raise_exception:
+                    ctx.push_exception(node->exception);
+                    __pop_calling(ctx);
+                    __process_exception(ctx);
+                    return;
+
                 default:
                     break;
             }
 
-        __retry__:
-
             switch (__process_block_nodes(ctx))
             {
-                case __process_block_nodes_ret::current_empty:
-                case __process_block_nodes_ret::empty:
-                    __pop_calling(ctx);
-                    if (!ctx.exception_stack.empty())
-                    {
-                        __process_exception(ctx);
-                        return;
-                    }
-
-                    break;
-
                 case __process_block_nodes_ret::success:
                     return;
 
@@ -6201,8 +6213,8 @@ namespace X_ROOT_NS::modules::exec {
     public:
 
         // Constructors.
-        __leave_ret_command_t(command_t * following_command) _NE
-            : __following_command(following_command)
+        __leave_ret_command_t(command_t * following_command, msize_t return_unit_size) _NE
+            : __following_command(following_command), __return_unit_size(return_unit_size)
         {
             _A(following_command != nullptr);
         }
@@ -6210,7 +6222,8 @@ namespace X_ROOT_NS::modules::exec {
         // Execute
         __BeginExecute(ctx)
 
-            __process_finally_for_return(ctx, __This->__following_command);
+            __process_finally_for_return(ctx, __This->__following_command,
+                                              __This->__return_unit_size);
 
         __EndExecute()
 
@@ -6224,6 +6237,7 @@ namespace X_ROOT_NS::modules::exec {
 
     private:
         command_t * __following_command;
+        msize_t     __return_unit_size;
     };
 
     //-------- ---------- ---------- ---------- ----------
@@ -6324,8 +6338,11 @@ namespace X_ROOT_NS::modules::exec {
             case xil_jmp_model_t::leave:
                 if (xil.step() == 0)
                 {
+                    rt_type_t * ret_type = ctx.method->get_return_type(ctx.env);
+
                     return __leave_ret_command_manager.template get_command<__JmpCmd(leave)>(
-                        new_ret_command(ctx)
+                        new_ret_command(ctx),
+                        is_custom_struct(ctx.env, ret_type)? 0 : ctx.ret_unit_size()
                     );
                 }
 
-- 
2.43.0


From 0084cf43bda74f9c07720b9446200f2d082c0c3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:16:36 +0000
Subject: [PATCH 07/82] fix: rethrow the caught exception by 'throw;'

---
 include/modules/core.h         |  1 +
 modules/compile/statements.cpp | 11 +++++++++++
 2 files changed, 12 insertions(+)

diff --git a/include/modules/core.h b/include/modules/core.h
index 74f79a7..f0c6710 100644
--- a/include/modules/core.h
+++ b/include/modules/core.h
@@ -8440,6 +8440,7 @@ namespace X_ROOT_NS::modules::core {
         method_t *              method;                 // Method.
         jmp_manager_t           jmp_manager;            // Jmp manager.
         switch_manager_t        switch_manager;         // Switch-case manager.
+        variable_t *            catch_variable = nullptr;   // Variable of current catch block.
 
         // Begins a region.
         template<typename _region_t, typename ... args_t>
diff --git a/modules/compile/statements.cpp b/modules/compile/statements.cpp
index 4a8c4be..36b0c0d 100644
--- a/modules/compile/statements.cpp
+++ b/modules/compile/statements.cpp
@@ -607,6 +607,13 @@ namespace X_ROOT_NS::modules::compile {
             append_expression(ctx, expression, true);
             append_xilx<throw_xilx_t>(ctx);
         }
+        else if (ctx.catch_variable != nullptr)     // Throws the exception caught currently.
+        {
+            append_expression(ctx, new_expression<name_expression_t>(
+                ctx.get_memory(), ctx.catch_variable
+            ), true);
+            append_xilx<throw_xilx_t>(ctx);
+        }
         else
         {
             append_xilx<rethrow_xilx_t>(ctx);
@@ -1618,7 +1625,11 @@ namespace X_ROOT_NS::modules::compile {
 
             append_local_label(ctx, label_catch);
             xilx::append_xilx<pop_variable_xilx_t>(ctx, c->variable);
+
+            variable_t * old_catch_variable = ctx.catch_variable;
+            ctx.catch_variable = c->variable;
             compile_statement(ctx, c->body);
+            ctx.catch_variable = old_catch_variable;
 
             if (__statement_pass(ctx, c->body))
             {
-- 
2.43.0


From 93dd99607babaff0fb91b412218e5cb545fe4c5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:16:48 +0000
Subject: [PATCH 08/82] fix: compute whether loops and try statements can be
 passed through

---
 modules/compile/statements.cpp | 102 ++++++++++++++-------------------
 1 file changed, 44 insertions(+), 58 deletions(-)

diff --git a/modules/compile/statements.cpp b/modules/compile/statements.cpp
index 36b0c0d..5d49e3a 100644
--- a/modules/compile/statements.cpp
+++ b/modules/compile/statements.cpp
@@ -173,6 +173,31 @@ namespace X_ROOT_NS::modules::compile {
         return et == __exit_type_t::none || et.has(__exit_type_t::pass);
     }
 
+    // Returns exit type of a loop, whose condition is evaluated after the body when post is true.
+    __exit_type_t __loop_exit_type(__e_exit_type_t et_body, bool always, bool post)
+    {
+        bool pass = et_body.has(__exit_type_t::break_);
+
+        if (always)
+        {
+            if (!et_body.has(__FreeExitFlags))
+                return __exit_type_t::dead_cycle;
+
+            et_body.remove(__exit_type_t::pass);
+        }
+        else if (!post || et_body == __exit_type_t::none
+            || et_body.has(__exit_type_t::pass) || et_body.has(__exit_type_t::continue_))
+        {
+            pass = true;
+        }
+
+        et_body.remove(__exit_type_t::break_, __exit_type_t::continue_);
+        if (pass)
+            et_body.add(__exit_type_t::pass);
+
+        return *et_body;
+    }
+
     // Remove unreached codes.
     bool __remove_unreached_codes(statement_compile_context_t & ctx)
     {
@@ -718,19 +743,8 @@ namespace X_ROOT_NS::modules::compile {
     {
         cvalue_t condition_value = execute_expression(condition);
 
-        // When condition always true.
-        if (condition_value == true || condition == nullptr)
-        {
-            __e_exit_type_t et_body = __exit_type(ctx, body);
-            if (!et_body.has(__FreeExitFlags))
-                return __exit_type_t::dead_cycle;
-
-            return et_body.remove(__exit_type_t::break_, __exit_type_t::continue_,
-                                  __exit_type_t::pass);
-        }
-
-        __e_exit_type_t et_body = __exit_type(ctx, body);
-        return et_body.remove(__exit_type_t::break_, __exit_type_t::continue_);
+        bool always = (condition_value == true || condition == nullptr);
+        return __loop_exit_type(__exit_type(ctx, body), always, true);
     }
 
     X_DEFINE_TO_STRING(do_while_statement_t)
@@ -786,23 +800,8 @@ namespace X_ROOT_NS::modules::compile {
     {
         cvalue_t condition_value = execute_expression(condition);
 
-        // When condition always false.
-        if (condition_value == false || condition == nullptr)
-        {
-            __e_exit_type_t et_body = __exit_type(ctx, body);
-            if (!et_body.has(__FreeExitFlags))
-                return __exit_type_t::dead_cycle;
-
-            return et_body.remove(__exit_type_t::break_, __exit_type_t::continue_,
-                                  __exit_type_t::pass);
-        }
-
-        // When condition always true.
-        if (condition_value == true)
-            return __exit_type_t::none;
-
-        __e_exit_type_t et_body = __exit_type(ctx, body);
-        return et_body.remove(__exit_type_t::break_, __exit_type_t::continue_);
+        bool always = (condition_value == false || condition == nullptr);
+        return __loop_exit_type(__exit_type(ctx, body), always, true);
     }
 
     X_DEFINE_TO_STRING(loop_until_statement_t)
@@ -860,19 +859,8 @@ namespace X_ROOT_NS::modules::compile {
         if (condition_value == false)
             return __exit_type_t::none;
 
-        // When condition always true.
-        if (condition_value == true || condition == nullptr)
-        {
-            __e_exit_type_t et_body = __exit_type(ctx, body);
-            if (!et_body.has(__FreeExitFlags))
-                return __exit_type_t::dead_cycle;
-
-            return et_body.remove(__exit_type_t::break_, __exit_type_t::continue_,
-                                  __exit_type_t::pass);
-        }
-
-        __e_exit_type_t et_body = __exit_type(ctx, body);
-        return et_body.remove(__exit_type_t::break_, __exit_type_t::continue_);
+        bool always = (condition_value == true || condition == nullptr);
+        return __loop_exit_type(__exit_type(ctx, body), always, false);
     }
 
     X_DEFINE_TO_STRING(while_statement_t)
@@ -953,19 +941,8 @@ namespace X_ROOT_NS::modules::compile {
         if (condition_value == false)
             return __exit_type_t::none;
 
-        // When condition always true.
-        if (condition_value == true || condition == nullptr)
-        {
-            __e_exit_type_t et_body = __exit_type(ctx, body);
-            if (!et_body.has(__FreeExitFlags))
-                return __exit_type_t::dead_cycle;
-
-            return et_body.remove(__exit_type_t::break_, __exit_type_t::continue_,
-                                  __exit_type_t::pass);
-        }
-
-        __e_exit_type_t et_body = __exit_type(ctx, body);
-        return et_body.remove(__exit_type_t::break_, __exit_type_t::continue_);
+        bool always = (condition_value == true || condition == nullptr);
+        return __loop_exit_type(__exit_type(ctx, body), always, false);
     }
 
     X_DEFINE_TO_STRING(for_statement_t)
@@ -1675,8 +1652,8 @@ namespace X_ROOT_NS::modules::compile {
             return et_finally;
 
         __e_exit_type_t et = __exit_type_of(ctx, try_statement);
-        if (!et.has(__exit_type_t::throw_))
-            return et;
+        if (et == __exit_type_t::none)
+            et = __exit_type_t::pass;
 
         general_type_t * exception_type = __XPool.get_exception_type();
         for (catch_t * c : catches)
@@ -1685,6 +1662,15 @@ namespace X_ROOT_NS::modules::compile {
                 et.remove(__exit_type_t::throw_);
         }
 
+        for (catch_t * c : catches)
+        {
+            if (c == nullptr)
+                continue;
+
+            __e_exit_type_t et_catch = __exit_type_of(ctx, c->body);
+            et |= (et_catch == __exit_type_t::none)? __exit_type_t::pass : *et_catch;
+        }
+
         return *et;
     }
 
-- 
2.43.0


From b1412b90b312de9486201ed57b6a31028579024c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:18:56 +0000
Subject: [PATCH 09/82] fix: write a new line after an ulong

---
 modules/rtlib/system.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/rtlib/system.cpp b/modules/rtlib/system.cpp
index fa9995e..8abed2f 100644
--- a/modules/rtlib/system.cpp
+++ b/modules/rtlib/system.cpp
@@ -138,7 +138,7 @@ namespace X_ROOT_NS::modules::rtlib {
 
     void console_write_uint64_line(rtlib_context_t & ctx)
     {
-        __console_write<ruint64_t>(ctx);
+        __console_write_line<ruint64_t>(ctx);
     }
 
     void console_write_float(rtlib_context_t & ctx)
-- 
2.43.0


From 4bbd4ff046506616b6f6bb4007a2fa0cb2801093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:18:56 +0000
Subject: [PATCH 10/82] fix: continue a do-while or loop-until statement at its
 condition

---
 modules/compile/statements.cpp | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/modules/compile/statements.cpp b/modules/compile/statements.cpp
index 5d49e3a..93d834e 100644
--- a/modules/compile/statements.cpp
+++ b/modules/compile/statements.cpp
@@ -714,15 +714,18 @@ namespace X_ROOT_NS::modules::compile {
     {
         ctx.begin_region<__do_while_statement_region_t>();
 
-        set_point(ctx, __exit_point_type_t::continue_);
+        local_label_t label_body = ctx.next_local_label();
+        append_local_label(ctx, label_body);
+
         compile_statement(ctx, body);
+        set_point(ctx, __exit_point_type_t::continue_);
 
         cvalue_t condition_value = __remove_unreached_codes(ctx)?
                         execute_expression(condition) : cvalue_t::nan;
 
         if (condition_value == true || condition == nullptr)
         {
-            append_jmp(ctx, __exit_point_type_t::continue_);
+            append_jmp(ctx, label_body);
         }
         else if (condition_value == false)
         {
@@ -731,7 +734,7 @@ namespace X_ROOT_NS::modules::compile {
         else
         {
             append_expression(ctx, condition, true);
-            append_jmp(ctx, __exit_point_type_t::continue_, xil_jmp_model_t::true_);
+            append_jmp(ctx, label_body, xil_jmp_model_t::true_);
         }
 
         set_point(ctx, __exit_point_type_t::break_);
@@ -771,15 +774,18 @@ namespace X_ROOT_NS::modules::compile {
     {
         ctx.begin_region<__loop_until_statement_region_t>();
 
-        set_point(ctx, __exit_point_type_t::continue_);
+        local_label_t label_body = ctx.next_local_label();
+        append_local_label(ctx, label_body);
+
         compile_statement(ctx, body);
+        set_point(ctx, __exit_point_type_t::continue_);
 
         cvalue_t condition_value = __remove_unreached_codes(ctx)?
                         execute_expression(condition) : cvalue_t::nan;
 
         if (condition_value == false || condition == nullptr)
         {
-            append_jmp(ctx, __exit_point_type_t::continue_);
+            append_jmp(ctx, label_body);
         }
         else if (condition_value == true)
         {
@@ -788,7 +794,7 @@ namespace X_ROOT_NS::modules::compile {
         else
         {
             append_expression(ctx, condition, true);
-            append_jmp(ctx, __exit_point_type_t::continue_, xil_jmp_model_t::false_);
+            append_jmp(ctx, label_body, xil_jmp_model_t::false_);
         }
 
         set_point(ctx, __exit_point_type_t::break_);
-- 
2.43.0


From 8a4d0c04a2a2dfda18354d5e31cbe0462f4ef2eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:21:18 +0000
Subject: [PATCH 11/82] fix: destroy the token enumerator as an object

---
 modules/compile/__token_reader.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/compile/__token_reader.h b/modules/compile/__token_reader.h
index b6352f8..a5edc41 100644
--- a/modules/compile/__token_reader.h
+++ b/modules/compile/__token_reader.h
@@ -43,7 +43,7 @@ namespace X_ROOT_NS::modules::compile {
     ////////// ////////// ////////// ////////// //////////
 
     // Base class of token enumerator.
-    class token_enumerator_base_t : public token_enumerator_t, public object_t
+    class token_enumerator_base_t : public object_t, public token_enumerator_t
     {
     public:
 
-- 
2.43.0


From 23829e8fe280e39f30f2f43360557d3b4ebc81b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:24:13 +0000
Subject: [PATCH 12/82] fix: do not evaluate the second operand of && and ||
 when the first decides

---
 modules/compile/expression.cpp | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/modules/compile/expression.cpp b/modules/compile/expression.cpp
index 77d3b0a..75c5d65 100644
--- a/modules/compile/expression.cpp
+++ b/modules/compile/expression.cpp
@@ -916,10 +916,19 @@ namespace X_ROOT_NS::modules::compile {
             }
         }
 
+        statement_compile_context_t & sctx = ctx.statement_ctx;
+
+        // exp2 is evaluated only when exp1 does not decide the result.
         exp1->compile(ctx, pool);
+        jmp_xil_t * short_jmp_xil = xil::append_jmp_xil(pool, xil_jmp_model_t::false_);
+
         exp2->compile(ctx, pool);
+        jmp_xil_t * finally_jmp_xil = xil::append_jmp_xil(pool, xil_jmp_model_t::none);
 
-        pool.append<x_logic_xil_t>(xil_logic_command_t::and_);
+        xil::append_label_xil(sctx, pool, short_jmp_xil);
+        __compile_number(ctx, pool, false);
+
+        xil::append_label_xil(sctx, pool, finally_jmp_xil);
     }
 
     // Compiles logic or expression.
@@ -941,10 +950,19 @@ namespace X_ROOT_NS::modules::compile {
             }
         }
 
+        statement_compile_context_t & sctx = ctx.statement_ctx;
+
+        // exp2 is evaluated only when exp1 does not decide the result.
         exp1->compile(ctx, pool);
+        jmp_xil_t * short_jmp_xil = xil::append_jmp_xil(pool, xil_jmp_model_t::true_);
+
         exp2->compile(ctx, pool);
+        jmp_xil_t * finally_jmp_xil = xil::append_jmp_xil(pool, xil_jmp_model_t::none);
 
-        pool.append<x_logic_xil_t>(xil_logic_command_t::or_);
+        xil::append_label_xil(sctx, pool, short_jmp_xil);
+        __compile_number(ctx, pool, true);
+
+        xil::append_label_xil(sctx, pool, finally_jmp_xil);
     }
 
     // Compiles logic not expression.
-- 
2.43.0


From 5e0213cc1980b7e6b124c18ce1446dc8d00e2d99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:25:17 +0000
Subject: [PATCH 13/82] fix: convert both values of a condition expression to
 its type

---
 modules/lang_cs/expressions.cpp | 39 ++++++++++++++++++++++++++++-----
 1 file changed, 33 insertions(+), 6 deletions(-)

diff --git a/modules/lang_cs/expressions.cpp b/modules/lang_cs/expressions.cpp
index 70fd96d..35e3fe3 100644
--- a/modules/lang_cs/expressions.cpp
+++ b/modules/lang_cs/expressions.cpp
@@ -10,16 +10,33 @@ namespace X_ROOT_NS::modules::lang_cs {
 
     ////////// ////////// ////////// ////////// //////////
 
+    // Returns the value which the type of cs_condition_expression is decided by.
+    static expression_t * __type_value(const cs_condition_expression_t * exp)
+    {
+        type_t * type1 = exp->value1()->get_type(), * type2 = exp->value2()->get_type();
+
+        if (type1 == nullptr || type2 == nullptr || type1 == type2)
+            return exp->value1();
+
+        if (type1->this_gtype() == gtype_t::null)
+            return exp->value2();
+
+        if (type2->this_gtype() == gtype_t::null)
+            return exp->value1();
+
+        return is_type_compatible(type1, type2)? exp->value2() : exp->value1();
+    }
+
     // Returns vtype of cs_condition_expression.
     vtype_t cs_condition_expression_t::get_vtype() const
     {
-        return value1()->get_vtype();
+        return __type_value(this)->get_vtype();
     }
 
     // Returns type of cs_condigion_expression.
     type_t * cs_condition_expression_t::get_type() const
     {
-        return value1()->get_type();
+        return __type_value(this)->get_type();
     }
 
     // Compiles this expression.
@@ -28,6 +45,16 @@ namespace X_ROOT_NS::modules::lang_cs {
     {
         //_PF(_T("__compile: %1%"), this);
 
+        // Both values are converted to the required type, or to the type of this expression.
+        if (env.type == nullptr && env.dtype == xil_type_t::empty && !env.is_ref())
+        {
+            if (type_t * type = this->get_type(); type != nullptr && is_value_type(type))
+            {
+                this->compile(ctx, pool, __environment_t(type));
+                return;
+            }
+        }
+
         statement_compile_context_t & sctx = ctx.statement_ctx;
 
         bool value1_effective = is_effective(ctx, value1());
@@ -39,24 +66,24 @@ namespace X_ROOT_NS::modules::lang_cs {
         {
             if (condition_value == true)
             {
-                value1()->compile(ctx, pool);
+                value1()->compile(ctx, pool, env);
             }
             else if (condition_value == false)
             {
-                value2()->compile(ctx, pool);
+                value2()->compile(ctx, pool, env);
             }
             else
             {
                 condition()->compile(ctx, pool);
                 jmp_xil_t * false_jmp_xil = xil::append_jmp_xil(pool, xil_jmp_model_t::false_);
 
-                value1()->compile(ctx, pool);
+                value1()->compile(ctx, pool, env);
                 jmp_xil_t * finally_jmp_xil = xil::append_jmp_xil(pool, xil_jmp_model_t::none);
 
                 if (false_jmp_xil != nullptr)
                     xil::append_label_xil(sctx, pool, false_jmp_xil);
 
-                value2()->compile(ctx, pool);
+                value2()->compile(ctx, pool, env);
 
                 xil::append_label_xil(sctx, pool, finally_jmp_xil);
             }
-- 
2.43.0


From 76d42ba31dd67027d864368bf356cf03d234874d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:27:55 +0000
Subject: [PATCH 14/82] fix: compute uint32 with signed integers, and minus of
 it, as int64

---
 modules/core/__vtype_traits.h | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/modules/core/__vtype_traits.h b/modules/core/__vtype_traits.h
index 0b750a8..6962f6b 100644
--- a/modules/core/__vtype_traits.h
+++ b/modules/core/__vtype_traits.h
@@ -262,7 +262,7 @@ namespace X_ROOT_NS::modules::core {
 
             vnum_t operator() (vnum1_t v1)
             {
-                return (vnum_t)__op_t()(v1);
+                return (vnum_t)__op_t()((vnum_t)v1);
             }
         };
 
@@ -393,8 +393,23 @@ namespace X_ROOT_NS::modules::core {
 
             vnum_t operator() (vnum1_t v1, vnum2_t v2)
             {
-                return (vnum_t)__op_t()(v1, v2);
+                if constexpr (__is_mixed_uint32)
+                    return (vnum_t)__op_t()((int64_t)v1, (int64_t)v2);
+                else
+                    return (vnum_t)__op_t()(v1, v2);
             }
+
+        private:
+            // Whether a uint32 meets a smaller signed integer, they are computed as int64.
+            static constexpr bool __is_signed_int(vtype_t t)
+            {
+                return t == __VT(int8) || t == __VT(int16) || t == __VT(int32);
+            }
+
+            static constexpr bool __is_mixed_uint32 =
+                ((_t1 == __VT(uint32) && __is_signed_int(_t2)) ||
+                 (__is_signed_int(_t1) && _t2 == __VT(uint32)))
+                && _op != operator_t::left_shift && _op != operator_t::right_shift;
         };
 
         //-------- ---------- ---------- ---------- ----------
-- 
2.43.0


From c0543d3a2a60befb2ad589455df3965ee222d8d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:37:48 +0000
Subject: [PATCH 15/82] fix: do not take a primitive value for a null reference
 in an instance call

---
 modules/exec/commands.cpp | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/modules/exec/commands.cpp b/modules/exec/commands.cpp
index 4122d4f..4dff9ad 100644
--- a/modules/exec/commands.cpp
+++ b/modules/exec/commands.cpp
@@ -4153,7 +4153,10 @@ namespace X_ROOT_NS::modules::exec {
         __BeginExecute(ctx)
 
             exec_method_t * method = __This->__get_method(ctx);
-            __CheckNullReference(ctx, *(rt_ref_t *)(ctx.stack.top() - method->this_offset));
+
+            if (__This->__is_ref_this(ctx))
+                __CheckNullReference(ctx, *(rt_ref_t *)(ctx.stack.top() - method->this_offset));
+
             ctx.push_calling(method);
 
         __EndExecute()
@@ -4171,6 +4174,18 @@ namespace X_ROOT_NS::modules::exec {
         __EndToString()
 
         #endif  // EXEC_TRACE
+
+    private:
+        ttype_t __host_ttype = ttype_t::__unknown__;
+
+        // Returns whether "this" is a reference, which may be null.
+        __AlwaysInline bool __is_ref_this(command_execute_context_t & ctx)
+        {
+            if (__host_ttype == ttype_t::__unknown__)
+                __host_ttype = this->get_type()->get_ttype(ctx.env);
+
+            return is_ref_type(__host_ttype);
+        }
     };
 
     template<typename _rt_method_t>
-- 
2.43.0


From 9bdc1f2ae229a6b95171e03acb11e566e0bcad63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:45:55 +0000
Subject: [PATCH 16/82] fix: keep the value of an assignment to an array
 element when it is used

Prefix ++ and --, compound and plain assignments of an element gave garbage
as the value of the expression.
---
 modules/compile/__xil_struct.h | 14 ++++++++++++++
 modules/compile/expression.cpp |  9 ++++++---
 2 files changed, 20 insertions(+), 3 deletions(-)

diff --git a/modules/compile/__xil_struct.h b/modules/compile/__xil_struct.h
index ddc2afe..c37763c 100644
--- a/modules/compile/__xil_struct.h
+++ b/modules/compile/__xil_struct.h
@@ -118,6 +118,20 @@ namespace X_ROOT_NS::modules::compile {
         }
     };
 
+    //-------- ---------- ---------- ---------- ----------
+
+    // Pick array element xil.
+    struct x_pick_array_element_xil_t : xil_extra_t<pick_xil_t>
+    {
+        typedef xil_extra_t<pick_xil_t> __super_t;
+
+        x_pick_array_element_xil_t(xil_type_t dtype, ref_t array_type_ref)
+            : __super_t(xil_storage_type_t::array_element, dtype)
+        {
+            this->set_ref(array_type_ref);
+        }
+    };
+
     //-------- ---------- ---------- ---------- ----------
     // New xil base.
     struct x_new_xil_base_t : xil_extra_t<new_xil_t>
diff --git a/modules/compile/expression.cpp b/modules/compile/expression.cpp
index 75c5d65..ca0e79e 100644
--- a/modules/compile/expression.cpp
+++ b/modules/compile/expression.cpp
@@ -1276,9 +1276,12 @@ namespace X_ROOT_NS::modules::compile {
 
                 ref_t type_ref = __ref_of(ctx, array_type);
 
-                pool.append<x_pop_array_element_xil_t>(
-                    __to_xil_type(element_type), type_ref
-                );
+                xil_type_t element_xtype = __to_xil_type(element_type);
+
+                if (pick)
+                    pool.append<x_pick_array_element_xil_t>(element_xtype, type_ref);
+                else
+                    pool.append<x_pop_array_element_xil_t>(element_xtype, type_ref);
 
             }   break;
 
-- 
2.43.0


From ad7480692a273b59f5d8c6df896757edc3729185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:05:53 +0000
Subject: [PATCH 17/82] fix: compute uint64 with a float or double on its right

---
 modules/exec/commands.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/modules/exec/commands.cpp b/modules/exec/commands.cpp
index 4dff9ad..d22a39b 100644
--- a/modules/exec/commands.cpp
+++ b/modules/exec/commands.cpp
@@ -4877,7 +4877,7 @@ namespace X_ROOT_NS::modules::exec {
         __CaseBinary2(_op, float_,  int32)                                              \
         __CaseBinary2(_op, float_,  uint32)                                             \
         __CaseBinary2(_op, float_,  int64)                                              \
-        __CaseBinary1(_op, float_,  uint64)                                             \
+        __CaseBinary2(_op, float_,  uint64)                                             \
         __CaseBinary1(_op, float_,  float_)                                             \
                                                                                         \
         __CaseBinary2(_op, double_,  int8)                                              \
@@ -4887,7 +4887,7 @@ namespace X_ROOT_NS::modules::exec {
         __CaseBinary2(_op, double_,  int32)                                             \
         __CaseBinary2(_op, double_,  uint32)                                            \
         __CaseBinary2(_op, double_,  int64)                                             \
-        __CaseBinary1(_op, double_,  uint64)                                            \
+        __CaseBinary2(_op, double_,  uint64)                                            \
         __CaseBinary2(_op, double_,  float_)                                            \
         __CaseBinary1(_op, double_,  double_)
 
-- 
2.43.0


From 5562de5aea1b7c585025eb41db41b03001af354c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:12:20 +0000
Subject: [PATCH 18/82] fix: take only locals with a computed value of their
 own type as constants when optimizing

---
 modules/compile/xilx.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/modules/compile/xilx.cpp b/modules/compile/xilx.cpp
index 210ca84..0c7a258 100644
--- a/modules/compile/xilx.cpp
+++ b/modules/compile/xilx.cpp
@@ -448,7 +448,8 @@ namespace X_ROOT_NS::modules::compile {
 
         if (local->write_count == 1)
         {
-            if (is_constant_expression(expression))
+            if (is_constant_expression(expression)
+                && expression->get_vtype() == local->get_vtype() && !is_nan(expression->execute()))
             {
                 if (is_optimize(ctx, compile_optimize_code_t::auto_determine_constant_variables))
                 {
-- 
2.43.0


From f93020ba5cfa3cc313b51173ac7b48c37c4e0967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:12:20 +0000
Subject: [PATCH 19/82] fix: replace x + 0, 0 - x, x * 1 and so on only when
 the result type is kept

---
 modules/compile/expression.cpp | 52 ++++++++++++++++++++++++++--------
 1 file changed, 40 insertions(+), 12 deletions(-)

diff --git a/modules/compile/expression.cpp b/modules/compile/expression.cpp
index ca0e79e..7b5c79b 100644
--- a/modules/compile/expression.cpp
+++ b/modules/compile/expression.cpp
@@ -671,19 +671,37 @@ namespace X_ROOT_NS::modules::compile {
         return is_optimize(ctx, compile_optimize_code_t::optimize_basic_algorighm);
     }
 
+    // Returns whether the binary expression can be replaced with one of its operands,
+    // that is, the operand has the type of the result.
+    static bool __can_replace_with(expression_t * operand)
+    {
+        expression_t * parent = operand->parent;
+        return parent != nullptr && parent->get_vtype() == operand->get_vtype();
+    }
+
+    // Returns whether the binary expression can be replaced with one of its operands,
+    // which is not a float number, as 0.0 and -0.0 are different.
+    static bool __can_replace_with_integer(expression_t * operand)
+    {
+        vtype_t vtype = operand->get_vtype();
+        return vtype != vtype_t::float_ && vtype != vtype_t::double_ && __can_replace_with(operand);
+    }
+
     // Compiles add expression.
     static void __compile_add(__cctx_t & ctx, xil_pool_t & pool,
                                 expression_t * exp1, expression_t * exp2)
     {
         if (__is_optimize_basic_algorighm(ctx))
         {
-            if (__execute_expression(exp1) == cvalue_t(0))  // x + 0
+            if (__can_replace_with_integer(exp2)
+                && __execute_expression(exp1) == cvalue_t(0))  // x + 0
             {
                 exp2->compile(ctx, pool);
                 return;
             }
 
-            if (__execute_expression(exp2) == cvalue_t(0)) // 0 + x
+            if (__can_replace_with_integer(exp1)
+                && __execute_expression(exp2) == cvalue_t(0)) // 0 + x
             {
                 exp1->compile(ctx, pool);
                 return;
@@ -704,14 +722,17 @@ namespace X_ROOT_NS::modules::compile {
     {
         if (__is_optimize_basic_algorighm(ctx))
         {
-            if (__execute_expression(exp1) == cvalue_t(0))  // 0 * x
+            vtype_t vtype2 = exp2->get_vtype();     // Its minus has the same type.
+            if ((vtype2 == vtype_t::int32_ || vtype2 == vtype_t::int64_) && __can_replace_with(exp2)
+                && __execute_expression(exp1) == cvalue_t(0))  // 0 - x
             {
                 exp2->compile(ctx, pool);
-                pool.append<x_al_xil_t>(xil_al_command_t::minus, __xil_type(exp1));
+                pool.append<x_al_xil_t>(xil_al_command_t::minus, __xil_type(exp2));
                 return;
             }
 
-            if (__execute_expression(exp2) == cvalue_t(0))  // x * 0
+            if (__can_replace_with(exp1)
+                && __execute_expression(exp2) == cvalue_t(0))  // x - 0
             {
                 exp1->compile(ctx, pool);
                 return;
@@ -732,13 +753,15 @@ namespace X_ROOT_NS::modules::compile {
     {
         if (__is_optimize_basic_algorighm(ctx))
         {
-            if (__execute_expression(exp1) == cvalue_t(1)) // 1 * x
+            if (__can_replace_with(exp2)
+                && __execute_expression(exp1) == cvalue_t(1)) // 1 * x
             {
                 exp2->compile(ctx, pool);
                 return;
             }
 
-            if (__execute_expression(exp2) == cvalue_t(1))  // x * 1
+            if (__can_replace_with(exp1)
+                && __execute_expression(exp2) == cvalue_t(1))  // x * 1
             {
                 exp1->compile(ctx, pool);
                 return;
@@ -761,7 +784,8 @@ namespace X_ROOT_NS::modules::compile {
     {
         if (__is_optimize_basic_algorighm(ctx))
         {
-            if (__execute_expression(exp2) == cvalue_t(1))      // x / 1
+            if (__can_replace_with(exp1)
+                && __execute_expression(exp2) == cvalue_t(1))      // x / 1
             {
                 exp1->compile(ctx, pool);
                 return;
@@ -806,13 +830,15 @@ namespace X_ROOT_NS::modules::compile {
     {
         if (__is_optimize_basic_algorighm(ctx))
         {
-            if (__execute_expression(exp1) == cvalue_t(0))     // 0 | x
+            if (__can_replace_with(exp2)
+                && __execute_expression(exp1) == cvalue_t(0))     // 0 | x
             {
                 exp2->compile(ctx, pool);
                 return;
             }
 
-            if (__execute_expression(exp2) == cvalue_t(0))     // x | 0
+            if (__can_replace_with(exp1)
+                && __execute_expression(exp2) == cvalue_t(0))     // x | 0
             {
                 exp1->compile(ctx, pool);
                 return;
@@ -845,7 +871,8 @@ namespace X_ROOT_NS::modules::compile {
     {
         if (__is_optimize_basic_algorighm(ctx))
         {
-            if (__execute_expression(exp2) == cvalue_t(0))     // x << 0
+            if (__can_replace_with(exp1)
+                && __execute_expression(exp2) == cvalue_t(0))     // x << 0
             {
                 exp1->compile(ctx, pool);
                 return;
@@ -866,7 +893,8 @@ namespace X_ROOT_NS::modules::compile {
     {
         if (__is_optimize_basic_algorighm(ctx))
         {
-            if (__execute_expression(exp2) == cvalue_t(0))     // x >> 0
+            if (__can_replace_with(exp1)
+                && __execute_expression(exp2) == cvalue_t(0))     // x >> 0
             {
                 exp1->compile(ctx, pool);
                 return;
-- 
2.43.0


From 88c356be6f7b55851c6f10abc30481786f4c01ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:13:35 +0000
Subject: [PATCH 20/82] fix: leave constant expressions that cannot be computed
 when compiling to the execution

---
 modules/core/expression_executor.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/core/expression_executor.cpp b/modules/core/expression_executor.cpp
index c784173..e001bee 100644
--- a/modules/core/expression_executor.cpp
+++ b/modules/core/expression_executor.cpp
@@ -533,7 +533,7 @@ namespace X_ROOT_NS::modules::core {
         if (executor_t::try_execute(cv1.number, cv2.number, &value))
             return cvalue_t(value);
 
-        throw _ED(__e_t::invalid_binary_operator, _op, cv1.number.type, cv2.number.type);
+        return cvalue_t::nan;       // Not computable when compiling.
     }
 
     // Executes a binary expression.
-- 
2.43.0


From 0f657e2dfeb306fee397e7f9cd135926edeb908d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:14:01 +0000
Subject: [PATCH 21/82] fix: apply the optimize level to sources and projects,
 not only to solutions

---
 modules/april/compiler.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/modules/april/compiler.cpp b/modules/april/compiler.cpp
index 5e9105c..eb50351 100644
--- a/modules/april/compiler.cpp
+++ b/modules/april/compiler.cpp
@@ -354,7 +354,7 @@ namespace X_ROOT_NS::modules::april {
     // Compiles projects.
     bool april_xcompiler_t::__compile_projects()
     {
-        april_compiler_t compiler;
+        april_compiler_t compiler(_T("solution1"), &__controller);
         __init_compiler(compiler);
 
         __cassemblies_t cas;
@@ -391,7 +391,7 @@ namespace X_ROOT_NS::modules::april {
     // Compiles sources.
     bool april_xcompiler_t::__compile_sources()
     {
-        april_compiler_t compiler;
+        april_compiler_t compiler(_T("solution1"), &__controller);
         __init_compiler(compiler);
 
         project_t * project = compiler.begin_project();
-- 
2.43.0


From c84abc6bc06bde1fc331181f45eeb44f35e7ca15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:16:34 +0000
Subject: [PATCH 22/82] fix: read the exponent of float literals

---
 algorithm/numeric.cpp | 37 ++++++++++++++++---------------------
 1 file changed, 16 insertions(+), 21 deletions(-)

diff --git a/algorithm/numeric.cpp b/algorithm/numeric.cpp
index 0fd5376..02625ee 100644
--- a/algorithm/numeric.cpp
+++ b/algorithm/numeric.cpp
@@ -208,20 +208,14 @@ namespace X_ROOT_NS::algorithm {
             {
                 if (__pow != 0)
                 {
-                    if (__point_zero_count > 0)
-                    {
-                        __numeric *= std::pow((_numeric_t)10.0, __point_zero_count);
-                        __pow -= __point_zero_count;
-                    }
-
                     _numeric_t ev = std::pow((_numeric_t)10.0, __pow);
                     if (std::isinf(ev))
                         return __e_t::overflow;
 
-                    if (__ec == _T('+'))
-                        __numeric *= ev;
-                    else
+                    if (__ec == _T('-'))
                         __numeric /= ev;
+                    else
+                        __numeric *= ev;
 
                     if (std::isinf(__numeric))
                         return __e_t::overflow;
@@ -505,20 +499,11 @@ namespace X_ROOT_NS::algorithm {
                         break;
 
                     case _T('E'): case _T('e'):
-                        if (__radix == 10)
+                        if ((__radix == 10 || __radix == 0) && !p_end && __is_exponent(__p))
                         {
                             __set_e(__p);
-                            if (*++__p != _T('+') && *__p != _T('-'))
-                            {
-                                __set_error(__e_t::format_error);
-                                goto label_default;
-                            }
-
-                            if (!is_digit(*++__p))
-                            {
-                                __set_error(__e_t::format_error);
-                                goto label_default;
-                            }
+                            if (!is_digit(*++__p))      // + or -
+                                ++__p;
                         }
                         else
                         {
@@ -583,6 +568,16 @@ namespace X_ROOT_NS::algorithm {
             }
         }
 
+        // Whether the 'E' at p starts an exponent: e+10, e-10, or e10 after a point.
+        __AlwaysInline bool __is_exponent(const char_t * p)
+        {
+            char_t c = *(p + 1);
+            if (c == _T('+') || c == _T('-'))
+                return is_digit(*(p + 2));
+
+            return __point && is_digit(c);
+        }
+
         // Parses with specified char array.
         __AlwaysInline tvalue_t __parse(const char_t * p, const char_t * p_end)
         {
-- 
2.43.0


From 1485dfaf2f8637d3ac3341edc50ccaada4df859f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:22:48 +0000
Subject: [PATCH 23/82] fix: convert numbers to the required type exactly once,
 array elements too

---
 modules/compile/expression.cpp | 26 +++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/modules/compile/expression.cpp b/modules/compile/expression.cpp
index 7b5c79b..303ba4b 100644
--- a/modules/compile/expression.cpp
+++ b/modules/compile/expression.cpp
@@ -45,6 +45,13 @@ namespace X_ROOT_NS::modules::compile {
         return env.dtype;
     }
 
+    // Returns whether the value of an expression is converted to the type of the environment
+    // after it's compiled.
+    static bool __is_convert_required(const __environment_t & env)
+    {
+        return env.type != nullptr && is_value_type(env.type) && env.dtype != xil_type_t::empty;
+    }
+
     // Returns call type of method of runtime.
     static xil_call_type_t __call_type_of_method(method_base_t * method)
     {
@@ -1711,7 +1718,7 @@ namespace X_ROOT_NS::modules::compile {
             cvalue_t cvalue = __execute_expression(variable->expression);
             _A(cvalue != cvalue_t::nan);
 
-            __compile_cvalue(ctx, pool, cvalue, dtype);
+            __compile_cvalue(ctx, pool, cvalue, dtype == xil_type_t::empty? xil_type : dtype);
         }
         else
         {
@@ -2032,6 +2039,9 @@ namespace X_ROOT_NS::modules::compile {
         if (is_nan(cv))
             __Failed("expected constant value for static const field '%1%'", field->name);
 
+        if (dtype == xil_type_t::empty)
+            dtype = to_xil_type(field->get_vtype());
+
         __compile_cvalue(ctx, pool, cv, dtype);
     }
 
@@ -2461,7 +2471,9 @@ namespace X_ROOT_NS::modules::compile {
             case name_expression_type_t::variable:
             {
                 type_t * type = this->get_type();
-                __compile_variable(ctx, pool, this->variable, __only_value_type(env), this);
+                xil_type_t dtype = __is_convert_required(env)? xil_type_t::empty
+                                                             : __only_value_type(env);
+                __compile_variable(ctx, pool, this->variable, dtype, this);
 
                 if (__is_custom_struct_like(type) && is_real_variable(this->variable)
                                            && __need_object_copy(this))
@@ -2637,6 +2649,8 @@ namespace X_ROOT_NS::modules::compile {
 
         cvalue_t cvalue = *this->value;
 
+        type_t * exp_type = nullptr;
+
         xil_type_t dtype = env.dtype;
         if (is_number(cvalue) && dtype == xil_type_t::object)    // Box.
         {
@@ -2651,9 +2665,13 @@ namespace X_ROOT_NS::modules::compile {
         else
         {
             __compile_cvalue(ctx, pool, cvalue, env);
+
+            // Already converted to the type of the environment.
+            if (is_number(cvalue) && __is_convert_required(env) && !env.is_ref())
+                exp_type = env.type;
         }
 
-        __post_compile_expression(ctx, pool, this, env);
+        __post_compile_expression(ctx, pool, this, env, exp_type);
     }
 
     ////////// ////////// ////////// ////////// //////////
@@ -3082,6 +3100,8 @@ namespace X_ROOT_NS::modules::compile {
             pool.append<x_push_array_element_xil_t>(
                 __to_xil_type(element_type), array_type_ref
             );
+
+            __post_compile_expression(ctx, pool, this, env, element_type);
         }
     }
 
-- 
2.43.0


From d509112eb4f4baeb4d086c38838aacb79286b1c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:25:29 +0000
Subject: [PATCH 24/82] fix: clear a struct created by its default constructor,
 and copy whole struct elements of arrays

---
 modules/compile/expression.cpp | 14 +++-----------
 1 file changed, 3 insertions(+), 11 deletions(-)

diff --git a/modules/compile/expression.cpp b/modules/compile/expression.cpp
index 303ba4b..2d32c6f 100644
--- a/modules/compile/expression.cpp
+++ b/modules/compile/expression.cpp
@@ -3093,7 +3093,7 @@ namespace X_ROOT_NS::modules::compile {
             );
 
             if (__need_object_copy(this))
-                __append_object_copy_xil(ctx, pool, array_type, xil_copy_kind_t::reverse);
+                __append_object_copy_xil(ctx, pool, element_type, xil_copy_kind_t::reverse);
         }
         else
         {
@@ -3241,8 +3241,8 @@ namespace X_ROOT_NS::modules::compile {
         }
         else
         {
-            // Pop the address of struct object.
-            pool.append<x_pop_empty_xil_t>(xil_type_t::ptr);
+            // Default constructor: clear the struct object, its address is popped.
+            pool.append<x_object_copy_xil_t>(__ref_of(ctx, type), xil_copy_kind_t::zero);
         }
 
         if (this->arguments() != nullptr)
@@ -3260,14 +3260,6 @@ namespace X_ROOT_NS::modules::compile {
             ref_t method_ref = __search_method_ref(ctx, this->constructor);
             pool.append<x_method_call_xil_t>(xil_call_type_t::instance, method_ref);
         }
-
-        /*
-        else    // default constructor.
-        {
-            ref_t type_ref = __ref_of(ctx, type);
-            pool.append<x_object_copy_xil_t>(type_ref, xil_copy_kind_t::zero);
-        }
-        */
     }
 
     // Creates instance of a generic param type.
-- 
2.43.0


From 7f832d8b0a72289a1156394b743129be20d46946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:31:54 +0000
Subject: [PATCH 25/82] fix: read float literals as their nearest value

---
 algorithm/numeric.cpp | 50 +++++++++++++------------------------------
 1 file changed, 15 insertions(+), 35 deletions(-)

diff --git a/algorithm/numeric.cpp b/algorithm/numeric.cpp
index 02625ee..1b34298 100644
--- a/algorithm/numeric.cpp
+++ b/algorithm/numeric.cpp
@@ -152,8 +152,6 @@ namespace X_ROOT_NS::algorithm {
                 {
                     case _T('.'):
                         __point = true;
-                        if (__integer_zero)
-                            __point_zero_count++;
                         return __e_t::success;
 
                     case _T('E'): case _T('e'):
@@ -172,24 +170,11 @@ namespace X_ROOT_NS::algorithm {
 
                 if (!__e)
                 {
-                    if (!__point)
-                    {
-                        __numeric = __numeric * 10 + n;
-                        if (n > 0)
-                            __integer_zero = false;
-                    }
-                    else
-                    {
-                        __numeric = __numeric + n * __point_mod;
-                        __point_mod /= 10;
-
-                        if (!__point_zero_end && n == 0 && __integer_zero)
-                            __point_zero_count++;
-                        else
-                            __point_zero_end = true;
-                    }
+                    __digits = __digits * 10 + n;
+                    if (__point)
+                        __point_digits++;
 
-                    if (std::isinf(__numeric))
+                    if (std::isinf(__digits))
                         return __e_t::overflow;
                 }
                 else
@@ -206,34 +191,29 @@ namespace X_ROOT_NS::algorithm {
             // Commits to completed the paring operation.
             __AlwaysInline __e_t commit()
             {
-                if (__pow != 0)
-                {
-                    _numeric_t ev = std::pow((_numeric_t)10.0, __pow);
-                    if (std::isinf(ev))
-                        return __e_t::overflow;
+                // All digits are read as an integer and scaled once, for the nearest value.
+                int32_t pow = (__ec == _T('-')? -__pow : __pow) - __point_digits;
+                ldouble_t scale = std::pow((ldouble_t)10.0, (ldouble_t)std::abs(pow));
 
-                    if (__ec == _T('-'))
-                        __numeric /= ev;
-                    else
-                        __numeric *= ev;
+                if (pow < 0)
+                    __numeric = (_numeric_t)(__digits / scale);
+                else if (__digits != 0)
+                    __numeric = (_numeric_t)(__digits * scale);
 
-                    if (std::isinf(__numeric))
-                        return __e_t::overflow;
-                }
+                if (std::isinf(__numeric))
+                    return __e_t::overflow;
 
                 return __e_t::success;
             }
 
         private:
             _numeric_t & __numeric;
+            ldouble_t    __digits = 0;
             bool         __point = false;
-            _numeric_t   __point_mod = (_numeric_t)0.1;
+            int32_t      __point_digits = 0;
             bool         __e = false;
             char_t       __ec = _T('\0');
             int32_t      __pow = 0;
-            int32_t      __point_zero_count = 0;
-            bool         __point_zero_end = false;
-            bool         __integer_zero = true;
 
             static const int32_t __pow_limit = max_value<int32_t>() / 100;
         };
-- 
2.43.0


From 97483c2555753e67323814b1717ae46690c160d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:41:47 +0000
Subject: [PATCH 26/82] fix: bind x++ and x-- tighter than prefix operators,
 and is and as like comparisons

---
 modules/core/core.cpp | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/modules/core/core.cpp b/modules/core/core.cpp
index 0bdea18..d830f5e 100644
--- a/modules/core/core.cpp
+++ b/modules/core/core.cpp
@@ -342,13 +342,13 @@ namespace X_ROOT_NS::modules::core {
             #define __EndPriority   );
 
             __BeginPriority(1)
-                op_t::member_point                                      // .
+                op_t::member_point,                                     // .
+                op_t::right_increment,   op_t::right_decrement          // x-- x++
             __EndPriority
 
             __BeginPriority(2)
                 op_t::minus,             op_t::positive,                // - +
                 op_t::left_increment,    op_t::left_decrement,          // --x ++x
-                op_t::right_increment,   op_t::right_decrement,         // x-- x++
                 op_t::logic_not,         op_t::bit_not                  // ! ~
             __EndPriority
 
@@ -366,7 +366,8 @@ namespace X_ROOT_NS::modules::core {
 
             __BeginPriority(6)
                 op_t::greater,   op_t::greater_equal,                   // > >=
-                op_t::less,      op_t::less_equal                       // < <=
+                op_t::less,      op_t::less_equal,                      // < <=
+                op_t::as,        op_t::is                               // as, is
             __EndPriority
 
             __BeginPriority(7)
@@ -393,10 +394,6 @@ namespace X_ROOT_NS::modules::core {
                 op_t::logic_or                                          // ||
             __EndPriority
 
-            __BeginPriority(13)
-                op_t::as, op_t::is                                      // as, is
-            __EndPriority
-
             __BeginPriority(14)
                 op_t::null_coalescing
             __EndPriority
-- 
2.43.0


From 3b9a2b17d30e70486226937890a6d0624faf78c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:41:47 +0000
Subject: [PATCH 27/82] fix: read a sign after an index as an operator

---
 modules/lang_cs/cs_token_reader.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/modules/lang_cs/cs_token_reader.cpp b/modules/lang_cs/cs_token_reader.cpp
index 56907e3..64134e6 100644
--- a/modules/lang_cs/cs_token_reader.cpp
+++ b/modules/lang_cs/cs_token_reader.cpp
@@ -339,7 +339,8 @@ namespace X_ROOT_NS::modules::lang_cs {
 
                     default:
                         if (is_numeric_prefix(*__p)
-                            && (value = (w_t)__last_value()) != w_t::name && value != w_t::cvalue)
+                            && (value = (w_t)__last_value()) != w_t::name && value != w_t::cvalue
+                            && value != w_t::right_square)
                         {
                             __p--;
                             return __Nw_(cvalue, __read_number());
@@ -362,7 +363,8 @@ namespace X_ROOT_NS::modules::lang_cs {
 
                     default:
                         if (is_numeric_prefix(*__p)
-                            && (value = (w_t)__last_value()) != w_t::name && value != w_t::cvalue)
+                            && (value = (w_t)__last_value()) != w_t::name && value != w_t::cvalue
+                            && value != w_t::right_square)
                         {
                             __p--;
                             return __Nw_(cvalue, __read_number());
-- 
2.43.0


From c08c7b1d6be13b859f9d860c783496d0ab86d9da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:47:04 +0000
Subject: [PATCH 28/82] fix: switch by values smaller than int as by int

---
 modules/compile/__statements.h |  2 +-
 modules/compile/__xilx.h       |  6 ++++--
 modules/compile/statements.cpp | 24 +++++++++++++++++++++---
 modules/compile/xilx.cpp       |  5 ++++-
 4 files changed, 30 insertions(+), 7 deletions(-)

diff --git a/modules/compile/__statements.h b/modules/compile/__statements.h
index a037d51..49dcf95 100644
--- a/modules/compile/__statements.h
+++ b/modules/compile/__statements.h
@@ -609,7 +609,7 @@ namespace X_ROOT_NS::modules::compile {
 
         // Appends expression.
         void append_expression(__context_t & ctx, expression_t * expression,
-                                                  bool sealed_parent = true);
+                                bool sealed_parent = true, type_t * type = nullptr);
     }
 
     // Compiles statement.
diff --git a/modules/compile/__xilx.h b/modules/compile/__xilx.h
index 361827a..eacb980 100644
--- a/modules/compile/__xilx.h
+++ b/modules/compile/__xilx.h
@@ -278,8 +278,9 @@ namespace X_ROOT_NS::modules::compile {
     public:
 
         // Constructor.
-        expression_xilx_t(__region_t & region, expression_t * expression)
-            : __super_t(region), __expression(expression)
+        expression_xilx_t(__region_t & region, expression_t * expression,
+                                               type_t * type = nullptr)
+            : __super_t(region), __expression(expression), __type(type)
         {
             _A(expression != nullptr);
         }
@@ -295,6 +296,7 @@ namespace X_ROOT_NS::modules::compile {
 
     private:
         expression_t * __expression;
+        type_t * __type;        // Required type, null for any.
     };
 
     ////////// ////////// ////////// ////////// //////////
diff --git a/modules/compile/statements.cpp b/modules/compile/statements.cpp
index 93d834e..8b09d57 100644
--- a/modules/compile/statements.cpp
+++ b/modules/compile/statements.cpp
@@ -97,7 +97,8 @@ namespace X_ROOT_NS::modules::compile {
         }
 
         // Appends expression condition.
-        void append_expression(__context_t & ctx, expression_t * expression, bool sealed_parent)
+        void append_expression(__context_t & ctx, expression_t * expression, bool sealed_parent,
+                                                                             type_t * type)
         {
             if (expression != nullptr)
             {
@@ -106,7 +107,7 @@ namespace X_ROOT_NS::modules::compile {
                 if (sealed_parent)
                     set_assign_parent(expression);
 
-                append_xilx<expression_xilx_t>(ctx, expression);
+                append_xilx<expression_xilx_t>(ctx, expression, type);
             }
         }
     }
@@ -1156,7 +1157,24 @@ namespace X_ROOT_NS::modules::compile {
     void switch_statement_t::__compile_as_switch (statement_compile_context_t & ctx, int row_count)
     {
         ctx.begin_region<__switch_statement_region_t>();
-        append_expression(ctx, expression);
+
+        // Values smaller than the labels are converted to their type.
+        type_t * value_type = nullptr;
+        switch (expression->get_vtype())
+        {
+            case vtype_t::int8_:
+            case vtype_t::uint8_:
+            case vtype_t::int16_:
+            case vtype_t::uint16_:
+            case vtype_t::bool_:
+                value_type = __XPool.get_internal_type(vtype_t::int32_);
+                break;
+
+            default:
+                break;
+        }
+
+        append_expression(ctx, expression, true, value_type);
 
         switch_table_t * tbl = ctx.switch_manager.append_table(row_count);
         __append_switch (ctx, tbl);
diff --git a/modules/compile/xilx.cpp b/modules/compile/xilx.cpp
index 0c7a258..82e37fc 100644
--- a/modules/compile/xilx.cpp
+++ b/modules/compile/xilx.cpp
@@ -529,7 +529,10 @@ namespace X_ROOT_NS::modules::compile {
     // Writes xils to pool.
     void expression_xilx_t::write(__xw_context_t & ctx, xil_pool_t & pool)
     {
-        __compile_expression(ctx, pool, __expression);
+        if (__type != nullptr)
+            __compile_expression(ctx, pool, __expression, __type);
+        else
+            __compile_expression(ctx, pool, __expression);
     }
 
     ////////// ////////// ////////// ////////// //////////
-- 
2.43.0


From 38193a76a5bbdad91ffee9ad515576c87b9f7918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:54:20 +0000
Subject: [PATCH 29/82] fix: find fields and properties of base types by their
 names

---
 modules/compile/ast_utils.cpp | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/modules/compile/ast_utils.cpp b/modules/compile/ast_utils.cpp
index 14379f5..bbb0ec5 100644
--- a/modules/compile/ast_utils.cpp
+++ b/modules/compile/ast_utils.cpp
@@ -1043,13 +1043,33 @@ namespace X_ROOT_NS::modules::compile {
                     name_exp->set(variable);
                 }
             }
-            else
+            else if (!__walk_inherited(name_exp))
             {
                 if (!__walk_type(name_exp))
                     ast_log(__cctx, name_exp, __c_t::variable_undefined, name);
             }
         }
 
+        // Walks name of a field or a property of base types.
+        bool __walk_inherited(name_expression_t * name_exp)
+        {
+            type_t * current_type = __wctx.current_type();
+            type_t * base_type = current_type != nullptr? current_type->get_base_type() : nullptr;
+
+            if (base_type == nullptr)
+                return false;
+
+            for (member_type_t member_type : { member_type_t::field, member_type_t::property })
+            {
+                analyze_member_args_t args(member_type, name_exp->name);
+
+                if (base_type->get_member(args, true) != nullptr)
+                    return __walk_fieldx(base_type, name_exp) == __exp2_walked_t::yes;
+            }
+
+            return false;
+        }
+
         // Walks name_unit expression.
         void __walk_name_unit(name_unit_expression_t * name_unit_exp)
         {
-- 
2.43.0


From cedb0e7d2067d375384addbcc96e0cbc7fd6e775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:54:20 +0000
Subject: [PATCH 30/82] fix: raise NullReferenceException for throwing null

---
 modules/exec/commands.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/modules/exec/commands.cpp b/modules/exec/commands.cpp
index d22a39b..eee9ca2 100644
--- a/modules/exec/commands.cpp
+++ b/modules/exec/commands.cpp
@@ -5949,6 +5949,8 @@ namespace X_ROOT_NS::modules::exec {
         __BeginExecute(ctx)
 
             rt_ref_t exception = ctx.stack.pop<rt_ref_t>();
+            __CheckNullReference(ctx, exception);
+
             ctx.restore_stack();
 
             ctx.push_exception(exception);
-- 
2.43.0


From 3bcd15987cb432dce045a614e9b0eb5ff95c1d73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:01:49 +0000
Subject: [PATCH 31/82] fix: box the result of a method when an object is
 required

---
 modules/compile/expression.cpp | 29 +++++++++++++++++------------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/modules/compile/expression.cpp b/modules/compile/expression.cpp
index 2d32c6f..b5d39ba 100644
--- a/modules/compile/expression.cpp
+++ b/modules/compile/expression.cpp
@@ -1882,6 +1882,20 @@ namespace X_ROOT_NS::modules::compile {
         return false;
     }
 
+    // Converts or boxes the result of a method to the required type, pops it if not required.
+    static void __post_call_method(__cctx_t & ctx, xil_pool_t & pool, method_base_t * method,
+                                   const __environment_t & env, expression_t * exp)
+    {
+        type_t * type = method->get_type();
+
+        if (env.is_ref() && is_value_type(type) && !is_custom_struct(type))
+            pool.append<x_push_box_xil_t>(__ref_of(ctx, type));
+        else if (env.dtype != xil_type_t::empty)
+            __try_append_convert_xil(pool, type, env);
+        else
+            __try_pop_empty_for_method(ctx, pool, method, exp);
+    }
+
     // Compile property variable.
     static void __compile_property_variable(__cctx_t & ctx, xil_pool_t & pool,
         property_t * property, arguments_t * arguments, xil_type_t dtype, expression_t * owner_exp)
@@ -2844,10 +2858,7 @@ namespace X_ROOT_NS::modules::compile {
                 }
             }
 
-            if (env.dtype != xil_type_t::empty)
-                __try_append_convert_xil(pool, method->get_type(), env);
-            else
-                __try_pop_empty_for_method(ctx, pool, method, this);
+            __post_call_method(ctx, pool, method, env, this);
         }
         else
         {
@@ -2889,10 +2900,7 @@ namespace X_ROOT_NS::modules::compile {
         ref_t method_ref = __search_method_ref(ctx, method);
         pool.append<x_method_call_xil_t>(xil_call_type_t::instance, method_ref);
 
-        if (env.dtype != xil_type_t::empty)
-            __try_append_convert_xil(pool, method->get_type(), env);
-        else
-            __try_pop_empty_for_method(ctx, pool, method, this);
+        __post_call_method(ctx, pool, method, env, this);
     }
 
     // Compile delegate calling expression, for complex namex expressions.
@@ -2926,10 +2934,7 @@ namespace X_ROOT_NS::modules::compile {
         ref_t method_ref = __search_method_ref(ctx, method);
         pool.append<x_method_call_xil_t>(xil_call_type_t::instance, method_ref);
 
-        if (env.dtype != xil_type_t::empty)
-            __try_append_convert_xil(pool, method->get_type(), env);
-        else
-            __try_pop_empty_for_method(ctx, pool, method, this);
+        __post_call_method(ctx, pool, method, env, this);
     }
 
     // Compile delegate calling expression.
-- 
2.43.0


From 34cc6f0069b8080a299c1429ac6eb4b739ed896d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:08:22 +0000
Subject: [PATCH 32/82] fix: do not take assignments of strings for constant
 values

---
 modules/core/expression_executor.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/modules/core/expression_executor.cpp b/modules/core/expression_executor.cpp
index e001bee..987493f 100644
--- a/modules/core/expression_executor.cpp
+++ b/modules/core/expression_executor.cpp
@@ -547,6 +547,9 @@ namespace X_ROOT_NS::modules::core {
         cvalue_t cv1 = e1->execute(), cv2 = e2->execute();
         if (is_string(cv1) || is_string(cv2))
         {
+            if (this->op() != operator_t::add || is_nan(cv1) || is_nan(cv2))
+                return cvalue_t::nan;
+
             string_t s = _F(_T("%1%%2%"), cv1, cv2);
             return cvalue_t(__SPool.to_sid(s).c_str());
         }
-- 
2.43.0


From f9f81640a66d3ae943a98190171338de91821f81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:10:02 +0000
Subject: [PATCH 33/82] fix: compile the index of a struct element as an
 integer

---
 modules/compile/expression.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/modules/compile/expression.cpp b/modules/compile/expression.cpp
index b5d39ba..cc67686 100644
--- a/modules/compile/expression.cpp
+++ b/modules/compile/expression.cpp
@@ -440,8 +440,7 @@ namespace X_ROOT_NS::modules::compile {
                 __FailedWhenNull(var->arguments, "index '%1%' arguments missing", var);
                 __FailedWhenNull(var->body, "index '%1%' body missing", var);
 
-                __static_param_types_t param_types(var);
-                __compile_arguments(ctx, pool, var->arguments, &param_types);
+                __compile_arguments(ctx, pool, var->arguments);
                 var->body->compile(ctx, pool);
 
                 pool.append<x_push_array_element_addr_xil_t>(
-- 
2.43.0


From f588b2d952662d0efdd302a1b0d6b2957adfb00c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:23:29 +0000
Subject: [PATCH 34/82] fix: cache stores to ref and out parameters apart from
 stores to value parameters

---
 modules/exec/commands.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/exec/commands.cpp b/modules/exec/commands.cpp
index eee9ca2..db9ae7e 100644
--- a/modules/exec/commands.cpp
+++ b/modules/exec/commands.cpp
@@ -3191,7 +3191,7 @@ namespace X_ROOT_NS::modules::exec {
             #define __CaseArgumentAddr(_xt1, _xt2)                                      \
                 case __V(xil_storage_type_t::argument_addr, xil_type_t::_xt1, xil_type_t::_xt2): \
                     return __command_manager.template get_command<                      \
-                        __StCmd(pop, argument, _xt1, _xt2),                             \
+                        __StCmd(pop, argument_addr, _xt1, _xt2),                        \
                         xil_storage_type_t::argument_addr, xil_type_t::_xt1, xil_type_t::_xt2 \
                     >(ctx.params_layout.offset_of(xil.get_identity()));
 
-- 
2.43.0


From 8806aa54e09cd77f6c32042537b89fae290ce78c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:31:03 +0000
Subject: [PATCH 35/82] fix: give locals of struct types with references space
 of their own in following blocks

---
 modules/rt/layout.cpp | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/modules/rt/layout.cpp b/modules/rt/layout.cpp
index 82e1a26..f1bed85 100644
--- a/modules/rt/layout.cpp
+++ b/modules/rt/layout.cpp
@@ -617,13 +617,9 @@ namespace X_ROOT_NS::modules::rt {
     msize_t locals_layout_t::__arrange_mixture_variables(__group_t & g,
         msize_t offset, __partial_iterator_t it_begin, __partial_iterator_t it_end)
     {
-        using namespace std::placeholders;
+        // Variables of any blocks share no space.
         __vector_t<__item_t *> items;
-
-        __arrange_variables_f(g, 0, it_begin, it_end, [&](msize_t offset,
-            __item_iterator_t it_begin, __item_iterator_t it_end) {
-            return std::copy(it_begin, it_end, std::back_inserter(items)), 0;
-        }, std::bind(&locals_layout_t::__arrange_mixture_variables, this, _1, _2, _3, _4));
+        std::copy(g.items.begin(), g.items.end(), std::back_inserter(items));
 
         return __set_offsets(offset, items.begin(), items.end());
     }
-- 
2.43.0


From 1b21071d620a2062b32f54d03a8a41814b71097a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:38:41 +0000
Subject: [PATCH 36/82] fix: box and unbox custom structs in casts, arguments
 and returns

---
 modules/compile/expression.cpp | 61 ++++++++++++++++++++--------------
 modules/compile/utils.h        |  4 +++
 modules/compile/xilx.cpp       |  6 ++++
 3 files changed, 46 insertions(+), 25 deletions(-)

diff --git a/modules/compile/expression.cpp b/modules/compile/expression.cpp
index cc67686..70c183b 100644
--- a/modules/compile/expression.cpp
+++ b/modules/compile/expression.cpp
@@ -367,6 +367,19 @@ namespace X_ROOT_NS::modules::compile {
         expression->compile(ctx, pool, env);
     }
 
+    // Boxes the value of a custom struct expression, which is copied into the new object.
+    void __do_custom_struct_box(expression_compile_context_t & ctx, xil_pool_t & pool,
+        expression_t * expression, type_t * to_type)
+    {
+        pool.append<x_new_xil_t>(__ref_of(ctx, expression->get_type()));
+        pool.append<x_push_duplicate_xil_t>();
+
+        if (expression->get_behaviour() == expression_behaviour_t::execute)
+            expression->compile(ctx, pool, to_type);
+        else
+            expression->compile(ctx, pool);
+    }
+
     // param_types_t with specified param types.
     class __static_param_types_t : public param_types_t
     {
@@ -1146,6 +1159,11 @@ namespace X_ROOT_NS::modules::compile {
 
             exp->compile(ctx, pool);
         }
+        else if (is_ref_type(atype) && __is_custom_struct_like(exp->get_type())
+            && exp->get_behaviour() != expression_behaviour_t::new_)    // Box.
+        {
+            __do_custom_struct_box(ctx, pool, exp, atype);
+        }
         else
         {
             vtype_t vtype = vtype_t::__default__;
@@ -2432,31 +2450,25 @@ namespace X_ROOT_NS::modules::compile {
     // Returns whether a variable need object copy.
     static bool __need_object_copy(expression_t * exp)
     {
-        expression_t * parent_exp = exp->parent;
-
+        // The last part of a name, such as c in a.b.c, is used as the whole name.
         for (expression_t * parent_exp; (parent_exp = exp->parent) != nullptr; exp = parent_exp)
         {
-            switch (parent_exp->this_family())
-            {
-                case expression_family_t::binary:
-                {
-                    binary_expression_t * binary_exp = (binary_expression_t *)parent_exp;
-                    switch (binary_exp->op())
-                    {
-                        case operator_t::member_point:
-                        case operator_t::assign:
-                            if (binary_exp->exp1() == exp)
-                                return false;
-
-                        default:
-                            break;
-                    }
+            if (parent_exp->this_family() != expression_family_t::binary)
+                return true;
 
+            binary_expression_t * binary_exp = (binary_expression_t *)parent_exp;
+            switch (binary_exp->op())
+            {
+                case operator_t::member_point:
+                    if (binary_exp->exp1() == exp)
+                        return false;
                     break;
-                }
+
+                case operator_t::assign:
+                    return binary_exp->exp1() != exp;
 
                 default:
-                    break;
+                    return true;
             }
         }
 
@@ -2974,12 +2986,9 @@ namespace X_ROOT_NS::modules::compile {
                     exp->compile(ctx, pool, type);
                     pool.append<x_cast_xil_t>(xil_cast_command_t::default_, __ref_of(ctx, type));
                 }
-                else if (behaviour == expression_behaviour_t::execute &&
-                        __is_custom_struct_like(exp_type))
+                else if (__is_custom_struct_like(exp_type))
                 {
-                    pool.append<x_new_xil_t>(__ref_of(ctx, exp_type));
-                    pool.append<x_push_duplicate_xil_t>();
-                    exp->compile(ctx, pool, type);
+                    __do_custom_struct_box(ctx, pool, exp, type);
                 }
                 else
                 {
@@ -3000,7 +3009,9 @@ namespace X_ROOT_NS::modules::compile {
                 if (__is_custom_struct_like(type)) // Unbox custom struct.
                 {
                     exp->compile(ctx, pool);
-                    pool.append<x_object_copy_xil_t>(__ref_of(ctx, type), xil_copy_kind_t::reverse);
+
+                    if (__need_object_copy(this))
+                        pool.append<x_object_copy_xil_t>(__ref_of(ctx, type), xil_copy_kind_t::reverse);
                 }
                 else    // internal value types.
                 {
diff --git a/modules/compile/utils.h b/modules/compile/utils.h
index df1eb25..5f44d83 100644
--- a/modules/compile/utils.h
+++ b/modules/compile/utils.h
@@ -178,6 +178,10 @@ namespace X_ROOT_NS::modules::compile {
     void compile_assign(__cctx_t & ctx, xil_pool_t & pool, local_variable_t * var,
                                                            expression_t * exp);
 
+    // Boxes the value of a custom struct expression.
+    void __do_custom_struct_box(expression_compile_context_t & ctx, xil_pool_t & pool,
+        expression_t * expression, type_t * to_type);
+
     // Pre append custom struct for return.
     void __do_custom_struct_return(expression_compile_context_t & ctx, xil_pool_t & pool,
         expression_t * expression, const __environment_t & env = __environment_t::empty);
diff --git a/modules/compile/xilx.cpp b/modules/compile/xilx.cpp
index 82e37fc..9601d18 100644
--- a/modules/compile/xilx.cpp
+++ b/modules/compile/xilx.cpp
@@ -487,6 +487,12 @@ namespace X_ROOT_NS::modules::compile {
                 expression_compile_context_t cctx(ctx);
                 __do_custom_struct_return(cctx, pool, expression, type);
             }
+            else if (is_ref_type(type) && is_custom_struct(expression->get_type())
+                && expression->get_behaviour() != expression_behaviour_t::new_)     // Box.
+            {
+                expression_compile_context_t cctx(ctx);
+                __do_custom_struct_box(cctx, pool, expression, type);
+            }
             else
             {
                 __compile_expression(ctx, pool, expression, type);
-- 
2.43.0


From 0f4487ba16cc15b4e0f03d7108b7bf9e81120b0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:45:55 +0000
Subject: [PATCH 37/82] fix: place new virtual methods after those of the base
 types, not counting overrides

---
 modules/rt/rt.cpp | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/modules/rt/rt.cpp b/modules/rt/rt.cpp
index 0dcd20a..a4d61b6 100644
--- a/modules/rt/rt.cpp
+++ b/modules/rt/rt.cpp
@@ -377,7 +377,7 @@ namespace X_ROOT_NS::modules::rt {
 
         msize_t count = 0;
         this->each_method(env, [&count](ref_t, rt_method_base_t * method) {
-            return method->is_virtual()? (++count, true) : false;
+            return method->is_virtual()? (++count, true) : method->is_override();
         });
 
         return count;
@@ -861,9 +861,11 @@ namespace X_ROOT_NS::modules::rt {
                 method_prototype_t prototype;
                 analyzer.get_prototype(method_ref, &prototype);
 
+                // A new virtual method hides the one of the base type, search from the last.
                 bool found = false;
-                for (rt_vtable_function_t & func : vfuncs)
+                for (size_t k = vfuncs.size(); k > 0; )
                 {
+                    rt_vtable_function_t & func = vfuncs[--k];
                     rt_assembly_t * rt_assembly0 = env.assemblies.at(func.assembly_idx);
                     rt_method_t * rt_method0 = rt_assembly0->get_method(ref_t(func.method_idx));
                     assembly_analyzer_t analyzer0(env, rt_assembly0);
@@ -3160,7 +3162,17 @@ namespace X_ROOT_NS::modules::rt {
         decorate_t decorate = (decorate_t)(*method)->decorate;
         if (__is_virtual(decorate))
         {
-            int offset = rt_type->get_method_offset(env, method_ref);
+            // Overrides use the positions of the base types.
+            int offset = 0;
+            rt_type->each_method(env, [&](ref_t method_ref0, rt_method_base_t * method0) {
+                if (method_ref0 == method_ref)
+                    return false;
+
+                if (method0->is_virtual())
+                    offset++;
+
+                return true;
+            });
 
             rt_type_t * base_type = rt_type->get_base_type(env);
             if (base_type != nullptr)
-- 
2.43.0


From ce1de35c0f66458d17250e5729ff030b1fa082fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:45:55 +0000
Subject: [PATCH 38/82] fix: dispatch interface calls to the overrides of all
 derived types

---
 modules/rt/rt.cpp | 33 +++++++++++++++++----------------
 1 file changed, 17 insertions(+), 16 deletions(-)

diff --git a/modules/rt/rt.cpp b/modules/rt/rt.cpp
index a4d61b6..741c477 100644
--- a/modules/rt/rt.cpp
+++ b/modules/rt/rt.cpp
@@ -957,16 +957,24 @@ namespace X_ROOT_NS::modules::rt {
         return true;
     }
 
-    // Builds virtual functions for an interface method.
-    // Returns stop means stop build.
+    // Replaces an interface method with the overrides in the types derived from the implementing
+    // type. Returns false when it was hidden by a new method.
     static bool __build_interface_override(assembly_analyzer_t & analyzer, rt_type_t * type,
-        __rt_interface_vfunctions_t & vfs, int index, rt_type_t * interface_type,
+        __rt_interface_vfunctions_t & vfs, int index, rt_type_t * implement_type,
         method_prototype_t & prototype)
     {
         _A(index < vfs.size());
 
+        if (type == implement_type)
+            return true;
+
         analyzer_env_t & env = analyzer.env;
-        bool stop_build = false;
+
+        if (!__build_interface_override(analyzer, type->get_base_type(env), vfs, index,
+                                                            implement_type, prototype))
+            return false;
+
+        bool hidden = false;
 
         type->each_method(env, [&](ref_t ref, rt_method_base_t * method) {
 
@@ -984,13 +992,13 @@ namespace X_ROOT_NS::modules::rt {
             }
             else
             {
-                stop_build = true;
+                hidden = true;
             }
 
             return false;
         });
 
-        return stop_build;
+        return !hidden;
     }
 
     // Builds virtual functions for interfaces.
@@ -1029,17 +1037,10 @@ namespace X_ROOT_NS::modules::rt {
             }
 
             rt_method_base_t * method1 = vfs[index].method;
-            if (method1->is_virtual() && method1->get_owner_type(env) == nullptr)
+            if ((method1->is_virtual() || method1->is_override())
+                && method1->get_owner_type(env) == nullptr)
             {
-                rt_type_t * type1 = raw_type;
-                while (type1 != type)
-                {
-                    if (!__build_interface_override(analyzer, type1, vfs, index,
-                                                            interface_type, prototype))
-                        break;
-
-                    type1 = type1->get_base_type(env);
-                }
+                __build_interface_override(analyzer, raw_type, vfs, index, type, prototype);
             }
 
             index++;
-- 
2.43.0


From a028afe5f10ab0557723b565dc5d1a1ffe0187fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:49:47 +0000
Subject: [PATCH 39/82] fix: keep the result of a call whose member is accessed
 when the whole value is not used

---
 modules/compile/expression.cpp | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/modules/compile/expression.cpp b/modules/compile/expression.cpp
index 70c183b..0164dee 100644
--- a/modules/compile/expression.cpp
+++ b/modules/compile/expression.cpp
@@ -1878,11 +1878,24 @@ namespace X_ROOT_NS::modules::compile {
         return __is_effective(exp->get_behaviour()) || __is_whole_effective(exp->parent);
     }
 
+    // Returns whether the members of an expression are accessed, such as a.b in a.b.c .
+    static bool __is_member_accessed(expression_t * exp)
+    {
+        for (expression_t * parent = exp->parent; parent != nullptr && __is_member_expression(parent);
+            exp = parent, parent = exp->parent)
+        {
+            if (((binary_expression_t *)parent)->exp1() == exp)
+                return true;
+        }
+
+        return false;
+    }
+
     // Pops return value from stack
     static bool __try_pop_empty_for_method(__cctx_t & ctx, xil_pool_t & pool,
                                         method_base_t * method, expression_t * owner_exp)
     {
-        if (__is_whole_effective(owner_exp->parent))
+        if (__is_member_accessed(owner_exp) || __is_whole_effective(owner_exp->parent))
             return false;
 
         type_t * ret_type = method->get_type();
-- 
2.43.0


From 10ff360bb5d7f8448c668b90bffdc0e850357601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:49:47 +0000
Subject: [PATCH 40/82] fix: create arrays of interface types

---
 modules/rt/rt.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/modules/rt/rt.cpp b/modules/rt/rt.cpp
index 741c477..91056a0 100644
--- a/modules/rt/rt.cpp
+++ b/modules/rt/rt.cpp
@@ -1802,7 +1802,8 @@ namespace X_ROOT_NS::modules::rt {
     {
         _A(element_type != nullptr);
 
-        element_type->pre_new(env);
+        if (element_type->get_ttype(env) != ttype_t::interface_)
+            element_type->pre_new(env);
 
         if (element_size == unknown_msize)
             element_size = element_type->get_variable_size(env);
-- 
2.43.0


From 14f65e4cdf0a465d84387cebc0b0cdf1bcb12950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:57:52 +0000
Subject: [PATCH 41/82] fix: raise NullReferenceException for unboxing a custom
 struct from null

---
 modules/compile/expression.cpp |  3 +++
 modules/exec/commands.cpp      | 15 +++++++++++----
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/modules/compile/expression.cpp b/modules/compile/expression.cpp
index 0164dee..f8e2d83 100644
--- a/modules/compile/expression.cpp
+++ b/modules/compile/expression.cpp
@@ -3023,6 +3023,9 @@ namespace X_ROOT_NS::modules::compile {
                 {
                     exp->compile(ctx, pool);
 
+                    if (is_custom_struct(type))
+                        pool.append<x_cast_xil_t>(xil_cast_command_t::default_, __ref_of(ctx, type));
+
                     if (__need_object_copy(this))
                         pool.append<x_object_copy_xil_t>(__ref_of(ctx, type), xil_copy_kind_t::reverse);
                 }
diff --git a/modules/exec/commands.cpp b/modules/exec/commands.cpp
index db9ae7e..a4dac91 100644
--- a/modules/exec/commands.cpp
+++ b/modules/exec/commands.cpp
@@ -5352,10 +5352,10 @@ namespace X_ROOT_NS::modules::exec {
 
     public:
         #if EXEC_TRACE
-        __cast_command_t(rt_type_t * type, rt_sid_t type_name)
-            : __type(type), __type_name(type_name) { }
+        __cast_command_t(rt_type_t * type, rt_sid_t type_name, bool unbox = false)
+            : __type(type), __unbox(unbox), __type_name(type_name) { }
         #else
-        __cast_command_t(rt_type_t * type): __type(type) { }
+        __cast_command_t(rt_type_t * type, bool unbox = false) : __type(type), __unbox(unbox) { }
         #endif
 
         #if EXEC_TRACE
@@ -5372,7 +5372,12 @@ namespace X_ROOT_NS::modules::exec {
             if constexpr (_cast_cmd == xil_cast_command_t::default_)
             {
                 rt_ref_t obj = ctx.stack.pick<rt_ref_t>();
-                if (obj != nullptr)
+                if (__This->__unbox)            // The value of a struct cannot be null.
+                {
+                    if (obj == nullptr)
+                        __RaiseException(ctx, null_reference);
+                }
+                else if (obj != nullptr)
                 {
                     rt_type_t * rt_type = __RtTypeOf(obj);
                     if (!__cast_test<_is_interface>(rt_type, __type))
@@ -5412,6 +5417,7 @@ namespace X_ROOT_NS::modules::exec {
 
     private:
         rt_type_t *     __type;
+        bool            __unbox;
 
         #if EXEC_TRACE
         rt_sid_t        __type_name;
@@ -5456,6 +5462,7 @@ namespace X_ROOT_NS::modules::exec {
                 #if EXEC_TRACE
                     , type->get_name(ctx.env)
                 #endif
+                    , type->get_ttype(ctx.env) == ttype_t::struct_
                 );
 
             }   break;
-- 
2.43.0


From db7d577c67748a0823044a57c675e0aca9252607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:57:52 +0000
Subject: [PATCH 42/82] fix: keep space for the virtual tables of array and
 generic types, and build them for arrays

---
 include/modules/rt.h |  5 +++++
 modules/rt/rt.cpp    | 38 +++++++++++++++++++++++++++++++++++---
 2 files changed, 40 insertions(+), 3 deletions(-)

diff --git a/include/modules/rt.h b/include/modules/rt.h
index bc05b92..6e1dbd9 100644
--- a/include/modules/rt.h
+++ b/include/modules/rt.h
@@ -1537,6 +1537,11 @@ namespace X_ROOT_NS::modules::rt {
         // When caculate layout.
         virtual msize_t on_caculate_layout(analyzer_env_t & env, msize_t base_size,
                                         storage_type_t * out_storage_type) override final;
+
+    private:
+
+        // Builds virtual table.
+        void __build_vtbl(analyzer_env_t & env);
     };
 
     //-------- ---------- ---------- ---------- ----------
diff --git a/modules/rt/rt.cpp b/modules/rt/rt.cpp
index 91056a0..8bc1e61 100644
--- a/modules/rt/rt.cpp
+++ b/modules/rt/rt.cpp
@@ -264,9 +264,9 @@ namespace X_ROOT_NS::modules::rt {
         return get(key, [&]() {
 
             key = revise_key(key, (rt_type_t **)atypes, atype_count);
-            return memory_t::new_obj<rt_generic_type_t>(memory,
+            return &memory_t::new_obj<__type_wrap_t<__tidx_t::generic_type>>(memory,
                 template_, host_type, key.types(), atype_count
-            );
+            )->type;
 
         });
     }
@@ -279,7 +279,9 @@ namespace X_ROOT_NS::modules::rt {
 
         auto key = new_key<rpool_key_type_t::array_type>(element_type, dimension);
         return get(key, [memory, element_type, dimension]() {
-            return memory_t::new_obj<rt_array_type_t>(memory, element_type, dimension);
+            return &memory_t::new_obj<__type_wrap_t<__tidx_t::array_type>>(memory,
+                element_type, dimension
+            )->type;
         });
     }
 
@@ -1807,6 +1809,36 @@ namespace X_ROOT_NS::modules::rt {
 
         if (element_size == unknown_msize)
             element_size = element_type->get_variable_size(env);
+
+        if (get_vtable(this) == nullptr)
+            this->__build_vtbl(env);
+    }
+
+    // Builds virtual table, with the base types only.
+    void rt_array_type_t::__build_vtbl(analyzer_env_t & env)
+    {
+        al::svector_t<rt_type_t *, 16> base_types;
+        for (rt_type_t * type = env.get_tarray_type(); (type = type->get_base_type(env)) != nullptr; )
+        {
+            base_types.push_back(type);
+        }
+
+        size_t base_types_pos = sizeof(rt_vtable_t);
+        size_t interfaces_pos = base_types_pos + base_types.size() * sizeof(rt_type_t *);
+        size_t size = interfaces_pos + sizeof(rt_vtable_interfaces_t) + sizeof(rt_vtable_interface_t);
+        rt_vtable_t * vtable = memory_t::new_obj<rt_vtable_t>(size, env.get_memory());
+        byte_t * ptr0 = (byte_t *)vtable;
+
+        vtable->base_types = (rt_type_t **)(ptr0 + base_types_pos);
+        vtable->base_type_count = base_types.size();
+        al::copy(base_types, vtable->base_types);
+
+        vtable->interfaces = (rt_vtable_interfaces_t *)(ptr0 + interfaces_pos);
+        vtable->interfaces->recently = vtable->interfaces->interfaces;
+        vtable->interfaces->interfaces[0].interface_type = nullptr;
+        vtable->interface_count = 0;
+
+        set_vtable(this, vtable);
     }
 
     // Gets ttype.
-- 
2.43.0


From 08b5836068899762b7d64c9c2d9fd047c31864a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:01:41 +0000
Subject: [PATCH 43/82] fix: box the value tested by is and as

---
 modules/compile/expression.cpp | 29 +++++++++++++++++++++++++----
 1 file changed, 25 insertions(+), 4 deletions(-)

diff --git a/modules/compile/expression.cpp b/modules/compile/expression.cpp
index f8e2d83..5ae9a38 100644
--- a/modules/compile/expression.cpp
+++ b/modules/compile/expression.cpp
@@ -1616,13 +1616,34 @@ namespace X_ROOT_NS::modules::compile {
         xil::append_label_xil(sctx, pool, finally_jmp_xil);
     }
 
+    // Compiles an expression as an object, boxes it if it's a value.
+    static void __compile_object(__cctx_t & ctx, xil_pool_t & pool, expression_t * exp,
+                                                                    type_t * to_type)
+    {
+        type_t * type = exp->get_type();
+
+        if (type == nullptr || !is_value_type(type))
+        {
+            exp->compile(ctx, pool);
+        }
+        else if (is_custom_struct(type))
+        {
+            __do_custom_struct_box(ctx, pool, exp, to_type);
+        }
+        else
+        {
+            exp->compile(ctx, pool);
+            pool.append<x_push_box_xil_t>(__ref_of(ctx, type));
+        }
+    }
+
     // Compiles as expression.
     static void __compile_as(__cctx_t & ctx, xil_pool_t & pool,
                                 expression_t * exp1, expression_t * exp2)
     {
-        exp1->compile(ctx, pool);
-
         type_t * type = __to_actual_type(exp2);
+        __compile_object(ctx, pool, exp1, type);
+
         ref_t type_ref = __ref_of(ctx, type);
         _A(type_ref != ref_t::null);
 
@@ -1633,9 +1654,9 @@ namespace X_ROOT_NS::modules::compile {
     static void __compile_is(__cctx_t & ctx, xil_pool_t & pool,
                                 expression_t * exp1, expression_t * exp2)
     {
-        exp1->compile(ctx, pool);
-
         type_t * type = __to_actual_type(exp2);
+        __compile_object(ctx, pool, exp1, type);
+
         ref_t type_ref = __ref_of(ctx, type);
         _A(type_ref != ref_t::null);
 
-- 
2.43.0


From ef2ec9d5325e77c0dadf70535a52db4209ab8ced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:08:41 +0000
Subject: [PATCH 44/82] fix: box constants and struct results of calls given as
 arguments

---
 modules/compile/expression.cpp | 25 ++++++++++++-------------
 modules/compile/utils.h        |  2 +-
 modules/compile/xilx.cpp       |  2 +-
 3 files changed, 14 insertions(+), 15 deletions(-)

diff --git a/modules/compile/expression.cpp b/modules/compile/expression.cpp
index 5ae9a38..2ab765c 100644
--- a/modules/compile/expression.cpp
+++ b/modules/compile/expression.cpp
@@ -369,15 +369,12 @@ namespace X_ROOT_NS::modules::compile {
 
     // Boxes the value of a custom struct expression, which is copied into the new object.
     void __do_custom_struct_box(expression_compile_context_t & ctx, xil_pool_t & pool,
-        expression_t * expression, type_t * to_type)
+        expression_t * expression)
     {
         pool.append<x_new_xil_t>(__ref_of(ctx, expression->get_type()));
         pool.append<x_push_duplicate_xil_t>();
 
-        if (expression->get_behaviour() == expression_behaviour_t::execute)
-            expression->compile(ctx, pool, to_type);
-        else
-            expression->compile(ctx, pool);
+        expression->compile(ctx, pool);
     }
 
     // param_types_t with specified param types.
@@ -1162,7 +1159,7 @@ namespace X_ROOT_NS::modules::compile {
         else if (is_ref_type(atype) && __is_custom_struct_like(exp->get_type())
             && exp->get_behaviour() != expression_behaviour_t::new_)    // Box.
         {
-            __do_custom_struct_box(ctx, pool, exp, atype);
+            __do_custom_struct_box(ctx, pool, exp);
         }
         else
         {
@@ -1172,7 +1169,10 @@ namespace X_ROOT_NS::modules::compile {
 
             xil_type_t xil_type = to_xil_type(vtype);
 
-            if (!__try_compile_constant_expression(ctx, pool, exp, xil_type))
+            // A value is boxed when an object is required.
+            bool box = is_ref_type(atype) && is_value_type(exp->get_type());
+
+            if (box || !__try_compile_constant_expression(ctx, pool, exp, xil_type))
                 exp->compile(ctx, pool, atype);
         }
     }
@@ -1617,8 +1617,7 @@ namespace X_ROOT_NS::modules::compile {
     }
 
     // Compiles an expression as an object, boxes it if it's a value.
-    static void __compile_object(__cctx_t & ctx, xil_pool_t & pool, expression_t * exp,
-                                                                    type_t * to_type)
+    static void __compile_object(__cctx_t & ctx, xil_pool_t & pool, expression_t * exp)
     {
         type_t * type = exp->get_type();
 
@@ -1628,7 +1627,7 @@ namespace X_ROOT_NS::modules::compile {
         }
         else if (is_custom_struct(type))
         {
-            __do_custom_struct_box(ctx, pool, exp, to_type);
+            __do_custom_struct_box(ctx, pool, exp);
         }
         else
         {
@@ -1642,7 +1641,7 @@ namespace X_ROOT_NS::modules::compile {
                                 expression_t * exp1, expression_t * exp2)
     {
         type_t * type = __to_actual_type(exp2);
-        __compile_object(ctx, pool, exp1, type);
+        __compile_object(ctx, pool, exp1);
 
         ref_t type_ref = __ref_of(ctx, type);
         _A(type_ref != ref_t::null);
@@ -1655,7 +1654,7 @@ namespace X_ROOT_NS::modules::compile {
                                 expression_t * exp1, expression_t * exp2)
     {
         type_t * type = __to_actual_type(exp2);
-        __compile_object(ctx, pool, exp1, type);
+        __compile_object(ctx, pool, exp1);
 
         ref_t type_ref = __ref_of(ctx, type);
         _A(type_ref != ref_t::null);
@@ -3022,7 +3021,7 @@ namespace X_ROOT_NS::modules::compile {
                 }
                 else if (__is_custom_struct_like(exp_type))
                 {
-                    __do_custom_struct_box(ctx, pool, exp, type);
+                    __do_custom_struct_box(ctx, pool, exp);
                 }
                 else
                 {
diff --git a/modules/compile/utils.h b/modules/compile/utils.h
index 5f44d83..91d546b 100644
--- a/modules/compile/utils.h
+++ b/modules/compile/utils.h
@@ -180,7 +180,7 @@ namespace X_ROOT_NS::modules::compile {
 
     // Boxes the value of a custom struct expression.
     void __do_custom_struct_box(expression_compile_context_t & ctx, xil_pool_t & pool,
-        expression_t * expression, type_t * to_type);
+        expression_t * expression);
 
     // Pre append custom struct for return.
     void __do_custom_struct_return(expression_compile_context_t & ctx, xil_pool_t & pool,
diff --git a/modules/compile/xilx.cpp b/modules/compile/xilx.cpp
index 9601d18..7beaf4e 100644
--- a/modules/compile/xilx.cpp
+++ b/modules/compile/xilx.cpp
@@ -491,7 +491,7 @@ namespace X_ROOT_NS::modules::compile {
                 && expression->get_behaviour() != expression_behaviour_t::new_)     // Box.
             {
                 expression_compile_context_t cctx(ctx);
-                __do_custom_struct_box(cctx, pool, expression, type);
+                __do_custom_struct_box(cctx, pool, expression);
             }
             else
             {
-- 
2.43.0


From 1e1922a29483806cfcb8a88968dedc07fcf1e4c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:17:42 +0000
Subject: [PATCH 45/82] fix: compute array indexes and lengths as int

---
 modules/compile/expression.cpp | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/modules/compile/expression.cpp b/modules/compile/expression.cpp
index 2ab765c..fd6f4de 100644
--- a/modules/compile/expression.cpp
+++ b/modules/compile/expression.cpp
@@ -388,8 +388,9 @@ namespace X_ROOT_NS::modules::compile {
             _A(type != nullptr);
         }
 
-        __static_param_types_t(array_index_variable_t * arr_var)
-            : __static_param_types_t(arr_var->get_type(), arr_var->dimension())
+        // For indexes of an array.
+        __static_param_types_t(arguments_t * arguments)
+            : __static_param_types_t(__XPool.get_internal_type(vtype_t::int32_), arguments->size())
         { }
 
         // Returns type count
@@ -450,7 +451,8 @@ namespace X_ROOT_NS::modules::compile {
                 __FailedWhenNull(var->arguments, "index '%1%' arguments missing", var);
                 __FailedWhenNull(var->body, "index '%1%' body missing", var);
 
-                __compile_arguments(ctx, pool, var->arguments);
+                __static_param_types_t param_types(var->arguments);
+                __compile_arguments(ctx, pool, var->arguments, &param_types);
                 var->body->compile(ctx, pool);
 
                 pool.append<x_push_array_element_addr_xil_t>(
@@ -1319,8 +1321,8 @@ namespace X_ROOT_NS::modules::compile {
                 __FailedWhenNull(body, "index '%1%' body missing", var);
                 __FailedWhenNull(args, "index '%1%' arguments missing", var);
 
-                __static_param_types_t param_types(arr_var);
-                __compile_arguments(ctx, pool, args);
+                __static_param_types_t param_types(args);
+                __compile_arguments(ctx, pool, args, &param_types);
                 body->compile(ctx, pool);
 
                 type_t * element_type = arr_var->get_type();
@@ -3127,7 +3129,8 @@ namespace X_ROOT_NS::modules::compile {
                 array_index_variable_t * variable, expression_t * namex,
                 const __environment_t & env)
     {
-        __compile_arguments(ctx, pool, this->arguments());
+        __static_param_types_t param_types(this->arguments());
+        __compile_arguments(ctx, pool, this->arguments(), &param_types);
         namex->compile(ctx, pool);
 
         type_t * element_type = __array_element_type_of(ctx, this);
@@ -3380,9 +3383,7 @@ namespace X_ROOT_NS::modules::compile {
                 if (expression == nullptr)
                     __Failed("unknown array length: '%1%'", this);
 
-                // TODO: must be int type
-
-                expression->compile(ctx, pool);
+                expression->compile(ctx, pool, __XPool.get_internal_type(vtype_t::int32_));
             }
         }
 
-- 
2.43.0


From 8115f4e067c719f875bbe00aff3bb3e49eeb2326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:21:19 +0000
Subject: [PATCH 46/82] fix: raise OutOfRangeException for the length of a
 dimension an array does not have

---
 core_lib/System/System.cs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/core_lib/System/System.cs b/core_lib/System/System.cs
index 90a6830..d86d4b0 100644
--- a/core_lib/System/System.cs
+++ b/core_lib/System/System.cs
@@ -98,6 +98,9 @@ public abstract class Array : Object
     // Returns length of array at specified dimension.
     public Int32 GetLength(Int32 dimension)
     {
+        if (dimension < 0 || dimension >= Rank)
+            throw new OutOfRangeException();
+
         return Internal.Array_GetLengthOfDimension(this, dimension);
     }
 
-- 
2.43.0


From 2d8ee4830c2feaa53f601830f27828780fe628c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:21:19 +0000
Subject: [PATCH 47/82] fix: keep the length of every dimension of an array,
 and check lengths when it is created

---
 include/modules/mm.h      |  6 ++----
 modules/exec/commands.cpp | 23 ++++++++++++++++++++---
 modules/mm/mm.cpp         |  4 +---
 3 files changed, 23 insertions(+), 10 deletions(-)

diff --git a/include/modules/mm.h b/include/modules/mm.h
index 55f4149..4ed5ab5 100644
--- a/include/modules/mm.h
+++ b/include/modules/mm.h
@@ -113,10 +113,8 @@ namespace X_ROOT_NS::modules::mm {
 
         array_length_t * lengths = get_array_lengths(arr_obj);
         int index = rank - dimension - 1;
-        if (index == 0)
-            return *lengths;
-            
-        return lengths[-index] / lengths[-index + 1];
+
+        return lengths[-index];
     }
 
     // Gets array length of specified dimension.
diff --git a/modules/exec/commands.cpp b/modules/exec/commands.cpp
index a4dac91..dfa5303 100644
--- a/modules/exec/commands.cpp
+++ b/modules/exec/commands.cpp
@@ -1181,20 +1181,20 @@ namespace X_ROOT_NS::modules::exec {
             return index >= 0 && index < mm::get_array_length(array_ref);
         }
 
-        // The lengths are accumulated from the last dimension to the first one.
+        // The lengths are kept from the last dimension to the first one.
         array_length_t * lengths = mm::get_array_lengths(array_ref);
         array_length_t position = 0, unit = 1;
 
         while (true)
         {
-            if (index < 0 || (int64_t)index * unit >= *lengths)
+            if (index < 0 || index >= *lengths)
                 return false;
 
             position += index * unit;
             if (--dimension == 0)
                 break;
 
-            unit  = *lengths--;
+            unit *= *lengths--;
             index = stack.pop<array_length_t>();
         }
 
@@ -6427,6 +6427,20 @@ namespace X_ROOT_NS::modules::exec {
 
     //-------- ---------- ---------- ---------- ----------
 
+    // Returns whether an array with the specified lengths can be created.
+    static bool __check_array_lengths(const array_length_t * lengths, dimension_t dimension)
+    {
+        int64_t total = 1;
+
+        for (const array_length_t * end = lengths + dimension; lengths < end; lengths++)
+        {
+            if (*lengths < 0 || (total *= *lengths) > std::numeric_limits<array_length_t>::max())
+                return false;
+        }
+
+        return true;
+    }
+
     template<>
     class __new_command_t<xil_new_type_t::array>
         : public __command_base_t<__NewCmd(array)>
@@ -6452,6 +6466,9 @@ namespace X_ROOT_NS::modules::exec {
                 *len = ctx.stack.pop<int32_t>();
             }
 
+            if (!__check_array_lengths(lengths, dimension))
+                __RaiseOutOfRangeException(ctx);
+
             ctx.stack.push(
                 ctx.heap->new_array(__This->__type, lengths)
             );
diff --git a/modules/mm/mm.cpp b/modules/mm/mm.cpp
index 14a77a5..ebe1ee8 100644
--- a/modules/mm/mm.cpp
+++ b/modules/mm/mm.cpp
@@ -177,13 +177,11 @@ namespace X_ROOT_NS::modules::mm {
             __set_array_length(obj, length);
 
             l_t * the_lengths = get_array_lengths(obj);
-            l_t base = 1;
 
             for (const l_t * l = lengths + dimension - 1, * l_end = lengths; l >= l_end;
                                                 l--, the_lengths--)
             {
-                *the_lengths = *l * base;
-                base = *the_lengths;
+                *the_lengths = *l;
             }
         }
         else
-- 
2.43.0


From 83377dad6fd2736aaa7457c72e35bd1e56cbebdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:21:19 +0000
Subject: [PATCH 48/82] fix: convert or box the initial values of an array, and
 store references as a whole

---
 modules/compile/expression.cpp |  5 ++++-
 modules/exec/commands.cpp      | 11 ++++++++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/modules/compile/expression.cpp b/modules/compile/expression.cpp
index fd6f4de..1275c09 100644
--- a/modules/compile/expression.cpp
+++ b/modules/compile/expression.cpp
@@ -3415,7 +3415,10 @@ namespace X_ROOT_NS::modules::compile {
 
                 // TODO: check init expression type.
 
-                element_exp->compile(ctx, pool);
+                if (is_ref_type(element_type) && is_value_type(element_exp->get_type()))    // Box.
+                    __compile_object(ctx, pool, element_exp);
+                else
+                    element_exp->compile(ctx, pool, element_type);
 
                 if (this_effective)
                     pool.append<x_array_element_xil_t>(dtype);  // TODO: struct?
diff --git a/modules/exec/commands.cpp b/modules/exec/commands.cpp
index dfa5303..7929d8a 100644
--- a/modules/exec/commands.cpp
+++ b/modules/exec/commands.cpp
@@ -6990,7 +6990,16 @@ namespace X_ROOT_NS::modules::exec {
             return 0;
         }
 
-        return size_of(xil.dtype());
+        switch (xil.dtype())
+        {
+            case xil_type_t::object:
+            case xil_type_t::ptr:
+            case xil_type_t::string:
+                return sizeof(rt_ref_t);
+
+            default:
+                return size_of(xil.dtype());
+        }
     }
 
     static command_t * __new_init_command(__context_t & ctx, const init_xil_t & xil)
-- 
2.43.0


From f26a7ec6d5d3ce7e8607fda86babbbfd2a369ef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:32:36 +0000
Subject: [PATCH 49/82] fix: call static, virtual and interface methods by a
 delegate as they are called directly

---
 modules/exec/commands.cpp | 80 ++++++++++++++++++++++++++++++++++++---
 1 file changed, 75 insertions(+), 5 deletions(-)

diff --git a/modules/exec/commands.cpp b/modules/exec/commands.cpp
index 7929d8a..ef1bd27 100644
--- a/modules/exec/commands.cpp
+++ b/modules/exec/commands.cpp
@@ -4287,9 +4287,8 @@ namespace X_ROOT_NS::modules::exec {
 
     template<typename _fetch_t>
     __AlwaysInline exec_method_t * __get_virtual_exec_method(command_execute_context_t & ctx,
-                                                msize_t this_offset, _fetch_t fetch_func)
+                                                rt_ref_t obj, _fetch_t fetch_func)
     {
-        rt_ref_t obj = *(rt_ref_t *)(ctx.stack.top() - this_offset);
         if (obj == nullptr)
             return nullptr;
 
@@ -4320,6 +4319,14 @@ namespace X_ROOT_NS::modules::exec {
         return (exec_method_t *)func.method;
     }
 
+    template<typename _fetch_t>
+    __AlwaysInline exec_method_t * __get_virtual_exec_method(command_execute_context_t & ctx,
+                                                msize_t this_offset, _fetch_t fetch_func)
+    {
+        rt_ref_t obj = *(rt_ref_t *)(ctx.stack.top() - this_offset);
+        return __get_virtual_exec_method(ctx, obj, fetch_func);
+    }
+
     // Normal virtual call command.
     class __virtual_call_command_t : public __command_base_t<__CallCmd(virtual_)>
     {
@@ -4634,10 +4641,20 @@ namespace X_ROOT_NS::modules::exec {
 
             // _P(_T("call delegate"), method->get_name());
 
-            exec_method_t * exec_method = ctx.env.exec_method_of(method);
+            if (__is_static(method))
+            {
+                // Static methods have no 'this' argument.
+                __This->__remove_self(ctx);
+                ctx.switch_to(ctx.env.exec_method_of(method));
+            }
+            else
+            {
+                exec_method_t * exec_method = call_type == xil_call_type_t::instance?
+                    ctx.env.exec_method_of(method) : __find_method(ctx, method, object);
 
-            __Argument(rt_object_t *, __this_offset) = object;
-            ctx.switch_to(exec_method);
+                __Argument(rt_object_t *, __This->__this_offset) = object;
+                ctx.switch_to(exec_method);
+            }
 
         __EndExecute()
 
@@ -4647,6 +4664,59 @@ namespace X_ROOT_NS::modules::exec {
 
         #endif  // EXEC_TRACE
 
+    private:
+
+        // Returns whether the method is static.
+        static bool __is_static(rt_method_base_t * method)
+        {
+            switch (method->this_type())
+            {
+                case rt_member_type_t::general:
+                    return ((decorate_t)(*(rt_method_t *)method)->decorate).is_static;
+
+                case rt_member_type_t::generic:
+                    return ((decorate_t)(*((rt_generic_method_t *)method)->template_)->decorate)
+                                                                                .is_static;
+                default:
+                    return false;
+            }
+        }
+
+        // Removes 'this' argument from current calling.
+        void __remove_self(__ctx_t & ctx) _NE
+        {
+            rt_stack_unit_t * p = (rt_stack_unit_t *)__ArgumentAddress(__This->__this_offset);
+            std::copy(p + 1, ctx.stack.top(), p);
+
+            ctx.stack.set_lp(ctx.stack.lp() - 1);
+            ctx.stack.set_top(ctx.stack.top() - 1);
+        }
+
+        // Finds the method to be executed, virtual methods are selected by the object.
+        static exec_method_t * __find_method(__ctx_t & ctx, rt_method_base_t * method,
+                                                            rt_object_t * object)
+        {
+            rt_type_t * host_type = method->get_host_type();
+            bool is_interface = host_type->get_ttype(ctx.env) == ttype_t::interface_;
+
+            if (!is_interface && !method->is_virtual() && !method->is_override())
+                return ctx.env.exec_method_of(method);
+
+            ref_t method_ref = ref_t::null;
+            host_type->each_method(ctx.env, [&](ref_t ref, rt_method_base_t * method0) {
+                return method0 == method? (method_ref = ref, false) : true;
+            });
+
+            _A(method_ref != ref_t::null);
+
+            assembly_analyzer_t analyzer = __assembly_analyzer(ctx, method->get_assembly());
+            msize_t offset = analyzer.get_virtual_method_offset(method_ref);
+
+            return __get_virtual_exec_method(ctx, (rt_ref_t)object, [&](rt_vtable_t * vtbl) {
+                return is_interface? vtbl->search_vtable_interface_function(host_type, offset)
+                                   : vtbl->functions[offset];
+            });
+        }
     };
 
 
-- 
2.43.0


From 64c671d6bb5bd4f73139b845ea3fc304f03b854c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:33:39 +0000
Subject: [PATCH 50/82] fix: give a place to the struct a delegate returns when
 it is not stored in a variable

---
 modules/compile/expression.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/modules/compile/expression.cpp b/modules/compile/expression.cpp
index 1275c09..d5f8e01 100644
--- a/modules/compile/expression.cpp
+++ b/modules/compile/expression.cpp
@@ -2935,6 +2935,7 @@ namespace X_ROOT_NS::modules::compile {
         if (template_ != __XPool.get_delegate_type())
             __Failed("delegate type error, should be System.Deletate<...>, but not %1%", gtype);
 
+        __pre_call_method(ctx, pool, this, this->get_type());
         __compile_variable(ctx, pool, variable, xil_type_t::ptr, this);
 
         analyze_member_args_t args(member_type_t::method, __XPool.to_name(_T("Invoke")));
-- 
2.43.0


From 0b3537b9c44a3772a3af41e008ad48e52d2209f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:34:42 +0000
Subject: [PATCH 51/82] fix: use this as the instance of a delegate of a method
 named without an instance

---
 modules/compile/expression.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/modules/compile/expression.cpp b/modules/compile/expression.cpp
index d5f8e01..988df3c 100644
--- a/modules/compile/expression.cpp
+++ b/modules/compile/expression.cpp
@@ -2153,6 +2153,14 @@ namespace X_ROOT_NS::modules::compile {
             }   break;
 
             case variable_type_t::method:
+
+                // Pushes this when there is no instance before the method.
+                if (!((method_variable_t *)variable)->method->is_static()
+                    && !__is_right_member(owner_exp->parent, owner_exp))
+                {
+                    pool.append<x_push_this_ref_xil_t>();
+                }
+
                 __compile_method_variable(ctx, pool, (method_variable_t *)variable, env,
                     __left_is_base(owner_exp->parent)? xil_call_type_t::instance
                                                      : xil_call_type_t::empty
-- 
2.43.0


From 38be71b3a4bc38f2f19ae955047a2f7cd5039a51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:35:53 +0000
Subject: [PATCH 52/82] fix: raise NullReferenceException for a delegate
 without a method or an instance

---
 modules/exec/commands.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/modules/exec/commands.cpp b/modules/exec/commands.cpp
index ef1bd27..6ce5a54 100644
--- a/modules/exec/commands.cpp
+++ b/modules/exec/commands.cpp
@@ -4638,6 +4638,7 @@ namespace X_ROOT_NS::modules::exec {
 
             xil_call_type_t call_type = (xil_call_type_t)al::incorp_v<int32_t>(method);
             method = al::incorp_p(method);
+            __CheckNullReference(ctx, method);      // Not initialized.
 
             // _P(_T("call delegate"), method->get_name());
 
@@ -4651,6 +4652,7 @@ namespace X_ROOT_NS::modules::exec {
             {
                 exec_method_t * exec_method = call_type == xil_call_type_t::instance?
                     ctx.env.exec_method_of(method) : __find_method(ctx, method, object);
+                __CheckNullReference(ctx, exec_method);
 
                 __Argument(rt_object_t *, __This->__this_offset) = object;
                 ctx.switch_to(exec_method);
-- 
2.43.0


From 685c8f786530c8660e2ecfdf8bed2c0f0ee65b24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:50:43 +0000
Subject: [PATCH 53/82] fix: run compiled assemblies when no source is given

---
 modules/april/compiler.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/modules/april/compiler.cpp b/modules/april/compiler.cpp
index eb50351..531003d 100644
--- a/modules/april/compiler.cpp
+++ b/modules/april/compiler.cpp
@@ -257,6 +257,9 @@ namespace X_ROOT_NS::modules::april {
     // Runs specified assembly.
     void april_xcompiler_t::__run(const string_t & execute_assembly)
     {
+        // Reading assemblies requires a global context, there is none when nothing was compiled.
+        april_compiler_t compiler(_T("solution1"), &__controller);
+
         __cassembly_t * main_cassembly;
 
         if (execute_assembly.empty())
-- 
2.43.0


From 826d169a8cf1274da97d3f18d807b36a982d4c7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:56:25 +0000
Subject: [PATCH 54/82] fix: access the fields of the types of other assemblies

---
 modules/core/assembly_writer.cpp |  9 +++++++++
 modules/exec/commands.cpp        | 12 +++++++++++-
 2 files changed, 20 insertions(+), 1 deletion(-)

diff --git a/modules/core/assembly_writer.cpp b/modules/core/assembly_writer.cpp
index 82cd460..27d4fa8 100644
--- a/modules/core/assembly_writer.cpp
+++ b/modules/core/assembly_writer.cpp
@@ -216,6 +216,14 @@ namespace X_ROOT_NS::modules::core {
             mt->generic_param_count = method->generic_param_count();
         }
 
+        // Assigns field ref metadata.
+        void __assign_mt(mt_field_ref_t * mt, field_t * field)
+        {
+            mt->host    = __W->__commit_type(field->host_type);
+            mt->type    = __W->__commit_type(to_type(field->type_name));
+            mt->name    = __S(field->name);
+        }
+
         // Assigns method ref param metadata.
         void __assign_mt(mt_method_ref_param_t * mt, param_t * param)
         {
@@ -574,6 +582,7 @@ namespace X_ROOT_NS::modules::core {
                     __AssignMtCase(field)
                     __AssignMtCase(event)
                     __AssignMtCase(type_def)
+                    __AssignMtCase(field_ref)
                     __AssignMtCase(method_ref)
                     __AssignMtCase(method_ref_param)
                     __AssignMtCase(nest_type)
diff --git a/modules/exec/commands.cpp b/modules/exec/commands.cpp
index 6ce5a54..968171c 100644
--- a/modules/exec/commands.cpp
+++ b/modules/exec/commands.cpp
@@ -929,7 +929,9 @@ namespace X_ROOT_NS::modules::exec {
                 _A( rt_field != nullptr );
                 _A( rt_type != nullptr );
 
-                rt_type_t * rt_field_type = rt_field->get_field_type(ctx,
+                // The type of the field is a ref of the assembly which it belongs to.
+                assembly_analyzer_t analyzer(ctx, rt_type->get_assembly());
+                rt_type_t * rt_field_type = rt_field->get_field_type(analyzer,
                                         dynamic_cast<rt_generic_type_t *>(ctx.type));
 
                 _A( rt_field_type != nullptr );
@@ -995,6 +997,14 @@ namespace X_ROOT_NS::modules::exec {
 
                 rt_general_type_t * general_type = (rt_general_type_t *)rt_type;
 
+                // The ref of an import field belongs to the current assembly, gets its own one.
+                if ((mt_member_extra_t)field_ref.extra == mt_member_extra_t::import)
+                {
+                    rt_type->each_field(ctx.env, [&](ref_t ref, rt_field_base_t * field) {
+                        return field == rt_field? field_ref = ref, false : true;
+                    });
+                }
+
                 if (!general_type->is_generic_template())
                     return rt_type->get_field_offset(ctx.env, field_ref);
 
-- 
2.43.0


From f9ef2021ba122c0669a1fcf97a4424117f45f699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:57:31 +0000
Subject: [PATCH 55/82] fix: find the positions of the virtual methods
 overridden across assemblies

---
 modules/rt/rt.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/modules/rt/rt.cpp b/modules/rt/rt.cpp
index 8bc1e61..6e1258b 100644
--- a/modules/rt/rt.cpp
+++ b/modules/rt/rt.cpp
@@ -3218,7 +3218,7 @@ namespace X_ROOT_NS::modules::rt {
         if (decorate.is_override)
         {
             method_prototype_t prototype;
-            get_prototype(method_ref, &prototype);
+            assembly_analyzer_t(*this, rt_type->get_assembly()).get_prototype(method, &prototype);
 
             do
             {
@@ -3231,7 +3231,9 @@ namespace X_ROOT_NS::modules::rt {
 
             } while (method_ref == ref_t::null);
 
-            return get_virtual_method_offset( method_ref);
+            // The method belongs to the assembly of the base type.
+            assembly_analyzer_t analyzer0(*this, rt_type->get_assembly());
+            return analyzer0.get_virtual_method_offset(method_ref);
         }
 
         throw __RtAssemblyErrorF("virtual method '%1%' not found", method->get_name());
-- 
2.43.0


From a47f101dd1c90a757fd88df7cecd3e92c40c19cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:11:19 +0000
Subject: [PATCH 56/82] fix: give the assignment of an enum value its result,
 which an empty try block needs

---
 include/common.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/common.h b/include/common.h
index 36f87c1..62cf690 100644
--- a/include/common.h
+++ b/include/common.h
@@ -2499,12 +2499,14 @@ namespace X_ROOT_NS {
         constexpr __self_t operator = (_enum_t v) _NE
         {
             this->value = v;
+            return *this;
         }
 
         // Assigns a value.
         constexpr __self_t operator = (__self_t v) _NE
         {
             this->value = v.value;
+            return *this;
         }
 
         // Equals.
-- 
2.43.0


From 47f58357943fa15fa84519fdd14a52c437d55cc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:58:45 +0000
Subject: [PATCH 57/82] fix: check the types of assignments

---
 modules/compile/ast_utils.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/modules/compile/ast_utils.cpp b/modules/compile/ast_utils.cpp
index bbb0ec5..0ad8ba6 100644
--- a/modules/compile/ast_utils.cpp
+++ b/modules/compile/ast_utils.cpp
@@ -1182,9 +1182,6 @@ namespace X_ROOT_NS::modules::compile {
             const operator_property_t * op_property = exp->op_property;
             _A(op_property != nullptr);
 
-            if (op_property->overload == operator_overload_model_t::no_check)
-                return;
-
             operator_t op = op_property->op;
             if (op == operator_t::assign)
             {
@@ -1199,6 +1196,9 @@ namespace X_ROOT_NS::modules::compile {
                 return;
             }
 
+            if (op_property->overload == operator_overload_model_t::no_check)
+                return;
+
             // Collect argument types.
             atypes_t atypes;
             bool exists_custom_type = false;
-- 
2.43.0


From 411ddb27f0fa38a1fdda932e2e8d709310d41f79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:59:45 +0000
Subject: [PATCH 58/82] fix: report failed compilations in the exit code

---
 include/modules/april.h |  8 ++++----
 modules/april/april.cpp | 23 ++++++++++-------------
 2 files changed, 14 insertions(+), 17 deletions(-)

diff --git a/include/modules/april.h b/include/modules/april.h
index 29f09f9..31a5557 100644
--- a/include/modules/april.h
+++ b/include/modules/april.h
@@ -303,8 +303,8 @@ namespace X_ROOT_NS::modules::april {
         // Constructor.
         april_t(april_options_t & options);
 
-        // Executes.
-        void execute();
+        // Executes, returns false when failed.
+        bool execute();
 
         X_TO_STRING_IMPL(_T("april_t"))
 
@@ -314,10 +314,10 @@ namespace X_ROOT_NS::modules::april {
         typedef april_options_t __t;
 
         // Executes compiling command.
-        void __execute_compile(const __t::compile_options_t & options);
+        bool __execute_compile(const __t::compile_options_t & options);
 
         // Executes running command.
-        void __execute_run(const __t::run_options_t & options);
+        bool __execute_run(const __t::run_options_t & options);
 
         // Executes helping command.
         void __execute_help(const __t::help_options_t & options);
diff --git a/modules/april/april.cpp b/modules/april/april.cpp
index 5492315..12f0100 100644
--- a/modules/april/april.cpp
+++ b/modules/april/april.cpp
@@ -398,17 +398,15 @@ Use \"april help [command] ...\" for more information about a command.      \n\
     }
 
     // Executes.
-    void april_t::execute()
+    bool april_t::execute()
     {
         switch (__options.command)
         {
             case april_command_t::compile:
-                __execute_compile(__options.get<__t::compile_options_t>());
-                break;
+                return __execute_compile(__options.get<__t::compile_options_t>());
 
             case april_command_t::run:
-                __execute_run(__options.get<__t::run_options_t>());
-                break;
+                return __execute_run(__options.get<__t::run_options_t>());
 
             case april_command_t::help:
                 __execute_help(__options.get<__t::help_options_t>());
@@ -421,18 +419,20 @@ Use \"april help [command] ...\" for more information about a command.      \n\
             default:
                 X_UNEXPECTED();
         }
+
+        return true;
     }
 
     // Executes compile command.
-    void april_t::__execute_compile(const __t::compile_options_t & options)
+    bool april_t::__execute_compile(const __t::compile_options_t & options)
     {
-        april_xcompiler_t(options).compile();
+        return april_xcompiler_t(options).compile();
     }
 
     // Executes run command.
-    void april_t::__execute_run(const __t::run_options_t & options)
+    bool april_t::__execute_run(const __t::run_options_t & options)
     {
-        april_xcompiler_t(options).run(options.execute_assembly);
+        return april_xcompiler_t(options).run(options.execute_assembly);
     }
 
     // Executes help command.
@@ -457,11 +457,8 @@ Use \"april help [command] ...\" for more information about a command.      \n\
         try
         {
             april_options_t options;
-            if (options.parse(argc, argv))
-            {
-                april_t(options).execute();
+            if (options.parse(argc, argv) && april_t(options).execute())
                 return 0;
-            }
         }
         catch (const error_t & err)
         {
-- 
2.43.0


From 56a336253ea43e1d055d9d407f06d58bbcbe383d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:03:37 +0000
Subject: [PATCH 59/82] fix: match out arguments of value types only with
 parameters of the same type

---
 modules/core/core.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/modules/core/core.cpp b/modules/core/core.cpp
index d830f5e..3704f5c 100644
--- a/modules/core/core.cpp
+++ b/modules/core/core.cpp
@@ -2907,7 +2907,9 @@ namespace X_ROOT_NS::modules::core {
 
             if (param->ptype == param_type_t::out)
             {
-                if (is_type_compatible(param_type, argument_type))
+                // The method writes a value of its own type, only references have the same size.
+                if (is_ref_type(param_type) && is_ref_type(argument_type)
+                    && is_type_compatible(param_type, argument_type))
                     return __member_compare_t::match;
             }
             else
-- 
2.43.0


From afee6dee0e512c1910af2554be0bdaf5d69ad573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:11:59 +0000
Subject: [PATCH 60/82] fix: read the next node before freeing a node of the
 exception stack

---
 include/modules/exec.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/modules/exec.h b/include/modules/exec.h
index 88425a3..693a903 100644
--- a/include/modules/exec.h
+++ b/include/modules/exec.h
@@ -428,8 +428,9 @@ namespace X_ROOT_NS::modules::exec {
                 __node_t * node = head;
                 while (node != nullptr)
                 {
+                    __node_t * next = node->next;
                     this->__free((void *)node);
-                    node = node->next;
+                    node = next;
                 }
 
                 while (!__node_queue.empty())
-- 
2.43.0


From 902cb421b1517cee147f221f1c50fa7e332508f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:25:38 +0000
Subject: [PATCH 61/82] fix: give this and base the value type of their type,
 which operators on their members need

---
 modules/core/core.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/modules/core/core.cpp b/modules/core/core.cpp
index 3704f5c..9dd59f5 100644
--- a/modules/core/core.cpp
+++ b/modules/core/core.cpp
@@ -8018,7 +8018,7 @@ namespace X_ROOT_NS::modules::core {
     // Returns vtype of this expression.
     vtype_t this_expression_t::get_vtype() const
     {
-        return vtype_t::__unknown__;
+        return __type == nullptr? vtype_t::__unknown__ : __type->this_vtype();
     }
 
     // Returns type of this expression.
@@ -8045,7 +8045,7 @@ namespace X_ROOT_NS::modules::core {
     // Returns vtype of the base expression.
     vtype_t base_expression_t::get_vtype() const
     {
-        return vtype_t::__unknown__;
+        return __type == nullptr? vtype_t::__unknown__ : __type->this_vtype();
     }
 
     // Returns type of the base expression.
-- 
2.43.0


From afac87b8ff17e878961aca05012656afb781e5eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:35:59 +0000
Subject: [PATCH 62/82] fix: read a sign after a closing bracket, a comment, ++
 or a contextual keyword as an operator

---
 include/modules/lang_cs.h           |  3 ++
 modules/compile/__token_reader.h    |  3 ++
 modules/compile/token_reader.cpp    | 13 +++++++
 modules/lang_cs/cs_token_reader.cpp | 59 +++++++++++++++++++++++++----
 4 files changed, 71 insertions(+), 7 deletions(-)

diff --git a/include/modules/lang_cs.h b/include/modules/lang_cs.h
index f91d54e..3968de6 100644
--- a/include/modules/lang_cs.h
+++ b/include/modules/lang_cs.h
@@ -91,6 +91,9 @@ namespace X_ROOT_NS::modules::lang_cs {
 
     private:
         token_t * __next_token = nullptr;
+
+        // Returns whether the last token ends an operand.
+        bool __is_after_operand();
     };
 
     typedef ttoken_reader_t<cs_token_enumerator_t> cs_token_reader_t;
diff --git a/modules/compile/__token_reader.h b/modules/compile/__token_reader.h
index a5edc41..fdeaea3 100644
--- a/modules/compile/__token_reader.h
+++ b/modules/compile/__token_reader.h
@@ -67,6 +67,9 @@ namespace X_ROOT_NS::modules::compile {
         const core::token_t * __last();
         token_value_t __last_value();
 
+        // Returns the last but index token, ignores the tokens of the specified value.
+        const core::token_t * __last(size_t index, token_value_t ignored);
+
         // Returns whether equals the keyword.
         template<size_t n>
         X_INLINE static bool __equals_keyword(const char_t * p, const char_t (&keyword)[n])
diff --git a/modules/compile/token_reader.cpp b/modules/compile/token_reader.cpp
index 4d7c2df..6035bc5 100644
--- a/modules/compile/token_reader.cpp
+++ b/modules/compile/token_reader.cpp
@@ -33,6 +33,19 @@ namespace X_ROOT_NS::modules::compile {
         return w? w->value : unknown_token_value;
     }
 
+    // Returns the last but index token, ignores the tokens of the specified value.
+    const token_t * token_enumerator_base_t::__last(size_t index, token_value_t ignored)
+    {
+        for (size_t k = __tokens.size(); k > 0; k--)
+        {
+            const token_t * w = &__tokens[k - 1];
+            if (w->value != ignored && index-- == 0)
+                return w;
+        }
+
+        return nullptr;
+    }
+
     // Skips whitespaces.
     bool token_enumerator_base_t::__skip_whitespace()
     {
diff --git a/modules/lang_cs/cs_token_reader.cpp b/modules/lang_cs/cs_token_reader.cpp
index 64134e6..d648283 100644
--- a/modules/lang_cs/cs_token_reader.cpp
+++ b/modules/lang_cs/cs_token_reader.cpp
@@ -50,6 +50,56 @@ namespace X_ROOT_NS::modules::lang_cs {
         } while (false)
 
 
+    // Returns whether it's the keyword of a primitive type.
+    static bool __is_primitive_type(w_t value)
+    {
+        switch (value)
+        {
+            case w_t::k_bool:   case w_t::k_char:    case w_t::k_decimal:
+            case w_t::k_sbyte:  case w_t::k_byte:    case w_t::k_short:  case w_t::k_ushort:
+            case w_t::k_int:    case w_t::k_uint:    case w_t::k_long:   case w_t::k_ulong:
+            case w_t::k_float:  case w_t::k_double:  case w_t::k_object: case w_t::k_string:
+                return true;
+
+            default:
+                return false;
+        }
+    }
+
+    // Returns whether the last token ends an operand, a sign after it is an operator.
+    bool cs_token_enumerator_t::__is_after_operand()
+    {
+        auto last = [this](size_t index) { return __last(index, __Wt(comment)); };
+
+        const token_t * w = last(0);
+        if (w == nullptr)
+            return false;
+
+        switch ((w_t)w->value)
+        {
+            case w_t::name:
+            case w_t::cvalue:
+            case w_t::right_square:
+            case w_t::left_increment:   case w_t::left_decrement:
+            case w_t::right_increment:  case w_t::right_decrement:
+                return true;
+
+            case w_t::right_bracket: {      // except a cast, such as (int)-1
+                const token_t * type = last(1), * left = last(2);
+                return !(left != nullptr && (w_t)left->value == w_t::left_bracket
+                    && __is_primitive_type((w_t)type->value));
+            }
+
+            case w_t::__unknown__: {        // contextual keywords, ++, --
+                const char_t * s = w->code_unit.s;
+                return al::is_word(s[0]) || (s[0] == s[1] && (s[0] == _T('+') || s[0] == _T('-')));
+            }
+
+            default:
+                return false;
+        }
+    }
+
     // Returns the next token.
     token_t * cs_token_enumerator_t::next()
     {
@@ -64,7 +114,6 @@ namespace X_ROOT_NS::modules::lang_cs {
         char_t c;
         token_data_t * d;
         const __cptr_t p0 = __p;
-        cs_token_value_t value;
 
         switch ((c = *__p++))
         {
@@ -338,9 +387,7 @@ namespace X_ROOT_NS::modules::lang_cs {
                         return __Nw(add_assign);
 
                     default:
-                        if (is_numeric_prefix(*__p)
-                            && (value = (w_t)__last_value()) != w_t::name && value != w_t::cvalue
-                            && value != w_t::right_square)
+                        if (is_numeric_prefix(*__p) && !__is_after_operand())
                         {
                             __p--;
                             return __Nw_(cvalue, __read_number());
@@ -362,9 +409,7 @@ namespace X_ROOT_NS::modules::lang_cs {
                         return __Nw(sub_assign);
 
                     default:
-                        if (is_numeric_prefix(*__p)
-                            && (value = (w_t)__last_value()) != w_t::name && value != w_t::cvalue
-                            && value != w_t::right_square)
+                        if (is_numeric_prefix(*__p) && !__is_after_operand())
                         {
                             __p--;
                             return __Nw_(cvalue, __read_number());
-- 
2.43.0


From fd7266d86f621a57697330bf6589ea2e090af327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:46:09 +0000
Subject: [PATCH 63/82] fix: let the escape \f denote a form feed

---
 modules/compile/token_reader.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/compile/token_reader.cpp b/modules/compile/token_reader.cpp
index 6035bc5..ba9c95b 100644
--- a/modules/compile/token_reader.cpp
+++ b/modules/compile/token_reader.cpp
@@ -267,7 +267,7 @@ namespace X_ROOT_NS::modules::compile {
                 break;
 
             case _T('f'):
-                *out_c = _T('f');
+                *out_c = _T('\f');
                 break;
 
             default:
-- 
2.43.0


From 34bacf115506419b23a8558bd6f63c330cdf2be6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:56:48 +0000
Subject: [PATCH 64/82] fix: give an assignment of a struct its value where it
 is used

---
 modules/compile/expression.cpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/modules/compile/expression.cpp b/modules/compile/expression.cpp
index 988df3c..4c4b404 100644
--- a/modules/compile/expression.cpp
+++ b/modules/compile/expression.cpp
@@ -1210,6 +1210,10 @@ namespace X_ROOT_NS::modules::compile {
     }
 
     // Compile assign argument.
+    static bool __need_object_copy(expression_t * exp);
+    static void __append_object_copy_xil(__cctx_t & ctx, xil_pool_t & pool, type_t * type,
+                                                            xil_copy_kind_t copy_kind);
+
     struct __compile_assign_t
     {
         expression_t * this_;
@@ -1389,8 +1393,17 @@ namespace X_ROOT_NS::modules::compile {
                                                                             type2, type1);
                     }
 
+                    // The value of an assignment which is used is the variable assigned to.
+                    bool pick = assign_type == __assign_to_type_t::default_
+                                && is_effective(ctx, ca.exp->parent->parent);
+
                     __push_variable_address(ctx, pool, ca.var, ca.this_);
+                    if (pick)
+                        pool.append<x_push_duplicate_xil_t>();
+
                     exp2->compile(ctx, pool, type1);
+                    if (pick && __need_object_copy(ca.exp->parent))
+                        __append_object_copy_xil(ctx, pool, type1, xil_copy_kind_t::reverse);
                 }
             }
             else
-- 
2.43.0


From 12a11dfbede28c865d3cffcdeb15c486083ba377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:00:45 +0000
Subject: [PATCH 65/82] fix: give an assignment to a ref or out parameter its
 value where it is used

---
 modules/compile/xilx.cpp | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/modules/compile/xilx.cpp b/modules/compile/xilx.cpp
index 7beaf4e..76aee9c 100644
--- a/modules/compile/xilx.cpp
+++ b/modules/compile/xilx.cpp
@@ -183,17 +183,17 @@ namespace X_ROOT_NS::modules::compile {
         if (call_type_of_method(sctx.method, true) != xil_call_type_t::static_)
             index++;
 
-        #define __Append(name, xil_type)                                                \
-            if (__is_addr(param_var))                                                   \
-                pool.append<x_##name##_argument_addr_xil_t>(xil_type_t::xil_type, index); \
-            else                                                                        \
-                pool.append<x_##name##_argument_xil_t>(xil_type_t::xil_type, index);
-
         #define __Write(xil_type)                                                       \
-            if (pick)                                                                   \
-                __Append(pick, xil_type)                                                \
+            if (__is_addr(param_var))                                                   \
+            {                                                                           \
+                pool.append<x_pop_argument_addr_xil_t>(xil_type_t::xil_type, index);    \
+                if (pick)                                                               \
+                    pool.append<x_push_argument_content_xil_t>(xil_type_t::xil_type, index); \
+            }                                                                           \
+            else if (pick)                                                              \
+                pool.append<x_pick_argument_xil_t>(xil_type_t::xil_type, index);        \
             else                                                                        \
-                __Append(pop, xil_type)
+                pool.append<x_pop_argument_xil_t>(xil_type_t::xil_type, index);
 
         #define __Case(type, xil_type)                                                  \
             case vtype_t::type:                                                         \
@@ -251,7 +251,6 @@ namespace X_ROOT_NS::modules::compile {
 
         #undef __Case
         #undef __Write
-        #undef __Append
     }
 
     // Writes assign xil for field variable.
-- 
2.43.0


From 98246bfd2ef8e86774f7f3d5bace4dd780d4d1f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:33:36 +0000
Subject: [PATCH 66/82] fix: combine two words of access into one access value,
 however they are parsed

---
 modules/compile/analyze_tree.cpp |  2 +-
 modules/compile/ast.cpp          | 15 ++++++++++++++-
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/modules/compile/analyze_tree.cpp b/modules/compile/analyze_tree.cpp
index 1d504de..0221f87 100644
--- a/modules/compile/analyze_tree.cpp
+++ b/modules/compile/analyze_tree.cpp
@@ -3470,7 +3470,7 @@ namespace X_ROOT_NS::modules::compile {
         // action back track
         int back_track1 = __leaf_action_back_track(leaf1);
         int back_track2 = __leaf_action_back_track(leaf2);
-        _PF(_T("back track: %1%, %2%"), back_track1, back_track2);
+        // _PF(_T("back track: %1%, %2%"), back_track1, back_track2);
         __LessReturn(back_track1, back_track2);
 
         // action index
diff --git a/modules/compile/ast.cpp b/modules/compile/ast.cpp
index 00d953a..d140847 100644
--- a/modules/compile/ast.cpp
+++ b/modules/compile/ast.cpp
@@ -2009,7 +2009,20 @@ namespace X_ROOT_NS::modules::compile {
     // Sets access.
     void decorate_ast_node_t::set_access(access_value_t value, __el_t * el)
     {
-        this->__assign(__BitField(this, access), value, el, _T("access"), true);
+        typedef access_value_t t;
+        access_value_t access = this->get_access();
+
+        auto is_pair = [=](t a, t b) {
+            return (access == a && value == b) || (access == b && value == a);
+        };
+
+        // Two words which form one access value, may be applied one by one.
+        if (is_pair(t::protected_, t::internal))
+            this->access = t::protected_or_internal;
+        else if (is_pair(t::private_, t::protected_))
+            this->access = t::protected_and_internal;
+        else
+            this->__assign(__BitField(this, access), value, el, _T("access"), true);
     }
 
     // Get access.
-- 
2.43.0


From aaddfddde8a1e57490ac44179cb74ab8414ee67c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:47:42 +0000
Subject: [PATCH 67/82] fix: leave no uninitialised bits in the pop and pick
 commands of an assembly

---
 modules/core/__xil.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/modules/core/__xil.h b/modules/core/__xil.h
index e50b6ae..329d15b 100644
--- a/modules/core/__xil.h
+++ b/modules/core/__xil.h
@@ -967,7 +967,7 @@ namespace X_ROOT_NS::modules::core {
         }
 
         byte_t  __dtype      : 4;
-        byte_t  identity     : 4;
+        byte_t  identity     : 4 = 0;
 
         byte_t  __extra[0];
 
@@ -1076,7 +1076,7 @@ namespace X_ROOT_NS::modules::core {
         }
 
         byte_t  __dtype      : 4;
-        byte_t  identity     : 4;
+        byte_t  identity     : 4 = 0;
 
         byte_t __extra[0];
 
-- 
2.43.0


From eb0ace61af8382a458708a642d71b98cb3e8bc6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:35 +0000
Subject: [PATCH 68/82] fix: treat enums as value types, so that they are
 converted when cast and boxed

---
 include/modules/core.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/modules/core.h b/include/modules/core.h
index f0c6710..bb0f79f 100644
--- a/include/modules/core.h
+++ b/include/modules/core.h
@@ -2127,7 +2127,7 @@ namespace X_ROOT_NS::modules::core {
     // Returns whether the ttype is value type.
     X_INLINE bool is_value_type(ttype_t ttype)
     {
-        return ttype == ttype_t::struct_;
+        return ttype == ttype_t::struct_ || ttype == ttype_t::enum_;
     }
 
     //-------- ---------- ---------- ---------- ----------
-- 
2.43.0


From 74f5f0de1604a4bdf8557d79337dd441b04203ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:13:10 +0000
Subject: [PATCH 69/82] fix: determine enum members that refer to members
 without a value of their own

---
 modules/core/core.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/modules/core/core.cpp b/modules/core/core.cpp
index 9dd59f5..8632b17 100644
--- a/modules/core/core.cpp
+++ b/modules/core/core.cpp
@@ -5498,7 +5498,13 @@ namespace X_ROOT_NS::modules::core {
             return cvalue_t::nan;
 
         if (field->init_value == nullptr)
+        {
+            // The value of an enum member is not determined yet.
+            if (field->host_type != nullptr && is_enum(field->host_type))
+                return cvalue_t::nan;
+
             return default_value_of(get_vtype());
+        }
 
         return field->init_value->execute();
     }
-- 
2.43.0


From fb3aff308edee3b1c18fa36f50960834e41bc141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:13:10 +0000
Subject: [PATCH 70/82] fix: check that local constants are constant when all
 names are resolved

---
 modules/compile/__ast.h |  3 +++
 modules/compile/ast.cpp | 22 +++++++++++++++++++++-
 2 files changed, 24 insertions(+), 1 deletion(-)

diff --git a/modules/compile/__ast.h b/modules/compile/__ast.h
index e088151..f97cfc9 100644
--- a/modules/compile/__ast.h
+++ b/modules/compile/__ast.h
@@ -3161,6 +3161,9 @@ namespace X_ROOT_NS::modules::compile {
 
         // Walks analysis step.
         bool __walk_analysis(ast_walk_context_t & context);
+
+        // Walks post analysis step.
+        bool __walk_post_analysis(ast_walk_context_t & context);
     };
 
     ////////// ////////// ////////// ////////// //////////
diff --git a/modules/compile/ast.cpp b/modules/compile/ast.cpp
index d140847..0d0d129 100644
--- a/modules/compile/ast.cpp
+++ b/modules/compile/ast.cpp
@@ -3954,7 +3954,16 @@ namespace X_ROOT_NS::modules::compile {
                 return false;
 
             case walk_step_t::analysis:
-                return __walk_analysis(context);
+                if (__walk_analysis(context))
+                {
+                    this->__delay(context, walk_step_t::post_analysis);
+                    return true;
+                }
+
+                return false;
+
+            case walk_step_t::post_analysis:
+                return __walk_post_analysis(context);
 
             default: return true;
         }
@@ -4030,6 +4039,17 @@ namespace X_ROOT_NS::modules::compile {
             }
         }
 
+        return true;
+
+        #undef __L
+    }
+
+    // Walks post analysis step, when all names are resolved.
+    bool defination_st_ast_node_t::__walk_post_analysis(ast_walk_context_t & context)
+    {
+        #define __L(_code, _args...)                                                    \
+            this->__log(this->child_at(__items__, index), __c_t::_code, ##_args)
+
         if (this->constant)
         {
             for (int index = 0, count = this->items.size(); index < count; ++index)
-- 
2.43.0


From 49fcecc33ca1ad64444fc84ce22257bf265b4ef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:33:14 +0000
Subject: [PATCH 71/82] fix: let constructors call the constructor of the base
 class

function_expression_t(method, arguments) did not keep the method, so that the call put at the start of a constructor compiled to nothing; and the type node did not recognise the default constructor it had delayed, as the tag was no object_t pointer, so that classes without a constructor of their own ran no base constructor and left their fields without their initial values.
---
 include/modules/core.h  | 1 +
 modules/compile/ast.cpp | 4 ++--
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/modules/core.h b/include/modules/core.h
index bb0f79f..8f711a3 100644
--- a/include/modules/core.h
+++ b/include/modules/core.h
@@ -7473,6 +7473,7 @@ namespace X_ROOT_NS::modules::core {
             : __super_t(arguments)
         {
             _A(method != nullptr);
+            this->set_method(method);
         }
 
         expression_t    * namex         = nullptr;      // Name
diff --git a/modules/compile/ast.cpp b/modules/compile/ast.cpp
index 0d0d129..d00d244 100644
--- a/modules/compile/ast.cpp
+++ b/modules/compile/ast.cpp
@@ -2734,7 +2734,7 @@ namespace X_ROOT_NS::modules::compile {
             if (it == std::end(this->methods))  // no constructor
             {
                 method_t * method = __append_default_constructor(context);
-                this->__delay(context, walk_step_t::analysis, method);
+                this->__delay(context, walk_step_t::analysis, (object_t *)method);
             }
             else
             {
@@ -2750,7 +2750,7 @@ namespace X_ROOT_NS::modules::compile {
             }
         }
 
-        this->__delay(context, walk_step_t::analysis, new_default_constructor);
+        this->__delay(context, walk_step_t::analysis, (object_t *)new_default_constructor);
 
         return true;
     }
-- 
2.43.0


From 6bf3f25f83ba34bdb3bd65e0e5c053e1323d4e45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:33:52 +0000
Subject: [PATCH 72/82] fix: do not take constructors of base classes for those
 of the class

new A() compiled when A has only constructors with parameters: the constructor of Object was run in their place.
---
 modules/compile/ast_utils.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/modules/compile/ast_utils.cpp b/modules/compile/ast_utils.cpp
index 0ad8ba6..90a4d25 100644
--- a/modules/compile/ast_utils.cpp
+++ b/modules/compile/ast_utils.cpp
@@ -1753,7 +1753,9 @@ namespace X_ROOT_NS::modules::compile {
         analyze_member_args_t args(member_type_t::method, name, atypes, generic_args);
         args.method_trait = trait;
 
-        return (method_t *)type->get_member(args, true);
+        // Constructors are not inherited.
+        bool include_base_types = (trait != method_trait_t::constructor);
+        return (method_t *)type->get_member(args, include_base_types);
     }
 
     // Finds method.
-- 
2.43.0


From 12ccb8ee3a40b7542aa380a3260314cfdd098c0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:08 +0000
Subject: [PATCH 73/82] fix: leave constants out of the initial values a
 constructor sets

Constants of a class are no fields of its objects, and need not have their values yet when its constructors are revised.
---
 modules/compile/ast.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/modules/compile/ast.cpp b/modules/compile/ast.cpp
index d00d244..d52d58f 100644
--- a/modules/compile/ast.cpp
+++ b/modules/compile/ast.cpp
@@ -2572,6 +2572,9 @@ namespace X_ROOT_NS::modules::compile {
             for (member_t * member : members_args.out_members)
             {
                 field_t * field = (field_t *)member;
+                if (field->is_static())     // Including constants.
+                    continue;
+
                 expression_t * init_exp = field->init_value;
                 type_t * field_type = to_type(field->type_name);
 
-- 
2.43.0


From de0a5cbeccc03307807334a4703d47bf2bdde399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:15:58 +0000
Subject: [PATCH 74/82] fix: write the whole position of the 16th and later
 reference parameters

The instructions that store through a reference parameter (pop and pick of an
address, push of the content) take two more bytes when the position does not
fit into four bits, but their sizes did not count these, so the position was
lost.
---
 modules/core/__xil.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/modules/core/__xil.h b/modules/core/__xil.h
index 329d15b..496f000 100644
--- a/modules/core/__xil.h
+++ b/modules/core/__xil.h
@@ -887,6 +887,8 @@ namespace X_ROOT_NS::modules::core {
             case xil_storage_type_t::local_addr:
             case xil_storage_type_t::argument:
             case xil_storage_type_t::argument_addr:
+            case xil_storage_type_t::local_content:
+            case xil_storage_type_t::argument_content:
                 if (xil.identity == 15)
                     size += sizeof(uint16_t);
                 break;
@@ -1026,7 +1028,9 @@ namespace X_ROOT_NS::modules::core {
                 break;
 
             case xil_storage_type_t::local:
+            case xil_storage_type_t::local_addr:
             case xil_storage_type_t::argument:
+            case xil_storage_type_t::argument_addr:
                 if (xil.identity == 15)
                     size += sizeof(uint16_t);
                 break;
@@ -1130,7 +1134,9 @@ namespace X_ROOT_NS::modules::core {
         switch (xil.stype())
         {
             case xil_storage_type_t::local:
+            case xil_storage_type_t::local_addr:
             case xil_storage_type_t::argument:
+            case xil_storage_type_t::argument_addr:
                 if (xil.identity == 15)
                     size += sizeof(uint16_t);
                 break;
-- 
2.43.0


From a42248456c3dd209816b24ec3c0dee67d2b65e93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:37:06 +0000
Subject: [PATCH 75/82] fix: give a project compiled by itself the name its
 file says

---
 modules/april/compiler.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/april/compiler.cpp b/modules/april/compiler.cpp
index 531003d..a182c61 100644
--- a/modules/april/compiler.cpp
+++ b/modules/april/compiler.cpp
@@ -380,7 +380,7 @@ namespace X_ROOT_NS::modules::april {
         april_xcompiler_t::__add_project(april_compiler_t & compiler,
                                           project_config_t * project_config)
     {
-        project_t * project = compiler.begin_project();
+        project_t * project = compiler.begin_project(project_config->name);
 
         for (file_config_t * file_config : project_config->files)
         {
-- 
2.43.0


From e446d1279051f9895f1502c5c2e01624f11c0b0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:37:06 +0000
Subject: [PATCH 76/82] fix: give the next project of a folder a default name
 of its own

---
 modules/april/compiler.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/april/compiler.cpp b/modules/april/compiler.cpp
index a182c61..4770e36 100644
--- a/modules/april/compiler.cpp
+++ b/modules/april/compiler.cpp
@@ -132,7 +132,7 @@ namespace X_ROOT_NS::modules::april {
         {
             string_t dir_name0 = _F(_T("%1%%2%"), dir_name, index);
             if (!__solution->exists(dir_name0))
-                return dir_name;
+                return dir_name0;
         }
     }
 
-- 
2.43.0


From 1fe683631f41cd768fb38ea80e9df65ff313e07c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:37:06 +0000
Subject: [PATCH 77/82] fix: add the sources that come after another kind of
 file in a file pattern

---
 modules/april/compiler.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/april/compiler.cpp b/modules/april/compiler.cpp
index 4770e36..eca38c8 100644
--- a/modules/april/compiler.cpp
+++ b/modules/april/compiler.cpp
@@ -53,7 +53,7 @@ namespace X_ROOT_NS::modules::april {
         {
             compile_file_type_t file_type = file_type_of(file_path);
             if (file_type != compile_file_type_t::source)
-                return;
+                continue;
 
             if (!__current_project->exists(lib::to_str(file_path)))
             {
-- 
2.43.0


From a7d42b5698498dd06633d10cc17bd49876c72744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:37:06 +0000
Subject: [PATCH 78/82] fix: apply a file pattern without a folder to the
 current folder

---
 lib/file.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/lib/file.cpp b/lib/file.cpp
index 9d915d9..f5c4957 100644
--- a/lib/file.cpp
+++ b/lib/file.cpp
@@ -391,11 +391,12 @@ namespace X_ROOT_NS::lib {
         size_t index = spath.find_last_of(_T("/"));
 
         auto npos = string_t::npos;
-        if (index == npos || spath.find_first_of(_T("?*"), index + 1) == npos)
+        size_t filter_index = index == npos? 0 : index + 1;
+        if (spath.find_first_of(_T("?*"), filter_index) == npos)
             return false;
 
-        out_dir = path_t(spath.substr(0, index));
-        out_filter = spath.substr(index + 1);        
+        out_dir = path_t(index == npos? string_t(_T(".")) : spath.substr(0, filter_index));
+        out_filter = spath.substr(filter_index);
 
         return true;
     }
-- 
2.43.0


From 61fcc1a9683f16de931760beb8f651b12967f2f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:37:06 +0000
Subject: [PATCH 79/82] fix: take the files of a folder given on the command
 line from that folder

---
 modules/april/util.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/modules/april/util.h b/modules/april/util.h
index 81ad93f..bfc7057 100644
--- a/modules/april/util.h
+++ b/modules/april/util.h
@@ -37,7 +37,7 @@ namespace X_ROOT_NS::modules::april {
 
     X_INLINE bool is_hidden_file(const __path_t & path)
     {
-        return path.string()[0] == '.';
+        return path.filename().string()[0] == '.';
     }
 
     template<typename f_t> void each_files(const __path_t & path, f_t f, bool absolute = false)
@@ -54,7 +54,7 @@ namespace X_ROOT_NS::modules::april {
         }
         else if (__bf::is_directory(path))
         {
-            for (__path_t file : lib::all_files(directory, _T("*.*")))
+            for (__path_t file : lib::all_files(path, _T("*.*")))
             {
                 if (!is_hidden_file(file))
                     f(__revise(file, absolute));
-- 
2.43.0


From 83bd09d7b083f55a44ec8615c7500958f7a9d069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:37:06 +0000
Subject: [PATCH 80/82] fix: read projects that are written in a solution file
 itself

---
 modules/april/parser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/april/parser.cpp b/modules/april/parser.cpp
index 2ef41cf..049405b 100644
--- a/modules/april/parser.cpp
+++ b/modules/april/parser.cpp
@@ -104,7 +104,7 @@ namespace X_ROOT_NS::modules::april {
         {
             __ptree_t & project_node = it.second;
 
-            string_t project_path = project_node.get<string_t>(_T("path"));
+            string_t project_path = project_node.get<string_t>(_T("path"), _T(""));
             project_config_t * project_config;
 
             if (project_path.empty())
-- 
2.43.0


From a43c33333ebbe420690f16472e7b09dd65024b39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:38:13 +0000
Subject: [PATCH 81/82] fix: read project and solution files with comments

---
 modules/april/parser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/april/parser.cpp b/modules/april/parser.cpp
index 049405b..54757bf 100644
--- a/modules/april/parser.cpp
+++ b/modules/april/parser.cpp
@@ -53,7 +53,7 @@ namespace X_ROOT_NS::modules::april {
     // Parses the config.
     void xml_parser_t::on_parse(__ptree_stream_t & stream, __ptree_t & ptree)
     {
-        read_xml(stream, ptree);
+        read_xml(stream, ptree, xml_parser::no_comments);
     }
 
     ////////// ////////// ////////// ////////// //////////
-- 
2.43.0


From 2f6978c0eb2c97445742f1289f611b3704fcd918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:42:55 +0000
Subject: [PATCH 82/82] fix: report project and solution files that are not
 well-formed

---
 modules/april/parser.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/modules/april/parser.cpp b/modules/april/parser.cpp
index 54757bf..f677501 100644
--- a/modules/april/parser.cpp
+++ b/modules/april/parser.cpp
@@ -53,7 +53,14 @@ namespace X_ROOT_NS::modules::april {
     // Parses the config.
     void xml_parser_t::on_parse(__ptree_stream_t & stream, __ptree_t & ptree)
     {
-        read_xml(stream, ptree, xml_parser::no_comments);
+        try
+        {
+            read_xml(stream, ptree, xml_parser::no_comments);
+        }
+        catch (const xml_parser_error & e)
+        {
+            throw _ED(__e_t::config_format_error, e.what());
+        }
     }
 
     ////////// ////////// ////////// ////////// //////////
-- 
2.43.0

