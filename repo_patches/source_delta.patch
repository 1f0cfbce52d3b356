From 04dc154fa3dbac6fc6d729895bd27aad5925586a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:19 +0000
Subject: [PATCH 01/25] fix: function_ref returned references by value

invoke_r deduced its result with auto, which decays reference results:
T& signatures did not compile, const T& signatures returned a dangling
reference to a copy.
---
 inc/ptl/function_ref.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inc/ptl/function_ref.hpp b/inc/ptl/function_ref.hpp
index bad1646..ef624c6 100644
--- a/inc/ptl/function_ref.hpp
+++ b/inc/ptl/function_ref.hpp
@@ -44,7 +44,7 @@ namespace ptl {
 
 		template<typename R, typename F, typename... Args, typename = std::enable_if_t<std::is_invocable_r_v<R, F, Args...>>> //TODO: [C++20] replace with concepts/requires-clause
 		constexpr
-		auto invoke_r(F && f, Args &&... args) noexcept(std::is_nothrow_invocable_r_v<R, F, Args...>) { //TODO: [C++23] replace with std::invoke_r
+		auto invoke_r(F && f, Args &&... args) noexcept(std::is_nothrow_invocable_r_v<R, F, Args...>) -> R { //TODO: [C++23] replace with std::invoke_r
 			if constexpr(std::is_void_v<R>) std::invoke(std::forward<F>(f), std::forward<Args>(args)...);
 			else return std::invoke(std::forward<F>(f), std::forward<Args>(args)...);
 		}
-- 
2.43.0


From de7e71555c7638b69c2fd988a16116e532f7cd65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:19 +0000
Subject: [PATCH 02/25] fix: function_ref with const signature called the
 non-const overload

---
 inc/ptl/function_ref.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inc/ptl/function_ref.hpp b/inc/ptl/function_ref.hpp
index ef624c6..2bc6681 100644
--- a/inc/ptl/function_ref.hpp
+++ b/inc/ptl/function_ref.hpp
@@ -112,7 +112,7 @@ namespace ptl {
 
 		template<typename F, typename T = std::remove_reference_t<F>, typename = std::enable_if_t<!std::is_same_v<function_ref, internal_function_ref::remove_cvref_t<F>> && !std::is_member_pointer_v<T> && traits::template is_invocable_using<typename traits::template const_<T> &>>>//TODO: [C++20] replace with concepts/requires-clause
 		constexpr
-		function_ref(F && func) noexcept : storage{std::addressof(func)}, dispatch{traits::template functor<T>} {}
+		function_ref(F && func) noexcept : storage{static_cast<typename traits::template const_<T> *>(std::addressof(func))}, dispatch{traits::template functor<typename traits::template const_<T>>} {}
 
 		constexpr
 		function_ref(const function_ref &) noexcept =default;
-- 
2.43.0


From cf60c6b97dc15eb5a687168225801954c9b736a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:20 +0000
Subject: [PATCH 03/25] fix: bitset::reference::swap ignored equal indices of
 different bitsets

---
 inc/ptl/bitset.hpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/inc/ptl/bitset.hpp b/inc/ptl/bitset.hpp
index 62c9a0e..1d94559 100644
--- a/inc/ptl/bitset.hpp
+++ b/inc/ptl/bitset.hpp
@@ -107,7 +107,6 @@ namespace ptl {
 
 			constexpr
 			void swap(reference & other) noexcept {
-				if(index == other.index) return;
 				const auto lhs{static_cast<bool>(*this)};
 				const auto rhs{static_cast<bool>(other)};
 				if(lhs == rhs) return;
-- 
2.43.0


From dc5775b9fd5f8c5578b38bb1f8d010d08f572e86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:20 +0000
Subject: [PATCH 04/25] fix: extracting a bitset failed if the digits ended at
 the end of the stream

get() at the end sets failbit; peek() leaves the stream usable and does not
consume a character that is not part of the bitset.
---
 inc/ptl/bitset.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/inc/ptl/bitset.hpp b/inc/ptl/bitset.hpp
index 1d94559..f3a3537 100644
--- a/inc/ptl/bitset.hpp
+++ b/inc/ptl/bitset.hpp
@@ -339,7 +339,8 @@ namespace ptl {
 			if(const std::istream::sentry s{is}; s) {
 				auto extracted{false};
 				for(size_type i{0}; i < Size; ++i) {
-					if(const auto c{is.get()}; c == '0' || c == '1') {
+					if(const auto c{is.peek()}; c == '0' || c == '1') {
+						is.ignore();
 						if(!extracted) {
 							extracted = true;
 							self.reset();
@@ -347,7 +348,6 @@ namespace ptl {
 						self <<= 1;
 						if(c == '1') self.set(0);
 					} else {
-						is.unget();
 						if(!extracted) is.setstate(std::ios::failbit);
 						break;
 					}
-- 
2.43.0


From c9e40a658ad045dffdc661a225f7c08e573d1110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:20 +0000
Subject: [PATCH 05/25] fix: shifting a bitset by a huge count did not
 terminate

---
 inc/ptl/bitset.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/inc/ptl/bitset.hpp b/inc/ptl/bitset.hpp
index f3a3537..6cd5cf9 100644
--- a/inc/ptl/bitset.hpp
+++ b/inc/ptl/bitset.hpp
@@ -234,6 +234,7 @@ namespace ptl {
 		constexpr
 		auto operator<<=(size_type count) noexcept -> bitset & {
 			if constexpr(Size != 0) {
+				count = std::min(count, Size);
 				for(size_type i{0}; i < count; ++i) {
 					for(size_type j{sizeof(values) - 1}; j > 0; --j) {
 						values[j] = static_cast<unsigned char>(values[j] << 1);
@@ -255,6 +256,7 @@ namespace ptl {
 		constexpr
 		auto operator>>=(size_type count) noexcept -> bitset & {
 			if constexpr(Size != 0) {
+				count = std::min(count, Size);
 				for(size_type i{0}; i < count; ++i) {
 					values[0] = static_cast<unsigned char>(values[0] >> 1);
 					for(size_type j{1}; j < sizeof(values); ++j) {
-- 
2.43.0


From 6cb7932376231d7897efc7650201c68be7c39017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:20 +0000
Subject: [PATCH 06/25] fix: string literals were truncated at an embedded NUL

Also drop noexcept from _s: constructing a string may throw.
---
 inc/ptl/string.hpp     | 2 +-
 inc/ptl/string_ref.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/inc/ptl/string.hpp b/inc/ptl/string.hpp
index 317ff17..08cb9cd 100644
--- a/inc/ptl/string.hpp
+++ b/inc/ptl/string.hpp
@@ -620,7 +620,7 @@ namespace ptl {
 
 	namespace literals {
 		inline
-		auto operator""_s(const char * ptr, std::size_t) noexcept -> string { return string{ptr}; }
+		auto operator""_s(const char * ptr, std::size_t size) -> string { return string{std::string_view{ptr, size}}; }
 	}
 }
 
diff --git a/inc/ptl/string_ref.hpp b/inc/ptl/string_ref.hpp
index 1fad606..ab92bb5 100644
--- a/inc/ptl/string_ref.hpp
+++ b/inc/ptl/string_ref.hpp
@@ -225,7 +225,7 @@ namespace ptl {
 	namespace literals {
 		inline
 		constexpr
-		auto operator""_sr(const char * ptr, std::size_t) noexcept -> string_ref { return ptr; }
+		auto operator""_sr(const char * ptr, std::size_t size) noexcept -> string_ref { return {ptr, size}; }
 	}
 }
 
-- 
2.43.0


From 4ff1c05d097a020ae5d1181525254f1299f279aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:20 +0000
Subject: [PATCH 07/25] fix: string sizes beyond max_size wrapped around

string(count, ch), append, insert and replace with a huge count wrote out of
bounds; they now throw std::length_error as reserve and resize do.
---
 inc/ptl/string.hpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/inc/ptl/string.hpp b/inc/ptl/string.hpp
index 08cb9cd..03b1361 100644
--- a/inc/ptl/string.hpp
+++ b/inc/ptl/string.hpp
@@ -53,6 +53,7 @@ namespace ptl {
 			storage_t() noexcept { clear_to_sso(); }
 
 			storage_t(std::size_t required) {
+				if(required > max_size()) throw std::length_error{"ptl::string - allocation attempting to exceed max_size"};
 				if(required > sso_size) {
 					dealloc = +[](char * ptr) noexcept { delete[] ptr; }; 
 					heap.siz = 0;
@@ -244,10 +245,15 @@ namespace ptl {
 			return tmp;
 		}
 
+		auto grown_size(std::size_t additional_size) const -> std::size_t {
+			if(additional_size > max_size() - size()) throw std::length_error{"ptl::string - exceeding max_size"};
+			return size() + additional_size;
+		}
+
 		template<typename Func>
 		void append_no_aliasing(std::size_t additional_size, Func fill) {
 			const auto old{size()};
-			resize(old + additional_size);
+			resize(grown_size(additional_size));
 			fill(old);
 		}
 
@@ -261,7 +267,7 @@ namespace ptl {
 		auto insert_no_aliasing(contiguous_iterator<true> pos, std::size_t additional_size, Func fill) {
 			const auto old{size()};
 			const auto offset{pos.ptr - data()};
-			resize(old + additional_size);
+			resize(grown_size(additional_size));
 			std::copy_backward(data() + offset, data() + old, data() + size());
 			fill();
 			return begin() + offset;
@@ -272,7 +278,7 @@ namespace ptl {
 			const auto offset{first.ptr - data()};
 			if(const auto count{static_cast<std::size_t>(last - first)}; count < required_size) { //not enough space in target location
 				const auto old{size()};
-				resize(size() + (required_size - count));
+				resize(grown_size(required_size - count));
 				std::copy_backward(data() + offset + count, data() + old, data() + size());
 				fill(offset);
 			} else { //directly overwrite and shrink afterwards
-- 
2.43.0


From 6b2403fe612b687f3f5a2afe13b9d825781d75ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:20 +0000
Subject: [PATCH 08/25] fix: vector sizes beyond max_size wrapped around in
 assign and insert

---
 inc/ptl/vector.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/inc/ptl/vector.hpp b/inc/ptl/vector.hpp
index 022cba1..ed8ddbe 100644
--- a/inc/ptl/vector.hpp
+++ b/inc/ptl/vector.hpp
@@ -188,6 +188,7 @@ namespace ptl {
 
 		template<typename Func>
 		void assign_impl(std::size_t required_size, Func func) {
+			if(required_size > max_size()) throw std::length_error{"ptl::vector - exceeding max_size"};
 			if(size() + required_size <= capacity()) { //no need for allocation nor double buffering
 				func(data() + size());
 				std::rotate(data(), data() + size(), data() + size() + required_size);
@@ -203,6 +204,7 @@ namespace ptl {
 
 		template<typename Func>
 		auto insert_impl(contiguous_iterator<true> pos, std::size_t required_size, Func func) {
+			if(required_size > max_size() - size()) throw std::length_error{"ptl::vector - exceeding max_size"};
 			const auto offset{pos.ptr - data()};
 			if(size() + required_size <= capacity()) { //no need for allocation nor double buffering
 				func(data() + size());
-- 
2.43.0


From 951fae32291f0f9192b661f3bd15b63ae9a4ffb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:20 +0000
Subject: [PATCH 09/25] fix: vector::erase of an empty range self-moved all
 following elements

---
 inc/ptl/vector.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/inc/ptl/vector.hpp b/inc/ptl/vector.hpp
index ed8ddbe..fcfd738 100644
--- a/inc/ptl/vector.hpp
+++ b/inc/ptl/vector.hpp
@@ -342,6 +342,7 @@ namespace ptl {
 		auto erase(const_iterator pos) noexcept -> iterator { return erase(pos, pos + 1); } //TODO: [C++??] precondition(pos != end());
 		auto erase(const_iterator first, const_iterator last) noexcept -> iterator { //TODO: [C++??] precondition(begin() <= first && first <= last && last <= end());
 			const auto count{static_cast<size_type>(std::distance(first, last))};
+			if(count == 0) return first; //prevent self-move of elements
 			std::move(const_cast<Type *>(last.ptr), data() + size(), const_cast<Type *>(first.ptr));
 			std::destroy(data() + size() - count, data() + size());
 			storage.set_size(size() - count);
-- 
2.43.0


From 4492be7f6262d928b6cbd215c4ad509c86d359b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:20 +0000
Subject: [PATCH 10/25] fix: growing vector::resize always reallocated and
 could lower the capacity

---
 inc/ptl/vector.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/inc/ptl/vector.hpp b/inc/ptl/vector.hpp
index fcfd738..1c0dd16 100644
--- a/inc/ptl/vector.hpp
+++ b/inc/ptl/vector.hpp
@@ -225,7 +225,10 @@ namespace ptl {
 		void resize_impl(std::size_t new_size, Func func) {
 			if(new_size == size()) return;
 			if(new_size < size()) erase(begin() + new_size, end());
-			else {
+			else if(new_size <= capacity()) { //no need for allocation
+				func(data() + size(), new_size - size());
+				storage.set_size(new_size);
+			} else {
 				storage_t tmp{new_size};
 				func(tmp.data() + size(), new_size - size());
 				std::uninitialized_move_n(data(), size(), tmp.data());
-- 
2.43.0


From 91fd16e0a9180d2f087556e833d8eed5e2a3fc53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:20 +0000
Subject: [PATCH 11/25] fix: vector::shrink_to_fit terminated when memory was
 exhausted

---
 inc/ptl/vector.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/inc/ptl/vector.hpp b/inc/ptl/vector.hpp
index 1c0dd16..d86f098 100644
--- a/inc/ptl/vector.hpp
+++ b/inc/ptl/vector.hpp
@@ -324,10 +324,12 @@ namespace ptl {
 		void shrink_to_fit() noexcept {
 			if(size() * 2 >= capacity()) return; //TODO: better criteria for "excess memory usage"
 
-			storage_t tmp{size()};
-			std::uninitialized_move_n(data(), size(), tmp.data());
-			tmp.set_size(size());
-			storage = std::move(tmp);
+			try {
+				storage_t tmp{size()};
+				std::uninitialized_move_n(data(), size(), tmp.data());
+				tmp.set_size(size());
+				storage = std::move(tmp);
+			} catch(const std::bad_alloc &) {} //non-binding request: keep current storage
 		}
 
 		void clear() noexcept {
-- 
2.43.0


From bcfb83f9e70ab5afdccfd03bac409011fd4886f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:20 +0000
Subject: [PATCH 12/25] fix: variant::emplace required every alternative to
 accept the arguments

The dispatch table instantiated the construction of all alternatives although
the index is known at compile time.
---
 inc/ptl/variant.hpp | 10 +---------
 1 file changed, 1 insertion(+), 9 deletions(-)

diff --git a/inc/ptl/variant.hpp b/inc/ptl/variant.hpp
index 4ca70a5..5cd8d25 100644
--- a/inc/ptl/variant.hpp
+++ b/inc/ptl/variant.hpp
@@ -120,14 +120,6 @@ namespace ptl {
 			return visit<Move>(indices, type, storage, combined_visitor{std::forward<Visitors>(visitors)...});
 		}
 
-		template<std::size_t... Indices, typename Storage, typename... Args>
-		constexpr
-		void emplace(std::index_sequence<Indices...>, std::size_t type, Storage & storage, Args &&... args) {  //TODO: [C++??] precondition(union in storage is uninitialized);
-			using Dispatch = void(*)(Storage &, Args &&...);
-			constexpr Dispatch dispatch[]{+[](Storage & storage, Args &&... args) { storage.template set<Indices>(std::forward<Args>(args)...); }...};
-			dispatch[type](storage, std::forward<Args>(args)...);
-		}
-
 		template<bool Move, typename Storage, std::size_t... Indices>
 		constexpr
 		void assign(std::index_sequence<Indices...>, std::size_t type, Storage & lhs, std::conditional_t<Move, Storage, const Storage> & rhs) noexcept(Move) { //TODO: [C++??] precondition(lhs is uninitialized);
@@ -254,7 +246,7 @@ namespace ptl {
 			if constexpr(std::is_nothrow_constructible_v<T, Args...>) {
 				internal_variant::destroy(indices_t{}, type, storage);
 				constexpr auto index{internal_variant::determine_index<std::decay_t<T>, Head, Tail...>()};
-				internal_variant::emplace(indices_t{}, index, storage, std::forward<Args>(args)...);
+				storage.template set<index>(std::forward<Args>(args)...);
 				type = index;
 			} else {
 				variant tmp{std::in_place_type<T>, std::forward<Args>(args)...};
-- 
2.43.0


From defb0017b8117d0d6327474c8df09cb7fe4bf052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:20 +0000
Subject: [PATCH 13/25] fix: array_ref<Base> bound to ranges of Derived

The elements were then addressed with the wrong stride.
---
 inc/ptl/array_ref.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/inc/ptl/array_ref.hpp b/inc/ptl/array_ref.hpp
index 9069c86..a5f6708 100644
--- a/inc/ptl/array_ref.hpp
+++ b/inc/ptl/array_ref.hpp
@@ -31,7 +31,7 @@ namespace ptl {
 
 			static
 			constexpr
-			auto rebind(Type * ) noexcept -> valid;
+			auto rebind(Type (*)[]) noexcept -> valid; //only allow qualification conversions
 			static
 			constexpr
 			auto rebind(...) noexcept -> invalid;
@@ -45,7 +45,7 @@ namespace ptl {
 				if constexpr(std::is_same_v<Pointer, invalid>) return false;
 				else {
 					static_assert(std::is_pointer_v<Pointer>);
-					using Rebind = decltype(rebind(Pointer{}));
+					using Rebind = decltype(rebind(static_cast<std::remove_pointer_t<Pointer> (*)[]>(nullptr)));
 					return std::is_same_v<Rebind, valid>;
 				}
 			}
-- 
2.43.0


From 09e133aefe0c62157919397fa326e885e073c405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:20 +0000
Subject: [PATCH 14/25] fix: vector storage of over-aligned types was
 misaligned

---
 inc/ptl/vector.hpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/inc/ptl/vector.hpp b/inc/ptl/vector.hpp
index d86f098..432c81e 100644
--- a/inc/ptl/vector.hpp
+++ b/inc/ptl/vector.hpp
@@ -44,9 +44,14 @@ namespace ptl {
 				if(capacity == 0) return;
 				if(capacity > max_size()) throw std::length_error{"ptl::vector - allocation attempting to exceed max_size"};
 				capacity = std::max(min_capacity, capacity);
-				dealloc = +[](Type * ptr) noexcept { std::free(ptr); };
-				ptr = static_cast<Type *>(std::calloc(capacity, sizeof(Type)));
-				if(!ptr) throw std::bad_alloc{};
+				if constexpr(alignof(Type) > alignof(std::max_align_t)) { //calloc does not support over-aligned types
+					ptr = static_cast<Type *>(::operator new(capacity * sizeof(Type), std::align_val_t{alignof(Type)}));
+					dealloc = +[](Type * ptr) noexcept { ::operator delete(static_cast<void *>(ptr), std::align_val_t{alignof(Type)}); };
+				} else {
+					dealloc = +[](Type * ptr) noexcept { std::free(ptr); };
+					ptr = static_cast<Type *>(std::calloc(capacity, sizeof(Type)));
+					if(!ptr) throw std::bad_alloc{};
+				}
 				cap = capacity;
 				siz = 0;
 			}
-- 
2.43.0


From 0173db8c6b91f7edf392fce481c573ca9eb83263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:20 +0000
Subject: [PATCH 15/25] fix: headers relied on transitively included standard
 headers

---
 inc/ptl/bitset.hpp       | 1 +
 inc/ptl/function_ref.hpp | 2 ++
 inc/ptl/optional.hpp     | 2 ++
 inc/ptl/optional_ref.hpp | 1 +
 inc/ptl/tuple.hpp        | 2 ++
 inc/ptl/variant.hpp      | 3 +++
 inc/ptl/variant_ref.hpp  | 3 +++
 inc/ptl/vector.hpp       | 4 ++++
 8 files changed, 18 insertions(+)

diff --git a/inc/ptl/bitset.hpp b/inc/ptl/bitset.hpp
index 6cd5cf9..daa2a1c 100644
--- a/inc/ptl/bitset.hpp
+++ b/inc/ptl/bitset.hpp
@@ -9,6 +9,7 @@
 #include <istream>
 #include <ostream>
 #include <numeric>
+#include <stdexcept>
 #include <algorithm>
 #include <type_traits>
 
diff --git a/inc/ptl/function_ref.hpp b/inc/ptl/function_ref.hpp
index 2bc6681..0f29018 100644
--- a/inc/ptl/function_ref.hpp
+++ b/inc/ptl/function_ref.hpp
@@ -5,7 +5,9 @@
 //          http://www.boost.org/LICENSE_1_0.txt)
 
 #pragma once
+#include <memory>
 #include <utility>
+#include <functional>
 #include <type_traits>
 
 namespace ptl {
diff --git a/inc/ptl/optional.hpp b/inc/ptl/optional.hpp
index c64c57a..781cb9f 100644
--- a/inc/ptl/optional.hpp
+++ b/inc/ptl/optional.hpp
@@ -5,6 +5,8 @@
 //          http://www.boost.org/LICENSE_1_0.txt)
 
 #pragma once
+#include <new>
+#include <memory>
 #include <utility>
 #include <optional>
 #include <type_traits>
diff --git a/inc/ptl/optional_ref.hpp b/inc/ptl/optional_ref.hpp
index 279cdc9..e623db8 100644
--- a/inc/ptl/optional_ref.hpp
+++ b/inc/ptl/optional_ref.hpp
@@ -5,6 +5,7 @@
 //          http://www.boost.org/LICENSE_1_0.txt)
 
 #pragma once
+#include <memory>
 #include <utility>
 #include <optional>
 #include <type_traits>
diff --git a/inc/ptl/tuple.hpp b/inc/ptl/tuple.hpp
index a2e4081..eb02e63 100644
--- a/inc/ptl/tuple.hpp
+++ b/inc/ptl/tuple.hpp
@@ -5,6 +5,8 @@
 //          http://www.boost.org/LICENSE_1_0.txt)
 
 #pragma once
+#include <cstddef>
+#include <utility>
 #include <type_traits>
 
 namespace ptl {
diff --git a/inc/ptl/variant.hpp b/inc/ptl/variant.hpp
index 5cd8d25..281d45e 100644
--- a/inc/ptl/variant.hpp
+++ b/inc/ptl/variant.hpp
@@ -5,9 +5,12 @@
 //          http://www.boost.org/LICENSE_1_0.txt)
 
 #pragma once
+#include <new>
 #include <limits>
+#include <memory>
 #include <utility>
 #include <variant>
+#include <functional>
 #include <type_traits>
 
 namespace ptl {
diff --git a/inc/ptl/variant_ref.hpp b/inc/ptl/variant_ref.hpp
index dec8cae..7a5a2c4 100644
--- a/inc/ptl/variant_ref.hpp
+++ b/inc/ptl/variant_ref.hpp
@@ -6,8 +6,11 @@
 
 #pragma once
 #include <limits>
+#include <memory>
 #include <utility>
 #include <variant>
+#include <cstddef>
+#include <exception>
 #include <type_traits>
 
 namespace ptl {
diff --git a/inc/ptl/vector.hpp b/inc/ptl/vector.hpp
index 432c81e..0d0e22a 100644
--- a/inc/ptl/vector.hpp
+++ b/inc/ptl/vector.hpp
@@ -5,8 +5,12 @@
 //          http://www.boost.org/LICENSE_1_0.txt)
 
 #pragma once
+#include <new>
 #include <limits>
 #include <memory>
+#include <cstddef>
+#include <cstdlib>
+#include <utility>
 #include <iterator>
 #include <algorithm>
 #include <stdexcept>
-- 
2.43.0


From 33fb9d9f4b0c4836f084214a36848da9c819caa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:20 +0000
Subject: [PATCH 16/25] fix: string lost its terminating NUL if an iterator
 threw during append

---
 inc/ptl/string.hpp | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/inc/ptl/string.hpp b/inc/ptl/string.hpp
index 03b1361..cd7a1d7 100644
--- a/inc/ptl/string.hpp
+++ b/inc/ptl/string.hpp
@@ -245,6 +245,16 @@ namespace ptl {
 			return tmp;
 		}
 
+		template<typename ForwardIterator>
+		void copy_behind_end(ForwardIterator first, ForwardIterator last) {
+			try {
+				std::copy(first, last, data() + size());
+			} catch(...) {
+				storage.set_size(size()); //restore terminating \0
+				throw;
+			}
+		}
+
 		auto grown_size(std::size_t additional_size) const -> std::size_t {
 			if(additional_size > max_size() - size()) throw std::length_error{"ptl::string - exceeding max_size"};
 			return size() + additional_size;
@@ -433,7 +443,7 @@ namespace ptl {
 		void append(ForwardIterator first, ForwardIterator last) {
 			const auto distance{static_cast<std::size_t>(std::distance(first, last))};
 			if(distance + size() <= capacity()) { //no need for allocation nor double buffering
-				std::copy(first, last, data() + size());
+				copy_behind_end(first, last);
 				storage.set_size(size() + distance);
 			} else { //do single allocation
 				storage_t tmp{size() + distance};
@@ -452,7 +462,7 @@ namespace ptl {
 		template<typename ForwardIterator, std::enable_if_t<std::is_base_of_v<std::forward_iterator_tag, typename std::iterator_traits<ForwardIterator>::iterator_category>, int> = 0> //TODO: [C++20] replace with concepts/requires-clause
 		void assign(ForwardIterator first, ForwardIterator last) {
 			if(const auto distance{static_cast<std::size_t>(std::distance(first, last))}; distance + size() <= capacity()) { //no need for allocation nor double buffering
-				std::copy(first, last, data() + size());
+				copy_behind_end(first, last);
 				std::rotate(data(), data() + size(), data() + size() + distance);
 				storage.set_size(distance);
 			} else {
@@ -480,7 +490,7 @@ namespace ptl {
 			const auto distance{static_cast<std::size_t>(std::distance(first, last))};
 			const auto offset{pos.ptr - data()};
 			if(distance + size() <= capacity()) { //no need for allocation nor double buffering
-				std::copy(first, last, data() + size());
+				copy_behind_end(first, last);
 				std::rotate(const_cast<char *>(pos.ptr), data() + size(), data() + size() + distance);
 				storage.set_size(size() + distance);
 			} else { //do single allocation
@@ -508,7 +518,7 @@ namespace ptl {
 		auto replace(const_iterator first, const_iterator last, ForwardIterator first2, ForwardIterator last2) -> string & { //TODO: [C++??] precondition(begin() <= first && first <= last && last <= end());
 			const auto distance{static_cast<std::size_t>(std::distance(first2, last2))};
 			if(distance + size() <= capacity()) { //no need for allocation nor double buffering
-				std::copy(first2, last2, data() + size());
+				copy_behind_end(first2, last2);
 				const auto offset_first{first.ptr - data()};
 				const auto offset_mid{size() - (last - first)};
 				storage.set_size(size() + distance);
-- 
2.43.0


From 04718270eaa6448056ca912a891599ee26aab528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:58 +0000
Subject: [PATCH 17/25] fix: variant::emplace was valueless after a throwing
 initializer_list constructor

The check for a non-throwing construction used T(args...) but the value is
constructed by T{args...}, which may select another constructor.
---
 inc/ptl/variant.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inc/ptl/variant.hpp b/inc/ptl/variant.hpp
index 281d45e..21a4964 100644
--- a/inc/ptl/variant.hpp
+++ b/inc/ptl/variant.hpp
@@ -246,7 +246,7 @@ namespace ptl {
 		auto emplace(Args &&... args) -> decltype(auto) { return emplace<typename decltype(internal_variant::determine_type<Index, Head, Tail...>())::type>(std::forward<Args>(args)...); }
 		template<typename T, typename... Args, typename = std::enable_if_t<can_store<T>>> //TODO: [C++20] replace with concepts/requires-clause
 		auto emplace(Args &&... args) -> T & {
-			if constexpr(std::is_nothrow_constructible_v<T, Args...>) {
+			if constexpr(noexcept(T{std::declval<Args>()...})) { //same initialization as in storage_t::set
 				internal_variant::destroy(indices_t{}, type, storage);
 				constexpr auto index{internal_variant::determine_index<std::decay_t<T>, Head, Tail...>()};
 				storage.template set<index>(std::forward<Args>(args)...);
-- 
2.43.0


From dcf12bc305e5b3235937795f8578a91d55fc8983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:45 +0000
Subject: [PATCH 18/25] fix: mixing iterator and const_iterator of string and
 vector was ambiguous

The private conversion back to iterator took part in overload resolution of
comparisons and differences.
---
 inc/ptl/string.hpp | 3 ++-
 inc/ptl/vector.hpp | 5 +++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/inc/ptl/string.hpp b/inc/ptl/string.hpp
index cd7a1d7..e97d540 100644
--- a/inc/ptl/string.hpp
+++ b/inc/ptl/string.hpp
@@ -230,6 +230,7 @@ namespace ptl {
 			contiguous_iterator(pointer ptr) noexcept : ptr{ptr} {}
 
 			constexpr
+			explicit //prevent ambiguities in mixed comparisons
 			operator contiguous_iterator<false>() const noexcept { return contiguous_iterator<false>{const_cast<char *>(ptr)}; }
 
 			pointer ptr{nullptr};
@@ -477,7 +478,7 @@ namespace ptl {
 		auto erase(const_iterator first, const_iterator last) noexcept -> iterator { //TODO: [C++??] precondition(begin() <= first && first <= last && last <= end());
 			std::copy(const_cast<char *>(last.ptr), data() + size(), const_cast<char *>(first.ptr));
 			storage.set_size(size() - (last - first));
-			return first;
+			return iterator{first};
 		}
 
 		template<typename InputIterator, std::enable_if_t<std::is_same_v<std::input_iterator_tag, typename std::iterator_traits<InputIterator>::iterator_category>, int> = 0> //TODO: [C++20] replace with concepts/requires-clause
diff --git a/inc/ptl/vector.hpp b/inc/ptl/vector.hpp
index 0d0e22a..64df63b 100644
--- a/inc/ptl/vector.hpp
+++ b/inc/ptl/vector.hpp
@@ -190,6 +190,7 @@ namespace ptl {
 			contiguous_iterator(pointer ptr) noexcept : ptr{ptr} {}
 
 			constexpr
+			explicit //prevent ambiguities in mixed comparisons
 			operator contiguous_iterator<false>() const noexcept { return contiguous_iterator<false>{const_cast<Type *>(ptr)}; }
 
 			pointer ptr{nullptr};
@@ -356,11 +357,11 @@ namespace ptl {
 		auto erase(const_iterator pos) noexcept -> iterator { return erase(pos, pos + 1); } //TODO: [C++??] precondition(pos != end());
 		auto erase(const_iterator first, const_iterator last) noexcept -> iterator { //TODO: [C++??] precondition(begin() <= first && first <= last && last <= end());
 			const auto count{static_cast<size_type>(std::distance(first, last))};
-			if(count == 0) return first; //prevent self-move of elements
+			if(count == 0) return iterator{first}; //prevent self-move of elements
 			std::move(const_cast<Type *>(last.ptr), data() + size(), const_cast<Type *>(first.ptr));
 			std::destroy(data() + size() - count, data() + size());
 			storage.set_size(size() - count);
-			return first;
+			return iterator{first};
 		}
 
 		template<typename InputIterator, std::enable_if_t<std::is_same_v<std::input_iterator_tag, typename std::iterator_traits<InputIterator>::iterator_category>, int> = 0> //TODO: [C++20] replace with concepts/requires-clause
-- 
2.43.0


From 85ee8abf47780e0429881245b0d78a0ecbeaf503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:59 +0000
Subject: [PATCH 19/25] fix: reading through bitset::reference recursed
 endlessly

---
 inc/ptl/bitset.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inc/ptl/bitset.hpp b/inc/ptl/bitset.hpp
index daa2a1c..c43eb2d 100644
--- a/inc/ptl/bitset.hpp
+++ b/inc/ptl/bitset.hpp
@@ -96,7 +96,7 @@ namespace ptl {
 			}
 
 			constexpr
-			operator bool() const noexcept { return self[index]; }
+			operator bool() const noexcept { return static_cast<const bitset &>(self)[index]; }
 			constexpr
 			auto operator~() const noexcept -> bool { return !static_cast<bool>(*this); }
 
-- 
2.43.0


From cb36c1dd9fc6612d70a6e2ae15ea1e4ed7a880b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:22 +0000
Subject: [PATCH 20/25] fix: array could only be constructed from arguments its
 elements convert to (not from lvalues or nullptr)

---
 inc/ptl/array.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inc/ptl/array.hpp b/inc/ptl/array.hpp
index dc13c95..1210835 100644
--- a/inc/ptl/array.hpp
+++ b/inc/ptl/array.hpp
@@ -174,7 +174,7 @@ namespace ptl {
 		using reverse_iterator       = std::reverse_iterator<      iterator>;
 		using const_reverse_iterator = std::reverse_iterator<const_iterator>;
 
-		template<typename... Args, typename = std::enable_if_t<(std::is_convertible_v<Type, Args> &&...)>> //TODO: [C++20] replace with concepts/requires-clause
+		template<typename... Args, typename = std::enable_if_t<(std::is_convertible_v<Args, Type> &&...)>> //TODO: [C++20] replace with concepts/requires-clause
 		constexpr
 		array(Args &&... args) : values{std::forward<Args>(args)...} {}
 
-- 
2.43.0


From 4dd88a44398105dddff520be29853db5d1d43a9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:22 +0000
Subject: [PATCH 21/25] fix: a one-element tuple could not be copied from a
 non-const lvalue

---
 inc/ptl/tuple.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inc/ptl/tuple.hpp b/inc/ptl/tuple.hpp
index eb02e63..281e5e6 100644
--- a/inc/ptl/tuple.hpp
+++ b/inc/ptl/tuple.hpp
@@ -88,7 +88,7 @@ namespace ptl {
 
 		internal_tuple::storage_t<Types...> storage;
 	public:
-		template<typename... Args, typename = std::enable_if_t<sizeof...(Args) == sizeof...(Types) || sizeof...(Args) == 0>> //TODO: [C++20] replace with concepts/requires-clause
+		template<typename... Args, typename = std::enable_if_t<(sizeof...(Args) == sizeof...(Types) && !(std::is_same_v<tuple, std::remove_cv_t<std::remove_reference_t<Args>>> && ...)) || sizeof...(Args) == 0>> //TODO: [C++20] replace with concepts/requires-clause
 		constexpr
 		tuple(Args &&... args) : storage{std::forward<Args>(args)...} {}
 
-- 
2.43.0


From 64fa022afa2a2fc1daeaf15d1efcab8509218f06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:15:26 +0000
Subject: [PATCH 22/25] fix: copies of elements with an initializer_list
 constructor are copies (optional, variant, vector)

---
 inc/ptl/optional.hpp | 16 ++++++++--------
 inc/ptl/variant.hpp  | 12 +++++++++---
 inc/ptl/vector.hpp   |  6 +++---
 3 files changed, 20 insertions(+), 14 deletions(-)

diff --git a/inc/ptl/optional.hpp b/inc/ptl/optional.hpp
index 781cb9f..82dfd7c 100644
--- a/inc/ptl/optional.hpp
+++ b/inc/ptl/optional.hpp
@@ -36,14 +36,14 @@ namespace ptl {
 		optional(std::nullopt_t) noexcept {}
 
 		constexpr
-		optional(const optional & other) : initialized{other.initialized} { if(other) new(std::addressof(val)) Type{other.val}; } //TODO: [C++20] use std::construct_at
+		optional(const optional & other) : initialized{other.initialized} { if(other) new(std::addressof(val)) Type(other.val); } //TODO: [C++20] use std::construct_at
 		constexpr
-		optional(optional && other) noexcept : initialized{other.initialized} { if(other) new(std::addressof(val)) Type{std::move(other.val)}; } //TODO: [C++20] use std::construct_at
+		optional(optional && other) noexcept : initialized{other.initialized} { if(other) new(std::addressof(val)) Type(std::move(other.val)); } //TODO: [C++20] use std::construct_at
 
 		constexpr
-		optional(const Type & value) : initialized{true} { new(std::addressof(val)) Type{value}; } //TODO: [C++20] use std::construct_at
+		optional(const Type & value) : initialized{true} { new(std::addressof(val)) Type(value); } //TODO: [C++20] use std::construct_at
 		constexpr
-		optional(Type && value) noexcept : initialized{true} { new(std::addressof(val)) Type{std::move(value)}; } //TODO: [C++20] use std::construct_at
+		optional(Type && value) noexcept : initialized{true} { new(std::addressof(val)) Type(std::move(value)); } //TODO: [C++20] use std::construct_at
 
 		template<typename... Args>
 		constexpr
@@ -77,7 +77,7 @@ namespace ptl {
 		auto operator=(const Type & value) -> optional & {
 			if(initialized) **this = value;
 			else {
-				new(std::addressof(val)) Type{value}; //TODO: [C++20] use std::construct_at
+				new(std::addressof(val)) Type(value); //TODO: [C++20] use std::construct_at
 				initialized = true;
 			}
 			return *this;
@@ -86,7 +86,7 @@ namespace ptl {
 		auto operator=(Type && value) noexcept -> optional & {
 			if(initialized) **this = std::move(value);
 			else {
-				new(std::addressof(val)) Type{std::move(value)}; //TODO: [C++20] use std::construct_at
+				new(std::addressof(val)) Type(std::move(value)); //TODO: [C++20] use std::construct_at
 				initialized = true;
 			}
 			return *this;
@@ -172,12 +172,12 @@ namespace ptl {
 			if(this == &other) return; //TODO: [C++20] use [[unlikely]]
 			if(!*this && !other) return;
 			else if(*this && !other) {
-				new(std::addressof(other.val)) Type{std::move(val)}; //TODO: [C++20] use std::construct_at
+				new(std::addressof(other.val)) Type(std::move(val)); //TODO: [C++20] use std::construct_at
 				other.initialized = true;
 				std::destroy_at(std::addressof(val));
 				initialized = false;
 			} else if(!*this && other) {
-				new(std::addressof(val)) Type{std::move(other.val)}; //TODO: [C++20] use std::construct_at
+				new(std::addressof(val)) Type(std::move(other.val)); //TODO: [C++20] use std::construct_at
 				initialized = true;
 				std::destroy_at(std::addressof(other.val));
 				other.initialized = false;
diff --git a/inc/ptl/variant.hpp b/inc/ptl/variant.hpp
index 21a4964..fd63731 100644
--- a/inc/ptl/variant.hpp
+++ b/inc/ptl/variant.hpp
@@ -50,6 +50,12 @@ namespace ptl {
 				if constexpr(I != 0) next.template set<I - 1>(std::forward<Args>(args)...);
 				else new(std::addressof(val)) Head{std::forward<Args>(args)...}; //TODO: [C++20] use std::construct_at here
 			}
+			template<std::size_t I, typename Arg>
+			constexpr
+			void transfer(Arg && arg) { //TODO: [C++??] precondition(val is uninitialized);
+				if constexpr(I != 0) next.template transfer<I - 1>(std::forward<Arg>(arg));
+				else new(std::addressof(val)) Head(std::forward<Arg>(arg)); //not {}, as that prefers constructors taking a std::initializer_list //TODO: [C++20] use std::construct_at here
+			}
 
 			template<std::size_t I>
 			constexpr
@@ -130,8 +136,8 @@ namespace ptl {
 			using Dispatch = void(*)(Storage &, Other &) noexcept(Move);
 			constexpr Dispatch dispatch[]{+[](Storage & lhs, Other & rhs) noexcept(Move) {
 				auto ptr{rhs.template get<Indices>()};
-				if constexpr(Move) lhs.template set<Indices>(std::move(*ptr));
-				else lhs.template set<Indices>(*ptr);
+				if constexpr(Move) lhs.template transfer<Indices>(std::move(*ptr));
+				else lhs.template transfer<Indices>(*ptr);
 			}...};
 			dispatch[type](lhs, rhs);
 		}
@@ -204,7 +210,7 @@ namespace ptl {
 
 		template<typename T, std::size_t Index = internal_variant::determine_index<std::decay_t<T>, Head, Tail...>(), typename = std::enable_if_t<can_store<T>>> //TODO: [C++20] replace with concepts/requires-clause
 		constexpr
-		variant(T && value) : type{Index} { storage.template set<Index>(std::forward<T>(value)); }
+		variant(T && value) : type{Index} { storage.template transfer<Index>(std::forward<T>(value)); }
 
 		template<std::size_t Index, typename... Args, typename = std::enable_if_t<(Index >= 0 && Index < sizeof...(Tail) + 1)>> //TODO: [C++20] replace with concepts/requires-clause
 		constexpr
diff --git a/inc/ptl/vector.hpp b/inc/ptl/vector.hpp
index 64df63b..b62b3a9 100644
--- a/inc/ptl/vector.hpp
+++ b/inc/ptl/vector.hpp
@@ -310,8 +310,8 @@ namespace ptl {
 		auto max_size() noexcept-> size_type { return max_capacity; }
 		auto capacity() const noexcept -> size_type { return storage.capacity(); }
 
-		auto push_back(const Type & value) -> reference { return emplace_back(value); }
-		auto push_back(Type && value) -> reference { return emplace_back(std::move(value)); }
+		auto push_back(const Type & value) -> reference { return *insert(end(), value); }
+		auto push_back(Type && value) -> reference { return *insert(end(), std::move(value)); }
 		template<typename... Args>
 		auto emplace_back(Args &&... args) -> reference { return *emplace(end(), std::forward<Args>(args)...); }
 
@@ -373,7 +373,7 @@ namespace ptl {
 		auto insert(const_iterator pos, ForwardIterator first, ForwardIterator last) -> iterator { return insert_impl(pos, std::distance(first, last), [&](auto pos) { std::uninitialized_copy(first, last, pos); }); } //TODO: [C++??] precondition(begin() <= pos && pos <= end());
 		auto insert(const_iterator pos, std::initializer_list<Type> ilist) -> iterator { return insert(pos, ilist.begin(), ilist.end()); }
 		auto insert(const_iterator pos, const Type & value) -> iterator { return insert(pos, 1, value); }
-		auto insert(const_iterator pos, Type && value) -> iterator { return emplace(pos, std::move(value)); }
+		auto insert(const_iterator pos, Type && value) -> iterator { return insert_impl(pos, 1, [&](auto pos) { new(pos) Type(std::move(value)); }); } //TODO: [C++20] use construct_at
 		auto insert(const_iterator pos, size_type count, const Type & value) -> iterator { return insert_impl(pos, count, [&](auto pos) { std::uninitialized_fill_n(pos, count, value); }); }
 		template<typename... Args>
 		auto emplace(const_iterator pos, Args &&... args) -> iterator { return insert_impl(pos, 1, [&](auto pos) { new(pos) Type{std::forward<Args>(args)...}; }); } //TODO: [C++20] use construct_at
-- 
2.43.0


From ec8651e3a15430cb9045d56b32cac392c508438b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:39:17 +0000
Subject: [PATCH 23/25] fix: bitset output is formatted as a whole

operator<< inserted every bit as a character of its own, so a field width
was applied to the first bit only: with std::left the fill characters ended
up between the bits and the output could not be read back.
---
 inc/ptl/bitset.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/inc/ptl/bitset.hpp b/inc/ptl/bitset.hpp
index c43eb2d..6a6fc47 100644
--- a/inc/ptl/bitset.hpp
+++ b/inc/ptl/bitset.hpp
@@ -334,8 +334,9 @@ namespace ptl {
 
 		friend
 		auto operator<<(std::ostream & os, const bitset & self) -> std::ostream & {
-			for(size_type i{Size}; i != 0; --i) os << (self.test(i - 1) ? '1' : '0');
-			return os;
+			char bits[Size + 1]{}; //field width, fill and adjustment apply to the bits as a whole
+			for(size_type i{0}; i < Size; ++i) bits[i] = self.test(Size - 1 - i) ? '1' : '0';
+			return os << bits;
 		}
 		friend
 		auto operator>>(std::istream & is,       bitset & self) -> std::istream & {
-- 
2.43.0


From 60d9d05d263102212355fa67cb7f0e06cdfcc3fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:55:29 +0000
Subject: [PATCH 24/25] fix: variant assignment from an object that its current
 alternative keeps alive

---
 inc/ptl/variant.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/inc/ptl/variant.hpp b/inc/ptl/variant.hpp
index fd63731..55e4b9a 100644
--- a/inc/ptl/variant.hpp
+++ b/inc/ptl/variant.hpp
@@ -226,15 +226,16 @@ namespace ptl {
 				variant tmp{other};
 				internal_variant::destroy(indices_t{}, type, storage);
 				internal_variant::assign<true>(indices_t{}, tmp.type, storage, tmp.storage);
-				type = other.type;
+				type = tmp.type;
 			}
 			return *this;
 		}
 		auto operator=(variant && other) noexcept -> variant & {
 			if(this != &other) { //TODO: [C++20] use [[likely]]
+				variant tmp{std::move(other)}; //other may be kept alive by the current alternative
 				internal_variant::destroy(indices_t{}, type, storage);
-				internal_variant::assign<true>(indices_t{}, other.type, storage, other.storage);
-				type = other.type;
+				internal_variant::assign<true>(indices_t{}, tmp.type, storage, tmp.storage);
+				type = tmp.type;
 			}
 			return *this;
 		}
-- 
2.43.0


From e4949052f55acab9a3501f368ac00431b8612e6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:55:29 +0000
Subject: [PATCH 25/25] fix: vector move assignment from a vector that one of
 its elements keeps alive

---
 inc/ptl/vector.hpp | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/inc/ptl/vector.hpp b/inc/ptl/vector.hpp
index b62b3a9..96a25c4 100644
--- a/inc/ptl/vector.hpp
+++ b/inc/ptl/vector.hpp
@@ -63,16 +63,8 @@ namespace ptl {
 			storage_t(storage_t && other) noexcept : dealloc{std::exchange(other.dealloc, nullptr)}, ptr{std::exchange(other.ptr, nullptr)}, cap{std::exchange(other.cap, 0)}, siz{std::exchange(other.siz, 0)} {}
 
 			auto operator=(storage_t && other) noexcept -> storage_t & {
-				if(this != std::addressof(other)) { //TODO: [C++20] use [[likely]]
-					if(dealloc) {
-						std::destroy_n(ptr, siz);
-						dealloc(ptr);
-					}
-					dealloc = std::exchange(other.dealloc, nullptr);
-					ptr = std::exchange(other.ptr, nullptr);
-					cap = std::exchange(other.cap, 0);
-					siz = std::exchange(other.siz, 0);
-				}
+				storage_t tmp{std::move(other)}; //other may be kept alive by an element of *this
+				swap(tmp);
 				return *this;
 			}
 
-- 
2.43.0

