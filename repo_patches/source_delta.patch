From d307d02ea446efb0d5c0eeb8643dd200595ee6e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:30:01 +0000
Subject: [PATCH 01/33] fix: Ptr and ComPtr assignment must not read a handle
 inside the object it releases

---
 Source/Primitives/Pointer.h | 23 ++++++++++-------------
 1 file changed, 10 insertions(+), 13 deletions(-)

diff --git a/Source/Primitives/Pointer.h b/Source/Primitives/Pointer.h
index 2e0e034..616bb15 100644
--- a/Source/Primitives/Pointer.h
+++ b/Source/Primitives/Pointer.h
@@ -230,8 +230,8 @@ Ptr
 		/// <param name="pointer">The nullptr.</param>
 		Ptr<T>& operator=(std::nullptr_t)
 		{
-			Dec();
-			SetEmptyNoIncDec();
+			// this shared pointer could be inside the object to release, so it must be emptied first
+			Ptr<T> released(std::move(*this));
 			return *this;
 		}
 
@@ -242,7 +242,8 @@ Ptr
 		{
 			if (this != &pointer)
 			{
-				Dec();
+				// pointer could be inside the object to release, so it must be released after copying
+				Ptr<T> released(std::move(*this));
 				counter = pointer.counter;
 				reference = pointer.reference;
 				originalReference = pointer.originalReference;
@@ -259,7 +260,8 @@ Ptr
 		{
 			if (this != &pointer)
 			{
-				Dec();
+				// pointer could be inside the object to release, so it must be released after moving
+				Ptr<T> released(std::move(*this));
 				counter = pointer.counter;
 				reference = pointer.reference;
 				originalReference = pointer.originalReference;
@@ -402,23 +404,18 @@ ComPtr
 
 		ComPtr<T>& operator=(std::nullptr_t)
 		{
-			Dec();
-			SetEmpty();
+			ComPtr<T> released(std::move(*this));
 			return *this;
 		}
 
 		ComPtr<T>& operator=(T* pointer)
 		{
-			Dec();
+			ComPtr<T> released(std::move(*this));
 			if (pointer)
 			{
 				counter = new atomic_vint(1);
 				reference = pointer;
 			}
-			else
-			{
-				SetEmpty();
-			}
 			return *this;
 		}
 
@@ -426,7 +423,7 @@ ComPtr
 		{
 			if (this != &pointer)
 			{
-				Dec();
+				ComPtr<T> released(std::move(*this));
 				counter = pointer.counter;
 				reference = pointer.reference;
 				Inc();
@@ -438,7 +435,7 @@ ComPtr
 		{
 			if (this != &pointer)
 			{
-				Dec();
+				ComPtr<T> released(std::move(*this));
 				counter = pointer.counter;
 				reference = pointer.reference;
 				pointer.SetEmpty();
-- 
2.43.0


From 30f93336f8a1e94332f5271935e50f05e7ea1475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:30:01 +0000
Subject: [PATCH 02/33] fix: Ptr::Detach must empty the shared pointer even if
 others still share the object

---
 Source/Primitives/Pointer.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Source/Primitives/Pointer.h b/Source/Primitives/Pointer.h
index 616bb15..3d5b634 100644
--- a/Source/Primitives/Pointer.h
+++ b/Source/Primitives/Pointer.h
@@ -212,6 +212,7 @@ Ptr
 		{
 			auto detached = reference;
 			Dec(false);
+			SetEmptyNoIncDec();
 			return detached;
 		}
 
-- 
2.43.0


From 3fd11f277c64eb18499e88859e766457129233b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:34:56 +0000
Subject: [PATCH 03/33] fix: ObjectString::Sub and Remove must reject a
 negative size

---
 Source/Strings/String.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Source/Strings/String.h b/Source/Strings/String.h
index 3e0f206..19d0843 100644
--- a/Source/Strings/String.h
+++ b/Source/Strings/String.h
@@ -462,7 +462,7 @@ namespace vl
 		ObjectString<T> Sub(vint index, vint count)const
 		{
 			CHECK_ERROR(index>=0 && index<=length, L"ObjectString<T>::Sub(vint, vint)#Argument index not in range.");
-			CHECK_ERROR(index+count>=0 && index+count<=length, L"ObjectString<T>::Sub(vint, vint)#Argument count not in range.");
+			CHECK_ERROR(count>=0 && count<=length-index, L"ObjectString<T>::Sub(vint, vint)#Argument count not in range.");
 			return SubUnsafe(index, count);
 		}
 
@@ -480,7 +480,7 @@ namespace vl
 		ObjectString<T> Remove(vint index, vint count)const
 		{
 			CHECK_ERROR(index>=0 && index<length, L"ObjectString<T>::Remove(vint, vint)#Argument index not in range.");
-			CHECK_ERROR(index+count>=0 && index+count<=length, L"ObjectString<T>::Remove(vint, vint)#Argument count not in range.");
+			CHECK_ERROR(count>=0 && count<=length-index, L"ObjectString<T>::Remove(vint, vint)#Argument count not in range.");
 			return ReplaceUnsafe(ObjectString<T>(), index, count);
 		}
 
-- 
2.43.0


From c81dfea71cb3d5efa013f0285956565f8652a22d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:35:58 +0000
Subject: [PATCH 04/33] fix: UTF-8 decoding must reject encoded surrogate code
 points

---
 Source/Strings/Conversion.cpp | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/Source/Strings/Conversion.cpp b/Source/Strings/Conversion.cpp
index 7675ad1..b9ef2ff 100644
--- a/Source/Strings/Conversion.cpp
+++ b/Source/Strings/Conversion.cpp
@@ -120,18 +120,19 @@ UtfConversion<char8_t>
 			const vuint8_t* cs = reinterpret_cast<const vuint8_t*>(source);
 			vuint32_t& d = reinterpret_cast<vuint32_t&>(dest);
 			if (sourceLength <= 0) return -1;
+			vint result = 0;
 
 			if (cs[0] < 0b10000000U)
 			{
 				d = cs[0];
-				return 1;
+				result = 1;
 			}
 			else if (cs[0] < 0b11100000U)
 			{
 				if (sourceLength < 2) return -1;
 				d = ((static_cast<vuint32_t>(cs[0]) & 0b00011111U) << 6) |
 					((static_cast<vuint32_t>(cs[1]) & 0b00111111U));
-				return 2;
+				result = 2;
 			}
 			else if (cs[0] < 0b11110000U)
 			{
@@ -139,7 +140,7 @@ UtfConversion<char8_t>
 				d = ((static_cast<vuint32_t>(cs[0]) & 0b00001111U) << 12) |
 					((static_cast<vuint32_t>(cs[1]) & 0b00111111U) << 6) |
 					((static_cast<vuint32_t>(cs[2]) & 0b00111111U));
-				return 3;
+				result = 3;
 			}
 			else if (cs[0] < 0b11111000U)
 			{
@@ -148,7 +149,7 @@ UtfConversion<char8_t>
 					((static_cast<vuint32_t>(cs[1]) & 0b00111111U) << 12) |
 					((static_cast<vuint32_t>(cs[2]) & 0b00111111U) << 6) |
 					((static_cast<vuint32_t>(cs[3]) & 0b00111111U));
-				return 4;
+				result = 4;
 			}
 			else if (cs[0] < 0b11111100U)
 			{
@@ -158,7 +159,7 @@ UtfConversion<char8_t>
 					((static_cast<vuint32_t>(cs[2]) & 0b00111111U) << 12) |
 					((static_cast<vuint32_t>(cs[3]) & 0b00111111U) << 6) |
 					((static_cast<vuint32_t>(cs[4]) & 0b00111111U));
-				return 5;
+				result = 5;
 			}
 			else
 			{
@@ -169,10 +170,10 @@ UtfConversion<char8_t>
 					((static_cast<vuint32_t>(cs[3]) & 0b00111111U) << 12) |
 					((static_cast<vuint32_t>(cs[4]) & 0b00111111U) << 6) |
 					((static_cast<vuint32_t>(cs[5]) & 0b00111111U));
-				return 6;
+				result = 6;
 			}
 			if (IsInvalid(dest)) return -1;
-			return 1;
+			return result;
 		}
 
 /***********************************************************************
-- 
2.43.0


From 7e78d44a1db8b52e009a6c85c5eb65cf67f297ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:41:58 +0000
Subject: [PATCH 05/33] fix: wlower and wupper must not truncate wide
 characters to char

---
 Source/Strings/String.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Source/Strings/String.cpp b/Source/Strings/String.cpp
index f1f7204..5fa2a82 100644
--- a/Source/Strings/String.cpp
+++ b/Source/Strings/String.cpp
@@ -102,7 +102,7 @@ namespace vl
 	{
 		while(*buffer)
 		{
-			*buffer=(char)towlower(*buffer);
+			*buffer=(wchar_t)towlower(*buffer);
 			buffer++;
 		}
 	}
@@ -111,7 +111,7 @@ namespace vl
 	{
 		while(*buffer)
 		{
-			*buffer=(char)towupper(*buffer);
+			*buffer=(wchar_t)towupper(*buffer);
 			buffer++;
 		}
 	}
-- 
2.43.0


From bc02ce9a161e26a57497513aa4333e115fcd5cae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:41:58 +0000
Subject: [PATCH 06/33] fix: atof_test and wtof_test must not report success
 for an empty string

---
 Source/Strings/String.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Source/Strings/String.cpp b/Source/Strings/String.cpp
index 5fa2a82..dfe0091 100644
--- a/Source/Strings/String.cpp
+++ b/Source/Strings/String.cpp
@@ -194,7 +194,7 @@ namespace vl
 	{
 		char* endptr = 0;
 		double result = strtod(string.Buffer(), &endptr);
-		success = endptr == string.Buffer() + string.Length();
+		success = string.Length() > 0 && endptr == string.Buffer() + string.Length();
 		return result;
 	}
 
@@ -202,7 +202,7 @@ namespace vl
 	{
 		wchar_t* endptr = 0;
 		double result = wcstod(string.Buffer(), &endptr);
-		success = endptr == string.Buffer() + string.Length();
+		success = string.Length() > 0 && endptr == string.Buffer() + string.Length();
 		return result;
 	}
 
-- 
2.43.0


From 2907e8ff8f75e2c59a8973933645fef197308268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:46:26 +0000
Subject: [PATCH 07/33] fix: ListBase::RemoveRange must reject a negative count

---
 Source/Collections/List.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Source/Collections/List.h b/Source/Collections/List.h
index fb6d43b..d46f7c2 100644
--- a/Source/Collections/List.h
+++ b/Source/Collections/List.h
@@ -522,7 +522,7 @@ ListBase
 			{
 				vint previousCount = this->count;
 				CHECK_ERROR(index >= 0 && index <= this->count, L"ListBase<T>::RemoveRange(vint, vint)#Argument index not in range.");
-				CHECK_ERROR(index + _count >= 0 && index + _count <= this->count, L"ListBase<T,K>::RemoveRange(vint, vint)#Argument _count not in range.");
+				CHECK_ERROR(_count >= 0 && _count <= this->count - index, L"ListBase<T,K>::RemoveRange(vint, vint)#Argument _count not in range.");
 				memory_management::CallMoveAssignmentsOverlapped(&this->buffer[index], &this->buffer[index + _count], this->count - index - _count);
 				this->count -= _count;
 				memory_management::ReleaseUnnecessaryBuffer(this->buffer, this->capacity, previousCount, this->count);
-- 
2.43.0


From 6698a47e22432b9b6eecfe807428d82f61c77dcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:46:49 +0000
Subject: [PATCH 08/33] fix: List and SortedList must accept their own element
 as the item to add

---
 Source/Collections/List.h | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/Source/Collections/List.h b/Source/Collections/List.h
index d46f7c2..262bca1 100644
--- a/Source/Collections/List.h
+++ b/Source/Collections/List.h
@@ -604,10 +604,8 @@ List
 			/// <param name="item">The value to add.</param>
 			vint Insert(vint index, const T& item)
 			{
-				CHECK_ERROR(index >= 0 && index <= this->count, L"List<T>::Insert(vint, const T&)#Argument index not in range.");
-				memory_management::InsertUninitializedItems(this->buffer, this->capacity, this->count, index, 1);
-				memory_management::CallCopyCtors(&this->buffer[index], &item, 1);
-				return index;
+				// item could be an element of this list, copy it before elements are moved
+				return Insert(index, T(item));
 			}
 
 			/// <summary>Insert a value at the specified position.</summary>
@@ -728,10 +726,8 @@ SortedList
 
 			vint Insert(vint index, const T& item)
 			{
-				bool uninitialized = false;
-				memory_management::InsertUninitializedItems(this->buffer, this->capacity, this->count, index, 1);
-				memory_management::CallCopyCtors(&this->buffer[index], &item, 1);
-				return index;
+				// item could be an element of this list, copy it before elements are moved
+				return Insert(index, T(item));
 			}
 
 			vint Insert(vint index, T&& item)
-- 
2.43.0


From d8480cd6f81b1d23d380143295b4b4590944a000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:54:48 +0000
Subject: [PATCH 09/33] fix: copying a SortedList must not take the elements
 away from the source

---
 Source/Collections/List.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Source/Collections/List.h b/Source/Collections/List.h
index 262bca1..ffc2f98 100644
--- a/Source/Collections/List.h
+++ b/Source/Collections/List.h
@@ -775,8 +775,9 @@ SortedList
 			SortedList<T>& operator=(SortedList<T> && _move) = default;
 
 			SortedList(const SortedList<T>&xs)
-				: ListBase<T>(std::move(const_cast<ListBase<T>&>(static_cast<const ListBase<T>&>(xs))))
 			{
+				memory_management::InsertUninitializedItems(this->buffer, this->capacity, this->count, 0, xs.count);
+				memory_management::CallCopyCtors(this->buffer, xs.buffer, xs.count);
 			}
 
 			/// <summary>Test does the list contain a value or not.</summary>
-- 
2.43.0


From 587ab78dc375454f014c5f2cc69928642a0c686f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:54:48 +0000
Subject: [PATCH 10/33] fix: Group::Remove must return false when the value is
 not associated with the key

---
 Source/Collections/Dictionary.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/Source/Collections/Dictionary.h b/Source/Collections/Dictionary.h
index 11cac3b..597d72f 100644
--- a/Source/Collections/Dictionary.h
+++ b/Source/Collections/Dictionary.h
@@ -578,7 +578,10 @@ namespace vl
 				if(index!=-1)
 				{
 					auto target=values[index];
-					target->Remove(value);
+					if(!target->Remove(value))
+					{
+						return false;
+					}
 					if(target->Count()==0)
 					{
 						keys.RemoveAt(index);
-- 
2.43.0


From 2efeab0b747eac0afea3d5469d46cbc3a7cb5f11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:06:26 +0000
Subject: [PATCH 11/33] fix: Dictionary and Group enumerators must survive
 Reset and keep Current in Clone

---
 Source/Collections/Dictionary.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/Source/Collections/Dictionary.h b/Source/Collections/Dictionary.h
index 597d72f..238a7ae 100644
--- a/Source/Collections/Dictionary.h
+++ b/Source/Collections/Dictionary.h
@@ -35,7 +35,7 @@ namespace vl
 
 				void UpdateCurrent()
 				{
-					if(index<container->Count())
+					if(index>=0 && index<container->Count())
 					{
 						current = { container->Keys().Get(index),container->Values().Get(index) };
 					}
@@ -45,6 +45,7 @@ namespace vl
 				{
 					container=_container;
 					index=_index;
+					UpdateCurrent();
 				}
 				
 				IEnumerator<KVPair>* Clone()const override
@@ -288,10 +289,10 @@ namespace vl
 
 				void UpdateCurrent()
 				{
-					if (keyIndex < container->Count())
+					if (keyIndex >= 0 && keyIndex < container->Count())
 					{
 						const ValueContainer& values = container->GetByIndex(keyIndex);
-						if (valueIndex < values.Count())
+						if (valueIndex >= 0 && valueIndex < values.Count())
 						{
 							current = { container->Keys().Get(keyIndex) ,values.Get(valueIndex) };
 						}
@@ -303,6 +304,7 @@ namespace vl
 					container=_container;
 					keyIndex=_keyIndex;
 					valueIndex=_valueIndex;
+					UpdateCurrent();
 				}
 				
 				IEnumerator<KVPair>* Clone()const override
-- 
2.43.0


From 2c98478d27a3f63658fa174a1bf5cc59dff2c96b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:07:04 +0000
Subject: [PATCH 12/33] fix: the position of a skipping enumerator must be -1
 before the first element

---
 Source/Collections/OperationSequence.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Source/Collections/OperationSequence.h b/Source/Collections/OperationSequence.h
index b0a1b4b..9ebc4ae 100644
--- a/Source/Collections/OperationSequence.h
+++ b/Source/Collections/OperationSequence.h
@@ -105,7 +105,7 @@ Skip
 
 			vint Index()const override
 			{
-				return enumerator->Index()-count;
+				return skipped ? enumerator->Index()-count : -1;
 			}
 
 			bool Next()override
-- 
2.43.0


From ff5c678b56bf89fe82377207685dace852027c16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:23:43 +0000
Subject: [PATCH 13/33] fix: the buffer of Variant must satisfy the alignment
 of all elements

---
 Source/Primitives/Variant.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Source/Primitives/Variant.h b/Source/Primitives/Variant.h
index 2cfe3ae..0401939 100644
--- a/Source/Primitives/Variant.h
+++ b/Source/Primitives/Variant.h
@@ -275,7 +275,7 @@ namespace vl
 
 		static constexpr std::size_t	MaxSize = variant_internal::MaxOf(sizeof(TElements)...);
 		vint							index = -1;
-		char							buffer[MaxSize];
+		alignas(TElements...) char		buffer[MaxSize];
 
 	public:
 		Variant()
-- 
2.43.0


From c674fc0e0c4e64131418d80d116765f420a7da2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:27:34 +0000
Subject: [PATCH 14/33] fix: Variant::TryApply must call a callback that takes
 the element by const reference

---
 Source/Primitives/Variant.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Source/Primitives/Variant.h b/Source/Primitives/Variant.h
index 0401939..074dfa9 100644
--- a/Source/Primitives/Variant.h
+++ b/Source/Primitives/Variant.h
@@ -503,7 +503,7 @@ namespace vl
 			bool result = true;
 			Apply(Overloading(
 				std::forward<TCallback&&>(callback),
-				[&result](auto&&) { result = false; }
+				[&result](const auto&) { result = false; }
 				));
 			return result;
 		}
-- 
2.43.0


From 1da5e18715bd10583bf4e73784e646e08468b0ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:29:26 +0000
Subject: [PATCH 15/33] fix: raising an Event must pass the same arguments to
 every callback

---
 Source/Primitives/Event.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Source/Primitives/Event.h b/Source/Primitives/Event.h
index 7dfc3ed..caaf7ea 100644
--- a/Source/Primitives/Event.h
+++ b/Source/Primitives/Event.h
@@ -98,7 +98,7 @@ namespace vl
 		{
 			for(vint i = 0; i < handlers.Count(); i++)
 			{
-				handlers[i]->function(std::forward<TArgs2&&>(args)...);
+				handlers[i]->function(args...);
 			}
 		}
 	};
-- 
2.43.0


From 522bfe601f9fe7bc5988cd512534266c24b749bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:01:01 +0000
Subject: [PATCH 16/33] fix: a LoremIpsum paragraph must end with a period and
 have no empty sentence

---
 Source/Strings/LoremIpsum.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Source/Strings/LoremIpsum.cpp b/Source/Strings/LoremIpsum.cpp
index 8e8d555..6bf08de 100644
--- a/Source/Strings/LoremIpsum.cpp
+++ b/Source/Strings/LoremIpsum.cpp
@@ -140,7 +140,7 @@ namespace vl
 			}
 
 			result += LoremIpsum(length, casing);
-			if (comma == 0)
+			if (comma == 0 || result.Length() + 3 >= bestLength)
 			{
 				result += L".";
 				break;
-- 
2.43.0


From 699e9c2dd7a57fcc5bc6e5fb96a50b8c1bd66c26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:03:51 +0000
Subject: [PATCH 17/33] fix: conversion between local time and UTC must respect
 daylight saving time

---
 Source/Primitives/DateTime.Linux.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/Source/Primitives/DateTime.Linux.cpp b/Source/Primitives/DateTime.Linux.cpp
index 8cd4277..2a9c644 100644
--- a/Source/Primitives/DateTime.Linux.cpp
+++ b/Source/Primitives/DateTime.Linux.cpp
@@ -98,6 +98,7 @@ DateTime
 			struct timeval tv;
 			gettimeofday(&tv, nullptr);
 			tm* timeinfo = gmtime(&tv.tv_sec);
+			timeinfo->tm_isdst = -1;
 			return ConvertTMTToOSInternal(timeinfo, tv.tv_usec / 1000);
 		}
 
@@ -108,6 +109,7 @@ DateTime
 			OSInternalToTime(osInternal, timer, milliseconds);
 
 			tm* timeinfo = gmtime(&timer);
+			timeinfo->tm_isdst = -1;
 			return ConvertTMTToOSInternal(timeinfo, milliseconds);
 		}
 
@@ -117,10 +119,7 @@ DateTime
 			vint milliseconds;
 			OSInternalToTime(osInternal, timer, milliseconds);
 
-			time_t localTimer = mktime(localtime(&timer));
-			time_t utcTimer = mktime(gmtime(&timer));
-			timer += localTimer - utcTimer;
-
+			timer = timegm(localtime(&timer));
 			TimeToOSInternal(timer, milliseconds, osInternal);
 			return osInternal;
 		}
-- 
2.43.0


From 98daabac95fd1a6e63e8194c514ca8e37ad1b770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:57:07 +0000
Subject: [PATCH 18/33] fix: Console::Write must not write a null character
 after the text

---
 Source/Console.Linux.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Source/Console.Linux.cpp b/Source/Console.Linux.cpp
index d7e51dc..18ea539 100644
--- a/Source/Console.Linux.cpp
+++ b/Source/Console.Linux.cpp
@@ -23,7 +23,7 @@ Console
 		void Console::Write(const wchar_t* string, vint length)
 		{
 			std::wstring s(string, string + length);
-			std::wcout << s << std::ends;
+			std::wcout << s;
 		}
 
 		WString Console::Read()
-- 
2.43.0


From bf991c0670dd2b63861f6ca2d353d2e104373d90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:00:49 +0000
Subject: [PATCH 19/33] fix: Console::Read must return the whole line

---
 Source/Console.Linux.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Source/Console.Linux.cpp b/Source/Console.Linux.cpp
index 18ea539..df977ac 100644
--- a/Source/Console.Linux.cpp
+++ b/Source/Console.Linux.cpp
@@ -30,7 +30,7 @@ Console
 		{
 			std::wstring s;
 			std::getline(std::wcin, s, L'\n');
-			return s.c_str();
+			return WString::CopyFrom(s.c_str(), (vint)s.size());
 		}
 
 		void Console::SetColor(bool red, bool green, bool blue, bool light)
-- 
2.43.0


From ef724dbeb873b513b66416823bc453d85cc9ee30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:40:42 +0000
Subject: [PATCH 20/33] fix: Range must work next to the limits of its type

---
 Source/Collections/OperationEnumerable.h | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/Source/Collections/OperationEnumerable.h b/Source/Collections/OperationEnumerable.h
index f4829ee..5e231cc 100644
--- a/Source/Collections/OperationEnumerable.h
+++ b/Source/Collections/OperationEnumerable.h
@@ -61,11 +61,13 @@ RangeEnumerator
 		protected:
 			T			start;
 			T			count;
+			T			index;
 			T			current;
 		public:
-			RangeEnumerator(T _start, T _count, T _current)
+			RangeEnumerator(T _start, T _count, T _index, T _current)
 				:start(_start)
 				,count(_count)
+				,index(_index)
 				,current(_current)
 			{
 			}
@@ -73,13 +75,14 @@ RangeEnumerator
 			RangeEnumerator(T _start, T _count)
 				:start(_start)
 				,count(_count)
-				,current(_start-1)
+				,index(-1)
+				,current(_start)
 			{
 			}
 
 			IEnumerator<T>* Clone()const override
 			{
-				return new RangeEnumerator(start, count, current);
+				return new RangeEnumerator(start, count, index, current);
 			}
 
 			const T& Current()const override
@@ -89,14 +92,15 @@ RangeEnumerator
 
 			T Index()const override
 			{
-				return current-start;
+				return index;
 			}
 
 			bool Next()override
 			{
-				if(start-1<=current && current<start+count-1)
+				if(index+1<count)
 				{
-					current++;
+					index++;
+					current=start+index;
 					return true;
 				}
 				else
@@ -107,7 +111,8 @@ RangeEnumerator
 
 			void Reset()override
 			{
-				current=start-1;
+				index=-1;
+				current=start;
 			}
 
 			bool Evaluated()const override
-- 
2.43.0


From 2133463aaf36634b01a052c1e46dddb805fb226c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:40:42 +0000
Subject: [PATCH 21/33] fix: Take must yield nothing for every negative count

---
 Source/Collections/OperationSequence.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Source/Collections/OperationSequence.h b/Source/Collections/OperationSequence.h
index 9ebc4ae..cfd2fe3 100644
--- a/Source/Collections/OperationSequence.h
+++ b/Source/Collections/OperationSequence.h
@@ -54,7 +54,7 @@ Take
 
 			bool Next()override
 			{
-				if(enumerator->Index()>=count-1) return false;
+				if(enumerator->Index()+1>=count) return false;
 				return enumerator->Next();
 			}
 
-- 
2.43.0


From f1afbb7cd533ba5d6236f1db3fd1f4482da09787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:40:42 +0000
Subject: [PATCH 22/33] fix: Skip must report positions from 0 for every
 negative count

---
 Source/Collections/OperationSequence.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Source/Collections/OperationSequence.h b/Source/Collections/OperationSequence.h
index cfd2fe3..96ae25f 100644
--- a/Source/Collections/OperationSequence.h
+++ b/Source/Collections/OperationSequence.h
@@ -83,7 +83,7 @@ Skip
 		public:
 			SkipEnumerator(IEnumerator<T>* _enumerator, vint _count, bool _skipped=false)
 				:enumerator(_enumerator)
-				,count(_count)
+				,count(_count<0?0:_count)
 				,skipped(_skipped)
 			{
 			}
-- 
2.43.0


From f94584133cbc9f7096e27c3910f5f1103a36a213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:52:27 +0000
Subject: [PATCH 23/33] fix: Nullable must accept its own value when the type
 cannot be assigned

---
 Source/Primitives/Nullable.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/Source/Primitives/Nullable.h b/Source/Primitives/Nullable.h
index 1147677..f760cd4 100644
--- a/Source/Primitives/Nullable.h
+++ b/Source/Primitives/Nullable.h
@@ -105,8 +105,10 @@ namespace vl
 				}
 			}
 
+			// value could be the object in this nullable
+			T copied(value);
 			Reset();
-			new (&object)T(value);
+			new (&object)T(std::move(copied));
 			initialized = true;
 			return *this;
 		}
-- 
2.43.0


From ed0369dee622c7ccc435ee3569fec08baf150dde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:22:44 +0000
Subject: [PATCH 24/33] fix: Group::Add must not leak when comparing keys
 throws

---
 Source/Collections/Dictionary.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Source/Collections/Dictionary.h b/Source/Collections/Dictionary.h
index 238a7ae..40fb963 100644
--- a/Source/Collections/Dictionary.h
+++ b/Source/Collections/Dictionary.h
@@ -385,8 +385,9 @@ namespace vl
 				vint index = keys.IndexOf(KeyType<KT>::GetKeyValue(keyAccept));
 				if (index == -1)
 				{
+					index = keys.Add(std::forward<TKeyForward>(keyAccept));
 					target = new ValueContainer;
-					values.Insert(keys.Add(std::forward<TKeyForward>(keyAccept)), target);
+					values.Insert(index, target);
 				}
 				else
 				{
-- 
2.43.0


From 58653c42205dc9f344c7c8f3a18feb8106f8175e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:22:44 +0000
Subject: [PATCH 25/33] fix: range-based for loop must not leak its enumerator
 when reading the first element throws

---
 Source/Collections/OperationForEach.h | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/Source/Collections/OperationForEach.h b/Source/Collections/OperationForEach.h
index c3da1eb..06f054a 100644
--- a/Source/Collections/OperationForEach.h
+++ b/Source/Collections/OperationForEach.h
@@ -31,7 +31,16 @@ Range-Based For-Loop Iterator
 			RangeBasedForLoopIterator(const IEnumerable<T>& enumerable)
 				: iterator(enumerable.CreateEnumerator())
 			{
-				operator++();
+				try
+				{
+					operator++();
+				}
+				catch (...)
+				{
+					// the destructor is not called when a constructor fails
+					delete iterator;
+					throw;
+				}
 			}
 
 			~RangeBasedForLoopIterator()
@@ -102,7 +111,16 @@ Range-Based For-Loop Iterator with Index
 				: iterator(enumerable.CreateEnumerator())
 				, index(-1)
 			{
-				operator++();
+				try
+				{
+					operator++();
+				}
+				catch (...)
+				{
+					// the destructor is not called when a constructor fails
+					delete iterator;
+					throw;
+				}
 			}
 
 			~RangeBasedForLoopIteratorWithIndex()
-- 
2.43.0


From ff7b9ba74ec4a7bcc372dcefb43f4132b9b9dea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:22:44 +0000
Subject: [PATCH 26/33] fix: Distinct, Intersect and Except must not leak when
 comparing elements throws

---
 Source/Collections/OperationSequence.h |  4 ++--
 Source/Collections/OperationSet.h      | 15 ++++++++++++---
 2 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/Source/Collections/OperationSequence.h b/Source/Collections/OperationSequence.h
index 96ae25f..6f9c5e3 100644
--- a/Source/Collections/OperationSequence.h
+++ b/Source/Collections/OperationSequence.h
@@ -224,10 +224,10 @@ Distinct
 			}
 
 			DistinctEnumerator(const DistinctEnumerator& _enumerator)
-				:lastValue(_enumerator.lastValue)
+				:distinct(_enumerator.distinct)
+				,lastValue(_enumerator.lastValue)
 			{
 				enumerator = _enumerator.enumerator->Clone();
-				CopyFrom(distinct, _enumerator.distinct);
 			}
 
 			~DistinctEnumerator()
diff --git a/Source/Collections/OperationSet.h b/Source/Collections/OperationSet.h
index 65f557c..f07f231 100644
--- a/Source/Collections/OperationSet.h
+++ b/Source/Collections/OperationSet.h
@@ -32,14 +32,23 @@ Intersect/Except
 				:enumerator(_enumerator)
 				,index(-1)
 			{
-				CopyFrom(reference, _reference);
+				try
+				{
+					CopyFrom(reference, _reference);
+				}
+				catch (...)
+				{
+					// the destructor is not called when a constructor fails
+					delete enumerator;
+					throw;
+				}
 			}
 
 			IntersectExceptEnumerator(const IntersectExceptEnumerator& _enumerator)
+				:reference(_enumerator.reference)
+				,index(_enumerator.index)
 			{
 				enumerator=_enumerator.enumerator->Clone();
-				CopyFrom(reference, _enumerator.reference);
-				index=_enumerator.index;
 			}
 
 			~IntersectExceptEnumerator()
-- 
2.43.0


From b66a4936542f400d96fe55f4e91939bcea78a33e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:22:44 +0000
Subject: [PATCH 27/33] fix: PartialOrderingProcessor must forget a refused
 initialization

---
 Source/Collections/PartialOrdering.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/Source/Collections/PartialOrdering.h b/Source/Collections/PartialOrdering.h
index 30bacf5..efc3f59 100644
--- a/Source/Collections/PartialOrdering.h
+++ b/Source/Collections/PartialOrdering.h
@@ -181,6 +181,9 @@ Partial Ordering
 			void InitWithGroup(const TList& items, const GroupOf<TList>& depGroup)
 			{
 				CHECK_ERROR(nodes.Count() == 0, L"PartialOrdering::InitWithGroup(items, depGroup)#Initializing twice is not allowed.");
+				// a failed initialization could have left something here
+				ins.Clear();
+				outs.Clear();
 
 				for (vint i = 0; i < depGroup.Count(); i++)
 				{
@@ -385,6 +388,9 @@ Partial Ordering
 			void InitWithSubClass(const TList& items, const GroupOf<TList>& depGroup, const Dictionary<typename TList::ElementType, TSubClass>& subClasses)
 			{
 				CHECK_ERROR(nodes.Count() == 0, L"PartialOrdering::InitWithSubClass(items, degGroup, subClasses)#Initializing twice is not allowed.");
+				// a failed initialization could have left something here
+				ins.Clear();
+				outs.Clear();
 				using ElementType = typename TList::ElementType;
 				using ElementKeyType = KeyType<ElementType>;
 
-- 
2.43.0


From 5880008502eef742ddf9976410a37bb175963f56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:04:16 +0000
Subject: [PATCH 28/33] fix: assigning a part of its current element to a
 Variant must not read the destroyed element

---
 Source/Primitives/Variant.h | 38 ++++++++++++++++++++++++++++---------
 1 file changed, 29 insertions(+), 9 deletions(-)

diff --git a/Source/Primitives/Variant.h b/Source/Primitives/Variant.h
index 074dfa9..c73bfe1 100644
--- a/Source/Primitives/Variant.h
+++ b/Source/Primitives/Variant.h
@@ -349,9 +349,11 @@ namespace vl
 				}
 				else
 				{
+					// variant could be a part of the current element
+					Variant<TElements...> copied(variant);
 					ElementPack::Dtor(index, buffer);
-					index = variant.index;
-					ElementPack::CopyCtor(index, buffer, variant.buffer);
+					index = copied.index;
+					ElementPack::MoveCtor(index, buffer, copied.buffer);
 				}
 			}
 			return *this;
@@ -367,9 +369,11 @@ namespace vl
 				}
 				else
 				{
+					// variant could be a part of the current element
+					Variant<TElements...> moved(std::move(variant));
 					ElementPack::Dtor(index, buffer);
-					index = variant.index;
-					ElementPack::MoveCtor(index, buffer, variant.buffer);
+					index = moved.index;
+					ElementPack::MoveCtor(index, buffer, moved.buffer);
 				}
 			}
 			return *this;
@@ -386,9 +390,11 @@ namespace vl
 			}
 			else
 			{
+				// element could be a part of the current element
+				T copied(element);
 				ElementPack::Dtor(index, buffer);
 				index = i;
-				ElementPack::CopyCtor(VariantIndex<i>{}, buffer, element);
+				ElementPack::MoveCtor(VariantIndex<i>{}, buffer, std::move(copied));
 			}
 			return *this;
 		}
@@ -404,9 +410,11 @@ namespace vl
 			}
 			else
 			{
+				// element could be a part of the current element
+				T moved(std::move(element));
 				ElementPack::Dtor(index, buffer);
 				index = i;
-				ElementPack::MoveCtor(VariantIndex<i>{}, buffer, std::move(element));
+				ElementPack::MoveCtor(VariantIndex<i>{}, buffer, std::move(moved));
 			}
 			return *this;
 		}
@@ -420,9 +428,21 @@ namespace vl
 			}
 			else
 			{
-				ElementPack::Dtor(index, buffer);
-				index = I;
-				ElementPack::Ctor(i, buffer, std::forward<T&&>(value));
+				using TElement = TypeTupleElement<I, TypeTuple<TElements...>>;
+				if constexpr (std::is_move_constructible_v<TElement>)
+				{
+					// value could be a part of the current element
+					TElement created(std::forward<T&&>(value));
+					ElementPack::Dtor(index, buffer);
+					index = I;
+					ElementPack::MoveCtor(i, buffer, std::move(created));
+				}
+				else
+				{
+					ElementPack::Dtor(index, buffer);
+					index = I;
+					ElementPack::Ctor(i, buffer, std::forward<T&&>(value));
+				}
 			}
 			return *this;
 		}
-- 
2.43.0


From cd06b536299c22667750aa86ab67d961ab61b486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:20:44 +0000
Subject: [PATCH 29/33] fix: converting a moved Pair or Tuple of references
 must not move from the objects they refer to

---
 Source/Collections/Pair.h | 4 ++--
 Source/Primitives/Tuple.h | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/Source/Collections/Pair.h b/Source/Collections/Pair.h
index b335299..e1d85bd 100644
--- a/Source/Collections/Pair.h
+++ b/Source/Collections/Pair.h
@@ -84,8 +84,8 @@ namespace vl
 			template<typename TKey, typename TValue>
 			Pair(Pair<TKey, TValue>&& p)
 				requires(std::is_constructible_v<K, TKey&&> && std::is_constructible_v<K, TKey&&>)
-				: key(std::move(p.key))
-				, value(std::move(p.value))
+				: key(std::forward<TKey>(p.key))
+				, value(std::forward<TValue>(p.value))
 			{
 			}
 
diff --git a/Source/Primitives/Tuple.h b/Source/Primitives/Tuple.h
index d4758fc..a9bc661 100644
--- a/Source/Primitives/Tuple.h
+++ b/Source/Primitives/Tuple.h
@@ -33,7 +33,7 @@ namespace vl
 			template<typename U>
 			void AssignMove(TupleElement<I, U>&& value)
 			{
-				element = std::move(value.GetElement());
+				element = std::forward<U>(value.GetElement());
 			}
 
 			template<typename U>
@@ -148,7 +148,7 @@ namespace vl
 
 			template<typename ...UArgs>
 			TupleBase(TupleCtorTupleTag, TCompatible<UArgs...>&& t)
-				: TupleElement<Is, TArgs>(std::move(static_cast<TupleElement<Is, UArgs>&>(t).GetElement())) ...
+				: TupleElement<Is, TArgs>(std::forward<UArgs>(static_cast<TupleElement<Is, UArgs>&>(t).GetElement())) ...
 			{
 			}
 
-- 
2.43.0


From 669484e152fef555797b3451bcb74f4bf341a1a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:22:30 +0000
Subject: [PATCH 30/33] fix: CopyFrom from a collection to itself must not read
 elements from the collection being changed

---
 Source/Collections/OperationCopyFrom.h | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/Source/Collections/OperationCopyFrom.h b/Source/Collections/OperationCopyFrom.h
index ca63317..a3014b1 100644
--- a/Source/Collections/OperationCopyFrom.h
+++ b/Source/Collections/OperationCopyFrom.h
@@ -143,6 +143,20 @@ Copy Functions for Containers
 		template<typename Ds, typename Ss>
 		void CopyFrom(Ds& ds, const Ss& ss, bool append = false)
 		{
+			if constexpr (std::is_same_v<Ds, Ss> && std::is_default_constructible_v<Ds>)
+			{
+				if (&ds == &ss)
+				{
+					// elements must not be read from a collection that is being changed
+					if (append)
+					{
+						Ds copied;
+						CopyFrom(copied, ss);
+						CopyFrom(ds, copied, true);
+					}
+					return;
+				}
+			}
 			copyfrom_internal::CopyFromAlgorithm<Ds, Ss, randomaccess_internal::RandomAccessable<Ds>::CanResize, randomaccess_internal::RandomAccessable<Ss>::CanRead>::Perform(ds, ss, append);
 		}
 		
-- 
2.43.0


From dd8d6c4e4b2082f4eb073c852cb3284e4d49546c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:22:30 +0000
Subject: [PATCH 31/33] fix: move assignment of collections must take the
 source before destroying the elements that could own it

---
 Source/Collections/Dictionary.h |  5 ++++-
 Source/Collections/List.h       | 26 ++++++++++++++++----------
 2 files changed, 20 insertions(+), 11 deletions(-)

diff --git a/Source/Collections/Dictionary.h b/Source/Collections/Dictionary.h
index 40fb963..f992379 100644
--- a/Source/Collections/Dictionary.h
+++ b/Source/Collections/Dictionary.h
@@ -133,6 +133,8 @@ namespace vl
 			Dictionary<KT, VT>& operator=(const Dictionary<KT, VT>&) = delete;
 			Dictionary<KT, VT>& operator=(Dictionary<KT, VT> && _move)
 			{
+				// _move could be owned by a value of this dictionary, it must be taken before destroying values
+				Dictionary<KT, VT> old(std::move(*this));
 				keys = std::move(_move.keys);
 				values = std::move(_move.values);
 				return* this;
@@ -415,7 +417,8 @@ namespace vl
 			Group<KT, VT>& operator=(const Group<KT, VT>&) = delete;
 			Group<KT, VT>& operator=(Group<KT, VT> && _move)
 			{
-				Clear();
+				// _move could be owned by a value of this group, it must be taken before destroying values
+				Group<KT, VT> old(std::move(*this));
 				keys = std::move(_move.keys);
 				values = std::move(_move.values);
 				return*this;
diff --git a/Source/Collections/List.h b/Source/Collections/List.h
index ffc2f98..3b8fabf 100644
--- a/Source/Collections/List.h
+++ b/Source/Collections/List.h
@@ -357,15 +357,18 @@ Array
 			Array<T>& operator=(const Array<T>&) = delete;
 			Array<T>& operator=(Array<T>&& _move)
 			{
-				if (this->buffer)
-				{
-					memory_management::CallDtors(this->buffer, this->count);
-					memory_management::DeallocateBuffer(this->buffer);
-				}
+				// _move could be owned by an element of this array, it must be taken before destroying elements
+				T* oldBuffer = this->buffer;
+				vint oldCount = this->count;
 				this->buffer = _move.buffer;
 				this->count = _move.count;
 				_move.buffer = nullptr;
 				_move.count = 0;
+				if (oldBuffer)
+				{
+					memory_management::CallDtors(oldBuffer, oldCount);
+					memory_management::DeallocateBuffer(oldBuffer);
+				}
 				return *this;
 			}
 
@@ -487,17 +490,20 @@ ListBase
 			ListBase<T>& operator=(const ListBase<T>&) = delete;
 			ListBase<T>& operator=(ListBase<T>&& _move)
 			{
-				if (this->buffer)
-				{
-					memory_management::CallDtors(this->buffer, this->count);
-					memory_management::DeallocateBuffer(this->buffer);
-				}
+				// _move could be owned by an element of this list, it must be taken before destroying elements
+				T* oldBuffer = this->buffer;
+				vint oldCount = this->count;
 				this->buffer = _move.buffer;
 				this->count = _move.count;
 				this->capacity = _move.capacity;
 				_move.buffer = nullptr;
 				_move.count = 0;
 				_move.capacity = 0;
+				if (oldBuffer)
+				{
+					memory_management::CallDtors(oldBuffer, oldCount);
+					memory_management::DeallocateBuffer(oldBuffer);
+				}
 				return *this;
 			}
 
-- 
2.43.0


From b14bfdb8c142b9401b5788d49178db90c5e69004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:22:30 +0000
Subject: [PATCH 32/33] fix: assigning a Nullable owned by the object it
 replaces must not access it after that object is released

---
 Source/Primitives/Nullable.h | 20 ++++++--------------
 1 file changed, 6 insertions(+), 14 deletions(-)

diff --git a/Source/Primitives/Nullable.h b/Source/Primitives/Nullable.h
index f760cd4..912f345 100644
--- a/Source/Primitives/Nullable.h
+++ b/Source/Primitives/Nullable.h
@@ -153,8 +153,10 @@ namespace vl
 					}
 				}
 
+				// nullable could be owned by the object in this nullable
+				T copied(nullable.object);
 				Reset();
-				new (&object)T(nullable.object);
+				new (&object)T(std::move(copied));
 				initialized = true;
 			}
 			return *this;
@@ -171,20 +173,10 @@ namespace vl
 			}
 			else if (this != &nullable)
 			{
-				if constexpr (std::is_move_assignable_v<T>)
-				{
-					if (initialized)
-					{
-						object = std::move(nullable.object);
-						nullable.Reset();
-						return *this;
-					}
-				}
-
-				Reset();
-				new (&object)T(std::move(nullable.object));
+				// nullable could be owned by the object in this nullable, it must be reset before releasing that object
+				T moved(std::move(nullable.object));
 				nullable.Reset();
-				initialized = true;
+				*this = std::move(moved);
 			}
 			return *this;
 		}
-- 
2.43.0


From d82461fa1cfd9234d14617767f98763406510a02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:22:30 +0000
Subject: [PATCH 33/33] fix: move assignment of LazyList must take the source
 before releasing the enumerator that could own it

---
 Source/Collections/Operation.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/Source/Collections/Operation.h b/Source/Collections/Operation.h
index 83e990b..f43c7f7 100644
--- a/Source/Collections/Operation.h
+++ b/Source/Collections/Operation.h
@@ -301,8 +301,9 @@ LazyList
 
 			LazyList<T>& operator=(LazyList<T>&& lazyList)
 			{
-				enumeratorPrototype = lazyList.enumeratorPrototype;
-				lazyList.enumeratorPrototype = nullptr;
+				// lazyList could be owned by the enumerator to release, it must be taken before that
+				auto moved = std::move(lazyList.enumeratorPrototype);
+				enumeratorPrototype = std::move(moved);
 				return *this;
 			}
 
-- 
2.43.0

