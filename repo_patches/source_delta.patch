From 9bfd2e5913dde0617424588d70c55abcba726e1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:12 +0000
Subject: [PATCH 001/184] fix: Vector::resize must set the requested size and
 construct exactly the new elements

---
 lib/include/spvgentwo/Vector.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/include/spvgentwo/Vector.h b/lib/include/spvgentwo/Vector.h
index d09c989..036c593 100644
--- a/lib/include/spvgentwo/Vector.h
+++ b/lib/include/spvgentwo/Vector.h
@@ -263,7 +263,7 @@ namespace spvgentwo
 	template<class U>
 	inline bool Vector<U>::resize(sgt_size_t _size, const T* _pInitValue)
 	{
-		if ( _size > m_capacity )
+		if ( _size > m_elements ) // grow
 		{
 			if ( reserve(_size) == false )
 			{
@@ -272,14 +272,14 @@ namespace spvgentwo
 
 			if ( _pInitValue == nullptr || stdrep::is_copy_constructible_v<T> == false )
 			{
-				for ( sgt_size_t i = m_elements; i < m_capacity; ++i )
+				for ( sgt_size_t i = m_elements; i < _size; ++i )
 				{
 					new(m_pData + i) T{};
 				}
 			}
 			else if constexpr ( stdrep::is_copy_constructible_v<T> )
 			{
-				for ( sgt_size_t i = m_elements; i < m_capacity; ++i )
+				for ( sgt_size_t i = m_elements; i < _size; ++i )
 				{
 					new(m_pData + i) T{ *_pInitValue };
 				}
@@ -294,7 +294,7 @@ namespace spvgentwo
 			}
 		}
 
-		m_elements = m_capacity;
+		m_elements = _size;
 
 		return true;
 	}
-- 
2.43.0


From e389435055b66d7b3f72cad08019bbca8362831d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:12 +0000
Subject: [PATCH 002/184] fix: Vector::insert without reallocation must shift
 the tail and not read past the inserted data

---
 lib/include/spvgentwo/Vector.h | 33 +++++++++++++++++++++------------
 1 file changed, 21 insertions(+), 12 deletions(-)

diff --git a/lib/include/spvgentwo/Vector.h b/lib/include/spvgentwo/Vector.h
index 036c593..724b3bf 100644
--- a/lib/include/spvgentwo/Vector.h
+++ b/lib/include/spvgentwo/Vector.h
@@ -342,21 +342,30 @@ namespace spvgentwo
 		// no reallocation needed
 		if ( m_elements + _count <= m_capacity )
 		{
-			auto remainder = m_elements - _pos;
-
-			// move-construct last remainder elements to reserved but un-initialized data at the end
-			for ( sgt_size_t i = 0u; i < remainder; ++i )
-			{
-				traits::constructWithArgs(m_pData + _pos + _count + i, stdrep::move(m_pData[_pos + i]));
-			}
-			for ( sgt_size_t i = 0u; i < remainder; ++i )
+			// shift the elements behind _pos back to front, construct those that land in un-initialized memory at the end
+			for ( sgt_size_t i = m_elements; i > _pos; --i )
 			{
-				m_pData[_pos + i] = _pData[i];
+				const sgt_size_t target = i - 1u + _count;
+				if ( target < m_elements )
+				{
+					m_pData[target] = stdrep::move(m_pData[i - 1u]);
+				}
+				else
+				{
+					traits::constructWithArgs(m_pData + target, stdrep::move(m_pData[i - 1u]));
+				}
 			}
-			auto rest = _count - remainder;
-			for ( sgt_size_t i = 0u; i < rest; ++i )
+			// copy inserted data
+			for ( sgt_size_t i = 0u; i < _count; ++i )
 			{
-				traits::constructWithArgs(m_pData + m_elements + i, stdrep::move(_pData[remainder + i]));
+				if ( _pos + i < m_elements )
+				{
+					m_pData[_pos + i] = _pData[i];
+				}
+				else
+				{
+					traits::constructWithArgs(m_pData + _pos + i, _pData[i]);
+				}
 			}
 
 			m_elements += _count;
-- 
2.43.0


From 3e63e67c42f65c64dbf8ceb8af7f9a64bd7271f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:12 +0000
Subject: [PATCH 003/184] fix: Vector::insert must destruct the old elements
 when it reallocates

---
 lib/include/spvgentwo/Vector.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/include/spvgentwo/Vector.h b/lib/include/spvgentwo/Vector.h
index 724b3bf..3235723 100644
--- a/lib/include/spvgentwo/Vector.h
+++ b/lib/include/spvgentwo/Vector.h
@@ -401,6 +401,11 @@ namespace spvgentwo
 
 			if ( m_pData != nullptr )
 			{
+				// destruct moved-from elements before their memory is returned
+				for ( sgt_size_t i = 0u; i < m_elements; ++i )
+				{
+					m_pData[i].~T();
+				}
 				m_pAllocator->deallocate(m_pData, m_capacity * sizeof(T));
 			}
 
-- 
2.43.0


From 3843299b4a87a08d2d6e962a588d7870ae73be7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:12 +0000
Subject: [PATCH 004/184] fix: Vector::insert without allocator must fail
 instead of dereferencing null

---
 lib/include/spvgentwo/Vector.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/include/spvgentwo/Vector.h b/lib/include/spvgentwo/Vector.h
index 3235723..c75e861 100644
--- a/lib/include/spvgentwo/Vector.h
+++ b/lib/include/spvgentwo/Vector.h
@@ -370,6 +370,10 @@ namespace spvgentwo
 
 			m_elements += _count;
 		}
+		else if ( m_pAllocator == nullptr )
+		{
+			return nullptr;
+		}
 		else
 		{
 			const auto newSize = m_elements + _count;
-- 
2.43.0


From 4adf1645b7dadbf9b1b7e9df680dafa35ff5e0ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:12 +0000
Subject: [PATCH 005/184] fix: Vector::assign must clamp its range to the live
 elements

---
 lib/include/spvgentwo/Vector.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lib/include/spvgentwo/Vector.h b/lib/include/spvgentwo/Vector.h
index c75e861..6dfba31 100644
--- a/lib/include/spvgentwo/Vector.h
+++ b/lib/include/spvgentwo/Vector.h
@@ -314,7 +314,12 @@ namespace spvgentwo
 	template<class U>
 	inline void Vector<U>::assign(const T& _data, sgt_size_t _pos, sgt_size_t _count)
 	{
-		if ( _pos + _count > m_elements )
+		if ( _pos > m_elements )
+		{
+			return;
+		}
+
+		if ( _count > m_elements - _pos )
 		{
 			_count = m_elements - _pos;
 		}
-- 
2.43.0


From 8966bc7d281caa7cfe602cd1cb1ec0fd9e7a92b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:14 +0000
Subject: [PATCH 006/184] fix: array constructors of Vector and HeapVector must
 not be shadowed by the pointer constructor

---
 common/include/common/HeapVector.h | 2 +-
 lib/include/spvgentwo/Vector.h     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/common/include/common/HeapVector.h b/common/include/common/HeapVector.h
index 9cb8a44..cdd922f 100644
--- a/common/include/common/HeapVector.h
+++ b/common/include/common/HeapVector.h
@@ -20,7 +20,7 @@ namespace spvgentwo
 		HeapVector(sgt_size_t _size = 0u) : Vector<U>(HeapAllocator::instance(), _size) {}
 
 		// copy from array
-		HeapVector(const T* _pData, sgt_size_t _size = 0u) : Vector<U>(HeapAllocator::instance(), _pData, _size) {}
+		HeapVector(const T* _pData, sgt_size_t _size) : Vector<U>(HeapAllocator::instance(), _pData, _size) {}
 
 		template <sgt_size_t Size>
 		HeapVector(const T(&_array)[Size]) : Vector<U>(HeapAllocator::instance(), _array) {}
diff --git a/lib/include/spvgentwo/Vector.h b/lib/include/spvgentwo/Vector.h
index 6dfba31..25f9506 100644
--- a/lib/include/spvgentwo/Vector.h
+++ b/lib/include/spvgentwo/Vector.h
@@ -19,7 +19,7 @@ namespace spvgentwo
 		Vector(IAllocator* _pAllocator, sgt_size_t _size);
 
 		// copy from array
-		Vector(IAllocator* _pAllocator, const T* _pData, sgt_size_t _size = 0u);
+		Vector(IAllocator* _pAllocator, const T* _pData, sgt_size_t _size);
 
 		template <sgt_size_t Size>
 		Vector(IAllocator* _pAllocator, const T(&_array)[Size]);
-- 
2.43.0


From 23375d0bc2f369806356ea97d1cdae1bf4c110b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:51 +0000
Subject: [PATCH 007/184] fix: Entry::insertBefore must link the following
 entry back to the new one

---
 lib/include/spvgentwo/Entry.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/include/spvgentwo/Entry.h b/lib/include/spvgentwo/Entry.h
index eed12eb..6d8f75f 100644
--- a/lib/include/spvgentwo/Entry.h
+++ b/lib/include/spvgentwo/Entry.h
@@ -167,7 +167,8 @@ namespace spvgentwo
 
 		entry->m_pPrev = m_pPrev;
 		entry->m_pNext = this;
-		
+		m_pPrev = entry;
+
 		return entry;
 	}
 
-- 
2.43.0


From e64cd0171a35ec6779778820ba3c793602eb808e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:51 +0000
Subject: [PATCH 008/184] fix: List copy assignment must drop the surplus tail
 of the target

---
 lib/include/spvgentwo/List.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/include/spvgentwo/List.h b/lib/include/spvgentwo/List.h
index a8339bf..a6f82ed 100644
--- a/lib/include/spvgentwo/List.h
+++ b/lib/include/spvgentwo/List.h
@@ -182,9 +182,9 @@ namespace spvgentwo
 		}
 
 		// left side was longer, destroy rest
-		if(l != le)
+		while (l != le)
 		{
-			l.entry()->destroyList(m_pAllocator);
+			l = Iterator(erase(l));
 		}
 
 		// right side was longer, emplace
-- 
2.43.0


From b5d2e7314488a5a0f7d84107c724a7e59ad23ca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:51 +0000
Subject: [PATCH 009/184] fix: List copy assignment must work on a list without
 allocator

---
 lib/include/spvgentwo/List.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/include/spvgentwo/List.h b/lib/include/spvgentwo/List.h
index a6f82ed..74d5ef6 100644
--- a/lib/include/spvgentwo/List.h
+++ b/lib/include/spvgentwo/List.h
@@ -175,6 +175,8 @@ namespace spvgentwo
 	{
 		if (this == &_other) return *this;
 
+		setAllocator(_other.m_pAllocator);
+
 		Iterator l = begin(), le = end(), r = _other.begin(), re = _other.end();
 		for (; l != le && r != re; ++l, ++r)
 		{
-- 
2.43.0


From 063efc6edcb9956ff9ece98cd685eac709c875aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:51 +0000
Subject: [PATCH 010/184] fix: List::insert_before the end must append, failed
 inserts must not change the size

---
 lib/include/spvgentwo/List.h | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/lib/include/spvgentwo/List.h b/lib/include/spvgentwo/List.h
index 74d5ef6..09f73ac 100644
--- a/lib/include/spvgentwo/List.h
+++ b/lib/include/spvgentwo/List.h
@@ -301,8 +301,18 @@ namespace spvgentwo
 	template<class ...Args>
 	inline Entry<T>* List<T>::insert_before(Iterator _pos, Args&& ..._args)
 	{
-		++m_Elements;
+		if (_pos == end())
+		{
+			return emplace_back_entry(stdrep::forward<Args>(_args)...);
+		}
+
 		Entry<T>* entry = _pos.entry()->insertBefore(m_pAllocator, stdrep::forward<Args>(_args)...);
+		if (entry == nullptr)
+		{
+			return nullptr;
+		}
+
+		++m_Elements;
 		if (_pos.entry() == m_pBegin)
 		{
 			m_pBegin = entry;
@@ -314,8 +324,13 @@ namespace spvgentwo
 	template<class ...Args>
 	inline Entry<T>* List<T>::insert_after(Iterator _pos, Args&& ..._args)
 	{
-		++m_Elements;
 		Entry<T>* entry = _pos.entry()->insertAfter(m_pAllocator, stdrep::forward<Args>(_args)...);
+		if (entry == nullptr)
+		{
+			return nullptr;
+		}
+
+		++m_Elements;
 		if (_pos.entry() == m_pLast)
 		{
 			m_pLast = entry;
-- 
2.43.0


From e863e23e0d4b087329576ae6643266704979fd36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:51 +0000
Subject: [PATCH 011/184] fix: List must ignore entries whose allocation was
 refused

---
 lib/include/spvgentwo/List.h | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/lib/include/spvgentwo/List.h b/lib/include/spvgentwo/List.h
index 09f73ac..f33d6d5 100644
--- a/lib/include/spvgentwo/List.h
+++ b/lib/include/spvgentwo/List.h
@@ -240,6 +240,11 @@ namespace spvgentwo
 	template<class T>
 	inline Entry<T>* List<T>::prepend_entry(Entry<T>* _entry)
 	{
+		if (_entry == nullptr)
+		{
+			return nullptr;
+		}
+
 		if (m_pBegin == nullptr)
 		{
 			m_pBegin = _entry;
@@ -256,6 +261,11 @@ namespace spvgentwo
 	template<class T>
 	inline Entry<T>* List<T>::append_entry(Entry<T>* _entry)
 	{
+		if (_entry == nullptr)
+		{
+			return nullptr;
+		}
+
 		if (m_pBegin == nullptr)
 		{
 			m_pBegin = _entry;
-- 
2.43.0


From 65bb0635c4fe1eaf0f8bdde1c6da6ca57643100f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:51 +0000
Subject: [PATCH 012/184] fix: Entry removed without destruction must not keep
 links into the list

---
 lib/include/spvgentwo/Entry.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/include/spvgentwo/Entry.h b/lib/include/spvgentwo/Entry.h
index 6d8f75f..4decd66 100644
--- a/lib/include/spvgentwo/Entry.h
+++ b/lib/include/spvgentwo/Entry.h
@@ -215,6 +215,11 @@ namespace spvgentwo
 		{
 			_pAlloc->destruct(this);
 		}
+		else
+		{
+			m_pPrev = nullptr;
+			m_pNext = nullptr;
+		}
 
 		return next;
 	}
-- 
2.43.0


From e0a64f1e7e7052c6ddc87c7869f26423e35ed865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:51 +0000
Subject: [PATCH 013/184] fix: Vector copy assignment must work on a vector
 without allocator

---
 lib/include/spvgentwo/Vector.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/include/spvgentwo/Vector.h b/lib/include/spvgentwo/Vector.h
index 25f9506..0a19e4a 100644
--- a/lib/include/spvgentwo/Vector.h
+++ b/lib/include/spvgentwo/Vector.h
@@ -192,6 +192,11 @@ namespace spvgentwo
 	{
 		if ( this == &_other ) return *this;
 
+		if ( m_pAllocator == nullptr )
+		{
+			m_pAllocator = _other.m_pAllocator;
+		}
+
 		if ( resize(_other.m_elements) )
 		{
 			for ( sgt_size_t i = 0u; i < _other.m_elements; ++i )
-- 
2.43.0


From 3725d65bcb5001893d5634cef404bebc3661b2e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:33 +0000
Subject: [PATCH 014/184] fix: HashMap::findKey must compile and search the
 nodes of every bucket

---
 lib/include/spvgentwo/HashMap.h | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/lib/include/spvgentwo/HashMap.h b/lib/include/spvgentwo/HashMap.h
index d29619f..6997438 100644
--- a/lib/include/spvgentwo/HashMap.h
+++ b/lib/include/spvgentwo/HashMap.h
@@ -323,14 +323,11 @@ namespace spvgentwo
 	{
 		for (auto i = 0u; i < m_Buckets; ++i)
 		{
-			for (Bucket& b : m_pBuckets[i])
+			for (Node& n : m_pBuckets[i])
 			{
-				for (Node& n : b)
+				if (n.kv.value == _value)
 				{
-					if (n.kv.value == _value)
-					{
-						return &n.kv.key;
-					}
+					return &n.kv.key;
 				}
 			}
 		}
-- 
2.43.0


From 35d644788df2c608c5334fe9c70d81573a9aeb7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:53 +0000
Subject: [PATCH 015/184] fix: HashMap::eraseRange must update the element
 count

---
 lib/include/spvgentwo/HashMap.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/include/spvgentwo/HashMap.h b/lib/include/spvgentwo/HashMap.h
index 6997438..5f22763 100644
--- a/lib/include/spvgentwo/HashMap.h
+++ b/lib/include/spvgentwo/HashMap.h
@@ -269,6 +269,8 @@ namespace spvgentwo
 			}
 		}
 
+		m_Elements -= keys;
+
 		return keys;
 	}
 
-- 
2.43.0


From 07c5920be8cda16711264e44187521fb08ec88d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:53 +0000
Subject: [PATCH 016/184] fix: HashMap::emplace must keep entries of equal keys
 adjacent so that getRange yields only them

---
 lib/include/spvgentwo/HashMap.h | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/lib/include/spvgentwo/HashMap.h b/lib/include/spvgentwo/HashMap.h
index 5f22763..bcd99db 100644
--- a/lib/include/spvgentwo/HashMap.h
+++ b/lib/include/spvgentwo/HashMap.h
@@ -349,23 +349,32 @@ namespace spvgentwo
 	template<class ...Args>
 	inline typename HashMap<Key, Value>::Node& HashMap<Key, Value>::emplace(const Key& _key, Args&& ..._args)
 	{
-		Entry<Node>* pNode = Entry<Node>::create(m_pAllocator, _key, stdrep::forward<Args>(_args)...);
-
-		Node& n = pNode->inner();
+		Hash64 h = 0u;
 
 		if constexpr (stdrep::is_same_v<Key, Hash64>)
 		{
-			n.hash = _key;
+			h = _key;
 		}
 		else
 		{
-			n.hash = m_pHashFunc(_key);
+			h = m_pHashFunc(_key);
 		}
 
-		const auto index = n.hash % m_Buckets;
+		Bucket& bucket = m_pBuckets[h % m_Buckets];
 
-		// append to chain
-		m_pBuckets[index].append_entry(pNode);
+		// insert behind the last entry with the same hash
+		auto pos = bucket.last();
+		while (pos != nullptr && pos->hash != h)
+		{
+			--pos;
+		}
+
+		Entry<Node>* pNode = pos != nullptr ?
+			bucket.insert_after(pos, _key, stdrep::forward<Args>(_args)...) :
+			bucket.emplace_back_entry(_key, stdrep::forward<Args>(_args)...);
+
+		Node& n = pNode->inner();
+		n.hash = h;
 
 		++m_Elements;
 
-- 
2.43.0


From a40dbd5c5f314fb36a6bf69d59846688f3d42704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:53 +0000
Subject: [PATCH 017/184] fix: HashMap without buckets (default constructed or
 moved-from) must behave as an empty map

---
 lib/include/spvgentwo/HashMap.h | 29 ++++++++++++++++++++++++++---
 1 file changed, 26 insertions(+), 3 deletions(-)

diff --git a/lib/include/spvgentwo/HashMap.h b/lib/include/spvgentwo/HashMap.h
index bcd99db..7e3637a 100644
--- a/lib/include/spvgentwo/HashMap.h
+++ b/lib/include/spvgentwo/HashMap.h
@@ -93,7 +93,7 @@ namespace spvgentwo
 		Bucket* m_pBuckets = nullptr;
 		unsigned int m_Buckets = 0u;
 		unsigned int m_Elements = 0u;
-		HashFunc m_pHashFunc = nullptr;
+		HashFunc m_pHashFunc = hash<Key>;
 	};
 
 	template<class Key, class Value>
@@ -122,7 +122,6 @@ namespace spvgentwo
 		_other.m_pBuckets = nullptr;
 		_other.m_Buckets = 0u;
 		_other.m_Elements = 0u;
-		_other.m_pHashFunc = nullptr;
 	}
 
 	template<class Key, class Value>
@@ -179,7 +178,6 @@ namespace spvgentwo
 		_other.m_pAllocator = nullptr;
 		_other.m_pBuckets = nullptr;
 		_other.m_Elements = 0u;
-		_other.m_pHashFunc = nullptr;
 
 		return *this;
 	}
@@ -187,6 +185,11 @@ namespace spvgentwo
 	template<class Key, class Value>
 	inline Value* HashMap<Key, Value>::get(const Hash64 _hash) const
 	{
+		if (m_Buckets == 0u)
+		{
+			return nullptr;
+		}
+
 		const auto index = _hash % m_Buckets;
 
 		for (Node& n : m_pBuckets[index])
@@ -201,6 +204,11 @@ namespace spvgentwo
 	template<class Key, class Value>
 	inline typename HashMap<Key, Value>::TRange HashMap<Key, Value>::getRange(const Hash64 _hash) const
 	{
+		if (m_Buckets == 0u)
+		{
+			return {};
+		}
+
 		const auto index = _hash % m_Buckets;
 		const Bucket& bucket = m_pBuckets[index];
 
@@ -240,6 +248,11 @@ namespace spvgentwo
 	template<class Key, class Value>
 	inline unsigned int HashMap<Key, Value>::eraseRange(const Key& _key)
 	{
+		if (m_Buckets == 0u)
+		{
+			return 0u;
+		}
+
 		Hash64 h = 0u;
 
 		if constexpr (stdrep::is_same_v<Key, Hash64>)
@@ -277,6 +290,11 @@ namespace spvgentwo
 	template<class Key, class Value>
 	inline unsigned int HashMap<Key, Value>::count(const Hash64 _hash) const
 	{
+		if (m_Buckets == 0u)
+		{
+			return 0u;
+		}
+
 		unsigned int keys = 0u;
 		const auto index = _hash % m_Buckets;
 
@@ -294,6 +312,11 @@ namespace spvgentwo
 	template<class Key, class Value>
 	inline typename HashMap<Key, Value>::Iterator HashMap<Key, Value>::find(const Key& _key) const
 	{
+		if (m_Buckets == 0u)
+		{
+			return end();
+		}
+
 		Hash64 h = 0u;
 
 		if constexpr (stdrep::is_same_v<Key, Hash64>)
-- 
2.43.0


From c42e4a9868b7e3685d91fe830bed30b3acbfbe3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:44 +0000
Subject: [PATCH 018/184] fix: uintToString must not write into an empty buffer

---
 lib/include/spvgentwo/String.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/include/spvgentwo/String.h b/lib/include/spvgentwo/String.h
index 6578866..95ae1e2 100644
--- a/lib/include/spvgentwo/String.h
+++ b/lib/include/spvgentwo/String.h
@@ -27,6 +27,11 @@ namespace spvgentwo
 		len = _value == 0u ? 1u : len;
 		len = _bufferLength < len ? _bufferLength : len;
 
+		if (len == 0u)
+		{
+			return;
+		}
+
 		do
 		{
 			_outBuffer[--len] = alpha[_value % _base];
-- 
2.43.0


From 11c8eaac3604546927bbbe56057fe657db3575b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:44 +0000
Subject: [PATCH 019/184] fix: String must stay null-terminated when built,
 appended or cut with an explicit length

---
 lib/include/spvgentwo/String.h |  6 +++++-
 lib/source/String.cpp          | 16 +++++++++++++++-
 2 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/lib/include/spvgentwo/String.h b/lib/include/spvgentwo/String.h
index 95ae1e2..86b4f62 100644
--- a/lib/include/spvgentwo/String.h
+++ b/lib/include/spvgentwo/String.h
@@ -50,7 +50,7 @@ namespace spvgentwo
 
 		constexpr String(String&& _other) noexcept : Vector(stdrep::move(_other)) {}
 
-		String(IAllocator* _pAllocator, const char* _pStr = nullptr, sgt_size_t _length = 0u) : Vector(_pAllocator, _pStr, _length == 0u ? stringLength(_pStr) : _length) {};
+		String(IAllocator* _pAllocator, const char* _pStr = nullptr, sgt_size_t _length = 0u) : Vector(_pAllocator, _pStr, _length == 0u ? stringLength(_pStr) : _length) { terminate(); };
 
 		String& operator=(const String& _other) { Vector::operator=(_other); return *this; }
 		String& operator=(String&& _other) noexcept { Vector::operator=(stdrep::move(_other)); return *this; }
@@ -94,6 +94,10 @@ namespace spvgentwo
 		// emplace one element per argument
 		template <class ...Args>
 		void emplace_back_args(const T& _first, Args&& ..._tail);
+
+	private:
+		// append string terminator if necessary
+		void terminate();
 	};
 
 	template<>
diff --git a/lib/source/String.cpp b/lib/source/String.cpp
index 0452f5b..31f9bf9 100644
--- a/lib/source/String.cpp
+++ b/lib/source/String.cpp
@@ -19,10 +19,23 @@ spvgentwo::String& spvgentwo::String::operator=(const char* _pStr)
 
 spvgentwo::String spvgentwo::String::substr(sgt_size_t _offset, sgt_size_t _length)
 {
-	const sgt_size_t available = m_elements - _offset;
+	if (_offset >= size() || _length == 0u)
+	{
+		return String(m_pAllocator, "");
+	}
+
+	const sgt_size_t available = size() - _offset;
 	return String(m_pAllocator, m_pData+_offset, _length > available ? available : _length);
 }
 
+void spvgentwo::String::terminate()
+{
+	if (m_elements != 0u && m_pData[m_elements - 1u] != '\0')
+	{
+		Vector::emplace_back('\0');
+	}
+}
+
 spvgentwo::String spvgentwo::String::operator+(const String& _other) const
 {
 	String both(m_pAllocator, m_elements + _other.m_elements);
@@ -70,6 +83,7 @@ spvgentwo::String& spvgentwo::String::append(const char* _pStr, sgt_size_t _leng
 			m_pData[offset + i] = _pStr[i];
 		}
 		m_elements = offset + length;
+		terminate();
 	}
 	return *this;
 }
-- 
2.43.0


From 9075b33236366eec8dc9147546ef8d0d3ff0c4e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:44 +0000
Subject: [PATCH 020/184] fix: String concatenation must not cut the left side
 when the right side is empty or the string itself

---
 lib/source/String.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/lib/source/String.cpp b/lib/source/String.cpp
index 31f9bf9..26ecab6 100644
--- a/lib/source/String.cpp
+++ b/lib/source/String.cpp
@@ -54,14 +54,16 @@ spvgentwo::String spvgentwo::String::operator+(const char* _pStr) const
 
 spvgentwo::String& spvgentwo::String::operator+=(const String& _other)
 {
-	if (reserve(m_elements + _other.m_elements))
+	const sgt_size_t length = _other.size();
+	if (length != 0u && reserve(m_elements + length + 1u))
 	{
-		const sgt_size_t offset = m_elements > 0 && m_pData[m_elements - 1u] == '\0' ? m_elements - 1u : m_elements;
-		for (sgt_size_t i = 0; i < _other.m_elements; ++i)
+		const sgt_size_t offset = size();
+		for (sgt_size_t i = 0; i < length; ++i)
 		{
 			m_pData[offset + i] = _other[i];
 		}
-		m_elements = offset + _other.m_elements;
+		m_elements = offset + length;
+		Vector::emplace_back('\0');
 	}
 	return *this;
 }
@@ -74,7 +76,7 @@ spvgentwo::String& spvgentwo::String::operator+=(const char* _pStr)
 spvgentwo::String& spvgentwo::String::append(const char* _pStr, sgt_size_t _length)
 {
 	const sgt_size_t length = _length == 0u ? stringLength(_pStr) : _length;
-	if (reserve(m_elements + length))
+	if (length != 0u && reserve(m_elements + length))
 	{
 		// we only want one string terminator, overwrite the old one an append
 		const sgt_size_t offset = m_elements > 0 && m_pData[m_elements - 1u] == '\0' ? m_elements - 1u : m_elements;
-- 
2.43.0


From ab7cc4346af3d12ba19986451fe381f61bae8be0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:44 +0000
Subject: [PATCH 021/184] fix: String comparison must treat unset and empty
 strings as equal and not fall back to pointer comparison

---
 lib/include/spvgentwo/String.h | 3 +++
 lib/source/String.cpp          | 8 ++++----
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/lib/include/spvgentwo/String.h b/lib/include/spvgentwo/String.h
index 86b4f62..8268d26 100644
--- a/lib/include/spvgentwo/String.h
+++ b/lib/include/spvgentwo/String.h
@@ -62,6 +62,7 @@ namespace spvgentwo
 
 		// exclude string terminator
 		constexpr sgt_size_t size() const { return m_elements == 0u ? 0u : m_elements - 1u; }
+		constexpr bool empty() const { return size() == 0u; }
 		constexpr auto end() const { return begin() + size(); }
 
 		constexpr T& back() { return m_pData[m_elements - 2u]; }
@@ -87,6 +88,8 @@ namespace spvgentwo
 
 		bool operator==(const String& _other) const;
 		bool operator==(const char* _pStr) const;
+		bool operator!=(const String& _other) const { return !operator==(_other); }
+		bool operator!=(const char* _pStr) const { return !operator==(_pStr); }
 
 		template <class Arg>
 		T* emplace_back(Arg&& _arg);
diff --git a/lib/source/String.cpp b/lib/source/String.cpp
index 26ecab6..9c4ac36 100644
--- a/lib/source/String.cpp
+++ b/lib/source/String.cpp
@@ -92,9 +92,9 @@ spvgentwo::String& spvgentwo::String::append(const char* _pStr, sgt_size_t _leng
 
 bool spvgentwo::String::operator==(const String& _other) const
 {
-	if (m_elements == _other.m_elements)
+	if (size() == _other.size())
 	{
-		for (sgt_size_t i = 0u; i < m_elements; ++i)
+		for (sgt_size_t i = 0u; i < size(); ++i)
 		{
 			if (m_pData[i] != _other.m_pData[i])
 				return false;
@@ -107,9 +107,9 @@ bool spvgentwo::String::operator==(const String& _other) const
 bool spvgentwo::String::operator==(const char* _pStr) const
 {
 	const sgt_size_t length = stringLength(_pStr);
-	if (m_elements == length)
+	if (size() == (length == 0u ? 0u : length - 1u))
 	{
-		for (sgt_size_t i = 0; i < m_elements; ++i)
+		for (sgt_size_t i = 0; i < size(); ++i)
 		{
 			if (m_pData[i] != _pStr[i])
 				return false;
-- 
2.43.0


From 8008e40145a4ddb8ed28d188a43035f6e01cc6fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:44 +0000
Subject: [PATCH 022/184] fix: String::insert must keep the terminator at the
 end and fail behind the end

---
 lib/include/spvgentwo/String.h |  4 ++--
 lib/source/String.cpp          | 15 +++++++++++----
 2 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/lib/include/spvgentwo/String.h b/lib/include/spvgentwo/String.h
index 8268d26..2973787 100644
--- a/lib/include/spvgentwo/String.h
+++ b/lib/include/spvgentwo/String.h
@@ -79,12 +79,12 @@ namespace spvgentwo
 		String& append(const char* _pStr, sgt_size_t _length = 0u);
 
 		template <sgt_size_t N>
-		Iterator insert(sgt_size_t _pos, const char(&_array)[N]) { return Vector::insert(_pos, _array, N); }
+		Iterator insert(sgt_size_t _pos, const char(&_array)[N]) { return insert(_pos, static_cast<const char*>(_array), stringLength(_array) - 1u); }
 
 		// don't insert the additional string terminator from _pCStr
 		Iterator insert(sgt_size_t _pos, const char* _pCStr, sgt_size_t _length = 0u);
 
-		Iterator insert(sgt_size_t _pos, const String& _str) { return Vector::insert(_pos, _str.data(), _str.size()); }
+		Iterator insert(sgt_size_t _pos, const String& _str) { return insert(_pos, _str.empty() ? "" : _str.c_str(), _str.size()); }
 
 		bool operator==(const String& _other) const;
 		bool operator==(const char* _pStr) const;
diff --git a/lib/source/String.cpp b/lib/source/String.cpp
index 9c4ac36..9a9855e 100644
--- a/lib/source/String.cpp
+++ b/lib/source/String.cpp
@@ -121,12 +121,19 @@ bool spvgentwo::String::operator==(const char* _pStr) const
 
 spvgentwo::String::Iterator spvgentwo::String::insert(sgt_size_t _pos, const char* _pCStr, sgt_size_t _length)
 {
-	auto ret = Vector::insert(_pos, _pCStr, _length == 0u ? (stringLength(_pCStr) - 1u) : _length);
+	if (m_elements != 0u && _pos > size())
+	{
+		return nullptr;
+	}
 
-	if (m_elements != 0u && m_pData[m_elements - 1u] != '\0')
+	const sgt_size_t length = _length == 0u && _pCStr != nullptr ? (stringLength(_pCStr) - 1u) : _length;
+
+	if (reserve(m_elements + length + 1u) == false) // string terminator included
 	{
-		// append string terminator if necessar
-		Vector::insert(m_elements, '\0');
+		return nullptr;
 	}
+
+	auto ret = Vector::insert(_pos, _pCStr, length);
+	terminate();
 	return ret;
 }
\ No newline at end of file
-- 
2.43.0


From 804ffb6b56d79361513c65cbc717c3021c6a51ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:44 +0000
Subject: [PATCH 023/184] fix: String::clear must leave a terminated empty
 string

---
 lib/include/spvgentwo/String.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/include/spvgentwo/String.h b/lib/include/spvgentwo/String.h
index 2973787..37ec3ec 100644
--- a/lib/include/spvgentwo/String.h
+++ b/lib/include/spvgentwo/String.h
@@ -60,6 +60,8 @@ namespace spvgentwo
 		constexpr char* c_str() const { return data(); }
 		constexpr operator char* () const { return data(); }
 
+		void clear() { Vector::clear(); if (m_capacity != 0u) *m_pData = '\0'; }
+
 		// exclude string terminator
 		constexpr sgt_size_t size() const { return m_elements == 0u ? 0u : m_elements - 1u; }
 		constexpr bool empty() const { return size() == 0u; }
-- 
2.43.0


From 799c1e3934880c5ade79ec3e9faec604582c8c96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:53 +0000
Subject: [PATCH 024/184] fix: ExternalMemoryAllocator must stay usable after a
 refused request

---
 common/source/ExternalMemoryAllocator.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/common/source/ExternalMemoryAllocator.cpp b/common/source/ExternalMemoryAllocator.cpp
index 362e370..87914e8 100644
--- a/common/source/ExternalMemoryAllocator.cpp
+++ b/common/source/ExternalMemoryAllocator.cpp
@@ -4,7 +4,10 @@ void* spvgentwo::ExternalMemoryAllocator::allocate(sgt_size_t _bytes, unsigned i
 {
 	const auto capacity = static_cast<sgt_size_t>(static_cast<const char*>(m_pEnd) - static_cast<const char*>(m_pCurrent));
 	void* ptr = alignPowerOf2(_aligment, _bytes, m_pCurrent, capacity);
-	m_pCurrent = static_cast<char*>(ptr) + _bytes;
+	if (ptr != nullptr)
+	{
+		m_pCurrent = static_cast<char*>(ptr) + _bytes;
+	}
 	return ptr;
 }
 
-- 
2.43.0


From 849fc86c717ec607dca87e1a52c1c18834f29601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:28 +0000
Subject: [PATCH 025/184] fix: Callable assignment must handle self, empty and
 non-const sources and a missing allocator

---
 common/include/common/Callable.h | 35 +++++++++++++++++++++++++++++---
 1 file changed, 32 insertions(+), 3 deletions(-)

diff --git a/common/include/common/Callable.h b/common/include/common/Callable.h
index 6f8336d..1329e3c 100644
--- a/common/include/common/Callable.h
+++ b/common/include/common/Callable.h
@@ -132,6 +132,11 @@ namespace spvgentwo
 			m_pCallable(_pAllocator->construct<CallableImpl<Functor>>(f))
 		{}
 
+		template <typename Functor>
+		Callable(IAllocator* _pAllocator, Functor& f) :
+			Callable(_pAllocator, static_cast<const Functor&>(f))
+		{}
+
 		template <typename Functor>
 		Callable(IAllocator* _pAllocator, Functor&& f) :
 			m_pAllocator(_pAllocator),
@@ -172,28 +177,52 @@ namespace spvgentwo
 		Callable& operator=(const Functor& f)
 		{
 			reset();
-			m_pCallable = m_pAllocator->construct<CallableImpl<Functor>>(f);
+			if (m_pAllocator != nullptr)
+			{
+				m_pCallable = m_pAllocator->construct<CallableImpl<Functor>>(f);
+			}
 			return *this;
 		}
 
+		template <typename Functor>
+		Callable& operator=(Functor& f)
+		{
+			return *this = static_cast<const Functor&>(f);
+		}
+
 		template <typename Functor>
 		Callable& operator=(Functor&& f) noexcept
 		{
 			reset();
-			m_pCallable = m_pAllocator->construct<CallableImpl<Functor>>(stdrep::move(f));
+			if (m_pAllocator != nullptr)
+			{
+				m_pCallable = m_pAllocator->construct<CallableImpl<Functor>>(stdrep::move(f));
+			}
 			return *this;
 		}
 
+		Callable& operator=(Callable& _other)
+		{
+			return *this = static_cast<const Callable&>(_other);
+		}
+
 		Callable& operator=(const Callable& _other)
 		{
+			if (this == &_other) return *this;
+
 			reset();
 			m_pAllocator = _other.m_pAllocator;
-			m_pCallable = _other.m_pCallable->copy(m_pAllocator);
+			if (_other.m_pCallable != nullptr && m_pAllocator != nullptr)
+			{
+				m_pCallable = _other.m_pCallable->copy(m_pAllocator);
+			}
 			return *this;
 		}
 
 		Callable& operator=(Callable&& _other)
 		{
+			if (this == &_other) return *this;
+
 			reset();
 			m_pAllocator = _other.m_pAllocator;
 			m_pCallable = _other.m_pCallable;
-- 
2.43.0


From c40ce64586a34e21d36e1d804c0e9e741689fbda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:28 +0000
Subject: [PATCH 026/184] fix: HeapCallable must copy from non-const sources

---
 common/include/common/HeapCallable.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/common/include/common/HeapCallable.h b/common/include/common/HeapCallable.h
index 7bf9552..2eccff4 100644
--- a/common/include/common/HeapCallable.h
+++ b/common/include/common/HeapCallable.h
@@ -13,6 +13,7 @@ namespace spvgentwo
 	{
 	public:
 		HeapCallable(const HeapCallable& _other) noexcept : Callable<Func>(_other){}
+		HeapCallable(HeapCallable& _other) noexcept : HeapCallable(static_cast<const HeapCallable&>(_other)) {}
 		HeapCallable(HeapCallable&& _other) noexcept : Callable<Func>(stdrep::move(_other)) {}
 
 		template <typename ...Args>
@@ -20,6 +21,7 @@ namespace spvgentwo
 
 		virtual ~HeapCallable() override = default;
 
+		HeapCallable& operator=(HeapCallable& _other) { return *this = static_cast<const HeapCallable&>(_other); }
 		HeapCallable& operator=(const HeapCallable& _other) { Callable<Func>::operator=(_other); return *this; }
 		HeapCallable& operator=(HeapCallable&& _other) noexcept { Callable<Func>::operator=(stdrep::move(_other)); return *this; }
 
-- 
2.43.0


From e68142f75b3a24a398c6485070416dd7dd8ea2d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:28 +0000
Subject: [PATCH 027/184] fix: Callable must release its functor with the size
 it was allocated with

---
 common/include/common/Callable.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/common/include/common/Callable.h b/common/include/common/Callable.h
index 1329e3c..87f4fc9 100644
--- a/common/include/common/Callable.h
+++ b/common/include/common/Callable.h
@@ -88,6 +88,7 @@ namespace spvgentwo
 			virtual ~ICallable() = default;
 			virtual ReturnType invoke(Args...) = 0;
 			virtual ICallable* copy(IAllocator* _pAllocator) const = 0;
+			virtual void destroy(IAllocator* _pAllocator) = 0;
 		};
 
 		template <typename Functor>
@@ -109,6 +110,11 @@ namespace spvgentwo
 				return _pAllocator->construct<CallableImpl<Functor>>(m_func);
 			}
 
+			void destroy(IAllocator* _pAllocator) final
+			{
+				_pAllocator->destruct(this);
+			}
+
 		private:
 			Functor m_func;
 		};
@@ -242,7 +248,7 @@ namespace spvgentwo
 		{
 			if (m_pAllocator != nullptr && m_pCallable != nullptr)
 			{
-				m_pAllocator->destruct(m_pCallable);
+				m_pCallable->destroy(m_pAllocator);
 				m_pCallable = nullptr;
 			}
 		}
-- 
2.43.0


From 8619df950c6b436a96c2abfb7366502b14cc465a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:28 +0000
Subject: [PATCH 028/184] fix: make_callable must pass object and member
 function in the order of the constructor

---
 common/include/common/Callable.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/include/common/Callable.h b/common/include/common/Callable.h
index 87f4fc9..0fb63cf 100644
--- a/common/include/common/Callable.h
+++ b/common/include/common/Callable.h
@@ -311,7 +311,7 @@ namespace spvgentwo
 	template <typename Obj, typename ReturnType, typename... Args>
 	auto make_callable(spvgentwo::IAllocator* _pAllocator, Obj* _obj, ReturnType(Obj::*_func)(Args...))
 	{
-		return Callable<ReturnType(Args...)>(_pAllocator, _func, _obj);
+		return Callable<ReturnType(Args...)>(_pAllocator, _obj, _func);
 	}
 
 	// variadic member function
-- 
2.43.0


From e8714e3635ac08dcf2f4a7827d05746f6efb4982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:40 +0000
Subject: [PATCH 029/184] fix: HeapCallable assignment must copy or move the
 target instead of wrapping the source as a functor

---
 common/include/common/HeapCallable.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/common/include/common/HeapCallable.h b/common/include/common/HeapCallable.h
index 2eccff4..433c3db 100644
--- a/common/include/common/HeapCallable.h
+++ b/common/include/common/HeapCallable.h
@@ -22,8 +22,8 @@ namespace spvgentwo
 		virtual ~HeapCallable() override = default;
 
 		HeapCallable& operator=(HeapCallable& _other) { return *this = static_cast<const HeapCallable&>(_other); }
-		HeapCallable& operator=(const HeapCallable& _other) { Callable<Func>::operator=(_other); return *this; }
-		HeapCallable& operator=(HeapCallable&& _other) noexcept { Callable<Func>::operator=(stdrep::move(_other)); return *this; }
+		HeapCallable& operator=(const HeapCallable& _other) { Callable<Func>::operator=(static_cast<const Callable<Func>&>(_other)); return *this; }
+		HeapCallable& operator=(HeapCallable&& _other) noexcept { Callable<Func>::operator=(static_cast<Callable<Func>&&>(_other)); return *this; }
 
 		template <typename ...Args>
 		HeapCallable& operator=(Args&& ..._args) noexcept { Callable<Func>::operator=(stdrep::forward<Args>(_args)...); return *this; }
-- 
2.43.0


From daa0d39e2b593a0554a6520db4f84e863e33ee4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:59 +0000
Subject: [PATCH 030/184] fix: Graph::back must return the last node

---
 common/include/common/Graph.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/common/include/common/Graph.h b/common/include/common/Graph.h
index da320b0..af7653d 100644
--- a/common/include/common/Graph.h
+++ b/common/include/common/Graph.h
@@ -41,8 +41,8 @@ namespace spvgentwo
 		NodeType& front() { return m_nodes.front(); }
 		const NodeType& front() const { return m_nodes.front(); }
 
-		NodeType& back() { return m_nodes.front(); }
-		const NodeType& back() const { return m_nodes.front(); }
+		NodeType& back() { return m_nodes.back(); }
+		const NodeType& back() const { return m_nodes.back(); }
 
 	protected:
 
-- 
2.43.0


From 9f77f36ce94676dab014bc4e2a860f6b0b31be9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:59 +0000
Subject: [PATCH 031/184] fix: Graph move assignment must return the graph

---
 common/include/common/Graph.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/common/include/common/Graph.h b/common/include/common/Graph.h
index af7653d..af0f0fd 100644
--- a/common/include/common/Graph.h
+++ b/common/include/common/Graph.h
@@ -65,6 +65,7 @@ namespace spvgentwo
 	inline Graph<N, E>& Graph<N, E>::operator=(Graph<N, E>&& _other) noexcept
 	{
 		m_nodes = stdrep::move(_other.m_nodes);
+		return *this;
 	}
 
 	template<class N, class E>
-- 
2.43.0


From a1be1f8e2a1eeef2835fdbabc69b2db030915392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:59 +0000
Subject: [PATCH 032/184] fix: Node move assignment must compile

---
 common/include/common/Node.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/include/common/Node.h b/common/include/common/Node.h
index b9a64b3..4dd40ef 100644
--- a/common/include/common/Node.h
+++ b/common/include/common/Node.h
@@ -79,7 +79,7 @@ namespace spvgentwo
 	template<class N, class E>
 	inline Node<N, E>& Node<N, E>::operator=(Node<N, E>&& _other) noexcept
 	{
-		if (this == &_other) return this;
+		if (this == &_other) return *this;
 
 		m_data = stdrep::move(_other.m_data);
 		m_inputs = stdrep::move(_other.m_inputs);
-- 
2.43.0


From 94663fe0e4e6bc70ca803386a55ab0110853ed6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:59 +0000
Subject: [PATCH 033/184] fix: ExprGraph must compile for edge lists and
 explicit evaluation

---
 common/include/common/ExprGraph.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/common/include/common/ExprGraph.h b/common/include/common/ExprGraph.h
index 6d2ef79..d883923 100644
--- a/common/include/common/ExprGraph.h
+++ b/common/include/common/ExprGraph.h
@@ -56,7 +56,7 @@ namespace spvgentwo
 			}
 			else
 			{
-				expr(_pExitNode->inputs(), _pExitNode->output());			
+				expr(_pExitNode->inputs(), _pExitNode->outputs());
 			}
 		}
 	}
@@ -76,13 +76,13 @@ namespace spvgentwo
 
 			if constexpr (args == ExprArgs::FunctionPtrLists)
 			{
-				auto inputs = transform(node->inputs(), [](auto& edge) -> Func* {return &edge.pTarget->data().get(); });
-				auto outputs = transform(node->outputs(), [](auto& edge) -> Func* {return &edge.pTarget->data().get(); });
+				auto inputs = algo::transform(node->inputs(), [](auto& edge) -> Func* {return &edge.pTarget->data().get(); });
+				auto outputs = algo::transform(node->outputs(), [](auto& edge) -> Func* {return &edge.pTarget->data().get(); });
 				expr(inputs, outputs);
 			}
 			else
 			{
-				expr(node->inputs(), node->output());
+				expr(node->inputs(), node->outputs());
 			}
 		}
 
-- 
2.43.0


From 5747e44d6c775cdab674b0af34d80b7b8198c152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:26 +0000
Subject: [PATCH 034/184] fix: Node::connect must give both ends of an edge the
 same data

---
 common/include/common/Node.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/include/common/Node.h b/common/include/common/Node.h
index 4dd40ef..d685d46 100644
--- a/common/include/common/Node.h
+++ b/common/include/common/Node.h
@@ -123,7 +123,7 @@ namespace spvgentwo
 	template<class ...EdgeArgs>
 	inline void Node<N, E>::connect(Node* _pTarget, EdgeArgs&& ..._args)
 	{
-		m_outputs.emplace_back(_pTarget, stdrep::forward<EdgeArgs>(_args)...);
+		m_outputs.emplace_back(_pTarget, _args...); // copy, the arguments are still needed for the input edge
 		_pTarget->m_inputs.emplace_back(this, stdrep::forward<EdgeArgs>(_args)...);
 	}
 
-- 
2.43.0


From 8afc1dd20d64cf35e7cb82f753ea766a4670cda0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:34 +0000
Subject: [PATCH 035/184] fix: compareLiteralString must honour the given
 length of the text and not accept a prefix

---
 lib/source/Instruction.cpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/lib/source/Instruction.cpp b/lib/source/Instruction.cpp
index 5f888f3..d236cb8 100644
--- a/lib/source/Instruction.cpp
+++ b/lib/source/Instruction.cpp
@@ -2068,20 +2068,21 @@ spvgentwo::Instruction::Iterator spvgentwo::skipLiteralString(Instruction::Itera
 bool spvgentwo::compareLiteralString(const char* _pStr, Instruction::Iterator _begin, Instruction::Iterator _end, sgt_size_t _StrLength)
 {
 	sgt_size_t j = 0u;
-	for (auto it = _begin; it != _end && it->isLiteral() && j < _StrLength; ++it)
+	for (auto it = _begin; it != _end && it->isLiteral(); ++it)
 	{
 		const char* str = reinterpret_cast<const char*>(&it->literal.value);
 		for (unsigned int i = 0u; i < sizeof(unsigned int); ++i)
 		{
-			if (str[i] == '\0' && _pStr[j] == '\0')
+			const char c = j < _StrLength ? _pStr[j++] : '\0';
+			if (str[i] != c)
 			{
-				return true;
+				return false;
 			}
-			else if (str[i] != _pStr[j++])
+			else if (c == '\0')
 			{
-				return false;
+				return true;
 			}
 		}
 	};
-	return true;
+	return false; // literal is not terminated
 }
\ No newline at end of file
-- 
2.43.0


From a0dd75930b18b6f51d66860dc1cde6d6ee3bf92a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:37 +0000
Subject: [PATCH 036/184] fix: isTerminatorOp must know every termination
 instruction

---
 lib/include/spvgentwo/SpvDefines.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/include/spvgentwo/SpvDefines.h b/lib/include/spvgentwo/SpvDefines.h
index f890847..20e88be 100644
--- a/lib/include/spvgentwo/SpvDefines.h
+++ b/lib/include/spvgentwo/SpvDefines.h
@@ -82,6 +82,10 @@ namespace spvgentwo
 		case spv::Op::OpReturnValue:
 		case spv::Op::OpKill:
 		case spv::Op::OpUnreachable:
+		case spv::Op::OpTerminateInvocation:
+		case spv::Op::OpIgnoreIntersectionKHR:
+		case spv::Op::OpTerminateRayKHR:
+		case spv::Op::OpEmitMeshTasksEXT:
 			return true;
 		default:
 			return false;
-- 
2.43.0


From c1570fdffc0eb815e9fd96a83091aa004dfbe755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:57 +0000
Subject: [PATCH 037/184] fix: the grammar and the parser must accept any
 number of bank bits in BankBitsINTEL

---
 lib/source/Grammar.cpp     |  2 +-
 lib/source/Instruction.cpp | 13 ++++++++++---
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/lib/source/Grammar.cpp b/lib/source/Grammar.cpp
index e44f584..3115780 100644
--- a/lib/source/Grammar.cpp
+++ b/lib/source/Grammar.cpp
@@ -477,7 +477,7 @@ Grammar::Grammar(IAllocator* _pAllocator) : m_instructions(_pAllocator, 953u), m
 	}
 	{
 		auto& parameters = m_operandParameters.emplaceUnique(Hash64(31u, 5835u), _pAllocator).kv.value;
-		parameters.emplace_back(OperandKind::LiteralInteger, OperandCategory::Literal, "'Bank Bits'", Quantifier::One);
+		parameters.emplace_back(OperandKind::LiteralInteger, OperandCategory::Literal, "'Bank Bits'", Quantifier::ZeroOrAny);
 	}
 	{
 		auto& parameters = m_operandParameters.emplaceUnique(Hash64(31u, 5836u), _pAllocator).kv.value;
diff --git a/lib/source/Instruction.cpp b/lib/source/Instruction.cpp
index d236cb8..d11beb9 100644
--- a/lib/source/Instruction.cpp
+++ b/lib/source/Instruction.cpp
@@ -505,10 +505,17 @@ bool spvgentwo::Instruction::readOperands(IReader& _reader, const Grammar& _gram
 				{
 					for (const auto& param : *params)
 					{
-						if (parseSimpleOps(_operandCount, param) == false)
+						do
 						{
-							return false;
-						}
+							if (_operandCount == 0u && param.quantifier != Grammar::Quantifier::One)
+							{
+								break; // optional
+							}
+							if (parseSimpleOps(_operandCount, param) == false)
+							{
+								return false;
+							}
+						} while (param.quantifier == Grammar::Quantifier::ZeroOrAny && _operandCount > 0u);
 					}
 				}
 			}
-- 
2.43.0


From f6e87bbc30fe01493f13b151775c174a0dc9327e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:03 +0000
Subject: [PATCH 038/184] fix: readOperands must read the parameters of every
 bit of an operand mask

---
 lib/source/Instruction.cpp | 44 +++++++++++++++++++++++++++-----------
 1 file changed, 32 insertions(+), 12 deletions(-)

diff --git a/lib/source/Instruction.cpp b/lib/source/Instruction.cpp
index d11beb9..b2115a1 100644
--- a/lib/source/Instruction.cpp
+++ b/lib/source/Instruction.cpp
@@ -416,6 +416,28 @@ bool spvgentwo::Instruction::readOperands(IReader& _reader, const Grammar& _gram
 		}
 	};
 
+	auto parseParameters = [&](Grammar::OperandKind _kind, unsigned int _enumVal) -> bool
+	{
+		if (auto* params = _grammar.getOperandParameters(_kind, _enumVal); params != nullptr)
+		{
+			for (const auto& param : *params)
+			{
+				do
+				{
+					if (_operandCount == 0u && param.quantifier != Grammar::Quantifier::One)
+					{
+						break; // optional
+					}
+					if (parseSimpleOps(_operandCount, param) == false)
+					{
+						return false;
+					}
+				} while (param.quantifier == Grammar::Quantifier::ZeroOrAny && _operandCount > 0u);
+			}
+		}
+		return true;
+	};
+
 	while (_operandCount != 0u && it != end)
 	{
 		const auto& op = *it;
@@ -501,23 +523,21 @@ bool spvgentwo::Instruction::readOperands(IReader& _reader, const Grammar& _gram
 			{
 				const unsigned int enumVal = back().getLiteral(); // last added operand
 
-				if (auto* params = _grammar.getOperandParameters(op.kind, enumVal); params != nullptr)
+				if (op.category == Grammar::OperandCategory::BitEnum)
 				{
-					for (const auto& param : *params)
+					// parameters follow in the order of the bits
+					for (unsigned int bit = 1u; bit != 0u; bit <<= 1u)
 					{
-						do
+						if ((enumVal & bit) != 0u && parseParameters(op.kind, bit) == false)
 						{
-							if (_operandCount == 0u && param.quantifier != Grammar::Quantifier::One)
-							{
-								break; // optional
-							}
-							if (parseSimpleOps(_operandCount, param) == false)
-							{
-								return false;
-							}
-						} while (param.quantifier == Grammar::Quantifier::ZeroOrAny && _operandCount > 0u);
+							return false;
+						}
 					}
 				}
+				else if (parseParameters(op.kind, enumVal) == false)
+				{
+					return false;
+				}
 			}
 		}
 		else if (op.category == Grammar::OperandCategory::Id)
-- 
2.43.0


From f4ea21fc00316025d8e6f70ceb478a8cd214e789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:03 +0000
Subject: [PATCH 039/184] fix: readOperands must not accept an instruction with
 missing operands or an unterminated string

---
 lib/source/Instruction.cpp | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/lib/source/Instruction.cpp b/lib/source/Instruction.cpp
index b2115a1..f90c66a 100644
--- a/lib/source/Instruction.cpp
+++ b/lib/source/Instruction.cpp
@@ -337,11 +337,6 @@ bool spvgentwo::Instruction::readOperands(IReader& _reader, const Grammar& _gram
 
 	m_Operation = _op;
 
-	if (_operandCount == 0u)
-	{
-		return true; // nothing left to do
-	}
-
 	const Grammar::Instruction* info = _grammar.getInfo(static_cast<unsigned int>(m_Operation));
 
 	if (info == nullptr)
@@ -356,7 +351,7 @@ bool spvgentwo::Instruction::readOperands(IReader& _reader, const Grammar& _gram
 	auto parseLiteralString = [&](unsigned int& _operands) -> bool
 	{
 		unsigned int word{ 0u };
-		while (_operands-- > 0u)
+		while (_operands > 0u)
 		{
 			if (_reader.get(word) == false)
 			{
@@ -364,6 +359,7 @@ bool spvgentwo::Instruction::readOperands(IReader& _reader, const Grammar& _gram
 				return false;
 			}
 
+			--_operands;
 			addOperand(static_cast<literal_t>(word));
 			if (hasStringTerminator(word)) // reached end of string
 			{
@@ -371,13 +367,14 @@ bool spvgentwo::Instruction::readOperands(IReader& _reader, const Grammar& _gram
 			}
 		}
 
-		return true;
+		getModule()->logError("Unterminated string operand of %s", info->name);
+		return false;
 	};
 
 	auto parseId = [&](unsigned int& _operands) -> bool
 	{
 		unsigned int word{ 0u };
-		if (_reader.get(word) == false)
+		if (_operands == 0u || _reader.get(word) == false)
 		{
 			getModule()->logError("Unexpected end of instruction stream for %s", info->name);
 			return false;
@@ -390,7 +387,7 @@ bool spvgentwo::Instruction::readOperands(IReader& _reader, const Grammar& _gram
 	auto parseLiteral = [&](unsigned int& _operands) -> bool
 	{
 		unsigned int word{ 0u };
-		if (_reader.get(word) == false)
+		if (_operands == 0u || _reader.get(word) == false)
 		{
 			getModule()->logError("Unexpected end of instruction stream for %s", info->name);
 			return false;
-- 
2.43.0


From 3629c62b805aeca942ed3f144607bd0013087ab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:03 +0000
Subject: [PATCH 040/184] fix: readOperands must read literal operands of
 OpSpecConstantOp and OpExtInst as literals

---
 lib/source/Instruction.cpp | 48 ++++++++++++++++++++++++++++++++------
 1 file changed, 41 insertions(+), 7 deletions(-)

diff --git a/lib/source/Instruction.cpp b/lib/source/Instruction.cpp
index f90c66a..232df1f 100644
--- a/lib/source/Instruction.cpp
+++ b/lib/source/Instruction.cpp
@@ -346,7 +346,7 @@ bool spvgentwo::Instruction::readOperands(IReader& _reader, const Grammar& _gram
 	}
 
 	auto it = info->operands.begin();
-	const auto end = info->operands.end();
+	auto end = info->operands.end();
 
 	auto parseLiteralString = [&](unsigned int& _operands) -> bool
 	{
@@ -456,17 +456,51 @@ bool spvgentwo::Instruction::readOperands(IReader& _reader, const Grammar& _gram
 				return false;
 			}
 
-			// remaining operands must be IDs
-			while (_operandCount > 0u)
+			const Grammar::Instruction* inner = _grammar.getInfo(back().getLiteral());
+			if (inner == nullptr)
 			{
-				if (parseId(_operandCount) == false)
+				getModule()->logError("Unkown op code %u in %s", back().getLiteral().value, info->name);
+				return false;
+			}
+
+			// remaining operands are those of the instruction to evaluate, without result type and result
+			it = inner->operands.begin();
+			end = inner->operands.end();
+			while (it != end && (it->kind == Grammar::OperandKind::IdResultType || it->kind == Grammar::OperandKind::IdResult))
+			{
+				++it;
+			}
+			continue;
+		}
+		else if (op.kind == Grammar::OperandKind::LiteralExtInstInteger) // OpExtInst
+		{
+			const spv::Id set = back().isId() ? back().getId() : InvalidId;
+
+			if (parseLiteral(_operandCount) == false) // instruction number
+			{
+				return false;
+			}
+			++it;
+
+			Grammar::Extension extension = Grammar::Extension::Core;
+			for (const auto& [name, import] : getModule()->getExtInstrImports())
+			{
+				if (import.getResultId() == set)
 				{
-					return false;
+					extension = name == "GLSL.std.450" ? Grammar::Extension::Glsl : (name == "OpenCL.std" ? Grammar::Extension::OpenCl : Grammar::Extension::Core);
 				}
 			}
 
-			++it; // no more operands after this one
-			break; // end of instruction
+			if (extension != Grammar::Extension::Core)
+			{
+				// operands are those of the extended instruction, operands of unknown sets are IDs
+				if (const Grammar::Instruction* extInst = _grammar.getInfo(back().getLiteral(), extension); extInst != nullptr)
+				{
+					it = extInst->operands.begin();
+					end = extInst->operands.end();
+				}
+			}
+			continue;
 		}
 
 		if (op.category == Grammar::OperandCategory::Composite)
-- 
2.43.0


From 6da9f4b96e6555ab18a25c0eab7c5d52739c337b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:18 +0000
Subject: [PATCH 041/184] fix: reading must reject instructions with an invalid
 word count

---
 lib/source/BasicBlock.cpp | 1 +
 lib/source/Function.cpp   | 4 +++-
 lib/source/Module.cpp     | 1 +
 3 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/source/BasicBlock.cpp b/lib/source/BasicBlock.cpp
index 6400a62..ed9228a 100644
--- a/lib/source/BasicBlock.cpp
+++ b/lib/source/BasicBlock.cpp
@@ -135,6 +135,7 @@ bool spvgentwo::BasicBlock::read(IReader& _reader, const Grammar& _grammar)
 	while (_reader.get(word))
 	{
 		const spv::Op op = getOperation(word);
+		if (getModule()->logError(getOperandCount(word) != 0u, "Invalid word count of instruction") == false) return false;
 		const unsigned int operands = getOperandCount(word) - 1u;
 
 		if (emplace_back(this, spv::Op::OpNop).readOperands(_reader, _grammar, op, operands) == false)
diff --git a/lib/source/Function.cpp b/lib/source/Function.cpp
index 583abed..9f60ecd 100644
--- a/lib/source/Function.cpp
+++ b/lib/source/Function.cpp
@@ -80,6 +80,7 @@ bool spvgentwo::Function::read(IReader& _reader, const Grammar& _grammar, Instru
 	while (_reader.get(word))
 	{
 		const spv::Op op = getOperation(word);
+		if (m_pModule->logError(getOperandCount(word) != 0u, "Invalid word count of instruction") == false) return false;
 		const unsigned int operands = getOperandCount(word) - 1u;
 
 		switch (op)
@@ -88,10 +89,11 @@ bool spvgentwo::Function::read(IReader& _reader, const Grammar& _grammar, Instru
 			if (m_Parameters.emplace_back(this, spv::Op::OpNop).readOperands(_reader, _grammar, op, operands) == false) return false;
 			break;
 		case spv::Op::OpLabel:
+			if (m_pModule->logError(operands == 1u, "Invalid word count of OpLabel") == false) return false;
 			if (addBasicBlock().read(_reader, _grammar) == false) return false;
 			break;
 		case spv::Op::OpFunctionEnd:
-			return true; // FunctionEnd has no operands
+			return m_pModule->logError(operands == 0u, "Invalid word count of OpFunctionEnd"); // FunctionEnd has no operands
 		default:
 			m_pModule->logError("Unexpected op-code for function");
 			return false; // unexpected op code
diff --git a/lib/source/Module.cpp b/lib/source/Module.cpp
index a4d0b47..bd12cba 100644
--- a/lib/source/Module.cpp
+++ b/lib/source/Module.cpp
@@ -1214,6 +1214,7 @@ bool spvgentwo::Module::read(IReader& _reader, const Grammar& _grammar)
 	while (_reader.get(word))
 	{
 		const spv::Op op = getOperation(word);
+		if (logError(getOperandCount(word) != 0u, "Invalid word count of instruction") == false) return false;
 		const unsigned int operands = getOperandCount(word) - 1u;
 
 		if (spv::IsTypeOp(op) || isSpecOrConstantOp(op))
-- 
2.43.0


From de4ab40c012e9085a57151429397c4bd7fa12207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:33 +0000
Subject: [PATCH 042/184] fix: readOperands must read OpSwitch literals with
 the width of the selector

---
 lib/source/Instruction.cpp | 31 ++++++++++++++++++++++++++++++-
 1 file changed, 30 insertions(+), 1 deletion(-)

diff --git a/lib/source/Instruction.cpp b/lib/source/Instruction.cpp
index 232df1f..c1b6d8d 100644
--- a/lib/source/Instruction.cpp
+++ b/lib/source/Instruction.cpp
@@ -435,6 +435,24 @@ bool spvgentwo::Instruction::readOperands(IReader& _reader, const Grammar& _gram
 		return true;
 	};
 
+	// words of the literals of OpSwitch, depends on the type of the (not yet resolved) selector
+	auto getSwitchLiteralWords = [&]() -> unsigned int
+	{
+		const Instruction* selector = getModule()->getInstructionById(front().getId());
+		if (selector == nullptr || selector->hasResultType() == false)
+		{
+			return 1u;
+		}
+
+		const Instruction* type = getModule()->getInstructionById(selector->front().getId());
+		if (type == nullptr || type->getOperation() != spv::Op::OpTypeInt)
+		{
+			return 1u;
+		}
+
+		return type->getFirstActualOperand()->getLiteral().value > 32u ? 2u : 1u;
+	};
+
 	while (_operandCount != 0u && it != end)
 	{
 		const auto& op = *it;
@@ -513,7 +531,9 @@ bool spvgentwo::Instruction::readOperands(IReader& _reader, const Grammar& _gram
 
 			if (const auto* bases = _grammar.getOperandBases(op.kind); bases != nullptr)
 			{
-				if (_operandCount % bases->size() != 0u)
+				const unsigned int literalWords = m_Operation == spv::Op::OpSwitch ? getSwitchLiteralWords() : 1u;
+
+				if (_operandCount % (bases->size() - 1u + literalWords) != 0u)
 				{
 					getModule()->logError("Unexpected end of composite operands for %s", info->name);
 					return false;
@@ -529,6 +549,15 @@ bool spvgentwo::Instruction::readOperands(IReader& _reader, const Grammar& _gram
 						return false;
 					}
 
+					// remaining words of a multi-word literal
+					for (unsigned int i = 1u; i < literalWords && bit->category == Grammar::OperandCategory::Literal; ++i)
+					{
+						if (parseLiteral(_operandCount) == false)
+						{
+							return false;
+						}
+					}
+
 					if (++bit == bend) // reset
 					{
 						bit = bases->begin();
-- 
2.43.0


From be1a6c099e36910ee60a4a8e66991b6231762ffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:33 +0000
Subject: [PATCH 043/184] fix: reading must keep every OpExtInstImport of an
 instruction set

---
 lib/source/Module.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/source/Module.cpp b/lib/source/Module.cpp
index bd12cba..527df93 100644
--- a/lib/source/Module.cpp
+++ b/lib/source/Module.cpp
@@ -1274,7 +1274,7 @@ bool spvgentwo::Module::read(IReader& _reader, const Grammar& _grammar)
 				return false;
 			}
 
-			m_ExtInstrImport.emplaceUnique(stdrep::move(name), stdrep::move(opExtInstrImport));
+			m_ExtInstrImport.emplace(stdrep::move(name), stdrep::move(opExtInstrImport)); // the same set can be imported under several ids
 			break;
 		}
 		case spv::Op::OpMemoryModel:
-- 
2.43.0


From 6d41d4b43d1fa6e4ef8d06212360fc445c51923b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:39 +0000
Subject: [PATCH 044/184] fix: reconstruction must read the access qualifier
 operand of OpTypeImage and not the one behind it

---
 lib/source/Module.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/source/Module.cpp b/lib/source/Module.cpp
index 527df93..28fec6d 100644
--- a/lib/source/Module.cpp
+++ b/lib/source/Module.cpp
@@ -993,7 +993,7 @@ bool spvgentwo::Module::reconstructTypeAndConstantInfo(IAllocator* _pAllocator)
 
 				if (++it != nullptr)
 				{
-					t.setAccessQualifier(static_cast<spv::AccessQualifier>((++it)->getLiteral().value));
+					t.setAccessQualifier(static_cast<spv::AccessQualifier>(it->getLiteral().value));
 				}
 			}
 			break;
-- 
2.43.0


From 44003c8c5519b8acfe59dbf6276c66d2793f4f62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:39 +0000
Subject: [PATCH 045/184] fix: reconstruction must not dereference a missing
 type or value of an array length

---
 lib/source/Module.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/source/Module.cpp b/lib/source/Module.cpp
index 28fec6d..4344c42 100644
--- a/lib/source/Module.cpp
+++ b/lib/source/Module.cpp
@@ -955,7 +955,8 @@ bool spvgentwo::Module::reconstructTypeAndConstantInfo(IAllocator* _pAllocator)
 				t.Member(sub); // element type
 
 				Instruction* pConstInstr = (++it)->getInstruction();
-				if ( pConstInstr == nullptr || pConstInstr->getType()->isInt() == false)
+				const Type* pLengthType = pConstInstr != nullptr ? pConstInstr->getType() : nullptr;
+				if (pLengthType == nullptr || pLengthType->isInt() == false)
 				{
 					logError("Array length constant not found or invalid type");
 					success = false;
@@ -963,7 +964,7 @@ bool spvgentwo::Module::reconstructTypeAndConstantInfo(IAllocator* _pAllocator)
 				}
 
 				auto cit = pConstInstr->getFirstActualOperand();
-				if (cit->isLiteral())
+				if (cit != nullptr && cit->isLiteral())
 				{
 					t.setArrayLength(cit->literal); // array length
 				}
-- 
2.43.0


From f581877d09c488e15e2ac8995831b07e0b5fd00e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:25 +0000
Subject: [PATCH 046/184] fix: collecting interface variables must not follow a
 call to something that is no function

---
 lib/source/Function.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lib/source/Function.cpp b/lib/source/Function.cpp
index 9f60ecd..4835352 100644
--- a/lib/source/Function.cpp
+++ b/lib/source/Function.cpp
@@ -339,7 +339,12 @@ void spvgentwo::collectReferencedVariables(const Function& _func, List<Operand>&
 					{
 						// 3rd arg of opFunctionCall is OpFunction whos parent Function class holds the BBs were looking for
 						Instruction* pOpFunc = (instr.begin() + 2u)->getInstruction();
-						Function* pFunction = pOpFunc->getFunction();
+						Function* pFunction = pOpFunc != nullptr ? pOpFunc->getFunction() : nullptr;
+
+						if (pFunction == nullptr)
+						{
+							continue; // not a function
+						}
 
 						// add unvisited function BBs
 						for (BasicBlock& funcBB : *pFunction)
-- 
2.43.0


From 7f659ee6e9b98292f9b324baeb27fc96492ca9dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:17 +0000
Subject: [PATCH 047/184] fix: finalize must collect the entry point interfaces
 after the version is known

---
 lib/source/Module.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/source/Module.cpp b/lib/source/Module.cpp
index 4344c42..a4c226e 100644
--- a/lib/source/Module.cpp
+++ b/lib/source/Module.cpp
@@ -1165,16 +1165,16 @@ bool spvgentwo::Module::write(IWriter& _writer) const
 
 spvgentwo::spv::Id spvgentwo::Module::finalize( const Grammar* _pGrammar )
 {
+	const spv::Id maxId = assignIDs( _pGrammar ); // overwrites m_spvBound, can raise the version the interfaces depend on
+
 	finalizeEntryPoints();
 
-	return assignIDs( _pGrammar ); // overwrites m_spvBound
+	return maxId;
 }
 
 bool spvgentwo::Module::finalizeAndWrite(IWriter& _writer, const Grammar* _pGrammar)
 {
-	finalizeEntryPoints();
-
-	assignIDs(_pGrammar); // overwrites m_spvBound
+	finalize(_pGrammar);
 
 	return write(_writer);
 }
-- 
2.43.0


From c007bb73caf687364c5d02519ee3daa0f708d908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:30 +0000
Subject: [PATCH 048/184] fix: interface collection must look at every operand
 of an instruction

---
 lib/source/Function.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/lib/source/Function.cpp b/lib/source/Function.cpp
index 4835352..e821a2d 100644
--- a/lib/source/Function.cpp
+++ b/lib/source/Function.cpp
@@ -387,7 +387,6 @@ void spvgentwo::collectReferencedVariables(const Function& _func, List<Operand>&
 					{
 						_outVarInstr.emplace_back(pArg);
 					}
-					break;
 				}
 			}
 		}
-- 
2.43.0


From 94421a3644d69583528c4eaeac8534f83a801b79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:03 +0000
Subject: [PATCH 049/184] fix: reset must restore the initial SPIR-V version of
 a module

---
 lib/source/Module.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/source/Module.cpp b/lib/source/Module.cpp
index a4c226e..91199cd 100644
--- a/lib/source/Module.cpp
+++ b/lib/source/Module.cpp
@@ -171,7 +171,7 @@ spvgentwo::Module::~Module()
 
 void spvgentwo::Module::reset()
 {
-	m_spvVersion = spv::Version;
+	m_spvVersion = makeVersion(1u, 0u);
 	m_spvGenerator = GeneratorId;
 	m_spvBound = 0u;
 	m_spvSchema = 0u;
-- 
2.43.0


From 90b18cf08233e5abb49eb21cfd7f2290ab16991c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:23 +0000
Subject: [PATCH 050/184] fix: moving a function must make it the parent of its
 parameters

---
 lib/include/spvgentwo/Instruction.h |  1 +
 lib/source/Function.cpp             | 10 ++++++++++
 2 files changed, 11 insertions(+)

diff --git a/lib/include/spvgentwo/Instruction.h b/lib/include/spvgentwo/Instruction.h
index 850af2b..7a381b0 100644
--- a/lib/include/spvgentwo/Instruction.h
+++ b/lib/include/spvgentwo/Instruction.h
@@ -18,6 +18,7 @@ namespace spvgentwo
 	class Instruction : public List<Operand>
 	{
 		friend class Module;
+		friend class Function;
 		friend class BasicBlock;
 
 	public:
diff --git a/lib/source/Function.cpp b/lib/source/Function.cpp
index e821a2d..81b8ed1 100644
--- a/lib/source/Function.cpp
+++ b/lib/source/Function.cpp
@@ -28,6 +28,11 @@ spvgentwo::Function::Function(Module* _pModule, Function&& _other) noexcept :
 	{
 		bb.m_pFunction = this;
 	}
+
+	for (Instruction& param : m_Parameters)
+	{
+		param.m_parent.pFunction = this;
+	}
 }
 
 spvgentwo::Function::~Function()
@@ -50,6 +55,11 @@ spvgentwo::Function& spvgentwo::Function::operator=(Function&& _other) noexcept
 	m_FunctionType = stdrep::move(_other.m_FunctionType);
 	m_Parameters = stdrep::move(_other.m_Parameters);
 
+	for (Instruction& param : m_Parameters)
+	{
+		param.m_parent.pFunction = this;
+	}
+
 	return *this;
 }
 
-- 
2.43.0


From 40bdebca79b6e14e7816e0e35da990cd97836dd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:56 +0000
Subject: [PATCH 051/184] fix: moving a module must carry its generator over

---
 lib/source/Module.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/source/Module.cpp b/lib/source/Module.cpp
index 91199cd..298cb3f 100644
--- a/lib/source/Module.cpp
+++ b/lib/source/Module.cpp
@@ -59,6 +59,7 @@ spvgentwo::Module::Module(Module&& _other) noexcept:
 	m_pLogger(_other.m_pLogger),
 	m_pTypeInferenceAndVailation(_other.m_pTypeInferenceAndVailation),
 	m_spvVersion(_other.m_spvVersion),
+	m_spvGenerator(_other.m_spvGenerator),
 	m_spvBound(_other.m_spvBound),
 	m_spvSchema(_other.m_spvSchema),
 	m_Functions(stdrep::move(_other.m_Functions)),
@@ -94,6 +95,7 @@ spvgentwo::Module& spvgentwo::Module::operator=(Module&& _other) noexcept
 	m_pLogger = _other.m_pLogger;
 	m_pTypeInferenceAndVailation = _other.m_pTypeInferenceAndVailation;
 	m_spvVersion = _other.m_spvVersion;
+	m_spvGenerator = _other.m_spvGenerator;
 	m_spvBound = _other.m_spvBound;
 	m_spvSchema = _other.m_spvSchema;
 	m_Functions = stdrep::move(_other.m_Functions);
-- 
2.43.0


From bf93e7b78e6d901636d631ef5fdb7d37a556ce9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:14 +0000
Subject: [PATCH 052/184] fix: reset must make a moved-from module usable again

---
 lib/source/Module.cpp | 33 +--------------------------------
 1 file changed, 1 insertion(+), 32 deletions(-)

diff --git a/lib/source/Module.cpp b/lib/source/Module.cpp
index 298cb3f..86f17ae 100644
--- a/lib/source/Module.cpp
+++ b/lib/source/Module.cpp
@@ -173,38 +173,7 @@ spvgentwo::Module::~Module()
 
 void spvgentwo::Module::reset()
 {
-	m_spvVersion = makeVersion(1u, 0u);
-	m_spvGenerator = GeneratorId;
-	m_spvBound = 0u;
-	m_spvSchema = 0u;
-
-	m_Functions.clear();
-	m_EntryPoints.clear();
-
-	m_Capabilities.clear();
-	m_Extensions.clear();
-	m_ExtInstrImport.clear();
-
-	setMemoryModel(spv::AddressingModel::Logical, spv::MemoryModel::Simple);
-
-	m_ExecutionModes.clear();
-	m_SourceStrings.clear();
-	m_Names.clear();
-	m_ModuleProccessed.clear();
-	m_Decorations.clear();
-
-	m_TypesAndConstants.clear();
-
-	m_TypeToInstr.clear();
-	m_InstrToType.clear();
-	m_ConstantToInstr.clear();
-	m_InstrToConstant.clear();
-
-	m_NameLookup.clear();
-
-	m_GlobalVariables.clear();
-	m_Undefs.clear();
-	m_Lines.clear();
+	*this = Module(m_pAllocator, m_pLogger, m_pTypeInferenceAndVailation);
 }
 
 void spvgentwo::Module::ensureSpvVersion(unsigned char _major, unsigned char _minor)
-- 
2.43.0


From 2c2fe4a35a4d965636e65bef30518e27f5f7203e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:24 +0000
Subject: [PATCH 053/184] fix: a block without terminator must not hide the
 instructions behind it from replaceUses, gatherUses and assignIDs

---
 lib/include/spvgentwo/ModuleTemplate.inl |  1 -
 lib/source/Module.cpp                    | 23 ++++++++++++++++++++++-
 2 files changed, 22 insertions(+), 2 deletions(-)

diff --git a/lib/include/spvgentwo/ModuleTemplate.inl b/lib/include/spvgentwo/ModuleTemplate.inl
index 1433f62..5dd37bd 100644
--- a/lib/include/spvgentwo/ModuleTemplate.inl
+++ b/lib/include/spvgentwo/ModuleTemplate.inl
@@ -217,7 +217,6 @@ namespace spvgentwo
 				if (bb.getTerminator() == nullptr)
 				{
 					_module.logError("BasicBlock %s has no terminator instruction, missing opReturn?", bb.getName());
-					return true;
 				}
 			}
 			if (pred(*f.getFunctionEnd())) return true;
diff --git a/lib/source/Module.cpp b/lib/source/Module.cpp
index 86f17ae..83ba922 100644
--- a/lib/source/Module.cpp
+++ b/lib/source/Module.cpp
@@ -1131,7 +1131,28 @@ bool spvgentwo::Module::write(IWriter& _writer) const
 	};
 
 	// iterateModuleInstructions returns TRUE if not all instructions were enumarated because _func returned TRUE
-	return !iterateInstructions(writeInstr);
+	if (iterateInstructions(writeInstr)) return false;
+
+	auto isTerminated = [](const Function& func) -> bool
+	{
+		for (const BasicBlock& bb : func)
+		{
+			if (bb.getTerminator() == nullptr) return false;
+		}
+		return true;
+	};
+
+	for (const Function& func : m_Functions)
+	{
+		if (isTerminated(func) == false) return false;
+	}
+
+	for (const EntryPoint& ep : m_EntryPoints)
+	{
+		if (isTerminated(ep) == false) return false;
+	}
+
+	return true;
 }
 
 spvgentwo::spv::Id spvgentwo::Module::finalize( const Grammar* _pGrammar )
-- 
2.43.0


From 3973a22ebc42ca58e28d1136b933faf25a38b8f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:24 +0000
Subject: [PATCH 054/184] fix: replaceUses and gatherUses must see the result
 type of an instruction

---
 lib/source/Module.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/source/Module.cpp b/lib/source/Module.cpp
index 83ba922..e6cfeb6 100644
--- a/lib/source/Module.cpp
+++ b/lib/source/Module.cpp
@@ -1469,7 +1469,7 @@ void spvgentwo::Module::gatherUses(const Instruction* _pInstr, List<Instruction*
 {
 	auto gather = [_pInstr, _pReplacement, &_outUses](Instruction& _instr)
 	{
-		for (auto it = _instr.getFirstActualOperand(), end = _instr.end(); it != end; ++it)
+		for (auto it = _instr.begin(), end = _instr.end(); it != end; ++it)
 		{
 			if (*it == _pInstr)
 			{
@@ -1494,7 +1494,7 @@ void spvgentwo::Module::replaceUses(const Instruction* _pInstr, Instruction* _pR
 
 	auto replace = [_pInstr, _pReplacement](Instruction& _instr)
 	{
-		for (auto it = _instr.getFirstActualOperand(), end = _instr.end(); it != end; ++it)
+		for (auto it = _instr.begin(), end = _instr.end(); it != end; ++it)
 		{
 			if (*it == _pInstr)
 			{
-- 
2.43.0


From 5107e09307b26cc702cfaaabc5fe2f27c0d2054b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:48 +0000
Subject: [PATCH 055/184] fix: writing an operand that refers to nothing must
 fail and not crash

---
 lib/source/Operand.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/source/Operand.cpp b/lib/source/Operand.cpp
index 740c014..d1aba59 100644
--- a/lib/source/Operand.cpp
+++ b/lib/source/Operand.cpp
@@ -8,9 +8,9 @@ bool spvgentwo::Operand::write(IWriter& _writer) const
 	switch (type)
 	{
 	case Type::Instruction:
-		return _writer.put(static_cast<unsigned int>(instruction->getResultId()));
+		return instruction != nullptr && _writer.put(static_cast<unsigned int>(instruction->getResultId()));
 	case Type::BranchTarget:
-		return _writer.put(static_cast<unsigned int>(branchTarget->getLabel()->getResultId()));
+		return branchTarget != nullptr && _writer.put(static_cast<unsigned int>(branchTarget->getLabel()->getResultId()));
 	case Type::Literal:
 		return _writer.put(literal.value);
 	case Type::Id:
-- 
2.43.0


From 3d65e884f47f0a001aaad0056a39ffb605722f47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:48 +0000
Subject: [PATCH 056/184] fix: removing a type or constant must keep the
 information equal ones share with it

---
 lib/source/Module.cpp | 38 +++++++++++++++++++++++++-------------
 1 file changed, 25 insertions(+), 13 deletions(-)

diff --git a/lib/source/Module.cpp b/lib/source/Module.cpp
index e6cfeb6..4824d93 100644
--- a/lib/source/Module.cpp
+++ b/lib/source/Module.cpp
@@ -1508,23 +1508,35 @@ void spvgentwo::Module::replaceUses(const Instruction* _pInstr, Instruction* _pR
 
 void spvgentwo::Module::removeFromLookupMaps(const Instruction* _pInstr)
 {
-	if (auto itt = m_InstrToType.find(_pInstr); itt != m_InstrToType.end())
+	// the key of the first map is shared by all instructions of the second one which describe an equal type or constant
+	auto erase = [_pInstr](auto& keyToInstr, auto& instrToKey)
 	{
-		if(auto tti = m_TypeToInstr.find(*itt->value); tti != m_TypeToInstr.end())
-		{
-			m_TypeToInstr.erase(tti);
-		}
-		m_InstrToType.erase(itt);
-	}
+		auto it = instrToKey.find(_pInstr);
+		if (it == instrToKey.end()) return;
 
-	if (auto itc = m_InstrToConstant.find(_pInstr); itc != m_InstrToConstant.end())
-	{
-		if (auto cti = m_ConstantToInstr.find(*itc->value); cti != m_ConstantToInstr.end())
+		const auto* pKey = it->value;
+		instrToKey.erase(it);
+
+		auto shared = keyToInstr.find(*pKey);
+		if (shared == keyToInstr.end()) return;
+
+		for (const auto& [instr, key] : instrToKey)
 		{
-			m_ConstantToInstr.erase(cti);
+			if (key == &shared->key)
+			{
+				if (shared->value == _pInstr)
+				{
+					shared->value = const_cast<Instruction*>(instr);
+				}
+				return;
+			}
 		}
-		m_InstrToConstant.erase(itc);
-	}
+
+		keyToInstr.erase(shared);
+	};
+
+	erase(m_TypeToInstr, m_InstrToType);
+	erase(m_ConstantToInstr, m_InstrToConstant);
 
 	m_NameLookup.eraseRange(_pInstr);
 }
-- 
2.43.0


From 630927daaed637541fe1b59e4cc7b948fe46b261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:33 +0000
Subject: [PATCH 057/184] fix: removing an instruction must remove its names,
 decorations and lookup entries and clear the operands that refer to it

---
 lib/include/spvgentwo/Module.h |  4 ++
 lib/source/BasicBlock.cpp      |  1 +
 lib/source/Module.cpp          | 76 +++++++++++++++++++++++++++++++++-
 3 files changed, 80 insertions(+), 1 deletion(-)

diff --git a/lib/include/spvgentwo/Module.h b/lib/include/spvgentwo/Module.h
index 5251822..d485550 100644
--- a/lib/include/spvgentwo/Module.h
+++ b/lib/include/spvgentwo/Module.h
@@ -347,6 +347,10 @@ namespace spvgentwo
 		// remove _pInstr from type/constant and name lookup maps
 		void removeFromLookupMaps(const Instruction* _pInstr);
 
+		// remove names, decorations and execution modes of _pInstr and redirect any other operand refering to it to _pReplacement (nullptr clears the operand)
+		// appends the instructions with redirected operands to _pOutUses
+		void removeUses(const Instruction* _pInstr, const Operand& _replacement = InvalidInstr, List<Instruction*>* _pOutUses = nullptr);
+
 		// remove _pInstr if it is homed in this module, its functions and basic blocks, returns true if it was removed
 		bool remove(const Instruction* _pInstr);
 
diff --git a/lib/source/BasicBlock.cpp b/lib/source/BasicBlock.cpp
index ed9228a..0cd58bf 100644
--- a/lib/source/BasicBlock.cpp
+++ b/lib/source/BasicBlock.cpp
@@ -161,6 +161,7 @@ bool spvgentwo::BasicBlock::remove(const Instruction* _pInstr)
 		{
 			if(it.operator->() == _pInstr)
 			{
+				getModule()->removeUses(_pInstr);
 				erase(it);
 				return true;
 			}
diff --git a/lib/source/Module.cpp b/lib/source/Module.cpp
index 4824d93..af11475 100644
--- a/lib/source/Module.cpp
+++ b/lib/source/Module.cpp
@@ -1541,6 +1541,78 @@ void spvgentwo::Module::removeFromLookupMaps(const Instruction* _pInstr)
 	m_NameLookup.eraseRange(_pInstr);
 }
 
+void spvgentwo::Module::removeUses(const Instruction* _pInstr, const Operand& _replacement, List<Instruction*>* _pOutUses)
+{
+	removeFromLookupMaps(_pInstr);
+
+	const BasicBlock* pBlock = *_pInstr == spv::Op::OpLabel ? _pInstr->getBasicBlock() : nullptr;
+
+	auto isUse = [_pInstr, pBlock](const Operand& _operand) -> bool
+	{
+		return _operand == _pInstr || (pBlock != nullptr && _operand == pBlock);
+	};
+
+	// these refer to the instruction they belong to with the first operand
+	auto eraseAttached = [&isUse, _pInstr](List<Instruction>& _list)
+	{
+		for (auto it = _list.begin(); it != _list.end();)
+		{
+			if (it.operator->() != _pInstr && it->hasResult() == false && it->empty() == false && isUse(it->front()))
+			{
+				it = _list.erase(it);
+			}
+			else
+			{
+				++it;
+			}
+		}
+	};
+
+	eraseAttached(m_Names);
+	eraseAttached(m_Decorations);
+	eraseAttached(m_ExecutionModes);
+
+	iterateInstructions([&](Instruction& _instr)
+	{
+		if (&_instr == _pInstr) return;
+
+		bool used = false;
+		const bool isInterface = _instr == spv::Op::OpEntryPoint;
+		const bool isGroup = _instr == spv::Op::OpGroupDecorate || _instr == spv::Op::OpGroupMemberDecorate;
+
+		for (auto it = _instr.begin(); it != _instr.end();)
+		{
+			if (isUse(*it) == false)
+			{
+				++it;
+				continue;
+			}
+
+			used = true;
+
+			if (isInterface && it != _instr.begin() + 1u) // not the function
+			{
+				it = _instr.erase(it);
+			}
+			else if (isGroup)
+			{
+				it = _instr.erase(it); // target
+				if (_instr == spv::Op::OpGroupMemberDecorate && it != _instr.end()) it = _instr.erase(it); // member
+			}
+			else
+			{
+				*it = _replacement;
+				++it;
+			}
+		}
+
+		if (used && _pOutUses != nullptr && _pOutUses->contains(&_instr) == false)
+		{
+			_pOutUses->emplace_back(&_instr);
+		}
+	});
+}
+
 bool spvgentwo::Module::remove(const Instruction* _pInstr)
 {
 	if (_pInstr == nullptr || _pInstr->getModule() != this)
@@ -1548,11 +1620,12 @@ bool spvgentwo::Module::remove(const Instruction* _pInstr)
 		return false;
 	}
 
-	auto erase = [_pInstr](List<Instruction>& container) -> bool
+	auto erase = [_pInstr, this](List<Instruction>& container) -> bool
 	{
 		auto it = container.find_if([_pInstr](const Instruction& _instr) {return &_instr == _pInstr; });
 		if (it != container.end())
 		{
+			removeUses(_pInstr);
 			container.erase(it);
 			return true;
 		}
@@ -1583,6 +1656,7 @@ bool spvgentwo::Module::remove(const Instruction* _pInstr)
 		{
 			if (&value == _pInstr) 
 			{
+				removeUses(_pInstr);
 				m_ExtInstrImport.erase(m_ExtInstrImport.find(key));
 				return true;
 			}
-- 
2.43.0


From 1af96c2de87ba2ee00079fac9acefb0d55291536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:51 +0000
Subject: [PATCH 058/184] fix: removing a block or function must remove its
 names, decorations, execution modes and lookup entries and must not read it
 afterwards

---
 lib/source/Function.cpp | 41 +++++++++++------------
 lib/source/Module.cpp   | 72 ++++++++++++++++++++++-------------------
 2 files changed, 60 insertions(+), 53 deletions(-)

diff --git a/lib/source/Function.cpp b/lib/source/Function.cpp
index 81b8ed1..6f956f4 100644
--- a/lib/source/Function.cpp
+++ b/lib/source/Function.cpp
@@ -146,38 +146,39 @@ spvgentwo::List<spvgentwo::Instruction*> spvgentwo::Function::remove(const Basic
 		return uses;
 	}
 
-	const Instruction* opLabel = _pBB->getLabel();
-
-	bool found = false;
-	for (auto it = begin(); it != end(); ++it) 
+	auto pos = begin();
+	while (pos != end() && pos.operator->() != _pBB)
 	{
-		if (it.operator->() == _pBB)
-		{
-			erase(it);
-			found = true;
-			break;
-		}
+		++pos;
 	}
 
-	if (found == false)
+	if (pos == end())
 	{
 		m_pModule->logError("BasicBlock not found in function");
 		return uses;
 	}
 
-	auto gatherUse = [opLabel, _pBB, _pReplacement, &uses](Instruction& instr)
+	for (const Instruction& instr : *_pBB)
+	{
+		m_pModule->removeUses(&instr, InvalidInstr, &uses);
+	}
+
+	m_pModule->removeUses(_pBB->getLabel(), _pReplacement, &uses);
+
+	// only report instructions which are not removed with the block
+	for (auto it = uses.begin(); it != uses.end();)
 	{
-		for (auto it = instr.getFirstActualOperand(), end = instr.end(); it != end; ++it)
+		if ((*it)->getBasicBlock() == _pBB)
 		{
-			if (*it == _pBB || *it == opLabel)
-			{
-				uses.emplace_back(&instr);
-				*it = _pReplacement;
-			}
+			it = uses.erase(it);
 		}
-	};
+		else
+		{
+			++it;
+		}
+	}
 
-	m_pModule->iterateInstructions(gatherUse);
+	erase(pos);
 
 	return uses;
 }
diff --git a/lib/source/Module.cpp b/lib/source/Module.cpp
index af11475..a790395 100644
--- a/lib/source/Module.cpp
+++ b/lib/source/Module.cpp
@@ -199,55 +199,61 @@ spvgentwo::List<spvgentwo::Instruction*> spvgentwo::Module::remove(const Functio
 		return uses;
 	}
 
-	const Instruction* opFunction = _pFunction->getFunction();
-	Instruction* opFunctionReplacement = _pReplacementToCall != nullptr ? _pReplacementToCall->getFunction() : nullptr;
-
-	// remove from functions if its not an entry point
-	bool found = false;
-	for (auto it = m_Functions.begin(), end = m_Functions.end(); it != end; ++it)
+	auto find = [_pFunction](auto& _list)
 	{
-		if (it.operator->() == _pFunction)
+		auto it = _list.begin();
+		while (it != _list.end() && it.operator->() != _pFunction)
 		{
-			m_Functions.erase(it);
-			found = true;
-			break;
+			++it;
 		}
+		return it;
+	};
+
+	auto function = find(m_Functions);
+	auto entryPoint = find(m_EntryPoints);
+
+	if (function == m_Functions.end() && entryPoint == m_EntryPoints.end())
+	{
+		logError("Could not remove function, not found in module");
+		return uses;
 	}
 
-	// function seems to be an entry point
-	if (found == false)
+	for (const BasicBlock& bb : *_pFunction)
 	{
-		for (auto it = m_EntryPoints.begin(), end = m_EntryPoints.end(); it != end; ++it)
+		for (const Instruction& instr : bb)
 		{
-			if (it.operator->() == _pFunction)
-			{
-				m_EntryPoints.erase(it);
-				found = true;
-				break;
-			}
+			removeUses(&instr, InvalidInstr, &uses);
 		}
+		removeUses(bb.getLabel(), InvalidInstr, &uses);
+	}
+
+	for (const Instruction& param : _pFunction->getParameters())
+	{
+		removeUses(&param, InvalidInstr, &uses);
 	}
 
-	if (found)
+	removeUses(_pFunction->getFunction(), _pReplacementToCall != nullptr ? _pReplacementToCall->getFunction() : nullptr, &uses);
+
+	// only report instructions which are not removed with the function
+	for (auto it = uses.begin(); it != uses.end();)
 	{
-		auto gatherUse = [opFunction, opFunctionReplacement, &uses](Instruction& instr)
+		if ((*it)->getFunction() == _pFunction)
 		{
-			for (auto it = instr.getFirstActualOperand(), end = instr.end(); it != end; ++it)
-			{
-				if (*it == opFunction) // need to check use of OpFunctionparameter?
-				{
-					*it = opFunctionReplacement;
-					uses.emplace_back(&instr);
-					break;
-				}
-			}
-		};
+			it = uses.erase(it);
+		}
+		else
+		{
+			++it;
+		}
+	}
 
-		iterateInstructions(gatherUse);
+	if (function != m_Functions.end())
+	{
+		m_Functions.erase(function);
 	}
 	else
 	{
-		logError("Could not remove function, not found in module");
+		m_EntryPoints.erase(entryPoint);
 	}
 
 	return uses;
-- 
2.43.0


From ca37519bbfa228ef50fdfb6c33cc8389d2d402fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:51 +0000
Subject: [PATCH 059/184] fix: removing an OpName or OpMemberName must remove
 the name from the lookup

---
 lib/include/spvgentwo/Module.h |  3 +++
 lib/source/Module.cpp          | 31 +++++++++++++++++++++++++++++++
 2 files changed, 34 insertions(+)

diff --git a/lib/include/spvgentwo/Module.h b/lib/include/spvgentwo/Module.h
index d485550..d100e69 100644
--- a/lib/include/spvgentwo/Module.h
+++ b/lib/include/spvgentwo/Module.h
@@ -403,6 +403,9 @@ namespace spvgentwo
 	private:
 		void updateParentPointers();
 
+		// remove the name given by OpName or OpMemberName from m_NameLookup
+		void removeName(const Instruction& _opName);
+
 	private:
 		IAllocator* m_pAllocator = nullptr;
 		ILogger* m_pLogger = nullptr;
diff --git a/lib/source/Module.cpp b/lib/source/Module.cpp
index a790395..0ea886f 100644
--- a/lib/source/Module.cpp
+++ b/lib/source/Module.cpp
@@ -1619,6 +1619,32 @@ void spvgentwo::Module::removeUses(const Instruction* _pInstr, const Operand& _r
 	});
 }
 
+void spvgentwo::Module::removeName(const Instruction& _opName)
+{
+	auto it = _opName.begin();
+	const Instruction* pTarget = it != nullptr ? it->getInstruction() : nullptr;
+	const bool isMember = _opName == spv::Op::OpMemberName;
+
+	if (pTarget == nullptr || (isMember && ++it == nullptr))
+	{
+		return;
+	}
+
+	const unsigned int member = isMember ? it->getLiteral().value : sgt_uint32_max;
+
+	String name(m_pAllocator);
+	getLiteralString(name, it.next(), _opName.end());
+
+	for (auto entry = m_NameLookup.find(pTarget); entry != m_NameLookup.end(); ++entry)
+	{
+		if (entry->key == pTarget && entry->value.member == member && entry->value.name == name)
+		{
+			m_NameLookup.erase(entry);
+			return;
+		}
+	}
+}
+
 bool spvgentwo::Module::remove(const Instruction* _pInstr)
 {
 	if (_pInstr == nullptr || _pInstr->getModule() != this)
@@ -1640,6 +1666,11 @@ bool spvgentwo::Module::remove(const Instruction* _pInstr)
 
 	if(_pInstr->getParentType() == Instruction::ParentType::Module)
 	{
+		if (*_pInstr == spv::Op::OpName || *_pInstr == spv::Op::OpMemberName)
+		{
+			removeName(*_pInstr);
+		}
+
 		for (const auto& [key, value] : m_Capabilities)
 		{
 			if (&value == _pInstr)
-- 
2.43.0


From 3802095ae48b1249f3f5fa0f1a3bb92f99573415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:12 +0000
Subject: [PATCH 060/184] fix: an entry point without blocks must not be
 skipped when iterating over instructions

---
 lib/include/spvgentwo/ModuleTemplate.inl | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/lib/include/spvgentwo/ModuleTemplate.inl b/lib/include/spvgentwo/ModuleTemplate.inl
index 5dd37bd..3d16cc9 100644
--- a/lib/include/spvgentwo/ModuleTemplate.inl
+++ b/lib/include/spvgentwo/ModuleTemplate.inl
@@ -241,10 +241,7 @@ namespace spvgentwo
 		}
 		for (auto& ep : _module.getEntryPoints())
 		{
-			if (ep.empty() == false) // can entry points be empty forward decls?
-			{
-				if (iterateFuncion(ep)) return true;
-			}
+			if (iterateFuncion(ep)) return true;
 		}
 
 		return false;
-- 
2.43.0


From ec76df8893b1d89766de4ed4a2822ba43db23d77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:12 +0000
Subject: [PATCH 061/184] fix: an entry point created with its signature must
 know its name

---
 lib/include/spvgentwo/EntryPointTemplate.inl | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/include/spvgentwo/EntryPointTemplate.inl b/lib/include/spvgentwo/EntryPointTemplate.inl
index 6a86a7a..c3625cb 100644
--- a/lib/include/spvgentwo/EntryPointTemplate.inl
+++ b/lib/include/spvgentwo/EntryPointTemplate.inl
@@ -6,7 +6,8 @@ namespace spvgentwo
 	inline EntryPoint::EntryPoint(Module* _pModule, const spv::ExecutionModel _model, const char* _pEntryPointName, const Flag<spv::FunctionControlMask> _control, Instruction* _pReturnType, TypeInstr* ..._paramTypeInstructions) :
 		Function(_pModule, _pEntryPointName, _control, _pReturnType, _paramTypeInstructions...),
 		m_EntryPoint(this, spv::Op::OpNop),
-		m_ExecutionModel(_model)
+		m_ExecutionModel(_model),
+		m_nameStorage(_pModule->getAllocator(), _pEntryPointName)
 	{
 		m_isEntryPoint = true;
 		m_EntryPoint.opEntryPoint(_model, &m_Function, _pEntryPointName);
-- 
2.43.0


From 5e3f59a5b358751ebc9bc18503de24816667f716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:12 +0000
Subject: [PATCH 062/184] fix: getInstructionByName must only look at the names
 of instructions

---
 lib/source/Module.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/source/Module.cpp b/lib/source/Module.cpp
index 0ea886f..9b22754 100644
--- a/lib/source/Module.cpp
+++ b/lib/source/Module.cpp
@@ -1809,6 +1809,11 @@ spvgentwo::Instruction* spvgentwo::Module::getInstructionByName(const char* _pNa
 	{
 		auto it = instr.getFirstActualOperand();
 
+		if (instr != spv::Op::OpName || it == nullptr)
+		{
+			continue; // OpMemberName does not name its target
+		}
+
 		if (Instruction* target = it->getInstruction(); target != nullptr)
 		{
 			if (compareLiteralString(_pName, it.next(), instr.end()))
-- 
2.43.0


From f79a052b33166d5089facc826c71729f3216b62a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:12 +0000
Subject: [PATCH 063/184] fix: a type or constant that already exists must get
 the name it is requested with

---
 lib/source/Module.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/lib/source/Module.cpp b/lib/source/Module.cpp
index 9b22754..0746de7 100644
--- a/lib/source/Module.cpp
+++ b/lib/source/Module.cpp
@@ -412,6 +412,10 @@ spvgentwo::Instruction* spvgentwo::Module::addConstant(const Constant& _const, c
 	// early return for regular constants which are unique
 	if( IsConstantOp(constantOp) && node.kv.value != nullptr )
 	{
+		if (_pName != nullptr && getName(node.kv.value) == nullptr)
+		{
+			addName(node.kv.value, _pName);
+		}
 		return node.kv.value;
 	}
 
@@ -505,6 +509,10 @@ spvgentwo::Instruction* spvgentwo::Module::addType(const Type& _type, const char
 	auto& node = m_TypeToInstr.emplaceUnique(_type, nullptr);
 	if (node.kv.value != nullptr)
 	{
+		if (_pName != nullptr && getName(node.kv.value) == nullptr)
+		{
+			addName(node.kv.value, _pName);
+		}
 		return node.kv.value;
 	}
 
-- 
2.43.0


From ec822c8158a0b2f6043500a8955f5cdce6af5aa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:50 +0000
Subject: [PATCH 064/184] fix: an entry point finalized by hand reports the
 execution model it was finalized with

---
 lib/source/EntryPoint.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/source/EntryPoint.cpp b/lib/source/EntryPoint.cpp
index 1102789..85b7cd0 100644
--- a/lib/source/EntryPoint.cpp
+++ b/lib/source/EntryPoint.cpp
@@ -48,6 +48,7 @@ spvgentwo::Instruction* spvgentwo::EntryPoint::finalize(const spv::ExecutionMode
 
 	if (pFunc != nullptr && pFunc->isErrorInstr() == false)
 	{
+		m_ExecutionModel = _model;
 		m_EntryPoint.opEntryPoint(_model, &m_Function, _pEntryPointName);
 		m_nameStorage = _pEntryPointName;
 	}
-- 
2.43.0


From e531a969583924464b37381a5ce007b611561725 Mon Sep 17 00:00:00 2001
From: x <x@y>
Date: Thu, 19 Nov 2026 22:01:13 +0000
Subject: [PATCH 065/184] fix: branches and loop bodies built by If and Loop
 end in exactly one terminator, also when they are empty or exit early

---
 lib/include/spvgentwo/BasicBlockTemplate.inl | 11 +++++++----
 lib/source/BasicBlock.cpp                    |  5 ++++-
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/lib/include/spvgentwo/BasicBlockTemplate.inl b/lib/include/spvgentwo/BasicBlockTemplate.inl
index 5832e83..36664dc 100644
--- a/lib/include/spvgentwo/BasicBlockTemplate.inl
+++ b/lib/include/spvgentwo/BasicBlockTemplate.inl
@@ -19,11 +19,11 @@ namespace spvgentwo
 		_false(falseBB);
 
 		// check if user didnt exit controlflow via kill or similar
-		if (trueBB.empty() == false && trueBB.back().isTerminator() == false)
+		if (trueBB.getTerminator() == nullptr)
 		{
 			trueBB->opBranch(&mergeBB);
 		}
-		if (falseBB.empty() == false && falseBB.back().isTerminator() == false)
+		if (falseBB.getTerminator() == nullptr)
 		{
 			falseBB->opBranch(&mergeBB);
 		}
@@ -45,7 +45,7 @@ namespace spvgentwo
 		_true(trueBB);
 
 		// check if user didnt exit controlflow via kill or similar
-		if (trueBB.empty() == false && trueBB.back().isTerminator() == false)
+		if (trueBB.getTerminator() == nullptr)
 		{
 			trueBB->opBranch(&mergeBB);		
 		}
@@ -79,7 +79,10 @@ namespace spvgentwo
 		condBB->opBranchConditional(pCond, &bodyBB, &mergeBB);
 
 		_body(bodyBB);
-		bodyBB->opBranch(&continueBB); // branch to "increment" / continue block
+		if (bodyBB.getTerminator() == nullptr)
+		{
+			bodyBB->opBranch(&continueBB); // branch to "increment" / continue block
+		}
 
 		_continue(continueBB);
 		continueBB->opBranch(&loop); // back edge to loop merge
diff --git a/lib/source/BasicBlock.cpp b/lib/source/BasicBlock.cpp
index 0cd58bf..59963b5 100644
--- a/lib/source/BasicBlock.cpp
+++ b/lib/source/BasicBlock.cpp
@@ -216,7 +216,10 @@ spvgentwo::BasicBlock& spvgentwo::BasicBlock::Loop(Instruction* _pCondition, Bas
 	addInstruction()->opBranch(&condBB);
 
 	condBB->opBranchConditional(_pCondition, &_body, &mergeBB);
-	_body->opBranch(&_continue); // branch to "increment" / continue block
+	if (_body.getTerminator() == nullptr)
+	{
+		_body->opBranch(&_continue); // branch to "increment" / continue block
+	}
 	_continue->opBranch(this); // back edge to loop merge
 
 	return mergeBB;
-- 
2.43.0


From 6d7f00403761d8111db48d5e2877db13bbc2d5cd Mon Sep 17 00:00:00 2001
From: x <x@y>
Date: Thu, 19 Nov 2026 22:01:13 +0000
Subject: [PATCH 066/184] fix: If and Loop place their merge and continue
 blocks behind the blocks that dominate them

---
 lib/include/spvgentwo/BasicBlockTemplate.inl | 21 ++++++++++++++++++++
 lib/include/spvgentwo/Function.h             |  3 +++
 lib/source/Function.cpp                      | 14 +++++++++++++
 3 files changed, 38 insertions(+)

diff --git a/lib/include/spvgentwo/BasicBlockTemplate.inl b/lib/include/spvgentwo/BasicBlockTemplate.inl
index 36664dc..e6a00a7 100644
--- a/lib/include/spvgentwo/BasicBlockTemplate.inl
+++ b/lib/include/spvgentwo/BasicBlockTemplate.inl
@@ -28,6 +28,12 @@ namespace spvgentwo
 			falseBB->opBranch(&mergeBB);
 		}
 
+		// blocks added by the functions above may dominate the merge block, a merge block which already has instructions was placed by the user
+		if (mergeBB.empty())
+		{
+			m_pFunction->moveToEnd(mergeBB);
+		}
+
 		return mergeBB;
 	}
 
@@ -50,6 +56,12 @@ namespace spvgentwo
 			trueBB->opBranch(&mergeBB);		
 		}
 
+		// blocks added by the functions above may dominate the merge block, a merge block which already has instructions was placed by the user
+		if (mergeBB.empty())
+		{
+			m_pFunction->moveToEnd(mergeBB);
+		}
+
 		return mergeBB;
 	}
 
@@ -84,9 +96,18 @@ namespace spvgentwo
 			bodyBB->opBranch(&continueBB); // branch to "increment" / continue block
 		}
 
+		// blocks added by _body may dominate the continue block
+		m_pFunction->moveToEnd(continueBB);
+
 		_continue(continueBB);
 		continueBB->opBranch(&loop); // back edge to loop merge
 
+		// blocks added by the functions above may dominate the merge block, a merge block which already has instructions was placed by the user
+		if (mergeBB.empty())
+		{
+			m_pFunction->moveToEnd(mergeBB);
+		}
+
 		return mergeBB;
 	}
 } // !spvgentwo
\ No newline at end of file
diff --git a/lib/include/spvgentwo/Function.h b/lib/include/spvgentwo/Function.h
index 8064c62..3fdb64f 100644
--- a/lib/include/spvgentwo/Function.h
+++ b/lib/include/spvgentwo/Function.h
@@ -69,6 +69,9 @@ namespace spvgentwo
 
 		BasicBlock& addBasicBlock(const char* _pName = nullptr) { return emplace_back(this, _pName); }
 
+		// moves _bb, which has to be a block of this function, behind all other basic blocks
+		void moveToEnd(BasicBlock& _bb);
+
 		// remove _pBB from this function (destroying it), optionally replacing it with _pReplacement, returning uses of this basic block or its label
 		// if bool _gatherReferencedInstructions is true, also return uses of instructions from the removed basic block (OpName etc)
 		List<Instruction*> remove(const BasicBlock* _pBB, BasicBlock* _pReplacement = nullptr, IAllocator* _pAllocator = nullptr);
diff --git a/lib/source/Function.cpp b/lib/source/Function.cpp
index 6f956f4..51d4da5 100644
--- a/lib/source/Function.cpp
+++ b/lib/source/Function.cpp
@@ -137,6 +137,20 @@ const char* spvgentwo::Function::getName() const
 	return m_pModule->getName(&m_Function);
 }
 
+void spvgentwo::Function::moveToEnd(BasicBlock& _bb)
+{
+	for (auto it = begin(); it != end(); ++it)
+	{
+		if (it.operator->() == &_bb)
+		{
+			Entry<BasicBlock>* entry = it.entry();
+			erase(it, false); // unlink without destroying
+			append_entry(entry);
+			return;
+		}
+	}
+}
+
 spvgentwo::List<spvgentwo::Instruction*> spvgentwo::Function::remove(const BasicBlock* _pBB, BasicBlock* _pReplacement, IAllocator* _pAllocator)
 {
 	List<Instruction*> uses(_pAllocator != nullptr ? _pAllocator : getAllocator());
-- 
2.43.0


From 5a3bab47738ee37b3df56e11467f77a4f96fffff Mon Sep 17 00:00:00 2001
From: x <x@y>
Date: Thu, 19 Nov 2026 22:04:51 +0000
Subject: [PATCH 067/184] fix: a file reader that is used again starts over,
 and a failed read delivers no words

---
 common/source/BinaryFileReader.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/common/source/BinaryFileReader.cpp b/common/source/BinaryFileReader.cpp
index 16fa62a..a6b311d 100644
--- a/common/source/BinaryFileReader.cpp
+++ b/common/source/BinaryFileReader.cpp
@@ -20,6 +20,10 @@ bool spvgentwo::BinaryFileReader::get(unsigned int& _word)
 
 bool spvgentwo::BinaryFileReader::read(const char* _path, sgt_size_t _offset, sgt_size_t _length)
 {
+	// start over
+	m_buffer.clear();
+	m_pos = 0u;
+
 	if (_path == nullptr)
 	{
 		return false;
@@ -78,7 +82,12 @@ bool spvgentwo::BinaryFileReader::read(const char* _path, sgt_size_t _offset, sg
 				return false;
 			}
 
-			return fread(m_buffer.data(), sizeof(sgt_uint32_t), count, file) == count;
+			if (fread(m_buffer.data(), sizeof(sgt_uint32_t), count, file) == count)
+			{
+				return true;
+			}
+
+			m_buffer.clear(); // incomplete
 		}
 	}
 
-- 
2.43.0


From 6d8571b7fa42842565a6d40a70d66d223b635f8a Mon Sep 17 00:00:00 2001
From: x <x@y>
Date: Thu, 19 Nov 2026 22:04:51 +0000
Subject: [PATCH 068/184] fix: offsets passed to the file reader are subtracted
 from the remaining size instead of added to it

---
 common/source/BinaryFileReader.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/common/source/BinaryFileReader.cpp b/common/source/BinaryFileReader.cpp
index a6b311d..d6e4cb9 100644
--- a/common/source/BinaryFileReader.cpp
+++ b/common/source/BinaryFileReader.cpp
@@ -56,12 +56,18 @@ bool spvgentwo::BinaryFileReader::read(const char* _path, sgt_size_t _offset, sg
 
 	if (file != nullptr)
 	{
-		if (fseek(file, static_cast<long>(_offset), SEEK_END) != 0) 
+		if (fseek(file, 0, SEEK_END) != 0) 
 		{
 			return false;
 		}
 
-		auto remaining = static_cast<sgt_size_t>(ftell(file));
+		const long size = ftell(file);
+		if (size < 0 || _offset > static_cast<sgt_size_t>(size))
+		{
+			return false;
+		}
+
+		const sgt_size_t remaining = static_cast<sgt_size_t>(size) - _offset;
 		if (fseek(file, static_cast<long>(_offset), SEEK_SET) != 0u)
 		{
 			return false;
-- 
2.43.0


From 285fe822edfa7db886e61f7de50b8e25c20346eb Mon Sep 17 00:00:00 2001
From: x <x@y>
Date: Thu, 19 Nov 2026 22:04:51 +0000
Subject: [PATCH 069/184] fix: file writer reports words it could not store or
 write

---
 common/include/common/BinaryFileWriter.h |  3 ++-
 common/source/BinaryFileWriter.cpp       | 13 ++++++++-----
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/common/include/common/BinaryFileWriter.h b/common/include/common/BinaryFileWriter.h
index 2190b1c..dcbd7d1 100644
--- a/common/include/common/BinaryFileWriter.h
+++ b/common/include/common/BinaryFileWriter.h
@@ -17,7 +17,8 @@ namespace spvgentwo
 		bool isOpen() const { return m_pFile != nullptr; }
 		operator bool() const { return m_pFile != nullptr; }
 
-		void close();
+		// writes all words put so far, returns false if they could not be written
+		bool close();
 
 	private:
 		Vector<sgt_uint32_t> m_buffer;
diff --git a/common/source/BinaryFileWriter.cpp b/common/source/BinaryFileWriter.cpp
index b29e441..2d8acc4 100644
--- a/common/source/BinaryFileWriter.cpp
+++ b/common/source/BinaryFileWriter.cpp
@@ -14,8 +14,7 @@ spvgentwo::BinaryFileWriter::~BinaryFileWriter()
 
 bool spvgentwo::BinaryFileWriter::put(unsigned int _word)
 {
-	m_buffer.emplace_back(_word);
-	return true;
+	return m_buffer.emplace_back(_word) != nullptr;
 }
 
 bool spvgentwo::BinaryFileWriter::open(const char* _path)
@@ -38,17 +37,21 @@ bool spvgentwo::BinaryFileWriter::open(const char* _path)
 	return m_pFile != nullptr;
 }
 
-void spvgentwo::BinaryFileWriter::close()
+bool spvgentwo::BinaryFileWriter::close()
 {
+	bool success = true;
+
 	if (m_pFile != nullptr)
 	{
 		if (m_buffer.empty() == false)
 		{
-			fwrite(m_buffer.data(), sizeof(sgt_uint32_t), m_buffer.size(), static_cast<FILE*>(m_pFile));
+			success = fwrite(m_buffer.data(), sizeof(sgt_uint32_t), m_buffer.size(), static_cast<FILE*>(m_pFile)) == m_buffer.size();
 		}
 
-		fclose(static_cast<FILE*>(m_pFile));
+		success = fclose(static_cast<FILE*>(m_pFile)) == 0 && success;
 		m_pFile = nullptr;
 	}
 	m_buffer.clear();
+
+	return success;
 }
\ No newline at end of file
-- 
2.43.0


From 2c38504686bfcfeded5e542406866ff3df4e4dc8 Mon Sep 17 00:00:00 2001
From: x <x@y>
Date: Thu, 19 Nov 2026 22:04:51 +0000
Subject: [PATCH 070/184] fix: vector writer reports words it could not store

---
 common/include/common/BinaryVectorWriter.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/common/include/common/BinaryVectorWriter.h b/common/include/common/BinaryVectorWriter.h
index a85d637..21ce066 100644
--- a/common/include/common/BinaryVectorWriter.h
+++ b/common/include/common/BinaryVectorWriter.h
@@ -20,7 +20,8 @@ namespace spvgentwo
 	template<typename U32Vector>
 	inline bool BinaryVectorWriter<U32Vector>::put(unsigned int _word)
 	{
+		const auto size = m_vector.size();
 		m_vector.emplace_back(_word);
-		return true;
+		return m_vector.size() > size;
 	}
 } //!spvgentwo
-- 
2.43.0


From 8187b725bc74ecdbac05b0c60043d1072fcf9323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:54 +0000
Subject: [PATCH 071/184] fix: an entry point that shares the function of
 another one has no function of its own to iterate

---
 lib/include/spvgentwo/ModuleTemplate.inl | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/include/spvgentwo/ModuleTemplate.inl b/lib/include/spvgentwo/ModuleTemplate.inl
index 3d16cc9..13970f4 100644
--- a/lib/include/spvgentwo/ModuleTemplate.inl
+++ b/lib/include/spvgentwo/ModuleTemplate.inl
@@ -241,7 +241,10 @@ namespace spvgentwo
 		}
 		for (auto& ep : _module.getEntryPoints())
 		{
-			if (iterateFuncion(ep)) return true;
+			if (ep.empty() == false || ep.getFunction()->getOperation() == spv::Op::OpFunction)
+			{
+				if (iterateFuncion(ep)) return true;
+			}
 		}
 
 		return false;
-- 
2.43.0


From 7f75db3f351b3acea24418b073d7b7a87c9a3721 Mon Sep 17 00:00:00 2001
From: x <x@y>
Date: Thu, 19 Nov 2026 22:13:07 +0000
Subject: [PATCH 072/184] fix: adding a capability with its dependencies must
 add the second one it depends on

---
 lib/source/Module.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/source/Module.cpp b/lib/source/Module.cpp
index 0746de7..ed1e245 100644
--- a/lib/source/Module.cpp
+++ b/lib/source/Module.cpp
@@ -297,7 +297,7 @@ void spvgentwo::Module::addCapability(spv::Capability _capability, bool _addDepe
 		}
 		if (cap.secondary != spv::Capability::Max)
 		{
-			addCapability(cap.primary, true);
+			addCapability(cap.secondary, true);
 		}
 	}
 
-- 
2.43.0


From 7a327d7ad16af491865f8c4b036fc1fef7ec0697 Mon Sep 17 00:00:00 2001
From: x <x@y>
Date: Thu, 19 Nov 2026 22:13:07 +0000
Subject: [PATCH 073/184] fix: complete the table of capabilities a capability
 depends on

---
 lib/include/spvgentwo/SpvDefines.h | 32 ++++++++++++++++++++----------
 1 file changed, 21 insertions(+), 11 deletions(-)

diff --git a/lib/include/spvgentwo/SpvDefines.h b/lib/include/spvgentwo/SpvDefines.h
index 20e88be..55120b2 100644
--- a/lib/include/spvgentwo/SpvDefines.h
+++ b/lib/include/spvgentwo/SpvDefines.h
@@ -338,9 +338,9 @@ namespace spvgentwo
 		case spv::Capability::FragmentShadingRateKHR: return spv::Capability::Shader;
 		//case spv::Capability::SubgroupBallotKHR:
 		case spv::Capability::DrawParameters: return spv::Capability::Shader;
-		//case spv::Capability::WorkgroupMemoryExplicitLayoutKHR: unkown
-		//case spv::Capability::WorkgroupMemoryExplicitLayout8BitAccessKHR: unkonwn
-		//case spv::Capability::WorkgroupMemoryExplicitLayout16BitAccessKHR: unkown
+		case spv::Capability::WorkgroupMemoryExplicitLayoutKHR: return spv::Capability::Shader;
+		case spv::Capability::WorkgroupMemoryExplicitLayout8BitAccessKHR: return spv::Capability::WorkgroupMemoryExplicitLayoutKHR;
+		case spv::Capability::WorkgroupMemoryExplicitLayout16BitAccessKHR: return spv::Capability::WorkgroupMemoryExplicitLayoutKHR;
 		//case spv::Capability::SubgroupVoteKHR:
 		//case spv::Capability::StorageBuffer16BitAccess: // same as StorageUniformBufferBlock16
 		case spv::Capability::UniformAndStorageBuffer16BitAccess: return spv::Capability::StorageBuffer16BitAccess; // same as StorageUniform16
@@ -370,7 +370,8 @@ namespace spvgentwo
 		case spv::Capability::StencilExportEXT: return spv::Capability::Shader;
 		case spv::Capability::ImageReadWriteLodAMD: return spv::Capability::Shader;
 		case spv::Capability::Int64ImageEXT: return spv::Capability::Shader;
-		case spv::Capability::ShaderClockKHR: return spv::Capability::Shader;
+		//case spv::Capability::ShaderClockKHR:
+		case spv::Capability::ShaderEnqueueAMDX: return spv::Capability::Shader;
 		case spv::Capability::SampleMaskOverrideCoverageNV: return spv::Capability::SampleRateShading;
 		case spv::Capability::GeometryShaderPassthroughNV: return spv::Capability::Geometry;
 		case spv::Capability::ShaderViewportIndexLayerEXT: return spv::Capability::MultiViewport;
@@ -379,6 +380,7 @@ namespace spvgentwo
 		case spv::Capability::PerViewAttributesNV: return spv::Capability::MultiView;
 		case spv::Capability::FragmentFullyCoveredEXT:  return spv::Capability::Shader;
 		case spv::Capability::MeshShadingNV: return spv::Capability::Shader;
+		case spv::Capability::MeshShadingEXT: return spv::Capability::Shader;
 		//case spv::Capability::ImageFootprintNV:
 		//case spv::Capability::FragmentBarycentricNV:
 		//case spv::Capability::ComputeDerivativeGroupQuadsNV:
@@ -393,10 +395,15 @@ namespace spvgentwo
 		case spv::Capability::SampledImageArrayNonUniformIndexing: return spv::Capability::ShaderNonUniform;
 		case spv::Capability::StorageBufferArrayNonUniformIndexing: return spv::Capability::ShaderNonUniform;
 		case spv::Capability::StorageImageArrayNonUniformIndexing: return spv::Capability::ShaderNonUniform;
-		case spv::Capability::InputAttachmentArrayNonUniformIndexing: return spv::Capability::ShaderNonUniform;
-		case spv::Capability::UniformTexelBufferArrayNonUniformIndexing: return spv::Capability::ShaderNonUniform;
-		case spv::Capability::StorageTexelBufferArrayNonUniformIndexing: return spv::Capability::ShaderNonUniform;
+		case spv::Capability::InputAttachmentArrayNonUniformIndexing: return { spv::Capability::InputAttachment, spv::Capability::ShaderNonUniform };
+		case spv::Capability::UniformTexelBufferArrayNonUniformIndexing: return { spv::Capability::SampledBuffer, spv::Capability::ShaderNonUniform };
+		case spv::Capability::StorageTexelBufferArrayNonUniformIndexing: return { spv::Capability::ImageBuffer, spv::Capability::ShaderNonUniform };
+		case spv::Capability::RayTracingPositionFetchKHR: return spv::Capability::Shader;
 		case spv::Capability::RayTracingNV: return spv::Capability::Shader;
+		case spv::Capability::RayTracingMotionBlurNV: return spv::Capability::Shader;
+		case spv::Capability::RayTracingOpacityMicromapEXT: return { spv::Capability::RayQueryKHR, spv::Capability::RayTracingKHR };
+		case spv::Capability::ShaderInvocationReorderNV: return spv::Capability::RayTracingKHR;
+		case spv::Capability::RayQueryPositionFetchKHR: return spv::Capability::Shader;
 		//case spv::Capability::VulkanMemoryModel:
 		//case spv::Capability::VulkanMemoryModelDeviceScope:
 		case spv::Capability::PhysicalStorageBufferAddresses: return spv::Capability::Shader;
@@ -421,7 +428,7 @@ namespace spvgentwo
 		//case spv::Capability::AtomicFloat32MinMaxEXT: unknown
 		//case spv::Capability::AtomicFloat64MinMaxEXT: unknown
 		//case spv::Capability::AtomicFloat16MinMaxEXT: unknown
-		//case spv::Capability::VectorComputeINTEL: unknown
+		case spv::Capability::VectorComputeINTEL: return spv::Capability::VectorAnyINTEL;
 		//case spv::Capability::VectorAnyINTEL: unknown
 		//case spv::Capability::SubgroupAvcMotionEstimationINTEL:
 		//case spv::Capability::SubgroupAvcMotionEstimationIntraINTEL:
@@ -429,7 +436,7 @@ namespace spvgentwo
 		//case spv::Capability::VariableLengthArrayINTEL: unknown
 		//case spv::Capability::FunctionFloatControlINTEL: unknown
 		//case spv::Capability::FPGAMemoryAttributesINTEL: unknown
-		//case spv::Capability::FPFastMathModeINTEL: unknown
+		case spv::Capability::FPFastMathModeINTEL: return spv::Capability::Kernel;
 		//case spv::Capability::ArbitraryPrecisionIntegersINTEL: unknown
 		//case spv::Capability::UnstructuredLoopControlsINTEL:
 		//case spv::Capability::FPGALoopControlsINTEL:
@@ -443,8 +450,11 @@ namespace spvgentwo
 		//case spv::Capability::IOPipesINTEL: unknown
 		//case spv::Capability::BlockingPipesINTEL:
 		//case spv::Capability::FPGARegINTEL:
-		case spv::Capability::AtomicFloat32AddEXT: return spv::Capability::Shader;
-		case spv::Capability::AtomicFloat64AddEXT: return spv::Capability::Shader;
+		//case spv::Capability::AtomicFloat32AddEXT:
+		//case spv::Capability::AtomicFloat64AddEXT:
+		case spv::Capability::DotProductInput4x8Bit: return spv::Capability::Int8;
+		case spv::Capability::GroupNonUniformRotateKHR: return spv::Capability::GroupNonUniform;
+		case spv::Capability::FPGAKernelAttributesv2INTEL: return spv::Capability::FPGAKernelAttributesINTEL;
 		//case spv::Capability::LongConstantCompositeINTEL: unknown
 		default:
 			return spv::Capability::Max;
-- 
2.43.0


From ce60f1869bf0a1e352c339c251b520cd0c106bf2 Mon Sep 17 00:00:00 2001
From: x <x@y>
Date: Thu, 19 Nov 2026 22:13:49 +0000
Subject: [PATCH 074/184] fix: required capabilities must include those of
 extended instructions

---
 lib/source/Module.cpp | 43 +++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 43 insertions(+)

diff --git a/lib/source/Module.cpp b/lib/source/Module.cpp
index ed1e245..1ce5c80 100644
--- a/lib/source/Module.cpp
+++ b/lib/source/Module.cpp
@@ -12,6 +12,35 @@
 namespace
 {
 	static spvgentwo::ITypeInferenceAndVailation sg_DefaultTypeInference{};
+
+	// returns the grammar entry of the extended instruction _instr executes, nullptr if _instr is not an OpExtInst of a known set
+	const spvgentwo::Grammar::Instruction* getExtInstInfo(const spvgentwo::Instruction& _instr, const spvgentwo::Grammar& _grammar)
+	{
+		using namespace spvgentwo;
+
+		auto set = _instr.getFirstActualOperand();
+		if (_instr.getOperation() != spv::Op::OpExtInst || set == nullptr || set->getInstruction() == nullptr)
+		{
+			return nullptr;
+		}
+
+		auto number = set.next();
+		if (number == nullptr || number->isLiteral() == false)
+		{
+			return nullptr;
+		}
+
+		const Instruction* import = set->getInstruction();
+		if (compareLiteralString("GLSL.std.450", import->getFirstActualOperand(), import->end()))
+		{
+			return _grammar.getInfo(number->getLiteral().value, Grammar::Extension::Glsl);
+		}
+		if (compareLiteralString("OpenCL.std", import->getFirstActualOperand(), import->end()))
+		{
+			return _grammar.getInfo(number->getLiteral().value, Grammar::Extension::OpenCl);
+		}
+		return nullptr;
+	}
 }
 
 spvgentwo::Module::Module(IAllocator* _pAllocator, ILogger* _pLogger, ITypeInferenceAndVailation* _pTypeInferenceAndVailation) :
@@ -722,6 +751,13 @@ spvgentwo::spv::Id spvgentwo::Module::assignIDs(const Grammar* _pGrammar)
 					maxVersion = info->version;
 				}
 			}
+			if (auto* info = getExtInstInfo(instr, *_pGrammar); info != nullptr)
+			{
+				for (const spv::Capability& c : info->capabilities)
+				{
+					addCapability(c);
+				}
+			}
 		}
 
 		// assign IDs
@@ -1764,6 +1800,13 @@ void spvgentwo::Module::addRequiredCapabilities(const Grammar& _grammar)
 				addCapability(c);
 			}
 		}
+		if (auto* info = getExtInstInfo(_instr, _grammar); info != nullptr)
+		{
+			for (const spv::Capability& c : info->capabilities)
+			{
+				addCapability(c);
+			}
+		}
 	};
 
 	iterateInstructions(check);
-- 
2.43.0


From 52c701fc2f6a937f99047851f8829b7a1a88f4a3 Mon Sep 17 00:00:00 2001
From: x <x@y>
Date: Thu, 19 Nov 2026 22:22:11 +0000
Subject: [PATCH 075/184] fix: a type description can be assigned from one of
 its own members

---
 lib/source/Type.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/lib/source/Type.cpp b/lib/source/Type.cpp
index 9072a08..d1bbff5 100644
--- a/lib/source/Type.cpp
+++ b/lib/source/Type.cpp
@@ -52,7 +52,8 @@ spvgentwo::Type& spvgentwo::Type::operator=(Type&& _other) noexcept
 {
 	if (this == &_other) return *this;
 
-	m_subTypes = stdrep::move(_other.m_subTypes);
+	// _other might be one of our own members which are destroyed by the final assignment
+	List<Type> subTypes(stdrep::move(_other.m_subTypes));
 
 	m_Type = _other.m_Type;
 	m_IntSign = _other.m_IntSign;
@@ -65,12 +66,17 @@ spvgentwo::Type& spvgentwo::Type::operator=(Type&& _other) noexcept
 	m_StorageClass = _other.m_StorageClass;
 	m_AccessQualifier = _other.m_AccessQualifier;
 
+	m_subTypes = stdrep::move(subTypes);
+
 	return *this;
 }
 spvgentwo::Type& spvgentwo::Type::operator=(const Type& _other)
 {
 	if (this == &_other) return *this;
-	m_subTypes = _other.m_subTypes;
+
+	// _other might be one of our own members which are destroyed by the final assignment
+	List<Type> subTypes(m_subTypes.getAllocator());
+	subTypes = _other.m_subTypes;
 
 	m_Type = _other.m_Type;
 	m_IntSign = _other.m_IntSign;
@@ -83,6 +89,8 @@ spvgentwo::Type& spvgentwo::Type::operator=(const Type& _other)
 	m_StorageClass = _other.m_StorageClass;
 	m_AccessQualifier = _other.m_AccessQualifier;
 
+	m_subTypes = stdrep::move(subTypes);
+
 	return *this;
 }
 
-- 
2.43.0


From 793958a18049179ba32abdffcdf19f22aa7b803f Mon Sep 17 00:00:00 2001
From: x <x@y>
Date: Thu, 19 Nov 2026 22:23:24 +0000
Subject: [PATCH 076/184] fix: names of structures behind pointers and in
 arrays appear in the readable type name

---
 common/source/TypeHelper.cpp | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/common/source/TypeHelper.cpp b/common/source/TypeHelper.cpp
index daa7656..d18f5d2 100644
--- a/common/source/TypeHelper.cpp
+++ b/common/source/TypeHelper.cpp
@@ -14,13 +14,21 @@ namespace
 
 		if (_pOpTypeInstr != nullptr) // get subtype if possible
 		{
-			if (_pOpTypeInstr->isType())
+			const Instruction* pTypeInstr = _pOpTypeInstr->isType() ? _pOpTypeInstr : nullptr;
+
+			if (pTypeInstr == nullptr && _pOpTypeInstr->hasResultType())
 			{
-				op = _pOpTypeInstr->getFirstActualOperand();
+				pTypeInstr = _pOpTypeInstr->getResultTypeInstr();
 			}
-			else if (_pOpTypeInstr->hasResultType())
+
+			if (pTypeInstr != nullptr)
 			{
-				op = _pOpTypeInstr->getResultTypeInstr()->getFirstActualOperand();
+				op = pTypeInstr->getFirstActualOperand();
+
+				if (_type.isPointer() && op != nullptr) // skip storage class
+				{
+					++op;
+				}
 			}
 		}
 
@@ -145,7 +153,7 @@ namespace
 		}
 		else if (_type.isArray())
 		{
-			insertSubType(_type.front(), 0u, _pOpTypeInstr); // or pass subtype instr?
+			insertSubType(_type.front(), 0u, op != nullptr ? op->getInstruction() : nullptr);
 
 			if (const char* name = instrName(_pOpTypeInstr); name != nullptr)
 			{
-- 
2.43.0


From 2d41fe586a404d8ba4583c43157e215b34ce9039 Mon Sep 17 00:00:00 2001
From: x <x@y>
Date: Thu, 19 Nov 2026 22:30:36 +0000
Subject: [PATCH 077/184] fix: types that differ only in how their members are
 nested must have different hashes

---
 lib/include/spvgentwo/Type.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/include/spvgentwo/Type.h b/lib/include/spvgentwo/Type.h
index cf80c54..a18e916 100644
--- a/lib/include/spvgentwo/Type.h
+++ b/lib/include/spvgentwo/Type.h
@@ -668,7 +668,8 @@ namespace spvgentwo
 			_hasher << _type.getImageSamplerAccess();
 			_hasher << _type.getImageFormat();
 			_hasher << _type.getAccessQualifier();
-				
+			_hasher << static_cast<unsigned int>(_type.getSubTypes().size()); // struct{struct{a}, b} is not struct{struct{a, b}}
+
 			for (const Type& sub : _type.getSubTypes()) {
 				operator()(sub, _hasher); // go deeper
 			}
-- 
2.43.0


From 16f8fef13af328a6ec78b8f73af4151bc47f2504 Mon Sep 17 00:00:00 2001
From: x <x@y>
Date: Thu, 19 Nov 2026 22:30:36 +0000
Subject: [PATCH 078/184] fix: properties passed along with an image or pipe
 type must not be lost

---
 lib/include/spvgentwo/Type.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/include/spvgentwo/Type.h b/lib/include/spvgentwo/Type.h
index a18e916..baa4889 100644
--- a/lib/include/spvgentwo/Type.h
+++ b/lib/include/spvgentwo/Type.h
@@ -801,6 +801,11 @@ namespace spvgentwo
 		else
 		{
 			fundamental<T>(traits::selectTypeFromArgs<T>(_props...));
+
+			if constexpr (sizeof...(_props) > 0 && (stdrep::is_same_v<T, dyn_image_t> || stdrep::is_same_v<T, pipe_t>))
+			{
+				setProperties(_props...); // building the type has reset them
+			}
 		}
 
 		return *this;
-- 
2.43.0


From 61510a765e984060fa2d755cb3d310663871d727 Mon Sep 17 00:00:00 2001
From: x <x@y>
Date: Thu, 19 Nov 2026 22:30:36 +0000
Subject: [PATCH 079/184] fix: pipe types are emitted with their access
 qualifier

---
 lib/source/Module.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/source/Module.cpp b/lib/source/Module.cpp
index 1ce5c80..1b43e44 100644
--- a/lib/source/Module.cpp
+++ b/lib/source/Module.cpp
@@ -623,6 +623,9 @@ spvgentwo::Instruction* spvgentwo::Module::addType(const Type& _type, const char
 		pInstr->addOperand(addType(_type.getSubTypes().front())); // element type
 		pInstr->addOperand(constant(_type.getArrayLength())); // length as constant
 		break;
+	case spv::Op::OpTypePipe:
+		pInstr->appendLiterals(_type.getAccessQualifier());
+		break;
 	case spv::Op::OpTypeImage:
 		pInstr->addOperand(addType(_type.getSubTypes().front())); // sampled type
 		pInstr->appendLiterals(_type.getImageDimension());
@@ -996,6 +999,9 @@ bool spvgentwo::Module::reconstructTypeAndConstantInfo(IAllocator* _pAllocator)
 				}
 			}
 			break;
+			case spv::Op::OpTypePipe:
+				t.setAccessQualifier(static_cast<spv::AccessQualifier>(it->getLiteral().value));
+				break;
 			case spv::Op::OpTypeImage:
 			{
 				const Type* sub = getTypeInfo(it->getInstruction());
-- 
2.43.0


From 7b9dbc0c0ca8fc74068aacabb586b949ff235a16 Mon Sep 17 00:00:00 2001
From: x <x@y>
Date: Thu, 19 Nov 2026 22:30:36 +0000
Subject: [PATCH 080/184] fix: type and constant instructions added by the user
 refer to the stored description instead of the user's

---
 lib/source/Module.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/source/Module.cpp b/lib/source/Module.cpp
index 1b43e44..283ecd5 100644
--- a/lib/source/Module.cpp
+++ b/lib/source/Module.cpp
@@ -685,8 +685,8 @@ spvgentwo::Instruction* spvgentwo::Module::addTypeInstr(const Type* _pType)
 
 	if (_pType != nullptr)
 	{
-		m_TypeToInstr.emplaceUnique(*_pType, instr);
-		m_InstrToType.emplaceUnique(instr, _pType);
+		auto& node = m_TypeToInstr.emplaceUnique(*_pType, instr);
+		m_InstrToType.emplaceUnique(instr, &node.kv.key);
 	}
 
 	return instr;
@@ -698,8 +698,8 @@ spvgentwo::Instruction* spvgentwo::Module::addConstantInstr(const Constant* _pCo
 
 	if (_pConstant != nullptr)
 	{
-		m_ConstantToInstr.emplaceUnique(*_pConstant, instr);
-		m_InstrToConstant.emplaceUnique(instr, _pConstant);
+		auto& node = m_ConstantToInstr.emplaceUnique(*_pConstant, instr);
+		m_InstrToConstant.emplaceUnique(instr, &node.kv.key);
 	}
 
 	return instr;
-- 
2.43.0


From ed0ec2f38fb3fcff6639d4364c9ad1cfa01b2c42 Mon Sep 17 00:00:00 2001
From: x <x@y>
Date: Thu, 19 Nov 2026 22:40:58 +0000
Subject: [PATCH 081/184] fix: boolean constants read from a binary are
 described like those made from a value

---
 lib/source/Module.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/source/Module.cpp b/lib/source/Module.cpp
index 283ecd5..1443ffb 100644
--- a/lib/source/Module.cpp
+++ b/lib/source/Module.cpp
@@ -1052,11 +1052,15 @@ bool spvgentwo::Module::reconstructTypeAndConstantInfo(IAllocator* _pAllocator)
 			switch (instr.getOperation())
 			{
 			case spv::Op::OpConstantNull:
+				break; // nothing to do
 			case spv::Op::OpConstantTrue:
 			case spv::Op::OpSpecConstantTrue:
+				c.addData(true);
+				break;
 			case spv::Op::OpConstantFalse:
 			case spv::Op::OpSpecConstantFalse:
-				break; // nothing to do
+				c.addData(false);
+				break;
 			case spv::Op::OpConstant:
 			case spv::Op::OpSpecConstant:
 			case spv::Op::OpConstantSampler:
-- 
2.43.0


From 62ba8f6d85418d919b2fdb7afb0da32988ec84e7 Mon Sep 17 00:00:00 2001
From: x <x@y>
Date: Thu, 19 Nov 2026 22:40:58 +0000
Subject: [PATCH 082/184] fix: modules with specialization constant operations
 can be reconstructed

---
 lib/source/Module.cpp | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/lib/source/Module.cpp b/lib/source/Module.cpp
index 1443ffb..4c5ea2f 100644
--- a/lib/source/Module.cpp
+++ b/lib/source/Module.cpp
@@ -1092,6 +1092,24 @@ bool spvgentwo::Module::reconstructTypeAndConstantInfo(IAllocator* _pAllocator)
 					logError("Expected components for this constant composite [reconstructTypeAndConstantInfo]");
 				}
 				break;
+			case spv::Op::OpSpecConstantOp:
+				for (auto end = instr.end(); it != end; ++it)
+				{
+					if (it->isLiteral()) // op-code, indices
+					{
+						c.getData().emplace_back(it->getLiteral());
+					}
+					else if (const Constant* sub = getConstantInfo(it->getInstruction()); sub != nullptr)
+					{
+						c.Component() = *sub;
+					}
+					else
+					{
+						logError("Operand constant not found");
+						success = false;
+					}
+				}
+				break;
 			default:
 				logError("Constant [%u] not implemented", instr.getOperation());
 				success = false;
-- 
2.43.0


From 5d652de7bdf29797212db58a8633e9cba9a41193 Mon Sep 17 00:00:00 2001
From: x <x@y>
Date: Thu, 19 Nov 2026 22:40:58 +0000
Subject: [PATCH 083/184] fix: the opcode of a specialization constant
 operation is not the length of an array

---
 lib/source/Module.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/source/Module.cpp b/lib/source/Module.cpp
index 4c5ea2f..5a0aea0 100644
--- a/lib/source/Module.cpp
+++ b/lib/source/Module.cpp
@@ -988,7 +988,8 @@ bool spvgentwo::Module::reconstructTypeAndConstantInfo(IAllocator* _pAllocator)
 				}
 
 				auto cit = pConstInstr->getFirstActualOperand();
-				if (cit != nullptr && cit->isLiteral())
+				const bool isLength = pConstInstr->getOperation() == spv::Op::OpConstant || pConstInstr->getOperation() == spv::Op::OpSpecConstant;
+				if (isLength && cit != nullptr && cit->isLiteral())
 				{
 					t.setArrayLength(cit->literal); // array length
 				}
-- 
2.43.0


From 04924c259f8caf47e1c0ae04702910d957980c76 Mon Sep 17 00:00:00 2001
From: x <x@y>
Date: Thu, 19 Nov 2026 22:59:29 +0000
Subject: [PATCH 084/184] fix: opBitCount accepts integers

---
 lib/include/spvgentwo/SpvDefines.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/include/spvgentwo/SpvDefines.h b/lib/include/spvgentwo/SpvDefines.h
index 55120b2..09e5f2c 100644
--- a/lib/include/spvgentwo/SpvDefines.h
+++ b/lib/include/spvgentwo/SpvDefines.h
@@ -193,6 +193,7 @@ namespace spvgentwo
 		case spv::Op::OpSatConvertSToU:
 		case spv::Op::OpBitFieldInsert:
 		case spv::Op::OpBitReverse:
+		case spv::Op::OpBitCount:
 
 			_sign = Sign::Any;
 			return spv::Op::OpTypeInt;
-- 
2.43.0


From 9b381d3f407717de34316d873114bd862753c77b Mon Sep 17 00:00:00 2001
From: x <x@y>
Date: Thu, 19 Nov 2026 22:59:29 +0000
Subject: [PATCH 085/184] fix: derivatives of other than 32 bit floats are
 rejected

---
 lib/include/spvgentwo/SpvDefines.h | 20 ++++++++++++++++++++
 lib/source/Instruction.cpp         |  2 +-
 2 files changed, 21 insertions(+), 1 deletion(-)

diff --git a/lib/include/spvgentwo/SpvDefines.h b/lib/include/spvgentwo/SpvDefines.h
index 09e5f2c..07efe24 100644
--- a/lib/include/spvgentwo/SpvDefines.h
+++ b/lib/include/spvgentwo/SpvDefines.h
@@ -244,6 +244,26 @@ namespace spvgentwo
 
 	constexpr spv::Op getTypeFromOp(spv::Op _op) { Sign sign = Sign::Any; return getTypeFromOp(_op, sign); }
 
+	// component width the operands of _op must have, 0 if there is no restriction
+	constexpr unsigned int getComponentWidthFromOp(spv::Op _op)
+	{
+		switch (_op)
+		{
+		case spv::Op::OpDPdx:
+		case spv::Op::OpDPdy:
+		case spv::Op::OpFwidth:
+		case spv::Op::OpDPdxFine:
+		case spv::Op::OpDPdyFine:
+		case spv::Op::OpFwidthFine:
+		case spv::Op::OpDPdxCoarse:
+		case spv::Op::OpDPdyCoarse:
+		case spv::Op::OpFwidthCoarse:
+			return 32u;
+		default:
+			return 0u;
+		}
+	}
+
 	constexpr bool hasStringTerminator(unsigned int _word)
 	{
 		return (_word & 0x000000FFu) == 0u || (_word & 0x0000FF00) == 0u || (_word & 0x00FF0000) == 0u || (_word & 0xFF000000) == 0u;
diff --git a/lib/source/Instruction.cpp b/lib/source/Instruction.cpp
index c1b6d8d..7a4214c 100644
--- a/lib/source/Instruction.cpp
+++ b/lib/source/Instruction.cpp
@@ -1911,7 +1911,7 @@ spvgentwo::Instruction* spvgentwo::Instruction::scalarVecOp(spv::Op _op, spv::Op
 
 	if (pLeftType == nullptr) return error();
 
-	if (_pRight == nullptr && pLeftType->isScalarOrVectorOf(_type) && (!_checkSign || pLeftType->getBaseType().hasSign(_sign)))
+	if (_pRight == nullptr && pLeftType->isScalarOrVectorOf(_type, 0u, getComponentWidthFromOp(_op)) && (!_checkSign || pLeftType->getBaseType().hasSign(_sign)))
 	{
 		return makeOp(_op, InvalidInstr, InvalidId, _pLeft);
 	}
-- 
2.43.0


From e9988aff622d2c04833cec6dfa7ec70471d08309 Mon Sep 17 00:00:00 2001
From: x <x@y>
Date: Thu, 19 Nov 2026 22:59:29 +0000
Subject: [PATCH 086/184] fix: shifts by an integer of another width are
 accepted

---
 lib/include/spvgentwo/SpvDefines.h | 6 ++++++
 lib/source/Instruction.cpp         | 2 +-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/lib/include/spvgentwo/SpvDefines.h b/lib/include/spvgentwo/SpvDefines.h
index 07efe24..0d10abb 100644
--- a/lib/include/spvgentwo/SpvDefines.h
+++ b/lib/include/spvgentwo/SpvDefines.h
@@ -264,6 +264,12 @@ namespace spvgentwo
 		}
 	}
 
+	// the operands of most operations must have the same component width, the width of the shift is independent of the base
+	constexpr bool needsSameComponentWidth(spv::Op _op)
+	{
+		return _op != spv::Op::OpShiftRightLogical && _op != spv::Op::OpShiftRightArithmetic && _op != spv::Op::OpShiftLeftLogical;
+	}
+
 	constexpr bool hasStringTerminator(unsigned int _word)
 	{
 		return (_word & 0x000000FFu) == 0u || (_word & 0x0000FF00) == 0u || (_word & 0x00FF0000) == 0u || (_word & 0xFF000000) == 0u;
diff --git a/lib/source/Instruction.cpp b/lib/source/Instruction.cpp
index 7a4214c..62b9153 100644
--- a/lib/source/Instruction.cpp
+++ b/lib/source/Instruction.cpp
@@ -1915,7 +1915,7 @@ spvgentwo::Instruction* spvgentwo::Instruction::scalarVecOp(spv::Op _op, spv::Op
 	{
 		return makeOp(_op, InvalidInstr, InvalidId, _pLeft);
 	}
-	else if (pRightType != nullptr && pLeftType->isScalarOrVectorOfSameLength(_type, *pRightType) && (!_checkSign || (pLeftType->getBaseType().hasSign(_sign) && pRightType->getBaseType().hasSign(_sign))))
+	else if (pRightType != nullptr && pLeftType->isScalarOrVectorOfSameLength(_type, *pRightType, needsSameComponentWidth(_op)) && (!_checkSign || (pLeftType->getBaseType().hasSign(_sign) && pRightType->getBaseType().hasSign(_sign))))
 	{
 		return makeOp(_op, InvalidInstr, InvalidId, _pLeft, _pRight);
 	}
-- 
2.43.0


From 2fa6014d8d1170984e83ce013d12dd62aaa20d4f Mon Sep 17 00:00:00 2001
From: x <x@y>
Date: Thu, 19 Nov 2026 22:59:29 +0000
Subject: [PATCH 087/184] fix: a vector times a matrix has as many components
 as the matrix has columns

---
 lib/source/Instruction.cpp               | 2 +-
 lib/source/TypeInferenceAndValiation.cpp | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/source/Instruction.cpp b/lib/source/Instruction.cpp
index 62b9153..1b5a84f 100644
--- a/lib/source/Instruction.cpp
+++ b/lib/source/Instruction.cpp
@@ -1456,7 +1456,7 @@ spvgentwo::Instruction* spvgentwo::Instruction::opVectorTimesMatrix(Instruction*
 
 	if (pVecType->isVectorOfFloat() && pMatType->isMatrix() && pMatType->hasSameBase(*pVecType) && pMatType->front().getVectorComponentCount() == pVecType->getVectorComponentCount())
 	{
-		return makeOp(spv::Op::OpVectorTimesMatrix, _pVector->getResultTypeInstr(), InvalidId, _pVector, _pMatrix);
+		return makeOp(spv::Op::OpVectorTimesMatrix, InvalidInstr, InvalidId, _pVector, _pMatrix);
 	}
 
 	getModule()->logError("Operand of OpVectorTimesMatrix is not a vector or matrix of float type");
diff --git a/lib/source/TypeInferenceAndValiation.cpp b/lib/source/TypeInferenceAndValiation.cpp
index d40293f..94763fa 100644
--- a/lib/source/TypeInferenceAndValiation.cpp
+++ b/lib/source/TypeInferenceAndValiation.cpp
@@ -219,14 +219,14 @@ spvgentwo::Instruction* spvgentwo::ITypeInferenceAndVailation::inferResultType(c
 		break;
 	case spv::Op::OpVectorTimesMatrix:
 	{
-		if (type1 == nullptr) return module->getErrorInstr();
+		if (type1 == nullptr || type2 == nullptr) return module->getErrorInstr();
 
 		// Matrix must be a matrix with the same Component Type as the Component Type in Result Type.
 		// Its number of columns must equal the number of components in Result Type.
 		// => return matrix row type:
-		if (type1->isMatrix())
+		if (type2->isMatrix())
 		{
-			return module->addType(type1->front().wrapVector(type1->getMatrixColumnCount()));
+			return module->addType(type2->getBaseType().wrapVector(type2->getMatrixColumnCount()));
 		}
 		break;
 	}
-- 
2.43.0


From 7ac12c9b2184b4a630be7c151cb3e1de0ab25a69 Mon Sep 17 00:00:00 2001
From: x <x@y>
Date: Thu, 19 Nov 2026 22:59:29 +0000
Subject: [PATCH 088/184] fix: 8 bit integers are converted to a float type
 that exists

---
 lib/source/TypeInferenceAndValiation.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/source/TypeInferenceAndValiation.cpp b/lib/source/TypeInferenceAndValiation.cpp
index 94763fa..650185b 100644
--- a/lib/source/TypeInferenceAndValiation.cpp
+++ b/lib/source/TypeInferenceAndValiation.cpp
@@ -468,6 +468,8 @@ spvgentwo::Instruction* spvgentwo::ITypeInferenceAndVailation::inferResultType(c
 		base.setType(spv::Op::OpTypeFloat);
 		base.setIntSign(false); // reset sign
 
+		if (base.getFloatWidth() < 16u) base.setFloatWidth(32u); // there is no float type of this width
+
 		return module->addType(t);
 	}
 	default:
-- 
2.43.0


From fd43fe487d125077ab99d48ac9785a4405852d3c Mon Sep 17 00:00:00 2001
From: x <x@y>
Date: Thu, 19 Nov 2026 22:59:29 +0000
Subject: [PATCH 089/184] fix: conversions to widths no type has are rejected

---
 lib/include/spvgentwo/SpvDefines.h | 4 ++++
 lib/source/Instruction.cpp         | 6 +++---
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/lib/include/spvgentwo/SpvDefines.h b/lib/include/spvgentwo/SpvDefines.h
index 0d10abb..bc16fcb 100644
--- a/lib/include/spvgentwo/SpvDefines.h
+++ b/lib/include/spvgentwo/SpvDefines.h
@@ -270,6 +270,10 @@ namespace spvgentwo
 		return _op != spv::Op::OpShiftRightLogical && _op != spv::Op::OpShiftRightArithmetic && _op != spv::Op::OpShiftLeftLogical;
 	}
 
+	// widths integer and float types can have
+	constexpr bool isIntWidth(unsigned int _bitWidth) { return _bitWidth == 8u || _bitWidth == 16u || _bitWidth == 32u || _bitWidth == 64u; }
+	constexpr bool isFloatWidth(unsigned int _bitWidth) { return _bitWidth == 16u || _bitWidth == 32u || _bitWidth == 64u; }
+
 	constexpr bool hasStringTerminator(unsigned int _word)
 	{
 		return (_word & 0x000000FFu) == 0u || (_word & 0x0000FF00) == 0u || (_word & 0x00FF0000) == 0u || (_word & 0xFF000000) == 0u;
diff --git a/lib/source/Instruction.cpp b/lib/source/Instruction.cpp
index 1b5a84f..5b5908c 100644
--- a/lib/source/Instruction.cpp
+++ b/lib/source/Instruction.cpp
@@ -1654,7 +1654,7 @@ spvgentwo::Instruction* spvgentwo::Instruction::opUConvert(Instruction* _pUintVe
 
 	if (type == nullptr) return error();
 
-	if (Type t = *type; t.isScalarOrVectorOf(spv::Op::OpTypeInt, 0u, 0u, Sign::Unsigned) && t.getBaseType().getIntWidth() != _bitWidth)
+	if (Type t = *type; t.isScalarOrVectorOf(spv::Op::OpTypeInt, 0u, 0u, Sign::Unsigned) && t.getBaseType().getIntWidth() != _bitWidth && isIntWidth(_bitWidth))
 	{
 		t.getBaseType().setIntWidth(_bitWidth);
 		return makeOp(spv::Op::OpUConvert, getModule()->addType(t), InvalidId, _pUintVec);
@@ -1671,7 +1671,7 @@ spvgentwo::Instruction* spvgentwo::Instruction::opSConvert(Instruction* _pSIntVe
 
 	if (type == nullptr) return error();
 
-	if (Type t = *type; t.isScalarOrVectorOf(spv::Op::OpTypeInt, 0u, 0u, Sign::Signed) && t.getBaseType().getIntWidth() != _bitWidth)
+	if (Type t = *type; t.isScalarOrVectorOf(spv::Op::OpTypeInt, 0u, 0u, Sign::Signed) && t.getBaseType().getIntWidth() != _bitWidth && isIntWidth(_bitWidth))
 	{
 		t.getBaseType().setIntWidth(_bitWidth);
 		return makeOp(spv::Op::OpSConvert, getModule()->addType(t), InvalidId, _pSIntVec);
@@ -1689,7 +1689,7 @@ spvgentwo::Instruction* spvgentwo::Instruction::opFConvert(Instruction* _pFloatV
 	if (type == nullptr) return error();
 
 	// copy type for manipulation
-	if (Type t = *type; t.isScalarOrVectorOf(spv::Op::OpTypeFloat) && t.getBaseType().getFloatWidth() != _bitWidth)
+	if (Type t = *type; t.isScalarOrVectorOf(spv::Op::OpTypeFloat) && t.getBaseType().getFloatWidth() != _bitWidth && isFloatWidth(_bitWidth))
 	{
 		t.getBaseType().setFloatWidth(_bitWidth);
 		return makeOp(spv::Op::OpFConvert, getModule()->addType(t), InvalidId, _pFloatVec);
-- 
2.43.0


From 8a85ed25c7d68108b77387b09c74a4da87fbbdd9 Mon Sep 17 00:00:00 2001
From: x <x@y>
Date: Thu, 19 Nov 2026 22:59:29 +0000
Subject: [PATCH 090/184] fix: bitcasts of booleans and aggregates are rejected

---
 lib/source/Instruction.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/source/Instruction.cpp b/lib/source/Instruction.cpp
index 5b5908c..4c5aed8 100644
--- a/lib/source/Instruction.cpp
+++ b/lib/source/Instruction.cpp
@@ -1773,8 +1773,10 @@ spvgentwo::Instruction* spvgentwo::Instruction::opBitcast(Instruction* _pResultT
 		return error();
 	}
 
+	auto isPointerOrNumerical = [](const Type& _type) { return _type.isPointer() || _type.isNumericalScalarOrVector(); };
+
 	if ((operandType->isPointer() && resultType->isPointer()) ||
-		(operandType->getScalarOrVectorLength() * operandType->getBaseType().getIntWidth() ==
+		(isPointerOrNumerical(*operandType) && isPointerOrNumerical(*resultType) && operandType->getScalarOrVectorLength() * operandType->getBaseType().getIntWidth() ==
 			resultType->getScalarOrVectorLength() * resultType->getBaseType().getIntWidth()))
 	{
 		return makeOp(spv::Op::OpBitcast, _pResultType, InvalidId, _pOperand);
-- 
2.43.0


From 9a7f97c3265820aa5a28768e735f8bb4840a2683 Mon Sep 17 00:00:00 2001
From: x <x@y>
Date: Thu, 19 Nov 2026 23:02:57 +0000
Subject: [PATCH 091/184] fix: converting a rejected operation to a
 specialization constant operation leaves the error instruction alone

---
 lib/source/Instruction.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/source/Instruction.cpp b/lib/source/Instruction.cpp
index 4c5aed8..122b331 100644
--- a/lib/source/Instruction.cpp
+++ b/lib/source/Instruction.cpp
@@ -1789,9 +1789,6 @@ spvgentwo::Instruction* spvgentwo::Instruction::opBitcast(Instruction* _pResultT
 
 spvgentwo::Instruction* spvgentwo::Instruction::toSpecOp()
 {
-	spv::Op opcode = m_Operation;
-	m_Operation = spv::Op::OpSpecConstantOp;
-
 	auto it = getFirstActualOperand();
 	if (it == nullptr)
 	{
@@ -1799,6 +1796,9 @@ spvgentwo::Instruction* spvgentwo::Instruction::toSpecOp()
 		return error();
 	}
 
+	const spv::Op opcode = m_Operation;
+	m_Operation = spv::Op::OpSpecConstantOp;
+
 	insert_before(it, opcode);
 
 	return this;
-- 
2.43.0


From c1266a66b5b7ebb8c02971bc1b74f6fe659c2229 Mon Sep 17 00:00:00 2001
From: x <x@y>
Date: Thu, 19 Nov 2026 23:02:57 +0000
Subject: [PATCH 092/184] fix: pointers are not converted to integers of a
 width no type has

---
 lib/source/Instruction.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/source/Instruction.cpp b/lib/source/Instruction.cpp
index 122b331..4e8cb3a 100644
--- a/lib/source/Instruction.cpp
+++ b/lib/source/Instruction.cpp
@@ -1722,13 +1722,13 @@ spvgentwo::Instruction* spvgentwo::Instruction::opConvertPtrToU(Instruction* _pP
 
 	if (type == nullptr) return error();
 
-	if (type->isPointer() && type->getStorageClass() == spv::StorageClass::PhysicalStorageBuffer)
+	if (type->isPointer() && type->getStorageClass() == spv::StorageClass::PhysicalStorageBuffer && isIntWidth(_bitWidth))
 	{
 		Type t(getModule()->newType());
 		return makeOp(spv::Op::OpConvertPtrToU, getModule()->addType(t.UInt(_bitWidth)), InvalidId, _pPhysPtr);
 	}
 
-	getModule()->logError("Operand of OpConvertPtrToU is not a physical pointer type");
+	getModule()->logError("Operand of OpConvertPtrToU is not a physical pointer type or there is no integer type of this width");
 
 	return error();
 }
-- 
2.43.0


From dd79db77d998fbf8dc82dc8f7160a80d453f3ca4 Mon Sep 17 00:00:00 2001
From: x <x@y>
Date: Thu, 19 Nov 2026 23:02:57 +0000
Subject: [PATCH 093/184] fix: physical pointers cannot be compared by
 OpPtrEqual and OpPtrNotEqual

---
 lib/source/Instruction.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/lib/source/Instruction.cpp b/lib/source/Instruction.cpp
index 4e8cb3a..0eccb00 100644
--- a/lib/source/Instruction.cpp
+++ b/lib/source/Instruction.cpp
@@ -1814,11 +1814,12 @@ spvgentwo::Instruction* spvgentwo::Instruction::opPtrEqual(Instruction* _pLeftPt
 
 	if (leftType == nullptr || rightType == nullptr) return error();
 
-	auto typeCheck = leftType->isPointer() && rightType->isPointer() && *leftType == *rightType;
+	auto typeCheck = leftType->isPointer() && rightType->isPointer() && *leftType == *rightType &&
+		leftType->getStorageClass() != spv::StorageClass::PhysicalStorageBuffer;
 	
 	if (!typeCheck)
 	{
-		module->logError("The types of _pLeftPtr and _pRightPtr must be pointers of the same type.");
+		module->logError("The types of _pLeftPtr and _pRightPtr must be pointers of the same type and not physical pointers.");
 		return error();
 	}
 
@@ -1835,11 +1836,12 @@ spvgentwo::Instruction* spvgentwo::Instruction::opPtrNotEqual(Instruction* _pLef
 
 	if (leftType == nullptr || rightType == nullptr) return error();
 
-	auto typeCheck = leftType->isPointer() && rightType->isPointer() && *leftType == *rightType;
+	auto typeCheck = leftType->isPointer() && rightType->isPointer() && *leftType == *rightType &&
+		leftType->getStorageClass() != spv::StorageClass::PhysicalStorageBuffer;
 
 	if (!typeCheck)
 	{
-		module->logError("The types of _pLeftPtr and _pRightPtr must be pointers of the same type.");
+		module->logError("The types of _pLeftPtr and _pRightPtr must be pointers of the same type and not physical pointers.");
 		return error();
 	}
 
-- 
2.43.0


From 458f466d207910024f75a26a0616ff37d1d7b711 Mon Sep 17 00:00:00 2001
From: x <x@y>
Date: Thu, 19 Nov 2026 23:03:57 +0000
Subject: [PATCH 094/184] fix: specialization constant operations are declared
 after their result type and operands

---
 lib/include/spvgentwo/Instruction.h           |  3 +++
 lib/include/spvgentwo/InstructionTemplate.inl |  6 ++++-
 lib/source/Instruction.cpp                    | 26 +++++++++++++++++++
 3 files changed, 34 insertions(+), 1 deletion(-)

diff --git a/lib/include/spvgentwo/Instruction.h b/lib/include/spvgentwo/Instruction.h
index 7a381b0..781bcd2 100644
--- a/lib/include/spvgentwo/Instruction.h
+++ b/lib/include/spvgentwo/Instruction.h
@@ -782,6 +782,9 @@ namespace spvgentwo
 		template <class ...ImageOperands>
 		Instruction* genericImageOp(const spv::Op _imageOp, Instruction* _pTargetImage, Instruction* _pCoordinate, Instruction* _pDrefOrCompnent, const Flag<spv::ImageOperandsMask> _imageOperands, ImageOperands... _operands);
 
+		// moves this instruction to the end of the modules types and constants if one of its operands was declared after it
+		void moveBehindOperands();
+
 		// checks types based on passed _type and_sign
 		Instruction* scalarVecOp(spv::Op _op, spv::Op _type, Sign _sign, Instruction* _pLeft, Instruction* _pRight, const char* _pErrorMsg, bool _checkSign);
 
diff --git a/lib/include/spvgentwo/InstructionTemplate.inl b/lib/include/spvgentwo/InstructionTemplate.inl
index b3ec547..f277b26 100644
--- a/lib/include/spvgentwo/InstructionTemplate.inl
+++ b/lib/include/spvgentwo/InstructionTemplate.inl
@@ -64,7 +64,11 @@ namespace spvgentwo
 		}
 
 		// TODO: check _opcode for valid operations
-		return makeOp(spv::Op::OpSpecConstantOp, _pResultType, InvalidId, _opcode, _instrOperands...);
+		Instruction* specOp = makeOp(spv::Op::OpSpecConstantOp, _pResultType, InvalidId, _opcode, _instrOperands...);
+
+		moveBehindOperands();
+
+		return specOp;
 	}
 
 	template<class T, class ...Args>
diff --git a/lib/source/Instruction.cpp b/lib/source/Instruction.cpp
index 0eccb00..e2bc7a9 100644
--- a/lib/source/Instruction.cpp
+++ b/lib/source/Instruction.cpp
@@ -1801,9 +1801,35 @@ spvgentwo::Instruction* spvgentwo::Instruction::toSpecOp()
 
 	insert_before(it, opcode);
 
+	moveBehindOperands();
+
 	return this;
 }
 
+void spvgentwo::Instruction::moveBehindOperands()
+{
+	// types and constants are declared in the order they were added to the module
+	List<Instruction>& declarations = getModule()->getTypesAndConstants();
+
+	const auto self = declarations.find_if([this](const Instruction& _instr) { return &_instr == this; });
+
+	if (self == nullptr) return;
+
+	for (auto it = self.next(); it != nullptr; ++it)
+	{
+		for (const Operand& op : *this)
+		{
+			if (op.isInstruction() && op.instruction == it.operator->())
+			{
+				Entry<Instruction>* entry = self.entry();
+				declarations.erase(self, false);
+				declarations.append_entry(entry);
+				return;
+			}
+		}
+	}
+}
+
 spvgentwo::Instruction* spvgentwo::Instruction::opPtrEqual(Instruction* _pLeftPtr,
 	Instruction* _pRightPtr)
 {
-- 
2.43.0


From 1ab8017f6c918d6d06328315eb81b51e6c64ac26 Mon Sep 17 00:00:00 2001
From: x <x@y>
Date: Thu, 19 Nov 2026 23:16:57 +0000
Subject: [PATCH 095/184] fix: access chains by index lists walk the type and
 reject indices that do not fit it

---
 lib/include/spvgentwo/InstructionTemplate.inl |  7 ++++---
 lib/include/spvgentwo/Type.h                  |  3 +++
 lib/source/Instruction.cpp                    | 10 ++++-----
 lib/source/Type.cpp                           | 21 +++++++++++++++++++
 4 files changed, 33 insertions(+), 8 deletions(-)

diff --git a/lib/include/spvgentwo/InstructionTemplate.inl b/lib/include/spvgentwo/InstructionTemplate.inl
index f277b26..d6ed62d 100644
--- a/lib/include/spvgentwo/InstructionTemplate.inl
+++ b/lib/include/spvgentwo/InstructionTemplate.inl
@@ -266,16 +266,17 @@ namespace spvgentwo
 		const Type* pBaseType = _pBase->getType();
 		if (pBaseType == nullptr) return error();
 
-		auto it = pBaseType->getSubType(0u, _indices...); // base is a pointer type, so 0 is used to get the inner type
+		const Type* pType = pBaseType->isPointer() && pBaseType->getSubTypes().empty() == false ? &pBaseType->front() : nullptr; // base is a pointer type, get the inner type
+		((pType = pType != nullptr ? pType->getComponentType(_indices) : nullptr), ...);
 
-		if (it != nullptr)
+		if (pType != nullptr)
 		{
 			Module* pModule = _pBase->getModule();
 
 			// Result Type must be an OpTypePointer.
 			// Its Type operand must be the type reached by walking the Base’s type hierarchy down to the last provided index in Indexes, and its Storage Class operand must be the same as the Storage Class of Base.
 	
-			Instruction* pResultType = pModule->addType(it->wrapPointer(pBaseType->getStorageClass()));
+			Instruction* pResultType = pModule->addType(pType->wrapPointer(pBaseType->getStorageClass()));
 
 			return makeOp(spv::Op::OpAccessChain, pResultType, InvalidId, _pBase, pModule->template constant<unsigned int>(_indices)...);
 		}
diff --git a/lib/include/spvgentwo/Type.h b/lib/include/spvgentwo/Type.h
index baa4889..8576605 100644
--- a/lib/include/spvgentwo/Type.h
+++ b/lib/include/spvgentwo/Type.h
@@ -396,6 +396,9 @@ namespace spvgentwo
 		// depth first traversal of type hierarchy using integer indices (dynamic variant), returns the iterator of the last valid type accessed by index
 		Iterator getSubType(const List<unsigned int>& _indices) const;
 
+		// returns the type of the component, column, element or member accessed by index, nullptr if this type is not indexable or the index is out of range
+		const Type* getComponentType(unsigned int _index) const;
+
 		// creates a new empty type from this types allocator
 		Type New() const;
 
diff --git a/lib/source/Instruction.cpp b/lib/source/Instruction.cpp
index e2bc7a9..091ab29 100644
--- a/lib/source/Instruction.cpp
+++ b/lib/source/Instruction.cpp
@@ -1147,21 +1147,21 @@ spvgentwo::Instruction* spvgentwo::Instruction::opAccessChain(Instruction* _pBas
 	const Type* pBaseType = _pBase->getType();
 	if (pBaseType == nullptr) return error();
 
-	auto it = pBaseType->getSubType(0u); // base is a pointer type, so 0 is used to get the inner type
+	const Type* pType = pBaseType->isPointer() && pBaseType->getSubTypes().empty() == false ? &pBaseType->front() : nullptr; // base is a pointer type, get the inner type
 
-	if (it != nullptr)
+	for (unsigned int i : _indices)
 	{
-		it = it->getSubType(_indices);
+		pType = pType != nullptr ? pType->getComponentType(i) : nullptr;
 	}
 
-	if (it != nullptr)
+	if (pType != nullptr)
 	{
 		Module* pModule = _pBase->getModule();
 
 		// Result Type must be an OpTypePointer.
 		// Its Type operand must be the type reached by walking the Base�s type hierarchy down to the last provided index in Indexes, and its Storage Class operand must be the same as the Storage Class of Base.
 
-		Instruction* pResultType = pModule->addType(it->wrapPointer(pBaseType->getStorageClass()));
+		Instruction* pResultType = pModule->addType(pType->wrapPointer(pBaseType->getStorageClass()));
 
 		makeOp(spv::Op::OpAccessChain, pResultType, InvalidId, _pBase);
 
diff --git a/lib/source/Type.cpp b/lib/source/Type.cpp
index d1bbff5..fe7dbe1 100644
--- a/lib/source/Type.cpp
+++ b/lib/source/Type.cpp
@@ -717,6 +717,27 @@ spvgentwo::List<spvgentwo::Type>::Iterator spvgentwo::Type::getSubType(const Lis
 	return it;
 }
 
+const spvgentwo::Type* spvgentwo::Type::getComponentType(unsigned int _index) const
+{
+	if (m_subTypes.empty()) return nullptr;
+
+	switch (m_Type)
+	{
+	case spv::Op::OpTypeStruct:
+		return _index < m_subTypes.size() ? (m_subTypes.begin() + _index).operator->() : nullptr;
+	case spv::Op::OpTypeVector:
+		return _index < m_VecComponentCount ? &front() : nullptr;
+	case spv::Op::OpTypeMatrix:
+		return _index < m_MatColumnCount ? &front() : nullptr;
+	case spv::Op::OpTypeArray:
+		return _index < m_ArrayLength ? &front() : nullptr;
+	case spv::Op::OpTypeRuntimeArray:
+		return &front();
+	default:
+		return nullptr;
+	}
+}
+
 spvgentwo::Type spvgentwo::Type::New() const
 {
 	return Type(m_subTypes.getAllocator());
-- 
2.43.0


From 1e09b4404b9597b93835a68b88376117662fbc6d Mon Sep 17 00:00:00 2001
From: x <x@y>
Date: Thu, 19 Nov 2026 23:16:57 +0000
Subject: [PATCH 096/184] fix: composite extraction and insertion walk the type
 and reject indices that do not fit it

---
 lib/include/spvgentwo/InstructionTemplate.inl | 14 ++++++++------
 lib/source/Instruction.cpp                    | 10 +++++-----
 2 files changed, 13 insertions(+), 11 deletions(-)

diff --git a/lib/include/spvgentwo/InstructionTemplate.inl b/lib/include/spvgentwo/InstructionTemplate.inl
index d6ed62d..fe8cc42 100644
--- a/lib/include/spvgentwo/InstructionTemplate.inl
+++ b/lib/include/spvgentwo/InstructionTemplate.inl
@@ -570,11 +570,12 @@ namespace spvgentwo
 			return error();
 		}
 
-		auto it = pBaseType->getSubType(_indices...);
+		const Type* pType = pBaseType;
+		((pType = pType != nullptr ? pType->getComponentType(_indices) : nullptr), ...);
 
-		if (it != nullptr)
+		if (pType != nullptr && sizeof...(_indices) > 0u)
 		{
-			Instruction* pResultType = pModule->addType(*it);
+			Instruction* pResultType = pModule->addType(*pType);
 			return makeOp(spv::Op::OpCompositeExtract, pResultType, InvalidId, _pComposite, literal_t{ _indices }...);
 		}
 
@@ -604,14 +605,15 @@ namespace spvgentwo
 			return error();
 		}
 
-		auto it = pBaseType->getSubType(_indices...);
+		const Type* pType = pBaseType;
+		((pType = pType != nullptr ? pType->getComponentType(_indices) : nullptr), ...);
 
-		if (it != nullptr)
+		if (pType != nullptr && sizeof...(_indices) > 0u)
 		{
 			const Type* pValueType = _pValue->getType();
 			if (pValueType == nullptr) return error();
 
-			if (*it == *pValueType)
+			if (*pType == *pValueType)
 			{
 				return makeOp(spv::Op::OpCompositeInsert, _pComposite->getResultTypeInstr(), InvalidId, _pValue, _pComposite, literal_t{ _indices }...);
 			}
diff --git a/lib/source/Instruction.cpp b/lib/source/Instruction.cpp
index 091ab29..3725471 100644
--- a/lib/source/Instruction.cpp
+++ b/lib/source/Instruction.cpp
@@ -1292,16 +1292,16 @@ spvgentwo::Instruction* spvgentwo::Instruction::opCompositeExtractDynamic(Instru
 		return error();
 	}
 
-	auto it = pBaseType->getSubType(0u);
+	const Type* pType = _indices.empty() ? nullptr : pBaseType;
 
-	if (it != nullptr)
+	for (unsigned int i : _indices)
 	{
-		it = it->getSubType(_indices);
+		pType = pType != nullptr ? pType->getComponentType(i) : nullptr;
 	}
 
-	if (it != nullptr)
+	if (pType != nullptr)
 	{
-		Instruction* pResultType = pModule->addType(*it);
+		Instruction* pResultType = pModule->addType(*pType);
 		makeOp(spv::Op::OpCompositeExtract, pResultType, InvalidId, _pComposite);
 
 		for (auto i : _indices)
-- 
2.43.0


From 01d696233ebe536411253fc4136c2d8bf0e8f81f Mon Sep 17 00:00:00 2001
From: x <x@y>
Date: Thu, 19 Nov 2026 23:16:57 +0000
Subject: [PATCH 097/184] fix: access chains with a given result type check
 that the indices lead to it

---
 lib/include/spvgentwo/Instruction.h           |  3 +
 lib/include/spvgentwo/InstructionTemplate.inl |  6 ++
 lib/source/Instruction.cpp                    | 67 +++++++++++++++++++
 3 files changed, 76 insertions(+)

diff --git a/lib/include/spvgentwo/Instruction.h b/lib/include/spvgentwo/Instruction.h
index 781bcd2..5a45d09 100644
--- a/lib/include/spvgentwo/Instruction.h
+++ b/lib/include/spvgentwo/Instruction.h
@@ -760,6 +760,9 @@ namespace spvgentwo
 		// return error instr
 		[[nodiscard]] Instruction* error() const;
 
+		// checks that _pResultType is the pointer type reached by walking the type of _pBase along the index instructions
+		bool checkAccessChain(const Instruction* _pResultType, const Instruction* _pBase, const Instruction* const* _pIndices, unsigned int _count) const;
+
 		template <class ... Operands>
 		void opCopyMemorySizedImpl(Instruction* _pTargetPtr, Instruction* _pSourcePtr, Instruction* _pSizeInt, Flag<spv::MemoryAccessMask> _targetMemOperands = spv::MemoryAccessMask::MaskNone, Flag<spv::MemoryAccessMask> _sourceMemOperands = spv::MemoryAccessMask::MaskNone, Operands ... _operands);
 
diff --git a/lib/include/spvgentwo/InstructionTemplate.inl b/lib/include/spvgentwo/InstructionTemplate.inl
index fe8cc42..9638185 100644
--- a/lib/include/spvgentwo/InstructionTemplate.inl
+++ b/lib/include/spvgentwo/InstructionTemplate.inl
@@ -249,6 +249,9 @@ namespace spvgentwo
 			return error();
 		}
 
+		const Instruction* const indices[] = { _pIndices..., nullptr };
+		if (checkAccessChain(_pResultType, _pBase, indices, sizeof...(_pIndices)) == false) return error();
+
 		return makeOp(spv::Op::OpAccessChain, _pResultType, InvalidId, _pBase, _pIndices...);
 	}
 
@@ -308,6 +311,9 @@ namespace spvgentwo
 			return error();
 		}
 
+		const Instruction* const indices[] = { _pConstIndex, _pIndices... };
+		if (checkAccessChain(_pResultType, _pBase, indices, sizeof...(_pIndices) + 1u) == false) return error();
+
 		return makeOp(spv::Op::OpInBoundsAccessChain, _pResultType, InvalidId, _pBase, _pConstIndex, _pIndices...);
 	}
 
diff --git a/lib/source/Instruction.cpp b/lib/source/Instruction.cpp
index 3725471..ad7a892 100644
--- a/lib/source/Instruction.cpp
+++ b/lib/source/Instruction.cpp
@@ -1141,6 +1141,73 @@ spvgentwo::Instruction* spvgentwo::Instruction::opVariable(Instruction* _pResult
 	}
 }
 
+bool spvgentwo::Instruction::checkAccessChain(const Instruction* _pResultType, const Instruction* _pBase, const Instruction* const* _pIndices, unsigned int _count) const
+{
+	const Type* pResultType = _pResultType->getType();
+	const Type* pBaseType = _pBase->getType();
+
+	// types which refer to themselves are not described by Type, nothing to check
+	if (pResultType == nullptr || pBaseType == nullptr) return true;
+
+	if (pBaseType->isPointer() == false || pBaseType->getSubTypes().empty() || pResultType->isPointer() == false || pResultType->getSubTypes().empty())
+	{
+		getModule()->logError("Base and result type of an access chain must be pointers");
+		return false;
+	}
+
+	const Type* pType = &pBaseType->front();
+
+	for (unsigned int i = 0u; i < _count; ++i)
+	{
+		const Type* pIndexType = _pIndices[i] != nullptr ? _pIndices[i]->getType() : nullptr;
+
+		if (pIndexType == nullptr || _pIndices[i]->isType() || pIndexType->isInt() == false)
+		{
+			getModule()->logError("Index of an access chain must be a scalar integer");
+			return false;
+		}
+
+		const Constant* pConstant = _pIndices[i]->getOperation() == spv::Op::OpConstant ? _pIndices[i]->getConstant() : nullptr;
+
+		if (pConstant == nullptr && pType->isStruct())
+		{
+			getModule()->logError("Index into a struct must be OpConstant");
+			return false;
+		}
+
+		unsigned int index = 0u; // index is only known for constants, other indices can't be out of range at this point
+
+		if (pConstant != nullptr)
+		{
+			index = pConstant->getData().front();
+
+			for (unsigned int word = 1u; word < pConstant->getData().size(); ++word)
+			{
+				if (pConstant->getData()[word] != 0u) // 64 bit
+				{
+					index = ~0u;
+				}
+			}
+		}
+
+		pType = pType->getComponentType(index);
+
+		if (pType == nullptr)
+		{
+			getModule()->logError("Indices of an access chain do not fit the type of its base");
+			return false;
+		}
+	}
+
+	if (*pType != pResultType->front() || pBaseType->getStorageClass() != pResultType->getStorageClass())
+	{
+		getModule()->logError("Result type of an access chain does not match the type accessed by its indices");
+		return false;
+	}
+
+	return true;
+}
+
 spvgentwo::Instruction* spvgentwo::Instruction::opAccessChain(Instruction* _pBase, const List<unsigned int>& _indices)
 {
 	// Base must be a pointer, pointing to the base of a composite object.
-- 
2.43.0


From b2c940addf52ecdd78618ab11b2efd964b17f566 Mon Sep 17 00:00:00 2001
From: x <x@y>
Date: Thu, 19 Nov 2026 23:16:57 +0000
Subject: [PATCH 098/184] fix: runtime arrays cannot be loaded

---
 lib/include/spvgentwo/InstructionTemplate.inl |  6 ++++++
 lib/include/spvgentwo/Type.h                  |  3 +++
 lib/source/Type.cpp                           | 17 +++++++++++++++++
 3 files changed, 26 insertions(+)

diff --git a/lib/include/spvgentwo/InstructionTemplate.inl b/lib/include/spvgentwo/InstructionTemplate.inl
index 9638185..cbc6b14 100644
--- a/lib/include/spvgentwo/InstructionTemplate.inl
+++ b/lib/include/spvgentwo/InstructionTemplate.inl
@@ -337,6 +337,12 @@ namespace spvgentwo
 			return error();
 		}
 
+		if (ptrType->front().containsRuntimeArray())
+		{
+			getModule()->logError("OpLoad: type of the loaded object must not include a runtime array");
+			return error();
+		}
+
 		// Result Type is the type of the loaded object.It must be a type with ﬁxed size; i.e., it cannot be, nor include, any OpTypeRuntimeArray types.
 		// Pointer is the pointer to load through.Its type must be an OpTypePointer whose Type operand is the same as Result Type.
 		Instruction* pResultType = getModule()->addType(ptrType->front());
diff --git a/lib/include/spvgentwo/Type.h b/lib/include/spvgentwo/Type.h
index 8576605..4fcc962 100644
--- a/lib/include/spvgentwo/Type.h
+++ b/lib/include/spvgentwo/Type.h
@@ -118,6 +118,9 @@ namespace spvgentwo
 		bool containsType(const Type& _sub) const;
 		bool containsType(spv::Op _type) const;
 
+		// true if this type is or includes a runtime array, in contrast to containsType this does not follow pointers
+		bool containsRuntimeArray() const;
+
 		// dimension, bits, elements
 		constexpr unsigned int getIntWidth() const { return m_IntWidth; }
 		void setIntWidth(unsigned int _width) { m_IntWidth = _width; }
diff --git a/lib/source/Type.cpp b/lib/source/Type.cpp
index fe7dbe1..74af928 100644
--- a/lib/source/Type.cpp
+++ b/lib/source/Type.cpp
@@ -802,6 +802,23 @@ bool spvgentwo::Type::containsType(const Type& _sub) const
 	return false;
 }
 
+bool spvgentwo::Type::containsRuntimeArray() const
+{
+	if (isRuntimeArray())
+		return true;
+
+	if (isPointer())
+		return false;
+
+	for (const Type& sub : m_subTypes)
+	{
+		if (sub.containsRuntimeArray())
+			return true;
+	}
+
+	return false;
+}
+
 bool spvgentwo::Type::containsType(spv::Op _type) const
 {
 	if (m_Type == _type)
-- 
2.43.0


From a144f3fb717e4c4389bc2c4bb0878153d359996c Mon Sep 17 00:00:00 2001
From: x <x@y>
Date: Thu, 19 Nov 2026 23:16:57 +0000
Subject: [PATCH 099/184] fix: memory holding pointers to runtime arrays can be
 copied

---
 lib/include/spvgentwo/InstructionTemplate.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/include/spvgentwo/InstructionTemplate.inl b/lib/include/spvgentwo/InstructionTemplate.inl
index cbc6b14..f9634a5 100644
--- a/lib/include/spvgentwo/InstructionTemplate.inl
+++ b/lib/include/spvgentwo/InstructionTemplate.inl
@@ -454,7 +454,7 @@ namespace spvgentwo
 					module->logError( "Operand of OpCopyMemory must not contain any pointer to OpTypeVoid" );
 					return;
 				}
-				else if( targetType->containsType( spv::Op::OpTypeRuntimeArray ) || sourceType->containsType( spv::Op::OpTypeRuntimeArray ) )
+				else if( targetType->front().containsRuntimeArray() || sourceType->front().containsRuntimeArray() )
 				{
 					module->logError( "Operand of OpCopyMemory must not contain any OpTypeRuntimeArray" );
 					return;
-- 
2.43.0


From 472731bf56b903032366375ee9c2f56a8f2c04b2 Mon Sep 17 00:00:00 2001
From: x <x@y>
Date: Thu, 19 Nov 2026 23:16:57 +0000
Subject: [PATCH 100/184] fix: two memory operand masks of OpCopyMemory are
 allowed since version 1.4

---
 lib/include/spvgentwo/InstructionTemplate.inl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/include/spvgentwo/InstructionTemplate.inl b/lib/include/spvgentwo/InstructionTemplate.inl
index f9634a5..f3f75ec 100644
--- a/lib/include/spvgentwo/InstructionTemplate.inl
+++ b/lib/include/spvgentwo/InstructionTemplate.inl
@@ -486,9 +486,9 @@ namespace spvgentwo
 			return; // early out
 		}
 
-		if (module->getSpvVersion() <= makeVersion(1u, 4u) && _sourceMemOperands)
+		if (module->getSpvVersion() < makeVersion(1u, 4u) && _sourceMemOperands)
 		{
-			module->logError("Operand _sourceMemOperands of OpCopyMemory not supported before SPIR-V 1.5");
+			module->logError("Operand _sourceMemOperands of OpCopyMemory not supported before SPIR-V 1.4");
 			return;
 		}
 
-- 
2.43.0


From d0f8f163278744edecb3870824848ee042f24b41 Mon Sep 17 00:00:00 2001
From: x <x@y>
Date: Thu, 19 Nov 2026 23:16:57 +0000
Subject: [PATCH 101/184] fix: OpArrayLength requires the index of the last
 member and a struct that has members

---
 lib/source/Instruction.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/lib/source/Instruction.cpp b/lib/source/Instruction.cpp
index ad7a892..0a26578 100644
--- a/lib/source/Instruction.cpp
+++ b/lib/source/Instruction.cpp
@@ -1251,12 +1251,18 @@ spvgentwo::Instruction* spvgentwo::Instruction::opArrayLength(Instruction* _pStr
 	if (type == nullptr) return error();
 
 
-	if (type->isPointer() == false || type->front().isStruct() == false || type->front().back().isRuntimeArray() == false)
+	if (type->isPointer() == false || type->front().isStruct() == false || type->front().getSubTypes().empty() || type->front().back().isRuntimeArray() == false)
 	{
 		getModule()->logError("Operand _pStructure of OpArrayLength must be a logical pointer to an OpTypeStruct whose last	member is a run-time array");
 		return error();
 	}
 
+	if (_ArrayMemberIndex + 1u != type->front().getSubTypes().size())
+	{
+		getModule()->logError("Operand _ArrayMemberIndex of OpArrayLength must be the index of the last member");
+		return error();
+	}
+
 	return makeOp(spv::Op::OpArrayLength, InvalidInstr, InvalidId, _pStructure, literal_t{ _ArrayMemberIndex });
 }
 
-- 
2.43.0


From 4b765e356313a108a66dc7ba9ed6ff4df3fb0784 Mon Sep 17 00:00:00 2001
From: x <x@y>
Date: Thu, 19 Nov 2026 23:16:57 +0000
Subject: [PATCH 102/184] fix: vector shuffles reject component indices beyond
 both vectors

---
 lib/include/spvgentwo/InstructionTemplate.inl | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/lib/include/spvgentwo/InstructionTemplate.inl b/lib/include/spvgentwo/InstructionTemplate.inl
index f3f75ec..1f564c8 100644
--- a/lib/include/spvgentwo/InstructionTemplate.inl
+++ b/lib/include/spvgentwo/InstructionTemplate.inl
@@ -530,6 +530,14 @@ namespace spvgentwo
 
 		if (lType->isVector() && rType->isVector() && lType->getBaseType() == rType->getBaseType())
 		{
+			const unsigned int count = lType->getVectorComponentCount() + rType->getVectorComponentCount();
+
+			if (((_components >= count && _components != ~0u) || ...)) // 0xFFFFFFFF: the component is undefined
+			{
+				getModule()->logError("Component index of opVectorShuffle is out of range");
+				return error();
+			}
+
 			Instruction* resultType = getModule()->addType(lType->getBaseType().wrapVector(componentCount));
 			return makeOp(spv::Op::OpVectorShuffle, resultType, InvalidId, _pVector1, _pVector2, literal_t{ _components }...);
 		}
-- 
2.43.0


From 44a44d55fa93adadfa78f8754b8ef4b7eeee1533 Mon Sep 17 00:00:00 2001
From: x <x@y>
Date: Thu, 19 Nov 2026 23:16:57 +0000
Subject: [PATCH 103/184] fix: dynamic vector insertion rejects components
 without a type

---
 lib/source/Instruction.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/source/Instruction.cpp b/lib/source/Instruction.cpp
index 0a26578..214fa0c 100644
--- a/lib/source/Instruction.cpp
+++ b/lib/source/Instruction.cpp
@@ -1430,9 +1430,10 @@ spvgentwo::Instruction* spvgentwo::Instruction::opVectorInsertDynamic(Instructio
 {
 	const Type* pVecType = _pVector->getType();
 	const Type* indexType = _pIndexInt->getType();
-	if (pVecType == nullptr || indexType == nullptr) return error();
+	const Type* componentType = _pComponent->getType();
+	if (pVecType == nullptr || indexType == nullptr || componentType == nullptr) return error();
 
-	if (pVecType->isVector() && pVecType->front() == *_pComponent->getType() && indexType->isInt())
+	if (pVecType->isVector() && pVecType->front() == *componentType && indexType->isInt())
 	{
 		return makeOp(spv::Op::OpVectorInsertDynamic, InvalidInstr, InvalidId, _pVector, _pComponent, _pIndexInt);
 	}
-- 
2.43.0


From d8ac9d32c7ef6079e7dffbd455a146dbab84d951 Mon Sep 17 00:00:00 2001
From: x <x@y>
Date: Thu, 19 Nov 2026 23:18:05 +0000
Subject: [PATCH 104/184] fix: composite construction checks number and types
 of the constituents

---
 lib/include/spvgentwo/Instruction.h           |  3 ++
 lib/include/spvgentwo/InstructionTemplate.inl |  3 ++
 lib/source/Instruction.cpp                    | 54 +++++++++++++++++++
 3 files changed, 60 insertions(+)

diff --git a/lib/include/spvgentwo/Instruction.h b/lib/include/spvgentwo/Instruction.h
index 5a45d09..c11ee88 100644
--- a/lib/include/spvgentwo/Instruction.h
+++ b/lib/include/spvgentwo/Instruction.h
@@ -763,6 +763,9 @@ namespace spvgentwo
 		// checks that _pResultType is the pointer type reached by walking the type of _pBase along the index instructions
 		bool checkAccessChain(const Instruction* _pResultType, const Instruction* _pBase, const Instruction* const* _pIndices, unsigned int _count) const;
 
+		// checks number and types of the constituents of a composite of type _type
+		bool checkConstituents(const Type& _type, const Instruction* const* _pConstituents, unsigned int _count) const;
+
 		template <class ... Operands>
 		void opCopyMemorySizedImpl(Instruction* _pTargetPtr, Instruction* _pSourcePtr, Instruction* _pSizeInt, Flag<spv::MemoryAccessMask> _targetMemOperands = spv::MemoryAccessMask::MaskNone, Flag<spv::MemoryAccessMask> _sourceMemOperands = spv::MemoryAccessMask::MaskNone, Operands ... _operands);
 
diff --git a/lib/include/spvgentwo/InstructionTemplate.inl b/lib/include/spvgentwo/InstructionTemplate.inl
index 1f564c8..4859d4c 100644
--- a/lib/include/spvgentwo/InstructionTemplate.inl
+++ b/lib/include/spvgentwo/InstructionTemplate.inl
@@ -566,6 +566,9 @@ namespace spvgentwo
 			return error();
 		}
 
+		const Instruction* const constituents[] = { _pFirstConstituent, _constituents... };
+		if (checkConstituents(*type, constituents, sizeof...(_constituents) + 1u) == false) return error();
+
 		return makeOp(spv::Op::OpCompositeConstruct, _pResultType, InvalidId, _pFirstConstituent, _constituents...);
 	}
 
diff --git a/lib/source/Instruction.cpp b/lib/source/Instruction.cpp
index 214fa0c..732e384 100644
--- a/lib/source/Instruction.cpp
+++ b/lib/source/Instruction.cpp
@@ -1331,6 +1331,51 @@ spvgentwo::Instruction* spvgentwo::Instruction::opAll(Instruction* _pBoolVec)
 	return error();
 }
 
+bool spvgentwo::Instruction::checkConstituents(const Type& _type, const Instruction* const* _pConstituents, unsigned int _count) const
+{
+	unsigned int components = 0u;
+
+	for (unsigned int i = 0u; i < _count; ++i)
+	{
+		const Type* pType = _pConstituents[i] != nullptr ? _pConstituents[i]->getType() : nullptr;
+
+		if (pType == nullptr || _pConstituents[i]->isType())
+		{
+			getModule()->logError("Constituent of opCompositeConstruct is not an object");
+			return false;
+		}
+
+		const Type* pComponent = _type.getComponentType(_type.isVector() ? 0u : i);
+
+		if (pComponent != nullptr && *pType == *pComponent)
+		{
+			++components;
+		}
+		else if (pComponent != nullptr && _type.isVector() && pType->isVector() && pType->front() == *pComponent)
+		{
+			components += pType->getVectorComponentCount(); // vectors can be constructed from vectors
+		}
+		else
+		{
+			getModule()->logError("Constituent type of opCompositeConstruct does not match the result type");
+			return false;
+		}
+	}
+
+	const bool match =
+		_type.isVector() ? _count > 1u && components == _type.getVectorComponentCount() :
+		_type.isMatrix() ? components == _type.getMatrixColumnCount() :
+		_type.isArray() ? components == _type.getArrayLength() :
+		components == _type.getSubTypes().size();
+
+	if (match == false)
+	{
+		getModule()->logError("Number of constituents of opCompositeConstruct does not match the result type");
+	}
+
+	return match;
+}
+
 spvgentwo::Instruction* spvgentwo::Instruction::opCompositeConstructDynamic(Instruction* _pResultType, const List<Instruction*>& _constituents)
 {
 	const Type* type = _pResultType->getType();
@@ -1342,6 +1387,15 @@ spvgentwo::Instruction* spvgentwo::Instruction::opCompositeConstructDynamic(Inst
 		return error();
 	}
 
+	Vector<const Instruction*> constituents(getModule()->getAllocator());
+
+	for (const Instruction* constituent : _constituents)
+	{
+		constituents.emplace_back(constituent);
+	}
+
+	if (checkConstituents(*type, constituents.data(), static_cast<unsigned int>(constituents.size())) == false) return error();
+
 	makeOp(spv::Op::OpCompositeConstruct, _pResultType, InvalidId);
 
 	for (Instruction* constituent : _constituents)
-- 
2.43.0


From 1f9298f7bc43e8e01c2d9164df540ef26dd79b3d Mon Sep 17 00:00:00 2001
From: x <x@y>
Date: Thu, 19 Nov 2026 23:18:05 +0000
Subject: [PATCH 105/184] fix: OpPhi rejects values of another type or outside
 of a basic block

---
 lib/include/spvgentwo/InstructionTemplate.inl | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/lib/include/spvgentwo/InstructionTemplate.inl b/lib/include/spvgentwo/InstructionTemplate.inl
index 4859d4c..f5e4b32 100644
--- a/lib/include/spvgentwo/InstructionTemplate.inl
+++ b/lib/include/spvgentwo/InstructionTemplate.inl
@@ -213,7 +213,20 @@ namespace spvgentwo
 	template<class ...VarInst>
 	inline Instruction* Instruction::opPhi(Instruction* _pVar, VarInst* ..._variables)
 	{
-		makeOp(spv::Op::OpPhi, _pVar->getResultTypeInstr(), InvalidId);
+		Instruction* pType = _pVar != nullptr ? _pVar->getResultTypeInstr() : nullptr;
+
+		auto isValid = [pType](const Instruction* var) -> bool
+		{
+			return var != nullptr && var->getResultTypeInstr() == pType && var->getBasicBlock() != nullptr;
+		};
+
+		if (pType == nullptr || isValid(_pVar) == false || (... || (isValid(_variables) == false)))
+		{
+			getModule()->logError("Invalid variable (type or null) passed to opPhi");
+			return error();
+		}
+
+		makeOp(spv::Op::OpPhi, pType, InvalidId);
 
 		auto addVar = [&](Instruction* var)
 		{
-- 
2.43.0


From 03fe1d9a649e8f910740a07dade74a65c3948088 Mon Sep 17 00:00:00 2001
From: x <x@y>
Date: Thu, 19 Nov 2026 23:18:05 +0000
Subject: [PATCH 106/184] fix: opPhiDynamic uses all variables and leaves the
 instruction alone when it rejects them

---
 lib/source/Instruction.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/lib/source/Instruction.cpp b/lib/source/Instruction.cpp
index 732e384..5bd2472 100644
--- a/lib/source/Instruction.cpp
+++ b/lib/source/Instruction.cpp
@@ -1082,21 +1082,21 @@ spvgentwo::Instruction* spvgentwo::Instruction::opPhiDynamic(const List<Instruct
 		return error();
 	}
 
-	Instruction* type = _variables.front()->getResultTypeInstr();
+	Instruction* type = _variables.front() != nullptr ? _variables.front()->getResultTypeInstr() : nullptr;
 
-	if (type == nullptr) return error();
-
-	makeOp(spv::Op::OpPhi, type, InvalidId);
-
-	for (auto it = _variables.begin().next(); it != _variables.end(); ++it)
+	for (const Instruction* var : _variables)
 	{
-		Instruction* var = *it;
-		if (var == nullptr || (var->getResultTypeInstr() != type) || (var->getBasicBlock() == nullptr))
+		if (type == nullptr || var == nullptr || (var->getResultTypeInstr() != type) || (var->getBasicBlock() == nullptr))
 		{
 			getModule()->logError("Invalid variable (type or null) passed to opPhiDynamic");
 			return error();
 		}
+	}
+
+	makeOp(spv::Op::OpPhi, type, InvalidId);
 
+	for (Instruction* var : _variables)
+	{
 		addOperand(var);
 		addOperand(var->getBasicBlock());
 	}
-- 
2.43.0


From a7f9728aefcd9c3790c7cae2a4901afe7efef643 Mon Sep 17 00:00:00 2001
From: x <x@y>
Date: Thu, 19 Nov 2026 23:18:05 +0000
Subject: [PATCH 107/184] fix: function calls check result type, number and
 types of the arguments

---
 lib/include/spvgentwo/Instruction.h           |  3 +
 lib/include/spvgentwo/InstructionTemplate.inl |  3 +
 lib/source/Instruction.cpp                    | 55 +++++++++++++++++++
 3 files changed, 61 insertions(+)

diff --git a/lib/include/spvgentwo/Instruction.h b/lib/include/spvgentwo/Instruction.h
index c11ee88..5c45895 100644
--- a/lib/include/spvgentwo/Instruction.h
+++ b/lib/include/spvgentwo/Instruction.h
@@ -766,6 +766,9 @@ namespace spvgentwo
 		// checks number and types of the constituents of a composite of type _type
 		bool checkConstituents(const Type& _type, const Instruction* const* _pConstituents, unsigned int _count) const;
 
+		// checks result type, number and types of the arguments of a function call
+		bool checkFunctionCall(const Instruction* _pResultType, const Instruction* _pFunction, const Instruction* const* _pArgs, unsigned int _count) const;
+
 		template <class ... Operands>
 		void opCopyMemorySizedImpl(Instruction* _pTargetPtr, Instruction* _pSourcePtr, Instruction* _pSizeInt, Flag<spv::MemoryAccessMask> _targetMemOperands = spv::MemoryAccessMask::MaskNone, Flag<spv::MemoryAccessMask> _sourceMemOperands = spv::MemoryAccessMask::MaskNone, Operands ... _operands);
 
diff --git a/lib/include/spvgentwo/InstructionTemplate.inl b/lib/include/spvgentwo/InstructionTemplate.inl
index f5e4b32..250f2bf 100644
--- a/lib/include/spvgentwo/InstructionTemplate.inl
+++ b/lib/include/spvgentwo/InstructionTemplate.inl
@@ -138,6 +138,9 @@ namespace spvgentwo
 
 		if (_pResultType->isType() && _pFunction->getOperation() == spv::Op::OpFunction)
 		{
+			const Instruction* const args[] = { _args..., nullptr };
+			if (checkFunctionCall(_pResultType, _pFunction, args, sizeof...(_args)) == false) return error();
+
 			return makeOp(spv::Op::OpFunctionCall, _pResultType, InvalidId, _pFunction, _args...);
 		}
 
diff --git a/lib/source/Instruction.cpp b/lib/source/Instruction.cpp
index 5bd2472..18c029c 100644
--- a/lib/source/Instruction.cpp
+++ b/lib/source/Instruction.cpp
@@ -884,12 +884,67 @@ void spvgentwo::Instruction::opFunctionEnd()
 	makeOp(spv::Op::OpFunctionEnd);
 }
 
+bool spvgentwo::Instruction::checkFunctionCall(const Instruction* _pResultType, const Instruction* _pFunction, const Instruction* const* _pArgs, unsigned int _count) const
+{
+	const Function* pFunction = _pFunction->getFunction();
+	const Type* pResultType = _pResultType->getType();
+
+	// functions with types which refer to themselves are not described by Type, nothing to check
+	if (pFunction == nullptr || pFunction->getFunctionType().getSubTypes().empty()) return true;
+
+	const auto& types = pFunction->getFunctionType().getSubTypes();
+
+	if (pResultType != nullptr && *pResultType != types.front())
+	{
+		getModule()->logError("Result type of the call is not the return type of the function");
+		return false;
+	}
+
+	if (types.size() != _count + 1u)
+	{
+		getModule()->logError("Number of arguments does not match the parameters of the function");
+		return false;
+	}
+
+	auto param = types.begin();
+
+	for (unsigned int i = 0u; i < _count; ++i)
+	{
+		++param;
+
+		if (_pArgs[i] == nullptr || _pArgs[i]->getResultTypeInstr() == nullptr)
+		{
+			getModule()->logError("Argument of the call is not an object");
+			return false;
+		}
+
+		const Type* pType = _pArgs[i]->getType();
+
+		if (pType != nullptr && *pType != *param)
+		{
+			getModule()->logError("Type of the argument does not match the parameter of the function");
+			return false;
+		}
+	}
+
+	return true;
+}
+
 spvgentwo::Instruction* spvgentwo::Instruction::opFunctionCallDynamic(Instruction* _pResultType, Instruction* _pFunction, const List<Instruction*>& _args)
 {
 	if (_pResultType == nullptr || _pFunction == nullptr) return error();
 
 	if (_pResultType->isType() && _pFunction->getOperation() == spv::Op::OpFunction)
 	{
+		Vector<const Instruction*> args(getModule()->getAllocator());
+
+		for (const Instruction* arg : _args)
+		{
+			args.emplace_back(arg);
+		}
+
+		if (checkFunctionCall(_pResultType, _pFunction, args.data(), static_cast<unsigned int>(args.size())) == false) return error();
+
 		makeOp(spv::Op::OpFunctionCall, _pResultType, InvalidId, _pFunction);
 
 		for (Instruction* arg : _args)
-- 
2.43.0


From 69a263e3c1bc49b7a4caf2cf5fd7452f27b23cf9 Mon Sep 17 00:00:00 2001
From: x <x@y>
Date: Thu, 19 Nov 2026 23:18:05 +0000
Subject: [PATCH 108/184] fix: getSubType with a list of indices descends like
 the variant with single indices

---
 lib/source/Type.cpp | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/lib/source/Type.cpp b/lib/source/Type.cpp
index 74af928..e4639fe 100644
--- a/lib/source/Type.cpp
+++ b/lib/source/Type.cpp
@@ -699,19 +699,17 @@ spvgentwo::Type& spvgentwo::Type::Member(const Type* _pSubType)
 spvgentwo::List<spvgentwo::Type>::Iterator spvgentwo::Type::getSubType(const List<unsigned int>& _indices) const
 {
 	auto it = m_subTypes.begin();
+	const List<Type>* pSubTypes = &m_subTypes;
 
-	for (auto i : _indices)
+	for (unsigned int i : _indices)
 	{
-		auto prev = it;
-		it = it + i;
-		if (it != nullptr)
+		if (pSubTypes->empty())
 		{
-			it = it->getSubTypes().begin();
-		}
-		else
-		{
-			return prev;
+			break; // no type to be accessed by this index
 		}
+
+		it = pSubTypes->begin() + (i < pSubTypes->size() ? i : 0u);
+		pSubTypes = &it->m_subTypes;
 	}
 
 	return it;
-- 
2.43.0


From 1b4b2de2b18961481c5737a00beedbcee5b31b3c Mon Sep 17 00:00:00 2001
From: x <x@y>
Date: Thu, 19 Nov 2026 23:19:23 +0000
Subject: [PATCH 109/184] fix: operands of the first mask of OpCopyMemory
 precede the second mask

---
 lib/include/spvgentwo/InstructionTemplate.inl | 34 ++++++++++++++++++-
 1 file changed, 33 insertions(+), 1 deletion(-)

diff --git a/lib/include/spvgentwo/InstructionTemplate.inl b/lib/include/spvgentwo/InstructionTemplate.inl
index 250f2bf..1fca7be 100644
--- a/lib/include/spvgentwo/InstructionTemplate.inl
+++ b/lib/include/spvgentwo/InstructionTemplate.inl
@@ -521,7 +521,39 @@ namespace spvgentwo
 				return;
 			}
 
-			makeOpCopyMemory(literal_t{ _targetMemOperands }, literal_t{ _sourceMemOperands }, _operands...);
+			// the operands of the target mask follow directly after it: alignment, scope id
+			unsigned int targetOperandCount = 0u;
+			if (_targetMemOperands & spv::MemoryAccessMask::Aligned) ++targetOperandCount;
+			if (_targetMemOperands & spv::MemoryAccessMask::MakePointerAvailable) ++targetOperandCount;
+
+			const literal_t target{ _targetMemOperands };
+			const literal_t source{ _sourceMemOperands };
+
+			if (targetOperandCount == 0u)
+			{
+				makeOpCopyMemory(target, source, _operands...);
+				return;
+			}
+
+			if constexpr (sizeof...(_operands) > 0u)
+			{
+				if (targetOperandCount == 1u)
+				{
+					[&](auto _first, auto... _rest) { makeOpCopyMemory(target, _first, source, _rest...); }(_operands...);
+					return;
+				}
+			}
+
+			if constexpr (sizeof...(_operands) > 1u)
+			{
+				if (targetOperandCount == 2u)
+				{
+					[&](auto _first, auto _second, auto... _rest) { makeOpCopyMemory(target, _first, _second, source, _rest...); }(_operands...);
+					return;
+				}
+			}
+
+			module->logError("Not enough operands for _targetMemOperands of OpCopyMemory");
 		}
 	}
 
-- 
2.43.0


From 6509f8ea686db17374dddc4d29b0bf3648817c9a Mon Sep 17 00:00:00 2001
From: x <x@y>
Date: Thu, 19 Nov 2026 23:34:40 +0000
Subject: [PATCH 110/184] fix: opFrexpStruct accepts scalars and rejects
 everything but floats

---
 lib/source/GLSL450Instruction.cpp | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/lib/source/GLSL450Instruction.cpp b/lib/source/GLSL450Instruction.cpp
index 6bf091e..1194dce 100644
--- a/lib/source/GLSL450Instruction.cpp
+++ b/lib/source/GLSL450Instruction.cpp
@@ -211,8 +211,22 @@ spvgentwo::Instruction* spvgentwo::GLSL450Intruction::opFrexpStruct(Instruction*
 	// component width. Member 1 holds the exponent. These two members and x must have the same number of
 	// components.
 
-	Type exponent(*significantType->getType());
-	exponent.front().Int(32);
+	const Type* type = significantType->getType();
+	if (type == nullptr || type->isScalarOrVectorOf(spv::Op::OpTypeFloat) == false)
+	{
+		getModule()->logError("Operand of opFrexpStruct is not a scalar or vector of float");
+		return error();
+	}
+
+	Type exponent(getAllocator());
+	if (type->isVector())
+	{
+		exponent.VectorElement(type->getVectorComponentCount()).Int(32);
+	}
+	else
+	{
+		exponent.Int(32);
+	}
 
 	Module* module = getModule();
 	Instruction* exponentType = module->addType(exponent);
-- 
2.43.0


From 4b2539ca62b2f97c08fde9434c52235ac484aaa9 Mon Sep 17 00:00:00 2001
From: x <x@y>
Date: Thu, 19 Nov 2026 23:34:40 +0000
Subject: [PATCH 111/184] fix: opLdexp accepts exponents of another width than
 the float

---
 lib/source/GLSL450Instruction.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/source/GLSL450Instruction.cpp b/lib/source/GLSL450Instruction.cpp
index 1194dce..cf04c6e 100644
--- a/lib/source/GLSL450Instruction.cpp
+++ b/lib/source/GLSL450Instruction.cpp
@@ -244,7 +244,7 @@ spvgentwo::Instruction* spvgentwo::GLSL450Intruction::opLdexp(Instruction* _pFlo
 
 	if (xType == nullptr || expType == nullptr) return error();
 
-	if (xType->isScalarOrVectorOfSameLength(*expType) && xType->getBaseType().isFloat() && expType->getBaseType().isInt())
+	if (xType->isScalarOrVectorOfSameLength(*expType, false) && xType->getBaseType().isFloat() && expType->getBaseType().isInt())
 	{
 		return opExtInst(resultType, ExtName, static_cast<unsigned int>(glslstd450::Op::Ldexp), _pFloatX, _pIntExp);
 	}
-- 
2.43.0


From a7646e8478749b315e4834c1bc9846184a5cce1f Mon Sep 17 00:00:00 2001
From: x <x@y>
Date: Thu, 19 Nov 2026 23:34:40 +0000
Subject: [PATCH 112/184] fix: opLength and opDistance accept scalars

---
 lib/source/GLSL450Instruction.cpp | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/lib/source/GLSL450Instruction.cpp b/lib/source/GLSL450Instruction.cpp
index cf04c6e..6f69c98 100644
--- a/lib/source/GLSL450Instruction.cpp
+++ b/lib/source/GLSL450Instruction.cpp
@@ -291,15 +291,12 @@ spvgentwo::Instruction* spvgentwo::GLSL450Intruction::opLength(Instruction* _pX)
 	const Type* type = _pX->getType();
 	if (type == nullptr) return error();
 
-	if (type->isVectorOfFloat())
+	if (type->isScalarOrVectorOf(spv::Op::OpTypeFloat))
 	{
-		if (auto it = _pX->getResultTypeInstr()->getFirstActualOperand(); it != nullptr && it->isInstruction()) // extract base type
-		{
-			return opExtInst(it->instruction, ExtName, static_cast<unsigned int>(glslstd450::Op::Length), _pX);
-		}
+		return opExtInst(getModule()->addType(type->getBaseType()), ExtName, static_cast<unsigned int>(glslstd450::Op::Length), _pX);
 	}
 
-	getModule()->logError("Operand of opLength is not of type float vector");
+	getModule()->logError("Operand of opLength is not a float scalar or vector");
 
 	return error();
 }
@@ -313,10 +310,7 @@ spvgentwo::Instruction* spvgentwo::GLSL450Intruction::opDistance(Instruction* _p
 
 	if (type1->isScalarOrVectorOfSameLength(spv::Op::OpTypeFloat, *type2))
 	{
-		if (auto it = _pP1->getResultTypeInstr()->getFirstActualOperand(); it != nullptr && it->isInstruction()) // extract base type
-		{
-			return opExtInst(it->instruction, ExtName, static_cast<unsigned int>(glslstd450::Op::Distance), _pP1, _pP2);
-		}
+		return opExtInst(getModule()->addType(type1->getBaseType()), ExtName, static_cast<unsigned int>(glslstd450::Op::Distance), _pP1, _pP2);
 	}
 
 	getModule()->logError("Operand type of opDistance is not a float scalar or vector");
-- 
2.43.0


From a99e997598ff7e596e8520d56da13a8d0f1db1aa Mon Sep 17 00:00:00 2001
From: x <x@y>
Date: Thu, 19 Nov 2026 23:34:40 +0000
Subject: [PATCH 113/184] fix: opPow and opAtan2 reject 64-bit floats

---
 lib/include/spvgentwo/GLSL450Instruction.h | 6 +++---
 lib/source/GLSL450Instruction.cpp          | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/lib/include/spvgentwo/GLSL450Instruction.h b/lib/include/spvgentwo/GLSL450Instruction.h
index 77620d5..7de7866 100644
--- a/lib/include/spvgentwo/GLSL450Instruction.h
+++ b/lib/include/spvgentwo/GLSL450Instruction.h
@@ -42,8 +42,8 @@ namespace spvgentwo
 		Instruction* opAcosh(Instruction* _pFloat) { return scalarOrFloatVec1(glslstd450::Op::Acosh, _pFloat, true); }
 		Instruction* opAtanh(Instruction* _pFloat) { return scalarOrFloatVec1(glslstd450::Op::Atanh, _pFloat, true); }
 
-		Instruction* opAtan2(Instruction* _pY, Instruction* _pX) { return scalarOrFloatVec2(glslstd450::Op::Atan2, _pY, _pX); }
-		Instruction* opPow(Instruction* _pX, Instruction* _pY) { return scalarOrFloatVec2(glslstd450::Op::Pow, _pX, _pY); }
+		Instruction* opAtan2(Instruction* _pY, Instruction* _pX) { return scalarOrFloatVec2(glslstd450::Op::Atan2, _pY, _pX, true); }
+		Instruction* opPow(Instruction* _pX, Instruction* _pY) { return scalarOrFloatVec2(glslstd450::Op::Pow, _pX, _pY, true); }
 
 		Instruction* opExp(Instruction* _pFloat) { return scalarOrFloatVec1(glslstd450::Op::Exp, _pFloat, true); }
 		Instruction* opLog(Instruction* _pFloat) { return scalarOrFloatVec1(glslstd450::Op::Log, _pFloat, true); }
@@ -119,7 +119,7 @@ namespace spvgentwo
 
 	private:
 		Instruction* scalarOrFloatVec1(glslstd450::Op _op, Instruction* _pFloat, const bool _no64Bit = false, Instruction* _pResultType = nullptr);
-		Instruction* scalarOrFloatVec2(glslstd450::Op _op, Instruction* _pOp1, Instruction* _pOp2, Instruction* _pResultType = nullptr);
+		Instruction* scalarOrFloatVec2(glslstd450::Op _op, Instruction* _pOp1, Instruction* _pOp2, const bool _no64Bit = false, Instruction* _pResultType = nullptr);
 		Instruction* scalarOrFloatVec3(glslstd450::Op _op, Instruction* _pOp1, Instruction* _pOp2, Instruction* _pOp3, Instruction* _pResultType = nullptr);
 
 		Instruction* scalarOrIntVec1(glslstd450::Op _op, Instruction* _pInt, Sign _sign, Instruction* _pResultType = nullptr);
diff --git a/lib/source/GLSL450Instruction.cpp b/lib/source/GLSL450Instruction.cpp
index 6f69c98..53cb6db 100644
--- a/lib/source/GLSL450Instruction.cpp
+++ b/lib/source/GLSL450Instruction.cpp
@@ -21,14 +21,14 @@ spvgentwo::Instruction* spvgentwo::GLSL450Intruction::scalarOrFloatVec1(glslstd4
 	return error();
 }
 
-spvgentwo::Instruction* spvgentwo::GLSL450Intruction::scalarOrFloatVec2(glslstd450::Op _op, Instruction* _pOp1, Instruction* _pOp2, Instruction* _pResultType)
+spvgentwo::Instruction* spvgentwo::GLSL450Intruction::scalarOrFloatVec2(glslstd450::Op _op, Instruction* _pOp1, Instruction* _pOp2, const bool _no64Bit, Instruction* _pResultType)
 {
 	const Type* leftType = _pOp1->getType();
 	const Type* rightType = _pOp2->getType();
 
 	if (leftType == nullptr || rightType == nullptr) return error();
 
-	if (leftType->isScalarOrVectorOf(spv::Op::OpTypeFloat) && *leftType == *rightType)
+	if (leftType->isScalarOrVectorOf(spv::Op::OpTypeFloat) && *leftType == *rightType && (_no64Bit ? leftType->getBaseType().getFloatWidth() <= 32u : true))
 	{
 		Instruction* returnType = _pResultType != nullptr ? _pResultType : _pOp1->getResultTypeInstr();
 		if (returnType == nullptr) return error();
-- 
2.43.0


From 227e23f2339805efaaac45d35a7f296c1a3140d3 Mon Sep 17 00:00:00 2001
From: x <x@y>
Date: Thu, 19 Nov 2026 23:34:41 +0000
Subject: [PATCH 114/184] fix: opFindSMsb and opFindUMsb reject integers that
 are not 32 bits wide

---
 lib/include/spvgentwo/GLSL450Instruction.h | 6 +++---
 lib/source/GLSL450Instruction.cpp          | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/lib/include/spvgentwo/GLSL450Instruction.h b/lib/include/spvgentwo/GLSL450Instruction.h
index 7de7866..9f0cc7a 100644
--- a/lib/include/spvgentwo/GLSL450Instruction.h
+++ b/lib/include/spvgentwo/GLSL450Instruction.h
@@ -106,8 +106,8 @@ namespace spvgentwo
 		Instruction* opRefract(Instruction* _pIvec, Instruction* _pNvec, Instruction* _pEtaFloat);
 		
 		Instruction* opFindILsb(Instruction* _pIntVec) { return scalarOrIntVec1(glslstd450::Op::FindILsb, _pIntVec, Sign::Any); }
-		Instruction* opFindSMsb(Instruction* _pIntVec) { return scalarOrIntVec1(glslstd450::Op::FindSMsb, _pIntVec, Sign::Any); }
-		Instruction* opFindUMsb(Instruction* _pIntVec) { return scalarOrIntVec1(glslstd450::Op::FindUMsb, _pIntVec, Sign::Any); }
+		Instruction* opFindSMsb(Instruction* _pIntVec) { return scalarOrIntVec1(glslstd450::Op::FindSMsb, _pIntVec, Sign::Any, 32u); }
+		Instruction* opFindUMsb(Instruction* _pIntVec) { return scalarOrIntVec1(glslstd450::Op::FindUMsb, _pIntVec, Sign::Any, 32u); }
 
 		Instruction* opInterpolateAtCentroid(Instruction* _pInterpolant) { return interpolate(glslstd450::Op::InterpolateAtCentroid, _pInterpolant, nullptr); }
 		Instruction* opInterpolateAtSample(Instruction* _pInterpolant, Instruction* _pSampleInt) { return interpolate(glslstd450::Op::InterpolateAtSample, _pInterpolant, _pSampleInt); }
@@ -122,7 +122,7 @@ namespace spvgentwo
 		Instruction* scalarOrFloatVec2(glslstd450::Op _op, Instruction* _pOp1, Instruction* _pOp2, const bool _no64Bit = false, Instruction* _pResultType = nullptr);
 		Instruction* scalarOrFloatVec3(glslstd450::Op _op, Instruction* _pOp1, Instruction* _pOp2, Instruction* _pOp3, Instruction* _pResultType = nullptr);
 
-		Instruction* scalarOrIntVec1(glslstd450::Op _op, Instruction* _pInt, Sign _sign, Instruction* _pResultType = nullptr);
+		Instruction* scalarOrIntVec1(glslstd450::Op _op, Instruction* _pInt, Sign _sign, unsigned int _width = 0u, Instruction* _pResultType = nullptr);
 		Instruction* scalarOrIntVec2(glslstd450::Op _op, Instruction* _pOp1, Instruction* _pOp2, Sign _sign, Instruction* _pResultType = nullptr);
 		Instruction* scalarOrIntVec3(glslstd450::Op _op, Instruction* _pOp1, Instruction* _pOp2, Instruction* _pOp3, Sign _sign, Instruction* _pResultType = nullptr);
 
diff --git a/lib/source/GLSL450Instruction.cpp b/lib/source/GLSL450Instruction.cpp
index 53cb6db..7a8a8e4 100644
--- a/lib/source/GLSL450Instruction.cpp
+++ b/lib/source/GLSL450Instruction.cpp
@@ -62,7 +62,7 @@ spvgentwo::Instruction* spvgentwo::GLSL450Intruction::scalarOrFloatVec3(glslstd4
 	return error();
 }
 
-spvgentwo::Instruction* spvgentwo::GLSL450Intruction::scalarOrIntVec1(glslstd450::Op _op, Instruction* _pInt, Sign _sign, Instruction* _pResultType)
+spvgentwo::Instruction* spvgentwo::GLSL450Intruction::scalarOrIntVec1(glslstd450::Op _op, Instruction* _pInt, Sign _sign, unsigned int _width, Instruction* _pResultType)
 {
 	Instruction* pTypeInstr = _pInt->getResultTypeInstr();
 	if (pTypeInstr == nullptr) return error();
@@ -70,7 +70,7 @@ spvgentwo::Instruction* spvgentwo::GLSL450Intruction::scalarOrIntVec1(glslstd450
 	const Type* pType = pTypeInstr->getType();
 	if (pType == nullptr) return error();
 
-	if (pType->isScalarOrVectorOf(spv::Op::OpTypeInt) && pType->getBaseType().hasSign(_sign))
+	if (pType->isScalarOrVectorOf(spv::Op::OpTypeInt, 0u, _width) && pType->getBaseType().hasSign(_sign))
 	{
 		return opExtInst(_pResultType != nullptr ? _pResultType : pTypeInstr, ExtName, static_cast<unsigned int>(_op), _pInt);
 	}
-- 
2.43.0


From aad94c34c762c910c4e7de1c64e87a9d8cafc59b Mon Sep 17 00:00:00 2001
From: x <x@y>
Date: Thu, 19 Nov 2026 23:50:02 +0000
Subject: [PATCH 115/184] fix: image operands are all checked, in the order of
 their mask bits

---
 lib/source/TypeInferenceAndValiation.cpp | 255 +++++++++++++++--------
 1 file changed, 172 insertions(+), 83 deletions(-)

diff --git a/lib/source/TypeInferenceAndValiation.cpp b/lib/source/TypeInferenceAndValiation.cpp
index 650185b..cb48c1d 100644
--- a/lib/source/TypeInferenceAndValiation.cpp
+++ b/lib/source/TypeInferenceAndValiation.cpp
@@ -14,7 +14,6 @@ namespace
 		const spv::Op op = _instr.getOperation();
 		auto imgIt = _instr.getFirstActualOperand();
 		auto coordIt = imgIt.next();
-		auto drefCompoOrMask = coordIt.next();
 
 		if (imgIt == nullptr || coordIt == nullptr)
 		{
@@ -23,109 +22,198 @@ namespace
 		}
 
 		const Type* imageType = imgIt->getInstruction()->getType();
-		const Type* coordType = coordIt->getInstruction()->getType();
+		if (imageType != nullptr && imageType->isSampledImage()) imageType = &imageType->front();
 
-		Flag<spv::ImageOperandsMask> opMask = spv::ImageOperandsMask::MaskNone;
-		Instruction::Iterator imageOp1 = nullptr;
+		if (imageType == nullptr || imageType->isImage() == false)
+		{
+			module->logError("Image operation without an image");
+			return false;
+		}
+
+		bool isImplicit = false; // implicit level of detail
+		bool isExplicit = false; // explicit level of detail
+		bool isTexelOp = false; // accesses texels directly
+
+		switch (op)
+		{
+		case spv::Op::OpImageSampleImplicitLod:
+		case spv::Op::OpImageSampleDrefImplicitLod:
+		case spv::Op::OpImageSampleProjImplicitLod:
+		case spv::Op::OpImageSampleProjDrefImplicitLod:
+			isImplicit = true;
+			break;
+		case spv::Op::OpImageSampleExplicitLod:
+		case spv::Op::OpImageSampleDrefExplicitLod:
+		case spv::Op::OpImageSampleProjExplicitLod:
+		case spv::Op::OpImageSampleProjDrefExplicitLod:
+			isExplicit = true;
+			break;
+		case spv::Op::OpImageFetch:
+		case spv::Op::OpImageRead:
+		case spv::Op::OpImageWrite:
+			isTexelOp = true;
+			break;
+		default:
+			break;
+		}
 
-		if (drefCompoOrMask && drefCompoOrMask->isLiteral())
+		// skip depth reference, component or texel operand
+		auto it = coordIt.next();
+		if (it != nullptr && it->isInstruction())
 		{
-			imageOp1 = drefCompoOrMask.next();
-			opMask = static_cast<spv::ImageOperandsMask>(drefCompoOrMask->getLiteral().value);
+			it = it.next();
 		}
-		else if (drefCompoOrMask && drefCompoOrMask->isInstruction())
+
+		unsigned int opMask = 0u;
+		if (it != nullptr && it->isLiteral())
 		{
-			imageOp1 = drefCompoOrMask + 2u;
-			if (drefCompoOrMask.next()) opMask = static_cast<spv::ImageOperandsMask>(drefCompoOrMask.next()->getLiteral().value);
+			opMask = it->getLiteral().value;
+			it = it.next();
 		}
 
-		Instruction* op1 = imageOp1 != nullptr ? imageOp1->getInstruction() : nullptr;
-		Instruction* op2 = imageOp1.next() != nullptr ? imageOp1.next()->getInstruction() : nullptr;
-		const Type* type1 = op1 != nullptr ? op1->getType() : nullptr;
-		const Type* type2 = op2 != nullptr ? op2->getType() : nullptr;;
+		auto is = [opMask](spv::ImageOperandsMask _mask) -> bool { return (opMask & static_cast<unsigned int>(_mask)) != 0u; };
+
+		const spv::Dim dim = imageType->getImageDimension();
+		const unsigned int dimensions = dim == spv::Dim::Cube ? 3u : getImageDimension(dim);
+		const bool hasLevels = imageType->getImageMultiSampled() == false && (dim == spv::Dim::Dim1D || dim == spv::Dim::Dim2D || dim == spv::Dim::Dim3D || dim == spv::Dim::Cube);
+
+		if (isExplicit && is(spv::ImageOperandsMask::Lod) == is(spv::ImageOperandsMask::Grad))
+		{
+			module->logError("Explicit lod operation requires either Lod or Grad operand");
+			return false;
+		}
 
-		auto checkCoordAndOperandDim = [&]() ->bool
+		if ((is(spv::ImageOperandsMask::ConstOffset) ? 1u : 0u) + (is(spv::ImageOperandsMask::Offset) ? 1u : 0u) + (is(spv::ImageOperandsMask::ConstOffsets) ? 1u : 0u) > 1u)
 		{
-			unsigned int coordLength = coordType->getScalarOrVectorLength() - (imageType->getImageArray() ? 1u : 0u);
-			if (coordLength != type1->getScalarOrVectorLength() || coordLength != type2->getScalarOrVectorLength())
+			module->logError("ConstOffset, Offset and ConstOffsets operands can not be used together");
+			return false;
+		}
+
+		if (isTexelOp && imageType->getImageMultiSampled() && is(spv::ImageOperandsMask::Sample) == false)
+		{
+			module->logError("Accessing a multi sampled image requires a Sample operand");
+			return false;
+		}
+
+		// operands follow the order of their bits in the mask
+		for (unsigned int i = 0u; i < 32u; ++i)
+		{
+			const unsigned int mask = opMask & (1u << i);
+			if (mask == 0u)
 			{
-				module->logError("Invalid derivative dimensions");
-				return false;
+				continue;
 			}
-			return true;
-		};
 
-		for (unsigned int i = 0u; opMask != spv::ImageOperandsMask::MaskNone && i < (unsigned int)spv::ImageOperandsShift::ZeroExtend; ++i)
-		{
-			// TODO: get operands within the loop and dont return in the switch
-			spv::ImageOperandsMask mask = static_cast<spv::ImageOperandsMask>(1u << i);
-			if ((opMask & mask) == mask)
+			Instruction* operand = nullptr;
+			const Type* type = nullptr;
+
+			auto next = [&]() -> bool
 			{
-				switch (mask)
+				operand = it != nullptr && it->isInstruction() ? it->getInstruction() : nullptr;
+				type = operand != nullptr ? operand->getType() : nullptr;
+				if (type == nullptr)
 				{
-				case spv::ImageOperandsMask::Bias:
-					return module->logError(type1->isFloat(), "Bias operand must be of type float");
-				case spv::ImageOperandsMask::Lod:
-					return module->logError(op == spv::Op::OpImageFetch ? type1->isInt() : type1->isFloat(), "Lod operand must be of type float (or int for OpImageFetch)");
-				case spv::ImageOperandsMask::Grad:
-					if (checkCoordAndOperandDim() == false)
-					{
-						return false;
-					}
-					if (type1->isBaseTypeOf(spv::Op::OpTypeFloat) == false || type2->isBaseTypeOf(spv::Op::OpTypeFloat))
-					{
-						module->logError("Explicit lod grad operands must be scalar or vector of float");
-						return false;
-					}
-					return true;
-				case spv::ImageOperandsMask::ConstOffset:
-					if (op1->isSpecOrConstant() == false)
-					{
-						module->logError("Image operand is not a constant op");
-						return false;
-					}
-					[[fallthrough]];
-				case spv::ImageOperandsMask::Offset:
-					if (checkCoordAndOperandDim() == false)
-					{
-						return false;
-					}
-					if (type1->isBaseTypeOf(spv::Op::OpTypeInt) == false || type2->isBaseTypeOf(spv::Op::OpTypeInt))
+					module->logError("Image operand is missing");
+					return false;
+				}
+				it = it.next();
+				return true;
+			};
+
+			switch (static_cast<spv::ImageOperandsMask>(mask))
+			{
+			case spv::ImageOperandsMask::Bias:
+				if (next() == false) return false;
+				if (isImplicit == false || hasLevels == false || type->isFloat() == false)
+				{
+					module->logError("Bias operand must be of type float, and can only be used with implicit lod operations on images with levels");
+					return false;
+				}
+				break;
+			case spv::ImageOperandsMask::Lod:
+				if (next() == false) return false;
+				if ((isExplicit == false && op != spv::Op::OpImageFetch) || hasLevels == false || (op == spv::Op::OpImageFetch ? type->isInt() : type->isFloat()) == false)
+				{
+					module->logError("Lod operand must be of type float (or int for OpImageFetch), and can only be used with explicit lod operations and OpImageFetch on images with levels");
+					return false;
+				}
+				break;
+			case spv::ImageOperandsMask::Grad:
+				for (unsigned int derivative = 0u; derivative < 2u; ++derivative)
+				{
+					if (next() == false) return false;
+					if (isExplicit == false || type->isScalarOrVectorOf(spv::Op::OpTypeFloat) == false || type->getScalarOrVectorLength() != dimensions)
 					{
-						module->logError("Explicit lod grad operands must be scalar or vector of integer");
-						return false;
-					}
-					return true;
-				case spv::ImageOperandsMask::ConstOffsets:
-					break; // not implemented yet
-				case spv::ImageOperandsMask::Sample:
-					if (op != spv::Op::OpImageFetch &&
-						op != spv::Op::OpImageRead &&
-						op != spv::Op::OpImageWrite &&
-						op != spv::Op::OpImageSparseFetch &&
-						op != spv::Op::OpImageSparseRead) {
-						module->logError("Sample operand can only be used with OpImageFetch,OpImageRead,OpImageWrite,OpImageSparseFetch or OpImageSparseRead");
+						module->logError("Explicit lod grad operands must be scalar or vector of float with one component per image dimension");
 						return false;
 					}
-					return module->logError(type1->isInt() && imageType->getImageMultiSampled(), "Sample operand must be of type int & the image must be MS");
-				case spv::ImageOperandsMask::MinLod:
-					return module->logError(type1->isFloat(), "MinLod operand must be of type float");
-				case spv::ImageOperandsMask::MakeTexelAvailableKHR:
-				case spv::ImageOperandsMask::MakeTexelVisibleKHR:
-				case spv::ImageOperandsMask::NonPrivateTexelKHR:
-				case spv::ImageOperandsMask::VolatileTexelKHR:
-					return true; // reserved, no type check
-				case spv::ImageOperandsMask::SignExtend:
-					break; // not implemented yet
-				case spv::ImageOperandsMask::ZeroExtend:
-					break; // not implemented yet
-				default:
-					module->logError("Unknown operand mask");
-					continue;
 				}
+				break;
+			case spv::ImageOperandsMask::ConstOffset:
+			case spv::ImageOperandsMask::Offset:
+				if (next() == false) return false;
+				if (is(spv::ImageOperandsMask::ConstOffset) && operand->isSpecOrConstant() == false)
+				{
+					module->logError("Image operand is not a constant op");
+					return false;
+				}
+				if (dim == spv::Dim::Cube || type->isScalarOrVectorOf(spv::Op::OpTypeInt) == false || type->getScalarOrVectorLength() != dimensions)
+				{
+					module->logError("Offset operands must be scalar or vector of integer with one component per image dimension, the image must not be a cube");
+					return false;
+				}
+				break;
+			case spv::ImageOperandsMask::ConstOffsets:
+				if (next() == false) return false;
+				if ((op != spv::Op::OpImageGather && op != spv::Op::OpImageDrefGather) || dim == spv::Dim::Cube || operand->isSpecOrConstant() == false ||
+					type->isArray() == false || type->getArrayLength() != 4u || type->front().isVectorOfInt(2u) == false)
+				{
+					module->logError("ConstOffsets operand must be a constant array of four int vectors with 2 components, and can only be used with gather operations");
+					return false;
+				}
+				break;
+			case spv::ImageOperandsMask::Sample:
+				if (next() == false) return false;
+				if (isTexelOp == false)
+				{
+					module->logError("Sample operand can only be used with OpImageFetch,OpImageRead or OpImageWrite");
+					return false;
+				}
+				if (type->isInt() == false || imageType->getImageMultiSampled() == false)
+				{
+					module->logError("Sample operand must be of type int & the image must be MS");
+					return false;
+				}
+				break;
+			case spv::ImageOperandsMask::MinLod:
+				if (next() == false) return false;
+				if ((isImplicit == false && is(spv::ImageOperandsMask::Grad) == false) || hasLevels == false || type->isFloat() == false)
+				{
+					module->logError("MinLod operand must be of type float, and can only be used with implicit lod or Grad on images with levels");
+					return false;
+				}
+				break;
+			case spv::ImageOperandsMask::MakeTexelAvailable:
+			case spv::ImageOperandsMask::MakeTexelVisible:
+				if (next() == false) return false;
+				if (op != (is(spv::ImageOperandsMask::MakeTexelAvailable) ? spv::Op::OpImageWrite : spv::Op::OpImageRead) || is(spv::ImageOperandsMask::NonPrivateTexel) == false || type->isInt() == false ||
+					(operand->isSpecOrConstant() == false && module->checkCapability(spv::Capability::Kernel) == false))
+				{
+					module->logError("MakeTexelAvailable can only be used with OpImageWrite, MakeTexelVisible with OpImageRead, both require NonPrivateTexel and a constant scope");
+					return false;
+				}
+				break;
+			default:
+				break; // no operand
 			}
 		}
 
+		if (it != nullptr)
+		{
+			module->logError("Number of image operands does not match the mask");
+			return false;
+		}
+
 		return true;
 	}
 }
@@ -578,6 +666,7 @@ bool spvgentwo::ITypeInferenceAndVailation::validateOperands(const spvgentwo::In
 	switch (_instr.getOperation())
 	{
 	case spv::Op::OpImageRead:
+	case spv::Op::OpImageWrite:
 	case spv::Op::OpImageFetch:
 	case spv::Op::OpImageDrefGather:
 	case spv::Op::OpImageGather:
-- 
2.43.0


From 5640541a6881a243188806262ca333dcb101332a Mon Sep 17 00:00:00 2001
From: x <x@y>
Date: Thu, 19 Nov 2026 23:50:02 +0000
Subject: [PATCH 116/184] fix: image operations on single components yield
 scalars

---
 lib/source/TypeInferenceAndValiation.cpp | 31 ++++++++++++++++--------
 1 file changed, 21 insertions(+), 10 deletions(-)

diff --git a/lib/source/TypeInferenceAndValiation.cpp b/lib/source/TypeInferenceAndValiation.cpp
index cb48c1d..7768a1a 100644
--- a/lib/source/TypeInferenceAndValiation.cpp
+++ b/lib/source/TypeInferenceAndValiation.cpp
@@ -473,17 +473,28 @@ spvgentwo::Instruction* spvgentwo::ITypeInferenceAndVailation::inferResultType(c
 		// Result Type must be a scalar or vector of floating-point type or integer type. It must be a scalar or vector with
 		// component type the same as Sampled Type of the OpTypeImage(unless that Sampled Type is OpTypeVoid)
 
-		unsigned int components = instr != spv::Op::OpImageRead ? 4u : getImageChannelCount(image->getImageFormat());
-		
-		if (sampledType.isVoid())
-		{
-			// assume float4
-			return module->type<vector_t<float, 4>>();
-		}
-		else
+		unsigned int components = 4u;
+
+		switch (instr)
 		{
-			return module->addType(sampledType.wrapVector(components));
+		case spv::Op::OpImageRead:
+			components = getImageChannelCount(image->getImageFormat());
+			if (components == 0u) components = 4u; // unknown format
+			break;
+		case spv::Op::OpImageSampleDrefImplicitLod:
+		case spv::Op::OpImageSampleDrefExplicitLod:
+		case spv::Op::OpImageSampleProjDrefImplicitLod:
+		case spv::Op::OpImageSampleProjDrefExplicitLod:
+			components = 1u; // result is the outcome of the comparison
+			break;
+		default:
+			break;
 		}
+
+		// assume float if sampled type is void
+		const Type componentType(sampledType.isVoid() ? module->newType().Float() : sampledType);
+
+		return module->addType(components > 1u ? componentType.wrapVector(components) : componentType);
 	}		
 		break;
 	case spv::Op::OpImage:
@@ -515,7 +526,7 @@ spvgentwo::Instruction* spvgentwo::ITypeInferenceAndVailation::inferResultType(c
 
 		auto dim = getImageDimension(type1->getImageDimension()) + (type1->getImageArray() ? 1u : 0u);
 
-		return module->addType(module->newType().Vector(dim).UIntM());
+		return module->addType(dim > 1u ? module->newType().Vector(dim).UIntM() : module->newType().UInt());
 	}
 	case spv::Op::OpImageQueryLod:
 		//Result Type must be a two - component floating - point type vector.
-- 
2.43.0


From 8b54be0d666ebe81d366cccbdf092f06d40923fb Mon Sep 17 00:00:00 2001
From: x <x@y>
Date: Thu, 19 Nov 2026 23:50:02 +0000
Subject: [PATCH 117/184] fix: image coordinates have the components and the
 kind their operation requires

---
 lib/include/spvgentwo/Instruction.h           |  5 +++--
 lib/include/spvgentwo/InstructionTemplate.inl |  7 +++----
 lib/source/Instruction.cpp                    | 17 +++++++++++------
 3 files changed, 17 insertions(+), 12 deletions(-)

diff --git a/lib/include/spvgentwo/Instruction.h b/lib/include/spvgentwo/Instruction.h
index 5c45895..8e9e5fe 100644
--- a/lib/include/spvgentwo/Instruction.h
+++ b/lib/include/spvgentwo/Instruction.h
@@ -775,8 +775,9 @@ namespace spvgentwo
 		enum class CheckImgCoord
 		{
 			IsProjective = 1 << 0,
-			CanBeInt = 1 << 1,
-			MustBeInt = 1 << 2
+			CanBeInt = 1 << 1, // in kernels
+			MustBeInt = 1 << 2,
+			NoLayer = 1 << 3 // coordinates do not include the layer of an array
 		};
 
 		// Checks dimension & element type of coordiantes to access a image of type _pImageType
diff --git a/lib/include/spvgentwo/InstructionTemplate.inl b/lib/include/spvgentwo/InstructionTemplate.inl
index 1fca7be..d274c08 100644
--- a/lib/include/spvgentwo/InstructionTemplate.inl
+++ b/lib/include/spvgentwo/InstructionTemplate.inl
@@ -773,14 +773,13 @@ namespace spvgentwo
 				return error();
 			}
 			isSampled = false;
-			coordCheckArgs |= CheckImgCoord::CanBeInt;
+			coordCheckArgs |= CheckImgCoord::MustBeInt;
 			break;
 		case spv::Op::OpImageDrefGather:
 			isDref = true; [[fallthrough]];
 		case spv::Op::OpImageGather:
 			isSampled = true;
 			isComponent = !isDref;
-			coordCheckArgs |= CheckImgCoord::CanBeInt;
 			if (spv::Dim d = imageType->getImageDimension(); d != spv::Dim::Dim2D && d != spv::Dim::Cube && d != spv::Dim::Rect)
 			{
 				module.logError("OpImageGather requres Dim of sampled image to be 2D, Cube or Rect");
@@ -789,13 +788,13 @@ namespace spvgentwo
 			break;
 		case spv::Op::OpImageSampleImplicitLod:			isSampled = true; break;
 		case spv::Op::OpImageSampleExplicitLod:			isSampled = true; coordCheckArgs |= CheckImgCoord::CanBeInt; break;
-		case spv::Op::OpImageSampleProjImplicitLod:		isSampled = true; coordCheckArgs |= CheckImgCoord::CanBeInt; coordCheckArgs |= CheckImgCoord::IsProjective; break;
+		case spv::Op::OpImageSampleProjImplicitLod:		isSampled = true; coordCheckArgs |= CheckImgCoord::IsProjective; break;
 		case spv::Op::OpImageSampleProjExplicitLod:		isSampled = true; coordCheckArgs |= CheckImgCoord::IsProjective; break;
 		case spv::Op::OpImageSampleDrefImplicitLod:		isSampled = true; isDref = true; break;
 		case spv::Op::OpImageSampleDrefExplicitLod:		isSampled = true; isDref = true; break;
 		case spv::Op::OpImageSampleProjDrefImplicitLod: isSampled = true; coordCheckArgs |= CheckImgCoord::IsProjective; isDref = true; break;
 		case spv::Op::OpImageSampleProjDrefExplicitLod: isSampled = true; coordCheckArgs |= CheckImgCoord::IsProjective; isDref = true; break;
-		case spv::Op::OpImageQueryLod:					isSampled = true; coordCheckArgs |= CheckImgCoord::CanBeInt; break;
+		case spv::Op::OpImageQueryLod:					isSampled = true; coordCheckArgs |= CheckImgCoord::CanBeInt; coordCheckArgs |= CheckImgCoord::NoLayer; break;
 
 			break;
 		default:
diff --git a/lib/source/Instruction.cpp b/lib/source/Instruction.cpp
index 18c029c..92aadae 100644
--- a/lib/source/Instruction.cpp
+++ b/lib/source/Instruction.cpp
@@ -2064,12 +2064,17 @@ spvgentwo::Instruction* spvgentwo::Instruction::error() const
 
 bool spvgentwo::Instruction::checkImageCoordinateType(const Type* _pImageType, const Type* _pCoordType, Flag<CheckImgCoord> _args) const
 {
+	Module* module = getModule();
+
 	if (_pImageType->isImage() == false)
+	{
+		module->logError("Image operation requires an image");
 		return false;
+	}
 
-	Module* module = getModule();
-
-	unsigned int dim = getImageDimension(_pImageType->getImageDimension());
+	// cubes are addressed by a direction, their texels by (u, v, face)
+	const bool isCube = _pImageType->getImageDimension() == spv::Dim::Cube;
+	unsigned int dim = isCube ? 3u : getImageDimension(_pImageType->getImageDimension());
 
 	if (dim == 0u)
 	{
@@ -2077,7 +2082,7 @@ bool spvgentwo::Instruction::checkImageCoordinateType(const Type* _pImageType, c
 		return false;
 	}
 
-	if (_pImageType->getImageArray())
+	if (_pImageType->getImageArray() && _args.none(CheckImgCoord::NoLayer) && !(isCube && _args.any(CheckImgCoord::MustBeInt)))
 	{
 		dim += 1u;
 	}
@@ -2087,7 +2092,7 @@ bool spvgentwo::Instruction::checkImageCoordinateType(const Type* _pImageType, c
 		dim += 1u;
 	}
 
-	if (dim > 1u && _pCoordType->getVectorComponentCount() < dim)
+	if (_pCoordType->getScalarOrVectorLength() < dim)
 	{
 		module->logError("Dimension of coordinates does not match image type");
 		return false;
@@ -2095,7 +2100,7 @@ bool spvgentwo::Instruction::checkImageCoordinateType(const Type* _pImageType, c
 
 	if (_pCoordType->isScalarOrVectorOf(spv::Op::OpTypeInt))
 	{
-		if (_args.none(CheckImgCoord::CanBeInt, CheckImgCoord::MustBeInt))
+		if (_args.none(CheckImgCoord::MustBeInt) && (_args.none(CheckImgCoord::CanBeInt) || module->checkCapability(spv::Capability::Kernel) == false))
 		{
 			module->logError("Image operation does not support integer coordinates");
 			return false;
-- 
2.43.0


From 31fa27b26602544fdee3d32af5b5c933d67422a1 Mon Sep 17 00:00:00 2001
From: x <x@y>
Date: Thu, 19 Nov 2026 23:50:02 +0000
Subject: [PATCH 118/184] fix: images which can not be sampled, gathered or
 projected are rejected

---
 lib/include/spvgentwo/InstructionTemplate.inl | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/lib/include/spvgentwo/InstructionTemplate.inl b/lib/include/spvgentwo/InstructionTemplate.inl
index d274c08..06eedb5 100644
--- a/lib/include/spvgentwo/InstructionTemplate.inl
+++ b/lib/include/spvgentwo/InstructionTemplate.inl
@@ -712,6 +712,7 @@ namespace spvgentwo
 
 		if (type->isImage() == false && type->isSampledImage() == false)
 		{
+			module.logError("Image operation requires an operand of type OpTypeImage or OpTypeSampledImage");
 			return error();
 		}
 
@@ -813,6 +814,18 @@ namespace spvgentwo
 			return error();
 		}
 
+		if (isSampled)
+		{
+			const spv::Dim d = imageType->getImageDimension();
+			const bool isProjective = coordCheckArgs.any(CheckImgCoord::IsProjective);
+
+			if (imageType->getImageMultiSampled() || d == spv::Dim::Buffer || d == spv::Dim::SubpassData || (isProjective && (imageType->getImageArray() || d == spv::Dim::Cube)) || (_imageOp == spv::Op::OpImageQueryLod && d == spv::Dim::Rect))
+			{
+				module.logError("_imageOp does not support sampled images of this dimension or multi sampled images");
+				return error();
+			}
+		}
+
 		if (!checkDrefComponent() || !checkImageCoordinateType(imageType, coordType, coordCheckArgs))
 		{
 			return error();
-- 
2.43.0


From 96555d81fb720dab0d545cb82109c64ebb3389c9 Mon Sep 17 00:00:00 2001
From: x <x@y>
Date: Thu, 19 Nov 2026 23:50:02 +0000
Subject: [PATCH 119/184] fix: OpImageWrite accepts texels with the components
 of the image format

---
 lib/include/spvgentwo/InstructionTemplate.inl | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib/include/spvgentwo/InstructionTemplate.inl b/lib/include/spvgentwo/InstructionTemplate.inl
index 06eedb5..b531a47 100644
--- a/lib/include/spvgentwo/InstructionTemplate.inl
+++ b/lib/include/spvgentwo/InstructionTemplate.inl
@@ -883,9 +883,11 @@ namespace spvgentwo
 
 		const Type& sampledType = imageType->front();
 
-		if (texelType->isScalarOrVectorOf(sampledType.getType(), getImageDimension(imageType->getImageDimension()) ) == false)
+		const Type& componentType = texelType->isVector() ? texelType->front() : *texelType;
+
+		if (sampledType.isVoid() ? texelType->isNumericalScalarOrVector() == false : componentType != sampledType)
 		{
-			module->logError("OpImageWrite texel type must be numerical scalar or vector of type %s", sampledType.getString());
+			module->logError("OpImageWrite texel type must be numerical scalar or vector of the images sampled type");
 			return error();
 		}
 
-- 
2.43.0


From 5820064831c4e8a4b23056da1463c1616804e885 Mon Sep 17 00:00:00 2001
From: x <x@y>
Date: Thu, 19 Nov 2026 23:50:02 +0000
Subject: [PATCH 120/184] fix: OpImageQuerySize accepts buffers,
 OpImageQuerySizeLod signed levels

---
 lib/source/Instruction.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/lib/source/Instruction.cpp b/lib/source/Instruction.cpp
index 92aadae..830816e 100644
--- a/lib/source/Instruction.cpp
+++ b/lib/source/Instruction.cpp
@@ -1764,9 +1764,9 @@ spvgentwo::Instruction* spvgentwo::Instruction::opImageQuerySizeLod(Instruction*
 		getModule()->logError("Operand _pImage of OpImageQuerySizeLod must not be MS 1 (multi sampled)");
 		return error();
 	}
-	else if (const Type* lodType = _pLoDInt->getType(); lodType == nullptr || lodType->isUInt() == false)
+	else if (const Type* lodType = _pLoDInt->getType(); lodType == nullptr || lodType->isInt() == false)
 	{
-		getModule()->logError("Operand _pLoDInt of OpImageQuerySizeLod must be of type unsinged scalar integer");
+		getModule()->logError("Operand _pLoDInt of OpImageQuerySizeLod must be of type scalar integer");
 		return error();
 	}
 
@@ -1783,12 +1783,12 @@ spvgentwo::Instruction* spvgentwo::Instruction::opImageQuerySize(Instruction* _p
 		getModule()->logError("Operand of OpImageQuerySize is not of type OpTypeImage");
 		return error();
 	}
-	else if (spv::Dim d = type->getImageDimension(); d != spv::Dim::Dim1D && d != spv::Dim::Dim2D && d != spv::Dim::Dim3D && d != spv::Dim::Cube && d != spv::Dim::Rect)
+	else if (spv::Dim d = type->getImageDimension(); d != spv::Dim::Dim1D && d != spv::Dim::Dim2D && d != spv::Dim::Dim3D && d != spv::Dim::Cube && d != spv::Dim::Rect && d != spv::Dim::Buffer)
 	{
-		getModule()->logError("Dimension of OpImageQuerySize operand _pImage is not 1D, 2D, 3D, Cube or Rect");
+		getModule()->logError("Dimension of OpImageQuerySize operand _pImage is not 1D, 2D, 3D, Cube, Rect or Buffer");
 		return error();
 	}
-	else if (d != spv::Dim::Rect && type->getImageMultiSampled() == false && type->getImageSamplerAccess() == SamplerImageAccess::Sampled)
+	else if (d != spv::Dim::Rect && d != spv::Dim::Buffer && type->getImageMultiSampled() == false && type->getImageSamplerAccess() == SamplerImageAccess::Sampled)
 	{
 		// Additionally, if its Dim is 1D, 2D, 3D, or Cube, it must also have either an MS of 1 or a Sampled of 0 or 2.
 		getModule()->logError("Operand _pImage of OpImageQuerySize must have either an MS of 1 or a Sampled of 0 or 2");
-- 
2.43.0


From 0e96254e8a5c8e34d9dc7ee325bfc4ae6f4ef8c5 Mon Sep 17 00:00:00 2001
From: x <x@y>
Date: Fri, 20 Nov 2026 00:03:55 +0000
Subject: [PATCH 121/184] fix: getLocalSize returns 0 for LocalSizeId values
 that are no plain constants

---
 common/source/ReflectionHelper.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/common/source/ReflectionHelper.cpp b/common/source/ReflectionHelper.cpp
index 0be9a01..36c1ad4 100644
--- a/common/source/ReflectionHelper.cpp
+++ b/common/source/ReflectionHelper.cpp
@@ -21,10 +21,10 @@ bool spvgentwo::ReflectionHelper::getLocalSize(const Module& _module, unsigned i
 			{
 				auto getValue = [](const Instruction* instr) -> unsigned int
 				{
-					if (instr == nullptr || instr->isSpecOrConstant() == false)
-						return 0u;
+					if (instr == nullptr || (*instr != spv::Op::OpConstant && *instr != spv::Op::OpSpecConstant))
+						return 0u; // value is zero (OpConstantNull) or unknown
 
-					if(auto it = instr->getFirstActualOperand(); it->isLiteral() )
+					if(auto it = instr->getFirstActualOperand(); it != nullptr && it->isLiteral() )
 					{
 						return it->literal;
 					}
-- 
2.43.0


From 0b907c81b2f2d4b36e4266450af917613337fc71 Mon Sep 17 00:00:00 2001
From: x <x@y>
Date: Fri, 20 Nov 2026 00:03:55 +0000
Subject: [PATCH 122/184] fix: getDecorations skips decorations without target
 (OpDecorationGroup)

---
 common/include/common/ReflectionHelperTemplate.inl | 4 ++--
 common/source/ReflectionHelper.cpp                 | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/common/include/common/ReflectionHelperTemplate.inl b/common/include/common/ReflectionHelperTemplate.inl
index db31638..c145301 100644
--- a/common/include/common/ReflectionHelperTemplate.inl
+++ b/common/include/common/ReflectionHelperTemplate.inl
@@ -49,7 +49,7 @@ void spvgentwo::ReflectionHelper::getDecorationsFunc(const Instruction* _pTarget
 
 	for (Instruction& decoration : _pTarget->getModule()->getDecorations())
 	{
-		if (*decoration.getFirstActualOperand() == _pTarget) // check target
+		if (auto target = decoration.getFirstActualOperand(); target != nullptr && *target == _pTarget) // check target
 		{
 			_func(&decoration);
 		}
@@ -64,7 +64,7 @@ void spvgentwo::ReflectionHelper::getNamesFunc(const Instruction* _pTarget, Func
 
 	for (Instruction& name : _pTarget->getModule()->getNames())
 	{
-		if (*name.getFirstActualOperand() == _pTarget) // check target
+		if (auto target = name.getFirstActualOperand(); target != nullptr && *target == _pTarget) // check target
 		{
 			_func(&name);
 		}
diff --git a/common/source/ReflectionHelper.cpp b/common/source/ReflectionHelper.cpp
index 36c1ad4..51ae169 100644
--- a/common/source/ReflectionHelper.cpp
+++ b/common/source/ReflectionHelper.cpp
@@ -67,7 +67,7 @@ void spvgentwo::ReflectionHelper::getDecorations(const Instruction* _pTarget, Li
 
 	for(Instruction& decoration : _pTarget->getModule()->getDecorations())
 	{
-		if (*decoration.getFirstActualOperand() == _pTarget) // check target
+		if (auto target = decoration.getFirstActualOperand(); target != nullptr && *target == _pTarget) // check target
 		{
 			_outDecorations.emplace_back(&decoration);
 		}
-- 
2.43.0


From 9e85cc33dd71c1783f1e8dd297633cbfec48e62f Mon Sep 17 00:00:00 2001
From: x <x@y>
Date: Fri, 20 Nov 2026 00:03:55 +0000
Subject: [PATCH 123/184] fix: getSpvDecorationKindFromDecoration accepts
 instructions that are no decorations

---
 common/source/ReflectionHelper.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/source/ReflectionHelper.cpp b/common/source/ReflectionHelper.cpp
index 51ae169..3e373a3 100644
--- a/common/source/ReflectionHelper.cpp
+++ b/common/source/ReflectionHelper.cpp
@@ -76,7 +76,7 @@ void spvgentwo::ReflectionHelper::getDecorations(const Instruction* _pTarget, Li
 
 spvgentwo::spv::Decoration spvgentwo::ReflectionHelper::getSpvDecorationKindFromDecoration(const Instruction* _pDecoration)
 {
-	if (_pDecoration == nullptr)
+	if (_pDecoration == nullptr || (*_pDecoration != spv::Op::OpDecorate && *_pDecoration != spv::Op::OpMemberDecorate))
 	{
 		return spv::Decoration::Max;
 	}
-- 
2.43.0


From 36b2a786d461a8b4d3581a751a5e00159892fbdf Mon Sep 17 00:00:00 2001
From: x <x@y>
Date: Fri, 20 Nov 2026 00:03:55 +0000
Subject: [PATCH 124/184] fix: getSpvDecorationAndLiteralFromDecoration handles
 OpMemberDecorate and rejects everything that is no decoration

---
 common/source/ReflectionHelper.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/source/ReflectionHelper.cpp b/common/source/ReflectionHelper.cpp
index 3e373a3..d35c5ac 100644
--- a/common/source/ReflectionHelper.cpp
+++ b/common/source/ReflectionHelper.cpp
@@ -97,7 +97,7 @@ spvgentwo::spv::Decoration spvgentwo::ReflectionHelper::getSpvDecorationKindFrom
 
 bool spvgentwo::ReflectionHelper::getSpvDecorationAndLiteralFromDecoration(const Instruction* _pInDecoration, spv::Decoration& _outDecoration, unsigned int& _outValue)
 {
-	if (_pInDecoration == nullptr || (*_pInDecoration != spv::Op::OpDecorate && *_pInDecoration == spv::Op::OpMemberDecorate))
+	if (_pInDecoration == nullptr || (*_pInDecoration != spv::Op::OpDecorate && *_pInDecoration != spv::Op::OpMemberDecorate))
 	{
 		return false;
 	}
-- 
2.43.0


From 31708b14c050a73d1957514d66b9e47df79ce7c4 Mon Sep 17 00:00:00 2001
From: x <x@y>
Date: Fri, 20 Nov 2026 00:03:55 +0000
Subject: [PATCH 125/184] fix: getDecorationLiteralFromTarget only looks at
 OpDecorate and OpMemberDecorate

---
 common/source/ReflectionHelper.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/common/source/ReflectionHelper.cpp b/common/source/ReflectionHelper.cpp
index d35c5ac..40881a4 100644
--- a/common/source/ReflectionHelper.cpp
+++ b/common/source/ReflectionHelper.cpp
@@ -144,6 +144,11 @@ unsigned int spvgentwo::ReflectionHelper::getDecorationLiteralFromTarget(spv::De
 
 	for (const Instruction& decoration : _pTarget->getModule()->getDecorations())
 	{
+		if (decoration != spv::Op::OpDecorate && decoration != spv::Op::OpMemberDecorate)
+		{
+			continue; // operands are not literals
+		}
+
 		auto target = decoration.getFirstActualOperand();
 
 		if (target != nullptr && *target == _pTarget)
-- 
2.43.0


From b48577e80960015d339562a3a85c01f3930b643e Mon Sep 17 00:00:00 2001
From: x <x@y>
Date: Fri, 20 Nov 2026 00:03:55 +0000
Subject: [PATCH 126/184] fix: getVariablesWithDecoration finds decorations
 without literal

---
 common/include/common/ReflectionHelperTemplate.inl | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/common/include/common/ReflectionHelperTemplate.inl b/common/include/common/ReflectionHelperTemplate.inl
index c145301..3916730 100644
--- a/common/include/common/ReflectionHelperTemplate.inl
+++ b/common/include/common/ReflectionHelperTemplate.inl
@@ -11,6 +11,11 @@ void spvgentwo::ReflectionHelper::getVariablesWithDecorationFunc(const Module& _
 	{
 		auto target = deco.getFirstActualOperand();
 
+		if (target == nullptr)
+		{
+			continue; // OpDecorationGroup
+		}
+
 		auto it = target.next(); // skip target ID
 
 		bool match = false;
@@ -24,11 +29,11 @@ void spvgentwo::ReflectionHelper::getVariablesWithDecorationFunc(const Module& _
 			++it;
 		}
 
-		if (match && it.next() != nullptr)
+		if (match)
 		{
 			if (_pValue != nullptr)
 			{
-				if (*_pValue == it.next()->getLiteral())
+				if (it.next() != nullptr && *_pValue == it.next()->getLiteral())
 				{
 					_func(target->getInstruction());
 				}
-- 
2.43.0


From 4e73cae2fda3101eb842d259cff9ce665252b172 Mon Sep 17 00:00:00 2001
From: x <x@y>
Date: Fri, 20 Nov 2026 00:03:55 +0000
Subject: [PATCH 127/184] fix: getOperandByName compares the whole name

---
 common/source/GrammarHelper.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/source/GrammarHelper.cpp b/common/source/GrammarHelper.cpp
index 8fa5084..b03b556 100644
--- a/common/source/GrammarHelper.cpp
+++ b/common/source/GrammarHelper.cpp
@@ -20,7 +20,7 @@ namespace
 			++_pRight;
 		}
 
-		return true;
+		return *_pLeft == *_pRight; // same length
 	}
 }
 
-- 
2.43.0


From aaa521562210b66b0b49aeabf7f7bf1e4ebf55af Mon Sep 17 00:00:00 2001
From: x <x@y>
Date: Fri, 20 Nov 2026 00:03:55 +0000
Subject: [PATCH 128/184] fix: operand queries count strings, parameters of
 enumerants and extended instructions

---
 common/source/GrammarHelper.cpp | 104 +++++++++++++++++++++++++-------
 1 file changed, 82 insertions(+), 22 deletions(-)

diff --git a/common/source/GrammarHelper.cpp b/common/source/GrammarHelper.cpp
index b03b556..5e2dc7d 100644
--- a/common/source/GrammarHelper.cpp
+++ b/common/source/GrammarHelper.cpp
@@ -22,46 +22,106 @@ namespace
 
 		return *_pLeft == *_pRight; // same length
 	}
-}
 
-spvgentwo::Instruction::Iterator spvgentwo::GrammarHelper::getFirstOperandOfKind(const Instruction* _pInstruction, const Grammar& _gram, Grammar::OperandKind _kind, Grammar::Extension _ext)
-{
-	if (auto* info = _gram.getInfo(static_cast<unsigned int>(_pInstruction->getOperation()), _ext); info != nullptr)
+	using namespace spvgentwo;
+
+	// returns the operand after _it, which consists of several words if it is a string or has parameters
+	Instruction::Iterator nextOperand(Instruction::Iterator _it, const Grammar& _gram, const Grammar::Operand& _operand)
 	{
-		auto opIt = info->operands.begin();
+		if (_it == nullptr)
+		{
+			return _it;
+		}
 
-		for (auto it = _pInstruction->begin(); it != nullptr && opIt != nullptr; )
+		if (_operand.kind == Grammar::OperandKind::LiteralString)
 		{
-			if (opIt->kind == _kind)
+			while (_it != nullptr && hasStringTerminator(_it->getLiteral().value) == false)
 			{
-				return it;
+				++_it;
 			}
 
-			++it;
-			++opIt;
+			return _it != nullptr ? _it.next() : _it;
 		}
-	}
 
-	return nullptr;
-}
+		const unsigned int value = _it->getLiteral();
+		++_it;
 
-spvgentwo::Instruction::Iterator spvgentwo::GrammarHelper::getOperandByName(const Instruction* _pInstruction, const Grammar& _gram, const char* _pName, Grammar::Extension _ext)
-{
-	if (auto* info = _gram.getInfo(static_cast<unsigned int>(_pInstruction->getOperation()), _ext); info != nullptr)
+		auto skipParameters = [&](unsigned int _value)
+		{
+			if (const auto* params = _gram.getOperandParameters(_operand.kind, _value); params != nullptr)
+			{
+				for (const Grammar::Operand& param : *params)
+				{
+					_it = nextOperand(_it, _gram, param);
+				}
+			}
+		};
+
+		if (_operand.category == Grammar::OperandCategory::ValueEnum)
+		{
+			skipParameters(value);
+		}
+		else if (_operand.category == Grammar::OperandCategory::BitEnum)
+		{
+			for (unsigned int bit = 1u; bit != 0u; bit <<= 1u)
+			{
+				if ((value & bit) != 0u)
+				{
+					skipParameters(bit);
+				}
+			}
+		}
+
+		return _it;
+	}
+
+	// calls _predicate with each operand of the grammar that is present until it returns true
+	template <class Pred>
+	Instruction::Iterator findOperand(const Instruction* _pInstruction, const Grammar& _gram, Grammar::Extension _ext, Pred _predicate)
 	{
-		auto opIt = info->operands.begin();
+		unsigned int opcode = static_cast<unsigned int>(_pInstruction->getOperation());
+		auto it = _pInstruction->begin();
 
-		for (auto it = _pInstruction->begin(); it != nullptr && opIt != nullptr; )
+		if (_ext != Grammar::Extension::Core)
 		{
-			if (stringCmp(_pName, opIt->name))
+			if (*_pInstruction != spv::Op::OpExtInst)
 			{
-				return it;
+				return nullptr;
 			}
 
+			it = it + 3u; // skip result type, result and set
+			opcode = it->getLiteral();
 			++it;
-			++opIt;
 		}
+
+		if (const auto* info = _gram.getInfo(opcode, _ext); info != nullptr)
+		{
+			for (const Grammar::Operand& operand : info->operands)
+			{
+				if (it == nullptr)
+				{
+					break;
+				}
+
+				if (_predicate(operand))
+				{
+					return it;
+				}
+
+				it = nextOperand(it, _gram, operand);
+			}
+		}
+
+		return nullptr;
 	}
+}
 
-	return nullptr;
+spvgentwo::Instruction::Iterator spvgentwo::GrammarHelper::getFirstOperandOfKind(const Instruction* _pInstruction, const Grammar& _gram, Grammar::OperandKind _kind, Grammar::Extension _ext)
+{
+	return findOperand(_pInstruction, _gram, _ext, [_kind](const Grammar::Operand& _operand) { return _operand.kind == _kind; });
+}
+
+spvgentwo::Instruction::Iterator spvgentwo::GrammarHelper::getOperandByName(const Instruction* _pInstruction, const Grammar& _gram, const char* _pName, Grammar::Extension _ext)
+{
+	return findOperand(_pInstruction, _gram, _ext, [_pName](const Grammar::Operand& _operand) { return stringCmp(_pName, _operand.name); });
 }
-- 
2.43.0


From a1535ef1da5466920f1fd20753255419c851fbc3 Mon Sep 17 00:00:00 2001
From: x <x@y>
Date: Fri, 20 Nov 2026 00:07:51 +0000
Subject: [PATCH 129/184] fix: TaskEXT and MeshEXT have shader stages,
 ExecutionModel::Max has none

---
 common/source/VulkanInterop.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/common/source/VulkanInterop.cpp b/common/source/VulkanInterop.cpp
index 6aea573..ffbe8f7 100644
--- a/common/source/VulkanInterop.cpp
+++ b/common/source/VulkanInterop.cpp
@@ -22,8 +22,10 @@ spvgentwo::vk::ShaderStageFlagBits spvgentwo::vk::getShaderStageFromExecutionMod
 	case spv::ExecutionModel::GLCompute:
 		return ShaderStageFlagBits::VK_SHADER_STAGE_COMPUTE_BIT;
 	//case spv::ExecutionModel::Kernel: OpenCL
+	case spv::ExecutionModel::TaskEXT:
 	case spv::ExecutionModel::TaskNV:
 		return ShaderStageFlagBits::VK_SHADER_STAGE_TASK_BIT_NV;
+	case spv::ExecutionModel::MeshEXT:
 	case spv::ExecutionModel::MeshNV:
 		return ShaderStageFlagBits::VK_SHADER_STAGE_MESH_BIT_NV;
 	case spv::ExecutionModel::RayGenerationKHR:
@@ -38,8 +40,6 @@ spvgentwo::vk::ShaderStageFlagBits spvgentwo::vk::getShaderStageFromExecutionMod
 		return ShaderStageFlagBits::VK_SHADER_STAGE_MISS_BIT_KHR;
 	case spv::ExecutionModel::CallableKHR:
 		return ShaderStageFlagBits::VK_SHADER_STAGE_CALLABLE_BIT_KHR;
-	case spv::ExecutionModel::Max:
-		return ShaderStageFlagBits::VK_SHADER_STAGE_VERTEX_BIT;
 	default:
 		break;
 	}
-- 
2.43.0


From 037d643aebd213385b9556d86f90d23f996b4436 Mon Sep 17 00:00:00 2001
From: x <x@y>
Date: Fri, 20 Nov 2026 00:07:51 +0000
Subject: [PATCH 130/184] fix: arrays have the descriptor type of their
 elements

---
 common/source/VulkanInterop.cpp | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/common/source/VulkanInterop.cpp b/common/source/VulkanInterop.cpp
index ffbe8f7..9225e08 100644
--- a/common/source/VulkanInterop.cpp
+++ b/common/source/VulkanInterop.cpp
@@ -5,6 +5,22 @@
 #include "spvgentwo/Instruction.h"
 #include "spvgentwo/Type.h"
 
+namespace
+{
+	// arrays of resources have the descriptor type of their elements
+	const spvgentwo::Type& getResourceType(const spvgentwo::Type& _pointer)
+	{
+		const spvgentwo::Type* type = &_pointer.front();
+
+		while ((type->isArray() || type->isRuntimeArray()) && type->getSubTypes().empty() == false)
+		{
+			type = &type->front();
+		}
+
+		return *type;
+	}
+}
+
 spvgentwo::vk::ShaderStageFlagBits spvgentwo::vk::getShaderStageFromExecutionModel(spv::ExecutionModel _model)
 {
 	switch (_model)
@@ -60,7 +76,7 @@ spvgentwo::vk::DescriptorType spvgentwo::vk::getDescriptorTypeFromVariable(const
 		return DescriptorType::VK_DESCRIPTOR_TYPE_MAX_ENUM;
 	}
 
-	const Type& type = ptr->front();
+	const Type& type = getResourceType(*ptr);
 
 	const spv::StorageClass storage = _variable.getStorageClass();
 
-- 
2.43.0


From 3db45ff1ce2dc73b34ef503d3d46ac287522bb37 Mon Sep 17 00:00:00 2001
From: x <x@y>
Date: Fri, 20 Nov 2026 00:07:51 +0000
Subject: [PATCH 131/184] fix: images and samplers sharing a binding are
 combined image samplers

---
 common/source/VulkanInterop.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/common/source/VulkanInterop.cpp b/common/source/VulkanInterop.cpp
index 9225e08..8c50010 100644
--- a/common/source/VulkanInterop.cpp
+++ b/common/source/VulkanInterop.cpp
@@ -105,11 +105,12 @@ spvgentwo::vk::DescriptorType spvgentwo::vk::getDescriptorTypeFromVariable(const
 				}
 
 				// we found another variable in the same set
-				if (const Type* otherType = _pVar->getType(); _pVar != &_variable && otherType != nullptr && _pVar->getStorageClass() == spv::StorageClass::UniformConstant)
+				if (const Type* otherPtr = _pVar->getType(); _pVar != &_variable && otherPtr != nullptr && otherPtr->isPointer() && otherPtr->getSubTypes().empty() == false && _pVar->getStorageClass() == spv::StorageClass::UniformConstant)
 				{
-					// check for [sampler & image] or [image & sampler] variable combo
-					if (((otherType->getType() == spv::Op::OpTypeSampler) && (type.getType() == spv::Op::OpTypeSampledImage || type.getType() == spv::Op::OpTypeImage)) ||
-						((type.getType() == spv::Op::OpTypeSampler) && (otherType->getType() == spv::Op::OpTypeSampledImage || otherType->getType() == spv::Op::OpTypeImage)))
+					const Type& otherType = getResourceType(*otherPtr);
+
+					// check for any combination of sampler, image and sampled image
+					if (otherType.getType() != type.getType() && (otherType.isSampler() || otherType.isSampledImage() || otherType.isImage()))
 					{
 						// we found a image or sampler on the same descriptor set & binding in UniformConstant storage class
 						if (ReflectionHelper::getDecorationLiteralFromTarget(spv::Decoration::Binding, _pVar) == binding)
-- 
2.43.0


From 83e9b518010363bdf658b187f0f5eff43fed2b11 Mon Sep 17 00:00:00 2001
From: x <x@y>
Date: Fri, 20 Nov 2026 00:07:51 +0000
Subject: [PATCH 132/184] fix: sampled images are combined image samplers

---
 common/source/VulkanInterop.cpp | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/common/source/VulkanInterop.cpp b/common/source/VulkanInterop.cpp
index 8c50010..19cd461 100644
--- a/common/source/VulkanInterop.cpp
+++ b/common/source/VulkanInterop.cpp
@@ -134,12 +134,7 @@ spvgentwo::vk::DescriptorType spvgentwo::vk::getDescriptorTypeFromVariable(const
 	{
 	case spv::Op::OpTypeSampler:					return DescriptorType::VK_DESCRIPTOR_TYPE_SAMPLER;
 	case spv::Op::OpTypeSampledImage:
-		switch (type.front().getImageSamplerAccess())
-		{
-		case SamplerImageAccess::Sampled:			return DescriptorType::VK_DESCRIPTOR_TYPE_UNIFORM_TEXEL_BUFFER;
-		case SamplerImageAccess::Storage:			return DescriptorType::VK_DESCRIPTOR_TYPE_STORAGE_TEXEL_BUFFER;
-		default:									return DescriptorType::VK_DESCRIPTOR_TYPE_COMBINED_IMAGE_SAMPLER;
-		}		
+		return type.front().getImageDimension() == spv::Dim::Buffer ? DescriptorType::VK_DESCRIPTOR_TYPE_UNIFORM_TEXEL_BUFFER : DescriptorType::VK_DESCRIPTOR_TYPE_COMBINED_IMAGE_SAMPLER;
 	case spv::Op::OpTypeImage:
 	{
 		switch (type.getImageDimension())
-- 
2.43.0


From 7282ed329a7fbeb59179dc06c1dd0e01ae04521b Mon Sep 17 00:00:00 2001
From: x <x@y>
Date: Fri, 20 Nov 2026 00:07:51 +0000
Subject: [PATCH 133/184] fix: samplers, images and acceleration structures are
 descriptors in UniformConstant only

---
 common/source/VulkanInterop.cpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/common/source/VulkanInterop.cpp b/common/source/VulkanInterop.cpp
index 19cd461..c11ec9d 100644
--- a/common/source/VulkanInterop.cpp
+++ b/common/source/VulkanInterop.cpp
@@ -130,6 +130,21 @@ spvgentwo::vk::DescriptorType spvgentwo::vk::getDescriptorTypeFromVariable(const
 		}
 	}
 
+	switch (type.getType())
+	{
+	case spv::Op::OpTypeSampler:
+	case spv::Op::OpTypeSampledImage:
+	case spv::Op::OpTypeImage:
+	case spv::Op::OpTypeAccelerationStructureKHR:
+		if (storage != spv::StorageClass::UniformConstant)
+		{
+			return DescriptorType::VK_DESCRIPTOR_TYPE_MAX_ENUM;
+		}
+		break;
+	default:
+		break;
+	}
+
 	switch (type.getType())
 	{
 	case spv::Op::OpTypeSampler:					return DescriptorType::VK_DESCRIPTOR_TYPE_SAMPLER;
-- 
2.43.0


From c51b4cf1e93a8c633d843599a4e6a9cba3ec4d0c Mon Sep 17 00:00:00 2001
From: x <x@y>
Date: Fri, 20 Nov 2026 00:07:51 +0000
Subject: [PATCH 134/184] fix: Uniform structures decorated with BufferBlock
 are storage buffers

---
 common/source/VulkanInterop.cpp | 29 ++++++++++++++++++++++++++++-
 1 file changed, 28 insertions(+), 1 deletion(-)

diff --git a/common/source/VulkanInterop.cpp b/common/source/VulkanInterop.cpp
index c11ec9d..907736c 100644
--- a/common/source/VulkanInterop.cpp
+++ b/common/source/VulkanInterop.cpp
@@ -19,6 +19,24 @@ namespace
 
 		return *type;
 	}
+
+	// type instruction of the resource _variable points to
+	const spvgentwo::Instruction* getResourceTypeInstr(const spvgentwo::Instruction& _variable)
+	{
+		const spvgentwo::Instruction* type = _variable.getResultTypeInstr();
+
+		if (auto pointee = type->getFirstActualOperand().next(); pointee != nullptr) // skip storage class
+		{
+			type = pointee->getInstruction();
+		}
+
+		while (type != nullptr && (*type == spvgentwo::spv::Op::OpTypeArray || *type == spvgentwo::spv::Op::OpTypeRuntimeArray))
+		{
+			type = type->getFirstActualOperand()->getInstruction();
+		}
+
+		return type;
+	}
 }
 
 spvgentwo::vk::ShaderStageFlagBits spvgentwo::vk::getShaderStageFromExecutionModel(spv::ExecutionModel _model)
@@ -178,7 +196,16 @@ spvgentwo::vk::DescriptorType spvgentwo::vk::getDescriptorTypeFromVariable(const
 	default: // assume this is a buffer
 		switch (storage)
 		{
-		case spv::StorageClass::Uniform:			[[fallthrough]];
+		case spv::StorageClass::Uniform:
+		{
+			// legacy storage buffer
+			bool bufferBlock = false;
+			ReflectionHelper::getDecorationsFunc(getResourceTypeInstr(_variable), [&bufferBlock](const Instruction* _pDecoration)
+			{
+				bufferBlock |= *_pDecoration == spv::Op::OpDecorate && ReflectionHelper::getSpvDecorationKindFromDecoration(_pDecoration) == spv::Decoration::BufferBlock;
+			});
+			return bufferBlock ? DescriptorType::VK_DESCRIPTOR_TYPE_STORAGE_BUFFER : DescriptorType::VK_DESCRIPTOR_TYPE_UNIFORM_BUFFER;
+		}
 		case spv::StorageClass::UniformConstant:	return DescriptorType::VK_DESCRIPTOR_TYPE_UNIFORM_BUFFER;
 		case spv::StorageClass::StorageBuffer:		return DescriptorType::VK_DESCRIPTOR_TYPE_STORAGE_BUFFER;
 		default:
-- 
2.43.0


From 6f0a8666c109258a99fe9f418ef1c6ac13ca2062 Mon Sep 17 00:00:00 2001
From: x <x@y>
Date: Fri, 20 Nov 2026 00:07:51 +0000
Subject: [PATCH 135/184] fix: components of unsigned normalized image formats
 are unsigned integers

---
 lib/source/Type.cpp | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/lib/source/Type.cpp b/lib/source/Type.cpp
index e4639fe..cf66174 100644
--- a/lib/source/Type.cpp
+++ b/lib/source/Type.cpp
@@ -554,11 +554,30 @@ spvgentwo::Type& spvgentwo::Type::AccelerationStructureKHR()
 	return *this;
 }
 
+namespace
+{
+	bool isSignedNorm(spvgentwo::spv::ImageFormat _format)
+	{
+		switch (_format)
+		{
+		case spvgentwo::spv::ImageFormat::Rgba16Snorm:
+		case spvgentwo::spv::ImageFormat::Rgba8Snorm:
+		case spvgentwo::spv::ImageFormat::Rg16Snorm:
+		case spvgentwo::spv::ImageFormat::Rg8Snorm:
+		case spvgentwo::spv::ImageFormat::R16Snorm:
+		case spvgentwo::spv::ImageFormat::R8Snorm:
+			return true;
+		default:
+			return false;
+		}
+	}
+}
+
 spvgentwo::Type& spvgentwo::Type::fromImageFormat(spv::ImageFormat _format, bool _NormAsFloat)
 {
 	reset();
 
-	auto norm = [_NormAsFloat](Type& _elem, unsigned int _bits)
+	auto norm = [_NormAsFloat, _format](Type& _elem, unsigned int _bits)
 	{
 		if (_NormAsFloat)
 		{
@@ -566,7 +585,7 @@ spvgentwo::Type& spvgentwo::Type::fromImageFormat(spv::ImageFormat _format, bool
 		}
 		else
 		{
-			_elem.Int(_bits);
+			_elem.Int(_bits, isSignedNorm(_format));
 		}
 	};
 
-- 
2.43.0


From 400269b3d14338f8191b4c60641c99ccbb2f0064 Mon Sep 17 00:00:00 2001
From: x <x@y>
Date: Fri, 20 Nov 2026 00:12:33 +0000
Subject: [PATCH 136/184] fix: ModuleFuncPrinter can be used without function
 for constants

---
 common/include/common/ModulePrinter.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/include/common/ModulePrinter.h b/common/include/common/ModulePrinter.h
index 50dc743..84ed637 100644
--- a/common/include/common/ModulePrinter.h
+++ b/common/include/common/ModulePrinter.h
@@ -17,7 +17,7 @@ namespace spvgentwo
 		{
 			struct EmptyConstantPrintFunc
 			{
-				constexpr bool append([[maybe_unused]] const Constant& _constant, [[maybe_unused]] const char* _pushColor, [[maybe_unused]] const char* _popColor) const { return false; }
+				constexpr bool operator()([[maybe_unused]] const Constant& _constant, [[maybe_unused]] const char* _pushColor, [[maybe_unused]] const char* _popColor) const { return false; }
 			};
 
 			constexpr auto PushRed = u8"\x1B[31m";
-- 
2.43.0


From 75f7a87560f597301dc0b877fc7a7736b9ff6e38 Mon Sep 17 00:00:00 2001
From: x <x@y>
Date: Fri, 20 Nov 2026 00:14:46 +0000
Subject: [PATCH 137/184] fix: names replace operand ids with the option for
 operands

---
 common/source/ModulePrinter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/source/ModulePrinter.cpp b/common/source/ModulePrinter.cpp
index 01e0d4e..9e9cbde 100644
--- a/common/source/ModulePrinter.cpp
+++ b/common/source/ModulePrinter.cpp
@@ -71,7 +71,7 @@ namespace
 				return false;
 			}
 
-			if (const char* name = op.instruction->getName(); (_options & ModulePrinter::PrintOptionsBits::InstructionName) && name != nullptr && stringLength(name) > 1)
+			if (const char* name = op.instruction->getName(); (_options & ModulePrinter::PrintOptionsBits::OperandName) && name != nullptr && stringLength(name) > 1)
 			{
 				_printer << "%";
 				_printer.append(name, colors.operandId, colors.defaultText);
-- 
2.43.0


From a6f27ee971002c2619ab3ebf42b6a619d0377829 Mon Sep 17 00:00:00 2001
From: x <x@y>
Date: Fri, 20 Nov 2026 00:24:16 +0000
Subject: [PATCH 138/184] fix: the printer handles parameters of combined
 masks, extended instructions' literals, multi-word constants and
 specialisation operations

---
 common/source/ModulePrinter.cpp | 316 ++++++++++++++++++--------------
 1 file changed, 176 insertions(+), 140 deletions(-)

diff --git a/common/source/ModulePrinter.cpp b/common/source/ModulePrinter.cpp
index 9e9cbde..05d680b 100644
--- a/common/source/ModulePrinter.cpp
+++ b/common/source/ModulePrinter.cpp
@@ -40,6 +40,26 @@ namespace
 		return _it;
 	}
 
+	// grammar of the extended instruction _number of OpExtInst _instr, nullptr if the set is unknown
+	const spvgentwo::Grammar::Instruction* getExtInstInfo(const spvgentwo::Instruction& _instr, unsigned int _number, const spvgentwo::Grammar& _grammar)
+	{
+		using namespace spvgentwo;
+
+		if (auto set = _instr.getFirstActualOperand(); set != nullptr && set->isInstruction() && set->instruction != nullptr && *set->instruction == spv::Op::OpExtInstImport) // extension set
+		{
+			if (compareLiteralString("GLSL.std.450", set->instruction->getFirstActualOperand(), set->instruction->end()))
+			{
+				return _grammar.getInfo(_number, Grammar::Extension::Glsl);
+			}
+			else if (compareLiteralString("OpenCL.std", set->instruction->getFirstActualOperand(), set->instruction->end()))
+			{
+				return _grammar.getInfo(_number, Grammar::Extension::OpenCl);
+			}
+		}
+
+		return nullptr;
+	}
+
 	bool printOperand(const spvgentwo::Instruction& _instr, const spvgentwo::Operand& op, const spvgentwo::Grammar::Operand& _info, const spvgentwo::Grammar& _grammar, spvgentwo::ModulePrinter::IModulePrinter& _printer, spvgentwo::ModulePrinter::PrintOptions _options)
 	{
 		using namespace spvgentwo;
@@ -135,28 +155,12 @@ namespace
 		}
 		else if (op.isLiteral())
 		{
-			if (_instr.getOperation() == spv::Op::OpExtInst)
+			if (_info.kind == Grammar::OperandKind::LiteralExtInstInteger)
 			{
-				if (auto set = _instr.getFirstActualOperand(); set != nullptr && set->isInstruction() && *set->instruction == spv::Op::OpExtInstImport) // extension set
-				{					
-					Grammar::Extension ext = Grammar::Extension::Core;
-					if (compareLiteralString("GLSL.std.450", set->instruction->getFirstActualOperand(), set->instruction->end()))
-					{
-						ext = Grammar::Extension::Glsl;
-					}
-					else if (compareLiteralString("OpenCL.std", set->instruction->getFirstActualOperand(), set->instruction->end()))
-					{
-						ext = Grammar::Extension::OpenCl;
-					}
-
-					if (ext != Grammar::Extension::Core)
-					{
-						if (auto* extInfo = _grammar.getInfo(static_cast<unsigned int>(op.literal.value), ext); extInfo != nullptr)
-						{
-							_printer.append(extInfo->name, colors.extinst, colors.defaultText);
-							return true;
-						}
-					}
+				if (auto* extInfo = getExtInstInfo(_instr, op.literal.value, _grammar); extInfo != nullptr)
+				{
+					_printer.append(extInfo->name, colors.extinst, colors.defaultText);
+					return true;
 				}
 			}
 			else if (_info.category == Grammar::OperandCategory::BitEnum || _info.category == Grammar::OperandCategory::ValueEnum)
@@ -167,14 +171,6 @@ namespace
 					return true;
 				}
 			}
-			else if (_info.kind == Grammar::OperandKind::LiteralContextDependentNumber && _instr.isSpecOrConstant() && (_options & ModulePrinter::PrintOptionsBits::ConstantData))
-			{
-				if (const Constant* c = _instr.getConstant(); c != nullptr)
-				{
-					if (_printer.append(*c, colors.constant, colors.defaultText))
-						return true;
-				}
-			}
 
 			//fallback
 			_printer.append(op.literal.value, colors.literal, colors.defaultText);
@@ -186,6 +182,156 @@ namespace
 			return false;
 		}
 	}
+
+	// prints the operands starting at _it that are described by _operands
+	bool printOperands(const spvgentwo::Instruction& _instr, spvgentwo::Instruction::Iterator& _it, const spvgentwo::Vector<spvgentwo::Grammar::Operand>& _operands, const spvgentwo::Grammar& _grammar, spvgentwo::ModulePrinter::IModulePrinter& _printer, spvgentwo::ModulePrinter::PrintOptions _options)
+	{
+		using namespace spvgentwo;
+		const auto& colors = _printer.getColorScheme();
+		const auto end = _instr.end();
+		bool success = true;
+
+		auto printParameters = [&](Grammar::OperandKind _kind, unsigned int _value)
+		{
+			if (auto* params = _grammar.getOperandParameters(_kind, _value); params != nullptr)
+			{
+				success &= printOperands(_instr, _it, *params, _grammar, _printer, _options);
+			}
+		};
+
+		for (const Grammar::Operand& info : _operands)
+		{
+			if (_it == end)
+			{
+				if (info.quantifier == Grammar::Quantifier::One) // last operand was not optional
+				{
+					_printer.append("\nINVALID INSTRUCTION\n", colors.error, colors.defaultText);
+					return false; // invalid instruction
+				}
+				break;
+			}
+
+			do
+			{
+				if (info.kind == Grammar::OperandKind::LiteralString)
+				{
+					_printer << " \"";
+					_it = appendLiteralString(_printer, _it, end, colors.string, colors.defaultText);
+					_printer << "\"";
+				}
+				else if (info.kind == Grammar::OperandKind::LiteralContextDependentNumber)
+				{
+					// value of a constant, prints the words if the value can't be printed
+					const Constant* c = _instr.isSpecOrConstant() && (_options & ModulePrinter::PrintOptionsBits::ConstantData) ? _instr.getConstant() : nullptr;
+
+					_printer << " ";
+					if (c == nullptr || _printer.append(*c, colors.constant, colors.defaultText) == false)
+					{
+						_printer.append(_it->getLiteral().value, colors.literal, colors.defaultText);
+						for (auto word = _it.next(); word != end; ++word)
+						{
+							_printer << " ";
+							_printer.append(word->getLiteral().value, colors.literal, colors.defaultText);
+						}
+					}
+
+					_it = end;
+				}
+				else if (info.category == Grammar::OperandCategory::Composite)
+				{
+					auto* bases = _grammar.getOperandBases(info.kind);
+					if (bases == nullptr)
+					{
+						_printer.append("\nINVALID INSTRUCTION\n", colors.error, colors.defaultText);
+						return false; // invalid instruction
+					}
+
+					for (auto bit = bases->begin(); _it != end; ++_it, ++bit)
+					{
+						if (bit == bases->end()) // reset
+						{
+							bit = bases->begin();
+						}
+
+						success &= printOperand(_instr, *_it, *bit, _grammar, _printer, _options);
+					}
+				}
+				else if (info.kind == Grammar::OperandKind::LiteralExtInstInteger)
+				{
+					success &= printOperand(_instr, *_it, info, _grammar, _printer, _options);
+
+					const auto* extInfo = getExtInstInfo(_instr, _it->getLiteral(), _grammar);
+					++_it;
+
+					if (extInfo != nullptr) // remaining operands are those of the extended instruction
+					{
+						return printOperands(_instr, _it, extInfo->operands, _grammar, _printer, _options) && success;
+					}
+				}
+				else if (info.kind == Grammar::OperandKind::LiteralSpecConstantOpInteger)
+				{
+					success &= printOperand(_instr, *_it, info, _grammar, _printer, _options);
+
+					Instruction constInstr;
+					constInstr.setParent(_instr); // allocator
+					constInstr.setOperation(static_cast<spv::Op>(_it->getLiteral().value)); // opcode
+					if (constInstr.hasResultType())
+					{
+						constInstr.addOperand(*_instr.getResultTypeOperand());
+					}
+					if (constInstr.hasResult())
+					{
+						constInstr.addOperand(InvalidId);
+					}
+
+					// copy remaining operands
+					for (++_it; _it != end; ++_it)
+					{
+						constInstr.addOperand(*_it);
+					}
+
+					// the inner instruction has no result
+					auto innerOptions = _options;
+					if (innerOptions.any(ModulePrinter::PrintOptionsBits::ResultId))
+					{
+						innerOptions ^= ModulePrinter::PrintOptionsBits::ResultId;
+					}
+
+					_printer << " [";
+					success &= ModulePrinter::printInstruction(constInstr, _grammar, _printer, innerOptions, nullptr);
+					_printer << "]";
+				}
+				else
+				{
+					success &= printOperand(_instr, *_it, info, _grammar, _printer, _options);
+
+					const unsigned int value = _it->getLiteral();
+					++_it;
+
+					if (Grammar::hasOperandParameters(info.kind))
+					{
+						if (info.category == Grammar::OperandCategory::BitEnum)
+						{
+							// parameters follow in the order of the bits
+							for (unsigned int bit = 1u; bit != 0u; bit <<= 1u)
+							{
+								if ((value & bit) != 0u)
+								{
+									printParameters(info.kind, bit);
+								}
+							}
+						}
+						else
+						{
+							printParameters(info.kind, value);
+						}
+					}
+				}
+			} while (info.quantifier == Grammar::Quantifier::ZeroOrAny && _it != end);
+		}
+
+		return success;
+	}
 } // !anonymous
 
 void spvgentwo::ModulePrinter::ModuleStringPrinter::append(const char* _pStr, const char* _pushColor, const char* _popColor)
@@ -246,117 +392,7 @@ bool spvgentwo::ModulePrinter::printInstruction(const Instruction& _instr, const
 	}
 
 	auto it = _instr.begin();
-	auto end = _instr.end();
-
-	for (const Grammar::Operand& info : instrInfo->operands)
-	{
-		if (it == end)
-		{
-			if (info.quantifier == Grammar::Quantifier::One) // last operand was not optional
-			{
-				_printer.append("\nINVALID INSTRUCTION\n", colors.error, colors.defaultText);
-				return false; // invalid instruction			
-			}
-			break;
-		}
-
-		if (info.kind == Grammar::OperandKind::LiteralString)
-		{
-			_printer << " \"";
-			it = appendLiteralString(_printer, it, end, colors.string, colors.defaultText);
-			_printer << "\"";
-
-			continue;
-		}
-		
-		if (info.category == Grammar::OperandCategory::Composite)
-		{
-			if (auto* bases = _grammar.getOperandBases(info.kind); bases != nullptr)
-			{
-				auto bit = bases->begin();
-				auto bend = bases->end();
-
-				for (; it != end; ++it, ++bit)
-				{
-					if (bit == bend) // reset
-					{
-						bit = bases->begin();
-					}
-
-					success &= printOperand(_instr, *it, *bit, _grammar, _printer, _options);
-				}
-
-				continue;
-			}
-			else
-			{
-				_printer.append("\nINVALID INSTRUCTION\n", colors.error, colors.defaultText);
-				return false; // invalid instruction
-			}
-		}
-
-		success &= printOperand(_instr, *it, info, _grammar, _printer, _options);
-		// need to increment 'it' after this part
-
-		if (info.kind == Grammar::OperandKind::LiteralSpecConstantOpInteger)
-		{
-			Instruction constInstr;
-			constInstr.setParent(_instr); // allocator
-			constInstr.setOperation(static_cast<spv::Op>(it->getLiteral().value)); // opcode
-			if (constInstr.hasResultType())
-			{
-				constInstr.addOperand(*_instr.getResultTypeOperand());
-			}
-			if (constInstr.hasResult())
-			{
-				constInstr.addOperand(InvalidId);
-			}
-
-			// copy remaining operands
-			for (++it ;it != end; ++it)
-			{
-				constInstr.addOperand(*it);
-			}
-
-			_printer << " [";
-			success &= printInstruction(constInstr, _grammar, _printer, _options ^ PrintOptionsBits::ResultId, nullptr);
-			_printer << "]";
-		}
-		else if (Grammar::hasOperandParameters(info.kind))
-		{
-			if (auto* params = _grammar.getOperandParameters(info.kind, it->getLiteral()); params != nullptr)
-			{
-				auto pit = params->begin();
-				auto pend = params->end();
-
-				for (++it; it != end && pit != pend; ++pit)
-				{
-					if (pit->kind == Grammar::OperandKind::LiteralString)
-					{
-						_printer << " \"";
-						it = appendLiteralString(_printer, it, end, colors.string, colors.defaultText);
-						_printer << "\"";
-
-						continue;
-					}
-
-					success &= printOperand(_instr, *it, *pit, _grammar, _printer, _options);
-					++it;
-				}
-			}
-		}
-		else if (info.quantifier == Grammar::Quantifier::ZeroOrAny)
-		{
-			while(++it != end)
-			{
-				success &= printOperand(_instr, *it, info, _grammar, _printer, _options);			
-			}
-		}
-		else
-		{
-			++it;		
-		}
-	}
+	success &= printOperands(_instr, it, instrInfo->operands, _grammar, _printer, _options);
 
 	return success;
 }
-- 
2.43.0


From 1026a94e8d76920ee1896ec456cae51a369fee39 Mon Sep 17 00:00:00 2001
From: x <x@y>
Date: Fri, 20 Nov 2026 00:24:16 +0000
Subject: [PATCH 139/184] fix: large doubles are printed completely,
 specialisation operations have no value to print

---
 common/source/ModulePrinter.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/common/source/ModulePrinter.cpp b/common/source/ModulePrinter.cpp
index 05d680b..774a796 100644
--- a/common/source/ModulePrinter.cpp
+++ b/common/source/ModulePrinter.cpp
@@ -433,6 +433,7 @@ bool spvgentwo::ModulePrinter::IModulePrinter::append(const Constant& _constant,
 	case spv::Op::OpConstantFalse: append("false", _pushColor, _popColor); return true;
 	case spv::Op::OpSpecConstantFalse: append("false", _pushColor, _popColor); return true;
 	case spv::Op::OpConstantSampler: return false; // can't print
+	case spv::Op::OpSpecConstantOp: return false; // value is not known
 	default: break;
 	}
 
@@ -448,7 +449,7 @@ bool spvgentwo::ModulePrinter::IModulePrinter::append(const Constant& _constant,
 		return false;
 	}
 
-	char buf[64]{ '\0' };
+	char buf[512]{ '\0' }; // %f prints up to 309 digits
 	bool printed = false;
 
 	if (!printed && t.isS8())	printed = printConstData<char>(_constant, buf, "%d");
-- 
2.43.0


From 4bce5504890226f0f55f7c340e16ddd2c766adc5 Mon Sep 17 00:00:00 2001
From: x <x@y>
Date: Fri, 20 Nov 2026 00:39:55 +0000
Subject: [PATCH 140/184] fix: AssignResultIDs and RemoveLinkageCapability are
 different linker options

---
 common/include/common/LinkerHelper.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/include/common/LinkerHelper.h b/common/include/common/LinkerHelper.h
index cd669d7..45e2465 100644
--- a/common/include/common/LinkerHelper.h
+++ b/common/include/common/LinkerHelper.h
@@ -42,7 +42,7 @@ namespace spvgentwo
 			ImportReferencedVariables = 1 << 6, // global variables referenced in (auto) imported functions
 			ImportReferencedStrings = 1 << 7, // global strings referenced in OpLine etc
 			AssignResultIDs = 1 << 8, // on-the-fligh assing ResultIds while transfering instructions from lib to consumber module (leaves original IDs intact, can improve performance if module.assignIDs() is not used)
-			RemoveLinkageCapability = 1 << 8, // remove linkage capability from the consumer library if all imports and exports have been resolved
+			RemoveLinkageCapability = 1 << 9, // remove linkage capability from the consumer library if all imports and exports have been resolved
 			AutoAddRequiredCapabilitiesAndExtensions = 1 << 10, // instead of copying ALL Capabilities & Extensions from the all libs to the consumer module, use LinkerOptions.grammar to select only required Caps & Exts for the consumer module.
 			UpdateEntryPointGlobalVarInterface = 1 << 11, // Add global variables referenced by the consumer EntryPoints to their OpEntryPoint, this should always be switched on unless Module.finalizeEntryPoints() is called after linking.
 			CopyOpSourceStringInstructions = 1 << 12, // Copy OpString, OpSource, OpSourceContinued and OpSourceExtension instructions from lib to consumer module
-- 
2.43.0


From 70aaa43c432a95fe2328c253f2d42dc2a70dda8b Mon Sep 17 00:00:00 2001
From: x <x@y>
Date: Fri, 20 Nov 2026 00:39:55 +0000
Subject: [PATCH 141/184] fix: the linkage capability stays while imports are
 unresolved

---
 common/source/LinkerHelper.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/common/source/LinkerHelper.cpp b/common/source/LinkerHelper.cpp
index 4fbd87e..84345a6 100644
--- a/common/source/LinkerHelper.cpp
+++ b/common/source/LinkerHelper.cpp
@@ -579,6 +579,7 @@ bool spvgentwo::LinkerHelper::import(const Module& _lib, Module& _consumer, cons
 	List<ImportSymbol> iFuncs(pAllocator);
 
 	bool hasExports = false;
+	bool allImportsResolved = true;
 
 	// gather symbols to import
 	for (auto it = _consumer.getDecorations().begin(), end = _consumer.getDecorations().end(); it != end; ++it)
@@ -610,6 +611,7 @@ bool spvgentwo::LinkerHelper::import(const Module& _lib, Module& _consumer, cons
 			else
 			{
 				info("Symbol %s not found in import module", name.c_str()); // just an info because it could be in a different import module
+				allImportsResolved = false;
 			}
 		}
 		else if (type == spv::LinkageType::Export)
@@ -700,7 +702,6 @@ bool spvgentwo::LinkerHelper::import(const Module& _lib, Module& _consumer, cons
 		}
 	}
 
-	bool allImportsResolved = true;
 	// import variables first in case they are used in the imported function
 	for (const ImportSymbol& var : iVars)
 	{
-- 
2.43.0


From fcab7c5a1b937b94cac3e989aa6c47592bad4c0c Mon Sep 17 00:00:00 2001
From: x <x@y>
Date: Fri, 20 Nov 2026 00:39:55 +0000
Subject: [PATCH 142/184] fix: linking does not lower the version of the
 consumer and does not finalize entry points after a failure

---
 common/source/LinkerHelper.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/common/source/LinkerHelper.cpp b/common/source/LinkerHelper.cpp
index 84345a6..06a3152 100644
--- a/common/source/LinkerHelper.cpp
+++ b/common/source/LinkerHelper.cpp
@@ -767,6 +767,8 @@ bool spvgentwo::LinkerHelper::import(const Module& _lib, Module& _consumer, cons
 		}
 	}
 
+	unsigned int version = _lib.getSpvVersion() > _consumer.getSpvVersion() ? _lib.getSpvVersion() : _consumer.getSpvVersion();
+
 	// only add required capabilities & extensions
 	if (_options.grammar != nullptr && (_options & LinkerOptionBits::AutoAddRequiredCapabilitiesAndExtensions))
 	{
@@ -797,11 +799,11 @@ bool spvgentwo::LinkerHelper::import(const Module& _lib, Module& _consumer, cons
 	}
 
 	// consumer 1.4, [lib -> consumer version]
-	const auto version = _lib.getSpvVersion() > _consumer.getSpvVersion() ? _lib.getSpvVersion() : _consumer.getSpvVersion();
+	version = version > _consumer.getSpvVersion() ? version : _consumer.getSpvVersion(); // setRequiredVersion might have changed the consumer version
 	info("Merged SPIR-V version: %u.%u [Lib %u -> %u Consumer]", getMajorVersion(version), getMinorVersion(version), _lib.getSpvVersion(), version);
 	_consumer.setSpvVersion(version); // must be set before finalize
 
-	if (_options & LinkerOptionBits::UpdateEntryPointGlobalVarInterface)
+	if (success && (_options & LinkerOptionBits::UpdateEntryPointGlobalVarInterface))
 	{
 		// update global variable interface in case it changed and the user forgets to finalize the module
 		_consumer.finalizeEntryPoints();	
-- 
2.43.0


From 8981bf3224ab7b6831e54fb664bd457c6a28a58f Mon Sep 17 00:00:00 2001
From: x <x@y>
Date: Fri, 20 Nov 2026 00:39:55 +0000
Subject: [PATCH 143/184] fix: capabilities of integer and float widths are
 required capabilities of the linked module

---
 common/source/LinkerHelper.cpp | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/common/source/LinkerHelper.cpp b/common/source/LinkerHelper.cpp
index 06a3152..659681d 100644
--- a/common/source/LinkerHelper.cpp
+++ b/common/source/LinkerHelper.cpp
@@ -775,6 +775,28 @@ bool spvgentwo::LinkerHelper::import(const Module& _lib, Module& _consumer, cons
 		_consumer.addRequiredCapabilities(*_options.grammar);
 		_consumer.addRequiredExtensions(*_options.grammar);
 		_consumer.setRequiredVersion(*_options.grammar);
+
+		// capabilities which depend on the width of a type are not part of the grammar
+		auto addWidthCapability = [&](spv::Op _type, unsigned int _width, spv::Capability _cap)
+		{
+			if (_lib.getCapabilities().find(_cap) != _lib.getCapabilities().end())
+			{
+				for (const Instruction& instr : _consumer.getTypesAndConstants())
+				{
+					if (auto it = instr.getFirstActualOperand(); instr == _type && it != nullptr && it->getLiteral().value == _width)
+					{
+						_consumer.addCapability(_cap);
+						break;
+					}
+				}
+			}
+		};
+
+		addWidthCapability(spv::Op::OpTypeInt, 8u, spv::Capability::Int8);
+		addWidthCapability(spv::Op::OpTypeInt, 16u, spv::Capability::Int16);
+		addWidthCapability(spv::Op::OpTypeInt, 64u, spv::Capability::Int64);
+		addWidthCapability(spv::Op::OpTypeFloat, 16u, spv::Capability::Float16);
+		addWidthCapability(spv::Op::OpTypeFloat, 64u, spv::Capability::Float64);
 	}
 	else // import all capabilities
 	{
-- 
2.43.0


From 9396ce4b10d5de8ca910b6433f6c3d0e5e3fb680 Mon Sep 17 00:00:00 2001
From: x <x@y>
Date: Fri, 20 Nov 2026 00:39:55 +0000
Subject: [PATCH 144/184] fix: names of imported structures are not members

---
 common/source/LinkerHelper.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/source/LinkerHelper.cpp b/common/source/LinkerHelper.cpp
index 659681d..0eb1864 100644
--- a/common/source/LinkerHelper.cpp
+++ b/common/source/LinkerHelper.cpp
@@ -737,7 +737,7 @@ bool spvgentwo::LinkerHelper::import(const Module& _lib, Module& _consumer, cons
 				{
 					for (const auto& n : _lib.getNameLookupMap().getRange(lTarget))
 					{
-						if (*lTarget == spv::Op::OpTypeStruct)
+						if (n.kv.value.member != sgt_uint32_max)
 						{
 							_consumer.addMemberName(cTarget, n.kv.value.name.c_str(), n.kv.value.member);
 						}
-- 
2.43.0


From 99bdc05c604a1eca5ee7fab141b0731147eedff5 Mon Sep 17 00:00:00 2001
From: x <x@y>
Date: Fri, 20 Nov 2026 00:39:55 +0000
Subject: [PATCH 145/184] fix: instructions of imported functions can use
 results of later instructions

---
 common/source/LinkerHelper.cpp | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/common/source/LinkerHelper.cpp b/common/source/LinkerHelper.cpp
index 0eb1864..5e143e2 100644
--- a/common/source/LinkerHelper.cpp
+++ b/common/source/LinkerHelper.cpp
@@ -201,7 +201,8 @@ namespace
 		using namespace spvgentwo;
 		using namespace LinkerHelper;
 
-		if (_cache.find(_pLibInstr) != _cache.end())
+		// targets created up front are already in the cache, but were not transferred yet
+		if (Instruction** ppTarget = _cache[_pLibInstr]; ppTarget != nullptr && *ppTarget != _pTarget)
 		{
 			return true;
 		}
@@ -404,9 +405,11 @@ namespace
 
 		printInstruction(_options, _lBB.getLabel(), " -> ", _cBB.getLabel());
 
+		auto cit = _cBB.begin();
 		for (const spvgentwo::Instruction& lInstr : _lBB)
 		{
-			success &= transferInstruction(&lInstr, _cBB.addInstruction(), _cache, _options);
+			success &= transferInstruction(&lInstr, cit.operator->(), _cache, _options);
+			++cit;
 		}
 
 		return success;
@@ -465,6 +468,16 @@ namespace
 		{
 			auto& cBB = _cFunc.addBasicBlock();
 			_cache.emplaceUnique(lBB.getLabel(), assignId(cBB.getLabel(), _options));
+
+			// cache results too, OpPhi references instructions not yet transferred
+			for (const Instruction& lInstr : lBB)
+			{
+				Instruction* cInstr = cBB.addInstruction();
+				if (lInstr.hasResult())
+				{
+					_cache.emplaceUnique(&lInstr, cInstr);
+				}
+			}
 		}
 
 		for(auto lit = _lFunc.begin(), cit = _cFunc.begin(); lit != _lFunc.end(); ++lit, ++cit)
-- 
2.43.0


From abc71eec84e8da0a8889a15efbd1e49d26a7d971 Mon Sep 17 00:00:00 2001
From: x <x@y>
Date: Fri, 20 Nov 2026 00:40:42 +0000
Subject: [PATCH 146/184] fix: types and constants are imported with everything
 they consist of, types with other decorations are other types

---
 common/source/LinkerHelper.cpp | 191 ++++++++++++++++++++++++++-------
 1 file changed, 150 insertions(+), 41 deletions(-)

diff --git a/common/source/LinkerHelper.cpp b/common/source/LinkerHelper.cpp
index 5e143e2..c5fe4c4 100644
--- a/common/source/LinkerHelper.cpp
+++ b/common/source/LinkerHelper.cpp
@@ -172,31 +172,146 @@ namespace
 		return instr;
 	}
 
-	template<class Func>
-	inline spvgentwo::Instruction* addTypeOrConstants(Func _func, spvgentwo::Module& _module, spvgentwo::LinkerHelper::LinkerOptions _options)
+	inline bool transferInstruction(const spvgentwo::Instruction* _pLibInstr, spvgentwo::Instruction* _pTarget, InstrLookup& _cache, const spvgentwo::LinkerHelper::LinkerOptions& _options);
+
+	// compares two instructions from lib and consumer after replacing the lib operands, the result id and the first _skip actual operands are ignored
+	inline bool isImage(const spvgentwo::Instruction& _lib, const spvgentwo::Instruction& _consumer, InstrLookup& _cache, unsigned int _skip = 0u)
 	{
 		using namespace spvgentwo;
-		const auto& tac = _module.getTypesAndConstants();
-		auto prev = tac.last();
-		Instruction* instr = _func();
 
-		for (auto end = tac.end(), it = prev; it != end; ++it)
+		if (_lib.getOperation() != _consumer.getOperation() || _lib.size() != _consumer.size())
+		{
+			return false;
+		}
+
+		if (_lib.hasResultType())
 		{
-			if (_options & LinkerHelper::LinkerOptionBits::AssignResultIDs)
+			Instruction** ppType = _cache[_lib.getResultTypeInstr()];
+			if (ppType == nullptr || *ppType != _consumer.getResultTypeInstr())
 			{
-				it->assignResultId(false);
+				return false;
 			}
+		}
 
-			if (it != prev && it.next() != end)
+		auto cit = _consumer.getFirstActualOperand();
+		for (auto lit = _lib.getFirstActualOperand(), end = _lib.end(); lit != end; ++lit, ++cit)
+		{
+			if (_skip > 0u)
+			{
+				--_skip;
+			}
+			else if (lit->isInstruction())
 			{
-				printInstruction(_options, it.operator->(), " -> [IMPLICIT]\n");
+				Instruction** ppOperand = _cache[lit->getInstruction()];
+				if (ppOperand == nullptr || *ppOperand != cit->getInstruction())
+				{
+					return false;
+				}
+			}
+			else if (lit->isLiteral() == false || cit->isLiteral() == false || lit->getLiteral().value != cit->getLiteral().value)
+			{
+				return false;
 			}
 		}
 
-		return instr;
+		return true;
+	}
+
+	// true if _consumer already is the target of the same decoration
+	inline bool hasDecoration(const spvgentwo::Instruction& _libDecoration, const spvgentwo::Instruction* _consumer, InstrLookup& _cache)
+	{
+		bool found = false;
+		spvgentwo::ReflectionHelper::getDecorationsFunc(_consumer, [&](const spvgentwo::Instruction* _pDeco)
+		{
+			found = found || isImage(_libDecoration, *_pDeco, _cache, 1u); // skip target
+		});
+		return found;
+	}
+
+	// true if _lib and _consumer are targets of the same decorations
+	inline bool hasSameDecorations(const spvgentwo::Instruction* _lib, const spvgentwo::Instruction* _consumer, InstrLookup& _cache)
+	{
+		unsigned int libDecorations = 0u, consumerDecorations = 0u;
+		bool same = true;
+
+		spvgentwo::ReflectionHelper::getDecorationsFunc(_lib, [&](const spvgentwo::Instruction* _pDeco)
+		{
+			++libDecorations;
+			same = same && hasDecoration(*_pDeco, _consumer, _cache);
+		});
+		spvgentwo::ReflectionHelper::getDecorationsFunc(_consumer, [&](const spvgentwo::Instruction*) { ++consumerDecorations; });
+
+		return same && libDecorations == consumerDecorations;
 	}
 
-	inline bool transferInstruction(const spvgentwo::Instruction* _pLibInstr, spvgentwo::Instruction* _pTarget, InstrLookup& _cache, spvgentwo::LinkerHelper::LinkerOptions _options)
+	// find or add a type, constant or undef and everything it consists of
+	inline spvgentwo::Instruction* importTypeOrConstant(const spvgentwo::Instruction* _lib, spvgentwo::Module& _consumer, InstrLookup& _cache, const spvgentwo::LinkerHelper::LinkerOptions& _options)
+	{
+		using namespace spvgentwo;
+		using namespace LinkerHelper;
+
+		if (Instruction** ppTarget = _cache[_lib]; ppTarget != nullptr)
+		{
+			return *ppTarget;
+		}
+
+		const bool isUndef = *_lib == spv::Op::OpUndef && _lib->getBasicBlock() == nullptr;
+
+		if ((_lib->isType() == false || _lib->getType() == nullptr) && _lib->isSpecOrConstant() == false && isUndef == false)
+		{
+			return nullptr;
+		}
+
+		// operands must be declared first
+		for (const Operand& op : *_lib)
+		{
+			if (op.isInstruction() && importTypeOrConstant(op.getInstruction(), _consumer, _cache, _options) == nullptr)
+			{
+				return nullptr;
+			}
+		}
+
+		const spv::Op operation = _lib->getOperation();
+
+		// every specialization constant is unique
+		if (isUndef == false && (_lib->isType() || IsConstantOp(operation)))
+		{
+			// types with different decorations are different types
+			const bool decorated = (_options & LinkerOptionBits::ImportReferencedDecorations) &&
+				(operation == spv::Op::OpTypeStruct || operation == spv::Op::OpTypeArray || operation == spv::Op::OpTypeRuntimeArray || operation == spv::Op::OpTypePointer);
+
+			for (Instruction& candidate : _consumer.getTypesAndConstants())
+			{
+				if (isImage(*_lib, candidate, _cache) == false)
+				{
+					continue;
+				}
+
+				bool match = decorated == false || hasSameDecorations(_lib, &candidate, _cache);
+				if (decorated && match)
+				{
+					// decorations of types imported before are not transferred yet
+					for (const auto& [lib, consumer] : _cache)
+					{
+						match = match && consumer != &candidate;
+					}
+				}
+
+				if (match)
+				{
+					_cache.emplaceUnique(_lib, &candidate);
+					printInstruction(_options, _lib, " -> ", &candidate);
+					return &candidate;
+				}
+			}
+		}
+
+		Instruction* instr = isUndef ? _consumer.addUndefInstr() : _lib->isType() ? _consumer.addTypeInstr(_lib->getType()) : _consumer.addConstantInstr(_lib->getConstant());
+
+		return transferInstruction(_lib, instr, _cache, _options) ? instr : nullptr;
+	}
+
+	inline bool transferInstruction(const spvgentwo::Instruction* _pLibInstr, spvgentwo::Instruction* _pTarget, InstrLookup& _cache, const spvgentwo::LinkerHelper::LinkerOptions& _options)
 	{
 		using namespace spvgentwo;
 		using namespace LinkerHelper;
@@ -251,20 +366,12 @@ namespace
 				cInstr = *ppTarget;
 				cached = true;
 			}
-			else if (lib->isSpecOrConstant())
+			else if (lib->isSpecOrConstant() || *lib == spv::Op::OpUndef)
 			{
-				if ( _options & LinkerOptionBits::ImportMissingConstants )
+				if (_options & LinkerOptionBits::ImportMissingConstants)
 				{
-					if ( const Constant* c = lib->getConstant(); c != nullptr )
-					{
-						cInstr = addTypeOrConstants([&]() { return module->addConstant(*c); }, *module, _options);
-					}
-					else // fallback to generic transfer for spec constants
-					{
-						cInstr = module->addConstantInstr();
-						if ( transferInstruction(lib, cInstr, _cache, _options) == false ) return false;
-						cached = true;
-					}				
+					cInstr = importTypeOrConstant(lib, *module, _cache, _options);
+					cached = true;
 				}
 				else
 				{
@@ -274,9 +381,10 @@ namespace
 			}
 			else if (lib->isType())
 			{
-				if (const Type* t = lib->getType(); t != nullptr && (_options & LinkerOptionBits::ImportMissingTypes))
+				if (_options & LinkerOptionBits::ImportMissingTypes)
 				{
-					cInstr = addTypeOrConstants([&]() { return module->addType(*t); }, *module, _options);
+					cInstr = importTypeOrConstant(lib, *module, _cache, _options);
+					cached = true;
 				}
 				else
 				{
@@ -399,7 +507,7 @@ namespace
 		return true;
 	}
 
-	inline bool transferBasicBlock(const spvgentwo::BasicBlock& _lBB, spvgentwo::BasicBlock& _cBB, InstrLookup& _cache, spvgentwo::LinkerHelper::LinkerOptions _options)
+	inline bool transferBasicBlock(const spvgentwo::BasicBlock& _lBB, spvgentwo::BasicBlock& _cBB, InstrLookup& _cache, const spvgentwo::LinkerHelper::LinkerOptions& _options)
 	{
 		bool success = true;
 
@@ -423,18 +531,25 @@ namespace
 		Module& consumer = *_cFunc.getModule();
 
 		// create function signature
-		if (_cFunc.isFinalized() == false) // Function return type
+		if (_cFunc.isFinalized() == false)
 		{
-			_cFunc.setReturnType(_lFunc.getReturnType());
-		}
+			Instruction* cReturnType = importTypeOrConstant(_lFunc.getFunction()->getResultTypeInstr(), consumer, _cache, _options);
+			Instruction* cFunctionType = importTypeOrConstant(_lFunc.getFunction()->getFirstActualOperand().next()->getInstruction(), consumer, _cache, _options);
+
+			if (cReturnType == nullptr || cFunctionType == nullptr)
+			{
+				consumer.logError("Failed to import function type");
+				return false;
+			}
+
+			_cFunc.setReturnType(cReturnType);
 
-		if(_cFunc.getParameters().empty()) // parameters
-		{
 			for (const Instruction& lParam : _lFunc.getParameters())
 			{
-				Instruction* cType = addTypeOrConstants([&]() { return consumer.addType(*lParam.getType()); }, consumer, _options);
-				_cFunc.addParameters(cType); // OpFunctionParameter
+				_cFunc.addParameters(importTypeOrConstant(lParam.getResultTypeInstr(), consumer, _cache, _options)); // OpFunctionParameter
 			}
+
+			_cFunc.finalize(_lFunc.getFunctionControl()); // create OpFunction
 		}
 		else if(_cFunc.getParameters().size() != _lFunc.getParameters().size())
 		{
@@ -442,12 +557,6 @@ namespace
 			return false;
 		}
 
-		if(_cFunc.isFinalized() == false) // create OpFunction
-		{
-			_cFunc.finalize(_lFunc.getFunctionControl());
-			addTypeOrConstants([&]() { return consumer.addType(_cFunc.getFunctionType()); }, consumer, _options);
-		}
-
 		_cache.emplaceUnique(_lFunc.getFunction(), assignId(_cFunc.getFunction(), _options)); // OpFunction
 
 		printInstruction(_options, _lFunc.getFunction(), " -> ", _cFunc.getFunction()); // OpFunction
@@ -771,7 +880,7 @@ bool spvgentwo::LinkerHelper::import(const Module& _lib, Module& _consumer, cons
 			if (ReflectionHelper::getSpvDecorationKindFromDecoration(&lDeco) != spv::Decoration::LinkageAttributes)
 			{
 				const Instruction* lTarget = lDeco.getFirstActualOperand()->getInstruction();
-				if (Instruction** ppCTarget = cache[lTarget]; ppCTarget != nullptr)
+				if (Instruction** ppCTarget = cache[lTarget]; ppCTarget != nullptr && hasDecoration(lDeco, *ppCTarget, cache) == false)
 				{
 					Instruction* cDeco = _consumer.addDecorationInstr();
 					success &= transferInstruction(&lDeco, cDeco, cache, _options);
-- 
2.43.0


From 7dbe11cdfc4d474d0b12e3450fe810b6b698a677 Mon Sep 17 00:00:00 2001
From: x <x@y>
Date: Fri, 20 Nov 2026 00:41:39 +0000
Subject: [PATCH 147/184] fix: imported functions can call and use all other
 exports of the library

---
 common/source/LinkerHelper.cpp | 60 ++++++++++++++++++++--------------
 1 file changed, 35 insertions(+), 25 deletions(-)

diff --git a/common/source/LinkerHelper.cpp b/common/source/LinkerHelper.cpp
index c5fe4c4..1a64771 100644
--- a/common/source/LinkerHelper.cpp
+++ b/common/source/LinkerHelper.cpp
@@ -599,10 +599,9 @@ namespace
 		return success;
 	}
 
-	inline bool importSymbolImpl(spvgentwo::Module& _consumer, const spvgentwo::Instruction* _libSymbol, spvgentwo::Instruction* _consumerSymbol, const spvgentwo::String& _name, InstrLookup& _cache, spvgentwo::LinkerHelper::LinkerOptions _options)
+	// check that the types of the symbols match and make the consumer symbol the target of the lib symbol
+	inline bool bindSymbol(spvgentwo::Module& _consumer, const spvgentwo::Instruction* _libSymbol, spvgentwo::Instruction* _consumerSymbol, const spvgentwo::String& _name, InstrLookup& _cache, spvgentwo::LinkerHelper::LinkerOptions _options)
 	{
-		bool success = true;
-
 		using namespace spvgentwo;
 		using namespace LinkerHelper;
 
@@ -650,11 +649,11 @@ namespace
 		else if (*_libSymbol == spv::Op::OpFunction && _libSymbol->getFunction() != nullptr && _consumerSymbol->getFunction() != nullptr)
 		{
 			const Function& libFunc = *_libSymbol->getFunction();
-			Function& cosumerFunc = *_consumerSymbol->getFunction();
+			const Function& cosumerFunc = *_consumerSymbol->getFunction();
 
 			if (checkType(libFunc.getFunctionType(), cosumerFunc.getFunctionType()) == false) return false;
 
-			success &= transferFunction(libFunc, cosumerFunc, _cache, _options);
+			_cache.emplaceUnique(_libSymbol, assignId(_consumerSymbol, _options)); // OpFunction
 		}
 		else
 		{
@@ -662,7 +661,7 @@ namespace
 			return false;
 		}
 
-		return success;
+		return true;
 	}
 } // anon namespace
 
@@ -695,6 +694,7 @@ bool spvgentwo::LinkerHelper::import(const Module& _lib, Module& _consumer, cons
 		const Instruction* lib = nullptr;
 		Instruction* consume = nullptr;
 		BasicBlock::Iterator decoIt = nullptr;
+		bool bound = false;
 	};
 
 	List<ImportSymbol> iVars(pAllocator);
@@ -756,6 +756,19 @@ bool spvgentwo::LinkerHelper::import(const Module& _lib, Module& _consumer, cons
 		return true;
 	};
 
+	// bind all symbols first, they can be used by any imported function
+	for (ImportSymbol& var : iVars)
+	{
+		var.bound = bindSymbol(_consumer, var.lib, var.consume, var.name, cache, _options);
+		success &= var.bound;
+	}
+
+	for (ImportSymbol& func : iFuncs)
+	{
+		func.bound = bindSymbol(_consumer, func.lib, func.consume, func.name, cache, _options);
+		success &= func.bound;
+	}
+
 	if (_options & LinkerOptionBits::CopyOpSourceStringInstructions)
 	{
 		success &= copy(_lib.getSourceStrings(), [&]() -> Instruction* { return _consumer.addSourceStringInstr(); });
@@ -787,16 +800,8 @@ bool spvgentwo::LinkerHelper::import(const Module& _lib, Module& _consumer, cons
 					Function* callee = node->data();
 					if (callee != target) // not interested in the exported function
 					{
-						// check if callee is NOT marked for export
-						bool exported = false;
-						ReflectionHelper::getDecorationsFunc(callee->getFunction(), [&exported](const Instruction* pDeco) {
-							if(exported == false && getLinkageTypeFromDecoration(pDeco) == spv::LinkageType::Export)
-							{
-								exported = true;
-							}
-						});
-
-						if (exported == false)
+						// check that callee is not imported by the consumer
+						if (cache[callee->getFunction()] == nullptr || calledFuncs[callee] != nullptr)
 						{
 							// if we didn't add this function before (call from another site)
 							if (auto& n = calledFuncs.emplaceUnique(callee, nullptr); n.kv.value == nullptr)
@@ -824,24 +829,29 @@ bool spvgentwo::LinkerHelper::import(const Module& _lib, Module& _consumer, cons
 		}
 	}
 
-	// import variables first in case they are used in the imported function
-	for (const ImportSymbol& var : iVars)
+	// transfer the bodies of the imported functions
+	for (const ImportSymbol& func : iFuncs)
 	{
-		if (success &= importSymbolImpl(_consumer, var.lib, var.consume, var.name, cache, _options); success)
+		if (func.bound)
 		{
-			_consumer.getDecorations().erase(var.decoIt); // remove if successful
+			success &= transferFunction(*func.lib->getFunction(), *func.consume->getFunction(), cache, _options);
 		}
-		else { allImportsResolved = false; }
 	}
 
-	for (const ImportSymbol& func : iFuncs)
+	auto removeImports = [&](const List<ImportSymbol>& _symbols)
 	{
-		if (success &= importSymbolImpl(_consumer, func.lib, func.consume, func.name, cache, _options); success)
+		for (const ImportSymbol& symbol : _symbols)
 		{
-			_consumer.getDecorations().erase(func.decoIt); // remove if successful
+			_consumer.getDecorations().erase(symbol.decoIt);
 		}
-		else { allImportsResolved = false; }
+	};
+
+	if (success) // remove if successful
+	{
+		removeImports(iVars);
+		removeImports(iFuncs);
 	}
+	else { allImportsResolved = false; }
 
 	if (_options & LinkerOptionBits::ImportReferencedNames)
 	{
-- 
2.43.0


From d8573a6390d0b093f22b55466bd87e193612d6b7 Mon Sep 17 00:00:00 2001
From: x <x@y>
Date: Fri, 20 Nov 2026 00:41:39 +0000
Subject: [PATCH 148/184] fix: imports of the library itself become imports of
 the consumer

---
 common/source/LinkerHelper.cpp | 53 ++++++++++++++++++++++++++++++++++
 1 file changed, 53 insertions(+)

diff --git a/common/source/LinkerHelper.cpp b/common/source/LinkerHelper.cpp
index 1a64771..dc6ebc7 100644
--- a/common/source/LinkerHelper.cpp
+++ b/common/source/LinkerHelper.cpp
@@ -763,6 +763,37 @@ bool spvgentwo::LinkerHelper::import(const Module& _lib, Module& _consumer, cons
 		success &= var.bound;
 	}
 
+	// symbols the library imports itself are the same as those of the consumer
+	for (const Instruction& lDeco : _lib.getDecorations())
+	{
+		Instruction* lSymbol = nullptr;
+		String lName(pAllocator);
+
+		if (getLinkageTypeFromDecoration(&lDeco, &lSymbol, &lName) != spv::LinkageType::Import || lSymbol == nullptr)
+		{
+			continue;
+		}
+
+		for (const Instruction& cDeco : _consumer.getDecorations())
+		{
+			Instruction* cSymbol = nullptr;
+			String cName(pAllocator);
+
+			if (getLinkageTypeFromDecoration(&cDeco, &cSymbol, &cName) != spv::LinkageType::Max && cSymbol != nullptr && cName == lName && cSymbol->getOperation() == lSymbol->getOperation())
+			{
+				const bool isFunc = *lSymbol == spv::Op::OpFunction;
+				const Type* lType = isFunc ? &lSymbol->getFunction()->getFunctionType() : lSymbol->getType();
+				const Type* cType = isFunc ? &cSymbol->getFunction()->getFunctionType() : cSymbol->getType();
+
+				if (lType != nullptr && cType != nullptr && *lType == *cType)
+				{
+					cache.emplaceUnique(lSymbol, cSymbol);
+					break;
+				}
+			}
+		}
+	}
+
 	for (ImportSymbol& func : iFuncs)
 	{
 		func.bound = bindSymbol(_consumer, func.lib, func.consume, func.name, cache, _options);
@@ -883,6 +914,28 @@ bool spvgentwo::LinkerHelper::import(const Module& _lib, Module& _consumer, cons
 		}
 	}
 
+	// unresolved imports of the library are imports of the consumer now
+	for (const Instruction& lDeco : _lib.getDecorations())
+	{
+		Instruction* lSymbol = nullptr;
+
+		if (getLinkageTypeFromDecoration(&lDeco, &lSymbol) == spv::LinkageType::Import)
+		{
+			if (Instruction** ppCTarget = cache[lSymbol]; ppCTarget != nullptr)
+			{
+				bool linked = false;
+				ReflectionHelper::getDecorationsFunc(*ppCTarget, [&linked](const Instruction* pDeco) { linked |= getLinkageTypeFromDecoration(pDeco) != spv::LinkageType::Max; });
+
+				if (linked == false)
+				{
+					success &= transferInstruction(&lDeco, _consumer.addDecorationInstr(), cache, _options);
+					_consumer.addCapability(spv::Capability::Linkage);
+					allImportsResolved = false;
+				}
+			}
+		}
+	}
+
 	if (_options & LinkerOptionBits::ImportReferencedDecorations)
 	{
 		for (const Instruction& lDeco : _lib.getDecorations())
-- 
2.43.0


From 574839af42e26cd751ee3e3717e4b127d584e9e0 Mon Sep 17 00:00:00 2001
From: x <x@y>
Date: Fri, 20 Nov 2026 00:56:03 +0000
Subject: [PATCH 149/184] fix: names of instructions in a removed function body
 are forgotten

---
 common/source/LinkerHelper.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/common/source/LinkerHelper.cpp b/common/source/LinkerHelper.cpp
index dc6ebc7..de054be 100644
--- a/common/source/LinkerHelper.cpp
+++ b/common/source/LinkerHelper.cpp
@@ -48,6 +48,16 @@ bool spvgentwo::LinkerHelper::removeFunctionBody(Function& _func)
 	erase(module->getNames());
 	erase(module->getDecorations());
 
+	for (const BasicBlock& bb : _func)
+	{
+		module->removeFromLookupMaps(bb.getLabel());
+
+		for (const Instruction& instr : bb)
+		{
+			module->removeFromLookupMaps(&instr);
+		}
+	}
+
 	_func.clear();
 
 	return true;
-- 
2.43.0


From d546e48bd857876e48f9d74c82ec0d9fea9e2d72 Mon Sep 17 00:00:00 2001
From: x <x@y>
Date: Fri, 20 Nov 2026 01:28:44 +0000
Subject: [PATCH 150/184] fix: the disassembler reports missing files, missing
 arguments, unknown options and failed writes

---
 dis/source/dis.cpp | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/dis/source/dis.cpp b/dis/source/dis.cpp
index 682cf2b..0030ed2 100644
--- a/dis/source/dis.cpp
+++ b/dis/source/dis.cpp
@@ -62,6 +62,15 @@ int main(int argc, char* argv[])
 		{
 			tabs = argv[++i];
 		}
+		else if (strcmp(arg, "-tabs") == 0)
+		{
+			logger.logError("Missing argument of %s", arg);
+			return -1;
+		}
+		else
+		{
+			logger.logWarning("Unknown option %s", arg);
+		}
 	}
 
 	if (spv == nullptr)
@@ -99,13 +108,23 @@ int main(int argc, char* argv[])
 		{
 			if (BinaryFileWriter writer(alloc, "serialized.spv"); writer.isOpen())
 			{
-				module.finalizeAndWrite(writer);
+				if (module.finalizeAndWrite(writer) == false || writer.close() == false)
+				{
+					logger.logError("Failed to write serialized.spv");
+					return -1;
+				}
+			}
+			else
+			{
+				logger.logError("Failed to open serialized.spv");
+				return -1;
 			}
 		}
 	}
 	else
 	{
 		logger.logError("Failed to open %s", spv);
+		return -1;
 	}
 
 	return 0;
-- 
2.43.0


From 629a59291e50789418aaab57d0b6a168da2194f8 Mon Sep 17 00:00:00 2001
From: x <x@y>
Date: Fri, 20 Nov 2026 01:28:44 +0000
Subject: [PATCH 151/184] fix: repeated disassembler options don't cancel each
 other

---
 dis/source/dis.cpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/dis/source/dis.cpp b/dis/source/dis.cpp
index 0030ed2..f8bdaa2 100644
--- a/dis/source/dis.cpp
+++ b/dis/source/dis.cpp
@@ -25,7 +25,7 @@ int main(int argc, char* argv[])
 	bool reassignIDs = false;
 	bool colors = false;
 
-	PrintOptions options{ PrintOptionsBits::All };
+	bool instrNames = true, opNames = true, preamble = true;
 
 	for (int i = 1u; i < argc; ++i)
 	{
@@ -44,15 +44,15 @@ int main(int argc, char* argv[])
 		}
 		else if (strcmp(arg, "-noinstrnames") == 0)
 		{
-			options ^= PrintOptionsBits::InstructionName;
+			instrNames = false;
 		}
 		else if (strcmp(arg, "-noopnames") == 0)
 		{
-			options ^= PrintOptionsBits::OperandName;
+			opNames = false;
 		}
 		else if (strcmp(arg, "-nopreamble") == 0)
 		{
-			options ^= PrintOptionsBits::Preamble;
+			preamble = false;
 		}
 		else if (strcmp(arg, "-colors") == 0)
 		{
@@ -78,6 +78,11 @@ int main(int argc, char* argv[])
 		return -1;
 	}
 
+	PrintOptions options{ PrintOptionsBits::All };
+	if (instrNames == false) options ^= PrintOptionsBits::InstructionName;
+	if (opNames == false) options ^= PrintOptionsBits::OperandName;
+	if (preamble == false) options ^= PrintOptionsBits::Preamble;
+
 	HeapAllocator alloc;
 
 	if (BinaryFileReader reader(alloc, spv); reader)
-- 
2.43.0


From 7cebaef86e9cb22e2fcd70ab01c1004088fe9195 Mon Sep 17 00:00:00 2001
From: x <x@y>
Date: Fri, 20 Nov 2026 01:28:44 +0000
Subject: [PATCH 152/184] fix: the reflector knows all decorations and
 execution models

---
 refl/source/refl.cpp | 102 +++++++++----------------------------------
 1 file changed, 21 insertions(+), 81 deletions(-)

diff --git a/refl/source/refl.cpp b/refl/source/refl.cpp
index 39138ca..b263171 100644
--- a/refl/source/refl.cpp
+++ b/refl/source/refl.cpp
@@ -17,72 +17,19 @@
 using namespace spvgentwo;
 using namespace ModulePrinter;
 
-const HeapHashMap<spv::Decoration, const char*> DecorationNames(
-	spv::Decoration::RelaxedPrecision, (const char*)"RelaxedPrecision",
-	spv::Decoration::SpecId, (const char*)"SpecId",
-	spv::Decoration::Block, (const char*)"Block",
-	spv::Decoration::BufferBlock, (const char*)"BufferBlock",
-	spv::Decoration::RowMajor, (const char*)"RowMajor",
-	spv::Decoration::ColMajor, (const char*)"ColMajor",
-	spv::Decoration::ArrayStride, (const char*)"ArrayStride",
-	spv::Decoration::MatrixStride, (const char*)"MatrixStride",
-	spv::Decoration::GLSLShared, (const char*)"GLSLShared",
-	spv::Decoration::GLSLPacked, (const char*)"GLSLPacked",
-	spv::Decoration::CPacked, (const char*)"CPacked",
-	spv::Decoration::BuiltIn, (const char*)"BuiltIn",
-	spv::Decoration::NoPerspective, (const char*)"NoPerspective",
-	spv::Decoration::Flat, (const char*)"Flat",
-	spv::Decoration::Patch, (const char*)"Patch",
-	spv::Decoration::Centroid, (const char*)"Centroid",
-	spv::Decoration::Sample, (const char*)"Sample",
-	spv::Decoration::Invariant, (const char*)"Invariant",
-	spv::Decoration::Restrict, (const char*)"Restrict`",
-	spv::Decoration::Aliased, (const char*)"Aliased",
-	spv::Decoration::Volatile, (const char*)"Volatile",
-	spv::Decoration::Constant, (const char*)"Constant",
-	spv::Decoration::NonWritable, (const char*)"NonWritable",
-	spv::Decoration::NonReadable, (const char*)"NonReadable",
-	spv::Decoration::Uniform, (const char*)"Uniform",
-	spv::Decoration::UniformId, (const char*)"UniformId",
-	spv::Decoration::SaturatedConversion, (const char*)"SaturatedConversion",
-	spv::Decoration::Stream, (const char*)"Stream",
-	spv::Decoration::Location, (const char*)"Location",
-	spv::Decoration::Component, (const char*)"Component",
-	spv::Decoration::Index, (const char*)"Index",
-	spv::Decoration::Binding, (const char*)"Binding",
-	spv::Decoration::DescriptorSet, (const char*)"DescriptorSet",
-	spv::Decoration::Offset, (const char*)"Offset",
-	spv::Decoration::XfbBuffer, (const char*)"XfbBuffer",
-	spv::Decoration::XfbStride, (const char*)"XfbStride",
-	spv::Decoration::FuncParamAttr, (const char*)"FuncParamAttr",
-	spv::Decoration::FPRoundingMode, (const char*)"FPRoundingMode",
-	spv::Decoration::FPFastMathMode, (const char*)"FPFastMathMode",
-	spv::Decoration::LinkageAttributes, (const char*)"LinkageAttributes",
-	spv::Decoration::NoContraction, (const char*)"NoContraction",
-	spv::Decoration::InputAttachmentIndex, (const char*)"InputAttachmentIndex",
-	spv::Decoration::Alignment, (const char*)"Alignment",
-	spv::Decoration::MaxByteOffset, (const char*)"MaxByteOffset",
-	spv::Decoration::AlignmentId, (const char*)"AlignmentId",
-	spv::Decoration::MaxByteOffsetId, (const char*)"MaxByteOffsetId"
-);
-
-const HeapHashMap<spv::ExecutionModel, const char*> ExecutionModelNames(
-	spv::ExecutionModel::Vertex, (const char*)"Vertex",
-	spv::ExecutionModel::TessellationControl, (const char*)"TessellationControl",
-	spv::ExecutionModel::TessellationEvaluation, (const char*)"TessellationEvaluation",
-	spv::ExecutionModel::Geometry, (const char*)"Geometry",
-	spv::ExecutionModel::Fragment, (const char*)"Fragment",
-	spv::ExecutionModel::GLCompute, (const char*)"GLCompute",
-	spv::ExecutionModel::Kernel, (const char*)"Kernel",
-	spv::ExecutionModel::TaskNV, (const char*)"TaskNV",
-	spv::ExecutionModel::MeshNV, (const char*)"MeshNV",
-	spv::ExecutionModel::RayGenerationKHR, (const char*)"RayGenerationKHR",
-	spv::ExecutionModel::IntersectionKHR, (const char*)"IntersectionKHR",
-	spv::ExecutionModel::AnyHitKHR, (const char*)"AnyHitKHR",
-	spv::ExecutionModel::ClosestHitKHR, (const char*)"ClosestHitKHR",
-	spv::ExecutionModel::MissKHR, (const char*)"MissKHR",
-	spv::ExecutionModel::CallableKHR, (const char*)"CallableKHR"
-);
+// names are taken from the grammar
+bool getDecorationByName(const Grammar& _gram, const char* _name, spv::Decoration& _outDecoration)
+{
+	for (unsigned int value = 0u; value <= 0xffffu; ++value)
+	{
+		if (const char* name = _gram.getOperandName(Grammar::OperandKind::Decoration, value); name != nullptr && strcmp(name, _name) == 0)
+		{
+			_outDecoration = static_cast<spv::Decoration>(value);
+			return true;
+		}
+	}
+	return false;
+}
 
 const HeapHashMap<vk::DescriptorType, const char*> DescriptorTypeNames(
 	vk::DescriptorType::VK_DESCRIPTOR_TYPE_SAMPLER, (const char*)"VK_DESCRIPTOR_TYPE_SAMPLER",
@@ -139,9 +86,9 @@ void printFunctions(IModulePrinter& _printer, const Module& _module, const Gramm
 
 	for (const EntryPoint& ep : _module.getEntryPoints())
 	{
-		if (const char** shaderType = ExecutionModelNames[ep.getExecutionModel()]; shaderType != nullptr)
+		if (const char* shaderType = _gram.getOperandName(Grammar::OperandKind::ExecutionModel, static_cast<unsigned int>(ep.getExecutionModel())); shaderType != nullptr)
 		{
-			printf("%s [EP %s]\n", ep.getName(), *shaderType);		
+			printf("%s [EP %s]\n", ep.getName(), shaderType);
 		}
 		if (const Instruction* instr = ep.getEntryPoint(); instr != nullptr)
 		{
@@ -234,6 +181,9 @@ int main(int argc, char* argv[])
 	const char* spv = nullptr;
 	const char* varName = nullptr; // variable to inspect
 
+	HeapAllocator alloc;
+	const Grammar gram(&alloc);
+
 	HeapList<spv::Decoration> decorationsToPrint;
 
 	bool listFunctions = false;
@@ -269,19 +219,12 @@ int main(int argc, char* argv[])
 			{
 				const char* input = argv[i+1];
 
-				bool validDeco = false;
-				for (const auto& [deco, str] : DecorationNames)
-				{
-					if (strcmp(str, input) == 0)
-					{
-						decorationsToPrint.emplace_back(deco);
-						validDeco = true;
-						break;
-					}
-				}
+				spv::Decoration deco{};
+				const bool validDeco = getDecorationByName(gram, input, deco);
 
 				if (validDeco) // 2nd argument part was valid
 				{
+					decorationsToPrint.emplace_back(deco);
 					++i;
 				}
 			}
@@ -313,8 +256,6 @@ int main(int argc, char* argv[])
 		return -1;
 	}
 
-	HeapAllocator alloc;
-
 	BinaryFileReader reader(alloc, spv);
 	if (reader == false)
 	{
@@ -323,7 +264,6 @@ int main(int argc, char* argv[])
 	}
 
 	Module module(&alloc, &logger);
-	Grammar gram(&alloc);
 
 	// parse the binary instructions & operands
 	if (module.readAndInit(reader, gram) == false)
-- 
2.43.0


From fc08ded8511f8a3db89465eccadc656423cca6ba Mon Sep 17 00:00:00 2001
From: x <x@y>
Date: Fri, 20 Nov 2026 01:28:44 +0000
Subject: [PATCH 153/184] fix: the reflector reports unknown options and
 missing arguments

---
 refl/source/refl.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/refl/source/refl.cpp b/refl/source/refl.cpp
index b263171..b915343 100644
--- a/refl/source/refl.cpp
+++ b/refl/source/refl.cpp
@@ -249,6 +249,15 @@ int main(int argc, char* argv[])
 		{
 			colors = true;
 		}
+		else if (strcmp(arg, "-id") == 0 || strcmp(arg, "-var") == 0)
+		{
+			logger.logError("Missing argument of %s", arg);
+			return -1;
+		}
+		else
+		{
+			logger.logWarning("Unknown option %s", arg);
+		}
 	}
 
 	if (spv == nullptr)
-- 
2.43.0


From a9d33a20859aa00f966201ea56d1c06aad5bdc16 Mon Sep 17 00:00:00 2001
From: x <x@y>
Date: Fri, 20 Nov 2026 01:28:44 +0000
Subject: [PATCH 154/184] fix: the linker reports failed writes and does not
 print a structure as string

---
 link/source/link.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/link/source/link.cpp b/link/source/link.cpp
index 6c2c789..3a638d5 100644
--- a/link/source/link.cpp
+++ b/link/source/link.cpp
@@ -72,7 +72,7 @@ int patch(Module& _module, const HeapList<Target>& _targets, const char* _out)
 
 		if (*t.instr != spv::Op::OpFunction && *t.instr != spv::Op::OpVariable)
 		{
-			g_logger.logError("Only OpFunctions which are not EntryPoints and global OpVariables can be imported/exported [%s]", g_gram.getInfo(static_cast<unsigned int>(t.instr->getOperation())));
+			g_logger.logError("Only OpFunctions which are not EntryPoints and global OpVariables can be imported/exported [%s]", t.name);
 			return -1;
 		}
 
@@ -88,7 +88,12 @@ int patch(Module& _module, const HeapList<Target>& _targets, const char* _out)
 		return -1;
 	}
 
-	_module.finalizeAndWrite(writer);
+	if (_module.finalizeAndWrite(writer) == false || writer.close() == false)
+	{
+		g_logger.logError("Failed to write \'%s\'", _out);
+		return -1;
+	}
+
 	return 0;
 }
 
@@ -115,7 +120,7 @@ int link(const HeapList<Module>& _libs, Module& _target, const LinkerHelper::Lin
 	_target.finalizeEntryPoints();
 
 	// don't need to call assignIDs, we are using AssignResultIDs
-	if (_target.write(writer) == false) 
+	if (_target.write(writer) == false || writer.close() == false)
 	{
 		g_logger.logError("Failed to write \'%s\'", _out);
 		return -1;
-- 
2.43.0


From dbd19ee563e0dc82d12e8d44ae5a1f256f6b8fcf Mon Sep 17 00:00:00 2001
From: x <x@y>
Date: Fri, 20 Nov 2026 01:28:44 +0000
Subject: [PATCH 155/184] fix: entry points and local variables can not be
 imported or exported

---
 link/source/link.cpp | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/link/source/link.cpp b/link/source/link.cpp
index 3a638d5..83f4c04 100644
--- a/link/source/link.cpp
+++ b/link/source/link.cpp
@@ -49,7 +49,16 @@ int patch(Module& _module, const HeapList<Target>& _targets, const char* _out)
 
 	for (auto& t : _targets)
 	{
-		if (*t.instr == spv::Op::OpFunction && t.instr->getFunction()->isEntryPoint() == false)
+		const bool isFunction = *t.instr == spv::Op::OpFunction && t.instr->getFunction()->isEntryPoint() == false;
+		const bool isGlobalVariable = *t.instr == spv::Op::OpVariable && t.instr->getBasicBlock() == nullptr;
+
+		if (isFunction == false && isGlobalVariable == false)
+		{
+			g_logger.logError("Only OpFunctions which are not EntryPoints and global OpVariables can be imported/exported [%s]", t.name);
+			return -1;
+		}
+
+		if (isFunction)
 		{
 			Function* func = t.instr->getFunction();
 
@@ -70,12 +79,6 @@ int patch(Module& _module, const HeapList<Target>& _targets, const char* _out)
 			}
 		}
 
-		if (*t.instr != spv::Op::OpFunction && *t.instr != spv::Op::OpVariable)
-		{
-			g_logger.logError("Only OpFunctions which are not EntryPoints and global OpVariables can be imported/exported [%s]", t.name);
-			return -1;
-		}
-
 		Instruction* instr = _module.addDecorationInstr();
 		instr->opDecorate(t.instr, spv::Decoration::LinkageAttributes, t.name, t.type);
 		g_printer << "Added "; printInstruction(*instr, g_gram, g_printer); g_printer << "\n";
-- 
2.43.0


From 9e3a12aa80212e7764e49db2cc45d613779d9abe Mon Sep 17 00:00:00 2001
From: x <x@y>
Date: Fri, 20 Nov 2026 01:28:44 +0000
Subject: [PATCH 156/184] fix: the linker reports invalid arguments, missing
 files and missing targets

---
 link/source/link.cpp | 41 +++++++++++++++++++++++++----------------
 1 file changed, 25 insertions(+), 16 deletions(-)

diff --git a/link/source/link.cpp b/link/source/link.cpp
index 83f4c04..47ed730 100644
--- a/link/source/link.cpp
+++ b/link/source/link.cpp
@@ -132,11 +132,12 @@ int link(const HeapList<Module>& _libs, Module& _target, const LinkerHelper::Lin
 	return 0;
 }
 
-void addTarget(spv::LinkageType type, int& _i, int _argc, char* _argv[])
+bool addTarget(spv::LinkageType type, int& _i, int _argc, char* _argv[])
 {
 	Instruction* instr = nullptr;
 	const char* target = _argv[++_i];
-	if (auto id = static_cast<unsigned int>(strtoul(target, nullptr, 10)); id != 0u && id != sgt_uint32_max)
+	char* end = nullptr;
+	if (auto id = static_cast<unsigned int>(strtoul(target, &end, 10)); *end == 0 && id != 0u && id != sgt_uint32_max)
 	{
 		instr = g_patchModule.getInstructionById(spv::Id{ id });
 	}
@@ -147,8 +148,8 @@ void addTarget(spv::LinkageType type, int& _i, int _argc, char* _argv[])
 
 	if (instr == nullptr)
 	{
-		g_logger.logError("Could not find %s in %s", target, g_patchspv);
-		return;
+		g_logger.logError("Could not find %s in %s", target, g_patchspv != nullptr ? g_patchspv : "patch target");
+		return false;
 	}
 
 	if (const char* name = _argv[++_i]; name != nullptr)
@@ -163,6 +164,8 @@ void addTarget(spv::LinkageType type, int& _i, int _argc, char* _argv[])
 		g_targets.emplace_back(instr, name, type, exportVars);
 		g_logger.logInfo("Adding %s target instruction \'%s\' with name \'%s\'", type == spv::LinkageType::Import ? "import" : "export", target, name);
 	}
+
+	return true;
 }
 
 int main(int argc, char* argv[])
@@ -284,16 +287,14 @@ int main(int argc, char* argv[])
 		{ // import symbol
 			"-import", "-i",
 			[](int& _i, int _argc, char* _argv[]) {
-				addTarget(spv::LinkageType::Import, _i, _argc, _argv);
-				return true;
+				return addTarget(spv::LinkageType::Import, _i, _argc, _argv);
 			},
 			2 // symbol name and export name
 		},
 		{ // import symbol
 			"-export", "-e",
 			[](int& _i, int _argc, char* _argv[]) {
-				addTarget(spv::LinkageType::Export, _i, _argc, _argv);
-				return true;
+				return addTarget(spv::LinkageType::Export, _i, _argc, _argv);
 			},
 			2 // symbol name and export name and -vars (optional)
 		}
@@ -327,12 +328,15 @@ int main(int argc, char* argv[])
 			}
 		}
 		g_logger.logWarning("Unkown parameter %s", arg);
-		return false;
+		return true; // ignored
 	};
 
 	for (int i = 1; i < argc; ++i)
 	{
-		checkParam(argv[i], i);
+		if (checkParam(argv[i], i) == false)
+		{
+			return -1;
+		}
 	}
 
 	if (g_targets.empty() == false)
@@ -342,16 +346,21 @@ int main(int argc, char* argv[])
 
 	if (g_libs.empty() == false)
 	{
+		if (g_targetspv == nullptr)
+		{
+			g_logger.logError("No consumer module given");
+			return -1;
+		}
+
 		return link(g_libs, g_targetModule, g_options, g_out != nullptr ? g_out : g_targetspv);
 	}
 
-	if (argc == 1 || (g_libs.empty() && g_targets.empty())) // print 'help'
+	// print 'help'
+	for (const CMDOption& o : CmdOptions)
 	{
-		for (const CMDOption& o : CmdOptions)
-		{
-			g_logger.logInfo("Option %s or %s with %i args", o.str, o.alt, o.args);
-		}
+		g_logger.logInfo("Option %s or %s with %i args", o.str, o.alt, o.args);
 	}
 
-	return 0;
+	return argc == 1 ? 0 : -1; // nothing to do
+
 }
\ No newline at end of file
-- 
2.43.0


From 6cf85270e1d7f65c7a130d7beee0276c23bd2cc0 Mon Sep 17 00:00:00 2001
From: x <x@y>
Date: Fri, 20 Nov 2026 01:28:44 +0000
Subject: [PATCH 157/184] fix: linker targets can be given before the module to
 patch

---
 link/source/link.cpp | 32 +++++++++++++++++++++++++-------
 1 file changed, 25 insertions(+), 7 deletions(-)

diff --git a/link/source/link.cpp b/link/source/link.cpp
index 47ed730..41c9f4e 100644
--- a/link/source/link.cpp
+++ b/link/source/link.cpp
@@ -181,6 +181,7 @@ int main(int argc, char* argv[])
 		const char* alt = nullptr;
 		Func* func = nullptr;
 		int args = 0;
+		bool late = false; // needs the patch module, which may be given later
 	};
 
 	
@@ -289,21 +290,23 @@ int main(int argc, char* argv[])
 			[](int& _i, int _argc, char* _argv[]) {
 				return addTarget(spv::LinkageType::Import, _i, _argc, _argv);
 			},
-			2 // symbol name and export name
+			2, // symbol name and export name
+			true
 		},
 		{ // import symbol
 			"-export", "-e",
 			[](int& _i, int _argc, char* _argv[]) {
 				return addTarget(spv::LinkageType::Export, _i, _argc, _argv);
 			},
-			2 // symbol name and export name and -vars (optional)
+			2, // symbol name and export name and -vars (optional)
+			true
 		}
 	};
 
 	g_options.flags = LinkerOptionBits::AssignResultIDs;
 	// we dont want to set LinkerOptionBits::UpdateEntryPointGlobalVarInterface, we call finalizeEntryPoints() manually 
 
-	auto checkParam = [argc, argv, &CmdOptions](const char* arg, int& i) -> bool
+	auto checkParam = [argc, argv, &CmdOptions](const char* arg, int& i, bool late) -> bool
 	{
 		auto casecmp = [](const char* l, const char* r)
 		{
@@ -321,21 +324,36 @@ int main(int argc, char* argv[])
 			{
 				if (i + o.args < argc)
 				{
+					if (o.late != late)
+					{
+						i += o.args;
+						if (o.late && i + 1 < argc && strcmp(argv[i + 1], "-vars") == 0)
+						{
+							++i;
+						}
+						return true;
+					}
 					return o.func(i, argc, argv);				
 				}
 				g_logger.logError("Insufficient trailing arguments: i %i + args %i >= argc %i", i, o.args, argc);
 				return false;
 			}
 		}
-		g_logger.logWarning("Unkown parameter %s", arg);
+		if (late)
+		{
+			g_logger.logWarning("Unkown parameter %s", arg);
+		}
 		return true; // ignored
 	};
 
-	for (int i = 1; i < argc; ++i)
+	for (int pass = 0; pass < 2; ++pass)
 	{
-		if (checkParam(argv[i], i) == false)
+		for (int i = 1; i < argc; ++i)
 		{
-			return -1;
+			if (checkParam(argv[i], i, pass == 1) == false)
+			{
+				return -1;
+			}
 		}
 	}
 
-- 
2.43.0


From ae28b05373fbb8a455badf176138b606afd806c9 Mon Sep 17 00:00:00 2001
From: x <x@y>
Date: Fri, 20 Nov 2026 01:28:44 +0000
Subject: [PATCH 158/184] fix: the linker's addcaps option works without
 verbose

---
 link/source/link.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/link/source/link.cpp b/link/source/link.cpp
index 41c9f4e..3f22bf0 100644
--- a/link/source/link.cpp
+++ b/link/source/link.cpp
@@ -213,7 +213,6 @@ int main(int argc, char* argv[])
 		{ // verbose
 			"-PrintInstructions", "-verbose",
 			[]([[maybe_unused]] int& _i, [[maybe_unused]] int _argc, [[maybe_unused]] char* _argv[]){
-				g_options.grammar = &g_gram;
 				g_options.printer = &g_printer;
 				g_logger.logInfo("Verbose instruction printing enabled");
 				return true;
@@ -304,6 +303,7 @@ int main(int argc, char* argv[])
 	};
 
 	g_options.flags = LinkerOptionBits::AssignResultIDs;
+	g_options.grammar = &g_gram; // required by AutoAddRequiredCapabilitiesAndExtensions
 	// we dont want to set LinkerOptionBits::UpdateEntryPointGlobalVarInterface, we call finalizeEntryPoints() manually 
 
 	auto checkParam = [argc, argv, &CmdOptions](const char* arg, int& i, bool late) -> bool
-- 
2.43.0


From 30fa97dae1a5b04ae4483842204c02ec6a838543 Mon Sep 17 00:00:00 2001
From: x <x@y>
Date: Fri, 20 Nov 2026 01:28:45 +0000
Subject: [PATCH 159/184] fix: decorations selected twice are printed once

---
 refl/source/refl.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/refl/source/refl.cpp b/refl/source/refl.cpp
index b915343..0b40ef6 100644
--- a/refl/source/refl.cpp
+++ b/refl/source/refl.cpp
@@ -354,6 +354,7 @@ int main(int argc, char* argv[])
 				if (ReflectionHelper::getSpvDecorationAndLiteralFromDecoration(decoInstr, outDeco, value) && outDeco == decoToPrint)
 				{
 					printInstruction(*decoInstr, gram, printer); printf("\n");
+					break;
 				}
 			}
 		}
-- 
2.43.0


From c92c429823b53caa276a1fcd317f1bd3d62cf25e Mon Sep 17 00:00:00 2001
From: x <x@y>
Date: Fri, 20 Nov 2026 01:28:45 +0000
Subject: [PATCH 160/184] fix: linking stops at the first library that can not
 be imported

---
 link/source/link.cpp | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/link/source/link.cpp b/link/source/link.cpp
index 3f22bf0..de0cd1a 100644
--- a/link/source/link.cpp
+++ b/link/source/link.cpp
@@ -102,15 +102,12 @@ int patch(Module& _module, const HeapList<Target>& _targets, const char* _out)
 
 int link(const HeapList<Module>& _libs, Module& _target, const LinkerHelper::LinkerOptions& _options, const char* _out)
 {
-	bool success = true;
 	for (const Module& lib : _libs)
 	{
-		success &= LinkerHelper::import(lib, _target, _options);
-	}
-
-	if (success == false)
-	{
-		return -1;
+		if (LinkerHelper::import(lib, _target, _options) == false)
+		{
+			return -1;
+		}
 	}
 
 	BinaryFileWriter writer(g_alloc, _out);
-- 
2.43.0


From f76edc278a76d2a7b8f6f9418b52a2f7d499d712 Mon Sep 17 00:00:00 2001
From: x <x@y>
Date: Fri, 20 Nov 2026 03:02:07 +0000
Subject: [PATCH 161/184] fix: report instruction operands which have no result
 id, and types used as values

---
 lib/source/TypeInferenceAndValiation.cpp | 38 ++++++++++++++++++++++++
 1 file changed, 38 insertions(+)

diff --git a/lib/source/TypeInferenceAndValiation.cpp b/lib/source/TypeInferenceAndValiation.cpp
index 7768a1a..9869517 100644
--- a/lib/source/TypeInferenceAndValiation.cpp
+++ b/lib/source/TypeInferenceAndValiation.cpp
@@ -580,6 +580,34 @@ spvgentwo::Instruction* spvgentwo::ITypeInferenceAndVailation::inferResultType(c
 	return module->getErrorInstr();
 }
 
+namespace
+{
+	// instructions of a basic block operate on values, except for queries of a type and debug information
+	bool takesValues(const spvgentwo::Instruction& _instr)
+	{
+		switch (_instr.getOperation())
+		{
+		case spvgentwo::spv::Op::OpExtInst:
+		{
+			const auto set = _instr.getFirstActualOperand();
+			for (const auto& [name, import] : _instr.getModule()->getExtInstrImports())
+			{
+				if (set != nullptr && set->isInstruction() && set->getInstruction() == &import)
+				{
+					return name == "GLSL.std.450" || name == "OpenCL.std";
+				}
+			}
+			return false;
+		}
+		case spvgentwo::spv::Op::OpCooperativeMatrixLengthKHR:
+		case spvgentwo::spv::Op::OpCooperativeMatrixLengthNV:
+			return false;
+		default:
+			return _instr.getBasicBlock() != nullptr;
+		}
+	}
+}
+
 bool spvgentwo::ITypeInferenceAndVailation::validateOperands(const spvgentwo::Instruction& _instr) const
 {
 	bool resultId = false, resultType = false;
@@ -652,6 +680,16 @@ bool spvgentwo::ITypeInferenceAndVailation::validateOperands(const spvgentwo::In
 				module->logError("Error instructions (result of invalid constrution/operation)");
 				return false;
 			}
+			else if (op.instruction->getOperation() != spv::Op::OpNop && op.instruction->hasResult() == false) // OpNop might be assigned later
+			{
+				module->logError("Instruction operand does not have a result id");
+				return false;
+			}
+			else if (op.instruction->isType() && takesValues(_instr))
+			{
+				module->logError("Instruction operand is a type, value expected");
+				return false;
+			}
 			break;
 		case Operand::Type::BranchTarget:
 			if (op.branchTarget == nullptr)
-- 
2.43.0


From 112be2f52619344f858983aaaf9978539996450b Mon Sep 17 00:00:00 2001
From: x <x@y>
Date: Fri, 20 Nov 2026 03:02:07 +0000
Subject: [PATCH 162/184] fix: GLSL.std.450 operations crash when an operand is
 the result of a failed operation

---
 lib/source/GLSL450Instruction.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/source/GLSL450Instruction.cpp b/lib/source/GLSL450Instruction.cpp
index 7a8a8e4..4631f1e 100644
--- a/lib/source/GLSL450Instruction.cpp
+++ b/lib/source/GLSL450Instruction.cpp
@@ -10,6 +10,7 @@ spvgentwo::Instruction* spvgentwo::GLSL450Intruction::scalarOrFloatVec1(glslstd4
 	if (pTypeInstr == nullptr) return error();
 
 	const Type* pType = pTypeInstr->getType();
+	if (pType == nullptr) return error();
 
 	if ((pType->isFloat() || pType->isVectorOfFloat()) && (_no64Bit ? pType->getBaseType().getFloatWidth() <= 32u : true))
 	{
@@ -326,6 +327,8 @@ spvgentwo::Instruction* spvgentwo::GLSL450Intruction::opCross(Instruction* _pLef
 	if (pLeftTypeInstr == nullptr || pRightTypeInstr == nullptr) return error();
 
 	const Type* pType = pLeftTypeInstr->getType();
+	if (pType == nullptr) return error();
+
 	if (pLeftTypeInstr == pRightTypeInstr && pType->isVectorOfFloat(3u))
 	{
 		return opExtInst(pLeftTypeInstr, ExtName, static_cast<unsigned int>(glslstd450::Op::Cross), _pLeft, _pRight);
@@ -391,7 +394,7 @@ spvgentwo::Instruction* spvgentwo::GLSL450Intruction::opMatrixInverse(Instructio
 spvgentwo::Instruction* spvgentwo::GLSL450Intruction::opModfStruct(Instruction* _pFloat)
 {
 	Instruction* pTypeInstr = _pFloat->getResultTypeInstr();
-	if (pTypeInstr == nullptr) return error();
+	if (pTypeInstr == nullptr || pTypeInstr->getType() == nullptr) return error();
 
 	return scalarOrFloatVec1(glslstd450::Op::ModfStruct, _pFloat, false, getModule()->compositeType(spv::Op::OpTypeStruct, pTypeInstr, pTypeInstr));
 }
-- 
2.43.0


From 06b78062e1b278014a3478de4d6d7b2152906c46 Mon Sep 17 00:00:00 2001
From: x <x@y>
Date: Fri, 20 Nov 2026 03:02:07 +0000
Subject: [PATCH 163/184] fix: opStore, opCopyMemory and opCopyMemorySized drop
 operands without a type silently

---
 lib/include/spvgentwo/InstructionTemplate.inl | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/lib/include/spvgentwo/InstructionTemplate.inl b/lib/include/spvgentwo/InstructionTemplate.inl
index b531a47..79f5a20 100644
--- a/lib/include/spvgentwo/InstructionTemplate.inl
+++ b/lib/include/spvgentwo/InstructionTemplate.inl
@@ -375,7 +375,10 @@ namespace spvgentwo
 		const Type* valtype = _valueToStore->getType();
 
 		if (ptrtype == nullptr || valtype == nullptr)
+		{
+			getModule()->logError("OpStore: operand does not have a type");
 			return;
+		}
 
 		if (_memOperands.empty() && sizeof...(_operands) > 0)
 		{
@@ -403,6 +406,7 @@ namespace spvgentwo
 
 		if (targetType == nullptr || sourceType == nullptr)
 		{
+			module->logError("Operand of OpCopyMemory/Sized does not have a type");
 			return;
 		}
 
@@ -421,7 +425,11 @@ namespace spvgentwo
 		if(_pSizeInt != nullptr)
 		{
 			const Type* sizeType = _pSizeInt->getType();
-			if (sizeType == nullptr) return;
+			if (sizeType == nullptr)
+			{
+				module->logError("Operand _pSizeInt of OpCopyMemorySized does not have a type");
+				return;
+			}
 
 			//  Size is the number of bytes to copy. It must have a scalar integer type. If it is a
 			//	constant instruction, the constant value must not be 0. It is invalid for both the
-- 
2.43.0


From 4cdb310a4534cf60944593740f5935a90c0b11a1 Mon Sep 17 00:00:00 2001
From: x <x@y>
Date: Fri, 20 Nov 2026 03:02:07 +0000
Subject: [PATCH 164/184] fix: opImage crashes on a type, access chains into
 and copies of instructions which are no objects are accepted

---
 lib/source/Instruction.cpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/lib/source/Instruction.cpp b/lib/source/Instruction.cpp
index 830816e..4801092 100644
--- a/lib/source/Instruction.cpp
+++ b/lib/source/Instruction.cpp
@@ -1201,6 +1201,12 @@ bool spvgentwo::Instruction::checkAccessChain(const Instruction* _pResultType, c
 	const Type* pResultType = _pResultType->getType();
 	const Type* pBaseType = _pBase->getType();
 
+	if (_pBase->hasResultType() == false)
+	{
+		getModule()->logError("Base of an access chain is not an object");
+		return false;
+	}
+
 	// types which refer to themselves are not described by Type, nothing to check
 	if (pResultType == nullptr || pBaseType == nullptr) return true;
 
@@ -1501,6 +1507,12 @@ spvgentwo::Instruction* spvgentwo::Instruction::opCompositeExtractDynamic(Instru
 
 spvgentwo::Instruction* spvgentwo::Instruction::opCopyObject(Instruction* _pObject)
 {
+	if (const Type* type = _pObject->getType(); type != nullptr && type->isVoid())
+	{
+		getModule()->logError("Operand of OpCopyObject is not an object");
+		return error();
+	}
+
 	return makeOp(spv::Op::OpCopyObject, _pObject->getResultTypeInstr(), InvalidId, _pObject);
 }
 
@@ -1707,7 +1719,7 @@ spvgentwo::Instruction* spvgentwo::Instruction::opImage(Instruction* _pSampledIm
 	const Type* type = _pSampledImage->getType();
 	if (type == nullptr) return error();
 
-	if (type->isSampledImage() == false)
+	if (type->isSampledImage() == false || _pSampledImage->isType())
 	{
 		getModule()->logError("Operand _pSampledImage of OpImage is not of type OpTypeSampledImage");
 		return error();
-- 
2.43.0


From f812138a15bf0573dbfa68c16a6d8ead61a83df9 Mon Sep 17 00:00:00 2001
From: x <x@y>
Date: Fri, 20 Nov 2026 03:02:07 +0000
Subject: [PATCH 165/184] fix: opBranchConditional accepts conditions which are
 not boolean

---
 lib/include/spvgentwo/Instruction.h |  3 +++
 lib/source/Instruction.cpp          | 17 +++++++++++++++++
 2 files changed, 20 insertions(+)

diff --git a/lib/include/spvgentwo/Instruction.h b/lib/include/spvgentwo/Instruction.h
index 8e9e5fe..da522ec 100644
--- a/lib/include/spvgentwo/Instruction.h
+++ b/lib/include/spvgentwo/Instruction.h
@@ -766,6 +766,9 @@ namespace spvgentwo
 		// checks number and types of the constituents of a composite of type _type
 		bool checkConstituents(const Type& _type, const Instruction* const* _pConstituents, unsigned int _count) const;
 
+		// checks that _pCondition is a scalar boolean
+		bool checkCondition(const Instruction* _pCondition) const;
+
 		// checks result type, number and types of the arguments of a function call
 		bool checkFunctionCall(const Instruction* _pResultType, const Instruction* _pFunction, const Instruction* const* _pArgs, unsigned int _count) const;
 
diff --git a/lib/source/Instruction.cpp b/lib/source/Instruction.cpp
index 4801092..eca61df 100644
--- a/lib/source/Instruction.cpp
+++ b/lib/source/Instruction.cpp
@@ -1169,13 +1169,30 @@ void spvgentwo::Instruction::opBranch(BasicBlock* _pTargetBlock)
 	makeOp(spv::Op::OpBranch, _pTargetBlock);
 }
 
+bool spvgentwo::Instruction::checkCondition(const Instruction* _pCondition) const
+{
+	const Type* pType = _pCondition != nullptr && _pCondition->hasResultType() ? _pCondition->getType() : nullptr;
+
+	if (pType == nullptr || pType->isBool() == false)
+	{
+		getModule()->logError("Condition of OpBranchConditional must be a scalar boolean");
+		return false;
+	}
+
+	return true;
+}
+
 void spvgentwo::Instruction::opBranchConditional(Instruction* _pCondition, BasicBlock* _pTrueBlock, BasicBlock* _pFalseBlock)
 {
+	if (checkCondition(_pCondition) == false) return;
+
 	makeOp(spv::Op::OpBranchConditional, _pCondition, _pTrueBlock, _pFalseBlock);
 }
 
 void spvgentwo::Instruction::opBranchConditional(Instruction* _pCondition, BasicBlock* _pTrueBlock, BasicBlock* _pFalseBlock, const unsigned int _trueWeight, const unsigned int _falseWeight)
 {
+	if (checkCondition(_pCondition) == false) return;
+
 	makeOp(spv::Op::OpBranchConditional, _pCondition, _pTrueBlock, _pFalseBlock, _trueWeight, _falseWeight);
 }
 
-- 
2.43.0


From 4d1a29950c292363c1b8609808a6777235a00749 Mon Sep 17 00:00:00 2001
From: x <x@y>
Date: Fri, 20 Nov 2026 03:02:07 +0000
Subject: [PATCH 166/184] fix: opVariable accepts result types which are no
 pointers of its storage class and initializers which are no constants

---
 lib/source/Instruction.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/lib/source/Instruction.cpp b/lib/source/Instruction.cpp
index eca61df..09dbe1b 100644
--- a/lib/source/Instruction.cpp
+++ b/lib/source/Instruction.cpp
@@ -1203,6 +1203,18 @@ spvgentwo::Instruction* spvgentwo::Instruction::callDynamic(Function* _pFunction
 
 spvgentwo::Instruction* spvgentwo::Instruction::opVariable(Instruction* _pResultType, const spv::StorageClass _storageClass, Instruction* _pInitializer)
 {
+	if (_pResultType == nullptr || _pResultType->getOperation() != spv::Op::OpTypePointer || _pResultType->getStorageClass() != _storageClass)
+	{
+		getModule()->logError("ResultType operand of opVariable must be a pointer type of the storage class of the variable");
+		return error();
+	}
+
+	if (_pInitializer != nullptr && _pInitializer->isSpecOrConstant() == false && _pInitializer->getOperation() != spv::Op::OpVariable)
+	{
+		getModule()->logError("Initializer of opVariable must be a constant or a variable");
+		return error();
+	}
+
 	if (_pInitializer == nullptr)
 	{
 		return makeOp(spv::Op::OpVariable, _pResultType, InvalidId, literal_t{ _storageClass });
-- 
2.43.0


From 1232d5d92a2599977ced6df6b03f190a971776e4 Mon Sep 17 00:00:00 2001
From: x <x@y>
Date: Fri, 20 Nov 2026 03:02:07 +0000
Subject: [PATCH 167/184] fix: opUndef accepts void and function types

---
 lib/source/Instruction.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/source/Instruction.cpp b/lib/source/Instruction.cpp
index 09dbe1b..db749ee 100644
--- a/lib/source/Instruction.cpp
+++ b/lib/source/Instruction.cpp
@@ -760,11 +760,11 @@ void spvgentwo::Instruction::opNop()
 
 spvgentwo::Instruction* spvgentwo::Instruction::opUndef(Instruction* _pResultType)
 {
-	if (_pResultType->isType())
+	if (_pResultType->isType() && _pResultType->getOperation() != spv::Op::OpTypeVoid && _pResultType->getOperation() != spv::Op::OpTypeFunction)
 	{
 		return makeOp(spv::Op::OpUndef, _pResultType, InvalidId);
 	}
-	getModule()->logError("opUndef ResultType is not a type instruction");
+	getModule()->logError("opUndef ResultType is not the type instruction of an object");
 	return error();
 }
 
-- 
2.43.0


From cfcba87cbf02c1567ec58b3ed50e0e89d71596c9 Mon Sep 17 00:00:00 2001
From: x <x@y>
Date: Fri, 20 Nov 2026 03:02:07 +0000
Subject: [PATCH 168/184] fix: opMemberDecorate accepts targets which are no
 structures

---
 lib/include/spvgentwo/InstructionTemplate.inl | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/include/spvgentwo/InstructionTemplate.inl b/lib/include/spvgentwo/InstructionTemplate.inl
index 79f5a20..ae7e7ab 100644
--- a/lib/include/spvgentwo/InstructionTemplate.inl
+++ b/lib/include/spvgentwo/InstructionTemplate.inl
@@ -199,6 +199,12 @@ namespace spvgentwo
 	template<class ...Decorations>
 	inline void Instruction::opMemberDecorate(Instruction* _pTargetStructType, unsigned int _memberIndex, spv::Decoration _decoration, Decorations ..._decorations)
 	{
+		if (_pTargetStructType->getOperation() != spv::Op::OpTypeStruct)
+		{
+			getModule()->logError("Operand of opMemberDecorate target must be of type struct");
+			return;
+		}
+
 		makeOp(spv::Op::OpMemberDecorate, _pTargetStructType, _memberIndex, _decoration, _decorations...);
 	}
 
-- 
2.43.0


From 819e6758ae87b8606da05ba49cb4569a99d1aa0b Mon Sep 17 00:00:00 2001
From: x <x@y>
Date: Fri, 20 Nov 2026 03:04:09 +0000
Subject: [PATCH 169/184] fix: opVectorExtractDynamic crashes when its vector
 is a type

---
 lib/source/Instruction.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/source/Instruction.cpp b/lib/source/Instruction.cpp
index db749ee..f11c7fc 100644
--- a/lib/source/Instruction.cpp
+++ b/lib/source/Instruction.cpp
@@ -1566,7 +1566,7 @@ spvgentwo::Instruction* spvgentwo::Instruction::opVectorExtractDynamic(Instructi
 	const Type* indexType = _pIndexInt->getType();
 	if (vecType == nullptr || indexType == nullptr) return error();
 
-	if (vecType->isVector() && indexType->isInt())
+	if (_pVector->isType() == false && vecType->isVector() && indexType->isInt())
 	{
 		auto component = _pVector->getResultTypeInstr()->getFirstActualOperand();
 		return makeOp(spv::Op::OpVectorExtractDynamic, component->getInstruction(), InvalidId, _pVector, _pIndexInt);
-- 
2.43.0


From e3de8789b9c262199a56229477728bcdadf438c2 Mon Sep 17 00:00:00 2001
From: x <x@y>
Date: Fri, 20 Nov 2026 03:04:09 +0000
Subject: [PATCH 170/184] fix: opModfStruct adds a struct of void to the module
 when its operand is a function

---
 lib/source/GLSL450Instruction.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/lib/source/GLSL450Instruction.cpp b/lib/source/GLSL450Instruction.cpp
index 4631f1e..3fb4918 100644
--- a/lib/source/GLSL450Instruction.cpp
+++ b/lib/source/GLSL450Instruction.cpp
@@ -394,7 +394,15 @@ spvgentwo::Instruction* spvgentwo::GLSL450Intruction::opMatrixInverse(Instructio
 spvgentwo::Instruction* spvgentwo::GLSL450Intruction::opModfStruct(Instruction* _pFloat)
 {
 	Instruction* pTypeInstr = _pFloat->getResultTypeInstr();
-	if (pTypeInstr == nullptr || pTypeInstr->getType() == nullptr) return error();
+	if (pTypeInstr == nullptr) return error();
+
+	// the type of the result is only valid for floats
+	const Type* pType = pTypeInstr->getType();
+	if (pType == nullptr || (pType->isFloat() || pType->isVectorOfFloat()) == false)
+	{
+		getModule()->logError("Operand of opModfStruct is not a scalar or vector of float");
+		return error();
+	}
 
 	return scalarOrFloatVec1(glslstd450::Op::ModfStruct, _pFloat, false, getModule()->compositeType(spv::Op::OpTypeStruct, pTypeInstr, pTypeInstr));
 }
-- 
2.43.0


From 2a6bc715fe28b3da8cf9bf06c6c6a50d5e1adb1a Mon Sep 17 00:00:00 2001
From: x <x@y>
Date: Fri, 20 Nov 2026 03:04:25 +0000
Subject: [PATCH 171/184] fix: execution modes can be set for instructions
 which are no functions

---
 lib/include/spvgentwo/InstructionTemplate.inl | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/lib/include/spvgentwo/InstructionTemplate.inl b/lib/include/spvgentwo/InstructionTemplate.inl
index ae7e7ab..5304d6c 100644
--- a/lib/include/spvgentwo/InstructionTemplate.inl
+++ b/lib/include/spvgentwo/InstructionTemplate.inl
@@ -170,12 +170,26 @@ namespace spvgentwo
 	template<class ...ExecModeLiteral>
 	inline void Instruction::opExecutionMode(Instruction* _pEntryPoint, const spv::ExecutionMode _mode, ExecModeLiteral ..._args)
 	{
+		// the function of an entry point might not be finalized yet
+		if (const spv::Op op = _pEntryPoint->getOperation(); op != spv::Op::OpFunction && op != spv::Op::OpNop)
+		{
+			getModule()->logError("Operand of opExecutionMode is not a function");
+			return;
+		}
+
 		makeOp(spv::Op::OpExecutionMode, _pEntryPoint, _mode, _args...);
 	}
 
 	template<class ...ExecModeConstInstr>
 	inline void Instruction::opExecutionModeId(Instruction* _pEntryPoint, const spv::ExecutionMode _mode, ExecModeConstInstr* ..._args)
 	{
+		// the function of an entry point might not be finalized yet
+		if (const spv::Op op = _pEntryPoint->getOperation(); op != spv::Op::OpFunction && op != spv::Op::OpNop)
+		{
+			getModule()->logError("Operand of opExecutionModeId is not a function");
+			return;
+		}
+
 		if constexpr (sizeof...(_args) > 0u)
 		{
 			static_assert(stdrep::conjunction_v<stdrep::is_same<Instruction, ExecModeConstInstr>...>, "ExecModeConstInstr must be of type Instruction");
-- 
2.43.0


From 600aae88b003cf6950e5a4a7df27a5615036761e Mon Sep 17 00:00:00 2001
From: x <x@y>
Date: Fri, 20 Nov 2026 03:05:01 +0000
Subject: [PATCH 172/184] fix: operands which refer to an instruction without a
 result id are written as id 0xFFFFFFFF

---
 lib/source/Operand.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/source/Operand.cpp b/lib/source/Operand.cpp
index d1aba59..cea7f79 100644
--- a/lib/source/Operand.cpp
+++ b/lib/source/Operand.cpp
@@ -8,7 +8,11 @@ bool spvgentwo::Operand::write(IWriter& _writer) const
 	switch (type)
 	{
 	case Type::Instruction:
-		return instruction != nullptr && _writer.put(static_cast<unsigned int>(instruction->getResultId()));
+		if (const spv::Id resultId = instruction != nullptr ? instruction->getResultId() : InvalidId; resultId != InvalidId)
+		{
+			return _writer.put(static_cast<unsigned int>(resultId));
+		}
+		return false;
 	case Type::BranchTarget:
 		return branchTarget != nullptr && _writer.put(static_cast<unsigned int>(branchTarget->getLabel()->getResultId()));
 	case Type::Literal:
-- 
2.43.0


From c6fcc6b9fd2e20ec8bd8429231518f9c7cb8a985 Mon Sep 17 00:00:00 2001
From: x <x@y>
Date: Fri, 20 Nov 2026 03:06:33 +0000
Subject: [PATCH 173/184] fix: opDot crashes when both operands are results of
 failed operations

---
 lib/source/Instruction.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/source/Instruction.cpp b/lib/source/Instruction.cpp
index f11c7fc..1771583 100644
--- a/lib/source/Instruction.cpp
+++ b/lib/source/Instruction.cpp
@@ -1381,6 +1381,8 @@ spvgentwo::Instruction* spvgentwo::Instruction::opDot(Instruction* _pLeft, Instr
 	if (pLeftTypeInstr == nullptr || pRightTypeInstr == nullptr) return error();
 
 	const Type* pType = pLeftTypeInstr->getType();
+	if (pType == nullptr) return error();
+
 	if (pLeftTypeInstr == pRightTypeInstr && pType->isVectorOfFloat())
 	{
 		return makeOp(spv::Op::OpDot, InvalidInstr, InvalidId, _pLeft, _pRight);
-- 
2.43.0


From 7cf4a472d6ef3a62129ba9cb11f4efad812c381b Mon Sep 17 00:00:00 2001
From: x <x@y>
Date: Fri, 20 Nov 2026 03:38:52 +0000
Subject: [PATCH 174/184] fix: opVariable accepts initializers of another type

---
 lib/source/Instruction.cpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/lib/source/Instruction.cpp b/lib/source/Instruction.cpp
index 1771583..ae0cd9a 100644
--- a/lib/source/Instruction.cpp
+++ b/lib/source/Instruction.cpp
@@ -1215,6 +1215,19 @@ spvgentwo::Instruction* spvgentwo::Instruction::opVariable(Instruction* _pResult
 		return error();
 	}
 
+	if (_pInitializer != nullptr)
+	{
+		const Type* pPointerType = _pResultType->getType();
+		const Type* pInitializerType = _pInitializer->getType();
+
+		// types which refer to themselves are not described by Type, nothing to check
+		if (pPointerType != nullptr && pInitializerType != nullptr && pPointerType->front() != *pInitializerType)
+		{
+			getModule()->logError("Type of the initializer of opVariable must be the type of the variable");
+			return error();
+		}
+	}
+
 	if (_pInitializer == nullptr)
 	{
 		return makeOp(spv::Op::OpVariable, _pResultType, InvalidId, literal_t{ _storageClass });
-- 
2.43.0


From 9068bc29ec33d4d4bf952cb1568839ee96fc0e7f Mon Sep 17 00:00:00 2001
From: x <x@y>
Date: Fri, 20 Nov 2026 03:43:53 +0000
Subject: [PATCH 175/184] fix: opCopyMemorySized rejects positive constants of
 signed types

---
 lib/include/spvgentwo/InstructionTemplate.inl | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/include/spvgentwo/InstructionTemplate.inl b/lib/include/spvgentwo/InstructionTemplate.inl
index 5304d6c..133eb75 100644
--- a/lib/include/spvgentwo/InstructionTemplate.inl
+++ b/lib/include/spvgentwo/InstructionTemplate.inl
@@ -465,9 +465,10 @@ namespace spvgentwo
 
 			if (_pSizeInt->isConstant())
 			{
-				if(sizeType->isSigned())
+				// the highest word is sign extended
+				if(const auto& data = _pSizeInt->getConstant()->getData(); sizeType->isSigned() && data.empty() == false && (data.back() >> 31u) != 0u)
 				{
-					module->logError("Operand _pSizeInt of OpCopyMemorySized must be of type scalar unsigned integer if OpConstant");
+					module->logError("Operand _pSizeInt of OpCopyMemorySized must not be a negative OpConstant");
 					return;
 				}
 
-- 
2.43.0


From 295061078265e2e476072620bfc83064847a5621 Mon Sep 17 00:00:00 2001
From: x <x@y>
Date: Fri, 20 Nov 2026 03:51:13 +0000
Subject: [PATCH 176/184] fix: removing and replacing instructions reports an
 error for every block which is still under construction

---
 lib/include/spvgentwo/ModuleTemplate.inl | 4 ----
 lib/source/Module.cpp                    | 8 ++++++--
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/lib/include/spvgentwo/ModuleTemplate.inl b/lib/include/spvgentwo/ModuleTemplate.inl
index 13970f4..e3a8a2a 100644
--- a/lib/include/spvgentwo/ModuleTemplate.inl
+++ b/lib/include/spvgentwo/ModuleTemplate.inl
@@ -214,10 +214,6 @@ namespace spvgentwo
 			{
 				if (pred(*bb.getLabel())) return true;
 				if (iterateInstructionContainer(_func, bb)) return true;
-				if (bb.getTerminator() == nullptr)
-				{
-					_module.logError("BasicBlock %s has no terminator instruction, missing opReturn?", bb.getName());
-				}
 			}
 			if (pred(*f.getFunctionEnd())) return true;
 			return false;
diff --git a/lib/source/Module.cpp b/lib/source/Module.cpp
index 5a0aea0..a663d42 100644
--- a/lib/source/Module.cpp
+++ b/lib/source/Module.cpp
@@ -1212,11 +1212,15 @@ bool spvgentwo::Module::write(IWriter& _writer) const
 	// iterateModuleInstructions returns TRUE if not all instructions were enumarated because _func returned TRUE
 	if (iterateInstructions(writeInstr)) return false;
 
-	auto isTerminated = [](const Function& func) -> bool
+	auto isTerminated = [this](const Function& func) -> bool
 	{
 		for (const BasicBlock& bb : func)
 		{
-			if (bb.getTerminator() == nullptr) return false;
+			if (bb.getTerminator() == nullptr)
+			{
+				logError("BasicBlock %s has no terminator instruction, missing opReturn?", bb.getName());
+				return false;
+			}
 		}
 		return true;
 	};
-- 
2.43.0


From e8124fe40b03446bff8e5bed29a1fc6586e71f9a Mon Sep 17 00:00:00 2001
From: x <x@y>
Date: Fri, 20 Nov 2026 04:07:24 +0000
Subject: [PATCH 177/184] fix: execution modes with operands of the wrong kind
 are dropped silently

---
 lib/include/spvgentwo/EntryPointTemplate.inl | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/lib/include/spvgentwo/EntryPointTemplate.inl b/lib/include/spvgentwo/EntryPointTemplate.inl
index c3625cb..a0793fe 100644
--- a/lib/include/spvgentwo/EntryPointTemplate.inl
+++ b/lib/include/spvgentwo/EntryPointTemplate.inl
@@ -28,6 +28,10 @@ namespace spvgentwo
 			{
 				pInstr->opExecutionModeId(&m_Function, _mode);
 			}
+			else
+			{
+				getModule()->logError("Operands of this execution mode must be instructions");
+			}
 		}
 		else
 		{
@@ -39,6 +43,10 @@ namespace spvgentwo
 			{
 				pInstr->opExecutionMode(&m_Function, _mode);
 			}
+			else
+			{
+				getModule()->logError("Operands of this execution mode must be literals");
+			}
 		}
 
 		return pInstr;
-- 
2.43.0


From 1d157d9df865b3eb55c574faedaefdc406461522 Mon Sep 17 00:00:00 2001
From: x <x@y>
Date: Fri, 20 Nov 2026 04:14:11 +0000
Subject: [PATCH 178/184] fix: execution modes write the ids of instructions
 given instead of some of their literals

---
 lib/include/spvgentwo/EntryPointTemplate.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/include/spvgentwo/EntryPointTemplate.inl b/lib/include/spvgentwo/EntryPointTemplate.inl
index a0793fe..8aaddea 100644
--- a/lib/include/spvgentwo/EntryPointTemplate.inl
+++ b/lib/include/spvgentwo/EntryPointTemplate.inl
@@ -35,7 +35,7 @@ namespace spvgentwo
 		}
 		else
 		{
-			if constexpr (sizeof...(_args) > 0 && false == stdrep::conjunction_v<stdrep::is_same<Instruction*, Args>...>)
+			if constexpr (sizeof...(_args) > 0 && ((stdrep::is_same_v<Instruction*, Args> == false) && ...))
 			{
 				pInstr->opExecutionMode(&m_Function, _mode, _args...);
 			}
-- 
2.43.0


From d40a8342e17c0e849bdb581e269297bdc2bfee11 Mon Sep 17 00:00:00 2001
From: x <x@y>
Date: Fri, 20 Nov 2026 05:34:41 +0000
Subject: [PATCH 179/184] fix: Vector: appending, inserting or filling with an
 element of the same vector read it after it was moved or freed

---
 lib/include/spvgentwo/Vector.h | 28 +++++++++++++++++++++++++++-
 1 file changed, 27 insertions(+), 1 deletion(-)

diff --git a/lib/include/spvgentwo/Vector.h b/lib/include/spvgentwo/Vector.h
index 0a19e4a..401656d 100644
--- a/lib/include/spvgentwo/Vector.h
+++ b/lib/include/spvgentwo/Vector.h
@@ -270,6 +270,13 @@ namespace spvgentwo
 	{
 		if ( _size > m_elements ) // grow
 		{
+			if ( _size > m_capacity && _pInitValue >= m_pData && _pInitValue < m_pData + m_elements )
+			{
+				// the initial value is an element of this vector, find it in the new storage
+				const sgt_size_t index = _pInitValue - m_pData;
+				return reserve(_size) && resize(_size, m_pData + index);
+			}
+
 			if ( reserve(_size) == false )
 			{
 				return false;
@@ -349,6 +356,13 @@ namespace spvgentwo
 			return nullptr;
 		}
 
+		// copy the elements of this vector before they are moved
+		if ( _pData >= m_pData && _pData < m_pData + m_elements )
+		{
+			const Vector<U> copy(m_pAllocator, _pData, _count);
+			return copy.size() == _count ? insert(_pos, copy.data(), _count) : nullptr;
+		}
+
 		// no reallocation needed
 		if ( m_elements + _count <= m_capacity )
 		{
@@ -454,10 +468,22 @@ namespace spvgentwo
 		if ( m_elements >= m_capacity )
 		{
 			// grow by factor 1.25 + 1
-			if ( reserve(m_capacity + 1u + (m_capacity >> 2)) == false )
+			Vector<U> grown(m_pAllocator);
+			if ( grown.reserve(m_capacity + 1u + (m_capacity >> 2)) == false )
 			{
 				return nullptr;
 			}
+
+			// the arguments may refer to elements of this vector, use them before those are moved
+			T* pElement = traits::constructWithArgs(grown.m_pData + m_elements, stdrep::forward<Args>(_args)...);
+			for ( sgt_size_t i = 0u; i < m_elements; ++i )
+			{
+				traits::constructWithArgs(grown.m_pData + i, stdrep::move(m_pData[i]));
+			}
+			grown.m_elements = m_elements + 1u;
+
+			*this = stdrep::move(grown);
+			return pElement;
 		}
 
 		return traits::constructWithArgs(m_pData + m_elements++, stdrep::forward<Args>(_args)...);
-- 
2.43.0


From 51c8a5350a389493c5d2984f929c7ebbbd6b5822 Mon Sep 17 00:00:00 2001
From: x <x@y>
Date: Fri, 20 Nov 2026 05:37:10 +0000
Subject: [PATCH 180/184] fix: String: appending or inserting a part of the
 string itself read it after it was overwritten or freed

---
 lib/include/spvgentwo/String.h |  6 ++++--
 lib/source/String.cpp          | 12 ++++++++++++
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/lib/include/spvgentwo/String.h b/lib/include/spvgentwo/String.h
index 37ec3ec..dea6f1a 100644
--- a/lib/include/spvgentwo/String.h
+++ b/lib/include/spvgentwo/String.h
@@ -119,16 +119,18 @@ namespace spvgentwo
 	template<class Arg>
 	inline String::T* String::emplace_back(Arg&& _arg)
 	{
+		const T element = stdrep::forward<Arg>(_arg); // may be part of this string
+
 		if(m_elements == 0 || Vector::back() != '\0')
 		{
-			Vector::emplace_back(stdrep::forward<Arg>(_arg));
+			Vector::emplace_back(element);
 			Vector::emplace_back('\0');
 			return &back();
 		}
 		else if (reserve(m_elements+1u))
 		{
 			m_pData[m_elements] = m_pData[m_elements - 1]; // move string terminator to last element
-			m_pData[m_elements - 1] = stdrep::forward<Arg>(_arg); // new element is 2nd last
+			m_pData[m_elements - 1] = element; // new element is 2nd last
 			++m_elements;
 			return &back();
 		}
diff --git a/lib/source/String.cpp b/lib/source/String.cpp
index 9a9855e..f62d7a0 100644
--- a/lib/source/String.cpp
+++ b/lib/source/String.cpp
@@ -75,6 +75,12 @@ spvgentwo::String& spvgentwo::String::operator+=(const char* _pStr)
 
 spvgentwo::String& spvgentwo::String::append(const char* _pStr, sgt_size_t _length)
 {
+	if (_pStr >= m_pData && _pStr < m_pData + m_elements) // part of this string
+	{
+		const String copy(m_pAllocator, _pStr, _length);
+		return copy.c_str() != nullptr ? append(copy.c_str(), _length) : *this;
+	}
+
 	const sgt_size_t length = _length == 0u ? stringLength(_pStr) : _length;
 	if (length != 0u && reserve(m_elements + length))
 	{
@@ -126,6 +132,12 @@ spvgentwo::String::Iterator spvgentwo::String::insert(sgt_size_t _pos, const cha
 		return nullptr;
 	}
 
+	if (_pCStr >= m_pData && _pCStr < m_pData + m_elements) // part of this string
+	{
+		const String copy(m_pAllocator, _pCStr, _length);
+		return copy.c_str() != nullptr ? insert(_pos, copy.c_str(), _length) : nullptr;
+	}
+
 	const sgt_size_t length = _length == 0u && _pCStr != nullptr ? (stringLength(_pCStr) - 1u) : _length;
 
 	if (reserve(m_elements + length + 1u) == false) // string terminator included
-- 
2.43.0


From 656ad85dee990366588a6cd953f620a84ebbf261 Mon Sep 17 00:00:00 2001
From: x <x@y>
Date: Fri, 20 Nov 2026 05:48:55 +0000
Subject: [PATCH 181/184] fix: Type: vector, matrix, array, pointer, structure
 of the type itself or one of its members read it after it was reset

---
 lib/include/spvgentwo/Type.h |  8 +++--
 lib/source/Type.cpp          | 66 ++++++++++++++++++------------------
 2 files changed, 38 insertions(+), 36 deletions(-)

diff --git a/lib/include/spvgentwo/Type.h b/lib/include/spvgentwo/Type.h
index 4fcc962..fb854e4 100644
--- a/lib/include/spvgentwo/Type.h
+++ b/lib/include/spvgentwo/Type.h
@@ -742,11 +742,13 @@ namespace spvgentwo
 	template<class ...Types>
 	inline Type& Type::Struct(const Type& _firstMember, const Types& ..._memberTypes)
 	{
+		List<Type> members(m_subTypes.getAllocator()); // members might be (parts of) this type
+		members.emplace_back(_firstMember);
+		(members.emplace_back(_memberTypes), ...);
+
 		reset();
 		m_Type = spv::Op::OpTypeStruct;
-
-		m_subTypes.emplace_back(_firstMember);
-		(m_subTypes.emplace_back(_memberTypes), ...);
+		m_subTypes = stdrep::move(members);
 
 		return *this;
 	}
diff --git a/lib/source/Type.cpp b/lib/source/Type.cpp
index cf66174..890520e 100644
--- a/lib/source/Type.cpp
+++ b/lib/source/Type.cpp
@@ -296,42 +296,50 @@ spvgentwo::Type& spvgentwo::Type::Scalar(const dyn_scalar_t& _scalarType)
 	return *this;
 }
 
+namespace
+{
+	// the element might be (a part of) the type that is about to be reset
+	spvgentwo::List<spvgentwo::Type> copyElement(spvgentwo::IAllocator* _pAllocator, const spvgentwo::Type* _pElement)
+	{
+		spvgentwo::List<spvgentwo::Type> element(_pAllocator);
+		if (_pElement != nullptr)
+		{
+			element.emplace_back(*_pElement);
+		}
+		return element;
+	}
+}
+
 spvgentwo::Type& spvgentwo::Type::Struct(const Type* _pSubType)
 {
+	List<Type> element = copyElement(m_subTypes.getAllocator(), _pSubType);
 	reset();
 	m_Type = spv::Op::OpTypeStruct;
 
-	if (_pSubType != nullptr)
-	{
-		m_subTypes.emplace_back(*_pSubType);
-	}
+	m_subTypes = stdrep::move(element);
 
 	return *this;
 }
 
 spvgentwo::Type& spvgentwo::Type::Array(unsigned int _elements, const Type* _pElementType)
 {
+	List<Type> element = copyElement(m_subTypes.getAllocator(), _pElementType);
 	reset();
 	m_Type = spv::Op::OpTypeArray;
 	m_ArrayLength = _elements;
 
-	if(_pElementType != nullptr)
-	{
-		m_subTypes.emplace_back(*_pElementType);
-	}
+	m_subTypes = stdrep::move(element);
 
 	return *this;
 }
 
 spvgentwo::Type& spvgentwo::Type::RuntimeArray(const Type* _elementType)
 {
+	List<Type> element = copyElement(m_subTypes.getAllocator(), _elementType);
 	reset();
 	m_Type = spv::Op::OpTypeRuntimeArray;
 
-	if (_elementType != nullptr)
-	{
-		m_subTypes.emplace_back(*_elementType);
-	}
+	m_subTypes = stdrep::move(element);
 
 	return *this;
 }
@@ -345,28 +353,24 @@ spvgentwo::Type& spvgentwo::Type::Function()
 
 spvgentwo::Type& spvgentwo::Type::Pointer(spv::StorageClass _storageClass, const Type* _pInnerType)
 {
+	List<Type> element = copyElement(m_subTypes.getAllocator(), _pInnerType);
 	reset();
 	m_Type = spv::Op::OpTypePointer;
 	m_StorageClass = _storageClass;
 
-	if (_pInnerType != nullptr)
-	{
-		m_subTypes.emplace_back(*_pInnerType);
-	}
+	m_subTypes = stdrep::move(element);
 
 	return *this;
 }
 
 spvgentwo::Type& spvgentwo::Type::ForwardPointer(spv::StorageClass _storageClass, const Type* _pInnerType)
 {
+	List<Type> element = copyElement(m_subTypes.getAllocator(), _pInnerType);
 	reset();
 	m_Type = spv::Op::OpTypeForwardPointer;
 	m_StorageClass = _storageClass;
 
-	if (_pInnerType != nullptr)
-	{
-		m_subTypes.emplace_back(*_pInnerType);
-	}
+	m_subTypes = stdrep::move(element);
 
 	return *this;
 }
@@ -411,13 +415,11 @@ spvgentwo::Type& spvgentwo::Type::Image(const dyn_image_t& _imageType)
 
 spvgentwo::Type& spvgentwo::Type::SampledImage(const Type* _imageType)
 {
+	List<Type> element = copyElement(m_subTypes.getAllocator(), _imageType);
 	reset();
 	m_Type = spv::Op::OpTypeSampledImage;
 
-	if (_imageType != nullptr)
-	{
-		m_subTypes.emplace_back(*_imageType);
-	}
+	m_subTypes = stdrep::move(element);
 
 	return *this;
 }
@@ -483,14 +485,12 @@ spvgentwo::Type& spvgentwo::Type::NamedBarrier()
 
 spvgentwo::Type& spvgentwo::Type::Vector(unsigned int _elements, const Type* _elementType)
 {
+	List<Type> element = copyElement(m_subTypes.getAllocator(), _elementType);
 	reset();
 	m_Type = spv::Op::OpTypeVector;
 	m_VecComponentCount = _elements;
 
-	if (_elementType != nullptr)
-	{
-		m_subTypes.emplace_back(*_elementType);
-	}
+	m_subTypes = stdrep::move(element);
 
 	return *this;
 }
@@ -508,14 +508,12 @@ spvgentwo::Type& spvgentwo::Type::Vector(const dyn_vector_t& _vectorType)
 
 spvgentwo::Type& spvgentwo::Type::Matrix(unsigned int _columns, const Type* _columnType)
 {
+	List<Type> element = copyElement(m_subTypes.getAllocator(), _columnType);
 	reset();
 	m_Type = spv::Op::OpTypeMatrix;
 	m_MatColumnCount = _columns; // length of the row
 
-	if (_columnType != nullptr)
-	{
-		m_subTypes.emplace_back(*_columnType);
-	}
+	m_subTypes = stdrep::move(element);
 
 	return *this;
 }
@@ -533,10 +531,12 @@ spvgentwo::Type& spvgentwo::Type::Matrix(const dyn_matrix_t& _matrixType)
 
 spvgentwo::Type& spvgentwo::Type::Matrix(unsigned int _columns, unsigned int _rows, const Type* _componentType)
 {
+	Type column(m_subTypes.getAllocator());
+	column.Vector(_rows, _componentType);
 	reset();
 	m_Type = spv::Op::OpTypeMatrix;
 	m_MatColumnCount = _columns; // length of the row
-	Member().Vector(_rows, _componentType);
+	m_subTypes.emplace_back(stdrep::move(column));
 	return *this;
 }
 
-- 
2.43.0


From bb668198ce6be689a500af1efeae234b3df9d52e Mon Sep 17 00:00:00 2001
From: x <x@y>
Date: Fri, 20 Nov 2026 05:51:12 +0000
Subject: [PATCH 182/184] fix: Constant: assigning one of its own components
 read it after it was destroyed

---
 lib/source/Constant.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/lib/source/Constant.cpp b/lib/source/Constant.cpp
index a0daf80..fb893e5 100644
--- a/lib/source/Constant.cpp
+++ b/lib/source/Constant.cpp
@@ -32,11 +32,16 @@ spvgentwo::Constant& spvgentwo::Constant::operator=(const Constant& _other)
 {
 	if (this == &_other) return *this;
 
-	m_Components = _other.m_Components;
+	// _other might be one of our own components which are destroyed by the final assignment
+	List<Constant> components(m_Components.getAllocator());
+	components = _other.m_Components;
+
 	m_literalData = _other.m_literalData;
 	m_Operation = _other.m_Operation;
 	m_Type = _other.m_Type;
 
+	m_Components = stdrep::move(components);
+
 	return *this;
 }
 
@@ -44,11 +49,15 @@ spvgentwo::Constant& spvgentwo::Constant::operator=(Constant&& _other) noexcept
 {
 	if (this == &_other) return *this;
 
-	m_Components = stdrep::move(_other.m_Components);
+	// _other might be one of our own components which are destroyed by the final assignment
+	List<Constant> components(stdrep::move(_other.m_Components));
+
 	m_literalData = stdrep::move(_other.m_literalData);
 	m_Operation = stdrep::move(_other.m_Operation);
 	m_Type = stdrep::move(_other.m_Type);
 
+	m_Components = stdrep::move(components);
+
 	return *this;
 }
 
-- 
2.43.0


From b7fc7ba512bb84918589b66d47cb512a3b409de3 Mon Sep 17 00:00:00 2001
From: x <x@y>
Date: Fri, 20 Nov 2026 06:13:12 +0000
Subject: [PATCH 183/184] fix: Callable: forward the arguments to functions and
 member functions

---
 common/include/common/Callable.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/common/include/common/Callable.h b/common/include/common/Callable.h
index 0fb63cf..04051ec 100644
--- a/common/include/common/Callable.h
+++ b/common/include/common/Callable.h
@@ -13,7 +13,7 @@ namespace spvgentwo
 		operator bool() const { return pFn != nullptr; }
 
 		template <typename ... OtherArgs>
-		ReturnType operator()(OtherArgs... _args) const { return (*pFn)(_args...); }
+		ReturnType operator()(OtherArgs&&... _args) const { return (*pFn)(stdrep::forward<OtherArgs>(_args)...); }
 	};
 
 	template <typename ReturnType, typename... Args>
@@ -31,7 +31,7 @@ namespace spvgentwo
 
 		operator bool() const { return pFn != nullptr; }
 
-		ReturnType operator()(Args... _args) const { return (pObj->*pFn)(_args...); }
+		ReturnType operator()(Args... _args) const { return (pObj->*pFn)(stdrep::forward<Args>(_args)...); }
 	};
 
 	template <typename Obj, typename ReturnType, typename... Args>
@@ -49,7 +49,7 @@ namespace spvgentwo
 		operator bool() const { return pFn != nullptr; }
 
 		template <typename ... OtherArgs>
-		ReturnType operator()(OtherArgs... _args) const { return (*pFn)(_args...); }
+		ReturnType operator()(OtherArgs&&... _args) const { return (*pFn)(stdrep::forward<OtherArgs>(_args)...); }
 	};
 
 	template <typename ReturnType, typename... Args>
@@ -68,7 +68,7 @@ namespace spvgentwo
 		operator bool() const { return pFn != nullptr; }
 
 		template <typename ... OtherArgs>
-		ReturnType operator()(OtherArgs... _args) const { return (pObj->*pFn)(_args...); }
+		ReturnType operator()(OtherArgs&&... _args) const { return (pObj->*pFn)(stdrep::forward<OtherArgs>(_args)...); }
 	};
 
 	template <typename Obj, typename ReturnType, typename... Args>
@@ -286,7 +286,7 @@ namespace spvgentwo
 		virtual ~Callable() {}
 
 		template <typename ...OtherArgs>
-		ReturnType operator()(OtherArgs... _args){	return m_func(_args...); }
+		ReturnType operator()(OtherArgs&&... _args){	return m_func(stdrep::forward<OtherArgs>(_args)...); }
 
 		Callable& operator=(const Callable& _other) { m_func = _other.m_func; return *this; }
 		Callable& operator=(Callable&& _other) { m_func = stdrep::move(_other.m_func); return *this; }
-- 
2.43.0


From 8bcd28b952e2a060b9d4c63c9b07c5ef35c9c703 Mon Sep 17 00:00:00 2001
From: x <x@y>
Date: Fri, 20 Nov 2026 06:19:35 +0000
Subject: [PATCH 184/184] fix: stdreplacement traits: a pointer to a pointer
 made the type of a pointer to its pointee, a constant pointer made void

---
 lib/include/spvgentwo/stdreplacement.h | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/lib/include/spvgentwo/stdreplacement.h b/lib/include/spvgentwo/stdreplacement.h
index 39ddfaa..5d77d6d 100644
--- a/lib/include/spvgentwo/stdreplacement.h
+++ b/lib/include/spvgentwo/stdreplacement.h
@@ -100,12 +100,25 @@ namespace spvgentwo::stdrep
 	template <class T>
 	inline constexpr bool is_pointer_v<T*> = true;
 
+	template <class T>
+	inline constexpr bool is_pointer_v<T* const> = true;
+
+	template <class T>
+	inline constexpr bool is_pointer_v<T* volatile> = true;
+
+	template <class T>
+	inline constexpr bool is_pointer_v<T* const volatile> = true;
+
 	template <class T>
 	struct remove_pointer { using type = T; };
 	template <class T>
 	struct remove_pointer<T*> { using type = T; };
 	template <class T>
-	struct remove_pointer<T**> { using type = T; };
+	struct remove_pointer<T* const> { using type = T; };
+	template <class T>
+	struct remove_pointer<T* volatile> { using type = T; };
+	template <class T>
+	struct remove_pointer<T* const volatile> { using type = T; };
 
 	template <class T>
 	using remove_pointer_t = typename remove_pointer<T>::type;
@@ -304,6 +317,9 @@ namespace spvgentwo::stdrep
 	template <class T>
 	inline constexpr bool is_array_v<T[]> = true;
 
+	template <class T, sgt_size_t N>
+	inline constexpr bool is_array_v<T[N]> = true;
+
 	template< class T >
 	struct decay
 	{
-- 
2.43.0

