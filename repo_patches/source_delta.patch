From 66de108d58f8a93e6dc89b943c479371373184d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:34:18 +0000
Subject: [PATCH 01/13] fix: PDeque keeps maxlen in reverse() and remove(), and
 honours maxlen=0

pdeque([1, 2, 3], maxlen=0) kept all three elements (t[-0:] is t), and
reverse() and remove() returned unbounded deques.
---
 pyrsistent/_pdeque.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pyrsistent/_pdeque.py b/pyrsistent/_pdeque.py
index 0f25936..7ff58fe 100644
--- a/pyrsistent/_pdeque.py
+++ b/pyrsistent/_pdeque.py
@@ -272,13 +272,13 @@ class PDeque(Generic[T_co]):
         pdeque([1, 2])
         """
         try:
-            return PDeque(self._left_list.remove(elem), self._right_list, self._length - 1)
+            return PDeque(self._left_list.remove(elem), self._right_list, self._length - 1, self._maxlen)
         except ValueError:
             # Value not found in left list, try the right list
             try:
                 # This is severely inefficient with a double reverse, should perhaps implement a remove_last()?
                 return PDeque(self._left_list,
-                              self._right_list.reverse().remove(elem).reverse(), self._length - 1)
+                              self._right_list.reverse().remove(elem).reverse(), self._length - 1, self._maxlen)
             except ValueError as e:
                 raise ValueError('{0} not found in PDeque'.format(elem)) from e
 
@@ -294,7 +294,7 @@ class PDeque(Generic[T_co]):
         >>> reversed(pdeque([1, 2, 3]))
         pdeque([3, 2, 1])
         """
-        return PDeque(self._right_list, self._left_list, self._length)
+        return PDeque(self._right_list, self._left_list, self._length, self._maxlen)
     __reversed__ = reverse
 
     def rotate(self, steps):
@@ -362,7 +362,8 @@ def pdeque(iterable=(), maxlen=None):
     """
     t = tuple(iterable)
     if maxlen is not None:
-        t = t[-maxlen:]
+        # t[-0:] would be all of t
+        t = t[-maxlen:] if maxlen else ()
     length = len(t)
     pivot = int(length / 2)
     left = plist(t[:pivot])
-- 
2.43.0


From edbf8d41e4c696abbd48b94922a3f276ef36176f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:34:18 +0000
Subject: [PATCH 02/13] fix: hash of a PSet depends on its elements only

PMap.keys() is a PSet that shares the map, values included, so
m(a=2).keys() == s('a') while their hashes differed.
---
 pyrsistent/_pset.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyrsistent/_pset.py b/pyrsistent/_pset.py
index 6247607..195be92 100644
--- a/pyrsistent/_pset.py
+++ b/pyrsistent/_pset.py
@@ -54,7 +54,8 @@ class PSet(Generic[T_co]):
         return self.__repr__()
 
     def __hash__(self):
-        return hash(self._map)
+        # Only the elements, the values of the map are not part of the set (see PMap.keys()).
+        return hash(frozenset(self._map))
 
     def __reduce__(self):
         # Pickling support
-- 
2.43.0


From 0edb988450b32c9e1029889ebeca0890d0a54b58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:34:32 +0000
Subject: [PATCH 03/13] fix: set and checked evolvers keep their updates after
 persistent()

A second call of persistent() without further updates returned the
collection that the evolver was created from, dropping all updates.
---
 pyrsistent/_checked_types.py | 4 ++--
 pyrsistent/_pset.py          | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/pyrsistent/_checked_types.py b/pyrsistent/_checked_types.py
index 56146b5..0942f91 100644
--- a/pyrsistent/_checked_types.py
+++ b/pyrsistent/_checked_types.py
@@ -428,7 +428,7 @@ class CheckedPSet(PSet[T_co], CheckedType, metaclass=_CheckedTypeMeta):
                 raise InvariantException(error_codes=self._invariant_errors)
 
             if self.is_dirty() or self._destination_class != type(self._original_pset):
-                return self._destination_class(self._pmap_evolver.persistent())
+                self._original_pset = self._destination_class(self._pmap_evolver.persistent())
 
             return self._original_pset
 
@@ -542,6 +542,6 @@ class CheckedPMap(PMap[KT, VT_co], CheckedType, metaclass=_CheckedMapTypeMeta):
                 raise InvariantException(error_codes=self._invariant_errors)
 
             if self.is_dirty() or type(self._original_pmap) != self._destination_class:
-                return self._destination_class(self._buckets_evolver.persistent(), self._size)
+                self._original_pmap = self._destination_class(self._buckets_evolver.persistent(), self._size)
 
             return self._original_pmap
diff --git a/pyrsistent/_pset.py b/pyrsistent/_pset.py
index 195be92..4639657 100644
--- a/pyrsistent/_pset.py
+++ b/pyrsistent/_pset.py
@@ -130,10 +130,10 @@ class PSet(Generic[T_co]):
             return self._pmap_evolver.is_dirty()
 
         def persistent(self):
-            if not self.is_dirty():
-                return  self._original_pset
+            if self.is_dirty():
+                self._original_pset = PSet(self._pmap_evolver.persistent())
 
-            return PSet(self._pmap_evolver.persistent())
+            return self._original_pset
 
         def __len__(self):
             return len(self._pmap_evolver)
-- 
2.43.0


From 8ec5f75f54fcbd7e784182caa9aa4ae4e9936b51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:35:45 +0000
Subject: [PATCH 04/13] fix: CheckedPVector and CheckedPSet check every kind of
 initial data

A PythonPVector (what pvector() makes without the C extension) or a PMap
given as initial was taken over without any type or invariant check.
---
 pyrsistent/_checked_types.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/pyrsistent/_checked_types.py b/pyrsistent/_checked_types.py
index 0942f91..491b0df 100644
--- a/pyrsistent/_checked_types.py
+++ b/pyrsistent/_checked_types.py
@@ -290,8 +290,9 @@ class CheckedPVector(Generic[T_co], PythonPVector, CheckedType, metaclass=_Check
 
     __slots__ = ()
 
-    def __new__(cls, initial=()):
-        if type(initial) == PythonPVector:
+    def __new__(cls, initial=(), _is_checked=False):
+        # _is_checked: initial is a PythonPVector and its elements have passed the checks of cls
+        if _is_checked:
             return super(CheckedPVector, cls).__new__(cls, initial._count, initial._shift, initial._root, initial._tail)
 
         return CheckedPVector.Evolver(cls, python_pvector()).extend(initial).persistent()
@@ -348,7 +349,7 @@ class CheckedPVector(Generic[T_co], PythonPVector, CheckedType, metaclass=_Check
             result = self._orig_pvector
             if self.is_dirty() or (self._destination_class != type(self._orig_pvector)):
                 pv = super(CheckedPVector.Evolver, self).persistent().extend(self._extra_tail)
-                result = self._destination_class(pv)
+                result = self._destination_class(pv, _is_checked=True)
                 self._reset(result)
 
             return result
@@ -376,8 +377,9 @@ class CheckedPSet(PSet[T_co], CheckedType, metaclass=_CheckedTypeMeta):
 
     __slots__ = ()
 
-    def __new__(cls, initial=()):
-        if type(initial) is PMap:
+    def __new__(cls, initial=(), _is_checked=False):
+        # _is_checked: initial is a PMap and its keys have passed the checks of cls
+        if _is_checked:
             return super(CheckedPSet, cls).__new__(cls, initial)
 
         evolver = CheckedPSet.Evolver(cls, pset())
@@ -428,7 +430,7 @@ class CheckedPSet(PSet[T_co], CheckedType, metaclass=_CheckedTypeMeta):
                 raise InvariantException(error_codes=self._invariant_errors)
 
             if self.is_dirty() or self._destination_class != type(self._original_pset):
-                self._original_pset = self._destination_class(self._pmap_evolver.persistent())
+                self._original_pset = self._destination_class(self._pmap_evolver.persistent(), _is_checked=True)
 
             return self._original_pset
 
-- 
2.43.0


From b74886409080358bc55291ee9c5ba7bdc1366ecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:37:04 +0000
Subject: [PATCH 05/13] fix: first and rest of a PList are read only

They were plain slots: l(1, 2).first = 9 changed the list, and every list
sharing it, in place.
---
 pyrsistent/_plist.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/pyrsistent/_plist.py b/pyrsistent/_plist.py
index 322e15d..9f73821 100644
--- a/pyrsistent/_plist.py
+++ b/pyrsistent/_plist.py
@@ -22,7 +22,7 @@ class _PListBuilder(object):
             self._head = constructor(elem)
             self._tail = self._head
         else:
-            self._tail.rest = constructor(elem)
+            self._tail._rest = constructor(elem)
             self._tail = self._tail.rest
 
         return self._head
@@ -249,14 +249,22 @@ class PList(Generic[T_co], _PListBase):
     >>> y[:2]
     plist([3, 1])
     """
-    __slots__ = ('first', 'rest')
+    __slots__ = ('_first', '_rest')
 
     def __new__(cls, first, rest):
         instance = super(PList, cls).__new__(cls)
-        instance.first = first
-        instance.rest = rest
+        instance._first = first
+        instance._rest = rest
         return instance
 
+    @property
+    def first(self):
+        return self._first
+
+    @property
+    def rest(self):
+        return self._rest
+
     def __bool__(self):
         return True
     __nonzero__ = __bool__
-- 
2.43.0


From 28abe33f11d548d402ff113bce9a50c3bc7f228d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:37:04 +0000
Subject: [PATCH 06/13] fix: release what the C vector allocated when an
 operation fails

extend() leaked the new vector when the iterable raised part way, delete()
its list, transform() the module; a failing import was used unchecked.
---
 pvectorcmodule.c | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/pvectorcmodule.c b/pvectorcmodule.c
index 9ed0ea1..f467885 100644
--- a/pvectorcmodule.c
+++ b/pvectorcmodule.c
@@ -65,7 +65,16 @@ static PyObject* transform_fn = NULL;
 static PyObject* transform(PVector* self, PyObject* args) {
   if(transform_fn == NULL) {
     // transform to avoid circular import problems
-    transform_fn = PyObject_GetAttrString(PyImport_ImportModule("pyrsistent._transformations"), "transform");
+    PyObject* module = PyImport_ImportModule("pyrsistent._transformations");
+    if(module == NULL) {
+      return NULL;
+    }
+
+    transform_fn = PyObject_GetAttrString(module, "transform");
+    Py_DECREF(module);
+    if(transform_fn == NULL) {
+      return NULL;
+    }
   }
 
   return PyObject_CallFunctionObjArgs(transform_fn, self, args, NULL);
@@ -493,8 +502,15 @@ static PyObject* PVector_count(PVector *self, PyObject *value) {
 static PyObject* PVector_pickle_reduce(PVector *self) {
 
   PyObject* module = PyImport_ImportModule("pvectorc");
+  if(module == NULL) {
+    return NULL;
+  }
+
   PyObject* pvector_fn = PyObject_GetAttrString(module, "pvector");
   Py_DECREF(module);
+  if(pvector_fn == NULL) {
+    return NULL;
+  }
 
   PyObject *list = PVector_toList(self);
   PyObject *arg_tuple = PyTuple_New(1);
@@ -863,7 +879,11 @@ static PyObject* PVector_extend(PVector *self, PyObject *iterable) {
       }
 
       Py_DECREF(it);
-      HANDLE_ITERATION_ERROR()
+      if (PyErr_Occurred() && !PyErr_ExceptionMatches(PyExc_StopIteration)) {
+        Py_DECREF(newVec);
+        return NULL;
+      }
+      PyErr_Clear();
       return (PyObject*)newVec;
     }
 }
@@ -1043,6 +1063,7 @@ static PyObject* internalDelete(PVector *self, Py_ssize_t index, PyObject *stop_
 
   list = PVector_toList(self);
   if(PyList_SetSlice(list, index, stop, NULL) < 0) {
+    Py_DECREF(list);
     return NULL;
   }
 
-- 
2.43.0


From e1d1c1e27f1bd2d2faa79284fef90c8dcd3c6db2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:37:34 +0000
Subject: [PATCH 07/13] fix: remove() of the C vector reports exceptions from
 comparisons

An exception raised by the __eq__ of an element, or for a wrong number of
arguments, was replaced by ValueError('x not in vector').
---
 pvectorcmodule.c | 36 +++++++++++++++++++++++++-----------
 1 file changed, 25 insertions(+), 11 deletions(-)

diff --git a/pvectorcmodule.c b/pvectorcmodule.c
index f467885..b355717 100644
--- a/pvectorcmodule.c
+++ b/pvectorcmodule.c
@@ -445,7 +445,10 @@ static int PVector_traverse(PVector *o, visitproc visit, void *arg) {
 }
 
 
-static PyObject* PVector_index(PVector *self, PyObject *args) {
+/*
+ Returns the index of the value, -1 if it is not found and -2 if an exception was raised.
+*/
+static Py_ssize_t internalIndex(PVector *self, PyObject *args) {
   // A direct rip-off of the tuple version
   Py_ssize_t i, start=0, stop=self->count;
   PyObject *value;
@@ -453,7 +456,7 @@ static PyObject* PVector_index(PVector *self, PyObject *args) {
   if (!PyArg_ParseTuple(args, "O|O&O&:index", &value,
 			_PyEval_SliceIndex, &start,
 			_PyEval_SliceIndex, &stop)) {
-    return NULL;
+    return -2;
   }
   
   if (start < 0) {
@@ -473,13 +476,25 @@ static PyObject* PVector_index(PVector *self, PyObject *args) {
   for (i = start; i < stop && i < self->count; i++) {
     int cmp = PyObject_RichCompareBool(_get_item(self, i), value, Py_EQ);
     if (cmp > 0) {
-      return PyLong_FromSsize_t(i);
+      return i;
     } else if (cmp < 0) {
-      return NULL;
+      return -2;
     }
   }
 
-  PyErr_SetString(PyExc_ValueError, "PVector.index(x): x not in vector");
+  return -1;
+}
+
+static PyObject* PVector_index(PVector *self, PyObject *args) {
+  Py_ssize_t index = internalIndex(self, args);
+
+  if(index >= 0) {
+    return PyLong_FromSsize_t(index);
+  }
+
+  if(index == -1) {
+    PyErr_SetString(PyExc_ValueError, "PVector.index(x): x not in vector");
+  }
   return NULL;
 }
 
@@ -1084,16 +1099,15 @@ static PyObject* PVector_delete(PVector *self, PyObject *args) {
 }
 
 static PyObject* PVector_remove(PVector *self, PyObject *args) {
-  Py_ssize_t index;
-  PyObject* py_index = PVector_index(self, args);
+  Py_ssize_t index = internalIndex(self, args);
 
-  if(py_index != NULL) {
-      index = PyLong_AsSsize_t(py_index);
-    Py_DECREF(py_index);
+  if(index >= 0) {
     return internalDelete(self, index, NULL);
   }
 
-  PyErr_SetString(PyExc_ValueError, "PVector.remove(x): x not in vector");
+  if(index == -1) {
+    PyErr_SetString(PyExc_ValueError, "PVector.remove(x): x not in vector");
+  }
   return NULL;
 }
 
-- 
2.43.0


From cf517e67d01bde83f9e996770406d9d5eb4e31c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:38:11 +0000
Subject: [PATCH 08/13] fix: C and Python vectors that are equal have the same
 hash

A CheckedPVector, or any vector from python_pvector, compares equal to the
C vector with the same elements but hashed differently.
---
 pvectorcmodule.c | 27 ++++++++++-----------------
 1 file changed, 10 insertions(+), 17 deletions(-)

diff --git a/pvectorcmodule.c b/pvectorcmodule.c
index b355717..b409c72 100644
--- a/pvectorcmodule.c
+++ b/pvectorcmodule.c
@@ -282,26 +282,19 @@ static PyObject *PVector_repr(PVector *self) {
 
 
 static Py_hash_t PVector_hash(PVector *self) {
-  // Follows the pattern of the tuple hash
-  long x, y;
-  Py_ssize_t i;
-  long mult = 1000003L;
-  x = 0x456789L;
-  for(i=0; i<self->count; i++) {
-      y = PyObject_Hash(_get_item(self, i));
-      if (y == -1) {
-        return -1;
-      }
-      x = (x ^ y) * mult;
-      mult += (long)(82520L + i + i);
-  }
+  // The hash of the corresponding tuple, like the vectors implemented in Python
+  // (which may be equal to this one).
+  PyObject *list = PVector_toList(self);
+  PyObject *tuple = PyList_AsTuple(list);
+  Py_DECREF(list);
 
-  x += 97531L;
-  if(x == -1) {
-    x = -2;
+  if(tuple == NULL) {
+    return -1;
   }
 
-  return x;
+  Py_hash_t result = PyObject_Hash(tuple);
+  Py_DECREF(tuple);
+  return result;
 }
 
 static PyObject* compareSizes(long vlen, long wlen, int op) {
-- 
2.43.0


From 6c18b4483c720bb8be16cea9f23b3cb575aae344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:38:48 +0000
Subject: [PATCH 09/13] fix: C vector evolver and iterator are consistent when
 references are dropped

Dropping a reference may execute arbitrary code (__del__, weakref callbacks),
which could find the evolver pointing at a released vector, item or list and
crash the interpreter, or write to a node published meanwhile.
---
 pvectorcmodule.c | 56 ++++++++++++++++++++++++++++++------------------
 1 file changed, 35 insertions(+), 21 deletions(-)

diff --git a/pvectorcmodule.c b/pvectorcmodule.c
index b409c72..68037db 100644
--- a/pvectorcmodule.c
+++ b/pvectorcmodule.c
@@ -1197,8 +1197,8 @@ static PyObject *PVectorIter_next(PVectorIter *it) {
         return item;
     }
 
-    Py_DECREF(seq);
     it->it_seq = NULL;
+    Py_DECREF(seq);
     return NULL;
 }
 
@@ -1378,7 +1378,11 @@ static PyObject *PVectorEvolver_subscript(PVectorEvolver *self, PyObject *item)
   return NULL;
 }
 
-static VNode* doSetWithDirty(VNode* node, unsigned int level, unsigned int position, PyObject* value) {
+/*
+ The object that was replaced in a node already owned by the evolver, if any, is stored in replaced.
+ It must not be released until the evolver is consistent again since that may execute arbitrary code.
+*/
+static VNode* doSetWithDirty(VNode* node, unsigned int level, unsigned int position, PyObject* value, PyObject** replaced) {
   VNode* resultNode;
   debug("doSetWithDirty(): level == %i\n", level);
   if(level == 0) {
@@ -1391,7 +1395,7 @@ static VNode* doSetWithDirty(VNode* node, unsigned int level, unsigned int posit
     } else {
       resultNode = node;
       Py_INCREF(value);
-      Py_DECREF(resultNode->items[position & BIT_MASK]);
+      *replaced = resultNode->items[position & BIT_MASK];
       resultNode->items[position & BIT_MASK] = value;
     }
   } else {
@@ -1404,7 +1408,7 @@ static VNode* doSetWithDirty(VNode* node, unsigned int level, unsigned int posit
 
     Py_ssize_t index = (position >> level) & BIT_MASK;
     VNode* oldNode = (VNode*)resultNode->items[index];
-    resultNode->items[index] = doSetWithDirty(resultNode->items[index], level - SHIFT, position, value);
+    resultNode->items[index] = doSetWithDirty(resultNode->items[index], level - SHIFT, position, value, replaced);
 
     if(resultNode->items[index] != oldNode) {
       // Node replaced, drop references to old node
@@ -1464,9 +1468,10 @@ static int internalPVectorDelete(PVectorEvolver *self, Py_ssize_t position) {
     return -1;
   }
 
-  Py_DECREF(self->originalVector);
+  PVector *oldVector = self->originalVector;
   self->originalVector = temp2;
-  self->newVector = self->originalVector;
+  self->newVector = temp2;
+  Py_DECREF(oldVector);
   return 0;
 }
 
@@ -1488,23 +1493,23 @@ static int PVectorEvolver_set_item(PVectorEvolver *self, PyObject* item, PyObjec
       }
 
       if(value != NULL) {
+        PyObject *replaced = NULL;
         if(position < TAIL_OFF(self->newVector)) {
-          self->newVector->root = doSetWithDirty(self->newVector->root, self->newVector->shift, position, value);
+          self->newVector->root = doSetWithDirty(self->newVector->root, self->newVector->shift, position, value, &replaced);
         } else {
-          self->newVector->tail = doSetWithDirty(self->newVector->tail, 0, position, value);
+          self->newVector->tail = doSetWithDirty(self->newVector->tail, 0, position, value, &replaced);
         }
 
+        Py_XDECREF(replaced);
         return 0;
       }
 
       return internalPVectorDelete(self, position);
     } else if((0 <= position) && (position < (self->newVector->count + PyList_GET_SIZE(self->appendList)))) {
       if (value != NULL) {
-        int result = PyList_SetItem(self->appendList, position - self->newVector->count, value); 
-        if(result == 0) {
-          Py_INCREF(value);
-        }
-        return result;
+        // Steals a reference to value, also on failure
+        Py_INCREF(value);
+        return PyList_SetItem(self->appendList, position - self->newVector->count, value);
       }
 
       return internalPVectorDelete(self, position);
@@ -1522,24 +1527,33 @@ static int PVectorEvolver_set_item(PVectorEvolver *self, PyObject* item, PyObjec
 }
 
 static PyObject *PVectorEvolver_persistent(PVectorEvolver *self) {
+  // Nothing is released until the evolver is consistent again since that may execute arbitrary code.
+  PVector *oldOriginalVector = NULL;
+  PVector *oldVector = NULL;
+  PyObject *oldAppendList = NULL;
   PVector *resultVector;
+
   if(self->newVector != self->originalVector) {
     cleanVector(self->newVector);
-    Py_DECREF(self->originalVector);
+    oldOriginalVector = self->originalVector;
+    self->originalVector = self->newVector;
   }
 
   resultVector = self->newVector;
 
   if(PyList_GET_SIZE(self->appendList)) {
-    PVector *oldVector = resultVector;
-    resultVector = (PVector*)PVector_extend(resultVector, self->appendList);
-    Py_DECREF(oldVector);
-    Py_DECREF(self->appendList);
-    self->appendList = NULL;
+    resultVector = (PVector*)PVector_extend(self->newVector, self->appendList);
+    if(resultVector != NULL) {
+      oldVector = self->newVector;
+      oldAppendList = self->appendList;
+      initializeEvolver(self, resultVector, NULL);
+    }
   }
 
-  initializeEvolver(self, resultVector, self->appendList);
-  Py_INCREF(resultVector);  
+  Py_XINCREF(resultVector);
+  Py_XDECREF(oldOriginalVector);
+  Py_XDECREF(oldVector);
+  Py_XDECREF(oldAppendList);
   return (PyObject*)resultVector;
 }
 
-- 
2.43.0


From 14b7d0d5002a28e61bf7bf7ddd1363de46d06ea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:39:06 +0000
Subject: [PATCH 10/13] fix: C vectors report shared references to the garbage
 collector at most once

Every vector visited the objects in nodes it shares with other vectors (and
the unpublished vector of an evolver those it does not own), so that objects
in use could be considered garbage and be cleared.
---
 pvectorcmodule.c | 49 ++++++++++++++++++++++++++++++++++++++++--------
 1 file changed, 41 insertions(+), 8 deletions(-)

diff --git a/pvectorcmodule.c b/pvectorcmodule.c
index 68037db..841721d 100644
--- a/pvectorcmodule.c
+++ b/pvectorcmodule.c
@@ -427,14 +427,39 @@ static PyObject* PVector_repeat(PVector *self, Py_ssize_t n) {
   }
 }
 
+/*
+ Visit the objects held by a node, and the nodes below it, if it is referenced exactly once (owner is
+ the reference count that tells). The references held by a node that is shared between vectors belong
+ to all of them, if every vector visited them the garbage collector would consider objects in use to
+ be garbage.
+*/
+static int traverseNode(VNode *node, int level, unsigned int owner, visitproc visit, void *arg) {
+  int i;
+  if((node == NULL) || (NODE_REF_COUNT(node) != owner)) {
+    return 0;
+  }
+
+  for(i = 0; i < BRANCH_FACTOR; i++) {
+    if(level > 0) {
+      int result = traverseNode(node->items[i], level - SHIFT, owner, visit, arg);
+      if(result != 0) {
+        return result;
+      }
+    } else {
+      Py_VISIT((PyObject*)node->items[i]);
+    }
+  }
+
+  return 0;
+}
+
 static int PVector_traverse(PVector *o, visitproc visit, void *arg) {
-    // Naive traverse
-    Py_ssize_t i;
-    for (i = o->count; --i >= 0; ) {
-      Py_VISIT(_get_item(o, i));
+    int result = traverseNode(o->tail, 0, 1, visit, arg);
+    if(result != 0) {
+      return result;
     }
 
-    return 0;
+    return traverseNode(o->root, o->shift, 1, visit, arg);
 }
 
 
@@ -538,7 +563,7 @@ static PVector* rawCopyPVector(PVector* vector) {
   newVector->root = vector->root;
   newVector->tail = vector->tail;
   newVector->in_weakreflist = NULL;
-  PyObject_GC_Track((PyObject*)newVector);
+  // Not tracked by the garbage collector until it owns its nodes, see cleanVector().
   return newVector;
 }
 
@@ -1535,6 +1560,7 @@ static PyObject *PVectorEvolver_persistent(PVectorEvolver *self) {
 
   if(self->newVector != self->originalVector) {
     cleanVector(self->newVector);
+    PyObject_GC_Track((PyObject*)self->newVector);
     oldOriginalVector = self->originalVector;
     self->originalVector = self->newVector;
   }
@@ -1572,10 +1598,17 @@ static PyObject* PVectorEvolver_is_dirty(PVectorEvolver *self) {
 }
 
 static int PVectorEvolver_traverse(PVectorEvolver *self, visitproc visit, void *arg) {
-  Py_VISIT(self->newVector);
   if (self->newVector != self->originalVector) {
-      Py_VISIT(self->originalVector);
+      // The new vector is only known to the evolver, the nodes owned by it are the dirty ones.
+      int result = traverseNode(self->newVector->tail, 0, DIRTY_BIT | 1, visit, arg);
+      if(result == 0) {
+        result = traverseNode(self->newVector->root, self->newVector->shift, DIRTY_BIT | 1, visit, arg);
+      }
+      if(result != 0) {
+        return result;
+      }
   }
+  Py_VISIT(self->originalVector);
   Py_VISIT(self->appendList);
   return 0;
 }
-- 
2.43.0


From 9b90c9bba9ff197913776142c603da3f69776600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:35:34 +0000
Subject: [PATCH 11/13] fix: types declared by a checked collection apply to
 all its descendants

_store_types only looked at the class itself and its direct bases, so a class
two levels below the declaration accepted elements of any type.
---
 pyrsistent/_checked_types.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyrsistent/_checked_types.py b/pyrsistent/_checked_types.py
index 491b0df..bd94268 100644
--- a/pyrsistent/_checked_types.py
+++ b/pyrsistent/_checked_types.py
@@ -106,7 +106,7 @@ def maybe_parse_many_user_types(ts):
 def _store_types(dct, bases, destination_name, source_name):
     maybe_types = maybe_parse_many_user_types([
         d[source_name]
-        for d in ([dct] + [b.__dict__ for b in bases]) if source_name in d
+        for d in ([dct] + list(_all_dicts(bases))) if source_name in d
     ])
 
     dct[destination_name] = maybe_types
-- 
2.43.0


From ea590a6bbb965990db15752722635927d01394c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:54:42 +0000
Subject: [PATCH 12/13] fix: an index a checked vector evolver refuses does not
 leave its value's invariant errors behind

---
 pyrsistent/_checked_types.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/pyrsistent/_checked_types.py b/pyrsistent/_checked_types.py
index bd94268..a063cc4 100644
--- a/pyrsistent/_checked_types.py
+++ b/pyrsistent/_checked_types.py
@@ -326,20 +326,21 @@ class CheckedPVector(Generic[T_co], PythonPVector, CheckedType, metaclass=_Check
 
         def _check(self, it):
             _check_types(it, self._destination_class._checked_types, self._destination_class)
-            error_data = _invariant_errors_iterable(it, self._destination_class._checked_invariants)
-            self._invariant_errors.extend(error_data)
+            return _invariant_errors_iterable(it, self._destination_class._checked_invariants)
 
         def __setitem__(self, key, value):
-            self._check([value])
-            return super(CheckedPVector.Evolver, self).__setitem__(key, value)
+            error_data = self._check([value])
+            super(CheckedPVector.Evolver, self).__setitem__(key, value)
+            # Only a value that was stored can make the vector invalid
+            self._invariant_errors.extend(error_data)
 
         def append(self, elem):
-            self._check([elem])
+            self._invariant_errors.extend(self._check([elem]))
             return super(CheckedPVector.Evolver, self).append(elem)
 
         def extend(self, it):
             it = list(it)
-            self._check(it)
+            self._invariant_errors.extend(self._check(it))
             return super(CheckedPVector.Evolver, self).extend(it)
 
         def persistent(self):
-- 
2.43.0


From 57033d4187ae5fec645df08226519a52cea15251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:57:56 +0000
Subject: [PATCH 13/13] fix: an unhashable element or key a checked evolver
 refuses does not leave invariant errors behind

---
 pyrsistent/_checked_types.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/pyrsistent/_checked_types.py b/pyrsistent/_checked_types.py
index a063cc4..2d2fb99 100644
--- a/pyrsistent/_checked_types.py
+++ b/pyrsistent/_checked_types.py
@@ -418,12 +418,13 @@ class CheckedPSet(PSet[T_co], CheckedType, metaclass=_CheckedTypeMeta):
 
         def _check(self, it):
             _check_types(it, self._destination_class._checked_types, self._destination_class)
-            error_data = _invariant_errors_iterable(it, self._destination_class._checked_invariants)
-            self._invariant_errors.extend(error_data)
+            return _invariant_errors_iterable(it, self._destination_class._checked_invariants)
 
         def add(self, element):
-            self._check([element])
+            error_data = self._check([element])
             self._pmap_evolver[element] = True
+            # Only an element that was added can make the set invalid
+            self._invariant_errors.extend(error_data)
             return self
 
         def persistent(self):
@@ -534,11 +535,14 @@ class CheckedPMap(PMap[KT, VT_co], CheckedType, metaclass=_CheckedMapTypeMeta):
         def set(self, key, value):
             _check_types([key], self._destination_class._checked_key_types, self._destination_class, CheckedKeyTypeError)
             _check_types([value], self._destination_class._checked_value_types, self._destination_class)
-            self._invariant_errors.extend(data for valid, data in (invariant(key, value)
-                                                                   for invariant in self._destination_class._checked_invariants)
-                                          if not valid)
+            error_data = [data for valid, data in (invariant(key, value)
+                                                   for invariant in self._destination_class._checked_invariants)
+                          if not valid]
 
-            return super(CheckedPMap.Evolver, self).set(key, value)
+            super(CheckedPMap.Evolver, self).set(key, value)
+            # Only an item that was stored can make the map invalid
+            self._invariant_errors.extend(error_data)
+            return self
 
         def persistent(self):
             if self._invariant_errors:
-- 
2.43.0

