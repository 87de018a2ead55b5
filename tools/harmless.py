# Edits that keep the behaviour, for mutate.py: no check may report anything.
A="arc.rs"; U="urc.rs"; R="rc.rs"; P="ptr.rs"; C="scope.rs"; V="vec.rs"; S="small_vec.rs"; T="string.rs"; B="boxed.rs"
ARC=["C01","C02","C03","C04","C08","C12","C13"]
URC=["C05","C06","C07","C08","C12","C13"]
RC=["C09","C10","C11","C12","C13"]
VEC=["C11","C12","C13","C14","C16","C17","C18","C20"]
SML=["C12","C13","C15","C17","C18","C20"]
STR=["C12","C13","C16","C20"]
PTR=["C01","C05","C09","C11","C12","C13","C14","C15","C16","C19","C20"]
SCO=["C19","C20","C12"]
M=[
("a-clone-cas",A,"        let old_size = self.inner().strong.fetch_add(1, Relaxed);\n","""        let mut old_size = self.inner().strong.load(Relaxed);
        while let Err(v) = self.inner().strong.compare_exchange_weak(old_size, old_size + 1, Relaxed, Relaxed) {
            old_size = v;
        }
""",ARC),
("a-drop-acqrel",A,"        if self.inner().strong.fetch_sub(1, Release) != 1 {","        if self.inner().strong.fetch_sub(1, Ordering::AcqRel) != 1 {",ARC),
("a-drop-load",A,"        core::sync::atomic::fence(Acquire);\n\n        unsafe { self.drop_slow() }","        self.inner().strong.load(Acquire);\n\n        unsafe { self.drop_slow() }",ARC),
("a-weak-acqrel",A,"        if self.0.weak.fetch_sub(1, Release) == 1 {\n            core::sync::atomic::fence(Acquire);","        if self.0.weak.fetch_sub(1, Ordering::AcqRel) == 1 {",ARC),
("a-stdfence",A,"        core::sync::atomic::fence(Acquire);\n\n        unsafe { self.drop_slow() }","        std::sync::atomic::fence(Acquire);\n\n        unsafe { self.drop_slow() }",ARC),
("a-down-seqcst",A,"            match weak.try_increment(Acquire) {","            match weak.try_increment(SeqCst) {",ARC),
("a-down-plain",A,"        let mut weak = this.inner().load_weak(Relaxed);\n        loop {\n            weak.sync_lock();\n            match weak.try_increment(Acquire) {\n                Ok(_) => return Weak(ManuallyDrop::new(unsafe { this.0.clone() })),\n                Err(val) => weak.val = val,\n            }\n        }\n","""        let mut cur = this.inner().weak.load(Relaxed);
        loop {
            if cur == usize::MAX {
                hint::spin_loop();
                cur = this.inner().weak.load(Relaxed);
                continue;
            }
            match this.inner().weak.compare_exchange_weak(cur, cur + 1, Acquire, Relaxed) {
                Ok(_) => return Weak(ManuallyDrop::new(unsafe { this.0.clone() })),
                Err(old) => cur = old,
            }
        }
""",ARC),
("a-unwrap-cmp",A,"            .compare_exchange(1, 0, Acquire, Relaxed)\n            .is_err()\n        {\n            // Exactly one strong reference is required but several exist.","            .compare_exchange(1, 0, SeqCst, Relaxed)\n            .is_err()\n        {\n            // Exactly one strong reference is required but several exist.",ARC),
("a-mm-allocfirst",A,"            // There are several `strong`s so just clone the data and create a new Arc.\n            let clone = this.as_ref().clone();\n            *this = Arc::new(clone);","""            let mem = ScopePtr::alloc_uninit(AllocSelector::new::<T>()).unwrap();
            let inner = ArcInner {
                strong: AtomicUsize::new(1),
                weak: AtomicUsize::new(1),
                data: this.as_ref().clone().into(),
            };
            *this = Arc(ManuallyDrop::new(mem.init(inner)));""",ARC),
("a-mm-unique",A,"        let mut strong = this.inner().load_strong(Acquire);\n        let weak = this.inner().load_weak(Acquire);\n","        if this.is_unique() {\n            return unsafe { Arc::get_mut_unchecked(this) };\n        }\n        let mut strong = this.inner().load_strong(Acquire);\n        let weak = this.inner().load_weak(Acquire);\n",ARC),
("a-unique-match",A,"""        if self
            .inner()
            .weak
            .compare_exchange(1, usize::MAX, Acquire, Relaxed)
            .is_ok()
        {""","""        let inner = self.inner();
        let locked = inner.weak.compare_exchange(1, usize::MAX, Acquire, Relaxed);
        if let Ok(1) = locked {""",ARC),
("a-unique-strongfirst",A,"""        if self
            .inner()
            .weak
            .compare_exchange(1, usize::MAX, Acquire, Relaxed)
            .is_ok()
        {""","""        if self.inner().strong.load(Acquire) != 1 {
            return false;
        }
        if self
            .inner()
            .weak
            .compare_exchange(1, usize::MAX, Acquire, Relaxed)
            .is_ok()
        {""",ARC),
("a-dropslow-inline",A,"        unsafe { self.drop_slow() }\n","        unsafe {\n            let data: *mut T = Self::get_mut_unchecked(self);\n            let _weak = Weak(ManuallyDrop::new(self.0.clone()));\n            drop_in_place(data);\n        }\n",ARC),
("a-trynew-alloc",A,"""        // If there is no memory then `data` gets dropped.
        let ptr = ScopePtr::alloc_uninit(AllocSelector::new::<T>())?;
        let inner = ArcInner {
            strong: AtomicUsize::new(1),
            weak: AtomicUsize::new(1),
            data: data.into(),
        };
        Ok(Arc(ManuallyDrop::new(ptr.init(inner))))""","""        match ScopePtr::alloc_uninit(AllocSelector::new::<T>()) {
            Ok(ptr) => Ok(Arc(ManuallyDrop::new(ptr.init(ArcInner {
                weak: AtomicUsize::new(1),
                strong: AtomicUsize::new(1),
                data: data.into(),
            })))),
            Err(e) => {
                drop(data);
                Err(e)
            }
        }""",ARC),
# urc
("u-fencefirst",U,"""        Ok(UrcMemory {
            master: ScopePtr::alloc_uninit(AllocSelector::new::<Master<T>>())?,
            fence: ScopePtr::alloc_uninit(AllocSelector::new::<T>())?,
        })""","""        let fence = ScopePtr::alloc_uninit(AllocSelector::new::<T>())?;
        let master = ScopePtr::alloc_uninit(AllocSelector::new::<Master<T>>())?;
        Ok(UrcMemory { master, fence })""",URC),
("u-env-allocfirst",U,"""        let master = unsafe { self.fence().master.clone() };
        let cnt = master""","""        let memory = ScopePtr::<Fence<T>>::alloc_uninit(AllocSelector::new::<T>()).unwrap();
        let master = unsafe { self.fence().master.clone() };
        let cnt = master""","                    fence: ManuallyDrop::new(ScopePtr::alloc(fence, AllocSelector::new::<T>()).unwrap()),","                    fence: ManuallyDrop::new(memory.init(fence)),",URC),
("u-unique-order",U,"""        self.master().strong_fence.load(Acquire) == 1
            && self.fence().strong_count() == 1
            && self.fence().weak_count() == 0
            && self.master().weak_fence.load(Acquire) == 1""","""        if self.fence().strong_count() != 1 || self.fence().weak_count() > 0 {
            return false;
        }
        let strong = self.master().strong_fence.load(Acquire);
        strong == 1 && self.master().weak_fence.load(Acquire) == 1""",URC),
("u-rel-acqrel",U,"        if master.strong_fence.fetch_sub(1, Release) == 1 {","        if master.strong_fence.fetch_sub(1, core::sync::atomic::Ordering::AcqRel) == 1 {",URC),
("u-clone-order",U,"""        self.fence().inc_strong();
        unsafe {
            Urc {
                fence: ManuallyDrop::new(self.fence.clone()),
                data: self.data.clone(),
            }
        }""","""        let fence = clone_scope_access(&self.fence);
        fence.inc_strong();
        Urc { data: self.data.clone(), fence }""",URC),
("u-mm-clone",U,"                *this = Self::new((*this.data).clone());\n                unsafe { Urc::get_mut_unchecked(this) }","                let data = (*this.data).clone();\n                let new = Self::new(data);\n                drop(mem::replace(this, new));\n                unsafe { Urc::get_mut_unchecked(this) }",URC),
("u-mm-memfirst",U,"                *this = Self::new((*this.data).clone());\n                unsafe { Urc::get_mut_unchecked(this) }","                let memory = UrcMemory::try_alloc().unwrap();\n                *this = memory.init((*this.data).clone());\n                unsafe { Urc::get_mut_unchecked(this) }",URC),
("u-mm-order",U,"        if this.master().strong_fence.load(Acquire) == 1 && this.fence().strong_count() == 1 {","        if this.fence().strong_count() == 1 && this.master().strong_fence.load(Acquire) == 1 {",URC),
("u-wdrop",U,"""        if self.fence_weak_count() == 1 && self.fence_strong_count() == 0 {
            // The fence is no more referenced so drop it.
            unsafe { ManuallyDrop::drop(&mut self.fence) };
        } else {
            // There are still either some strong or other weak references.
            // Just decrement the counter and keep the Fence.
            self.fence().dec_weak()
        }""","""        self.fence().dec_weak();
        if self.fence().weak_count() == 0 && self.fence().is_weak() {
            unsafe { ManuallyDrop::drop(&mut self.fence) };
        }""",URC),
("u-unwrap-sole",U,"        if this.fence().strong_count() != 1 {\n            // Exactly","        if this.fence().strong_count() > 1 || !Urc::is_sole_strong_fence(&this) {\n            // Exactly",URC),
("u-down-order",U,"        this.fence().inc_weak();\n        Weak {\n            fence: clone_scope_access(&this.fence),\n        }","        let weak = Weak { fence: clone_scope_access(&this.fence) };\n        this.fence().inc_weak();\n        weak",URC),
("u-store-relaxedrmw",U,"                this.master_mut().strong_fence.store(0, Release);","                this.master_mut().strong_fence.fetch_sub(1, Release);",URC),
# rc
("r-mm-allocfirst",R,"            let clone = this.as_ref().clone();\n            *this = Rc::new(clone);","""            let ptr = ScopePtr::alloc_uninit(AllocSelector::new::<T>()).unwrap();
            let b = RcBox {
                strong: Cell::new(1),
                weak: Cell::new(0),
                val: this.as_ref().clone().into(),
            };
            *this = Rc(ManuallyDrop::new(ptr.init(b)));""",RC),
("r-up-match",R,"""        if let Some(v) = self.inner() {
            if !v.is_dealloc() {
                v.inc_strong();
                // Construct Rc refering to this Weak's RcBox.
                unsafe { Some(Rc(ManuallyDrop::new((*self.0.as_ref().unwrap()).clone()))) }
            } else {
                None
            }
        } else {
            None
        }""","""        let ptr = self.0.as_ref()?;
        if ptr.strong.get() == 0 {
            return None;
        }
        ptr.strong.set(ptr.strong.get() + 1);
        Some(Rc(clone_scope_access(ptr)))""",RC),
("r-unwrap-order",R,"""            let val = unsafe { ptr::read(&this.0.val) };
            // The value is moved out so Weaks should not give access to it.
            this.inner().set_zero_strong();""","""            this.inner().dec_strong();
            let val = unsafe { ptr::read(&this.0.val) };""",RC),
("r-frombox-first",R,"        Rc::new(boxed.into_inner())","""        let ptr = ScopePtr::alloc_uninit(AllocSelector::new::<T>()).unwrap();
        Rc(ManuallyDrop::new(ptr.init(RcBox {
            strong: Cell::new(1),
            weak: Cell::new(0),
            val: boxed.into_inner().into(),
        })))""",RC),
("r-drop-early",R,"        if self.inner().dec_strong() == 1 {","        if self.inner().strong.get() > 1 {\n            self.inner().dec_strong();\n        } else {\n            self.inner().set_zero_strong();",RC),
("r-wdrop",R,"""            let weak = v.dec_weak();
            if weak == 1 && self.strong_count() == 0 {""","""            v.dec_weak();
            if v.weak.get() == 0 && v.is_dealloc() {""",RC),
("b-new",B,"        Box(ScopePtr::alloc(x, AllocSelector::new::<T>()).unwrap())","        let ptr = ScopePtr::alloc_uninit(AllocSelector::new::<T>()).unwrap();\n        Box(ptr.init(x))",["C11","C12","C13","C20"]),
("b-new2",B,"        Box(ScopePtr::alloc(x, AllocSelector::new::<T>()).unwrap())","        Self::new_with(x, AllocMarker::default())",["C11","C12","C13","C20"]),
# vec
("v-push-amortized",V,"    pub fn push(&mut self, element: T) {\n        self.reserve_exact(1);","    pub fn push(&mut self, element: T) {\n        self.reserve(1);",VEC),
("v-push-full",V,"    pub fn push(&mut self, element: T) {\n        self.reserve_exact(1);","    pub fn push(&mut self, element: T) {\n        if self.is_full() {\n            self.reserve_exact(1);\n        }",VEC),
("v-push-all",V,"    pub fn push(&mut self, element: T) {\n        self.reserve_exact(1);","    pub fn push(&mut self, element: T) {\n        if self.len == self.capacity() {\n            self.grow_amortized(self.len + 1).unwrap();\n        }",VEC),
("v-clone-cap",V,"        let mut vec = Vec::new();\n        vec.extend_from_slice(self);","        let mut vec = Vec::with_capacity(self.len());\n        vec.extend_from_slice(self);",VEC),
("v-clone-iter",V,"        let mut vec = Vec::new();\n        vec.extend_from_slice(self);\n        vec","        self.iter().cloned().collect()",VEC),
("v-fromslice-cap",V,"        let mut vec = Vec::new();\n        vec.extend_from_slice(slice);","        let mut vec = Vec::with_capacity(slice.len());\n        vec.extend_from_slice(slice);",VEC),
("v-fromarr",V,"        let mut vec = Vec::new();\n        let slice_ptr = slice.as_ptr();","        let mut vec = Vec::with_capacity(N);\n        let slice_ptr = slice.as_ptr();",VEC),
("v-fromarr2",V,"        let mut vec = Vec::new();\n        let slice_ptr = slice.as_ptr();\n","        let mut vec = Vec::new();\n        if true {\n            vec.extend_from_iter(slice);\n            return vec;\n        }\n        let slice_ptr = slice.as_ptr();\n",VEC),
("v-collect",V,"        let iter = iter.into_iter();\n        let mut vec = Vec::with_capacity(iter.size_hint().0);\n\n        for item in iter {\n            vec.push(item);\n        }\n\n        vec","        let mut vec = Vec::new();\n        vec.extend_from_iter(iter);\n        vec",VEC),
("v-extslice-iter",V,"        self.reserve_exact(slice.len());\n        for i in slice {\n            self.push(i.clone());\n        }","        self.extend_from_iter(slice.iter().cloned())",VEC),
("v-extslice-am",V,"        self.reserve_exact(slice.len());\n        for i in slice {","        self.reserve(slice.len());\n        for i in slice {",VEC),
("v-trunc-pop",V,"        if len > self.len() {\n            return;\n        }\n","        while self.len() > len {\n            self.pop();\n        }\n        if len >= self.len() {\n            return;\n        }\n",VEC),
("v-append-reserve",V,"        self.reserve_exact(other.len());\n        // SAFETY: ptr is within valid reserved range.","        self.reserve(other.len());\n        // SAFETY: ptr is within valid reserved range.",VEC),
("v-append-loop",V,"        self.reserve_exact(other.len());\n        // SAFETY: ptr is within valid reserved range.","        self.reserve_exact(other.len());\n        if true {\n            for i in 0..other.len() {\n                unsafe {\n                    let v = ptr::read(other.as_ptr().add(i));\n                    ptr::write(self.as_mut_ptr().add(self.len()), v);\n                    self.set_len(self.len() + 1);\n                }\n            }\n            unsafe { other.set_len(0) };\n            return;\n        }\n        // SAFETY: ptr is within valid reserved range.",VEC),
("v-insert-push",V,"        assert!(index <= self.len());\n\n        if self.is_full() {\n            self.reserve_exact(1);\n        }\n","        assert!(index <= self.len());\n\n        if true {\n            self.push(element);\n            self.as_mut_slice()[index..].rotate_right(1);\n            return;\n        }\n",VEC),
("v-remove-rot",V,"        assert!(index < self.len());\n\n        unsafe {\n            let elem_ptr","        assert!(index < self.len());\n        if true {\n            self.as_mut_slice()[index..].rotate_left(1);\n            return self.pop().unwrap();\n        }\n\n        unsafe {\n            let elem_ptr",VEC),
("v-swaprem",V,"        assert!(self.len() > index);\n\n        if self.len() == 1 {\n            self.pop().unwrap()","        assert!(self.len() > index);\n\n        if true {\n            let last = self.len() - 1;\n            self.as_mut_slice().swap(index, last);\n            self.pop().unwrap()",VEC),
("v-drain-guard",V,"        // `count` reads all remaining elements out and drops them.\n        self.count();\n","        let rest = self.slice as *const [T] as *mut [T];\n        self.slice = &[];\n        unsafe { drop_in_place(rest) };\n",VEC),
("v-drain-foreach",V,"        self.count();\n","        for v in &mut *self {\n            drop(v);\n        }\n",VEC),
("v-intoiter-slice",V,"            // Drop each of elements still owned by Vec.\n            for element in unmoved_elements {\n                drop_in_place(element);\n            }","            // Drop each of elements still owned by Vec.\n            drop_in_place(unmoved_elements);",VEC),
("v-drop-slice",V,"            for i in 0..self.len() {\n                unsafe { drop_in_place(self.get_unchecked_mut(i)) };\n            }","            unsafe { drop_in_place(self.as_mut_slice()) };",VEC),
("v-boxed-cond",V,"        self.shrink_to_fit();\n\n        // Vec of zero","        if self.spare_len() > 0 {\n            self.shrink_to_fit();\n        }\n\n        // Vec of zero",VEC),
("v-split-assert",V,"        if self.len() <= at {\n            Vec::new()","        assert!(at <= self.len());\n        if self.len() == at {\n            Vec::new()",VEC),
("v-split-marker",V,"            let mut vec = Vec::with_capacity(count);\n            let vec_ptr","            let mut vec = Vec::with_capacity_and_marker(count, self.marker());\n            let vec_ptr",VEC),
("v-grow-15",V,"        let new_capacity = cmp::max(new_capacity, self.capacity() * 2);","        let new_capacity = cmp::max(new_capacity, self.capacity() + self.capacity() / 2);",VEC),
("v-grow-order",V,"        let new_capacity = cmp::max(new_capacity, Self::MIN_NON_ZERO_CAP);\n        let new_capacity = cmp::max(new_capacity, self.capacity() * 2);","        let new_capacity = new_capacity.max(self.capacity() * 2).max(Self::MIN_NON_ZERO_CAP);",VEC),
("v-shrink-zero",V,"        unsafe { self.ptr.realloc_array(capacity) }\n    }\n\n    #[inline]\n    pub fn shrink_to_fit","        if capacity == self.capacity() {\n            return Ok(());\n        }\n        unsafe { self.ptr.realloc_array(capacity) }\n    }\n\n    #[inline]\n    pub fn shrink_to_fit",VEC),
("v-resize-extend",V,"        ResizeWithVal(val).do_resize(self, len)\n    }\n\n    pub fn resize_with(&mut self, len: usize, f: impl FnMut() -> T) {","        if len <= self.len() {\n            return self.truncate(len);\n        }\n        self.reserve_exact(len - self.len());\n        while self.len() + 1 < len {\n            self.push(val.clone());\n        }\n        self.push(val);\n    }\n\n    pub fn resize_with(&mut self, len: usize, f: impl FnMut() -> T) {",VEC),
("v-pop-first",V,"                let ptr = self.get_unchecked(self.len() - 1);\n                let val = ptr::read(ptr);\n                self.set_len(self.len() - 1);\n                Some(val)","                self.len -= 1;\n                Some(ptr::read(self.as_ptr().add(self.len)))",VEC),
("v-cap-round",V,"            let selector = AllocSelector::with_marker::<T>(marker);\n            let ptr = ManuallyDrop::new(ScopePtr::alloc_array_uninit(capacity, selector)?);","            let selector = AllocSelector::with_marker::<T>(marker);\n            let capacity = if capacity < 1000 { (capacity + 3) & !3 } else { capacity };\n            let ptr = ManuallyDrop::new(ScopePtr::alloc_array_uninit(capacity, selector)?);",VEC+["C15","C19"]),
("v-retain-std",V,"        RetainIter::retain(self, retain)\n    }\n\n    pub fn dedup(","""        let mut retain = retain;
        let len = self.len();
        struct Guard<'a, T: 'static>(&'a mut Vec<T>, usize, usize, usize);
        impl<T: 'static> Drop for Guard<'_, T> {
            fn drop(&mut self) {
                unsafe {
                    let p = self.0.as_mut_ptr();
                    ptr::copy(p.add(self.1), p.add(self.1 - self.2), self.3 - self.1);
                    self.0.set_len(self.3 - self.2);
                }
            }
        }
        unsafe { self.set_len(0) };
        let mut g = Guard(self, 0, 0, len);
        while g.1 < len {
            unsafe {
                let cur = g.0.as_mut_ptr().add(g.1);
                if retain(&*cur) {
                    if g.2 > 0 {
                        ptr::copy_nonoverlapping(cur, cur.sub(g.2), 1);
                    }
                    g.1 += 1;
                } else {
                    g.1 += 1;
                    g.2 += 1;
                    drop_in_place(cur);
                }
            }
        }
    }

    pub fn dedup(""",VEC),
("v-into-iter-split",V,"        if let Some(value) = self.vec.get(self.index) {\n            self.index += 1;\n            // SAFETY: element is moved out of Vec, will never be accessed through it.\n            unsafe { Some(ptr::read(value)) }\n        } else {\n            None\n        }","        if self.index == self.vec.len() {\n            return None;\n        }\n        self.index += 1;\n        unsafe { Some(ptr::read(self.vec.as_ptr().add(self.index - 1))) }",VEC),
("v-leak-md",V,"        let slice: &'static mut [T] = unsafe { impose_lifetime_mut(&mut self) };\n        mem::forget(self);\n        slice","        let slice: &'static mut [T] = unsafe { impose_lifetime_mut(self.as_mut_slice()) };\n        mem::forget(self);\n        slice",VEC),
# small
("s-reserve-double",S,"        let new_capacity = self.capacity().overflow_guarded_add(additional);","        let new_capacity = usize::max(self.capacity().overflow_guarded_add(additional), self.capacity().saturating_mul(2).min(self.capacity().saturating_add(64)));",SML),
("s-push-match",S,"        self.reserve(1);\n\n        use Storage::*;\n        match &mut self.storage {\n            Heap(vec) => vec.push(value),","        if self.is_full() {\n            self.reserve(1);\n        }\n\n        use Storage::*;\n        match &mut self.storage {\n            Heap(vec) => vec.push(value),",SML),
("s-append-exact",S,"        self.reserve(other.len());\n\n        let self_end_ptr","        self.reserve_exact(other.len());\n\n        let self_end_ptr",SML),
("s-append-drain",S,"        self.reserve(other.len());\n\n        let self_end_ptr","        self.reserve(other.len());\n        if true {\n            return self.extend(other.drain(..));\n        }\n\n        let self_end_ptr",SML),
("s-clear",S,"        let ptr = self.slice.as_mut_ptr() as *mut T;\n        let slice = unsafe { slice::from_raw_parts_mut(ptr, self.len()) };\n        unsafe { self.set_len(0) };\n        for element in slice {\n            unsafe { drop_in_place(element) };\n        }","        self.truncate(0);",SML),
("s-drop-slice",S,"        for value in self.as_mut_slice() {\n            unsafe { drop_in_place(value) };\n        }","        unsafe { drop_in_place(self.as_mut_slice()) };",SML),
("s-tostack",S,"            let mut storage = Storage::Stack(stack_vec);\n            core::mem::swap(&mut storage, &mut self.storage);\n            if","            let storage = core::mem::replace(&mut self.storage, Storage::Stack(stack_vec));\n            if",SML),
("s-fromarr",S,"        if L <= N {\n            let mut vec = StackVec::new();\n            let slice","        if true {\n            let mut vec = Self::with_capacity(L);\n            for v in slice {\n                vec.push(v);\n            }\n            return vec;\n        }\n        if L <= N {\n            let mut vec = StackVec::new();\n            let slice",SML),
("s-insert-assert",S,"        // Ensure we can store one more element. This will move to heap if stack is full.\n        self.reserve(1);\n\n        use Storage::*;\n        match &mut self.storage {\n            Heap(vec) => vec.insert","        assert!(index <= self.len());\n        self.reserve(1);\n\n        use Storage::*;\n        match &mut self.storage {\n            Heap(vec) => vec.insert",SML),
("s-split-marker",S,"        let mut into = SmallVec::with_capacity(count);","        let mut into = SmallVec::with_capacity_and_marker(count, self.marker);",SML),
("s-extslice",S,"        self.reserve(slice.len());\n        for elem in slice {\n            self.push(elem.clone());\n        }","        self.extend(slice.iter().cloned());",SML),
("s-resize-heap",S,"            Stack(vec) => vec.resize(len, val),\n            Heap(vec) => vec.resize(len, val),","            Heap(vec) => vec.resize(len, val),\n            Stack(vec) => {\n                if len <= vec.len() {\n                    vec.truncate(len);\n                } else {\n                    while vec.len() + 1 < len {\n                        unsafe { vec.unchecked_push(val.clone()) };\n                    }\n                    unsafe { vec.unchecked_push(val) };\n                }\n            }",SML),
# string
("t-push",T,"            1 => self.vec.push(ch as u8),\n","",STR),
("t-insert-exact",T,"        self.vec.reserve(amt);","        self.vec.reserve_exact(amt);",STR),
("t-utf16",T,"        let mut ret = String::with_capacity(v.len());","        let mut ret = String::new();",STR),
("t-extend-nores",T,"        self.reserve(iter.size_hint().0);\n        for c in iter {\n            self.push(c);\n        }","        for c in iter {\n            self.push(c);\n        }",STR),
("t-extend-str",T,"        for s in iter {\n            self.push_str(s);\n        }","        iter.for_each(|s| self.push_str(s));",STR),
("t-clear",T,"        self.vec.clear();","        self.truncate(0);",STR),
("t-pop",T,"        let ch = self.chars().rev().next()?;","        let ch = self.chars().next_back()?;",STR),
("t-extend-string",T,"""                if s.vec.marker() == self.vec.marker() {
                    self.vec = s.vec;
                } else {
                    self.push_str(&s);
                }""","""                self.push_str(&s);""",STR),
("t-split",T,"        let other = self.vec.split_off(at);\n        unsafe","        let mut other = Vec::with_capacity(self.len() - at);\n        other.extend_from_slice(&self.as_bytes()[at..]);\n        self.vec.truncate(at);\n        unsafe",STR),
("t-remove-drain",T,"        let next = idx + ch.len_utf8();\n        let len = self.len();\n        unsafe {\n            ptr::copy(","        let next = idx + ch.len_utf8();\n        if true {\n            drop(self.vec.drain(idx..next));\n            return ch;\n        }\n        let len = self.len();\n        unsafe {\n            ptr::copy(",STR),
("t-retain",T,"            if !f(ch) {\n                guard.del_bytes += ch_len;\n            } else if guard.del_bytes > 0 {","            let keep = f(ch);\n            if !keep {\n                guard.del_bytes += ch_len;\n            } else if guard.del_bytes != 0 {",STR),
("t-fromchar",T,"        let vec = Vec::from(bytes);\n        String { vec }\n    }\n}\n\nimpl From<&str>","        let mut s = String::with_capacity(bytes.len());\n        s.push(ch);\n        s\n    }\n}\n\nimpl From<&str>",STR),
# ptr, scope
("p-realloc-copy",P,"            self.alloc\n                .realloc(self.ptr.as_ptr() as _, old_layout, new_size)","""            {
                let old = self.ptr.as_ptr() as *mut u8;
                let new = self.alloc.alloc(Layout::from_size_align_unchecked(new_size, old_layout.align()));
                if !new.is_null() {
                    ptr::copy_nonoverlapping(old, new, new_size.min(old_layout.size()));
                    self.alloc.dealloc(old, old_layout);
                }
                new
            }""",PTR),
("p-zst-early",P,"""        let mem = if layout.size() == 0 {
            // Allocators do not support zero-sized requests, no memory is needed for these.
            NonNull::dangling().as_ptr()
        } else {
            unsafe { alloc.alloc(layout) as *mut T }
        };""","""        if layout.size() == 0 {
            return Ok(unsafe { ScopePtr::new(NonNull::dangling(), alloc, selector.marker()) });
        }
        let mem = unsafe { alloc.alloc(layout) as *mut T };""",PTR),
("p-into-inner",P,"            let v = ptr::read(self.ptr.as_ptr());\n            self.dealloc();\n            // The value is moved out and memory is freed so the destructor must not run.\n            mem::forget(self);\n            v","            let mut this = mem::ManuallyDrop::new(self);\n            let v = ptr::read(&**this);\n            this.dealloc();\n            v","    pub fn into_inner(mut self) -> T {","    pub fn into_inner(self) -> T {",PTR),
("p-alloc-uninit",P,"        let ptr = Self::alloc_layout(Layout::for_value(&value), selector)?;\n        // The memory is not initialized yet so there is no previous value to drop here.\n        unsafe { ptr::write(ptr.ptr.as_ptr(), value) };\n        Ok(ptr)","        Ok(Self::alloc_uninit(selector)?.init(value))",PTR),
("p-drop-inline",P,"        let access = Dealloc(self);\n        unsafe { access.0.ptr.as_ptr().drop_in_place() };","        let ptr = self.ptr;\n        let _access = Dealloc(self);\n        unsafe { ptr::drop_in_place(ptr.as_ptr()) };",PTR),
("c-current",C,"        unsafe { transmute_copy(&self.cur) }","        let cur: &dyn Scope = self.cur.as_ref();\n        unsafe { transmute_copy(&cur) }",SCO),
("c-local",C,"            f(&mut new_scope)","            let result = f(&mut new_scope);\n            drop(restore);\n            result",SCO),
("c-clone-eq",C,"        self.marker == other.marker && self.ty == other.ty","        self.ty == other.ty && self.marker == other.marker",SCO),
("s2-fromarr-push",S,"        if L <= N {\n            let mut vec = StackVec::new();\n            let slice = slice.map(MaybeUninit::new);","        if N >= L {\n            let mut vec = StackVec::new();\n            let slice = slice.map(MaybeUninit::new);",["C15"]),
("s2-fromslice-iter",S,"        let mut vec = Self::with_capacity(slice.len());\n        vec.extend_from_slice(slice);\n        vec","        let mut vec = Self::new();\n        vec.reserve(slice.len());\n        for e in slice {\n            vec.push(e.clone());\n        }\n        vec",["C15","C13","C17"]),
("s2-clone-iter",S,"        let data = self.as_slice();\n        Self::from(data)","        let mut vec = Self::with_capacity(self.len());\n        vec.extend(self.iter().cloned());\n        vec",["C15","C13","C17"]),
("s2-reserve-sub",S,"        if self.len().overflow_guarded_add(additional) <= self.capacity() {\n            return Ok(());\n        }\n        let new_capacity","        if additional <= self.capacity() - self.len() {\n            return Ok(());\n        }\n        let new_capacity",["C15","C13"]),
("s2-push-full",S,"        // Ensure we can store one more element. This will move to heap if stack is full.\n        self.reserve(1);\n\n        use Storage::*;\n        match &mut self.storage {\n            Heap(vec) => vec.push(value),","        if self.is_full() {\n            self.reserve(1);\n        }\n\n        use Storage::*;\n        match &mut self.storage {\n            Heap(vec) => vec.push(value),",["C15","C13"]),
("s2-split-drain",S,"        let slice = unsafe { self.as_ptr().add(at) };\n        let count = self.len() - at;\n        let mut into = SmallVec::with_capacity(count);\n        unsafe {\n            copy_nonoverlapping(slice, into.as_mut_ptr(), count);\n            self.set_len(self.len() - count);\n            into.set_len(count);\n        }\n        into","        let mut into = SmallVec::with_capacity(self.len() - at);\n        into.extend(self.drain(at..));\n        into",["C15","C13"]),
("s2-append-loop",S,"        let self_end_ptr = unsafe { self.as_mut_ptr().add(self.len()) as *mut T };\n        let other_ptr = other.as_ptr();\n        unsafe {\n            // SAFETY: we reserved enough space to copy all the elements.\n            copy_nonoverlapping(other_ptr, self_end_ptr, other.len());\n\n            self.set_len(self.len() + other.len());\n            other.set_len(0);\n        }","        for e in other.drain(..) {\n            self.push(e);\n        }",["C15","C13"]),
("u2-mm-order",U,"            if this.fence().weak_count() == 0 && this.master().weak_fence.load(Acquire) == 1 {","            let sole = this.master().weak_fence.load(Acquire) == 1;\n            if sole && this.fence().weak_count() == 0 {",["C06","C05"]),
("u2-mm-uniq",U,"        if this.master().strong_fence.load(Acquire) == 1 && this.fence().strong_count() == 1 {\n            // This is the only","        if this.is_unique() {\n            return unsafe { Urc::get_mut_unchecked(this) };\n        }\n        if this.fence().strong_count() == 1 && this.master().strong_fence.load(Acquire) == 1 {\n            // This is the only",["C06","C05"]),
("v3-clonefrom",V,"        let mut vec = Vec::new();\n        vec.extend_from_slice(self);\n        vec\n    }\n","        let mut vec = Vec::new();\n        vec.extend_from_slice(self);\n        vec\n    }\n\n    fn clone_from(&mut self, source: &Self) {\n        self.truncate(source.len());\n        let (both, rest) = source.as_slice().split_at(self.len());\n        self.as_mut_slice().clone_from_slice(both);\n        self.extend_from_slice(rest);\n    }\n",["C11","C12","C13","C14","C17","C20"]),
("s3-clonefrom",S,"        let data = self.as_slice();\n        Self::from(data)\n    }\n","        let data = self.as_slice();\n        Self::from(data)\n    }\n\n    fn clone_from(&mut self, source: &Self) {\n        self.clear();\n        self.extend_from_slice(source);\n    }\n",["C12","C13","C15","C17","C20"]),
("t3-clonefrom",T,"        Self {\n            vec: self.vec.clone(),\n        }\n    }\n","        Self {\n            vec: self.vec.clone(),\n        }\n    }\n\n    fn clone_from(&mut self, source: &Self) {\n        self.clear();\n        self.push_str(source);\n    }\n",["C12","C13","C16","C20"]),
("r3-clonefrom",R,"        self.inner().inc_strong();\n        Rc(clone_scope_access(&self.0))\n    }\n","        self.inner().inc_strong();\n        Rc(clone_scope_access(&self.0))\n    }\n\n    fn clone_from(&mut self, source: &Self) {\n        if !Rc::ptr_eq(self, source) {\n            drop(mem::replace(self, source.clone()));\n        }\n    }\n",["C09","C10","C12","C17"]),
]
