C='macroslib/src/cpp/cpp-include.rs'
R(C,'''impl CRustForeignVec {
    pub fn from_vec<T: SwigForeignClass>(mut v: Vec<T>) -> CRustForeignVec {
        let data = v.as_mut_ptr() as *const ::std::os::raw::c_void;
        let len = v.len();
        let capacity = v.capacity();
        ::std::mem::forget(v);
        CRustForeignVec {
            data,
            len,
            capacity,
        }
    }
}
''','''impl CRustForeignVec {
    pub fn from_vec<T: SwigForeignClass>(v: Vec<T>) -> CRustForeignVec {
        let mut v = ::std::mem::ManuallyDrop::new(v);
        CRustForeignVec {
            len: v.len(),
            capacity: v.capacity(),
            data: v.as_mut_ptr() as *const ::std::os::raw::c_void,
        }
    }

    unsafe fn take_vec<T: SwigForeignClass>(&self) -> Vec<T> {
        Vec::from_raw_parts(self.data as *mut T, self.len, self.capacity)
    }
}
''')
R(C,'''    let vec: &mut CRustForeignVec = unsafe { &mut *vec };
    let mut v = unsafe { Vec::from_raw_parts(vec.data as *mut T, vec.len, vec.capacity) };
    v.push(T::unbox_object(elem));
    vec.data = v.as_mut_ptr() as *const ::std::os::raw::c_void;
    vec.len = v.len();
    vec.capacity = v.capacity();
    ::std::mem::forget(v);
}
''','''    let vec: &mut CRustForeignVec = unsafe { &mut *vec };
    let mut v = unsafe { vec.take_vec::<T>() };
    v.push(T::unbox_object(elem));
    *vec = CRustForeignVec::from_vec(v);
}
''')
R(C,'''    let v = unsafe { Vec::from_raw_parts(v.data as *mut T, v.len, v.capacity) };
    drop(v);
}
''','''    drop(unsafe { Vec::from_raw_parts(v.data as *mut T, v.len, v.capacity) });
}
''')
R(C,'''            let s = unsafe { String::from_raw_parts(x.data as *mut u8, x.len, x.capacity) };
            let ret = CRustString::from_string(s.clone());
            ::std::mem::forget(s);
            ret
''','''            let s = ::std::mem::ManuallyDrop::new(unsafe {
                String::from_raw_parts(x.data as *mut u8, x.len, x.capacity)
            });
            let copy: String = (*s).clone();
            CRustString::from_string(copy)
''')
R(C,'''        let mut tmp = $p;
        let p = tmp.as_mut_ptr();
        let len = tmp.len();
        let cap = tmp.capacity();
        ::std::mem::forget(tmp);
        $out = CRustVec!() {
            data: p,
            len,
            capacity: cap,
        };
''','''        let mut tmp = $p;
        let (p, len, cap) = (tmp.as_mut_ptr(), tmp.len(), tmp.capacity());
        ::std::mem::forget(tmp);
        $out = CRustVec!() {
            capacity: cap,
            len,
            data: p,
        };
''')
R(C,'''        $out = if $pin  { 1 } else { 0 };
    };
    ($pin:f_type) => "bool" "($pin != 0)";''','''        $out = match $pin { true => 1, false => 0 };
    };
    ($pin:f_type) => "bool" "($pin ? true : false)";''')
R(C,'''        $out = match $p {
            Some(mut x) => {
                swig_from_rust_to_i_type!(T, x, data)
                CRustOpt!() {
                    val: CRustOptUnion!() { data },
                    is_some: 1,
                }
            }
            None => CRustOpt!() {
                    val: CRustOptUnion!() { uninit: 0 },
                    is_some: 0,
            },
        };
''','''        $out = if let Some(mut x) = $p {
            swig_from_rust_to_i_type!(T, x, data)
            let val = CRustOptUnion!() { data };
            CRustOpt!() { val, is_some: 1 }
        } else {
            let val = CRustOptUnion!() { uninit: 0 };
            CRustOpt!() { val, is_some: 0 }
        };
''')
R(C,'''        $out = if $p.is_some != 0 {
            swig_from_i_type_to_rust!(T, unsafe { $p.val.data }, ret)
            Some(ret)
        } else {
            None
        };
    };

    ($p:f_type, option = "CppOptional::Boost"''','''        $out = if $p.is_some == 0 {
            None
        } else {
            swig_from_i_type_to_rust!(T, unsafe { $p.val.data }, ret)
            Some(ret)
        };
    };

    ($p:f_type, option = "CppOptional::Boost"''')
R(C,'''            CRustOpt!() out;
            if (p.has_value()) {
                out.val.data = swig_foreign_to_i_type!(T, (*p));
                out.is_some = 1;
            } else {
                out.is_some = 0;
            }
            return out;''','''            CRustOpt!() out;
            out.is_some = p.has_value() ? 1 : 0;
            if (p) {
                out.val.data = swig_foreign_to_i_type!(T, (*p));
            }
            return out;''')
R(C,'''            auto copy = crust_string_clone(o);
            data = copy.data;
            len = copy.len;
            capacity = copy.capacity;
        }
        return *this;''','''            assign(crust_string_clone(o));
        }
        return *this;''')
R(C,'''    RustString(RustString &&o) noexcept
    {
        data = o.data;
        len = o.len;
        capacity = o.capacity;

        reset(o);
    }
''','''    RustString(RustString &&o) noexcept
        : RustString(static_cast<const CRustString &>(o))
    {
        reset(o);
    }
''')
R(C,'''        free_mem();
        data = o.data;
        len = o.len;
        capacity = o.capacity;

        reset(o);
        return *this;
    }
    ~RustString() noexcept { free_mem(); }''','''        free_mem();
        assign(o);
        reset(o);
        return *this;
    }
    ~RustString() noexcept { free_mem(); }''')
R(C,'''private:
    void free_mem() noexcept
    {
        if (data != nullptr) {
            crust_string_free(*this);
            reset(*this);
        }
    }
    static void reset(RustString &o) noexcept''','''private:
    void assign(const CRustString &o) noexcept
    {
        data = o.data;
        len = o.len;
        capacity = o.capacity;
    }
    void free_mem() noexcept
    {
        if (data == nullptr) {
            return;
        }
        crust_string_free(*this);
        reset(*this);
    }
    static void reset(RustString &o) noexcept''')
V='macroslib/src/cpp/rust_foreign_vec_impl.hpp'
R(V,'''    iterator end() noexcept
    {
        auto p = static_cast<const uint8_t *>(this->data);
        p += ELEM_SIZE * this->len;
        return iterator{ p, ELEM_SIZE };
    }
''','''    iterator end() noexcept
    {
        return iterator{ static_cast<const uint8_t *>(this->data) + this->len * ELEM_SIZE, ELEM_SIZE };
    }
''')
R(V,'''        CContainerType ret{ this->data, this->len, this->capacity };
        reset(*this);
        return ret;
''','''        const CContainerType ret = *this;
        reset(*this);
        return ret;
''')
I='macroslib/src/cpp/rust_foreign_slice_iter.hpp'
R(I,'''    RustForeignSliceIterator &operator-=(ptrdiff_t n) noexcept
    {
        this->ptr = static_cast<const uint8_t *>(this->ptr) - n * this->step;
        return *this;
    }
''','''    RustForeignSliceIterator &operator-=(ptrdiff_t n) noexcept { return *this += -n; }
''')
R(I,'''        const void *p = static_cast<const uint8_t *>(this->ptr) + n * this->step;
        return RustForeignSliceIterator(p, this->step);
''','''        RustForeignSliceIterator res(*this);
        res += n;
        return res;
''')
R(I,'''        auto p = static_cast<const uint8_t *>(this->ptr) + n * this->step;
        auto elem_ptr = static_cast<const CForeignType *>(static_cast<const void *>(p));
        return T{ elem_ptr };
''','''        return *(*this + n);
''')
R(I,'''        if (diff != 0) {
            return diff / static_cast<ptrdiff_t>(this->step);
        }
        else {
            return 0;
        }
''','''        return diff == 0 ? 0 : diff / static_cast<ptrdiff_t>(this->step);
''')
R(I,'''        return this->ptr > o.ptr;
''','''        return o < *this;
''')
S='macroslib/src/cpp/rust_foreign_slice_impl.hpp'
R(S,'''        auto p = static_cast<const uint8_t *>(this->data);
        p += this->step * i;
        auto elem_ptr = static_cast<const CForeignType *>(static_cast<const void *>(p));
        return ForeignClassRef{ elem_ptr };
''','''        const void *p = static_cast<const uint8_t *>(this->data) + i * this->step;
        return ForeignClassRef{ static_cast<const CForeignType *>(p) };
''')
R(S,'''    const_iterator begin() const noexcept { return const_iterator{ this->data, this->step }; }

    iterator end() noexcept
    {
        auto p = static_cast<const uint8_t *>(this->data);
        p += this->step * this->len;
        return iterator{ p, this->step };
    }

    const_iterator end() const noexcept
    {
        auto p = static_cast<const uint8_t *>(this->data);
        p += this->step * this->len;
        return const_iterator{ p, this->step };
    }
''','''    const_iterator begin() const noexcept { return const_iterator{ this->data, this->step }; }

    iterator end() noexcept { return begin() + this->len; }

    const_iterator end() const noexcept { return begin() + this->len; }
''')
