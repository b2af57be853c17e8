# realistic edits that keep the behaviour: helpers extracted, statements reordered, loops rewritten
F='macroslib/src/java_jni/fclass.rs'
R(F,'''        let may_return_error = match method.fn_decl.output {
            syn::ReturnType::Default => false,
            syn::ReturnType::Type(_, ref ptype) => {
                let ret_rust_ty = ctx.conv_map.find_or_alloc_rust_type(ptype, class.src_id);
                if_result_return_ok_err_types(&ret_rust_ty).is_some()
            }
        };

        let exception_spec = if may_return_error {
            " throws Exception"
        } else {
            ""
        };

        let method_access = match method.access {
            MethodAccess::Private => "private",
            MethodAccess::Public => "public",
            MethodAccess::Protected => "protected",
        };
''','''        let exception_spec = exception_spec_of(ctx.conv_map, class.src_id, &method.fn_decl.output);
        let method_access = java_access(method.access);
''')
R(F,'''fn generate_static_method(ctx: &mut JavaContext, mc''','''fn exception_spec_of(
    conv_map: &mut crate::TypeMap,
    src_id: crate::SourceId,
    output: &syn::ReturnType,
) -> &'static str {
    if let syn::ReturnType::Type(_, ref ptype) = *output {
        let ret_rust_ty = conv_map.find_or_alloc_rust_type(ptype, src_id);
        if if_result_return_ok_err_types(&ret_rust_ty).is_some() {
            return " throws Exception";
        }
    }
    ""
}

fn java_access(access: MethodAccess) -> &'static str {
    match access {
        MethodAccess::Public => "public",
        MethodAccess::Protected => "protected",
        MethodAccess::Private => "private",
    }
}

fn generate_static_method(ctx: &mut JavaContext, mc''')
R(F,'''        let (ret_type, intermediate_ret_type, ret_conv_code) = match method.variant {
            MethodVariant::StaticMethod => {
                if let Some(conv) = f_method.output.java_converter.as_ref() {
                    calc_output_conv(&f_method.output, conv, &ret_name, &conv_ret)
                } else {
                    let ret_type = f_method.output.base.name.display();
                    (ret_type, ret_type, String::new())
                }
            }
            MethodVariant::Method(_) => {
                if let Some(conv)''','''        let (ret_type, intermediate_ret_type, ret_conv_code) = match method.variant {
            MethodVariant::StaticMethod | MethodVariant::Method(_) => {
                if let Some(conv)''')
J='macroslib/src/java_jni/jni-include.rs'
R(J,'''    ($p:r_type) bool <= jboolean {
        $out = $p != 0;
    };''','''    ($p:r_type) bool <= jboolean {
        $out = !($p == 0);
    };''')
R(J,'''fn from_jstring_std_string(js: jstring, env: *mut JNIEnv) -> String {
    if !js.is_null() {
        JavaUTF16Slice::new(env, js).into_string()
    } else {
        "".to_string()
    }
}''','''fn from_jstring_std_string(js: jstring, env: *mut JNIEnv) -> String {
    if js.is_null() {
        return String::new();
    }
    JavaUTF16Slice::new(env, js).into_string()
}''')
R(J,'''    for (i, r_str) in arr.drain(..).enumerate() {
        let jstr: jstring = from_std_str_jstring(&r_str, env);''','''    let mut i: jsize = 0;
    for r_str in arr.drain(..) {
        let jstr: jstring = from_std_str_jstring(&r_str, env);''')
R(J,'''            (**env).SetObjectArrayElement.unwrap()(env, obj_arr, i as jsize, jstr);
            if (**env).ExceptionCheck.unwrap()(env) != 0 {
                panic!("SetObjectArrayElement({}) failed", i);
            }
            (**env).DeleteLocalRef.unwrap()(env, jstr);
        }
    }
    obj_arr''','''            (**env).SetObjectArrayElement.unwrap()(env, obj_arr, i, jstr);
            if (**env).ExceptionCheck.unwrap()(env) != 0 {
                panic!("SetObjectArrayElement({}) failed", i);
            }
            (**env).DeleteLocalRef.unwrap()(env, jstr);
        }
        i += 1;
    }
    obj_arr''')
C='macroslib/src/cpp/rust_vec_impl.hpp'
C='macroslib/src/cpp/rust_vec_impl.hpp'
R(C,'''    RustVec(RustVec &&o) noexcept
    {
        this->data = o.data;
        this->len = o.len;
        this->capacity = o.capacity;

        reset(o);
    }
    RustVec &operator=(RustVec &&o) noexcept
    {
        free_mem();
        this->data = o.data;
        this->len = o.len;
        this->capacity = o.capacity;

        reset(o);
        return *this;
    }''','''    RustVec(RustVec &&o) noexcept { take_from(o); }
    RustVec &operator=(RustVec &&o) noexcept
    {
        free_mem();
        take_from(o);
        return *this;
    }''')
R(C,'''private:
''','''private:
    void take_from(RustVec &o) noexcept
    {
        this->capacity = o.capacity;
        this->len = o.len;
        this->data = o.data;
        reset(o);
    }
''')
R('macroslib/src/cpp/rust_foreign_vec_impl.hpp','''        auto p = static_cast<CForeignType *>(RemoveFunc(this, idx));
        return value_type{ p };''','''        return value_type{ static_cast<CForeignType *>(RemoveFunc(this, idx)) };''')
W='macroslib/src/file_cache.rs'
R(W,'''        if let Ok(mut f) = File::open(&self.path) {
            let mut cur_cnt = vec![];
            f.read_to_end(&mut cur_cnt)?;
            if cur_cnt == self.cnt {
                return Ok(());
            }
        }
        let mut f = File::create(&self.path)?;
        f.write_all(&self.cnt)?;
        Ok(())''','''        if self.is_up_to_date()? {
            return Ok(());
        }
        let mut out = File::create(&self.path)?;
        out.write_all(&self.cnt)''')
R(W,'''    #[allow(dead_code)]
    pub fn take_content''','''    fn is_up_to_date(&self) -> Result<bool, io::Error> {
        match File::open(&self.path) {
            Ok(mut f) => {
                let mut cur_cnt = Vec::new();
                f.read_to_end(&mut cur_cnt)?;
                Ok(cur_cnt == self.cnt)
            }
            Err(_) => Ok(false),
        }
    }

    #[allow(dead_code)]
    pub fn take_content''')
L='macroslib/src/lib.rs'
R(L,'''                    let is_our_macro = [
                        FOREIGNER_CLASS_DEPRECATED,
                        FOREIGN_CLASS,
                        FOREIGN_ENUM,
                        FOREIGN_INTERFACE_DEPRECATED,
                        FOREIGN_CALLBACK,
                        FOREIGN_TYPEMAP,
                    ]
                    .iter()
                    .any(|x| item_macro.mac.path.is_ident(x));
                    if !is_our_macro {''','''                    if !is_our_macro(&item_macro.mac.path) {''')
R(L,'''        for elem in code {
            writeln!(&mut file, "{}", elem).expect(WRITE_TO_MEM_FAILED_MSG);
        }

        let source_bytes = file.take_content();
        let source_bytes = generator.post_proccess_code(
            &mut self.conv_map,
            self.pointer_target_width,
            source_bytes,
        )?;
        file.replace_content(source_bytes);
''','''        code.into_iter().for_each(|elem| {
            writeln!(&mut file, "{}", elem).expect(WRITE_TO_MEM_FAILED_MSG);
        });

        let raw_source = file.take_content();
        file.replace_content(generator.post_proccess_code(
            &mut self.conv_map,
            self.pointer_target_width,
            raw_source,
        )?);
''')
S=open(ROOT+'/'+L).read()
APPEND(L,'''
fn is_our_macro(path: &syn::Path) -> bool {
    [
        FOREIGNER_CLASS_DEPRECATED,
        FOREIGN_CLASS,
        FOREIGN_ENUM,
        FOREIGN_INTERFACE_DEPRECATED,
        FOREIGN_CALLBACK,
        FOREIGN_TYPEMAP,
    ]
    .iter()
    .any(|x| path.is_ident(x))
}
''')
U='macroslib/src/typemap/utils.rs'
R(U,'''    for smart_pointer in &["Box", "Rc", "Arc"] {
        if let Some(inner_ty) = check_if_smart_pointer_return_inner_type(from, smart_pointer) {
            let inner_ty: RustType = tmap.find_or_alloc_rust_type(&inner_ty, from.src_id);
            return inner_ty;
        }
    }
    from.clone()
}''','''    match smart_pointer_inner(from) {
        Some((_, inner_ty)) => tmap.find_or_alloc_rust_type(&inner_ty, from.src_id),
        None => from.clone(),
    }
}

fn smart_pointer_inner(from: &RustType) -> Option<(&'static str, Type)> {
    ["Box", "Rc", "Arc"].iter().find_map(|smart_pointer| {
        check_if_smart_pointer_return_inner_type(from, smart_pointer)
            .map(|inner_ty| (*smart_pointer, inner_ty))
    })
}''')
R(U,'''    for smart_pointer in &["Box", "Rc", "Arc"] {
        if check_if_smart_pointer_return_inner_type(from, smart_pointer).is_some() {
            return format!(
                r#"
    let {var_name}: {rc_type}  = unsafe {{ {smart_pointer}::from_raw({var_name}) }};
"#,
                var_name = var_name,
                rc_type = from,
                smart_pointer = *smart_pointer,
            );
        }
    }
''','''    if let Some((smart_pointer, _)) = smart_pointer_inner(from) {
        return format!(
            r#"
    let {var_name}: {rc_type}  = unsafe {{ {smart_pointer}::from_raw({var_name}) }};
"#,
            var_name = var_name,
            rc_type = from,
            smart_pointer = smart_pointer,
        );
    }
''')
P='macroslib/src/cpp/fclass.rs'
R(P,'''        let pos = class
            .methods
            .iter()
            .position(|m| {
                if let Some(seg) = m.rust_id.segments.last() {
                    seg.ident == "clone"
                } else {
                    false
                }
            })
            .ok_or_else(|| {
                DiagnosticError::new(
                    class.src_id,
                    class.span(),
                    format!(
                        "Class {} (namespace {}) has derived Copy attribute, but no clone method",
                        class.name, ctx.cfg.namespace_name,
                    ),
                )
            })?;
        let c_clone_func = c_func_name(class, &class.methods[pos]);
''','''        let c_clone_func = match class
            .methods
            .iter()
            .find(|m| m.rust_id.segments.last().is_some_and(|seg| seg.ident == "clone"))
        {
            Some(method) => c_func_name(class, method),
            None => {
                return Err(DiagnosticError::new(
                    class.src_id,
                    class.span(),
                    format!(
                        "Class {} (namespace {}) has derived Copy attribute, but no clone method",
                        class.name, ctx.cfg.namespace_name,
                    ),
                ))
            }
        };
''')
