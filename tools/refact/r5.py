C='macroslib/src/java_jni/find_cache.rs'
R(C,'''            for sub_id in &find_class.methods {
                let id = &sub_id.id;
                ret.push(parse_quote! {
                    static mut #id: jmethodID = ::std::ptr::null_mut();
                });
            }
            for sub_id in &find_class.static_methods {
                let id = &sub_id.id;
                ret.push(parse_quote! {
                    static mut #id: jmethodID = ::std::ptr::null_mut();
                });
            }
            for sub_id in &find_class.static_fields {
                let id = &sub_id.id;
                ret.push(parse_quote! {
                    static mut #id: jfieldID = ::std::ptr::null_mut();
                });
            }
            for sub_id in &find_class.fields {
                let id = &sub_id.id;
                ret.push(parse_quote! {
                    static mut #id: jfieldID = ::std::ptr::null_mut();
                });
            }
''','''            for sub_id in find_class
                .methods
                .iter()
                .chain(&find_class.static_methods)
            {
                let id = &sub_id.id;
                ret.push(parse_quote! {
                    static mut #id: jmethodID = ::std::ptr::null_mut();
                });
            }
            for sub_id in find_class.static_fields.iter().chain(&find_class.fields) {
                let id = &sub_id.id;
                ret.push(parse_quote! {
                    static mut #id: jfieldID = ::std::ptr::null_mut();
                });
            }
''')
R(C,'''        if !find_class.$sub_calls.iter().any(|x| *x == get_method_id) {
            find_class.$sub_calls.push(get_method_id);
        }
''','''        if find_class.$sub_calls.contains(&get_method_id) {
            // the same call in other place
        } else {
            find_class.$sub_calls.push(get_method_id);
        }
''')
R(C,'''        if let Some(wrong_usage_pos) = find_class.$sub_calls.iter().position(|elem| {
            elem.name == get_method_id.name
                && elem.sig == get_method_id.sig
                && get_method_id.id != elem.id
        }) {
            let prev_get_method_id = &find_class.$sub_calls[wrong_usage_pos];
            panic!(''','''        if let Some(prev_get_method_id) = find_class.$sub_calls.iter().find(|elem| {
            get_method_id.id != elem.id
                && elem.name == get_method_id.name
                && elem.sig == get_method_id.sig
        }) {
            panic!(''')
R(C,'''            if let Some(call) = self.inner.calls.get(&id) {
                if call.path != find_class.path {
                    println!(
                        "waring=You use the same id '{}' for different classes '{}' vs '{}'",
                        id,
                        call.path.value(),
                        find_class.path.value()
                    );
                    self.errors.push(syn::Error::new(
                        mac.span(),
                        format!(
                            "You use the same id '{}' for different classes '{}' vs '{}'",
                            id,
                            call.path.value(),
                            find_class.path.value()
                        ),
                    ));
                    return;
                }
            }
''','''            let clash = match self.inner.calls.get(&id) {
                Some(call) if call.path != find_class.path => Some(call.path.value()),
                _ => None,
            };
            if let Some(prev_path) = clash {
                let msg = format!(
                    "You use the same id '{}' for different classes '{}' vs '{}'",
                    id,
                    prev_path,
                    find_class.path.value()
                );
                println!("waring={}", msg);
                self.errors.push(syn::Error::new(mac.span(), msg));
                return;
            }
''')
I='macroslib/src/java_jni/finterface.rs'
R(I,'''        let mut args_with_types = Vec::with_capacity(method.fn_decl.inputs.len());
        args_with_types.push(self_arg);
        args_with_types.extend(
            method
                .fn_decl
                .inputs
                .iter()
                .skip(1)
                .enumerate()
                .map(|(i, v)| {
                    let arg_ty = &v.as_named_arg().unwrap().ty;
                    let arg_name = Ident::new(&format!("a{}", i), Span::call_site());
                    quote!(#arg_name: #arg_ty)
                }),
        );
''','''        let mut args_with_types = vec![self_arg];
        for (i, v) in method.fn_decl.inputs.iter().skip(1).enumerate() {
            let arg_ty = &v.as_named_arg().unwrap().ty;
            let arg_name = nth_arg_ident(i);
            args_with_types.push(quote!(#arg_name: #arg_ty));
        }
''')
R(I,'''        match method.fn_decl.output {
            syn::ReturnType::Default => trait_impl_funcs.push(quote! {
                #[allow(unused_mut)]
                fn #func_name(#(#args_with_types),*) {
                    #type_size_asserts
                    let env = self.get_jni_env();
                    if let Some(env) = env.env {
                        #convert_args
                        unsafe {
                            (**env).CallVoidMethod.unwrap()(env, self.this,
                                                            self.methods[#method_idx],
                                                            #(#args),*);
                            if (**env).ExceptionCheck.unwrap()(env) != 0 {
                                log::error!(concat!(stringify!(#func_name), ": java throw exception"));
                                (**env).ExceptionDescribe.unwrap()(env);
                                (**env).ExceptionClear.unwrap()(env);
                            }
                        };
                    }
                }
            }),
''','''        let report_exception = quote! {
            if (**env).ExceptionCheck.unwrap()(env) != 0 {
                log::error!(concat!(stringify!(#func_name), ": java throw exception"));
                (**env).ExceptionDescribe.unwrap()(env);
                (**env).ExceptionClear.unwrap()(env);
            }
        };
        match method.fn_decl.output {
            syn::ReturnType::Default => trait_impl_funcs.push(quote! {
                #[allow(unused_mut)]
                fn #func_name(#(#args_with_types),*) {
                    #type_size_asserts
                    let env = self.get_jni_env();
                    if let Some(env) = env.env {
                        #convert_args
                        unsafe {
                            let method_id = self.methods[#method_idx];
                            (**env).CallVoidMethod.unwrap()(env, self.this, method_id, #(#args),*);
                            #report_exception
                        };
                    }
                }
            }),
''')
R(I,'''                            if (**env).ExceptionCheck.unwrap()(env) != 0 {
                                log::error!(concat!(stringify!(#func_name), ": java throw exception"));
                                (**env).ExceptionDescribe.unwrap()(env);
                                (**env).ExceptionClear.unwrap()(env);
                            }
                        };
                        #out''','''                            #report_exception
                        };
                        #out''')
R(I,'''                let jni_caller = match jni_ret_type.normalized_name.as_str() {
                    "jboolean" => quote! { CallBooleanMethod },
                    "jbyte" => quote! {CallByteMethod },
                    "jshort" => quote! { CallShortMethod },
                    "jint" => quote!{ CallIntMethod },
                    "jlong" => quote!{ CallLongMethod },
                    "jfloat" => quote!{ CallFloatMethod },
                    "jdouble" => quote!{ CallDoubleMethod },
                    "jobject" => quote!{ CallObjectMethod },
                    _ => return Err(''','''                let jni_caller = match jni_call_name(jni_ret_type.normalized_name.as_str()) {
                    Some(name) => Ident::new(name, Span::call_site()),
                    None => return Err(''')
R(I,'''        let arg_name = Ident::new(&format!("a{}", i), Span::call_site());
        if let''','''        let arg_name = nth_arg_ident(i);
        if let''')
R(I,'''    let check_sizes = quote! {
        swig_assert_eq_size!(::std::os::raw::c_uint, u32);
        swig_assert_eq_size!(::std::os::raw::c_int, i32);
    };
    (ret, check_sizes)
''','''    (ret, size_asserts())
''')
APPEND(I,'''
fn size_asserts() -> TokenStream {
    quote! {
        swig_assert_eq_size!(::std::os::raw::c_uint, u32);
        swig_assert_eq_size!(::std::os::raw::c_int, i32);
    }
}

fn nth_arg_ident(i: usize) -> Ident {
    Ident::new(&format!("a{}", i), Span::call_site())
}

fn jni_call_name(jni_type: &str) -> Option<&'static str> {
    let name = match jni_type {
        "jboolean" => "CallBooleanMethod",
        "jbyte" => "CallByteMethod",
        "jshort" => "CallShortMethod",
        "jint" => "CallIntMethod",
        "jlong" => "CallLongMethod",
        "jfloat" => "CallFloatMethod",
        "jdouble" => "CallDoubleMethod",
        "jobject" => "CallObjectMethod",
        _ => return None,
    };
    Some(name)
}
''')
F='macroslib/src/java_jni/fclass.rs'
R(F,'''            MethodVariant::StaticMethod => {
                if let Some(conv) = f_method.output.java_converter.as_ref() {
                    calc_output_conv(&f_method.output, conv, &ret_name, &conv_ret)
                } else {
                    let ret_type = f_method.output.base.name.display();
                    (ret_type, ret_type, String::new())
                }
            }
            MethodVariant::Method(_) => {
                if let Some(conv) = f_method.output.java_converter.as_ref() {
                    calc_output_conv(&f_method.output, conv, &ret_name, &conv_ret)
                } else {
                    let ret_type = f_method.output.base.name.display();
                    (ret_type, ret_type, String::new())
                }
            }
''','''            MethodVariant::StaticMethod | MethodVariant::Method(_) => {
                match f_method.output.java_converter {
                    Some(ref conv) => {
                        calc_output_conv(&f_method.output, conv, &ret_name, &conv_ret)
                    }
                    None => {
                        let ret_type = f_method.output.base.name.display();
                        (ret_type, ret_type, String::new())
                    }
                }
            }
''')
R(F,'''                let (native, end) = if !need_conversion {
                    ("native ", ";\\n")
                } else {
                    ("", " {\\n")
                };
''','''                let native = if need_conversion { "" } else { "native " };
                let end = if need_conversion { " {\\n" } else { ";\\n" };
''')
R(F,'''                    if !reachability_fence_code.is_empty() {
                        file.write_all(reachability_fence_code.as_bytes())
                            .expect(WRITE_TO_MEM_FAILED_MSG);
                        file.write_all(b"\\n").expect(WRITE_TO_MEM_FAILED_MSG);
                    }
                    if ret_type''','''                    write_non_empty(&mut file, &reachability_fence_code);
                    if ret_type''')
APPEND(F,'''
fn write_non_empty(file: &mut FileWriteCache, code: &str) {
    if code.is_empty() {
        return;
    }
    writeln!(file, "{}", code).expect(WRITE_TO_MEM_FAILED_MSG);
}
''')
