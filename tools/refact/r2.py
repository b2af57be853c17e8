I='macroslib/src/cpp/finterface.rs'
R(I,'''    fn n_arguments_list(n: usize) -> String {
        (0..n)
            .map(|v| format!("a{}", v))
            .fold(String::new(), |mut acc, x| {
                if !acc.is_empty() {
                    acc.push_str(", ");
                }
                acc.push_str(&x);
                acc
            })
    }
''','''    fn n_arguments_list(n: usize) -> String {
        let names: Vec<String> = (0..n).map(|v| format!("a{}", v)).collect();
        names.join(", ")
    }
''')
R(I,'''            .map(|(i, v)| format!("a{}: {}", i, DisplayToTokens(&v.as_named_arg().unwrap().ty)))
            .fold(String::new(), |mut acc, x| {
                acc.push_str(", ");
                acc.push_str(&x);
                acc
            });
        let self_arg''','''            .map(|(i, v)| format!(", a{}: {}", i, DisplayToTokens(&v.as_named_arg().unwrap().ty)))
            .collect();
        let self_arg''')
R(I,'''            args = if n_args == 0 {
                "".to_string()
            } else {
                n_arguments_list(n_args) + ","
            },''','''            args = call_args,''')
R(I,'''        let ret_type = format!(
            "{}",
            DisplayToTokens(&f_method.output.base.corresponding_rust_type.ty)
        );
        writeln!(
            &mut code,
            r#"
    #[allow(unused_mut)]''','''        let ret_type = DisplayToTokens(&f_method.output.base.corresponding_rust_type.ty).to_string();
        let mut call_args = n_arguments_list(n_args);
        if n_args > 0 {
            call_args.push(',');
        }
        writeln!(
            &mut code,
            r#"
    #[allow(unused_mut)]''')
E='macroslib/src/java_jni/fenum.rs'
R(E,'''    for (i, item) in fenum.items.iter().enumerate() {
        let item_name = &item.rust_name;
        let idx = i as i32;
        arms_to_jint.push(quote! { #item_name => #idx });
        arms_from_jint.push(quote! { #idx => #item_name });
    }
''','''    let mut idx = 0_i32;
    for item in &fenum.items {
        let item_name = &item.rust_name;
        arms_to_jint.push(quote! { #item_name => #idx });
        arms_from_jint.push(quote! { #idx => #item_name });
        idx += 1;
    }
''')
R(E,'''    let jint_rty = ctx.conv_map.ty_to_rust_type(&parse_type! { jint });

    let enum_ftype = ForeignTypeS {
        name: ForeignTypeName::new(fenum.name.to_string(), (fenum.src_id, fenum.name.span())),
        provided_by_module: vec![],
        into_from_rust: Some(ForeignConversionRule {
            rust_ty: enum_rty.to_idx(),
            intermediate: Some(ForeignConversionIntermediate {
                input_to_output: false,
                intermediate_ty: jint_rty.to_idx(),
                conv_code: Rc::new(TypeConvCode::new(
                    format!(
                        "        {enum_name} {out} = {enum_name}.fromInt({var});",
                        out = TO_VAR_TEMPLATE,
                        enum_name = fenum.name,
                        var = FROM_VAR_TEMPLATE
                    ),
                    invalid_src_id_span(),
                )),
            }),
        }),
''','''    let jint_rty = ctx.conv_map.ty_to_rust_type(&parse_type! { jint });
    let to_java = format!(
        "        {enum_name} {out} = {enum_name}.fromInt({var});",
        out = TO_VAR_TEMPLATE,
        enum_name = fenum.name,
        var = FROM_VAR_TEMPLATE
    );
    let into_from_rust = ForeignConversionRule {
        rust_ty: enum_rty.to_idx(),
        intermediate: Some(ForeignConversionIntermediate {
            input_to_output: false,
            intermediate_ty: jint_rty.to_idx(),
            conv_code: Rc::new(TypeConvCode::new(to_java, invalid_src_id_span())),
        }),
    };

    let enum_ftype = ForeignTypeS {
        name: ForeignTypeName::new(fenum.name.to_string(), (fenum.src_id, fenum.name.span())),
        provided_by_module: vec![],
        into_from_rust: Some(into_from_rust),
''')
U='macroslib/src/java_jni/rust_code.rs'
R(U,'''    fn escape_underscore(input: &str, output: &mut String) {
        for c in input.chars() {
            match c {
                '.' => output.push('_'),
                '[' => output.push_str("_3"),
                '_' => output.push_str("_1"),
                ';' => output.push_str("_2"),
                _ => output.push(c),
            }
        }
    }
''','''    fn escape_underscore(input: &str, output: &mut String) {
        for c in input.chars() {
            let escaped = match c {
                '_' => "_1",
                ';' => "_2",
                '[' => "_3",
                '.' => "_",
                _ => {
                    output.push(c);
                    continue;
                }
            };
            output.push_str(escaped);
        }
    }
''')
R(U,'''    if java_type.contains("@NonNull") || java_type.contains("@Nullable") {
        let java_type = filter_null_annotation(java_type);
        ctx.java_type_to_jni_sig_map
            .get(java_type.trim())
            .map(SmolStr::as_str)
    } else {
        ctx.java_type_to_jni_sig_map
            .get(java_type)
            .map(SmolStr::as_str)
    }
''','''    let have_null_annotation = ["@NonNull", "@Nullable"]
        .iter()
        .any(|annotation| java_type.contains(annotation));
    let sig = if have_null_annotation {
        let java_type = filter_null_annotation(java_type);
        ctx.java_type_to_jni_sig_map.get(java_type.trim())
    } else {
        ctx.java_type_to_jni_sig_map.get(java_type)
    };
    sig.map(SmolStr::as_str)
''')
R(U,'''    let mut output = String::new();
    output.push_str("Java_");
''','''    let mut output = String::from("Java_");
''')
