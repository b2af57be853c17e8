P='macroslib/src/python/mod.rs'
# the argument list built with a loop
R(P,'''    let (args_list, mut args_conversions): (Vec<_>, Vec<_>) = method
        .fn_decl
        .inputs
        .iter()
        .skip(skip_args_count)
        .map(|a| {
            let named_arg = a
                .as_named_arg()
                .map_err(|err| DiagnosticError::from_syn_err(class.src_id, err))?;
            let (arg_type, arg_conversion) = generate_conversion_for_argument(
                &conv_map.find_or_alloc_rust_type(&named_arg.ty, class.src_id),
                method.span(),
                class.src_id,
                conv_map,
                &named_arg.name,
                true,
            )?;
            Ok(((&named_arg.name, arg_type), arg_conversion))
        })
        .collect::<Result<Vec<_>>>()?
        .into_iter()
        .unzip();
    if let Some(self_conversion) = self_type_conversion(class, method, conv_map)? {
        args_conversions.insert(0, self_conversion);
    }
''','''    let mut args_list = Vec::new();
    let mut args_conversions = Vec::new();
    if let Some(self_conversion) = self_type_conversion(class, method, conv_map)? {
        args_conversions.push(self_conversion);
    }
    for a in method.fn_decl.inputs.iter().skip(skip_args_count) {
        let named_arg = a
            .as_named_arg()
            .map_err(|err| DiagnosticError::from_syn_err(class.src_id, err))?;
        let arg_ty = conv_map.find_or_alloc_rust_type(&named_arg.ty, class.src_id);
        let (arg_type, arg_conversion) = generate_conversion_for_argument(
            &arg_ty,
            method.span(),
            class.src_id,
            conv_map,
            &named_arg.name,
            true,
        )?;
        args_list.push((&named_arg.name, arg_type));
        args_conversions.push(arg_conversion);
    }
''')
R(P,'''    let skip_args_count = if let MethodVariant::Method(_) = method.variant {
        1
    } else {
        0
    };
''','''    let skip_args_count = match method.variant {
        MethodVariant::Method(_) => 1,
        MethodVariant::Constructor | MethodVariant::StaticMethod => 0,
    };
''')
R(P,'''    let (return_type, rust_call_with_return_conversion) = generate_conversion_for_return(
        &conv_map
            .find_or_alloc_rust_type(&extract_return_type(&method.fn_decl.output), class.src_id),
        method.span(),
        class.src_id,
        conv_map,
        quote! {
            #method_rust_path(#( #args_conversions ),*)
        },
    )?;
''','''    let rust_call = quote! { #method_rust_path(#( #args_conversions ),*) };
    let ret_ty = extract_return_type(&method.fn_decl.output);
    let ret_ty = conv_map.find_or_alloc_rust_type(&ret_ty, class.src_id);
    let (return_type, rust_call_with_return_conversion) =
        generate_conversion_for_return(&ret_ty, method.span(), class.src_id, conv_map, rust_call)?;
''')
# conversions of elements: one helper
R(P,'''fn generate_conversion_for_return(
''','''fn convert_elem_for_return(
    elem_ty: &Type,
    method_span: Span,
    src_id: SourceId,
    conv_map: &mut TypeMap,
    elem: TokenStream,
) -> Result<(Type, TokenStream)> {
    let elem_ty = conv_map.find_or_alloc_rust_type(elem_ty, src_id);
    generate_conversion_for_return(&elem_ty, method_span, src_id, conv_map, elem)
}

fn generate_conversion_for_return(
''')
R(P,'''        let (inner_py_type, inner_conversion) = generate_conversion_for_return(
            &conv_map.find_or_alloc_rust_type(&inner, src_id),
            method_span,
            src_id,
            conv_map,
            quote! {inner},
        )?;
        Ok((
            parse_type!(Option<#inner_py_type>),
''','''        let (inner_py_type, inner_conversion) =
            convert_elem_for_return(&inner, method_span, src_id, conv_map, quote! {inner})?;
        Ok((
            parse_type!(Option<#inner_py_type>),
''')
R(P,'''        let (inner_py_type, inner_conversion) = generate_conversion_for_return(
            &conv_map.find_or_alloc_rust_type(&inner_ok, src_id),
            method_span,
            src_id,
            conv_map,
            quote! {ok_inner},
        )?;
''','''        let (inner_py_type, inner_conversion) =
            convert_elem_for_return(&inner_ok, method_span, src_id, conv_map, quote! {ok_inner})?;
''')
R(P,'''        let (types, conversions): (Vec<_>, Vec<_>) = tuple
            .elems
            .iter()
            .enumerate()
            .map(|(i, ty)| {
                let i_ident = syn::Index {
                    index: i as u32,
                    span: Span::call_site(),
                };
                generate_conversion_for_return(
                    &conv_map.find_or_alloc_rust_type(ty, src_id),
                    method_span,
                    src_id,
                    conv_map,
                    quote! {tuple.#i_ident},
                )
            })
            .collect::<Result<Vec<_>>>()?
            .into_iter()
            .unzip();
''','''        let mut types = Vec::with_capacity(tuple.elems.len());
        let mut conversions = Vec::with_capacity(tuple.elems.len());
        for (i, ty) in tuple.elems.iter().enumerate() {
            let i_ident = syn::Index::from(i);
            let (py_ty, conversion) = convert_elem_for_return(
                ty,
                method_span,
                src_id,
                conv_map,
                quote! {tuple.#i_ident},
            )?;
            types.push(py_ty);
            conversions.push(conversion);
        }
''')
# classes
R(P,'''    let rust_call_with_deref = if reference_type != Reference::None {
        if smart_pointer_info.pointer_type == PointerType::Mutex {
            return Err(''','''    let can_clone = class.clone_derived()
        || class.copy_derived()
        || smart_pointer_info.pointer_type.is_shared();
    let rust_call_with_deref = if reference_type != Reference::None {
        if smart_pointer_info.pointer_type == PointerType::Mutex {
            return Err(''')
R(P,'''        } else if class.clone_derived()
            || class.copy_derived()
            || smart_pointer_info.pointer_type.is_shared()
        {
            quote! {''','''        } else if can_clone {
            quote! {''')
R(P,'''    let py_type: Type = if reference_allowed {
        parse(&format!("&super::{}::{}", &py_mod_str, &class_name), src_id)?
    } else {
        parse(&format!("super::{}::{}", &py_mod_str, &class_name), src_id)?
    };

    let rust_instance_code = if reference_allowed {
        quote! {
            super::#py_mod::rust_instance(#arg_name_ident, py)
        }
    } else {
        quote! {
            super::#py_mod::rust_instance(&#arg_name_ident, py)
        }
    };
''','''    let (py_type_str, instance_ref) = if reference_allowed {
        (format!("&super::{}::{}", py_mod_str, class_name), quote! { #arg_name_ident })
    } else {
        (format!("super::{}::{}", py_mod_str, class_name), quote! { &#arg_name_ident })
    };
    let py_type: Type = parse(&py_type_str, src_id)?;
    let rust_instance_code = quote! {
        super::#py_mod::rust_instance(#instance_ref, py)
    };
''')
R(P,'''    if class.clone_derived() || class.copy_derived() {
        Ok(quote!((#rust_instance_code).clone()))
    } else {
        Err(DiagnosticError::new(
            class.src_id,
            method_span,
            "Passing object by value requires that it is marked with `#[derive(Clone)]` or `#[derive(Copy)]`\\
inside its `foreigner_class` macro."
        ))
    }
''','''    if !(class.clone_derived() || class.copy_derived()) {
        return Err(DiagnosticError::new(
            class.src_id,
            method_span,
            "Passing object by value requires that it is marked with `#[derive(Clone)]` or `#[derive(Copy)]`\\
inside its `foreigner_class` macro."
        ));
    }
    Ok(quote!((#rust_instance_code).clone()))
''')
R(P,'''        match pointer.pointer_type {
            // Default wrapper type for storage is `Mutex`.
            PointerType::None => Ok(SmartPointerInfo::new(PointerType::Mutex, pointer.inner_ty)),
            _ => Ok(pointer),
        }
''','''        // Default wrapper type for storage is `Mutex`.
        let pointer_type = if pointer.pointer_type == PointerType::None {
            PointerType::Mutex
        } else {
            pointer.pointer_type
        };
        Ok(SmartPointerInfo { pointer_type, inner_ty: pointer.inner_ty })
''')
R(P,'''    if let Type::Reference(ref reference) = rust_type.ty {
        if reference.mutability.is_some() {
            (
                Reference::MutRef,
                conv_map.find_or_alloc_rust_type(&reference.elem, src_id),
            )
        } else {
            (
                Reference::Ref,
                conv_map.find_or_alloc_rust_type(&reference.elem, src_id),
            )
        }
    } else {
        (Reference::None, rust_type.clone())
    }
''','''    match rust_type.ty {
        Type::Reference(ref reference) => {
            let inner = conv_map.find_or_alloc_rust_type(&reference.elem, src_id);
            let kind = match reference.mutability {
                Some(_) => Reference::MutRef,
                None => Reference::Ref,
            };
            (kind, inner)
        }
        _ => (Reference::None, rust_type.clone()),
    }
''')
R(P,'''    let primitive_types = [
        "bool", "i8", "i16", "i32", "i64", "isize", "u8", "u16", "u32", "u64", "usize", "f32",
        "f64", "String", "& str",
    ];
    primitive_types.contains(&rust_type.normalized_name.as_str())
''','''    matches!(
        rust_type.normalized_name.as_str(),
        "bool"
            | "i8"
            | "i16"
            | "i32"
            | "i64"
            | "isize"
            | "u8"
            | "u16"
            | "u32"
            | "u64"
            | "usize"
            | "f32"
            | "f64"
            | "String"
            | "& str"
    )
''')
R(P,'''    if let syn::Type::Reference(syn::TypeReference {
        ref elem,
        mutability,
        ..
    }) = ty
    {
        if mutability.is_some() && !accept_mutbl_slice {
            return None;
        }
        if let syn::Type::Slice(syn::TypeSlice { ref elem, .. }) = **elem {
            Some(elem)
        } else {
            None
        }
    } else {
        None
    }
''','''    match ty {
        syn::Type::Reference(r) if accept_mutbl_slice || r.mutability.is_none() => {
            match r.elem.as_ref() {
                syn::Type::Slice(slice) => Some(slice.elem.as_ref()),
                _ => None,
            }
        }
        _ => None,
    }
''')
PI='macroslib/src/python/python-include.rs'
R(PI,'''    if let Some(source) = error.source() {
        format!("{}\\nCaused by:\\n{}", error, swig_collect_error_message(source))
    } else {
        error.to_string()
    }''','''    let text = error.to_string();
    match error.source() {
        Some(cause) => {
            let cause_text = swig_collect_error_message(cause);
            format!("{}\\nCaused by:\\n{}", text, cause_text)
        }
        None => text,
    }''')
