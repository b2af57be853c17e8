L='macroslib/src/lib.rs'
R(L,'''                    let is_our_macro = [
                        FOREIGNER_CLASS_DEPRECATED,
                        FOREIGN_CLASS,
                        FOREIGN_ENUM,
                        FOREIGN_INTERFACE_DEPRECATED,
                        FOREIGN_CALLBACK,
                        FOREIGN_TYPEMAP,
                    ]
                    .iter()
                    .any(|x| item_macro.mac.path.is_ident(x));
                    if !is_our_macro {
''','''                    if !is_flapigen_macro(&item_macro.mac.path) {
''')
R(L,'''    fn init_types_map(&mut self, target''','''    fn parse_class_item(
        &mut self,
        src_id: SourceId,
        tts: TokenStream,
        deprecated_name: bool,
    ) -> Result<ItemToExpand> {
        if deprecated_name {
            println!(
                "cargo:warning={} is deprecated, use {} instead",
                FOREIGNER_CLASS_DEPRECATED, FOREIGN_CLASS
            );
        }
        let fclass = code_parse::parse_foreigner_class(src_id, &self.config, tts)?;
        debug!("expand_foreigner_class: self_desc {:?}", fclass.self_desc);
        self.conv_map.register_foreigner_class(&fclass);
        Ok(ItemToExpand::Class(Box::new(fclass)))
    }

    fn init_types_map(&mut self, target''')
R(L,'''                        if item_macro.mac.path.is_ident(FOREIGNER_CLASS_DEPRECATED) {
                            println!(
                                "cargo:warning={} is deprecated, use {} instead",
                                FOREIGNER_CLASS_DEPRECATED, FOREIGN_CLASS
                            );
                        }
                        let fclass = code_parse::parse_foreigner_class(*src_id, &self.config, tts)?;
                        debug!("expand_foreigner_class: self_desc {:?}", fclass.self_desc);
                        self.conv_map.register_foreigner_class(&fclass);
                        items_to_expand.push(ItemToExpand::Class(Box::new(fclass)));
''','''                        let deprecated_name =
                            item_macro.mac.path.is_ident(FOREIGNER_CLASS_DEPRECATED);
                        items_to_expand.push(self.parse_class_item(
                            *src_id,
                            tts,
                            deprecated_name,
                        )?);
''')
R(L,'''        if self.rustfmt_bindings {
            let source_bytes = file.take_content();
            let new_cnt =
                rustfmt_cnt(source_bytes, RustEdition::Edition2018).unwrap_or_else(|err| {
                    panic!("Error during running of rustfmt: {}", err);
                });
            file.replace_content(new_cnt);
        }
''','''        if self.rustfmt_bindings {
            let formatted = match rustfmt_cnt(file.take_content(), RustEdition::Edition2018) {
                Ok(x) => x,
                Err(err) => panic!("Error during running of rustfmt: {}", err),
            };
            file.replace_content(formatted);
        }
''')
APPEND(L,'''
fn is_flapigen_macro(path: &syn::Path) -> bool {
    const OUR_MACROS: [&str; 6] = [
        FOREIGNER_CLASS_DEPRECATED,
        FOREIGN_CLASS,
        FOREIGN_ENUM,
        FOREIGN_INTERFACE_DEPRECATED,
        FOREIGN_CALLBACK,
        FOREIGN_TYPEMAP,
    ];
    OUR_MACROS.iter().any(|name| path.is_ident(name))
}
''')
M='macroslib/src/cpp/mod.rs'
R(M,'''                if check_if_smart_pointer_return_inner_type(&this_type, "Rc").is_none()
                    && check_if_smart_pointer_return_inner_type(&this_type, "Arc").is_none()
                {
                    return Err(DiagnosticError::new(
                        class.src_id,
                        this_type_for_method.span(),
                        format!(
                            "class {} marked as {}, but type '{}' is not Arc<> or Rc<>",
                            class.name, SMART_PTR_COPY_TRAIT, this_type
                        ),
                    ));
                }

                let has_clone = class.methods.iter().any(|x| match x.variant {
                    MethodVariant::Method(_) | MethodVariant::StaticMethod => {
                        x.rust_id.is_ident("clone")
                    }
                    MethodVariant::Constructor => false,
                });
                if has_clone {
                    return Err(DiagnosticError::new(
                        class.src_id,
                        this_type_for_method.span(),
                        format!(
                            "class {} marked as {}, but has clone method. Error: can not generate clone method.",
                            class.name, SMART_PTR_COPY_TRAIT,
                        ),
                    ));
                }
''','''                let is_rc = check_if_smart_pointer_return_inner_type(&this_type, "Rc").is_some();
                let is_arc = check_if_smart_pointer_return_inner_type(&this_type, "Arc").is_some();
                if !(is_rc || is_arc) {
                    return Err(DiagnosticError::new(
                        class.src_id,
                        this_type_for_method.span(),
                        format!(
                            "class {} marked as {}, but type '{}' is not Arc<> or Rc<>",
                            class.name, SMART_PTR_COPY_TRAIT, this_type
                        ),
                    ));
                }
                Self::check_no_clone_method(class, this_type_for_method)?;
''')
R(M,'''impl CppConfig {
    fn register_class(''','''impl CppConfig {
    fn check_no_clone_method(class: &ForeignClassInfo, this_type_for_method: &syn::Type) -> Result<()> {
        for m in &class.methods {
            let ordinary = !matches!(m.variant, MethodVariant::Constructor);
            if ordinary && m.rust_id.is_ident("clone") {
                return Err(DiagnosticError::new(
                    class.src_id,
                    this_type_for_method.span(),
                    format!(
                        "class {} marked as {}, but has clone method. Error: can not generate clone method.",
                        class.name, SMART_PTR_COPY_TRAIT,
                    ),
                ));
            }
        }
        Ok(())
    }

    fn register_class(''')
F='macroslib/src/cpp/fenum.rs'
R(F,'''        into_from_rust: Some(ForeignConversionRule {
            rust_ty: enum_rty.to_idx(),
            intermediate: Some(ForeignConversionIntermediate {
                input_to_output: false,
                intermediate_ty: u32_rty.to_idx(),
                conv_code: Rc::new(TypeConvCode::new(
                    format!(
                        "static_cast<{enum_name}>({var})",
                        enum_name = fenum.name,
                        var = FROM_VAR_TEMPLATE
                    ),
                    invalid_src_id_span(),
                )),
            }),
        }),
        from_into_rust: Some(ForeignConversionRule {
            rust_ty: enum_rty.to_idx(),
            intermediate: Some(ForeignConversionIntermediate {
                input_to_output: false,
                intermediate_ty: u32_rty.to_idx(),
                conv_code: Rc::new(TypeConvCode::new(
                    format!("static_cast<uint32_t>({FROM_VAR_TEMPLATE})"),
                    invalid_src_id_span(),
                )),
            }),
        }),
''','''        into_from_rust: Some(via_u32(format!(
            "static_cast<{}>({FROM_VAR_TEMPLATE})",
            fenum.name
        ))),
        from_into_rust: Some(via_u32(format!(
            "static_cast<uint32_t>({FROM_VAR_TEMPLATE})"
        ))),
''')
R(F,'''    let enum_ftype = ForeignTypeS {
''','''    let via_u32 = |code: String| ForeignConversionRule {
        rust_ty: enum_rty.to_idx(),
        intermediate: Some(ForeignConversionIntermediate {
            input_to_output: false,
            intermediate_ty: u32_rty.to_idx(),
            conv_code: Rc::new(TypeConvCode::new(code, invalid_src_id_span())),
        }),
    };
    let enum_ftype = ForeignTypeS {
''')
R(F,'''            doc_comments = doc_comments,
            separator = if i == enum_info.items.len() - 1 {
                ""
            } else {
                ","
            },
''','''            doc_comments = doc_comments,
            separator = if i + 1 < enum_info.items.len() { "," } else { "" },
''')
R(F,'''    let mut arms_to_u32 = Vec::with_capacity(enum_info.items.len());
    let mut arms_from_u32 = Vec::with_capacity(enum_info.items.len());
    assert!((enum_info.items.len() as u64) <= u64::from(u32::MAX));
    for (i, item) in enum_info.items.iter().enumerate() {
        let item_name = &item.rust_name;
        let idx = i as u32;
        arms_to_u32.push(quote! { #item_name => #idx });
        arms_from_u32.push(quote! { #idx => #item_name });
    }
''','''    assert!((enum_info.items.len() as u64) <= u64::from(u32::MAX));
    let (arms_to_u32, arms_from_u32): (Vec<_>, Vec<_>) = enum_info
        .items
        .iter()
        .enumerate()
        .map(|(i, item)| {
            let item_name = &item.rust_name;
            let idx = i as u32;
            (
                quote! { #item_name => #idx },
                quote! { #idx => #item_name },
            )
        })
        .unzip();
''')
P='macroslib/src/python/mod.rs'
R(P,'''        let foreign_variants = enum_info.items.iter().map(|item| &item.name);
        let rust_variants = enum_info
            .items
            .iter()
            .map(|item| &item.rust_name)
            .collect::<Vec<_>>();
        let rust_variants_ref_1 = &rust_variants;
        let rust_variants_ref_2 = &rust_variants;
''','''        let mut foreign_variants = Vec::new();
        let mut rust_variants = Vec::new();
        for item in &enum_info.items {
            foreign_variants.push(&item.name);
            rust_variants.push(&item.rust_name);
        }
        let rust_variants_ref_1 = &rust_variants;
        let rust_variants_ref_2 = &rust_variants;
''')
