P='macroslib/src/code_parse.rs'
# helpers extracted from the class parser
R(P,'''        let access = if content.peek(kw::private) {
            content.parse::<kw::private>()?;
            if content.peek(kw::protected) {
                return Err(content.error("'private' and 'protected' can not be used together"));
            }
            MethodAccess::Private
        } else if content.peek(kw::protected) {
            content.parse::<kw::protected>()?;
            MethodAccess::Protected
        } else {
            MethodAccess::Public
        };
''','''        let access = parse_access(&content)?;
''')
R(P,'''fn parse_doc_comments(input''','''fn parse_access(content: ParseStream) -> syn::Result<MethodAccess> {
    if content.peek(kw::private) {
        content.parse::<kw::private>()?;
        if content.peek(kw::protected) {
            return Err(content.error("'private' and 'protected' can not be used together"));
        }
        return Ok(MethodAccess::Private);
    }
    if content.peek(kw::protected) {
        let _kw: kw::protected = content.parse()?;
        return Ok(MethodAccess::Protected);
    }
    Ok(MethodAccess::Public)
}

fn self_variant(receiver: &syn::Receiver) -> SelfTypeVariant {
    match (receiver.reference.is_some(), receiver.mutability.is_some()) {
        (true, true) => SelfTypeVariant::RptrMut,
        (true, false) => SelfTypeVariant::Rptr,
        (false, true) => SelfTypeVariant::Mut,
        (false, false) => SelfTypeVariant::Default,
    }
}

fn parse_doc_comments(input''')
R(P,'''                Some(syn::FnArg::Receiver(syn::Receiver {
                    reference: Some(_),
                    ref mutability,
                    ..
                })) => {
                    *self_type = if mutability.is_some() {
                        SelfTypeVariant::RptrMut
                    } else {
                        SelfTypeVariant::Rptr
                    };
                }

                Some(syn::FnArg::Receiver(syn::Receiver {
                    reference: None,
                    ref mutability,
                    ..
                })) => {
                    *self_type = if mutability.is_some() {
                        SelfTypeVariant::Mut
                    } else {
                        SelfTypeVariant::Default
                    };
                }
''','''                Some(syn::FnArg::Receiver(receiver)) => {
                    *self_type = self_variant(receiver);
                }
''')
R(P,'''            Receiver(syn::Receiver {
                self_token,
                reference: Some(_),
                ref mutability,
                ..
            }) => FnArg::SelfArg(
                self_token.span(),
                if mutability.is_some() {
                    SelfTypeVariant::RptrMut
                } else {
                    SelfTypeVariant::Rptr
                },
            ),
            Receiver(syn::Receiver {
                self_token,
                reference: None,
                ref mutability,
                ..
            }) => FnArg::SelfArg(
                self_token.span(),
                if mutability.is_some() {
                    SelfTypeVariant::Mut
                } else {
                    SelfTypeVariant::Default
                },
            ),
''','''            Receiver(ref receiver) => {
                FnArg::SelfArg(receiver.self_token.span(), self_variant(receiver))
            }
''')
R(P,'''    let self_desc = match (rust_self_type, constructor_ret_type) {
        (Some(self_type), Some(constructor_ret_type)) => Some(SelfTypeDesc {
            self_type,
            constructor_ret_type,
        }),
        (None, None) => None,
        (Some(_), None) => {
            return Err(syn::Error::new(
                class_name.span(),
                "if self_type is defined you should add at least one constructor",
            ))
        }
        (None, Some(_)) => {
            return Err(syn::Error::new(
                class_name.span(),
                "there is constructor, you should define self_type",
            ))
        }
    };
''','''    if rust_self_type.is_some() != constructor_ret_type.is_some() {
        let msg = if rust_self_type.is_some() {
            "if self_type is defined you should add at least one constructor"
        } else {
            "there is constructor, you should define self_type"
        };
        return Err(syn::Error::new(class_name.span(), msg));
    }
    let self_desc = rust_self_type
        .zip(constructor_ret_type)
        .map(|(self_type, constructor_ret_type)| SelfTypeDesc {
            self_type,
            constructor_ret_type,
        });
''')
R(P,'''        if named_arg.name == "_" {
            has_unnamed_args = true;
''','''        if named_arg.name != "_" {
            continue;
        }
        {
            has_unnamed_args = true;
''')
T='macroslib/src/types.rs'
R(T,'''        let self_type_is_some = self.self_desc.is_some();
        if !self_type_is_some && has_methods {
            Err(DiagnosticError::new(
                self.src_id,
                self.span(),
                format!("class {} has methods, but no self_type defined", self.name),
            ))
        } else if''','''        let self_type_is_some = self.self_desc.is_some();
        if !self_type_is_some && has_methods {
            return Err(DiagnosticError::new(
                self.src_id,
                self.span(),
                format!("class {} has methods, but no self_type defined", self.name),
            ));
        }
        if''')
X='macroslib/src/extension.rs'
R(X,'''    for method in &class.methods {
        for attr in &method.unknown_attrs {
            if let Some(cb) = method_ext_handlers.get(attr) {
''','''    for (method, attr) in class
        .methods
        .iter()
        .flat_map(|m| m.unknown_attrs.iter().map(move |a| (m, a)))
    {
        {
            if let Some(cb) = method_ext_handlers.get(attr) {
''')
