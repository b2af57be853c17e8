F='macroslib/src/cpp/fclass.rs'
R(F,'''    let static_only = class
        .methods
        .iter()
        .all(|x| x.variant == MethodVariant::StaticMethod);

    generate_c''','''    let mut static_only = true;
    for m in &class.methods {
        if m.variant != MethodVariant::StaticMethod {
            static_only = false;
            break;
        }
    }

    generate_c''')
R(F,'''        let method_access = match method.access {
            MethodAccess::Private => "private",
            MethodAccess::Public => "public",
            MethodAccess::Protected => "protected",
        };
        if last_cpp_access
            .map(|last| last != method_access)
            .unwrap_or(true)
        {
            writeln!''','''        let method_access = access_specifier(method.access);
        let same_access = match last_cpp_access {
            Some(last) => last == method_access,
            None => false,
        };
        if !same_access {
            writeln!''')
R(F,'''        let have_args_except_self = if let MethodVariant::Method(_) = method.variant {
            method.fn_decl.inputs.len() > 1
        } else {
            !method.fn_decl.inputs.is_empty()
        };
''','''        let n_self_args = match method.variant {
            MethodVariant::Method(_) => 1,
            _ => 0,
        };
        let have_args_except_self = method.fn_decl.inputs.len() > n_self_args;
''')
R(F,'''            write!(
                &mut rust_args_with_types,
                "{}: {}, ",
                arg_name,
                f_type_info.as_ref().corresponding_rust_type.typename(),
            )
            .expect(WRITE_TO_MEM_FAILED_MSG);
''','''            let arg_type = f_type_info.as_ref().corresponding_rust_type.typename();
            rust_args_with_types.push_str(&format!("{}: {}, ", arg_name, arg_type));
''')
R(F,'''    let mut gen_code = deps_code_in;
    gen_code.append(&mut deps_code_out);
    gen_code.push(
        syn::parse_str(&code)
            .unwrap_or_else(|err| panic_on_syn_error("cpp internal static method", code, err)),
    );
    Ok(gen_code)
''','''    let item = parse_generated_code("cpp internal static method", code);
    Ok(join_code(vec![deps_code_in, deps_code_out], item))
''')
R(F,'''    let mut gen_code = deps_code_in;
    gen_code.append(&mut deps_code_out);
    gen_code.append(&mut deps_this);
    gen_code.push(
        syn::parse_str(&code)
            .unwrap_or_else(|err| panic_on_syn_error("cpp internal method", code, err)),
    );
    Ok(gen_code)
''','''    let item = parse_generated_code("cpp internal method", code);
    Ok(join_code(vec![deps_code_in, deps_code_out, deps_this], item))
''')
R(F,'''    let mut gen_code = deps_code_in;
    gen_code.append(&mut deps_this);
    gen_code
        .push(syn::parse_str(&code).unwrap_or_else(|err| {
            panic_on_syn_error("cpp internal constructor method", code, err)
        }));
    Ok(gen_code)
''','''    let item = parse_generated_code("cpp internal constructor method", code);
    Ok(join_code(vec![deps_code_in, deps_this], item))
''')
R(F,'''    let (mut deps_this, convert_this) = conv_map''','''    let (deps_this, convert_this) = conv_map''', 2)
R(F,'''    let (mut deps_code_out, convert_output_code) = foreign''','''    let (deps_code_out, convert_output_code) = foreign''', 2)
R(F,'''        let unpack_code = unpack_from_heap_pointer(&this_type, "this", false);
        let c_destructor_name = format!("{}_delete", class.name);
        let code = format!(
            r#"
#[allow(unused_variables, unused_mut, non_snake_case, unused_unsafe)]
#[no_mangle]
pub extern "C" fn {c_destructor_name}(this: *mut {this_type}) {{
{unpack_code}
    drop(this);
}}
"#,
            c_destructor_name = c_destructor_name,
            unpack_code = unpack_code,
            this_type = this_type_for_method,
        );
        debug!("we generate and parse code: {}", code);
        ctx.rust_code.push(
            syn::parse_str(&code).unwrap_or_else(|err| {
                panic_on_syn_error("internal cpp desctructor code", code, err)
            }),
        );
''','''        let c_destructor_name = format!("{}_delete", class.name);
        ctx.rust_code.push(destructor_code(&c_destructor_name, &this_type, &this_type_for_method));
''')
R(F,'''            own_data_check = if !plain_class { "OWN_DATA && " } else { "" },''','''            own_data_check = match plain_class {
                true => "",
                false => "OWN_DATA && ",
            },''')
APPEND(F,'''
fn access_specifier(access: MethodAccess) -> &'static str {
    match access {
        MethodAccess::Private => "private",
        MethodAccess::Public => "public",
        MethodAccess::Protected => "protected",
    }
}

fn parse_generated_code(what: &str, code: String) -> TokenStream {
    match syn::parse_str(&code) {
        Ok(item) => item,
        Err(err) => panic_on_syn_error(what, code, err),
    }
}

fn join_code(parts: Vec<Vec<TokenStream>>, last: TokenStream) -> Vec<TokenStream> {
    let mut res = Vec::new();
    for part in parts {
        res.extend(part);
    }
    res.push(last);
    res
}

fn destructor_code(name: &str, this_type: &RustType, pointee: &RustType) -> TokenStream {
    let unpack_code = unpack_from_heap_pointer(this_type, "this", false);
    let code = format!(
        r#"
#[allow(unused_variables, unused_mut, non_snake_case, unused_unsafe)]
#[no_mangle]
pub extern "C" fn {}(this: *mut {}) {{
{}
    drop(this);
}}
"#,
        name, pointee, unpack_code
    );
    debug!("we generate and parse code: {}", code);
    parse_generated_code("internal cpp desctructor code", code)
}
''')
R(F,'''                if !plain_class {
                    write!(
                        &mut inline_impl,
                        r#"
    template<bool OWN_DATA>
    inline {cpp_ret_type} {class_name}<OWN_DATA>::{method_name}({cpp_args_with_types}) noexcept
    {{
{conv_args_code}"#,
                        cpp_ret_type = cpp_ret_type,
                        class_name = class_name,
                        method_name = method_name,
                        cpp_args_with_types = cpp_args_with_types,
                        conv_args_code = conv_args_code,
                    )
                } else {
                    write!(
                        &mut inline_impl,
                        r#"
    inline {cpp_ret_type} {class_name}::{method_name}({cpp_args_with_types}) noexcept
    {{
{conv_args_code}"#,
                        cpp_ret_type = cpp_ret_type,
                        class_name = class_name,
                        method_name = method_name,
                        cpp_args_with_types = cpp_args_with_types,
                        conv_args_code = conv_args_code,
                    )
                }
                .expect(WRITE_TO_MEM_FAILED_MSG);

                if f_method.output.as_ref().name.display() != "void" {
                    writeln!(''','''                let (tmpl_decl, tmpl_args) = if plain_class {
                    ("", "")
                } else {
                    ("\\n    template<bool OWN_DATA>", "<OWN_DATA>")
                };
                inline_impl.push_str(&format!(
                    r#"{tmpl_decl}
    inline {cpp_ret_type} {class_name}{tmpl_args}::{method_name}({cpp_args_with_types}) noexcept
    {{
{conv_args_code}"#
                ));

                let has_result = f_method.output.as_ref().name.display() != "void";
                if has_result {
                    writeln!(''')
R(F,'''                        cpp_args_for_c = if !have_args_except_self {
                            String::new()
                        } else {
                            format!(", {}", cpp_args_for_c)
                        },
                        ret = ret_name,''','''                        cpp_args_for_c = with_leading_comma(have_args_except_self, &cpp_args_for_c),
                        ret = ret_name,''')
R(F,'''                        cpp_args_for_c = if !have_args_except_self {
                            String::new()
                        } else {
                            format!(", {}", cpp_args_for_c)
                        },
                        input''','''                        cpp_args_for_c = with_leading_comma(have_args_except_self, &cpp_args_for_c),
                        input''')
APPEND(F,'''
fn with_leading_comma(have_args: bool, args: &str) -> String {
    let mut res = String::new();
    if have_args {
        res.push_str(", ");
        res.push_str(args);
    }
    res
}
''')
