T='macroslib/src/typemap.rs'
R(T,'''        let cached = match direction {
            petgraph::Direction::Outgoing => self.rust_to_foreign_cache.get(&rust_ty),
            petgraph::Direction::Incoming => self.rust_from_foreign_cache.get(&rust_ty),
        };
        if let Some(cached) = cached {
            return Some(*cached);
        }
''','''        if let Some(cached) = self.cached_foreign_type(rust_ty, direction) {
            return Some(cached);
        }
''')
R(T,'''                match direction {
                    petgraph::Direction::Outgoing => {
                        self.rust_to_foreign_cache.insert(rust_ty, ftype);
                    }
                    petgraph::Direction::Incoming => {
                        self.rust_from_foreign_cache.insert(rust_ty, ftype);
                    }
                }

                return Some(ftype);''','''                self.remember_foreign_type(rust_ty, ftype, direction);
                return Some(ftype);''')
R(T,'''    /// find correspoint to rust foreign type (extended)
''','''    fn cached_foreign_type(
        &self,
        rust_ty: RustTypeIdx,
        direction: petgraph::Direction,
    ) -> Option<ForeignType> {
        let cache = match direction {
            petgraph::Direction::Outgoing => &self.rust_to_foreign_cache,
            petgraph::Direction::Incoming => &self.rust_from_foreign_cache,
        };
        cache.get(&rust_ty).copied()
    }

    fn remember_foreign_type(
        &mut self,
        rust_ty: RustTypeIdx,
        ftype: ForeignType,
        direction: petgraph::Direction,
    ) {
        let cache = if direction == petgraph::Direction::Outgoing {
            &mut self.rust_to_foreign_cache
        } else {
            &mut self.rust_from_foreign_cache
        };
        cache.insert(rust_ty, ftype);
    }

    /// find correspoint to rust foreign type (extended)
''')
R(T,'''                    min_path = Some(if let Some(x) = min_path {
                        if cur.0 < x.0 {
                            cur
                        } else {
                            x
                        }
                    } else {
                        cur
                    });
''','''                    min_path = match min_path {
                        Some(x) if x.0 <= cur.0 => Some(x),
                        _ => Some(cur),
                    };
''')
R(T,'''        let path = match self.find_path(from, to, build_for_sp) {
            Ok(x) => x,
            Err(_err) => {
                debug!("convert_rust_types: no path, trying to build it");
                self.build_path_if_possible(from, to, build_for_sp);
                self.find_path(from, to, build_for_sp)?
            }
        };
        Ok(path)
''','''        if let Ok(path) = self.find_path(from, to, build_for_sp) {
            return Ok(path);
        }
        debug!("convert_rust_types: no path, trying to build it");
        self.build_path_if_possible(from, to, build_for_sp);
        self.find_path(from, to, build_for_sp)
''')
R(T,'''        for (idx, edge) in path.into_iter().enumerate() {
            let (_, target)''','''        let mut src_name = in_var_name;
        for edge in path {
            let (_, target)''')
R(T,'''                if idx != 0 { out_var_name } else { in_var_name },
                &target_typename,
                function_ret_type,
            );
            ret_code.push_str(&code);
''','''                src_name,
                &target_typename,
                function_ret_type,
            );
            src_name = out_var_name;
            ret_code += &code;
''')
R(T,'''        for edge in self.new_edges.iter().rev() {
            self.conv_graph.remove_edge(*edge);
        }
        for idx in self.new_nodes.iter().rev() {
            self.conv_graph.remove_node(*idx);
        }
''','''        while let Some(edge) = self.new_edges.pop() {
            self.conv_graph.remove_edge(edge);
        }
        while let Some(idx) = self.new_nodes.pop() {
            self.conv_graph.remove_node(idx);
        }
''')
R(T,'''        self.rust_to_foreign_cache.clear();
        self.rust_from_foreign_cache.clear();
    }
    pub(in crate::typemap) fn invalidate_conv_for_rust_type(&mut self, rti: RustTypeIdx) {
        self.rust_from_foreign_cache.remove(&rti);
        self.rust_to_foreign_cache.remove(&rti);
''','''        for cache in [
            &mut self.rust_from_foreign_cache,
            &mut self.rust_to_foreign_cache,
        ] {
            cache.clear();
        }
    }
    pub(in crate::typemap) fn invalidate_conv_for_rust_type(&mut self, rti: RustTypeIdx) {
        for cache in [
            &mut self.rust_to_foreign_cache,
            &mut self.rust_from_foreign_cache,
        ] {
            cache.remove(&rti);
        }
''')
R(T,'''        let mut new_node = false;
        let idx = if let Some(idx) = self.rust_names_map.get(&ty_name) {
            *idx
        } else {
            let names_to_graph_map = &mut self.new_nodes_names_map;
            *names_to_graph_map
                .entry(ty_name.clone())
                .or_insert_with(|| {
                    new_node = true;
                    let idx = graph.add_node(Rc::new(RustTypeS::new_without_graph_idx(
                        ty, ty_name, src_id,
                    )));
                    Rc::get_mut(&mut graph[idx])
                        .expect("Internal error: can not modify Rc")
                        .graph_idx = idx;
                    idx
                })
        };
        if new_node {
            self.new_nodes.push(idx);
        }
        idx
''','''        let known = self
            .rust_names_map
            .get(&ty_name)
            .or_else(|| self.new_nodes_names_map.get(&ty_name));
        if let Some(idx) = known {
            return *idx;
        }
        let new_ty = RustTypeS::new_without_graph_idx(ty, ty_name.clone(), src_id);
        let idx = graph.add_node(Rc::new(new_ty));
        Rc::get_mut(&mut graph[idx])
            .expect("Internal error: can not modify Rc")
            .graph_idx = idx;
        self.new_nodes_names_map.insert(ty_name, idx);
        self.new_nodes.push(idx);
        idx
''')
R(T,'''        if self.conv_graph.find_edge(from, to).is_none() {
            let edge_idx = self.conv_graph.add_edge(from, to, edge);
            self.new_edges.push(edge_idx);
        }
''','''        if self.conv_graph.find_edge(from, to).is_some() {
            return;
        }
        let new_edge = self.conv_graph.add_edge(from, to, edge);
        self.new_edges.push(new_edge);
''')
R(T,'''        let mut err = DiagnosticError::new2(
            conv_graph[from].src_id_span(),
            format!("Can not find conversion from type '{}'", conv_graph[from]),
        );
        err.span_note(
            conv_graph[to].src_id_span(),
            format!("to type '{}'", conv_graph[to]),
        );
        err.span_note(build_for_sp, "In this context");
        Err(err)
''','''        let from_ty = &conv_graph[from];
        let to_ty = &conv_graph[to];
        Err(DiagnosticError::new2(
            from_ty.src_id_span(),
            format!("Can not find conversion from type '{}'", from_ty),
        )
        .add_span_note(to_ty.src_id_span(), format!("to type '{}'", to_ty))
        .add_span_note(build_for_sp, "In this context"))
''')
W='macroslib/src/file_cache.rs'
R(W,'''        if let Ok(mut f) = File::open(&self.path) {
            let mut cur_cnt = vec![];
            f.read_to_end(&mut cur_cnt)?;
            if cur_cnt == self.cnt {
                return Ok(());
            }
        }
        let mut f = File::create(&self.path)?;
        f.write_all(&self.cnt)?;
        Ok(())
''','''        if !self.is_stale()? {
            return Ok(());
        }
        File::create(&self.path)?.write_all(&self.cnt)
''')
R(W,'''    #[allow(dead_code)]
    pub fn take_content''','''    /// true if there is no file yet, or its content differs
    fn is_stale(&self) -> Result<bool, io::Error> {
        let mut f = match File::open(&self.path) {
            Ok(f) => f,
            Err(_) => return Ok(true),
        };
        let mut cur_cnt = Vec::new();
        f.read_to_end(&mut cur_cnt)?;
        Ok(cur_cnt != self.cnt)
    }

    #[allow(dead_code)]
    pub fn take_content''')
E='macroslib/src/error.rs'
R(E,'''    pub fn new<T: Display>(src_id: SourceId, sp: Span, err: T) -> Self {
        DiagnosticError {
            data: vec![(src_id, syn::Error::new(sp, err))],
        }
    }
    pub fn new2<T: Display>((src_id, sp): SourceIdSpan, err: T) -> Self {
        DiagnosticError {
            data: vec![(src_id, syn::Error::new(sp, err))],
        }
    }
''','''    pub fn new<T: Display>(src_id: SourceId, sp: Span, err: T) -> Self {
        Self::from_syn_err(src_id, syn::Error::new(sp, err))
    }
    pub fn new2<T: Display>(sp: SourceIdSpan, err: T) -> Self {
        Self::new(sp.0, sp.1, err)
    }
''')
R(E,'''        let code_problem_len = if i == 0 {
            if i == nlines - 1 {
                end.column - start.column
            } else {
                line.len() - start.column - 1
            }
        } else if i != nlines - 1 {
            line.len()
        } else {
            end.column
        };
''','''        let is_last = i + 1 == nlines;
        let code_problem_len = match (i == 0, is_last) {
            (true, true) => end.column - start.column,
            (true, false) => line.len() - start.column - 1,
            (false, false) => line.len(),
            (false, true) => end.column,
        };
''')
R(E,'''        if prev_err_src_id.map(|id| id != *src_id).unwrap_or(true) {
            eprintln!("error in {}", src.id_of_code);
        }
        prev_err_src_id = Some(*src_id);
''','''        if prev_err_src_id != Some(*src_id) {
            eprintln!("error in {}", src.id_of_code);
        }
        prev_err_src_id = Some(*src_id);
''')
R(E,'''        for x in &self.data {
            write!(f, "{}", x.1)?;
        }
        Ok(())
''','''        self.data.iter().try_for_each(|(_, err)| write!(f, "{}", err))
''')
