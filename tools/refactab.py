REFAC = {}


def R(id, edits):
    REFAC[id] = edits


N = "src/node.rs"
KEYLOOP = '''                let mut current = None;
                for entry in &self.entries {
                    if entry.name.is_some()
                        && entry.name.as_ref().map(|i| i.value()) == Some(key.value())
                    {
                        current = Some(entry);
                    }
                }
                current
'''
KEYLOOPM = KEYLOOP.replace("in &self", "in &mut self")
IDXLOOP = '''                let mut current_idx = 0;
                for entry in &self.entries {
                    if entry.name.is_none() {
                        if current_idx == idx {
                            return Some(entry);
                        }
                        current_idx += 1;
                    }
                }
                None
'''
IDXLOOPM = IDXLOOP.replace("in &self", "in &mut self")
for i, e in enumerate([
    "self.entries.iter().rev().find(|e| e.name.as_ref().map(|n| n.value()) == Some(key.value()))",
    "self.entries.iter().filter(|e| e.name().is_some_and(|n| n.value() == key.value())).last()",
    "self.entries.iter().rfind(|e| matches!(e.name(), Some(n) if n.value() == key.value()))",
    "self.entries.iter().fold(None, |acc, e| if e.name().map(|n| n.value()) == Some(key.value()) { Some(e) } else { acc })",
    "let i = self.entries.iter().rposition(|e| e.name().map_or(false, |n| n.value() == key.value()))?;\nSome(&self.entries[i])",
    "let mut i = self.entries.len();\nwhile i > 0 {\n i -= 1;\n if let Some(n) = &self.entries[i].name { if n.value() == key.value() { return Some(&self.entries[i]); } }\n}\nNone",
    "let mut found = None;\nfor (i, e) in self.entries.iter().enumerate() { if let Some(n) = e.name() { if n.value() == key.value() { found = Some(i); } } }\nfound.map(|i| &self.entries[i])",
    "let mut it = self.entries.iter();\nwhile let Some(e) = it.next_back() { let Some(n) = e.name() else { continue }; if n.value() == key.value() { return Some(e); } }\nNone",
]):
    R("lk-key-%d" % i, {N: [(KEYLOOP, e + "\n")]})
for i, e in enumerate([
    "self.entries.iter_mut().rev().find(|e| e.name.as_ref().map(|n| n.value()) == Some(key.value()))",
    "self.entries.iter_mut().filter(|e| e.name().is_some_and(|n| n.value() == key.value())).last()",
    "let i = self.entries.iter().rposition(|e| e.name().map_or(false, |n| n.value() == key.value()))?;\nself.entries.get_mut(i)",
    "for e in self.entries.iter_mut().rev() { if let Some(n) = &e.name { if n.value() == key.value() { return Some(e); } } }\nNone",
]):
    R("lk-keym-%d" % i, {N: [(KEYLOOPM, e + "\n")]})
for i, e in enumerate([
    "self.entries.iter().filter(|e| e.name.is_none()).nth(idx)",
    "self.entries.iter().filter(|e| e.name.is_none()).skip(idx).next()",
    "self.entries.iter().filter(|e| e.name().is_none()).enumerate().find(|(i, _)| *i == idx).map(|(_, e)| e)",
    "let mut left = idx;\nfor e in &self.entries { if e.name.is_some() { continue; } if left == 0 { return Some(e); } left -= 1; }\nNone",
    "let mut i = 0;\nlet mut seen = 0;\nwhile i < self.entries.len() { let e = &self.entries[i]; if e.name.is_none() { if seen == idx { return Some(e); } seen += 1; } i += 1; }\nNone",
    "self.nth_argument(idx)",
]):
    ed = [(IDXLOOP, e + "\n")]
    if "nth_argument" in e:
        ed.append(("    fn entry_impl(&self", "    fn nth_argument(&self, n: usize) -> Option<&KdlEntry> {\n        self.entries.iter().filter(|e| e.name.is_none()).nth(n)\n    }\n\n    fn entry_impl(&self"))
    R("lk-idx-%d" % i, {N: ed})
for i, e in enumerate([
    "self.entries.iter_mut().filter(|e| e.name.is_none()).nth(idx)",
    "let mut left = idx;\nfor e in self.entries.iter_mut() { if e.name.is_some() { continue; } if left == 0 { return Some(e); } left -= 1; }\nNone",
    "let i = self.entries.iter().enumerate().filter(|(_, e)| e.name.is_none()).map(|(i, _)| i).nth(idx)?;\nSome(&mut self.entries[i])",
]):
    R("lk-idxm-%d" % i, {N: [(IDXLOOPM, e + "\n")]})
R("lk-ins-0", {N: [('''                let mut current_idx = 0;
                for (idx_existing, existing) in self.entries.iter().enumerate() {
                    if existing.name.is_none() {
                        if current_idx == idx {
                            self.entries.insert(idx_existing, entry);
                            return None;
                        }
                        current_idx += 1;
                    }
                }
                if idx > current_idx {
                    panic!("Insertion index (is {idx}) should be <= len (is {current_idx})");
                } else {
                    self.entries.push(entry);
                    None
                }
''', '''                let at = self.entries.iter().enumerate().filter(|(_, e)| e.name.is_none()).map(|(i, _)| i).nth(idx);
                if let Some(at) = at {
                    self.entries.insert(at, entry);
                    return None;
                }
                let count = self.entries.iter().filter(|e| e.name.is_none()).count();
                assert!(idx <= count, "Insertion index (is {idx}) should be <= len (is {count})");
                self.entries.push(entry);
                None
''')]})
R("lk-ins-1", {N: [('''                if let Some(existing) = self.entry_mut(key) {
                    std::mem::swap(existing, &mut entry);
                    Some(entry)
                } else {
                    self.entries.push(entry);
                    None
                }
''', '''                match self.entry_mut(key) {
                    Some(existing) => Some(std::mem::replace(existing, entry)),
                    None => {
                        self.push(entry);
                        None
                    }
                }
''')]})
R("lk-ins-2", {N: [('''                if entry.name.is_none() {
                    entry.name = Some(key_val.clone());
                }
                if entry.name.as_ref().map(|i| i.value()) != Some(key_val.value()) {
                    panic!("Property name mismatch");
                }
''', '''                let name = entry.name.get_or_insert_with(|| key_val.clone());
                assert_eq!(name.value(), key_val.value(), "Property name mismatch");
''')]})
R("lk-rem-0", {N: [('''                let idx = self
                    .entries
                    .iter()
                    .rposition(|e| e.name.as_ref().is_some_and(|n| n.value() == key.value()))?;
                Some(self.entries.remove(idx))
''', '''                let mut last = None;
                for (i, e) in self.entries.iter().enumerate() {
                    if e.name.as_ref().map(|n| n.value()) == Some(key.value()) {
                        last = Some(i);
                    }
                }
                last.map(|i| self.entries.remove(i))
''')]})
R("lk-rem-1", {N: [('''                let mut current_idx = 0;
                for (idx_entry, entry) in self.entries.iter().enumerate() {
                    if entry.name.is_none() {
                        if current_idx == idx {
                            return Some(self.entries.remove(idx_entry));
                        }
                        current_idx += 1;
                    }
                }
                panic!(
                    "removal index (is {idx}) should be < number of index entries (is {current_idx})"
                );
''', '''                let mut left = idx;
                let mut at = None;
                for (i, e) in self.entries.iter().enumerate() {
                    if e.name.is_some() {
                        continue;
                    }
                    if left == 0 {
                        at = Some(i);
                        break;
                    }
                    left -= 1;
                }
                match at {
                    Some(i) => Some(self.entries.remove(i)),
                    None => panic!(
                        "removal index (is {idx}) should be < number of index entries (is {})",
                        idx - left
                    ),
                }
''')]})
D = "src/document.rs"
R("doc-get-0", {D: [("        self.nodes.iter().find(move |n| n.name().value() == name)\n", "        for node in &self.nodes {\n            if node.name().value() == name {\n                return Some(node);\n            }\n        }\n        None\n")]})
R("doc-get-1", {D: [("        self.nodes.iter().find(move |n| n.name().value() == name)\n", "        let i = self.nodes.iter().position(|n| n.name().value() == name)?;\n        self.nodes.get(i)\n")]})
R("doc-get-2", {D: [("        self.get(name).and_then(|node| node.get(0))\n", "        let node = self.get(name)?;\n        node.entry(0).map(|e| e.value())\n")]})
R("doc-get-3", {D: [("        self.get(name).and_then(|node| node.get(0))\n", "        self.iter_args(name).next()\n")]})
R("doc-args-0", {D: [('''        self.get(name)
            .map(|n| n.entries())
            .unwrap_or_default()
            .iter()
            .filter(|e| e.name().is_none())
            .map(|e| e.value())
''', '''        self.get(name)
            .into_iter()
            .flat_map(|n| n.entries().iter())
            .filter_map(|e| if e.name().is_none() { Some(e.value()) } else { None })
''')]})
R("doc-args-1", {D: [('''            .filter(|e| e.name().value() == "-")
            .filter_map(|e| e.get(0))
''', '''            .filter_map(|e| {
                if e.name().value() != "-" {
                    return None;
                }
                e.get(0)
            })
''')]})
EN, ID, FM, VA = "src/entry.rs", "src/identifier.rs", "src/fmt.rs", "src/value.rs"
R("acc-0", {N: [
    ("        self.entries.retain(keep)", "        let mut keep = keep;\n        self.entries.retain(|e| keep(e));"),
    ("        self.entries.sort_by_key(f)", "        let mut f = f;\n        self.entries.sort_by(|a, b| f(a).cmp(&f(b)))"),
    ("        self.entries.is_empty()", "        self.len() == 0"),
    ("        self.entries.clear();", "        self.entries = Vec::new();"),
    ("        self.ty = Some(ty.into());", "        *self.ty_mut() = Some(ty.into());"),
    ("        self.children = Some(children);", "        self.children.replace(children);"),
], EN: [
    ("        self.name = name.map(|x| x.into());", "        self.name = match name {\n            Some(name) => Some(name.into()),\n            None => None,\n        };"),
    ("        self.format = Some(format);", "        let _ = self.format.insert(format);"),
    ("        self.name.as_mut()", "        match &mut self.name {\n            Some(n) => Some(n),\n            None => None,\n        }"),
    ('''        Self {
            ty: None,
            value: value.into(),
            name: Some(key.into()),
            format: None,
            #[cfg(feature = "span")]
            span: SourceSpan::from(0..0),
        }
''', '''        let mut entry = Self::new(value);
        entry.set_name(Some(key));
        entry
'''),
    ('''        format!("{self}").len()''', '''        self.to_string().len()'''),
    ('''        self.len() == 0''', '''        self.to_string().is_empty()'''),
    ('''        if let Some(fmt) = self.format_mut() {
            fmt.autoformat_keep = true;
        }
''', '''        let Some(fmt) = self.format.as_mut() else { return };
        fmt.autoformat_keep = true;
'''),
]})
R("acc-1", {N: [
    ("        self.entries.sort_by(compare)", "        let mut compare = compare;\n        self.entries_mut().sort_by(|a, b| compare(a, b))"),
    ("        self.entries.clear();", "        self.entries.truncate(0);"),
    ("        self.entries.push(entry.into());", "        let entry = entry.into();\n        self.entries.extend([entry]);"),
    ("        self.children = None;", "        self.children.take();"),
], FM: [
    ('''        if let Some(indent_level) = indent_level {
            self.0.indent_level = indent_level;
        }
        self
''', '''        match indent_level {
            Some(level) => self.indent_level(level),
            None => self,
        }
'''),
    ("pub const fn maybe_indent_level(mut self", "pub const fn maybe_indent_level(self"),
    ("        FormatConfigBuilder(FormatConfig { indent, ..self.0 })", "        FormatConfigBuilder(FormatConfig {\n            indent_level: self.0.indent_level,\n            indent,\n            no_comments: self.0.no_comments,\n            entry_autoformate_keep: self.0.entry_autoformate_keep,\n        })"),
], "src/document.rs": [
    ("        self.nodes.into_iter()", "        let Self { nodes, .. } = self;\n        nodes.into_iter()"),
    ("        self.nodes.iter_mut()\n", "        self.nodes_mut().iter_mut()\n"),
    ('''        format!("{self}").len()''', '''        let text = self.to_string();\n        text.len()'''),
]})
R("fmt-0", {FM: [
    ('''    for _ in 0..config.indent_level {
        result.push_str(config.indent);
    }
    *leading = result;
''', '''    push_indent(&mut result, config);
    *leading = result;
'''),
    ('''                    for _ in 0..config.indent_level {
                        result.push_str(config.indent);
                    }
                    writeln!(result, "{trimmed}").unwrap();
''', '''                    push_indent(&mut result, config);
                    result.push_str(trimmed);
                    result.push('\\n');
'''),
    ("pub(crate) fn autoformat_leading(", '''fn push_indent(out: &mut String, config: &FormatConfig<'_>) {
    for _ in 0..config.indent_level {
        out.push_str(config.indent);
    }
}

pub(crate) fn autoformat_leading('''),
], N: [
    ('''        self.name.clear_format();
        if let Some(ty) = self.ty.as_mut() {
            ty.clear_format()
        }
        for entry in &mut self.entries {
            if config.entry_autoformate_keep {
                entry.keep_format();
            }
            entry.autoformat();
        }
''', '''        if let Some(ty) = &mut self.ty {
            ty.autoformat();
        }
        self.name.autoformat();
        let keep = config.entry_autoformate_keep;
        self.entries.iter_mut().for_each(|entry| {
            if keep {
                entry.keep_format()
            }
            entry.autoformat()
        });
'''),
]})
R("fmt-1", {FM: [
    ('''    for _ in 0..config.indent_level {
        result.push_str(config.indent);
    }
    *leading = result;
''', '''    result.push_str(&config.indent.repeat(config.indent_level));
    *leading = result;
'''),
    ('''    if decor.is_empty() {
        return;
    }
    *decor = decor.trim().to_string();
    let mut result = String::new();
    if !decor.is_empty() && !no_comments {
        if decor.trim_start() == &decor[..] {
            write!(result, " ").unwrap();
        }
        for comment in decor.lines() {
            writeln!(result, "{comment}").unwrap();
        }
    }
    *decor = result;
''', '''    let text = decor.trim();
    let mut result = String::new();
    if !no_comments && !text.is_empty() {
        result.push(' ');
        for comment in text.lines() {
            result += comment;
            result += "\\n";
        }
    }
    *decor = result;
'''),
], "src/document.rs": [
    ('''        let mut has_nodes = false;
        for node in &mut self.nodes {
            has_nodes = true;
            node.autoformat_config(config);
        }
''', '''        let has_nodes = !self.nodes.is_empty();
        for node in self.nodes.iter_mut() {
            node.autoformat_config(config);
        }
'''),
]})
R("fmt-2", {N: [
    ('''        if let Some(children) = self.children.as_mut() {
            children.autoformat_config(&FormatConfig {
                indent_level: config.indent_level + 1,
                ..*config
            });
            if let Some''', '''        if let Some(children) = &mut self.children {
            let deeper = FormatConfig {
                indent_level: 1 + config.indent_level,
                indent: config.indent,
                no_comments: config.no_comments,
                entry_autoformate_keep: config.entry_autoformate_keep,
            };
            children.autoformat_config(&deeper);
            if let Some'''),
    ('''            if terminator.starts_with("//") && !config.no_comments {''', '''            let comment = terminator.starts_with("//");
            if comment && !config.no_comments {'''),
], EN: [
    ('''        if !self
            .format
            .as_ref()
            .map(|f| f.autoformat_keep)
            .unwrap_or(false)
        {
            self.format = None;
        } else {
''', '''        let keep = matches!(&self.format, Some(f) if f.autoformat_keep);
        if !keep {
            self.format = None;
        } else {
'''),
    ('''            self.format = self.format.take().map(|f| KdlEntryFormat {
                value_repr: f.value_repr,
                leading: f.leading,
                ..Default::default()
            });
''', '''            if let Some(f) = self.format.take() {
                self.format = Some(KdlEntryFormat {
                    value_repr: f.value_repr,
                    leading: f.leading,
                    ..Default::default()
                });
            }
'''),
]})

D = "src/document.rs"
R("v1-0", {N: [
    ('''        self.ty = self.ty.take().map(|ty| ty.value().into());
        let v2_name: KdlIdentifier = self.name.value().into();
        self.name = v2_name;
        for entry in self.iter_mut() {
            entry.ensure_v2();
        }
        self.children = self.children.take().map(|mut doc| {
            doc.ensure_v2();
            doc
        });
''', '''        for entry in &mut self.entries {
            entry.ensure_v2();
        }
        self.name.clear_format();
        if let Some(ty) = &mut self.ty {
            ty.clear_format();
        }
        if let Some(doc) = self.children.as_mut() {
            doc.ensure_v2();
        }
'''),
    ('''        for ident in self.ty.iter_mut().chain([&mut self.name]) {
            let v1_name: kdlv1::KdlIdentifier = ident.value().into();
            ident.set_repr(v1_name.to_string());
        }
        for entry in self.iter_mut() {
            entry.ensure_v1();
        }
        self.children = self.children.take().map(|mut children| {
            children.ensure_v1();
            children
        });
''', '''        fn respell(ident: &mut KdlIdentifier) {
            let v1_name = kdlv1::KdlIdentifier::from(ident.value());
            ident.set_repr(v1_name.to_string());
        }
        respell(&mut self.name);
        if let Some(ty) = self.ty.as_mut() {
            respell(ty);
        }
        if let Some(children) = self.children.as_mut() {
            children.ensure_v1();
        }
        self.entries.iter_mut().for_each(|e| e.ensure_v1());
'''),
]})
R("v1-1", {EN: [
    ('''        if let Some(value_repr) = value_repr.as_ref() {
            self.format = Some(
                self.format
                    .clone()
                    .map(|mut x| {
                        x.value_repr = value_repr.into();
                        x
                    })
                    .unwrap_or_else(|| KdlEntryFormat {
                        value_repr: value_repr.into(),
                        leading: " ".into(),
                        ..Default::default()
                    }),
            )
        }
    }''', '''        if let (Some(value_repr), Some(format)) = (value_repr, self.format.as_mut()) {
            format.value_repr = value_repr;
        }
    }'''),
    ('''                KdlValue::Bool(b) => b.to_string(),
                KdlValue::Null => "null".to_string(),''', '''                KdlValue::Bool(true) => "true".into(),
                KdlValue::Bool(false) => "false".into(),
                KdlValue::Null => String::from("null"),'''),
], D: [
    ('''        for node in self.nodes_mut().iter_mut() {
            node.ensure_v2();
        }''', '''        self.nodes.iter_mut().for_each(KdlNode::ensure_v2);'''),
]})
R("v1-2", {D: [
    ('''        let mut iter = self.nodes_mut().iter_mut().rev();
        let last = iter.next();
        let penult = iter.next();
        if let Some(last) = last {
            if let Some(fmt) = last.format_mut() {
                if fmt.terminator.is_empty() {
                    fmt.terminator = ";".into();
                }
            } else {
                let maybe_indent = {
                    if let Some(penult) = penult {
                        if let Some(fmt) = penult.format() {
                            fmt.leading.clone()
                        } else {
                            "".into()
                        }
                    } else {
                        "".into()
                    }
                };
''', '''        let mut iter = self.nodes.iter_mut().rev();
        if let Some(last) = iter.next() {
            if let Some(fmt) = last.format_mut() {
                if fmt.terminator.is_empty() {
                    fmt.terminator.push(';');
                }
            } else {
                let maybe_indent = iter
                    .next()
                    .and_then(|penult| penult.format())
                    .map(|fmt| fmt.leading.clone())
                    .unwrap_or_default();
'''),
]})

VP = "src/v2_parser.rs"
R("parse-0", {VP: [
    ('''    let (_, maybe_val, errs) = parser.recoverable_parse(LocatingSlice::new(input));
    if let (Some(v), true) = (maybe_val, errs.is_empty()) {
        Ok(v)
    } else {
        Err(failure_from_errs(errs, input))
    }''', '''    let (_rest, value, errors) = parser.recoverable_parse(LocatingSlice::new(input));
    match value {
        Some(value) if errors.is_empty() => Ok(value),
        _ => Err(failure_from_errs(errors, input)),
    }'''),
    ('''    let src = Arc::new(String::from(input));
    KdlError {
        input: src.clone(),
        diagnostics: errs
            .into_iter()
            // The parser is only called with &str so this should never panic.
            .map(|e| e.into_inner().unwrap())
            .map(|e| KdlDiagnostic {
                input: src.clone(),
                span: e.span.unwrap_or_else(|| (0usize..0usize).into()),
                message: e
                    .message
                    .or_else(|| e.label.clone().map(|l| format!("Expected {l}"))),
                label: e.label.map(|l| format!("not {l}")),
                help: e.help,
                severity: Severity::Error,
            })
            .collect(),
    }''', '''    let src = Arc::new(input.to_string());
    let mut diagnostics = Vec::with_capacity(errs.len());
    for err in errs {
        // The parser is only called with &str so this should never panic.
        let KdlParseError {
            message,
            span,
            label,
            help,
            ..
        } = err.into_inner().unwrap();
        let message = match (message, &label) {
            (Some(message), _) => Some(message),
            (None, Some(label)) => Some(format!("Expected {label}")),
            (None, None) => None,
        };
        diagnostics.push(KdlDiagnostic {
            input: Arc::clone(&src),
            span: span.unwrap_or((0usize..0usize).into()),
            message,
            label: label.map(|l| format!("not {l}")),
            help,
            severity: Severity::Error,
        });
    }
    KdlError {
        input: src,
        diagnostics,
    }'''),
], "src/node.rs": [
    ('''            v2_parser::try_parse(v2_parser::padded_node, s)
                .or_else(|e| KdlNode::parse_v1(s).map_err(|_| e))''', '''            match v2_parser::try_parse(v2_parser::padded_node, s) {
                Ok(node) => Ok(node),
                Err(v2_error) => match Self::parse_v1(s) {
                    Ok(node) => Ok(node),
                    Err(_) => Err(v2_error),
                },
            }'''),
]})
R("parse-1", {VP: [
    ('''    let mut err = match parser.parse_next(i) {
        Ok(o) => {
            return Ok(Some(o));
        }
        Err(e) if e.is_incomplete() => return Err(e),
        Err(e) if e.is_backtrack() => return Err(e),
        Err(err) => err,
    };
    let err_start = i.checkpoint();
    if recover.parse_next(i).is_ok() {
        if let Err(err_) = i.record_err(&token_start, &err_start, err) {
            err = err_;
        } else {
            return Ok(None);
        }
    }
''', '''    let mut err = match parser.parse_next(i) {
        Ok(o) => return Ok(Some(o)),
        Err(e) => e,
    };
    if err.is_incomplete() || err.is_backtrack() {
        return Err(err);
    }
    let err_start = i.checkpoint();
    if recover.parse_next(i).is_ok() {
        match i.record_err(&token_start, &err_start, err) {
            Ok(()) => return Ok(None),
            Err(unrecorded) => err = unrecorded,
        }
    }
'''),
    ('''    if close_res.is_err() {
        return close_res
            .map(|_| KdlDocument::new())
            .or_else(|mut e: ErrMode<KdlParseError>| {
                e = match e {
                    ErrMode::Cut(mut pe) => {
                        pe.span = Some((_before_open_loc.._after_open_loc).into());
                        ErrMode::Cut(pe)
                    }
                    e => return Err(e),
                };
                input.record_err(&_before_open, &_before_open, e)?;
                if !ns.is_empty() {
                    input.record_err(
                        &_after_nodes,
                        &_after_nodes,
                        ErrMode::Cut(KdlParseError {
                            message: Some("Closing '}' was not found after nodes".into()),
                            span: Some((_after_open_loc.._after_nodes_loc).into()),
                            label: Some("closed".into()),
                            help: None,
                            severity: Some(Severity::Error),
                        }),
                    )?;
                }
                Ok(KdlDocument::new())
            });
    }
    Ok(ns)''', '''    match close_res {
        Ok(_) => Ok(ns),
        Err(ErrMode::Cut(mut pe)) => {
            pe.span = Some((_before_open_loc.._after_open_loc).into());
            input.record_err(&_before_open, &_before_open, ErrMode::Cut(pe))?;
            if !ns.is_empty() {
                let unclosed = KdlParseError {
                    message: Some("Closing '}' was not found after nodes".into()),
                    span: Some((_after_open_loc.._after_nodes_loc).into()),
                    label: Some("closed".into()),
                    help: None,
                    severity: Some(Severity::Error),
                };
                input.record_err(&_after_nodes, &_after_nodes, ErrMode::Cut(unclosed))?;
            }
            Ok(KdlDocument::new())
        }
        Err(e) => Err(e),
    }'''),
], D: [
    ('''            let v2_res = KdlDocument::parse_v2(s);
            if v2_res.is_err() {
                let v1_res = KdlDocument::parse_v1(s);
                if v1_res.is_ok() || detect_v1(s) {
                    v1_res
                } else {
                    // TODO(@zkat): maybe we can add something to the error
                    // message to specify that it's "uncertain"?
                    // YOLO.
                    v2_res
                }
            } else {
                v2_res
            }''', '''            Self::parse_v2(s).or_else(|v2_error| {
                let v1_res = Self::parse_v1(s);
                if v1_res.is_ok() || detect_v1(s) {
                    v1_res
                } else {
                    Err(v2_error)
                }
            })'''),
    ('''        let mut doc = KdlDocument::parse_v1(s)?;
        doc.ensure_v2();
        Ok(doc.to_string())''', '''        Self::parse_v1(s).map(|mut doc| {
            doc.ensure_v2();
            format!("{doc}")
        })'''),
]})
R("parse-2", {"src/error.rs": [
    ('''        let label = self.label.clone().unwrap_or_else(|| "here".to_owned());
        let labeled_span = LabeledSpan::new_with_span(Some(label), self.span);

        Some(Box::new(iter::once(labeled_span)))''', '''        let label = match &self.label {
            Some(label) => label.clone(),
            None => String::from("here"),
        };
        let spans = iter::once(LabeledSpan::new_with_span(Some(label), self.span));
        Some(Box::new(spans))'''),
    ('''        let message = self
            .message
            .clone()
            .unwrap_or_else(|| "Unexpected error".into());
        write!(f, "{message}")''', '''        f.write_str(self.message.as_deref().unwrap_or("Unexpected error"))'''),
    ('''        Some(Box::new(
            self.diagnostics.iter().map(|d| d as &dyn Diagnostic),
        ))''', '''        let all = self.diagnostics.iter();
        Some(Box::new(all.map(|d| -> &dyn Diagnostic { d })))'''),
    ('''        self.help.as_ref().map(|s| Box::new(s) as Box<dyn Display>)''', '''        match &self.help {
            Some(help) => Some(Box::new(help)),
            None => None,
        }'''),
    ('''        let input = Arc::new(value.input);
        Self {
            input: input.clone(),
            diagnostics: vec![KdlDiagnostic {
                input,
                span: SourceSpan::new(value.span.offset().into(), value.span.len()),
                message: Some(format!("{}", value.kind)),
                label: value.label.map(|x| x.into()),
                help: value.help.map(|x| x.into()),
                severity: Severity::Error,
            }],
        }''', '''        let input = Arc::new(value.input);
        let mut diagnostics = Vec::new();
        diagnostics.push(KdlDiagnostic {
            input: input.clone(),
            span: (value.span.offset(), value.span.len()).into(),
            message: Some(value.kind.to_string()),
            label: value.label.map(String::from),
            help: value.help.map(str::to_owned),
            severity: Severity::Error,
        });
        Self { input, diagnostics }'''),
]})

R("v1conv-0", {D: [
    ('''            nodes: value.nodes().iter().map(|x| x.clone().into()).collect(),
            format: Some(KdlDocumentFormat {
                leading: value.leading().unwrap_or("").into(),
                trailing: value.trailing().unwrap_or("").into(),
            }),''', '''            nodes: {
                let mut nodes = Vec::with_capacity(value.nodes().len());
                for node in value.nodes() {
                    nodes.push(KdlNode::from(node.clone()));
                }
                nodes
            },
            format: Some(KdlDocumentFormat {
                leading: value.leading().map(String::from).unwrap_or_default(),
                trailing: match value.trailing() {
                    Some(t) => t.to_string(),
                    None => String::new(),
                },
            }),''')],
 N: [('''            ty: value.ty().map(|x| x.clone().into()),
            name: value.name().clone().into(),
            entries: value.entries().iter().map(|x| x.clone().into()).collect(),
            children: value.children().map(|x| x.clone().into()),''', '''            ty: value.ty().cloned().map(KdlIdentifier::from),
            name: KdlIdentifier::from(value.name().clone()),
            entries: value.entries().iter().cloned().map(KdlEntry::from).collect(),
            children: match value.children() {
                Some(children) => Some(KdlDocument::from(children.clone())),
                None => None,
            },''')]})
R("v1conv-1", {N: [
    ('''        let (before_terminator, terminator, trailing) =
            split_v1_trailing(value.trailing().unwrap_or(""));
        // A v1 node may also end with its document.
        let terminator = if terminator.is_empty() {
            "\\n"
        } else {
            terminator
        };''', '''        let text = value.trailing().unwrap_or_default();
        let (before_terminator, mut terminator, trailing) = split_v1_trailing(text);
        if terminator.len() == 0 {
            terminator = "\\n";
        }'''),
    ('''    (&text[..start], &text[start..end], &text[end..])''', '''    let (head, trailing) = text.split_at(end);
    let (before, terminator) = head.split_at(start);
    (before, terminator, trailing)'''),
    ]})
R("v1conv-2", {EN: [('''            ty: value.ty().map(|x| x.clone().into()),
            value: value.value().clone().into(),
            name: value.name().map(|x| x.clone().into()),
            format: Some(KdlEntryFormat {''', '''            ty: value.ty().map(|x| KdlIdentifier::from(x.clone())),
            name: value.name().cloned().map(Into::into),
            value: KdlValue::from(value.value().to_owned()),
            format: Some(KdlEntryFormat {''')],
 "src/value.rs": [('''            kdlv1::KdlValue::RawString(s) => Self::String(s),
            kdlv1::KdlValue::String(s) => Self::String(s),
            kdlv1::KdlValue::Base2(i) => Self::Integer(i.into()),
            kdlv1::KdlValue::Base8(i) => Self::Integer(i.into()),
            kdlv1::KdlValue::Base10(i) => Self::Integer(i.into()),
            kdlv1::KdlValue::Base10Float(f) => Self::Float(f),
            kdlv1::KdlValue::Base16(i) => Self::Integer(i.into()),''', '''            kdlv1::KdlValue::RawString(s) | kdlv1::KdlValue::String(s) => Self::String(s),
            kdlv1::KdlValue::Base2(i)
            | kdlv1::KdlValue::Base8(i)
            | kdlv1::KdlValue::Base10(i)
            | kdlv1::KdlValue::Base16(i) => Self::Integer(i as i128),
            kdlv1::KdlValue::Base10Float(f) => Self::Float(f),''')],
 "src/identifier.rs": [('''            repr: value.repr().map(|x| x.into()),
            #[cfg(feature = "span")]
            span: (value.span().offset(), value.span().len()).into(),''', '''            repr: value.repr().map(ToString::to_string),
            #[cfg(feature = "span")]
            span: SourceSpan::from((value.span().offset(), value.span().len())),''')]})

SE = "src/se.rs"
R("se-0", {SE: [("        self.serialize_i64(v as i64)\n    }\n    fn serialize_i16", "        self.serialize_i64(i64::from(v))\n    }\n    fn serialize_i16"),
                ("        self.serialize_f64(v as f64)\n    }\n    fn serialize_f64(self, v: f64) -> Result<Self::Ok, Self::Error> {\n        self.doc", "        self.serialize_f64(f64::from(v))\n    }\n    fn serialize_f64(self, v: f64) -> Result<Self::Ok, Self::Error> {\n        self.doc")]})
R("se-1", {SE: [("""        for item in self.items {
            node.entries_mut().push(KdlEntry::new(item));
        }
        let children = self.parent""", """        node.entries_mut().extend(self.items.into_iter().map(KdlEntry::new));
        let children = self.parent""")]})
R("se-2", {SE: [("""        for b in v {
            seq.serialize_element(b)?;
        }
        seq.end()
    }

    fn serialize_none(self) -> Result<Self::Ok, Self::Error> {
        self.serialize_unit()""", """        v.iter().try_for_each(|b| seq.serialize_element(b))?;
        seq.end()
    }

    fn serialize_none(self) -> Result<Self::Ok, Self::Error> {
        self.serialize_unit()""")]})
R("se-3", {SE: [("""        if let Some(attr_name) = key.strip_prefix("#@") {
            let kdl_val = to_kdl_value(value)?;
            self.node
                .entries_mut()
                .push(KdlEntry::new_prop(attr_name, kdl_val));
        } else if key == "#args" {
            let mut ser = ArgsSerializer { node: self.node };
            value.serialize(&mut ser)?;
        } else if key == "#rest" {
            // TODO(@zkat): do this properly. Need to keep track of what args have been picked out.
            let mut ser = ArgsSerializer { node: self.node };
            value.serialize(&mut ser)?;
        } else if key.starts_with("#") {
            // TODO(@zkat): How do we get the ordering here?... This will just
            // insert stuff as we discover it.
            let kdl_val = to_kdl_value(value)?;
            self.node.entries_mut().push(KdlEntry::new(kdl_val));
        } else {
            let mut child = KdlNode::new(key);
            let mut child_ser = NodeValueSerializer { node: &mut child };
            value.serialize(&mut child_ser)?;
            let children = self.node.ensure_children();
            if !is_unset(value) {
                children.nodes_mut().push(child);
            }
        }
        Ok(())""", """        match key {
            "#args" | "#rest" => value.serialize(&mut ArgsSerializer { node: self.node }),
            k if k.starts_with("#@") => {
                self.node.push(KdlEntry::new_prop(&k[2..], to_kdl_value(value)?));
                Ok(())
            }
            k if k.starts_with('#') => {
                self.node.push(to_kdl_value(value)?);
                Ok(())
            }
            k => {
                let mut child = KdlNode::new(k);
                serialize_value_into_node(&mut child, value)?;
                let unset = is_unset(value);
                let children = self.node.ensure_children();
                if unset {
                    return Ok(());
                }
                children.nodes_mut().push(child);
                Ok(())
            }
        }""")]})
R("se-4", {SE: [("""        let key = self
            .current_key
            .take()
            .ok_or_else(|| ser::Error::custom("serialize_value without serialize_key"))?;
        let mut node = KdlNode::new(key);
        serialize_value_into_node(&mut node, value)?;
        self.nodes.push(node);
        Ok(())""", """        let Some(key) = std::mem::take(&mut self.current_key) else {
            return Err(ser::Error::custom("serialize_value without serialize_key"));
        };
        let mut node = KdlNode::new(key);
        match serialize_value_into_node(&mut node, value) {
            Ok(()) => {
                self.nodes.extend([node]);
                Ok(())
            }
            Err(e) => Err(e),
        }""")]})
R("se-5", {SE: [("""    matches!(
        to_kdl_value(value),
        Ok(KdlValue::Bool(false) | KdlValue::Null)
    )""", """    match to_kdl_value(value) {
        Ok(v) => v.is_null() || v == KdlValue::Bool(false),
        Err(_) => false,
    }""")]})
R("se-6", {SE: [("""        Ok(if v {
            "true".to_string()
        } else {
            "false".to_string()
        })""", "        Ok(v.to_string())")]})
R("se-7", {SE: [("""        let mut node = KdlNode::new(variant);
        let kdl_val = to_kdl_value(value)?;
        node.entries_mut().push(KdlEntry::new(kdl_val));
        self.doc.nodes_mut().push(node);
        Ok(())""", """        to_kdl_value(value).map(|v| self.doc.nodes_mut().push(value_node(variant, v)))""")]})
R("se-8", {SE: [("""    let mut ser = DocumentSerializer {
        doc: KdlDocument::new(),
    };
    value.serialize(&mut ser)?;
    Ok(ser.doc)""", """    let mut ser = DocumentSerializer {
        doc: KdlDocument::default(),
    };
    match value.serialize(&mut ser) {
        Ok(()) => Ok(ser.doc),
        Err(e) => Err(e),
    }"""), ("    let doc = to_document(value)?;\n    Ok(doc.to_string())", "    to_document(value).map(|doc| format!(\"{doc}\"))")]})
R("se-9", {SE: [("""        self.doc
            .nodes_mut()
            .push(value_node("-", KdlValue::Integer(v as i128)));
        Ok(())
    }

    fn serialize_u8""", """        let mut node = KdlNode::new("-");
        node.push(i128::from(v));
        self.doc.nodes_mut().push(node);
        Ok(())
    }

    fn serialize_u8""")]})

# ---------------------------------------------------------------- grammar actions (C02)
R("gr-doc-0", {VP: [('''    if let Some(first_node) = ns.get_mut(0)
        && let Some(first_node_format) = first_node.format_mut()
    {
        first_node_format.leading = leading.into();
        leading = "";
    }
''', '''    if let Some(first_node_format) = ns.first_mut().and_then(|n| n.format_mut()) {
        first_node_format.leading = std::mem::take(&mut leading).to_string();
    }
''')]})
R("gr-doc-1", {VP: [('''    let bom = opt(bom.take()).parse_next(input)?;
    let mut doc = nodes.parse_next(input)?;''', '''    let byte_order_mark: &str = opt(bom.take()).parse_next(input)?.unwrap_or("");
    let mut doc = nodes(input)?;'''), ('''    if let Some(bom) = bom
        && let Some(fmt) = doc.format_mut()
    {
        fmt.leading = format!("{bom}{}", fmt.leading);
    }
    Ok(doc)''', '''    match doc.format_mut() {
        Some(fmt) => fmt.leading.insert_str(0, byte_order_mark),
        None => {}
    }
    Ok(doc)''')]})
R("gr-doc-2", {VP: [('''    let bom = opt(bom.take()).parse_next(input)?;
''', '''    let bom = alt((bom.take(), "")).parse_next(input)?;
'''), ('''    if let Some(bom) = bom
        && let Some(fmt) = doc.format_mut()
    {
        fmt.leading = format!("{bom}{}", fmt.leading);
    }
''', '''    if let Some(fmt) = doc.format_mut() {
        fmt.leading = [bom, fmt.leading.as_str()].concat();
    }
''')]})
LEADS = '''    let leading = repeat(0.., alt((line_space, slashdashed_node)))
        .map(|()| ())
        .take()
        .parse_next(input)?;
'''
R("gr-lead-0", {VP: [(LEADS, '''    let leading = skipped_lines(input)?;
'''), ('''    let mut leading = repeat(0.., alt((line_space, slashdashed_node)))
        .map(|()| ())
        .take()
        .parse_next(input)?;
''', '''    let mut leading = skipped_lines(input)?;
'''), ('''        repeat(0.., alt((line_space, slashdashed_node)))
            .map(|()| ())
            .take()
            .parse_next(input)?
''', '''        skipped_lines.parse_next(input)?
'''), ('''fn base_node(input''', '''fn skipped_lines<'s>(input: &mut Input<'s>) -> PResult<&'s str> {
    repeat(0.., alt((slashdashed_node, line_space)))
        .map(|_: ()| ())
        .take()
        .parse_next(input)
}

fn base_node(input''')]})
R("gr-ents-0", {VP: [('''    .map(|e: Vec<Option<KdlEntry>>| e.into_iter().flatten().collect::<Vec<KdlEntry>>())
''', '''    .fold(Vec::new, |mut all: Vec<KdlEntry>, e: Option<KdlEntry>| {
        if let Some(e) = e {
            all.push(e);
        }
        all
    })
''')]})
R("gr-ents-1", {VP: [('''    .map(|e: Vec<Option<KdlEntry>>| e.into_iter().flatten().collect::<Vec<KdlEntry>>())
''', '''    .map(|e: Vec<Option<KdlEntry>>| e.into_iter().filter_map(|x| x).collect::<Vec<KdlEntry>>())
''')]})
R("gr-ents-2", {VP: [('''        (peek(node_space1), node_entry).map(|(_, e): ((), _)| e),
    )
    .map(|e: Vec<Option<KdlEntry>>| e.into_iter().flatten().collect::<Vec<KdlEntry>>())
    .parse_next(input)?;''', '''        preceded(peek(node_space1), node_entry),
    )
    .map(|found: Vec<Option<KdlEntry>>| {
        let mut all = Vec::with_capacity(found.len());
        for e in found {
            if let Some(e) = e {
                all.push(e);
            }
        }
        all
    })
    .parse_next(input)?;''')]})
R("gr-base-0", {VP: [('''    let (before_terminator, terminator) = if children.is_some() {
        (
            (opt(slashdashed_children), node_space0).take(),
            peek(opt(node_terminator).take()),
        )
            .parse_next(input)?
    } else {
        (
            before_node_children.take(),
            peek(opt(node_terminator).take()),
        )
            .parse_next(input)?
    };
''', '''    let before_terminator = match &children {
        Some(_) => (opt(slashdashed_children), node_space0).take().parse_next(input)?,
        None => before_node_children.take().parse_next(input)?,
    };
    let terminator = peek(opt(node_terminator).take()).parse_next(input)?;
'''), ('''    let (before_children, children) = children
        .map(|(before_children, children)| (before_children.into(), Some(children)))
        .unwrap_or(("".into(), None));
    Ok(KdlNode {
        ty,
        name,
        entries,
        children,
        format: Some(KdlNodeFormat {
            before_ty_name: before_inner_ty.into(),
            after_ty_name: after_inner_ty.into(),
            after_ty: after_ty.into(),
            before_children,
            before_terminator: before_terminator.into(),
            terminator: terminator.into(),
            ..Default::default()
        }),
        #[cfg(feature = "span")]
        span: span_from_checkpoint(input, &_start),
    })''', '''    let mut format = KdlNodeFormat::default();
    format.terminator.push_str(terminator);
    format.before_terminator = before_terminator.to_string();
    format.after_ty = String::from(after_ty);
    format.before_ty_name = before_inner_ty.to_owned();
    format.after_ty_name = after_inner_ty.to_owned();
    let children = match children {
        Some((before, block)) => {
            format.before_children = before.into();
            Some(block)
        }
        None => None,
    };
    let mut parsed = KdlNode::new(name);
    *parsed.entries_mut() = entries;
    parsed.ty = ty;
    parsed.children = children;
    parsed.set_format(format);
    #[cfg(feature = "span")]
    {
        parsed.span = span_from_checkpoint(input, &_start);
    }
    Ok(parsed)''')]})
R("gr-node-0", {VP: [('''    let mut nd = base_node.parse_next(input)?;
    if let Some(fmt) = nd.format_mut() {
        fmt.leading = leading.into();
    }
    Ok(nd)''', '''    let nd = base_node(input)?;
    Ok(with_leading(nd, leading))'''), ('''fn base_node(input''', '''fn with_leading(mut nd: KdlNode, leading: &str) -> KdlNode {
    if let Some(fmt) = nd.format_mut() {
        leading.clone_into(&mut fmt.leading);
    }
    nd
}

fn base_node(input''')]})
R("gr-node-1", {VP: [('''    let mut nd = base_node.parse_next(input)?;
    if let Some(fmt) = nd.format_mut() {
        fmt.leading = leading.into();
    }
    Ok(nd)''', '''    base_node
        .map(|mut nd| {
            if let Some(fmt) = nd.format_mut() {
                fmt.leading = leading.into();
            }
            nd
        })
        .parse_next(input)''')]})
R("gr-pad-0", {VP: [('''    let ((mut node, _terminator, trailing), _span) = (
        node,
        opt(node_terminator),
        repeat(0.., alt((line_space, node_space)))
            .map(|_: ()| ())
            .take(),
    )
        .with_span()
        .parse_next(input)?;
    if let Some(fmt) = node.format_mut() {
        fmt.trailing = trailing.into();
    }
''', '''    let before = input.current_token_start();
    let mut node = node.parse_next(input)?;
    opt(node_terminator).parse_next(input)?;
    let trailing = repeat(0.., line_space)
        .map(|_: ()| ())
        .take()
        .parse_next(input)?;
    let _span = before..input.previous_token_end();
    if let Some(fmt) = node.format_mut() {
        fmt.trailing = String::from(trailing);
    }
''')]})
R("gr-pad-1", {VP: [('''    if let Some(entry) = entry.map(|mut val| {
        if let Some(fmt) = val.format_mut() {
            fmt.leading = format!("{leading}{}", fmt.leading);
            fmt.trailing = format!("{}{trailing}", fmt.trailing);
        }
        #[cfg(feature = "span")]
        {
            val.span = _span.into();
        }
        val
    }) {
        Ok(entry)
    } else {
        fail.parse_next(input)?
    }''', '''    let Some(mut val) = entry else {
        return fail.parse_next(input);
    };
    if let Some(fmt) = val.format_mut() {
        fmt.leading.insert_str(0, leading);
        fmt.trailing += trailing;
    }
    #[cfg(feature = "span")]
    {
        val.span = _span.into();
    }
    Ok(val)''')]})
R("gr-ent-0", {VP: [('''    let ident_was_parsed = maybe_ident.is_some();
    let after_key = if ident_was_parsed {
        opt((node_space0.take(), equals_sign))
            .parse_next(input)?
            .map(|(after_key, _)| after_key)
    } else {
        None
    };
''', '''    let after_key = match maybe_ident {
        Some(_) => opt(terminated(node_space0.take(), equals_sign)).parse_next(input)?,
        None => None,
    };
'''), ('''        value.map(|mut value| {
            value.name = maybe_ident;
            if let Some(fmt) = value.format_mut() {
                fmt.after_key = after_key.into();
                fmt.after_eq = after_eq.into();
            }
            value
        })
''', '''        match value {
            None => None,
            Some(KdlEntry { format, .. }) if format.is_none() => None,
            Some(mut entry) => {
                if let Some(fmt) = &mut entry.format {
                    fmt.after_eq = after_eq.to_string();
                    fmt.after_key = after_key.to_string();
                }
                entry.name = maybe_ident;
                Some(entry)
            }
        }
''')]})
R("gr-ent-1", {VP: [('''    Ok(entry.map(|mut value| {
        if let Some(fmt) = value.format_mut() {
            fmt.leading = leading.into();
        }
        #[cfg(feature = "span")]
        {
            value.span = span_from_checkpoint(input, &_start);
        }
        value
    }))''', '''    let Some(mut found) = entry else {
        return Ok(None);
    };
    if let Some(fmt) = found.format_mut() {
        fmt.leading = leading.into();
    }
    #[cfg(feature = "span")]
    {
        found.span = span_from_checkpoint(input, &_start);
    }
    Ok(Some(found))'''), ('''                value_repr: ident.repr.unwrap_or_else(|| ident.value.clone()),
''', '''                value_repr: match ident.repr {
                    Some(text) => text,
                    None => ident.value.clone(),
                },
''')]})
R("gr-val-0", {VP: [('''    let ((ty, (value, raw)), _span) = trace(
        "value",
        (
            opt((ty, node_space0.take())),
            alt((keyword.map(Some), number.map(Some), string)).with_taken(),
        ),
    )
    .with_span()
    .parse_next(input)?;
    let ((before_ty_name, ty, after_ty_name), after_ty) = ty.unwrap_or_default();
    Ok(value.map(|value| KdlEntry {
        ty,
        value,
        name: None,
        format: Some(KdlEntryFormat {
            value_repr: raw.into(),
            after_ty: after_ty.into(),
            before_ty_name: before_ty_name.into(),
            after_ty_name: after_ty_name.into(),
            ..Default::default()
        }),
        #[cfg(feature = "span")]
        span: _span.into(),
    }))''', '''    let from = input.current_token_start();
    let annotation = opt((ty, node_space0.take())).parse_next(input)?;
    let (value, raw) = alt((keyword.map(Some), number.map(Some), string))
        .with_taken()
        .parse_next(input)?;
    let _span = from..input.previous_token_end();
    let Some(value) = value else {
        return Ok(None);
    };
    let mut format = KdlEntryFormat {
        value_repr: raw.into(),
        ..Default::default()
    };
    let mut entry_ty = None;
    if let Some(((before, name, after), space)) = annotation {
        format.before_ty_name = before.into();
        format.after_ty_name = after.into();
        format.after_ty = space.into();
        entry_ty = name;
    }
    Ok(Some(KdlEntry {
        ty: entry_ty,
        value,
        name: None,
        format: Some(format),
        #[cfg(feature = "span")]
        span: _span.into(),
    }))''')]})
R("gr-ty-0", {VP: [('''    "(".parse_next(input)?;
    let (before_ty, ty, after_ty) = (
        node_space0.take(),
        resume_after_cut(''', '''    let before_ty = preceded('(', node_space0.take()).parse_next(input)?;
    let (ty, after_ty) = (
        resume_after_cut('''), ('''        .map(|opt| opt.map(|(i, _)| i)),
        node_space0.take(),
    )
        .parse_next(input)?;
    ")".parse_next(input)?;
''', '''        .map(|opt| opt.map(|(i, _)| i)),
        terminated(node_space0.take(), ')'),
    )
        .parse_next(input)?;
''')]})
R("gr-id-0", {VP: [('''    let mut bad_ident = false;
    let ((mut ident, raw), _span) = string
        .verify_map(|ident| {
            ident
                .or_else(|| {
                    // This is a sentinel we use later for better error messages
                    bad_ident = true;
                    Some(KdlValue::String("/BAD_IDENT\\\\".into()))
                })
                .and_then(|v| match v {
                    KdlValue::String(s) => Some(KdlIdentifier::from(s)),
                    _ => None,
                })
        })
        .with_taken()
        .with_span()
        .parse_next(input)?;
    ident.set_repr(if bad_ident { "" } else { raw });
''', '''    let ((found, raw), _span) = string.with_taken().with_span().parse_next(input)?;
    let (mut ident, repr) = match found {
        Some(KdlValue::String(s)) => (KdlIdentifier::from(s), raw),
        Some(_) => return fail.parse_next(input),
        None => (KdlIdentifier::from("/BAD_IDENT\\\\"), ""),
    };
    ident.set_repr(repr);
''')]})
R("gr-kids-0", {VP: [('''    let close_res: PResult<_> = cut_err("}")
        .context(cx().msg("No closing '}' for child block").lbl("closed"))
        .parse_next(input);
    if close_res.is_err() {
        return close_res
            .map(|_| KdlDocument::new())
            .or_else(|mut e: ErrMode<KdlParseError>| {
                e = match e {
                    ErrMode::Cut(mut pe) => {
                        pe.span = Some((_before_open_loc.._after_open_loc).into());
                        ErrMode::Cut(pe)
                    }
                    e => return Err(e),
                };
                input.record_err(&_before_open, &_before_open, e)?;
                if !ns.is_empty() {
                    input.record_err(
                        &_after_nodes,
                        &_after_nodes,
                        ErrMode::Cut(KdlParseError {
                            message: Some("Closing '}' was not found after nodes".into()),
                            span: Some((_after_open_loc.._after_nodes_loc).into()),
                            label: Some("closed".into()),
                            help: None,
                            severity: Some(Severity::Error),
                        }),
                    )?;
                }
                Ok(KdlDocument::new())
            });
    }
    Ok(ns)''', '''    let close_res: PResult<_> = cut_err("}")
        .context(cx().msg("No closing '}' for child block").lbl("closed"))
        .parse_next(input);
    let mut pe = match close_res {
        Ok(_) => return Ok(ns),
        Err(ErrMode::Cut(pe)) => pe,
        Err(e) => return Err(e),
    };
    pe.span = Some((_before_open_loc.._after_open_loc).into());
    input.record_err(&_before_open, &_before_open, ErrMode::Cut(pe))?;
    if !ns.is_empty() {
        let second = ErrMode::Cut(KdlParseError {
            message: Some("Closing '}' was not found after nodes".into()),
            span: Some((_after_open_loc.._after_nodes_loc).into()),
            label: Some("closed".into()),
            help: None,
            severity: Some(Severity::Error),
        });
        input.record_err(&_after_nodes, &_after_nodes, second)?;
    }
    Ok(KdlDocument::new())''')]})
R("gr-term-0", {VP: [('''    trace(
        "node_terminator",
        alt((";".void(), newline, single_line_comment)),
    )
    .void()
    .parse_next(input)''', '''    alt((';'.void(), newline, single_line_comment)).parse_next(input)''')]})
R("gr-sp-0", {VP: [('''    repeat(0.., node_space).parse_next(input)
}''', '''    opt(node_space1).void().parse_next(input)
}''')]})
V_ = "src/value.rs"
PLAIN = """    let ident_bytes = ident.as_bytes();
    !ident.is_empty()
        && ident
            .find(crate::v2_parser::is_disallowed_ident_char)
            .is_none()
        && ident_bytes.first().map(|c| c.is_ascii_digit()) != Some(true)
        && !(ident.chars().next().map(|c| matches!(c, '.' | '-' | '+')) == Some(true)
            && ident_bytes.get(1).map(|c| c.is_ascii_digit()) == Some(true))
        // A sign and a dot in front of a digit look like a number, too.
        && !matches!(ident_bytes, [b'-' | b'+', b'.', b'0'..=b'9', ..])
        && ident != "inf"
        && ident != "-inf"
        && ident != "nan"
        && ident != "true"
        && ident != "false"
        && ident != "null"
}
"""
R("wv-plain-0", {V_: [(PLAIN, """    let looks_like_number = match ident.as_bytes() {
        [b'0'..=b'9', ..] => true,
        [b'.' | b'-' | b'+', b'0'..=b'9', ..] => true,
        [b'-' | b'+', b'.', b'0'..=b'9', ..] => true,
        _ => false,
    };
    if ident.is_empty() || looks_like_number {
        return false;
    }
    if matches!(ident, "inf" | "-inf" | "nan" | "true" | "false" | "null") {
        return false;
    }
    !ident.contains(crate::v2_parser::is_disallowed_ident_char)
}
""")]})
R("wv-plain-1", {V_: [(PLAIN, """    if ident.is_empty() || is_keyword(ident) || is_number_like(ident) {
        return false;
    }
    !ident.chars().any(crate::v2_parser::is_disallowed_ident_char)
}

fn is_keyword(ident: &str) -> bool {
    ["inf", "-inf", "nan", "true", "false", "null"].contains(&ident)
}

fn is_number_like(ident: &str) -> bool {
    let mut chars = ident.chars().peekable();
    if matches!(chars.peek(), Some('-' | '+')) {
        chars.next();
    }
    if matches!(chars.peek(), Some('.')) {
        chars.next();
    }
    matches!(chars.peek(), Some('0'..='9'))
}
""")]})
R("wv-plain-2", {V_: [(PLAIN, """    let unsigned = ident
        .strip_prefix('-')
        .or_else(|| ident.strip_prefix('+'))
        .unwrap_or(ident);
    let undotted = unsigned.strip_prefix('.').unwrap_or(unsigned);
    let number_like = undotted.starts_with(|c: char| c.is_ascii_digit());
    !ident.is_empty()
        && !number_like
        && ident
            .chars()
            .all(|c| !crate::v2_parser::is_disallowed_ident_char(c))
        && !matches!(ident, "inf" | "-inf" | "nan" | "true" | "false" | "null")
}
""")]})
R("wv-plain-3", {V_: [(PLAIN, """    for c in ident.chars() {
        if crate::v2_parser::is_disallowed_ident_char(c) {
            return false;
        }
    }
    let mut start = ident.chars();
    let number_like = match start.next() {
        None => return false,
        Some(c) if c.is_ascii_digit() => true,
        Some('.') => start.next().is_some_and(|c| c.is_ascii_digit()),
        Some('-' | '+') => match start.next() {
            Some('.') => start.next().is_some_and(|c| c.is_ascii_digit()),
            Some(c) => c.is_ascii_digit(),
            None => false,
        },
        Some(_) => false,
    };
    !number_like && !matches!(ident, "inf" | "-inf" | "nan" | "true" | "false" | "null")
}
""")]})
WLOOP = """            for char in string.chars() {
                match char {
                    '\\\\' | '"' => write!(f, "\\\\{char}")?,
                    '\\n' => write!(f, "\\\\n")?,
                    '\\r' => write!(f, "\\\\r")?,
                    '\\t' => write!(f, "\\\\t")?,
                    '\\u{08}' => write!(f, "\\\\b")?,
                    '\\u{0C}' => write!(f, "\\\\f")?,
                    // The remaining newlines end a string, and disallowed code
                    // points can only be written as escapes.
                    '\\u{0B}' | '\\u{85}' | '\\u{2028}' | '\\u{2029}' => {
                        write!(f, "\\\\u{{{:x}}}", char as u32)?
                    }
                    _ if crate::v2_parser::is_disallowed_unicode(char) => {
                        write!(f, "\\\\u{{{:x}}}", char as u32)?
                    }
                    _ => write!(f, "{char}")?,
                }
            }
"""
R("wv-write-0", {V_: [(WLOOP, """            for char in string.chars() {
                write_char(f, char)?;
            }
"""), ("""pub(crate) fn is_plain_ident""", """fn write_char(f: &mut std::fmt::Formatter<'_>, c: char) -> std::fmt::Result {
    use std::fmt::Write;
    match c {
        '\\\\' => f.write_str("\\\\\\\\"),
        '"' => f.write_str("\\\\\\""),
        '\\n' => f.write_str("\\\\n"),
        '\\r' => f.write_str("\\\\r"),
        '\\t' => f.write_str("\\\\t"),
        '\\u{08}' => f.write_str("\\\\b"),
        '\\u{0C}' => f.write_str("\\\\f"),
        '\\u{0B}' | '\\u{85}' | '\\u{2028}' | '\\u{2029}' => write!(f, "\\\\u{{{:x}}}", u32::from(c)),
        c if crate::v2_parser::is_disallowed_unicode(c) => write!(f, "\\\\u{{{:x}}}", u32::from(c)),
        c => f.write_char(c),
    }
}

pub(crate) fn is_plain_ident""")]})
R("wv-write-1", {V_: [(WLOOP, """            string.chars().try_for_each(|c| {
                let short = match c {
                    '\\\\' | '"' => Some(c),
                    '\\n' => Some('n'),
                    '\\r' => Some('r'),
                    '\\t' => Some('t'),
                    '\\u{08}' => Some('b'),
                    '\\u{0C}' => Some('f'),
                    _ => None,
                };
                if let Some(short) = short {
                    write!(f, "\\\\{short}")
                } else if matches!(c, '\\u{0B}' | '\\u{85}' | '\\u{2028}' | '\\u{2029}')
                    || crate::v2_parser::is_disallowed_unicode(c)
                {
                    write!(f, "\\\\u{{{:x}}}", c as u32)
                } else {
                    write!(f, "{c}")
                }
            })?;
""")]})
R("wv-write-2", {V_: [(WLOOP, """            let mut out = String::with_capacity(string.len());
            for char in string.chars() {
                match char {
                    '\\\\' => out.push_str("\\\\\\\\"),
                    '"' => out.push_str("\\\\\\""),
                    '\\n' => out.push_str("\\\\n"),
                    '\\r' => out.push_str("\\\\r"),
                    '\\t' => out.push_str("\\\\t"),
                    '\\u{08}' => out.push_str("\\\\b"),
                    '\\u{0C}' => out.push_str("\\\\f"),
                    '\\u{0B}' | '\\u{85}' | '\\u{2028}' | '\\u{2029}' => {
                        out.push_str(&format!("\\\\u{{{:x}}}", char as u32))
                    }
                    _ if crate::v2_parser::is_disallowed_unicode(char) => {
                        out.push_str(&format!("\\\\u{{{:x}}}", char as u32))
                    }
                    _ => out.push(char),
                }
            }
            write!(f, "{out}")?;
""")]})
R("wv-write-3", {V_: [("""        if !string.is_empty() && is_plain_ident(string) {
            write!(f, "{string}")?;
        } else {
            write!(f, "\\"")?;
""", """        if is_plain_ident(string) {
            return f.write_str(string);
        }
        {
            f.write_str("\\"")?;
""")]})
R("wv-float-0", {V_: [("""            Self::Float(value) => write!(
                f,
                "{}",
                if value == &f64::INFINITY {
                    "#inf".into()
                } else if value == &f64::NEG_INFINITY {
                    "#-inf".into()
                } else if value.is_nan() {
                    "#nan".into()
                } else {
                    format!("{:?}", *value)
                }
            ),
            Self::Bool(value) => write!(f, "#{value}"),
            Self::Null => write!(f, "#null"),
""", """            Self::Float(value) if value.is_nan() => f.write_str("#nan"),
            Self::Float(value) if value.is_infinite() => {
                f.write_str(if value.is_sign_negative() { "#-inf" } else { "#inf" })
            }
            Self::Float(value) => write!(f, "{value:?}"),
            Self::Bool(true) => f.write_str("#true"),
            Self::Bool(false) => f.write_str("#false"),
            Self::Null => f.write_str("#null"),
""")]})

R("wr-esc-0", {VP: [("""    alt((
        alt((
            "\\\\".value('\\\\'),
            "\\"".value('\\"'),
            "b".value('\\u{0008}'),
            "f".value('\\u{000C}'),
            "n".value('\\n'),
            "r".value('\\r'),
            "t".value('\\t'),
            "s".value(' '),
        )),
""", """    alt((
        any.verify_map(|c| match c {
            '\\\\' | '"' => Some(c),
            'b' => Some('\\u{8}'),
            'f' => Some('\\u{c}'),
            'n' => Some('\\n'),
            'r' => Some('\\r'),
            't' => Some('\\t'),
            's' => Some(' '),
            _ => None,
        }),
""")]})
R("wr-esc-1", {VP: [("""        (
            "u{",
            cut_err(take_while(1..=6, AsChar::is_hex_digit)),
            cut_err("}"),
        )
            .context(cx().lbl("unicode escape char"))
            .verify_map(|(_, hx, _)| {
                let val = u32::from_str_radix(hx, 16)
                    .expect("Should have already been validated to be a hex string.");
                char::from_u32(val)
            }),
""", """        preceded(
            "u{",
            terminated(
                cut_err(take_while(1..=6, |c: char| c.is_ascii_hexdigit())),
                cut_err("}"),
            ),
        )
        .context(cx().lbl("unicode escape char"))
        .verify_map(|hx| u32::from_str_radix(hx, 16).ok().and_then(char::from_u32)),
""")]})
R("wr-qs-0", {VP: [("""        .map(|(cs, _): (Vec<Option<char>>, _)| cs.into_iter().flatten().collect::<String>())
        .context(cx().lbl("quoted string"));
""", """        .map(|(cs, _): (Vec<Option<char>>, _)| {
            let mut body = String::with_capacity(cs.len());
            for c in cs {
                if let Some(c) = c {
                    body.push(c);
                }
            }
            body
        })
        .context(cx().lbl("quoted string"));
""")]})
R("wr-char-0", {VP: [("""        trace("escaped char", escaped_char),
        trace(
            "regular string char",
            (not(disallowed_unicode), none_of(['\\\\', '"'])).map(|(_, c)| c),
        ),
""", """        escaped_char,
        preceded(
            not(disallowed_unicode),
            any.verify(|c: &char| *c != '\\\\' && *c != '"'),
        ),
""")]})
R("wr-id-0", {VP: [("""                .verify_map(|s: String| {
                    if matches!(
                        s.as_str(),
                        "true" | "false" | "null" | "inf" | "-inf" | "nan"
                    ) {
                        None
                    } else {
                        Some(s)
                    }
                })
                .void(),
""", """                .verify(|s: &str| {
                    !["true", "false", "null", "inf", "-inf", "nan"].contains(&s)
                })
                .map(|_: String| ()),
""")]})
R("wr-id-1", {VP: [("""    (
        opt(signum),
        ".",
        not(digit1),
        repeat(0.., identifier_char).map(|_: ()| ()),
    )
        .void()
        .parse_next(input)
""", """    opt(one_of(['-', '+'])).void().parse_next(input)?;
    '.'.parse_next(input)?;
    not(one_of('0'..='9')).parse_next(input)?;
    repeat(0.., identifier_char).parse_next(input)
""")]})
R("wr-idch-0", {VP: [("""    DISALLOWED_IDENT_CHARS.iter().any(|ic| ic == &c)
        || NEWLINES.iter().copied().collect::<String>().contains(c)
        || UNICODE_SPACES.iter().any(|us| us == &c)
        || is_disallowed_unicode(c)
        || c == '='
""", """    match c {
        '=' => true,
        c if DISALLOWED_IDENT_CHARS.contains(&c) => true,
        c if NEWLINES.iter().any(|nl| nl.contains(c)) => true,
        c => UNICODE_SPACES.contains(&c) || is_disallowed_unicode(c),
    }
""")]})
R("wr-num-0", {VP: [("""    (
        digit1,
        repeat(0.., alt(("_", take_while(1.., AsChar::is_dec_digit)))).map(|()| ()),
    )
        .take()
        .parse_next(input)
""", """    (
        one_of('0'..='9'),
        take_while(0.., |c: char| c == '_' || c.is_ascii_digit()),
    )
        .take()
        .parse_next(input)
""")]})
R("wr-num-1", {VP: [("""    (hex, value_terminator_check).context(cx().lbl("hexadecimal number")),
        (octal, value_terminator_check).context(cx().lbl("octal number")),
        (binary, value_terminator_check).context(cx().lbl("binary number")),
        (decimal, value_terminator_check).context(cx().lbl("integer")),
    ))
    .map(|(val, _)| KdlValue::Integer(val))
""", """    terminated(hex, value_terminator_check).context(cx().lbl("hexadecimal number")),
        terminated(octal, value_terminator_check).context(cx().lbl("octal number")),
        terminated(binary, value_terminator_check).context(cx().lbl("binary number")),
        terminated(decimal, value_terminator_check).context(cx().lbl("integer")),
    ))
    .map(KdlValue::Integer)
""")]})
R("wr-kw-0", {VP: [("""    let _ = "#".parse_next(input)?;
    not(one_of(['#', '"'])).parse_next(input)?;
    cut_err(alt((
        "true".value(KdlValue::Bool(true)),
        "false".value(KdlValue::Bool(false)),
        "null".value(KdlValue::Null),
""", """    ('#', not(alt(('#', '"')))).parse_next(input)?;
    cut_err(alt((
        alt(("true".value(true), "false".value(false))).map(KdlValue::Bool),
        "null".map(|_| KdlValue::Null),
""")]})
R("wr-hex-0", {VP: [("""    alt(("0x", "0X")).parse_next(input)?;
    cut_err((
        hex_digit1,
        repeat(
            0..,
            alt(("_", take_while(1.., AsChar::is_hex_digit).take())),
        ),
    ))
    .try_map(|(l, r): (&str, Vec<&str>)| {
        T::from_str_radix(&format!("{l}{}", str::replace(&r.join(""), "_", "")), 16)
    })
""", """    Caseless("0x").parse_next(input)?;
    cut_err((
        take_while(1.., AsChar::is_hex_digit),
        take_while(0.., |c: char| c == '_' || c.is_ascii_hexdigit()),
    ))
    .try_map(|(l, r): (&str, &str)| {
        let digits: String = [l, &r.replace('_', "")].concat();
        T::from_str_radix(&digits, 16)
    })
""")]})
R("wr-str-0", {VP: [("""        alt((
            resume_after_cut(
                (identifier_string, value_terminator_check).context(cx().lbl("identifier string")),
                badval,
            ),
            resume_after_cut(
                (raw_string, value_terminator_check).context(cx().lbl("raw string")),
                alt((raw_string_badval, badval)).void(),
            ),
            resume_after_cut(
                (quoted_string, value_terminator_check).context(cx().lbl("quoted string")),
                alt((quoted_string_badval, badval)).void(),
            ),
        )),
    )
    .map(|res| res.map(|(s, _)| s))
    .parse_next(input)
""", """        alt((
            resume_after_cut(
                terminated(identifier_string, value_terminator_check)
                    .context(cx().lbl("identifier string")),
                badval,
            ),
            resume_after_cut(
                terminated(quoted_string, value_terminator_check)
                    .context(cx().lbl("quoted string")),
                alt((quoted_string_badval, badval)),
            ),
            resume_after_cut(
                terminated(raw_string, value_terminator_check).context(cx().lbl("raw string")),
                alt((raw_string_badval, badval)),
            ),
        )),
    )
    .parse_next(input)
""")]})

# ---- language server
L = "tools/kdl-lsp/src/main.rs"
LS_CH = '''        if let Some(change) = params.content_changes.last() {
            self.on_change(params.text_document.uri, &change.text).await;
        }
'''
for _k, _v in {"pop": '''        let mut changes = params.content_changes;
        if let Some(change) = changes.pop() {
            self.on_change(params.text_document.uri, &change.text).await;
        }
''', "itlast": '''        if let Some(change) = params.content_changes.into_iter().last() {
            self.on_change(params.text_document.uri, &change.text).await;
        }
''', "for": '''        for change in &params.content_changes {
            self.on_change(params.text_document.uri.clone(), &change.text).await;
        }
''', "rev": '''        if let Some(change) = params.content_changes.iter().rev().next() {
            self.on_change(params.text_document.uri, &change.text).await;
        }
''', "idx": '''        if params.content_changes.is_empty() {
            return;
        }
        let text = &params.content_changes[params.content_changes.len() - 1].text;
        self.on_change(params.text_document.uri, text).await;
''', "let": '''        let Some(TextDocumentContentChangeEvent { text, .. }) =
            params.content_changes.into_iter().next_back()
        else {
            return;
        };
        self.document_map
            .insert(params.text_document.uri.to_string(), Rope::from(text));
''', "match": '''        match params.content_changes.last().map(|c| c.text.as_str()) {
            None => tracing::debug!("no changes"),
            Some(text) => self.on_change(params.text_document.uri, text).await,
        }
'''}.items():
    R("ls-ch-" + _k, {L: [(LS_CH, _v)]})
LS_BP = '''    // Clamp the byte position to the end of the buffer. Just in case.
    let byte_idx = byte_idx.min(rope.len_bytes());
    // Get the correct line for that byte offset
    let line_idx = rope.byte_to_line(byte_idx);
'''
LS_COL = '''    let col_idx = rope.char_to_utf16_cu(rope.byte_to_char(byte_idx))
        - rope.char_to_utf16_cu(rope.line_to_char(line_idx));
    Position::new(line_idx as u32, col_idx as u32)
'''
R("ls-bp-if", {L: [("    let byte_idx = byte_idx.min(rope.len_bytes());\n", '''    let byte_idx = if byte_idx > rope.len_bytes() {
        rope.len_bytes()
    } else {
        byte_idx
    };
''')]})
R("ls-bp-min", {L: [("    let byte_idx = byte_idx.min(rope.len_bytes());\n", '''    let byte_idx = std::cmp::min(rope.len_bytes(), byte_idx);
''')]})
R("ls-bp-char", {L: [('''    let line_idx = rope.byte_to_line(byte_idx);
''', '''    let char_idx = rope.byte_to_char(byte_idx);
    let line_idx = rope.char_to_line(char_idx);
'''), ("rope.char_to_utf16_cu(rope.byte_to_char(byte_idx))", "rope.char_to_utf16_cu(char_idx)")]})
R("ls-bp-linebyte", {L: [("rope.char_to_utf16_cu(rope.line_to_char(line_idx))", "rope.char_to_utf16_cu(rope.byte_to_char(rope.line_to_byte(line_idx)))")]})
R("ls-bp-lit", {L: [("    Position::new(line_idx as u32, col_idx as u32)\n", '''    Position {
        line: line_idx as u32,
        character: col_idx as u32,
    }
''')]})
R("ls-bp-slice", {L: [(LS_COL, '''    let line_start = rope.line_to_byte(line_idx);
    let before = rope.byte_slice(line_start..byte_idx);
    Position::new(line_idx as u32, before.len_utf16_cu() as u32)
''')]})
R("ls-bp-line", {L: [(LS_COL, '''    let in_line = rope.byte_to_char(byte_idx) - rope.line_to_char(line_idx);
    let col_idx = rope.line(line_idx).char_to_utf16_cu(in_line);
    Position::new(line_idx as u32, col_idx as u32)
''')]})
R("ls-bp-try", {L: [("line_idx as u32, col_idx as u32)", "\n        line_idx.try_into().unwrap_or(u32::MAX),\n        u32::try_from(col_idx).unwrap_or(u32::MAX),\n    )")]})
LS_DG = '''                let diags = kdl_err
                    .diagnostics
                    .into_iter()
                    .map(|diag| {
                        Diagnostic::new(
                            Range::new(
                                byte_to_position(diag.span.offset(), &doc),
                                byte_to_position(diag.span.offset() + diag.span.len(), &doc),
                            ),
                            diag.severity().map(to_lsp_sev),
                            diag.code().map(|c| NumberOrString::String(c.to_string())),
                            None,
                            diag.to_string(),
                            None,
                            None,
                        )
                    })
                    .collect();
'''
R("ls-dg-fn", {L: [(LS_DG, '''                let diags = kdl_err
                    .diagnostics
                    .iter()
                    .map(|diag| to_lsp_diag(diag, &doc))
                    .collect();
'''), ("fn to_lsp_sev(", '''fn to_lsp_diag(diag: &kdl::KdlDiagnostic, rope: &Rope) -> Diagnostic {
    let start = diag.span.offset();
    let end = start + diag.span.len();
    Diagnostic {
        range: Range {
            start: byte_to_position(start, rope),
            end: byte_to_position(end, rope),
        },
        severity: diag.severity().map(to_lsp_sev),
        code: diag.code().map(|c| NumberOrString::String(c.to_string())),
        message: diag.to_string(),
        ..Default::default()
    }
}

fn to_lsp_sev(''')]})
R("ls-dg-for", {L: [(LS_DG, '''                let mut diags = Vec::with_capacity(kdl_err.diagnostics.len());
                for diag in &kdl_err.diagnostics {
                    let range = Range::new(
                        byte_to_position(diag.span.offset(), &doc),
                        byte_to_position(diag.span.offset() + diag.span.len(), &doc),
                    );
                    let code = match diag.code() {
                        Some(c) => Some(NumberOrString::String(c.to_string())),
                        None => None,
                    };
                    diags.push(Diagnostic::new(
                        range,
                        diag.severity().map(to_lsp_sev),
                        code,
                        None,
                        format!("{diag}"),
                        None,
                        None,
                    ));
                }
''')]})
LS_D0 = '''        if let Some(doc) = self.document_map.get(&params.text_document.uri.to_string()) {
            let res: std::result::Result<KdlDocument, KdlError> = doc.to_string().parse();
            if let Err(kdl_err) = res {
                let diags'''
R("ls-dg-parse", {L: [("let res: std::result::Result<KdlDocument, KdlError> = doc.to_string().parse();", '''let text = doc.value().to_string();
            let res = KdlDocument::parse(&text);''')]})
R("ls-dg-iflet", {L: [('''            let res: std::result::Result<KdlDocument, KdlError> = doc.to_string().parse();
            if let Err(kdl_err) = res {
''', '''            if let Err(kdl_err) = doc.to_string().parse::<KdlDocument>() {
''')]})
R("ls-dg-clone", {L: [('''        if let Some(doc) = self.document_map.get(&params.text_document.uri.to_string()) {
''', '''        let uri = params.text_document.uri.to_string();
        let doc = self.document_map.get(&uri).map(|d| d.value().clone());
        if let Some(doc) = doc {
''')]})
R("ls-dg-items", {L: [('''                return Ok(DocumentDiagnosticReportResult::Report(
                    DocumentDiagnosticReport::Full(RelatedFullDocumentDiagnosticReport {
                        related_documents: None,
                        full_document_diagnostic_report: FullDocumentDiagnosticReport {
                            result_id: None,
                            items: diags,
                        },
                    }),
                ));
            }
        }
        Ok(DocumentDiagnosticReportResult::Report(
            DocumentDiagnosticReport::Full(RelatedFullDocumentDiagnosticReport::default()),
        ))
''', '''                items = diags;
            }
        }
        Ok(DocumentDiagnosticReportResult::Report(
            DocumentDiagnosticReport::Full(RelatedFullDocumentDiagnosticReport {
                related_documents: None,
                full_document_diagnostic_report: FullDocumentDiagnosticReport {
                    result_id: None,
                    items,
                },
            }),
        ))
'''), ('''        tracing::debug!("diagnostic req");
''', '''        tracing::debug!("diagnostic req");
        let mut items = Vec::new();
''')]})
R("ls-dg-early", {L: [('''        if let Some(doc) = self.document_map.get(&params.text_document.uri.to_string()) {
            let res''', '''        let Some(doc) = self.document_map.get(&params.text_document.uri.to_string()) else {
            return Ok(DocumentDiagnosticReportResult::Report(
                DocumentDiagnosticReport::Full(RelatedFullDocumentDiagnosticReport::default()),
            ));
        };
        {
            let res''')]})
R("ls-sev-if", {L: [('''    match sev {
        miette::Severity::Advice => DiagnosticSeverity::HINT,
        miette::Severity::Warning => DiagnosticSeverity::WARNING,
        miette::Severity::Error => DiagnosticSeverity::ERROR,
    }
''', '''    if sev == miette::Severity::Error {
        DiagnosticSeverity::ERROR
    } else if sev == miette::Severity::Warning {
        DiagnosticSeverity::WARNING
    } else {
        DiagnosticSeverity::HINT
    }
''')]})
R("ls-st-inline", {L: [('''        let rope = ropey::Rope::from_str(text);
        self.document_map.insert(uri.to_string(), rope.clone());
''', '''        let mut builder = ropey::RopeBuilder::new();
        builder.append(text);
        self.document_map.insert(uri.into(), builder.finish());
''')]})
R("ls-st-key", {L: [('''        self.document_map.insert(uri.to_string(), rope.clone());
''', '''        let key = uri.as_str().to_owned();
        let old = self.document_map.insert(key, rope);
        if old.is_some() {
            tracing::debug!("replaced {uri}");
        }
'''), ('''            .remove(&params.text_document.uri.to_string());
''', '''            .remove(params.text_document.uri.as_str());
''')]})
R("ls-st-sync", {L: [('''    async fn on_change(&self, uri: Url, text: &str) {
        let rope = ropey::Rope::from_str(text);
        self.document_map.insert(uri.to_string(), rope.clone());
    }
''', '''    fn store(&self, uri: &Url, text: &str) {
        self.document_map.insert(uri.to_string(), Rope::from_str(text));
    }
'''), ('''        self.on_change(params.text_document.uri, &params.text_document.text)
            .await;
''', '''        let TextDocumentItem { uri, text, .. } = params.text_document;
        self.store(&uri, &text);
'''), ('''            self.on_change(params.text_document.uri, &change.text).await;
''', '''            self.store(&params.text_document.uri, &change.text);
'''), ('''        if let Some(text) = params.text.as_ref() {
            self.on_change(params.text_document.uri, text).await;
        }
''', '''        let Some(text) = params.text else { return };
        self.store(&params.text_document.uri, &text);
''')]})
R("ls-st-entry", {L: [('''        self.document_map.insert(uri.to_string(), rope.clone());
''', '''        match self.document_map.get_mut(uri.as_str()) {
            Some(mut doc) => *doc = rope,
            None => {
                self.document_map.insert(uri.to_string(), rope);
            }
        }
''')]})
R("ls-log", {L: [('''    async fn did_close(&self, params: DidCloseTextDocumentParams) {
        self''', '''    async fn did_close(&self, params: DidCloseTextDocumentParams) {
        tracing::info!(uri = %params.text_document.uri, "closed");
        self''')]})

E = "src/de.rs"
R("de-match-int", {E: [("""                if let Ok(i) = i64::try_from(*n) {
                    self.annotate(visitor.visit_i64(i))
                } else if let Ok(u) = u64::try_from(*n) {
                    self.annotate(visitor.visit_u64(u))
                } else {
                    self.annotate(visitor.visit_i128(*n))
                }
""", """                let n = *n;
                self.annotate(match (i64::try_from(n), u64::try_from(n)) {
                    (Ok(i), _) => visitor.visit_i64(i),
                    (_, Ok(u)) => visitor.visit_u64(u),
                    _ => visitor.visit_i128(n),
                })
""")]})
R("de-range-int", {E: [("""                if let Ok(i) = i64::try_from(*n) {
                    self.annotate(visitor.visit_i64(i))
                } else if let Ok(u) = u64::try_from(*n) {
                    self.annotate(visitor.visit_u64(u))
                } else {
""", """                if (i64::MIN as i128..=i64::MAX as i128).contains(n) {
                    self.annotate(visitor.visit_i64(*n as i64))
                } else if *n >= 0 && *n <= u64::MAX as i128 {
                    self.annotate(visitor.visit_u64(*n as u64))
                } else {
""")]})
R("de-own-string", {E: [("""            KdlValue::String(s) => self.annotate(visitor.visit_str(s)),
            KdlValue::Integer(n)""", """            KdlValue::String(s) => self.annotate(visitor.visit_string(s.to_string())),
            KdlValue::Integer(n)""")]})
R("de-one-map", {E: [("""        match self.value {
            KdlValue::String(s) => self.annotate(visitor.visit_str(s)),
            KdlValue::Integer(n) => {
                if let Ok(i) = i64::try_from(*n) {
                    self.annotate(visitor.visit_i64(i))
                } else if let Ok(u) = u64::try_from(*n) {
                    self.annotate(visitor.visit_u64(u))
                } else {
                    self.annotate(visitor.visit_i128(*n))
                }
            }
            KdlValue::Float(f) => self.annotate(visitor.visit_f64(*f)),
            KdlValue::Bool(b) => self.annotate(visitor.visit_bool(*b)),
            KdlValue::Null => self.annotate(visitor.visit_unit()),
        }
""", """        let result = match self.value {
            KdlValue::Null => visitor.visit_unit(),
            &KdlValue::Bool(b) => visitor.visit_bool(b),
            &KdlValue::Float(f) => visitor.visit_f64(f),
            &KdlValue::Integer(n) => match i64::try_from(n) {
                Ok(i) => visitor.visit_i64(i),
                Err(_) => match u64::try_from(n) {
                    Ok(u) => visitor.visit_u64(u),
                    Err(_) => visitor.visit_i128(n),
                },
            },
            KdlValue::String(s) => visitor.visit_str(s.as_str()),
        };
        self.annotate(result)
""")]})
R("de-option-if", {E: [("""        match self.value {
            KdlValue::Null => self.annotate(visitor.visit_none()),
            _ => visitor.visit_some(self),
        }
""", """        if self.value.is_null() {
            return self.annotate(visitor.visit_none());
        }
        visitor.visit_some(self)
""")]})
R("de-count", {E: [("""        let args = self.args();
        let props = self.props();
        args.len() == 1 && props.is_empty() && self.node.children().is_none()
""", """        let entries = self.node.entries();
        entries.len() == 1 && entries[0].name().is_none() && self.node.children().is_none()
""")]})
R("de-first", {E: [("""        self.node.entries().is_empty() && self.node.children().is_none()
    }
}

impl<'de, 'a> de::Deserializer<'de> for NodeDeserializer<'a> {""", """        self.node.children().is_none() && self.args().is_empty() && self.props().is_empty()
    }
}

impl<'de, 'a> de::Deserializer<'de> for NodeDeserializer<'a> {""")]})
R("de-args-loop", {E: [("""    fn args(&self) -> Vec<&'a KdlEntry> {
        self.node
            .entries()
            .iter()
            .filter(|e| e.name().is_none())
            .collect()
    }
""", """    fn args(&self) -> Vec<&'a KdlEntry> {
        let mut args = Vec::new();
        for entry in self.node.entries() {
            if entry.name().is_none() {
                args.push(entry);
            }
        }
        args
    }
""")]})
R("de-partition", {E: [("""        let args = self.args();
        let props = self.props();
        let has_children = self.node.children().is_some();

        if !args.is_empty() && props.is_empty() && !has_children {
""", """        let (props, args): (Vec<_>, Vec<_>) =
            self.node.entries().iter().partition(|e| e.name().is_some());

        if self.node.children().is_none() && props.is_empty() && !args.is_empty() {
""")]})
R("de-sole", {E: [("""    /// Returns true if this node is "empty" (no args, no props, no children).
""", """    fn sole(&self) -> Option<&'a KdlEntry> {
        match self.node.entries() {
            [e] if e.name().is_none() && self.node.children().is_none() => Some(e),
            _ => None,
        }
    }

    /// Returns true if this node is "empty" (no args, no props, no children).
"""), ("""        if self.is_scalar() {
            // Single argument → deserialize as scalar
            let entry = self.args()[0];
            return""", """        if let Some(entry) = self.sole() {
            // Single argument → deserialize as scalar
            return"""), ("""        if self.is_scalar() {
            ValueDeserializer::new(self.args()[0], self.input).deserialize_any(visitor)
        } else if self.is_empty() {""", """        if let Some(entry) = self.sole() {
            ValueDeserializer::new(entry, self.input).deserialize_any(visitor)
        } else if self.is_empty() {"""), ("""        } else if self.is_scalar() {
            let val = self.args()[0].value();
            if matches!(val, KdlValue::Null) {
                visitor.visit_none()
            } else {
                visitor.visit_some(self)
            }
        } else {""", """        } else if self.sole().is_some_and(|e| e.value().is_null()) {
            visitor.visit_none()
        } else {""")]})
R("de-seq-match", {E: [("""        let args = self.args();

        if !args.is_empty() && self.node.children().is_none() {
            // Arguments → sequence
            visitor.visit_seq(ArgSeqAccess {
                iter: args.into_iter(),
                input: self.input,
            })
        } else if let Some(children) = self.node.children() {
            // Children → sequence of nodes
            visitor.visit_seq(NodeListSeqAccess {
                iter: children.nodes().iter(),
                input: self.input,
            })
        } else {
            // Empty → empty sequence
            visitor.visit_seq(ArgSeqAccess {
                iter: Vec::new().into_iter(),
                input: self.input,
            })
        }
""", """        match self.node.children() {
            Some(children) => visitor.visit_seq(NodeListSeqAccess {
                iter: children.nodes().iter(),
                input: self.input,
            }),
            None => visitor.visit_seq(ArgSeqAccess {
                iter: self.args().into_iter(),
                input: self.input,
            }),
        }
""")]})
R("de-next-let", {E: [("""        self.iter
            .next()
            .map(|e| seed.deserialize(ValueDeserializer::new(e, self.input)))
            .transpose()
""", """        let Some(entry) = self.iter.next() else {
            return Ok(None);
        };
        let value = seed.deserialize(ValueDeserializer::new(entry, self.input))?;
        Ok(Some(value))
"""), ("""        self.iter
            .next()
            .map(|node| {
                seed.deserialize(NodeDeserializer {
                    node,
                    input: self.input,
                })
            })
            .transpose()
""", """        let input = self.input;
        match self.iter.next() {
            Some(node) => seed.deserialize(NodeDeserializer { node, input }).map(Some),
            None => Ok(None),
        }
""")]})
NLSH = """impl<'de, 'a> SeqAccess<'de> for NodeListSeqAccess<'a> {
    type Error = Error;

    fn next_element_seed<T: DeserializeSeed<'de>>(
        &mut self,
        seed: T,
    ) -> Result<Option<T::Value>, Self::Error> {
"""
NLS = NLSH + """        self.iter
            .next()
            .map(|node| {
                seed.deserialize(NodeDeserializer {
                    node,
                    input: self.input,
                })
            })
            .transpose()
"""
R("de-seq-index", {E: [("""struct NodeListSeqAccess<'a> {
    iter: std::slice::Iter<'a, KdlNode>,
""", """struct NodeListSeqAccess<'a> {
    nodes: &'a [KdlNode],
    pos: usize,
"""), (NLS, NLSH + """        if self.pos >= self.nodes.len() {
            return Ok(None);
        }
        let node = &self.nodes[self.pos];
        self.pos += 1;
        seed.deserialize(NodeDeserializer {
            node,
            input: self.input,
        })
        .map(Some)
"""), ("""                iter: children.nodes().iter(),
""", """                nodes: children.nodes(),
                pos: 0,
"""), ("""            iter: self.doc.nodes().iter(),
""", """            nodes: self.doc.nodes(),
            pos: 0,
""")]})
R("de-seq-split", {E: [("""struct NodeListSeqAccess<'a> {
    iter: std::slice::Iter<'a, KdlNode>,
""", """struct NodeListSeqAccess<'a> {
    rest: &'a [KdlNode],
"""), (NLS, NLSH + """        let Some((node, rest)) = self.rest.split_first() else {
            return Ok(None);
        };
        self.rest = rest;
        let input = self.input;
        seed.deserialize(NodeDeserializer { node, input }).map(Some)
"""), ("""                iter: children.nodes().iter(),
""", """                rest: children.nodes(),
"""), ("""            iter: self.doc.nodes().iter(),
""", """            rest: self.doc.nodes(),
""")]})
R("de-enum-match", {E: [("""        if let Some(children) = self.node.children() {
            let child_nodes = children.nodes();
            if child_nodes.len() == 1 {
                return visitor.visit_enum(NodeEnumAccess {
                    node: &child_nodes[0],
                    input: self.input,
                });
            }
        }
""", """        if let Some([node]) = self.node.children().map(|c| c.nodes()) {
            return visitor.visit_enum(NodeEnumAccess {
                node,
                input: self.input,
            });
        }
"""), ("""        let nodes = self.doc.nodes();
        if nodes.len() == 1 {
            visitor.visit_enum(NodeEnumAccess {
                node: &nodes[0],
                input: self.input,
            })
        } else {
            Err(Error::new(
                "expected exactly one node for enum deserialization",
            ))
            .map_err(|err| err.with_input(self.input))
        }
""", """        match self.doc.nodes() {
            [node] => visitor.visit_enum(NodeEnumAccess {
                node,
                input: self.input,
            }),
            _ => Err(Error::new("expected exactly one node for enum deserialization").with_input(self.input)),
        }
""")]})
R("de-enum-prop", {E: [("""        let props = self.props();
        if props.len() == 1 && self.args().is_empty() && self.node.children().is_none() {
            let prop = props[0];
            let name = prop.name().unwrap().value();
            return visitor.visit_enum(PropertyEnumAccess {
                key: name,
                entry: prop,
                input: self.input,
            });
        }

        // Fall back: just node name is variant
        visitor.visit_enum(NodeEnumAccess {
            node: self.node,
            input: self.input,
        })
""", """        let lone = match self.node.entries() {
            [entry] if self.node.children().is_none() => entry.name().map(|n| (n.value(), entry)),
            _ => None,
        };
        match lone {
            Some((key, entry)) => visitor.visit_enum(PropertyEnumAccess {
                key,
                entry,
                input: self.input,
            }),
            None => visitor.visit_enum(NodeEnumAccess {
                node: self.node,
                input: self.input,
            }),
        }
""")]})
R("de-variant-helper", {E: [("""struct NodeVariantAccess<'a> {
    node: &'a KdlNode,
    input: &'a Arc<String>,
}
""", """struct NodeVariantAccess<'a> {
    node: &'a KdlNode,
    input: &'a Arc<String>,
}

impl<'a> NodeVariantAccess<'a> {
    fn content(self) -> NodeDeserializer<'a> {
        let NodeVariantAccess { node, input } = self;
        NodeDeserializer { node, input }
    }
}
"""), ("""        seed.deserialize(NodeDeserializer {
            node: self.node,
            input: self.input,
        })
    }

    fn tuple_variant""", """        seed.deserialize(self.content())
    }

    fn tuple_variant"""), ("""        de::Deserializer::deserialize_seq(
            NodeDeserializer {
                node: self.node,
                input: self.input,
            },
            visitor,
        )
""", """        self.content().deserialize_seq(visitor)
""")]})
R("de-variant-inner", {E: [("""struct NodeVariantAccess<'a> {
    node: &'a KdlNode,
    input: &'a Arc<String>,
}
""", """struct NodeVariantAccess<'a> {
    inner: NodeDeserializer<'a>,
}
"""), ("""            NodeVariantAccess {
                node: self.node,
                input: self.input,
            },
""", """            NodeVariantAccess {
                inner: NodeDeserializer {
                    node: self.node,
                    input: self.input,
                },
            },
"""), ("""        seed.deserialize(NodeDeserializer {
            node: self.node,
            input: self.input,
        })
    }

    fn tuple_variant""", """        seed.deserialize(self.inner)
    }

    fn tuple_variant"""), ("""        de::Deserializer::deserialize_seq(
            NodeDeserializer {
                node: self.node,
                input: self.input,
            },
            visitor,
        )
""", """        self.inner.deserialize_seq(visitor)
"""), ("""        de::Deserializer::deserialize_map(
            NodeDeserializer {
                node: self.node,
                input: self.input,
            },
            visitor,
        )
""", """        self.inner.deserialize_map(visitor)
""")]})
R("de-with-span", {E: [("""        if self.input.is_none() {
            self.input = Some(input.clone());
        }
        if self.span.is_none() {
            self.span = Some(span);
            self.label = Some(label.into());
        }
        self
    }
}
""", """        self.input.get_or_insert_with(|| input.clone());
        match self.span {
            Some(_) => self,
            None => Error {
                span: Some(span),
                label: Some(label.into()),
                ..self
            },
        }
    }
}
""")]})
R("de-top", {E: [("""    let doc = input.parse()?;
    let input = input.to_owned().into();
    let de = DocumentDeserializer {
        doc: &doc,
        input: &input,
    };
    T::deserialize(de).map_err(|err| err.with_input(&input))
""", """    let doc: KdlDocument = KdlDocument::parse(input)?;
    let source = Arc::new(String::from(input));
    match T::deserialize(DocumentDeserializer { doc: &doc, input: &source }) {
        Ok(value) => Ok(value),
        Err(err) => Err(err.with_input(&source)),
    }
""")]})
R("de-node-ref", {E: [("""struct NodeDeserializer<'a> {
    node: &'a KdlNode,
    input: &'a Arc<String>,
}
""", """#[derive(Clone, Copy)]
struct NodeDeserializer<'a> {
    node: &'a KdlNode,
    input: &'a Arc<String>,
}
"""), ("""    fn deserialize_scalar<'de, V: Visitor<'de>>(self, visitor: V) -> Result<V::Value, Error> {
        if self.is_scalar() {
            ValueDeserializer::new(self.args()[0], self.input).deserialize_any(visitor)
        } else {
            self.deserialize_any(visitor)
        }
    }
""", """    fn deserialize_scalar<'de, V: Visitor<'de>>(self, visitor: V) -> Result<V::Value, Error> {
        self.deserialize_any(visitor)
    }
""")]})
R("de-group-iter", {E: [("""        let nodes = self.groups.get(key).unwrap();
        if nodes.len() == 1 {
            seed.deserialize(NodeDeserializer {
                node: nodes[0],
                input: self.input,
            })
        } else {
            // Multiple nodes with same name → sequence
            seed.deserialize(NodeGroupDeserializer {
                nodes,
                input: self.input,
            })
        }
""", """        let input = self.input;
        match self.groups[key].as_slice() {
            [node] => seed.deserialize(NodeDeserializer { node, input }),
            nodes => seed.deserialize(NodeGroupDeserializer { nodes, input }),
        }
""")]})
